/* Stand-in for the few GSL entry points the FDTD library uses (GSL itself is
 * not installed here).  Deterministic xorshift; declarations follow GSL. */
#ifndef VP_GSL_RNG_H
#define VP_GSL_RNG_H
typedef struct { const char *name; } gsl_rng_type;
typedef struct { const gsl_rng_type *type; unsigned long s; } gsl_rng;
extern const gsl_rng_type *gsl_rng_default;
const gsl_rng_type *gsl_rng_env_setup(void);
gsl_rng *gsl_rng_alloc(const gsl_rng_type *T);
void gsl_rng_set(const gsl_rng *r, unsigned long seed);
double gsl_rng_uniform(const gsl_rng *r);
#endif

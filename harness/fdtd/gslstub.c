#include <gsl/gsl_randist.h>
#include <math.h>
#include <stdlib.h>
static gsl_rng_type deft = {"vp"};
const gsl_rng_type *gsl_rng_default = &deft;
const gsl_rng_type *gsl_rng_env_setup(void) { return gsl_rng_default; }
gsl_rng *gsl_rng_alloc(const gsl_rng_type *T) {
  static gsl_rng one;
  one.type = T;
  one.s = 1;
  return &one;
}
void gsl_rng_set(const gsl_rng *r, unsigned long seed) {
  ((gsl_rng *)r)->s = seed * 2654435761UL + 88172645463325252UL;
}
double gsl_rng_uniform(const gsl_rng *r) {
  gsl_rng *w = (gsl_rng *)r;
  unsigned long x = w->s;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  w->s = x;
  return (double)(x >> 11) / 9007199254740992.0;
}
double gsl_ran_gaussian(const gsl_rng *r, double sigma) {
  double u = gsl_rng_uniform(r), v = gsl_rng_uniform(r);
  if (u < 1e-300)
    u = 1e-300;
  return sigma * sqrt(-2 * log(u)) * cos(2 * 3.14159265358979323846 * v);
}

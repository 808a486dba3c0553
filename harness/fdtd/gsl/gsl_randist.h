#ifndef VP_GSL_RANDIST_H
#define VP_GSL_RANDIST_H
#include <gsl/gsl_rng.h>
double gsl_ran_gaussian(const gsl_rng *r, double sigma);
#endif

#define VARIANT 1
#include "shim_rate.h"
void s_ts_add(const struct timespec *a, struct timespec *b) { my_timespec_add(a, b); }
void s_ts_sub(const struct timespec *a, struct timespec *b) { my_timespec_sub(a, b); }
double s_ts_to_double(const struct timespec *a) { return my_timespec_to_double(a); }
void s_ts_from_double(double d, struct timespec *a) { my_timespec_from_double(d, a); }
void s_nanosleep(const struct timespec *a) { my_nanosleep(a); }

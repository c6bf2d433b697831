// my_rate.c against a virtual clock. VARIANT 0: gettimeofday/nanosleep, 1: clock_gettime/nanosleep, 2: clock_gettime/clock_nanosleep
#include <stdint.h>
#include <stdlib.h>
#include <math.h>
#include <time.h>
#include <errno.h>
#include <assert.h>
#include <unistd.h>
#include <sys/time.h>
#undef HAVE_CLOCK_GETTIME
#undef HAVE_CLOCK_NANOSLEEP
#if VARIANT >= 1
# define HAVE_CLOCK_GETTIME 1
#endif
#if VARIANT >= 2
# define HAVE_CLOCK_NANOSLEEP 1
#endif
int vt_clock_gettime(clockid_t c, struct timespec *t); int vt_gettimeofday(struct timeval *tv, void *z);
int vt_nanosleep(const struct timespec *r, struct timespec *m); int vt_clock_nanosleep(clockid_t c, int f, const struct timespec *r, struct timespec *m); int vt_usleep(useconds_t u);
#define clock_gettime vt_clock_gettime
#define gettimeofday vt_gettimeofday
#define nanosleep vt_nanosleep
#define clock_nanosleep vt_clock_nanosleep
#define usleep vt_usleep
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define my_rate_init CAT(my_rate_init, VARIANT)
#define my_rate_destroy CAT(my_rate_destroy, VARIANT)
#define my_rate_sleep CAT(my_rate_sleep, VARIANT)
#include "my_rate.c"

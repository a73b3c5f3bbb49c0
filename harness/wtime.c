/* MPI_Wtime against the clock it reads: any second of the next 250 years with a microsecond
 * of the list.
 * case 0..19: one reading, microsecond us[case]   20..: two readings, any second and any
 * elapsed whole seconds   90: the clock fails   (+100: through Fortran) */
#define OWN_CLOCK
#include <sys/time.h>
#include <time.h>
#include "env.h"
static long SEC[4], USEC[4];
static int nread, fails;
int gettimeofday(struct timeval *tv, void *tz) {
  if (fails) return -1;
  tv->tv_sec = SEC[nread]; tv->tv_usec = USEC[nread]; nread++;
  return 0;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (fails) return -1;
  t->tv_sec = SEC[nread]; t->tv_nsec = USEC[nread] * 1000; nread++;
  return 0;
}
extern double mpi_wtime_(void);
static double now(int f) { double w = f ? mpi_wtime_() : MPI_Wtime(); CHECK(fails || nread > 0, "the clock is read on every call"); return w; }
static const long us[20] = {0, 999999, 1, 500000, 123456, 2, 3, 7, 499999, 500001, 65535, 65536, 131071, 262144, 524287, 524288, 999998, 100000, 10, 899999};
static const long pr[][2] = {{0, 0}, {0, 1}, {999998, 999999}, {999999, 0}, {1, 999999}, {500000, 499999}, {123456, 654321}, {654321, 123456}};
int main(void) {
  int c = sx_case(), f = c >= 100;
  double w, v;
  c %= 100;
  sx_term_forbidden("reading the clock");
  if (c == 90) {
    fails = 1;
    sx_term_allowed("the clock cannot be read");
    w = now(f);
    CHECK(0, "no time is made up when the clock cannot be read");
  }
  long s = sx_i64("seconds");
  sx_assume(s >= 0 && s < 1L << 33);
  if (c < 20) {
    long u = us[c];
    SEC[0] = s; USEC[0] = u;
    w = now(f);
    v = u / 1e6;
    CHECK((w >= s) & (w - s >= v - 1e-6) & (w - s <= v + 1e-6), "the time is the clock's to a microsecond");
  } else {
    long u = pr[c - 20][0], u2 = pr[c - 20][1], e = sx_i64("elapsed");
#ifdef THOROUGH
    sx_assume(e >= 0 && e < 1L << 33);
#else
    sx_assume(e >= 0 && e < 1L << 10 && s >= (1L << 31) - 512 && s < (1L << 31) + 512);
#endif
    sx_assume(e > 0 || u2 >= u);
    SEC[0] = s; USEC[0] = u; SEC[1] = s + e; USEC[1] = u2;
    w = now(f);
    nread = 1;
    v = now(f);
    if (u2 > u) CHECK(v > w, "a later reading is later");
    else CHECK(v >= w, "time does not go back");
    double d = (double)e + (u2 - u) / 1e6;
    CHECK((v - w >= d - 4e-6) & (v - w <= d + 4e-6), "the difference of two readings is the elapsed time");
  }
  COVER("read");
  sx_end();
}

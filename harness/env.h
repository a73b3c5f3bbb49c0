/* Environment the library calls: every harness includes this once. */
#ifndef ENV_H
#define ENV_H
#include <string.h>
#include <stdlib.h>
#include "mpi.h"
#include "sx.h"
#include "names.h"
/* sizes of Fortran REAL and DOUBLE PRECISION in this configuration */
#ifdef CONFIG_FORT_REAL
#define HREAL CONFIG_FORT_REAL
#else
#define HREAL 4
#endif
#ifdef CONFIG_FORT_DOUBLE
#define HDOUBLE CONFIG_FORT_DOUBLE
#else
#define HDOUBLE 8
#endif
/* The Fortran side of MPI_Init (fort.F90): it calls mpi_save_fort_pointers_ with the
 * addresses of the common-block sentinels. */
static int F_STATUS_IGNORE[8], F_STATUSES_IGNORE[8], F_IN_PLACE[8];
extern void mpi_save_fort_pointers_(int *, int *, int *);
#ifndef OWN_HOSTNAME
int gethostname(char *name, size_t len) { strncpy(name, "host", len); return 0; }
#endif
#ifndef OWN_CLOCK
#include <sys/time.h>
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = 1; tv->tv_usec = 0; return 0; }
#include <time.h>
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1; t->tv_nsec = 0; return 0; }
#endif
#ifndef OWN_FORT_POINTERS
void mpi_get_fort_pointers_(void) { mpi_save_fort_pointers_(F_STATUS_IGNORE, F_STATUSES_IGNORE, F_IN_PLACE); }
#endif
#if !defined(FAPI) && !defined(CLEAN)
/* Most harnesses start with a past: types, communicators and requests of every kind were made
 * and ended, so that what is made next may find their remains.  Those through the Fortran
 * entry points start fresh. */
static int with_a_past(int *argc, char ***argv) {
  int r = MPI_Init(argc, argv), i, bl[4] = {1, 2, 1, 1}, per[3] = {1, 0, 1}, one[3] = {1, 1, 1}, fl;
  static int a[64], b[64];
  long d[4] = {-4, 8, 24, 60};
  MPI_Datatype ot[4] = {MPI_LB, MPI_INT, MPI_DOUBLE, MPI_UB}, t[3];
  MPI_Comm c[3], w = MPI_COMM_WORLD;
  MPI_Request q[12];
  MPI_Status s;
  if (r != MPI_SUCCESS) return r;
  MPI_Type_struct(4, bl, d, ot, &t[0]);
  MPI_Type_vector(2, 1, 3, MPI_INT, &t[1]);
  MPI_Type_dup(t[0], &t[2]);
  for (i = 0; i < 3; i++) MPI_Type_commit(&t[i]);
  MPI_Comm_dup(w, &c[0]);
  MPI_Cart_create(w, 3, one, per, 0, &c[1]);
  MPI_Comm_split(w, 5, 6, &c[2]);
  for (i = 0; i < 12; i++) { /* receives and sends, derived and not, to be freed or completed */
    MPI_Datatype y = i & 1 ? t[1] : MPI_INT;
    MPI_Comm m = i & 2 ? c[i / 4] : w;
    if (i < 6) MPI_Irecv(b + 4 * i, 9, MPI_INT, 0, 700 + i, m, &q[i]);
    else MPI_Isend(a, 1 + i % 3, y, 0, 700 + i, m, &q[i]);
  }
  for (i = 0; i < 12; i++) if (i % 3 == 0) MPI_Request_free(&q[i]);
  MPI_Iprobe(0, 707, c[1], &fl, &s);
  MPI_Iprobe(0, 706, c[1], &fl, &s);
  for (i = 11; i >= 0; i--) {
    MPI_Comm m = i & 2 ? c[i / 4] : w;
    if (i < 6) MPI_Send(a, 1 + i, MPI_INT, 0, 700 + i, m);
    else MPI_Recv(b + 40, 9, MPI_INT, 0, 700 + i, m, &s);
    if (i % 3) MPI_Wait(&q[i], &s);
  }
  MPI_Recv(b, 3, MPI_INT, MPI_PROC_NULL, 3, w, &s);
  for (i = 0; i < 3; i++) MPI_Comm_free(&c[i]);
  for (i = 0; i < 3; i++) MPI_Type_free(&t[i]);
  MPI_Irecv(b, 9, MPI_INT, 0, 800, w, &q[0]);
  MPI_Irecv(b, 9, MPI_INT, 0, 801, w, &q[1]);
  MPI_Isend(a, 4, MPI_INT, 0, 802, w, &q[2]);
  MPI_Request_free(&q[1]);
  MPI_Request_free(&q[2]);
  MPI_Send(a, 7, MPI_INT, 0, 800, w);
  MPI_Send(a, 7, MPI_INT, 0, 801, w);
  MPI_Recv(b, 9, MPI_INT, 0, 802, w, &s);
  MPI_Wait(&q[0], &s);
  return r;
}
#define MPI_Init with_a_past
#endif
#ifdef FAPI
#include "fapi.h"
#endif
#endif

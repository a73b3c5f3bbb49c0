/* MPI_INIT from Fortran.  fort.F90 itself is in the encoding: fgen.py rewrites gfortran's
 * intermediate representation of it as C (fort_gen.h).
 * case 0: mpi_init and the sentinels   1: mpi_init_thread   2: a constant that differs
 * 3: a type whose size differs   4: every constant of mpif.h against mpi.h */
#define OWN_FORT_POINTERS
#include "env.h"
extern int mpi_init_fort_(), mpi_recv_(), mpi_isend_(), mpi_waitall_(), mpi_allreduce_(), mpi_initialized_(), mpi_testsome_(), mpi_irecv_();
extern int MPI_Get_Version(int *, int *);
static int k[] = {MPI_COMM_WORLD, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_PROC_NULL, MPI_ROOT, MPI_COMM_NULL, MPI_REQUEST_NULL,
    MPI_GROUP_NULL, MPI_GROUP_EMPTY, MPI_UNDEFINED, MPI_MAX_ERROR_STRING, MPI_MAX_PROCESSOR_NAME, MPI_STATUS_SIZE, 1, 2, 3,
    MPI_INTEGER, MPI_LOGICAL, MPI_REAL, MPI_DOUBLE_PRECISION, MPI_COMPLEX};
static char area[5][9000];
static int sz[5] = {4, 4, HREAL, HDOUBLE, 2 * HREAL};
static void init(long *d) {
  static int status[MPI_STATUS_SIZE];
  int ie = 77;
  mpi_init_fort_(k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k + 7, k + 8, k + 9, k + 10, k + 11, k + 12, k + 13, k + 14, k + 15,
    status, status, status + 1, status + 2, k + 16, area[0], area[0] + d[0], k + 17, area[1], area[1] + d[1], k + 18, area[2], area[2] + d[2],
    k + 19, area[3], area[3] + d[3], k + 20, area[4], area[4] + d[4], &ie);
  CHECK(ie == MPI_SUCCESS, "the error code is MPI_SUCCESS");
}
#ifndef NOGEN
static void sentinels(void) {
  int w = MPI_COMM_WORLD, ty = MPI_INTEGER, z = 0, one = 1, two = 2, tag = 5, ie = 77, b = 0, v, q[2], out[2], x[2], i;
  v = sx_i32("v");
  memset(common_mpi_status_ignore, 0x5b, sizeof common_mpi_status_ignore);
  memset(common_mpi_statuses_ignore, 0x5c, sizeof common_mpi_statuses_ignore);
  mpi_isend_(&v, &one, &ty, &z, &tag, &w, q, &ie);
  mpi_recv_(&b, &one, &ty, &z, &tag, &w, common_mpi_status_ignore, &ie);
  CHECK(ie == 0 && b == v, "received with MPI_STATUS_IGNORE");
  b = 0;
  mpi_irecv_(&b, &one, &ty, &z, &tag, &w, q + 1, &ie);
  mpi_isend_(&v, &one, &ty, &z, &tag, &w, q, &ie);
  mpi_waitall_(&two, q, common_mpi_statuses_ignore, &ie);
  CHECK(ie == 0 && b == v && !q[0] && !q[1], "completed with MPI_STATUSES_IGNORE");
  mpi_isend_(&v, &one, &ty, &z, &tag, &w, q, &ie);
  mpi_irecv_(&b, &one, &ty, &z, &tag, &w, q + 1, &ie);
  mpi_testsome_(&two, q, out, x, common_mpi_statuses_ignore, &ie);
  CHECK(ie == 0 && out[0] == 2, "completed with MPI_STATUSES_IGNORE");
  b = v;
  common_mpi_in_place = 0x77;
  mpi_allreduce_(&common_mpi_in_place, &b, &one, &ty, &z, &w, &ie);
  CHECK(ie == 0 && b == v, "MPI_IN_PLACE leaves the data in place");
  CHECK(common_mpi_in_place == 0x77, "the sentinel variable is not written");
  for (i = 0; i < (int)sizeof common_mpi_status_ignore; i++) CHECK(((char *)common_mpi_status_ignore)[i] == 0x5b, "MPI_STATUS_IGNORE is not written");
  for (i = 0; i < (int)sizeof common_mpi_statuses_ignore; i++) CHECK(((char *)common_mpi_statuses_ignore)[i] == 0x5c, "MPI_STATUSES_IGNORE is not written");
}
#else
void mpi_get_fort_pointers_(void) { mpi_save_fort_pointers_(F_STATUS_IGNORE, F_STATUSES_IGNORE, F_IN_PLACE); }
#endif
int main(void) {
  int c = sx_case(), ie = 77, f = 0;
  long d[5];
  for (int i = 0; i < 5; i++) d[i] = sz[i];
  if (c >= 2 && c != 4) sx_term_allowed("an inconsistent Fortran side is refused");
  else sx_term_forbidden("a consistent start");
#ifndef NOGEN
  if (c == 0) {
    mpi_init_(&ie);
    CHECK(ie == MPI_SUCCESS, "the error code is MPI_SUCCESS");
    mpi_initialized_(&f, &ie);
    CHECK(f == 1, "initialized after MPI_INIT");
    sentinels();
    COVER("started");
  }
  if (c == 1) {
    int req = sx_i32("required"), r0 = req, prov = -9;
    mpi_init_thread_(&req, &prov, &ie);
    CHECK(ie == MPI_SUCCESS && req == r0, "the error code is MPI_SUCCESS");
    CHECK(prov == r0, "the level asked for is provided");
    mpi_initialized_(&f, &ie);
    CHECK(f == 1, "initialized after MPI_INIT_THREAD");
    sentinels();
    COVER("started");
  }
  if (c == 4) {
    int a[NCONST], n = sizeof const_tab / sizeof *const_tab;
    mpi_sxconsts_(a);
    int j = sx_pick("name", 0, n - 1);
    CHECK(a[const_tab[j].k] == const_tab[j].c, "a constant has the same value in mpif.h and mpi.h");
    COVER("compared");
  }
#endif
  if (c == 2) {
    int j = sx_pick("which", 0, 20), right = k[j], v = sx_i32("value");
    if (j >= 16) sx_assume(v < 0 && v >= -47 && v != MPI_LB && v != MPI_UB && (v > MPI_2REAL || v < MPI_LONG_DOUBLE_INT));
    k[j] = v;
    if (v == right) sx_term_forbidden("a consistent start");
    init(d);
    if (j < 17 || j == 19) CHECK(v == right, "a start with a differing constant does not return");
    else { int s; MPI_Type_size(v, &s); CHECK(s == sz[j == 17 ? 1 : j == 18 ? 2 : 4], "a start with a type of another size does not return"); }
    COVER("consistent");
  }
  if (c == 3) {
    int j = sx_pick("which", 0, 4);
    long x = sx_i32("distance");
    sx_assume(x >= 0 && x <= 8192);
    d[j] = x;
    if (x == sz[j]) sx_term_forbidden("a consistent start");
    init(d);
    CHECK(x == sz[j], "a start with a Fortran type of another size does not return");
    COVER("consistent");
  }
  sx_end();
}

/* Conversions, operations, info objects and error handlers.
 * case 0: f2c and c2f   case 1: ops   case 2: info and error handlers   case 3: addresses */
#include "env.h"
#ifndef FAPI
extern int MPI_Info_free(MPI_Info *);
#endif
static void user(void *a, void *b, int *n, MPI_Datatype *t) {}
int main(void) {
  int c = sx_case(), v = sx_i32("handle");
  MPI_Init(NULL, NULL);
  sx_term_forbidden("always legal");
  if (c == 0) {
    CHECK(MPI_Comm_f2c(MPI_Comm_c2f(v)) == v, "communicator handles survive conversion");
    CHECK(MPI_Comm_c2f(MPI_Comm_f2c(v)) == v, "communicator handles survive conversion");
    CHECK(MPI_Group_f2c(MPI_Group_c2f(v)) == v, "group handles survive conversion");
    CHECK(MPI_Group_c2f(MPI_Group_f2c(v)) == v, "group handles survive conversion");
    CHECK(MPI_Request_f2c(MPI_Request_c2f(v)) == v, "request handles survive conversion");
    CHECK(MPI_Request_c2f(MPI_Request_f2c(v)) == v, "request handles survive conversion");
    CHECK(MPI_Op_f2c(MPI_Op_c2f(v)) == v, "operation handles survive conversion");
    CHECK(MPI_Op_c2f(MPI_Op_f2c(v)) == v, "operation handles survive conversion");
    CHECK(MPI_Comm_f2c(MPI_Comm_c2f(MPI_COMM_NULL)) == MPI_COMM_NULL, "null stays null");
    /* the converted handle is the same object on the other side */
    MPI_Comm d;
    MPI_Request q;
    MPI_Status s;
    int x = v, y = 0, ie = 7, one = 1, ty = MPI_INT, zero = 0, f;
    extern int mpi_isend_(), mpi_recv_(), mpi_wait_(), mpi_comm_group_();
    MPI_Comm_dup(MPI_COMM_WORLD, &d);
    MPI_Fint fd = MPI_Comm_c2f(d), fq;
    mpi_isend_(&x, &one, &ty, &zero, &one, &fd, &fq, &ie);
    MPI_Recv(&y, 1, MPI_INT, 0, 1, MPI_Comm_f2c(fd), &s);
    CHECK(x == y, "a converted communicator is the same communicator");
    q = MPI_Request_f2c(fq);
    MPI_Test(&q, &f, &s);
    CHECK(f == 1, "a converted request is the same request");
    MPI_Group g; MPI_Fint fg;
    MPI_Comm_group(d, &g);
    mpi_comm_group_(&fd, &fg, &ie);
    CHECK(MPI_Group_f2c(fg) == g, "a converted group is the same group");
    COVER("converted");
  } else if (c == 1) {
    MPI_Op op = v;
    int x = sx_i32("x"), y = 0, before;
    CHECK(MPI_Op_create(user, sx_pick("commute", 0, 1), &op) == MPI_SUCCESS, "MPI_SUCCESS");
    before = op;
    MPI_Allreduce(&x, &y, 1, MPI_INT, op, MPI_COMM_WORLD);
    CHECK(x == y, "a reduction with a user operation");
    y = 0;
    MPI_Scan(&x, &y, 1, MPI_INT, op, MPI_COMM_WORLD);
    CHECK(x == y, "a scan with a user operation");
    y = 0;
    MPI_Reduce(&x, &y, 1, MPI_INT, MPI_Op_f2c(MPI_Op_c2f(op)), 0, MPI_COMM_WORLD);
    CHECK(x == y, "a reduction with a converted operation");
    CHECK(op == before, "using an operation does not change it");
    CHECK(MPI_Op_free(&op) == MPI_SUCCESS, "MPI_SUCCESS");
    CHECK(op == MPI_OP_NULL, "a freed operation is MPI_OP_NULL");
    MPI_Op many[300];
    MPI_Request q;
    int i, f = -1;
    MPI_Isend(&x, 1, MPI_INT, 0, 3, MPI_COMM_WORLD, &q);
    for (i = 0; i < 300; i++) CHECK(MPI_Op_create(user, i & 1, &many[i]) == MPI_SUCCESS, "MPI_SUCCESS");
    for (i = 299; i >= 0; i -= 7) {
      y = 0;
      MPI_Allreduce(&x, &y, 1, MPI_INT, many[i], MPI_COMM_WORLD);
      CHECK(x == y, "a reduction with one of many operations");
    }
    for (i = 0; i < 300; i++) CHECK(MPI_Op_free(&many[i]) == MPI_SUCCESS && many[i] == MPI_OP_NULL, "a freed operation is MPI_OP_NULL");
    MPI_Test(&q, &f, MPI_STATUS_IGNORE);
    CHECK(f == 0, "pending operations stay pending");
    y = 0;
    MPI_Recv(&y, 1, MPI_INT, 0, 3, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
    CHECK(x == y, "and complete as they would have");
    COVER("reduced");
  } else if (c == 2) {

    MPI_Info in = v;
    char k[8], w[8], k0[8], w0[8];
    CHECK(MPI_Info_create(&in) == MPI_SUCCESS, "MPI_SUCCESS");
    sx_bytes(k, 8, "key"); sx_bytes(w, 8, "value");
    k[7] = w[7] = 0;
    for (int i = 0; i < 8; i++) { k0[i] = k[i]; w0[i] = w[i]; }
    CHECK(MPI_Info_set(in, k, w) == MPI_SUCCESS, "MPI_SUCCESS");
    for (int i = 0; i < 8; i++) CHECK(k[i] == k0[i] && w[i] == w0[i], "the key and value are the caller's");
    CHECK(MPI_Info_free(&in) == MPI_SUCCESS, "MPI_SUCCESS");
    CHECK(in == MPI_INFO_NULL, "a freed info object is MPI_INFO_NULL");
    /* long keys and values, several objects, many entries */
    static const int kl[] = {0, 1, 31, 36, 63, 254}, vl[] = {0, 1, 255, 1023};
    static char lk[260], lv[1100];
    MPI_Info h[3];
    int i, j, nk = kl[sx_pick("key length", 0, 5)], nv = vl[sx_pick("value length", 0, 3)];
    for (i = 0; i < nk; i++) lk[i] = 'a' + i % 26;
    for (i = 0; i < nv; i++) lv[i] = 'A' + i % 26;
    for (i = 0; i < 3; i++) CHECK(MPI_Info_create(&h[i]) == MPI_SUCCESS, "MPI_SUCCESS");
    for (j = 0; j < 200; j++) {
      if (nk > 1) lk[nk - 1] = 'a' + j % 26;
      CHECK(MPI_Info_set(h[j % 3], lk, j % 2 ? lv : w) == MPI_SUCCESS, "MPI_SUCCESS");
    }
    for (i = 0; i < 260; i++) CHECK(lk[i] == (i >= nk ? 0 : i == nk - 1 && nk > 1 ? 'a' + 199 % 26 : 'a' + i % 26), "the key is the caller's");
    for (i = 0; i < 1100; i++) CHECK(lv[i] == (i >= nv ? 0 : 'A' + i % 26), "the value is the caller's");
    for (i = 0; i < 3; i++) { CHECK(MPI_Info_free(&h[i]) == MPI_SUCCESS, "MPI_SUCCESS"); CHECK(h[i] == MPI_INFO_NULL, "a freed info object is MPI_INFO_NULL"); }
#ifndef FAPI
    CHECK(MPI_Errhandler_set(MPI_COMM_WORLD, sx_pick("handler", 0, 1) ? MPI_ERRORS_RETURN : MPI_ERRORS_ARE_FATAL) == MPI_SUCCESS, "MPI_SUCCESS");
#endif
    COVER("info");
  } else {
    extern int mpi_get_address_(), mpi_address_(), MPI_Get_address(), MPI_Address();
    static char a[300];
    long x = -1, y = -1;
    int d = sx_pick("offset", 0, 299), ie = 7;
    if (sx_pick("fortran", 0, 1)) {
      mpi_get_address_(a, &x, &ie); CHECK(ie == 0, "MPI_SUCCESS");
      ie = 7;
      if (sx_pick("old", 0, 1)) mpi_address_(a + d, &y, &ie); else mpi_get_address_(a + d, &y, &ie);
      CHECK(ie == 0, "MPI_SUCCESS");
    } else {
      MPI_Get_address(a, &x);
      if (sx_pick("old", 0, 1)) MPI_Address(a + d, &y); else MPI_Get_address(a + d, &y);
    }
    CHECK(y - x == d, "addresses differ by the distance in memory");
    CHECK((char *)x == a, "an address is where the variable is");
    /* any address at all: the call does not look at what is there */
    long w = sx_i64("address");
    x = -1; y = -1; ie = 7;
    sx_assume(w != 0);
#ifdef FAPI
    sx_assume((void *)w != (void *)F_STATUS_IGNORE && (void *)w != (void *)F_STATUSES_IGNORE && (void *)w != (void *)F_IN_PLACE);
    mpi_get_address_((char *)w, &x, &ie); CHECK(ie == 0, "MPI_SUCCESS");
    ie = 7;
    mpi_address_((char *)w, &y, &ie); CHECK(ie == 0, "MPI_SUCCESS");
#else
    MPI_Get_address((char *)w, &x);
    MPI_Address((char *)w, &y);
#endif
    CHECK(x == w, "an address is where the variable is");
    CHECK(y == w, "an address is where the variable is");
    COVER("addresses");
  }
  sx_end();
}

/* Calls change only what they are documented to change.  A standing state of pending sends and
 * receives, a completed request, communicators, datatypes, groups and a status is watched while
 * any two (thorough: three) other calls are made; every input of those calls is watched too.
 * case 0..7: the first call is one of those k with k % 8 == case
 * case 8..15: such a call repeated hundreds of times, alternating with another */
#include "env.h"
#ifndef FAPI
extern int MPI_Info_free(MPI_Info *);
extern int MPI_Get_address(void *, MPI_Aint *);
extern int MPI_Address(void *, MPI_Aint *);
#endif
#define OK(c) CHECK((c) == MPI_SUCCESS, "a correct call returns MPI_SUCCESS")
#define SAME(cond) CHECK(cond, "a call leaves everything it does not name as it was")
/* the inputs */
typedef struct {
  int x[16], cnt[3], dsp[3], bl[3], dm[3], per[3], rk[2], rg[1][3];
  long hd[3];
  MPI_Datatype ty[3];
  MPI_Status st;
} In;
static In in, in0;
static int y[32];
/* the standing state */
static MPI_Comm W, D, C, S;
static MPI_Datatype V, T, N;
static MPI_Group G;
static MPI_Op OP;
static MPI_Request ps, pr, cr, pn;
static int sb[8], sb0[8], rb[4], cb[4], tagp, tagc, other, vals[4];
static void setup(void) {
  int i;
  MPI_Datatype t;
  MPI_Request q;
  W = MPI_COMM_WORLD;
  OK(MPI_Comm_dup(W, &D));
  for (i = 0; i < 3; i++) { in.cnt[i] = 1; in.dsp[i] = 0; in.bl[i] = i + 1; in.dm[i] = 1; in.per[i] = i & 1; in.hd[i] = 8 + 20 * i; in.rk[0] = in.rk[1] = 0; }
  in.dsp[0] = 2;
  in.rg[0][0] = in.rg[0][1] = 0; in.rg[0][2] = 1;
  OK(MPI_Cart_create(D, 3, in.dm, in.per, 0, &C));
  OK(MPI_Comm_split(D, 4, 2, &S));
  OK(MPI_Type_vector(2, 1, 3, MPI_INT, &V));
  OK(MPI_Type_commit(&V));
  OK(MPI_Type_contiguous(2, MPI_INT, &t));
  OK(MPI_Type_dup(t, &T));
  OK(MPI_Type_free(&t));
  OK(MPI_Type_commit(&T));
  OK(MPI_Type_contiguous(5, MPI_SHORT, &N)); /* not committed */
  in.ty[0] = MPI_INT; in.ty[1] = V; in.ty[2] = MPI_UB;
  OK(MPI_Comm_group(D, &G));
  OK(MPI_Op_create((MPI_User_function *)setup, 1, &OP));
  tagp = sx_i32("tagp"); tagc = sx_i32("tagc"); other = sx_i32("other");
  sx_assume(tagp >= 0); sx_assume(tagc >= 0); sx_assume(other >= 0); sx_assume(other != tagp);
  for (i = 0; i < 16; i++) in.x[i] = i < 4 ? sx_i32("x") : 100 + i;
  for (i = 0; i < 8; i++) sb[i] = sb0[i] = i < 4 ? (vals[i] = sx_i32("v")) : 200 + i;
  OK(MPI_Isend(sb, 1, V, 0, tagp, W, &ps));              /* waits on W */
  rb[0] = rb[1] = rb[2] = rb[3] = -3;
  OK(MPI_Irecv(rb, 1, T, MPI_ANY_SOURCE, MPI_ANY_TAG, S, &pr)); /* waits on S */
  OK(MPI_Irecv(cb, 2, T, 0, tagc, D, &cr));               /* done on D */
  OK(MPI_Isend(&sb[1], 3, MPI_INT, 0, tagc, D, &q));
  OK(MPI_Wait(&q, MPI_STATUS_IGNORE));
  OK(MPI_Irecv(y, 1, MPI_INT, MPI_PROC_NULL, 4, D, &pn));
  OK(MPI_Isend(&in.x[4], 6, MPI_SHORT, 0, 17, C, &q));
  OK(MPI_Recv(y, 9, MPI_SHORT, 0, 17, C, &in.st));
  OK(MPI_Wait(&q, MPI_STATUS_IGNORE));
  memcpy(&in0, &in, sizeof in);
}
static void inputs(void) {
  int i, ok = 1;
  for (i = 0; i < 16; i++) ok &= in.x[i] == in0.x[i];
  CHECK(ok, "a send buffer is not written");
  for (i = ok = 0; i < 3; i++) ok |= in.cnt[i] != in0.cnt[i] || in.dsp[i] != in0.dsp[i] || in.bl[i] != in0.bl[i] || in.dm[i] != in0.dm[i] || in.per[i] != in0.per[i] || in.hd[i] != in0.hd[i] || in.ty[i] != in0.ty[i];
  CHECK(!ok && !in.rk[0] && !in.rk[1] && !in.rg[0][0] && !in.rg[0][1] && in.rg[0][2] == 1, "input arrays are not written");
  CHECK(in.st.MPI_SOURCE == in0.st.MPI_SOURCE && in.st.MPI_TAG == in0.st.MPI_TAG && in.st.MPI_ERROR == in0.st.MPI_ERROR && in.st.get_count == in0.st.get_count, "an input status is not written");
  for (i = ok = 0; i < 8; i++) ok |= sb[i] != sb0[i];
  SAME(!ok);
  SAME(rb[0] == -3 && rb[1] == -3 && rb[2] == -3 && rb[3] == -3);
  SAME(cb[0] == sb0[1] && cb[1] == sb0[2] && cb[2] == sb0[3]);
}
static void watch(void) {
  int f = -1, n = -1, d[3], p[3], c[3], i;
  long e;
  MPI_Status s;
  inputs();
  OK(MPI_Iprobe(0, tagp, W, &f, &s)); SAME(f == 1 && s.MPI_TAG == tagp);
  OK(MPI_Get_count(&s, MPI_INT, &n)); SAME(n == 2);
  OK(MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, W, &f, &s)); SAME(f == 1 && s.MPI_TAG == tagp);
  OK(MPI_Iprobe(0, other, W, &f, &s)); SAME(f == 0);
  OK(MPI_Iprobe(0, MPI_ANY_TAG, D, &f, &s)); SAME(f == 0);
  OK(MPI_Iprobe(0, MPI_ANY_TAG, C, &f, &s)); SAME(f == 0);
  OK(MPI_Iprobe(0, MPI_ANY_TAG, S, &f, &s)); SAME(f == 0);
  OK(MPI_Type_size(V, &n)); SAME(n == 8);
  OK(MPI_Type_extent(V, &e)); SAME(e == 16);
  OK(MPI_Type_size(T, &n)); SAME(n == 8);
  OK(MPI_Type_size(N, &n)); SAME(n == 10);
  OK(MPI_Cart_get(C, 3, d, p, c));
  for (i = 0; i < 3; i++) SAME(d[i] == 1 && c[i] == 0 && p[i] == (i & 1));
}
/* after everything: each pending operation completes exactly as it would have */
static void finish(void) {
  int i, f = -1, n = -1, w[2] = {vals[2], vals[3]};
  MPI_Status s = {-7, -7, -7, -7};
  watch();
  OK(MPI_Test(&ps, &f, &s)); SAME(f == 0 && ps != MPI_REQUEST_NULL);
  OK(MPI_Test(&pr, &f, &s)); SAME(f == 0 && pr != MPI_REQUEST_NULL);
  OK(MPI_Test(&cr, &f, &s)); SAME(f == 1 && cr == MPI_REQUEST_NULL && s.MPI_TAG == tagc && s.MPI_SOURCE == 0);
  OK(MPI_Get_count(&s, T, &n)); SAME(n == MPI_UNDEFINED);
  OK(MPI_Get_elements(&s, T, &n)); SAME(n == 3);
  OK(MPI_Wait(&pn, &s)); SAME(s.MPI_SOURCE == MPI_PROC_NULL && s.MPI_TAG == MPI_ANY_TAG);
  OK(MPI_Get_count(&in.st, MPI_SHORT, &n)); SAME(n == 6 && in.st.MPI_TAG == 17);
  y[0] = y[1] = y[2] = 5;
  OK(MPI_Recv(y, 2, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, W, &s)); SAME(y[0] == vals[0] && y[1] == vals[3] && y[2] == 5 && s.MPI_TAG == tagp);
  OK(MPI_Test(&ps, &f, &s)); SAME(f == 1 && ps == MPI_REQUEST_NULL);
  OK(MPI_Send(w, 1, T, 0, other, S)); OK(MPI_Wait(&pr, &s)); SAME(rb[0] == w[0] && rb[1] == w[1] && rb[2] == -3 && s.MPI_TAG == other);
  OK(MPI_Iprobe(0, MPI_ANY_TAG, W, &f, &s)); SAME(f == 0);
  OK(MPI_Type_commit(&N)); OK(MPI_Irecv(y, 2, N, 0, 1, C, &pr)); OK(MPI_Send(in.x, 1, N, 0, 1, C)); OK(MPI_Wait(&pr, &s)); SAME(y[0] == in0.x[0] && y[1] == in0.x[1]);
  OK(MPI_Group_translate_ranks(G, 2, in.rk, G, w)); SAME(w[0] == 0 && w[1] == 0);
  OK(MPI_Allreduce(in.x, y, 1, V, OP, S)); SAME(y[0] == in0.x[0] && y[3] == in0.x[3]);
  OK(MPI_Op_free(&OP)); OK(MPI_Group_free(&G)); OK(MPI_Type_free(&V)); OK(MPI_Type_free(&T)); OK(MPI_Type_free(&N));
  OK(MPI_Comm_free(&C)); OK(MPI_Comm_free(&S)); OK(MPI_Comm_free(&D));
}
#define NK 64
static void call(int k) {
  MPI_Datatype t, u;
  MPI_Comm c, d;
  MPI_Group g, h;
  MPI_Request q, r, qs[4];
  MPI_Status s, ss[4];
  MPI_Op op;
  MPI_Info inf;
  int i, f, ix[4], pos = 0, n, a[3], b[3], e[3];
  long l;
  char str[MPI_MAX_LIBRARY_VERSION_STRING + 64];
  /* a message of these calls is never one the standing state would take */
  switch (k) {
    case 0: OK(MPI_Irecv(y, 2, MPI_INT, 0, other, W, &q)); OK(MPI_Send(in.x, 1, V, 0, other, W)); OK(MPI_Wait(&q, &s)); CHECK(y[0] == in0.x[0] && y[1] == in0.x[3] && s.MPI_TAG == other, "received"); break;
    case 1: OK(MPI_Irecv(y, 2, MPI_INT, 0, other, D, &q)); OK(MPI_Ssend(in.x, 1, V, 0, other, D)); OK(MPI_Test(&q, &f, &s)); CHECK(f && y[1] == in0.x[3], "received"); break;
    case 2: OK(MPI_Irecv(y, 2, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, C, &q)); OK(MPI_Rsend(in.x, 1, T, 0, other, C)); OK(MPI_Wait(&q, &s)); CHECK(y[1] == in0.x[1], "received"); break;
    case 3: OK(MPI_Irecv(y, 2, MPI_INT, 0, other, W, &q)); OK(MPI_Irsend(in.x, 1, T, 0, other, W, &r)); qs[0] = q; qs[1] = r; OK(MPI_Waitall(2, qs, ss)); CHECK(y[1] == in0.x[1], "received"); break;
    case 4: OK(MPI_Sendrecv(in.x, 2, MPI_INT, 0, other, y, 1, T, 0, MPI_ANY_TAG, D, &s)); CHECK(y[1] == in0.x[1] && s.MPI_TAG == other, "received"); break;
    case 5: OK(MPI_Isend(in.x, 1, V, 0, tagp, W, &q)); OK(MPI_Isend(&in.x[1], 1, MPI_INT, 0, other, W, &r)); OK(MPI_Recv(y, 1, MPI_INT, 0, other, W, &s)); CHECK(y[0] == in0.x[1], "received");
      OK(MPI_Wait(&r, &s)); OK(MPI_Irecv(y, 2, MPI_INT, 0, tagp, D, &r)); OK(MPI_Request_free(&r)); OK(MPI_Send(in.x, 1, V, 0, tagp, D)); CHECK(y[1] == in0.x[3], "received");
      /* take the second message of that tag away again: the first is put back behind it by the model */
      OK(MPI_Recv(y, 2, MPI_INT, 0, tagp, W, &s)); CHECK(y[0] == vals[0], "the older message first"); OK(MPI_Wait(&ps, &s));
      OK(MPI_Recv(y, 2, MPI_INT, 0, tagp, W, &s)); CHECK(y[0] == in0.x[0] && y[1] == in0.x[3], "the newer message next"); OK(MPI_Wait(&q, &s));
      OK(MPI_Isend(sb, 1, V, 0, tagp, W, &ps)); break;
    case 6: OK(MPI_Send(in.x, 1, V, MPI_PROC_NULL, tagp, W)); OK(MPI_Recv(y, 1, V, MPI_PROC_NULL, tagp, W, &s)); OK(MPI_Isend(in.x, 1, V, MPI_PROC_NULL, 1, S, &q)); OK(MPI_Wait(&q, &s));
      OK(MPI_Sendrecv(in.x, 1, MPI_INT, MPI_PROC_NULL, tagp, y, 1, MPI_INT, MPI_PROC_NULL, MPI_ANY_TAG, W, &s)); break;
    case 7: OK(MPI_Iprobe(MPI_PROC_NULL, tagp, W, &f, &s)); OK(MPI_Probe(MPI_PROC_NULL, tagp, S, &s)); OK(MPI_Probe(0, MPI_ANY_TAG, W, &s)); OK(MPI_Probe(MPI_ANY_SOURCE, tagp, W, MPI_STATUS_IGNORE)); break;
    case 8: qs[0] = ps; qs[1] = cr; qs[2] = pr; OK(MPI_Testall(3, qs, &f, ss)); CHECK(!f && qs[0] == ps && qs[1] == cr && qs[2] == pr, "not all complete"); break;
    case 9: qs[0] = ps; qs[1] = MPI_REQUEST_NULL; qs[2] = pr; OK(MPI_Testany(3, qs, ix, &f, &s)); CHECK(!f && qs[0] == ps && qs[1] == MPI_REQUEST_NULL && qs[2] == pr, "none complete"); break;
    case 10: qs[0] = ps; qs[1] = MPI_REQUEST_NULL; qs[2] = pr; OK(MPI_Testsome(3, qs, &f, ix, ss)); CHECK(!f && qs[0] == ps && qs[1] == MPI_REQUEST_NULL && qs[2] == pr, "none complete"); break;
    case 11: case 12: OK(MPI_Irecv(y, 1, MPI_INT, 0, other, D, &q)); OK(MPI_Isend(in.x, 1, MPI_INT, 0, other, D, &r)); qs[0] = ps; qs[1] = r; qs[2] = pr; qs[3] = q;
      if (k == 11) { OK(MPI_Waitsome(4, qs, &f, ix, ss)); CHECK(f == 2 && ix[0] + ix[1] >= 4, "both"); }
      else { OK(MPI_Waitany(4, qs, &ix[0], &s)); OK(MPI_Testany(4, qs, &ix[1], &f, &s)); CHECK(f && ix[0] != ix[1], "both"); }
      CHECK(qs[0] == ps && qs[2] == pr && !qs[1] && !qs[3], "those two only"); break;
    case 13: q = MPI_REQUEST_NULL; OK(MPI_Wait(&q, MPI_STATUS_IGNORE)); OK(MPI_Test(&q, &f, &s)); CHECK(f, "null"); break;
    case 14: OK(MPI_Barrier(W)); OK(MPI_Barrier(S)); break;
    case 15: OK(MPI_Bcast(in.x, 1, V, 0, W)); break;
    case 16: OK(MPI_Gather(in.x, 1, V, y, 2, MPI_INT, 0, S)); break;
    case 17: OK(MPI_Gatherv(in.x, 1, T, y, in.cnt, in.dsp, V, 0, W)); break;
    case 18: OK(MPI_Allgather(in.x, 1, V, y, 1, T, D)); break;
    case 19: OK(MPI_Allgatherv(in.x, 1, T, y, in.cnt, in.dsp, V, W)); break;
    case 20: OK(MPI_Scatter(in.x, 1, V, y, 1, T, 0, W)); break;
    case 21: OK(MPI_Scatterv(in.x, in.cnt, in.dsp, V, y, 1, T, 0, S)); break;
    case 22: OK(MPI_Alltoall(in.x, 1, V, y, 1, T, W)); break;
    case 23: OK(MPI_Alltoallv(in.x, in.cnt, in.dsp, V, y, in.cnt, in.dsp, T, W)); break;
    case 24: OK(MPI_Alltoallw(in.x, in.cnt, in.dsp, in.ty, y, in.cnt, in.dsp, in.ty, C)); break;
    case 25: OK(MPI_Reduce(in.x, y, 2, MPI_INT, MPI_SUM, 0, W)); break;
    case 26: OK(MPI_Allreduce(in.x, y, 1, V, OP, S)); break;
    case 27: OK(MPI_Scan(in.x, y, 2, MPI_INT, MPI_MAX, W)); break;
    case 28: OK(MPI_Reduce_scatter(in.x, y, in.cnt, MPI_INT, MPI_SUM, D)); break;
    case 29: OK(MPI_Allreduce(MPI_IN_PLACE, in.x, 3, MPI_INT, MPI_SUM, W)); OK(MPI_Allgather(MPI_IN_PLACE, 0, MPI_INT, in.x, 1, V, W)); break;
    case 30: OK(MPI_Pack(in.x, 1, V, y, 64, &pos, W)); CHECK(pos == 8, "packed"); n = pos = 0; OK(MPI_Unpack(in.x, 64, &pos, y, 1, V, W)); CHECK(pos == 8, "unpacked"); break;
    case 31: OK(MPI_Pack_size(3, V, D, &l)); CHECK(l >= 24, "size"); break;
    case 32: OK(MPI_Type_contiguous(3, V, &t)); OK(MPI_Type_free(&t)); break;
    case 33: OK(MPI_Type_vector(2, 1, 2, T, &t)); OK(MPI_Type_commit(&t)); OK(MPI_Type_free(&t)); break;
    case 34: OK(MPI_Type_hvector(2, 1, 50, V, &t)); OK(MPI_Type_create_hvector(2, 1, 50, N, &u)); OK(MPI_Type_free(&t)); OK(MPI_Type_free(&u)); break;
    case 35: OK(MPI_Type_indexed(3, in.bl, in.dsp, V, &t)); OK(MPI_Type_free(&t)); break;
    case 36: OK(MPI_Type_hindexed(3, in.bl, in.hd, T, &t)); OK(MPI_Type_free(&t)); break;
    case 37: OK(MPI_Type_create_indexed_block(3, 2, in.dsp, V, &t)); OK(MPI_Type_commit(&t)); OK(MPI_Type_free(&t)); break;
    case 38: OK(MPI_Type_struct(3, in.bl, in.hd, in.ty, &t)); OK(MPI_Type_commit(&t)); OK(MPI_Type_dup(t, &u)); OK(MPI_Type_free(&t)); OK(MPI_Type_free(&u)); break;
    case 39: OK(MPI_Type_dup(V, &t)); OK(MPI_Type_free(&t)); OK(MPI_Type_dup(N, &t)); OK(MPI_Type_commit(&t)); OK(MPI_Type_free(&t)); break;
    case 40: OK(MPI_Type_lb(V, &l)); OK(MPI_Type_ub(V, &l)); CHECK(l == 16, "upper bound"); OK(MPI_Type_commit(&V)); OK(MPI_Type_extent(N, &l)); break;
    case 41: OK(MPI_Comm_dup(W, &c)); OK(MPI_Iprobe(0, MPI_ANY_TAG, c, &f, &s)); CHECK(!f, "no message"); OK(MPI_Comm_free(&c)); break;
    case 42: OK(MPI_Comm_dup(C, &c)); OK(MPI_Comm_dup(S, &d)); OK(MPI_Comm_free(&c)); OK(MPI_Comm_free(&d)); break;
    case 43: OK(MPI_Comm_split(S, 0, 0, &c)); OK(MPI_Comm_split(W, MPI_UNDEFINED, 0, &d)); OK(MPI_Comm_free(&c)); break;
    case 44: OK(MPI_Comm_create(S, G, &c)); OK(MPI_Comm_create(W, MPI_GROUP_EMPTY, &d)); CHECK(d == MPI_COMM_NULL, "none"); OK(MPI_Comm_free(&c)); break;
    case 45: OK(MPI_Cart_create(S, 2, in.dm, in.per, 1, &c)); OK(MPI_Comm_free(&c)); break;
    case 46: OK(MPI_Intercomm_create(S, 0, W, 0, tagp, &c)); OK(MPI_Comm_free(&c)); break;
#ifndef FAPI
    case 47: OK(MPI_Intercomm_create(W, 0, S, 0, tagp, &c)); OK(MPI_Intercomm_merge(c, 1, &d)); OK(MPI_Comm_free(&d)); OK(MPI_Comm_free(&c)); break;
    case 48: OK(MPI_Address(in.x, &l)); CHECK(l == (long)in.x, "address"); OK(MPI_Get_address(&in.x[2], &l)); CHECK(l == (long)&in.x[2], "address"); break;
#endif
    case 49: OK(MPI_Comm_size(S, &n)); CHECK(n == 1, "size"); OK(MPI_Comm_rank(C, &n)); CHECK(n == 0, "rank"); break;
    case 50: OK(MPI_Comm_group(S, &g)); OK(MPI_Group_union(g, G, &h)); OK(MPI_Group_free(&h)); OK(MPI_Group_free(&g)); break;
    case 51: OK(MPI_Group_incl(G, 1, in.rk, &h)); OK(MPI_Group_range_incl(G, 1, in.rg, &g)); OK(MPI_Group_free(&g)); OK(MPI_Group_free(&h)); break;
    case 52: OK(MPI_Group_intersection(G, MPI_GROUP_EMPTY, &h)); OK(MPI_Group_difference(G, G, &g)); break;
    case 53: OK(MPI_Group_translate_ranks(G, 2, in.rk, MPI_GROUP_EMPTY, a)); CHECK(a[0] == MPI_UNDEFINED && a[1] == MPI_UNDEFINED, "ranks"); break;
    case 54: OK(MPI_Cart_coords(C, 0, 3, a)); CHECK(!a[0] && !a[1] && !a[2], "coords"); OK(MPI_Cart_get(C, 3, a, b, e)); break;
    case 55: a[0] = a[1] = 0; OK(MPI_Dims_create(1, 2, a)); CHECK(a[0] == 1 && a[1] == 1, "dims"); break;
    case 56: OK(MPI_Op_create((MPI_User_function *)setup, 0, &op)); OK(MPI_Op_free(&op)); break;
    case 57: OK(MPI_Info_create(&inf)); OK(MPI_Info_free(&inf)); break;
    case 58: OK(MPI_Get_processor_name(str, &n)); break;
    case 59: OK(MPI_Error_string(3, str, &n)); OK(MPI_Get_library_version(str, &n)); break;
    case 60: OK(MPI_Initialized(&f)); CHECK(f, "initialized"); CHECK(MPI_Wtime() >= 0, "time"); break;
    case 61: OK(MPI_Get_count(&in.st, MPI_SHORT, &n)); CHECK(n == 6, "count"); OK(MPI_Get_count(&in.st, N, &n)); OK(MPI_Get_elements(&in.st, T, &n)); break;
    case 62: OK(MPI_Isend(in.x, 1, V, 0, other, W, &q)); OK(MPI_Request_free(&q)); OK(MPI_Iprobe(0, other, W, &f, &s)); CHECK(f, "waiting"); OK(MPI_Recv(y, 1, V, 0, other, W, &s)); CHECK(y[3] == in0.x[3], "received"); break;
    case 63: OK(MPI_Type_contiguous(1, V, &t)); OK(MPI_Type_commit(&t)); OK(MPI_Irecv(y, 1, t, 0, other, C, &q)); OK(MPI_Type_free(&t)); OK(MPI_Send(in.x, 1, V, 0, other, C)); OK(MPI_Wait(&q, &s)); CHECK(y[3] == in0.x[3] && s.MPI_TAG == other, "received"); break;
  }
}
int main(void) {
  int c = sx_case(), k;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("every call here is correct");
  setup();
  watch();
  if (c >= 8) {
    int a = sx_pick("first", 0, NK / 8 - 1) * 8 + c - 8, b = (a * 7 + 13 + 16 * sx_pick("second", 0, 3)) % NK, i;
#ifdef THOROUGH
    int times = 1100;
#else
    int times = 280;
#endif
    for (i = 0; i < times; i++) {
      call(a);
      if (i % 3 == 2) call(b);
      if (i == 5 || i == 70 || i == 140) watch();
    }
    finish();
    COVER("mixed");
    sx_end();
  }
  call(sx_pick("first", 0, NK / 8 - 1) * 8 + c);
  watch();
  call(k = sx_pick("second", 0, NK - 1));
  watch();
#ifdef THOROUGH
  call((k * 29 + 11 + 8 * sx_pick("third", 0, 7)) % NK);
#else
  call((k * 29 + 11 + 8 * sx_pick("third", 0, 1)) % NK);
#endif
  finish();
  COVER("mixed");
  sx_end();
}

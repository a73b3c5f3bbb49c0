/* Absolute addresses (MPI_BOTTOM) and null buffers of empty messages are buffers like any other.
 * case 0..3: messages  4: pack, unpack  5: collectives  6..9: null empty messages  10: null empty
 * packs  11: null empty collectives */
#include "env.h"
#ifndef FAPI
extern int MPI_Get_address(void *, MPI_Aint *);
#endif
#define OK(c) CHECK((c) == MPI_SUCCESS, "a correct call returns MPI_SUCCESS")
#define W MPI_COMM_WORLD
static int a[6], b[6], v[3];
static MPI_Datatype ta, tb, e;
static int x1, y1;
/* the type of three ints at p[i0], q, p[i1] */
static void abs_type(int *p, int i0, int *q, int i1, int how, MPI_Datatype *t) {
  MPI_Aint d[3];
  int bl[3] = {1, 1, 1};
  MPI_Datatype ty[3] = {MPI_INT, MPI_INT, MPI_INT};
#ifdef FAPI
  d[0] = (MPI_Aint)&p[i0]; d[1] = (MPI_Aint)q; d[2] = (MPI_Aint)&p[i1];
#else
  OK(MPI_Get_address(&p[i0], &d[0])); OK(MPI_Get_address(q, &d[1])); OK(MPI_Get_address(&p[i1], &d[2]));
#endif
  if (how) OK(MPI_Type_struct(3, bl, d, ty, t)); else OK(MPI_Type_hindexed(3, bl, d, MPI_INT, t));
  OK(MPI_Type_commit(t));
}
static void fresh(void) { int i; for (i = 0; i < 6; i++) b[i] = -9 - i; y1 = -33; }
static void got(void) {
  CHECK(b[1] == v[0] && y1 == v[1] && b[4] == v[2], "the elements arrive at their absolute addresses");
  CHECK(b[0] == -9 && b[2] == -11 && b[3] == -12 && b[5] == -14, "nothing else is written");
  CHECK(a[1] == v[0] && x1 == v[1] && a[3] == v[2] && a[0] == 50 && a[2] == 52 && a[4] == 54 && a[5] == 55, "the send side is not written");
}
static void send(int how, int n, MPI_Datatype t, int tag) {
  MPI_Request q;
  switch (how) {
    case 0: OK(MPI_Send(MPI_BOTTOM, n, t, 0, tag, W)); return;
    case 1: OK(MPI_Ssend(MPI_BOTTOM, n, t, 0, tag, W)); return;
    case 2: OK(MPI_Rsend(MPI_BOTTOM, n, t, 0, tag, W)); return;
    case 3: OK(MPI_Irsend(MPI_BOTTOM, n, t, 0, tag, W, &q)); break;
    case 4: OK(MPI_Isend(MPI_BOTTOM, n, t, 0, tag, W, &q)); break;
  }
  OK(MPI_Wait(&q, MPI_STATUS_IGNORE));
}
int main(void) {
  int c = sx_case(), i, f, n, pos, tag, z = 0, one = 1, how;
  int flat[3], zero[1] = {0};
  MPI_Request r, q;
  MPI_Status s;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("every call here is correct");
  tag = sx_i32("tag"); sx_assume(tag >= 0);
  for (i = 0; i < 6; i++) a[i] = 50 + i;
  for (i = 0; i < 3; i++) v[i] = sx_i32("v");
  a[1] = v[0]; x1 = v[1]; a[3] = v[2];
  fresh();
  abs_type(a, 1, &x1, 3, sx_pick("type", 0, 1), &ta);
  abs_type(b, 1, &y1, 4, sx_pick("type", 0, 1), &tb);
  OK(MPI_Type_contiguous(0, MPI_DOUBLE, &e)); OK(MPI_Type_commit(&e));
  if (c == 0) { /* receive first */
    OK(MPI_Irecv(MPI_BOTTOM, 1, tb, 0, sx_pick("any", 0, 1) ? MPI_ANY_TAG : tag, W, &r));
    send(sx_pick("send", 0, 4), 1, ta, tag);
    OK(MPI_Wait(&r, &s)); got();
    CHECK(s.MPI_TAG == tag && s.MPI_SOURCE == 0, "status"); OK(MPI_Get_count(&s, tb, &n)); CHECK(n == 1, "count");
  } else if (c == 1) { /* send first */
    OK(MPI_Isend(MPI_BOTTOM, 1, ta, 0, tag, W, &q));
    OK(MPI_Iprobe(0, tag, W, &f, &s)); CHECK(f == 1, "probed"); OK(MPI_Get_count(&s, MPI_INT, &n)); CHECK(n == 3, "count");
    if (sx_pick("recv", 0, 1)) OK(MPI_Recv(MPI_BOTTOM, 1, tb, 0, tag, W, &s));
    else { OK(MPI_Irecv(MPI_BOTTOM, 1, tb, MPI_ANY_SOURCE, MPI_ANY_TAG, W, &r)); OK(MPI_Test(&r, &f, &s)); CHECK(f == 1, "complete"); }
    got(); OK(MPI_Wait(&q, &s));
  } else if (c == 2) { /* one side only */
    OK(MPI_Irecv(flat, 3, MPI_INT, 0, tag, W, &r));
    send(sx_pick("send", 0, 4), 1, ta, tag);
    OK(MPI_Wait(&r, &s)); CHECK(flat[0] == v[0] && flat[1] == v[1] && flat[2] == v[2], "received");
    OK(MPI_Isend(flat, 3, MPI_INT, 0, tag, W, &q)); OK(MPI_Recv(MPI_BOTTOM, 1, tb, 0, tag, W, &s)); got(); OK(MPI_Wait(&q, &s));
    flat[0] = flat[1] = 5;
    OK(MPI_Isend(flat, 2, MPI_INT, 0, tag, W, &q)); OK(MPI_Recv(MPI_BOTTOM, 1, tb, 0, tag, W, &s)); /* part of an item */
    CHECK(b[1] == 5 && y1 == 5 && b[4] == v[2], "a short message"); OK(MPI_Get_count(&s, tb, &n)); CHECK(n == MPI_UNDEFINED, "part of an item"); OK(MPI_Wait(&q, &s));
  } else if (c == 3) {
    OK(MPI_Sendrecv(MPI_BOTTOM, 1, ta, 0, tag, MPI_BOTTOM, 1, tb, 0, tag, W, &s)); got();
    fresh();
    OK(MPI_Send(MPI_BOTTOM, 1, ta, MPI_PROC_NULL, tag, W)); OK(MPI_Recv(MPI_BOTTOM, 1, tb, MPI_PROC_NULL, tag, W, &s));
    CHECK(b[1] == -10 && y1 == -33 && b[4] == -13, "nothing received");
  } else if (c == 4) {
    pos = 4;
    { static char m[64]; OK(MPI_Pack(MPI_BOTTOM, 1, ta, m, 16, &pos, W)); CHECK(pos == 16, "packed"); pos = 4; OK(MPI_Unpack(m, 16, &pos, MPI_BOTTOM, 1, tb, W)); CHECK(pos == 16, "unpacked"); got(); }
  } else if (c == 5) {
    MPI_Datatype *pa = &ta, *pb = &tb;
    switch (how = sx_pick("collective", 0, 12)) {
      case 0: OK(MPI_Gather(MPI_BOTTOM, 1, ta, MPI_BOTTOM, 1, tb, 0, W)); break;
      case 1: OK(MPI_Gatherv(MPI_BOTTOM, 1, ta, MPI_BOTTOM, &one, &z, tb, 0, W)); break;
      case 2: OK(MPI_Allgather(MPI_BOTTOM, 1, ta, MPI_BOTTOM, 1, tb, W)); break;
      case 3: OK(MPI_Allgatherv(MPI_BOTTOM, 1, ta, MPI_BOTTOM, &one, &z, tb, W)); break;
      case 4: OK(MPI_Scatter(MPI_BOTTOM, 1, ta, MPI_BOTTOM, 1, tb, 0, W)); break;
      case 5: OK(MPI_Scatterv(MPI_BOTTOM, &one, &z, ta, MPI_BOTTOM, 1, tb, 0, W)); break;
      case 6: OK(MPI_Alltoall(MPI_BOTTOM, 1, ta, MPI_BOTTOM, 1, tb, W)); break;
      case 7: OK(MPI_Alltoallv(MPI_BOTTOM, &one, &z, ta, MPI_BOTTOM, &one, &z, tb, W)); break;
      case 8: OK(MPI_Alltoallw(MPI_BOTTOM, &one, &z, pa, MPI_BOTTOM, &one, &z, pb, W)); break;
      case 9: OK(MPI_Bcast(MPI_BOTTOM, 1, ta, 0, W)); break;
      case 10: OK(MPI_Gather(MPI_BOTTOM, 1, ta, flat, 3, MPI_INT, 0, W)); break;
      case 11: OK(MPI_Allgather(flat, 0, MPI_INT, MPI_BOTTOM, 0, tb, W)); break;
      case 12: flat[0] = v[0]; flat[1] = v[1]; flat[2] = v[2]; OK(MPI_Scatter(flat, 3, MPI_INT, MPI_BOTTOM, 1, tb, 0, W)); break;
    }
    if (how == 10) CHECK(flat[0] == v[0] && flat[1] == v[1] && flat[2] == v[2], "gathered");
    if (how < 9 || how == 12) got();
    else CHECK(b[1] == -10 && y1 == -33 && b[4] == -13 && a[1] == v[0], "nothing is written");
  } else if (c <= 9) { /* an empty message is a message */
    int st = sx_pick("empty", 0, 1), rt = sx_pick("empty", 0, 1), other = sx_i32("other");
    MPI_Datatype u = st ? e : MPI_INT, w = rt ? e : MPI_INT;
    int nu = st ? sx_pick("items", 0, 2) : 0, nw = rt ? sx_pick("items", 0, 2) : 0;
    sx_assume(other >= 0); sx_assume(other != tag);
    flat[0] = 8;
    if (c == 6) { OK(MPI_Irecv(NULL, nw, w, 0, tag, W, &r)); OK(MPI_Test(&r, &f, &s)); CHECK(f == 0, "pending"); send(sx_pick("send", 0, 4), nu, u, tag); OK(MPI_Wait(&r, &s)); }
    else if (c == 7) { OK(MPI_Isend(NULL, nu, u, 0, tag, W, &q)); OK(MPI_Test(&q, &f, &s)); CHECK(f == 0, "pending"); OK(MPI_Iprobe(0, other, W, &f, &s)); CHECK(f == 0, "another tag"); OK(MPI_Iprobe(0, tag, W, &f, &s)); CHECK(f == 1, "waiting");
      OK(MPI_Get_count(&s, MPI_INT, &n)); CHECK(n == 0, "empty"); OK(MPI_Recv(NULL, nw, w, 0, tag, W, &s)); OK(MPI_Test(&q, &f, MPI_STATUS_IGNORE)); CHECK(f == 1, "complete"); }
    else if (c == 8) OK(MPI_Sendrecv(NULL, nu, u, 0, tag, NULL, nw, w, 0, tag, W, &s));
    else { /* an empty message takes its turn between others */
      MPI_Request p[3];
      OK(MPI_Isend(&v[0], 1, MPI_INT, 0, tag, W, &p[0])); OK(MPI_Isend(NULL, nu, u, 0, tag, W, &p[1])); OK(MPI_Isend(&v[1], 1, MPI_INT, 0, tag, W, &p[2]));
      OK(MPI_Recv(flat, 1, MPI_INT, 0, tag, W, &s)); CHECK(flat[0] == v[0], "first"); flat[0] = 8;
      OK(MPI_Recv(flat, 1, MPI_INT, 0, tag, W, &s)); CHECK(flat[0] == 8, "second"); OK(MPI_Get_count(&s, MPI_INT, &n)); CHECK(n == 0, "empty");
      OK(MPI_Recv(flat, 1, MPI_INT, 0, tag, W, &s)); CHECK(flat[0] == v[1], "third");
      OK(MPI_Waitall(3, p, MPI_STATUSES_IGNORE));
      OK(MPI_Irecv(flat, 1, MPI_INT, 0, tag, W, &r)); OK(MPI_Send(NULL, nu, u, 0, tag, W)); OK(MPI_Wait(&r, &s)); CHECK(flat[0] == v[1], "empty");
    }
    CHECK(s.MPI_TAG == tag && s.MPI_SOURCE == 0, "status"); OK(MPI_Get_count(&s, MPI_INT, &n)); CHECK(n == 0, "empty");
    OK(MPI_Get_elements(&s, w, &n)); CHECK(n == 0, "empty");
    OK(MPI_Iprobe(0, MPI_ANY_TAG, W, &f, &s)); CHECK(f == 0, "nothing is left");
  } else if (c == 10) {
    static char m[16];
    pos = n = sx_pick("pos", 0, 2) * 8;
    OK(MPI_Pack(NULL, 0, ta, m, 16, &pos, W)); OK(MPI_Pack(NULL, 3, e, m, 16, &pos, W)); OK(MPI_Unpack(m, 16, &pos, NULL, 0, tb, W)); OK(MPI_Unpack(m, 16, &pos, NULL, 3, e, W)); CHECK(pos == n, "nothing");
    pos = 0; OK(MPI_Pack(NULL, 0, ta, NULL, 0, &pos, W)); OK(MPI_Unpack(NULL, 0, &pos, NULL, 2, e, W)); CHECK(pos == 0, "nothing");
  } else {
    MPI_Datatype *pi = &ta;
    OK(MPI_Gather(NULL, 0, MPI_INT, NULL, 0, MPI_INT, 0, W)); OK(MPI_Gather(NULL, 2, e, NULL, 2, e, 0, W));
    OK(MPI_Gatherv(NULL, 0, ta, NULL, zero, &z, tb, 0, W)); OK(MPI_Allgather(NULL, 0, ta, NULL, 0, MPI_INT, W)); OK(MPI_Allgatherv(NULL, 3, e, NULL, zero, &z, tb, W));
    OK(MPI_Scatter(NULL, 0, ta, NULL, 0, tb, 0, W)); OK(MPI_Scatterv(NULL, zero, &z, ta, NULL, 0, tb, 0, W)); OK(MPI_Alltoall(NULL, 0, ta, NULL, 0, tb, W));
    OK(MPI_Alltoallv(NULL, zero, &z, ta, NULL, zero, &z, tb, W)); OK(MPI_Alltoallw(NULL, zero, &z, pi, NULL, zero, &z, pi, W));
    OK(MPI_Bcast(NULL, 0, ta, 0, W)); OK(MPI_Reduce(NULL, NULL, 0, MPI_INT, MPI_SUM, 0, W)); OK(MPI_Allreduce(NULL, NULL, 0, MPI_DOUBLE, MPI_MAX, W));
    OK(MPI_Scan(NULL, NULL, 0, MPI_INT, MPI_SUM, W)); OK(MPI_Reduce_scatter(NULL, NULL, zero, MPI_INT, MPI_SUM, W));
  }
  OK(MPI_Type_free(&ta)); OK(MPI_Type_free(&tb)); OK(MPI_Type_free(&e));
  COVER("done");
  sx_end();
}

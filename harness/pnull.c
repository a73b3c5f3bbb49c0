/* MPI_PROC_NULL: every send, receive and probe with it completes at once, moves nothing and
 * leaves pending operations alone, whatever the tag, count, datatype or buffer. */
#include "env.h"
int main(void) {
  int c = sx_case(), tag = sx_i32("tag"), count = sx_i32("count"), k, f;
  int in[2], out[2], w0, w1, ptag = sx_i32("ptag"), pv = sx_i32("pval"), pr[2], x;
  MPI_Request q = MPI_REQUEST_NULL, pend[3];
  MPI_Comm comm;
  MPI_Status s = {-9, -9, -9, -9}, t;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("MPI_PROC_NULL is always legal");
  sx_assume(count >= 0);
  sx_assume(ptag >= 0);
  comm = MPI_COMM_WORLD;
  if (sx_pick("comm", 0, 1)) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
  MPI_Datatype dt = MPI_INT, derived = 0;
  if (sx_pick("derived", 0, 1)) { MPI_Type_vector(2, 1, 3, MPI_DOUBLE, &derived); MPI_Type_commit(&derived); dt = derived; }
  int any = sx_pick("receive any tag", 0, 1);
  if (any) tag = MPI_ANY_TAG; else sx_assume(tag >= 0);
  in[0] = w0 = sx_i32("in"); in[1] = 5; out[0] = w1 = sx_i32("out"); out[1] = 6;
  /* what is pending: a send, or receives */
  int side = sx_pick("pending", 0, 2), x0 = 0x77;
  pr[0] = pr[1] = x0;
  if (side == 1) MPI_Isend(&pv, 1, MPI_INT, 0, ptag, comm, &pend[0]);
  if (side == 2) { MPI_Irecv(&pr[0], 1, MPI_INT, 0, ptag, comm, &pend[0]); MPI_Irecv(&pr[1], 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, comm, &pend[1]); }
  void *ib = sx_pick("null buffer", 0, 1) ? NULL : in, *ob = ib ? out : NULL;
  int st = tag == MPI_ANY_TAG ? 0 : tag;
  int ign = sx_pick("ignore", 0, 1);
  MPI_Status *sp = ign ? MPI_STATUS_IGNORE : &s;
  int hasstatus = 0;
  switch (c) {
    case 0: MPI_Send(ib, count, dt, MPI_PROC_NULL, st, comm); break;
    case 1: MPI_Ssend(ib, count, dt, MPI_PROC_NULL, st, comm); break;
    case 2: MPI_Rsend(ib, count, dt, MPI_PROC_NULL, st, comm); break;
    case 3: case 4:
      if (c == 3) MPI_Isend(ib, count, dt, MPI_PROC_NULL, st, comm, &q);
      else MPI_Irsend(ib, count, dt, MPI_PROC_NULL, st, comm, &q);
      CHECK(q != MPI_REQUEST_NULL, "a request is returned");
      f = 7;
      if (sx_pick("wait", 0, 1)) MPI_Wait(&q, MPI_STATUS_IGNORE);
      else { MPI_Test(&q, &f, &t); CHECK(f == 1, "complete at once"); }
      CHECK(q == MPI_REQUEST_NULL, "then nulled");
      break;
    case 5: MPI_Recv(ob, count, dt, MPI_PROC_NULL, tag, comm, sp); hasstatus = 1; break;
    case 6:
      MPI_Irecv(ob, count, dt, MPI_PROC_NULL, tag, comm, &q);
      CHECK(q != MPI_REQUEST_NULL, "a request is returned");
      if (sx_pick("wait", 0, 1)) MPI_Wait(&q, sp);
      else { MPI_Test(&q, &f, sp); CHECK(f == 1, "complete at once"); }
      CHECK(q == MPI_REQUEST_NULL, "then nulled");
      hasstatus = 1;
      break;
    case 7: MPI_Sendrecv(ib, count, dt, MPI_PROC_NULL, st, ob, count, dt, MPI_PROC_NULL, tag, comm, sp); hasstatus = 1; break;
    case 8: MPI_Probe(MPI_PROC_NULL, tag, comm, sp); hasstatus = 1; break;
    case 9: f = 7; MPI_Iprobe(MPI_PROC_NULL, tag, comm, &f, sp); CHECK(f == 1, "an MPI_PROC_NULL probe succeeds"); hasstatus = 1; break;
    case 10: /* one half real: a shift at the edge of the grid */
      sx_assume(side == 1 && !any);
      sx_assume(tag == ptag);
      MPI_Sendrecv(ib, count, dt, MPI_PROC_NULL, st, &x, 1, MPI_INT, 0, tag, comm, sp);
      CHECK(x == pv, "the real half receives");
      if (!ign) { CHECK(s.MPI_TAG == ptag, "status tag"); CHECK(s.MPI_SOURCE == 0, "status source"); }
      break;
    case 11:
      sx_assume(side == 2 && !any);
      x = pv;
      MPI_Sendrecv(&x, 1, MPI_INT, 0, st, ob, count, dt, MPI_PROC_NULL, tag, comm, sp);
      k = tag == ptag ? 0 : 1;
      CHECK(pr[k] == pv, "the real half sends");
      CHECK(pr[!k] == x0, "once");
      hasstatus = 1;
      break;
  }
  if (hasstatus && !ign) {
    CHECK(s.MPI_SOURCE == MPI_PROC_NULL, "status source is MPI_PROC_NULL");
    CHECK(s.MPI_TAG == MPI_ANY_TAG, "status tag is MPI_ANY_TAG");
    MPI_Get_count(&s, dt, &k);
    CHECK(k == 0, "status count is 0");
    MPI_Get_elements(&s, dt, &k);
    CHECK(k == 0, "no elements");
  }
  CHECK(in[0] == w0, "the send buffer is untouched");
  CHECK(in[1] == 5, "the send buffer is untouched");
  CHECK(out[0] == w1, "the receive buffer is untouched");
  CHECK(out[1] == 6, "the receive buffer is untouched");
  /* what was pending still is, and still meets its match */
  if (side == 1 && c != 10) {
    MPI_Test(&pend[0], &f, &t);
    CHECK(f == 0, "a pending send stays pending");
    MPI_Recv(&x, 1, MPI_INT, 0, MPI_ANY_TAG, comm, &t);
    CHECK(x == pv, "and is received afterwards");
    CHECK(t.MPI_TAG == ptag, "with its tag");
  } else if (side == 2 && c != 11) {
    MPI_Test(&pend[0], &f, &t); CHECK(f == 0, "a pending receive stays pending");
    MPI_Test(&pend[1], &f, &t); CHECK(f == 0, "a pending receive stays pending");
    CHECK(pr[0] == x0 && pr[1] == x0, "a pending receive's buffer is untouched");
    x = pv;
    MPI_Send(&x, 1, MPI_INT, 0, ptag, comm);
    CHECK(pr[0] == pv, "and receives afterwards");
  }
  sx_obs("source", s.MPI_SOURCE);
  COVER("done");
  sx_end();
}

/* One message: whatever the datatypes, counts, order of posting and kind of call, the
 * receiver's elements hold the sender's, nothing else changes, and the status counts it. */
#include "menu.h"
static Buf sb, rb;
static RT st, rt;
static MPI_Datatype stype, rtype;
static int scount, rcount;

static void transfer(int mode) {
  MPI_Request sq, rq, qs[2];
  MPI_Status s, ss[2];
  int tag = sx_i32("tag"), flag = 0;
  long so[BMAX];
  int el[BMAX], n, k;
  sx_assume(tag >= 0);
  s.MPI_SOURCE = s.MPI_TAG = -99;
  if (scount * st.n <= rcount * rt.n) sx_term_forbidden("a matching send and receive must complete");
  else sx_term_allowed("a message longer than the receive is the caller's error");
  switch (mode) {
    case 0: /* receive posted first, blocking send */
      MPI_Irecv(rb.base, rcount, rtype, 0, tag, MPI_COMM_WORLD, &rq);
      MPI_Send(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD);
      MPI_Wait(&rq, &s);
      break;
    case 1: /* send posted first, blocking receive */
      MPI_Isend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD, &sq);
      MPI_Recv(rb.base, rcount, rtype, 0, tag, MPI_COMM_WORLD, &s);
      MPI_Wait(&sq, MPI_STATUS_IGNORE);
      CHECK(sq == MPI_REQUEST_NULL, "a completed send request becomes MPI_REQUEST_NULL");
      break;
    case 2:
      MPI_Sendrecv(sb.base, scount, stype, 0, tag, rb.base, rcount, rtype, 0, tag, MPI_COMM_WORLD, &s);
      break;
    case 3:
      MPI_Isend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD, &sq);
      MPI_Irecv(rb.base, rcount, rtype, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &rq);
      MPI_Test(&rq, &flag, &s);
      CHECK(flag, "a matched receive is complete");
      MPI_Wait(&sq, MPI_STATUS_IGNORE);
      break;
    case 4:
      MPI_Irecv(rb.base, rcount, rtype, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &qs[0]);
      MPI_Isend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD, &qs[1]);
      MPI_Waitall(2, qs, ss);
      s = ss[0];
      break;
    case 5:
      MPI_Irecv(rb.base, rcount, rtype, 0, tag, MPI_COMM_WORLD, &rq);
      MPI_Irsend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD, &sq);
      MPI_Wait(&sq, MPI_STATUS_IGNORE);
      MPI_Wait(&rq, &s);
      break;
    case 6:
      MPI_Irecv(rb.base, rcount, rtype, 0, MPI_ANY_TAG, MPI_COMM_WORLD, &rq);
      MPI_Ssend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD);
      MPI_Wait(&rq, &s);
      break;
    case 7:
      MPI_Irecv(rb.base, rcount, rtype, 0, tag, MPI_COMM_WORLD, &rq);
      MPI_Rsend(sb.base, scount, stype, 0, tag, MPI_COMM_WORLD);
      MPI_Wait(&rq, &s);
      break;
  }
  check_delivered(&rb, &rt, rcount, &sb, &st, scount,
                  "the received elements are the sent elements, in order",
                  "a receive changes nothing outside the elements it received");
  check_same(&sb, "the send buffer is unchanged");
  CHECK(s.MPI_SOURCE == 0, "status source is rank 0");
  CHECK(s.MPI_TAG == tag, "status tag is the sender's tag");
  n = r_bytes(&st, scount, so, el);
  k = (st.n * scount < rt.n * rcount) ? st.n * scount : rt.n * rcount;
  if (r_size(&rt) != 0) {
    int c = -7, e = -7;
    MPI_Get_elements(&s, rtype, &e);
    CHECK(e == k, "MPI_Get_elements is the number of basic elements received");
    MPI_Get_count(&s, rtype, &c);
    CHECK(c == (k % rt.n ? MPI_UNDEFINED : k / rt.n), "MPI_Get_count is the number of receive-type items received");
  }
  sx_obs("tag", s.MPI_TAG);
  for (k = 0; k < rb.len && k < 24; k++) sx_obs("byte", rb.mem[k]);
  if (scount * st.n > 0 && scount * st.n < rcount * rt.n) COVER("short message");
  if (scount * st.n > 0 && scount * st.n == rcount * rt.n) COVER("full message");
  sx_term_forbidden("MPI_Finalize");
}

int main(void) {
  int c = sx_case();
  MPI_Init(NULL, NULL);
#ifdef THOROUGH
  int cm = 3;
#else
  int cm = 2;
#endif
  if (c < 8) { /* homogeneous, mode = case */
    static const MPI_Datatype bases[] = {MPI_SHORT, MPI_CHAR, MPI_DOUBLE, MPI_INT, MPI_SHORT_INT};
#ifdef THOROUGH
    int b = sx_pick("base", 0, 4);
#else
    int b = c % 2 == 0 ? 0 : 1 + (c / 2) % 4;
#endif
    homo(sx_pick("slayout", 0, NHOMO - 1), bases[b], &stype, &st);
    homo(sx_pick("rlayout", 0, NHOMO - 1), bases[b], &rtype, &rt);
  } else if (c < 10) {
    het(sx_pick("slayout", 0, NHET - 1), &stype, &st);
    het(sx_pick("rlayout", 0, NHET - 1), &rtype, &rt);
  } else { /* every predefined type */
    int k = sx_pick("type", 0, NALL - 1);
    stype = rtype = all_types[k];
    st = rt = r_basic(stype);
  }
  scount = sx_pick("scount", 0, cm);
  rcount = sx_pick("rcount", 0, cm + 1);
  sb = mkbuf(&st, scount, "s");
  rb = mkbuf(&rt, rcount, "r");
  transfer(c < 8 ? c : c == 10 ? sx_pick("mode", 0, 1) : sx_pick("mode", 0, 7));
  sx_end();
}

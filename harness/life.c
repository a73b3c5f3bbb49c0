/* A blocking call returns with its message when a match is there and ends the program when
 * none is; completed requests stay completed.
 * case 0 Recv 1 Send 2 Ssend 3 Rsend 4 Irsend 5 Sendrecv 6 Wait(recv) 7 Wait(send)
 *      8 Test/Wait on null and repeated Test */
#include "env.h"
#define K 3
static struct { int send, any, tag, val, buf, comm, matched; MPI_Request rq; } p[K + 2];
static int n;
static MPI_Comm comms[2];
static int matches(int sendtag, int recvtag, int any) { return any || sendtag == recvtag; }
/* the oldest pending operation the given one meets, or -1 */
static int find(int issend, int tag, int any, int comm) {
  for (int i = 0; i < n; i++) {
    if (p[i].matched || p[i].send == issend || p[i].comm != comm) continue;
    if (issend ? matches(tag, p[i].tag, p[i].any) : matches(p[i].tag, tag, any)) return i;
  }
  return -1;
}
static void post(int send, int any, int comm) {
  int i = n;
  p[i].send = send; p[i].any = any; p[i].comm = comm; p[i].matched = 0;
  p[i].tag = any ? MPI_ANY_TAG : sx_i32("ptag");
  if (!any) sx_assume(p[i].tag >= 0);
  sx_assume(find(send, p[i].tag, any, comm) < 0); /* all of them stay pending */
  p[i].val = p[i].buf = sx_i32("pval");
  n++;
  if (send) MPI_Isend(&p[i].buf, 1, MPI_INT, 0, p[i].tag, comms[comm], &p[i].rq);
  else MPI_Irecv(&p[i].buf, 1, MPI_INT, MPI_ANY_SOURCE, p[i].tag, comms[comm], &p[i].rq);
}
static void setup(int sends, int recvs) {
  int k = sx_pick("pending", 0, K), i;
  for (i = 0; i < k; i++) {
    int s = sends && recvs ? sx_pick("kind", 0, 2) : sends ? 0 : 1 + sx_pick("any", 0, 1);
    int c = sx_pick("other communicator", 0, 1);
    post(s == 0, s == 2, c);
  }
}
static void others(void) { /* whatever was not matched is untouched and still pending */
  int f;
  MPI_Status s;
  for (int i = 0; i < n; i++) {
    if (p[i].matched) continue;
    CHECK(p[i].buf == p[i].val, "an operation that did not match is untouched");
    MPI_Test(&p[i].rq, &f, &s);
    CHECK(f == 0, "an operation that did not match stays pending");
    CHECK(p[i].rq != MPI_REQUEST_NULL, "a pending request stays active");
  }
}
int main(void) {
  int c = sx_case(), tag = sx_i32("tag"), val = sx_i32("val"), got = 0x1234, m, any, f, i;
  MPI_Request q;
  MPI_Status s = {-9, -9, -9, -9};
  MPI_Init(NULL, NULL);
  comms[0] = MPI_COMM_WORLD;
  MPI_Comm_dup(MPI_COMM_WORLD, &comms[1]);
  sx_term_forbidden("setting up");
  sx_assume(tag >= 0);
  if (c == 0) {
    setup(1, 0);
    any = sx_pick("receive any", 0, 1);
    m = find(0, tag, any, 0);
    if (m < 0) sx_term_allowed("no message matches: the receive can never return");
    MPI_Recv(&got, 1, MPI_INT, sx_pick("any source", 0, 1) ? MPI_ANY_SOURCE : 0, any ? MPI_ANY_TAG : tag, comms[0], &s);
    CHECK(m >= 0, "MPI_Recv must not return without a message");
    p[m].matched = 1;
    CHECK(got == p[m].val, "the oldest matching message is received");
    CHECK(s.MPI_TAG == p[m].tag, "status tag");
    CHECK(s.MPI_SOURCE == 0, "status source");
    MPI_Wait(&p[m].rq, &s);
    others();
    COVER("returned");
  } else if (c <= 4) {
    setup(0, 1);
    m = find(1, tag, 0, 0);
    if (m < 0) sx_term_allowed("no receive matches: the send can never complete");
    switch (c) {
      case 1: MPI_Send(&val, 1, MPI_INT, 0, tag, comms[0]); break;
      case 2: MPI_Ssend(&val, 1, MPI_INT, 0, tag, comms[0]); break;
      case 3: MPI_Rsend(&val, 1, MPI_INT, 0, tag, comms[0]); break;
      case 4: MPI_Irsend(&val, 1, MPI_INT, 0, tag, comms[0], &q); break;
    }
    CHECK(m >= 0, "a blocking or ready send must not return without a receive");
    p[m].matched = 1;
    CHECK(p[m].buf == val, "the oldest matching receive gets the message");
    if (c == 4) {
      MPI_Test(&q, &f, &s);
      CHECK(f == 1, "a ready send is complete");
      CHECK(q == MPI_REQUEST_NULL, "then its request is null");
    }
    MPI_Wait(&p[m].rq, &s);
    CHECK(s.MPI_TAG == tag, "status tag");
    others();
    COVER("returned");
  } else if (c == 5) {
    int rtag = sx_i32("rtag"), ms, mr;
    sx_assume(rtag >= 0);
    setup(1, 1);
    any = sx_pick("receive any", 0, 1);
    mr = find(0, rtag, any, 0); /* who our receive hears */
    ms = find(1, tag, 0, 0);    /* who hears our send */
    int self = mr < 0 && ms < 0 && matches(tag, rtag, any);
    int ok = self || (mr >= 0 && ms >= 0);
    if (!ok) sx_term_allowed("one half never completes");
    MPI_Sendrecv(&val, 1, MPI_INT, 0, tag, &got, 1, MPI_INT, 0, any ? MPI_ANY_TAG : rtag, comms[0], &s);
    CHECK(ok, "MPI_Sendrecv must not return before both halves are done");
    if (self) {
      CHECK(got == val, "the message sent is the message received");
      CHECK(s.MPI_TAG == tag, "status tag");
      COVER("to itself");
    } else {
      p[mr].matched = p[ms].matched = 1;
      CHECK(got == p[mr].val, "the oldest matching message is received");
      CHECK(s.MPI_TAG == p[mr].tag, "status tag");
      CHECK(p[ms].buf == val, "the oldest matching receive gets the message");
      COVER("through pending operations");
    }
    others();
  } else if (c <= 7) {
    setup(1, 1);
    sx_assume(n > 0);
    i = sx_pick("which", 0, n - 1);
    sx_assume(p[i].send == (c == 7));
    if (sx_pick("match it", 0, 1)) {
      if (p[i].send) MPI_Irecv(&got, 1, MPI_INT, 0, p[i].tag, comms[p[i].comm], &q);
      else MPI_Isend(&val, 1, MPI_INT, 0, any = p[i].any ? tag : p[i].tag, comms[p[i].comm], &q);
      /* the oldest one with this tag was matched, which may be another */
      m = p[i].send ? find(0, p[i].tag, 0, p[i].comm) : find(1, any, 0, p[i].comm);
      sx_assume(m >= 0);
      p[m].matched = 1;
    }
    if (!p[i].matched) sx_term_allowed("waiting for an operation nothing matches");
    MPI_Wait(&p[i].rq, &s);
    CHECK(p[i].matched, "MPI_Wait must not return while the operation is pending");
    CHECK(p[i].rq == MPI_REQUEST_NULL, "a completed request is nulled");
    if (p[i].send) CHECK(got == p[i].val, "the waited-for send delivered its message");
    else CHECK(p[i].buf == val, "the waited-for receive holds its message");
    s.MPI_TAG = s.MPI_SOURCE = -9;
    MPI_Wait(&p[i].rq, &s); /* once more, on the null handle */
    CHECK(s.MPI_TAG == MPI_ANY_TAG, "waiting on a null request gives the empty status");
    CHECK(s.MPI_SOURCE == MPI_ANY_SOURCE, "waiting on a null request gives the empty status");
    others();
    COVER("returned");
  } else {
    int k;
    q = MPI_REQUEST_NULL;
    f = 7;
    if (sx_pick("wait", 0, 1)) { MPI_Wait(&q, &s); f = 1; }
    else MPI_Test(&q, &f, &s);
    CHECK(f == 1, "a null request is complete");
    CHECK(q == MPI_REQUEST_NULL, "and stays null");
    CHECK(s.MPI_SOURCE == MPI_ANY_SOURCE, "empty status source");
    CHECK(s.MPI_TAG == MPI_ANY_TAG, "empty status tag");
    MPI_Get_count(&s, MPI_INT, &k);
    CHECK(k == 0, "empty status count");
    q = MPI_REQUEST_NULL;
    MPI_Wait(&q, MPI_STATUS_IGNORE);
    MPI_Test(&q, &f, MPI_STATUS_IGNORE);
    CHECK(f == 1, "a null request is complete");
    /* a pending request: Test says so as often as it is asked */
    MPI_Request r, was;
    MPI_Irecv(&got, 1, MPI_INT, 0, tag, MPI_COMM_WORLD, &r);
    was = r;
    int times = sx_pick("times", 0, 4), u[4], k0;
    MPI_Request extra[4];
    for (i = 0; i < times; i++) {
      k0 = sx_pick("meanwhile", 0, 1);
      MPI_Test(&r, &f, i % 2 ? MPI_STATUS_IGNORE : &s);
      CHECK(f == 0, "pending");
      CHECK(r == was, "testing does not change a pending request");
      if (k0) { /* other requests come and go */
        MPI_Isend(&u[i], 1, MPI_INT, MPI_PROC_NULL, 0, MPI_COMM_WORLD, &extra[i]);
        CHECK(extra[i] != r, "a new request is a different one");
        MPI_Wait(&extra[i], MPI_STATUS_IGNORE);
      }
    }
    MPI_Send(&val, 1, MPI_INT, 0, tag, MPI_COMM_WORLD);
    MPI_Test(&r, &f, &s);
    CHECK(f == 1, "complete");
    CHECK(r == MPI_REQUEST_NULL, "nulled");
    CHECK(got == val, "received");
    MPI_Test(&r, &f, &s);
    CHECK(f == 1, "null again");
    CHECK(s.MPI_TAG == MPI_ANY_TAG, "empty status");
    COVER("returned");
  }
  sx_obs("got", got);
  sx_obs("tag", s.MPI_TAG);
  sx_end();
}

/* The multiple-completion calls over every combination of request states.
 * case = call: 0 Testany 1 Waitany 2 Testall 3 Waitall 4 Testsome 5 Waitsome */
#include "env.h"
#ifndef N
#define N 4
#endif
enum { NUL, DONE_SEND, DONE_RECV, PEND_RECV, PEND_SEND, PROCNULL, NSTATE };
static int st[N], buf[N], val[N], tag[N], sval[N];
static MPI_Request rq[N], before[N];
static MPI_Status ss[N + 1];
static int idx[N + 1];
#define GUARD 0x5a5a5a5a

static void fill_status(MPI_Status *s) { s->MPI_SOURCE = s->MPI_TAG = s->MPI_ERROR = s->get_count = GUARD; }
static int done(int i) { return st[i] == DONE_SEND || st[i] == DONE_RECV || st[i] == PROCNULL; }
static void check_status(const MPI_Status *s, int i) {
  int c = -1;
  if (st[i] == DONE_RECV) {
    CHECK(s->MPI_SOURCE == 0, "status source of a completed receive");
    CHECK(s->MPI_TAG == tag[i], "status tag of a completed receive");
    MPI_Get_count((MPI_Status *)s, MPI_INT, &c);
    CHECK(c == 1, "status count of a completed receive");
  } else if (st[i] == PROCNULL) {
    CHECK(s->MPI_SOURCE == MPI_PROC_NULL, "status source of a receive from MPI_PROC_NULL");
    CHECK(s->MPI_TAG == MPI_ANY_TAG, "status tag of a receive from MPI_PROC_NULL");
    MPI_Get_count((MPI_Status *)s, MPI_INT, &c);
    CHECK(c == 0, "status count of a receive from MPI_PROC_NULL");
  } else if (st[i] == NUL) {
    CHECK(s->MPI_SOURCE == MPI_ANY_SOURCE, "empty status source");
    CHECK(s->MPI_TAG == MPI_ANY_TAG, "empty status tag");
    MPI_Get_count((MPI_Status *)s, MPI_INT, &c);
    CHECK(c == 0, "empty status count");
  }
}
static void untouched(const MPI_Status *s, const char *m) {
  int ok = (s->MPI_SOURCE == GUARD) & (s->MPI_TAG == GUARD) & (s->MPI_ERROR == GUARD) & (s->get_count == GUARD);
  CHECK(ok, m);
}
/* whatever was not completed by the call is still there and completes later */
static void rest(const char *alive) {
  MPI_Status s;
  MPI_Request q;
  int f, i, x;
  sx_term_forbidden("the remaining requests are still usable");
  for (i = 0; i < N; i++) {
    if (!alive[i]) { CHECK(rq[i] == MPI_REQUEST_NULL, "a completed request is nulled in the array"); continue; }
    CHECK(rq[i] == before[i], "a request that did not complete keeps its handle");
    if (st[i] == PEND_RECV) {
      CHECK(buf[i] == val[i], "a pending receive buffer is untouched");
      x = sval[i];
      MPI_Send(&x, 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD);
      MPI_Wait(&rq[i], &s);
      CHECK(buf[i] == sval[i], "a request that did not complete still receives its message");
      CHECK(s.MPI_TAG == tag[i], "status tag");
    } else if (st[i] == PEND_SEND) {
      MPI_Recv(&x, 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &s);
      CHECK(x == val[i], "a request that did not complete still sends its message");
      MPI_Wait(&rq[i], &s);
    } else {
      MPI_Test(&rq[i], &f, &s);
      CHECK(f == 1, "a complete request that was not reported can still be completed");
      check_status(&s, i);
    }
    CHECK(rq[i] == MPI_REQUEST_NULL, "then it is nulled");
  }
  sx_end();
}
int main(void) {
  int call = sx_case(), i, n, flag = GUARD, index = GUARD, outcount = GUARD, ignore;
  int nact = 0, ndone = 0, first = -1;
  char alive[N];
  MPI_Init(NULL, NULL);
  sx_term_forbidden("setting up");
  n = sx_pick("n", 0, N);
  for (i = 0; i < N; i++) {
    int x, j;
    tag[i] = 10 + i;
    val[i] = sx_i32("val");
    sval[i] = sx_i32("sval");
    buf[i] = val[i];
    #ifdef FEW /* longer arrays of three states: null, complete and pending */
    st[i] = i < n ? sx_pick("state", 0, 2) : PEND_RECV;
    if (st[i]) st[i] = st[i] == 1 ? DONE_RECV : PEND_RECV;
#else
    st[i] = i < n ? sx_pick("state", 0, NSTATE - 1) : PEND_RECV;
#endif
    switch (st[i]) {
      case NUL: rq[i] = MPI_REQUEST_NULL; break;
      case DONE_SEND: MPI_Irecv(&x, 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &before[i]);
        MPI_Isend(&buf[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &rq[i]); MPI_Wait(&before[i], MPI_STATUS_IGNORE); break;
      case DONE_RECV: MPI_Irecv(&buf[i], 1, MPI_INT, 0, MPI_ANY_TAG, MPI_COMM_WORLD, &rq[i]);
        /* a receive with a wildcard would take an earlier pending send's message */
        for (j = 0; j < i; j++) if (st[j] == PEND_SEND) break;
        sx_assume(j == i);
        x = sval[i]; MPI_Send(&x, 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD); break;
      case PEND_RECV: MPI_Irecv(&buf[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &rq[i]); break;
      case PEND_SEND: MPI_Isend(&buf[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &rq[i]); break;
      case PROCNULL: MPI_Irecv(&buf[i], 1, MPI_INT, MPI_PROC_NULL, tag[i], MPI_COMM_WORLD, &rq[i]); break;
    }
    before[i] = rq[i];
    alive[i] = st[i] != NUL;
    if (i < n) {
      nact += st[i] != NUL;
      ndone += done(i);
      if (done(i) && first < 0) first = i;
    }
    idx[i] = GUARD;
    fill_status(&ss[i]);
  }
  fill_status(&ss[N]);
  idx[N] = GUARD;
  ignore = sx_pick("ignore", 0, 1);
  MPI_Status *sp = ignore ? MPI_STATUSES_IGNORE : ss;
  switch (call) {
    case 0: case 1:
      if (call == 1 && nact && !ndone) sx_term_allowed("MPI_Waitany with only pending requests can never return");
      if (call == 0) MPI_Testany(n, rq, &index, &flag, sp);
      else { MPI_Waitany(n, rq, &index, sp); flag = 1; }
      if (call == 1) CHECK(!nact || ndone, "MPI_Waitany must not return when nothing can complete");
      if (!nact) {
        CHECK(flag == 1, "without active requests the flag is set");
        CHECK(index == MPI_UNDEFINED, "without active requests the index is MPI_UNDEFINED");
        if (!ignore) {
          CHECK(ss[0].MPI_SOURCE == MPI_ANY_SOURCE, "empty status");
          CHECK(ss[0].MPI_TAG == MPI_ANY_TAG, "empty status");
        }
      } else if (ndone) {
        CHECK(flag == 1, "a complete request is found");
        CHECK(index >= 0, "the index is that of a complete request");
        CHECK(index < n, "the index is that of a complete request");
        index = sx_conc(index);
        CHECK(done(index), "the index is that of a complete request");
        if (!ignore) check_status(&ss[0], index);
        alive[index] = 0;
        COVER("any: one");
      } else {
        CHECK(flag == 0, "pending requests do not complete");
        CHECK(index == MPI_UNDEFINED, "without a complete request the index is MPI_UNDEFINED");
        COVER("any: none");
      }
      for (i = 1; i <= N; i++) untouched(&ss[i], "only one status is written");
      break;
    case 2: case 3:
      if (call == 3 && nact != ndone) sx_term_allowed("MPI_Waitall with a pending request can never return");
      if (call == 2) MPI_Testall(n, rq, &flag, sp);
      else { MPI_Waitall(n, rq, sp); flag = 1; }
      if (call == 3) CHECK(nact == ndone, "MPI_Waitall must not return when something cannot complete");
      CHECK(flag == (nact == ndone), "the flag says whether all are complete");
      if (flag) {
        for (i = 0; i < n; i++) {
          if (!ignore) check_status(&ss[i], i);
          alive[i] = 0;
        }
        COVER("all: all");
      } else COVER("all: not all");
      for (i = n; i <= N; i++) untouched(&ss[i], "statuses beyond count are untouched");
      break;
    case 4: case 5:
      if (call == 5 && nact && !ndone) sx_term_allowed("MPI_Waitsome with only pending requests can never return");
      if (call == 4) MPI_Testsome(n, rq, &outcount, idx, sp);
      else MPI_Waitsome(n, rq, &outcount, idx, sp);
      if (call == 5) CHECK(!nact || ndone, "MPI_Waitsome must not return when nothing can complete");
      if (!nact) { CHECK(outcount == MPI_UNDEFINED, "without active requests outcount is MPI_UNDEFINED"); }
      else {
        CHECK(outcount == ndone, "outcount is the number of complete requests");
        int seen = 0;
        for (i = 0; i < ndone; i++) {
          CHECK(idx[i] >= 0, "each index is that of a complete request");
          CHECK(idx[i] < n, "each index is that of a complete request");
          int j = sx_conc(idx[i]);
          CHECK(done(j), "each index is that of a complete request");
          CHECK(!(seen >> j & 1), "no index is reported twice");
          seen |= 1 << j;
          if (!ignore) check_status(&ss[i], j);
          alive[j] = 0;
        }
        for (i = ndone; i <= N; i++) {
          CHECK(idx[i] == GUARD, "indices beyond outcount are untouched");
        }
        COVER("some");
      }
      for (i = n; i <= N; i++) untouched(&ss[i], "statuses beyond incount are untouched");
      break;
  }
  if (ignore) for (i = 0; i <= N; i++) untouched(&ss[i], "MPI_STATUS(ES)_IGNORE");
  for (i = 0; i < N; i++) if (!alive[i] && st[i] == DONE_RECV) CHECK(buf[i] == sval[i], "a completed receive holds its message");
  sx_obs("index", index); sx_obs("flag", flag); sx_obs("outcount", outcount);
  rest(alive);
}

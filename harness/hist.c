/* Histories of nonblocking sends, receives, tests, frees and probes against a reference
 * model of MPI's matching rules.
 *   alphabet A (cases 0..9):   Isend, Irecv(tag), Irecv(ANY_TAG)                   one communicator
 *   alphabet B (cases 10..19): the same on two communicators
 *   alphabet C (cases 20..29): plus Test(i), Request_free(i), Wait(i) on complete requests
 *   alphabet D (cases 30..39): Isend, Irecv(any), Iprobe(tag), Iprobe(ANY_TAG), Probe, Request_free(i)
 *   alphabet E (cases 40..):   n sends, then receives; n receives, then sends
 * The case's last digit is the first operation, so that runs are spread over processors. */
#include "env.h"
#define MAXOP 12
enum { SEND, RECV };
static struct {
  int kind, comm, any, tag, val, matched, gottag, gotval, freed, consumed, was;
  MPI_Request rq;
  int buf;
} e[MAXOP];
static int n;
static MPI_Comm comms[2];

static int nactive(void) { int k = 0; for (int i = 0; i < n; i++) k += !e[i].freed && !e[i].consumed; return k; }
static int active(int j) { for (int i = 0; i < n; i++) if (!e[i].freed && !e[i].consumed) if (j-- == 0) return i; return -1; }

static void distinct(int me) {
  CHECK(e[me].rq != MPI_REQUEST_NULL, "an active request is not MPI_REQUEST_NULL");
  for (int i = 0; i < n; i++)
    if (i != me && !e[i].freed && !e[i].consumed)
      CHECK(e[i].rq != e[me].rq, "active requests have different handles");
}
static void post(int kind, int any, int c) {
  int me = n++, i;
  e[me].kind = kind; e[me].comm = c; e[me].any = any;
  e[me].matched = e[me].freed = e[me].consumed = 0;
  e[me].tag = any ? MPI_ANY_TAG : sx_i32("tag");
  if (!any) sx_assume(e[me].tag >= 0);
  e[me].val = sx_i32("val");
  e[me].buf = e[me].was = e[me].val;
  /* the reference: the oldest waiting operation that matches */
  for (i = 0; i < me; i++) {
    if (e[i].matched || e[i].comm != c || e[i].kind == kind) continue;
    int s = kind == SEND ? me : i, r = kind == SEND ? i : me;
    if (e[r].any || e[r].tag == e[s].tag) {
      e[s].matched = e[r].matched = 1;
      e[r].gottag = e[s].tag;
      e[r].gotval = e[s].val;
      break;
    }
  }
  if (kind == SEND) MPI_Isend(&e[me].buf, 1, MPI_INT, 0, e[me].tag, comms[c], &e[me].rq);
  else MPI_Irecv(&e[me].buf, 1, MPI_INT, (me & 1) ? MPI_ANY_SOURCE : 0, e[me].tag, comms[c], &e[me].rq);
  distinct(me);
}
/* what must be true of every operation at any time */
static void look(void) {
  int ok = 1;
  for (int i = 0; i < n; i++) {
    if (e[i].kind == SEND) ok &= e[i].buf == e[i].val;
    else ok &= e[i].buf == (e[i].matched ? e[i].gotval : e[i].was);
  }
  CHECK(ok, "each receive holds the message MPI's order gives it; unmatched buffers are untouched");
}
static void test(int i, int wait) {
  int flag = -5;
  MPI_Status s = {-77, -77, -77, -77};
  if (wait) { flag = 1; MPI_Wait(&e[i].rq, &s); }
  else MPI_Test(&e[i].rq, &flag, &s);
  if (e[i].matched) {
    CHECK(flag == 1, "a matched operation is complete");
    CHECK(e[i].rq == MPI_REQUEST_NULL, "completion sets the request to MPI_REQUEST_NULL");
    if (e[i].kind == RECV) {
      CHECK(s.MPI_SOURCE == 0, "status source");
      CHECK(s.MPI_TAG == e[i].gottag, "status tag is the tag of the message received");
      int c = -1;
      MPI_Get_count(&s, MPI_INT, &c);
      CHECK(c == 1, "status count");
    }
    e[i].consumed = 1;
    COVER("completed");
  } else {
    CHECK(flag == 0, "an unmatched operation is not complete");
    CHECK(e[i].rq != MPI_REQUEST_NULL, "an incomplete request stays active");
    COVER("not complete");
  }
}
static void probe(int any, int blocking) {
  int c = 0, tag = any ? MPI_ANY_TAG : sx_i32("ptag"), flag = -5, i, m = -1;
  MPI_Status s = {-77, -77, -77, -77};
  if (!any) sx_assume(tag >= 0);
  for (i = 0; i < n && m < 0; i++)
    if (e[i].kind == SEND && !e[i].matched && e[i].comm == c && (any || e[i].tag == tag)) m = i;
  if (blocking) {
    if (m < 0) sx_term_allowed("a probe that nothing matches can never return");
    MPI_Probe(any ? MPI_ANY_SOURCE : 0, tag, comms[c], &s);
    CHECK(m >= 0, "MPI_Probe without a message must not return");
    flag = 1;
    COVER("probe");
  } else
    MPI_Iprobe(any ? MPI_ANY_SOURCE : 0, tag, comms[c], &flag, &s);
  CHECK(flag == (m >= 0), "a probe finds a message exactly when a receive would");
  if (m >= 0) {
    CHECK(s.MPI_SOURCE == 0, "probe source");
    CHECK(s.MPI_TAG == e[m].tag, "a probe reports the message a receive would get");
    int k = -1;
    MPI_Get_count(&s, MPI_INT, &k);
    CHECK(k == 1, "probe count");
    COVER("probed a message");
  } else COVER("probed nothing");
}
static void finish(void) {
  look();
  for (int i = 0; i < n; i++)
    if (!e[i].freed && !e[i].consumed) test(i, 0);
  /* the other side of whatever is left still finds it, in order */
  int k = n;
  for (int i = 0; i < k && n < MAXOP; i++)
    if (!e[i].matched) {
      if (e[i].kind == SEND) post(RECV, 1, e[i].comm);
      else { post(SEND, 0, e[i].comm); }
    }
  look();
  for (int i = 0; i < n; i++)
    if (!e[i].freed && !e[i].consumed) test(i, 0);
  for (int i = 0; i < n; i++) sx_obs("buf", e[i].buf);
  COVER("finished");
  sx_end();
}
int main(void) {
  int c = sx_case(), first = c % 10, alpha = c / 10, k, i;
  MPI_Init(NULL, NULL);
  comms[0] = MPI_COMM_WORLD;
  MPI_Comm_dup(MPI_COMM_WORLD, &comms[1]);
  sx_term_forbidden("every operation of this history is legal");
#ifdef THOROUGH
  int len = alpha == 0 ? 7 : alpha == 1 ? 6 : alpha == 2 ? 6 : alpha == 3 ? 6 : 0;
#else
  int len = alpha == 0 ? (first == 1 ? 5 : 6) : alpha == 1 ? 4 : alpha == 2 ? (first == 1 ? 4 : 5) : alpha == 3 ? 5 : 0;
#endif
  if (alpha == 4) {
    int a = first % 2 ? RECV : SEND, m = 2 + first / 2;
    for (i = 0; i < m; i++) post(a, a == RECV ? sx_pick("any", 0, 1) : 0, 0);
    for (i = 0; i < m; i++) post(!a, a == SEND ? sx_pick("any", 0, 1) : 0, 0);
    finish();
  }
  for (k = 0; k < len; k++) {
    int o;
    if (alpha == 0) {
      o = k == 0 ? first : sx_pick("op", 0, 2);
      post(o == 0 ? SEND : RECV, o == 2, 0);
    } else if (alpha == 1) {
      o = k == 0 ? first : sx_pick("op", 0, 5);
      post(o % 3 == 0 ? SEND : RECV, o % 3 == 2, o / 3);
    } else if (alpha == 2) {
      o = k == 0 ? first : sx_pick("op", 0, 5);
      if (o < 3) post(o == 0 ? SEND : RECV, o == 2, 0);
      else {
        int j = nactive();
        sx_assume(j > 0);
        j = active(sx_pick("which", 0, j - 1));
        if (o == 3) test(j, 0);
        else if (o == 4) { MPI_Request_free(&e[j].rq); CHECK(e[j].rq == MPI_REQUEST_NULL, "MPI_Request_free nulls the handle"); e[j].freed = 1; COVER("freed"); }
        else { sx_assume(e[j].matched); test(j, 1); }
      }
    } else {
      o = k == 0 ? first : sx_pick("op", 0, 5);
      if (o < 2) post(o == 0 ? SEND : RECV, o == 1, 0);
      else if (o < 5) probe(o == 3, o == 4);
      else {
        int j = nactive();
        sx_assume(j > 0);
        j = active(sx_pick("which", 0, j - 1));
        MPI_Request_free(&e[j].rq);
        CHECK(e[j].rq == MPI_REQUEST_NULL, "MPI_Request_free nulls the handle");
        e[j].freed = 1;
        COVER("freed");
      }
    }
    look();
  }
  finish();
}

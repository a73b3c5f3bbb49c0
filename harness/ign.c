/* Ignored statuses: every call that takes a status does the same without one, to the
 * messages, requests and flags, and ends the program in the same circumstances.
 * case: the call.  12..: one request, the same calls given both ways, compared. */
#include "env.h"
#define N 3
enum { NUL, DONE, PEND, PROC };
static MPI_Request r[N];
static int st[N], buf[N], tag[N], val[N];
static MPI_Status keep[N + 2];
static void setup(int i) {
  int k = st[i] = sx_pick("request", 0, 3);
  MPI_Request x;
  tag[i] = 10 + i; val[i] = sx_i32("val"); buf[i] = 99; r[i] = MPI_REQUEST_NULL;
  if (k == DONE || k == PEND) MPI_Irecv(&buf[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD, &r[i]);
  if (k == PROC) { MPI_Irecv(&buf[i], 1, MPI_INT, MPI_PROC_NULL, tag[i], MPI_COMM_WORLD, &r[i]); st[i] = DONE; val[i] = 99; }
  if (k == DONE) MPI_Send(&val[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD);
  if (k != NUL) CHECK(r[i] != MPI_REQUEST_NULL, "an active request");
}
int main(void) {
  int c = sx_case(), i, flag = -7, idx = -7, k, x = -1, y = sx_i32("other"), n = 1, ndone = 0, npend = 0, tg;
  int ix[N + 2], end = 0;
  MPI_Request old[N], q = MPI_REQUEST_NULL;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("the arguments are legal");
  if (c < 4) { /* messages: one may be waiting */
    int has = sx_pick("waiting", 0, 1), any = sx_pick("any", 0, 1), z = y;
    tg = sx_i32("tag"); sx_assume(tg >= 0);
    if (c == 1) sx_assume(!has);   /* life.c has the exchange past older messages */
    if (has) MPI_Isend(&y, 1, MPI_INT, 0, tg, MPI_COMM_WORLD, &q);
    if (!has && c != 1 && c != 3) { sx_term_allowed("nothing can ever match"); end = 1; }
    switch (c) {
      case 0: MPI_Recv(&x, 1, MPI_INT, any ? MPI_ANY_SOURCE : 0, any ? MPI_ANY_TAG : tg, MPI_COMM_WORLD, MPI_STATUS_IGNORE); break;
      case 1:
        k = sx_i32("sent");
        MPI_Sendrecv(&k, 1, MPI_INT, 0, tg, &x, 1, MPI_INT, any ? MPI_ANY_SOURCE : 0, any ? MPI_ANY_TAG : tg, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
        z = k;
        break;
      case 2: MPI_Probe(any ? MPI_ANY_SOURCE : 0, any ? MPI_ANY_TAG : tg, MPI_COMM_WORLD, MPI_STATUS_IGNORE); break;
      case 3: MPI_Iprobe(any ? MPI_ANY_SOURCE : 0, any ? MPI_ANY_TAG : tg, MPI_COMM_WORLD, &flag, MPI_STATUS_IGNORE);
        CHECK(flag == has, "a probe finds a message exactly when there is one"); break;
    }
    CHECK(!end, "a call that nothing can ever satisfy does not return");
    if (c < 2) CHECK(x == z, "received");
    else if (has) { MPI_Recv(&x, 1, MPI_INT, 0, tg, MPI_COMM_WORLD, MPI_STATUS_IGNORE); CHECK(x == z, "a probe leaves the message to be received"); }
    if (has) { flag = -7; MPI_Test(&q, &flag, MPI_STATUS_IGNORE); CHECK(flag == 1, "the send is complete"); CHECK(q == MPI_REQUEST_NULL, "completion nulls the handle"); }
    COVER("same");
    sx_end();
  }
  /* requests */
  if (c >= 6) n = sx_pick("requests", 0, N);
  for (i = 0; i < n; i++) { setup(i); ndone += st[i] == DONE; npend += st[i] == PEND; old[i] = r[i]; }
  for (i = 0; i < N + 2; i++) ix[i] = -7;
  int block = (c == 5 || c == 9) ? npend > 0 : (c == 7 || c == 11) ? npend > 0 && ndone == 0 : 0;
  if (block) sx_term_allowed("nothing can ever match");
  switch (c) {
    case 4: MPI_Test(&r[0], &flag, MPI_STATUS_IGNORE); CHECK(flag == (npend == 0), "flag"); break;
    case 5: MPI_Wait(&r[0], MPI_STATUS_IGNORE); break;
    case 6: MPI_Testany(n, r, &idx, &flag, MPI_STATUS_IGNORE); CHECK(flag == (ndone > 0 || npend == 0), "flag"); break;
    case 7: MPI_Waitany(n, r, &idx, MPI_STATUS_IGNORE); break;
    case 8: MPI_Testall(n, r, &flag, MPI_STATUSES_IGNORE); CHECK(flag == (npend == 0), "flag"); break;
    case 9: MPI_Waitall(n, r, MPI_STATUSES_IGNORE); break;
    case 10: MPI_Testsome(n, r, &k, ix, MPI_STATUSES_IGNORE); break;
    case 11: MPI_Waitsome(n, r, &k, ix, MPI_STATUSES_IGNORE); break;
  }
  CHECK(!block, "a call that nothing can ever satisfy does not return");
  int gone[N] = {0};
  if (c <= 5) gone[0] = st[0] == DONE;
  else if (c <= 7) {
    if (ndone == 0) CHECK(idx == MPI_UNDEFINED, "no index when nothing completed");
    else { CHECK(idx >= 0 && idx < n, "an index"); idx = sx_conc(idx); CHECK(st[idx] == DONE, "of a complete request"); gone[idx] = 1; }
  } else if (c <= 9) { for (i = 0; i < n; i++) gone[i] = npend == 0 && st[i] == DONE; }
  else {
    if (ndone + npend == 0) CHECK(k == MPI_UNDEFINED, "nothing active");
    else CHECK(k == ndone, "as many as are complete");
    int m = 0;
    for (i = 0; i < n; i++) if (st[i] == DONE) { int f = 0; for (int j = 0; j < ndone; j++) f += ix[j] == i; CHECK(f == 1, "each complete request's index, once"); gone[i] = 1; }
    for (i = ndone; i < N + 2; i++) CHECK(ix[i] == -7, "no other index");
  }
  for (i = 0; i < n; i++) {
    CHECK(r[i] == (gone[i] ? MPI_REQUEST_NULL : old[i]), "exactly the completed requests are nulled");
    CHECK(buf[i] == (st[i] == DONE ? val[i] : 99), "the buffers hold what arrived");
  }
  for (i = 0; i < n; i++) if (st[i] == PEND) {
    MPI_Send(&val[i], 1, MPI_INT, 0, tag[i], MPI_COMM_WORLD);
    CHECK(buf[i] == val[i], "a pending receive still receives");
  }
  MPI_Waitall(n, r, MPI_STATUSES_IGNORE);
  for (i = 0; i < n; i++) CHECK(r[i] == MPI_REQUEST_NULL, "all complete");
  COVER("same");
  sx_end();
}

/* Communicators: whatever way they are made and freed, each live one has its own message
 * space, one process of rank 0, and a null result exactly where MPI says so.
 * case: first operation */
#include "env.h"
#define POOL 7
static MPI_Comm pool[POOL];
static int live[POOL], inter[POOL], n = 1;
static MPI_Request q[POOL][2];
static int sb[POOL][2], pend[POOL];
static void make(int op) {
  int i = sx_pick("from", 0, n - 1), x;
  sx_assume(live[i] && n < POOL);
  MPI_Comm c = -55;
  int null = 0;
  MPI_Group g;
  switch (op) {
    case 0: MPI_Comm_dup(pool[i], &c); break;
    case 1: x = sx_i32("color"); sx_assume(x >= 0 || x == MPI_UNDEFINED); null = x == MPI_UNDEFINED; MPI_Comm_split(pool[i], x, sx_i32("key"), &c); break;
    case 2: MPI_Comm_group(pool[i], &g); MPI_Comm_create(pool[i], g, &c); break;
    case 3: MPI_Comm_create(pool[i], MPI_GROUP_EMPTY, &c); null = 1; break;
    case 4: MPI_Intercomm_create(pool[i], 0, MPI_COMM_WORLD, 0, sx_i32("tag"), &c); break;
    case 5:
#ifdef FAPI
      sx_assume(0);
#else
      MPI_Intercomm_merge(pool[i], sx_i32("high"), &c);
#endif
      break;
    case 6: MPI_Intercomm_create(MPI_COMM_NULL, 0, MPI_COMM_NULL, 0, 1, &c); null = 1; break;
  }
  if (null) { CHECK(c == MPI_COMM_NULL, "no communicator where this process is not a member"); return; }
  CHECK(c != MPI_COMM_NULL, "a new communicator");
  for (int j = 0; j < n; j++) if (live[j]) CHECK(pool[j] != c, "a new communicator's handle is different from every live one");
  pool[n] = c; live[n] = 1; pend[n] = 0; n++;
}
static void fill(int i) { /* a message waits on it */
  sb[i][0] = sx_i32("val");
  MPI_Isend(&sb[i][0], 1, MPI_INT, 0, 5, pool[i], &q[i][0]);
  pend[i] = 1;
}
int main(void) {
  int c = sx_case(), k, i, f;
  MPI_Status s;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("legal communicator operations");
  pool[0] = MPI_COMM_WORLD; live[0] = 1;
  fill(0);
#ifdef THOROUGH
  int len = 5;
#else
  int len = 4;
#endif
  for (k = 0; k < len; k++) {
    int op = k == 0 ? c : sx_pick("op", 0, 8);
    if (op < 7) { make(op); if (live[n - 1] && !pend[n - 1] && n > 1) fill(n - 1); }
    else if (op == 7) { /* free one: its waiting message is received first, or goes with it */
      i = sx_pick("which", 0, n - 1);
      sx_assume(i > 0 && live[i]);
      if (pend[i] && sx_pick("receive first", 0, 1)) { MPI_Recv(&f, 1, MPI_INT, 0, 5, pool[i], &s); CHECK(f == sb[i][0], "its own message"); MPI_Wait(&q[i][0], &s); }
      MPI_Comm_free(&pool[i]);
      CHECK(pool[i] == MPI_COMM_NULL, "a freed communicator is MPI_COMM_NULL");
      live[i] = 0;
    } else { /* a receive is posted on one, and no other communicator's send reaches it */
      i = sx_pick("which", 0, n - 1);
      sx_assume(live[i] && q[i][1] == 0);
      sb[i][1] = -1;
      MPI_Irecv(&sb[i][1], 1, MPI_INT, 0, 6, pool[i], &q[i][1]);
    }
  }
  for (i = 0; i < n; i++) if (live[i]) {
    int sz = -1, rk = -1;
    MPI_Comm_size(pool[i], &sz); MPI_Comm_rank(pool[i], &rk);
    CHECK(sz == 1, "one process");
    CHECK(rk == 0, "rank 0");
    MPI_Barrier(pool[i]);
  }
  int first = sx_pick("order", 0, 1);
  for (k = 0; k < n; k++) {
    i = first ? k : n - 1 - k;
    if (!live[i]) continue;
    int x = -2, y = 1000 + i;
    MPI_Recv(&x, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, pool[i], &s);
    CHECK(x == sb[i][0], "each communicator delivers its own message");
    CHECK(s.MPI_TAG == 5, "tag");
    MPI_Wait(&q[i][0], &s);
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, pool[i], &f, &s);
    CHECK(f == 0, "and no other");
    if (q[i][1]) {
      MPI_Test(&q[i][1], &f, &s);
      CHECK(f == 0, "a receive waits for its own communicator's message");
      MPI_Send(&y, 1, MPI_INT, 0, 6, pool[i]);
      MPI_Wait(&q[i][1], &s);
      CHECK(sb[i][1] == y, "and gets it");
    }
  }
  COVER("delivered");
  sx_end();
}

/* Many items of types with gaps, in six layouts, the same on both sides or different: every
 * element arrives in its place and the bytes between the elements stay as they were.
 * case 0..12: the collectives   13: a message   14: packed and unpacked   15: in place */
#include "env.h"
#include "ref.h"
#define NMAX 1100
#define LEN (NMAX * 32 + 256)
static unsigned char A[LEN], B[LEN];
static const long dp[6][2] = {{0, 4}, {4, 0}, {2, 8}, {0, 4}, {0, 4}, {8, 2}}; /* an int and a short */
static const long lbs[6] = {0, 0, -3, 0, 0, 0}, ubs[6] = {0, 0, 17, 32, 6, 12}, exts[6] = {8, 8, 20, 32, 6, 12};
static MPI_Datatype make(int w) {
  int bl[4] = {1, 1, 1, 1}, n = 2;
  long d[4] = {dp[w][0], dp[w][1]};
  MPI_Datatype ot[4] = {MPI_INT, MPI_SHORT}, t;
  if (ubs[w]) { ot[2] = MPI_LB; ot[3] = MPI_UB; d[2] = lbs[w]; d[3] = ubs[w]; n = 4; }
  MPI_Type_struct(n, bl, d, ot, &t);
  MPI_Type_commit(&t);
  return t;
}
static unsigned char pat(int k) { return (unsigned char)(k * 37 + (k >> 8) * 11 + 1); }
int main(void) {
  int c = sx_case(), i, j, k, ok = 1, gaps = 1, src = 1, p;
#ifdef THOROUGH
  static const int ns[] = {2, 17, 33, 65, 130, 257, 1100};
  int n = ns[sx_pick("count", 0, 6)];
#else
  static const int ns[] = {17, 130, 1100};
  int n = ns[sx_pick("count", 0, 2)];
#endif
  int x = sx_pick("layout", 0, 5), y = sx_pick("pair", 0, 2);
  MPI_Init(NULL, NULL);
  sx_term_forbidden("many items are legal");
  MPI_Datatype st = make(x), rt;
  if (y == 0) rt = st; /* the same handle */
  else if (y == 1) MPI_Type_dup(st, &rt);
  else rt = make((x + 1 + n % 5) % 6);
  int z = y == 2 ? (x + 1 + n % 5) % 6 : x;
  for (i = 0; i < LEN; i++) { A[i] = pat(i); B[i] = 0xE7; }
  unsigned char *a = A + 64, *b = B + 64;
  /* some values are free */
  int at[4] = {0, n / 2, n - 2, n - 1};
  unsigned char f[4][6];
  for (i = 0; i < 4; i++) {
    sx_bytes(f[i], 6, "val");
    memcpy(a + at[i] * exts[x] + dp[x][0], f[i], 4);
    memcpy(a + at[i] * exts[x] + dp[x][1], f[i] + 4, 2);
  }
  int cnt[1] = {n}, zero[1] = {0};
  MPI_Comm w = MPI_COMM_WORLD;
  MPI_Request q;
  MPI_Status s;
  switch (c) {
    case 0: MPI_Bcast(a, n, st, 0, w); MPI_Gather(a, n, st, b, n, rt, 0, w); break;
    case 1: MPI_Gatherv(a, n, st, b, cnt, zero, rt, 0, w); break;
    case 2: MPI_Allgather(a, n, st, b, n, rt, w); break;
    case 3: MPI_Allgatherv(a, n, st, b, cnt, zero, rt, w); break;
    case 4: MPI_Scatter(a, n, st, b, n, rt, 0, w); break;
    case 5: MPI_Scatterv(a, cnt, zero, st, b, n, rt, 0, w); break;
    case 6: MPI_Alltoall(a, n, st, b, n, rt, w); break;
    case 7: MPI_Alltoallv(a, cnt, zero, st, b, cnt, zero, rt, w); break;
    case 8: MPI_Alltoallw(a, cnt, zero, &st, b, cnt, zero, &rt, w); break;
    case 9: case 10: case 11: case 12: {
      sx_assume(y == 0);
      if (c == 9) MPI_Reduce(a, b, n, st, MPI_SUM, 0, w);
      else if (c == 10) MPI_Allreduce(a, b, n, st, MPI_MAX, w);
      else if (c == 11) MPI_Scan(a, b, n, st, MPI_MIN, w);
      else MPI_Reduce_scatter(a, b, cnt, st, MPI_SUM, w);
      break; }
    case 13:
      k = sx_pick("way", 0, 3);
      if (k == 0) { MPI_Irecv(b, n, rt, 0, 1, w, &q); MPI_Send(a, n, st, 0, 1, w); MPI_Wait(&q, &s); }
      else if (k == 1) { MPI_Isend(a, n, st, 0, 1, w, &q); MPI_Recv(b, n + 5, rt, 0, MPI_ANY_TAG, w, &s); MPI_Wait(&q, MPI_STATUS_IGNORE); }
      else if (k == 2) MPI_Sendrecv(a, n, st, 0, 1, b, n, rt, 0, 1, w, &s);
      else { MPI_Irecv(b, n + 1, rt, 0, 1, w, &q); MPI_Rsend(a, n, st, 0, 1, w); MPI_Wait(&q, &s); }
      i = j = -1;
      MPI_Get_count(&s, rt, &i); MPI_Get_elements(&s, rt, &j);
      CHECK(i == n && j == 2 * n, "the count");
      break;
    case 14: {
      static unsigned char pk[NMAX * 6 + 9];
      MPI_Aint sz = -1;
      MPI_Pack_size(n, st, w, &sz); CHECK(sz >= 6 * n, "the size asked for is enough");
      p = 4;
      MPI_Pack(a, n, st, pk, sizeof pk, &p, w); CHECK(p == 4 + 6 * n, "packed position");
      p = 4;
      MPI_Unpack(pk, 4 + 6 * n, &p, b, n, rt, w); CHECK(p == 4 + 6 * n, "unpacked position");
      break; }
    case 15: { /* a receive into the sending buffer is a copy onto itself */
      sx_assume(y == 0);
      k = sx_pick("which", 0, 5);
      if (k == 0) MPI_Bcast(a, n, st, 0, w);
      else if (k == 1) MPI_Allreduce(MPI_IN_PLACE, a, n, st, MPI_SUM, w);
      else if (k == 2) MPI_Gather(MPI_IN_PLACE, 0, MPI_INT, a, n, st, 0, w);
      else if (k == 3) MPI_Allgather(MPI_IN_PLACE, 0, MPI_INT, a, n, st, w);
      else if (k == 4) MPI_Scatter(a, n, st, MPI_IN_PLACE, 0, MPI_INT, 0, w);
      else MPI_Reduce(MPI_IN_PLACE, a, n, st, MPI_SUM, 0, w);
      break; }
  }
  /* what the memory should be */
  static unsigned char want[LEN], was[LEN];
  for (i = 0; i < LEN; i++) { was[i] = pat(i); want[i] = 0xE7; }
  for (i = 0; i < 4; i++) {
    memcpy(was + 64 + at[i] * exts[x] + dp[x][0], f[i], 4);
    memcpy(was + 64 + at[i] * exts[x] + dp[x][1], f[i] + 4, 2);
  }
  if (c != 15)
    for (i = 0; i < n; i++) {
      memcpy(want + 64 + i * exts[z] + dp[z][0], was + 64 + i * exts[x] + dp[x][0], 4);
      memcpy(want + 64 + i * exts[z] + dp[z][1], was + 64 + i * exts[x] + dp[x][1], 2);
    }
  int top = 64 + n * 32 + 64;
  for (i = 0; i < top; i++) {
    ok &= B[i] == want[i];
    src &= A[i] == was[i];
  }
  CHECK(ok, "every element is in its place and nothing else was written");
  CHECK(src, "the source is as it was");
  COVER("moved");
  sx_end();
}

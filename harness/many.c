/* Types of a million blocks: nothing is kept in space that grows with them on the stack, and the
 * blocks are the ones asked for.  All blocks are empty but three, at any displacements.
 * case: constructor */
#include "env.h"
#define N 1050000 /* pointers to so many are more than 8 MB */
#define M 450000  /* two arrays of pointers and one of ints */
static int bl[N], dp[N];
static MPI_Aint hd[N];
static MPI_Datatype ty[N];

int main(void) {
  int c = sx_case(), i, k, n, pos = 0, w[3], el = 0;
  static const int at[] = {0, 777777, N - 1};
  long d[3], lo = 0, hi = 0;
  MPI_Datatype t;
  MPI_Aint lb, ub;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("types of many blocks are legal");
  for (k = 0; k < 3; k++) { w[k] = 1; d[k] = 4 * (long)(short)sx_i32("displacement"); }
  if (c < 3) { /* any blocks among empty ones */
    n = N;
    for (k = 0; k < 3; k++) { w[k] = 2 - k % 2; bl[at[k]] = w[k]; dp[at[k]] = d[k] / 4; hd[at[k]] = d[k]; }
    for (i = 0; i < N; i++) ty[i] = MPI_INT;
    if (c == 0) MPI_Type_indexed(n, bl, dp, MPI_INT, &t);
    else if (c == 1) MPI_Type_hindexed(n, bl, hd, MPI_INT, &t);
    else MPI_Type_struct(n, bl, hd, ty, &t);
    for (k = 0; k < 3; k++) for (i = 0; i < w[k]; i++) {
      long a = d[k] + 4 * i;
      if (!el || a < lo) lo = a;
      if (!el || a + 4 > hi) hi = a + 4;
      el++;
    }
  } else if (c < 6) { /* a million empty blocks, then some */
    MPI_Datatype e;
    MPI_Aint x[2];
    int b[2] = {1, 1};
    MPI_Datatype y[2];
    if (c == 3) MPI_Type_vector(M, 0, 7, MPI_INT, &e);
    else if (c == 4) MPI_Type_hvector(M, 0, 12, MPI_INT, &e);
    else MPI_Type_create_indexed_block(M, 0, dp, MPI_INT, &e);
    y[0] = e; y[1] = MPI_INT; x[0] = 0; x[1] = d[0];
    MPI_Type_size(e, &k); CHECK(k == 0, "size of empty blocks");
    MPI_Type_struct(2, b, x, y, &t);
    MPI_Type_free(&e);
    lo = d[0]; hi = d[0] + 4; el = 1;
  } else { /* no empty ones */
    n = M;
    if (c == 6) MPI_Type_contiguous(n, MPI_CHAR, &t);
    else { for (i = 0; i < n; i++) dp[i] = i; MPI_Type_create_indexed_block(n, 1, dp, MPI_CHAR, &t); }
    MPI_Type_size(t, &k); CHECK(k == n, "size");
    MPI_Type_ub(t, &ub); CHECK(ub == n, "upper bound");
    MPI_Type_free(&t);
    goto out;
  }
  MPI_Type_commit(&t);
  MPI_Type_size(t, &k); CHECK(k == 4 * el, "size");
  MPI_Type_lb(t, &lb); MPI_Type_ub(t, &ub);
  CHECK(lb == lo, "lower bound"); CHECK(ub == hi, "upper bound");
  MPI_Type_free(&t);
out:
  COVER("made");
  sx_end();
}

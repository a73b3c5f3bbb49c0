/* A library built with type checking: a transfer whose elements have different types ends
 * the program; any other transfer is delivered.
 * case 0: every pair of predefined types   1: sequences of types on both sides
 * case 2: sequences through a collective   3: long sequences that differ in one place, or nowhere */
#include "menu.h"
static const MPI_Datatype basic[3] = {MPI_INT, MPI_INTEGER, MPI_FLOAT};
static int seq(const char *nm, int *sig, MPI_Datatype *t) {
  int n = sx_pick("elements", 1, 3), bl[3] = {1, 1, 1};
  long d[3] = {8, 0, 4};
  MPI_Datatype ot[3];
  for (int i = 0; i < n; i++) sig[i] = sx_pick("type", 0, 2), ot[i] = basic[sig[i]];
  MPI_Type_struct(n, bl, d, ot, t);
  MPI_Type_commit(t);
  return n;
}
int main(void) {
  int c = sx_case();
  MPI_Request q;
  MPI_Status s;
  MPI_Init(NULL, NULL);
  if (c == 0) {
    MPI_Datatype one[NALL];
    int n = 0, sc, i;
    unsigned char a[64], b[64];
    sx_bytes(a, sizeof a, "sent");
    memset(b, 0xee, sizeof b);
    for (i = 0; i < NALL; i++) { RT r = r_basic(all_types[i]); if (r.n == 1) one[n++] = all_types[i]; }
    MPI_Datatype x = one[sx_pick("sent", 0, n - 1)], y = one[sx_pick("received", 0, n - 1)];
    RT rx = r_basic(x), ry = r_basic(y);
    int same = x == y || x == MPI_PACKED || y == MPI_PACKED;
    sc = sx_pick("count", 0, 1);
    if (sc == 0 || same) sx_term_forbidden("matching types");
    else sx_term_allowed("the types differ");
    MPI_Isend(a, sc, x, 0, 1, MPI_COMM_WORLD, &q);
    MPI_Recv(b, 64 / r_size(&ry), y, 0, 1, MPI_COMM_WORLD, &s);
    CHECK(sc == 0 || same, "elements of different types are not delivered");
    for (i = 0; i < (int)sizeof b; i++) CHECK(b[i] == (i < sc * r_size(&rx) ? a[i] : 0xee), "elements of the same type are delivered");
    COVER("matched");
  } else if (c == 3) {
    static const int len[] = {2, 5, 17, 40};
    static int a[40], b[40];
    int n = len[sx_pick("length", 0, 3)], p = sx_pick("odd one", 0, 40), i, j, way = sx_pick("way", 0, 7), other = sx_pick("other side", 0, 2), swap = sx_pick("swap", 0, 1);
    sx_assume(p <= n);  /* n: nowhere */
    int bl[3] = {p, 1, n - p - 1}, cx = 1, cy = 1;
    long d[3] = {0, 4L * p, 4L * (p + 1)};
    MPI_Datatype ot[3] = {MPI_INT, MPI_FLOAT, MPI_INT}, x, y;
    if (p == n) { bl[1] = bl[2] = 0; bl[0] = n; }
    MPI_Type_struct(3, bl, d, ot, &x);
    MPI_Type_commit(&x);
    if (other == 0) { y = MPI_INT; cy = n; }
    else if (other == 1) { MPI_Type_contiguous(n, MPI_INT, &y); MPI_Type_commit(&y); }
    else { sx_assume(n % 5 == 0); MPI_Type_contiguous(n / 5, MPI_INT, &y); MPI_Type_commit(&y); cy = 5; }
    if (swap) { MPI_Datatype z = x; x = y; y = z; cx = cy; cy = 1; }
    for (i = 0; i < 40; i++) { a[i] = 3 * i + 1; b[i] = -7; }
    sx_bytes(&a[n - 1], 4, "sent"); j = a[n - 1];
    if (p == n) sx_term_forbidden("matching types"); else sx_term_allowed("the types differ");
    int r[1] = {cy}, sc[1] = {cx}, z[1] = {0};
    switch (way) {
      case 0: MPI_Isend(a, cx, x, 0, 1, MPI_COMM_WORLD, &q); MPI_Recv(b, cy, y, 0, 1, MPI_COMM_WORLD, &s); break;
      case 1: MPI_Irecv(b, cy, y, 0, 1, MPI_COMM_WORLD, &q); MPI_Send(a, cx, x, 0, 1, MPI_COMM_WORLD); break;
      case 2: MPI_Gather(a, cx, x, b, cy, y, 0, MPI_COMM_WORLD); break;
      case 3: MPI_Alltoallv(a, sc, z, x, b, r, z, y, MPI_COMM_WORLD); break;
      case 4: MPI_Scatterv(a, sc, z, x, b, cy, y, 0, MPI_COMM_WORLD); break;
      case 5: MPI_Allgatherv(a, cx, x, b, r, z, y, MPI_COMM_WORLD); break;
      case 6: MPI_Alltoallw(a, sc, z, &x, b, r, z, &y, MPI_COMM_WORLD); break;
      case 7: MPI_Sendrecv(a, cx, x, 0, 1, b, cy, y, 0, 1, MPI_COMM_WORLD, &s); break;
    }
    CHECK(p == n, "elements of different types are not delivered");
    int ok = 1;
    for (i = 0; i < 40; i++) ok &= b[i] == (i < n - 1 ? 3 * i + 1 : i == n - 1 ? j : -7);
    CHECK(ok, "elements of the same types are delivered");
    COVER("matched");
  } else {
    int sa[3], sb[3], i, na, nb, ca, cb, m = 1, k;
    MPI_Datatype x, y;
    int a[9], b[9];
    sx_bytes(a, sizeof a, "sent");
    memset(b, 0xee, sizeof b);
    na = seq("sent", sa, &x);
    nb = seq("received", sb, &y);
    ca = sx_pick("sent items", 1, 2);
    cb = sx_pick("received items", 1, 2);
    if (c == 1) sx_assume(na * ca <= nb * cb); else sx_assume(na * ca == nb * cb);
    /* extents are 12 (three elements, or the third first), or less */
    static const int off[3] = {2, 0, 1};
    int lo = 0, ea, eb;
    long e;
    MPI_Type_extent(x, &e); ea = e / 4;
    MPI_Type_extent(y, &e); eb = e / 4;
    for (k = 0; k < na * ca; k++) if (sa[k % na] != sb[k % nb]) m = 0;
    if (m) sx_term_forbidden("matching types"); else sx_term_allowed("the types differ");
    int *A = a, *B = b;
    sx_assume(ea * 1 <= 4 && eb <= 4);
    if (c == 1) {
      MPI_Isend(A, ca, x, 0, 1, MPI_COMM_WORLD, &q);
      MPI_Recv(B, cb, y, 0, 1, MPI_COMM_WORLD, &s);
    } else switch (sx_pick("collective", 0, 2)) {
      case 0: MPI_Allgather(A, ca, x, B, cb, y, MPI_COMM_WORLD); break;
      case 1: MPI_Alltoall(A, ca, x, B, cb, y, MPI_COMM_WORLD); break;
      case 2: MPI_Scatter(A, ca, x, B, cb, y, 0, MPI_COMM_WORLD); break;
    }
    CHECK(m, "elements of different types are not delivered");
    for (k = 0; k < na * ca; k++)
      CHECK(b[off[k % nb] + k / nb * eb] == a[off[k % na] + k / na * ea], "elements of the same types are delivered");
    COVER("matched");
  }
  sx_end();
}

/* Long things: messages, types, collectives and packing of tens of thousands of elements,
 * hundreds of requests and of waiting messages - past the sizes where a narrow counter, a
 * fixed array or a block of a table would end.  Contents at chosen places are any values.
 * case: what is long */
#include "env.h"
#define MAX 66200
static int a[MAX + 8], b[MAX + 8], w[8], pos[8], np;
static unsigned char ub[MAX * 4 + 64];
static void places(int n) { /* where the values are free */
  int e[] = {0, 1, n / 2, 255, 256, 32768, n - 2, n - 1};
  np = 0;
  for (int i = 0; i < 8; i++) if (e[i] >= 0 && e[i] < n) pos[np++] = e[i];
}
static void fill(int n) {
  for (int i = 0; i < MAX + 8; i++) { a[i] = i * 7 + 3; b[i] = -1 - i; }
  places(n);
  for (int i = 0; i < np; i++) w[i] = a[pos[i]] = sx_i32("val");
  for (int i = 0; i < np; i++) w[i] = a[pos[i]];
}
/* b[0..n) holds a[0..n) and nothing after; a is as it was */
static void same(int n, const char *m) {
  int ok = 1, rest = 1, src = 1, k = 0;
  for (int i = 0; i < n; i++) {
    int f = 0;
    for (k = 0; k < np; k++) f |= pos[k] == i;
    if (!f) { ok &= b[i] == i * 7 + 3; src &= a[i] == i * 7 + 3; }
  }
  for (k = 0; k < np; k++) { ok &= b[pos[k]] == w[k]; src &= a[pos[k]] == w[k]; }
  for (int i = n; i < MAX + 8; i++) rest &= b[i] == -1 - i;
  CHECK(ok, "every element arrives in its place");
  CHECK(rest, "nothing is written after them");
  CHECK(src, "the source is not changed");
}
static int length(void) {
#ifdef THOROUGH
  static const int l[] = {257, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 66000};
  return l[sx_pick("length", 0, 8)];
#else
  static const int l[] = {257, 33000, 65537};
  return l[sx_pick("length", 0, 2)];
#endif
}
static void big_type(int c, int n, MPI_Datatype *t) { /* n ints in a row, made in several ways */
  static int bl[700], dp[700];
  static MPI_Aint hd[700];
  static MPI_Datatype ty[700];
  int m = n / 600 + 1, k = 0, i = 0;
  for (i = 0; i < n; i += m, k++) { bl[k] = n - i < m ? n - i : m; dp[k] = i; hd[k] = 4L * i; ty[k] = MPI_INT; }
  MPI_Datatype u;
  switch (c) {
    case 0: MPI_Type_contiguous(n, MPI_INT, t); break;
    case 1: MPI_Type_vector(n, 1, 1, MPI_INT, t); break;
    case 2: MPI_Type_indexed(k, bl, dp, MPI_INT, t); break;
    case 3: MPI_Type_hindexed(k, bl, hd, MPI_INT, t); break;
    case 4: MPI_Type_struct(k, bl, hd, ty, t); break;
    case 5: MPI_Type_hvector(1, n, 4L * n, MPI_INT, t); break;
    case 6: /* nested: rows of rows */
      MPI_Type_contiguous(n / 251, MPI_INT, &u);
      MPI_Type_contiguous(251, u, &u);
      bl[0] = 1; hd[0] = 0; ty[0] = u; bl[1] = n - n / 251 * 251; hd[1] = 4L * (n / 251 * 251); ty[1] = MPI_INT;
      MPI_Type_struct(2, bl, hd, ty, t); MPI_Type_free(&u);
      break;
    case 7: /* one at a time */
      for (i = 0; i < 600; i++) dp[i] = i;
      MPI_Type_create_indexed_block(600, 1, dp, MPI_INT, &u);
      bl[0] = n / 600; hd[0] = 0; ty[0] = u; bl[1] = n % 600; hd[1] = 4L * (n / 600 * 600); ty[1] = MPI_INT;
      MPI_Type_struct(2, bl, hd, ty, t); MPI_Type_free(&u);
      break;
  }
  MPI_Type_commit(t);
}
int main(void) {
  int c = sx_case(), n, i, k, f;
  MPI_Status s;
  MPI_Request q;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("long is legal");
  if (c == 0) { /* a message */
    n = length(); fill(n);
    MPI_Irecv(b, MAX, MPI_INT, 0, 1, MPI_COMM_WORLD, &q);
    MPI_Send(a, n, MPI_INT, 0, 1, MPI_COMM_WORLD);
    MPI_Wait(&q, &s);
    same(n, "message");
    MPI_Get_count(&s, MPI_INT, &k); CHECK(k == n, "count");
    MPI_Get_elements(&s, MPI_INT, &k); CHECK(k == n, "count");
  } else if (c == 1) { /* bytes sent, ints received, found by a probe */
    n = length(); fill(n);
    MPI_Isend(a, n * 4, MPI_BYTE, 0, 1, MPI_COMM_WORLD, &q);
    MPI_Probe(0, 1, MPI_COMM_WORLD, &s);
    MPI_Get_count(&s, MPI_BYTE, &k); CHECK(k == n * 4, "the probe's count");
    MPI_Recv(b, n * 4, MPI_BYTE, 0, 1, MPI_COMM_WORLD, &s);
    same(n, "message");
    MPI_Get_count(&s, MPI_BYTE, &k); CHECK(k == n * 4, "count");
    MPI_Wait(&q, &s);
  } else if (c < 10) { /* long types */
    MPI_Datatype t;
    MPI_Aint lb, ub_, ex;
    static const int l[] = {257, 1200, 40000, 65537};
    n = l[sx_pick("length", 0, 3)];
    fill(n);
    big_type(c - 2, n, &t);
    MPI_Type_size(t, &k); CHECK(k == 4 * n, "size");
    MPI_Type_lb(t, &lb); MPI_Type_ub(t, &ub_); MPI_Type_extent(t, &ex);
    CHECK(lb == 0, "lower bound"); CHECK(ub_ == 4L * n, "upper bound"); CHECK(ex == 4L * n, "extent");
    MPI_Irecv(b, 1, t, 0, 1, MPI_COMM_WORLD, &q);
    MPI_Send(a, n, MPI_INT, 0, 1, MPI_COMM_WORLD);
    MPI_Wait(&q, &s);
    same(n, "type");
    MPI_Get_count(&s, t, &k); CHECK(k == 1, "one item");
    MPI_Get_elements(&s, t, &k); CHECK(k == n, "elements");
    MPI_Get_count(&s, MPI_INT, &k); CHECK(k == n, "ints");
  } else if (c == 10) { /* packing, in two parts */
    int p = 3, h;
    n = length(); fill(n); h = n / 3;
    MPI_Pack(a, h, MPI_INT, ub, sizeof ub, &p, MPI_COMM_WORLD); CHECK(p == 3 + 4 * h, "position");
    MPI_Pack(a + h, n - h, MPI_INT, ub, sizeof ub, &p, MPI_COMM_WORLD); CHECK(p == 3 + 4 * n, "position");
    p = 3;
    MPI_Unpack(ub, 3 + 4 * n, &p, b, n - h, MPI_INT, MPI_COMM_WORLD); CHECK(p == 3 + 4 * (n - h), "position");
    MPI_Unpack(ub, 3 + 4 * n, &p, b + n - h, h, MPI_INT, MPI_COMM_WORLD); CHECK(p == 3 + 4 * n, "position");
    same(n, "packed");
  } else if (c < 24) { /* collectives */
    int rc[1], d[1] = {0}, sc[1];
    MPI_Datatype ti = MPI_INT;
    n = length(); fill(n);
    rc[0] = sc[0] = n;
    switch (c) {
      case 11: MPI_Allreduce(a, b, n, MPI_INT, MPI_SUM, MPI_COMM_WORLD); break;
      case 12: MPI_Reduce(a, b, n, MPI_INT, MPI_MAX, 0, MPI_COMM_WORLD); break;
      case 13: MPI_Gather(a, n, MPI_INT, b, n, MPI_INT, 0, MPI_COMM_WORLD); break;
      case 14: MPI_Gatherv(a, n, MPI_INT, b, rc, d, MPI_INT, 0, MPI_COMM_WORLD); break;
      case 15: MPI_Allgather(a, n, MPI_INT, b, n, MPI_INT, MPI_COMM_WORLD); break;
      case 16: MPI_Allgatherv(a, n, MPI_INT, b, rc, d, MPI_INT, MPI_COMM_WORLD); break;
      case 17: MPI_Scatter(a, n, MPI_INT, b, n, MPI_INT, 0, MPI_COMM_WORLD); break;
      case 18: MPI_Scatterv(a, sc, d, MPI_INT, b, n, MPI_INT, 0, MPI_COMM_WORLD); break;
      case 19: MPI_Reduce_scatter(a, b, rc, MPI_INT, MPI_MIN, MPI_COMM_WORLD); break;
      case 20: MPI_Scan(a, b, n, MPI_INT, MPI_PROD, MPI_COMM_WORLD); break;
      case 21: MPI_Alltoall(a, n, MPI_INT, b, n, MPI_INT, MPI_COMM_WORLD); break;
      case 22: MPI_Alltoallv(a, sc, d, MPI_INT, b, rc, d, MPI_INT, MPI_COMM_WORLD); break;
      case 23: MPI_Alltoallw(a, sc, d, &ti, b, rc, d, &ti, MPI_COMM_WORLD); break;
    }
    same(n, "collective");
  } else if (c < 30) { /* arrays of requests: done, pending and null ones */
#define Q 300
    static MPI_Request r[Q], was[Q];
    static MPI_Status st[Q];
    static int v[Q], got[Q], kind[Q], ix[Q];
    int hole = (int[]){0, 128, 257, 299}[sx_pick("hole", 0, 3)], all = c == 24 || c == 25, done = 0, x = sx_i32("val");
    for (i = 0; i < Q; i++) {
      kind[i] = i % 11 == 5 ? 0 : all && (c == 24 || i != hole) ? 1 : i == hole ? 2 : c == 25 ? 1 : c == 29 ? (i == hole + 1 || i + 1 == hole) ? 1 : 2 : i % 3 ? 2 : 1;
      if (i == hole && c != 24) kind[i] = 2;
      v[i] = i == 280 ? x : i * 3; got[i] = -9; r[i] = MPI_REQUEST_NULL; ix[i] = -9;
      st[i].MPI_TAG = -99;
      if (kind[i]) MPI_Irecv(&got[i], 1, MPI_INT, 0, 1000 + i, MPI_COMM_WORLD, &r[i]);
      if (kind[i] == 1) { MPI_Send(&v[i], 1, MPI_INT, 0, 1000 + i, MPI_COMM_WORLD); done++; }
      was[i] = r[i];
    }
    switch (c) {
      case 24: MPI_Waitall(Q, r, st); break;
      case 25: MPI_Testall(Q, r, &f, st); CHECK(f == 0, "one is pending"); break;
      case 26: MPI_Waitsome(Q, r, &k, ix, st); CHECK(k == done, "as many as are complete"); break;
      case 27: MPI_Testsome(Q, r, &k, ix, st); CHECK(k == done, "as many as are complete"); break;
      case 28: for (k = 0; k < 5; k++) { int y; MPI_Waitany(Q, r, &y, st + k); CHECK(y >= 0 && y < Q && kind[y] == 1 && r[y] == 0, "a complete one"); CHECK(st[k].MPI_TAG == 1000 + y, "its status"); kind[y] = 3; } break;
      case 29: { int y; MPI_Testany(Q, r, &y, &f, st); if (done) { CHECK(f == 1 && y >= 0 && y < Q && kind[y] == 1 && r[y] == 0, "a complete one"); CHECK(st[0].MPI_TAG == 1000 + y, "its status"); kind[y] = 3; } break; }
    }
    int ok = 1, m = 0;
    for (i = 0; i < Q; i++) {
      if (c == 24) { ok &= r[i] == 0 && (kind[i] == 0 || st[i].MPI_TAG == 1000 + i); }
      else if (c == 25) ok &= r[i] == was[i];
      else if (c == 26 || c == 27) {
        ok &= r[i] == (kind[i] == 1 ? 0 : was[i]);
        if (kind[i] == 1) { ok &= ix[m] == i && st[m].MPI_TAG == 1000 + i; m++; }
      } else ok &= r[i] == (kind[i] == 3 ? 0 : was[i]);
      if (kind[i] == 1 || kind[i] == 3) ok &= got[i] == v[i]; else ok &= got[i] == -9;
    }
    if (c == 26 || c == 27) for (; m < Q; m++) ok &= ix[m] == -9 && st[m].MPI_TAG == -99;
    CHECK(ok, "exactly the complete ones, each with its own index and status");
    for (i = Q - 1; i >= 0; i--) if (kind[i] == 2) MPI_Send(&v[i], 1, MPI_INT, 0, 1000 + i, MPI_COMM_WORLD);
    MPI_Waitall(Q, r, st);
    for (i = 0; i < Q; i++) ok &= r[i] == 0 && got[i] == (kind[i] ? v[i] : -9);
    CHECK(ok, "and the others later");
  } else if (c < 34) { /* many waiting messages or receives */
    static MPI_Request r[Q];
    static int v[Q];
    int z = sx_i32("tag"), x = sx_i32("val"), o = sx_pick("order", 0, 2);
    sx_assume(z >= 5000);
    if (c < 32) {
      for (i = 0; i < Q; i++) { v[i] = i == 150 ? x : i; MPI_Isend(&v[i], 1, MPI_INT, 0, c == 30 ? (i == 270 ? z : i) : 4, MPI_COMM_WORLD, &r[i]); }
      for (i = 0; i < Q; i++) {
        int j = c == 31 ? i : o == 0 ? i : o == 1 ? Q - 1 - i : (i * 7) % Q, y = -1;
        if (i == 100) { MPI_Iprobe(0, 4444, MPI_COMM_WORLD, &f, &s); CHECK(f == 0, "no such message"); }
        if (i == 120) { MPI_Iprobe(0, c == 31 ? 4 : j, MPI_COMM_WORLD, &f, &s); CHECK(f == 1, "a message"); }
        MPI_Recv(&y, 1, MPI_INT, 0, c == 31 ? (o ? MPI_ANY_TAG : 4) : j == 270 ? z : j, MPI_COMM_WORLD, &s);
        CHECK(y == v[j], "the right message of many");
        MPI_Test(&r[j], &f, &s); CHECK(f == 1, "its send is complete");
      }
    } else {
      static int g[Q];
      for (i = 0; i < Q; i++) { v[i] = i == 150 ? x : i; g[i] = -1; MPI_Irecv(&g[i], 1, MPI_INT, 0, c == 32 ? (i == 270 ? z : i) : o == 0 ? 4 : MPI_ANY_TAG, MPI_COMM_WORLD, &r[i]); }
      for (i = 0; i < Q; i++) {
        int j = c == 33 ? i : o == 0 ? i : o == 1 ? Q - 1 - i : (i * 7) % Q;
        MPI_Send(&v[j], 1, MPI_INT, 0, c == 33 ? 4 : j == 270 ? z : j, MPI_COMM_WORLD);
        CHECK(g[j] == v[j], "the right receive of many");
        MPI_Test(&r[j], &f, &s); CHECK(f == 1, "it is complete");
      }
    }
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &f, &s); CHECK(f == 0, "nothing is left");
  } else if (c == 34) { /* many ranks translated */
    static int in[Q], out[Q + 1];
    MPI_Group g, e = MPI_GROUP_EMPTY;
    MPI_Comm_group(MPI_COMM_WORLD, &g);
    int ok = 1;
    for (i = 0; i <= Q; i++) out[i] = -88;
    for (i = 0; i < Q; i++) in[i] = 0;
    MPI_Group_translate_ranks(g, Q, in, g, out);
    for (i = 0; i < Q; i++) ok &= out[i] == 0 && in[i] == 0;
    CHECK(ok && out[Q] == -88, "ranks of the same group");
    MPI_Group_translate_ranks(g, Q, in, e, out);
    for (i = 0; i < Q; i++) ok &= out[i] == MPI_UNDEFINED;
    CHECK(ok && out[Q] == -88, "ranks of another group");
  } else { /* many dimensions */
    static int d[Q], p[Q], od[Q + 1], op[Q + 1], oc[Q + 1];
    MPI_Comm x, y;
    int at = sx_pick("periodic", 0, 1) ? 299 : 31, ok = 1;
    for (i = 0; i < Q; i++) { d[i] = 1; p[i] = i % 3 == 0 || i == at; }
    for (i = 0; i <= Q; i++) od[i] = op[i] = oc[i] = -88;
    MPI_Cart_create(MPI_COMM_WORLD, Q, d, p, 0, &x);
    MPI_Comm_dup(x, &y);
    MPI_Comm_free(&x);
    MPI_Cart_get(y, Q, od, op, oc);
    for (i = 0; i < Q; i++) ok &= od[i] == 1 && oc[i] == 0 && !!op[i] == p[i];
    CHECK(ok && od[Q] == -88 && op[Q] == -88 && oc[Q] == -88, "dimensions, periods and coordinates");
    for (i = 0; i < Q; i++) oc[i] = -88;
    MPI_Cart_coords(y, 0, Q, oc);
    for (i = 0; i < Q; i++) ok &= oc[i] == 0;
    for (i = 0; i < Q; i++) d[i] = 0;
    MPI_Dims_create(1, Q, d);
    for (i = 0; i < Q; i++) ok &= d[i] == 1;
    CHECK(ok, "coordinates and dimensions");
    MPI_Comm_free(&y);
  }
  COVER("long");
  sx_end();
}

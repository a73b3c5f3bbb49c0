/* Many objects at once: handles stay distinct and keep meaning their object while others are
 * made, freed and made again, past every growth of the library's tables.
 * case 0..8: kind = case % 3 (datatypes, requests, communicators), size = case / 3
 * case 9: kinds mixed   case 10: until the library refuses
 * case 30..43: few objects of 14 makings, the first made is case - 30
 * case 20..22: thousands of one kind   case 23: thousands of all kinds */
#include "env.h"
#define M 5200
static int h[M], alive[M], buf[M];
static int n;
static int size_of(int i) { return 1 + i % 37; }
static void mk(int kind, int i) {
  switch (kind) {
    case 0: MPI_Type_contiguous(size_of(i), MPI_CHAR, &h[i]); break;
    case 1: buf[i] = -1; MPI_Irecv(&buf[i], 1, MPI_INT, 0, i, MPI_COMM_WORLD, &h[i]); break;
    case 2: MPI_Comm_dup(MPI_COMM_WORLD, &h[i]); break;
  }
  alive[i] = 1;
  CHECK(h[i] != 0, "a new object's handle is not null");
}
static void kill(int kind, int i) {
  switch (kind) {
    case 0: MPI_Type_free(&h[i]); break;
    case 1: { int x = 7; MPI_Send(&x, 1, MPI_INT, 0, i, MPI_COMM_WORLD); MPI_Wait(&h[i], MPI_STATUS_IGNORE); CHECK(buf[i] == 7, "received"); break; }
    case 2: MPI_Comm_free(&h[i]); break;
  }
  CHECK(h[i] == 0, "a freed handle is nulled");
  alive[i] = 0;
}
static void distinct(int kind) {
  for (int i = 0; i < n; i++)
    if (alive[i])
      for (int j = i + 1; j < n && j < i + 3; j++) CHECK(!alive[j] || h[i] != h[j], "live handles are distinct");
  /* all pairs, through a table */
  static char seen[1 << 16];
  for (int i = 0; i < n; i++)
    if (alive[i]) {
      if (h[i] < 0 || h[i] >= 1 << 16) continue;
      CHECK(!seen[h[i]], "live handles are distinct");
      seen[h[i]] = 1;
    }
  for (int i = 0; i < n; i++) if (alive[i] && h[i] >= 0 && h[i] < 1 << 16) seen[h[i]] = 0;
}
static void use(int kind) { /* each handle still means its own object */
  int i, s, x, y, step = kind == 2 ? 7 : 1;
  MPI_Status st;
  if (kind == 0)
    for (i = 0; i < n; i++) { if (alive[i]) { s = -1; MPI_Type_size(h[i], &s); CHECK(s == size_of(i), "a handle keeps meaning its datatype"); } }
  else if (kind == 1) {
    for (i = n - 1; i >= 0; i -= 61) if (alive[i]) kill(1, i);
    for (i = 0; i < n; i++) if (alive[i]) { MPI_Test(&h[i], &x, &st); CHECK(x == 0, "a handle keeps meaning its pending request"); CHECK(buf[i] == -1, "its buffer is untouched"); }
  } else {
    MPI_Request q[M / 7 + 2], k = 0;
    for (i = 0; i < n; i += step) if (alive[i]) { buf[i] = i; MPI_Isend(&buf[i], 1, MPI_INT, 0, 3, h[i], &q[i / step]); }
    for (i = (n - 1) / step * step; i >= 0; i -= step) if (alive[i]) {
      MPI_Recv(&x, 1, MPI_INT, 0, 3, h[i], &st); CHECK(x == i, "a handle keeps meaning its communicator");
      MPI_Wait(&q[i / step], &st);
    }
  }
}
/* few objects of every making: nothing about how an object was made or ended may make two
 * later ones share a handle */
#define NV 14
static int vk[64], vh[64], vb[64], vn;
static MPI_Comm W;
static void vmake(int k) {
  int i = vn++, one[3] = {1, 1, 1}, z[3] = {0, 0, 0}, bl[2] = {1, 1};
  long d[2] = {0, 8 + i * 4};
  MPI_Datatype tt[2] = {MPI_INT, MPI_INT}, t;
  MPI_Comm c;
  MPI_Group g;
  vk[i] = k;
  vb[i] = -1;
  switch (k) {
    case 0: MPI_Type_contiguous(i + 1, MPI_CHAR, &vh[i]); break;
    case 1: MPI_Type_contiguous(i + 1, MPI_CHAR, &t); MPI_Type_dup(t, &vh[i]); MPI_Type_free(&t); break;
    case 2: MPI_Type_struct(2, bl, d, tt, &vh[i]); MPI_Type_commit(&vh[i]); break;
    case 3: MPI_Comm_dup(W, &vh[i]); break;
    case 4: MPI_Cart_create(W, 1, one, z, 0, &vh[i]); break;
    case 5: MPI_Cart_create(W, 3, one, one, 1, &vh[i]); break;
    case 6: MPI_Comm_split(W, 3, 1, &vh[i]); break;
    case 7: MPI_Comm_group(W, &g); MPI_Comm_create(W, g, &vh[i]); MPI_Group_free(&g); break;
    case 8: MPI_Intercomm_create(W, 0, W, 0, 1, &vh[i]); break;
    case 9: vb[i] = i; MPI_Isend(&vb[i], 1, MPI_INT, 0, 100 + i, W, &vh[i]); break;
    case 10: MPI_Irecv(&vb[i], 1, MPI_INT, 0, 100 + i, W, &vh[i]); break;
    case 11: MPI_Irecv(&vb[i], 1, MPI_INT, MPI_PROC_NULL, 0, W, &vh[i]); break;
    case 12: MPI_Cart_create(W, 2, one, z, 0, &c); MPI_Comm_dup(c, &vh[i]); MPI_Comm_free(&c); break;
    case 13: MPI_Type_vector(1, 1, 1, MPI_INT, &t); MPI_Type_commit(&t); MPI_Irecv(&vb[i], 1, t, 0, 100 + i, W, &vh[i]); MPI_Type_free(&t); break;
  }
  CHECK(vh[i] != 0, "a new object's handle is not null");
  for (int j = 0; j < i; j++) CHECK(vh[j] == 0 || vh[j] != vh[i], "live handles are distinct");
}
static void vlook(int i) {
  int x, f, k = vk[i];
  MPI_Status s;
  if (vh[i] == 0) return;
  if (k <= 1) { MPI_Type_size(vh[i], &x); CHECK(x == i + 1, "a handle keeps meaning its datatype"); }
  else if (k == 2) { long e; MPI_Type_size(vh[i], &x); MPI_Type_extent(vh[i], &e); CHECK(x == 8 && e == 12 + i * 4, "a handle keeps meaning its datatype"); }
  else if (k <= 8 || k == 12) {
    x = 1000 + i;
    MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, vh[i], &f, &s);
    CHECK(!f, "a communicator has only its own messages");
    MPI_Comm_size(vh[i], &x);
    CHECK(x == 1, "a handle keeps meaning its communicator");
    if (k == 4 || k == 5 || k == 12) { int nd = k == 4 ? 1 : k == 5 ? 3 : 2, g[3] = {7, 7, 7}, p[3], q[3]; MPI_Cart_get(vh[i], nd, g, p, q); CHECK(g[0] == 1 && g[nd - 1] == 1 && p[nd - 1] == (k == 5), "a handle keeps meaning its communicator"); }
  }
}
static void vend(int i, int how) {
  int f, x, k = vk[i];
  MPI_Status s;
  if (vh[i] == 0) return;
  if (k <= 2) MPI_Type_free(&vh[i]);
  else if (k <= 8 || k == 12) MPI_Comm_free(&vh[i]);
  else {
    if (how == 1) { MPI_Request_free(&vh[i]); CHECK(vh[i] == 0, "a freed handle is nulled"); }
    if (k == 9) { MPI_Recv(&x, 1, MPI_INT, 0, 100 + i, W, &s); CHECK(x == i, "received"); }
    else if (k != 11) { MPI_Send(&i, 1, MPI_INT, 0, 100 + i, W); CHECK(vb[i] == i, "received"); }
    if (how == 2) { MPI_Request_free(&vh[i]); }
    else if (how == 0) { MPI_Test(&vh[i], &f, &s); CHECK(f, "complete"); }
  }
  CHECK(vh[i] == 0, "a freed handle is nulled");
}
static void varied(int first) {
  int i, j, a, b, how = sx_pick("how", 0, 2), late = sx_pick("late", 0, 2);
  W = MPI_COMM_WORLD;
  vmake(first);
  vmake(a = sx_pick("a", 0, NV - 1));
#ifdef THOROUGH
  b = sx_pick("b", 0, NV - 1);
#else
  b = (first * 5 + a * 3) % NV;
#endif
  vmake(b);
  if (late == 0) { vend(0, how); vend(1, how); }
  else if (late == 1) { vend(1, how); vend(0, how); vend(2, how); }
  else { vend(0, how); vmake(first); vend(2, how); }
  for (j = 0; j < 3; j++)
    for (i = 0; i < NV; i++) if ((i & 3) != 3 || j == 0) vmake(i);
  for (i = 0; i < vn; i++) vlook(i);
  for (i = 0; i < vn; i++) vend((i * 7) % vn, how);
  for (i = 0; i < vn; i++) CHECK(vh[i] == 0, "a freed handle is nulled");
  vmake(0); vmake(3); vmake(10);
  COVER("used");
  sx_end();
}
int main(void) {
  int c = sx_case(), kind = c % 3, i, j, k;
#ifdef THOROUGH
  static const int edge[] = {0, 1, 253, 254, 255, 256, 257, 509, 510, 511};
  int ne = 9;
#else
  static const int edge[] = {0, 254, 255, 256, 510};
  int ne = 4;
#endif
  MPI_Init(NULL, NULL);
  sx_term_forbidden("many objects are legal");
  if (c >= 30) varied(c - 30);
  if (c < 9) {
    static const int sizes[] = {258, 514, 772};
    n = sizes[c / 3];
    for (i = 0; i < n; i++) mk(kind, i);
    distinct(kind);
    /* free two anywhere near the edges, in either order, and make them (and more) again */
    int a = edge[sx_pick("first", 0, ne)], b = edge[sx_pick("second", 0, ne)];
    sx_assume(a < n && b < n && a != b);
    kill(kind, a);
    if (sx_pick("remake early", 0, 1)) { mk(kind, a); kill(kind, b); mk(kind, b); }
    else { kill(kind, b); mk(kind, a); mk(kind, b); }
    for (i = 0; i < 3; i++) mk(kind, n++);
    distinct(kind);
    use(kind);
    for (i = 0; i < n; i++) if (alive[i] && i % 2) kill(kind, i);
    for (i = 0; i < n; i++) if (!alive[i] && i % 2) mk(kind, i);
    distinct(kind);
    use(kind);
    COVER("used");
  } else if (c == 9) { /* one table serves all kinds: interleave them */
    int p = sx_pick("phase", 0, 2), q = sx_pick("drop", 0, 2), s, x;
    n = 780;
    for (i = 0; i < n; i++) mk((i + p) % 3, i);
    for (i = 240; i < 530; i++) if ((i + p) % 3 == q) kill(q, i);
    for (i = 529; i >= 240; i--) if (!alive[i]) mk((i + p) % 3, i);
    for (i = 0; i < n; i++) {
      k = (i + p) % 3;
      if (k == 0) { MPI_Type_size(h[i], &s); CHECK(s == size_of(i), "a handle keeps meaning its datatype"); }
      else if (k == 1 && i % 5 == 0) kill(1, i);
      else if (k == 2) { MPI_Comm_size(h[i], &s); CHECK(s == 1, "a communicator of one"); }
    }
    for (i = 0; i < n; i++) if (alive[i]) kill((i + p) % 3, i);
    COVER("used");
  } else if (c < 24 && c > 10) { /* far more than a few blocks */
    int s, x, odd = sx_pick("odd", 0, 1);
    kind = c - 20;
#ifdef THOROUGH
    n = kind == 2 ? 3000 : 5000;
#else
    n = kind == 2 ? 1400 : 2200;
#endif
    for (i = 0; i < n; i++) mk(kind == 3 ? i % 3 : kind, i);
    distinct(kind);
    for (i = n - 1; i >= 0; i--) if (alive[i] && i % 2 == odd && i % 300 > 200) kill(kind == 3 ? i % 3 : kind, i);
    for (i = 0; i < n; i++) if (!alive[i]) mk(kind == 3 ? i % 3 : kind, i);
    distinct(kind);
    if (kind < 3) use(kind);
    for (i = 0; i < n; i++) if (alive[i]) {
      if (kind == 3 && i % 3 == 0) { MPI_Type_size(h[i], &s); CHECK(s == size_of(i), "a handle keeps meaning its datatype"); }
      if (kind == 3 && i % 3 == 1 && i % 5) continue;
      if (kind == 1 && i % 7) continue;
      kill(kind == 3 ? i % 3 : kind, i);
    }
    COVER("used");
  } else { /* requests that never complete a wait: the limit is refused, not overrun */
    static unsigned char seen[1 << 19];
    int r, x;
    sx_term_allowed("more handles than the library supports");
    for (i = 0; i < 262200; i++) {
      MPI_Irecv(&x, 1, MPI_INT, MPI_PROC_NULL, 0, MPI_COMM_WORLD, &r);
      CHECK(r > 0, "a handle");
      if (i >= 200000) sx_term_allowed("more handles than the library supports");
      else sx_term_forbidden("at least 200000 active requests are supported");
      if (r < 1 << 19) { CHECK(!seen[r], "live handles are distinct"); seen[r] = 1; }
    }
    COVER("used");
  }
  sx_end();
}

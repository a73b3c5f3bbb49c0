/* Every datatype constructor, over many shapes and nested in one another, against the
 * reference typemap: observed through MPI_Pack, MPI_Unpack and the query functions. */
#include "ref.h"
#ifdef THOROUGH
#define ITEMS sx_pick("items", 0, 3)
#else
#define ITEMS 2
#endif
static MPI_Datatype t;
static RT r;

static void base(int k, MPI_Datatype *b, RT *rb) {
  RT c;
  switch (k) {
    case 0: *b = MPI_CHAR; *rb = r_basic(*b); break;
    case 1: *b = MPI_SHORT; *rb = r_basic(*b); break;
    case 2: *b = MPI_DOUBLE; *rb = r_basic(*b); break;
    case 3: *b = MPI_SHORT_INT; *rb = r_basic(*b); break;
    case 4: { /* a short with bounds of its own */
      int bl[3] = {1, 1, 1}, mk[3] = {MPI_LB, 0, MPI_UB};
      long d[3] = {-1, 0, 5};
      MPI_Datatype ot[3] = {MPI_LB, MPI_SHORT, MPI_UB};
      RT s = r_basic(MPI_SHORT);
      const RT *o[3] = {NULL, &s, NULL};
      MPI_Type_struct(3, bl, d, ot, b);
      *rb = r_struct(3, bl, d, o, mk); break; }
    case 5: c = r_basic(MPI_SHORT); MPI_Type_vector(2, 1, -3, MPI_SHORT, b); *rb = r_vector(2, 1, -3, &c); break;
    case 6: c = r_basic(MPI_INT); MPI_Type_contiguous(0, MPI_INT, b); *rb = r_contig(0, &c); break;
    case 7: { /* padded: an int and a char */
      int bl[2] = {1, 1};
      long d[2] = {0, 4};
      MPI_Datatype ot[2] = {MPI_INT, MPI_CHAR};
      RT i = r_basic(MPI_INT), ch = r_basic(MPI_CHAR);
      const RT *o[2] = {&i, &ch};
      MPI_Type_struct(2, bl, d, ot, b);
      *rb = r_struct(2, bl, d, o, NULL); break; }
  }
}
#define NBASE 8
#define NCTOR 9
/* small: fewer shapes, for nesting */
#ifdef THOROUGH
#define PICK(n, lo, hi, a, b) (small ? sx_pick(n, a, b) : sx_pick(n, lo, hi))
#else
#define PICK(n, lo, hi, a, b) (small ? (a) + ((b) - (a)) * sx_pick(n, 0, (a) != (b)) : sx_pick(n, lo, hi))
#endif
static void make(int c, MPI_Datatype b, const RT *rb, MPI_Datatype *t, RT *r, int small) {
  int count = 0, i, bl[3], d[3];
  long dd[3];
  long e = r_extent(rb);
  if (c != 8) count = small ? 2 : sx_pick("count", 0, 3);
  switch (c) {
    case 0: MPI_Type_contiguous(count, b, t); *r = r_contig(count, rb); return;
    case 1: bl[0] = PICK("bl", 0, 2, 1, 2); d[0] = PICK("stride", -2, 3, -2, 3);
      MPI_Type_vector(count, bl[0], d[0], b, t); *r = r_vector(count, bl[0], d[0], rb); return;
    case 2: case 3: bl[0] = PICK("bl", 0, 2, 1, 2); dd[0] = PICK("stride", -2, 2, -2, 2) * 7;
      if (c == 2) MPI_Type_hvector(count, bl[0], dd[0], b, t); else MPI_Type_create_hvector(count, bl[0], dd[0], b, t);
      *r = r_hvector(count, bl[0], dd[0], rb); return;
    case 4: for (i = 0; i < count; i++) { bl[i] = i == 0 ? PICK("bl", 0, 2, 0, 1) : i == 1 ? 2 - bl[0] : 1; d[i] = i == 0 ? PICK("d", -1, 2, 2, 2) : PICK("d", 0, 1, 0, 1) * 3 + i; }
      MPI_Type_indexed(count, bl, d, b, t); *r = r_indexed(count, bl, d, rb); return;
    case 5: for (i = 0; i < count; i++) { bl[i] = i == 0 ? PICK("bl", 0, 2, 0, 1) : i == 1 ? 2 - bl[0] : 1; dd[i] = PICK("d", -1, 1, -1, 1) * 11 + i * (2 * e + 1); }
      MPI_Type_hindexed(count, bl, dd, b, t); *r = r_hindexed(count, bl, dd, rb); return;
    case 6: bl[0] = bl[1] = bl[2] = PICK("bl", 0, 2, 1, 2);
      for (i = 0; i < count; i++) d[i] = PICK("d", -1, 1, -1, 1) * 4 + 2 * i;
      MPI_Type_create_indexed_block(count, bl[0], d, b, t); *r = r_indexed(count, bl, d, rb); return;
    case 7: { /* structure of the base, doubles, chars and markers */
      MPI_Datatype ot[3];
      int mk[3];
      RT rc = r_basic(MPI_CHAR), rd = r_basic(MPI_DOUBLE);
      const RT *o[3];
      for (i = 0; i < count; i++) {
        int k = small ? (i == 0 ? 0 : sx_pick("member", 1, 4)) : sx_pick("member", 0, 4);
        bl[i] = k >= 3 ? 1 : (i == 0 ? PICK("bl", 0, 2, 1, 2) : 1);
        dd[i] = i == 0 ? 3 : i == 1 ? 40 - 60 * PICK("neg", 0, 1, 1, 1) : 90;
        mk[i] = k == 3 ? MPI_LB : k == 4 ? MPI_UB : 0;
        ot[i] = k == 0 ? b : k == 1 ? MPI_DOUBLE : k == 2 ? MPI_CHAR : mk[i];
        o[i] = k == 0 ? rb : k == 1 ? &rd : k == 2 ? &rc : NULL;
      }
      MPI_Type_struct(count, bl, dd, ot, t); *r = r_struct(count, bl, dd, o, mk); return; }
    case 8: MPI_Type_dup(b, t); *r = *rb; return;
  }
}
static int overlaps(const RT *r, int cnt) {
  long off[BMAX];
  int n = r_bytes(r, cnt, off, NULL);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (off[i] == off[j]) return 1;
  return 0;
}
static void observe(int cnt) {
  long lb = 99, ub = 99, ex = 99, off[BMAX];
  int size = 99, pos = 0, n, ok = 1;
  MPI_Type_size(t, &size);
  CHECK(size == r_size(&r), "the size is the sum of the elements' sizes");
  MPI_Type_lb(t, &lb);
  MPI_Type_extent(t, &ex);
  MPI_Type_ub(t, &ub);
  CHECK(lb == r.lb, "the lower bound");
  CHECK(ex == r_extent(&r), "the extent");
  CHECK(ub == lb + ex, "extent = ub - lb");
  Buf in = mkbuf(&r, cnt, "in");
  n = r_bytes(&r, cnt, off, NULL);
  unsigned char *out = malloc(n);
  MPI_Pack(in.base, cnt, t, out, n, &pos, MPI_COMM_WORLD);
  CHECK(pos == n, "packing advances by the size of the data");
  for (int i = 0; i < n; i++) ok &= out[i] == in.was[off[i] - in.lo];
  CHECK(ok, "packing visits the elements the constructor describes, in order");
  check_same(&in, "packing leaves its input alone");
  if (!overlaps(&r, cnt)) {
    Buf b = mkbuf(&r, cnt, "b");
    unsigned char *want = malloc(b.len);
    for (long i = 0; i < b.len; i++) want[i] = b.was[i];
    for (int i = 0; i < n; i++) want[off[i] - b.lo] = in.was[off[i] - in.lo];
    pos = 0;
    MPI_Unpack(out, n, &pos, b.base, cnt, t, MPI_COMM_WORLD);
    CHECK(pos == n, "unpacking advances by the size of the data");
    ok = 1;
    for (long i = 0; i < b.len; i++) ok &= b.mem[i] == want[i];
    CHECK(ok, "unpacking fills the elements the constructor describes and nothing else");
    COVER("unpacked");
  }
  sx_obs("lb", lb); sx_obs("ub", ub); sx_obs("n", n);
  for (int i = 0; i < n && i < 12; i++) sx_obs("byte", out[i]);
}
int main(void) {
  int c = sx_case();
  MPI_Datatype b, u;
  RT rb, ru;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("every datatype here is legal");
  if (c < NCTOR || c == 18) { /* structures are spread over cases 7 and 18 */
    base(c == 18 ? sx_pick("base", 4, 7) : sx_pick("base", 0, c == 7 ? 3 : 7), &b, &rb);
    make(c == 18 ? 7 : c, b, &rb, &t, &r, 0);
  } else { /* two constructors deep */
#ifdef THOROUGH
    base(sx_pick("base", 0, NBASE - 1), &b, &rb);
#else
    base(sx_pick("base", 0, 1) ? 3 : 4, &b, &rb);
#endif
    make((c - NCTOR) , b, &rb, &u, &ru, 1);
    make(sx_pick("outer", 0, 8), u, &ru, &t, &r, 1);
    if (u > 0 && sx_pick("free inner", 0, 1)) MPI_Type_free(&u);
  }
  if (r.n * 2 > RMAX) sx_end();
  observe(c < NCTOR || c == 18 ? ITEMS : 2);
  COVER("observed");
  sx_end();
}

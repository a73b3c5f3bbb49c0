/* lb, ub, extent and size for any displacement, stride and bound markers. */
#include "ref.h"
#define LIM (1L << 44)
static MPI_Datatype base(int k, RT *r) {
  static const MPI_Datatype b[] = {MPI_CHAR, MPI_INT, MPI_DOUBLE, MPI_SHORT_INT, MPI_DOUBLE_INT};
  *r = r_basic(b[k]);
  return b[k];
}
/* In nested types the displacements take 256 values each, beyond 2^34 and of every residue. */
static int spread;
static long disp(const char *n) {
  if (spread) {
    unsigned char x = sx_u8(n);
    return (5L << 32) + x;
  }
  long d = sx_i64(n); sx_assume(d >= -LIM && d <= LIM); return d; }
static void look(MPI_Datatype t, const RT *r) {
  long lb = 1, ub = 1, ex = 1, want = r_extent(r);
  int size = -1;
  MPI_Type_lb(t, &lb);
  MPI_Type_ub(t, &ub);
  MPI_Type_extent(t, &ex);
  MPI_Type_size(t, &size);
  CHECK(lb == r->lb, "the lower bound is the least displacement, or the least MPI_LB");
  CHECK(ex == want, "the extent is the span, padded, or as MPI_LB and MPI_UB say");
  CHECK(ub - lb == ex, "extent = ub - lb");
  CHECK(size == r_size(r), "the size is the sum of the elements' sizes");
  sx_obs("lb", lb);
  sx_obs("ub", ub);
  sx_obs("extent", ex);
  COVER("looked");
}
/* structure of a base type and markers, all displacements symbolic */
#ifdef THOROUGH
#define Q(quick, lo, hi, n) sx_pick(n, lo, hi)
#else
#define Q(quick, lo, hi, n) (quick)
#endif
static void bounded(MPI_Datatype *t, RT *r, int nm) {
  int bl[4] = {1, 1, 1, 1}, mk[4] = {0}, n = 0;
  long d[4];
  MPI_Datatype ot[4];
  static RT rb, rc;
  const RT *o[4];
  #ifdef THOROUGH
  int nb = sx_pick("base", 1, 3), mul = sx_pick("bl", 0, 2);
#else
  int nb = spread ? 1 : sx_pick("base", 1, 2) * 2 - 1, mul = spread ? 1 : sx_pick("bl", 1, 2);
#endif
  ot[n] = base(nb, &rb); o[n] = &rb; d[n] = disp("d"); bl[n] = mul; n++;
  for (int i = 0; i < nm; i++) {
    int k = sx_pick("member", 0, 2);
    mk[n] = k == 0 ? 0 : k == 1 ? MPI_LB : MPI_UB;
    d[n] = disp("d");
    ot[n] = k == 0 ? base(0, &rc) : mk[n];
    o[n] = k == 0 ? &rc : NULL;
    n++;
  }
  MPI_Type_struct(n, bl, d, ot, t);
  *r = r_struct(n, bl, d, o, mk);
}
int main(void) {
  int c = sx_case(), i, n, bl[3], di[3], s;
  long dd[3], st;
  MPI_Datatype b, t, u;
  RT rb, r, r2;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("legal datatypes");
  spread = c >= 8;
  switch (c) {
    case 0:
      b = base(sx_pick("base", 1, 3), &rb);
      n = sx_pick("count", 0, 2);
      for (i = 0; i < n; i++) { bl[i] = sx_pick("bl", 0, 2); dd[i] = disp("d"); }
      MPI_Type_hindexed(n, bl, dd, b, &t);
      r = r_hindexed(n, bl, dd, &rb);
      break;
    case 1: /* any 32-bit displacement: the product needs 64 bits */
    case 2:
      b = base(sx_pick("base", 0, 4), &rb);
      n = sx_pick("count", 0, 3);
      bl[0] = bl[1] = bl[2] = sx_pick("bl", 0, 1);
      for (i = 0; i < n; i++) { if (c == 1 && i) bl[i] = 1; di[i] = sx_i32("d"); }
      if (c == 1) MPI_Type_indexed(n, bl, di, b, &t); else MPI_Type_create_indexed_block(n, bl[0], di, b, &t);
      r = r_indexed(n, bl, di, &rb);
      break;
    case 3: case 4:
      b = base(sx_pick("base", 0, 4), &rb);
      n = sx_pick("count", 0, 3); s = sx_pick("bl", 0, 2); st = disp("stride");
      if (c == 3) MPI_Type_hvector(n, s, st, b, &t); else MPI_Type_create_hvector(n, s, st, b, &t);
      r = r_hvector(n, s, st, &rb);
      break;
    case 5:
      b = base(sx_pick("base", 0, 4), &rb);
      n = sx_pick("count", 0, 3); s = sx_pick("bl", 0, 2); i = sx_i32("stride");
      MPI_Type_vector(n, s, i, b, &t);
      r = r_vector(n, s, i, &rb);
      break;
    case 6: bounded(&t, &r, 1); break;
    case 7: bounded(&t, &r, 2); break;
    case 8: /* an array of a type with its own bounds */
      bounded(&u, &r2, 2);
      n = Q(2, 0, 2, "count");
      MPI_Type_contiguous(n, u, &t);
      r = r_contig(n, &r2);
      break;
    case 9: { /* inside a structure, next to other markers */
      int b2[2] = {1, 1}, mk[2] = {0, 0}, k = sx_pick("outer marker", 0, 2);
      MPI_Datatype ot[2];
      RT rc = r_basic(MPI_CHAR);
      const RT *o[2] = {&r2, k ? NULL : &rc};
      bounded(&u, &r2, 1);
      b2[0] = Q(2, 0, 2, "bl");
      mk[1] = k == 0 ? 0 : k == 1 ? MPI_LB : MPI_UB;
      ot[0] = u; ot[1] = k ? mk[1] : MPI_CHAR;
      dd[0] = disp("d"); dd[1] = disp("d");
      MPI_Type_struct(2, b2, dd, ot, &t);
      r = r_struct(2, b2, dd, o, mk);
      break; }
    case 10: /* vector of a type with its own bounds */
      bounded(&u, &r2, 1);
      st = disp("stride");
      if (sx_pick("negative", 0, 1)) st = -st;
      s = Q(2, 0, 2, "bl");
      MPI_Type_hvector(2, s, st, u, &t);
      r = r_hvector(2, s, st, &r2);
      break;
    case 11:
      bounded(&u, &r, 2);
      MPI_Type_dup(u, &t);
      MPI_Type_free(&u);
      break;
    case 12: /* stride counts extents */
      bounded(&u, &r2, 1);
      i = sx_pick("stride", -2, 2); s = sx_pick("bl", 0, 1);
      MPI_Type_vector(2, s, i, u, &t);
      r = r_vector(2, s, i, &r2);
      break;
    case 13: /* large block lengths and counts */
      n = sx_pick("count", 0, 24);
      MPI_Type_contiguous(n, MPI_SHORT_INT, &u);
      rb = r_basic(MPI_SHORT_INT);
      { long lb, ex; int size;
        MPI_Type_lb(u, &lb); MPI_Type_extent(u, &ex); MPI_Type_size(u, &size);
        CHECK(lb == 0 && ex == 8L * n && size == 6 * n, "an array's extent and size");
        COVER("looked"); }
      sx_end();
    case 14: { /* the widest element anywhere in a long list of narrower ones */
      static const int len[] = {0, 1, 3, 7, 8, 15, 16, 17, 31, 32, 33, 40};
      int b4[4] = {len[sx_pick("before", 0, 11)], 1, len[sx_pick("after", 0, 11)], 0}, k = sx_pick("widest", 0, 2);
      long d4[4], g = sx_u8("gap");
      static RT rn, rw, in;
      const RT *o[4] = {&rn, &rw, &rn};
      MPI_Datatype ot[4];
      rn = r_basic(MPI_CHAR); rw = r_basic(k == 0 ? MPI_SHORT : k == 1 ? MPI_INT : MPI_DOUBLE);
      ot[0] = ot[2] = MPI_CHAR; ot[1] = k == 0 ? MPI_SHORT : k == 1 ? MPI_INT : MPI_DOUBLE;
      d4[0] = 0; d4[1] = b4[0]; d4[2] = b4[0] + rw.s[0] + g;
      MPI_Type_struct(3, b4, d4, ot, &t);
      r = r_struct(3, b4, d4, o, NULL);
      if (sx_pick("wrapped", 0, 1)) {
        in = r; u = t;
        const RT *o2[2] = {&rn, &in};
        MPI_Datatype t2[2] = {MPI_CHAR, u};
        int one[2] = {1, 1};
        long e2[2] = {0, 1};
        MPI_Type_struct(2, one, e2, t2, &t);
        r = r_struct(2, one, e2, o2, NULL);
        MPI_Type_free(&u);
      }
      break; }
  }
  look(t, &r);
  sx_end();
}

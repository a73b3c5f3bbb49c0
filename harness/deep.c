/* Datatypes nested three and more levels deep, every intermediate freed on the way, against the
 * reference typemap: bounds, packing, unpacking and a message of two items.  The case is the
 * innermost constructor; from 100 on the bounds only, one level deeper. */
#include "ref.h"
#ifndef LEVELS
#ifdef THOROUGH
#define LEVELS 4
#else
#define LEVELS 3
#endif
#endif
#define NCON 13
static void derive(int k, MPI_Datatype b, const RT *rb, MPI_Datatype *t, RT *r) {
  int one[4] = {1, 1, 1, 1}, bz[2] = {0, 1}, mk[3] = {0, 0, 0}, di[2];
  long d[3];
  MPI_Datatype ot[3];
  RT rc = r_basic(MPI_CHAR);
  const RT *o[3] = {rb, &rc, NULL};
  ot[0] = b; ot[1] = MPI_CHAR;
  switch (k) {
    case 0: MPI_Type_contiguous(2, b, t); *r = r_contig(2, rb); break;
    case 1: MPI_Type_vector(2, 1, 2, b, t); *r = r_vector(2, 1, 2, rb); break;
    case 2: MPI_Type_hvector(2, 1, -13, b, t); *r = r_hvector(2, 1, -13, rb); break;
    case 3: di[0] = 2; di[1] = 0; MPI_Type_indexed(2, one, di, b, t); *r = r_indexed(2, one, di, rb); break;
    case 4: d[0] = 50; d[1] = -3; MPI_Type_hindexed(2, one, d, b, t); *r = r_hindexed(2, one, d, rb); break;
    case 5: di[0] = -1; di[1] = 2; MPI_Type_create_indexed_block(2, 1, di, b, t); *r = r_indexed(2, one, di, rb); break;
    case 6: d[0] = 3; d[1] = -9; MPI_Type_struct(2, one, d, ot, t); *r = r_struct(2, one, d, o, mk); break;
    case 7: ot[1] = MPI_LB; mk[1] = MPI_LB; d[0] = 2; d[1] = -5; o[1] = NULL; MPI_Type_struct(2, one, d, ot, t); *r = r_struct(2, one, d, o, mk); break;
    case 8: ot[1] = MPI_UB; mk[1] = MPI_UB; d[0] = 1; d[1] = 31; o[1] = NULL; MPI_Type_struct(2, one, d, ot, t); *r = r_struct(2, one, d, o, mk); break;
    case 9: ot[0] = MPI_UB; ot[1] = b; ot[2] = MPI_LB; mk[0] = MPI_UB; mk[2] = MPI_LB; d[0] = 23; d[1] = 4; d[2] = -1;
      o[0] = NULL; o[1] = rb; MPI_Type_struct(3, one, d, ot, t); *r = r_struct(3, one, d, o, mk); break;
    case 10: MPI_Type_dup(b, t); *r = *rb; break;
    case 11: MPI_Type_vector(1, 2, -7, b, t); *r = r_vector(1, 2, -7, rb); break;
    case 12: d[0] = 100; d[1] = 6; MPI_Type_struct(2, bz, d, ot, t); *r = r_struct(2, bz, d, o, mk); break; /* none of the base */
  }
}
static int overlaps(const RT *r, int cnt) {
  long off[BMAX];
  int n = r_bytes(r, cnt, off, NULL);
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (off[i] == off[j]) return 1;
  return 0;
}
int main(void) {
  static const MPI_Datatype bases[] = {MPI_SHORT, MPI_DOUBLE_INT, MPI_CHAR};
  MPI_Datatype t, u;
  MPI_Status st;
  MPI_Request q;
  RT r, r2;
  long lb = 9, ub = 9, ex = 9, off[BMAX];
  int size = -9, i, n, b, pos = 0, ok, k = sx_case() % 100, levels = LEVELS + sx_case() / 100, cnt = 1;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("legal datatypes");
  b = bases[sx_pick("base", 0, 1)];
  RT rb = r_basic(b);
  derive(k, b, &rb, &t, &r);
  for (int l = 1; l < levels; l++) {
    derive(sx_pick("next", 0, NCON - 1), t, &r, &u, &r2);
    MPI_Type_free(&t);
    CHECK(t == MPI_DATATYPE_NULL, "freeing sets the handle to null");
    t = u;
    r = r2;
  }
  MPI_Type_lb(t, &lb);
  MPI_Type_ub(t, &ub);
  MPI_Type_extent(t, &ex);
  MPI_Type_size(t, &size);
  CHECK(lb == r.lb, "the lower bound");
  CHECK(ex == r_extent(&r), "the extent");
  CHECK(ub - lb == ex, "extent = ub - lb");
  CHECK(size == r_size(&r), "the size is the sum of the elements' sizes");
  sx_obs("lb", lb); sx_obs("ub", ub); sx_obs("size", size);
  if (sx_case() >= 100) { COVER("bounded"); sx_end(); }
  if (size * 2 <= 200) cnt = 2;
  MPI_Type_commit(&t);
  Buf in = mkbuf(&r, cnt, "in");
  n = r_bytes(&r, cnt, off, NULL);
  unsigned char *out = malloc(n + 1), *back = malloc(n + 1);
  MPI_Pack(in.base, cnt, t, out, n, &pos, MPI_COMM_WORLD);
  CHECK(pos == n, "packing advances by the size of the data");
  ok = 1;
  for (i = 0; i < n; i++) ok &= out[i] == in.was[off[i] - in.lo];
  CHECK(ok, "packing visits the elements of a nested type in order");
  check_same(&in, "packing leaves its input alone");
  /* sent as it is, received as bytes */
  MPI_Isend(in.base, cnt, t, 0, 4, MPI_COMM_WORLD, &q);
  MPI_Recv(back, n, MPI_BYTE, 0, 4, MPI_COMM_WORLD, &st);
  MPI_Wait(&q, MPI_STATUS_IGNORE);
  ok = 1;
  for (i = 0; i < n; i++) ok &= back[i] == out[i];
  CHECK(ok, "a message of a nested type carries its elements in order");
  MPI_Get_count(&st, MPI_BYTE, &i);
  CHECK(i == n, "the status counts the bytes of a nested type");
  if (!overlaps(&r, cnt)) { /* and back into the nested type */
    Buf w = mkbuf(&r, cnt, "w");
    unsigned char *want = malloc(w.len);
    for (long j = 0; j < w.len; j++) want[j] = w.was[j];
    for (i = 0; i < n; i++) want[off[i] - w.lo] = out[i];
    MPI_Irecv(w.base, cnt, t, 0, 5, MPI_COMM_WORLD, &q);
    MPI_Rsend(out, n, MPI_BYTE, 0, 5, MPI_COMM_WORLD);
    MPI_Wait(&q, &st);
    ok = 1;
    for (long j = 0; j < w.len; j++) ok &= w.mem[j] == want[j];
    CHECK(ok, "a message fills the elements of a nested type and nothing else");
    MPI_Get_count(&st, t, &i);
    CHECK(i == (size ? cnt : 0), "whole items of a nested type");
    COVER("received");
  }
  sx_end();
}

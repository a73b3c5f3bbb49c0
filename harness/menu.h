/* Families of datatypes.  Within one family every layout has a signature made of the same
 * basic elements in the same order, so any of them may be sent to any other. */
#ifndef MENU_H
#define MENU_H
#include "ref.h"

/* Homogeneous layouts of a basic type.  Returns the number of basic elements in one item. */
#define NHOMO 14
static int homo(int which, MPI_Datatype base, MPI_Datatype *t, RT *r) {
  RT b = r_basic(base);
  long w = r_extent(&b);
  MPI_Datatype in;
  RT ri;
  switch (which) {
    case 0: *t = base; *r = b; return 1;
    case 1: MPI_Type_contiguous(3, base, t); *r = r_contig(3, &b); break;
    case 2: MPI_Type_vector(2, 1, 3, base, t); *r = r_vector(2, 1, 3, &b); break;
    case 3: MPI_Type_hvector(2, 2, 2 * w + 1, base, t); *r = r_hvector(2, 2, 2 * w + 1, &b); break;
    case 4: { int bl[3] = {1, 0, 2}, d[3] = {4, 9, 0}; MPI_Type_indexed(3, bl, d, base, t); *r = r_indexed(3, bl, d, &b); break; }
    case 5: { int bl[2] = {1, 1}; long d[2] = {-3, w + 1}; MPI_Type_hindexed(2, bl, d, base, t); *r = r_hindexed(2, bl, d, &b); break; }
    case 6: { int d[2] = {2, 0}, bl[2] = {2, 2}; MPI_Type_create_indexed_block(2, 2, d, base, t); *r = r_indexed(2, bl, d, &b); break; }
    case 7: { /* upper bound beyond the data */
      int bl[2] = {1, 1}, mk[2] = {0, MPI_UB};
      long d[2] = {1, 2 * w + 3};
      MPI_Datatype ot[2] = {base, MPI_UB};
      const RT *o[2] = {&b, NULL};
      MPI_Type_struct(2, bl, d, ot, t); *r = r_struct(2, bl, d, o, mk); break; }
    case 8: { /* lower and upper bound */
      int bl[3] = {1, 2, 1}, mk[3] = {MPI_LB, 0, MPI_UB};
      long d[3] = {-5, 2, 3 * w};
      MPI_Datatype ot[3] = {MPI_LB, base, MPI_UB};
      const RT *o[3] = {NULL, &b, NULL};
      MPI_Type_struct(3, bl, d, ot, t); *r = r_struct(3, bl, d, o, mk); break; }
    case 9: MPI_Type_vector(2, 1, 2, base, &in); ri = r_vector(2, 1, 2, &b);
            MPI_Type_contiguous(2, in, t); *r = r_contig(2, &ri); MPI_Type_free(&in); break;
    case 10: { int bl[2] = {1, 2}, d[2] = {1, 3};
            MPI_Type_hvector(1, 1, 0, base, &in); ri = r_hvector(1, 1, 0, &b);
            MPI_Type_indexed(2, bl, d, in, t); *r = r_indexed(2, bl, d, &ri); MPI_Type_free(&in); break; }
    case 11: MPI_Type_contiguous(0, base, t); *r = r_contig(0, &b); break;
    case 12: MPI_Type_vector(3, 1, -2, base, t); *r = r_vector(3, 1, -2, &b); break;
    case 13: MPI_Type_create_hvector(2, 1, w, base, &in); ri = r_hvector(2, 1, w, &b);
            MPI_Type_dup(in, t); *r = ri; MPI_Type_free(&in); break;
  }
  MPI_Type_commit(t);
  return r->n;
}

/* Layouts of (char, int, double). */
#define NHET 6
static int het(int which, MPI_Datatype *t, RT *r) {
  RT c = r_basic(MPI_CHAR), i = r_basic(MPI_INT), f = r_basic(MPI_DOUBLE);
  const RT *o[5] = {&c, &i, &f};
  MPI_Datatype ot[5] = {MPI_CHAR, MPI_INT, MPI_DOUBLE};
  int bl[5] = {1, 1, 1, 1, 1}, mk[5] = {0, 0, 0, 0, 0};
  int n = 3;
  long d[5];
  switch (which) {
    case 0: d[0] = 0; d[1] = 4; d[2] = 8; break;               /* natural */
    case 1: d[0] = 0; d[1] = 1; d[2] = 5; break;               /* packed */
    case 2: d[0] = 14; d[1] = 9; d[2] = 0; break;              /* out of order */
    case 3: d[0] = 2; d[1] = -9; d[2] = 20; break;             /* negative */
    case 4: d[0] = 0; d[1] = 4; d[2] = 8; d[3] = 19; n = 4; ot[3] = MPI_UB; mk[3] = MPI_UB; break;
    case 5: { /* nested: (char,int) inside */
      MPI_Datatype in;
      RT ri;
      long dd[2] = {5, 0};
      MPI_Type_struct(2, bl, dd, ot, &in);
      ri = r_struct(2, bl, dd, o, NULL);
      const RT *o2[2] = {&ri, &f};
      MPI_Datatype ot2[2] = {in, MPI_DOUBLE};
      long d2[2] = {1, 11};
      MPI_Type_struct(2, bl, d2, ot2, t);
      *r = r_struct(2, bl, d2, o2, NULL);
      MPI_Type_free(&in);
      MPI_Type_commit(t);
      return 3; }
  }
  MPI_Type_struct(n, bl, d, ot, t);
  *r = r_struct(n, bl, d, o, mk);
  MPI_Type_commit(t);
  return 3;
}
static const MPI_Datatype all_types[] = {
  MPI_CHAR, MPI_SIGNED_CHAR, MPI_WCHAR, MPI_SHORT, MPI_INT, MPI_LONG, MPI_UNSIGNED_CHAR, MPI_UNSIGNED_SHORT,
  MPI_UNSIGNED, MPI_UNSIGNED_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_BYTE, MPI_PACKED, MPI_INTEGER,
  MPI_REAL, MPI_DOUBLE_PRECISION, MPI_COMPLEX, MPI_DOUBLE_COMPLEX, MPI_LOGICAL, MPI_CHARACTER, MPI_2REAL,
  MPI_2DOUBLE_PRECISION, MPI_2INTEGER, MPI_FLOAT_INT, MPI_DOUBLE_INT, MPI_LONG_INT, MPI_2INT, MPI_SHORT_INT,
  MPI_LONG_DOUBLE_INT, MPI_INTEGER1, MPI_INTEGER2, MPI_INTEGER4, MPI_INTEGER8, MPI_INTEGER16, MPI_REAL4,
  MPI_REAL8, MPI_REAL16, MPI_COMPLEX8, MPI_COMPLEX16, MPI_COMPLEX32, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG,
  MPI_OFFSET};
#define NALL ((int)(sizeof all_types / sizeof *all_types))
#endif

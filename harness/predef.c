/* Every predefined datatype: size, extent, bounds, layout and independence. */
#include "menu.h"
int main(void) {
  int c = sx_case(), i, j;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("predefined datatypes are always usable");
  if (c == 0) {
    for (i = 0; i < NALL; i++)
      for (j = 0; j < i; j++) CHECK(all_types[i] != all_types[j], "different datatypes have different handles");
    for (i = 0; i < NALL; i++) CHECK(all_types[i] != MPI_DATATYPE_NULL && all_types[i] != MPI_LB && all_types[i] != MPI_UB, "no predefined datatype is null or a marker");
    int size = -1; long ex = -1;
    MPI_Type_size(MPI_LB, &size); CHECK(size == 0, "MPI_LB has size 0");
    MPI_Type_size(MPI_UB, &size); CHECK(size == 0, "MPI_UB has size 0");
    MPI_Type_extent(MPI_LB, &ex); CHECK(ex == 0, "MPI_LB has extent 0");
    MPI_Type_extent(MPI_UB, &ex); CHECK(ex == 0, "MPI_UB has extent 0");
    COVER("distinct");
    sx_end();
  }
  i = sx_pick("type", 0, NALL - 1);
  MPI_Datatype t = all_types[i];
  RT r = r_basic(t);
  if (c == 1) {
    int size = -1;
    long lb = 5, ub = 5, ex = 5;
    MPI_Type_size(t, &size); MPI_Type_lb(t, &lb); MPI_Type_ub(t, &ub); MPI_Type_extent(t, &ex);
    CHECK(r_size(&r) > 0, "harness knows the type");
    CHECK(size == r_size(&r), "size of the C or Fortran type");
    CHECK(lb == 0, "lower bound 0");
    CHECK(ex == r_extent(&r), "extent of the C or Fortran type");
    CHECK(ub == ex, "upper bound is the extent");
    sx_obs("size", size); sx_obs("extent", ex);
    COVER("sized");
  } else if (c == 3) { /* types derived from it: no predefined type brings bounds of its own */
    int size = -1, bl[2] = {sx_pick("n", 1, 2), 1}, k = sx_pick("how", 0, 3);
    long lb = 5, ub = 5, ex = 5, d[2];
    MPI_Datatype u, o[2] = {t, sx_pick("with", 0, 1) ? MPI_DOUBLE : MPI_CHAR};
    RT ru = r_basic(o[1]), want;
    const RT *ro[2] = {&r, &ru};
    d[0] = sx_pick("at", 0, 2) * 40 - 40; d[1] = sx_pick("other", 0, 2) * 104 - 104;
    if (k == 0) { MPI_Type_struct(2, bl, d, o, &u); want = r_struct(2, bl, d, ro, NULL); }
    else if (k == 1) { int dd[2] = {(int)d[0], (int)d[1]}; MPI_Type_indexed(2, bl, dd, t, &u); want = r_indexed(2, bl, dd, &r); }
    else if (k == 2) { MPI_Type_vector(2, bl[0], 3, t, &u); want = r_vector(2, bl[0], 3, &r); }
    else { MPI_Type_dup(t, &u); want = r; }
    MPI_Type_size(u, &size); MPI_Type_lb(u, &lb); MPI_Type_ub(u, &ub); MPI_Type_extent(u, &ex);
    CHECK(size == r_size(&want), "the size of a type derived from a predefined one");
    CHECK(lb == want.lb, "its lower bound");
    CHECK(ex == r_extent(&want), "its extent");
    CHECK(ub - lb == ex, "its upper bound");
    MPI_Type_free(&u);
    MPI_Type_size(t, &size); CHECK(size == r_size(&r), "deriving from and freeing leave a predefined type as it is");
    COVER("derived");
  } else { /* the layout: members only, padding never moves */
    int n = sx_pick("count", 1, 3), pos = 0, k, ok = 1;
    long off[BMAX];
    Buf a = mkbuf(&r, n, "a"), b = mkbuf(&r, n, "b");
    MPI_Request q;
    MPI_Status s;
    int m = r_bytes(&r, n, off, NULL), cnt = -1;
    unsigned char *out = malloc(m);
    MPI_Pack(a.base, n, t, out, m, &pos, MPI_COMM_WORLD);
    CHECK(pos == m, "packed size");
    for (k = 0; k < m; k++) ok &= out[k] == a.was[off[k]];
    CHECK(ok, "packed bytes are the members' bytes");
    MPI_Isend(a.base, n, t, 0, 4, MPI_COMM_WORLD, &q);
    MPI_Recv(b.base, n, t, 0, 4, MPI_COMM_WORLD, &s);
    MPI_Wait(&q, MPI_STATUS_IGNORE);
    check_delivered(&b, &r, n, &a, &r, n, "every member arrives", "padding is untouched");
    MPI_Get_count(&s, t, &cnt);
    CHECK(cnt == n, "the count is the number sent");
    COVER("moved");
  }
  sx_end();
}

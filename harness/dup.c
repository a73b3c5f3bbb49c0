/* Histories of creating, duplicating, deriving from, committing and freeing datatypes: each
 * handle keeps describing its own layout, whatever happens to the others. */
#include "ref.h"
#define NS 3
static struct { int live, committed; MPI_Datatype t; RT r; } s[NS];
static void fresh(int i) {
  for (int j = 0; j < NS; j++)
    if (j != i && s[j].live) CHECK(s[j].t != s[i].t, "live datatypes have different handles");
  CHECK(s[i].t != MPI_DATATYPE_NULL, "a new datatype is not MPI_DATATYPE_NULL");
}
static void look(void) {
  for (int i = 0; i < NS; i++)
    if (s[i].live) {
      long lb = 0, ex = 0; int size = 0;
      MPI_Type_lb(s[i].t, &lb); MPI_Type_extent(s[i].t, &ex); MPI_Type_size(s[i].t, &size);
      CHECK(lb == s[i].r.lb && ex == r_extent(&s[i].r) && size == r_size(&s[i].r), "a datatype keeps its own bounds and size");
    }
}
static void use(int i) { /* communicate with a type whose displacements are symbolic but small */
  MPI_Request q;
  int x = 0;
  if (!s[i].committed) {
    sx_term_allowed("communicating with an uncommitted datatype is refused");
    COVER("uncommitted");
  }
  unsigned char *mem = malloc(64), *out = malloc(64);
  memset(mem, 7, 64); memset(out, 7, 64);
  MPI_Irecv(out, 0, s[i].t, 0, 1, MPI_COMM_WORLD, &q);
  MPI_Send(mem, 0, s[i].t, 0, 1, MPI_COMM_WORLD);
  CHECK(s[i].committed, "an uncommitted datatype must not be accepted");
  MPI_Wait(&q, MPI_STATUS_IGNORE);
  free(mem); free(out);
  COVER("used");
}
int main(void) {
  int c = sx_case(), k, len;
  MPI_Init(NULL, NULL);
#ifdef THOROUGH
  len = 6;
#else
  len = 5;
#endif
  sx_term_forbidden("a legal history");
  for (k = 0; k < len; k++) {
    int o = k == 0 ? (c >= 10 ? 6 : 0) : k == 1 ? c % 10 : sx_pick("op", 0, 6), i, j;
    if (o == 6) { /* create: no elements at all, with or without bounds of its own */
      for (i = 0; i < NS && s[i].live; i++);
      sx_assume(i < NS);
      int bl[2] = {1, 1}, mk[2] = {MPI_LB, MPI_UB};
      long d[2] = {-3, 0};
      MPI_Datatype ot[2] = {MPI_LB, MPI_UB};
      const RT *oo[2] = {NULL, NULL};
      int m = 2 * sx_pick("markers", 0, 1);
      d[1] = sx_u8("d");
      MPI_Type_struct(m, bl, d, ot, &s[i].t);
      s[i].r = r_struct(m, bl, d, oo, mk);
      s[i].live = 1; s[i].committed = 0;
      fresh(i);
      COVER("empty");
    } else if (o == 0) { /* create: an int at any displacement, a double at any other */
      for (i = 0; i < NS && s[i].live; i++);
      sx_assume(i < NS);
      int bl[2] = {1, 1};
      long d[2] = {(5L << 32) + sx_u8("d"), (5L << 32) + 256 + sx_u8("d")};
      MPI_Datatype ot[2] = {MPI_INT, MPI_DOUBLE};
      RT a = r_basic(MPI_INT), b = r_basic(MPI_DOUBLE);
      const RT *oo[2] = {&a, &b};
      MPI_Type_struct(2, bl, d, ot, &s[i].t);
      s[i].r = r_struct(2, bl, d, oo, NULL);
      s[i].live = 1; s[i].committed = 0;
      fresh(i);
    } else {
      i = sx_pick("which", 0, NS - 1);
      sx_assume(s[i].live);
      if (o == 1 || o == 2) {
        for (j = 0; j < NS && s[j].live; j++);
        sx_assume(j < NS);
        if (o == 1) { MPI_Type_dup(s[i].t, &s[j].t); s[j].r = s[i].r; s[j].committed = s[i].committed; COVER("dup"); }
        else { int two = sx_pick("count", 1, 2); MPI_Type_hvector(two, 1, 1L << 36, s[i].t, &s[j].t); s[j].r = r_hvector(two, 1, 1L << 36, &s[i].r); s[j].committed = 0; COVER("derived"); }
        sx_assume(s[j].r.n <= 8);
        s[j].live = 1;
        fresh(j);
      } else if (o == 3) {
        MPI_Type_free(&s[i].t);
        CHECK(s[i].t == MPI_DATATYPE_NULL, "freeing sets the handle to MPI_DATATYPE_NULL");
        s[i].live = 0;
        COVER("freed");
      } else if (o == 4) {
        MPI_Datatype was = s[i].t;
        MPI_Type_commit(&s[i].t);
        CHECK(s[i].t == was, "committing keeps the handle");
        s[i].committed = 1;
      } else use(i);
    }
    look();
  }
  for (k = 0; k < NS; k++) if (s[k].live && s[k].committed) use(k);
  COVER("finished");
  sx_end();
}

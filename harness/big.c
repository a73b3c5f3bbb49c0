/* Offsets beyond 2 and 4 GiB: messages, collectives and packing reach the right bytes. */
#include "ref.h"
#define G (1L << 30)
static void mark(unsigned char *p, int n, unsigned char *v, const char *name) { for (int i = 0; i < n; i++) p[i] = v[i] = sx_u8(name); }
static void same(const unsigned char *p, const unsigned char *v, int n, const char *msg) { int ok = 1; for (int i = 0; i < n; i++) ok &= p[i] == v[i]; CHECK(ok, msg); }
static void zero(const unsigned char *p, int n, const char *msg) { int ok = 1; for (int i = 0; i < n; i++) ok &= p[i] == 0; CHECK(ok, msg); }
/* an int with extent ext */
static MPI_Datatype wide(long ext) {
  int bl[2] = {1, 1};
  long d[2] = {0, ext};
  MPI_Datatype ot[2] = {MPI_INT, MPI_UB}, t;
  MPI_Type_struct(2, bl, d, ot, &t);
  MPI_Type_commit(&t);
  return t;
}
int main(void) {
  int c = sx_case(), mode = 0, i, n, one = 1, zeroi = 0;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("large offsets are legal");
  unsigned char *a = sx_bigbuf(9 * G), *b = sx_bigbuf(9 * G), v[3][4];
  long off[3];
  MPI_Datatype t;
  MPI_Request q;
  MPI_Status s;
  if (c <= 4) { /* a type with far-apart elements, built in several ways */
    int bl[3] = {1, 1, 1}, di[3];
    long d[3];
    n = 3;
    off[0] = sx_pick("first", 0, 1) ? 8 : 3 * G;
    off[1] = off[0] == 8 ? 2 * G + 8 : 5 * G + 4;
    off[2] = off[0] == 8 ? 4 * G + 8 : 7 * G + 8;
    if (c == 0) { for (i = 0; i < 3; i++) d[i] = off[i]; MPI_Type_hindexed(3, bl, d, MPI_INT, &t); }
    if (c == 1) { sx_assume(off[0] == 8); MPI_Type_hvector(3, 1, 2 * G, MPI_INT, &t); }
    if (c == 2) { sx_assume(off[0] == 8); MPI_Type_vector(3, 1, (int)(G / 2), MPI_INT, &t); }
    if (c == 3) { for (i = 0; i < 3; i++) di[i] = off[i] / 4; MPI_Type_indexed(3, bl, di, MPI_INT, &t); }
    if (c == 4) { MPI_Datatype ot[3] = {MPI_INT, MPI_INT, MPI_INT}; for (i = 0; i < 3; i++) d[i] = off[i]; MPI_Type_struct(3, bl, d, ot, &t); }
    if (c == 1 || c == 2) { off[0] = 0; off[1] = 2 * G; off[2] = 4 * G; }
    MPI_Type_commit(&t);
    n = 1;
  } else { /* several items of a wide type */
    long e = c % 2 ? 3 * G / 2 : 2 * G + 16;
    t = wide(e);
    for (i = 0; i < 3; i++) off[i] = i * e;
    n = 3;
  }
  for (i = 0; i < 3; i++) mark(a + off[i], 4, v[i], "v");
  if (c <= 6) {
    mode = sx_pick("mode", 0, 3);
    if (mode == 0) { MPI_Irecv(b, n, t, 0, 1, MPI_COMM_WORLD, &q); MPI_Send(a, n, t, 0, 1, MPI_COMM_WORLD); MPI_Wait(&q, &s); }
    if (mode == 1) { MPI_Isend(a, n, t, 0, 1, MPI_COMM_WORLD, &q); MPI_Recv(b, n, t, 0, 1, MPI_COMM_WORLD, &s); MPI_Wait(&q, &s); }
    if (mode == 2) MPI_Gather(a, n, t, b, n, t, 0, MPI_COMM_WORLD);
    if (mode == 3) {
      int pos = 0;
      unsigned char o[12];
      MPI_Pack(a, n, t, o, 12, &pos, MPI_COMM_WORLD);
      CHECK(pos == 12, "packed size");
      pos = 0;
      MPI_Unpack(o, 12, &pos, b, n, t, MPI_COMM_WORLD);
    }
    for (i = 0; i < 3; i++) same(b + off[i], v[i], 4, "data at a large offset arrives at that offset");
    for (i = 0; i < 3; i++) zero(b + off[i] + 4, 4, "nothing else changes");
  } else { /* displacements in extents (or bytes) of one process's block */
    int sd = 2, rd = 2;
    long e = c % 2 ? 3 * G / 2 : 2 * G + 16;
    unsigned char w[4];
    mark(a + 2 * e, 4, w, "w");
    mode = sx_pick("mode", 0, 3);
    if (mode == 0) { MPI_Gatherv(a, 1, t, b, &one, &rd, t, 0, MPI_COMM_WORLD); same(b + 2 * e, v[0], 4, "the gathered block lands at its displacement"); }
    if (mode == 1) { MPI_Allgatherv(a, 1, t, b, &one, &rd, t, MPI_COMM_WORLD); same(b + 2 * e, v[0], 4, "the gathered block lands at its displacement"); }
    if (mode == 2) { MPI_Scatterv(a, &one, &sd, t, b, 1, t, 0, MPI_COMM_WORLD); same(b, w, 4, "the scattered block comes from its displacement"); }
    if (mode == 3) { MPI_Alltoallv(a, &one, &sd, t, b, &one, &rd, t, MPI_COMM_WORLD); same(b + 2 * e, w, 4, "the block moves from its displacement to its displacement"); }
    zero(b + e, 4, "nothing else changes");
  }
  COVER("moved");
  sx_end();
}

/* Resources: after any number of balanced rounds nothing accumulates; freeing a datatype
 * while a message with it is pending does not disturb the message.
 * cases 0..23: round `case` interleaved with every other one
 * cases 120..124: a datatype freed while pending */
#include "menu.h"
#define NR 24
static MPI_Comm world;
static int v, w;
static void round_(int k) {
  MPI_Datatype t, u, ts[3];
  MPI_Request q, r, qs[3];
  MPI_Status s, ss[3];
  MPI_Comm c, d;
  MPI_Group g, h;
  RT rr;
  int x[12] = {0}, y[12] = {0}, f, i, one = 1, z = 0, pos = 0, co[3], dm[3] = {1, 1, 1};
  char pk[64];
  long l;
  switch (k) {
    case 0: MPI_Isend(&v, 1, MPI_INT, 0, 3, world, &q); MPI_Recv(&x, 1, MPI_INT, 0, 3, world, &s); MPI_Wait(&q, &s); break;
    case 1: MPI_Irecv(&x, 1, MPI_INT, 0, 3, world, &q); MPI_Send(&v, 1, MPI_INT, 0, 3, world); MPI_Test(&q, &f, &s); CHECK(f, "complete"); break;
    case 2: for (i = 0; i < NHOMO; i += 3) { homo(i, MPI_SHORT, &t, &rr); if (t > 0) MPI_Type_free(&t); } break;
    case 3: for (i = 1; i < NHOMO; i += 3) { homo(i, MPI_SHORT, &t, &rr); MPI_Type_free(&t); } break;
    case 4: for (i = 2; i < NHOMO; i += 3) { homo(i, MPI_SHORT, &t, &rr); MPI_Type_free(&t); } break;
    case 5: het(5, &t, &rr); MPI_Type_dup(t, &u); MPI_Type_free(&t); MPI_Type_size(u, &f); MPI_Type_free(&u); break;
    case 6: MPI_Comm_dup(world, &c); MPI_Comm_split(c, 0, 0, &d); MPI_Comm_free(&c); MPI_Comm_free(&d); break;
    case 7: MPI_Cart_create(world, 2, dm, dm, 0, &c); MPI_Comm_dup(c, &d); MPI_Cart_get(c, 2, x, y, co); MPI_Comm_free(&d); MPI_Comm_free(&c); break;
    case 8: MPI_Comm_group(world, &g); MPI_Comm_create(world, g, &c); MPI_Group_union(g, g, &h); MPI_Group_free(&h); MPI_Group_free(&g); MPI_Comm_free(&c); break;
    case 9: /* derived types on both sides, freed while pending */
      MPI_Type_vector(2, 1, 2, MPI_INT, &t); MPI_Type_commit(&t);
      MPI_Isend(x, 1, t, 0, 4, world, &q); MPI_Type_free(&t);
      MPI_Recv(y, 2, MPI_INT, 0, 4, world, &s); MPI_Wait(&q, &s); break;
    case 10:
      MPI_Type_contiguous(3, MPI_INT, &t); MPI_Type_commit(&t);
      MPI_Irecv(y, 1, t, 0, 4, world, &q); MPI_Type_free(&t);
      MPI_Send(x, 3, MPI_INT, 0, 4, world); MPI_Wait(&q, &s); break;
    case 11: /* requests freed early, both sides */
      MPI_Isend(x, 1, MPI_INT, 0, 5, world, &q); MPI_Request_free(&q); MPI_Recv(y, 1, MPI_INT, 0, 5, world, &s);
      MPI_Irecv(y, 1, MPI_INT, 0, 5, world, &q); MPI_Request_free(&q); MPI_Send(x, 1, MPI_INT, 0, 5, world);
      MPI_Isend(x, 1, MPI_INT, MPI_PROC_NULL, 5, world, &q); MPI_Request_free(&q); break;
    case 12: MPI_Irecv(&y[0], 1, MPI_INT, 0, 6, world, &qs[0]); MPI_Isend(x, 1, MPI_INT, 0, 6, world, &qs[1]); qs[2] = MPI_REQUEST_NULL; MPI_Waitall(3, qs, ss);
      MPI_Irecv(&y[0], 1, MPI_INT, 0, 6, world, &qs[0]); MPI_Isend(x, 1, MPI_INT, 0, 6, world, &qs[1]); MPI_Waitsome(3, qs, &f, co, ss); CHECK(f == 2, "both");
      MPI_Irecv(&y[0], 1, MPI_INT, 0, 6, world, &qs[0]); MPI_Isend(x, 1, MPI_INT, 0, 6, world, &qs[1]); MPI_Waitany(2, qs, &f, &s); MPI_Testany(2, qs, &f, &i, &s); break;
    case 13: MPI_Sendrecv(x, 1, MPI_INT, 0, 1, y, 1, MPI_INT, 0, 1, world, &s); MPI_Iprobe(0, 1, world, &f, &s);
      MPI_Isend(x, 1, MPI_INT, 0, 2, world, &q); MPI_Probe(0, 2, world, &s); MPI_Recv(y, 1, MPI_INT, 0, 2, world, &s); MPI_Wait(&q, &s); break;
    case 14: MPI_Type_vector(2, 1, 2, MPI_INT, &t); MPI_Type_commit(&t);
      MPI_Allgather(x, 1, t, y, 2, MPI_INT, world); MPI_Gatherv(x, 1, t, y, &one, &z, t, 0, world); MPI_Alltoallv(x, &one, &z, t, y, &one, &z, t, world);
      MPI_Scatter(x, 2, MPI_INT, y, 1, t, 0, world); MPI_Allreduce(x, y, 1, MPI_INT, MPI_SUM, world); MPI_Bcast(x, 1, t, 0, world); MPI_Barrier(world);
      MPI_Pack(x, 1, t, pk, 64, &pos, world); pos = 0; MPI_Unpack(pk, 64, &pos, y, 1, t, world); MPI_Pack_size(1, t, world, &l); MPI_Type_free(&t); break;
    case 15: MPI_Intercomm_create(world, 0, world, 0, 1, &c); MPI_Comm_free(&c); MPI_Comm_split(world, MPI_UNDEFINED, 0, &c); CHECK(c == MPI_COMM_NULL, "no communicator");
      { int bl[2] = {1, 2}; long d2[2] = {0, 8}; MPI_Type_hindexed(2, bl, d2, MPI_INT, &t); int d3[2] = {0, 3}; MPI_Type_indexed(2, bl, d3, t, &u); MPI_Type_hvector(2, 1, 40, u, &ts[0]); MPI_Type_free(&t); MPI_Type_free(&u); MPI_Type_free(&ts[0]); } break;
    case 16: case 17: /* the request freed before it completes, and its datatype before or after */
      if (k == 16) MPI_Type_vector(2, 1, 2, MPI_INT, &t); else { int bl[2] = {1, 2}; long d2[2] = {4, 16}; MPI_Datatype tt[2] = {MPI_INT, MPI_INT}; MPI_Type_struct(2, bl, d2, tt, &t); }
      MPI_Type_commit(&t);
      MPI_Isend(x, 1, t, 0, 4, world, &q); MPI_Request_free(&q); MPI_Type_dup(t, &u); MPI_Type_free(&t);
      MPI_Recv(y, 1, u, 0, 4, world, &s);
      MPI_Irecv(y, 1, u, 0, 4, world, &q); MPI_Request_free(&q); MPI_Send(x, 1, u, 0, 4, world); MPI_Type_free(&u); break;
    case 18: /* completed operations whose requests are freed, tested in vain, probed */
      MPI_Type_contiguous(2, MPI_INT, &t); MPI_Type_commit(&t);
      MPI_Isend(x, 1, t, 0, 4, world, &q); MPI_Test(&q, &f, &s); CHECK(!f, "incomplete"); MPI_Irecv(y, 1, t, 0, 4, world, &r);
      MPI_Request_free(&q); MPI_Test(&r, &f, &s); CHECK(f, "complete");
      MPI_Irecv(y, 1, t, MPI_ANY_SOURCE, MPI_ANY_TAG, world, &r); qs[0] = MPI_REQUEST_NULL; qs[1] = r; MPI_Testall(2, qs, &f, ss); CHECK(!f, "incomplete");
      MPI_Testany(2, qs, &i, &f, &s); CHECK(!f, "incomplete"); MPI_Testsome(2, qs, &i, co, ss); CHECK(i == 0, "incomplete"); r = qs[1];
      MPI_Iprobe(0, 4, world, &f, &s); MPI_Isend(x, 1, t, 0, 4, world, &q); MPI_Wait(&r, &s); MPI_Request_free(&q); MPI_Type_free(&t); break;
    case 19: /* markers, resized layouts, nested structs */
      { int bl[3] = {1, 2, 1}; long d2[3] = {-4, 0, 24}; MPI_Datatype tt[3] = {MPI_LB, MPI_INT, MPI_UB}; MPI_Type_struct(3, bl, d2, tt, &t);
        tt[1] = t; MPI_Type_struct(3, bl, d2, tt, &u); MPI_Type_free(&t); MPI_Type_lb(u, &l); MPI_Type_extent(u, &l); MPI_Type_commit(&u); MPI_Type_commit(&u);
        int d3[2] = {3, 0}; MPI_Type_create_indexed_block(2, 2, d3, u, &ts[0]); MPI_Type_free(&u); MPI_Type_dup(ts[0], &ts[1]); MPI_Type_dup(ts[1], &ts[2]);
        for (i = 0; i < 3; i++) MPI_Type_free(&ts[i]); } break;
    case 20: /* topologies: made, derived from, refused nothing */
      { int per[3] = {1, 0, 1}, rem[3] = {1, 0, 1}; MPI_Cart_create(world, 3, dm, per, 1, &c); MPI_Comm_split(c, 1, 0, &d); MPI_Comm_free(&d);
        MPI_Comm_group(c, &g); MPI_Comm_create(c, g, &d); MPI_Comm_free(&d); MPI_Comm_create(c, MPI_GROUP_EMPTY, &d); CHECK(d == MPI_COMM_NULL, "none"); MPI_Group_free(&g);
        MPI_Comm_free(&c); dm[0] = dm[1] = 0; MPI_Dims_create(1, 2, dm); MPI_Cart_create(world, 1, dm, rem, 0, &c); MPI_Cart_coords(c, 0, 1, co); MPI_Comm_free(&c);
        MPI_Cart_create(world, 0, dm, per, 0, &c); if (c != MPI_COMM_NULL) MPI_Comm_free(&c); } break;
    case 21: /* intercommunicators and what they merge to; a message on each */
      MPI_Comm_dup(world, &c); MPI_Intercomm_create(c, 0, world, 0, 7, &d); MPI_Comm_free(&c); MPI_Intercomm_merge(d, 1, &c); MPI_Comm_free(&d);
      MPI_Isend(x, 2, MPI_INT, 0, 4, c, &q); MPI_Recv(y, 2, MPI_INT, 0, 4, c, &s); MPI_Wait(&q, &s); MPI_Comm_free(&c); break;
    case 22: /* packed messages and the process that is not there */
      MPI_Pack(x, 2, MPI_INT, pk, 64, &pos, world); MPI_Isend(pk, pos, MPI_PACKED, 0, 4, world, &q); MPI_Irecv(pk, pos, MPI_PACKED, 0, 4, world, &r); qs[0] = q; qs[1] = r; MPI_Waitall(2, qs, ss);
      MPI_Irecv(x, 1, MPI_INT, MPI_PROC_NULL, 1, world, &q); MPI_Wait(&q, &s); MPI_Isend(x, 1, MPI_INT, MPI_PROC_NULL, 1, world, &q); MPI_Test(&q, &f, &s); CHECK(f, "complete");
      MPI_Send(x, 1, MPI_INT, MPI_PROC_NULL, 1, world); MPI_Recv(x, 1, MPI_INT, MPI_PROC_NULL, 1, world, &s); MPI_Sendrecv(x, 1, MPI_INT, MPI_PROC_NULL, 1, y, 1, MPI_INT, MPI_PROC_NULL, 1, world, &s); break;
    case 23: /* groups of every making */
      { int r0[1] = {0}, tr[1][3] = {{0, 0, 1}}; MPI_Comm_group(world, &g); MPI_Group_incl(g, 1, r0, &h); MPI_Group_free(&h);
        MPI_Group_range_incl(g, 1, tr, &h); MPI_Group_free(&h); MPI_Group_intersection(g, MPI_GROUP_EMPTY, &h); if (h != MPI_GROUP_EMPTY) MPI_Group_free(&h);
        MPI_Group_difference(g, g, &h); if (h != MPI_GROUP_EMPTY) MPI_Group_free(&h); MPI_Group_free(&g); MPI_Isend(x, 1, MPI_INT, 0, 8, world, &q); MPI_Recv(y, 1, MPI_INT, 0, 8, world, &s); MPI_Wait(&q, &s); } break;
  }
}
int main(void) {
  int c = sx_case(), i, k;
  MPI_Init(NULL, NULL);
  world = MPI_COMM_WORLD;
  v = sx_i32("v");
  sx_term_forbidden("balanced use is always legal");
  if (c < NR) {
    int o = sx_pick("other", 0, NR - 1);
#ifdef THOROUGH
    int rounds = 1200;
#else
    int rounds = 290;
#endif
    long base = 0;
    /* some objects are alive throughout */
    MPI_Comm keep; MPI_Datatype tk; MPI_Request rk; int xk = v, f;
    MPI_Comm_dup(world, &keep);
    MPI_Type_contiguous(2, MPI_INT, &tk);
    MPI_Irecv(&w, 1, MPI_INT, 0, 99, world, &rk);
    for (i = 0; i < rounds; i++) {
      round_(c);
      round_(o);
      if (i == 1) base = sx_heap_live();
    }
    CHECK(sx_heap_live() <= base, "nothing accumulates over balanced rounds");
    MPI_Test(&rk, &f, MPI_STATUS_IGNORE);
    CHECK(f == 0, "what was pending before is pending after");
    MPI_Send(&xk, 1, MPI_INT, 0, 99, world);
    MPI_Wait(&rk, MPI_STATUS_IGNORE);
    CHECK(w == xk, "and completes");
    MPI_Type_size(tk, &f);
    CHECK(f == 8, "a datatype made before is intact after");
    MPI_Comm_size(keep, &f);
    CHECK(f == 1, "a communicator made before is intact after");
    COVER("balanced");
    sx_end();
  }
  c -= 100;
  /* a datatype freed while its message is pending; its handle is recycled meanwhile */
  MPI_Datatype t, tr, other[4];
  RT r, ro[4];
  MPI_Request q;
  MPI_Status s;
  int lay = sx_pick("layout", 1, NHOMO - 1), n = sx_pick("count", 0, 2), cnt, dup = sx_pick("through a dup", 0, 1);
  homo(lay, MPI_SHORT, &t, &r);
  if (dup) { MPI_Datatype u; MPI_Type_dup(t, &u); MPI_Type_free(&t); t = u; }
  Buf a = mkbuf(&r, n, "a"), b;
  RT base = r_basic(MPI_SHORT);
  int nb = n * r.n;
  b = mkbuf(&base, nb, "b");
  int send = c == 20 || c == 22 || c == 24;
  int recycle = sx_pick("recycle", 0, 2);
  if (send) MPI_Isend(a.base, n, t, 0, 5, world, &q);
  else MPI_Irecv(a.base, n, t, 0, 5, world, &q);
  MPI_Type_free(&t);
  CHECK(t == MPI_DATATYPE_NULL, "a freed datatype handle is nulled");
  for (i = 0; i < 2 * recycle; i++) homo(2 + i, MPI_DOUBLE, &other[i], &ro[i]);
  if (c >= 22) { MPI_Request_free(&q); CHECK(q == MPI_REQUEST_NULL, "a freed request handle is nulled"); }
  if (send) {
    if (c == 24) { MPI_Iprobe(0, 5, world, &cnt, &s); CHECK(cnt, "probed"); MPI_Get_count(&s, MPI_SHORT, &cnt); CHECK(cnt == nb, "the probed count"); }
    MPI_Recv(b.base, nb, MPI_SHORT, 0, 5, world, &s);
    check_delivered(&b, &base, nb, &a, &r, n, "the message is what its datatype said when it was sent", "nothing else changes");
    check_same(&a, "the send buffer is unchanged");
    MPI_Get_count(&s, MPI_SHORT, &cnt);
    CHECK(cnt == nb, "count");
  } else {
    MPI_Send(b.base, nb, MPI_SHORT, 0, 5, world);
    check_delivered(&a, &r, n, &b, &base, nb, "the receive puts data where its datatype said when it was posted", "nothing else changes");
  }
  if (c < 22) { MPI_Wait(&q, &s); CHECK(q == MPI_REQUEST_NULL, "done"); }
  for (i = 0; i < 2 * recycle; i++) { MPI_Type_size(other[i], &cnt); CHECK(cnt == r_size(&ro[i]), "a datatype made meanwhile is intact"); }
  COVER("freed while pending");
  sx_end();
}

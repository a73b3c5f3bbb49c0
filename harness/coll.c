/* Collectives on one process: each one is the copy MPI defines for a communicator of size 1.
 *   cases 0..10: the collective's copy, over layouts, counts and displacements
 *   cases 20..30: MPI_IN_PLACE (no buffer changes, whatever the ignored arguments are)
 *   cases 40..50: the receiver expects more than was contributed: refused
 *   cases 60, 61: broadcast and barrier */
#include "menu.h"
enum { GATHER, GATHERV, ALLGATHER, ALLGATHERV, SCATTER, SCATTERV, ALLTOALL, ALLTOALLV, ALLTOALLW, REDUCE, SCAN };
static MPI_Datatype st, rt;
static RT rs, rr;
static int sc, rc, sd, rd, root;
static MPI_Comm comm;
static void call(int k, void *s, void *r) {
  MPI_Op ops[] = {MPI_MAX, MPI_SUM, MPI_MAXLOC, MPI_BAND};
  MPI_Op op = ops[k == REDUCE ? sc & 3 : 1];
  switch (k) {
    case GATHER: MPI_Gather(s, sc, st, r, rc, rt, root, comm); break;
    case GATHERV: MPI_Gatherv(s, sc, st, r, &rc, &rd, rt, root, comm); break;
    case ALLGATHER: MPI_Allgather(s, sc, st, r, rc, rt, comm); break;
    case ALLGATHERV: MPI_Allgatherv(s, sc, st, r, &rc, &rd, rt, comm); break;
    case SCATTER: MPI_Scatter(s, sc, st, r, rc, rt, root, comm); break;
    case SCATTERV: MPI_Scatterv(s, &sc, &sd, st, r, rc, rt, root, comm); break;
    case ALLTOALL: MPI_Alltoall(s, sc, st, r, rc, rt, comm); break;
    case ALLTOALLV: MPI_Alltoallv(s, &sc, &sd, st, r, &rc, &rd, rt, comm); break;
    case ALLTOALLW: MPI_Alltoallw(s, &sc, &sd, &st, r, &rc, &rd, &rt, comm); break;
  }
}
static void reduce(int k, void *s, void *r) {
  MPI_Op ops[] = {MPI_MAX, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BXOR, MPI_MINLOC};
  MPI_Op op = ops[sx_pick("op", 0, 6)];
  if (sx_pick("user op", 0, 1)) MPI_Op_create(NULL, 1, &op);
  switch (k) {
    case 0: MPI_Reduce(s, r, sc, st, op, 0, comm); break;
    case 1: MPI_Allreduce(s, r, sc, st, op, comm); break;
    case 2: MPI_Scan(s, r, sc, st, op, comm); break;
    case 3: MPI_Reduce_scatter(s, r, &sc, st, op, comm); break;
  }
}
static int hassd(int k) { return k == SCATTERV || k == ALLTOALLV || k == ALLTOALLW; }
static int hasrd(int k) { return k == GATHERV || k == ALLGATHERV || k == ALLTOALLV || k == ALLTOALLW; }
/* a buffer of `c` items at displacement d, with guard elements around it */
static Buf at(const RT *r, int c, long d, const char *n, unsigned char **base) {
  Buf b = mkbuf(r, c, n);
  *base = b.base - d;
  return b;
}
static void pickcomm(void) {
  switch (sx_pick("comm", 0, 1)) {
    case 0: comm = MPI_COMM_WORLD; break;
    case 1: MPI_Comm_dup(MPI_COMM_WORLD, &comm); break;
  }
}
int main(void) {
  int c = sx_case(), k = c % 20;
  unsigned char *sb, *rb;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("a correct collective call");
  if (c == 60) { /* broadcast */
    int l = sx_pick("layout", 0, NHOMO - 1);
    pickcomm();
    homo(l, MPI_INT, &st, &rs);
    sc = sx_pick("count", 0, 2);
    Buf b = mkbuf(&rs, sc, "b");
    MPI_Bcast(b.base, sc, st, 0, comm);
    check_same(&b, "a broadcast from the only process changes nothing");
    MPI_Barrier(comm);
    check_same(&b, "a barrier changes nothing");
    COVER("copied");
    sx_end();
  }
  if (k >= REDUCE) {
    int l;
    k = c >= 20 ? sx_pick("which", 0, 3) : (k - REDUCE) * 2 + sx_pick("which", 0, 1);
    pickcomm();
    if (c < 20) {
      l = sx_pick("layout", 0, NHOMO);
      if (l < NHOMO) { static const MPI_Datatype bases[] = {MPI_INT, MPI_DOUBLE, MPI_SHORT_INT}; homo(l, bases[k % 3], &st, &rs); }
      else { l = sx_pick("type", 0, NALL - 1); st = all_types[l]; rs = r_basic(st); }
      sc = sx_pick("count", 0, 2);
      Buf s = mkbuf(&rs, sc, "s"), r = mkbuf(&rs, sc, "r");
      reduce(k, s.base, r.base);
      check_delivered(&r, &rs, sc, &s, &rs, sc, "reducing one contribution gives that contribution", "a reduction changes nothing else");
      check_same(&s, "the contribution is unchanged");
      COVER("copied");
    } else {
      sc = sx_i32("count");
      st = sx_pick("type", 0, 1) ? MPI_INT : MPI_DOUBLE;
      Buf r = mkraw(24, "r");
      reduce(k, MPI_IN_PLACE, r.mem);
      check_same(&r, "reducing in place one contribution leaves it");
      COVER("in place");
    }
    sx_end();
  }
  pickcomm();
  if (c < 20) {
    static const MPI_Datatype bases[] = {MPI_SHORT, MPI_DOUBLE, MPI_CHAR, MPI_INT, MPI_SHORT_INT};
    int n;
    if (sx_pick("family", 0, 1) == 0) {
      int a = sx_pick("slayout", 0, NHOMO - 1), b = sx_pick("rlayout", 0, NHOMO - 1);
#ifdef THOROUGH
      int bs = sx_pick("base", 0, 4);
#else
      int bs = k % 5;
#endif
      homo(a, bases[bs], &st, &rs);
      homo(b, bases[bs], &rt, &rr);
    } else {
      int a = sx_pick("slayout", 0, NHET - 1), b = sx_pick("rlayout", 0, NHET - 1);
      het(a, &st, &rs);
      het(b, &rt, &rr);
    }
    sc = sx_pick("scount", 0, 2);
    rc = sx_pick("rcount", 0, 3);
    sx_assume(sc * rs.n == rc * rr.n); /* the same signature on both sides */
    sd = hassd(k) ? sx_pick("sdispl", 0, 2) - 1 : 0;
    rd = hasrd(k) ? sx_pick("rdispl", 0, 2) - 1 : 0;
    if (k == ALLTOALLW) { sd *= 5; rd *= 3; }
    root = 0;
    Buf s = at(&rs, sc, k == ALLTOALLW ? sd : sd * r_extent(&rs), "s", &sb);
    Buf r = at(&rr, rc, k == ALLTOALLW ? rd : rd * r_extent(&rr), "r", &rb);
    call(k, sb, rb);
    check_delivered(&r, &rr, rc, &s, &rs, sc, "the elements received are those contributed", "nothing else in the receive buffer changes");
    check_same(&s, "the send buffer is unchanged");
    for (int i = 0; i < r.len && i < 24; i++) sx_obs("byte", r.mem[i]);
    if (sc * rs.n > 0) COVER("copied");
  } else if (c < 40) { /* in place: what MPI says is ignored may be anything */
    Buf b = mkraw(24, "b");
    int scat = k == SCATTER || k == SCATTERV;
    if (scat) { rc = sx_i32("ignored count"); rt = sx_i32("ignored type"); st = MPI_INT; sc = sx_pick("count", 0, 3); }
    else { sc = sx_i32("ignored count"); st = sx_i32("ignored type"); rt = MPI_INT; rc = sx_pick("count", 0, 3); }
    sd = rd = sx_pick("displ", 0, 2);
    root = 0;
    if (scat) call(k, b.mem, MPI_IN_PLACE);
    else call(k, MPI_IN_PLACE, b.mem);
    check_same(&b, "an in-place collective leaves the data where it is");
    COVER("in place");
  } else { /* more expected than contributed */
    int a = sx_pick("slayout", 0, NHOMO - 1), b = sx_pick("rlayout", 0, NHOMO - 1);
    homo(a, MPI_SHORT, &st, &rs);
    homo(b, MPI_SHORT, &rt, &rr);
    sc = sx_pick("scount", 0, 2);
    rc = sx_pick("rcount", 0, 3);
    sx_assume(sc * rs.n < rc * rr.n);
    sd = rd = root = 0;
    Buf s = mkbuf(&rs, sc, "s"), r = mkbuf(&rr, rc, "r");
    sx_term_allowed("receiving more than was contributed is refused");
    call(k, s.base, r.base);
    CHECK(0, "a collective that would receive more than was contributed must be refused");
  }
  sx_end();
}

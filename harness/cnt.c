/* What a status says was received, for every layout, for partial items, for receive counts
 * up to the largest int, and for a probe and the receive that follows it.
 * cases 0,1 small messages; 2 huge receive counts; 3 probe then receive; 4 mixed types;
 * 5, 6 a probe of any number of items; 7 asked for in another type */
#include "menu.h"
int main(void) {
  int c = sx_case(), n, k, e, lay, tag = sx_i32("tag");
  MPI_Datatype t, u;
  RT r, ru;
  MPI_Request q;
  MPI_Status s, ps;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("counting what arrived");
  sx_assume(tag >= 0);
  static const MPI_Datatype bases[] = {MPI_CHAR, MPI_DOUBLE, MPI_SHORT_INT, MPI_LONG_DOUBLE};
  MPI_Datatype base = bases[sx_pick("base", 0, 3)];
  RT b = r_basic(base);
  if (c == 4) { het(sx_pick("layout", 0, NHET - 1), &t, &r); b = r; }
  else homo(lay = sx_pick("layout", 0, NHOMO - 1), base, &t, &r);
  if (c < 2 || c == 3) { /* n basic items are sent; the receive has room for enough */
    n = sx_pick("sent", 0, 9);
    int room = r.n ? (n * b.n + r.n - 1) / r.n + sx_pick("extra", 0, 1) : sx_pick("extra", 0, 1);
    if (!r.n) sx_assume(n == 0);
    sx_assume(room <= 10);
    Buf a = mkbuf(&b, n, "a"), d = mkbuf(&r, room, "d");
    ps.MPI_TAG = -9;
    if (c == 0) {
      MPI_Isend(a.base, n, base, 0, tag, MPI_COMM_WORLD, &q);
      MPI_Recv(d.base, room, t, 0, tag, MPI_COMM_WORLD, &s);
      MPI_Wait(&q, MPI_STATUS_IGNORE);
    } else if (c == 1) {
      MPI_Irecv(d.base, room, t, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &q);
      MPI_Send(a.base, n, base, 0, tag, MPI_COMM_WORLD);
      MPI_Wait(&q, &s);
    } else {
      MPI_Isend(a.base, n, base, 0, tag, MPI_COMM_WORLD, &q);
      MPI_Probe(0, MPI_ANY_TAG, MPI_COMM_WORLD, &ps);
      CHECK(ps.MPI_TAG == tag, "probed tag");
      k = -7; MPI_Get_count(&ps, base, &k);
      CHECK(k == n, "the probed count is the number sent");
      k = e = -7;
      MPI_Get_count(&ps, t, &k);
      MPI_Get_elements(&ps, t, &e);
      if (r.n) {
        CHECK(k == (n * b.n % r.n ? MPI_UNDEFINED : n * b.n / r.n), "the probed count in the receive type");
        CHECK(e == n * b.n, "the probed elements");
      }
      MPI_Recv(d.base, room, t, 0, ps.MPI_TAG, MPI_COMM_WORLD, &s);
      MPI_Wait(&q, MPI_STATUS_IGNORE);
    }
    check_delivered(&d, &r, room, &a, &b, n, "the data sent", "nothing else");
    k = e = -7;
    MPI_Get_count(&s, t, &k);
    MPI_Get_elements(&s, t, &e);
    if (r.n) {
      CHECK(e == n * b.n, "elements received");
      CHECK(k == (n * b.n % r.n ? MPI_UNDEFINED : n * b.n / r.n), "items received, or MPI_UNDEFINED for a partial item");
    } else CHECK(k == 0, "an empty type counts 0");
    MPI_Get_count(&s, base, &k);
    CHECK(k == n, "basic items received");
    sx_obs("count", k); sx_obs("elements", e);
    if (r.n && n * b.n % r.n) COVER("partial");
    COVER("counted");
  } else if (c == 2) { /* a short message into a receive with any count that has room */
    sx_assume(r.n > 0);
    n = sx_pick("sent", 0, 3);
    int room = sx_i32("room");
    sx_assume(room >= n);
    Buf a = mkbuf(&b, n, "a"), d = mkbuf(&r, n, "d");
    if (sx_pick("receive first", 0, 1)) {
      MPI_Irecv(d.base, room, t, 0, tag, MPI_COMM_WORLD, &q);
      MPI_Send(a.base, n, base, 0, tag, MPI_COMM_WORLD);
      MPI_Wait(&q, &s);
    } else {
      MPI_Isend(a.base, n, base, 0, tag, MPI_COMM_WORLD, &q);
      MPI_Recv(d.base, room, t, 0, tag, MPI_COMM_WORLD, &s);
      MPI_Wait(&q, MPI_STATUS_IGNORE);
    }
    check_delivered(&d, &r, n, &a, &b, n, "the data sent", "nothing else");
    MPI_Get_elements(&s, t, &e);
    CHECK(e == n * b.n, "elements received");
    MPI_Get_count(&s, base, &k);
    CHECK(k == n, "basic items received");
    COVER("counted");
  } else if (c == 5 || c == 6) { /* a probe of any number of items; 6: of more elements than an int counts */
    int cnt = sx_i32("count"), f, w[4];
    sx_assume(cnt >= 0);
    sx_assume(r.n > 0);
    sx_assume(((long)cnt * r.n <= 2147483647) == (c == 5));
    MPI_Isend(w, cnt, t, 0, tag, MPI_COMM_WORLD, &q);
    if (sx_pick("blocking", 0, 1)) MPI_Probe(0, tag, MPI_COMM_WORLD, &s);
    else { MPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &f, &s); CHECK(f == 1, "the message is seen"); }
    MPI_Get_count(&s, t, &k);
    if (c == 5) {
      CHECK(k == cnt, "the probed count is the number sent");
      MPI_Get_elements(&s, t, &e); CHECK(e == cnt * r.n, "the probed elements");
      COVER("counted");
    } else CHECK(k == cnt, "probed count of a message of more than 2^31-1 elements");
  } else if (c == 7) { /* any number of basic items, asked for in items of any layout */
    int cnt = sx_i32("count"), w[4];
    sx_assume(cnt >= 0);
    sx_assume(r.n > 0);
    sx_assume((long)cnt * b.n <= 2147483647);
    MPI_Isend(w, cnt, base, 0, tag, MPI_COMM_WORLD, &q);
    MPI_Probe(0, tag, MPI_COMM_WORLD, &s);
    int el = cnt * b.n;
    k = e = -7;
    MPI_Get_count(&s, t, &k);
    MPI_Get_elements(&s, t, &e);
    CHECK(e == el, "the elements of any number of items");
    if (el % r.n) {
      CHECK(k == MPI_UNDEFINED, "a partial item has no count");
      COVER("partial");
    } else CHECK(k == el / r.n, "the count of any number of items");
    COVER("counted");
  } else { /* mixed types */
    int sc = sx_pick("sent", 0, 3), rc = sc + sx_pick("extra", 0, 1);
    het(sx_pick("layout2", 0, NHET - 1), &u, &ru);
    Buf a = mkbuf(&ru, sc, "a"), d = mkbuf(&r, rc, "d");
    MPI_Irecv(d.base, rc, t, 0, tag, MPI_COMM_WORLD, &q);
    MPI_Send(a.base, sc, u, 0, tag, MPI_COMM_WORLD);
    MPI_Wait(&q, &s);
    check_delivered(&d, &r, rc, &a, &ru, sc, "the data sent", "nothing else");
    MPI_Get_count(&s, t, &k);
    CHECK(k == sc, "items received");
    MPI_Get_elements(&s, t, &e);
    CHECK(e == 3 * sc, "elements received");
    COVER("counted");
  }
  sx_end();
}

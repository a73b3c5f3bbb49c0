/* Pack and Unpack: sequences of items, exact bounds, position, MPI_PACKED messages, Pack_size. */
#include "menu.h"
static int enough(int pos, int len, int size) { return (long)pos + len <= size; }
int main(void) {
  int c = sx_case(), i, k;
  MPI_Datatype t[2], u[2];
  RT r[2], ru[2];
  long off[BMAX];
  MPI_Init(NULL, NULL);
  sx_term_forbidden("packing what fits is legal");
  if (c <= 1) { /* two items packed in turn, unpacked with other layouts of the same elements */
    static const MPI_Datatype bases[] = {MPI_SHORT, MPI_CHAR, MPI_INT, MPI_SHORT_INT};
    int n[2], m, pos, start, tot = 0;
    for (k = 0; k < 2; k++) {
#ifdef THOROUGH
      int l = sx_pick("layout", 0, NHOMO - 1), bs = sx_pick("base", 0, 3);
#else
      int l = c == 0 ? sx_pick("layout", 0, NHOMO - 1) : k == 0 ? 4 : 8, bs = k ? 3 : 0;
      if (c == 0 && k == 1) l = 2 + l % 3;
#endif
      homo(l, bases[bs], &t[k], &r[k]);
      n[k] = sx_pick("items", 0, 2);
      tot += n[k] * r_size(&r[k]);
    }
    start = sx_pick("start", 0, 1) * 3;
    unsigned char *out = malloc(start + tot + 2);
    for (i = 0; i < start + tot + 2; i++) out[i] = 0x5c;
    Buf a[2];
    MPI_Aint ps = -1;
    pos = start;
    for (k = 0; k < 2; k++) {
      int was = pos, ok = 1;
      a[k] = mkbuf(&r[k], n[k], "a");
      MPI_Pack_size(n[k], t[k], MPI_COMM_WORLD, &ps);
      CHECK(ps >= n[k] * r_size(&r[k]), "MPI_Pack_size is enough");
      MPI_Pack(a[k].base, n[k], t[k], out, start + tot, &pos, MPI_COMM_WORLD);
      CHECK(pos == was + n[k] * r_size(&r[k]), "the position moves past what was packed");
      m = r_bytes(&r[k], n[k], off, NULL);
      for (i = 0; i < m; i++) ok &= out[was + i] == a[k].was[off[i] - a[k].lo];
      CHECK(ok, "packed data");
      check_same(&a[k], "packing leaves its input alone");
    }
    CHECK(pos == start + tot, "everything fits exactly");
    for (i = 0; i < start; i++) CHECK(out[i] == 0x5c, "bytes before the position are untouched");
    CHECK(out[start + tot] == 0x5c && out[start + tot + 1] == 0x5c, "bytes after the buffer are untouched");
    pos = start;
    for (k = 0; k < 2; k++) {
      Buf b = mkbuf(&r[k], n[k], "b");
      MPI_Unpack(out, start + tot, &pos, b.base, n[k], t[k], MPI_COMM_WORLD);
      check_delivered(&b, &r[k], n[k], &a[k], &r[k], n[k], "unpacking gives back what was packed", "unpacking changes nothing else");
    }
    CHECK(pos == start + tot, "unpacking ends where packing did");
    for (i = 0; i < start + tot && i < 24; i++) sx_obs("byte", out[i]);
    COVER("packed");
  } else if (c == 2 || c == 3) { /* any position and any buffer size: what does not fit is refused */
    int pos = sx_i32("position"), size = sx_i32("size"), n, len, fits, was;
    unsigned char buf[16], data[64];
    homo(sx_pick("layout", 0, 4), MPI_SHORT, &t[0], &r[0]);
    n = sx_pick("items", 0, 2);
    len = n * r_size(&r[0]);
    memset(buf, 0, 16); memset(data, 0, 64);
    sx_assume(pos >= 0 && size >= 0 && size <= 16);
    fits = len == 0 || enough(pos, len, size);
    if (fits && pos <= 16) { pos = sx_conc(pos); size = sx_conc(size); }
    if (!fits) sx_term_allowed("data that does not fit is refused");
    was = pos;
    if (c == 2) MPI_Pack(data, n, t[0], buf, size, &pos, MPI_COMM_WORLD);
    else MPI_Unpack(buf, size, &pos, data, n, t[0], MPI_COMM_WORLD);
    CHECK(fits, "data that does not fit must be refused");
    CHECK(pos == was + len, "position");
    COVER("fits");
  } else if (c == 4) { /* MPI_PACKED messages */
    int pos = 0, n = sx_pick("items", 1, 2), len, how = sx_pick("receive as", 0, 1), cnt = -1;
    homo(sx_pick("layout", 0, NHOMO - 1), MPI_INT, &t[0], &r[0]);
    homo(sx_pick("layout2", 0, 4), MPI_INT, &u[0], &ru[0]);
    len = n * r_size(&r[0]);
    sx_assume(len <= 64);
    Buf a = mkbuf(&r[0], n, "a"), b = mkbuf(&ru[0], 3, "b");
    unsigned char *out = malloc(len), *in = malloc(len);
    MPI_Request q;
    MPI_Status s;
    MPI_Pack(a.base, n, t[0], out, len, &pos, MPI_COMM_WORLD);
    MPI_Isend(out, pos, MPI_PACKED, 0, 1, MPI_COMM_WORLD, &q);
    if (how == 0) {
      MPI_Recv(in, len, MPI_PACKED, 0, 1, MPI_COMM_WORLD, &s);
      MPI_Get_count(&s, MPI_PACKED, &cnt);
      CHECK(cnt == len, "count of a packed message");
      pos = 0;
      k = n * r[0].n;
      sx_assume(ru[0].n > 0);
      k = k / ru[0].n > 3 ? 3 : k / ru[0].n;
      MPI_Unpack(in, len, &pos, b.base, k, u[0], MPI_COMM_WORLD);
      check_delivered(&b, &ru[0], k, &a, &r[0], n, "unpacked data is the packed data", "nothing else changes");
    } else { /* received directly as its type */
      Buf d = mkbuf(&r[0], n, "d");
      MPI_Recv(d.base, n, t[0], 0, 1, MPI_COMM_WORLD, &s);
      check_delivered(&d, &r[0], n, &a, &r[0], n, "a packed message can be received as its data", "nothing else changes");
      MPI_Get_count(&s, t[0], &cnt);
      if (r[0].n) CHECK(cnt == n, "count of a packed message received as its data");
    }
    MPI_Wait(&q, MPI_STATUS_IGNORE);
    COVER("sent");
  } else if (c == 5) { /* MPI_Pack_size of any count */
    MPI_Aint ps = -1;
    int n = sx_i32("count");
    sx_assume(n >= 0);
    k = sx_pick("base", 0, 1);
    homo(sx_pick("layout", 0, NHOMO - 1), k ? MPI_DOUBLE : MPI_SHORT_INT, &t[0], &r[0]);
#ifdef FAPI /* the Fortran result is an INTEGER */
    sx_assume((long)n * r_size(&r[0]) <= 0x7fffffffL);
#endif
    MPI_Pack_size(n, t[0], MPI_COMM_WORLD, &ps);
    CHECK(ps >= (long)n * r_size(&r[0]), "MPI_Pack_size is enough for any count");
    CHECK(ps <= (long)n * r_size(&r[0]) + 64, "MPI_Pack_size is not wildly more than the data");
    sx_obs("size", ps);
    COVER("sized");
  } else { /* heterogeneous, several items, position shared */
    int pos = 0, len;
    het(sx_pick("layout", 0, NHET - 1), &t[0], &r[0]);
    het(sx_pick("layout2", 0, NHET - 1), &u[0], &ru[0]);
    len = 2 * r_size(&r[0]);
    Buf a = mkbuf(&r[0], 2, "a"), b = mkbuf(&ru[0], 2, "b");
    unsigned char *out = malloc(len);
    for (k = 0; k < 2; k++) MPI_Pack(a.base + k * r_extent(&r[0]), 1, t[0], out, len, &pos, MPI_COMM_WORLD);
    CHECK(pos == len, "packed size");
    pos = 0;
    for (k = 0; k < 2; k++) MPI_Unpack(out, len, &pos, b.base + k * r_extent(&ru[0]), 1, u[0], MPI_COMM_WORLD);
    check_delivered(&b, &ru[0], 2, &a, &r[0], 2, "unpacked data is the packed data", "nothing else changes");
    COVER("packed");
  }
  sx_end();
}

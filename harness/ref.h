/* Reference model of datatypes, written from the MPI definition of typemaps (not from the
 * library), with the library's documented extent rule: ub - lb rounded up to a multiple of
 * the largest basic element, unless MPI_LB/MPI_UB say otherwise. */
#ifndef REF_H
#define REF_H
#include "env.h"
#include <wchar.h>
#define RMAX 96
typedef struct {
  int n;               /* basic elements */
  long d[RMAX];        /* displacement of each */
  int s[RMAX];         /* size of each */
  long lb, ub;         /* before padding */
  int olb, oub;        /* set by MPI_LB / MPI_UB */
} RT;

static int r_size1(MPI_Datatype t) { /* size of a one-element predefined type */
  switch (t) {
    case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_BYTE: case MPI_PACKED: return 1;
    case MPI_SHORT: case MPI_UNSIGNED_SHORT: return sizeof(short);
    case MPI_INT: case MPI_UNSIGNED: return sizeof(int);
    case MPI_LONG: case MPI_UNSIGNED_LONG: return sizeof(long);
    case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: return sizeof(long long);
    case MPI_FLOAT: return sizeof(float);
    case MPI_DOUBLE: return sizeof(double);
    case MPI_LONG_DOUBLE: return sizeof(long double);
    case MPI_WCHAR: return sizeof(wchar_t);
    case MPI_OFFSET: return sizeof(MPI_Offset);
    case MPI_INTEGER: case MPI_LOGICAL: return 4;
    case MPI_REAL: return HREAL;
    case MPI_COMPLEX: return 2 * HREAL;
    case MPI_DOUBLE_PRECISION: return HDOUBLE;
    case MPI_DOUBLE_COMPLEX: return 2 * HDOUBLE;
    case MPI_CHARACTER: case MPI_INTEGER1: return 1;
    case MPI_INTEGER2: return 2;
    case MPI_INTEGER4: case MPI_REAL4: return 4;
    case MPI_INTEGER8: case MPI_REAL8: case MPI_COMPLEX8: return 8;
    case MPI_INTEGER16: case MPI_REAL16: case MPI_COMPLEX16: return 16;
    case MPI_COMPLEX32: return 32;
  }
  return 0;
}
/* the members of a pair type */
static int r_pair(MPI_Datatype t, int *a, int *b, long *bd, long *ext) {
  switch (t) {
    case MPI_FLOAT_INT: { struct x { float a; int b; }; *a = sizeof(float); *b = sizeof(int); *bd = offsetof(struct x, b); *ext = sizeof(struct x); return 1; }
    case MPI_DOUBLE_INT: { struct x { double a; int b; }; *a = sizeof(double); *b = sizeof(int); *bd = offsetof(struct x, b); *ext = sizeof(struct x); return 1; }
    case MPI_LONG_INT: { struct x { long a; int b; }; *a = sizeof(long); *b = sizeof(int); *bd = offsetof(struct x, b); *ext = sizeof(struct x); return 1; }
    case MPI_SHORT_INT: { struct x { short a; int b; }; *a = sizeof(short); *b = sizeof(int); *bd = offsetof(struct x, b); *ext = sizeof(struct x); return 1; }
    case MPI_LONG_DOUBLE_INT: { struct x { long double a; int b; }; *a = sizeof(long double); *b = sizeof(int); *bd = offsetof(struct x, b); *ext = sizeof(struct x); return 1; }
    case MPI_2INT: case MPI_2INTEGER: *a = *b = 4; *bd = 4; *ext = 8; return 1;
    case MPI_2REAL: *a = *b = *bd = HREAL; *ext = 2 * HREAL; return 1;
    case MPI_2DOUBLE_PRECISION: *a = *b = *bd = HDOUBLE; *ext = 2 * HDOUBLE; return 1;
  }
  return 0;
}
static long r_min(long a, long b) { if (a < b) return a; return b; }
static long r_max(long a, long b) { if (a < b) return b; return a; }
static void r_bounds(RT *r) { /* natural bounds where not overridden */
  long lo = 0, hi = 0;
  for (int i = 0; i < r->n; i++) {
    if (i == 0) { lo = r->d[0]; hi = r->d[0] + r->s[0]; continue; }
    lo = r_min(lo, r->d[i]);
    hi = r_max(hi, r->d[i] + r->s[i]);
  }
  if (!r->olb) r->lb = lo;
  if (!r->oub) r->ub = hi;
}
static RT r_basic(MPI_Datatype t) {
  RT r;
  int a, b;
  long bd, ext;
  memset(&r, 0, sizeof r);
  if (r_pair(t, &a, &b, &bd, &ext)) {
    r.n = 2; r.s[0] = a; r.s[1] = b; r.d[1] = bd; r.ub = ext;
  } else {
    r.n = 1; r.s[0] = r_size1(t); r.ub = r.s[0];
  }
  return r;
}
static long r_extent(const RT *r) {
  long e = r->ub - r->lb, m = 1;
  if (r->olb || r->oub) return e;
  for (int i = 0; i < r->n; i++) if (r->s[i] > m) m = r->s[i];
  long rem = e % m; /* e >= 0 here: natural bounds */
  return rem ? e + (m - rem) : e;
}
static long r_size(const RT *r) {
  long k = 0;
  for (int i = 0; i < r->n; i++) k += r->s[i];
  return k;
}
/* struct constructor; markers are given as NULL with marker[i] = MPI_LB / MPI_UB */
static RT r_struct(int count, const int *bl, const long *disp, const RT *const *old, const int *marker) {
  RT r;
  memset(&r, 0, sizeof r);
  for (int i = 0; i < count; i++) {
    if (marker && marker[i] == MPI_LB) {
      r.lb = r.olb ? r_min(r.lb, disp[i]) : disp[i];
      r.olb = 1;
      continue;
    }
    if (marker && marker[i] == MPI_UB) {
      r.ub = r.oub ? r_max(r.ub, disp[i]) : disp[i];
      r.oub = 1;
      continue;
    }
    long e = r_extent(old[i]);
    for (int j = 0; j < bl[i]; j++) {
      long at = disp[i] + j * e;
      if (old[i]->olb) { r.lb = r.olb ? r_min(r.lb, at + old[i]->lb) : at + old[i]->lb; r.olb = 1; }
      if (old[i]->oub) { r.ub = r.oub ? r_max(r.ub, at + old[i]->ub) : at + old[i]->ub; r.oub = 1; }
      for (int k = 0; k < old[i]->n && r.n < RMAX; k++) {
        r.d[r.n] = at + old[i]->d[k];
        r.s[r.n] = old[i]->s[k];
        r.n++;
      }
    }
  }
  r_bounds(&r);
  return r;
}
static RT r_hindexed(int count, const int *bl, const long *disp, const RT *old) {
  const RT *o[16];
  for (int i = 0; i < count; i++) o[i] = old;
  return r_struct(count, bl, disp, o, NULL);
}
static RT r_indexed(int count, const int *bl, const int *disp, const RT *old) {
  long dd[16], e = r_extent(old);
  for (int i = 0; i < count; i++) dd[i] = disp[i] * e;
  return r_hindexed(count, bl, dd, old);
}
static RT r_hvector(int count, int bl, long stride, const RT *old) {
  int b[16];
  long dd[16];
  for (int i = 0; i < count; i++) { b[i] = bl; dd[i] = i * stride; }
  return r_hindexed(count, b, dd, old);
}
static RT r_vector(int count, int bl, int stride, const RT *old) { return r_hvector(count, bl, stride * r_extent(old), old); }
static RT r_contig(int count, const RT *old) { return r_hvector(count, 1, r_extent(old), old); }

/* Byte offsets, in message order, of `count` items of r; el[] is the element each is in. */
#define BMAX 512
static int r_bytes(const RT *r, int count, long *off, int *el) {
  int k = 0, e = 0;
  long ext = r_extent(r);
  for (int c = 0; c < count; c++)
    for (int i = 0; i < r->n; i++, e++)
      for (int b = 0; b < r->s[i] && k < BMAX; b++) {
        off[k] = c * ext + r->d[i] + b;
        if (el) el[k] = e;
        k++;
      }
  return k;
}
/* Lowest and one past the highest byte touched. */
static void r_span(const RT *r, int count, long *lo, long *hi) {
  long ext = r_extent(r);
  int first = 1;
  *lo = *hi = 0;
  for (int c = 0; c < count; c++)
    for (int i = 0; i < r->n; i++) {
      long a = c * ext + r->d[i], b = a + r->s[i];
      if (first || a < *lo) *lo = a;
      if (first || b > *hi) *hi = b;
      first = 0;
    }
}

/* A heap buffer that holds exactly the bytes `count` items of r may touch, filled with
 * arbitrary bytes; base is the address to hand to MPI. */
typedef struct { unsigned char *mem, *base; long lo, len; unsigned char *was; } Buf;
static Buf mkbuf(const RT *r, int count, const char *name) {
  Buf b;
  long hi;
  r_span(r, count, &b.lo, &hi);
  b.len = hi - b.lo;
  b.mem = malloc(b.len);
  b.was = malloc(b.len);
  sx_bytes(b.mem, b.len, name);
  memcpy(b.was, b.mem, b.len);
  b.base = b.mem - b.lo;
  return b;
}
static Buf mkraw(long len, const char *name) {
  Buf b;
  b.lo = 0;
  b.len = len;
  b.mem = malloc(len);
  b.was = malloc(len);
  sx_bytes(b.mem, len, name);
  memcpy(b.was, b.mem, len);
  b.base = b.mem;
  return b;
}
static void check_same(const Buf *b, const char *msg) {
  int ok = 1;
  for (long i = 0; i < b->len; i++) ok &= b->mem[i] == b->was[i];
  CHECK(ok, msg);
}
/* recv holds what the first n bytes of the message put there, and is otherwise unchanged. */
static void check_delivered(const Buf *rb, const RT *rt, int rcount, const Buf *sb, const RT *st, int scount, const char *msg, const char *msg2) {
  static long so[BMAX], ro[BMAX];
  unsigned char want[BMAX * 4];
  int sn = r_bytes(st, scount, so, NULL), rn = r_bytes(rt, rcount, ro, NULL), ok = 1, ok2 = 1;
  int n = sn < rn ? sn : rn;
  char hit[BMAX * 4];
  for (long i = 0; i < rb->len; i++) { want[i] = rb->was[i]; hit[i] = 0; }
  for (int i = 0; i < n; i++) { want[ro[i] - rb->lo] = sb->was[so[i] - sb->lo]; hit[ro[i] - rb->lo] = 1; }
  for (long i = 0; i < rb->len; i++) {
    if (hit[i]) ok &= rb->mem[i] == want[i];
    else ok2 &= rb->mem[i] == want[i];
  }
  CHECK(ok, msg);
  CHECK(ok2, msg2);
}
static void freebuf(Buf *b) { free(b->mem); free(b->was); }
#endif

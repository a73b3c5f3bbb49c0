/* Native side of the harness interface: replays one recorded input file against the real
 * build.  Exit status: 0 the path ended as recorded, 66 a check failed (or the library ended
 * the program where it must not), 67 AddressSanitizer, 70 the input file does not fit. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include "sx.h"

extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);

#define MAXIN 200000
static struct { int w; unsigned long v; char name[48]; } in[MAXIN];
static int nin, cur;
static struct { unsigned long idx, off, val; } hp[MAXIN];
static int nhp, heap_count, heap_live, fill = 0xA5, the_case, started, done;
static int mode, want; /* 0 forbidden, 1 allowed, 2 exit code */
static FILE *out;

static void fin(int code, const char *how) {
  if (done) return;
  done = 1;
  if (out) { fprintf(out, "end %s\n", how); fflush(out); }
  _exit(code);
}
static void on_abort(int s) {
  if (mode == 0) fin(66, "terminated abort (forbidden)");
  fin(0, "terminated abort");
}
static void on_exit_(int code, void *p) {
  if (done || !started) return;
  if (code == 67) return;
  if (out) fprintf(out, "obs %ld exit\n", (long)(unsigned)code);
  if (mode == 0) fin(66, "terminated exit (forbidden)");
  if (mode == 2 && code != want) fin(66, "wrong exit status");
  if (mode == 1 && code == 0) fin(66, "exit status 0 on an error");
  fin(0, "terminated exit");
}
static void load(const char *fn) {
  FILE *f = fopen(fn, "r");
  char line[512];
  if (!f) { perror(fn); _exit(70); }
  while (fgets(line, sizeof line, f)) {
    if (!strncmp(line, "case ", 5)) the_case = atoi(line + 5);
    else if (!strncmp(line, "in ", 3) && nin < MAXIN) {
      if (sscanf(line, "in %d %lu %47[^\n]", &in[nin].w, &in[nin].v, in[nin].name) == 3) nin++;
    } else if (!strncmp(line, "heap ", 5) && nhp < MAXIN) {
      if (sscanf(line, "heap %lu %lu %lu", &hp[nhp].idx, &hp[nhp].off, &hp[nhp].val) == 3) nhp++;
    }
  }
  fclose(f);
}
static void init(void) __attribute__((constructor));
static void init(void) {
  const char *f = getenv("SX_IN"), *o = getenv("SX_OUT"), *p = getenv("SX_FILL");
  if (p) fill = atoi(p);
  out = o ? fopen(o, "w") : NULL;
  if (f) load(f);
  signal(SIGABRT, on_abort);
  on_exit(on_exit_, NULL);
  heap_count = heap_live = 0;
  started = 1;
}
static unsigned long next(int w, const char *name) {
  char nm[48];
  snprintf(nm, sizeof nm, "%s", name);
  if (cur >= nin) { cur++; return 0; }
  if (in[cur].w != w || strcmp(in[cur].name, nm)) fin(70, "input file does not fit");
  return in[cur++].v;
}
int sx_i32(const char *n) { return (int)next(32, n); }
long sx_i64(const char *n) { return (long)next(64, n); }
unsigned char sx_u8(const char *n) { return (unsigned char)next(8, n); }
void sx_bytes(void *p, long k, const char *n) {
  for (long i = 0; i < k; i++) ((unsigned char *)p)[i] = (unsigned char)next(8, n);
}
int sx_pick(const char *n, int lo, int hi) { return (int)next(32, n); }
void sx_assume(int c) { if (!c) fin(0, "assumption false"); }
void sx_check_(int c, const char *m) {
  if (c) return;
  if (out) fprintf(out, "failed %s\n", m);
  fprintf(stderr, "CHECK FAILED: %s\n", m);
  fin(66, "check failed");
}
void sx_cover(const char *l) {}
int sx_conc(int x) { return x; }
int sx_case(void) { return the_case; }
void sx_term_forbidden(const char *w) { mode = 0; }
void sx_term_allowed(const char *w) { mode = 1; }
void sx_term_exit(int c, const char *w) { mode = 2; want = c; }
void sx_obs(const char *n, long v) { if (out) { fprintf(out, "obs %ld %s\n", v, n); fflush(out); } }
long sx_heap_live(void) { return heap_live; }
int sx_native(void) { return 1; }
void *sx_bigbuf(long size) {
  /* nothing else lies within 12 GiB of it */
  const long guard = 12L << 30;
  char *p = mmap(NULL, size + 4096 + 2 * guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p + guard, size + 4096, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(70); }
  return p + guard;
}
void sx_end(void) { fin(0, "ended"); _exit(0); }

/* Fresh memory holds what the counterexample says, or a pattern. */
static void dirty(unsigned char *p, size_t from, size_t n) {
  unsigned long k = heap_count;
  for (size_t i = from; i < n; i++) p[i] = (unsigned char)fill;
  for (int i = 0; i < nhp; i++)
    if (hp[i].idx == k && hp[i].off >= from && hp[i].off < n) p[hp[i].off] = (unsigned char)hp[i].val;
}
void *__wrap_malloc(size_t n) {
  void *p = __real_malloc(n);
  heap_count++;
  heap_live++;
  if (p) dirty(p, 0, n);
  return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  heap_count++;
  heap_live++;
  return __real_calloc(a, b);
}
extern size_t malloc_usable_size(void *);
void *__wrap_realloc(void *o, size_t n) {
  size_t k = o ? malloc_usable_size(o) : 0;
  void *p = __real_realloc(o, n);
  heap_count++;
  if (!o) heap_live++;
  if (p && k < n) dirty(p, k, n);
  return p;
}
void __wrap_free(void *p) {
  if (p) heap_live--;
  __real_free(p);
}

/* Interface between the harnesses and the symbolic executor (sx) or the native replay
 * runtime (sx_native.c). */
#ifndef SX_H
#define SX_H
#include <stddef.h>
extern int sx_i32(const char *name);            /* any 32-bit value */
extern long sx_i64(const char *name);           /* any 64-bit value */
extern unsigned char sx_u8(const char *name);   /* any byte */
extern void sx_bytes(void *p, long n, const char *name); /* n arbitrary bytes */
extern int sx_pick(const char *name, int lo, int hi);    /* every value of lo..hi, one path each */
extern void sx_assume(int c);
extern void sx_check_(int c, const char *msg);
extern void sx_cover(const char *label);        /* must be reached (vacuity guard) */
extern int sx_conc(int x);                      /* one path per value of x */
extern int sx_case(void);                       /* the harness case chosen by the runner */
extern void sx_term_forbidden(const char *why); /* abort()/exit() from here on is a violation */
extern void sx_term_allowed(const char *why);   /* abort()/nonzero exit() ends the path well */
extern void sx_term_exit(int code, const char *why); /* exit(code) ends the path well */
extern void sx_obs(const char *name, long v);   /* compared between executor and native run */
extern long sx_heap_live(void);                 /* live heap blocks */
extern int sx_native(void);                     /* 0 in the executor, 1 in a replay */
extern void *sx_bigbuf(long size);              /* zero-filled sparse buffer */
extern void sx_end(void) __attribute__((noreturn));
#define CHECK(c, msg) sx_check_(!!(c), msg)
#define COVER(l) sx_cover(l)
#endif

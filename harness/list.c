/* The list module is a sequence: histories of its operations against an array.
 * case 0..9: first operation   case 10..14: long lists */
#include "env.h"
#include "listops.h"
#include "listP.h"
#define MX 320
extern pList AP_list_new(void), AP_list_duplicate(pList);
extern int AP_list_next(), AP_list_head(pList, void **), AP_list_tail(pList, void **), AP_list_delete(pList, void *), AP_list_size(pList);
extern int AP_list_apply(pList, int (*)(void *, void *), void *), AP_listitem_verify(void);
extern void *AP_list_braindead_next(pList, void **);
static int m[MX], n, nitems;
static pListitem it[MX];
static pList l;
#define P(x) ((void *)(long)(x))
#define I(p) ((int)(long)(p))
static int eq(void *a, void *b) { return I(a) == I(b); }
static int one(void *a, void *b) { return I(b); }
static void same(pList x, int items) {
  void *d = NULL, *t = NULL;
  pListitem p, prev = NULL;
  int i = 0, ok = 1;
  CHECK(AP_list_size(x) == n, "the size");
  while (AP_list_next(x, &d, &t)) { CHECK(i < n, "no more items than were added"); ok &= I(d) == m[i]; i++; }
  CHECK(i == n, "every item is visited");
  CHECK(ok, "in order");
  ok = 1;
  for (i = 0, p = AP_list_head_item(x); p; p = AP_listitem_next(p), i++) {
    CHECK(i < n, "no more items than were added");
    ok &= I(AP_listitem_data(p)) == m[i];
    CHECK(AP_listitem_prev(p) == prev, "backward links mirror the forward ones");
    if (items) CHECK(p == it[i], "items keep their identity");
    prev = p;
  }
  CHECK(i == n && ok, "the links hold the sequence");
  d = P(-1);
  CHECK(AP_list_head(x, &d) == (n > 0), "the head exists when the list is not empty");
  if (n) CHECK(I(d) == m[0], "the head");
  CHECK(AP_list_tail(x, &d) == (n > 0), "the tail exists when the list is not empty");
  if (n) CHECK(I(d) == m[n - 1], "the tail");
}
static void del(int k) { for (int i = k; i + 1 < n; i++) { m[i] = m[i + 1]; it[i] = it[i + 1]; } n--; }
int main(void) {
  int c = sx_case(), s, i, k;
  pListitem p;
#ifdef THOROUGH
  int len = 7;
#else
  int len = 5;
#endif
  sx_term_forbidden("legal list operations");
  l = AP_list_new();
  if (c >= 10) { /* long lists: deletions at and around both ends and in the middle */
    static const int sizes[] = {3, 9, 33, 65, 129, 257, 300};
    int size = sizes[sx_pick("size", 0, 6)], v0, front = sx_pick("built from the front", 0, 1), how = c - 10, byval = sx_pick("by value", 0, 1);
    for (i = 0; i < size; i++) {
      if (front) { p = AP_list_prepend(l, P(i + 1)); for (k = n; k > 0; k--) { m[k] = m[k - 1]; it[k] = it[k - 1]; } it[0] = p; m[0] = i + 1; n++; }
      else { p = AP_list_append(l, P(i + 1)); it[n] = p; m[n++] = i + 1; }
    }
    same(l, 1);
    for (s = 0; n > 0; s++) {
      switch (how) {
        case 0: k = 0; break;
        case 1: k = n - 1; break;
        case 2: k = n / 2; break;
        case 3: k = s % 2 ? 0 : n - 1; break;
        default: k = n > 2 ? n - 2 : 0; break;
      }
      if (byval) { v0 = m[k]; CHECK(AP_list_delete(l, P(v0)), "delete finds the item"); }
      else AP_list_delete_item(l, it[k]);
      del(k);
      if (s < 3 || n < 4 || s % 16 == 0) same(l, 1);
      if (s == 4) {
        p = AP_list_append(l, P(1000)); it[n] = p; m[n++] = 1000;
        p = AP_list_prepend(l, P(2000)); for (k = n; k > 0; k--) { m[k] = m[k - 1]; it[k] = it[k - 1]; } it[0] = p; m[0] = 2000; n++;
        same(l, 1);
        pList e = AP_list_duplicate(l); same(e, 0); AP_list_free(e);
      }
    }
    same(l, 1);
    AP_list_free(l);
    CHECK(AP_listitem_verify() == 0, "nothing is left allocated");
    COVER("sequence");
    sx_end();
  }
  for (s = 0; s < len; s++) {
    int op = s == 0 ? c : sx_pick("op", 0, 5), v = 0;
    if (op != 3) v = sx_i32("v");
    switch (op) {
      case 0: p = AP_list_append(l, P(v)); it[n] = p; m[n++] = v; CHECK(I(AP_listitem_data(p)) == v, "the new item"); break;
      case 1: p = AP_list_prepend(l, P(v)); for (i = n; i > 0; i--) { m[i] = m[i - 1]; it[i] = it[i - 1]; } it[0] = p; m[0] = v; n++; break;
      case 2: /* delete by value: the first one */
        for (k = 0; k < n && m[k] != v; k++) ;
        i = AP_list_delete(l, P(v));
        CHECK(!!i == (k < n), "delete says whether it found the item");
        if (k < n) del(k);
        break;
      case 3: sx_assume(n > 0); k = sx_pick("which", 0, n - 1); AP_list_delete_item(l, it[k]); del(k); break;
      case 4:
        for (k = 0; k < n && m[k] != v; k++) ;
        p = sx_pick("by function", 0, 1) ? AP_list_search_func(l, eq, P(v)) : AP_list_search(l, P(v));
        CHECK(p == (k < n ? it[k] : NULL), "search finds the first match");
        break;
      case 5: {
        pList e = AP_list_duplicate(l);
        same(e, 0);
        CHECK(e != l, "a copy");
        AP_list_append(e, P(v)); AP_list_prepend(e, P(v));
        CHECK(AP_list_size(e) == n + 2, "the copy grows");
        AP_list_free(e);
        CHECK(AP_list_apply(l, one, P(3)) == 3 * n, "apply visits every item");
        break; }
    }
    same(l, 1);
  }
  AP_list_free(l);
  CHECK(AP_listitem_verify() == 0, "nothing is left allocated");
  COVER("sequence");
  sx_end();
}

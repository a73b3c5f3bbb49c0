/* Groups of a world of one process are sets: {} and {0}.
 * case 0: expressions over groups against set algebra   case 1: incl and range_incl
 * case 2: translate_ranks   case 3: null groups are refused   case 4: groups and communicators */
#include "env.h"
#define POOL 7
static MPI_Group g[POOL];
static int has[POOL], n;
static MPI_Group world;
static void look(int i) { /* which set is it? */
  int zero = 0, r = -77;
  MPI_Comm c = -77;
  CHECK(g[i] != MPI_GROUP_NULL, "a group is not MPI_GROUP_NULL");
  MPI_Group_translate_ranks(world, 1, &zero, g[i], &r);
  CHECK(r == (has[i] ? 0 : MPI_UNDEFINED), "rank 0 is in the group exactly when the set has it");
  CHECK((g[i] == MPI_GROUP_EMPTY) == !has[i], "an empty group is MPI_GROUP_EMPTY");
  MPI_Comm_create(MPI_COMM_WORLD, g[i], &c);
  CHECK((c == MPI_COMM_NULL) == !has[i], "a communicator of the group exists exactly when it has this process");
}
int main(void) {
  int c = sx_case(), i, k, a, b, z = 0;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("legal group operations");
  MPI_Comm_group(MPI_COMM_WORLD, &world);
  g[0] = world; has[0] = 1;
  g[1] = MPI_GROUP_EMPTY; has[1] = 0;
  n = 2;
  if (c == 0) {
#ifdef THOROUGH
    int steps = 4;
#else
#ifdef FAPI
    int steps = 2;
#else
    int steps = 3;
#endif
#endif
    for (k = 0; k < steps; k++) {
      a = sx_pick("a", 0, n - 1); b = sx_pick("b", 0, n - 1);
      MPI_Group ka = g[a], kb = g[b];
      switch (sx_pick("op", 0, 4)) {
        case 0: MPI_Group_union(g[a], g[b], &g[n]); has[n] = has[a] || has[b]; break;
        case 1: MPI_Group_intersection(g[a], g[b], &g[n]); has[n] = has[a] && has[b]; break;
        case 2: MPI_Group_difference(g[a], g[b], &g[n]); has[n] = has[a] && !has[b]; break;
        case 3: sx_assume(has[a]); MPI_Group_incl(g[a], 1, &z, &g[n]); has[n] = 1; break;
        case 4: MPI_Group_incl(g[a], 0, &z, &g[n]); has[n] = 0; break;
      }
      n++;
      CHECK(g[a] == ka && g[b] == kb, "operands are unchanged");
    }
    for (i = 0; i < n; i++) look(i);
    for (i = 2; i < n; i++) { MPI_Group_free(&g[i]); CHECK(g[i] == MPI_GROUP_NULL, "a freed group is MPI_GROUP_NULL"); }
    look(0);
    COVER("algebra");
  } else if (c == 1) { /* the ranks must exist */
    int r = sx_i32("rank"), r2 = sx_i32("last"), st = sx_i32("stride"), e = sx_pick("empty", 0, 1), num = sx_pick("n", 0, 1), rg[1][3];
    sx_assume(st != 0);
    if (e && num) { sx_term_allowed("no rank is in the empty group"); if (sx_pick("range", 0, 1)) { rg[0][0] = r; rg[0][1] = r; rg[0][2] = st; MPI_Group_range_incl(MPI_GROUP_EMPTY, num, rg, &g[2]); } else MPI_Group_incl(MPI_GROUP_EMPTY, num, &r, &g[2]); CHECK(0, "a rank of the empty group must be refused"); }
    rg[0][0] = r; rg[0][1] = r2; rg[0][2] = st;
    if (sx_pick("range", 0, 1)) {
      /* the range is r, r+st, ... up to r2: with one process only {0} exists */
      int only0 = r == 0 && r2 == 0;
      if (num == 1 && !e && !only0) { sx_assume(r != 0 || r2 != 0); sx_assume(!(r == 0 && (st > 0 ? r2 < st : r2 > st))); sx_term_allowed("ranks that do not exist"); MPI_Group_range_incl(world, num, rg, &g[2]); CHECK(0, "ranks that do not exist must be refused"); }
      MPI_Group_range_incl(e ? MPI_GROUP_EMPTY : world, num, rg, &g[2]);
    } else {
      if (num == 1 && !e && r != 0) { sx_term_allowed("a rank that does not exist"); MPI_Group_incl(world, num, &r, &g[2]); CHECK(0, "a rank that does not exist must be refused"); }
      MPI_Group_incl(e ? MPI_GROUP_EMPTY : world, num, &r, &g[2]);
    }
    has[2] = num == 1;
    n = 3;
    look(2);
    COVER("included");
  } else if (c == 2) {
    int in[4], out[5], m = sx_pick("n", 0, 4), empty2 = sx_pick("to empty", 0, 1), ok = 1;
    for (i = 0; i < 4; i++) { in[i] = sx_i32("rank"); out[i] = 0x55; }
    out[4] = 0x55;
    int bad = 0;
    for (i = 0; i < m; i++) bad |= in[i] != 0;
    if (bad) sx_term_allowed("a rank that is not in the group");
    MPI_Group_translate_ranks(world, m, in, empty2 ? MPI_GROUP_EMPTY : world, out);
    CHECK(!bad, "a rank that is not in the group must be refused");
    for (i = 0; i < m; i++) ok &= out[i] == (empty2 ? MPI_UNDEFINED : 0);
    for (; i < 5; i++) ok &= out[i] == 0x55;
    CHECK(ok, "exactly n ranks are translated");
    if (m && sx_pick("from empty", 0, 1)) { sx_term_allowed("no rank is in the empty group"); MPI_Group_translate_ranks(MPI_GROUP_EMPTY, m, in, world, out); CHECK(0, "a rank of the empty group must be refused"); }
    if (m == 0) { /* n = 0 is legal from the empty group too */
      MPI_Group_translate_ranks(MPI_GROUP_EMPTY, 0, in, world, out);
      CHECK(out[0] == 0x55, "nothing is translated");
    }
    COVER("translated");
  } else if (c == 3) {
    int op = sx_pick("op", 0, 6), second = sx_pick("second", 0, 1), rg[1][3] = {{0, 0, 1}}, o[2];
    MPI_Group x = second ? world : MPI_GROUP_NULL, y = second ? MPI_GROUP_NULL : sx_pick("other empty", 0, 1) ? MPI_GROUP_EMPTY : world;
    sx_term_allowed("MPI_GROUP_NULL is not a group");
    switch (op) {
      case 0: MPI_Group_union(x, y, &g[2]); break;
      case 1: MPI_Group_intersection(x, y, &g[2]); break;
      case 2: MPI_Group_difference(x, y, &g[2]); break;
      case 3: MPI_Group_translate_ranks(x, 1, &z, y, o); break;
      case 4: MPI_Group_incl(MPI_GROUP_NULL, 1, &z, &g[2]); break;
      case 5: MPI_Group_range_incl(MPI_GROUP_NULL, 1, rg, &g[2]); break;
      case 6: MPI_Group_incl(MPI_GROUP_NULL, 0, &z, &g[2]); break;
    }
    CHECK(0, "MPI_GROUP_NULL must be refused");
  } else {
    MPI_Comm d, e2;
    MPI_Group gd, gn;
    MPI_Comm_dup(MPI_COMM_WORLD, &d);
    MPI_Comm_group(d, &gd);
    g[2] = gd; has[2] = 1; look(2);
    MPI_Comm_group(MPI_COMM_NULL, &gn);
    CHECK(gn == MPI_GROUP_NULL, "MPI_COMM_NULL has no group");
    MPI_Comm_create(d, MPI_GROUP_EMPTY, &e2);
    CHECK(e2 == MPI_COMM_NULL, "no communicator for an empty group");
    MPI_Comm_create(d, MPI_GROUP_NULL, &e2);
    CHECK(e2 == MPI_COMM_NULL, "no communicator for no group");
    MPI_Comm_create(d, gd, &e2);
    CHECK(e2 != MPI_COMM_NULL && e2 != d, "a new communicator");
    MPI_Group_free(&gd);
    MPI_Comm_free(&d);
    MPI_Comm_group(e2, &g[2]); look(2);
    look(0); look(1);
    COVER("groups of communicators");
  }
  sx_end();
}

/* Cartesian topologies of one process.
 * case 0: create and ask back   case 1: duplicates and freed neighbours   case 2: Dims_create */
#include "env.h"
#define D 5
#define G 0x5a5a
int main(void) {
  int c = sx_case(), i, nd, per[2][D], dims[D], od[D + 1], op[D + 1], oc[D + 1], asked;
  MPI_Comm cart, other, d;
  MPI_Init(NULL, NULL);
  sx_term_forbidden("legal topology calls");
  nd = sx_pick("ndims", 1, D - 1);
  for (i = 0; i < D; i++) {
    dims[i] = 1;
    per[0][i] = sx_i32("periodic");
    per[1][i] = sx_i32("periodic2");
#ifdef FAPI
    sx_assume((unsigned)per[0][i] <= 1); sx_assume((unsigned)per[1][i] <= 1);
#endif
  }
  for (i = 0; i <= D; i++) od[i] = op[i] = oc[i] = G;
  if (c == 2) {
    for (i = 0; i < D; i++) dims[i] = sx_pick("given", 0, 1);
    MPI_Dims_create(1, nd, dims);
    for (i = 0; i < nd; i++) CHECK(dims[i] == 1, "one process: every dimension is 1");
    sx_end();
  }
  int who = sx_pick("from", 0, 1);
  MPI_Comm old = MPI_COMM_WORLD;
  if (who) MPI_Comm_dup(MPI_COMM_WORLD, &old);
  MPI_Cart_create(old, nd, dims, per[0], sx_pick("reorder", 0, 1), &cart);
  CHECK(cart != MPI_COMM_NULL && cart != old, "a new communicator");
  MPI_Comm ask = cart;
  if (c == 1) {
    int n2 = sx_pick("ndims2", 1, 2);
    switch (sx_pick("then", 0, 4)) {
      case 0: MPI_Comm_dup(cart, &ask); CHECK(ask != cart, "a new communicator"); break;
      case 1: MPI_Comm_dup(cart, &ask); MPI_Comm_free(&cart); break;
      case 2: MPI_Cart_create(MPI_COMM_WORLD, n2, dims, per[1], 0, &other); break;
      case 3: MPI_Cart_create(MPI_COMM_WORLD, n2, dims, per[1], 0, &other); MPI_Comm_free(&other); MPI_Comm_dup(MPI_COMM_WORLD, &other); break;
      case 4: /* the handle of a freed topology is recycled */
        MPI_Comm_free(&cart);
        MPI_Cart_create(MPI_COMM_WORLD, nd, dims, per[1], 0, &ask);
        for (i = 0; i < D; i++) per[0][i] = per[1][i];
        break;
    }
    /* the caller's arrays are the caller's */
    for (i = 0; i < D; i++) per[1][i] = 0;
  }
  int was[D];
  for (i = 0; i < D; i++) { was[i] = per[0][i]; per[0][i] = !per[0][i]; dims[i] = 9; }
  asked = sx_pick("asked", 0, nd);
  MPI_Cart_get(ask, asked, od, op, oc);
  for (i = 0; i < asked; i++) {
    CHECK(od[i] == 1, "every dimension is 1");
    CHECK((op[i] != 0) == (was[i] != 0), "the periods given at creation are the periods returned");
    CHECK(op[i] == 0 || op[i] == 1, "a logical is 0 or 1");
    CHECK(oc[i] == 0, "the only coordinate is 0");
  }
  for (; i <= D; i++) CHECK(od[i] == G && op[i] == G && oc[i] == G, "nothing beyond maxdims is written");
  for (i = 0; i <= D; i++) oc[i] = G;
  MPI_Cart_coords(ask, 0, asked, oc);
  for (i = 0; i < asked; i++) CHECK(oc[i] == 0, "the only coordinate is 0");
  for (; i <= D; i++) CHECK(oc[i] == G, "nothing beyond maxdims is written");
  /* it is a communicator like any other */
  int x = sx_i32("x"), y = 0, z = 0;
  MPI_Request q;
  MPI_Status s;
  MPI_Isend(&x, 1, MPI_INT, 0, 1, ask, &q);
  MPI_Iprobe(0, 1, old, &z, &s);
  CHECK(z == 0, "its messages are its own");
  MPI_Recv(&y, 1, MPI_INT, 0, 1, ask, &s);
  CHECK(x == y, "messages work");
  MPI_Wait(&q, &s);
  MPI_Comm_free(&ask);
  CHECK(ask == MPI_COMM_NULL, "freed");
  COVER("asked");
  sx_end();
}

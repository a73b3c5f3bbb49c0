/* Start, end and abort.
 * case 0: before and after MPI_Init(_thread)   case 1: MPI_Abort   case 2: MPI_Finalize */
#define CLEAN
#include "env.h"
extern int MPI_Init_thread(int *, char ***, int, int *);
int main(void) {
  int c = sx_case(), f = -7, s = -7, r = -7;
  MPI_Initialized(&f);
  CHECK(f == 0, "not initialized before MPI_Init");
  sx_term_forbidden("starting");
  int how = sx_pick("how", 0, 2);
  if (how == 0) MPI_Init(NULL, NULL);
  else if (how == 1) {
    int req = sx_i32("required"), prov = -7;
    sx_assume(req >= 0 && req <= 3);
    MPI_Init_thread(NULL, NULL, req, &prov);
    CHECK(prov >= 0 && prov <= 3, "a thread level");
  } else {
    int argc = 2; char *a[] = {"prog", "arg", NULL}, **av = a;
    CHECK(MPI_Init(&argc, &av) == MPI_SUCCESS, "MPI_SUCCESS");
    CHECK(argc == 2 && av == a, "the program's arguments are untouched");
  }
  f = -7;
  MPI_Initialized(&f);
  CHECK(f == 1, "initialized after MPI_Init");
  MPI_Comm_size(MPI_COMM_WORLD, &s); CHECK(s == 1, "a world of one process");
  MPI_Comm_rank(MPI_COMM_WORLD, &r); CHECK(r == 0, "whose rank is 0");
  int mess = sx_pick("state", 0, 7), b = 3;
  MPI_Request q; MPI_Comm k; MPI_Datatype t;
  if (mess == 1) { MPI_Isend(&b, 1, MPI_INT, 0, 1, MPI_COMM_WORLD, &q); MPI_Comm_dup(MPI_COMM_WORLD, &k); }
  if (mess == 2) MPI_Type_vector(2, 1, 2, MPI_INT, &t);
  if (mess == 3) for (f = 0; f < 300; f++) MPI_Comm_dup(MPI_COMM_WORLD, &k);
  if (mess == 4) { MPI_Irecv(&f, 1, MPI_INT, 0, MPI_ANY_TAG, MPI_COMM_WORLD, &q); MPI_Request_free(&q); MPI_Isend(&b, 1, MPI_INT, MPI_PROC_NULL, 1, MPI_COMM_WORLD, &q); }
  if (mess == 5) { int d[2] = {1, 1}, p[2] = {0, 1}; MPI_Group g; MPI_Cart_create(MPI_COMM_WORLD, 2, d, p, 0, &k); MPI_Isend(&b, 1, MPI_INT, 0, 1, k, &q); MPI_Comm_group(k, &g); MPI_Type_contiguous(3, MPI_INT, &t); MPI_Type_dup(t, &t); MPI_Type_commit(&t); }
  if (mess == 6) { MPI_Comm_dup(MPI_COMM_WORLD, &k); MPI_Type_contiguous(1, MPI_INT, &t); MPI_Type_commit(&t); MPI_Isend(&b, 1, t, 0, 1, k, &q); MPI_Type_free(&t); MPI_Request_free(&q); MPI_Recv(&f, 1, MPI_INT, 0, 1, k, MPI_STATUS_IGNORE); MPI_Comm_free(&k); k = MPI_COMM_WORLD; }
  if (mess == 7) for (f = 0; f < 600; f++) MPI_Isend(&b, 1, MPI_INT, 0, f, MPI_COMM_WORLD, &q);
  if (c == 1) {
    int code = sx_i32("code");
    MPI_Comm cm = (mess == 1 || mess == 3 || mess == 5) && sx_pick("comm", 0, 1) ? k : MPI_COMM_WORLD;
    sx_term_exit(code, "MPI_Abort exits with the code given");
    MPI_Abort(cm, code);
    CHECK(0, "MPI_Abort does not return");
  }
  if (c == 2) {
    CHECK(MPI_Finalize() == MPI_SUCCESS, "MPI_Finalize succeeds");
    COVER("finalized");
  }
  COVER("started");
  sx_end();
}

/* Ranks and roots that do not exist in a world of one process: refused, for any value. */
#include "env.h"
static int buf[4], out[4];
static MPI_Comm comm;
static int want; /* 1 must return, 0 must not, 2 either */
static void mayrun(int ok) {
  want = ok;
  if (ok) sx_term_forbidden("a legal rank is accepted");
  else sx_term_allowed("a rank that does not exist is refused");
}
static void ran(void) { CHECK(want, "a rank that does not exist must be refused"); COVER("accepted"); }
int main(void) {
  int c = sx_case(), x = sx_i32("rank"), tag = sx_i32("tag"), one = 1, zero = 0, k;
  MPI_Request q, p;
  MPI_Status s;
  MPI_Init(NULL, NULL);
  comm = MPI_COMM_WORLD;
  if (sx_pick("comm", 0, 1)) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
  sx_assume(tag >= 0);
  if (c < 5) { /* send side */
    mayrun(x == 0 || x == MPI_PROC_NULL);
    if (x == 0) MPI_Irecv(out, 1, MPI_INT, 0, tag, comm, &p);
    switch (c) {
      case 0: MPI_Isend(buf, 1, MPI_INT, x, tag, comm, &q); break;
      case 1: MPI_Send(buf, 1, MPI_INT, x, tag, comm); break;
      case 2: MPI_Ssend(buf, 1, MPI_INT, x, tag, comm); break;
      case 3: MPI_Rsend(buf, 1, MPI_INT, x, tag, comm); break;
      case 4: MPI_Irsend(buf, 1, MPI_INT, x, tag, comm, &q); break;
    }
    ran();
  } else if (c < 10) { /* receive side */
    mayrun(x == 0 || x == MPI_PROC_NULL || x == MPI_ANY_SOURCE);
    MPI_Isend(buf, 1, MPI_INT, 0, tag, comm, &q);
    switch (c) {
      case 5: MPI_Irecv(out, 1, MPI_INT, x, tag, comm, &p); break;
      case 6: MPI_Recv(out, 1, MPI_INT, x, tag, comm, &s); break;
      case 7: MPI_Iprobe(x, tag, comm, &k, &s); CHECK(k == 1, "the probe sees the message (or no process)"); break;
      case 8: MPI_Probe(x, tag, comm, &s); break;
      case 9: MPI_Sendrecv(buf, 1, MPI_INT, MPI_PROC_NULL, tag, out, 1, MPI_INT, x, tag, comm, &s); break;
    }
    ran();
  } else if (c < 16) { /* roots; MPI_ROOT is for intercommunicators and left alone here */
    sx_assume(x != MPI_ROOT);
    mayrun(x == 0);
    switch (c) {
      case 10: MPI_Bcast(buf, 1, MPI_INT, x, comm); break;
      case 11: MPI_Gather(buf, 1, MPI_INT, out, 1, MPI_INT, x, comm); break;
      case 12: MPI_Gatherv(buf, 1, MPI_INT, out, &one, &zero, MPI_INT, x, comm); break;
      case 13: MPI_Scatter(buf, 1, MPI_INT, out, 1, MPI_INT, x, comm); break;
      case 14: MPI_Scatterv(buf, &one, &zero, MPI_INT, out, 1, MPI_INT, x, comm); break;
      case 15: MPI_Reduce(buf, out, 1, MPI_INT, MPI_SUM, x, comm); break;
    }
    ran();
  } else if (c >= 25) { /* the root counts with the in-place marker too */
    sx_assume(x != MPI_ROOT);
    mayrun(x == 0);
    switch (c) {
      case 25: MPI_Gather(MPI_IN_PLACE, 1, MPI_INT, out, 1, MPI_INT, x, comm); break;
      case 26: MPI_Gatherv(MPI_IN_PLACE, 1, MPI_INT, out, &one, &zero, MPI_INT, x, comm); break;
      case 27: MPI_Scatter(buf, 1, MPI_INT, MPI_IN_PLACE, 1, MPI_INT, x, comm); break;
      case 28: MPI_Scatterv(buf, &one, &zero, MPI_INT, MPI_IN_PLACE, 1, MPI_INT, x, comm); break;
      case 29: MPI_Reduce(MPI_IN_PLACE, out, 1, MPI_INT, MPI_SUM, x, comm); break;
    }
    ran();
  } else {
    int dims[3] = {1, 1, 1}, per[3] = {0, 0, 0}, co[3];
    MPI_Comm cart;
    MPI_Group g, h;
    sx_term_forbidden("setting up");
    MPI_Cart_create(comm, 2, dims, per, 0, &cart);
    MPI_Comm_group(comm, &g);
    switch (c) {
      case 16: mayrun(x == 0); MPI_Cart_coords(cart, x, 2, co); break;
      case 17: mayrun(x == 0); MPI_Group_incl(g, 1, &x, &h); break;
      case 18: { int r[1][3] = {{x, x, 1}}; mayrun(x == 0); MPI_Group_range_incl(g, 1, r, &h); break; }
      case 19: mayrun(x == 0); MPI_Group_translate_ranks(g, 1, &x, g, co); break;
      case 20: dims[sx_pick("dimension", 0, 1)] = x; sx_assume(x >= 1); mayrun(x == 1); MPI_Cart_create(comm, 2, dims, per, 0, &cart); break;
      case 21: sx_assume(x >= 1); mayrun(x == 1); dims[0] = dims[1] = 0; MPI_Dims_create(x, 2, dims); break;
      case 22: /* a send whose peer is legal but sits after an illegal receive */
        mayrun(x == 0 || x == MPI_PROC_NULL);
        MPI_Sendrecv(buf, 1, MPI_INT, x, tag, out, 1, MPI_INT, x, tag, comm, &s); break;
      case 23: { int two[2] = {0, 0}; two[1] = x; mayrun(0); sx_assume(x != 0); MPI_Group_incl(g, 2, two, &h); break; }
      case 24: { int two[2] = {0, 0}; two[1] = x; mayrun(x == 0); MPI_Group_translate_ranks(g, 2, two, g, co); break; }
    }
    ran();
  }
  sx_end();
}

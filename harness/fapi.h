/* Generated once by hand-kept table: with -DFAPI every MPI call of a harness goes through
 * the library's Fortran entry point instead: arguments by reference, the Fortran sentinels
 * for MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE, 1-based indices, an error
 * code.  The same assertions then decide the Fortran bindings. */
#ifndef FAPI_H
#define FAPI_H
static int f_ie, f_v[12], f_o[12];
static long f_lv[12], f_lo[12];
static int f_chk(int nv) {
  CHECK(f_ie == MPI_SUCCESS, "the Fortran error code is MPI_SUCCESS");
  for (int i = 0; i < nv; i++) {
    CHECK(f_v[i] == f_o[i], "a Fortran call leaves its input arguments alone");
    CHECK(f_lv[i] == f_lo[i], "a Fortran call leaves its input arguments alone");
  }
  for (int i = 0; i < 8; i++) CHECK(!F_STATUS_IGNORE[i] && !F_STATUSES_IGNORE[i] && !F_IN_PLACE[i], "a Fortran call writes nothing into the markers");
  return MPI_SUCCESS;
}
#define FV(i, x) (f_v[i] = f_o[i] = (x), &f_v[i])
#define FL(i, x) (f_lv[i] = f_lo[i] = (x), &f_lv[i])
#define FB(x) ((void *)(x) == MPI_IN_PLACE ? (void *)F_IN_PLACE : (void *)(x))
#define FS(x) ((x) == MPI_STATUS_IGNORE ? (void *)F_STATUS_IGNORE : (void *)(x))
#define FSS(x) ((x) == MPI_STATUSES_IGNORE ? (void *)F_STATUSES_IGNORE : (void *)(x))

extern int mpi_cart_create_();
#define MPI_Cart_create(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_cart_create_(FV(0, a0), FV(1, a1), (a2), (a3), FV(4, a4), (a5), &f_ie), f_chk(6))
extern int mpi_cart_get_();
#define MPI_Cart_get(a0, a1, a2, a3, a4) (f_ie = 77, mpi_cart_get_(FV(0, a0), FV(1, a1), (a2), (a3), (a4), &f_ie), f_chk(5))
extern int mpi_cart_coords_();
#define MPI_Cart_coords(a0, a1, a2, a3) (f_ie = 77, mpi_cart_coords_(FV(0, a0), FV(1, a1), FV(2, a2), (a3), &f_ie), f_chk(4))
extern int mpi_dims_create_();
#define MPI_Dims_create(a0, a1, a2) (f_ie = 77, mpi_dims_create_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_barrier_();
#define MPI_Barrier(a0) (f_ie = 77, mpi_barrier_(FV(0, a0), &f_ie), f_chk(1))
extern int mpi_bcast_();
#define MPI_Bcast(a0, a1, a2, a3, a4) (f_ie = 77, mpi_bcast_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), &f_ie), f_chk(5))
extern int mpi_gather_();
#define MPI_Gather(a0, a1, a2, a3, a4, a5, a6, a7) (f_ie = 77, mpi_gather_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), FV(4, a4), FV(5, a5), FV(6, a6), FV(7, a7), &f_ie), f_chk(8))
extern int mpi_gatherv_();
#define MPI_Gatherv(a0, a1, a2, a3, a4, a5, a6, a7, a8) (f_ie = 77, mpi_gatherv_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), (a4), (a5), FV(6, a6), FV(7, a7), FV(8, a8), &f_ie), f_chk(9))
extern int mpi_allgather_();
#define MPI_Allgather(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_allgather_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), FV(4, a4), FV(5, a5), FV(6, a6), &f_ie), f_chk(7))
extern int mpi_allgatherv_();
#define MPI_Allgatherv(a0, a1, a2, a3, a4, a5, a6, a7) (f_ie = 77, mpi_allgatherv_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), (a4), (a5), FV(6, a6), FV(7, a7), &f_ie), f_chk(8))
extern int mpi_scatter_();
#define MPI_Scatter(a0, a1, a2, a3, a4, a5, a6, a7) (f_ie = 77, mpi_scatter_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), FV(4, a4), FV(5, a5), FV(6, a6), FV(7, a7), &f_ie), f_chk(8))
extern int mpi_scatterv_();
#define MPI_Scatterv(a0, a1, a2, a3, a4, a5, a6, a7, a8) (f_ie = 77, mpi_scatterv_(FB(a0), (a1), (a2), FV(3, a3), FB(a4), FV(5, a5), FV(6, a6), FV(7, a7), FV(8, a8), &f_ie), f_chk(9))
extern int mpi_reduce_();
#define MPI_Reduce(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_reduce_(FB(a0), FB(a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), FV(6, a6), &f_ie), f_chk(7))
extern int mpi_allreduce_();
#define MPI_Allreduce(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_allreduce_(FB(a0), FB(a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_reduce_scatter_();
#define MPI_Reduce_scatter(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_reduce_scatter_(FB(a0), FB(a1), (a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_scan_();
#define MPI_Scan(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_scan_(FB(a0), FB(a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_alltoall_();
#define MPI_Alltoall(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_alltoall_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), FV(4, a4), FV(5, a5), FV(6, a6), &f_ie), f_chk(7))
extern int mpi_alltoallv_();
#define MPI_Alltoallv(a0, a1, a2, a3, a4, a5, a6, a7, a8) (f_ie = 77, mpi_alltoallv_(FB(a0), (a1), (a2), FV(3, a3), FB(a4), (a5), (a6), FV(7, a7), FV(8, a8), &f_ie), f_chk(9))
extern int mpi_alltoallw_();
#define MPI_Alltoallw(a0, a1, a2, a3, a4, a5, a6, a7, a8) (f_ie = 77, mpi_alltoallw_(FB(a0), (a1), (a2), (a3), FB(a4), (a5), (a6), (a7), FV(8, a8), &f_ie), f_chk(9))
extern int mpi_comm_free_();
#define MPI_Comm_free(a0) (f_ie = 77, mpi_comm_free_((a0), &f_ie), f_chk(1))
extern int mpi_comm_size_();
#define MPI_Comm_size(a0, a1) (f_ie = 77, mpi_comm_size_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_comm_rank_();
#define MPI_Comm_rank(a0, a1) (f_ie = 77, mpi_comm_rank_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_comm_dup_();
#define MPI_Comm_dup(a0, a1) (f_ie = 77, mpi_comm_dup_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_comm_create_();
#define MPI_Comm_create(a0, a1, a2) (f_ie = 77, mpi_comm_create_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_comm_split_();
#define MPI_Comm_split(a0, a1, a2, a3) (f_ie = 77, mpi_comm_split_(FV(0, a0), FV(1, a1), FV(2, a2), (a3), &f_ie), f_chk(4))
extern int mpi_comm_group_();
#define MPI_Comm_group(a0, a1) (f_ie = 77, mpi_comm_group_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_intercomm_create_();
#define MPI_Intercomm_create(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_intercomm_create_(FV(0, a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), (a5), &f_ie), f_chk(6))
extern int mpi_get_count_();
#define MPI_Get_count(a0, a1, a2) (f_ie = 77, mpi_get_count_((a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_get_elements_();
#define MPI_Get_elements(a0, a1, a2) (f_ie = 77, mpi_get_elements_((a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_group_incl_();
#define MPI_Group_incl(a0, a1, a2, a3) (f_ie = 77, mpi_group_incl_(FV(0, a0), FV(1, a1), (a2), (a3), &f_ie), f_chk(4))
extern int mpi_group_range_incl_();
#define MPI_Group_range_incl(a0, a1, a2, a3) (f_ie = 77, mpi_group_range_incl_(FV(0, a0), FV(1, a1), (a2), (a3), &f_ie), f_chk(4))
extern int mpi_group_union_();
#define MPI_Group_union(a0, a1, a2) (f_ie = 77, mpi_group_union_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_group_intersection_();
#define MPI_Group_intersection(a0, a1, a2) (f_ie = 77, mpi_group_intersection_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_group_difference_();
#define MPI_Group_difference(a0, a1, a2) (f_ie = 77, mpi_group_difference_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_group_free_();
#define MPI_Group_free(a0) (f_ie = 77, mpi_group_free_((a0), &f_ie), f_chk(1))
extern int mpi_group_translate_ranks_();
#define MPI_Group_translate_ranks(a0, a1, a2, a3, a4) (f_ie = 77, mpi_group_translate_ranks_(FV(0, a0), FV(1, a1), (a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_info_create_();
#define MPI_Info_create(a0) (f_ie = 77, mpi_info_create_((a0), &f_ie), f_chk(1))
extern int mpi_info_set_();
#define MPI_Info_set(a0, a1, a2) (f_ie = 77, mpi_info_set_(FV(0, a0), (a1), (a2), &f_ie), f_chk(3))
extern int mpi_info_free_();
#define MPI_Info_free(a0) (f_ie = 77, mpi_info_free_((a0), &f_ie), f_chk(1))
extern int mpi_abort_();
#define MPI_Abort(a0, a1) (f_ie = 77, mpi_abort_(FV(0, a0), FV(1, a1), &f_ie), f_chk(2))
extern int mpi_error_string_();
#define MPI_Error_string(a0, a1, a2) (f_ie = 77, mpi_error_string_(FV(0, a0), (a1), (a2), &f_ie), f_chk(3))
extern int mpi_get_processor_name_();
#define MPI_Get_processor_name(a0, a1) (f_ie = 77, mpi_get_processor_name_((a0), (a1), &f_ie), f_chk(2))
extern int mpi_initialized_();
#define MPI_Initialized(a0) (f_ie = 77, mpi_initialized_((a0), &f_ie), f_chk(1))
extern int mpi_get_library_version_();
#define MPI_Get_library_version(a0, a1) (f_ie = 77, mpi_get_library_version_((a0), (a1), &f_ie), f_chk(2))
extern int mpi_finalize_();
#define MPI_Finalize() (f_ie = 77, mpi_finalize_(&f_ie), f_chk(0))
extern int mpi_op_create_();
#define MPI_Op_create(a0, a1, a2) (f_ie = 77, mpi_op_create_((a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_op_free_();
#define MPI_Op_free(a0) (f_ie = 77, mpi_op_free_((a0), &f_ie), f_chk(1))
extern int mpi_pack_();
#define MPI_Pack(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_pack_(FB(a0), FV(1, a1), FV(2, a2), FB(a3), FV(4, a4), (a5), FV(6, a6), &f_ie), f_chk(7))
extern int mpi_unpack_();
#define MPI_Unpack(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_unpack_(FB(a0), FV(1, a1), (a2), FB(a3), FV(4, a4), FV(5, a5), FV(6, a6), &f_ie), f_chk(7))
extern int mpi_iprobe_();
#define MPI_Iprobe(a0, a1, a2, a3, a4) (f_ie = 77, mpi_iprobe_(FV(0, a0), FV(1, a1), FV(2, a2), (a3), FS(a4), &f_ie), f_chk(5))
extern int mpi_probe_();
#define MPI_Probe(a0, a1, a2, a3) (f_ie = 77, mpi_probe_(FV(0, a0), FV(1, a1), FV(2, a2), FS(a3), &f_ie), f_chk(4))
extern int mpi_irecv_();
#define MPI_Irecv(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_irecv_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), (a6), &f_ie), f_chk(7))
extern int mpi_recv_();
#define MPI_Recv(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_recv_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), FS(a6), &f_ie), f_chk(7))
extern int mpi_test_();
#define MPI_Test(a0, a1, a2) (f_ie = 77, mpi_test_((a0), (a1), FS(a2), &f_ie), f_chk(3))
extern int mpi_wait_();
#define MPI_Wait(a0, a1) (f_ie = 77, mpi_wait_((a0), FS(a1), &f_ie), f_chk(2))
extern int mpi_testall_();
#define MPI_Testall(a0, a1, a2, a3) (f_ie = 77, mpi_testall_(FV(0, a0), (a1), (a2), FSS(a3), &f_ie), f_chk(4))
extern int mpi_waitall_();
#define MPI_Waitall(a0, a1, a2) (f_ie = 77, mpi_waitall_(FV(0, a0), (a1), FSS(a2), &f_ie), f_chk(3))
extern int mpi_request_free_();
#define MPI_Request_free(a0) (f_ie = 77, mpi_request_free_((a0), &f_ie), f_chk(1))
extern int mpi_isend_();
#define MPI_Isend(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_isend_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), (a6), &f_ie), f_chk(7))
extern int mpi_send_();
#define MPI_Send(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_send_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_ssend_();
#define MPI_Ssend(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_ssend_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_rsend_();
#define MPI_Rsend(a0, a1, a2, a3, a4, a5) (f_ie = 77, mpi_rsend_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), &f_ie), f_chk(6))
extern int mpi_irsend_();
#define MPI_Irsend(a0, a1, a2, a3, a4, a5, a6) (f_ie = 77, mpi_irsend_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FV(5, a5), (a6), &f_ie), f_chk(7))
extern int mpi_sendrecv_();
#define MPI_Sendrecv(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) (f_ie = 77, mpi_sendrecv_(FB(a0), FV(1, a1), FV(2, a2), FV(3, a3), FV(4, a4), FB(a5), FV(6, a6), FV(7, a7), FV(8, a8), FV(9, a9), FV(10, a10), FS(a11), &f_ie), f_chk(12))
extern int mpi_type_extent_();
#define MPI_Type_extent(a0, a1) (f_ie = 77, mpi_type_extent_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_type_struct_();
#define MPI_Type_struct(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_struct_(FV(0, a0), (a1), (a2), (a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_contiguous_();
#define MPI_Type_contiguous(a0, a1, a2) (f_ie = 77, mpi_type_contiguous_(FV(0, a0), FV(1, a1), (a2), &f_ie), f_chk(3))
extern int mpi_type_hvector_();
#define MPI_Type_hvector(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_hvector_(FV(0, a0), FV(1, a1), FL(2, a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_create_hvector_();
#define MPI_Type_create_hvector(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_create_hvector_(FV(0, a0), FV(1, a1), FL(2, a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_vector_();
#define MPI_Type_vector(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_vector_(FV(0, a0), FV(1, a1), FV(2, a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_hindexed_();
#define MPI_Type_hindexed(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_hindexed_(FV(0, a0), (a1), (a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_indexed_();
#define MPI_Type_indexed(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_indexed_(FV(0, a0), (a1), (a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_create_indexed_block_();
#define MPI_Type_create_indexed_block(a0, a1, a2, a3, a4) (f_ie = 77, mpi_type_create_indexed_block_(FV(0, a0), FV(1, a1), (a2), FV(3, a3), (a4), &f_ie), f_chk(5))
extern int mpi_type_dup_();
#define MPI_Type_dup(a0, a1) (f_ie = 77, mpi_type_dup_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_type_size_();
#define MPI_Type_size(a0, a1) (f_ie = 77, mpi_type_size_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_type_lb_();
#define MPI_Type_lb(a0, a1) (f_ie = 77, mpi_type_lb_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_type_ub_();
#define MPI_Type_ub(a0, a1) (f_ie = 77, mpi_type_ub_(FV(0, a0), (a1), &f_ie), f_chk(2))
extern int mpi_type_commit_();
#define MPI_Type_commit(a0) (f_ie = 77, mpi_type_commit_((a0), &f_ie), f_chk(1))
extern int mpi_type_free_();
#define MPI_Type_free(a0) (f_ie = 77, mpi_type_free_((a0), &f_ie), f_chk(1))

/* what differs from C in more than the calling convention */
extern int mpi_pack_size_(), mpi_testany_(), mpi_waitany_(), mpi_testsome_(), mpi_waitsome_(), mpi_get_version_();
extern int mpi_get_address_(), mpi_address_();
extern double mpi_wtime_(void);
#define MPI_Wtime() mpi_wtime_()
static int f_pack_size(int n, MPI_Datatype t, MPI_Comm c, long *size) {
  int s[2] = {-1, 0x77};
  f_ie = 77;
  mpi_pack_size_(FV(0, n), FV(1, t), FV(2, c), s, &f_ie);
  CHECK(s[1] == 0x77, "the Fortran MPI_PACK_SIZE writes one INTEGER");
  *size = s[0];
  return f_chk(3);
}
#define MPI_Pack_size f_pack_size
static int f_any(int n, MPI_Request *r, int *x, int *flag, MPI_Status *s) {
  f_ie = 77;
  if (flag) mpi_testany_(FV(0, n), r, x, flag, FS(s), &f_ie);
  else mpi_waitany_(FV(0, n), r, x, FS(s), &f_ie);
  if (*x != MPI_UNDEFINED) {
    CHECK(*x >= 1 && *x <= n, "Fortran indices are 1..n");
    --*x;
  }
  return f_chk(1);
}
#define MPI_Testany f_any
#define MPI_Waitany(n, r, x, s) f_any(n, r, x, NULL, s)
static int f_some(int wait, int n, MPI_Request *r, int *k, int *x, MPI_Status *s) {
  f_ie = 77;
  (wait ? mpi_waitsome_ : mpi_testsome_)(FV(0, n), r, k, x, FSS(s), &f_ie);
  if (*k != MPI_UNDEFINED)
    for (int i = 0; i < *k; i++) {
      CHECK(x[i] >= 1 && x[i] <= n, "Fortran indices are 1..n");
      x[i]--;
    }
  return f_chk(1);
}
#define MPI_Testsome(n, r, k, x, s) f_some(0, n, r, k, x, s)
#define MPI_Waitsome(n, r, k, x, s) f_some(1, n, r, k, x, s)
/* MPI_INIT: fort.F90 passes mpif.h's constants and pairs of consecutive variables. */
extern int mpi_init_fort_();
static int f_init(void) {
  static int ints[2], logs[2], status[MPI_STATUS_SIZE];
  static char reals[2 * HREAL], dubs[2 * HDOUBLE], comps[2 * (2 * HREAL)];
  static int k[] = {MPI_COMM_WORLD, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_PROC_NULL, MPI_ROOT, MPI_COMM_NULL, MPI_REQUEST_NULL,
    MPI_GROUP_NULL, MPI_GROUP_EMPTY, MPI_UNDEFINED, MPI_MAX_ERROR_STRING, MPI_MAX_PROCESSOR_NAME, MPI_STATUS_SIZE, 1, 2, 3,
    MPI_INTEGER, MPI_LOGICAL, MPI_REAL, MPI_DOUBLE_PRECISION, MPI_COMPLEX};
  f_ie = 77;
  mpi_init_fort_(k, k + 1, k + 2, k + 3, k + 4, k + 5, k + 6, k + 7, k + 8, k + 9, k + 10, k + 11, k + 12, k + 13, k + 14, k + 15,
    status, status, status + 1, status + 2, k + 16, ints, ints + 1, k + 17, logs, logs + 1, k + 18, reals, reals + HREAL,
    k + 19, dubs, dubs + HDOUBLE, k + 20, comps, comps + (2 * HREAL), &f_ie);
  return f_chk(0);
}
#define MPI_Init(a, b) f_init()
#endif

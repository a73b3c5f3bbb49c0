/* Every Fortran entry point is there under its name, and no two are the same. */
#include "env.h"
extern int mpi_abort_();
extern int mpi_address_();
extern int mpi_allgather_();
extern int mpi_allgatherv_();
extern int mpi_allreduce_();
extern int mpi_alltoall_();
extern int mpi_alltoallv_();
extern int mpi_alltoallw_();
extern int mpi_barrier_();
extern int mpi_bcast_();
extern int mpi_cart_coords_();
extern int mpi_cart_create_();
extern int mpi_cart_get_();
extern int mpi_comm_create_();
extern int mpi_comm_dup_();
extern int mpi_comm_free_();
extern int mpi_comm_group_();
extern int mpi_comm_rank_();
extern int mpi_comm_size_();
extern int mpi_comm_split_();
extern int mpi_dims_create_();
extern int mpi_error_string_();
extern int mpi_finalize_();
extern int mpi_gather_();
extern int mpi_gatherv_();
extern int mpi_get_address_();
extern int mpi_get_count_();
extern int mpi_get_elements_();
extern int mpi_get_library_version_();
extern int mpi_get_processor_name_();
extern int mpi_get_version_();
extern int mpi_group_difference_();
extern int mpi_group_free_();
extern int mpi_group_incl_();
extern int mpi_group_intersection_();
extern int mpi_group_range_incl_();
extern int mpi_group_translate_ranks_();
extern int mpi_group_union_();
extern int mpi_info_create_();
extern int mpi_info_free_();
extern int mpi_info_set_();
extern int mpi_init_fort_();
extern int mpi_initialized_();
extern int mpi_intercomm_create_();
extern int mpi_iprobe_();
extern int mpi_irecv_();
extern int mpi_irsend_();
extern int mpi_isend_();
extern int mpi_op_create_();
extern int mpi_op_free_();
extern int mpi_pack_();
extern int mpi_pack_size_();
extern int mpi_probe_();
extern int mpi_recv_();
extern int mpi_reduce_();
extern int mpi_reduce_scatter_();
extern int mpi_request_free_();
extern int mpi_rsend_();
extern int mpi_scan_();
extern int mpi_scatter_();
extern int mpi_scatterv_();
extern int mpi_send_();
extern int mpi_sendrecv_();
extern int mpi_ssend_();
extern int mpi_test_();
extern int mpi_testall_();
extern int mpi_testany_();
extern int mpi_testsome_();
extern int mpi_type_commit_();
extern int mpi_type_contiguous_();
extern int mpi_type_create_hvector_();
extern int mpi_type_create_indexed_block_();
extern int mpi_type_dup_();
extern int mpi_type_extent_();
extern int mpi_type_free_();
extern int mpi_type_hindexed_();
extern int mpi_type_hvector_();
extern int mpi_type_indexed_();
extern int mpi_type_lb_();
extern int mpi_type_size_();
extern int mpi_type_struct_();
extern int mpi_type_ub_();
extern int mpi_type_vector_();
extern int mpi_unpack_();
extern int mpi_wait_();
extern int mpi_waitall_();
extern int mpi_waitany_();
extern int mpi_waitsome_();
extern int mpi_wtime_();
static void *e[] = {(void *)mpi_abort_, (void *)mpi_address_, (void *)mpi_allgather_, (void *)mpi_allgatherv_, (void *)mpi_allreduce_, (void *)mpi_alltoall_, (void *)mpi_alltoallv_, (void *)mpi_alltoallw_, (void *)mpi_barrier_, (void *)mpi_bcast_, (void *)mpi_cart_coords_, (void *)mpi_cart_create_, (void *)mpi_cart_get_, (void *)mpi_comm_create_, (void *)mpi_comm_dup_, (void *)mpi_comm_free_, (void *)mpi_comm_group_, (void *)mpi_comm_rank_, (void *)mpi_comm_size_, (void *)mpi_comm_split_, (void *)mpi_dims_create_, (void *)mpi_error_string_, (void *)mpi_finalize_, (void *)mpi_gather_, (void *)mpi_gatherv_, (void *)mpi_get_address_, (void *)mpi_get_count_, (void *)mpi_get_elements_, (void *)mpi_get_library_version_, (void *)mpi_get_processor_name_, (void *)mpi_get_version_, (void *)mpi_group_difference_, (void *)mpi_group_free_, (void *)mpi_group_incl_, (void *)mpi_group_intersection_, (void *)mpi_group_range_incl_, (void *)mpi_group_translate_ranks_, (void *)mpi_group_union_, (void *)mpi_info_create_, (void *)mpi_info_free_, (void *)mpi_info_set_, (void *)mpi_init_fort_, (void *)mpi_initialized_, (void *)mpi_intercomm_create_, (void *)mpi_iprobe_, (void *)mpi_irecv_, (void *)mpi_irsend_, (void *)mpi_isend_, (void *)mpi_op_create_, (void *)mpi_op_free_, (void *)mpi_pack_, (void *)mpi_pack_size_, (void *)mpi_probe_, (void *)mpi_recv_, (void *)mpi_reduce_, (void *)mpi_reduce_scatter_, (void *)mpi_request_free_, (void *)mpi_rsend_, (void *)mpi_scan_, (void *)mpi_scatter_, (void *)mpi_scatterv_, (void *)mpi_send_, (void *)mpi_sendrecv_, (void *)mpi_ssend_, (void *)mpi_test_, (void *)mpi_testall_, (void *)mpi_testany_, (void *)mpi_testsome_, (void *)mpi_type_commit_, (void *)mpi_type_contiguous_, (void *)mpi_type_create_hvector_, (void *)mpi_type_create_indexed_block_, (void *)mpi_type_dup_, (void *)mpi_type_extent_, (void *)mpi_type_free_, (void *)mpi_type_hindexed_, (void *)mpi_type_hvector_, (void *)mpi_type_indexed_, (void *)mpi_type_lb_, (void *)mpi_type_size_, (void *)mpi_type_struct_, (void *)mpi_type_ub_, (void *)mpi_type_vector_, (void *)mpi_unpack_, (void *)mpi_wait_, (void *)mpi_waitall_, (void *)mpi_waitany_, (void *)mpi_waitsome_, (void *)mpi_wtime_};
int main(void) {
  int i = sx_pick("one", 0, sizeof e / sizeof *e - 1), j = sx_pick("other", 0, sizeof e / sizeof *e - 1);
  CHECK(e[i] != 0, "the entry point is there");
  if (i != j) { CHECK(e[i] != e[j], "two entry points are two"); sx_cover("named"); }
  sx_end();
  return 0;
}

/* The Fortran entry points as the other manglings of mpiP.h name them.  Hand-kept table: the
 * upper-case name is written from the MPI name, not from the library. */
#if defined(FORTRAN_CAPS_)
#define mpi_abort_ MPI_ABORT
#define mpi_address_ MPI_ADDRESS
#define mpi_allgather_ MPI_ALLGATHER
#define mpi_allgatherv_ MPI_ALLGATHERV
#define mpi_allreduce_ MPI_ALLREDUCE
#define mpi_alltoall_ MPI_ALLTOALL
#define mpi_alltoallv_ MPI_ALLTOALLV
#define mpi_alltoallw_ MPI_ALLTOALLW
#define mpi_barrier_ MPI_BARRIER
#define mpi_bcast_ MPI_BCAST
#define mpi_cart_coords_ MPI_CART_COORDS
#define mpi_cart_create_ MPI_CART_CREATE
#define mpi_cart_get_ MPI_CART_GET
#define mpi_comm_create_ MPI_COMM_CREATE
#define mpi_comm_dup_ MPI_COMM_DUP
#define mpi_comm_free_ MPI_COMM_FREE
#define mpi_comm_group_ MPI_COMM_GROUP
#define mpi_comm_rank_ MPI_COMM_RANK
#define mpi_comm_size_ MPI_COMM_SIZE
#define mpi_comm_split_ MPI_COMM_SPLIT
#define mpi_dims_create_ MPI_DIMS_CREATE
#define mpi_error_string_ MPI_ERROR_STRING
#define mpi_finalize_ MPI_FINALIZE
#define mpi_gather_ MPI_GATHER
#define mpi_gatherv_ MPI_GATHERV
#define mpi_get_address_ MPI_GET_ADDRESS
#define mpi_get_count_ MPI_GET_COUNT
#define mpi_get_elements_ MPI_GET_ELEMENTS
#define mpi_get_fort_pointers_ MPI_GET_FORT_POINTERS
#define mpi_get_library_version_ MPI_GET_LIBRARY_VERSION
#define mpi_get_processor_name_ MPI_GET_PROCESSOR_NAME
#define mpi_get_version_ MPI_GET_VERSION
#define mpi_group_difference_ MPI_GROUP_DIFFERENCE
#define mpi_group_free_ MPI_GROUP_FREE
#define mpi_group_incl_ MPI_GROUP_INCL
#define mpi_group_intersection_ MPI_GROUP_INTERSECTION
#define mpi_group_range_incl_ MPI_GROUP_RANGE_INCL
#define mpi_group_translate_ranks_ MPI_GROUP_TRANSLATE_RANKS
#define mpi_group_union_ MPI_GROUP_UNION
#define mpi_info_create_ MPI_INFO_CREATE
#define mpi_info_free_ MPI_INFO_FREE
#define mpi_info_set_ MPI_INFO_SET
#define mpi_init_fort_ MPI_INIT_FORT
#define mpi_initialized_ MPI_INITIALIZED
#define mpi_intercomm_create_ MPI_INTERCOMM_CREATE
#define mpi_iprobe_ MPI_IPROBE
#define mpi_irecv_ MPI_IRECV
#define mpi_irsend_ MPI_IRSEND
#define mpi_isend_ MPI_ISEND
#define mpi_op_create_ MPI_OP_CREATE
#define mpi_op_free_ MPI_OP_FREE
#define mpi_pack_ MPI_PACK
#define mpi_pack_size_ MPI_PACK_SIZE
#define mpi_probe_ MPI_PROBE
#define mpi_recv_ MPI_RECV
#define mpi_reduce_ MPI_REDUCE
#define mpi_reduce_scatter_ MPI_REDUCE_SCATTER
#define mpi_request_free_ MPI_REQUEST_FREE
#define mpi_rsend_ MPI_RSEND
#define mpi_save_fort_pointers_ MPI_SAVE_FORT_POINTERS
#define mpi_scan_ MPI_SCAN
#define mpi_scatter_ MPI_SCATTER
#define mpi_scatterv_ MPI_SCATTERV
#define mpi_send_ MPI_SEND
#define mpi_sendrecv_ MPI_SENDRECV
#define mpi_ssend_ MPI_SSEND
#define mpi_test_ MPI_TEST
#define mpi_testall_ MPI_TESTALL
#define mpi_testany_ MPI_TESTANY
#define mpi_testsome_ MPI_TESTSOME
#define mpi_type_commit_ MPI_TYPE_COMMIT
#define mpi_type_contiguous_ MPI_TYPE_CONTIGUOUS
#define mpi_type_create_hvector_ MPI_TYPE_CREATE_HVECTOR
#define mpi_type_create_indexed_block_ MPI_TYPE_CREATE_INDEXED_BLOCK
#define mpi_type_dup_ MPI_TYPE_DUP
#define mpi_type_extent_ MPI_TYPE_EXTENT
#define mpi_type_free_ MPI_TYPE_FREE
#define mpi_type_hindexed_ MPI_TYPE_HINDEXED
#define mpi_type_hvector_ MPI_TYPE_HVECTOR
#define mpi_type_indexed_ MPI_TYPE_INDEXED
#define mpi_type_lb_ MPI_TYPE_LB
#define mpi_type_size_ MPI_TYPE_SIZE
#define mpi_type_struct_ MPI_TYPE_STRUCT
#define mpi_type_ub_ MPI_TYPE_UB
#define mpi_type_vector_ MPI_TYPE_VECTOR
#define mpi_unpack_ MPI_UNPACK
#define mpi_wait_ MPI_WAIT
#define mpi_waitall_ MPI_WAITALL
#define mpi_waitany_ MPI_WAITANY
#define mpi_waitsome_ MPI_WAITSOME
#define mpi_wtime_ MPI_WTIME
#elif defined(FORTRAN_GNUF2C)
#define mpi_abort_ mpi_abort__
#define mpi_address_ mpi_address__
#define mpi_allgather_ mpi_allgather__
#define mpi_allgatherv_ mpi_allgatherv__
#define mpi_allreduce_ mpi_allreduce__
#define mpi_alltoall_ mpi_alltoall__
#define mpi_alltoallv_ mpi_alltoallv__
#define mpi_alltoallw_ mpi_alltoallw__
#define mpi_barrier_ mpi_barrier__
#define mpi_bcast_ mpi_bcast__
#define mpi_cart_coords_ mpi_cart_coords__
#define mpi_cart_create_ mpi_cart_create__
#define mpi_cart_get_ mpi_cart_get__
#define mpi_comm_create_ mpi_comm_create__
#define mpi_comm_dup_ mpi_comm_dup__
#define mpi_comm_free_ mpi_comm_free__
#define mpi_comm_group_ mpi_comm_group__
#define mpi_comm_rank_ mpi_comm_rank__
#define mpi_comm_size_ mpi_comm_size__
#define mpi_comm_split_ mpi_comm_split__
#define mpi_dims_create_ mpi_dims_create__
#define mpi_error_string_ mpi_error_string__
#define mpi_finalize_ mpi_finalize__
#define mpi_gather_ mpi_gather__
#define mpi_gatherv_ mpi_gatherv__
#define mpi_get_address_ mpi_get_address__
#define mpi_get_count_ mpi_get_count__
#define mpi_get_elements_ mpi_get_elements__
#define mpi_get_fort_pointers_ mpi_get_fort_pointers__
#define mpi_get_library_version_ mpi_get_library_version__
#define mpi_get_processor_name_ mpi_get_processor_name__
#define mpi_get_version_ mpi_get_version__
#define mpi_group_difference_ mpi_group_difference__
#define mpi_group_free_ mpi_group_free__
#define mpi_group_incl_ mpi_group_incl__
#define mpi_group_intersection_ mpi_group_intersection__
#define mpi_group_range_incl_ mpi_group_range_incl__
#define mpi_group_translate_ranks_ mpi_group_translate_ranks__
#define mpi_group_union_ mpi_group_union__
#define mpi_info_create_ mpi_info_create__
#define mpi_info_free_ mpi_info_free__
#define mpi_info_set_ mpi_info_set__
#define mpi_init_fort_ mpi_init_fort__
#define mpi_initialized_ mpi_initialized__
#define mpi_intercomm_create_ mpi_intercomm_create__
#define mpi_iprobe_ mpi_iprobe__
#define mpi_irecv_ mpi_irecv__
#define mpi_irsend_ mpi_irsend__
#define mpi_isend_ mpi_isend__
#define mpi_op_create_ mpi_op_create__
#define mpi_op_free_ mpi_op_free__
#define mpi_pack_ mpi_pack__
#define mpi_pack_size_ mpi_pack_size__
#define mpi_probe_ mpi_probe__
#define mpi_recv_ mpi_recv__
#define mpi_reduce_ mpi_reduce__
#define mpi_reduce_scatter_ mpi_reduce_scatter__
#define mpi_request_free_ mpi_request_free__
#define mpi_rsend_ mpi_rsend__
#define mpi_save_fort_pointers_ mpi_save_fort_pointers__
#define mpi_scan_ mpi_scan__
#define mpi_scatter_ mpi_scatter__
#define mpi_scatterv_ mpi_scatterv__
#define mpi_send_ mpi_send__
#define mpi_sendrecv_ mpi_sendrecv__
#define mpi_ssend_ mpi_ssend__
#define mpi_test_ mpi_test__
#define mpi_testall_ mpi_testall__
#define mpi_testany_ mpi_testany__
#define mpi_testsome_ mpi_testsome__
#define mpi_type_commit_ mpi_type_commit__
#define mpi_type_contiguous_ mpi_type_contiguous__
#define mpi_type_create_hvector_ mpi_type_create_hvector__
#define mpi_type_create_indexed_block_ mpi_type_create_indexed_block__
#define mpi_type_dup_ mpi_type_dup__
#define mpi_type_extent_ mpi_type_extent__
#define mpi_type_free_ mpi_type_free__
#define mpi_type_hindexed_ mpi_type_hindexed__
#define mpi_type_hvector_ mpi_type_hvector__
#define mpi_type_indexed_ mpi_type_indexed__
#define mpi_type_lb_ mpi_type_lb__
#define mpi_type_size_ mpi_type_size__
#define mpi_type_struct_ mpi_type_struct__
#define mpi_type_ub_ mpi_type_ub__
#define mpi_type_vector_ mpi_type_vector__
#define mpi_unpack_ mpi_unpack__
#define mpi_wait_ mpi_wait__
#define mpi_waitall_ mpi_waitall__
#define mpi_waitany_ mpi_waitany__
#define mpi_waitsome_ mpi_waitsome__
#define mpi_wtime_ mpi_wtime__
#elif defined(FORTRAN_SAME)
#define mpi_abort_ mpi_abort
#define mpi_address_ mpi_address
#define mpi_allgather_ mpi_allgather
#define mpi_allgatherv_ mpi_allgatherv
#define mpi_allreduce_ mpi_allreduce
#define mpi_alltoall_ mpi_alltoall
#define mpi_alltoallv_ mpi_alltoallv
#define mpi_alltoallw_ mpi_alltoallw
#define mpi_barrier_ mpi_barrier
#define mpi_bcast_ mpi_bcast
#define mpi_cart_coords_ mpi_cart_coords
#define mpi_cart_create_ mpi_cart_create
#define mpi_cart_get_ mpi_cart_get
#define mpi_comm_create_ mpi_comm_create
#define mpi_comm_dup_ mpi_comm_dup
#define mpi_comm_free_ mpi_comm_free
#define mpi_comm_group_ mpi_comm_group
#define mpi_comm_rank_ mpi_comm_rank
#define mpi_comm_size_ mpi_comm_size
#define mpi_comm_split_ mpi_comm_split
#define mpi_dims_create_ mpi_dims_create
#define mpi_error_string_ mpi_error_string
#define mpi_finalize_ mpi_finalize
#define mpi_gather_ mpi_gather
#define mpi_gatherv_ mpi_gatherv
#define mpi_get_address_ mpi_get_address
#define mpi_get_count_ mpi_get_count
#define mpi_get_elements_ mpi_get_elements
#define mpi_get_fort_pointers_ mpi_get_fort_pointers
#define mpi_get_library_version_ mpi_get_library_version
#define mpi_get_processor_name_ mpi_get_processor_name
#define mpi_get_version_ mpi_get_version
#define mpi_group_difference_ mpi_group_difference
#define mpi_group_free_ mpi_group_free
#define mpi_group_incl_ mpi_group_incl
#define mpi_group_intersection_ mpi_group_intersection
#define mpi_group_range_incl_ mpi_group_range_incl
#define mpi_group_translate_ranks_ mpi_group_translate_ranks
#define mpi_group_union_ mpi_group_union
#define mpi_info_create_ mpi_info_create
#define mpi_info_free_ mpi_info_free
#define mpi_info_set_ mpi_info_set
#define mpi_init_fort_ mpi_init_fort
#define mpi_initialized_ mpi_initialized
#define mpi_intercomm_create_ mpi_intercomm_create
#define mpi_iprobe_ mpi_iprobe
#define mpi_irecv_ mpi_irecv
#define mpi_irsend_ mpi_irsend
#define mpi_isend_ mpi_isend
#define mpi_op_create_ mpi_op_create
#define mpi_op_free_ mpi_op_free
#define mpi_pack_ mpi_pack
#define mpi_pack_size_ mpi_pack_size
#define mpi_probe_ mpi_probe
#define mpi_recv_ mpi_recv
#define mpi_reduce_ mpi_reduce
#define mpi_reduce_scatter_ mpi_reduce_scatter
#define mpi_request_free_ mpi_request_free
#define mpi_rsend_ mpi_rsend
#define mpi_save_fort_pointers_ mpi_save_fort_pointers
#define mpi_scan_ mpi_scan
#define mpi_scatter_ mpi_scatter
#define mpi_scatterv_ mpi_scatterv
#define mpi_send_ mpi_send
#define mpi_sendrecv_ mpi_sendrecv
#define mpi_ssend_ mpi_ssend
#define mpi_test_ mpi_test
#define mpi_testall_ mpi_testall
#define mpi_testany_ mpi_testany
#define mpi_testsome_ mpi_testsome
#define mpi_type_commit_ mpi_type_commit
#define mpi_type_contiguous_ mpi_type_contiguous
#define mpi_type_create_hvector_ mpi_type_create_hvector
#define mpi_type_create_indexed_block_ mpi_type_create_indexed_block
#define mpi_type_dup_ mpi_type_dup
#define mpi_type_extent_ mpi_type_extent
#define mpi_type_free_ mpi_type_free
#define mpi_type_hindexed_ mpi_type_hindexed
#define mpi_type_hvector_ mpi_type_hvector
#define mpi_type_indexed_ mpi_type_indexed
#define mpi_type_lb_ mpi_type_lb
#define mpi_type_size_ mpi_type_size
#define mpi_type_struct_ mpi_type_struct
#define mpi_type_ub_ mpi_type_ub
#define mpi_type_vector_ mpi_type_vector
#define mpi_unpack_ mpi_unpack
#define mpi_wait_ mpi_wait
#define mpi_waitall_ mpi_waitall
#define mpi_waitany_ mpi_waitany
#define mpi_waitsome_ mpi_waitsome
#define mpi_wtime_ mpi_wtime
#endif

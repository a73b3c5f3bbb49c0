From 975b230b93cdc3df0a678a0ac13bec29ba29df56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:38 +0000
Subject: [PATCH 01/26] fix: make MPI_Aint a signed type so that MPI_UB and
 negative MPI_LB displacements take effect

---
 mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
-- 
2.43.0


From 6a990c5bb15c53f60fdf0c816e10b2de000e9c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:46 +0000
Subject: [PATCH 02/26] fix: initialise the override flags of a type built
 without MPI_LB/MPI_UB

---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..536f7a1 100644
--- a/type.c
+++ b/type.c
@@ -369,6 +369,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   else
   {
     //use calculation
+    temp->o_lb = 0;
     temp->lb = calc_lb(temp);
   }
 
@@ -379,6 +380,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   }
   else
   {
+    temp->o_ub = 0;
     temp->ub = calc_ub(temp);
   }
 
-- 
2.43.0


From 1ef9a57edda8b0a79743a8f4aa2e815a78dbcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:54 +0000
Subject: [PATCH 03/26] fix: bounds of derived types with an empty typemap or
 with displacements beyond the int range

---
 type.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/type.c b/type.c
index 536f7a1..3dec364 100644
--- a/type.c
+++ b/type.c
@@ -45,7 +45,7 @@ Datatype* mpi_handle_to_datatype(int handle)
 
 int calc_padding(Datatype datatype)
 {
-  long size_max = INT_MIN;
+  long size_max = 1;  //an empty typemap needs no padding
   long type_len;
   int i;
   //find the largest datatype size.  The epsilon padding is (probably) based on this.
@@ -147,9 +147,12 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
+  if (type->count == 0)   //an empty typemap begins and ends at 0
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -168,9 +171,12 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
+  if (type->count == 0)   //an empty typemap begins and ends at 0
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
@@ -277,14 +283,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_LOWER)
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (temp2->count > 0 && temp2->pairs[0].type == SIMPLE_UPPER)
     {
       //same as above, but ub
       if (new_ub < displacements[i])
@@ -297,11 +303,11 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       //However it may still have overriding bounds
       //Test for these and add its size to the typemap.
 
-      if (temp2->o_lb)
+      if (temp2->o_lb && blocklens[i] > 0)
         // this type's lb has been overridden.
         // ONLY an overriding lb can be the actual lb now.
         override_lower = 1;
-      if (temp2->o_ub)
+      if (temp2->o_ub && blocklens[i] > 0)
         //same as above, but ub
         override_upper = 1;
 
@@ -324,8 +330,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(temp2->count > 0 &&
+          ((temp2->pairs[0].type == SIMPLE_LOWER) ||
+           (temp2->pairs[0].type == SIMPLE_UPPER))))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
-- 
2.43.0


From aac7c0bbd797f24f5248bf5a0110d82eb738a327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 04/26] fix: Simpletype_length knows MPI_INTEGER16 and the
 zero-sized MPI_LB and MPI_UB

---
 type.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/type.c b/type.c
index 3dec364..97fb90f 100644
--- a/type.c
+++ b/type.c
@@ -115,6 +115,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
@@ -133,6 +135,9 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_LOWER:
+    case SIMPLE_UPPER:
+      return 0; break;
 
     default:
       printf("Invalid simple type\n");
-- 
2.43.0


From 15e74adf04920fc634948cc206660943f0003149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:08 +0000
Subject: [PATCH 05/26] fix: give MPI_SIGNED_CHAR and MPI_WCHAR entries in the
 table of predefined types

---
 type.c       |  4 ++++
 type.h       |  3 +++
 type_const.c | 10 +++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 97fb90f..7d0c698 100644
--- a/type.c
+++ b/type.c
@@ -135,6 +135,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
     case SIMPLE_LOWER:
     case SIMPLE_UPPER:
       return 0; break;
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..e025f5b 100644
--- a/type_const.c
+++ b/type_const.c
@@ -161,6 +161,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
+Typestruct TSschar = {.count = 1,   .lb = 0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar = {.count = 1,   .lb = 0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
@@ -180,7 +188,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar                       //44
                        };
 
 
-- 
2.43.0


From f4b61913cb87eb02b628bc88cc8a6da2640c45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:36 +0000
Subject: [PATCH 06/26] fix: define the documented MPI_Type_dup and have
 Type_dup allocate and copy the whole type

---
 type.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 7d0c698..87ae349 100644
--- a/type.c
+++ b/type.c
@@ -687,7 +687,8 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) + oldtype->count * sizeof(typepair));
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -702,6 +703,23 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )
+         (int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype *newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+
+  return Type_dup(old_ptr, new_ptr);
+}
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From 5d8ea33fe5baf5866f68f9dce80d5f5a9fe3cd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 07/26] fix: MPI_Type_free sets the handle to MPI_DATATYPE_NULL

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 87ae349..725904f 100644
--- a/type.c
+++ b/type.c
@@ -851,9 +851,9 @@ int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
   free(type_ptr);
-  type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From 0bd979456dc8efc3df5269841b4f897ddae3b0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 08/26] fix: MPI_Type_ub includes the padding that
 MPI_Type_extent includes

---
 type.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 725904f..85068fa 100644
--- a/type.c
+++ b/type.c
@@ -773,7 +773,11 @@ int MPI_Type_lb(MPI_Datatype type, MPI_Aint * lb)
  */
 int Type_ub(Datatype type, MPI_Aint * ub)
 {
-    *ub = type->ub;
+  MPI_Aint extent;
+
+  //includes the padding, so that extent = ub - lb
+  Type_extent(type, &extent);
+  *ub = type->lb + extent;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 0b23a3f927689082539772773f1db0e601db3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:58 +0000
Subject: [PATCH 09/26] fix: Fortran mpi_type_hvector and
 mpi_type_create_hvector take an INTEGER blocklength

---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 85068fa..6df7379 100644
--- a/type.c
+++ b/type.c
@@ -502,7 +502,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -520,7 +520,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, long * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From c9f673a328919778b9c0e3fb7bab8d224ce9c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 10/26] fix: MPI_Intercomm_merge returns a communicator

---
 ic_merge.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..4d927dc 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -4,12 +4,16 @@
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
  * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * applications. In the case of a serial program, the new intracommunicator
+ * contains the one process.
  */
 
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
+  if (intercomm==MPI_COMM_NULL)
+    *newintracomm = MPI_COMM_NULL;
+  else
+    MPI_Comm_dup(intercomm, newintracomm);
+
   return(MPI_SUCCESS);
 }
-- 
2.43.0


From 5153b020fc5f6d84990b3648b37e05618aaa1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:04 +0000
Subject: [PATCH 11/26] fix: compute the byte offsets of copies in MPI_Aint
 rather than int

---
 collective.c | 10 +++++-----
 copy.c       |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..9bb48a3 100644
--- a/copy.c
+++ b/copy.c
@@ -42,8 +42,8 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
-  int i;
-  int soffset, doffset;
+  long i;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
@@ -58,7 +58,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   // A receive of less elements than sent
   // is valid, but the reverse is a violation
 
-  if (src_type->count * src_count < dest_type->count * dest_count)
+  if ((long) src_type->count * src_count < (long) dest_type->count * dest_count)
   {
     printf("copy_data: Trying to over-receive\n");
     exit(1);
@@ -67,7 +67,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < (long) dest_count * dest_type->count; i++)
   {
 
 #ifdef TYPE_CHECKING
-- 
2.43.0


From c74d7146ca192270c5cd2a4d4367cc825bd65bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 12/26] fix: honour MPI_IN_PLACE in the reductions, scan and
 all-to-all operations

---
 collective.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..d3f8526 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce( mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce( mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,7 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter( mpi_c_in_place(sendbuf), recvbuf, recvcounts, *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +375,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +391,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +401,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +417,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall( mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +428,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +447,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv( mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +466,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +495,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw( mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -495,6 +510,8 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
 
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
-- 
2.43.0


From c60510f7d780fdbc0cb524b65de7c0cef60b3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 13/26] fix: a receive takes the message with the sender's
 count and type, and the status counts what arrived

---
 copy.c     | 70 ++++++++++++++++++++++++++++++++++++++++++++++++++++++
 getcount.c | 13 +++++++---
 mpi.h      |  2 +-
 mpiP.h     |  4 ++++
 recv.c     |  7 +++---
 req.c      |  2 ++
 send.c     |  7 ++++--
 7 files changed, 95 insertions(+), 10 deletions(-)

diff --git a/copy.c b/copy.c
index 9bb48a3..62e6258 100644
--- a/copy.c
+++ b/copy.c
@@ -88,5 +88,75 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 }
 
 
+/*
+ * Deliver a message: the bytes of the sender's elements, in typemap order,
+ * fill the receiver's elements, in typemap order, until either runs out.
+ * The message may be shorter than the receive buffer.
+ *
+ * Returns the number of basic elements received.
+ */
+
+int copy_message(void *source, int src_count, MPI_Datatype src_type,
+                 void *dest, int dest_count, MPI_Datatype dest_type)
+{
+  Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
+  Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
+  long snum, dnum;              /* number of basic elements on each side */
+  long i, j;                    /* current element */
+  int soff, doff;               /* bytes of it already done */
+  int slen, dlen, len;
+  typepair *spair, *dpair;
+  MPI_Aint src_extent, dest_extent;
+
+  if (!(src_ptr->committed && dest_ptr->committed))
+  {
+    fprintf(stderr, "Type not committed\n");
+    exit(-1);
+  }
+
+  Type_extent(src_ptr, &src_extent);
+  Type_extent(dest_ptr, &dest_extent);
+
+  snum = (long) src_count * src_ptr->count;
+  dnum = (long) dest_count * dest_ptr->count;
+  i = j = 0;
+  soff = doff = 0;
+
+  while (i < snum && j < dnum)
+  {
+    spair = src_ptr->pairs + i % src_ptr->count;
+    dpair = dest_ptr->pairs + j % dest_ptr->count;
+
+#ifdef TYPE_CHECKING
+    if (spair->type != dpair->type &&
+        src_type != MPI_PACKED && dest_type != MPI_PACKED)
+    {
+      printf("copy_data: Types don't match.\n");
+      exit(1);
+    }
+#endif
 
+    slen = Simpletype_length(spair->type) - soff;
+    dlen = Simpletype_length(dpair->type) - doff;
+    len = slen < dlen ? slen : dlen;
 
+    memcpy((char *)dest + dpair->disp + (j / dest_ptr->count) * dest_extent + doff,
+           (char *)source + spair->disp + (i / src_ptr->count) * src_extent + soff,
+           len);
+
+    soff += len;
+    doff += len;
+    if (len == slen)
+    {
+      i++;
+      soff = 0;
+    }
+    if (len == dlen)
+    {
+      j++;
+      doff = 0;
+    }
+  }
+
+  return (int) j;
+}
diff --git a/getcount.c b/getcount.c
index 565f107..ddf77f6 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,15 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  if (dt_ptr->count == 0)
+    *count = 0;
+  else if (status->get_count % dt_ptr->count != 0)
+    *count = MPI_UNDEFINED;     /* not a whole number of datatype */
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +44,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index b66e48f..87ed0e1 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,7 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Number of basic elements received */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index b03794f..b563c54 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -100,6 +100,7 @@ typedef struct
   int complete;
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  int elements;       /* basic elements received */
 } Req;
 
 
@@ -109,6 +110,9 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
+extern int copy_message(void * source, int src_count, MPI_Datatype src_type,
+                        void * dest, int dest_count, MPI_Datatype dest_type);
+
 extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
diff --git a/recv.c b/recv.c
index 37aa2c4..dcdf5b7 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->elements = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -78,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      rreq->elements=copy_message(sreq->buf, sreq->count, sreq->type,
+                                  buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -134,9 +136,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 6049663..ad6c4b9 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->elements;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index b2a0475..70e8446 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->type = datatype;
+  sreq->count = count;
+  sreq->elements = 0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -67,7 +69,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->elements=copy_message(buf, count, datatype,
+                                  rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
-- 
2.43.0


From d88fbdd1561974e245bf7e2b9606040027a46f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 14/26] fix: the multiple-completion calls report indices,
 ignore null requests and accept MPI_STATUSES_IGNORE

---
 req.c | 75 +++++++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/req.c b/req.c
index ad6c4b9..dc57276 100644
--- a/req.c
+++ b/req.c
@@ -6,6 +6,17 @@
  */
 
 
+/* element i of an array of statuses that may be MPI_STATUSES_IGNORE */
+
+static MPI_Status *status_at(MPI_Status *array_of_statuses, int i)
+{
+  if (array_of_statuses==MPI_STATUSES_IGNORE)
+    return(MPI_STATUS_IGNORE);
+
+  return(&array_of_statuses[i]);
+}
+
+
 
 int FC_FUNC( mpi_test , MPI_TEST)(int *request, int *flag, int *status,
                                 int *ierror)
@@ -87,6 +98,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                 /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -122,6 +135,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                 /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -129,15 +144,29 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request null=MPI_REQUEST_NULL;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  *index=MPI_UNDEFINED;
+
+  if (!active)                  /* nothing to complete: empty status */
+    return(MPI_Test(&null,flag,status));
+
   /* none are completed */
 
   *flag=0;
@@ -165,13 +194,15 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
-  {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+  for (i=0; i<count && *flag; i++)
+    if (array_of_requests[i]!=MPI_REQUEST_NULL &&
+        !((Req *)mpi_handle_to_ptr(array_of_requests[i]))->complete)
+      *flag=0;
 
-      if (!iflag)
-        *flag=0;
-  }
+  /* either all of them complete here, or none does */
+
+  for (i=0; i<count && *flag; i++)
+    MPI_Test(&array_of_requests[i],&iflag,status_at(array_of_statuses,i));
 
   return(MPI_SUCCESS);
 }
@@ -200,7 +231,7 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,status_at(array_of_statuses,i));
 
       if (!flag)
         {
@@ -220,8 +251,12 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;      /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -230,17 +265,29 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
-      
+      MPI_Test(&array_of_requests[i],&flag,
+               status_at(array_of_statuses,*outcount));
+
       if (flag)
-	  (*outcount)++;
+        {
+          array_of_indices[*outcount]=i;
+          (*outcount)++;
+        }
   }
 
+  if (!active)
+    *outcount=MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -253,8 +300,12 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)
+    array_of_indices[i]++;      /* Fortran indices start at 1 */
   return MPI_SUCCESS;
 }
 
@@ -264,7 +315,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (*outcount==0)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 5120c9af9a0bee344a9e6cb9359fa01edec9c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:23 +0000
Subject: [PATCH 15/26] fix: MPI_Request_free of a pending request frees it
 when the operation completes

---
 mpiP.h |  5 +++++
 recv.c |  4 ++--
 req.c  | 35 ++++++++++++++++++++++++++++++++++-
 send.c |  4 ++--
 4 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index b563c54..dc10a91 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -101,6 +101,8 @@ typedef struct
   int count;
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
   int elements;       /* basic elements received */
+  int freed;          /* MPI_Request_free called before it completed */
+  int handle;         /* its own handle, to free it when it completes */
 } Req;
 
 
@@ -118,6 +120,9 @@ extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
 
+extern void mpi_pending_request(Req *req, MPI_Request request);
+extern void mpi_complete_request(Req *req);
+
 extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
 extern void *mpi_handle_to_ptr(int handle);
diff --git a/recv.c b/recv.c
index dcdf5b7..a6e4855 100644
--- a/recv.c
+++ b/recv.c
@@ -85,7 +85,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
-      sreq->complete=1;
+      mpi_complete_request(sreq);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
@@ -97,7 +97,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
 
   rreq->buf=buf;
   rreq->tag=tag;
-  rreq->complete=0;
+  mpi_pending_request(rreq,*request);
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
 
 #ifdef INFO
diff --git a/req.c b/req.c
index dc57276..25dff2f 100644
--- a/req.c
+++ b/req.c
@@ -337,13 +337,46 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *r;
+
+  r=mpi_handle_to_ptr(*req);
+
+  /* A pending request is still on a list: free it when it completes */
+
+  if (r!=NULL && !r->complete)
+    r->freed=1;
+  else
+    mpi_free_handle(*req);
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
 
 
 
+/*********/
+
+/* An operation that has to wait for its match */
+
+void mpi_pending_request(Req *req, MPI_Request request)
+{
+  req->complete=0;
+  req->freed=0;
+  req->handle=request;
+}
+
+
+/* A pending operation has been matched */
+
+void mpi_complete_request(Req *req)
+{
+  req->complete=1;
+
+  if (req->freed)
+    mpi_free_handle(req->handle);
+}
+
+
 /*********/
 
 
diff --git a/send.c b/send.c
index 70e8446..6da5d1f 100644
--- a/send.c
+++ b/send.c
@@ -71,9 +71,9 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
       rreq->elements=copy_message(buf, count, datatype,
                                   rreq->buf, rreq->count, rreq->type);
-      rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_complete_request(rreq);
 
       sreq->complete=1;
 
@@ -87,7 +87,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
   sreq->buf=buf;
   sreq->tag=tag;
-  sreq->complete=0;
+  mpi_pending_request(sreq,*request);
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
 
 #ifdef INFO
-- 
2.43.0


From 1e0d6d07092cc3ae2f59eb124421838298d3dea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 16/26] fix: a datatype may be freed while an operation using
 it is pending

---
 req.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index 25dff2f..8ffa209 100644
--- a/req.c
+++ b/req.c
@@ -356,10 +356,15 @@ int MPI_Request_free(MPI_Request * req)
 
 /*********/
 
-/* An operation that has to wait for its match */
+/* An operation that has to wait for its match.  The user may free a
+ * derived datatype meanwhile, so keep a copy of it.
+ */
 
 void mpi_pending_request(Req *req, MPI_Request request)
 {
+  if (req->type>0)
+    MPI_Type_dup(req->type,&req->type);
+
   req->complete=0;
   req->freed=0;
   req->handle=request;
@@ -372,6 +377,9 @@ void mpi_complete_request(Req *req)
 {
   req->complete=1;
 
+  if (req->type>0)
+    MPI_Type_free(&req->type);
+
   if (req->freed)
     mpi_free_handle(req->handle);
 }
-- 
2.43.0


From ea1bb79dd9f8d40cca34b1407a818ad3dd18e6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 17/26] fix: probes report the message's count and accept
 MPI_PROC_NULL

---
 probe.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/probe.c b/probe.c
index 8b66042..786f1a0 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -35,6 +36,20 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE=MPI_PROC_NULL;
+	  status->MPI_TAG=MPI_ANY_TAG;
+	  status->get_count=0;
+	}
+
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
       fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
@@ -53,6 +68,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count *
+	    (*(Datatype*)mpi_handle_to_datatype(sreq->type))->count;
 	}
     }
 
-- 
2.43.0


From d096d93d22c869fbac8d7e330c793aaa25703a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:21 +0000
Subject: [PATCH 18/26] fix: MPI_Cart_get returns the periods given to
 MPI_Cart_create

---
 cart.c | 31 ++++++++++++++++++++++++++++++-
 comm.c | 12 ++++++++++++
 mpiP.h |  4 ++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..6b5ba8e 100644
--- a/cart.c
+++ b/cart.c
@@ -28,12 +28,36 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
       abort();
     }
 
-  MPI_Comm_dup(comm_old, comm_cart);
+  *comm_cart = mpi_comm_new();
+  mpi_cart_set(*comm_cart, ndims, periods);
 
   return MPI_SUCCESS;
 }
 
 
+/*
+ * Give a new communicator a cartesian topology.  All dimensions are 1,
+ * so the periods are all there is to remember.
+ */
+
+void mpi_cart_set(MPI_Comm comm, int ndims, int *periods)
+{
+  Comm *mycomm;
+  int i;
+
+  if (ndims <= 0)
+    return;
+
+  mycomm = mpi_handle_to_ptr(comm);
+
+  mycomm->ndims = ndims;
+  mycomm->periods = mpi_malloc(ndims * sizeof(int));
+
+  for (i = 0; i < ndims; i++)
+    mycomm->periods[i] = periods[i];
+}
+
+
 /*
  * MPI_Cart_get
  *
@@ -58,9 +82,14 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *mycomm;
+
+  mycomm = mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]=(i<mycomm->ndims && mycomm->periods[i]);
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..115abac 100644
--- a/comm.c
+++ b/comm.c
@@ -23,6 +23,9 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->ndims=0;
+  cptr->periods=NULL;
+
   return(chandle);
 }
 
@@ -71,6 +74,8 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->periods);
+
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
@@ -131,8 +136,15 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *mycomm;
+
+  mycomm=mpi_handle_to_ptr(comm);
+
   *newcomm= mpi_comm_new();
 
+  if (mycomm!=NULL && mycomm->ndims>0)
+    mpi_cart_set(*newcomm,mycomm->ndims,mycomm->periods);
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
diff --git a/mpiP.h b/mpiP.h
index dc10a91..17f6293 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int ndims;                 /* cartesian topology, if any */
+  int *periods;
+
 } Comm;
 
 
@@ -119,6 +122,7 @@ extern void *mpi_malloc(int size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_cart_set(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_pending_request(Req *req, MPI_Request request);
 extern void mpi_complete_request(Req *req);
-- 
2.43.0


From 1e38c20a453f4a2ea0bef678979e346492ebc2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 19/26] fix: Fortran mpi_pack_size stores an INTEGER

---
 pack.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index e7efba2..c4c706f 100644
--- a/pack.c
+++ b/pack.c
@@ -75,9 +75,12 @@ int Pack_size(int incount, Datatype datatype,
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint csize;               /* SIZE is a Fortran INTEGER */
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &csize);
+  *size = csize;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From 63f6dce06465285b6daface0a317df301db54ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 20/26] fix: MPI_Pack_size does not print to the user's stdout

---
 pack.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pack.c b/pack.c
index c4c706f..7e9a907 100644
--- a/pack.c
+++ b/pack.c
@@ -70,7 +70,6 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From f9f4e6ef4a92dfd17e0e8cd88796d2cf4362eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:02 +0000
Subject: [PATCH 21/26] fix: Pack/Unpack bounds test must not overflow for a
 position near INT_MAX

---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 7e9a907..cd4f0dd 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if ((long) (*position) + Simpletype_length(type->pairs[j].type) > outsize)
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -137,7 +137,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if ((long) (*position) + Simpletype_length(type->pairs[j].type) > insize)
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 80322156317b15a3f298ec1391212871395f9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 22/26] fix: keep temporary arrays of datatype constructors off
 the stack

Constructing a type of more than about 400000 blocks overflowed the
default stack of 8 MB.
---
 type.c | 84 ++++++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 23 deletions(-)

diff --git a/type.c b/type.c
index 6df7379..22be171 100644
--- a/type.c
+++ b/type.c
@@ -415,14 +415,30 @@ int FC_FUNC( mpi_type_struct, MPI_TYPE_STRUCT )
   return MPI_SUCCESS;
 }
 
+/* A temporary array of count items.  These are not kept on the stack, as
+ * types may have millions of blocks.
+ */
+static void *temp_array(int count, size_t size)
+{
+  void *array = malloc(count > 0 ? count * size : 1);
+
+  if (!array)
+  {
+    fprintf(stderr, "MPI_Type: failed to allocate an array of %d items\n", count);
+    abort();
+  }
+
+  return array;
+}
+
 /* Public function, wrapper for Type_struct that translates handle to
  * pointer (see NOTES at top of file)
  */
 int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes_ptr[count];
+    int i, ret;
+    Datatype *oldtypes_ptr = temp_array(count, sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -432,8 +448,11 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
-                       oldtypes_ptr, newtype_ptr);
+    ret = Type_struct(count, blocklens, displacements,
+                      oldtypes_ptr, newtype_ptr);
+
+    free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -444,10 +463,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int *blocklengths = temp_array(count, sizeof(int));
+    Datatype *oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint *offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -459,7 +478,12 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -484,10 +508,10 @@ int MPI_Type_contiguous(int count, MPI_Datatype old, MPI_Datatype * new)
 int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int i, ret;
+    int *blocklengths = temp_array(count, sizeof(int));
+    Datatype *oldtypes = temp_array(count, sizeof(Datatype));
+    MPI_Aint *offsets = temp_array(count, sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -498,7 +522,12 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+
+    free(blocklengths);
+    free(oldtypes);
+    free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -580,15 +609,18 @@ int MPI_Type_vector(int count, int blocklen, int stride,
 int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    Datatype oldtypes[count];
+    int i, ret;
+    Datatype *oldtypes = temp_array(count, sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+
+    free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -616,9 +648,9 @@ int MPI_Type_hindexed(int count, int *blocklens, MPI_Aint * disps,
 int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
-    int i;
+    int i, ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint *bdisps = temp_array(count, sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -626,7 +658,10 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+
+    free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -653,13 +688,16 @@ int MPI_Type_indexed(int count, int *blocklens, int *displacements,
 int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
-    int i;
-    int blocklens[count];
+    int i, ret;
+    int *blocklens = temp_array(count, sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+
+    free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From 2bee7ba4036f545128d4df8b90656a0868728b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 23/26] fix: gathers and scatters look at the root before the
 in-place marker

With MPI_IN_PLACE a root that does not exist was accepted.
---
 collective.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index d3f8526..00c8de5 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,10 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0


From 4c26cef2d6f812b6e20e74041a81bb4be052219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:36 +0000
Subject: [PATCH 24/26] fix: including ranks of an empty group is refused

No rank exists in it; the empty group was returned as if it had been
included.
---
 group.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/group.c b/group.c
index e7efcb2..7b0e487 100644
--- a/group.c
+++ b/group.c
@@ -22,14 +22,14 @@ int MPI_Group_incl(MPI_Group group, int n, int *ranks, MPI_Group *newgroup)
       abort();
     }
 
-  if (group==MPI_GROUP_EMPTY || n==0)
+  if (n==0)
     *newgroup=MPI_GROUP_EMPTY;
   else
-    if (n==1 && ranks[0]==0)
+    if (group!=MPI_GROUP_EMPTY && n==1 && ranks[0]==0)
       *newgroup=MPI_GROUP_ONE;
     else
       {
-	fprintf(stderr,"MPI_Group_incl: more than 1 proc in group\n");
+	fprintf(stderr,"MPI_Group_incl: rank not in group\n");
 	abort();
       }
 
@@ -65,14 +65,14 @@ int MPI_Group_range_incl(MPI_Group group, int n, int ranges[][3],
       abort();
     }
 
-  if (group==MPI_GROUP_EMPTY || n==0)
+  if (n==0)
     *newgroup=MPI_GROUP_EMPTY;
   else
-    if (n==1 && ranges[0][0]==0 && ranges[0][1]==0)
+    if (group!=MPI_GROUP_EMPTY && n==1 && ranges[0][0]==0 && ranges[0][1]==0)
       *newgroup=MPI_GROUP_ONE;
     else
       {
-	fprintf(stderr,"MPI_Group_range_incl: more than 1 proc in group\n");
+	fprintf(stderr,"MPI_Group_range_incl: rank not in group\n");
 	abort();
       }
 
-- 
2.43.0


From e4666824fcbab361c71e777944f9f392852fee5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:02 +0000
Subject: [PATCH 25/26] fix: MPI_Iprobe compiles with --enable-info

The information printed named arguments MPI_Iprobe does not have.
---
 probe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probe.c b/probe.c
index 786f1a0..56368d0 100644
--- a/probe.c
+++ b/probe.c
@@ -31,8 +31,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 
 #ifdef INFO
   fflush(stdout);
-  fprintf(stderr,"MPI_IProbev: Comm=%d  tag=%d  count=%d type=%d\n",
-         mycomm->num,tag,count,datatype);
+  fprintf(stderr,"MPI_Iprobe: Comm=%d  tag=%d\n",
+         mycomm->num,tag);
 #endif
 
 
-- 
2.43.0


From 791412e7b9482e0cbdb1a858b5432542cbfb3c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 26/26] fix: MPI_GET_ADDRESS has its own name where Fortran
 names are upper case

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 22be171..6fcee3e 100644
--- a/type.c
+++ b/type.c
@@ -842,7 +842,7 @@ int FGet_address(void * loc, long * address)
     return MPI_SUCCESS;
 }
 
-int FC_FUNC( mpi_get_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
+int FC_FUNC( mpi_get_address, MPI_GET_ADDRESS )(void * loc, long * address, int * ierr)
 {
   *ierr = FGet_address(loc, address);
   return MPI_SUCCESS;
-- 
2.43.0


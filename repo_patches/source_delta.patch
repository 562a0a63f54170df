From ec80f3a36e9f82f4a67a41d060604f85653ec355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:18 +0000
Subject: [PATCH 01/42] fix: drop the stale row start when resizing a
 compressed empty CSR Array

---
 src/DNDS/Array.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 33a4f75..e0102fd 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -322,6 +322,7 @@ namespace DNDS
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
                 _size = nSize;
+                _pRowStart.reset(); // a compressed size 0 array still holds a row start
                 // _dataUncompressed.resize(nSize, typename decltype(_dataUncompressed)::value_type(nRow_size_dynamic));
                 _dataUncompressed.resize(nSize);
             }
@@ -352,6 +353,7 @@ namespace DNDS
             {
                 DNDS_assert_info(!IfCompressed(), "Need to decompress before auto resizing");
                 _size = nSize;
+                _pRowStart.reset(); // a compressed size 0 array still holds a row start
                 _dataUncompressed.resize(nSize);
             }
             else if constexpr (_dataLayout == TABLE_StaticFixed)
-- 
2.43.0


From 62385d8a7ea99fa82e42feaf1f9671da70823dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:35 +0000
Subject: [PATCH 02/42] fix: use the untransformed derivatives at every order
 in ConvertDiffsFullMap

---
 src/Geom/DiffTensors.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Geom/DiffTensors.hpp b/src/Geom/DiffTensors.hpp
index a8509f9..d40c2f0 100644
--- a/src/Geom/DiffTensors.hpp
+++ b/src/Geom/DiffTensors.hpp
@@ -343,6 +343,7 @@ namespace DNDS::Geom::Base
         if (cmaxDiffOrder == 0)
             return;
         static const auto &diffOperatorIJK2IcDim = getDiffOperatorIJK2I<dim>();
+        const MatrixXR in = mat; // the untransformed derivatives, needed at every order
         MatrixXR out;
         out.resize(rows, nBase);
 
@@ -356,7 +357,7 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
             }
         mat(seq0t1, Eigen::all) = out(seq0t1, Eigen::all);
         if (cmaxDiffOrder == 1)
@@ -373,12 +374,12 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv += DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                               mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                               in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
             }
         mat(seq1t2, Eigen::all) = out(seq1t2, Eigen::all);
         if (cmaxDiffOrder == 2)
@@ -396,19 +397,19 @@ namespace DNDS::Geom::Base
                 ccv = 0;
                 for (int m = 0; m < dim; m++)
                     ccv += DxiDx(std::get<3>(diffOperatorIJK2IcDim)[i][j][k], m) *
-                           mat(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
+                           in(std::get<1>(diffOperatorIJK2IcDim)[m], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         ccv +=
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][j], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[i][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB) +
                             DxiDx(std::get<2>(diffOperatorIJK2IcDim)[j][k], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], n) *
-                                mat(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
+                                in(std::get<2>(diffOperatorIJK2IcDim)[m][n], iB);
                 for (int m = 0; m < dim; m++)
                     for (int n = 0; n < dim; n++)
                         for (int p = 0; p < dim; p++)
@@ -416,7 +417,7 @@ namespace DNDS::Geom::Base
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[i], m) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[j], n) *
                                 DxiDx(std::get<1>(diffOperatorIJK2IcDim)[k], p) *
-                                mat(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
+                                in(std::get<3>(diffOperatorIJK2IcDim)[m][n][p], iB);
             }
         mat(seq2t3, Eigen::all) = out(seq2t3, Eigen::all);
         if (cmaxDiffOrder == 3)
-- 
2.43.0


From 20c8b7ce939e5b031f1b58129310f00d09b44aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:02 +0000
Subject: [PATCH 03/42] fix: HLLC flux of equal states on a moving face misses
 the grid speed in the pressure work

---
 src/Euler/Gas.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 966e5ae..11ca838 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -484,7 +484,7 @@ namespace DNDS::Euler::Gas
         Eigen::Vector<real, dim + 2> DS;
         DS.setZero();
         DS(Eigen::seq(Eigen::fix<1>, Eigen::fix<dim>)) = n;
-        DS(dim + 1) = SS;
+        DS(dim + 1) = SS + vgN; // pressure work uses the absolute speed of the contact
         // SS += sign(SS) * std::exp(-std::abs(SS) / dLambda) * dLambda;
         if (SS >= 0)
         {
-- 
2.43.0


From be17c896a121e198e158b12bba43b6bc4eb9346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:34 +0000
Subject: [PATCH 04/42] fix: HLLEP signal speeds use the signed Roe waves, so
 the flux no longer depends on the face orientation

---
 src/Euler/Gas.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Euler/Gas.hpp b/src/Euler/Gas.hpp
index 11ca838..bb00916 100644
--- a/src/Euler/Gas.hpp
+++ b/src/Euler/Gas.hpp
@@ -330,8 +330,8 @@ namespace DNDS::Euler::Gas
         // std::cout << alpha.transpose() << std::endl;
         // std::cout << std::endl;
 
-        real SL = std::min(lam0, veloLm0 - std::sqrt(asqrL));
-        real SR = std::max(lam4, veloRm0 + std::sqrt(asqrR));
+        real SL = std::min(veloRoe0 - aRoe, veloLm0 - std::sqrt(asqrL));
+        real SR = std::max(veloRoe0 + aRoe, veloRm0 + std::sqrt(asqrR));
         real UU = std::abs(veloRoe0);
         real dfix = aRoe / (aRoe + UU);
         real SP = std::max(SR, 0.0);
-- 
2.43.0


From a5ef48ed95cb517e7e4e7e6b8cbac1a5de87f70f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 05/42] fix: divCeil returns the rounded-up quotient (operator
 precedence)

---
 src/DNDS/Defines.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/Defines.hpp b/src/DNDS/Defines.hpp
index 1df66e0..5a9035e 100644
--- a/src/DNDS/Defines.hpp
+++ b/src/DNDS/Defines.hpp
@@ -310,7 +310,7 @@ namespace DNDS
     template <class TL, class TR>
     inline constexpr auto divCeil(TL l, TR r)
     {
-        return l / r + (l % r) ? 1 : 0;
+        return l / r + ((l % r) ? 1 : 0);
     }
 }
 
-- 
2.43.0


From 58e3db9127dcd888af37f4e1ecaa3d4c2a1b3a3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 06/42] fix: assigning to a pooled handle returns the object it
 held to the pool

---
 src/DNDS/ObjectPool.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DNDS/ObjectPool.hpp b/src/DNDS/ObjectPool.hpp
index 35f7b16..d8a6fe4 100644
--- a/src/DNDS/ObjectPool.hpp
+++ b/src/DNDS/ObjectPool.hpp
@@ -54,6 +54,11 @@ namespace DNDS
             }
             void operator=(ObjectPoolAllocated &&R) noexcept
             {
+                if (this == &R)
+                    return;
+                auto poolLocked = pool.lock();
+                if (poolLocked && _ptr)
+                    poolLocked->_pool.emplace_back(std::move(_ptr));
                 _ptr = std::move(R._ptr);
                 pool = std::move(R.pool);
             }
-- 
2.43.0


From efdd8977675dc7a2b67f16e6ae66df49bdbb53b4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 07/42] fix: ObjectPool::resize constructs every object from
 the same arguments

---
 src/DNDS/ObjectPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ObjectPool.hpp b/src/DNDS/ObjectPool.hpp
index d8a6fe4..26ddca6 100644
--- a/src/DNDS/ObjectPool.hpp
+++ b/src/DNDS/ObjectPool.hpp
@@ -81,7 +81,7 @@ namespace DNDS
             pPool->_pool.reserve(N);
             while (pPool->_pool.size() < N)
             {
-                uPtrResource p = std::make_unique<T>(std::forward<_CtorArgs>(__ctorArgs)...);
+                uPtrResource p = std::make_unique<T>(__ctorArgs...); // used N times: not forwarded
                 pPool->_pool.emplace_back(std::move(p));
             }
         }
@@ -93,7 +93,7 @@ namespace DNDS
             pPool->_pool.reserve(N);
             while (pPool->_pool.size() < N)
             {
-                uPtrResource p = std::make_unique<T>(std::forward<_CtorArgs>(__ctorArgs)...);
+                uPtrResource p = std::make_unique<T>(__ctorArgs...); // used N times: not forwarded
                 FInit(*p);
                 pPool->_pool.emplace_back(std::move(p));
             }
-- 
2.43.0


From 8f20a6f0f2d01d153ed3e7697e739a2b30588474 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:40:46 +0000
Subject: [PATCH 08/42] fix: GlobalOffsetsMapping refuses rank == number of
 ranks

---
 src/DNDS/IndexMapping.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/IndexMapping.hpp b/src/DNDS/IndexMapping.hpp
index 1031d5c..addd785 100644
--- a/src/DNDS/IndexMapping.hpp
+++ b/src/DNDS/IndexMapping.hpp
@@ -69,7 +69,7 @@ namespace DNDS
             //     PrintVec(RankOffsets, std::cout);
             //     std::cout << rank << " KK " << val << std::endl;
             // }
-            DNDS_assert((rank >= 0 && rank <= RankLengths.size()) &&
+            DNDS_assert((rank >= 0 && rank < RankLengths.size()) &&
                         (val >= 0 && val <= RankOffsets[rank + 1] - RankOffsets[rank]));
             return RankOffsets[rank] + val;
         }
-- 
2.43.0


From 7c6a7441123f412bfd5b228a2e75ead6a3633d36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 09/42] fix: persistent push keeps its receive requests first,
 as the one-by-one wait assumes

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index b5fe64e..6bb3010 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -495,7 +495,7 @@ namespace DNDS
                     auto dtypeInfo = (*pPushTypeVec)[ip];
                     MPI_int rankOther = dtypeInfo.first;
                     MPI_int tag = rankOther + mpi.rank;
-                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPullTypeVec->size() + ip);
+                    MPI_Recv_init(father->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
                     // cascade from father
                     nRecvPushReq++;
                 }
@@ -511,7 +511,7 @@ namespace DNDS
 #else
                     MPI_Bsend_init
 #endif
-                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + ip);
+                        (son->data(), 1, dtypeInfo.second, rankOther, tag, mpi.comm, PushReqVec->data() + pPushTypeVec->size() + ip);
 
                     // cascade from father
 
-- 
2.43.0


From 16e631159d93b91c4ba1efd8cf8ba59fa88183b7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 10/42] fix: waiting for an in-situ packed push with no buffer
 left to unpack is not an error

---
 src/DNDS/ArrayTransformer.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 6bb3010..f52dd99 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -813,10 +813,9 @@ namespace DNDS
                 if (!PushReqVec->empty())
                     MPI::WaitallAuto(PushReqVec->size(), PushReqVec->data(), PushStatVec.data());
                 auto bufferVec = inSituBuffer.begin();
-                for (MPI_int r = 0; r < mpi.size; r++)
+                for (MPI_int r = 0; r < mpi.size && bufferVec < inSituBuffer.end(); r++) // no buffer left: nothing in flight
                 {
                     // push
-                    DNDS_assert(bufferVec < inSituBuffer.end());
                     MPI_int pushNumber = pLGhostMapping->pushIndexSizes[r];
                     // std::cout << "PN" << pushNumber << std::endl;
                     if (pushNumber > 0)
-- 
2.43.0


From 5902f2ecf2deb723bddd08b68c2ceb55b5f1646c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 11/42] fix: in-situ packing of padded arrays transfers whole
 padded rows, as the ghost side does

---
 src/DNDS/ArrayTransformer.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index f52dd99..af23b6e 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -624,8 +624,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) // padded, as the ghost span is
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -720,8 +720,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) // padded, as the ghost span is
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         nPushData += nPush;
@@ -734,8 +734,8 @@ namespace DNDS
                         index nPush = 0;
                         if constexpr (_dataLayout == CSR)
                             nPush = father->RowSizeField(loc);
-                        if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                            nPush = father->RowSize(loc);
+                        if constexpr (isTABLE_Max(_dataLayout)) // padded, as the ghost span is
+                            nPush = father->RowSizeField();
                         if constexpr (isTABLE_Fixed(_dataLayout))
                             nPush = father->RowSizeField();
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
@@ -827,8 +827,8 @@ namespace DNDS
                             index nPush = 0;
                             if constexpr (_dataLayout == CSR)
                                 nPush = father->RowSizeField(loc);
-                            if constexpr (isTABLE_Max(_dataLayout)) //! init sizes
-                                nPush = father->RowSize(loc);
+                            if constexpr (isTABLE_Max(_dataLayout)) // padded, as the ghost span is
+                                nPush = father->RowSizeField();
                             if constexpr (isTABLE_Fixed(_dataLayout))
                                 nPush = father->RowSizeField();
                             std::copy(bufferVec->begin() + nPushData, bufferVec->begin() + nPushData + nPush, (*father)[loc]);
-- 
2.43.0


From aa1c5c08ae96c430de57b4a4819b5b1fffeb427a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:41:17 +0000
Subject: [PATCH 12/42] fix: in-situ packing posts no message for ghost rows
 that are all empty

---
 src/DNDS/ArrayTransformer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index af23b6e..5715ef9 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -631,6 +631,8 @@ namespace DNDS
                         nPushData += nPush;
                     }
                     inSituBuffer.emplace_back(nPushData);
+                    if (nPushData == 0) // the other side sends nothing
+                        continue;
                     PushReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Irecv(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                               r, mpi.rank + r, mpi.comm, &PushReqVec->back());
@@ -741,6 +743,8 @@ namespace DNDS
                         std::copy((*father)[loc], (*father)[loc] + nPush, inSituBuffer.back().begin() + nPushData);
                         nPushData += nPush;
                     }
+                    if (nPushData == 0) // the other side receives nothing
+                        continue;
                     PullReqVec->emplace_back(MPI_REQUEST_NULL);
                     MPI_Issend(inSituBuffer.back().data(), nPushData * father->getTypeMult(), father->getDataType(),
                                r, mpi.rank + r, mpi.comm, &PullReqVec->back());
-- 
2.43.0


From cca271bdae2d2c7dbfc0308731c630c517f05104 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:56:13 +0000
Subject: [PATCH 13/42] fix: Array::SwapData exchanges row sizes of padded
 arrays and both storages of compressed ones

---
 src/DNDS/Array.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index e0102fd..2d70b0f 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -585,22 +585,12 @@ namespace DNDS
         {
             DNDS_assert(R.Size() == this->Size());
             DNDS_assert(R._data.size() == _data.size());
+            _data.swap(R._data);
+            _pRowSizes.swap(R._pRowSizes); // padded rows too have their own sizes
             if constexpr (_dataLayout == CSR)
             {
-                if (IfCompressed())
-                {
-                    _data.swap(R._data);
-                    _pRowStart.swap(R._pRowStart);
-                }
-                else
-                {
-                    _dataUncompressed.swap(R._dataUncompressed);
-                    _pRowSizes.swap(R._pRowSizes);
-                }
-            }
-            else
-            {
-                _data.swap(R._data);
+                _pRowStart.swap(R._pRowStart);
+                _dataUncompressed.swap(R._dataUncompressed);
             }
         }
 
-- 
2.43.0


From 682e2b43d19415641b81a41e13ca2b33ef464e74 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 14/42] fix: ArrayEigenMatrix::MatColSize of matrices with
 fixed rows and run-time columns

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 473e87b..856b40f 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -88,7 +88,7 @@ namespace DNDS
                 return _mat_nj;
             if constexpr (_mat_nj == NonUniformSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
-            if constexpr (_mat_ni == DynamicSize)
+            if constexpr (_mat_nj == DynamicSize)
                 return this->t_base::RowSize(iMat) / this->MatRowSize(iMat);
             return UnInitRowsize; // invalid branch
         }
-- 
2.43.0


From c92bc8305cf9058abf30744271194f38068db3a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 15/42] fix: ArrayEigenMatrix::ResizeMat resizes matrices with
 fixed rows and per-matrix columns

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 856b40f..5485f3e 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -102,6 +102,11 @@ namespace DNDS
         {
             if constexpr (_mat_ni == NonUniformSize)
                 this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol), (*_mat_nRows)[iMat] = nSizeRow;
+            else if constexpr (_mat_ni >= 0 && _mat_nj == NonUniformSize)
+            {
+                DNDS_assert(nSizeRow == _mat_ni);
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+            }
             else if constexpr (_mat_ni == DynamicSize)
                 DNDS_assert_info(false, "Invalid call");
         }
-- 
2.43.0


From 81407655307a59ea22e849c8ba00d4be3c13cf2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 16/42] fix: resizing a matrix of an ArrayEigenMatrix leaves
 copies of the array alone

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index 5485f3e..d6fd7ed 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -101,7 +101,12 @@ namespace DNDS
         void ResizeRow(index iMat, rowsize nSizeRow, rowsize nSizeCol)
         {
             if constexpr (_mat_ni == NonUniformSize)
-                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol), (*_mat_nRows)[iMat] = nSizeRow;
+            {
+                this->t_base::ResizeRow(iMat, nSizeRow * nSizeCol);
+                if (_mat_nRows.use_count() > 1) // shared with a copy
+                    DNDS_MAKE_SSP(_mat_nRows, *_mat_nRows);
+                (*_mat_nRows)[iMat] = nSizeRow;
+            }
             else if constexpr (_mat_ni >= 0 && _mat_nj == NonUniformSize)
             {
                 DNDS_assert(nSizeRow == _mat_ni);
-- 
2.43.0


From 87d36522bef5d3f6c858162bdab4509e61294d46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 17/42] fix: swapping ArrayEigenMatrix data exchanges the
 matrix sizes too

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index d6fd7ed..af14706 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -116,6 +116,13 @@ namespace DNDS
                 DNDS_assert_info(false, "Invalid call");
         }
 
+        void SwapData(ArrayEigenMatrix &R)
+        {
+            this->t_base::SwapData(R);
+            _mat_nRows.swap(R._mat_nRows);
+            std::swap(_mat_nRow_dynamic, R._mat_nRow_dynamic);
+        }
+
         void operator()(index i, rowsize j)
         {
             // just don't call
-- 
2.43.0


From 7d098d84044aed87e5c3fdaa237934e38324204c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 04:59:30 +0000
Subject: [PATCH 18/42] fix: re-initialising transfers that were never
 initialised is a no-op

---
 src/DNDS/ArrayTransformer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/ArrayTransformer.hpp b/src/DNDS/ArrayTransformer.hpp
index 5715ef9..f1093c8 100644
--- a/src/DNDS/ArrayTransformer.hpp
+++ b/src/DNDS/ArrayTransformer.hpp
@@ -945,13 +945,13 @@ namespace DNDS
         void reInitPersistentPullPush()
         {
             bool clearedPull{false}, clearedPush{false};
-            if (!PullReqVec->empty())
+            if (PullReqVec && !PullReqVec->empty())
             {
                 clearedPull = true;
                 waitPersistentPull();
                 clearPersistentPull();
             }
-            if (!PushReqVec->empty())
+            if (PushReqVec && !PushReqVec->empty())
             {
                 clearedPush = true;
                 waitPersistentPush();
-- 
2.43.0


From 4c63fdcf533f7c425e22b77447c3338c08690d30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 19/42] fix: an empty string can be written to HDF5

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f26dc23..f40c87d 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -214,7 +214,7 @@ namespace DNDS::Serializer
             if (coll_on_meta)
                 herr = H5Pset_all_coll_metadata_ops(aapl_id, true), H5CHECK_Set;
             hid_t scalar_space = H5Screate(H5S_SCALAR);
-            hid_t string_type = H5Tcreate(H5T_STRING, v.length());
+            hid_t string_type = H5Tcreate(H5T_STRING, std::max(v.length(), size_t(1))); // a zero-sized string type is not allowed
             herr = H5Tset_strpad(string_type, H5T_STR_NULLPAD), H5CHECK_Set;
             hid_t type_attr_id = H5Acreate(group_id, name.c_str(), string_type, scalar_space, H5P_DEFAULT, aapl_id);
             DNDS_assert_info(type_attr_id >= 0, fmt::format("{}, {}, {}", name, v, cP));
-- 
2.43.0


From f8fdd2018ed488f68258918a744684bed2ac73df Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 20/42] fix: write rank-0-only HDF5 vectors collectively when
 compressing

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index f40c87d..caac076 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -300,7 +300,7 @@ namespace DNDS::Serializer
 
         herr_t herr{0};
         hid_t dxpl_id = H5Pcreate(H5P_DATASET_XFER);
-        if ((offset.isDist() || offset == ArrayGlobalOffset_Parts) && (coll_on_data || deflateLevel > 0)) //! is this necessary?
+        if (((offset.isDist() || offset == ArrayGlobalOffset_Parts) && coll_on_data) || deflateLevel > 0) // filtered datasets only allow collective writing
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_COLLECTIVE), H5CHECK_Set;
         else
             herr = H5Pset_dxpl_mpio(dxpl_id, H5FD_MPIO_INDEPENDENT), H5CHECK_Set;
-- 
2.43.0


From 22e438d2dd4ecd02af3287557d2ec32ae67483cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 21/42] fix: ranks with an empty part take part in collective
 HDF5 reads

---
 src/DNDS/SerializerH5.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index caac076..4254f15 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -669,7 +669,8 @@ namespace DNDS::Serializer
                 DNDS_assert_info_mpi(size >= 0 && (size == 0 || v != nullptr), mpi, fmt::format("{} {}", size, size_t(v)));
                 index nGlobal{-1};
                 int dim2{-1};
-                H5_ReadDataset(group_id, name.c_str(), nGlobal, offset.offset(), size, T_H5TYPE, dxpl_id, dapl_id, v, dim2);
+                T emptyBuf; // a rank with nothing to read still takes part in a collective read
+                H5_ReadDataset(group_id, name.c_str(), nGlobal, offset.offset(), size, T_H5TYPE, dxpl_id, dapl_id, v != nullptr ? v : &emptyBuf, dim2);
                 DNDS_assert(dim2 == -1);
             }
             else
-- 
2.43.0


From 14c3a5877b80bda2a917aa4e66593f8338980b70 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 22/42] fix: SerializerH5::CreatePath creates the path it is
 given

---
 src/DNDS/SerializerH5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 4254f15..72435d2 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -146,7 +146,7 @@ namespace DNDS::Serializer
         else
             for (auto &name : pth)
                 newPath.push_back(name);
-        std::string nP = constructPath(cPathSplit);
+        std::string nP = constructPath(newPath);
         hid_t group_id = GetGroupOfFileIfExist(h5file, reading, nP, collectiveMetadataRW);
         herr = H5Gclose(group_id), H5CHECK_Close;
     }
-- 
2.43.0


From 241a6d9a8809a9908fca3a9c9ee018a7da93a32e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 23/42] fix: serializers own the shared vectors they remember

---
 src/DNDS/SerializerH5.cpp   | 20 ++++++++++----------
 src/DNDS/SerializerH5.hpp   |  4 ++--
 src/DNDS/SerializerJSON.cpp | 20 ++++++++++----------
 src/DNDS/SerializerJSON.hpp |  4 ++--
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 72435d2..76ed988 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -370,26 +370,26 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<index>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v.get()) ? 0 : 1;
+        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
         MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
-            this->WriteString(name + "::ref", ptr_2_pth[v.get()]);
+            this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
         {
             WriteDataVector<rowsize>(name, v->data(), v->size(), offset, chunksize, deflateLevel, h5file, reading, cP, mpi, commDup, collectiveMetadataRW, collectiveDataRW);
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -730,12 +730,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
@@ -763,12 +763,12 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath])); // ! reform this (and in json counterpart) to use reinterpret_cast or use STL's tools
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             v = std::make_shared<tValue>();
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
 
             size_t size;
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
diff --git a/src/DNDS/SerializerH5.hpp b/src/DNDS/SerializerH5.hpp
index 2e19ccf..5fc6ed1 100644
--- a/src/DNDS/SerializerH5.hpp
+++ b/src/DNDS/SerializerH5.hpp
@@ -12,8 +12,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // keeps what was written alive, so that its address is not reused
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         MPIInfo mpi;
         MPI_Comm commDup{MPI_COMM_NULL};
diff --git a/src/DNDS/SerializerJSON.cpp b/src/DNDS/SerializerJSON.cpp
index 551001b..1842c10 100644
--- a/src/DNDS/SerializerJSON.cpp
+++ b/src/DNDS/SerializerJSON.cpp
@@ -125,23 +125,23 @@ namespace DNDS::Serializer
     void SerializerJSON::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
     void SerializerJSON::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
         auto cPointer = nlohmann::json::json_pointer(cP);
-        if (ptr_2_pth.count(v.get()))
-            jObj[cPointer][name]["ref"] = ptr_2_pth[v.get()];
+        if (ptr_2_pth.count(v))
+            jObj[cPointer][name]["ref"] = ptr_2_pth[v];
         else
         {
             jObj[cPointer][name] = *v;
-            ptr_2_pth[v.get()] = cP + "/" + name;
+            ptr_2_pth[v] = cP + "/" + name;
         }
     }
 
@@ -207,13 +207,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
@@ -234,13 +234,13 @@ namespace DNDS::Serializer
 
         if (pth_2_ssp.count(refPath))
         {
-            v = *((ssp<tValue> *)(pth_2_ssp[refPath]));
+            v = std::static_pointer_cast<tValue>(pth_2_ssp[refPath]);
         }
         else
         {
             DNDS_assert(jObj[nlohmann::json::json_pointer(refPath)].is_array());
             v = std::make_shared<tValue>(jObj[nlohmann::json::json_pointer(refPath)].get<tValue>()); // vector's copy constructor
-            pth_2_ssp[refPath] = &v;
+            pth_2_ssp[refPath] = v;
         }
         offset = ArrayGlobalOffset_Unknown;
     }
diff --git a/src/DNDS/SerializerJSON.hpp b/src/DNDS/SerializerJSON.hpp
index c09513c..11c50fa 100644
--- a/src/DNDS/SerializerJSON.hpp
+++ b/src/DNDS/SerializerJSON.hpp
@@ -14,8 +14,8 @@ namespace DNDS::Serializer
         bool reading = true;
         std::vector<std::string> cPathSplit;
         std::string cP; // current path
-        std::map<void *, std::string> ptr_2_pth;
-        std::map<std::string, void *> pth_2_ssp;
+        std::map<ssp<void>, std::string> ptr_2_pth; // keeps what was written alive, so that its address is not reused
+        std::map<std::string, ssp<void>> pth_2_ssp;
 
         bool useCodecOnUint8{false};
         int deflateLevel{5};
-- 
2.43.0


From b207ca9d5896e332ee907e3808de4abb13a6e818 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 24/42] fix: start shared HDF5 vector reads from a defined size

---
 src/DNDS/SerializerH5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 76ed988..93ebf20 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -737,7 +737,7 @@ namespace DNDS::Serializer
             v = std::make_shared<tValue>();
             pth_2_ssp[refPath] = v;
 
-            size_t size;
+            size_t size{0};
             ReadDataVector<index>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
             v->resize(size);
             DNDS_assert(!(offset == ArrayGlobalOffset_Unknown));
@@ -770,7 +770,7 @@ namespace DNDS::Serializer
             v = std::make_shared<tValue>();
             pth_2_ssp[refPath] = v;
 
-            size_t size;
+            size_t size{0};
             ReadDataVector<rowsize>(refPath, nullptr, size, offset, h5file, reading, "/", mpi, collectiveMetadataRW, collectiveDataRW);
             v->resize(size);
             DNDS_assert(!(offset == ArrayGlobalOffset_Unknown));
-- 
2.43.0


From 569918275e90e60a7bc352dc87a699d62bfd554d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:30:04 +0000
Subject: [PATCH 25/42] fix: only share an HDF5 vector when all ranks share the
 same one

---
 src/DNDS/SerializerH5.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/DNDS/SerializerH5.cpp b/src/DNDS/SerializerH5.cpp
index 93ebf20..ac47bbf 100644
--- a/src/DNDS/SerializerH5.cpp
+++ b/src/DNDS/SerializerH5.cpp
@@ -1,5 +1,6 @@
 #include "SerializerH5.hpp"
 #include <algorithm>
+#include <limits>
 #include <string>
 #include <fmt/core.h>
 #include "DNDS/HDF5.hpp"
@@ -368,10 +369,22 @@ namespace DNDS::Serializer
     {
         WriteAttributeScalar<std::string>(name, v, h5file, reading, cP, collectiveMetadataRW);
     }
+    /**
+     * @brief if v has been written by every rank, and at the same path
+     */
+    static bool AllRanksWroteAtSamePath(const std::map<ssp<void>, std::string> &ptr_2_pth, const ssp<void> &v, const MPIInfo &mpi)
+    {
+        auto found = ptr_2_pth.find(v);
+        index pathKey = found == ptr_2_pth.end() ? -1 : index(std::hash<std::string>()(found->second) & size_t(std::numeric_limits<index>::max()));
+        index pathKeyMax = pathKey, pathKeyMin = pathKey;
+        MPI::AllreduceOneIndex(pathKeyMax, MPI_MAX, mpi);
+        MPI::AllreduceOneIndex(pathKeyMin, MPI_MIN, mpi);
+        return pathKeyMin >= 0 && pathKeyMin == pathKeyMax;
+    }
+
     void SerializerH5::WriteSharedIndexVector(const std::string &name, const ssp<std::vector<index>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
+        bool CanNotShare = !AllRanksWroteAtSamePath(ptr_2_pth, v, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
@@ -382,8 +395,7 @@ namespace DNDS::Serializer
     }
     void SerializerH5::WriteSharedRowsizeVector(const std::string &name, const ssp<std::vector<rowsize>> &v, ArrayGlobalOffset offset)
     {
-        index CanNotShare = ptr_2_pth.count(v) ? 0 : 1;
-        MPI::AllreduceOneIndex(CanNotShare, MPI_MAX, MPIInfo{commDup, mpi.rank, mpi.size});
+        bool CanNotShare = !AllRanksWroteAtSamePath(ptr_2_pth, v, MPIInfo{commDup, mpi.rank, mpi.size});
         if (!CanNotShare)
             this->WriteString(name + "::ref", ptr_2_pth[v]);
         else
-- 
2.43.0


From 6b21fa1a8d5452f50c5ba0d54ec88b43d90afe31 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:37:46 +0000
Subject: [PATCH 26/42] fix: reading an array of empty fixed-size rows does not
 divide by zero

---
 src/DNDS/Array.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DNDS/Array.hpp b/src/DNDS/Array.hpp
index 2d70b0f..0b68b8b 100644
--- a/src/DNDS/Array.hpp
+++ b/src/DNDS/Array.hpp
@@ -790,8 +790,11 @@ namespace DNDS
                 this->__ReadSerializerData(serializerP, offsetV);
                 if constexpr (_dataLayout == TABLE_StaticFixed || _dataLayout == TABLE_Fixed)
                 {
-                    offsetV.CheckMultipleOf(this->RowSize());
-                    offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                    if (this->RowSize() > 0) // rows without entries have no place in the data
+                    {
+                        offsetV.CheckMultipleOf(this->RowSize());
+                        offset = offsetV / this->RowSize(); // to make sure offset in the output is valid (on the elements)
+                    }
                 }
             }
             // TODO: check data validity
-- 
2.43.0


From 1393b64583ddcf26f1a66ce14a3cc79cd7c91f3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:44:44 +0000
Subject: [PATCH 27/42] fix: read the row counts of non-uniform
 ArrayEigenMatrix from their own offset

---
 src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
index af14706..509f544 100644
--- a/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
+++ b/src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp
@@ -229,13 +229,13 @@ namespace DNDS
                 _mat_nRow_dynamic = v_mat_ni;
             if (v_mat_ni == NonUniformSize) // TODO: complete here!
             {
-
+                Serializer::ArrayGlobalOffset offsetRows = Serializer::ArrayGlobalOffset_Unknown; // that of the data was already read into offset
                 if constexpr (_mat_ni == NonUniformSize)
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offset); // TODO: multiple write to offset, check?
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", _mat_nRows, offsetRows);
                 else
                 {
                     t_pRowSizes v_mat_nRows;
-                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offset);
+                    serializerP->ReadSharedRowsizeVector("mat_nRows", v_mat_nRows, offsetRows);
                     int c_mat_nRow_dynamic = v_mat_nRows->size() ? 0 : v_mat_nRows->at(0);
                     for (auto i = 0; i < v_mat_nRows->size(); ++i)
                         DNDS_assert(v_mat_nRows->operator[](i) == c_mat_nRow_dynamic);
-- 
2.43.0


From e8861f972722fff665011442a040f8169758bb80 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:05:52 +0000
Subject: [PATCH 28/42] fix: Boost RCM ordering covers every connected part of
 the local graph

---
 src/Geom/SerialAdjReordering.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Geom/SerialAdjReordering.hpp b/src/Geom/SerialAdjReordering.hpp
index 6807770..2f4e6d2 100644
--- a/src/Geom/SerialAdjReordering.hpp
+++ b/src/Geom/SerialAdjReordering.hpp
@@ -93,7 +93,6 @@ namespace DNDS::Geom
         std::vector<index> localFillOrderingNew2Old, localFillOrderingOld2New;
         using namespace boost;
         using Graph = adjacency_list<vecS, vecS, undirectedS, property<vertex_color_t, default_color_type, property<vertex_degree_t, int>>>;
-        using Vertex = graph_traits<Graph>::vertex_descriptor;
         // typedef graph_traits<Graph>::vertices_size_type size_type;
         Graph cell2cellG(mat.size());
         const std::vector<std::vector<index>> &cell2cellFaceV = mat;
@@ -103,8 +102,8 @@ namespace DNDS::Geom
                 add_edge(iCell, iCOther, cell2cellG), bandWidthOld = std::max(bandWidthOld, std::abs(iCell - iCOther));
         localFillOrderingNew2Old.resize(mat.size(), 0);
         localFillOrderingOld2New.resize(mat.size(), 0);
-        Vertex startVert = vertex(0, cell2cellG);
-        cuthill_mckee_ordering(cell2cellG, startVert, localFillOrderingNew2Old.rbegin(),
+        // no start vertex given: one is selected for each connected part
+        cuthill_mckee_ordering(cell2cellG, localFillOrderingNew2Old.rbegin(),
                                get(vertex_color, cell2cellG), get(vertex_degree, cell2cellG));
         std::unordered_set<index> __checkOrder;
         for (auto v : localFillOrderingNew2Old)
-- 
2.43.0


From 4300222685250461cb3539b69a3b96537b8398fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 29/42] fix: BDF StepPP adds the right-hand side, not the
 residual, to the residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 9336fac..028fa52 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -456,7 +456,7 @@ namespace DNDS::ODE
                 rhs.addTo(xLast, 1 / dt);
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
-                rhs.addTo(rhs, BDFCoefs(kCurrent - 1, 0));
+                rhs.addTo(rhsbuf[0], BDFCoefs(kCurrent - 1, 0));
                 fsolve(x, rhs, resOther, dTau, dt, BDFCoefs(kCurrent - 1, 0), xinc, iter, 1.0, 0);
                 //* xinc = (I/dtau-A*alphaDiag)\rhs
 
-- 
2.43.0


From da5ec0170d783456bff6a635e40f3d1930998802 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 30/42] fix: VBDF StepPP evaluates the right-hand side it
 limits

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 028fa52..fb0fec8 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -725,7 +725,7 @@ namespace DNDS::ODE
             {
                 fdt(x, dTau, BDFCoefs(0), 0);
 
-                frhs(rhs, x, dTau, iter, 1.0, 0);
+                frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
                 xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
-- 
2.43.0


From 2b3e0083a89c1fce5e851c714c74a0225e57113b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 31/42] fix: VBDF StepPP limits increments from a base state,
 not a state over dt

---
 src/Solver/ODE.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index fb0fec8..e717cfd 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -728,12 +728,12 @@ namespace DNDS::ODE
                 frhs(rhsbuf[0], x, dTau, iter, 1.0, 0);
 
                 xBase.setConstant(0.0);
-                xBase.addTo(xLast, (BDFCoefs(1) - 0) / dt); // 0 because xBase includes xLast/dt part
+                xBase.addTo(xLast, BDFCoefs(1) - 0); // 0 because xBase includes xLast part
                 if (prevSiz)
                     for (index iPrev = 0; iPrev < cnPrev; iPrev++)
                     {
                         // std::cout << "add " << BDFCoefs(2 + iPrev) <<" " << mod(iPrev + prevStart, prevSiz) << std::endl;
-                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev) / dt);
+                        xBase.addTo(xPrevs[mod(iPrev + prevStart, prevSiz)], BDFCoefs(2 + iPrev));
                     }
                 fresidualIncPP(
                     x, xBase, rhsbuf[0], resInc,
@@ -753,13 +753,14 @@ namespace DNDS::ODE
                         // falphaLimSource(resInc, 0); // non-rhs part of residual, fixed with alpha too
                         // *****
                         resInc.addTo(rhsbuf[0], BDFCoefs(0));
-                        resInc *= dt; // so that equation is resInc == x - xLast
+                        resInc *= dt; // so that equation is resInc == x - xBase
                     },
                     1.0,
                     0);
 
                 rhs = xBase;
-                // rhs.addTo(xLast, 1 / dt); // 0 because xBase includes xLast/dt part
+                rhs *= 1. / dt;
+                // rhs.addTo(xLast, 1 / dt); // 0 because xBase includes xLast part
                 resOther = rhs;
                 rhs.addTo(x, -1. / dt);
                 rhs.addTo(rhsbuf[0], BDFCoefs(0));
-- 
2.43.0


From f0a52ecfe1a5556feb135b27c1d57992d9070dac Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 32/42] fix: VBDF getLatestRHS returns the right-hand side, not
 the residual

---
 src/Solver/ODE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index e717cfd..8dd771d 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -794,7 +794,7 @@ namespace DNDS::ODE
 
         virtual TDATA &getLatestRHS() override
         {
-            return rhs;
+            return rhsbuf[0];
         }
 
         virtual ~ImplicitVBDFDualTimeStep() = default;
-- 
2.43.0


From 9ea14b0804c134fb1e7df6381f682ca9175975ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 33/42] fix: SSPRK3 evaluates its stages at their own times

---
 src/Solver/ODE.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 8dd771d..e5f32ca 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -1226,7 +1226,7 @@ namespace DNDS::ODE
             // MPI::Barrier(MPI_COMM_WORLD);
             // std::cout << "fucked" << std::endl;
 
-            frhs(rhs, x, dTau, 1, 0.5, 0);
+            frhs(rhs, x, dTau, 1, 0.0, 0);
             rhsbuf[0] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
@@ -1247,7 +1247,7 @@ namespace DNDS::ODE
             // x.addTo(rhs, 0.25);
             fincrement(x, rhs, 0.25, 0);
 
-            frhs(rhs, x, dTau, 1, 0.25, 0);
+            frhs(rhs, x, dTau, 1, 0.5, 0);
             rhsbuf[2] = rhs;
             if (localDtStepping)
                 rhs *= dTau;
-- 
2.43.0


From 9f2be05fcc2867cde4a2910c6ef3eae112a8c911 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 34/42] fix: Hermite-3 starter iterations apply their increment

---
 src/Solver/ODE.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index e5f32ca..2d2da80 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -978,6 +978,7 @@ namespace DNDS::ODE
                     rhsFull.addTo(x, -1. / dt);
                     rhsFull += rhsbuf[1];
                     fsolve(x, rhsFull, resOther, dTau, dt, 1.0, xinc, iter, 1.0, 0);
+                    fincrement(x, xinc, 1.0, 0);
                 }
                 else
                 {
-- 
2.43.0


From c571da0b5c344cdcd689dc16866cac7cac861b46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:33:29 +0000
Subject: [PATCH 35/42] fix: Hermite-3 start-up step evaluates its interior
 stage at the point its coefficients use

---
 src/Solver/ODE.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Solver/ODE.hpp b/src/Solver/ODE.hpp
index 2d2da80..560d35c 100644
--- a/src/Solver/ODE.hpp
+++ b/src/Solver/ODE.hpp
@@ -839,6 +839,7 @@ namespace DNDS::ODE
         int nStartIter = 0;
         real thetaM1 = 0.9146;
         real alphaHM3 = 0.5;
+        real alphaHM3Exe = 0.5;
         int maskHM3 = 0;
         int maskHM3Exe = 0;
 
@@ -933,6 +934,7 @@ namespace DNDS::ODE
                 break;
             }
 
+            alphaHM3Exe = alpha;
             wInteg[0] = (-1.0 / 6.0) / alpha + 1.0 / 2.0;
             wInteg[1] = (-1.0 / 6.0) / (alpha * (alpha - 1.0));
             wInteg[2] = 1.0 / (alpha * 6.0 - 6.0) + 1.0 / 2.0;
@@ -1011,12 +1013,12 @@ namespace DNDS::ODE
                                 rhsMid.addTo(rhsbuf[2], thetaCur * wInteg(1));
                             }
                             fdt(xMid, dTau, 1.0, 1);
-                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3, 1);
+                            fsolve(xMid, rhsMid, resOther, dTau, dt, std::abs(thetaCur * wInteg(1)), xinc, iter, alphaHM3Exe, 1);
                         }
 
                         fincrement(xMid, xinc, 1.0, 1);
 
-                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3, 1);
+                        frhs(rhsbuf[2], xMid, dTau, iter, alphaHM3Exe, 1);
 
                         rhsFull.setConstant(0.0);
                         {
-- 
2.43.0


From 0402204f96335708bdb7d84688a24b3ff6f8f02c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 06:41:13 +0000
Subject: [PATCH 36/42] fix: GMRES uses the column that closes an invariant
 subspace

---
 src/Solver/Linear.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Solver/Linear.hpp b/src/Solver/Linear.hpp
index f7f0169..fd9b036 100644
--- a/src/Solver/Linear.hpp
+++ b/src/Solver/Linear.hpp
@@ -78,9 +78,10 @@ namespace DNDS::Linear
                         Vs[j + 1].addTo(Vs[i], -h(i, j)); // Vs[j + 1] = ML * A * Vs[j] - sum_{i=0,1,...j}(h(i,j) *  Vs[i])
                     }
                     h(j + 1, j) = std::sqrt(fDot(Vs[j + 1], Vs[j + 1])); //
-                    if (h(j + 1, j) < scale_MLb * 1e-32)
+                    if (h(j + 1, j) <= scale_MLb * 1e-32)
                     {
                         std::cout << "early stop" << std::endl;
+                        j++; // the subspace is invariant: column j is complete
                         break;
                     }
                     Vs[j + 1] *= 1.0 / h(j + 1, j); // normalize
-- 
2.43.0


From 46f919f28295ed74118f325cff11091a648461cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 37/42] fix: list a local face neighbour once when two cells
 share two faces

Two cells of a periodic mesh can share two faces; the duplicate entries made
ReorderLocalCells() refuse the mesh.
---
 src/Geom/Mesh_Serial_Partition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geom/Mesh_Serial_Partition.cpp b/src/Geom/Mesh_Serial_Partition.cpp
index 4f3cc95..04ef0b7 100644
--- a/src/Geom/Mesh_Serial_Partition.cpp
+++ b/src/Geom/Mesh_Serial_Partition.cpp
@@ -190,7 +190,8 @@ namespace DNDS::Geom
                 {
                     index iCellOther = this->CellFaceOther(iCell, iFace);
                     if (iCellOther != UnInitIndex && iCellOther < this->NumCell()) //! must be local not ghost ptrs
-                        cell2cellFaceV[iCell].push_back(iCellOther);
+                        if (std::find(cell2cellFaceV[iCell].begin(), cell2cellFaceV[iCell].end(), iCellOther) == cell2cellFaceV[iCell].end()) // two cells may share two faces via periodic
+                            cell2cellFaceV[iCell].push_back(iCellOther);
                 }
             }
         }
-- 
2.43.0


From 75d488c8d0c330a2c4efdc43ff3584d771dc4e9e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 38/42] fix: rebuild vtkCell2node instead of appending to it

A second BuildVTKConnectivity() (needed after reordering) left the old
connectivity in front of the new one.
---
 src/Geom/Mesh_Serial_BuildCell2Cell.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
index 7176c5e..48c7f68 100644
--- a/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
+++ b/src/Geom/Mesh_Serial_BuildCell2Cell.cpp
@@ -617,6 +617,7 @@ namespace DNDS::Geom
             vtkCellType[iC] = vtkType;
             vtkCell2nodeOffsets[iC + 1] = vtkCell2nodeOffsets[iC] + vtkC2n.size();
         }
+        vtkCell2node.clear();
         vtkCell2node.reserve(vtkCell2nodeOffsets.back()); // now offsets are local
         for (index iC = 0; iC < cell2node.father->Size(); iC++)
         {
-- 
2.43.0


From 25b3df2e96eddde835062cd7bfbfb95963c7545b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 07:58:04 +0000
Subject: [PATCH 39/42] fix: IsO1/IsO2 answer for the whole mesh on every rank

The reduced flag was computed but the local one returned, so ranks disagreed
on a mesh whose cells differ in order between ranks.
---
 src/Geom/Mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geom/Mesh.cpp b/src/Geom/Mesh.cpp
index 4e9d3f8..19dff85 100644
--- a/src/Geom/Mesh.cpp
+++ b/src/Geom/Mesh.cpp
@@ -453,7 +453,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     bool UnstructuredMesh::IsO2()
@@ -481,7 +481,7 @@ namespace DNDS::Geom
         }
         int hasBadAll;
         MPI::Allreduce(&hasBad, &hasBadAll, 1, MPI_INT, MPI_SUM, mpi.comm);
-        return hasBad == 0;
+        return hasBadAll == 0;
     }
 
     using tIndexMapFunc = std::function<index(index)>;
-- 
2.43.0


From 80c9a1c4fabfeefbae5dd73ee1e474e856a97c36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:30:47 +0000
Subject: [PATCH 40/42] fix: size the boundary state in least-squares gradients
 with a run-time variable count

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index 8f6d6eb..8567926 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -350,9 +350,7 @@ namespace DNDS
                             auto faceID = mesh->GetFaceZone(iFace);
                             DNDS_assert(FaceIDIsExternalBC(faceID));
 
-                            Eigen::Vector<real, nVarsFixed> uBL;
-                            uBL.setZero();
-                            uBL += u[iCell]; //! need fixing?
+                            Eigen::Vector<real, nVarsFixed> uBL = u[iCell]; //! need fixing?
                             Eigen::Vector<real, nVarsFixed> uBV =
                                 FBoundary(
                                     uBL,
-- 
2.43.0


From f5b9bcd1397c106e0830e46abf65ca1dc6ccd759 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:55:50 +0000
Subject: [PATCH 41/42] fix: SOR reconstruction takes boundary values from the
 cell's whole polynomial

The sweep accumulated into uRec[iCell] while GetBoundaryRHS read the same,
half-summed coefficients, so its fixed point was not that of the system
(and depended on the order of the faces) wherever boundary values depend
on the inner ones.
---
 .../VariationalReconstruction_Reconstruction.hxx   | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index 8567926..adc5f0f 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -488,9 +488,7 @@ namespace DNDS
                     else
                         uRecNew[iCell] = uRec[iCell];
                 }
-                else if (settings.SORInstead)
-                    uRec[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
-                else
+                else // accumulated apart from uRec[iCell], which the boundary values are taken from
                     uRecNew[iCell] = uRec[iCell] * ((recordInc ? 0 : 1) - relax);
 
                 auto c2f = mesh->cell2face[iCell];
@@ -526,11 +524,6 @@ namespace DNDS
                                     (matrixAAInvBRow[ic2f + 1] * uRecOther +
                                      vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
                         }
-                        else if (settings.SORInstead)
-                            uRec[iCell] +=
-                                relax *
-                                (matrixAAInvBRow[ic2f + 1] * uRecOther +
-                                 vectorAInvBRow[ic2f] * (uOther - u[iCell].transpose()));
                         else
                             uRecNew[iCell] +=
                                 relax *
@@ -549,14 +542,13 @@ namespace DNDS
                                 uRecNew[iCell] -=
                                     matrixAAInvBRow[0] * BCC;
                         }
-                        else if (settings.SORInstead && !recordInc)
-                            uRec[iCell] +=
-                                relax * matrixAAInvBRow[0] * BCC;
                         else
                             uRecNew[iCell] +=
                                 relax * matrixAAInvBRow[0] * BCC;
                     }
                 }
+                if (settings.SORInstead && !recordInc)
+                    uRec[iCell] = uRecNew[iCell];
                 if ((!uRecNew[iCell].allFinite()) || (!uRec[iCell].allFinite()))
                 {
                     DNDS_assert(false);
-- 
2.43.0


From 57c3907594af9978a286edb1723cce8a671b5b0f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 08:55:50 +0000
Subject: [PATCH 42/42] fix: SOR preconditioner of the reconstruction takes
 boundary values from the cell's whole increment

---
 src/CFV/VariationalReconstruction_Reconstruction.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CFV/VariationalReconstruction_Reconstruction.hxx b/src/CFV/VariationalReconstruction_Reconstruction.hxx
index adc5f0f..b58158d 100644
--- a/src/CFV/VariationalReconstruction_Reconstruction.hxx
+++ b/src/CFV/VariationalReconstruction_Reconstruction.hxx
@@ -660,7 +660,7 @@ namespace DNDS
                     iCell = mesh->NumCell() - 1 - iCell;
                 real relax = cellAtr[iCell].relax;
 
-                uRecNew[iCell] = (1 - relax) * uRecNew[iCell] + uRecInc[iCell];
+                Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> uRecSum = (1 - relax) * uRecNew[iCell] + uRecInc[iCell];
 
                 auto c2f = mesh->cell2face[iCell];
                 auto matrixAAInvBRow = matrixAAInvB[iCell];
@@ -683,15 +683,16 @@ namespace DNDS
                                 (if2c == 0 && Geom::FaceIDIsPeriodicMain(faceID))) // I am main
                                 FTransPeriodicBack(uRecOtherNew, faceID);
                         }
-                        uRecNew[iCell] += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
+                        uRecSum += relax * matrixAAInvBRow[ic2f + 1] * uRecOtherNew; // mind the sign
                     }
                     else
                     {
                         Eigen::Matrix<real, Eigen::Dynamic, nVarsFixed> BCC = GetBoundaryRHSDiff(uRec, uRecNew, u, iCell, iFace, FBoundaryDiff);
                         // BCC *= 0;
-                        uRecNew[iCell] += relax * matrixAAInvBRow[0] * BCC; // mind the sign
+                        uRecSum += relax * matrixAAInvBRow[0] * BCC; // mind the sign
                     }
                 }
+                uRecNew[iCell] = uRecSum;
             }
         }
     }
-- 
2.43.0


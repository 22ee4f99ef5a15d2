From 4e44ce15d787cd6c92709ca8f14d31b7bf891b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 01/15] fix: allocate enough KdTree nodes for max_leaf_size of
 1 or 2

---
 include/small_gicp/ann/kdtree.hpp     | 3 ++-
 include/small_gicp/ann/kdtree_omp.hpp | 3 ++-
 include/small_gicp/ann/kdtree_tbb.hpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index b0d7b34..a40d521 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -82,7 +82,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     size_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // A tree split down to single-point leaves has 2N - 1 nodes.
+    kdtree.nodes.resize(max_leaf_size > 2 ? traits::size(points) : 2 * traits::size(points));
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
diff --git a/include/small_gicp/ann/kdtree_omp.hpp b/include/small_gicp/ann/kdtree_omp.hpp
index 2968a5e..ef3a7b9 100644
--- a/include/small_gicp/ann/kdtree_omp.hpp
+++ b/include/small_gicp/ann/kdtree_omp.hpp
@@ -26,7 +26,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // A tree split down to single-point leaves has 2N - 1 nodes.
+    kdtree.nodes.resize(max_leaf_size > 2 ? traits::size(points) : 2 * traits::size(points));
 
 #ifndef _MSC_VER
 #pragma omp parallel num_threads(num_threads)
diff --git a/include/small_gicp/ann/kdtree_tbb.hpp b/include/small_gicp/ann/kdtree_tbb.hpp
index 890fbb8..35022e5 100644
--- a/include/small_gicp/ann/kdtree_tbb.hpp
+++ b/include/small_gicp/ann/kdtree_tbb.hpp
@@ -18,7 +18,8 @@ public:
     std::iota(kdtree.indices.begin(), kdtree.indices.end(), 0);
 
     std::atomic_uint64_t node_count = 0;
-    kdtree.nodes.resize(traits::size(points));
+    // A tree split down to single-point leaves has 2N - 1 nodes.
+    kdtree.nodes.resize(max_leaf_size > 2 ? traits::size(points) : 2 * traits::size(points));
     kdtree.root = create_node(kdtree, node_count, points, kdtree.indices.begin(), kdtree.indices.begin(), kdtree.indices.end());
     kdtree.nodes.resize(node_count);
   }
-- 
2.43.0


From abb8b83f60aa523af90d930dbe1ff5b4e843a17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 02/15] fix: report no neighbors when querying an empty KdTree

---
 include/small_gicp/ann/kdtree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/small_gicp/ann/kdtree.hpp b/include/small_gicp/ann/kdtree.hpp
index a40d521..9785990 100644
--- a/include/small_gicp/ann/kdtree.hpp
+++ b/include/small_gicp/ann/kdtree.hpp
@@ -171,6 +171,10 @@ public:
   /// @param  setting     KNN search setting
   /// @return             Number of found neighbors
   size_t knn_search(const Eigen::Vector4d& query, int k, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
+    if (nodes.empty()) {
+      return 0;
+    }
+
     KnnResult<-1> result(k_indices, k_sq_dists, k);
     knn_search(query, root, result, setting);
     return result.num_found();
@@ -184,6 +188,10 @@ public:
   /// @return            Number of found neighbors
   template <int N>
   size_t knn_search(const Eigen::Vector4d& query, size_t* k_indices, double* k_sq_dists, const KnnSetting& setting = KnnSetting()) const {
+    if (nodes.empty()) {
+      return 0;
+    }
+
     KnnResult<N> result(k_indices, k_sq_dists);
     knn_search(query, root, result, setting);
     return result.num_found();
-- 
2.43.0


From 951fb14fd9b76e347cf6d7aedc3402a40e02eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 03/15] fix: do not emit voxelgrid points for blocks of
 out-of-range points only

---
 include/small_gicp/util/downsampling.hpp     | 5 +++++
 include/small_gicp/util/downsampling_omp.hpp | 5 +++++
 include/small_gicp/util/downsampling_tbb.hpp | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/small_gicp/util/downsampling.hpp b/include/small_gicp/util/downsampling.hpp
index 97aab23..7c9987b 100644
--- a/include/small_gicp/util/downsampling.hpp
+++ b/include/small_gicp/util/downsampling.hpp
@@ -53,6 +53,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling(const InputPointCloud& poin
   const auto compare = [](const auto& lhs, const auto& rhs) { return lhs.first < rhs.first; };
   std::sort(coord_pt.begin(), coord_pt.end(), compare);
 
+  // Points outside the valid range are sorted to the end. If the first one is invalid, there are no valid points.
+  if (coord_pt.front().first == invalid_coord) {
+    return std::make_shared<OutputPointCloud>();
+  }
+
   auto downsampled = std::make_shared<OutputPointCloud>();
   traits::resize(*downsampled, traits::size(points));
 
diff --git a/include/small_gicp/util/downsampling_omp.hpp b/include/small_gicp/util/downsampling_omp.hpp
index b616fe7..ba91370 100644
--- a/include/small_gicp/util/downsampling_omp.hpp
+++ b/include/small_gicp/util/downsampling_omp.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_omp(const InputPointCloud&
 
 #pragma omp parallel for num_threads(num_threads) schedule(guided, 4)
   for (std::int64_t block_begin = 0; block_begin < traits::size(points); block_begin += block_size) {
+    // Points outside the valid range are sorted to the end. If the first one is invalid, this block has no valid points.
+    if (coord_pt[block_begin].first == invalid_coord) {
+      continue;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
diff --git a/include/small_gicp/util/downsampling_tbb.hpp b/include/small_gicp/util/downsampling_tbb.hpp
index 8d5746e..b2242b0 100644
--- a/include/small_gicp/util/downsampling_tbb.hpp
+++ b/include/small_gicp/util/downsampling_tbb.hpp
@@ -64,6 +64,11 @@ std::shared_ptr<OutputPointCloud> voxelgrid_sampling_tbb(const InputPointCloud&
   const int block_size = 2048;
   std::atomic_uint64_t num_points = 0;
   tbb::parallel_for(tbb::blocked_range<size_t>(0, traits::size(points), block_size), [&](const tbb::blocked_range<size_t>& range) {
+    // Points outside the valid range are sorted to the end. If the first one is invalid, this block has no valid points.
+    if (coord_pt[range.begin()].first == invalid_coord) {
+      return;
+    }
+
     std::vector<Eigen::Vector4d> sub_points;
     sub_points.reserve(block_size);
 
-- 
2.43.0


From c946f8b6e66de01365a152ffae405f69bd8894ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:40 +0000
Subject: [PATCH 04/15] fix: replace instead of extend the search offsets of
 IncrementalVoxelMap when 27 offsets are requested

---
 include/small_gicp/ann/incremental_voxelmap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index faa74f0..6ca65ef 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -173,6 +173,7 @@ public:
           Eigen::Vector3i(0, 0, -1)};
         break;
       case 27:
+        search_offsets.clear();
         for (int i = -1; i <= 1; i++) {
           for (int j = -1; j <= 1; j++) {
             for (int k = -1; k <= 1; k++) {
-- 
2.43.0


From 73b634bf12870f6beb604029ba3332e26429d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:11 +0000
Subject: [PATCH 05/15] fix: keep IncrementalVoxelMap consistent when an
 allocation fails during insertion

---
 include/small_gicp/ann/flat_container.hpp     |  7 +++-
 .../small_gicp/ann/incremental_voxelmap.hpp   | 41 ++++++++++++-------
 2 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/include/small_gicp/ann/flat_container.hpp b/include/small_gicp/ann/flat_container.hpp
index cf6f83d..213a8b9 100644
--- a/include/small_gicp/ann/flat_container.hpp
+++ b/include/small_gicp/ann/flat_container.hpp
@@ -48,13 +48,18 @@ public:
       return;
     }
 
-    this->points.emplace_back(transformed_pt);
+    // The attributes are added before the point so that size() counts only complete points even if an allocation fails.
+    // resize() discards the attributes left behind by such an incomplete insertion.
+    const size_t num_points = this->points.size();
     if constexpr (HasNormals) {
+      this->normals.resize(num_points);
       this->normals.emplace_back(T.matrix() * traits::normal(points, i));
     }
     if constexpr (HasCovs) {
+      this->covs.resize(num_points);
       this->covs.emplace_back(T.matrix() * traits::cov(points, i) * T.matrix().transpose());
     }
+    this->points.emplace_back(transformed_pt);
   }
 
   /// @brief Finalize the container (Nothing to do for FlatContainer).
diff --git a/include/small_gicp/ann/incremental_voxelmap.hpp b/include/small_gicp/ann/incremental_voxelmap.hpp
index 6ca65ef..5f66ddf 100644
--- a/include/small_gicp/ann/incremental_voxelmap.hpp
+++ b/include/small_gicp/ann/incremental_voxelmap.hpp
@@ -52,6 +52,16 @@ public:
   /// @param T      Transformation matrix
   template <typename PointCloud>
   void insert(const PointCloud& points, const Eigen::Isometry3d& T = Eigen::Isometry3d::Identity()) {
+    // Finalize voxel means and covs at the end (also when the insertion is aborted by an exception)
+    struct Finalizer {
+      ~Finalizer() {
+        for (auto& voxel : voxelmap.flat_voxels) {
+          voxel->second.finalize();
+        }
+      }
+      IncrementalVoxelMap& voxelmap;
+    } finalizer{*this};
+
     // Insert points to the voxelmap
     for (size_t i = 0; i < traits::size(points); i++) {
       const Eigen::Vector4d pt = T * traits::point(points, i);
@@ -61,8 +71,13 @@ public:
       if (found == voxels.end()) {
         auto voxel = std::make_shared<std::pair<VoxelInfo, VoxelContents>>(VoxelInfo(coord, lru_counter), VoxelContents());
 
-        found = voxels.emplace_hint(found, coord, flat_voxels.size());
         flat_voxels.emplace_back(voxel);
+        try {
+          found = voxels.emplace_hint(found, coord, flat_voxels.size() - 1);
+        } catch (...) {
+          flat_voxels.pop_back();
+          throw;
+        }
       }
 
       auto& [info, voxel] = *flat_voxels[found->second];
@@ -72,21 +87,19 @@ public:
 
     if ((++lru_counter) % lru_clear_cycle == 0) {
       // Remove least recently used voxels
-      auto remove_counter = std::remove_if(flat_voxels.begin(), flat_voxels.end(), [&](const std::shared_ptr<std::pair<VoxelInfo, VoxelContents>>& voxel) {
-        return voxel->first.lru + lru_horizon < lru_counter;
-      });
-      flat_voxels.erase(remove_counter, flat_voxels.end());
-
-      // Rehash
-      voxels.clear();
-      for (size_t i = 0; i < flat_voxels.size(); i++) {
-        voxels[flat_voxels[i]->first.coord] = i;
+      const auto is_expired = [&](const std::shared_ptr<std::pair<VoxelInfo, VoxelContents>>& voxel) { return voxel->first.lru + lru_horizon < lru_counter; };
+
+      // Rehash (before removing voxels so that the voxelmap is left intact if this fails)
+      decltype(voxels) rehashed;
+      size_t num_voxels = 0;
+      for (const auto& voxel : flat_voxels) {
+        if (!is_expired(voxel)) {
+          rehashed[voxel->first.coord] = num_voxels++;
+        }
       }
-    }
 
-    // Finalize voxel means and covs
-    for (auto& voxel : flat_voxels) {
-      voxel->second.finalize();
+      flat_voxels.erase(std::remove_if(flat_voxels.begin(), flat_voxels.end(), is_expired), flat_voxels.end());
+      voxels.swap(rehashed);
     }
   }
 
-- 
2.43.0


From ce019262443e70cc39d6734e25d8fc4e3d45767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 06/15] fix: add the general factor's error to the new error in
 LevenbergMarquardtOptimizer

---
 include/small_gicp/registration/optimizer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/small_gicp/registration/optimizer.hpp b/include/small_gicp/registration/optimizer.hpp
index cfbf52f..430c5fa 100644
--- a/include/small_gicp/registration/optimizer.hpp
+++ b/include/small_gicp/registration/optimizer.hpp
@@ -111,7 +111,7 @@ struct LevenbergMarquardtOptimizer {
         // Validte new solution
         const Eigen::Isometry3d new_T = result.T_target_source * se3_exp(delta);
         double new_e = reduction.error(target, source, new_T, factors);
-        general_factor.update_error(target, source, new_T, &e);
+        general_factor.update_error(target, source, new_T, &new_e);
 
         if (verbose) {
           std::cout << "iter=" << i << " inner=" << j << " e=" << e << " new_e=" << new_e << " lambda=" << lambda << " dt=" << delta.tail<3>().norm()
-- 
2.43.0


From b90287c9bcb9bdfc2890631312397ebf14aaa8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 07/15] fix: respect num_threads in the downsampling step of
 preprocess_points

---
 src/small_gicp/registration/registration_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index 73b01bd..aa86700 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -26,7 +26,7 @@ std::pair<PointCloud::Ptr, std::shared_ptr<KdTree<PointCloud>>> preprocess_point
     estimate_normals_covariances(*downsampled, *kdtree, num_neighbors);
     return {downsampled, kdtree};
   } else {
-    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution);
+    auto downsampled = voxelgrid_sampling_omp(points, downsampling_resolution, num_threads);
     auto kdtree = std::make_shared<KdTree<PointCloud>>(downsampled);
     estimate_normals_covariances_omp(*downsampled, *kdtree, num_neighbors, num_threads);
     return {downsampled, kdtree};
-- 
2.43.0


From b591736d288faa1ead0c3ee36de4e8b354fe0c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 08/15] fix: validate the given resolution and drop voxelmaps
 of another resolution in RegistrationPCL::setVoxelResolution

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 315ff67..6eb4ba9 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -159,11 +159,15 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
 
 template <typename PointSource, typename PointTarget>
 void RegistrationPCL<PointSource, PointTarget>::setVoxelResolution(double r) {
-  if (voxel_resolution_ <= 0) {
+  if (r <= 0) {
     PCL_ERROR("[RegistrationPCL::setVoxelResolution] Invalid voxel resolution: %f\n", r);
     r = 1.0;
   }
 
+  if (voxel_resolution_ != r) {
+    source_voxelmap_.reset();
+    target_voxelmap_.reset();
+  }
   voxel_resolution_ = r;
 }
 
-- 
2.43.0


From 08f8de458537cfafa4c6dd6e3d46fceb3c43bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 09/15] fix: rebuild the voxelmaps of RegistrationPCL when
 covariances are set

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 6eb4ba9..b10f49a 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -74,6 +74,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
@@ -89,6 +90,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_voxelmap_.reset();
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From b6bc0e71f295fc441a1d680f64137eebc9ef6b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 10/15] fix: update the search tree of pcl::Registration after
 RegistrationPCL::swapSourceAndTarget

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index b10f49a..0ecf6e6 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -117,6 +117,10 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
   source_voxelmap_.swap(target_voxelmap_);
+
+  // Let pcl::Registration update its own search trees
+  this->source_cloud_updated_ = true;
+  this->target_cloud_updated_ = true;
 }
 
 template <typename PointSource, typename PointTarget>
-- 
2.43.0


From 79c24c55e3cc581defdca4084c842841322e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 11/15] fix: keep RegistrationPCL consistent when an input
 cloud is rejected or its KdTree cannot be built

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 0ecf6e6..21603c1 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -43,8 +43,14 @@ void RegistrationPCL<PointSource, PointTarget>::setInputSource(const PointCloudS
     return;
   }
 
+  if (cloud->empty()) {
+    PCL_ERROR("[RegistrationPCL::setInputSource] Invalid or empty point cloud dataset given!\n");
+    return;
+  }
+
+  auto tree = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(cloud, KdTreeBuilderOMP(num_threads_));
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputSource(cloud);
-  source_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointSource>>>(input_, KdTreeBuilderOMP(num_threads_));
+  source_tree_ = tree;
   source_covs_.clear();
   source_voxelmap_.reset();
 }
@@ -55,8 +61,14 @@ void RegistrationPCL<PointSource, PointTarget>::setInputTarget(const PointCloudT
     return;
   }
 
+  if (cloud->empty()) {
+    PCL_ERROR("[RegistrationPCL::setInputTarget] Invalid or empty point cloud dataset given!\n");
+    return;
+  }
+
+  auto tree = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(cloud, KdTreeBuilderOMP(num_threads_));
   pcl::Registration<PointSource, PointTarget, Scalar>::setInputTarget(cloud);
-  target_tree_ = std::make_shared<KdTree<pcl::PointCloud<PointTarget>>>(target_, KdTreeBuilderOMP(num_threads_));
+  target_tree_ = tree;
   target_covs_.clear();
   target_voxelmap_.reset();
 }
-- 
2.43.0


From 5c6e14903291a81e4959288e27691609f119fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 12/15] fix: do not cache a partially filled voxelmap in
 RegistrationPCL

---
 include/small_gicp/pcl/pcl_registration_impl.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 21603c1..36ba9eb 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -248,12 +248,14 @@ void RegistrationPCL<PointSource, PointTarget>::computeTransformation(PointCloud
     result_ = registration.align(target_proxy, source_proxy, *target_tree_, Eigen::Isometry3d(guess.template cast<double>()));
   } else if (registration_type_ == "VGICP") {
     if (!target_voxelmap_) {
-      target_voxelmap_ = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
-      target_voxelmap_->insert(target_proxy);
+      auto voxelmap = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
+      voxelmap->insert(target_proxy);
+      target_voxelmap_ = voxelmap;
     }
     if (!source_voxelmap_) {
-      source_voxelmap_ = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
-      source_voxelmap_->insert(source_proxy);
+      auto voxelmap = std::make_shared<GaussianVoxelMap>(voxel_resolution_);
+      voxelmap->insert(source_proxy);
+      source_voxelmap_ = voxelmap;
     }
 
     result_ = registration.align(*target_voxelmap_, source_proxy, *target_voxelmap_, Eigen::Isometry3d(guess.template cast<double>()));
-- 
2.43.0


From c0564bc7f3ae86d3f78c2e7ac7232b6f8bd28dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 13/15] fix: re-estimate covariances of RegistrationPCL when
 the number of neighbors changes

---
 include/small_gicp/pcl/pcl_registration.hpp   |  2 ++
 .../small_gicp/pcl/pcl_registration_impl.hpp  | 20 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/small_gicp/pcl/pcl_registration.hpp b/include/small_gicp/pcl/pcl_registration.hpp
index 57c14ec..5597305 100644
--- a/include/small_gicp/pcl/pcl_registration.hpp
+++ b/include/small_gicp/pcl/pcl_registration.hpp
@@ -107,6 +107,8 @@ protected:
 
   std::vector<Eigen::Matrix4d> target_covs_;  ///< Covariances of target points
   std::vector<Eigen::Matrix4d> source_covs_;  ///< Covariances of source points.
+  bool target_covs_estimated_;                ///< True if the target covariances were estimated from the points (not given by the user)
+  bool source_covs_estimated_;                ///< True if the source covariances were estimated from the points (not given by the user)
 
   RegistrationResult result_;  ///< Registration result.
 };
diff --git a/include/small_gicp/pcl/pcl_registration_impl.hpp b/include/small_gicp/pcl/pcl_registration_impl.hpp
index 36ba9eb..482ffce 100644
--- a/include/small_gicp/pcl/pcl_registration_impl.hpp
+++ b/include/small_gicp/pcl/pcl_registration_impl.hpp
@@ -32,6 +32,9 @@ RegistrationPCL<PointSource, PointTarget>::RegistrationPCL() {
   voxel_resolution_ = 1.0;
   verbose_ = false;
   registration_type_ = "GICP";
+
+  target_covs_estimated_ = false;
+  source_covs_estimated_ = false;
 }
 
 template <typename PointSource, typename PointTarget>
@@ -86,6 +89,7 @@ void RegistrationPCL<PointSource, PointTarget>::setSourceCovariances(const std::
   }
 
   source_covs_ = covs;
+  source_covs_estimated_ = false;
   source_voxelmap_.reset();
 }
 
@@ -102,6 +106,7 @@ void RegistrationPCL<PointSource, PointTarget>::setTargetCovariances(const std::
   }
 
   target_covs_ = covs;
+  target_covs_estimated_ = false;
   target_voxelmap_.reset();
 }
 
@@ -128,6 +133,7 @@ void RegistrationPCL<PointSource, PointTarget>::swapSourceAndTarget() {
   input_.swap(target_);
   source_tree_.swap(target_tree_);
   source_covs_.swap(target_covs_);
+  std::swap(source_covs_estimated_, target_covs_estimated_);
   source_voxelmap_.swap(target_voxelmap_);
 
   // Let pcl::Registration update its own search trees
@@ -172,6 +178,18 @@ void RegistrationPCL<PointSource, PointTarget>::setNumNeighborsForCovariance(int
     PCL_ERROR("[RegistrationPCL::setNumNeighborsForCovariance] Invalid number of neighbors: %d\n", k);
     k = 5;
   }
+
+  if (k_correspondences_ != k) {
+    // Covariances estimated with the previous number of neighbors need to be re-estimated
+    if (source_covs_estimated_) {
+      source_covs_.clear();
+      source_voxelmap_.reset();
+    }
+    if (target_covs_estimated_) {
+      target_covs_.clear();
+      target_voxelmap_.reset();
+    }
+  }
   k_correspondences_ = k;
 }
 
@@ -231,9 +249,11 @@ void RegistrationPCL<PointSource, PointTarget>::computeTransformation(PointCloud
 
   if (source_covs_.size() != input_->size()) {
     estimate_covariances_omp(source_proxy, *source_tree_, k_correspondences_, num_threads_);
+    source_covs_estimated_ = true;
   }
   if (target_covs_.size() != target_->size()) {
     estimate_covariances_omp(target_proxy, *target_tree_, k_correspondences_, num_threads_);
+    target_covs_estimated_ = true;
   }
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
-- 
2.43.0


From a1f8e4673100ab567eb46cee4a795d6220b743dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:32 +0000
Subject: [PATCH 14/15] fix: estimate normals and covariances from offsets to
 the query point

Second moments of raw coordinates cancel for points far from the origin
(map coordinates): the normals and covariances were not those of the
neighbourhood any more.
---
 include/small_gicp/util/normal_estimation.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/small_gicp/util/normal_estimation.hpp b/include/small_gicp/util/normal_estimation.hpp
index 8fabf85..4eaa242 100644
--- a/include/small_gicp/util/normal_estimation.hpp
+++ b/include/small_gicp/util/normal_estimation.hpp
@@ -74,10 +74,12 @@ void estimate_local_features(PointCloud& cloud, Tree& kdtree, int num_neighbors,
     return;
   }
 
+  // Accumulate offsets from the query point to avoid cancellation for points far from the origin
+  const Eigen::Vector4d origin = traits::point(cloud, point_index);
   Eigen::Vector4d sum_points = Eigen::Vector4d::Zero();
   Eigen::Matrix4d sum_cross = Eigen::Matrix4d::Zero();
   for (size_t i = 0; i < n; i++) {
-    const auto& pt = traits::point(cloud, k_indices[i]);
+    const Eigen::Vector4d pt = traits::point(cloud, k_indices[i]) - origin;
     sum_points += pt;
     sum_cross += pt * pt.transpose();
   }
-- 
2.43.0


From d27672bd35b8687ce9d489cabb4103a414fa158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:55 +0000
Subject: [PATCH 15/15] fix: respect max_correspondence_distance in the VGICP
 alignment helper

---
 src/small_gicp/registration/registration_helper.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/small_gicp/registration/registration_helper.cpp b/src/small_gicp/registration/registration_helper.cpp
index aa86700..d1209ba 100644
--- a/src/small_gicp/registration/registration_helper.cpp
+++ b/src/small_gicp/registration/registration_helper.cpp
@@ -129,6 +129,7 @@ RegistrationResult align(const GaussianVoxelMap& target, const PointCloud& sourc
 
   Registration<GICPFactor, ParallelReductionOMP> registration;
   registration.reduction.num_threads = setting.num_threads;
+  registration.rejector.max_dist_sq = setting.max_correspondence_distance * setting.max_correspondence_distance;
   registration.criteria.rotation_eps = setting.rotation_eps;
   registration.criteria.translation_eps = setting.translation_eps;
   registration.optimizer.max_iterations = setting.max_iterations;
-- 
2.43.0


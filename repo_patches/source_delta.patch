From 5ccb66e6d5d3cd4391a592aa916d55a5d24a6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 01/22] fix: score a cell whose points coincide as 0 instead of
 NaN

---
 src/ndt_model.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index e1f9b7c..b1becb1 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -30,6 +30,7 @@
 #include <Eigen/Eigen>
 #include <Eigen/Eigenvalues>
 
+#include <algorithm>
 #include <cmath>
 #include <ndt_2d/conversions.hpp>
 #include <ndt_2d/ndt_model.hpp>
@@ -85,6 +86,14 @@ void Cell::compute()
   Eigen::Vector2d eigenvalues = solver.eigenvalues().real();
   double small = eigenvalues(0), large = eigenvalues(1);
   if (small > large) std::swap(small, large);
+
+  // If all points coincide (up to rounding), there is no distribution to invert
+  if (!(large > 1e-15 * n * (correlation(0, 0) + correlation(1, 1))))
+  {
+    information.setZero();
+    return;
+  }
+
   if (small < 0.001 * large)
   {
     // Special case
@@ -104,15 +113,16 @@ void Cell::compute()
 
 double Cell::score(const Eigen::Vector2d & point)
 {
-  if (n < 5)
+  if (n < 5 || !valid)
   {
-    // Need at least five points for our mean/cov to be valid
+    // Need at least five (distinct) points for our mean/cov to be valid
     return 0.0;
   }
 
   const auto q = point - mean;
   const double exponent = -0.5 * q.transpose() * information * q;
-  return std::exp(exponent);
+  // Rounding can leave the covariance slightly indefinite
+  return std::exp(std::min(exponent, 0.0));
 }
 
 NDT::NDT(double cell_size, double size_x, double size_y, double origin_x, double origin_y)
-- 
2.43.0


From d11991989f61aaf30065b0d47e29ee7dd851c0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 02/22] fix: ignore coordinates too large to convert to a grid
 index

---
 src/ndt_model.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ndt_model.cpp b/src/ndt_model.cpp
index b1becb1..ae0953a 100644
--- a/src/ndt_model.cpp
+++ b/src/ndt_model.cpp
@@ -212,18 +212,16 @@ double NDT::likelihood(const ScanPtr & scan)
 
 int NDT::getIndex(double x, double y)
 {
-  if (x < origin_x_ || y < origin_y_)
-  {
-    return -1;
-  }
-
-  unsigned int grid_x = (x - origin_x_) / cell_size_;
-  unsigned int grid_y = (y - origin_y_) / cell_size_;
-  if (grid_x >= size_x_ || grid_y >= size_y_)
+  // Check the range before converting: out of range values cannot be converted
+  const double cell_x = (x - origin_x_) / cell_size_;
+  const double cell_y = (y - origin_y_) / cell_size_;
+  if (!(cell_x >= 0.0 && cell_y >= 0.0 && cell_x < size_x_ && cell_y < size_y_))
   {
     return -1;
   }
 
+  unsigned int grid_x = cell_x;
+  unsigned int grid_y = cell_y;
   return (grid_y * size_x_) + grid_x;
 }
 
-- 
2.43.0


From 76d4a15ce45bc7649c5463ae473166a32b2d7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 03/22] fix: weight residuals by the upper Cholesky factor of
 the information matrix

---
 src/ceres_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index f819d77..a117eaf 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -129,7 +129,7 @@ ceres::ResidualBlockId CeresSolver::addConstraint(const ConstraintPtr & constrai
   auto begin_node = nodes_.find(begin->getId());
   auto end_node = nodes_.find(end->getId());
 
-  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixL();
+  const Eigen::Matrix3d sqrt_information = constraint->information.llt().matrixU();
 
   ceres::CostFunction * cost_function =
     PoseGraph2dErrorTerm::Create(constraint->transform(0),
-- 
2.43.0


From ddccb17f5c90def20613a61d219875c2a561b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:58 +0000
Subject: [PATCH 04/22] fix: do not abort when no constraint uses the first
 scan

---
 src/ceres_solver.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ceres_solver.cpp b/src/ceres_solver.cpp
index a117eaf..e7e863b 100644
--- a/src/ceres_solver.cpp
+++ b/src/ceres_solver.cpp
@@ -85,11 +85,14 @@ bool CeresSolver::optimize(const std::vector<ConstraintPtr> & constraints,
   }
   num_constraints_ = n;
 
-  // Make first node fixed
+  // Make first node fixed (if any constraint uses it)
   auto first_node_ = nodes_.find(scans[0]->getId());
-  problem_->SetParameterBlockConstant(&first_node_->second(0));
-  problem_->SetParameterBlockConstant(&first_node_->second(1));
-  problem_->SetParameterBlockConstant(&first_node_->second(2));
+  if (problem_->HasParameterBlock(&first_node_->second(0)))
+  {
+    problem_->SetParameterBlockConstant(&first_node_->second(0));
+    problem_->SetParameterBlockConstant(&first_node_->second(1));
+    problem_->SetParameterBlockConstant(&first_node_->second(2));
+  }
 
   // Run the solver
   ceres::Solver::Summary summary;
-- 
2.43.0


From 89bee0a7ef9301033324b2c86420c99f8ce62dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 05/22] fix: use bins of equal width around zero in the KD tree

---
 include/ndt_2d/kd_tree.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ndt_2d/kd_tree.hpp b/include/ndt_2d/kd_tree.hpp
index 0012054..b9f0f34 100644
--- a/include/ndt_2d/kd_tree.hpp
+++ b/include/ndt_2d/kd_tree.hpp
@@ -30,6 +30,7 @@
 #define NDT_2D__KD_TREE_HPP_
 
 #include <Eigen/Core>
+#include <cmath>
 #include <memory>
 #include <vector>
 #include <utility>
@@ -97,9 +98,9 @@ public:
   void insert(Eigen::Vector3d & cont_key, T & value)
   {
     int key[3];
-    key[0] = static_cast<int>(cont_key(0) / cell_size_(0));
-    key[1] = static_cast<int>(cont_key(1) / cell_size_(1));
-    key[2] = static_cast<int>(cont_key(2) / cell_size_(2));
+    key[0] = static_cast<int>(std::floor(cont_key(0) / cell_size_(0)));
+    key[1] = static_cast<int>(std::floor(cont_key(1) / cell_size_(1)));
+    key[2] = static_cast<int>(std::floor(cont_key(2) / cell_size_(2)));
 
     if (nodes_.empty())
     {
-- 
2.43.0


From 213d585974d7b69a356ca9793fa9f15270b03c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 06/22] fix: do not accumulate the heading covariance over
 updates

---
 src/particle_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index eefcdc7..e30be3f 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -210,6 +210,7 @@ void ParticleFilter::updateStatistics()
   }
 
   // Compute covariance for theta
+  cov_(2, 2) = 0.0;
   for (size_t i = 0; i < particles_.size(); ++i)
   {
     double d = angles::shortest_angular_distance(particles_[i](2), mean_(2));
-- 
2.43.0


From edd762e6e076fda966a929049d3b65ffe88e8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 07/22] fix: keep particle weights valid when all scores are
 zero

---
 src/particle_filter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particle_filter.cpp b/src/particle_filter.cpp
index e30be3f..400bc56 100644
--- a/src/particle_filter.cpp
+++ b/src/particle_filter.cpp
@@ -170,7 +170,8 @@ void ParticleFilter::updateStatistics()
   }
   for (auto & w : weights_)
   {
-    w /= sum_weight;
+    // If no particle has any weight, they are all equally likely
+    w = (sum_weight != 0.0) ? w / sum_weight : 1.0 / weights_.size();
   }
 
   // Temporary mean and correlation
-- 
2.43.0


From 02b3aa0575f978bf3d86c7cd19fbc047b4e9f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 08/22] fix: subtract the mean offset in the scan matching
 covariance

---
 src/scan_matcher_ndt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index daa1413..bd96c7b 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -143,7 +143,7 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
-  covariance = (1 / s) * k + (1 / (s * s) * u * u.transpose());
+  covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
 }
-- 
2.43.0


From 7f596b05f02a2d5b0a1b62abd83dff29923f06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 09/22] fix: score 0 instead of NaN without points or overlap
 with the map

---
 src/scan_matcher_ndt.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index bd96c7b..9b0fb86 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -91,6 +91,9 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   Pose2d scan_pose = scan->getPose();
   std::vector<Point> points = scan->getPoints();
 
+  // Nothing to match
+  if (points.empty() || laser_max_beams_ == 0) return 0.0;
+
   // Subsample the scan
   size_t scan_points_to_use = std::min(laser_max_beams_, points.size());
   double scan_step = static_cast<double>(points.size()) / scan_points_to_use;
@@ -143,6 +146,12 @@ double ScanMatcherNDT::matchScan(const ScanPtr & scan, Pose2d & pose,
   }
 
   // Compute covariance
+  if (s == 0.0)
+  {
+    // Scan does not overlap the map, offset is unknown
+    covariance = Eigen::Matrix3d::Identity();
+    return 0.0;
+  }
   covariance = (1 / s) * k - (1 / (s * s) * u * u.transpose());
 
   return best_score / scan_points_to_use;
@@ -155,8 +164,8 @@ double ScanMatcherNDT::scoreScan(const ScanPtr & scan) const
 
 double ScanMatcherNDT::scorePoints(const std::vector<Point> & points, const Pose2d & pose) const
 {
-  // Need a valid NDT
-  if (!ndt_) return 0.0;
+  // Need a valid NDT, and something to score
+  if (!ndt_ || points.empty() || laser_max_beams_ == 0) return 0.0;
 
   // Transform points to the pose
   const Eigen::Isometry3d t = toEigen(pose);
-- 
2.43.0


From 74922a91baa3dc4e7fc1bcb42ff264a61342d38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 10/22] fix: size the scan matching map from the scans only

---
 src/scan_matcher_ndt.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scan_matcher_ndt.cpp b/src/scan_matcher_ndt.cpp
index 9b0fb86..18c142b 100644
--- a/src/scan_matcher_ndt.cpp
+++ b/src/scan_matcher_ndt.cpp
@@ -49,11 +49,18 @@ void ScanMatcherNDT::initialize(const std::string & name, rclcpp::Node * node, d
 void ScanMatcherNDT::addScans(const std::vector<ScanPtr>::const_iterator& begin,
                               const std::vector<ScanPtr>::const_iterator& end)
 {
+  // No scans, no map
+  if (begin == end)
+  {
+    ndt_.reset();
+    return;
+  }
+
   // Compute bounding box required
   double min_x_ = std::numeric_limits<double>::max();
-  double max_x_ = std::numeric_limits<double>::min();
+  double max_x_ = std::numeric_limits<double>::lowest();
   double min_y_ = std::numeric_limits<double>::max();
-  double max_y_ = std::numeric_limits<double>::min();
+  double max_y_ = std::numeric_limits<double>::lowest();
   for (auto scan = begin; scan != end; ++scan)
   {
     Pose2d pose = (*scan)->getPose();
-- 
2.43.0


From d36e19c2fa15045fb216eb415d2c20547f9ddc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:46 +0000
Subject: [PATCH 11/22] fix: mark the cell at the end of every ray in the
 occupancy grid

---
 src/occupancy_grid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d9257e6..d0f8e52 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -101,6 +101,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
       while (true)
       {
+        const int error2 = 2 * error;
         int index = x + y * grid.info.width;
         if (x == end_x && y == end_y)
         {
@@ -108,7 +109,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           break;
         }
         ++empty[index];
-        if (2 * error >= dy)
+        if (error2 >= dy)
         {
           if (x == end_x)
           {
@@ -118,7 +119,7 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
           error = error + dy;
           x += sx;
         }
-        if (2 * error <= dx)
+        if (error2 <= dx)
         {
           if (y == end_y)
           {
-- 
2.43.0


From b4af4f9f9789ba59826355b7a04df276318d09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 12/22] fix: size every occupancy grid from the current scans
 and their poses

---
 include/ndt_2d/occupancy_grid.hpp |  3 +--
 src/occupancy_grid.cpp            | 23 ++++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/ndt_2d/occupancy_grid.hpp b/include/ndt_2d/occupancy_grid.hpp
index 1439e61..cd80393 100644
--- a/include/ndt_2d/occupancy_grid.hpp
+++ b/include/ndt_2d/occupancy_grid.hpp
@@ -60,9 +60,8 @@ private:
 
   double resolution_;
   double occ_thresh_;
-  // Bounds are recalculated when scan vector increases in size
+  // Bounds are recalculated for every message
   double min_x_, max_x_, min_y_, max_y_;
-  size_t num_scans_;
 };
 
 typedef std::shared_ptr<OccupancyGrid> OccupancyGridPtr;
diff --git a/src/occupancy_grid.cpp b/src/occupancy_grid.cpp
index d0f8e52..3bbcd1f 100644
--- a/src/occupancy_grid.cpp
+++ b/src/occupancy_grid.cpp
@@ -39,19 +39,15 @@ OccupancyGrid::OccupancyGrid(const double resolution, const double occ_thresh)
   min_x_(0),
   max_x_(0),
   min_y_(0),
-  max_y_(0),
-  num_scans_(0)
+  max_y_(0)
 {
 }
 
 void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
                            nav_msgs::msg::OccupancyGrid & grid)
 {
-  // Update size of the occupancy grid, if needed
-  if (scans.size() != num_scans_)
-  {
-    updateBounds(scans);
-  }
+  // Update size of the occupancy grid, poses may have changed since the last one
+  updateBounds(scans);
 
   // Pad the map just a bit
   double pad = 5 * resolution_;
@@ -154,17 +150,22 @@ void OccupancyGrid::getMsg(std::vector<ndt_2d::ScanPtr> & scans,
 
 void OccupancyGrid::updateBounds(std::vector<ndt_2d::ScanPtr>& scans)
 {
-  size_t start_idx = num_scans_;
-  num_scans_ = scans.size();
+  min_x_ = max_x_ = min_y_ = max_y_ = 0.0;
 
-  // Iterate through new scans
-  for (size_t i = start_idx; i < num_scans_; ++i)
+  // Iterate through scans
+  for (size_t i = 0; i < scans.size(); ++i)
   {
     double x = scans[i]->getPose().x;
     double y = scans[i]->getPose().y;
     double cos_th = cos(scans[i]->getPose().theta);
     double sin_th = sin(scans[i]->getPose().theta);
 
+    // Rays start at the pose of the scan
+    min_x_ = std::min(x, min_x_);
+    max_x_ = std::max(x, max_x_);
+    min_y_ = std::min(y, min_y_);
+    max_y_ = std::max(y, max_y_);
+
     // Iterate through points in the scan
     for (auto & point : scans[i]->getPoints())
     {
-- 
2.43.0


From db1e12ed4790657421c299eeaa6f77f4ddff4dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 13/22] fix: search the nearest scans within the distance, not
 its square root

---
 src/graph.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph.cpp b/src/graph.cpp
index 96b724f..0d650a5 100644
--- a/src/graph.cpp
+++ b/src/graph.cpp
@@ -178,7 +178,8 @@ std::vector<size_t> Graph::findNearest(const ScanPtr & scan, double dist, int li
   const double query[2] = {pose.x, pose.y};
   std::vector<std::pair<unsigned, double>> matches;
   nanoflann::SearchParams params;
-  tree.radiusSearch(query, dist, matches, params);
+  // nanoflann uses squared distances
+  tree.radiusSearch(query, dist * dist, matches, params);
 
   std::vector<size_t> indicies;
   for (size_t i = 0; i < matches.size(); ++i)
-- 
2.43.0


From 652e95af43abe88e9bfe9ec872f691afca6a3419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 14/22] fix: use the configured rolling window depth

---
 src/ndt_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 711f683..7712b49 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -501,7 +501,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     if (!graph_->scans.empty())
     {
       // Determine rolling window
-      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - 10;
+      size_t start = (graph_->scans.size() <= rolling_depth_) ? 0 : graph_->scans.size() - rolling_depth_;
       auto rolling = graph_->scans.begin() + start;
 
       // Create scan matcher with rolling window scans
-- 
2.43.0


From 4e334e7aa21e2b3cd42394038f32d7bf017c378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 15/22] fix: drop laser beams with negative infinite range

---
 src/ndt_mapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 7712b49..8afd973 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -409,8 +409,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = msg->ranges.size() - 1; i > 0; --i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = -(msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
@@ -432,8 +432,8 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   {
     for (size_t i = 0; i < msg->ranges.size(); ++i)
     {
-      // Filter out NANs and scans beyond max range
-      if (std::isnan(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
+      // Filter out NANs, infinities and scans beyond max range
+      if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
       // Project point in laser frame
       double angle = (msg->angle_min + i * msg->angle_increment);
       Point lp(cos(angle) * msg->ranges[i],
-- 
2.43.0


From a65e5327968ca7d2852449c0980ceba36484a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 16/22] fix: use every beam of inverted lasers, ignore scans
 without beams

---
 src/ndt_mapper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 8afd973..4fbb52d 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -319,6 +319,12 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     return;
   }
 
+  if (msg->ranges.empty())
+  {
+    RCLCPP_WARN(logger_, "Ignoring laser scan without measurements");
+    return;
+  }
+
   // Find pose of the robot in odometry frame (at start of laser scan)
   geometry_msgs::msg::PoseStamped odom_pose_tf;
   odom_pose_tf.header.stamp = msg->header.stamp;
@@ -407,7 +413,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   // Using this scan, convert ROS msg into ndt_2d style scan
   if (laser_inverted_)
   {
-    for (size_t i = msg->ranges.size() - 1; i > 0; --i)
+    for (size_t i = msg->ranges.size(); i-- > 0; )
     {
       // Filter out NANs, infinities and scans beyond max range
       if (!std::isfinite(msg->ranges[i]) || msg->ranges[i] > range_max_) continue;
-- 
2.43.0


From b1d603b48e2a5c507581aa340465968b4703ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 17/22] fix: compensate laser points for the motion in the
 robot frame

---
 src/ndt_mapper.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 4fbb52d..9fd5e5c 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -389,10 +389,14 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
   }
 
   // Determine movement between start and end of laser scan
-  Pose2d translation = fromMsg(end_odom_pose_tf);
-  translation.x -= odom_pose.x;
-  translation.y -= odom_pose.y;
-  translation.theta -= odom_pose.theta;
+  // (in the frame of the robot at the start of the scan)
+  Pose2d end_odom_pose = fromMsg(end_odom_pose_tf);
+  double odom_dx = end_odom_pose.x - odom_pose.x;
+  double odom_dy = end_odom_pose.y - odom_pose.y;
+  Pose2d translation;
+  translation.x = cos(odom_pose.theta) * odom_dx + sin(odom_pose.theta) * odom_dy;
+  translation.y = -sin(odom_pose.theta) * odom_dx + cos(odom_pose.theta) * odom_dy;
+  translation.theta = angles::shortest_angular_distance(odom_pose.theta, end_odom_pose.theta);
 
   // Now scale it by number of measurements
   Pose2d trans_per_meas;
-- 
2.43.0


From b3b33c217bcee319658e6f285273dd3b73cca701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 18/22] fix: add a scan and its constraint to the graph
 together

---
 src/ndt_mapper.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 9fd5e5c..a641cc2 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -508,6 +508,7 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
     RCLCPP_INFO(logger_, "Odom pose: %f, %f, %f", odom_pose.x, odom_pose.y, odom_pose.theta);
 
     double matched_score = 0.0;
+    ConstraintPtr constraint;
     if (!graph_->scans.empty())
     {
       // Determine rolling window
@@ -533,19 +534,18 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
       correction.theta += scan->getPose().theta;
       scan->setPose(correction);
 
-      // Add odom constraint to the graph
-      ConstraintPtr constraint = makeConstraint(graph_->scans.back(), scan, covariance);
-      std::lock_guard<std::mutex> lock(graph_mutex_);
-      graph_->constraints.push_back(constraint);
+      // Create odom constraint for the graph
+      constraint = makeConstraint(graph_->scans.back(), scan, covariance);
     }
 
     RCLCPP_INFO(logger_, "Corrected: %f, %f, %f",
                 scan->getPose().x, scan->getPose().y, scan->getPose().theta);
 
-    // Append new scan to our graph
+    // Append new scan and its constraint to our graph
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
       graph_->scans.push_back(scan);
+      if (constraint) graph_->constraints.push_back(constraint);
     }
 
     // Update previous pose tracking (under lock)
-- 
2.43.0


From 5eed53c927f9f9ec36a35e7211f2a0097bf29893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 19/22] fix: lock the previous poses when localizing

---
 src/ndt_mapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index a641cc2..52f8094 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -255,7 +255,8 @@ void Mapper::poseCallback(const geometry_msgs::msg::PoseWithCovarianceStamped::C
     graph_->constraints.push_back(constraint);
   }
 
-  // Localize robot
+  // Localize robot (under lock)
+  std::lock_guard<std::mutex> lock(prev_pose_mutex_);
   prev_robot_pose_ = fromMsg(msg->pose.pose);
   prev_odom_pose_ = fromMsg(odom_to_robot);
   prev_odom_pose_is_initialized_ = true;
-- 
2.43.0


From e7bf54ea24599e92e1d4274d594a4d65f95b5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 20/22] fix: lock the graph when correcting the pose of a scan
 in it

---
 src/ndt_mapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 52f8094..6cdb7ea 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -659,7 +659,8 @@ void Mapper::loopClosureThread()
             RCLCPP_INFO(logger_, "***Adding loop closure from %lu to %lu (score %f)",
                                  candidate->getId(), scan->getId(), score);
 
-            // Correct pose
+            // Correct pose (under lock)
+            lock.lock();
             correction.x += scan->getPose().x;
             correction.y += scan->getPose().y;
             correction.theta += scan->getPose().theta;
@@ -668,7 +669,6 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            lock.lock();  // lock before adding constraint
             graph_->constraints.push_back(constraint);
             map_update_available_ = true;
           }
-- 
2.43.0


From 3ed67477ed7c05feafe67bded1392cdef6d8d43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:34 +0000
Subject: [PATCH 21/22] fix: start loop closure over when another graph is
 loaded

---
 src/ndt_mapper.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 6cdb7ea..1830aa8 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -579,6 +579,9 @@ void Mapper::laserCallback(const sensor_msgs::msg::LaserScan::ConstSharedPtr& ms
 
 void Mapper::loopClosureThread()
 {
+  // The graph that scans were processed for
+  GraphPtr graph;
+
   while (rclcpp::ok())
   {
     std::this_thread::sleep_for(std::chrono::seconds(1));
@@ -593,7 +596,15 @@ void Mapper::loopClosureThread()
     size_t num_scans;
     {
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      num_scans = graph_->scans.size();
+      if (graph != graph_)
+      {
+        // Another graph was loaded, start over with it
+        graph = graph_;
+        global_scans_processed_ = 0;
+        optimization_last_ = 0;
+        solver_ = std::make_shared<CeresSolver>();
+      }
+      num_scans = graph->scans.size();
     }
 
     // Can't do a global search until we have at least enough scans
@@ -622,8 +633,8 @@ void Mapper::loopClosureThread()
         std::vector<size_t> scans;
         {
           std::lock_guard<std::mutex> lock(graph_mutex_);
-          scan = graph_->scans[global_scans_processed_];
-          scans = graph_->findNearest(scan, global_search_size_, rolling);
+          scan = graph->scans[global_scans_processed_];
+          scans = graph->findNearest(scan, global_search_size_, rolling);
         }
 
         // Now do global loop closure scan matching
@@ -632,14 +643,14 @@ void Mapper::loopClosureThread()
         {
           // Lock graph to access scans
           std::unique_lock<std::mutex> lock(graph_mutex_);
-          const auto candidate = graph_->scans[i];
+          const auto candidate = graph->scans[i];
           if (candidate->getPoints().empty()) continue;
 
           // Take one additional scan on either side of candidate
           size_t begin_idx = (i > 0) ? i - 1: i;
           size_t end_idx = (i < rolling) ? i + 1 : i;
-          auto begin = graph_->scans.begin() + begin_idx;
-          auto end = graph_->scans.begin() + end_idx;
+          auto begin = graph->scans.begin() + begin_idx;
+          auto end = graph->scans.begin() + end_idx;
 
           // Build NDT of candidate region
           global_scan_matcher_->reset();
@@ -669,7 +680,7 @@ void Mapper::loopClosureThread()
             // Add constraint to the graph
             ConstraintPtr constraint = makeConstraint(candidate, scan, covariance);
             constraint->switchable = true;
-            graph_->constraints.push_back(constraint);
+            graph->constraints.push_back(constraint);
             map_update_available_ = true;
           }
           else
@@ -688,8 +699,8 @@ void Mapper::loopClosureThread()
     {
       RCLCPP_INFO(logger_, "Optimizing pose graph");
       std::lock_guard<std::mutex> lock(graph_mutex_);
-      solver_->optimize(graph_->constraints, graph_->scans);
-      optimization_last_ = graph_->scans.size();
+      solver_->optimize(graph->constraints, graph->scans);
+      optimization_last_ = graph->scans.size();
       map_update_available_ = true;
     }
   }
-- 
2.43.0


From a8cd778516204a4208a339f8d2d0a2d48c480223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 22/22] fix: lock the graph before checking it for scans

---
 src/ndt_mapper.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ndt_mapper.cpp b/src/ndt_mapper.cpp
index 1830aa8..66a625a 100644
--- a/src/ndt_mapper.cpp
+++ b/src/ndt_mapper.cpp
@@ -735,8 +735,13 @@ void Mapper::mapPublishThread()
       graph_pub_->publish(graph_msg);
     }
 
-    // Publish TF
-    if (!graph_->scans.empty())
+    // Publish TF, once there is a map (checked under lock)
+    bool has_scans;
+    {
+      std::lock_guard<std::mutex> lock(graph_mutex_);
+      has_scans = !graph_->scans.empty();
+    }
+    if (has_scans)
     {
       // Lock previous poses before accessing
       std::unique_lock<std::mutex> lock(prev_pose_mutex_);
-- 
2.43.0


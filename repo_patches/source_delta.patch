From c921b7f86c14278e14214499ddd8b40ded8c91af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:45 +0000
Subject: [PATCH 01/56] fix: propagate the square-root covariance with its
 cross terms and F Q F^T

The square-root prediction multiplied only the body block of the factor and
pre-multiplied the cross block, so cross-covariances with sensors and window
poses were wrong, and the process noise was not transformed.
---
 src/ekf/ekf.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9fb2011..70ba4b5 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -157,13 +157,12 @@ void EKF::PredictModel(double local_time)
     unsigned int alt_size = m_state_size - g_body_state_size;
 
     if (m_use_root_covariance) {
-      m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-        m_cov.block<g_body_state_size, g_body_state_size>(0, 0) * state_transition.transpose();
-
-      m_cov.block(0, g_body_state_size, g_body_state_size, alt_size) =
-        state_transition * m_cov.block(0, g_body_state_size, g_body_state_size, alt_size);
-
-      m_cov = QR_r(m_cov, m_process_noise * std::sqrt(delta_time));
+      Eigen::MatrixXd root_noise = m_process_noise * std::sqrt(delta_time);
+      root_noise.leftCols(g_body_state_size) =
+        (root_noise.leftCols(g_body_state_size) * state_transition.transpose()).eval();
+      m_cov.leftCols(g_body_state_size) =
+        (m_cov.leftCols(g_body_state_size) * state_transition.transpose()).eval();
+      m_cov = QR_r(m_cov, root_noise);
     } else {
       m_cov.diagonal() += m_process_noise.diagonal() * delta_time;
       m_cov.block<g_body_state_size, g_body_state_size>(0, 0) =
-- 
2.43.0


From a741aef236d8945d92e029192518aa9489bdaeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:28 +0000
Subject: [PATCH 02/56] fix: use a matrix square root of correlated measurement
 noise

The square-root update took the element-wise root of the measurement noise,
which is wrong (and NaN for negative covariances) unless it is diagonal.
---
 src/ekf/update/updater.cpp  |  2 +-
 src/utility/math_helper.cpp | 10 ++++++++++
 src/utility/math_helper.hpp |  7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/updater.cpp b/src/ekf/update/updater.cpp
index 52d3d3c..d3ce33a 100644
--- a/src/ekf/update/updater.cpp
+++ b/src/ekf/update/updater.cpp
@@ -36,7 +36,7 @@ void Updater::KalmanUpdate(
   Eigen::MatrixXd observation_noise;
 
   if (ekf.GetUseRootCovariance()) {
-    observation_noise = measurement_noise.cwiseSqrt();
+    observation_noise = MatrixRoot(measurement_noise);
     innovation = QR_r(ekf.m_cov * jacobian.transpose(), observation_noise);
     gain = ekf.m_cov.transpose() * ekf.m_cov * jacobian.transpose() *
       (innovation.transpose() * innovation).inverse();
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 3c1893d..16eee4a 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -310,3 +310,13 @@ Eigen::MatrixXd QR_r(const Eigen::MatrixXd & left, const Eigen::MatrixXd & right
 
   return R_decomp;
 }
+
+Eigen::MatrixXd MatrixRoot(const Eigen::MatrixXd & in_mat)
+{
+  Eigen::LDLT<Eigen::MatrixXd> decomp(in_mat);
+  Eigen::MatrixXd root =
+    decomp.transpositionsP() * Eigen::MatrixXd::Identity(in_mat.rows(), in_mat.cols());
+  root = (decomp.matrixU() * root).eval();
+  root = (decomp.vectorD().cwiseMax(0.0).cwiseSqrt().asDiagonal() * root).eval();
+  return QR_r(root, Eigen::MatrixXd::Zero(1, in_mat.cols()));
+}
diff --git a/src/utility/math_helper.hpp b/src/utility/math_helper.hpp
index 87950b9..ad0f8f9 100644
--- a/src/utility/math_helper.hpp
+++ b/src/utility/math_helper.hpp
@@ -157,4 +157,11 @@ double mean_standard_deviation(const std::vector<Eigen::Vector3d> & input_vector
 ///
 Eigen::MatrixXd QR_r(const Eigen::MatrixXd & A, const Eigen::MatrixXd & B);
 
+///
+/// @brief Upper-triangular square root of a positive semi-definite matrix
+/// @param in_mat Symmetric positive semi-definite matrix
+/// @return Matrix S such that S^T * S equals the input
+///
+Eigen::MatrixXd MatrixRoot(const Eigen::MatrixXd & in_mat);
+
 #endif  // UTILITY__MATH_HELPER_HPP_
-- 
2.43.0


From fd127d8c7ef27f436dc2d33c6b78c9090c365415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:50 +0000
Subject: [PATCH 03/56] fix: insert a registered covariance where the state is
 and in root form

The covariance block of a sensor or fiducial registered out of identifier
order, or after window poses exist, was inserted at another place than the
one RefreshIndices gives its state, and in square-root mode the variance
itself was inserted instead of its root.
---
 src/ekf/ekf.cpp | 43 +++++++++++++++++++++++++++----------------
 src/ekf/ekf.hpp |  7 +++++++
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 70ba4b5..a7feaf7 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -261,13 +261,7 @@ void EKF::RegisterIMU(
     return;
   }
 
-  unsigned int imu_state_end = g_body_state_size + GetImuStateSize();
-
   m_state.imu_states[imu_id] = imu_state;
-  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, imu_state.size, imu_state.size), m_cov, imu_state_end, imu_state_end);
-  }
   if (imu_state.GetIsExtrinsic()) {
     m_state_size += g_imu_extrinsic_state_size;
     m_imu_state_size += g_imu_extrinsic_state_size;
@@ -279,6 +273,11 @@ void EKF::RegisterIMU(
 
   RefreshIndices();
 
+  if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+    InsertCovariance(
+      covariance.block(0, 0, imu_state.size, imu_state.size), m_state.imu_states[imu_id].index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register IMU: " << imu_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -297,17 +296,19 @@ void EKF::RegisterGPS(
     return;
   }
 
-  unsigned int gps_state_end = g_body_state_size + GetImuStateSize() + GetGpsStateSize();
   m_state.gps_states[gps_id] = gps_state;
   if (gps_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, gps_state.size, gps_state.size), m_cov, gps_state_end, gps_state_end);
     m_state_size += g_gps_extrinsic_state_size;
     m_gps_state_size += g_gps_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (gps_state.GetIsExtrinsic()) {
+    InsertCovariance(
+      covariance.block(0, 0, gps_state.size, gps_state.size), m_state.gps_states[gps_id].index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register GPS: " << gps_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -330,23 +331,23 @@ void EKF::RegisterCamera(
   m_max_track_duration = m_max_frame_period * (m_max_track_length + 1);
   m_min_aug_period = std::min(m_min_aug_period, 1 / cam_state.rate);
 
-  unsigned int cam_state_end = g_body_state_size +
-    GetImuStateSize() + GetGpsStateSize() + GetCamStateSize();
-
   if (m_primary_camera_id == 0) {
     m_primary_camera_id = cam_id;
   }
 
   m_state.cam_states[cam_id] = cam_state;
   if (cam_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, cam_state.size, cam_state.size), m_cov, cam_state_end, cam_state_end);
     m_state_size += g_cam_extrinsic_state_size;
     m_cam_state_size += g_cam_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (cam_state.GetIsExtrinsic()) {
+    InsertCovariance(
+      covariance.block(0, 0, cam_state.size, cam_state.size), m_state.cam_states[cam_id].index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Camera: " << cam_id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
@@ -364,19 +365,29 @@ void EKF::RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & c
 
   m_state.fid_states[fid_state.id] = fid_state;
   if (fid_state.GetIsExtrinsic()) {
-    m_cov = InsertInMatrix(
-      covariance.block(0, 0, fid_state.size, fid_state.size), m_cov, m_state_size, m_state_size);
     m_state_size += g_fid_extrinsic_state_size;
     m_fid_state_size += g_fid_extrinsic_state_size;
   }
 
   RefreshIndices();
 
+  if (fid_state.GetIsExtrinsic()) {
+    InsertCovariance(
+      covariance.block(0, 0, fid_state.size, fid_state.size),
+      m_state.fid_states[fid_state.id].index);
+  }
+
   std::stringstream log_msg;
   log_msg << "Register Fiducial: " << fid_state.id << ", stateSize: " << m_state_size;
   m_debug_logger->Log(LogLevel::INFO, log_msg.str());
 }
 
+void EKF::InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index)
+{
+  m_cov = InsertInMatrix(
+    m_use_root_covariance ? MatrixRoot(covariance) : covariance, m_cov, index, index);
+}
+
 Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const
 {
   auto in_rows = static_cast<unsigned int>(in_cov.rows());
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 114dfdf..0955cff 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -200,6 +200,13 @@ public:
   ///
   void RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & covariance);
 
+  ///
+  /// @brief Insert the covariance of a newly registered state
+  /// @param covariance Covariance of the new state
+  /// @param index Start index of the new state
+  ///
+  void InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index);
+
   ///
   /// @brief Augment the state covariance matrix
   /// @param in_cov Original state covariance matrix
-- 
2.43.0


From 0b604b654fb0503ee0039de55075fb03cb76f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:50 +0000
Subject: [PATCH 04/56] fix: marginalize removed window poses in square-root
 mode

Removing rows of the root along with the columns discards uncertainty and
correlations of the states that stay.
---
 src/ekf/ekf.cpp | 17 +++++++++++++++--
 src/ekf/ekf.hpp |  7 +++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index a7feaf7..9ca6333 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -388,6 +388,19 @@ void EKF::InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int inde
     m_use_root_covariance ? MatrixRoot(covariance) : covariance, m_cov, index, index);
 }
 
+void EKF::RemoveCovariance(unsigned int index, unsigned int size)
+{
+  if (m_use_root_covariance) {
+    // Only columns of the root belong to states, so rows are folded in rather than removed
+    const Eigen::Index rest = m_cov.cols() - index - size;
+    Eigen::MatrixXd reduced(m_cov.rows(), m_cov.cols() - size);
+    reduced << m_cov.leftCols(index), m_cov.rightCols(rest);
+    m_cov = QR_r(reduced.topRows(index), reduced.bottomRows(reduced.rows() - index));
+  } else {
+    m_cov = RemoveFromMatrix(m_cov, index, index, size);
+  }
+}
+
 Eigen::MatrixXd EKF::AugmentCovariance(const Eigen::MatrixXd & in_cov, unsigned int index) const
 {
   auto in_rows = static_cast<unsigned int>(in_cov.rows());
@@ -501,7 +514,7 @@ void EKF::AugmentStateIfNeeded()
 
       // Prune old states
       m_state.aug_states[0].erase(m_state.aug_states[0].begin() + i);
-      m_cov = RemoveFromMatrix(m_cov, aug_index, aug_index, g_aug_state_size);
+      RemoveCovariance(aug_index, g_aug_state_size);
 
       RefreshIndices();
     }
@@ -561,7 +574,7 @@ void EKF::AugmentStateIfNeeded(unsigned int camera_id, unsigned int frame_id)
       m_state.aug_states[camera_id].erase(m_state.aug_states[camera_id].begin());
 
       // Remove first element from covariance
-      m_cov = RemoveFromMatrix(m_cov, aug_start, aug_start, g_aug_state_size);
+      RemoveCovariance(aug_start, g_aug_state_size);
     }
 
     RefreshIndices();
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 0955cff..0734219 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -207,6 +207,13 @@ public:
   ///
   void InsertCovariance(const Eigen::MatrixXd & covariance, unsigned int index);
 
+  ///
+  /// @brief Remove (marginalize) a state from the covariance
+  /// @param index Start index of the state
+  /// @param size Size of the state
+  ///
+  void RemoveCovariance(unsigned int index, unsigned int size);
+
   ///
   /// @brief Augment the state covariance matrix
   /// @param in_cov Original state covariance matrix
-- 
2.43.0


From b25125ce9248702e94ed5fe3c0a457363144023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:02 +0000
Subject: [PATCH 05/56] fix: score motion against the covariance, not its
 square root

In square-root mode the zero-acceleration test used the root factor in place
of the covariance.
---
 src/ekf/update/imu_updater.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index ca3ed08..f2c4da7 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -220,8 +220,10 @@ bool ImuUpdater::ZeroAccelerationUpdate(
     resid.segment<3>(3) = -(angular_rate - bias_g);
   }
 
+  Eigen::MatrixXd cov = ekf.GetUseRootCovariance() ?
+    Eigen::MatrixXd(ekf.m_cov.transpose() * ekf.m_cov) : ekf.m_cov;
   Eigen::MatrixXd score_mat = resid.transpose() *
-    (jacobian * ekf.m_cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
+    (jacobian * cov * jacobian.transpose() + ekf.GetImuNoiseScaleFactor() *
     meas_noise).inverse() * resid;
 
   double score = std::abs(score_mat(0, 0));
-- 
2.43.0


From 511a538723298cf06bee1cbdbf4b140f0202a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:02 +0000
Subject: [PATCH 06/56] fix: log variances in either covariance form

In square-root mode the squared diagonal of the root is not the variance, and
the stationary IMU rows squared the variances in standard mode.
---
 src/ekf/ekf.cpp                     | 13 +++++++++----
 src/ekf/ekf.hpp                     |  8 ++++++++
 src/ekf/update/fiducial_updater.cpp | 12 ++----------
 src/ekf/update/gps_updater.cpp      |  6 +-----
 src/ekf/update/imu_updater.cpp      | 12 +++---------
 src/ekf/update/msckf_updater.cpp    |  6 +-----
 6 files changed, 24 insertions(+), 33 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index 9ca6333..c2e8147 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -94,14 +94,19 @@ Eigen::MatrixXd EKF::GetStateTransition(double delta_time)
   return state_transition;
 }
 
+Eigen::VectorXd EKF::GetVariances(unsigned int index, unsigned int size) const
+{
+  if (m_use_root_covariance) {
+    return m_cov.middleCols(index, size).colwise().squaredNorm().transpose();
+  }
+  return m_cov.diagonal().segment(index, size);
+}
+
 void EKF::LogBodyStateIfNeeded(int execution_count)
 {
   if (m_data_log_rate != 0.0) {
     std::stringstream msg;
-    Eigen::VectorXd body_cov = m_cov.block<g_body_state_size, g_body_state_size>(0, 0).diagonal();
-    if (m_use_root_covariance) {
-      body_cov = body_cov.cwiseProduct(body_cov);
-    }
+    Eigen::VectorXd body_cov = GetVariances(0, g_body_state_size);
     msg << m_current_time;
     msg << VectorToCommaString(m_state.body_state.pos_b_in_l);
     msg << VectorToCommaString(m_state.body_state.vel_b_in_l);
diff --git a/src/ekf/ekf.hpp b/src/ekf/ekf.hpp
index 0734219..819e1f6 100644
--- a/src/ekf/ekf.hpp
+++ b/src/ekf/ekf.hpp
@@ -200,6 +200,14 @@ public:
   ///
   void RegisterFiducial(const FidState & fid_state, const Eigen::MatrixXd & covariance);
 
+  ///
+  /// @brief Get variances of part of the state in either covariance form
+  /// @param index Start index
+  /// @param size Number of states
+  /// @return Vector of variances
+  ///
+  Eigen::VectorXd GetVariances(unsigned int index, unsigned int size) const;
+
   ///
   /// @brief Insert the covariance of a newly registered state
   /// @param covariance Covariance of the new state
diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 606c38d..935ac9e 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -197,20 +197,12 @@ void FiducialUpdater::UpdateEKF(
     msg << VectorToCommaString(ekf.m_state.fid_states[m_id].pos_f_in_l);
     msg << QuaternionToCommaString(ekf.m_state.fid_states[m_id].ang_f_to_l);
     unsigned int fid_index = ekf.m_state.fid_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      fid_index, fid_index, g_fid_extrinsic_state_size, g_fid_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(fid_index, g_fid_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   if (m_is_cam_extrinsic) {
     unsigned int cam_index = ekf.m_state.cam_states[m_camera_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << t_execution.count();
diff --git a/src/ekf/update/gps_updater.cpp b/src/ekf/update/gps_updater.cpp
index ebeb210..3aa45f3 100644
--- a/src/ekf/update/gps_updater.cpp
+++ b/src/ekf/update/gps_updater.cpp
@@ -135,11 +135,7 @@ void GpsUpdater::UpdateEKF(
   if (m_is_extrinsic) {
     msg << VectorToCommaString(ekf.m_state.gps_states[m_id].pos_a_in_b);
     unsigned int gps_index = ekf.m_state.gps_states[m_id].index;
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      gps_index, gps_index, g_gps_extrinsic_state_size, g_gps_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(gps_index, g_gps_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(residual);
diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index f2c4da7..0664f7b 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -137,11 +137,7 @@ void ImuUpdater::UpdateEKF(
   if (m_is_extrinsic || m_is_intrinsic) {
     unsigned int imu_index = ekf.m_state.imu_states[m_id].index;
     unsigned int imu_size = ekf.m_state.imu_states[m_id].size;
-    Eigen::VectorXd cov_diag =
-      ekf.m_cov.block(imu_index, imu_index, imu_size, imu_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(imu_index, imu_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << VectorToCommaString(acceleration);
@@ -278,14 +274,12 @@ bool ImuUpdater::ZeroAccelerationUpdate(
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    Eigen::VectorXd ex_diag = ekf.m_cov.block(index_extrinsic, index_extrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(ex_diag.cwiseProduct(ex_diag));
+    msg << VectorToCommaString(ekf.GetVariances(index_extrinsic, g_imu_extrinsic_state_size));
   }
 
   if (m_is_intrinsic) {
     unsigned int index_intrinsic = ekf.m_state.imu_states[m_id].index_intrinsic;
-    Eigen::VectorXd in_diag = ekf.m_cov.block(index_intrinsic, index_intrinsic, 6, 6).diagonal();
-    msg << VectorToCommaString(in_diag.cwiseProduct(in_diag));
+    msg << VectorToCommaString(ekf.GetVariances(index_intrinsic, g_imu_intrinsic_state_size));
   }
 
   msg << VectorToCommaString(acceleration);
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 3ef53cf..7c34bae 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -410,11 +410,7 @@ void MsckfUpdater::UpdateEKF(
   msg << VectorToCommaString(ekf.m_state.cam_states[m_id].pos_c_in_b);
   msg << QuaternionToCommaString(ekf.m_state.cam_states[m_id].ang_c_to_b);
   if (m_is_cam_extrinsic) {
-    Eigen::VectorXd cov_diag = ekf.m_cov.block(
-      cam_index, cam_index, g_cam_extrinsic_state_size, g_cam_extrinsic_state_size).diagonal();
-    if (ekf.GetUseRootCovariance()) {
-      cov_diag = cov_diag.cwiseProduct(cov_diag);
-    }
+    Eigen::VectorXd cov_diag = ekf.GetVariances(cam_index, g_cam_extrinsic_state_size);
     msg << VectorToCommaString(cov_diag);
   }
   msg << "," << std::to_string(feature_tracks.size());
-- 
2.43.0


From 9b4e91e30c1c007dfd921de774a70460c10931f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 07/56] fix: state vector covers intrinsic-only IMUs and every
 window pose

State::GetStateSize counted windows instead of poses, so State::ToVector wrote
out of bounds, and ToVector skipped IMUs calibrated intrinsically only.
---
 src/ekf/types.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ekf/types.cpp b/src/ekf/types.cpp
index 3cdbdad..7c12c4a 100644
--- a/src/ekf/types.cpp
+++ b/src/ekf/types.cpp
@@ -306,7 +306,7 @@ Eigen::VectorXd State::ToVector() const
   unsigned int idx = g_body_state_size;
 
   for (auto const & imu_iter : imu_states) {
-    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsExtrinsic()) {
+    if (imu_iter.second.GetIsExtrinsic() || imu_iter.second.GetIsIntrinsic()) {
       Eigen::VectorXd temp_vec = imu_iter.second.ToVector();
       out_vec.segment(idx, temp_vec.size()) = temp_vec;
       idx += static_cast<unsigned int>(temp_vec.size());
@@ -414,7 +414,9 @@ unsigned int State::GetStateSize() const
     }
   }
 
-  state_size += g_aug_state_size * aug_states.size();
+  for (auto const & aug_iter : aug_states) {
+    state_size += g_aug_state_size * static_cast<unsigned int>(aug_iter.second.size());
+  }
 
   return state_size;
 }
-- 
2.43.0


From 15f5011c782ffa17cac87248df37f1c88226fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:26 +0000
Subject: [PATCH 08/56] fix: recover the GPS frame for every heading and offset

The heading lost its sign, the offset of the origin was expressed in the local
instead of the ENU frame, and the angle error was measured about the wrong
centroid and left uninitialised when no baseline was usable.
---
 src/ekf/ekf.cpp             | 3 ++-
 src/utility/math_helper.cpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index c2e8147..e90b3aa 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -817,7 +817,8 @@ void EKF::AttemptGpsInitialization(
       (pos_stddev < m_gps_init_pos_thresh) && (ang_stddev != 0.0) &&
       (ang_stddev < std::tan(m_gps_init_ang_thresh))))
     {
-      Eigen::Vector3d delta_ref_enu = transformation.translation();
+      Eigen::Vector3d delta_ref_enu =
+        transformation.linear().transpose() * transformation.translation();
       Eigen::Vector3d pos_e_in_g = enu_to_lla(-delta_ref_enu, init_ref_lla);
       double ang_l_to_e = affine_angle(transformation);
 
diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 16eee4a..5a6407d 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -198,7 +198,7 @@ Eigen::MatrixXd matrix2d_from_vectors3d(const std::vector<Eigen::Vector3d> & inp
 
 double affine_angle(const Eigen::Affine3d & transform)
 {
-  return std::acos((transform.linear().trace() - 1) / 2);
+  return std::atan2(transform.linear()(1, 0), transform.linear()(0, 0));
 }
 
 bool kabsch_2d(
@@ -243,7 +243,7 @@ bool kabsch_2d(
   double sum_count{0};
   for (unsigned int i = 0; i < points_tgt.size(); ++i) {
     Eigen::Vector3d pos_error = points_tgt[i] - transform * points_src[i];
-    double baseline_dist = (points_tgt[i] - centroid_src).norm();
+    double baseline_dist = (points_tgt[i] - centroid_tgt).norm();
     pos_errors.push_back(pos_error);
     if (baseline_dist > pos_error.norm()) {
       sum_square_slopes += std::pow(pos_error.norm() / baseline_dist, 2);
@@ -252,6 +252,7 @@ bool kabsch_2d(
   }
 
   pos_stddev = mean_standard_deviation(pos_errors);
+  ang_stddev = 0.0;
   if (sum_count != 0.0) {
     ang_stddev = std::sqrt(sum_square_slopes) / sum_count;
   }
-- 
2.43.0


From 8c0d1ebbe5f5a9937a4b9df7ad3759e3cf6ee7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:14 +0000
Subject: [PATCH 09/56] fix: do not return uninitialised coordinates for an
 out-of-range fix

---
 src/utility/gps_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/gps_helper.cpp b/src/utility/gps_helper.cpp
index 7653089..0926245 100644
--- a/src/utility/gps_helper.cpp
+++ b/src/utility/gps_helper.cpp
@@ -28,7 +28,7 @@ static constexpr double g_deg_to_rad = M_PI / 180.0;
 
 Eigen::Vector3d lla_to_ecef(const Eigen::Vector3d & lla)
 {
-  Eigen::Vector3d out;
+  Eigen::Vector3d out = Eigen::Vector3d::Zero();
 
   if ((lla(0) < -90.0) || (lla(0) > +90.0) || (lla(1) < -180.0) || (lla(1) > +180.0)) {
     /// @todo: Replace with logger
-- 
2.43.0


From c49b27ad22f4ca1e31cdad7d01bb7fc0877c7c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 10/56] fix: rate limit logs whose first row is at time zero

Time zero was also the marker for 'not started', so rows at time zero escaped
the rate limit and moved its origin.
---
 src/infrastructure/data_logger.cpp | 3 ++-
 src/infrastructure/data_logger.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/data_logger.cpp b/src/infrastructure/data_logger.cpp
index 96b3aa2..9077c39 100644
--- a/src/infrastructure/data_logger.cpp
+++ b/src/infrastructure/data_logger.cpp
@@ -49,7 +49,7 @@ void DataLogger::Log(const std::string & message)
 void DataLogger::RateLimitedLog(const std::string & message, double time)
 {
   if (m_logging_on) {
-    if (m_time_init != 0.0) {
+    if (m_is_time_initialized) {
       double log_count = static_cast<double>(m_log_count);
       double max_count = m_rate * (time - m_time_init);
       if ((m_rate == 0.0) || (log_count < max_count)) {
@@ -57,6 +57,7 @@ void DataLogger::RateLimitedLog(const std::string & message, double time)
       }
     } else {
       m_time_init = time;
+      m_is_time_initialized = true;
       Log(message);
     }
   }
diff --git a/src/infrastructure/data_logger.hpp b/src/infrastructure/data_logger.hpp
index a790360..21fbe7d 100644
--- a/src/infrastructure/data_logger.hpp
+++ b/src/infrastructure/data_logger.hpp
@@ -93,6 +93,7 @@ private:
   std::string m_file_name {"default.log"};
   double m_rate{0.0};
   double m_time_init{0};
+  bool m_is_time_initialized{false};
   unsigned int m_log_count{0};
 };
 
-- 
2.43.0


From 5b1cbd31c417c8a7b9b4020e4e7fcc19f8951b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:24 +0000
Subject: [PATCH 11/56] fix: apply the log rate to fiducial logs

---
 src/ekf/update/fiducial_updater.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ekf/update/fiducial_updater.cpp b/src/ekf/update/fiducial_updater.cpp
index 935ac9e..bd7e8a5 100644
--- a/src/ekf/update/fiducial_updater.cpp
+++ b/src/ekf/update/fiducial_updater.cpp
@@ -68,6 +68,7 @@ FiducialUpdater::FiducialUpdater(
 
   m_fiducial_logger.DefineHeader(header.str());
   if (data_log_rate != 0.0) {m_fiducial_logger.EnableLogging();}
+  m_fiducial_logger.SetLogRate(data_log_rate);
 }
 
 void FiducialUpdater::RefreshStates(EKF & ekf)
-- 
2.43.0


From 34cfb101bca30e1f55d127c8876a5bbf62084f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:36 +0000
Subject: [PATCH 12/56] fix: accept vectors of any length in StdToEigVec

Shipped configurations give six and twelve variances, on which the simulator
aborted.
---
 src/utility/type_helper.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/utility/type_helper.cpp b/src/utility/type_helper.cpp
index 3ac2524..4da359a 100644
--- a/src/utility/type_helper.cpp
+++ b/src/utility/type_helper.cpp
@@ -27,7 +27,6 @@
 
 Eigen::VectorXd StdToEigVec(std::vector<double> const & std_vec)
 {
-  assert(std_vec.size() == 3);
   Eigen::VectorXd eig_vec(std_vec.size());
   for (unsigned int i = 0; i < std_vec.size(); ++i) {
     eig_vec(i) = std_vec[i];
-- 
2.43.0


From 3284d8f2491010472fa81596de2285348a745b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 13/56] fix: look up window poses safely in an empty or
 zero-length window

A secondary camera before the primary's first frame, or a time- or
error-driven window before its first pose, read past an empty vector; equal
times gave an interpolation factor of 0/0.
---
 src/ekf/ekf.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ekf/ekf.cpp b/src/ekf/ekf.cpp
index e90b3aa..9edd2c6 100644
--- a/src/ekf/ekf.cpp
+++ b/src/ekf/ekf.cpp
@@ -619,6 +619,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
       aug_key = 0;
     }
 
+    if (m_state.aug_states[aug_key].empty()) {
+      return aug_state;
+    }
+
     double alpha{0.0};
     AugState aug_state_0;
     AugState aug_state_1;
@@ -628,7 +632,8 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
     } else if (time < m_state.aug_states[aug_key].back().time) {
       for (unsigned int i = 0; i < m_state.aug_states[aug_key].size() - 1; ++i) {
         if (m_state.aug_states[aug_key][i].time <= time &&
-          time <= m_state.aug_states[aug_key][i + 1].time)
+          time <= m_state.aug_states[aug_key][i + 1].time &&
+          m_state.aug_states[aug_key][i].time < m_state.aug_states[aug_key][i + 1].time)
         {
           alpha = (time - m_state.aug_states[aug_key][i].time) /
             (m_state.aug_states[aug_key][i + 1].time - m_state.aug_states[aug_key][i].time);
@@ -638,8 +643,10 @@ AugState EKF::GetAugState(unsigned int camera_id, unsigned int frame_id, double
         }
       }
     } else {
-      alpha = (time - m_state.aug_states[aug_key].back().time) /
-        (m_current_time - m_state.aug_states[aug_key].back().time);
+      if (m_current_time > m_state.aug_states[aug_key].back().time) {
+        alpha = (time - m_state.aug_states[aug_key].back().time) /
+          (m_current_time - m_state.aug_states[aug_key].back().time);
+      }
 
       aug_state_0 = m_state.aug_states[aug_key].back();
       aug_state_1.pos_b_in_l = m_state.body_state.pos_b_in_l;
-- 
2.43.0


From badb2fb1661113969542590f100e742f7334739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 14/56] fix: ignore feature observations of frames that are not
 held

An observation of an evicted or never augmented frame was used with a default
pose and written to the body columns of the Jacobian, and tracks of fewer than
two usable observations underflowed the null-space projection.
---
 src/ekf/update/msckf_updater.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index 7c34bae..deea874 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -287,7 +287,19 @@ void MsckfUpdater::UpdateEKF(
   m_logger->Log(LogLevel::DEBUG, "Update track count: " + std::to_string(feature_tracks.size()));
 
   // MSCKF Update
-  for (const auto & feature_track : feature_tracks) {
+  for (const auto & input_track : feature_tracks) {
+    // Only use observations of frames that are still held in the state
+    FeatureTrack feature_track = input_track;
+    feature_track.track.clear();
+    for (const auto & feature_point : input_track.track) {
+      if (ekf.GetAugState(m_id, feature_point.frame_id, feature_point.frame_time).index != 0) {
+        feature_track.track.push_back(feature_point);
+      }
+    }
+    if (feature_track.track.size() < 2) {
+      continue;
+    }
+
     m_logger->Log(
       LogLevel::DEBUG, "Feature Track size: " + std::to_string(feature_track.track.size()));
 
-- 
2.43.0


From fbee16737c114c380394a30a1492c17981ac2d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 15/56] fix: project on the left null space and keep every
 informative row

Rows of Q were used instead of the trailing columns, so the projection did not
remove the feature position, and compression kept the first rows instead of
the non-zero ones.
---
 src/utility/math_helper.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/utility/math_helper.cpp b/src/utility/math_helper.cpp
index 5a6407d..444b089 100644
--- a/src/utility/math_helper.cpp
+++ b/src/utility/math_helper.cpp
@@ -110,7 +110,7 @@ void ApplyLeftNullspace(const Eigen::MatrixXd & H_f, Eigen::MatrixXd & H_x, Eige
 {
   Eigen::HouseholderQR<Eigen::MatrixXd> QR_decomp(H_f);
   Eigen::MatrixXd Q_decomp = QR_decomp.householderQ();
-  Eigen::MatrixXd Q_null = Q_decomp.block(H_f.cols(), 0, H_f.rows() - H_f.cols(), H_f.rows());
+  Eigen::MatrixXd Q_null = Q_decomp.rightCols(H_f.rows() - H_f.cols()).transpose();
   H_x = Q_null * H_x;
   res = Q_null * res;
 }
@@ -134,8 +134,15 @@ void CompressMeasurements(Eigen::MatrixXd & jacobian, Eigen::VectorXd & residual
       }
     }
 
-    // Count non-zero rows after compression
-    unsigned int rows = (jacobian.array().abs() > 1e-9).rowwise().any().cast<unsigned int>().sum();
+    // Keep non-zero rows after compression
+    unsigned int rows{0};
+    for (unsigned int i = 0; i < m_rows; ++i) {
+      if ((jacobian.row(i).array().abs() > 1e-9).any()) {
+        jacobian.row(rows) = jacobian.row(i).eval();
+        residual(rows) = residual(i);
+        ++rows;
+      }
+    }
 
     // Construct the smaller jacobian and residual after measurement compression
     jacobian.conservativeResize(rows, jacobian.cols());
-- 
2.43.0


From 57ea119ef1b8f3e96f64fd38cb23558f439b4c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:22 +0000
Subject: [PATCH 16/56] fix: use a true feature position only when there is one

Tracks from real images never set it, so the update used uninitialised
memory as the feature position.
---
 src/ekf/types.hpp                | 5 ++++-
 src/ekf/update/msckf_updater.cpp | 8 +++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ekf/types.hpp b/src/ekf/types.hpp
index fbb7f43..fad1b82 100644
--- a/src/ekf/types.hpp
+++ b/src/ekf/types.hpp
@@ -18,6 +18,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <limits>
 #include <map>
 #include <vector>
 
@@ -290,7 +291,9 @@ typedef struct FeatureTrack
 {
   std::vector<FeaturePoint> track;        ///< @brief Vector of tracked feature keypoints
   /// @todo: Remove true feature position once MSCKF complete
-  Eigen::Vector3d true_feature_position;  ///< @brief True feature position (sim only)
+  /// @brief True feature position (sim only, NaN if unknown)
+  Eigen::Vector3d true_feature_position{
+    Eigen::Vector3d::Constant(std::numeric_limits<double>::quiet_NaN())};
 } FeatureTrack;
 
 ///
diff --git a/src/ekf/update/msckf_updater.cpp b/src/ekf/update/msckf_updater.cpp
index deea874..2989a81 100644
--- a/src/ekf/update/msckf_updater.cpp
+++ b/src/ekf/update/msckf_updater.cpp
@@ -76,7 +76,9 @@ bool MsckfUpdater::TriangulateFeature(
 )
 {
   /// @todo: Need to continue debugging the triangulated features
-  if (m_use_true_triangulation) {
+  const bool use_true_triangulation =
+    m_use_true_triangulation && feature_track.true_feature_position.allFinite();
+  if (use_true_triangulation) {
     pos_f_in_l = feature_track.true_feature_position;
   }
 
@@ -135,7 +137,7 @@ bool MsckfUpdater::TriangulateFeature(
     m_logger->Log(LogLevel::INFO, err_msg.str());
     pos_f_in_l_tri = Eigen::Vector3d::Zero();
     /// @todo: Add input flag
-    if (m_use_true_triangulation) {
+    if (use_true_triangulation) {
       success = true;
     } else {
       pos_f_in_l = pos_f_in_l_tri;
@@ -149,7 +151,7 @@ bool MsckfUpdater::TriangulateFeature(
     msg << "," << std::to_string(feature_track.track[0].key_point.class_id);
     msg << VectorToCommaString(pos_f_in_l_tri);
     m_triangulation_logger.RateLimitedLog(msg.str(), local_time);
-    if (!m_use_true_triangulation) {
+    if (!use_true_triangulation) {
       pos_f_in_l = pos_f_in_l_tri;
     }
     success = true;
-- 
2.43.0


From 9590b071f7a36c22aef375b093237ee5846dd872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 17/56] fix: fuse a fiducial board only when its pose was
 estimated

An estimate that failed left the pose vectors at zero, and that pose was
fused as if it were a detection. The identifiers of plain ArUco boards were
never filled in, so those boards were never used at all.
---
 src/trackers/fiducial_tracker.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/trackers/fiducial_tracker.cpp b/src/trackers/fiducial_tracker.cpp
index 338c1ce..e22c04c 100644
--- a/src/trackers/fiducial_tracker.cpp
+++ b/src/trackers/fiducial_tracker.cpp
@@ -87,6 +87,7 @@ int FiducialTracker::InterpolateCorners(
       marker_corners, marker_ids, image, temp_board,
       corners, ids, camera_matrix, dist_coefficients);
   } else if (m_detector_type == FiducialType::ARUCO_BOARD) {
+    ids = marker_ids;
     corners_found = static_cast<int>(marker_ids.size());
   }
   return corners_found;
@@ -165,19 +166,19 @@ void FiducialTracker::Track(
       // if marker pose is valid
       if (valid) {
         cv::drawFrameAxes(img_out, camera_matrix, distortion, r_vec, t_vec, 0.5);
-      }
 
-      Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
-      Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
+        Eigen::Vector3d pos_f_in_c = CvVectorToEigen(t_vec);
+        Eigen::Quaterniond ang_f_to_c = RodriguesToQuat(r_vec);
 
-      BoardDetection board_detection;
-      board_detection.frame_id = frame_id;
-      board_detection.pos_f_in_c = pos_f_in_c;
-      board_detection.ang_f_to_c = ang_f_to_c;
-      board_detection.pos_error = m_pos_error;
-      board_detection.ang_error = m_ang_error;
+        BoardDetection board_detection;
+        board_detection.frame_id = frame_id;
+        board_detection.pos_f_in_c = pos_f_in_c;
+        board_detection.ang_f_to_c = ang_f_to_c;
+        board_detection.pos_error = m_pos_error;
+        board_detection.ang_error = m_ang_error;
 
-      m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+        m_fiducial_updater.UpdateEKF(*m_ekf, time, board_detection);
+      }
     }
   }
 }
-- 
2.43.0


From 0fc27e24bef08dbccdbbe7ea1fb8e96aa3cf6cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:47 +0000
Subject: [PATCH 18/56] fix: stationary update corrects the IMU orientation,
 not its position

The derivative of the measured gravity with respect to the IMU orientation
was written in the columns of the IMU position.
---
 src/ekf/update/imu_updater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ekf/update/imu_updater.cpp b/src/ekf/update/imu_updater.cpp
index 0664f7b..7e1d3d6 100644
--- a/src/ekf/update/imu_updater.cpp
+++ b/src/ekf/update/imu_updater.cpp
@@ -164,7 +164,7 @@ Eigen::MatrixXd ImuUpdater::GetZeroAccelerationJacobian(EKF & ekf) const
 
   if (m_is_extrinsic) {
     unsigned int index_extrinsic = ekf.m_state.imu_states[m_id].index_extrinsic;
-    jacobian.block<3, 3>(0, index_extrinsic) = -SkewSymmetric(
+    jacobian.block<3, 3>(0, index_extrinsic + 3) = -SkewSymmetric(
       ang_i_to_b.inverse() * ang_b_to_l.inverse() * g_gravity
     );
   }
-- 
2.43.0


From d54ddcca3d10099c03dbe705aa4448af4dbc87ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:05 +0000
Subject: [PATCH 19/56] fix: intrinsic-only IMU starts with the bias variances

The first six configured variances are those of the position and the
orientation; an IMU that only calibrates its biases was given those.
---
 src/sensors/imu.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sensors/imu.cpp b/src/sensors/imu.cpp
index 43b46c0..e72ed7f 100644
--- a/src/sensors/imu.cpp
+++ b/src/sensors/imu.cpp
@@ -52,8 +52,10 @@ IMU::IMU(IMU::Parameters params)
   Eigen::MatrixXd cov;
   if (imu_state.GetIsExtrinsic() && imu_state.GetIsIntrinsic()) {
     cov = params.variance.segment<12>(0).asDiagonal();
-  } else if (imu_state.GetIsExtrinsic() || imu_state.GetIsIntrinsic()) {
+  } else if (imu_state.GetIsExtrinsic()) {
     cov = params.variance.segment<6>(0).asDiagonal();
+  } else if (imu_state.GetIsIntrinsic()) {
+    cov = params.variance.tail<6>().asDiagonal();
   }
 
   m_ekf->RegisterIMU(m_id, imu_state, cov);
-- 
2.43.0


From 895a669073a83983ed47dac33c9326dc76e44f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 20/56] fix: error-free simulated IMU measures with its
 configured biases

---
 src/sensors/sim/sim_imu.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sensors/sim/sim_imu.cpp b/src/sensors/sim/sim_imu.cpp
index 768d2b0..11e463e 100644
--- a/src/sensors/sim/sim_imu.cpp
+++ b/src/sensors/sim/sim_imu.cpp
@@ -99,7 +99,10 @@ std::vector<std::shared_ptr<SimImuMessage>> SimIMU::GenerateMessages() const
     sim_imu_msg->acceleration = imu_acc_i;
     sim_imu_msg->angular_rate = imu_omg_i;
 
-    if (!m_no_errors) {
+    if (m_no_errors) {
+      sim_imu_msg->acceleration += acc_bias_true;
+      sim_imu_msg->angular_rate += gyr_bias_true;
+    } else {
       sim_imu_msg->acceleration += SimRNG::VecNormRand(acc_bias_true, m_acc_error);
       sim_imu_msg->angular_rate += SimRNG::VecNormRand(gyr_bias_true, m_omg_error);
     }
-- 
2.43.0


From 80c6435d895f8c7999d6f924391f89e63e95bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 21/56] fix: simulated board detections report variances, not
 deviations

---
 src/trackers/sim/sim_fiducial_tracker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trackers/sim/sim_fiducial_tracker.cpp b/src/trackers/sim/sim_fiducial_tracker.cpp
index 2b8d2eb..d28cf7a 100644
--- a/src/trackers/sim/sim_fiducial_tracker.cpp
+++ b/src/trackers/sim/sim_fiducial_tracker.cpp
@@ -134,8 +134,8 @@ std::shared_ptr<SimFiducialTrackerMessage> SimFiducialTracker::GenerateMessage(
     BoardDetection board_detection;
     board_detection.frame_id = frame_id;
     board_detection.frame_time = message_time;
-    board_detection.pos_error = m_t_vec_error;
-    board_detection.ang_error = m_r_vec_error;
+    board_detection.pos_error = m_t_vec_error.cwiseProduct(m_t_vec_error);
+    board_detection.ang_error = m_r_vec_error.cwiseProduct(m_r_vec_error);
     if (!m_no_errors) {
       board_detection.pos_f_in_c = SimRNG::VecNormRand(pos_f_in_c_true, m_t_vec_error);
       board_detection.ang_f_to_c = SimRNG::QuatNormRand(ang_f_to_c_true, m_r_vec_error);
-- 
2.43.0


From a32407c9e036597a58104aa07c1e21ec97343508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 22/56] fix: smoother truth no longer reads past its last
 sample

---
 src/infrastructure/sim/truth_engine_smoother.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/infrastructure/sim/truth_engine_smoother.cpp b/src/infrastructure/sim/truth_engine_smoother.cpp
index 4bf97a6..cebd311 100644
--- a/src/infrastructure/sim/truth_engine_smoother.cpp
+++ b/src/infrastructure/sim/truth_engine_smoother.cpp
@@ -31,6 +31,9 @@ Eigen::Vector3d TruthEngineSmoother::GetInterpolatedValue(
   double whole;
   double alpha = std::modf(time * m_rate, &whole);
   auto index = static_cast<unsigned int>(whole);
+  if (index + 1 >= values.size()) {
+    return values.back();
+  }
   return values[index] * (1 - alpha) + values[index + 1] * alpha;
 }
 
-- 
2.43.0


From b5dea1354bff23e1ae25680262739b8af64cdc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 23/56] fix: cyclic angular acceleration includes the rate of
 the Euler transform

---
 .../sim/truth_engine_cyclic.cpp               | 32 ++++++++++++++++++-
 .../sim/truth_engine_cyclic.hpp               | 10 ++++++
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 4118ceb..5b23531 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -148,6 +148,27 @@ Eigen::Matrix3d TruthEngineCyclic::EulerDerivativeTransform(
   return transform_matrix;
 }
 
+Eigen::Matrix3d TruthEngineCyclic::EulerDerivativeTransformRate(
+  const Eigen::Vector3d & rpy_vector,
+  const Eigen::Vector3d & rpy_rate
+)
+{
+  Eigen::Matrix3d transform_rate;
+  transform_rate.setZero();
+  double roll = rpy_vector[0];
+  double pitch = rpy_vector[1];
+  double d_roll = rpy_rate[0];
+  double d_pitch = rpy_rate[1];
+  transform_rate(0, 2) = -std::cos(pitch) * d_pitch;
+  transform_rate(1, 1) = -std::sin(roll) * d_roll;
+  transform_rate(1, 2) =
+    std::cos(roll) * std::cos(pitch) * d_roll - std::sin(roll) * std::sin(pitch) * d_pitch;
+  transform_rate(2, 1) = -std::cos(roll) * d_roll;
+  transform_rate(2, 2) =
+    -std::sin(roll) * std::cos(pitch) * d_roll - std::cos(roll) * std::sin(pitch) * d_pitch;
+  return transform_rate;
+}
+
 Eigen::Vector3d TruthEngineCyclic::GetBodyAngularRate(double time)
 {
   Eigen::Vector3d body_ang_vel;
@@ -178,6 +199,14 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
   if (relative_time < 0.0) {
     body_ang_acc = Eigen::Vector3d::Zero(3);
   } else {
+    Eigen::Vector3d d_rpy;
+    d_rpy[0] = m_ang_amplitude * m_ang_frequency[0] * M_PI *
+      std::sin(m_ang_frequency[0] * 2 * M_PI * relative_time);
+    d_rpy[1] = m_ang_amplitude * m_ang_frequency[1] * M_PI *
+      std::sin(m_ang_frequency[1] * 2 * M_PI * relative_time);
+    d_rpy[2] = m_ang_amplitude * m_ang_frequency[2] * M_PI *
+      std::sin(m_ang_frequency[2] * 2 * M_PI * relative_time);
+
     Eigen::Vector3d dd_rpy;
     dd_rpy[0] = m_ang_amplitude * 2 * M_PI * M_PI * m_ang_frequency[0] *
       m_ang_frequency[0] * std::cos(m_ang_frequency[0] * 2 * M_PI * relative_time);
@@ -188,7 +217,8 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyAngularAcceleration(double time)
 
     Eigen::Vector3d rpy = GetBodyRollPitchYaw(time);
     Eigen::Matrix3d transform = EulerDerivativeTransform(rpy);
-    body_ang_acc = transform * dd_rpy;
+    Eigen::Matrix3d transform_rate = EulerDerivativeTransformRate(rpy, d_rpy);
+    body_ang_acc = transform * dd_rpy + transform_rate * d_rpy;
   }
   return body_ang_acc;
 }
diff --git a/src/infrastructure/sim/truth_engine_cyclic.hpp b/src/infrastructure/sim/truth_engine_cyclic.hpp
index 8a5ffe3..40db998 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.hpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.hpp
@@ -101,6 +101,16 @@ public:
   ///
   static Eigen::Matrix3d EulerDerivativeTransform(const Eigen::Vector3d & rpy_vector);
 
+  ///
+  /// @brief Calculate time derivative of the RPY derivative transformation matrix
+  /// @param rpy_vector Roll-Pitch-Yaw vector
+  /// @param rpy_rate Roll-Pitch-Yaw time derivative
+  ///
+  static Eigen::Matrix3d EulerDerivativeTransformRate(
+    const Eigen::Vector3d & rpy_vector,
+    const Eigen::Vector3d & rpy_rate
+  );
+
   ///
   /// @brief True body angular rate getter
   /// @param time Simulation time
-- 
2.43.0


From 2fbf7aa6f286e2beff911751ae181c6b2939dc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 24/56] fix: cyclic truth keeps its angular offset while
 stationary

---
 src/infrastructure/sim/truth_engine_cyclic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/sim/truth_engine_cyclic.cpp b/src/infrastructure/sim/truth_engine_cyclic.cpp
index 5b23531..20e6130 100644
--- a/src/infrastructure/sim/truth_engine_cyclic.cpp
+++ b/src/infrastructure/sim/truth_engine_cyclic.cpp
@@ -107,7 +107,7 @@ Eigen::Vector3d TruthEngineCyclic::GetBodyRollPitchYaw(double time)
   Eigen::Vector3d body_rpy;
   double relative_time = time - m_stationary_time;
   if (relative_time < 0.0) {
-    body_rpy = Eigen::Vector3d::Zero(3);
+    body_rpy = m_ang_offset;
   } else {
     Eigen::Vector3d rpy_vector;
     rpy_vector[0] = m_ang_amplitude / 2.0 *
-- 
2.43.0


From af454b3ed96e6486c6446ceb0cf8828ea028bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:52 +0000
Subject: [PATCH 25/56] fix: spline truth rests at the start of the spline

---
 src/infrastructure/sim/truth_engine_spline.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/sim/truth_engine_spline.cpp b/src/infrastructure/sim/truth_engine_spline.cpp
index f639db2..3c7c61c 100644
--- a/src/infrastructure/sim/truth_engine_spline.cpp
+++ b/src/infrastructure/sim/truth_engine_spline.cpp
@@ -28,8 +28,10 @@ Eigen::Vector3d TruthEngineSpline::GetBodyPosition(double time)
 {
   Eigen::Vector3d body_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_pos_spline)) {
+  if (relative_time > m_max_time || IsSplineInvalid(m_pos_spline)) {
     body_pos = Eigen::Vector3d::Zero(3);
+  } else if (relative_time < 0.0) {
+    body_pos = m_pos_spline(0.0);
   } else {
     body_pos = m_pos_spline(relative_time / (m_max_time - m_stationary_time));
   }
@@ -74,8 +76,11 @@ Eigen::Quaterniond TruthEngineSpline::GetBodyAngularPosition(double time)
 {
   Eigen::Quaterniond body_ang_pos;
   double relative_time = time - m_stationary_time;
-  if (IsTimeInvalid(relative_time) || IsSplineInvalid(m_ang_spline)) {
+  if (relative_time > m_max_time || IsSplineInvalid(m_ang_spline)) {
     body_ang_pos = Eigen::Quaterniond{1.0, 0.0, 0.0, 0.0};
+  } else if (relative_time < 0.0) {
+    Eigen::Vector3d euler_angles = m_ang_spline(0.0);
+    body_ang_pos = EigVecToQuat(euler_angles);
   } else {
     double spline_param = relative_time / (m_max_time - m_stationary_time);
     Eigen::Vector3d euler_angles = m_ang_spline(spline_param);
-- 
2.43.0


From 8468007fd00bfef83e379b21749d791e87a50f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 26/56] fix: do not pass key point octaves to the descriptor of
 another algorithm

---
 src/trackers/feature_tracker.cpp | 10 ++++++++++
 src/trackers/feature_tracker.hpp |  1 +
 2 files changed, 11 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index cb7d4be..c8b9ded 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -43,6 +43,9 @@ FeatureTracker::FeatureTracker(FeatureTracker::Parameters params)
     params.logger
   ),
   m_px_error(params.px_error),
+  m_use_octaves(
+    (params.detector == Detector::ORB && params.descriptor == Descriptor::ORB) ||
+    (params.detector == Detector::SIFT && params.descriptor == Descriptor::SIFT)),
   m_down_sample(params.down_sample),
   m_down_sample_height(params.down_sample_height),
   m_down_sample_width(params.down_sample_width)
@@ -192,6 +195,13 @@ void FeatureTracker::Track(
   //     down_sample_size.width * down_sample_size.width
   //   ));
 
+  // The octave of a key point only has a meaning to the descriptor of the same algorithm
+  if (!m_use_octaves) {
+    for (auto & key_point : curr_key_points) {
+      key_point.octave = 0;
+    }
+  }
+
   cv::Mat curr_descriptors;
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
diff --git a/src/trackers/feature_tracker.hpp b/src/trackers/feature_tracker.hpp
index 235537b..48af230 100644
--- a/src/trackers/feature_tracker.hpp
+++ b/src/trackers/feature_tracker.hpp
@@ -186,6 +186,7 @@ private:
   static int GenerateFeatureID();
 
   double m_px_error;
+  bool m_use_octaves;
   bool m_down_sample;
   int m_down_sample_height;
   int m_down_sample_width;
-- 
2.43.0


From 4c693fc0a9dda942669414db69c02d70e9304e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:23 +0000
Subject: [PATCH 27/56] fix: scale key points of down-sampled images back to
 input image pixels

---
 src/trackers/feature_tracker.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index c8b9ded..74b898b 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -206,6 +206,16 @@ void FeatureTracker::Track(
   m_descriptor_extractor->compute(img_down, curr_key_points, curr_descriptors);
   curr_descriptors.convertTo(curr_descriptors, CV_32F);
 
+  // Return key points to the pixels of the input image, for which the intrinsics are given
+  if (m_down_sample) {
+    float scale_x = static_cast<float>(img_in.cols) / static_cast<float>(img_down.cols);
+    float scale_y = static_cast<float>(img_in.rows) / static_cast<float>(img_down.rows);
+    for (auto & key_point : curr_key_points) {
+      key_point.pt.x = (key_point.pt.x + 0.5F) * scale_x - 0.5F;
+      key_point.pt.y = (key_point.pt.y + 0.5F) * scale_y - 0.5F;
+    }
+  }
+
   m_logger->Log(LogLevel::DEBUG, "Called Tracker for frame ID: " + std::to_string(frame_id));
 
   if (m_prev_descriptors.rows > 0 && curr_descriptors.rows > 0) {
-- 
2.43.0


From 3211575df2e50d097345967508ccb48a2c7d7222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:16 +0000
Subject: [PATCH 28/56] fix: do not search two nearest neighbors in a single
 descriptor

---
 src/trackers/feature_tracker.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trackers/feature_tracker.cpp b/src/trackers/feature_tracker.cpp
index 74b898b..b5b58d0 100644
--- a/src/trackers/feature_tracker.cpp
+++ b/src/trackers/feature_tracker.cpp
@@ -223,8 +223,10 @@ void FeatureTracker::Track(
     std::vector<std::vector<cv::DMatch>> matches_backward;
 
     /// @todo Mask using maximum distance from predicted IMU rotations
-    m_descriptor_matcher->knnMatch(m_prev_descriptors, curr_descriptors, matches_forward, 2);
-    m_descriptor_matcher->knnMatch(curr_descriptors, m_prev_descriptors, matches_backward, 2);
+    if (m_prev_descriptors.rows > 1 && curr_descriptors.rows > 1) {
+      m_descriptor_matcher->knnMatch(m_prev_descriptors, curr_descriptors, matches_forward, 2);
+      m_descriptor_matcher->knnMatch(curr_descriptors, m_prev_descriptors, matches_backward, 2);
+    }
 
     // Perform test on matches
     RatioTest(matches_forward);
-- 
2.43.0


From 7606936978205bec85a68031d31b541ccdb19721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 29/56] fix: pass the position covariance of NavSatFix messages
 to the GPS sensor

The covariance of the converted message was never set, so the update used
uninitialised memory as measurement noise.
---
 src/sensors/ros/ros_gps_message.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sensors/ros/ros_gps_message.cpp b/src/sensors/ros/ros_gps_message.cpp
index de33eae..f8640c9 100644
--- a/src/sensors/ros/ros_gps_message.cpp
+++ b/src/sensors/ros/ros_gps_message.cpp
@@ -24,5 +24,6 @@ RosGpsMessage::RosGpsMessage(const sensor_msgs::msg::NavSatFix::SharedPtr msg)
 {
   time = RosHeaderToTime(msg->header);
   gps_lla = Eigen::Vector3d{msg->latitude, msg->longitude, msg->altitude};
+  pos_covariance = RosToEigen(msg->position_covariance);
   sensor_type = SensorType::GPS;
 }
-- 
2.43.0


From 7df375e4506c1c47f4993e4315ad7f5fe9efabc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 30/56] fix: set every entry of the body process noise in the
 ROS node

Half of the vector was left uninitialised and the angular noise was given to
the acceleration.
---
 src/application/ros/node/ekf_cal_node.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index b912515..8f51c6b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -64,7 +64,10 @@ EkfCalNode::EkfCalNode()
   declare_parameter("augmenting_ang_error", 0.0);
   declare_parameter("process_noise.pos", 1.0e-2);
   declare_parameter("process_noise.vel", 1.0e-2);
+  declare_parameter("process_noise.acc", 1.0e-2);
   declare_parameter("process_noise.ang_pos", 1.0e-2);
+  declare_parameter("process_noise.ang_vel", 1.0e-2);
+  declare_parameter("process_noise.ang_acc", 1.0e-2);
   declare_parameter("pos_b_in_l", std::vector<double>{0, 0, 0});
   declare_parameter("ang_b_to_l", std::vector<double>{0, 0, 0, 0});
   declare_parameter("pos_e_in_g", std::vector<double>{0, 0, 0});
@@ -623,12 +626,18 @@ Eigen::VectorXd EkfCalNode::LoadProcessNoise()
 {
   double pos_noise = get_parameter("process_noise.pos").as_double();
   double vel_noise = get_parameter("process_noise.vel").as_double();
+  double acc_noise = get_parameter("process_noise.acc").as_double();
   double ang_pos_noise = get_parameter("process_noise.ang_pos").as_double();
+  double ang_vel_noise = get_parameter("process_noise.ang_vel").as_double();
+  double ang_acc_noise = get_parameter("process_noise.ang_acc").as_double();
 
   Eigen::VectorXd process_noise(g_body_state_size);
   process_noise.segment<3>(0) = Eigen::Vector3d::Ones() * pos_noise;
   process_noise.segment<3>(3) = Eigen::Vector3d::Ones() * vel_noise;
-  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(6) = Eigen::Vector3d::Ones() * acc_noise;
+  process_noise.segment<3>(9) = Eigen::Vector3d::Ones() * ang_pos_noise;
+  process_noise.segment<3>(12) = Eigen::Vector3d::Ones() * ang_vel_noise;
+  process_noise.segment<3>(15) = Eigen::Vector3d::Ones() * ang_acc_noise;
 
   return process_noise;
 }
-- 
2.43.0


From 070be346d8abdcb9ad4f3e41e7d647fd527e827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 31/56] fix: tell the trackers of the ROS node about the camera
 they belong to

Camera extrinsics were put in the state but never calibrated.
---
 src/application/ros/node/ekf_cal_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 8f51c6b..545d006 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -498,6 +498,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.tracker.empty()) {
     FeatureTracker::Parameters trk_params = GetTrackerParameters(camera_params.tracker);
     trk_params.camera_id = camera_ptr->GetId();
+    trk_params.intrinsics = camera_params.intrinsics;
+    trk_params.is_cam_extrinsic = camera_params.is_extrinsic;
     trk_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FeatureTracker> trk_ptr = std::make_shared<FeatureTracker>(trk_params);
     camera_ptr->AddTracker(trk_ptr);
@@ -506,6 +508,8 @@ void EkfCalNode::LoadCamera(const std::string & camera_name)
   if (!camera_params.fiducial.empty()) {
     FiducialTracker::Parameters fid_params = GetFiducialParameters(camera_params.fiducial);
     fid_params.camera_id = camera_ptr->GetId();
+    fid_params.intrinsics = camera_params.intrinsics;
+    fid_params.is_cam_extrinsic = camera_params.is_extrinsic;
     fid_params.data_log_rate = camera_params.data_log_rate;
     std::shared_ptr<FiducialTracker> fid_ptr = std::make_shared<FiducialTracker>(fid_params);
     camera_ptr->AddFiducial(fid_ptr);
-- 
2.43.0


From f65630c339f4f40001e1f3e3c01365d7fa83a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 32/56] fix: load the GPS extrinsic calibration flag in the ROS
 node

---
 src/application/ros/node/ekf_cal_node.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 545d006..f9e7ad6 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -444,6 +444,7 @@ void EkfCalNode::DeclareGpsParameters(const std::string & gps_name)
   declare_parameter(gps_prefix + ".pos_a_in_b", std::vector<double>{0, 0, 0});
   declare_parameter(gps_prefix + ".pos_stability", 1e-9);
   declare_parameter(gps_prefix + ".variance", std::vector<double>{1, 1, 1});
+  declare_parameter(gps_prefix + ".is_extrinsic", false);
 }
 
 GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
@@ -453,12 +454,14 @@ GPS::Parameters EkfCalNode::GetGpsParameters(const std::string & gps_name)
   std::vector<double> pos_a_in_b = get_parameter(gps_prefix + ".pos_a_in_b").as_double_array();
   std::vector<double> variance = get_parameter(gps_prefix + ".variance").as_double_array();
   double pos_stability = get_parameter(gps_prefix + ".pos_stability").as_double();
+  bool is_extrinsic = get_parameter(gps_prefix + ".is_extrinsic").as_bool();
 
   GPS::Parameters gps_params;
   LoadSensorParameters(gps_params, gps_prefix, gps_name);
   gps_params.pos_a_in_b = StdToEigVec(pos_a_in_b);
   gps_params.variance = StdToEigVec(variance);
   gps_params.pos_stability = pos_stability;
+  gps_params.is_extrinsic = is_extrinsic;
   return gps_params;
 }
 
-- 
2.43.0


From 803166014b7857e70bb87a051f6bba065d6c3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 33/56] fix: set the maximum track length of the filter in the
 ROS node

Trackers configured with a longer track than the default of the filter lost
the states their features were seen from.
---
 src/application/ros/node/ekf_cal_node.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index f9e7ad6..5ae321b 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -17,6 +17,7 @@
 
 #include <eigen3/Eigen/Eigen>
 
+#include <algorithm>
 #include <array>
 #include <chrono>
 #include <functional>
@@ -193,6 +194,18 @@ void EkfCalNode::LoadSensors()
     LoadImu(imu_name);
   }
 
+  // Set maximum track length before cameras are registered
+  unsigned int max_track_length{0};
+  for (std::string & tracker_name : m_tracker_list) {
+    max_track_length =
+      std::max(max_track_length, GetTrackerParameters(tracker_name).max_track_length);
+  }
+  for (std::string & fiducial_name : m_fiducial_list) {
+    max_track_length =
+      std::max(max_track_length, GetFiducialParameters(fiducial_name).max_track_length);
+  }
+  m_ekf->SetMaxTrackLength(max_track_length);
+
   // Load Camera sensor parameters
   for (std::string & cam_name : m_camera_list) {
     LoadCamera(cam_name);
-- 
2.43.0


From daa0c8e882972c39385567b091954f078ee447cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 34/56] fix: give the example detector threshold the type the
 ROS node declares

The node threw InvalidParameterTypeException at start with the shipped file.
---
 config/example.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config/example.yaml b/config/example.yaml
index 046cf2c..c63812b 100644
--- a/config/example.yaml
+++ b/config/example.yaml
@@ -168,7 +168,7 @@
                 descriptor_matcher: 0       # DescriptorMatcher:
                                             #   0: BRUTE_FORCE
                                             #   1: FLANN
-                detector_threshold: 10.0    # Threshold used for detection (if available)
+                detector_threshold: 10      # Threshold used for detection (if available)
                 pixel_error: 0.5            # Average pixel error
                 min_feature_distance: 1.0   # Minimum feature distance to consider
                 min_track_length: 2         # Minimum track length
-- 
2.43.0


From 93437c766fa9bc45bf9bbbcf9064575ad718ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 35/56] fix: convert color images of ROS messages to gray-scale

An exception from the color conversion ended the node on the first color image.
---
 src/sensors/ros/ros_camera_message.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/sensors/ros/ros_camera_message.cpp b/src/sensors/ros/ros_camera_message.cpp
index 4937531..cf76201 100644
--- a/src/sensors/ros/ros_camera_message.cpp
+++ b/src/sensors/ros/ros_camera_message.cpp
@@ -18,14 +18,30 @@
 #include <memory>
 
 #include <cv_bridge/cv_bridge.hpp>
+#include <sensor_msgs/image_encodings.hpp>
 #include <sensor_msgs/msg/image.hpp>
 
 #include "sensors/camera_message.hpp"
 #include "utility/ros_helper.hpp"
 
+namespace
+{
+///
+/// @brief Get image from ROS message, converting color images to the gray-scale trackers expect
+/// @param msg Ros image message input
+/// @return Image
+///
+cv::Mat GetImage(const sensor_msgs::msg::Image::SharedPtr msg)
+{
+  if (!msg->data.empty() && sensor_msgs::image_encodings::isColor(msg->encoding)) {
+    return cv_bridge::toCvCopy(msg, sensor_msgs::image_encodings::MONO8)->image;
+  }
+  return cv_bridge::toCvCopy(msg)->image;
+}
+}  // namespace
 
 RosCameraMessage::RosCameraMessage(const sensor_msgs::msg::Image::SharedPtr msg)
-: CameraMessage(cv_bridge::toCvCopy(msg)->image)
+: CameraMessage(GetImage(msg))
 {
   time = RosHeaderToTime(msg->header);
   sensor_type = SensorType::Camera;
-- 
2.43.0


From f024db215cdb83560276ed78baed093080c56901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:24 +0000
Subject: [PATCH 36/56] fix: ignore GPS messages without a fix in the ROS node

Receivers publish NaN or stale positions while they have no fix.
---
 src/application/ros/node/ekf_cal_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/application/ros/node/ekf_cal_node.cpp b/src/application/ros/node/ekf_cal_node.cpp
index 5ae321b..b73cebe 100644
--- a/src/application/ros/node/ekf_cal_node.cpp
+++ b/src/application/ros/node/ekf_cal_node.cpp
@@ -32,6 +32,7 @@
 #include <sensor_msgs/msg/image.hpp>
 #include <sensor_msgs/msg/imu.hpp>
 #include <sensor_msgs/msg/nav_sat_fix.hpp>
+#include <sensor_msgs/msg/nav_sat_status.hpp>
 #include <std_msgs/msg/float64_multi_array.hpp>
 
 #include "ekf/ekf.hpp"
@@ -605,6 +606,11 @@ void EkfCalNode::CameraCallback(const sensor_msgs::msg::Image::SharedPtr msg, un
 
 void EkfCalNode::GpsCallback(const sensor_msgs::msg::NavSatFix::SharedPtr msg, unsigned int gps_id)
 {
+  if (msg->status.status == sensor_msgs::msg::NavSatStatus::STATUS_NO_FIX) {
+    m_debug_logger->Log(LogLevel::DEBUG, "GPS message without fix ignored");
+    return;
+  }
+
   auto ros_gps_iter = m_map_gps.find(gps_id);
   if (ros_gps_iter != m_map_gps.end()) {
     auto ros_gps_message = std::make_shared<RosGpsMessage>(msg);
-- 
2.43.0


From fd39cc969ace9d12f1823ad443be88d5e6030b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:04 +0000
Subject: [PATCH 37/56] fix: start the camera output image empty

The braces selected the initializer list constructor and made a 3x1 matrix of
integers, which the ROS node published as a malformed bgr8 image when the first
image received was empty.
---
 src/sensors/camera.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sensors/camera.hpp b/src/sensors/camera.hpp
index e3982bd..3fa8682 100644
--- a/src/sensors/camera.hpp
+++ b/src/sensors/camera.hpp
@@ -80,7 +80,7 @@ public:
   ///
   void Callback(const CameraMessage & camera_message);
 
-  cv::Mat m_out_img{0, 0, CV_8UC1};  ///< @brief Published output test image
+  cv::Mat m_out_img;                 ///< @brief Published output test image
 
 protected:
   static unsigned int GenerateFrameID();
-- 
2.43.0


From c7b8380ee31a4f7a863594178708c07e4015a768 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 38/56] fix: results of a run went astray when '.yaml' appears
 in a directory or not at all in the file name

---
 eval/animate.py   | 2 +-
 eval/report.py    | 2 +-
 eval/run.py       | 6 +++---
 eval/stats.py     | 2 +-
 eval/utilities.py | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/eval/animate.py b/eval/animate.py
index 9977ace..56f1617 100755
--- a/eval/animate.py
+++ b/eval/animate.py
@@ -48,7 +48,7 @@ from utilities import find_and_read_data_frames, generate_mc_lists
 def generate_animation(config_sets, args):
     """Top level function to plot simulation results from sets of config files."""
     for config_set in config_sets:
-        data_dirs = [config.split('.yaml')[0] for config in config_set]
+        data_dirs = [os.path.splitext(config)[0] for config in config_set]
         if len(config_set) > 1:
             plot_dir = os.path.dirname(os.path.dirname(config_set[0]))
         else:
diff --git a/eval/report.py b/eval/report.py
index 8c33ae8..4292037 100755
--- a/eval/report.py
+++ b/eval/report.py
@@ -49,7 +49,7 @@ from utilities import find_and_read_data_frames, generate_mc_lists
 def plot_sim_results(config_sets, args):
     """Top level function to plot simulation results from sets of config files."""
     for config_set in config_sets:
-        data_dirs = [config.split('.yaml')[0] for config in config_set]
+        data_dirs = [os.path.splitext(config)[0] for config in config_set]
         if len(config_set) > 1:
             plot_dir = os.path.dirname(os.path.dirname(config_set[0]))
             config_name = os.path.basename(os.path.dirname(os.path.dirname(config_set[0])))
diff --git a/eval/run.py b/eval/run.py
index bd96f24..138435c 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -56,7 +56,7 @@ def print_err(err):
 def run_sim(yaml_path: str):
     """Run simulation given an input yaml."""
     # Get (and create) yaml directory
-    yaml_dir = yaml_path.split('.yaml')[0] + os.sep
+    yaml_dir = os.path.splitext(yaml_path)[0] + os.sep
     if (not os.path.isdir(yaml_dir)):
         os.mkdir(yaml_dir)
         with open(os.path.join(yaml_dir, '.gitignore'), 'w') as f_git_ignore:
@@ -97,8 +97,8 @@ def generate_mc_from_yaml(
                 num_runs = sim_yaml['number_of_runs']
             if (num_runs > 1):
                 yaml_files = []
-                top_name = os.path.basename(yaml_file).split('.yaml')[0]
-                yaml_dir = yaml_file.split('.yaml')[0] + os.sep
+                top_name = os.path.splitext(os.path.basename(yaml_file))[0]
+                yaml_dir = os.path.splitext(yaml_file)[0] + os.sep
                 if (not os.path.isdir(yaml_dir)):
                     os.mkdir(yaml_dir)
                 add_gitignore(yaml_dir)
diff --git a/eval/stats.py b/eval/stats.py
index 1e96398..eedca2d 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -317,7 +317,7 @@ def calc_sim_stats(config_sets, args):
     """Top level function to plot simulation results from sets of config files."""
     for config_set in config_sets:
 
-        data_dirs = [config.split('.yaml')[0] for config in config_set]
+        data_dirs = [os.path.splitext(config)[0] for config in config_set]
         if len(config_set) > 1:
             stat_dir = os.path.dirname(os.path.dirname(config_set[0]))
         else:
diff --git a/eval/utilities.py b/eval/utilities.py
index 4c2196d..8ec6346 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -217,8 +217,8 @@ def generate_mc_lists(args):
                 if (args.runs):
                     num_runs = args.runs
                 if (num_runs > 1):
-                    top_name = os.path.basename(input_file).split('.yaml')[0]
-                    yaml_dir = input_file.split('.yaml')[0] + os.sep
+                    top_name = os.path.splitext(os.path.basename(input_file))[0]
+                    yaml_dir = os.path.splitext(input_file)[0] + os.sep
                     runs_dir = os.path.join(yaml_dir, 'runs')
                     n_digits = math.ceil(math.log10(num_runs))
                     for i in range(num_runs):
-- 
2.43.0


From 235db63b492008606c81bc384b46a4a8f8a8dcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:04 +0000
Subject: [PATCH 39/56] fix: the numbers of the runs of a Monte Carlo
 accumulated

---
 eval/run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index 138435c..a092b00 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -110,6 +110,8 @@ def generate_mc_from_yaml(
                 if (seed):
                     random.seed(seed)
 
+                run_number = sim_yaml['run_number']
+
                 n_digits = math.ceil(math.log10(num_runs))
                 for i in range(num_runs):
                     sub_yaml = top_yaml
@@ -117,7 +119,7 @@ def generate_mc_from_yaml(
                         new_seed = random.randint(0, 1000000000)
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
                     sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs'] = 1
-                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] += i
+                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] = run_number + i
                     if (time):
                         sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['max_time'] = time
                     sub_file = os.path.join(
-- 
2.43.0


From 960a50ec6151c42d5bef4379c27a5cf6a7635c43 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 40/56] fix: all runs of a Monte Carlo were the same without a
 seed, and could be with one

---
 eval/run.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index a092b00..acd73d5 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -109,15 +109,18 @@ def generate_mc_from_yaml(
                 seed = sim_yaml['seed']
                 if (seed):
                     random.seed(seed)
+                used_seeds = {0}
 
                 run_number = sim_yaml['run_number']
 
                 n_digits = math.ceil(math.log10(num_runs))
                 for i in range(num_runs):
                     sub_yaml = top_yaml
-                    if (seed):
+                    new_seed = 0
+                    while (new_seed in used_seeds):
                         new_seed = random.randint(0, 1000000000)
-                        sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
+                    used_seeds.add(new_seed)
+                    sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['seed'] = new_seed
                     sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['number_of_runs'] = 1
                     sub_yaml['/EkfCalNode']['ros__parameters']['sim_params']['run_number'] = run_number + i
                     if (time):
-- 
2.43.0


From 7ce90fae23418c07c76643dba3a5174473154d8b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 41/56] fix: the requested run time was ignored for a single
 run

---
 eval/run.py       | 2 +-
 eval/utilities.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index acd73d5..b1fa81c 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -95,7 +95,7 @@ def generate_mc_from_yaml(
                 num_runs = runs
             else:
                 num_runs = sim_yaml['number_of_runs']
-            if (num_runs > 1):
+            if (num_runs > 1 or time):
                 yaml_files = []
                 top_name = os.path.splitext(os.path.basename(yaml_file))[0]
                 yaml_dir = os.path.splitext(yaml_file)[0] + os.sep
diff --git a/eval/utilities.py b/eval/utilities.py
index 8ec6346..d24072e 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -216,7 +216,7 @@ def generate_mc_lists(args):
                 num_runs = sim_yaml['number_of_runs']
                 if (args.runs):
                     num_runs = args.runs
-                if (num_runs > 1):
+                if (num_runs > 1 or args.time):
                     top_name = os.path.splitext(os.path.basename(input_file))[0]
                     yaml_dir = os.path.splitext(input_file)[0] + os.sep
                     runs_dir = os.path.join(yaml_dir, 'runs')
-- 
2.43.0


From 2009a7215da1037d8870dc799dfb58ec12ce976f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 42/56] fix: the Monte Carlo runner did not start on a machine
 with a single processor

---
 eval/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index b1fa81c..3780a74 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -140,7 +140,7 @@ def generate_mc_from_yaml(
 
 def add_jobs(args):
     """Add simulation jobs to pool given list of top-level input yaml files."""
-    cpu_count = args.jobs if (args.jobs) else multiprocessing.cpu_count() - 1
+    cpu_count = args.jobs if (args.jobs) else max(multiprocessing.cpu_count() - 1, 1)
     pool = multiprocessing.Pool(cpu_count)
 
     for yaml_file in args.inputs:
-- 
2.43.0


From 5e779a491f5e2b08abb6c7ba2c58eed6a787247e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 43/56] fix: a run that crashed without a word was not reported

---
 eval/run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eval/run.py b/eval/run.py
index 3780a74..de157e5 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -69,6 +69,9 @@ def run_sim(yaml_path: str):
                           stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE)
 
+    if (proc.stderr or proc.returncode):
+        print(f'Warning: run {yaml_path} has errors', flush=True)
+
     # Write stdout
     if (proc.stdout):
         with open(os.path.join(yaml_dir, 'sim.stdout'), 'wb') as output:
@@ -76,7 +79,6 @@ def run_sim(yaml_path: str):
 
     # Write stderr
     if (proc.stderr):
-        print(f'Warning: run {yaml_path} has errors', flush=True)
         with open(os.path.join(yaml_dir, 'sim.stderr'), 'wb') as output:
             output.write(proc.stderr)
 
-- 
2.43.0


From 0a89cf75c1e92eda438b0bde78a1fd4d00a8dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 44/56] fix: the errors of a previous run were left in the
 directory of a run without errors

---
 eval/run.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eval/run.py b/eval/run.py
index de157e5..e845403 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -62,6 +62,11 @@ def run_sim(yaml_path: str):
         with open(os.path.join(yaml_dir, '.gitignore'), 'w') as f_git_ignore:
             f_git_ignore.write('*\n')
 
+    # Discard the output of a previous run
+    for name in ('sim.stdout', 'sim.stderr'):
+        if (os.path.isfile(os.path.join(yaml_dir, name))):
+            os.remove(os.path.join(yaml_dir, name))
+
     # Run simulation
     base_path = os.path.join(os.path.dirname(os.path.realpath(__file__)), '..')
     sim_path = os.path.join(base_path, '..', '..', 'build', 'ekf_cal', 'sim')
-- 
2.43.0


From 45df2e3dbbf9e406a8ac37de08fd03fde7efe5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 45/56] fix: an input that cannot be used ended the runs of all
 others

---
 eval/run.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index e845403..a73fcce 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -152,11 +152,16 @@ def add_jobs(args):
 
     for yaml_file in args.inputs:
         input_yaml_path = os.path.abspath(yaml_file)
-        list_of_runs = generate_mc_from_yaml(
-            input_yaml_path,
-            runs=args.runs,
-            time=args.time
-        )
+        try:
+            list_of_runs = generate_mc_from_yaml(
+                input_yaml_path,
+                runs=args.runs,
+                time=args.time
+            )
+        except Exception as err:
+            print(f'Warning: input {yaml_file} cannot be used', flush=True)
+            print_err(err)
+            continue
         for single_run in list_of_runs:
             pool.apply_async(run_sim, args=(single_run,), error_callback=print_err)
 
-- 
2.43.0


From d4a87811fd0049a394a967bc2e0e94df8bdd196d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 21:58:05 +0000
Subject: [PATCH 46/56] fix: the Monte Carlo runner required parameters the
 simulator has defaults for

---
 eval/run.py       | 6 +++---
 eval/utilities.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eval/run.py b/eval/run.py
index a73fcce..ba47372 100755
--- a/eval/run.py
+++ b/eval/run.py
@@ -101,7 +101,7 @@ def generate_mc_from_yaml(
             if (runs):
                 num_runs = runs
             else:
-                num_runs = sim_yaml['number_of_runs']
+                num_runs = sim_yaml.get('number_of_runs', 1)
             if (num_runs > 1 or time):
                 yaml_files = []
                 top_name = os.path.splitext(os.path.basename(yaml_file))[0]
@@ -113,12 +113,12 @@ def generate_mc_from_yaml(
                 if (not os.path.isdir(runs_dir)):
                     os.mkdir(runs_dir)
 
-                seed = sim_yaml['seed']
+                seed = sim_yaml.get('seed', 1)
                 if (seed):
                     random.seed(seed)
                 used_seeds = {0}
 
-                run_number = sim_yaml['run_number']
+                run_number = sim_yaml.get('run_number', 0)
 
                 n_digits = math.ceil(math.log10(num_runs))
                 for i in range(num_runs):
diff --git a/eval/utilities.py b/eval/utilities.py
index d24072e..ba85d60 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -213,7 +213,7 @@ def generate_mc_lists(args):
             try:
                 top_yaml = yaml.safe_load(input_stream)
                 sim_yaml = top_yaml['/EkfCalNode']['ros__parameters']['sim_params']
-                num_runs = sim_yaml['number_of_runs']
+                num_runs = sim_yaml.get('number_of_runs', 1)
                 if (args.runs):
                     num_runs = args.runs
                 if (num_runs > 1 or args.time):
-- 
2.43.0


From 1f1b7f3e2944caf2f3ea0e40c27482a1997d3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 47/56] fix: the evaluation left out sensors with identifiers
 above nine and directories with special characters

---
 eval/utilities.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index ba85d60..fcb9426 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -188,10 +188,11 @@ def find_and_read_data_frames(directories, prefix):
     """Find matching dataframes and read using pandas."""
     data_frame_sets = collections.defaultdict(list)
     for directory in directories:
-        file_paths_id = glob.glob(os.path.join(directory, prefix + '.csv'))
-        file_paths_id.extend(glob.glob(os.path.join(directory, prefix + '_[0-9].csv')))
-        for file_path in file_paths_id:
+        file_paths_id = glob.glob(os.path.join(glob.escape(directory), prefix + '*.csv'))
+        for file_path in sorted(file_paths_id):
             file_name = os.path.basename(file_path)
+            if not re.fullmatch(re.escape(prefix) + r'(_[0-9]+)?\.csv', file_name):
+                continue
             df = pd.read_csv(file_path).dropna()
             df.attrs['prefix'] = format_prefix(prefix)
             matches = re.findall(r'_[0-9]*\.csv', file_name)
-- 
2.43.0


From 1374eb221b1f5af70bfb25712916a7bfc11beb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 48/56] fix: one empty or cut log prevented the statistics of a
 whole batch

---
 eval/utilities.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index fcb9426..304b31a 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -193,7 +193,12 @@ def find_and_read_data_frames(directories, prefix):
             file_name = os.path.basename(file_path)
             if not re.fullmatch(re.escape(prefix) + r'(_[0-9]+)?\.csv', file_name):
                 continue
-            df = pd.read_csv(file_path).dropna()
+            try:
+                df = pd.read_csv(file_path).apply(pd.to_numeric, errors='coerce').dropna()
+            except pd.errors.EmptyDataError:
+                continue
+            if df.empty:
+                continue
             df.attrs['prefix'] = format_prefix(prefix)
             matches = re.findall(r'_[0-9]*\.csv', file_name)
             if matches:
-- 
2.43.0


From 9b8fa7bf3d8d98b7c7d9275dda396a52b9e97b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 49/56] fix: errors were taken between the runs of a batch once
 the logs of one run were missing

---
 eval/report.py    | 30 ++++++++++++++++++------------
 eval/stats.py     | 13 ++++++-------
 eval/utilities.py |  8 ++++++++
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/eval/report.py b/eval/report.py
index 4292037..e5d8a18 100755
--- a/eval/report.py
+++ b/eval/report.py
@@ -42,7 +42,7 @@ from tab_fiducial import tab_fiducial
 from tab_gps import tab_gps
 from tab_imu import tab_imu
 from tab_msckf import tab_msckf
-from utilities import find_and_read_data_frames, generate_mc_lists
+from utilities import find_and_read_data_frames, generate_mc_lists, match_runs
 
 
 # TODO(jhartzer): Split for loop into thread pool
@@ -65,39 +65,45 @@ def plot_sim_results(config_sets, args):
         aug_state_dfs_dict = find_and_read_data_frames(data_dirs, 'aug_state')
         body_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'body_truth')
         for key in body_state_dfs_dict:
-            body_state_dfs = body_state_dfs_dict[key]
             aug_state_dfs = aug_state_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[key]
+            body_state_dfs, body_truth_dfs = match_runs(
+                body_state_dfs_dict[key], body_truth_dfs_dict[key])
+            if not body_state_dfs:
+                continue
             tabs.append(tab_body(body_state_dfs, aug_state_dfs, body_truth_dfs, args).get_tab())
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
         for key in sorted(imu_dfs_dict.keys()):
-            imu_dfs = imu_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            imu_dfs, body_truth_dfs = match_runs(imu_dfs_dict[key], body_truth_dfs_dict[0])
+            if not imu_dfs:
+                continue
             tabs.append(tab_imu(imu_dfs, body_truth_dfs, args).get_tab())
 
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
         tri_dfs_dict = find_and_read_data_frames(data_dirs, 'triangulation')
         feat_dfs_dict = find_and_read_data_frames(data_dirs, 'feature_points')
         for key in sorted(mskcf_dfs_dict.keys()):
-            mskcf_dfs = mskcf_dfs_dict[key]
             tri_dfs = tri_dfs_dict[key]
             feat_dfs = feat_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            mskcf_dfs, body_truth_dfs = match_runs(mskcf_dfs_dict[key], body_truth_dfs_dict[0])
+            if not mskcf_dfs:
+                continue
             tabs.append(tab_msckf(mskcf_dfs, tri_dfs, feat_dfs, body_truth_dfs, args).get_tab())
 
         fiducial_dfs_dict = find_and_read_data_frames(data_dirs, 'fiducial')
         board_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'board_truth')
         for key in sorted(fiducial_dfs_dict.keys()):
-            fiducial_dfs = fiducial_dfs_dict[key]
-            board_dfs = board_truth_dfs_dict[0]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            fiducial_dfs, board_dfs, body_truth_dfs = match_runs(
+                fiducial_dfs_dict[key], board_truth_dfs_dict[0], body_truth_dfs_dict[0])
+            if not fiducial_dfs:
+                continue
             tabs.append(tab_fiducial(fiducial_dfs, board_dfs, body_truth_dfs, args).get_tab())
 
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
-            gps_dfs = gps_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[0]
+            gps_dfs, body_truth_dfs = match_runs(gps_dfs_dict[key], body_truth_dfs_dict[0])
+            if not gps_dfs:
+                continue
             tabs.append(tab_gps(gps_dfs, body_truth_dfs, args).get_tab())
 
         # Hide legends on click
diff --git a/eval/stats.py b/eval/stats.py
index eedca2d..f5c7bb6 100755
--- a/eval/stats.py
+++ b/eval/stats.py
@@ -33,7 +33,7 @@ import os
 
 from input_parser import InputParser
 import numpy as np
-from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error
+from utilities import find_and_read_data_frames, generate_mc_lists, interpolate_error, match_runs
 
 
 def RMSE_from_vectors(x_list, y_list, z_list):
@@ -327,8 +327,8 @@ def calc_sim_stats(config_sets, args):
         body_state_dfs_dict = find_and_read_data_frames(data_dirs, 'body_state')
         body_truth_dfs_dict = find_and_read_data_frames(data_dirs, 'body_truth')
         for key in body_state_dfs_dict:
-            body_state_dfs = body_state_dfs_dict[key]
-            body_truth_dfs = body_truth_dfs_dict[key]
+            body_state_dfs, body_truth_dfs = match_runs(
+                body_state_dfs_dict[key], body_truth_dfs_dict[key])
             stats[f'body_{key}_err_pos'] = body_err_pos(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_vel'] = body_err_vel(body_state_dfs, body_truth_dfs)
             stats[f'body_{key}_err_acc'] = body_err_acc(body_state_dfs, body_truth_dfs)
@@ -338,9 +338,8 @@ def calc_sim_stats(config_sets, args):
             stats[f'body_{key}_states'] = body_states(body_state_dfs)
 
         imu_dfs_dict = find_and_read_data_frames(data_dirs, 'imu')
-        body_truth_dfs = body_truth_dfs_dict[0]
         for key in sorted(imu_dfs_dict.keys()):
-            imu_dfs = imu_dfs_dict[key]
+            imu_dfs, body_truth_dfs = match_runs(imu_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'imu_{key}_err_pos'] = sensor_err_pos(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_ang'] = sensor_err_ang(imu_dfs, body_truth_dfs, 'imu')
             stats[f'imu_{key}_err_acc_bias'] = imu_err_bias(imu_dfs, body_truth_dfs, 'acc')
@@ -349,7 +348,7 @@ def calc_sim_stats(config_sets, args):
 
         mskcf_dfs_dict = find_and_read_data_frames(data_dirs, 'msckf')
         for key in sorted(mskcf_dfs_dict.keys()):
-            mskcf_dfs = mskcf_dfs_dict[key]
+            mskcf_dfs, body_truth_dfs = match_runs(mskcf_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'mskcf_{key}_err_pos'] = sensor_err_pos(mskcf_dfs, body_truth_dfs, 'cam')
             stats[f'mskcf_{key}_err_ang'] = sensor_err_ang(mskcf_dfs, body_truth_dfs, 'cam')
 
@@ -362,7 +361,7 @@ def calc_sim_stats(config_sets, args):
 
         gps_dfs_dict = find_and_read_data_frames(data_dirs, 'gps')
         for key in sorted(gps_dfs_dict.keys()):
-            gps_dfs = gps_dfs_dict[key]
+            gps_dfs, body_truth_dfs = match_runs(gps_dfs_dict[key], body_truth_dfs_dict[0])
             stats[f'gps_{key}_err_init_pos'] = gps_err_pos(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_err_init_ang'] = gps_err_ang(gps_dfs, body_truth_dfs)
             stats[f'gps_{key}_init_count'] = gps_init_count(gps_dfs)
diff --git a/eval/utilities.py b/eval/utilities.py
index 304b31a..7e8ba7d 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -200,6 +200,7 @@ def find_and_read_data_frames(directories, prefix):
             if df.empty:
                 continue
             df.attrs['prefix'] = format_prefix(prefix)
+            df.attrs['run'] = directory
             matches = re.findall(r'_[0-9]*\.csv', file_name)
             if matches:
                 file_id = int(matches[0].split('_')[1].split('.csv')[0])
@@ -210,6 +211,13 @@ def find_and_read_data_frames(directories, prefix):
     return data_frame_sets
 
 
+def match_runs(*data_frame_lists):
+    """Reduce lists of data frames to the runs that are in all of them."""
+    frames_by_run = [{df.attrs['run']: df for df in dfs} for dfs in data_frame_lists]
+    runs = [run for run in frames_by_run[0] if all(run in frames for frames in frames_by_run)]
+    return [[frames[run] for run in runs] for frames in frames_by_run]
+
+
 def generate_mc_lists(args):
     """Generate sets of yaml configuration files to plot."""
     mc_lists = []
-- 
2.43.0


From 45d78e7d9723fecfe749bcb1d029863d6313d1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:47 +0000
Subject: [PATCH 50/56] fix: an input that cannot be used ended the evaluation
 of all others

---
 eval/utilities.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index 7e8ba7d..d6af3f3 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -223,25 +223,26 @@ def generate_mc_lists(args):
     mc_lists = []
     for input_file in args.inputs:
         yaml_files = []
-        with open(input_file, 'r') as input_stream:
-            try:
+        try:
+            with open(input_file, 'r') as input_stream:
                 top_yaml = yaml.safe_load(input_stream)
-                sim_yaml = top_yaml['/EkfCalNode']['ros__parameters']['sim_params']
-                num_runs = sim_yaml.get('number_of_runs', 1)
-                if (args.runs):
-                    num_runs = args.runs
-                if (num_runs > 1 or args.time):
-                    top_name = os.path.splitext(os.path.basename(input_file))[0]
-                    yaml_dir = os.path.splitext(input_file)[0] + os.sep
-                    runs_dir = os.path.join(yaml_dir, 'runs')
-                    n_digits = math.ceil(math.log10(num_runs))
-                    for i in range(num_runs):
-                        sub_file = os.path.join(
-                            runs_dir, '{}_{:0{:d}.0f}.yaml'.format(top_name, i, n_digits))
-                        yaml_files.append(sub_file)
-                else:
-                    yaml_files.append(input_file)
-            except yaml.YAMLError as exc:
-                print(exc)
+            sim_yaml = top_yaml['/EkfCalNode']['ros__parameters']['sim_params']
+            num_runs = sim_yaml.get('number_of_runs', 1)
+        except Exception as exc:
+            print(f'Warning: input {input_file} cannot be used: {exc}')
+            continue
+        if (args.runs):
+            num_runs = args.runs
+        if (num_runs > 1 or args.time):
+            top_name = os.path.splitext(os.path.basename(input_file))[0]
+            yaml_dir = os.path.splitext(input_file)[0] + os.sep
+            runs_dir = os.path.join(yaml_dir, 'runs')
+            n_digits = math.ceil(math.log10(num_runs))
+            for i in range(num_runs):
+                sub_file = os.path.join(
+                    runs_dir, '{}_{:0{:d}.0f}.yaml'.format(top_name, i, n_digits))
+                yaml_files.append(sub_file)
+        else:
+            yaml_files.append(input_file)
         mc_lists.append(yaml_files)
     return mc_lists
-- 
2.43.0


From f3baffd2cb31d2f0f73d256fdfa31f8395fdf333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 51/56] fix: plot update durations in the unit of their axis

The logs hold microseconds, which the histogram divided by 1e3 and labelled [us].
---
 eval/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/utilities.py b/eval/utilities.py
index d6af3f3..1c349ba 100644
--- a/eval/utilities.py
+++ b/eval/utilities.py
@@ -130,7 +130,7 @@ def plot_update_timing(data_frames, rate=None):
                  y_axis_label='Count', title=f'{df_prefix} {df_id} Update Time')
     durations = np.array([])
     for df in data_frames:
-        durations = np.append(durations, df['duration_0'] / 1e3)
+        durations = np.append(durations, df['duration_0'])
     hist, edges = np.histogram(durations)
     fig.quad(top=hist, bottom=0, left=edges[:-1], right=edges[1:], legend_label='Duration [us]')
     if rate:
-- 
2.43.0


From 86848781e6fbe685aa58f1881b236de85dff8e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 52/56] fix: plot IMU bias errors at their own times

The gyroscope bias errors were interpolated at time zero, and the errors of shorter
runs were padded with zeros up to the length of the longest one.
---
 eval/tab_imu.py | 65 ++++++++++++++-----------------------------------
 1 file changed, 18 insertions(+), 47 deletions(-)

diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 22b3d2f..06c6e8e 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -174,30 +174,16 @@ class tab_imu:
             x_axis_label='Time [s]',
             y_axis_label='Bias Error [m]',
             title='Accelerometer Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        a_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        a_bias_err_z = np.zeros([len(self.imu_dfs), n])
-
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            time = self.imu_dfs[i]['time']
-            est_x = np.array(self.imu_dfs[i]['imu_acc_bias_0'])
-            est_y = np.array(self.imu_dfs[i]['imu_acc_bias_1'])
-            est_z = np.array(self.imu_dfs[i]['imu_acc_bias_2'])
-
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
             true_t = body_truth['time']
-            true_x = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_0"]
-            true_y = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_1"]
-            true_z = body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_2"]
-
-            a_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, time, est_x)
-            a_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, time, est_y)
-            a_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, time, est_z)
-
-            fig.line(time, a_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(time, a_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(time, a_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            for i in range(3):
+                bias_err = interpolate_error(
+                    true_t,
+                    body_truth[f"imu_acc_bias_{imu_df.attrs['id']}_{i}"],
+                    time,
+                    imu_df[f'imu_acc_bias_{i}'])
+                fig.line(time, bias_err, color=self.colors[i], alpha=self.alpha)
 
         return fig
 
@@ -209,31 +195,16 @@ class tab_imu:
             x_axis_label='Time [s]',
             y_axis_label='Bias Error [m]',
             title='Gyroscope Bias Error')
-        n = np.max([len(imu_df) for imu_df in self.imu_dfs])
-        w_bias_t = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_x = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_y = np.zeros([len(self.imu_dfs), n])
-        w_bias_err_z = np.zeros([len(self.imu_dfs), n])
-
-        for i, (imu_df, body_truth) in enumerate(zip(self.imu_dfs, self.body_truth_dfs)):
-            m = len(self.imu_dfs[i]['time'])
-            w_bias_t[i, 0:m] = self.imu_dfs[i]['time']
-            w_bias_x = np.array(self.imu_dfs[i]['imu_gyr_bias_0'])
-            w_bias_y = np.array(self.imu_dfs[i]['imu_gyr_bias_1'])
-            w_bias_z = np.array(self.imu_dfs[i]['imu_gyr_bias_2'])
-
+        for imu_df, body_truth in zip(self.imu_dfs, self.body_truth_dfs):
+            time = imu_df['time']
             true_t = body_truth['time']
-            true_x = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_0"]
-            true_y = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_1"]
-            true_z = body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_2"]
-
-            w_bias_err_x[i, 0:m] = interpolate_error(true_t, true_x, w_bias_err_x[i, :], w_bias_x)
-            w_bias_err_y[i, 0:m] = interpolate_error(true_t, true_y, w_bias_err_y[i, :], w_bias_y)
-            w_bias_err_z[i, 0:m] = interpolate_error(true_t, true_z, w_bias_err_z[i, :], w_bias_z)
-
-            fig.line(w_bias_t[i, :], w_bias_err_x[i, :], color=self.colors[0], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_y[i, :], color=self.colors[1], alpha=self.alpha)
-            fig.line(w_bias_t[i, :], w_bias_err_z[i, :], color=self.colors[2], alpha=self.alpha)
+            for i in range(3):
+                bias_err = interpolate_error(
+                    true_t,
+                    body_truth[f"imu_gyr_bias_{imu_df.attrs['id']}_{i}"],
+                    time,
+                    imu_df[f'imu_gyr_bias_{i}'])
+                fig.line(time, bias_err, color=self.colors[i], alpha=self.alpha)
 
         return fig
 
-- 
2.43.0


From e96bd62a8ee783aa0719e1741a036e395c372617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 53/56] fix: normalize squared errors by the variances of the
 logs

The logged covariance diagonals are variances, not deviations, and attitude errors are
needed in radians as the variances are.
---
 eval/tab_body.py     | 37 +++++++++++++++++++------------------
 eval/tab_fiducial.py | 18 +++++++++---------
 eval/tab_gps.py      |  6 +++---
 eval/tab_imu.py      | 25 +++++++++++++------------
 eval/tab_msckf.py    | 13 +++++++------
 5 files changed, 51 insertions(+), 48 deletions(-)

diff --git a/eval/tab_body.py b/eval/tab_body.py
index b252b6e..d5b727b 100644
--- a/eval/tab_body.py
+++ b/eval/tab_body.py
@@ -457,6 +457,7 @@ class tab_body:
             e07 = interpolate_error(tt, t07, xt, x07)
             e08 = interpolate_error(tt, t08, xt, x08)
             e09, e10, e11 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e09, e10, e11 = e09 / 1e3, e10 / 1e3, e11 / 1e3  # mrad to rad
             e12 = interpolate_error(tt, t12, xt, x12)
             e13 = interpolate_error(tt, t13, xt, x13)
             e14 = interpolate_error(tt, t14, xt, x14)
@@ -465,24 +466,24 @@ class tab_body:
             e17 = interpolate_error(tt, t17, xt, x17)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05 + \
-                e06 * e06 / c06 / c06 + \
-                e07 * e07 / c07 / c07 + \
-                e08 * e08 / c08 / c08 + \
-                e09 * e09 / c09 / c09 + \
-                e10 * e10 / c10 / c10 + \
-                e11 * e11 / c11 / c11 + \
-                e12 * e12 / c12 / c12 + \
-                e13 * e13 / c13 / c13 + \
-                e14 * e14 / c14 / c14 + \
-                e15 * e15 / c15 / c15 + \
-                e16 * e16 / c16 / c16 + \
-                e17 * e17 / c17 / c17
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05 + \
+                e06 * e06 / c06 + \
+                e07 * e07 / c07 + \
+                e08 * e08 / c08 + \
+                e09 * e09 / c09 + \
+                e10 * e10 / c10 + \
+                e11 * e11 / c11 + \
+                e12 * e12 / c12 + \
+                e13 * e13 / c13 + \
+                e14 * e14 / c14 + \
+                e15 * e15 / c15 + \
+                e16 * e16 / c16 + \
+                e17 * e17 / c17
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index 2387908..ddf0a80 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -252,9 +252,9 @@ class tab_fiducial:
                 qe = Rotation.from_quat([ew, ex, ey, ez], scalar_first=True)
                 q_err = qt * qe.inv()
                 error_euler = q_err.as_euler('XYZ')
-                e03.append(error_euler[0] * 1e3)
-                e04.append(error_euler[1] * 1e3)
-                e05.append(error_euler[2] * 1e3)
+                e03.append(error_euler[0])
+                e04.append(error_euler[1])
+                e05.append(error_euler[2])
             e03 = np.array(e03)
             e04 = np.array(e04)
             e05 = np.array(e05)
@@ -267,12 +267,12 @@ class tab_fiducial:
             c05 = fiducial_df['fid_cov_5']
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_gps.py b/eval/tab_gps.py
index 772e767..9bb7dad 100644
--- a/eval/tab_gps.py
+++ b/eval/tab_gps.py
@@ -152,9 +152,9 @@ class tab_gps:
             e02 = interpolate_error(tt, t02, xt, x02)
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_imu.py b/eval/tab_imu.py
index 06c6e8e..5d5a3e6 100644
--- a/eval/tab_imu.py
+++ b/eval/tab_imu.py
@@ -346,14 +346,15 @@ class tab_imu:
                 e01 = interpolate_error(tt, t01, xt, x01)
                 e02 = interpolate_error(tt, t02, xt, x02)
                 e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+                e03, e04, e05 = e03 / 1e3, e04 / 1e3, e05 / 1e3  # mrad to rad
 
                 nees += \
-                    e00 * e00 / c00 / c00 + \
-                    e01 * e01 / c01 / c01 + \
-                    e02 * e02 / c02 / c02 + \
-                    e03 * e03 / c03 / c03 + \
-                    e04 * e04 / c04 / c04 + \
-                    e05 * e05 / c05 / c05
+                    e00 * e00 / c00 + \
+                    e01 * e01 / c01 + \
+                    e02 * e02 / c02 + \
+                    e03 * e03 / c03 + \
+                    e04 * e04 / c04 + \
+                    e05 * e05 / c05
 
             if self.is_intrinsic:
                 dof += 6
@@ -386,12 +387,12 @@ class tab_imu:
                 e11 = interpolate_error(tt, t11, xt, x11)
 
                 nees += \
-                    e06 * e06 / c06 / c06 + \
-                    e07 * e07 / c07 / c07 + \
-                    e08 * e08 / c08 / c08 + \
-                    e09 * e09 / c09 / c09 + \
-                    e10 * e10 / c10 / c10 + \
-                    e11 * e11 / c11 / c11
+                    e06 * e06 / c06 + \
+                    e07 * e07 / c07 + \
+                    e08 * e08 / c08 + \
+                    e09 * e09 / c09 + \
+                    e10 * e10 / c10 + \
+                    e11 * e11 / c11
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 86c3973..d668205 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -320,14 +320,15 @@ class tab_msckf:
             e01 = interpolate_error(tt, t01, xt, x01)
             e02 = interpolate_error(tt, t02, xt, x02)
             e03, e04, e05 = interpolate_quat_error(tt, tw, tx, ty, tz, xt, xw, xx, xy, xz)
+            e03, e04, e05 = e03 / 1e3, e04 / 1e3, e05 / 1e3  # mrad to rad
 
             nees = \
-                e00 * e00 / c00 / c00 + \
-                e01 * e01 / c01 / c01 + \
-                e02 * e02 / c02 / c02 + \
-                e03 * e03 / c03 / c03 + \
-                e04 * e04 / c04 / c04 + \
-                e05 * e05 / c05 / c05
+                e00 * e00 / c00 + \
+                e01 * e01 / c01 + \
+                e02 * e02 / c02 + \
+                e03 * e03 / c03 + \
+                e04 * e04 / c04 + \
+                e05 * e05 / c05
 
             fig.line(xt, nees, alpha=self.alpha, color=self.colors[0])
 
-- 
2.43.0


From 6d830a378ead57c74b388585a154f8e1d96eaa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 54/56] fix: plot the x, y and z of camera orientations as such

Column 0 of the logged quaternion is its w.
---
 eval/tab_fiducial.py | 6 +++---
 eval/tab_msckf.py    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index ddf0a80..f9b1186 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -67,9 +67,9 @@ class tab_fiducial:
             title='Camera Orientation')
         for fiducial_df in self.fiducial_dfs:
             time = fiducial_df['time']
-            ang_x = fiducial_df['cam_ang_pos_0']
-            ang_y = fiducial_df['cam_ang_pos_1']
-            ang_z = fiducial_df['cam_ang_pos_2']
+            ang_x = fiducial_df['cam_ang_pos_1']
+            ang_y = fiducial_df['cam_ang_pos_2']
+            ang_z = fiducial_df['cam_ang_pos_3']
             fig.line(time, ang_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
             fig.line(time, ang_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
             fig.line(time, ang_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index d668205..8232799 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -67,9 +67,9 @@ class tab_msckf:
             title='Camera Orientation')
         for msckf_df in self.msckf_dfs:
             time = msckf_df['time']
-            ang_x = msckf_df['cam_ang_pos_0']
-            ang_y = msckf_df['cam_ang_pos_1']
-            ang_z = msckf_df['cam_ang_pos_2']
+            ang_x = msckf_df['cam_ang_pos_1']
+            ang_y = msckf_df['cam_ang_pos_2']
+            ang_z = msckf_df['cam_ang_pos_3']
             fig.line(time, ang_x, alpha=self.alpha, color=self.colors[0], legend_label='X')
             fig.line(time, ang_y, alpha=self.alpha, color=self.colors[1], legend_label='Y')
             fig.line(time, ang_z, alpha=self.alpha, color=self.colors[2], legend_label='Z')
-- 
2.43.0


From d7807acf91af22c6da901c9ce0b2a4e12cf84a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 55/56] fix: compare triangulated points with the features of
 their own run

A run without one of the two logs shifted the pairs of all later runs, and a log of
feature points that was cut short ended the report.
---
 eval/report.py    | 3 +--
 eval/tab_msckf.py | 2 ++
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/report.py b/eval/report.py
index e5d8a18..faa8def 100755
--- a/eval/report.py
+++ b/eval/report.py
@@ -83,8 +83,7 @@ def plot_sim_results(config_sets, args):
         tri_dfs_dict = find_and_read_data_frames(data_dirs, 'triangulation')
         feat_dfs_dict = find_and_read_data_frames(data_dirs, 'feature_points')
         for key in sorted(mskcf_dfs_dict.keys()):
-            tri_dfs = tri_dfs_dict[key]
-            feat_dfs = feat_dfs_dict[0]
+            tri_dfs, feat_dfs = match_runs(tri_dfs_dict[key], feat_dfs_dict[0])
             mskcf_dfs, body_truth_dfs = match_runs(mskcf_dfs_dict[key], body_truth_dfs_dict[0])
             if not mskcf_dfs:
                 continue
diff --git a/eval/tab_msckf.py b/eval/tab_msckf.py
index 8232799..6edceb6 100644
--- a/eval/tab_msckf.py
+++ b/eval/tab_msckf.py
@@ -192,6 +192,8 @@ class tab_msckf:
             true_z = feat_df['z']
 
             for (t, f, x, y, z) in zip(time, feature, feat_x, feat_y, feat_z):
+                if int(f) >= len(feat_df):
+                    continue
                 err_x[t].append(x - true_x[int(f)])
                 err_y[t].append(y - true_y[int(f)])
                 err_z[t].append(z - true_z[int(f)])
-- 
2.43.0


From c0273ba4c78e8d5bdf79213f520c5f25396c041f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:14 +0000
Subject: [PATCH 56/56] fix: compare fiducial estimates with the truth of their
 own board

The first board of the run was taken for every tracker.
---
 eval/tab_fiducial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eval/tab_fiducial.py b/eval/tab_fiducial.py
index f9b1186..11e1f1b 100644
--- a/eval/tab_fiducial.py
+++ b/eval/tab_fiducial.py
@@ -227,6 +227,10 @@ class tab_fiducial:
         fig = figure(width=800, height=300, x_axis_label='Time [s]',
                      y_axis_label='NEES', title='Normalized Estimation Error Squared')
         for fiducial_df, board_truth in zip(self.fiducial_dfs, self.board_truth_dfs):
+            # The log holds one board, the truth of the run has a row for each of its boards
+            board_truth = board_truth[board_truth['board'] == fiducial_df['board'][0]]
+            if not len(board_truth):
+                continue
             t00 = np.array(board_truth['pos_x'])[0]
             t01 = np.array(board_truth['pos_y'])[0]
             t02 = np.array(board_truth['pos_z'])[0]
-- 
2.43.0


From 63551053c1c372eb1e2e7b0f8408840b57c76557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 01/12] fix: do not lose a TCP response that arrives together
 with another one

---
 src/network.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/network.rs b/src/network.rs
index ec999ea..37c723c 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -316,6 +316,12 @@ impl Network {
     }
 
     fn tcp_read_from_buffer(&mut self, timeout: Duration) {
+        // Readiness is edge-triggered. Bytes which were left in the socket by a previous call are
+        // only reported again after registering anew.
+        self.poll_read
+            .registry()
+            .reregister(&mut self.tcp_socket, CLIENT, Interest::READABLE)
+            .unwrap();
         self.poll_read
             .poll(&mut self.events, Some(timeout))
             .unwrap();
-- 
2.43.0


From e2d5a24b61fd42b6f8c7b11a6707be23233d8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 02/12] fix: check the size of the UDP datagram that is
 actually decoded

---
 src/network.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index 37c723c..91e2069 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -271,8 +271,10 @@ impl Network {
                 CLIENT => {
                     if event.is_readable() {
                         let mut buffer: Vec<u8> = vec![0; size_of::<T>()];
-                        let read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
-                        while self.udp_socket.recv_from(&mut buffer).is_ok() {}
+                        let mut read_bytes_and_address = self.udp_socket.recv_from(&mut buffer);
+                        while let Ok(newer) = self.udp_socket.recv_from(&mut buffer) {
+                            read_bytes_and_address = Ok(newer);
+                        }
                         let read_bytes = match read_bytes_and_address {
                             Ok(res) => {
                                 self.udp_server_address = res.1;
-- 
2.43.0


From 12cbbea4e7c015b9cda0f5642d58e1e520e93b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 03/12] fix: report a missing first robot state as an error
 instead of panicking

---
 src/robot/robot_impl.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 1db48ad..9edbc72 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -112,8 +112,7 @@ impl RobotImpl {
         robot_impl.connect_robot()?;
         let state = robot_impl
             .network
-            .udp_blocking_receive::<RobotStateIntern>()
-            .unwrap();
+            .udp_blocking_receive::<RobotStateIntern>()?;
         robot_impl.update_state_with(&state);
         Ok(robot_impl)
     }
-- 
2.43.0


From 4c7b3192c4b8abed67792f72c0eb357e21c12562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 04/12] fix: keep the original error when canceling a motion
 fails

---
 src/robot/robot_impl.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 9edbc72..921d4de 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -394,11 +394,12 @@ impl RobotControl for RobotImpl {
 
     // TODO exception handling
     fn cancel_motion(&mut self, motion_id: u32) {
-        self.execute_stop_command()
-            .expect("error while canceling motion"); //todo handle Network exception. But it is not that important since we already have an error anyways
-        let mut _robot_state = self.receive_robot_state();
-        while self.motion_generator_running() || self.controller_running() {
-            _robot_state = self.receive_robot_state();
+        // A rejected stop must not hide the error that led to the cancellation.
+        let _ = self.execute_stop_command();
+        let mut robot_state = self.receive_robot_state();
+        while robot_state.is_ok() && (self.motion_generator_running() || self.controller_running())
+        {
+            robot_state = self.receive_robot_state();
         }
 
         // comment from libfranka devs:
-- 
2.43.0


From a8a6e55500587d4cc7fd79b1411ce9d8fd032de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 05/12] fix: keep the command log in order and empty it when it
 is flushed

---
 src/robot/logger.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/robot/logger.rs b/src/robot/logger.rs
index db4fb76..2f2ad5e 100644
--- a/src/robot/logger.rs
+++ b/src/robot/logger.rs
@@ -49,7 +49,6 @@ impl Record {
 pub(crate) struct Logger {
     states: VecDeque<RobotState>,
     commands: VecDeque<RobotCommand>,
-    ring_front: usize,
     ring_size: usize,
     log_size: usize,
 }
@@ -59,15 +58,16 @@ impl Logger {
         Logger {
             states: VecDeque::with_capacity(log_size),
             commands: VecDeque::with_capacity(log_size),
-            ring_front: 0,
             ring_size: 0,
             log_size,
         }
     }
     pub fn log(&mut self, state: &RobotState, command: &RobotCommand) {
+        if self.log_size == 0 {
+            return;
+        }
         self.states.push_back(state.clone());
         self.commands.push_back(*command);
-        self.ring_front = (self.ring_front + 1) % self.log_size;
         if self.ring_size == self.log_size {
             self.states.pop_front();
             self.commands.pop_front();
@@ -76,8 +76,7 @@ impl Logger {
     }
     pub fn flush(&mut self) -> Vec<Record> {
         let mut out: Vec<Record> = Vec::new();
-        for i in 0..self.ring_size {
-            let index = (self.ring_front + i) % self.ring_size;
+        for index in 0..self.ring_size {
             let cmd = self.commands.get(index).unwrap();
             let command = RobotCommandLog {
                 joint_positions: JointPositions::new(cmd.motion.q_c),
@@ -92,7 +91,8 @@ impl Logger {
             };
             out.push(record);
         }
-        self.ring_front = 0;
+        self.states.clear();
+        self.commands.clear();
         self.ring_size = 0;
         out
     }
-- 
2.43.0


From da797d05daecd96e1e42b14d23320db13af490eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 06/12] fix: reject a cutoff frequency of zero as documented

---
 src/robot/low_pass_filter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/robot/low_pass_filter.rs b/src/robot/low_pass_filter.rs
index 8c3ab5f..88b3b11 100644
--- a/src/robot/low_pass_filter.rs
+++ b/src/robot/low_pass_filter.rs
@@ -28,7 +28,7 @@ pub static DEFAULT_CUTOFF_FREQUENCY: f64 = 100.0;
 /// Filtered value.
 pub fn low_pass_filter(sample_time: f64, y: f64, y_last: f64, cutoff_frequency: f64) -> f64 {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     assert!(y.is_finite() && y_last.is_finite());
     let gain = sample_time / (sample_time + (1.0 / (2.0 * PI * cutoff_frequency)));
     gain * y + (1. - gain) * y_last
@@ -57,7 +57,7 @@ pub fn cartesian_low_pass_filter(
     cutoff_frequency: f64,
 ) -> [f64; 16] {
     assert!(sample_time.is_sign_positive() && sample_time.is_finite());
-    assert!(cutoff_frequency.is_sign_positive() && cutoff_frequency.is_finite());
+    assert!(cutoff_frequency > 0. && cutoff_frequency.is_finite());
     y.iter()
         .zip(y_last.iter())
         .for_each(|(i, j)| assert!(i.is_finite() && j.is_finite()));
-- 
2.43.0


From f65dabe9557982834d0b305e27941e225774795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 07/12] fix: write the whole model library to disk

---
 src/model/library_downloader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index 5a7b99d..f72ec1c 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -37,7 +37,7 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write(&buffer).map_err(|_| ModelException {
+            file.write_all(&buffer).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
             Ok(())
-- 
2.43.0


From d842147fbbfb310c44fa29410a646d979c433278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:04 +0000
Subject: [PATCH 08/12] fix: do not leave the model library on disk unless it
 was requested

---
 src/robot/robot_impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 921d4de..491cd63 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -236,7 +236,7 @@ impl RobotImpl {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
         let model = Model::new(model_file, None)?;
-        if !persistent && model_already_downloaded {
+        if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
         Ok(model)
-- 
2.43.0


From fd5bc7f21d738f09b3addb95bad76d78e8205044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:12 +0000
Subject: [PATCH 09/12] fix: use the total inertia for the coriolis vector of a
 robot state

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index 191fc13..b561c95 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -347,7 +347,7 @@ impl Model {
         self.coriolis(
             &robot_state.q,
             &robot_state.dq,
-            &robot_state.I_load,
+            &robot_state.I_total,
             robot_state.m_total,
             &robot_state.F_x_Ctotal,
         )
-- 
2.43.0


From b8ea25e0b5d9fc8b128762ea7b298171177e6621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:39 +0000
Subject: [PATCH 10/12] fix: do not leave an unusable model library behind when
 loading it fails

---
 src/model/library_downloader.rs | 10 +++++++---
 src/robot/robot_impl.rs         |  4 ++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/model/library_downloader.rs b/src/model/library_downloader.rs
index f72ec1c..2ea45c0 100644
--- a/src/model/library_downloader.rs
+++ b/src/model/library_downloader.rs
@@ -10,7 +10,7 @@ use crate::FrankaResult;
 use std::fmt;
 use std::fmt::Display;
 use std::fmt::Formatter;
-use std::fs::File;
+use std::fs::{remove_file, File};
 use std::io::Write;
 use std::mem::size_of;
 use std::path::Path;
@@ -37,8 +37,12 @@ impl LibraryDownloader {
             let mut file = File::create(download_path).map_err(|_| ModelException {
                 message: "Error writing model to disk:".to_string(),
             })?;
-            file.write_all(&buffer).map_err(|_| ModelException {
-                message: "Error writing model to disk:".to_string(),
+            file.write_all(&buffer).map_err(|_| {
+                // an incomplete file would be taken for the model by the next attempt
+                let _ = remove_file(download_path);
+                ModelException {
+                    message: "Error writing model to disk:".to_string(),
+                }
             })?;
             Ok(())
         } else {
diff --git a/src/robot/robot_impl.rs b/src/robot/robot_impl.rs
index 491cd63..8a1d8ec 100644
--- a/src/robot/robot_impl.rs
+++ b/src/robot/robot_impl.rs
@@ -235,11 +235,11 @@ impl RobotImpl {
         if !model_already_downloaded {
             LibraryDownloader::download(&mut self.network, model_file)?;
         }
-        let model = Model::new(model_file, None)?;
+        let model = Model::new(model_file, None);
         if !persistent {
             remove_file(model_file).expect("Could not delete file");
         }
-        Ok(model)
+        model
     }
     pub fn server_version(&self) -> u16 {
         self.ri_version.unwrap()
-- 
2.43.0


From 18fa990ca75f453a5ea26f03577eb427a5c837cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:11 +0000
Subject: [PATCH 11/12] fix: half turns were taken for the identity when
 filtering or limiting poses

---
 src/robot/rate_limiting.rs |  7 +++----
 src/utils.rs               | 19 ++++++++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/robot/rate_limiting.rs b/src/robot/rate_limiting.rs
index a621576..93f8439 100644
--- a/src/robot/rate_limiting.rs
+++ b/src/robot/rate_limiting.rs
@@ -5,12 +5,11 @@
 //! joint position and joint velocity.
 
 use nalgebra::{
-    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Rotation3, Translation3, UnitQuaternion, Vector3, U1,
-    U3,
+    Isometry3, Matrix3, Matrix3x1, Matrix6x1, Rotation3, Translation3, Vector3, U1, U3,
 };
 
 use crate::robot::control_tools::is_homogeneous_transformation;
-use crate::utils::array_to_isometry;
+use crate::utils::{array_to_isometry, rotation_from_matrix};
 
 ///Sample time constant
 pub static DELTA_T: f64 = 1e-3;
@@ -357,7 +356,7 @@ pub fn limit_rate_cartesian_pose(
             + f64::sin(theta) * omega_skew
             + (1. - f64::cos(theta)) * (omega_skew * omega_skew);
         limited_commanded_pose.rotation =
-            UnitQuaternion::from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix()));
+            rotation_from_matrix(&(R * last_commanded_pose.rotation.to_rotation_matrix().matrix()));
     }
     let mut limited_values = [0.; 16];
     for (i, &x) in limited_commanded_pose.to_homogeneous().iter().enumerate() {
diff --git a/src/utils.rs b/src/utils.rs
index a6136ae..b3c65d9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -4,21 +4,34 @@
 //! contains useful type definitions and conversion functions.
 use crate::robot::control_types::{Finishable, JointPositions};
 use crate::robot::robot_state::RobotState;
-use nalgebra::{Isometry3, Matrix4, MatrixMN, MatrixN, Rotation3, Vector3, VectorN, U6, U7};
+use nalgebra::{
+    Isometry3, Matrix3, Matrix4, MatrixMN, MatrixN, Rotation3, UnitQuaternion, Vector3, VectorN,
+    U6, U7,
+};
 use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
-    let rot = Rotation3::from_matrix(
+    let rotation = rotation_from_matrix(
         &Matrix4::from_column_slice(array)
             .remove_column(3)
             .remove_row(3),
     );
     Isometry3::from_parts(
         Vector3::new(array[12], array[13], array[14]).into(),
-        rot.into(),
+        rotation,
     )
 }
+/// Returns the rotation that is closest to the given matrix.
+///
+/// `Rotation3::from_matrix` starts its search at the identity, where it gets stuck if the matrix is
+/// a half turn. Thus the search has to start at the directly converted matrix.
+pub(crate) fn rotation_from_matrix(matrix: &Matrix3<f64>) -> UnitQuaternion<f64> {
+    let mut guess =
+        UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(*matrix));
+    guess.renormalize();
+    Rotation3::from_matrix_eps(matrix, f64::EPSILON, 0, guess.to_rotation_matrix()).into()
+}
 /// A Vector with 7 entries
 pub type Vector7 = VectorN<f64, U7>;
 /// A Matrix with 6 rows and 7 columns
-- 
2.43.0


From 58aaba6292991a97bf23a8a8706de4bd040eb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:15 +0000
Subject: [PATCH 12/12] fix: a left-handed pose made filter and rate limiter
 search for ever

---
 src/utils.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index b3c65d9..72b77c5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -11,6 +11,9 @@ use nalgebra::{
 use std::time::Duration;
 
 /// converts a 4x4 column-major homogenous matrix to an Isometry
+///
+/// # Panics
+/// if the rotational part of the matrix is not right-handed.
 pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
     let rotation = rotation_from_matrix(
         &Matrix4::from_column_slice(array)
@@ -26,7 +29,11 @@ pub fn array_to_isometry(array: &[f64; 16]) -> Isometry3<f64> {
 ///
 /// `Rotation3::from_matrix` starts its search at the identity, where it gets stuck if the matrix is
 /// a half turn. Thus the search has to start at the directly converted matrix.
+///
+/// # Panics
+/// if the matrix is not right-handed, as the search for a rotation would never end then.
 pub(crate) fn rotation_from_matrix(matrix: &Matrix3<f64>) -> UnitQuaternion<f64> {
+    assert!(matrix.determinant() > 0.);
     let mut guess =
         UnitQuaternion::from_rotation_matrix(&Rotation3::from_matrix_unchecked(*matrix));
     guess.renormalize();
-- 
2.43.0


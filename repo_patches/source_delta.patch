From ed7524c24ae5506bf939fe3308a1a6fd2b8da732 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 01/42] fix: TrajectoryConnectivityState::Connect tracks
 untracked trajectories

The header promises that untracked trajectories become tracked; instead the
call died of a failed CHECK when looking up their components.
---
 cartographer/mapping/internal/trajectory_connectivity_state.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cartographer/mapping/internal/trajectory_connectivity_state.cc b/cartographer/mapping/internal/trajectory_connectivity_state.cc
index 73ddf46..5dc617d 100644
--- a/cartographer/mapping/internal/trajectory_connectivity_state.cc
+++ b/cartographer/mapping/internal/trajectory_connectivity_state.cc
@@ -40,6 +40,8 @@ void TrajectoryConnectivityState::Connect(const int trajectory_id_a,
     // the two connected components with the connection time. This is to quickly
     // change to a more efficient loop closure search (by constraining the
     // search window) when connected components are joined.
+    connected_components_.Add(trajectory_id_a);
+    connected_components_.Add(trajectory_id_b);
     std::vector<int> component_a =
         connected_components_.GetComponent(trajectory_id_a);
     std::vector<int> component_b =
-- 
2.43.0


From be84e2e30b37efde77ac00e265e63585b0e34749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:45 +0000
Subject: [PATCH 02/42] fix: FastGunzipString reports data that fails the
 checksum

Errors found while the decompressor was closed by the destructor were
swallowed, so altered, truncated or empty data was returned as if it was what
had been compressed.
---
 cartographer/common/port.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/common/port.h b/cartographer/common/port.h
index eec8469..92ca8c9 100644
--- a/cartographer/common/port.h
+++ b/cartographer/common/port.h
@@ -63,6 +63,9 @@ inline void FastGunzipString(const std::string& compressed,
   out.push(boost::iostreams::back_inserter(*decompressed));
   boost::iostreams::write(out, reinterpret_cast<const char*>(compressed.data()),
                           compressed.size());
+  // The checksum is verified when the stream is closed. Errors that occur while
+  // closing it in the destructor are lost.
+  out.reset();
 }
 
 }  // namespace common
-- 
2.43.0


From a671faef3d2f0c161610857aa54bc858c82e7198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:40 +0000
Subject: [PATCH 03/42] fix: ProtoStreamReader does not report a damaged stream
 as its end

A message cut short, by truncation or by an altered size field, made eof()
true, so that the checks for a completely read stream passed.
---
 cartographer/io/proto_stream.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cartographer/io/proto_stream.cc b/cartographer/io/proto_stream.cc
index 60ea021..8d87255 100644
--- a/cartographer/io/proto_stream.cc
+++ b/cartographer/io/proto_stream.cc
@@ -77,12 +77,18 @@ ProtoStreamReader::ProtoStreamReader(const std::string& filename)
 }
 
 bool ProtoStreamReader::Read(std::string* decompressed_data) {
+  if (in_.peek() == std::ifstream::traits_type::eof()) {
+    return false;
+  }
   uint64 compressed_size;
   if (!ReadSizeAsLittleEndian(&in_, &compressed_size)) {
+    // A message that is cut short is not the regular end of the stream.
+    in_.clear(std::ios::failbit);
     return false;
   }
   std::string compressed_data(compressed_size, '\0');
   if (!in_.read(&compressed_data.front(), compressed_size)) {
+    in_.clear(std::ios::failbit);
     return false;
   }
   common::FastGunzipString(compressed_data, decompressed_data);
-- 
2.43.0


From b6a49f78dba6d66da3cb6eb9678b96de46f12bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:02 +0000
Subject: [PATCH 04/42] fix: PCD export writes all points in the layout its
 header announces

Batches with and without colors were written with different point sizes into
one file, which made it unreadable from the first differing batch on. Handle
this as the PLY export does.
---
 cartographer/io/pcd_writing_points_processor.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/pcd_writing_points_processor.cc b/cartographer/io/pcd_writing_points_processor.cc
index abd2c98..9d78c26 100644
--- a/cartographer/io/pcd_writing_points_processor.cc
+++ b/cartographer/io/pcd_writing_points_processor.cc
@@ -118,10 +118,16 @@ void PcdWritingPointsProcessor::Process(std::unique_ptr<PointsBatch> batch) {
     has_colors_ = !batch->colors.empty();
     WriteBinaryPcdHeader(has_colors_, 0, file_writer_.get());
   }
+  if (has_colors_) {
+    CHECK_EQ(batch->points.size(), batch->colors.size())
+        << "First PointsBatch had colors, but encountered one without. "
+           "frame_id: "
+        << batch->frame_id;
+  }
   for (size_t i = 0; i < batch->points.size(); ++i) {
     WriteBinaryPcdPointCoordinate(batch->points[i].position,
                                   file_writer_.get());
-    if (!batch->colors.empty()) {
+    if (has_colors_) {
       WriteBinaryPcdPointColor(ToUint8Color(batch->colors[i]),
                                file_writer_.get());
     }
-- 
2.43.0


From 932cc0eaa2619f48ed3c95bd2405350d8540b9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:12 +0000
Subject: [PATCH 05/42] fix: PLY export of no points does not read an
 uninitialized flag

---
 cartographer/io/ply_writing_points_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/io/ply_writing_points_processor.cc b/cartographer/io/ply_writing_points_processor.cc
index 8b0ecdb..2d23c04 100644
--- a/cartographer/io/ply_writing_points_processor.cc
+++ b/cartographer/io/ply_writing_points_processor.cc
@@ -101,6 +101,7 @@ PlyWritingPointsProcessor::PlyWritingPointsProcessor(
       comments_(comments),
       num_points_(0),
       has_colors_(false),
+      has_intensities_(false),
       file_(std::move(file_writer)) {}
 
 PointsProcessor::FlushResult PlyWritingPointsProcessor::Flush() {
-- 
2.43.0


From d6cec90253691bc6cf3b8a5880fdd621c5e616a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:46 +0000
Subject: [PATCH 06/42] fix: StreamFileWriter reports files that cannot be
 opened or closed

Opening, seeking and closing a stream report errors with the failbit, which
bad() does not include, so exports to a path that cannot be opened or to a full
disk were reported as successful.
---
 cartographer/io/file_writer.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cartographer/io/file_writer.cc b/cartographer/io/file_writer.cc
index 97d4481..6a730df 100644
--- a/cartographer/io/file_writer.cc
+++ b/cartographer/io/file_writer.cc
@@ -25,23 +25,23 @@ StreamFileWriter::StreamFileWriter(const std::string& filename)
 StreamFileWriter::~StreamFileWriter() {}
 
 bool StreamFileWriter::Write(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.write(data, len);
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::Close() {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.close();
-  return !out_.bad();
+  return !out_.fail();
 }
 
 bool StreamFileWriter::WriteHeader(const char* const data, const size_t len) {
-  if (out_.bad()) {
+  if (out_.fail()) {
     return false;
   }
   out_.flush();
-- 
2.43.0


From ebc12a71956e0eadaddc1e7ee74f2fd30eb27860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:13 +0000
Subject: [PATCH 07/42] fix: Read the trajectory state under the lock when
 adding a submap from a proto.

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 15 +++++++--------
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 15 +++++++--------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 060277e..e4a6e0b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -709,14 +709,13 @@ void PoseGraph2D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_2d.Insert(
         submap_id, optimization::SubmapSpec2D{global_submap_pose_2d});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing
+    // submaps, so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem(
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8a91e59..2db1ac5 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -693,14 +693,13 @@ void PoseGraph3D::AddSubmapFromProto(
     // Immediately show the submap at the 'global_submap_pose'.
     data_.global_submap_poses_3d.Insert(
         submap_id, optimization::SubmapSpec3D{global_submap_pose});
-  }
-
-  // TODO(MichaelGrupp): MapBuilder does freezing before deserializing submaps,
-  // so this should be fine.
-  if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
-    kFrozenSubmapsMetric->Increment();
-  } else {
-    kActiveSubmapsMetric->Increment();
+    // TODO(MichaelGrupp): MapBuilder does freezing before deserializing
+    // submaps, so this should be fine.
+    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+      kFrozenSubmapsMetric->Increment();
+    } else {
+      kActiveSubmapsMetric->Increment();
+    }
   }
 
   AddWorkItem([this, submap_id, global_submap_pose]() LOCKS_EXCLUDED(mutex_) {
-- 
2.43.0


From cb5069172079a43a08794e99d114a37485985a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 08/42] fix: Submap progress can be read while range data is
 being inserted.

---
 cartographer/mapping/submaps.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/submaps.h b/cartographer/mapping/submaps.h
index 39ca93b..a0cdcdf 100644
--- a/cartographer/mapping/submaps.h
+++ b/cartographer/mapping/submaps.h
@@ -17,6 +17,7 @@
 #ifndef CARTOGRAPHER_MAPPING_SUBMAPS_H_
 #define CARTOGRAPHER_MAPPING_SUBMAPS_H_
 
+#include <atomic>
 #include <memory>
 #include <vector>
 
@@ -86,8 +87,9 @@ class Submap {
 
  private:
   const transform::Rigid3d local_pose_;
-  int num_range_data_ = 0;
-  bool insertion_finished_ = false;
+  // Read by global SLAM and its clients while local SLAM is inserting.
+  std::atomic<int> num_range_data_{0};
+  std::atomic<bool> insertion_finished_{false};
 };
 
 }  // namespace mapping
-- 
2.43.0


From 9b14861fdbfb92bac24fa168cef928557a1c02c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 09/42] fix: Trimming a submap also forgets its global pose.

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 3 +++
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index e4a6e0b..a5b8ee7 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1278,6 +1278,9 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_2d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_2d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 2db1ac5..d254da3 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1258,6 +1258,9 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
   CHECK(parent_->data_.submap_data.at(submap_id).state ==
         SubmapState::kFinished);
   parent_->data_.submap_data.Trim(submap_id);
+  if (parent_->data_.global_submap_poses_3d.Contains(submap_id)) {
+    parent_->data_.global_submap_poses_3d.Trim(submap_id);
+  }
   parent_->constraint_builder_.DeleteScanMatcher(submap_id);
   parent_->optimization_problem_->TrimSubmap(submap_id);
 
-- 
2.43.0


From df153920efa1c2b5b601865492adfb6b28bc38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 10/42] fix: Landmark observations of trajectories with less
 than two nodes do not crash the optimization.

---
 .../internal/optimization/optimization_problem_2d.cc      | 8 ++++++++
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 3faf255..1e096ee 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -115,6 +115,10 @@ void AddLandmarkCostFunctions(
   for (const auto& landmark_node : landmark_nodes) {
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory has no nodes (yet).
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -131,6 +135,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is only one node so far, so we cannot interpolate.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index fca36d1..1ca9dea 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -131,6 +131,10 @@ void AddLandmarkCostFunctions(
     // Do not use landmarks that were not optimized for localization.
     for (const auto& observation : landmark_node.second.landmark_observations) {
       const std::string& landmark_id = landmark_node.first;
+      // The trajectory has no nodes (yet).
+      if (node_data.SizeOfTrajectoryOrZero(observation.trajectory_id) == 0) {
+        continue;
+      }
       const auto& begin_of_trajectory =
           node_data.BeginOfTrajectory(observation.trajectory_id);
       // The landmark observation was made before the trajectory was created.
@@ -147,6 +151,10 @@ void AddLandmarkCostFunctions(
       }
       if (next == begin_of_trajectory) {
         next = std::next(next);
+        // There is only one node so far, so we cannot interpolate.
+        if (next == node_data.EndOfTrajectory(observation.trajectory_id)) {
+          continue;
+        }
       }
       auto prev = std::prev(next);
       // Add parameter blocks for the landmark ID if they were not added before.
-- 
2.43.0


From 71d4c17e534dfb745c99cde7d6caf49afa4085b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 11/42] fix: Trajectories with less than three nodes do not
 crash the 3D optimization.

---
 .../internal/optimization/optimization_problem_3d.cc      | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 1ca9dea..f1edcd3 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -450,8 +450,12 @@ void OptimizationProblem3D::Solve(
             trajectory_data.imu_calibration.data());
       }
 
-      // Force gravity constant to be positive.
-      problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0, 0.0);
+      // Force gravity constant to be positive. It is not part of the problem if
+      // there are less than three consecutive nodes.
+      if (problem.HasParameterBlock(&trajectory_data.gravity_constant)) {
+        problem.SetParameterLowerBound(&trajectory_data.gravity_constant, 0,
+                                       0.0);
+      }
     }
   }
 
-- 
2.43.0


From 616220491faee9143af80af73e5a63b53ebd92e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 12/42] fix: Data queued before a trajectory is deleted does
 not crash the pose graph.

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 6 ++++--
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index a5b8ee7..687024b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -919,8 +919,10 @@ bool PoseGraph2D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // While the trajectory is SCHEDULED_FOR_DELETION, the work items that are
+  // executed were queued before its deletion and have to be processed as usual.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index d254da3..8df5a2f 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -916,8 +916,10 @@ bool PoseGraph3D::CanAddWorkItemModifying(int trajectory_id) {
                   "but modification is requested, skipping.";
     return false;
   }
-  if (it->second.deletion_state !=
-      InternalTrajectoryState::DeletionState::NORMAL) {
+  // While the trajectory is SCHEDULED_FOR_DELETION, the work items that are
+  // executed were queued before its deletion and have to be processed as usual.
+  if (it->second.deletion_state ==
+      InternalTrajectoryState::DeletionState::WAIT_FOR_DELETION) {
     LOG(FATAL) << "trajectory_id " << trajectory_id
                << " has been scheduled for deletion "
                   "but modification is requested, skipping.";
-- 
2.43.0


From 912a9e51edfb6d9961f48baf1488e19dc12fb02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:56 +0000
Subject: [PATCH 13/42] fix: Deleting a trajectory also deletes its landmark
 observations.

---
 .../mapping/internal/2d/pose_graph_2d.cc        | 17 +++++++++++++++++
 .../mapping/internal/2d/pose_graph_2d.h         |  4 ++++
 .../mapping/internal/3d/pose_graph_3d.cc        | 17 +++++++++++++++++
 .../mapping/internal/3d/pose_graph_3d.h         |  4 ++++
 4 files changed, 42 insertions(+)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 687024b..2a1868a 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -424,6 +424,19 @@ void PoseGraph2D::UpdateTrajectoryConnectivity(const Constraint& constraint) {
       time);
 }
 
+void PoseGraph2D::DeleteLandmarkObservations(const int trajectory_id) {
+  for (auto& landmark_node : data_.landmark_nodes) {
+    auto& observations = landmark_node.second.landmark_observations;
+    observations.erase(
+        std::remove_if(observations.begin(), observations.end(),
+                       [trajectory_id](const LandmarkNode::LandmarkObservation&
+                                           observation) {
+                         return observation.trajectory_id == trajectory_id;
+                       }),
+        observations.end());
+  }
+}
+
 void PoseGraph2D::DeleteTrajectoriesIfNeeded() {
   TrimmingHandle trimming_handle(this);
   for (auto& it : data_.trajectories_state) {
@@ -435,6 +448,7 @@ void PoseGraph2D::DeleteTrajectoriesIfNeeded() {
       for (auto& submap_id : submap_ids) {
         trimming_handle.TrimSubmap(submap_id);
       }
+      DeleteLandmarkObservations(it.first);
       it.second.state = TrajectoryState::DELETED;
       it.second.deletion_state = InternalTrajectoryState::DeletionState::NORMAL;
     }
@@ -1202,6 +1216,9 @@ bool PoseGraph2D::TrimmingHandle::IsFinished(const int trajectory_id) const {
 
 void PoseGraph2D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
                                                      TrajectoryState state) {
+  if (state == TrajectoryState::DELETED) {
+    parent_->DeleteLandmarkObservations(trajectory_id);
+  }
   parent_->data_.trajectories_state[trajectory_id].state = state;
 }
 
diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.h b/cartographer/mapping/internal/2d/pose_graph_2d.h
index 3733425..9ae4302 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.h
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.h
@@ -196,6 +196,10 @@ class PoseGraph2D : public PoseGraph {
   void ComputeConstraint(const NodeId& node_id, const SubmapId& submap_id)
       LOCKS_EXCLUDED(mutex_);
 
+  // Forgets the landmark observations made by a deleted trajectory.
+  void DeleteLandmarkObservations(int trajectory_id)
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Deletes trajectories waiting for deletion. Must not be called during
   // constraint search.
   void DeleteTrajectoriesIfNeeded() EXCLUSIVE_LOCKS_REQUIRED(mutex_);
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 8df5a2f..a9f66ce 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -411,6 +411,19 @@ void PoseGraph3D::UpdateTrajectoryConnectivity(const Constraint& constraint) {
       time);
 }
 
+void PoseGraph3D::DeleteLandmarkObservations(const int trajectory_id) {
+  for (auto& landmark_node : data_.landmark_nodes) {
+    auto& observations = landmark_node.second.landmark_observations;
+    observations.erase(
+        std::remove_if(observations.begin(), observations.end(),
+                       [trajectory_id](const LandmarkNode::LandmarkObservation&
+                                           observation) {
+                         return observation.trajectory_id == trajectory_id;
+                       }),
+        observations.end());
+  }
+}
+
 void PoseGraph3D::DeleteTrajectoriesIfNeeded() {
   TrimmingHandle trimming_handle(this);
   for (auto& it : data_.trajectories_state) {
@@ -422,6 +435,7 @@ void PoseGraph3D::DeleteTrajectoriesIfNeeded() {
       for (auto& submap_id : submap_ids) {
         trimming_handle.TrimSubmap(submap_id);
       }
+      DeleteLandmarkObservations(it.first);
       it.second.state = TrajectoryState::DELETED;
       it.second.deletion_state = InternalTrajectoryState::DeletionState::NORMAL;
     }
@@ -1182,6 +1196,9 @@ bool PoseGraph3D::TrimmingHandle::IsFinished(const int trajectory_id) const {
 
 void PoseGraph3D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
                                                      TrajectoryState state) {
+  if (state == TrajectoryState::DELETED) {
+    parent_->DeleteLandmarkObservations(trajectory_id);
+  }
   parent_->data_.trajectories_state[trajectory_id].state = state;
 }
 
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index 12a3469..3c97a52 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -199,6 +199,10 @@ class PoseGraph3D : public PoseGraph {
   void ComputeConstraint(const NodeId& node_id, const SubmapId& submap_id)
       LOCKS_EXCLUDED(mutex_);
 
+  // Forgets the landmark observations made by a deleted trajectory.
+  void DeleteLandmarkObservations(int trajectory_id)
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Deletes trajectories waiting for deletion. Must not be called during
   // constraint search.
   void DeleteTrajectoriesIfNeeded() EXCLUSIVE_LOCKS_REQUIRED(mutex_);
-- 
2.43.0


From c21b2b08cc39db80ab341ee86703516b352e050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:06 +0000
Subject: [PATCH 14/42] fix: Trajectory data can be queried while the
 optimization is running.

---
 .../optimization/optimization_problem_2d.cc         |  1 +
 .../internal/optimization/optimization_problem_2d.h |  9 +++++++--
 .../optimization/optimization_problem_3d.cc         | 13 +++++++++----
 .../internal/optimization/optimization_problem_3d.h |  9 +++++++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
index 1e096ee..f30d515 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.cc
@@ -427,6 +427,7 @@ void OptimizationProblem2D::Solve(
         ToPose(C_node_id_data.data);
   }
   for (const auto& C_fixed_frame : C_fixed_frames) {
+    absl::MutexLock locker(&trajectory_data_mutex_);
     trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         transform::Embed3D(ToPose(C_fixed_frame.second));
   }
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_2d.h b/cartographer/mapping/internal/optimization/optimization_problem_2d.h
index 0a1e39d..445173a 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_2d.h
+++ b/cartographer/mapping/internal/optimization/optimization_problem_2d.h
@@ -25,6 +25,7 @@
 
 #include "Eigen/Core"
 #include "Eigen/Geometry"
+#include "absl/synchronization/mutex.h"
 #include "cartographer/common/port.h"
 #include "cartographer/common/time.h"
 #include "cartographer/mapping/id.h"
@@ -111,8 +112,9 @@ class OptimizationProblem2D
       const {
     return fixed_frame_pose_data_;
   }
-  const std::map<int, PoseGraphInterface::TrajectoryData>& trajectory_data()
-      const {
+  // Can be called while Solve() is running.
+  std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data() const {
+    absl::MutexLock locker(&trajectory_data_mutex_);
     return trajectory_data_;
   }
 
@@ -131,6 +133,9 @@ class OptimizationProblem2D
   sensor::MapByTime<sensor::ImuData> empty_imu_data_;
   sensor::MapByTime<sensor::OdometryData> odometry_data_;
   sensor::MapByTime<sensor::FixedFramePoseData> fixed_frame_pose_data_;
+  // Protects 'trajectory_data_' where Solve() stores its result. Otherwise
+  // 'trajectory_data_' is never modified while it is being read.
+  mutable absl::Mutex trajectory_data_mutex_;
   std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data_;
 };
 
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index f1edcd3..11b99b5 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -292,6 +292,7 @@ void OptimizationProblem3D::Solve(
 
   // Set the starting point.
   CHECK(!submap_data_.empty());
+  std::map<int, TrajectoryData> trajectories_data = trajectory_data_;
   MapById<SubmapId, CeresPose> C_submaps;
   MapById<NodeId, CeresPose> C_nodes;
   std::map<std::string, CeresPose> C_landmarks;
@@ -368,7 +369,7 @@ void OptimizationProblem3D::Solve(
         node_it = trajectory_end;
         continue;
       }
-      TrajectoryData& trajectory_data = trajectory_data_.at(trajectory_id);
+      TrajectoryData& trajectory_data = trajectories_data.at(trajectory_id);
 
       problem.AddParameterBlock(trajectory_data.imu_calibration.data(), 4,
                                 new ceres::QuaternionParameterization());
@@ -523,7 +524,7 @@ void OptimizationProblem3D::Solve(
       continue;
     }
 
-    const TrajectoryData& trajectory_data = trajectory_data_.at(trajectory_id);
+    const TrajectoryData& trajectory_data = trajectories_data.at(trajectory_id);
     bool fixed_frame_pose_initialized = false;
     for (; node_it != trajectory_end; ++node_it) {
       const NodeId node_id = node_it->id;
@@ -581,7 +582,7 @@ void OptimizationProblem3D::Solve(
       &problem, &summary);
   if (options_.log_solver_summary()) {
     LOG(INFO) << summary.FullReport();
-    for (const auto& trajectory_id_and_data : trajectory_data_) {
+    for (const auto& trajectory_id_and_data : trajectories_data) {
       const int trajectory_id = trajectory_id_and_data.first;
       const TrajectoryData& trajectory_data = trajectory_id_and_data.second;
       if (trajectory_id != 0) {
@@ -608,9 +609,13 @@ void OptimizationProblem3D::Solve(
         C_node_id_data.data.ToRigid();
   }
   for (const auto& C_fixed_frame : C_fixed_frames) {
-    trajectory_data_.at(C_fixed_frame.first).fixed_frame_origin_in_map =
+    trajectories_data.at(C_fixed_frame.first).fixed_frame_origin_in_map =
         C_fixed_frame.second.ToRigid();
   }
+  {
+    absl::MutexLock locker(&trajectory_data_mutex_);
+    trajectory_data_ = std::move(trajectories_data);
+  }
   for (const auto& C_landmark : C_landmarks) {
     landmark_data_[C_landmark.first] = C_landmark.second.ToRigid();
   }
diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.h b/cartographer/mapping/internal/optimization/optimization_problem_3d.h
index 721fde9..e815248 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.h
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.h
@@ -24,6 +24,7 @@
 
 #include "Eigen/Core"
 #include "Eigen/Geometry"
+#include "absl/synchronization/mutex.h"
 #include "absl/types/optional.h"
 #include "cartographer/common/port.h"
 #include "cartographer/common/time.h"
@@ -111,8 +112,9 @@ class OptimizationProblem3D
       const {
     return fixed_frame_pose_data_;
   }
-  const std::map<int, PoseGraphInterface::TrajectoryData>& trajectory_data()
-      const {
+  // Can be called while Solve() is running.
+  std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data() const {
+    absl::MutexLock locker(&trajectory_data_mutex_);
     return trajectory_data_;
   }
 
@@ -129,6 +131,9 @@ class OptimizationProblem3D
   sensor::MapByTime<sensor::ImuData> imu_data_;
   sensor::MapByTime<sensor::OdometryData> odometry_data_;
   sensor::MapByTime<sensor::FixedFramePoseData> fixed_frame_pose_data_;
+  // Protects 'trajectory_data_' where Solve() stores its result. Otherwise
+  // 'trajectory_data_' is never modified while it is being read.
+  mutable absl::Mutex trajectory_data_mutex_;
   std::map<int, PoseGraphInterface::TrajectoryData> trajectory_data_;
 };
 
-- 
2.43.0


From 7de13187237d4ea239faa54372c06a2b8494d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:09 +0000
Subject: [PATCH 15/42] fix: An optimization does not reset the pose of submaps
 that are being loaded.

---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 10 +++++++++-
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 2a1868a..15d476b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -918,7 +918,15 @@ void PoseGraph2D::RunOptimization() {
   for (const auto& landmark : optimization_problem_->landmark_data()) {
     data_.landmark_nodes[landmark.first].global_landmark_pose = landmark.second;
   }
-  data_.global_submap_poses_2d = submap_data;
+  // Submaps that are being loaded but are not yet part of the
+  // 'optimization_problem_' keep the pose they were loaded with.
+  for (const auto& submap : submap_data) {
+    if (data_.global_submap_poses_2d.Contains(submap.id)) {
+      data_.global_submap_poses_2d.at(submap.id) = submap.data;
+    } else {
+      data_.global_submap_poses_2d.Insert(submap.id, submap.data);
+    }
+  }
 }
 
 bool PoseGraph2D::CanAddWorkItemModifying(int trajectory_id) {
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index a9f66ce..114265a 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -910,7 +910,15 @@ void PoseGraph3D::RunOptimization() {
   for (const auto& landmark : optimization_problem_->landmark_data()) {
     data_.landmark_nodes[landmark.first].global_landmark_pose = landmark.second;
   }
-  data_.global_submap_poses_3d = submap_data;
+  // Submaps that are being loaded but are not yet part of the
+  // 'optimization_problem_' keep the pose they were loaded with.
+  for (const auto& submap : submap_data) {
+    if (data_.global_submap_poses_3d.Contains(submap.id)) {
+      data_.global_submap_poses_3d.at(submap.id) = submap.data;
+    } else {
+      data_.global_submap_poses_3d.Insert(submap.id, submap.data);
+    }
+  }
 
   // Log the histograms for the pose residuals.
   if (options_.log_residual_histograms()) {
-- 
2.43.0


From bf966e8b784192905ddd15a23635d02a07bc6c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:44 +0000
Subject: [PATCH 16/42] fix: An optimization while a 3D trajectory is being
 loaded does not crash.

---
 .../internal/optimization/optimization_problem_3d.cc       | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 11b99b5..4796084 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -369,6 +369,12 @@ void OptimizationProblem3D::Solve(
         node_it = trajectory_end;
         continue;
       }
+      if (!imu_data_.HasTrajectory(trajectory_id)) {
+        // The nodes of a trajectory are loaded before its IMU data.
+        LOG(WARNING) << "No IMU data for trajectory " << trajectory_id << ".";
+        node_it = trajectory_end;
+        continue;
+      }
       TrajectoryData& trajectory_data = trajectories_data.at(trajectory_id);
 
       problem.AddParameterBlock(trajectory_data.imu_calibration.data(), 4,
@@ -377,7 +383,6 @@ void OptimizationProblem3D::Solve(
         problem.SetParameterBlockConstant(
             trajectory_data.imu_calibration.data());
       }
-      CHECK(imu_data_.HasTrajectory(trajectory_id));
       const auto imu_data = imu_data_.trajectory(trajectory_id);
       CHECK(imu_data.begin() != imu_data.end());
 
-- 
2.43.0


From e9445f56fb22105204ce07da66948659b47ae166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:19 +0000
Subject: [PATCH 17/42] fix: The overlapping submaps trimmer copes with submaps
 removed by others.

---
 .../mapping/internal/2d/overlapping_submaps_trimmer_2d.cc      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
index a62b0cd..3a773da 100644
--- a/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
+++ b/cartographer/mapping/internal/2d/overlapping_submaps_trimmer_2d.cc
@@ -185,6 +185,9 @@ std::vector<SubmapId> FindSubmapIdsToTrim(
 
 void OverlappingSubmapsTrimmer2D::Trim(Trimmable* pose_graph) {
   const auto submap_data = pose_graph->GetOptimizedSubmapData();
+  // Submaps may also have been removed, e.g. by deleting a trajectory.
+  current_submap_count_ =
+      std::min<size_t>(current_submap_count_, submap_data.size());
   if (submap_data.size() - current_submap_count_ <= min_added_submaps_count_) {
     return;
   }
-- 
2.43.0


From 34ef8dc1e83849f80caf2f113b6bbcdce339b069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:16 +0000
Subject: [PATCH 18/42] fix: PoseGraph::ToProto() has no constraints for nodes
 or submaps it does not contain.

---
 cartographer/mapping/pose_graph.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cartographer/mapping/pose_graph.cc b/cartographer/mapping/pose_graph.cc
index 097e8db..381771a 100644
--- a/cartographer/mapping/pose_graph.cc
+++ b/cartographer/mapping/pose_graph.cc
@@ -146,8 +146,15 @@ proto::PoseGraph PoseGraph::ToProto(bool include_unfinished_submaps) const {
     return trajectory_protos.at(trajectory_id);
   };
 
+  // These are separate queries between which nodes and submaps may be added or
+  // trimmed. By querying the constraints first, all submaps and nodes they
+  // refer to have been added before the other queries.
+  auto constraints_copy = constraints();
+  const auto submap_data = GetAllSubmapData();
+  const auto trajectory_nodes = GetTrajectoryNodes();
+
   std::set<mapping::SubmapId> unfinished_submaps;
-  for (const auto& submap_id_data : GetAllSubmapData()) {
+  for (const auto& submap_id_data : submap_data) {
     proto::Trajectory* trajectory_proto =
         trajectory(submap_id_data.id.trajectory_id);
     if (!include_unfinished_submaps &&
@@ -163,10 +170,15 @@ proto::PoseGraph PoseGraph::ToProto(bool include_unfinished_submaps) const {
         transform::ToProto(submap_id_data.data.pose);
   }
 
-  auto constraints_copy = constraints();
   std::set<mapping::NodeId> orphaned_nodes;
   proto.mutable_constraint()->Reserve(constraints_copy.size());
   for (auto it = constraints_copy.begin(); it != constraints_copy.end();) {
+    if (!submap_data.Contains(it->submap_id) ||
+        !trajectory_nodes.Contains(it->node_id)) {
+      // Trimmed in the meantime.
+      it = constraints_copy.erase(it);
+      continue;
+    }
     if (!include_unfinished_submaps &&
         unfinished_submaps.count(it->submap_id) > 0) {
       // Skip all those constraints that refer to unfinished submaps and
@@ -187,7 +199,7 @@ proto::PoseGraph PoseGraph::ToProto(bool include_unfinished_submaps) const {
     }
   }
 
-  for (const auto& node_id_data : GetTrajectoryNodes()) {
+  for (const auto& node_id_data : trajectory_nodes) {
     proto::Trajectory* trajectory_proto =
         trajectory(node_id_data.id.trajectory_id);
     CHECK(node_id_data.data.constant_data != nullptr);
-- 
2.43.0


From 7bb90fbac5948f1963dc151090bb357a934518d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:25 +0000
Subject: [PATCH 19/42] fix: destroying a map builder with background work
 pending used freed grid lookup tables

The grids in the pose graph point into the trajectory builders, but the
trajectory builders were destroyed first while the pose graph's work items
were still running.
---
 cartographer/mapping/map_builder.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cartographer/mapping/map_builder.h b/cartographer/mapping/map_builder.h
index ee885a0..54a14eb 100644
--- a/cartographer/mapping/map_builder.h
+++ b/cartographer/mapping/map_builder.h
@@ -86,11 +86,13 @@ class MapBuilder : public MapBuilderInterface {
   const proto::MapBuilderOptions options_;
   common::ThreadPool thread_pool_;
 
-  std::unique_ptr<PoseGraph> pose_graph_;
-
-  std::unique_ptr<sensor::CollatorInterface> sensor_collator_;
+  // The grids in 'pose_graph_' use lookup tables owned by the trajectory
+  // builders, and 'pose_graph_' finishes its background work on destruction, so
+  // the trajectory builders have to outlive it.
   std::vector<std::unique_ptr<mapping::TrajectoryBuilderInterface>>
       trajectory_builders_;
+  std::unique_ptr<PoseGraph> pose_graph_;
+  std::unique_ptr<sensor::CollatorInterface> sensor_collator_;
   std::vector<proto::TrajectoryBuilderOptionsWithSensorIds>
       all_trajectory_builder_options_;
 };
-- 
2.43.0


From f9e6eba05c64109cc57eb2f03c6df0dad2b8ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:25 +0000
Subject: [PATCH 20/42] fix: a repeated scan stamp stopped the program with the
 IMU-based extrapolator

---
 .../internal/imu_based_pose_extrapolator.cc    | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/imu_based_pose_extrapolator.cc b/cartographer/mapping/internal/imu_based_pose_extrapolator.cc
index ddb88ea..5255e5c 100644
--- a/cartographer/mapping/internal/imu_based_pose_extrapolator.cc
+++ b/cartographer/mapping/internal/imu_based_pose_extrapolator.cc
@@ -35,6 +35,13 @@ namespace mapping {
 
 using ::cartographer::transform::TimestampedTransform;
 
+namespace {
+
+// Below this time difference in seconds, poses are not extrapolated.
+constexpr double kMinPoseTimeDelta = 1e-6;
+
+}  // namespace
+
 ImuBasedPoseExtrapolator::ImuBasedPoseExtrapolator(
     const proto::ImuBasedPoseExtrapolatorOptions& options)
     : options_(options),
@@ -84,6 +91,15 @@ common::Time ImuBasedPoseExtrapolator::GetLastExtrapolatedTime() const {
 
 void ImuBasedPoseExtrapolator::AddPose(const common::Time time,
                                        const transform::Rigid3d& pose) {
+  if (!timed_pose_queue_.empty() &&
+      common::ToSeconds(time - timed_pose_queue_.back().time) <
+          kMinPoseTimeDelta) {
+    // There was no extrapolation to this pose, so it cannot become a node of
+    // its own in the optimization.
+    timed_pose_queue_.back().transform = pose;
+    TrimImuData();
+    return;
+  }
   timed_pose_queue_.push_back(TimestampedTransform{time, pose});
   while (timed_pose_queue_.size() > 3 &&
          timed_pose_queue_[1].time <=
@@ -122,7 +138,7 @@ ImuBasedPoseExtrapolator::ExtrapolatePosesWithGravity(
   last_extrapolated_time_ = time;
 
   if (timed_pose_queue_.size() < 3 ||
-      common::ToSeconds(time - newest_timed_pose.time) < 1e-6) {
+      common::ToSeconds(time - newest_timed_pose.time) < kMinPoseTimeDelta) {
     return ExtrapolationResult{
         std::vector<transform::Rigid3f>(
             times.size() - 1, timed_pose_queue_.back().transform.cast<float>()),
-- 
2.43.0


From 95fb273bbef5a1b4da288b48cd5ee5dd8140b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:25 +0000
Subject: [PATCH 21/42] fix: repeated odometry data led to NaN velocities

---
 cartographer/mapping/pose_extrapolator.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cartographer/mapping/pose_extrapolator.cc b/cartographer/mapping/pose_extrapolator.cc
index 24e3800..33767f1 100644
--- a/cartographer/mapping/pose_extrapolator.cc
+++ b/cartographer/mapping/pose_extrapolator.cc
@@ -110,6 +110,10 @@ void PoseExtrapolator::AddOdometryData(
   const sensor::OdometryData& odometry_data_newest = odometry_data_.back();
   const double odometry_time_delta =
       common::ToSeconds(odometry_data_oldest.time - odometry_data_newest.time);
+  if (odometry_time_delta == 0.) {
+    // Repeated odometry data tells us nothing about velocities.
+    return;
+  }
   const transform::Rigid3d odometry_pose_delta =
       odometry_data_newest.pose.inverse() * odometry_data_oldest.pose;
   angular_velocity_from_odometry_ =
-- 
2.43.0


From 9f7339bb862fbfff56fb0be966467c395c6e44ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:30 +0000
Subject: [PATCH 22/42] fix: a state with a trajectory without nodes could not
 be loaded

Options were written for all trajectories and sensor data for those that had
any, but only trajectories with nodes or submaps are part of the pose graph
proto. Loading requires that all three agree.
---
 .../internal/mapping_state_serialization.cc   | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 8305e7a..9d31326 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -16,6 +16,9 @@
 
 #include "cartographer/io/internal/mapping_state_serialization.h"
 
+#include <algorithm>
+#include <set>
+
 #include "cartographer/mapping/proto/serialization.pb.h"
 #include "cartographer/transform/transform.h"
 
@@ -42,17 +45,15 @@ CreateAllTrajectoryBuilderOptionsProto(
   return all_options_proto;
 }
 
-// Will return all trajectory ids, that have `state != DELETED`.
-std::vector<int> GetValidTrajectoryIds(
-    const std::map<int, PoseGraphInterface::TrajectoryState>&
-        trajectory_states) {
-  std::vector<int> valid_trajectories;
-  for (const auto& t : trajectory_states) {
-    if (t.second != PoseGraphInterface::TrajectoryState::DELETED) {
-      valid_trajectories.push_back(t.first);
-    }
+// Will return the ids of all trajectories in 'pose_graph_proto', in order. This
+// excludes deleted trajectories and those that have no nodes.
+std::vector<int> GetTrajectoryIds(
+    const mapping::proto::PoseGraph& pose_graph_proto) {
+  std::vector<int> trajectory_ids;
+  for (const auto& trajectory : pose_graph_proto.trajectory()) {
+    trajectory_ids.push_back(trajectory.trajectory_id());
   }
-  return valid_trajectories;
+  return trajectory_ids;
 }
 
 mapping::proto::SerializationHeader CreateHeader() {
@@ -118,8 +119,10 @@ void SerializeTrajectoryNodes(
 void SerializeTrajectoryData(
     const std::map<int, PoseGraphInterface::TrajectoryData>&
         all_trajectory_data,
+    const std::set<int>& trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& trajectory_data : all_trajectory_data) {
+    if (trajectory_ids.count(trajectory_data.first) == 0) continue;
     SerializedData proto;
     auto* const trajectory_data_proto = proto.mutable_trajectory_data();
     trajectory_data_proto->set_trajectory_id(trajectory_data.first);
@@ -140,8 +143,10 @@ void SerializeTrajectoryData(
 }
 
 void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
+                      const std::set<int>& trajectory_ids,
                       ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_imu_data.trajectory_ids()) {
+    if (trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& imu_data : all_imu_data.trajectory(trajectory_id)) {
       SerializedData proto;
       auto* const imu_data_proto = proto.mutable_imu_data();
@@ -154,8 +159,10 @@ void SerializeImuData(const sensor::MapByTime<sensor::ImuData>& all_imu_data,
 
 void SerializeOdometryData(
     const sensor::MapByTime<sensor::OdometryData>& all_odometry_data,
+    const std::set<int>& trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_odometry_data.trajectory_ids()) {
+    if (trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& odometry_data :
          all_odometry_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -171,8 +178,10 @@ void SerializeOdometryData(
 void SerializeFixedFramePoseData(
     const sensor::MapByTime<sensor::FixedFramePoseData>&
         all_fixed_frame_pose_data,
+    const std::set<int>& trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const int trajectory_id : all_fixed_frame_pose_data.trajectory_ids()) {
+    if (trajectory_ids.count(trajectory_id) == 0) continue;
     for (const auto& fixed_frame_pose_data :
          all_fixed_frame_pose_data.trajectory(trajectory_id)) {
       SerializedData proto;
@@ -189,9 +198,11 @@ void SerializeFixedFramePoseData(
 void SerializeLandmarkNodes(
     const std::map<std::string, PoseGraphInterface::LandmarkNode>&
         all_landmark_nodes,
+    const std::set<int>& trajectory_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node : all_landmark_nodes) {
     for (const auto& observation : node.second.landmark_observations) {
+      if (trajectory_ids.count(observation.trajectory_id) == 0) continue;
       SerializedData proto;
       auto* landmark_data_proto = proto.mutable_landmark_data();
       landmark_data_proto->set_trajectory_id(observation.trajectory_id);
@@ -217,20 +228,30 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  writer->WriteProto(
-      SerializePoseGraph(pose_graph, include_unfinished_submaps));
+  const SerializedData pose_graph_proto =
+      SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  writer->WriteProto(pose_graph_proto);
+  // When loading, everything has to belong to a trajectory in the pose graph
+  // proto, and there has to be exactly one set of options for each of them.
+  const std::vector<int> trajectory_ids =
+      GetTrajectoryIds(pose_graph_proto.pose_graph());
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
-      trajectory_builder_options,
-      GetValidTrajectoryIds(pose_graph.GetTrajectoryStates())));
+      trajectory_builder_options, trajectory_ids));
 
   SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
                    writer);
   SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
-  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), writer);
-  SerializeImuData(pose_graph.GetImuData(), writer);
-  SerializeOdometryData(pose_graph.GetOdometryData(), writer);
-  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(), writer);
-  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), writer);
+  const std::set<int> trajectory_id_set(trajectory_ids.begin(),
+                                        trajectory_ids.end());
+  SerializeTrajectoryData(pose_graph.GetTrajectoryData(), trajectory_id_set,
+                          writer);
+  SerializeImuData(pose_graph.GetImuData(), trajectory_id_set, writer);
+  SerializeOdometryData(pose_graph.GetOdometryData(), trajectory_id_set,
+                        writer);
+  SerializeFixedFramePoseData(pose_graph.GetFixedFramePoseData(),
+                              trajectory_id_set, writer);
+  SerializeLandmarkNodes(pose_graph.GetLandmarkNodes(), trajectory_id_set,
+                         writer);
 }
 
 }  // namespace io
-- 
2.43.0


From b406108bd6a07dbeecb2bc4c9406e398ec7aae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:30 +0000
Subject: [PATCH 23/42] fix: a state saved while nodes or submaps were trimmed
 or added could not be loaded

---
 .../internal/mapping_state_serialization.cc   | 71 ++++++++++++++++---
 1 file changed, 62 insertions(+), 9 deletions(-)

diff --git a/cartographer/io/internal/mapping_state_serialization.cc b/cartographer/io/internal/mapping_state_serialization.cc
index 9d31326..34f12fe 100644
--- a/cartographer/io/internal/mapping_state_serialization.cc
+++ b/cartographer/io/internal/mapping_state_serialization.cc
@@ -69,6 +69,44 @@ SerializedData SerializePoseGraph(const mapping::PoseGraph& pose_graph,
   return proto;
 }
 
+template <typename ContainerType, typename PredicateType>
+void EraseIf(const PredicateType& predicate, ContainerType* const container) {
+  container->erase(
+      std::remove_if(container->begin(), container->end(), predicate),
+      container->end());
+}
+
+// Removes everything from 'pose_graph_proto' that refers to submaps or nodes
+// missing in 'submap_data' or 'trajectory_nodes'.
+void RemoveMissing(
+    const MapById<SubmapId, PoseGraphInterface::SubmapData>& submap_data,
+    const MapById<NodeId, TrajectoryNode>& trajectory_nodes,
+    mapping::proto::PoseGraph* const pose_graph_proto) {
+  for (auto& trajectory : *pose_graph_proto->mutable_trajectory()) {
+    const int id = trajectory.trajectory_id();
+    EraseIf(
+        [&](const mapping::proto::Trajectory::Submap& submap) {
+          return !submap_data.Contains(SubmapId{id, submap.submap_index()});
+        },
+        trajectory.mutable_submap());
+    EraseIf(
+        [&](const mapping::proto::Trajectory::Node& node) {
+          return !trajectory_nodes.Contains(NodeId{id, node.node_index()});
+        },
+        trajectory.mutable_node());
+  }
+  EraseIf(
+      [&](const mapping::proto::PoseGraph::Constraint& constraint) {
+        return !submap_data.Contains(
+                   SubmapId{constraint.submap_id().trajectory_id(),
+                            constraint.submap_id().submap_index()}) ||
+               !trajectory_nodes.Contains(
+                   NodeId{constraint.node_id().trajectory_id(),
+                          constraint.node_id().node_index()});
+      },
+      pose_graph_proto->mutable_constraint());
+}
+
 SerializedData SerializeTrajectoryBuilderOptions(
     const std::vector<mapping::proto::TrajectoryBuilderOptionsWithSensorIds>&
         trajectory_builder_options,
@@ -82,13 +120,11 @@ SerializedData SerializeTrajectoryBuilderOptions(
 
 void SerializeSubmaps(
     const MapById<SubmapId, PoseGraphInterface::SubmapData>& submap_data,
-    bool include_unfinished_submaps, ProtoStreamWriterInterface* const writer) {
+    const std::set<SubmapId>& submap_ids,
+    ProtoStreamWriterInterface* const writer) {
   // Next serialize all submaps.
   for (const auto& submap_id_data : submap_data) {
-    if (!include_unfinished_submaps &&
-        !submap_id_data.data.submap->insertion_finished()) {
-      continue;
-    }
+    if (submap_ids.count(submap_id_data.id) == 0) continue;
     SerializedData proto;
     auto* const submap_proto = proto.mutable_submap();
     *submap_proto = submap_id_data.data.submap->ToProto(
@@ -103,8 +139,10 @@ void SerializeSubmaps(
 
 void SerializeTrajectoryNodes(
     const MapById<NodeId, TrajectoryNode>& trajectory_nodes,
+    const std::set<NodeId>& node_ids,
     ProtoStreamWriterInterface* const writer) {
   for (const auto& node_id_data : trajectory_nodes) {
+    if (node_ids.count(node_id_data.id) == 0) continue;
     SerializedData proto;
     auto* const node_proto = proto.mutable_node();
     node_proto->mutable_node_id()->set_trajectory_id(
@@ -228,8 +266,24 @@ void WritePbStream(
         trajectory_builder_options,
     ProtoStreamWriterInterface* const writer, bool include_unfinished_submaps) {
   writer->WriteProto(CreateHeader());
-  const SerializedData pose_graph_proto =
+  // Nodes and submaps may be added or trimmed between these queries. We only
+  // write what was there all the time, so that the stream is consistent.
+  const auto submap_data = pose_graph.GetAllSubmapData();
+  const auto trajectory_nodes = pose_graph.GetTrajectoryNodes();
+  SerializedData pose_graph_proto =
       SerializePoseGraph(pose_graph, include_unfinished_submaps);
+  RemoveMissing(submap_data, trajectory_nodes,
+                pose_graph_proto.mutable_pose_graph());
+  std::set<SubmapId> submap_ids;
+  std::set<NodeId> node_ids;
+  for (const auto& trajectory : pose_graph_proto.pose_graph().trajectory()) {
+    for (const auto& submap : trajectory.submap()) {
+      submap_ids.emplace(trajectory.trajectory_id(), submap.submap_index());
+    }
+    for (const auto& node : trajectory.node()) {
+      node_ids.emplace(trajectory.trajectory_id(), node.node_index());
+    }
+  }
   writer->WriteProto(pose_graph_proto);
   // When loading, everything has to belong to a trajectory in the pose graph
   // proto, and there has to be exactly one set of options for each of them.
@@ -238,9 +292,8 @@ void WritePbStream(
   writer->WriteProto(SerializeTrajectoryBuilderOptions(
       trajectory_builder_options, trajectory_ids));
 
-  SerializeSubmaps(pose_graph.GetAllSubmapData(), include_unfinished_submaps,
-                   writer);
-  SerializeTrajectoryNodes(pose_graph.GetTrajectoryNodes(), writer);
+  SerializeSubmaps(submap_data, submap_ids, writer);
+  SerializeTrajectoryNodes(trajectory_nodes, node_ids, writer);
   const std::set<int> trajectory_id_set(trajectory_ids.begin(),
                                         trajectory_ids.end());
   SerializeTrajectoryData(pose_graph.GetTrajectoryData(), trajectory_id_set,
-- 
2.43.0


From af4a5b79591bcbc7cf0b90ac17ddc10633ec793e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:30 +0000
Subject: [PATCH 24/42] fix: migrating a state lost what was still queued in
 the pose graph when it was written

---
 cartographer/io/serialization_format_migration.cc | 2 ++
 cartographer/mapping/internal/3d/pose_graph_3d.h  | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/cartographer/io/serialization_format_migration.cc b/cartographer/io/serialization_format_migration.cc
index 7ed692e..729e750 100644
--- a/cartographer/io/serialization_format_migration.cc
+++ b/cartographer/io/serialization_format_migration.cc
@@ -207,6 +207,8 @@ void MigrateStreamVersion1ToVersion2(
       mapping::FromProto(pose_graph_proto.constraint()));
   CHECK(input->eof());
 
+  // The data has to arrive in the pose graph before it can be written.
+  pose_graph.WaitForAllComputations();
   WritePbStream(pose_graph, trajectory_builder_options, output,
                 include_unfinished_submaps);
 }
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index 3c97a52..705f8cb 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -157,7 +157,6 @@ class PoseGraph3D : public PoseGraph {
 
   static void RegisterMetrics(metrics::FamilyFactory* family_factory);
 
- protected:
   // Waits until we caught up (i.e. nothing is waiting to be scheduled), and
   // all computations have finished.
   void WaitForAllComputations() LOCKS_EXCLUDED(mutex_)
-- 
2.43.0


From 413e930f879dfc0ba8d998d66e4646274c46c566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 25/42] fix: the cloud server's shutdown flag is shared with
 its SLAM thread

It was a plain bool, written by Shutdown() while the SLAM thread reads it.
---
 cartographer/cloud/internal/map_builder_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cartographer/cloud/internal/map_builder_server.h b/cartographer/cloud/internal/map_builder_server.h
index 03a70aa..e0c8d05 100644
--- a/cartographer/cloud/internal/map_builder_server.h
+++ b/cartographer/cloud/internal/map_builder_server.h
@@ -17,6 +17,8 @@
 #ifndef CARTOGRAPHER_CLOUD_INTERNAL_MAP_BUILDER_SERVER_H
 #define CARTOGRAPHER_CLOUD_INTERNAL_MAP_BUILDER_SERVER_H
 
+#include <atomic>
+
 #include "async_grpc/execution_context.h"
 #include "async_grpc/server.h"
 #include "cartographer/cloud/internal/local_trajectory_uploader.h"
@@ -128,7 +130,7 @@ class MapBuilderServer : public MapBuilderServerInterface {
   void UnsubscribeGlobalSlamOptimizations(int subscription_index);
   void NotifyFinishTrajectory(int trajectory_id);
 
-  bool shutting_down_ = false;
+  std::atomic<bool> shutting_down_{false};
   std::unique_ptr<std::thread> slam_thread_;
   std::unique_ptr<async_grpc::Server> grpc_server_;
   std::unique_ptr<mapping::MapBuilderInterface> map_builder_;
-- 
2.43.0


From 12e3fd6b531a89d29d744fb674673f39a085c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:59 +0000
Subject: [PATCH 26/42] fix: removing a disconnected subscriber invalidated the
 iteration over the subscriptions

When a client that subscribed to local SLAM results or to global optimizations
is gone, its entry was erased while the loop still used it.
---
 .../cloud/internal/map_builder_server.cc      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/cartographer/cloud/internal/map_builder_server.cc b/cartographer/cloud/internal/map_builder_server.cc
index 6972bf5..1911d13 100644
--- a/cartographer/cloud/internal/map_builder_server.cc
+++ b/cartographer/cloud/internal/map_builder_server.cc
@@ -206,7 +206,8 @@ void MapBuilderServer::OnLocalSlamResult(
   }
 
   absl::MutexLock locker(&subscriptions_lock_);
-  for (auto& entry : local_slam_subscriptions_[trajectory_id]) {
+  auto& subscriptions = local_slam_subscriptions_[trajectory_id];
+  for (auto it = subscriptions.begin(); it != subscriptions.end();) {
     auto copy_of_insertion_result =
         insertion_result
             ? absl::make_unique<
@@ -214,14 +215,16 @@ void MapBuilderServer::OnLocalSlamResult(
                   *insertion_result)
             : nullptr;
     MapBuilderContextInterface::LocalSlamSubscriptionCallback callback =
-        entry.second;
+        it->second;
     if (!callback(
             absl::make_unique<MapBuilderContextInterface::LocalSlamResult>(
                 MapBuilderContextInterface::LocalSlamResult{
                     trajectory_id, time, local_pose, shared_range_data,
                     std::move(copy_of_insertion_result)}))) {
-      LOG(INFO) << "Removing subscription with index: " << entry.first;
-      CHECK_EQ(local_slam_subscriptions_[trajectory_id].erase(entry.first), 1u);
+      LOG(INFO) << "Removing subscription with index: " << it->first;
+      it = subscriptions.erase(it);
+    } else {
+      ++it;
     }
   }
 }
@@ -230,10 +233,13 @@ void MapBuilderServer::OnGlobalSlamOptimizations(
     const std::map<int, mapping::SubmapId>& last_optimized_submap_ids,
     const std::map<int, mapping::NodeId>& last_optimized_node_ids) {
   absl::MutexLock locker(&subscriptions_lock_);
-  for (auto& entry : global_slam_subscriptions_) {
-    if (!entry.second(last_optimized_submap_ids, last_optimized_node_ids)) {
-      LOG(INFO) << "Removing subscription with index: " << entry.first;
-      CHECK_EQ(global_slam_subscriptions_.erase(entry.first), 1u);
+  for (auto it = global_slam_subscriptions_.begin();
+       it != global_slam_subscriptions_.end();) {
+    if (!it->second(last_optimized_submap_ids, last_optimized_node_ids)) {
+      LOG(INFO) << "Removing subscription with index: " << it->first;
+      it = global_slam_subscriptions_.erase(it);
+    } else {
+      ++it;
     }
   }
 }
-- 
2.43.0


From 1cf544ded24f0d84edc7b9826115596b8d45845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:08 +0000
Subject: [PATCH 27/42] fix: a landmark set through the cloud client was never
 frozen

---
 cartographer/cloud/internal/client/pose_graph_stub.cc          | 1 +
 .../cloud/internal/handlers/set_landmark_pose_handler.cc       | 3 ++-
 cartographer/cloud/proto/map_builder_service.proto             | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cartographer/cloud/internal/client/pose_graph_stub.cc b/cartographer/cloud/internal/client/pose_graph_stub.cc
index 23cacb2..7093b8f 100644
--- a/cartographer/cloud/internal/client/pose_graph_stub.cc
+++ b/cartographer/cloud/internal/client/pose_graph_stub.cc
@@ -150,6 +150,7 @@ void PoseGraphStub::SetLandmarkPose(const std::string& landmark_id,
   request.mutable_landmark_pose()->set_landmark_id(landmark_id);
   *request.mutable_landmark_pose()->mutable_global_pose() =
       transform::ToProto(global_pose);
+  request.set_frozen(frozen);
   async_grpc::Client<handlers::SetLandmarkPoseSignature> client(
       client_channel_);
   CHECK(client.Write(request));
diff --git a/cartographer/cloud/internal/handlers/set_landmark_pose_handler.cc b/cartographer/cloud/internal/handlers/set_landmark_pose_handler.cc
index b012c04..b047be0 100644
--- a/cartographer/cloud/internal/handlers/set_landmark_pose_handler.cc
+++ b/cartographer/cloud/internal/handlers/set_landmark_pose_handler.cc
@@ -33,7 +33,8 @@ void SetLandmarkPoseHandler::OnRequest(
       .pose_graph()
       ->SetLandmarkPose(
           request.landmark_pose().landmark_id(),
-          transform::ToRigid3(request.landmark_pose().global_pose()));
+          transform::ToRigid3(request.landmark_pose().global_pose()),
+          request.frozen());
   Send(absl::make_unique<google::protobuf::Empty>());
 }
 
diff --git a/cartographer/cloud/proto/map_builder_service.proto b/cartographer/cloud/proto/map_builder_service.proto
index 4938e3f..a909c1c 100644
--- a/cartographer/cloud/proto/map_builder_service.proto
+++ b/cartographer/cloud/proto/map_builder_service.proto
@@ -197,6 +197,7 @@ message GetLandmarkPosesResponse {
 
 message SetLandmarkPoseRequest {
   cartographer.mapping.proto.PoseGraph.LandmarkPose landmark_pose = 1;
+  bool frozen = 2;
 }
 
 message SubmapPose {
-- 
2.43.0


From 7c522342cbdc14cd17568cf9e69c7b2fcced25f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:25 +0000
Subject: [PATCH 28/42] fix: subscribing to the local SLAM results of a
 finished trajectory waited forever

---
 cartographer/cloud/internal/map_builder_server.cc | 5 +++++
 cartographer/cloud/internal/map_builder_server.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/cartographer/cloud/internal/map_builder_server.cc b/cartographer/cloud/internal/map_builder_server.cc
index 1911d13..4018a4d 100644
--- a/cartographer/cloud/internal/map_builder_server.cc
+++ b/cartographer/cloud/internal/map_builder_server.cc
@@ -249,6 +249,10 @@ MapBuilderServer::SubscribeLocalSlamResults(
     int trajectory_id,
     MapBuilderContextInterface::LocalSlamSubscriptionCallback callback) {
   absl::MutexLock locker(&subscriptions_lock_);
+  if (finished_trajectories_.count(trajectory_id) != 0) {
+    // The subscriber would wait forever for 'NotifyFinishTrajectory'.
+    callback(nullptr);
+  }
   local_slam_subscriptions_[trajectory_id].emplace(current_subscription_index_,
                                                    callback);
   return MapBuilderContextInterface::LocalSlamSubscriptionId{
@@ -279,6 +283,7 @@ void MapBuilderServer::UnsubscribeGlobalSlamOptimizations(
 
 void MapBuilderServer::NotifyFinishTrajectory(int trajectory_id) {
   absl::MutexLock locker(&subscriptions_lock_);
+  finished_trajectories_.insert(trajectory_id);
   for (auto& entry : local_slam_subscriptions_[trajectory_id]) {
     MapBuilderContextInterface::LocalSlamSubscriptionCallback callback =
         entry.second;
diff --git a/cartographer/cloud/internal/map_builder_server.h b/cartographer/cloud/internal/map_builder_server.h
index e0c8d05..4534609 100644
--- a/cartographer/cloud/internal/map_builder_server.h
+++ b/cartographer/cloud/internal/map_builder_server.h
@@ -18,6 +18,7 @@
 #define CARTOGRAPHER_CLOUD_INTERNAL_MAP_BUILDER_SERVER_H
 
 #include <atomic>
+#include <set>
 
 #include "async_grpc/execution_context.h"
 #include "async_grpc/server.h"
@@ -140,6 +141,7 @@ class MapBuilderServer : public MapBuilderServerInterface {
   int current_subscription_index_ = 0;
   std::map<int /* trajectory ID */, LocalSlamResultHandlerSubscriptions>
       local_slam_subscriptions_ GUARDED_BY(subscriptions_lock_);
+  std::set<int> finished_trajectories_ GUARDED_BY(subscriptions_lock_);
   std::map<int /* subscription_index */,
            MapBuilderContextInterface::GlobalSlamOptimizationCallback>
       global_slam_subscriptions_ GUARDED_BY(subscriptions_lock_);
-- 
2.43.0


From 1f1f996bb6da3489a8af9da9b61a76ee3952fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:52 +0000
Subject: [PATCH 29/42] fix: the uploader's shutdown flag is shared with its
 upload thread

---
 cartographer/cloud/internal/local_trajectory_uploader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cartographer/cloud/internal/local_trajectory_uploader.cc b/cartographer/cloud/internal/local_trajectory_uploader.cc
index 3f5a160..2b02494 100644
--- a/cartographer/cloud/internal/local_trajectory_uploader.cc
+++ b/cartographer/cloud/internal/local_trajectory_uploader.cc
@@ -16,6 +16,7 @@
 
 #include "cartographer/cloud/internal/local_trajectory_uploader.h"
 
+#include <atomic>
 #include <map>
 #include <thread>
 
@@ -101,7 +102,7 @@ class LocalTrajectoryUploader : public LocalTrajectoryUploaderInterface {
   int batch_size_;
   std::map<int, TrajectoryInfo> local_trajectory_id_to_trajectory_info_;
   common::BlockingQueue<std::unique_ptr<proto::SensorData>> send_queue_;
-  bool shutting_down_ = false;
+  std::atomic<bool> shutting_down_{false};
   std::unique_ptr<std::thread> upload_thread_;
 };
 
-- 
2.43.0


From c24ffde46a03931fdd4ea12bd5e940684a990514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 30/42] fix: trajectories uploaded at the same time shared
 their submap indices

---
 cartographer/cloud/internal/map_builder_server.cc | 5 +++--
 cartographer/cloud/internal/map_builder_server.h  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/cartographer/cloud/internal/map_builder_server.cc b/cartographer/cloud/internal/map_builder_server.cc
index 4018a4d..897d107 100644
--- a/cartographer/cloud/internal/map_builder_server.cc
+++ b/cartographer/cloud/internal/map_builder_server.cc
@@ -194,11 +194,12 @@ void MapBuilderServer::OnLocalSlamResult(
             ->local_trajectory_uploader()
             ->GetLocalSlamResultSensorId(trajectory_id);
     CreateSensorDataForLocalSlamResult(sensor_id.id, trajectory_id, client_id,
-                                       time, starting_submap_index_,
+                                       time,
+                                       starting_submap_index_[trajectory_id],
                                        *insertion_result, sensor_data.get());
     // TODO(cschuet): Make this more robust.
     if (insertion_result->insertion_submaps.front()->insertion_finished()) {
-      ++starting_submap_index_;
+      ++starting_submap_index_[trajectory_id];
     }
     grpc_server_->GetUnsynchronizedContext<MapBuilderContextInterface>()
         ->local_trajectory_uploader()
diff --git a/cartographer/cloud/internal/map_builder_server.h b/cartographer/cloud/internal/map_builder_server.h
index 4534609..8671c9c 100644
--- a/cartographer/cloud/internal/map_builder_server.h
+++ b/cartographer/cloud/internal/map_builder_server.h
@@ -146,7 +146,7 @@ class MapBuilderServer : public MapBuilderServerInterface {
            MapBuilderContextInterface::GlobalSlamOptimizationCallback>
       global_slam_subscriptions_ GUARDED_BY(subscriptions_lock_);
   std::unique_ptr<LocalTrajectoryUploaderInterface> local_trajectory_uploader_;
-  int starting_submap_index_ = 0;
+  std::map<int /* trajectory ID */, int> starting_submap_index_;
 };
 
 }  // namespace cloud
-- 
2.43.0


From 5cbf8a40b008c3c275eb740b80b5026d55c3ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:59 +0000
Subject: [PATCH 31/42] fix: the uploader's trajectories are shared between
 threads

---
 .../internal/local_trajectory_uploader.cc     | 55 +++++++++++++------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/cartographer/cloud/internal/local_trajectory_uploader.cc b/cartographer/cloud/internal/local_trajectory_uploader.cc
index 2b02494..48daa2d 100644
--- a/cartographer/cloud/internal/local_trajectory_uploader.cc
+++ b/cartographer/cloud/internal/local_trajectory_uploader.cc
@@ -19,8 +19,10 @@
 #include <atomic>
 #include <map>
 #include <thread>
+#include <vector>
 
 #include "absl/memory/memory.h"
+#include "absl/synchronization/mutex.h"
 #include "async_grpc/client.h"
 #include "cartographer/cloud/internal/handlers/add_sensor_data_batch_handler.h"
 #include "cartographer/cloud/internal/handlers/add_trajectory_handler.h"
@@ -100,7 +102,11 @@ class LocalTrajectoryUploader : public LocalTrajectoryUploaderInterface {
 
   std::shared_ptr<::grpc::Channel> client_channel_;
   int batch_size_;
-  std::map<int, TrajectoryInfo> local_trajectory_id_to_trajectory_info_;
+  // Used by the upload thread and by the threads that add and finish
+  // trajectories.
+  absl::Mutex mutex_;
+  std::map<int, TrajectoryInfo> local_trajectory_id_to_trajectory_info_
+      GUARDED_BY(mutex_);
   common::BlockingQueue<std::unique_ptr<proto::SensorData>> send_queue_;
   std::atomic<bool> shutting_down_{false};
   std::unique_ptr<std::thread> upload_thread_;
@@ -181,15 +187,20 @@ void LocalTrajectoryUploader::TryRecovery() {
 
   // Because the trajectories may be interrupted on the uplink side, we can no
   // longer upload to those.
-  for (auto& entry : local_trajectory_id_to_trajectory_info_) {
-    entry.second.uplink_trajectory_id.reset();
+  std::vector<int> local_trajectory_ids;
+  {
+    absl::MutexLock locker(&mutex_);
+    for (auto& entry : local_trajectory_id_to_trajectory_info_) {
+      entry.second.uplink_trajectory_id.reset();
+      local_trajectory_ids.push_back(entry.first);
+    }
   }
   // TODO(gaschler): If the uplink did not restart but only the connection was
   // interrupted, this leaks trajectories in the uplink.
 
   // Attempt to recreate the trajectories.
-  for (const auto& entry : local_trajectory_id_to_trajectory_info_) {
-    grpc::Status status = RegisterTrajectory(entry.first);
+  for (const int local_trajectory_id : local_trajectory_ids) {
+    grpc::Status status = RegisterTrajectory(local_trajectory_id);
     if (!status.ok()) {
       LOG(ERROR) << "Failed to create trajectory. Aborting recovery attempt. "
                  << status.error_message();
@@ -245,6 +256,7 @@ void LocalTrajectoryUploader::ProcessSendQueue() {
 
 bool LocalTrajectoryUploader::TranslateTrajectoryId(
     proto::SensorMetadata* sensor_metadata) {
+  absl::MutexLock locker(&mutex_);
   auto it = local_trajectory_id_to_trajectory_info_.find(
       sensor_metadata->trajectory_id());
   if (it == local_trajectory_id_to_trajectory_info_.end()) {
@@ -263,18 +275,24 @@ grpc::Status LocalTrajectoryUploader::AddTrajectory(
     const std::string& client_id, int local_trajectory_id,
     const std::set<SensorId>& expected_sensor_ids,
     const mapping::proto::TrajectoryBuilderOptions& trajectory_options) {
-  CHECK_EQ(local_trajectory_id_to_trajectory_info_.count(local_trajectory_id),
-           0);
-  local_trajectory_id_to_trajectory_info_.emplace(
-      local_trajectory_id,
-      TrajectoryInfo{{}, expected_sensor_ids, trajectory_options, client_id});
+  {
+    absl::MutexLock locker(&mutex_);
+    CHECK_EQ(local_trajectory_id_to_trajectory_info_.count(local_trajectory_id),
+             0);
+    local_trajectory_id_to_trajectory_info_.emplace(
+        local_trajectory_id,
+        TrajectoryInfo{{}, expected_sensor_ids, trajectory_options, client_id});
+  }
   return RegisterTrajectory(local_trajectory_id);
 }
 
 grpc::Status LocalTrajectoryUploader::RegisterTrajectory(
     int local_trajectory_id) {
+  // Entries are never removed, and only their 'uplink_trajectory_id' changes.
+  mutex_.Lock();
   TrajectoryInfo& trajectory_info =
       local_trajectory_id_to_trajectory_info_.at(local_trajectory_id);
+  mutex_.Unlock();
   proto::AddTrajectoryRequest request;
   request.set_client_id(trajectory_info.client_id);
   *request.mutable_trajectory_builder_options() =
@@ -299,19 +317,24 @@ grpc::Status LocalTrajectoryUploader::RegisterTrajectory(
   LOG(INFO) << "Created trajectory for client_id: " << trajectory_info.client_id
             << " local trajectory_id: " << local_trajectory_id
             << " uplink trajectory_id: " << client.response().trajectory_id();
+  absl::MutexLock locker(&mutex_);
   trajectory_info.uplink_trajectory_id = client.response().trajectory_id();
   return status;
 }
 
 grpc::Status LocalTrajectoryUploader::FinishTrajectory(
     const std::string& client_id, int local_trajectory_id) {
-  auto it = local_trajectory_id_to_trajectory_info_.find(local_trajectory_id);
-  if (it == local_trajectory_id_to_trajectory_info_.end()) {
-    return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
-                        "local_trajectory_id has not been"
-                        " registered with AddTrajectory.");
+  absl::optional<int> cloud_trajectory_id;
+  {
+    absl::MutexLock locker(&mutex_);
+    auto it = local_trajectory_id_to_trajectory_info_.find(local_trajectory_id);
+    if (it == local_trajectory_id_to_trajectory_info_.end()) {
+      return grpc::Status(grpc::StatusCode::INVALID_ARGUMENT,
+                          "local_trajectory_id has not been"
+                          " registered with AddTrajectory.");
+    }
+    cloud_trajectory_id = it->second.uplink_trajectory_id;
   }
-  auto cloud_trajectory_id = it->second.uplink_trajectory_id;
   if (!cloud_trajectory_id.has_value()) {
     return grpc::Status(
         grpc::StatusCode::UNAVAILABLE,
-- 
2.43.0


From 3a7632389883441460ead31efc2927ccd8c3a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:10 +0000
Subject: [PATCH 32/42] fix: a failed recovery left a gap in the trajectories
 uploaded before it

---
 .../internal/local_trajectory_uploader.cc     | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/cartographer/cloud/internal/local_trajectory_uploader.cc b/cartographer/cloud/internal/local_trajectory_uploader.cc
index 48daa2d..a2aa526 100644
--- a/cartographer/cloud/internal/local_trajectory_uploader.cc
+++ b/cartographer/cloud/internal/local_trajectory_uploader.cc
@@ -150,6 +150,17 @@ void LocalTrajectoryUploader::Shutdown() {
 }
 
 void LocalTrajectoryUploader::TryRecovery() {
+  // Because the trajectories may be interrupted on the uplink side, we can no
+  // longer upload to those, also if this recovery attempt fails.
+  std::vector<int> local_trajectory_ids;
+  {
+    absl::MutexLock locker(&mutex_);
+    for (auto& entry : local_trajectory_id_to_trajectory_info_) {
+      entry.second.uplink_trajectory_id.reset();
+      local_trajectory_ids.push_back(entry.first);
+    }
+  }
+
   if (client_channel_->GetState(false /* try_to_connect */) !=
       grpc_connectivity_state::GRPC_CHANNEL_READY) {
     LOG(INFO) << "Trying to re-connect to uplink...";
@@ -185,16 +196,6 @@ void LocalTrajectoryUploader::TryRecovery() {
     }
   }
 
-  // Because the trajectories may be interrupted on the uplink side, we can no
-  // longer upload to those.
-  std::vector<int> local_trajectory_ids;
-  {
-    absl::MutexLock locker(&mutex_);
-    for (auto& entry : local_trajectory_id_to_trajectory_info_) {
-      entry.second.uplink_trajectory_id.reset();
-      local_trajectory_ids.push_back(entry.first);
-    }
-  }
   // TODO(gaschler): If the uplink did not restart but only the connection was
   // interrupted, this leaks trajectories in the uplink.
 
-- 
2.43.0


From 81afa70ab97dcbb3dcbcfe7823af25bd645c2917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:59 +0000
Subject: [PATCH 33/42] fix: a trajectory can be deleted while others start
 relative to it

GetLocalToGlobalTransform and the background work stopped the process
when the trajectory an initial pose refers to no longer had any nodes.
---
 cartographer/mapping/internal/2d/pose_graph_2d.cc | 5 ++++-
 cartographer/mapping/internal/3d/pose_graph_3d.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 15d476b..f7bd522 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -1136,7 +1136,10 @@ transform::Rigid3d PoseGraph2D::ComputeLocalToGlobalTransform(
   auto end_it = global_submap_poses.EndOfTrajectory(trajectory_id);
   if (begin_it == end_it) {
     const auto it = data_.initial_trajectory_poses.find(trajectory_id);
-    if (it != data_.initial_trajectory_poses.end()) {
+    // The trajectory the initial pose refers to might have been deleted.
+    if (it != data_.initial_trajectory_poses.end() &&
+        data_.trajectory_nodes.SizeOfTrajectoryOrZero(
+            it->second.to_trajectory_id) > 0) {
       return GetInterpolatedGlobalTrajectoryPose(it->second.to_trajectory_id,
                                                  it->second.time) *
              it->second.relative_pose;
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index 114265a..c20abc4 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -1121,7 +1121,10 @@ transform::Rigid3d PoseGraph3D::ComputeLocalToGlobalTransform(
   auto end_it = global_submap_poses.EndOfTrajectory(trajectory_id);
   if (begin_it == end_it) {
     const auto it = data_.initial_trajectory_poses.find(trajectory_id);
-    if (it != data_.initial_trajectory_poses.end()) {
+    // The trajectory the initial pose refers to might have been deleted.
+    if (it != data_.initial_trajectory_poses.end() &&
+        data_.trajectory_nodes.SizeOfTrajectoryOrZero(
+            it->second.to_trajectory_id) > 0) {
       return GetInterpolatedGlobalTrajectoryPose(it->second.to_trajectory_id,
                                                  it->second.time) *
              it->second.relative_pose;
-- 
2.43.0


From 70182c56631929e230a3998812d8ff9f6eb46757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:56 +0000
Subject: [PATCH 34/42] fix: a new node cannot miss the optimization that moves
 its trajectory

AddNode computed the pose of the node before it took the mutex, so an
optimization finishing in between moved the trajectory but not the node.
---
 .../mapping/internal/2d/pose_graph_2d.cc         | 16 +++++++++-------
 cartographer/mapping/internal/2d/pose_graph_2d.h |  4 ++--
 .../mapping/internal/3d/pose_graph_3d.cc         | 16 +++++++++-------
 cartographer/mapping/internal/3d/pose_graph_3d.h |  4 ++--
 4 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index f7bd522..7f63f5b 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -126,13 +126,18 @@ std::vector<SubmapId> PoseGraph2D::InitializeGlobalSubmapPoses(
 NodeId PoseGraph2D::AppendNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
-    const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps,
-    const transform::Rigid3d& optimized_pose) {
+    const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps) {
   absl::MutexLock locker(&mutex_);
   AddTrajectoryIfNeeded(trajectory_id);
   if (!CanAddWorkItemModifying(trajectory_id)) {
     LOG(WARNING) << "AddNode was called for finished or deleted trajectory.";
   }
+  // Done while holding the mutex, so that no optimization which would also
+  // move this node can finish in between.
+  const transform::Rigid3d optimized_pose(
+      ComputeLocalToGlobalTransform(data_.global_submap_poses_2d,
+                                    trajectory_id) *
+      constant_data->local_pose);
   const NodeId node_id = data_.trajectory_nodes.Append(
       trajectory_id, TrajectoryNode{constant_data, optimized_pose});
   ++data_.num_trajectory_nodes;
@@ -155,11 +160,8 @@ NodeId PoseGraph2D::AddNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
     const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps) {
-  const transform::Rigid3d optimized_pose(
-      GetLocalToGlobalTransform(trajectory_id) * constant_data->local_pose);
-
-  const NodeId node_id = AppendNode(constant_data, trajectory_id,
-                                    insertion_submaps, optimized_pose);
+  const NodeId node_id =
+      AppendNode(constant_data, trajectory_id, insertion_submaps);
   // We have to check this here, because it might have changed by the time we
   // execute the lambda.
   const bool newly_finished_submap =
diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.h b/cartographer/mapping/internal/2d/pose_graph_2d.h
index 9ae4302..b9ce68e 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.h
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.h
@@ -176,8 +176,8 @@ class PoseGraph2D : public PoseGraph {
   NodeId AppendNode(
       std::shared_ptr<const TrajectoryNode::Data> constant_data,
       int trajectory_id,
-      const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps,
-      const transform::Rigid3d& optimized_pose) LOCKS_EXCLUDED(mutex_);
+      const std::vector<std::shared_ptr<const Submap2D>>& insertion_submaps)
+      LOCKS_EXCLUDED(mutex_);
 
   // Grows the optimization problem to have an entry for every element of
   // 'insertion_submaps'. Returns the IDs for the 'insertion_submaps'.
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index c20abc4..b4ced59 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -114,13 +114,18 @@ std::vector<SubmapId> PoseGraph3D::InitializeGlobalSubmapPoses(
 NodeId PoseGraph3D::AppendNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
-    const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps,
-    const transform::Rigid3d& optimized_pose) {
+    const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps) {
   absl::MutexLock locker(&mutex_);
   AddTrajectoryIfNeeded(trajectory_id);
   if (!CanAddWorkItemModifying(trajectory_id)) {
     LOG(WARNING) << "AddNode was called for finished or deleted trajectory.";
   }
+  // Done while holding the mutex, so that no optimization which would also
+  // move this node can finish in between.
+  const transform::Rigid3d optimized_pose(
+      ComputeLocalToGlobalTransform(data_.global_submap_poses_3d,
+                                    trajectory_id) *
+      constant_data->local_pose);
   const NodeId node_id = data_.trajectory_nodes.Append(
       trajectory_id, TrajectoryNode{constant_data, optimized_pose});
   ++data_.num_trajectory_nodes;
@@ -143,11 +148,8 @@ NodeId PoseGraph3D::AddNode(
     std::shared_ptr<const TrajectoryNode::Data> constant_data,
     const int trajectory_id,
     const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps) {
-  const transform::Rigid3d optimized_pose(
-      GetLocalToGlobalTransform(trajectory_id) * constant_data->local_pose);
-
-  const NodeId node_id = AppendNode(constant_data, trajectory_id,
-                                    insertion_submaps, optimized_pose);
+  const NodeId node_id =
+      AppendNode(constant_data, trajectory_id, insertion_submaps);
   // We have to check this here, because it might have changed by the time we
   // execute the lambda.
   const bool newly_finished_submap =
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index 705f8cb..f17738c 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -178,8 +178,8 @@ class PoseGraph3D : public PoseGraph {
   NodeId AppendNode(
       std::shared_ptr<const TrajectoryNode::Data> constant_data,
       int trajectory_id,
-      const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps,
-      const transform::Rigid3d& optimized_pose) LOCKS_EXCLUDED(mutex_);
+      const std::vector<std::shared_ptr<const Submap3D>>& insertion_submaps)
+      LOCKS_EXCLUDED(mutex_);
 
   // Grows the optimization problem to have an entry for every element of
   // 'insertion_submaps'. Returns the IDs for the 'insertion_submaps'.
-- 
2.43.0


From aad4ce9bac4dd2ee3584ef9c7681d7b4f73b133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:08 +0000
Subject: [PATCH 35/42] fix: IsTrajectoryFinished and IsTrajectoryFrozen read
 the state unlocked

They are part of the public interface, and served over gRPC, but had to be
called with a private mutex held.
---
 .../mapping/internal/2d/pose_graph_2d.cc      | 22 ++++++++++++++-----
 .../mapping/internal/2d/pose_graph_2d.h       |  9 ++++++--
 .../mapping/internal/3d/pose_graph_3d.cc      | 22 ++++++++++++++-----
 .../mapping/internal/3d/pose_graph_3d.h       |  9 ++++++--
 4 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.cc b/cartographer/mapping/internal/2d/pose_graph_2d.cc
index 7f63f5b..3c19ebd 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.cc
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.cc
@@ -651,7 +651,7 @@ void PoseGraph2D::DeleteTrajectory(const int trajectory_id) {
 void PoseGraph2D::FinishTrajectory(const int trajectory_id) {
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFinished(trajectory_id));
+    CHECK(!IsTrajectoryFinishedUnderLock(trajectory_id));
     data_.trajectories_state[trajectory_id].state = TrajectoryState::FINISHED;
 
     for (const auto& submap : data_.submap_data.trajectory(trajectory_id)) {
@@ -662,6 +662,11 @@ void PoseGraph2D::FinishTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph2D::IsTrajectoryFinished(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFinishedUnderLock(trajectory_id);
+}
+
+bool PoseGraph2D::IsTrajectoryFinishedUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FINISHED;
@@ -674,13 +679,13 @@ void PoseGraph2D::FreezeTrajectory(const int trajectory_id) {
   }
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFrozen(trajectory_id));
+    CHECK(!IsTrajectoryFrozenUnderLock(trajectory_id));
     // Connect multiple frozen trajectories among each other.
     // This is required for localization against multiple frozen trajectories
     // because we lose inter-trajectory constraints when freezing.
     for (const auto& entry : data_.trajectories_state) {
       const int other_trajectory_id = entry.first;
-      if (!IsTrajectoryFrozen(other_trajectory_id)) {
+      if (!IsTrajectoryFrozenUnderLock(other_trajectory_id)) {
         continue;
       }
       if (data_.trajectory_connectivity_state.TransitivelyConnected(
@@ -697,6 +702,11 @@ void PoseGraph2D::FreezeTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph2D::IsTrajectoryFrozen(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFrozenUnderLock(trajectory_id);
+}
+
+bool PoseGraph2D::IsTrajectoryFrozenUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FROZEN;
@@ -727,7 +737,7 @@ void PoseGraph2D::AddSubmapFromProto(
         submap_id, optimization::SubmapSpec2D{global_submap_pose_2d});
     // TODO(MichaelGrupp): MapBuilder does freezing before deserializing
     // submaps, so this should be fine.
-    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+    if (IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
       kFrozenSubmapsMetric->Increment();
     } else {
       kActiveSubmapsMetric->Increment();
@@ -1224,7 +1234,7 @@ PoseGraph2D::TrimmingHandle::GetConstraints() const {
 }
 
 bool PoseGraph2D::TrimmingHandle::IsFinished(const int trajectory_id) const {
-  return parent_->IsTrajectoryFinished(trajectory_id);
+  return parent_->IsTrajectoryFinishedUnderLock(trajectory_id);
 }
 
 void PoseGraph2D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
@@ -1318,7 +1328,7 @@ void PoseGraph2D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-  if (parent_->IsTrajectoryFrozen(submap_id.trajectory_id)) {
+  if (parent_->IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
     kFrozenSubmapsMetric->Decrement();
   } else {
     kActiveSubmapsMetric->Decrement();
diff --git a/cartographer/mapping/internal/2d/pose_graph_2d.h b/cartographer/mapping/internal/2d/pose_graph_2d.h
index b9ce68e..94b8ae5 100644
--- a/cartographer/mapping/internal/2d/pose_graph_2d.h
+++ b/cartographer/mapping/internal/2d/pose_graph_2d.h
@@ -99,10 +99,10 @@ class PoseGraph2D : public PoseGraph {
   void DeleteTrajectory(int trajectory_id) override;
   void FinishTrajectory(int trajectory_id) override;
   bool IsTrajectoryFinished(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void FreezeTrajectory(int trajectory_id) override;
   bool IsTrajectoryFrozen(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void AddSubmapFromProto(const transform::Rigid3d& global_submap_pose,
                           const proto::Submap& submap) override;
   void AddNodeFromProto(const transform::Rigid3d& global_pose,
@@ -163,6 +163,11 @@ class PoseGraph2D : public PoseGraph {
   MapById<SubmapId, PoseGraphInterface::SubmapData> GetSubmapDataUnderLock()
       const EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 
+  bool IsTrajectoryFinishedUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  bool IsTrajectoryFrozenUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Handles a new work item.
   void AddWorkItem(const std::function<WorkItem::Result()>& work_item)
       LOCKS_EXCLUDED(mutex_) LOCKS_EXCLUDED(work_queue_mutex_);
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.cc b/cartographer/mapping/internal/3d/pose_graph_3d.cc
index b4ced59..b464553 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.cc
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.cc
@@ -638,7 +638,7 @@ void PoseGraph3D::DeleteTrajectory(const int trajectory_id) {
 void PoseGraph3D::FinishTrajectory(const int trajectory_id) {
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFinished(trajectory_id));
+    CHECK(!IsTrajectoryFinishedUnderLock(trajectory_id));
     data_.trajectories_state[trajectory_id].state = TrajectoryState::FINISHED;
 
     for (const auto& submap : data_.submap_data.trajectory(trajectory_id)) {
@@ -649,6 +649,11 @@ void PoseGraph3D::FinishTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph3D::IsTrajectoryFinished(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFinishedUnderLock(trajectory_id);
+}
+
+bool PoseGraph3D::IsTrajectoryFinishedUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FINISHED;
@@ -661,13 +666,13 @@ void PoseGraph3D::FreezeTrajectory(const int trajectory_id) {
   }
   AddWorkItem([this, trajectory_id]() LOCKS_EXCLUDED(mutex_) {
     absl::MutexLock locker(&mutex_);
-    CHECK(!IsTrajectoryFrozen(trajectory_id));
+    CHECK(!IsTrajectoryFrozenUnderLock(trajectory_id));
     // Connect multiple frozen trajectories among each other.
     // This is required for localization against multiple frozen trajectories
     // because we lose inter-trajectory constraints when freezing.
     for (const auto& entry : data_.trajectories_state) {
       const int other_trajectory_id = entry.first;
-      if (!IsTrajectoryFrozen(other_trajectory_id)) {
+      if (!IsTrajectoryFrozenUnderLock(other_trajectory_id)) {
         continue;
       }
       if (data_.trajectory_connectivity_state.TransitivelyConnected(
@@ -684,6 +689,11 @@ void PoseGraph3D::FreezeTrajectory(const int trajectory_id) {
 }
 
 bool PoseGraph3D::IsTrajectoryFrozen(const int trajectory_id) const {
+  absl::MutexLock locker(&mutex_);
+  return IsTrajectoryFrozenUnderLock(trajectory_id);
+}
+
+bool PoseGraph3D::IsTrajectoryFrozenUnderLock(const int trajectory_id) const {
   return data_.trajectories_state.count(trajectory_id) != 0 &&
          data_.trajectories_state.at(trajectory_id).state ==
              TrajectoryState::FROZEN;
@@ -711,7 +721,7 @@ void PoseGraph3D::AddSubmapFromProto(
         submap_id, optimization::SubmapSpec3D{global_submap_pose});
     // TODO(MichaelGrupp): MapBuilder does freezing before deserializing
     // submaps, so this should be fine.
-    if (IsTrajectoryFrozen(submap_id.trajectory_id)) {
+    if (IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
       kFrozenSubmapsMetric->Increment();
     } else {
       kActiveSubmapsMetric->Increment();
@@ -1204,7 +1214,7 @@ PoseGraph3D::TrimmingHandle::GetConstraints() const {
 }
 
 bool PoseGraph3D::TrimmingHandle::IsFinished(const int trajectory_id) const {
-  return parent_->IsTrajectoryFinished(trajectory_id);
+  return parent_->IsTrajectoryFinishedUnderLock(trajectory_id);
 }
 
 void PoseGraph3D::TrimmingHandle::SetTrajectoryState(int trajectory_id,
@@ -1298,7 +1308,7 @@ void PoseGraph3D::TrimmingHandle::TrimSubmap(const SubmapId& submap_id) {
 
   // We have one submap less, update the gauge metrics.
   kDeletedSubmapsMetric->Increment();
-  if (parent_->IsTrajectoryFrozen(submap_id.trajectory_id)) {
+  if (parent_->IsTrajectoryFrozenUnderLock(submap_id.trajectory_id)) {
     kFrozenSubmapsMetric->Decrement();
   } else {
     kActiveSubmapsMetric->Decrement();
diff --git a/cartographer/mapping/internal/3d/pose_graph_3d.h b/cartographer/mapping/internal/3d/pose_graph_3d.h
index f17738c..3691628 100644
--- a/cartographer/mapping/internal/3d/pose_graph_3d.h
+++ b/cartographer/mapping/internal/3d/pose_graph_3d.h
@@ -97,10 +97,10 @@ class PoseGraph3D : public PoseGraph {
   void DeleteTrajectory(int trajectory_id) override;
   void FinishTrajectory(int trajectory_id) override;
   bool IsTrajectoryFinished(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void FreezeTrajectory(int trajectory_id) override;
   bool IsTrajectoryFrozen(int trajectory_id) const override
-      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+      LOCKS_EXCLUDED(mutex_);
   void AddSubmapFromProto(const transform::Rigid3d& global_submap_pose,
                           const proto::Submap& submap) override;
   void AddNodeFromProto(const transform::Rigid3d& global_pose,
@@ -166,6 +166,11 @@ class PoseGraph3D : public PoseGraph {
   MapById<SubmapId, SubmapData> GetSubmapDataUnderLock() const
       EXCLUSIVE_LOCKS_REQUIRED(mutex_);
 
+  bool IsTrajectoryFinishedUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+  bool IsTrajectoryFrozenUnderLock(int trajectory_id) const
+      EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   // Handles a new work item.
   void AddWorkItem(const std::function<WorkItem::Result()>& work_item)
       LOCKS_EXCLUDED(mutex_) LOCKS_EXCLUDED(work_queue_mutex_);
-- 
2.43.0


From 100c4056af669083edd8ac3ed58ee10979cdf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 36/42] fix: 3D local SLAM results with submaps the uplink does
 not know crash it

---
 .../mapping/internal/3d/local_slam_result_3d.cc       | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cartographer/mapping/internal/3d/local_slam_result_3d.cc b/cartographer/mapping/internal/3d/local_slam_result_3d.cc
index 6f8e703..f07a454 100644
--- a/cartographer/mapping/internal/3d/local_slam_result_3d.cc
+++ b/cartographer/mapping/internal/3d/local_slam_result_3d.cc
@@ -34,7 +34,16 @@ void LocalSlamResult3D::AddToPoseGraph(int trajectory_id,
   CHECK(local_slam_result_data_.submaps(0).has_submap_3d());
   std::vector<std::shared_ptr<const mapping::Submap3D>> submaps;
   for (const auto& submap_proto : local_slam_result_data_.submaps()) {
-    submaps.push_back(submap_controller_->UpdateSubmap(submap_proto));
+    auto submap_ptr = submap_controller_->UpdateSubmap(submap_proto);
+    if (submap_ptr) {
+      submaps.push_back(submap_ptr);
+    } else {
+      LOG(INFO) << "Ignoring submap";
+    }
+  }
+  if (submaps.size() == 0) {
+    LOG(INFO) << "Ignoring node";
+    return;
   }
   static_cast<PoseGraph3D*>(pose_graph)
       ->AddNode(std::make_shared<const mapping::TrajectoryNode::Data>(
-- 
2.43.0


From 48de82d6297bb8588fdc6a07782ded3c07df6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:01 +0000
Subject: [PATCH 37/42] fix: data queued when a trajectory is finished through
 the service stops the server

---
 .../internal/handlers/finish_trajectory_handler.cc     | 10 ++++++----
 cartographer/cloud/internal/map_builder_context_impl.h |  5 +++++
 cartographer/cloud/internal/map_builder_server.cc      |  5 +++++
 cartographer/cloud/internal/map_builder_server.h       |  1 +
 4 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/cartographer/cloud/internal/handlers/finish_trajectory_handler.cc b/cartographer/cloud/internal/handlers/finish_trajectory_handler.cc
index 3eaec9b..eae7dec 100644
--- a/cartographer/cloud/internal/handlers/finish_trajectory_handler.cc
+++ b/cartographer/cloud/internal/handlers/finish_trajectory_handler.cc
@@ -35,10 +35,12 @@ void FinishTrajectoryHandler::OnRequest(
     Finish(::grpc::Status(::grpc::NOT_FOUND, "Unknown trajectory"));
     return;
   }
-  GetContext<MapBuilderContextInterface>()->map_builder().FinishTrajectory(
-      request.trajectory_id());
-  GetUnsynchronizedContext<MapBuilderContextInterface>()
-      ->NotifyFinishTrajectory(request.trajectory_id());
+  {
+    // No sensor data is added in between.
+    auto&& context = GetContext<MapBuilderContextInterface>();
+    context->map_builder().FinishTrajectory(request.trajectory_id());
+    context->NotifyFinishTrajectory(request.trajectory_id());
+  }
   if (GetUnsynchronizedContext<MapBuilderContextInterface>()
           ->local_trajectory_uploader()) {
     auto status =
diff --git a/cartographer/cloud/internal/map_builder_context_impl.h b/cartographer/cloud/internal/map_builder_context_impl.h
index 186e1e7..5e0af32 100644
--- a/cartographer/cloud/internal/map_builder_context_impl.h
+++ b/cartographer/cloud/internal/map_builder_context_impl.h
@@ -58,6 +58,11 @@ MapBuilderContext<SubmapType>::GetLocalSlamResultCallbackForSubscriptions() {
 template <class SubmapType>
 void MapBuilderContext<SubmapType>::AddSensorDataToTrajectory(
     const Data& sensor_data) {
+  if (map_builder_server_->IsTrajectoryFinished(sensor_data.trajectory_id)) {
+    LOG(WARNING) << "Ignoring sensor data for finished trajectory "
+                 << sensor_data.trajectory_id;
+    return;
+  }
   sensor_data.data->AddToTrajectoryBuilder(
       map_builder_server_->map_builder_->GetTrajectoryBuilder(
           sensor_data.trajectory_id));
diff --git a/cartographer/cloud/internal/map_builder_server.cc b/cartographer/cloud/internal/map_builder_server.cc
index 897d107..6a73db4 100644
--- a/cartographer/cloud/internal/map_builder_server.cc
+++ b/cartographer/cloud/internal/map_builder_server.cc
@@ -293,6 +293,11 @@ void MapBuilderServer::NotifyFinishTrajectory(int trajectory_id) {
   }
 }
 
+bool MapBuilderServer::IsTrajectoryFinished(int trajectory_id) {
+  absl::MutexLock locker(&subscriptions_lock_);
+  return finished_trajectories_.count(trajectory_id) != 0;
+}
+
 void MapBuilderServer::WaitUntilIdle() {
   incoming_data_queue_.WaitUntilEmpty();
   map_builder_->pose_graph()->RunFinalOptimization();
diff --git a/cartographer/cloud/internal/map_builder_server.h b/cartographer/cloud/internal/map_builder_server.h
index 8671c9c..3f8f777 100644
--- a/cartographer/cloud/internal/map_builder_server.h
+++ b/cartographer/cloud/internal/map_builder_server.h
@@ -130,6 +130,7 @@ class MapBuilderServer : public MapBuilderServerInterface {
       MapBuilderContextInterface::GlobalSlamOptimizationCallback callback);
   void UnsubscribeGlobalSlamOptimizations(int subscription_index);
   void NotifyFinishTrajectory(int trajectory_id);
+  bool IsTrajectoryFinished(int trajectory_id);
 
   std::atomic<bool> shutting_down_{false};
   std::unique_ptr<std::thread> slam_thread_;
-- 
2.43.0


From 16c1aae683681e38f68903b182c6240cc97f9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:26 +0000
Subject: [PATCH 38/42] fix: nodes older than the IMU data of their trajectory
 stop the optimization

---
 .../mapping/internal/optimization/optimization_problem_3d.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
index 4796084..8d3ae73 100644
--- a/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
+++ b/cartographer/mapping/internal/optimization/optimization_problem_3d.cc
@@ -404,6 +404,11 @@ void OptimizationProblem3D::Solve(
                std::next(imu_it)->time <= first_node_data.time) {
           ++imu_it;
         }
+        if (imu_it->time > first_node_data.time) {
+          // A trajectory that is resumed on an uplink server can start with
+          // nodes that are older than its IMU data.
+          continue;
+        }
 
         auto imu_it2 = imu_it;
         const IntegrateImuResult<double> result = IntegrateImu(
-- 
2.43.0


From dc1344430f66e816950ff68ce22a744b2c990ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:59 +0000
Subject: [PATCH 39/42] fix: asking an uplink for an unfinished 3D submap
 crashes it

---
 cartographer/mapping/3d/submap_3d.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/mapping/3d/submap_3d.cc b/cartographer/mapping/3d/submap_3d.cc
index 9facbe4..0f1e23d 100644
--- a/cartographer/mapping/3d/submap_3d.cc
+++ b/cartographer/mapping/3d/submap_3d.cc
@@ -260,6 +260,7 @@ void Submap3D::UpdateFromProto(const proto::Submap3D& submap_3d) {
 void Submap3D::ToResponseProto(
     const transform::Rigid3d& global_submap_pose,
     proto::SubmapQuery::Response* const response) const {
+  if (!high_resolution_hybrid_grid_ || !low_resolution_hybrid_grid_) return;
   response->set_submap_version(num_range_data());
 
   AddToTextureProto(*high_resolution_hybrid_grid_, global_submap_pose,
-- 
2.43.0


From e860b8aba8f8c9e91706e42a18dd2edfa4e5ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:58 +0000
Subject: [PATCH 40/42] fix: ground truth of a map whose first submaps were
 trimmed is wrong

Loop closures name nodes and submaps by their index, which the tool used as
position in the trajectory. After trimming, this threw or silently took other
nodes and submaps.
---
 .../ground_truth/autogenerate_ground_truth.cc | 71 ++++++++++++-------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/cartographer/ground_truth/autogenerate_ground_truth.cc b/cartographer/ground_truth/autogenerate_ground_truth.cc
index a6a8f2d..ce450fc 100644
--- a/cartographer/ground_truth/autogenerate_ground_truth.cc
+++ b/cartographer/ground_truth/autogenerate_ground_truth.cc
@@ -16,8 +16,8 @@
 
 #include "cartographer/ground_truth/autogenerate_ground_truth.h"
 
+#include <map>
 #include <string>
-#include <vector>
 
 #include "cartographer/mapping/proto/trajectory.pb.h"
 #include "cartographer/transform/transform.h"
@@ -27,18 +27,39 @@ namespace cartographer {
 namespace ground_truth {
 namespace {
 
-std::vector<double> ComputeCoveredDistance(
+// Node indices and submap indices are not positions in 'trajectory': the first
+// nodes and submaps may have been trimmed.
+std::map<int, mapping::proto::Trajectory::Node> GetNodesByIndex(
     const mapping::proto::Trajectory& trajectory) {
-  std::vector<double> covered_distance;
-  covered_distance.push_back(0.);
+  std::map<int, mapping::proto::Trajectory::Node> nodes;
+  for (const auto& node : trajectory.node()) {
+    nodes.emplace(node.node_index(), node);
+  }
+  return nodes;
+}
+
+std::map<int, mapping::proto::Trajectory::Submap> GetSubmapsByIndex(
+    const mapping::proto::Trajectory& trajectory) {
+  std::map<int, mapping::proto::Trajectory::Submap> submaps;
+  for (const auto& submap : trajectory.submap()) {
+    submaps.emplace(submap.submap_index(), submap);
+  }
+  return submaps;
+}
+
+// Returns the covered distance by node index.
+std::map<int, double> ComputeCoveredDistance(
+    const mapping::proto::Trajectory& trajectory) {
+  std::map<int, double> covered_distance;
   CHECK_GT(trajectory.node_size(), 0)
       << "Trajectory does not contain any nodes.";
+  double distance = 0.;
+  covered_distance.emplace(trajectory.node(0).node_index(), distance);
   for (int i = 1; i < trajectory.node_size(); ++i) {
     const auto last_pose = transform::ToRigid3(trajectory.node(i - 1).pose());
     const auto this_pose = transform::ToRigid3(trajectory.node(i).pose());
-    covered_distance.push_back(
-        covered_distance.back() +
-        (last_pose.inverse() * this_pose).translation().norm());
+    distance += (last_pose.inverse() * this_pose).translation().norm();
+    covered_distance.emplace(trajectory.node(i).node_index(), distance);
   }
   return covered_distance;
 }
@@ -47,9 +68,9 @@ std::vector<double> ComputeCoveredDistance(
 //
 // TODO(whess): Should we consider all nodes inserted into the submap and
 // exclude, e.g. based on large relative linear or angular distance?
-std::vector<int> ComputeSubmapRepresentativeNode(
+std::map<int, int> ComputeSubmapRepresentativeNode(
     const mapping::proto::PoseGraph& pose_graph) {
-  std::vector<int> submap_to_node_index;
+  std::map<int, int> submap_to_node_index;
   for (const auto& constraint : pose_graph.constraint()) {
     if (constraint.tag() !=
         mapping::proto::PoseGraph::Constraint::INTRA_SUBMAP) {
@@ -58,14 +79,9 @@ std::vector<int> ComputeSubmapRepresentativeNode(
     CHECK_EQ(constraint.submap_id().trajectory_id(), 0);
     CHECK_EQ(constraint.node_id().trajectory_id(), 0);
 
-    const int next_submap_index = static_cast<int>(submap_to_node_index.size());
-    const int submap_index = constraint.submap_id().submap_index();
-    if (submap_index <= next_submap_index) {
-      continue;
-    }
-
-    CHECK_EQ(submap_index, next_submap_index + 1);
-    submap_to_node_index.push_back(constraint.node_id().node_index());
+    // The first node of a submap is in the middle of the one before.
+    submap_to_node_index.emplace(constraint.submap_id().submap_index() - 1,
+                                 constraint.node_id().node_index());
   }
   return submap_to_node_index;
 }
@@ -77,10 +93,12 @@ proto::GroundTruth GenerateGroundTruth(
     const double min_covered_distance, const double outlier_threshold_meters,
     const double outlier_threshold_radians) {
   const mapping::proto::Trajectory& trajectory = pose_graph.trajectory(0);
-  const std::vector<double> covered_distance =
+  const auto nodes = GetNodesByIndex(trajectory);
+  const auto submaps = GetSubmapsByIndex(trajectory);
+  const std::map<int, double> covered_distance =
       ComputeCoveredDistance(trajectory);
 
-  const std::vector<int> submap_to_node_index =
+  const std::map<int, int> submap_to_node_index =
       ComputeSubmapRepresentativeNode(pose_graph);
 
   int num_outliers = 0;
@@ -96,8 +114,8 @@ proto::GroundTruth GenerateGroundTruth(
     // node, but those should not be part of loop closure anyway.
     CHECK_EQ(constraint.submap_id().trajectory_id(), 0);
     CHECK_EQ(constraint.node_id().trajectory_id(), 0);
-    if (constraint.submap_id().submap_index() >=
-        static_cast<int>(submap_to_node_index.size())) {
+    if (submap_to_node_index.count(constraint.submap_id().submap_index()) ==
+        0) {
       continue;
     }
     const int matched_node = constraint.node_id().node_index();
@@ -115,14 +133,14 @@ proto::GroundTruth GenerateGroundTruth(
     // Compute the transform between the nodes according to the solution and
     // the constraint.
     const transform::Rigid3d solution_pose1 =
-        transform::ToRigid3(trajectory.node(representative_node).pose());
+        transform::ToRigid3(nodes.at(representative_node).pose());
     const transform::Rigid3d solution_pose2 =
-        transform::ToRigid3(trajectory.node(matched_node).pose());
+        transform::ToRigid3(nodes.at(matched_node).pose());
     const transform::Rigid3d solution =
         solution_pose1.inverse() * solution_pose2;
 
     const transform::Rigid3d submap_solution = transform::ToRigid3(
-        trajectory.submap(constraint.submap_id().submap_index()).pose());
+        submaps.at(constraint.submap_id().submap_index()).pose());
     const transform::Rigid3d submap_solution_to_node_solution =
         solution_pose1.inverse() * submap_solution;
     const transform::Rigid3d node_to_submap_constraint =
@@ -138,9 +156,8 @@ proto::GroundTruth GenerateGroundTruth(
       continue;
     }
     auto* const new_relation = ground_truth.add_relation();
-    new_relation->set_timestamp1(
-        trajectory.node(representative_node).timestamp());
-    new_relation->set_timestamp2(trajectory.node(matched_node).timestamp());
+    new_relation->set_timestamp1(nodes.at(representative_node).timestamp());
+    new_relation->set_timestamp2(nodes.at(matched_node).timestamp());
     *new_relation->mutable_expected() = transform::ToProto(expected);
     new_relation->set_covered_distance(covered_distance_in_constraint);
   }
-- 
2.43.0


From 18568ec894175b4aa630dd4b8125f77bb590ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:58 +0000
Subject: [PATCH 41/42] fix: relation metrics that could not be written are
 reported as written

---
 cartographer/ground_truth/compute_relations_metrics_main.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/ground_truth/compute_relations_metrics_main.cc b/cartographer/ground_truth/compute_relations_metrics_main.cc
index 0aba0b7..bfafe2e 100644
--- a/cartographer/ground_truth/compute_relations_metrics_main.cc
+++ b/cartographer/ground_truth/compute_relations_metrics_main.cc
@@ -151,6 +151,7 @@ void WriteRelationMetricsToFile(const std::vector<Error>& errors,
                          << relation.covered_distance() << "\n";
   }
   relation_errors_file.close();
+  CHECK(relation_errors_file) << "Could not write relation metrics.";
 }
 
 transform::Rigid3d LookupTransform(
-- 
2.43.0


From 158459a63ba323077613cdbce6c413229e1293f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:42 +0000
Subject: [PATCH 42/42] fix: a configuration file that cannot be opened counts
 as an empty one

---
 cartographer/common/configuration_file_resolver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cartographer/common/configuration_file_resolver.cc b/cartographer/common/configuration_file_resolver.cc
index 3c2fd10..5be5ed5 100644
--- a/cartographer/common/configuration_file_resolver.cc
+++ b/cartographer/common/configuration_file_resolver.cc
@@ -50,6 +50,7 @@ std::string ConfigurationFileResolver::GetFileContentOrDie(
   CHECK(!basename.empty()) << "File basename cannot be empty." << basename;
   const std::string filename = GetFullPathOrDie(basename);
   std::ifstream stream(filename.c_str());
+  CHECK(stream.good()) << "Could not open '" << filename << "'.";
   return std::string((std::istreambuf_iterator<char>(stream)),
                      std::istreambuf_iterator<char>());
 }
-- 
2.43.0


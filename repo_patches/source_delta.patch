From 7fbc8c5f6532752fc653c49ada6aa476cee8c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 01/22] fix: skip blank and malformed batch rows and report
 batch read errors

---
 src/commandline_parser.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..75237b9 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,17 +200,28 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
+      if (line.empty()) {
+        continue;
+      }
       std::istringstream in(line);
 
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      } else {
+        ABSL_RAW_LOG(ERROR, "Skipping malformed batch row: %s", line.c_str());
+      }
       line_file_paths.clear();
     }
+    if (fin.bad()) {
+      ABSL_RAW_LOG(ERROR, "Error reading batch file %s after %zu pairs.",
+                   batch_input_path.Path().c_str(), file_paths.size());
+    }
     fin.close();
   }
 
-- 
2.43.0


From 77fc57bff70a0bf398a241e681903b8480aaebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 02/22] fix: WavReader::ReadSamples stops at the end of the
 data chunk

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..da9672f 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -239,7 +239,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From f65a55f34c972c061247ceac6df18473eee4bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 03/22] fix: do not allocate for WAV samples that are not in
 the stream

---
 src/wav_reader.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index da9672f..5825eb3 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -229,6 +229,20 @@ bool WavReader::ParseHeader() {
     return false;
   }
   pcm_offset_bytes_ = static_cast<uint64_t>(current_position);
+
+  // Truncated and streamed files declare more data than there is.
+  if (bytes_in_stream_ >= current_position) {
+    const size_t samples_in_stream =
+        static_cast<size_t>(bytes_in_stream_ - current_position) /
+        bytes_per_sample_;
+    if (num_total_samples_ > samples_in_stream) {
+      ABSL_RAW_LOG(WARNING,
+                   "WAV header declares %zu samples but only %zu are present.",
+                   num_total_samples_, samples_in_stream);
+      num_total_samples_ = samples_in_stream;
+      num_remaining_samples_ = samples_in_stream;
+    }
+  }
   return true;
 }
 
-- 
2.43.0


From fb3a4f9d376197f97da84deca0402dbe8106438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 04/22] fix: reject signals that could not be loaded instead of
 crashing

---
 src/include/audio_signal.h | 2 +-
 src/visqol_manager.cc      | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..01547b9 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -239,6 +239,14 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if either signal could not be loaded.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0 ||
+      ref_signal.sample_rate == 0) {
+    return absl::InvalidArgumentError(
+        "Input audio signals must have samples and a sample rate.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From b1acef713af9db6cc93db0cd4da5ddc4d9aa75df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 05/22] fix: report a reference too short for a speech patch
 instead of throwing

---
 src/vad_patch_creator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..f18e6b1 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -19,6 +19,7 @@
 #include <vector>
 
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "amatrix.h"
 #include "analysis_window.h"
 #include "audio_signal.h"
@@ -63,6 +64,13 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
+  // Ensure that the spectrum is at least as big as a single patch.
+  if (spectrum_length < first_patch_idx + patch_size_) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Reference spectrum size (", spectrum_length,
+                     ") smaller than minimum patch size (",
+                     first_patch_idx + patch_size_, ")."));
+  }
   const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
-- 
2.43.0


From f9b4ac7b04a4a1ed948c058fb402830282f14320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 06/22] fix: stop dropping reference patches once none are left

---
 src/comparison_patches_selector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..06eab72 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -121,9 +121,9 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
 
   if (num_patches) {
     // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
+    while (num_patches && ref_patch_indices[num_patches - 1] -
+                                  floor(num_frames_per_patch / 2) >
+                              num_frames_in_deg_spectro) {
       num_patches--;
     }
   }
-- 
2.43.0


From 4a2c2243b720f4b58b4e831da7344756dea86d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 07/22] fix: report an empty patch search window instead of
 using an unset offset

---
 src/comparison_patches_selector.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 06eab72..3e67352 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -185,7 +185,7 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   int last_index = num_patches - 1;
   // The last_offset stores the offset at which the last reference patch got the
   // maximal similarity score over all the reference patches.
-  int last_offset;
+  int last_offset = -1;
   int lower_limit = std::max(
       0, static_cast<int>(ref_patch_indices[last_index] - search_window));
   // The for loop is used to find the offset which maximizes the similarity
@@ -205,6 +205,13 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     }
   }
 
+  if (last_offset < 0) {
+    return absl::Status(
+        absl::StatusCode::kCancelled,
+        "No degraded patch within the search window of the last reference "
+        "patch.");
+  }
+
   for (int patch_index = num_patches - 1; patch_index >= 0; patch_index--) {
     // This sets the reference and degraded patch start and end times.
     ImagePatch ref_patch = ref_patches[patch_index];
-- 
2.43.0


From b2cf0cca887eea8d078211a6d634cba8344a8e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 08/22] fix: a failed re-initialisation leaves the manager
 uninitialised

---
 src/visqol_manager.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 01547b9..b21cf01 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -53,6 +53,7 @@ absl::Status VisqolManager::Init(
     const FilePath& similarity_to_quality_mapper_model, bool use_speech_mode,
     bool use_unscaled_speech, int search_window, bool use_lattice_model,
     bool disable_global_alignment, bool disable_realignment) {
+  is_initialized_ = false;
   use_speech_mode_ = use_speech_mode;
   use_unscaled_speech_mos_mapping_ = use_unscaled_speech;
   search_window_ = search_window;
-- 
2.43.0


From f1e3ed5fe1c837023bde0a20dc188a4ec154940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 09/22] fix: a failed VisqolApi::Create does not change the
 sample rate in use

---
 src/visqol_api.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/visqol_api.cc b/src/visqol_api.cc
index 42a6b17..33c119a 100644
--- a/src/visqol_api.cc
+++ b/src/visqol_api.cc
@@ -41,10 +41,10 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // Read the sample rate for the input signals.
   // The sample rate must be the same for both signals.
   auto audio_info = config.audio();
-  sample_rate_ = audio_info.sample_rate();
+  const size_t sample_rate = audio_info.sample_rate();
 
   // Ensure a sample rate value was provided.
-  if (sample_rate_ == 0) {
+  if (sample_rate == 0) {
     return absl::Status(absl::StatusCode::kInvalidArgument,
                         "The sample rate for the signals must be set.");
   }
@@ -82,7 +82,7 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   // specific frequencies (the bands are independent of sample rate, unlike how
   // visqolaudio works). It seems like if we did this for Visqol we could
   // support arbitrary sample rates.
-  if (sample_rate_ != k48kSampleRate && speech_mode == false &&
+  if (sample_rate != k48kSampleRate && speech_mode == false &&
       allow_sr_override == false) {
     return absl::Status(
         absl::StatusCode::kInvalidArgument,
@@ -94,6 +94,7 @@ absl::Status VisqolApi::Create(const VisqolConfig config) {
   VISQOL_RETURN_IF_ERROR(visqol_.Init(FilePath(model_file), speech_mode,
                                       unscaled_speech_map, search_window,
                                       use_lattice_model));
+  sample_rate_ = sample_rate;
 
   return absl::Status();
 }
-- 
2.43.0


From f4822d76e9335e469556e39a64f43b8ecaff5968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 10/22] fix: unreadable paths are reported instead of throwing

---
 src/include/file_path.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/file_path.h b/src/include/file_path.h
index 5a9a9c3..54cdfc2 100644
--- a/src/include/file_path.h
+++ b/src/include/file_path.h
@@ -20,6 +20,7 @@
 #include <filesystem>
 #include <fstream>
 #include <string>
+#include <system_error>
 
 #include "absl/strings/string_view.h"
 
@@ -36,10 +37,14 @@ class FilePath {
 
   const std::string Path() const { return path_; }
 
-  bool Exists() const { return std::filesystem::exists(path_); }
+  bool Exists() const {
+    std::error_code error;
+    return std::filesystem::exists(path_, error);
+  }
 
   static std::string currentWorkingDir() {
-    return std::filesystem::current_path().string();
+    std::error_code error;
+    return std::filesystem::current_path(error).string();
   }
 
  private:
-- 
2.43.0


From ddd31d38e9842485cc248ec98c9e1c00d81aee83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 11/22] fix: write the CSV header to a results file that is
 still empty

---
 src/include/sim_results_writer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/sim_results_writer.h b/src/include/sim_results_writer.h
index c2b7307..92d875f 100644
--- a/src/include/sim_results_writer.h
+++ b/src/include/sim_results_writer.h
@@ -209,10 +209,11 @@ class SimilarityResultsWriter {
                                 const bool output_fvnsim = true,
                                 const bool output_stddev = true,
                                 const bool output_fvdegenergy = true) {
-    // If this file does not already exist, we need to write the header.
-    const bool write_header = !csv_res_path.Exists();
     std::ofstream out_file;
     out_file.open(csv_res_path.Path(), std::ios_base::app);
+    // If this file is new or still empty, we need to write the header.
+    const bool write_header =
+        out_file && out_file.seekp(0, std::ios_base::end).tellp() == 0;
 
     if (write_header) {
       out_file << "reference,degraded";
-- 
2.43.0


From 03928af7ab7eba504cf7043fdbb421985eb5a004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 12/22] fix: report results and debug output that could not be
 written

---
 src/include/sim_results_writer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/include/sim_results_writer.h b/src/include/sim_results_writer.h
index 92d875f..fc12334 100644
--- a/src/include/sim_results_writer.h
+++ b/src/include/sim_results_writer.h
@@ -187,6 +187,10 @@ class SimilarityResultsWriter {
       outFile.open(debug_output_path.Path(), std::ios_base::app);
       outFile << debug_json;
       outFile.close();
+      if (!outFile) {
+        ABSL_RAW_LOG(ERROR, "Error writing debug JSON to %s",
+                     debug_output_path.Path().c_str());
+      }
     } else {
       ABSL_RAW_LOG(ERROR, "Error writing debug JSON: %s ",
                    sim_res_msg.ShortDebugString().c_str());
@@ -272,6 +276,10 @@ class SimilarityResultsWriter {
 
     out_file << std::endl;
     out_file.close();
+    if (!out_file) {
+      ABSL_RAW_LOG(ERROR, "Error writing results to %s",
+                   csv_res_path.Path().c_str());
+    }
   }
 };
 }  // namespace Visqol
-- 
2.43.0


From d9299efd2aa543de600ef01497f9130bbd10ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 13/22] fix: do not leak or free an unset SVR model

---
 src/include/support_vector_regression_model.h |  5 +++++
 src/support_vector_regression_model.cc        | 11 +++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/include/support_vector_regression_model.h b/src/include/support_vector_regression_model.h
index 57c131a..8ef20ed 100644
--- a/src/include/support_vector_regression_model.h
+++ b/src/include/support_vector_regression_model.h
@@ -72,6 +72,11 @@ class SupportVectorRegressionModel {
   double Predict(const MlObservation& observation) const;
 
  private:
+  /**
+   * Frees the current model, if there is one.
+   */
+  void FreeModel();
+
   /**
    * The svm model provided by the LIBSVM library.
    */
diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..29a31a0 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -28,9 +28,11 @@ namespace Visqol {
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
 SupportVectorRegressionModel::SupportVectorRegressionModel()
-    : observations_ptr_{nullptr}, num_observations_{0} {}
+    : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
-SupportVectorRegressionModel::~SupportVectorRegressionModel() {
+SupportVectorRegressionModel::~SupportVectorRegressionModel() { FreeModel(); }
+
+void SupportVectorRegressionModel::FreeModel() {
   if (model_) {
     svm_free_model_content(model_);
     svm_free_and_destroy_model(&model_);
@@ -39,12 +41,16 @@ SupportVectorRegressionModel::~SupportVectorRegressionModel() {
       free(observations_ptr_[i]);
     }
     free(observations_ptr_);
+    model_ = nullptr;
+    observations_ptr_ = nullptr;
+    num_observations_ = 0;
   }
 }
 
 void SupportVectorRegressionModel::Init(
     const std::vector<MlObservation>& observations,
     const std::vector<MlTarget>& targets) {
+  FreeModel();
   // Assumes all observations have same number of features
   size_t num_features = observations[0].size();
 
@@ -98,6 +104,7 @@ double SupportVectorRegressionModel::Predict(
 
 absl::Status SupportVectorRegressionModel::Init(const FilePath& model_path) {
   absl::MutexLock lock(&load_model_mutex_);
+  FreeModel();
   model_ = svm_load_model(model_path.Path().c_str());
 
   if (model_ == nullptr) {
-- 
2.43.0


From aa4d76191a9a523cf938b6456616f2e669c02dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:59 +0000
Subject: [PATCH 14/22] fix: refuse an SVR model file that ends early

---
 src/support_vector_regression_model.cc | 28 +++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index 29a31a0..2d4c9f0 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -14,6 +14,9 @@
 
 #include "support_vector_regression_model.h"
 
+#include <cstdlib>
+#include <fstream>
+#include <string>
 #include <vector>
 
 #include "absl/status/status.h"
@@ -24,6 +27,27 @@
 #include "svm.h"
 
 namespace Visqol {
+namespace {
+// LIBSVM loads a file that ends before its last support vector as if it were
+// whole, so check that all of the declared support vectors are there.
+bool IsCompleteModelFile(const FilePath& model_path) {
+  std::ifstream file(model_path.Path());
+  const std::string count_key = "total_sv ";
+  std::string line;
+  size_t declared = 0;
+  while (std::getline(file, line) && line.compare(0, 2, "SV") != 0) {
+    if (line.compare(0, count_key.size(), count_key) == 0) {
+      declared = std::strtoul(line.c_str() + count_key.size(), nullptr, 10);
+    }
+  }
+  size_t present = 0;
+  // A line that is not terminated was cut short.
+  while (std::getline(file, line) && !file.eof()) {
+    ++present;
+  }
+  return !file.bad() && declared > 0 && present >= declared;
+}
+}  // namespace
 
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
@@ -105,7 +129,9 @@ double SupportVectorRegressionModel::Predict(
 absl::Status SupportVectorRegressionModel::Init(const FilePath& model_path) {
   absl::MutexLock lock(&load_model_mutex_);
   FreeModel();
-  model_ = svm_load_model(model_path.Path().c_str());
+  if (IsCompleteModelFile(model_path)) {
+    model_ = svm_load_model(model_path.Path().c_str());
+  }
 
   if (model_ == nullptr) {
     return absl::InvalidArgumentError(
-- 
2.43.0


From 2186ebbdf325fa433378fbd72244157cc4136c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 15/22] fix: never score from a TFLite model that has no
 signature or fails to run

---
 src/tflite_quality_mapper.cc | 13 ++++++++++++-
 src/visqol.cc                |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/tflite_quality_mapper.cc b/src/tflite_quality_mapper.cc
index 83059b6..089b9ea 100644
--- a/src/tflite_quality_mapper.cc
+++ b/src/tflite_quality_mapper.cc
@@ -15,6 +15,8 @@
  */
 #include "tflite_quality_mapper.h"
 
+#include <limits>
+
 #include "absl/base/internal/raw_logging.h"
 #include "tensorflow/lite/c/c_api_types.h"
 #include "tensorflow/lite/delegates/xnnpack/xnnpack_delegate.h"
@@ -74,6 +76,11 @@ absl::Status TFLiteQualityMapper::Init() {
     return absl::UnknownError("Fatal error when setting XNNPack delegate.");
   }
 
+  if (interpreter_->GetSignatureRunner("predict") == nullptr) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("No predict signature in TFLite model: ", model_path_));
+  }
+
   return absl::Status();
 }
 
@@ -103,7 +110,11 @@ double TFLiteQualityMapper::PredictQuality(
   input_tensor = predict_runner->input_tensor("tau");
   *input_tensor->data.f = 0.5;
 
-  predict_runner->Invoke();
+  if (predict_runner->Invoke() != kTfLiteOk) {
+    // The output tensor still holds the previous prediction.
+    ABSL_RAW_LOG(ERROR, "Error when running the TFLite model.");
+    return std::numeric_limits<double>::quiet_NaN();
+  }
   const TfLiteTensor* output_tensor =
       predict_runner->output_tensor("predictions");
   return *output_tensor->data.f;
diff --git a/src/visqol.cc b/src/visqol.cc
index b42854a..4b8957d 100644
--- a/src/visqol.cc
+++ b/src/visqol.cc
@@ -111,6 +111,9 @@ absl::StatusOr<SimilarityResult> Visqol::CalculateSimilarity(
       CalcPerPatchMeanFreqBandDegradedEnergy(sim_match_info);
   double moslqo =
       PredictMos(fvnsim, fvnsim10, fstdnsim, fvdegenergy, sim_to_qual_mapper);
+  if (std::isnan(moslqo)) {
+    return absl::InternalError("The quality mapper could not predict a score.");
+  }
 
   // calc vnsim
   double sum = 0;
-- 
2.43.0


From 1ec72880bf471cb5b1a4d70fb5a098b608696fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 16/22] fix: report SVR training data that could not be read

---
 src/svr_training/training_data_file_reader.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/svr_training/training_data_file_reader.cc b/src/svr_training/training_data_file_reader.cc
index 7d292ef..ef3fd85 100644
--- a/src/svr_training/training_data_file_reader.cc
+++ b/src/svr_training/training_data_file_reader.cc
@@ -29,6 +29,10 @@ std::vector<std::vector<double>> TrainingDataFileReader::Read(
   std::ifstream fin(data_filepath.Path());
   std::string item, line;
   double parsed_double;
+  if (!fin) {
+    ABSL_RAW_LOG(ERROR, "Could not open SVR training data file %s.",
+                 data_filepath.Path().c_str());
+  }
   while (getline(fin, line)) {
     std::istringstream in(line);
 
@@ -44,6 +48,10 @@ std::vector<std::vector<double>> TrainingDataFileReader::Read(
     values.push_back(value_line);
     value_line.clear();
   }
+  if (fin.bad()) {
+    ABSL_RAW_LOG(ERROR, "Error reading SVR training data file %s after %zu rows.",
+                 data_filepath.Path().c_str(), values.size());
+  }
   fin.close();
   return values;
 }
-- 
2.43.0


From c87dda08cd8898516a34d71fcbc037af3e903e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 17/22] fix: say why a comparison that was asked for is not run

---
 src/commandline_parser.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 75237b9..b61c718 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -223,6 +223,9 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
                    batch_input_path.Path().c_str(), file_paths.size());
     }
     fin.close();
+  } else {
+    ABSL_RAW_LOG(ERROR, "Could not open batch file %s.",
+                 batch_input_path.Path().c_str());
   }
 
   return file_paths;
@@ -241,8 +244,8 @@ VisqolCommandLineParser::BuildFilePairPaths(const CommandLineArgs& cmd_res) {
   std::vector<ReferenceDegradedPathPair> pairs;
   if (!cmd_res.batch_input_csv.Path().empty()) {
     pairs = ReadFilesToCompare(cmd_res.batch_input_csv);
-  } else if (cmd_res.reference_signal_path.Exists() &&
-             cmd_res.degraded_signal_path.Exists()) {
+  } else if (FileExists(cmd_res.reference_signal_path) &&
+             FileExists(cmd_res.degraded_signal_path)) {
     pairs.push_back(
         {cmd_res.reference_signal_path, cmd_res.degraded_signal_path});
   }
-- 
2.43.0


From f3a87f373fce1986185f3970f5e0da86394340e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 18/22] fix: keep appending results to outputs that cannot seek

---
 src/include/sim_results_writer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/sim_results_writer.h b/src/include/sim_results_writer.h
index fc12334..83aa4c8 100644
--- a/src/include/sim_results_writer.h
+++ b/src/include/sim_results_writer.h
@@ -17,11 +17,13 @@
 #ifndef VISQOL_INCLUDE_SIMRESULTSWRITER_H
 #define VISQOL_INCLUDE_SIMRESULTSWRITER_H
 
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
 #include <sstream>
 #include <string>
+#include <system_error>
 
 #include "absl/base/internal/raw_logging.h"
 #include "conformance.h"
@@ -216,8 +218,9 @@ class SimilarityResultsWriter {
     std::ofstream out_file;
     out_file.open(csv_res_path.Path(), std::ios_base::app);
     // If this file is new or still empty, we need to write the header.
+    std::error_code error;
     const bool write_header =
-        out_file && out_file.seekp(0, std::ios_base::end).tellp() == 0;
+        std::filesystem::file_size(csv_res_path.Path(), error) == 0;
 
     if (write_header) {
       out_file << "reference,degraded";
-- 
2.43.0


From 18a1482cc87d6bc67956e8ba7de627fc2ce507b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 19/22] fix: destroy the TFLite interpreter before its delegate

---
 src/include/tflite_quality_mapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/tflite_quality_mapper.h b/src/include/tflite_quality_mapper.h
index c27ed31..d031cd2 100644
--- a/src/include/tflite_quality_mapper.h
+++ b/src/include/tflite_quality_mapper.h
@@ -46,10 +46,11 @@ class TFLiteQualityMapper : public SimilarityToQualityMapper {
  private:
   const std::string model_path_;
   const int num_frequency_bands_;
+  // The model and the delegate must outlive the interpreter that uses them.
   std::unique_ptr<tflite::FlatBufferModel> model_;
-  std::unique_ptr<tflite::Interpreter> interpreter_;
   std::unique_ptr<TfLiteDelegate, std::function<void(TfLiteDelegate*)>>
       delegate_;
+  std::unique_ptr<tflite::Interpreter> interpreter_;
 };
 
 }  // namespace Visqol
-- 
2.43.0


From 63edd108facbb891f1fc1f3cc6a3c617b7e6cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:15 +0000
Subject: [PATCH 20/22] fix: do not align a degraded signal that is shorter
 than the lag

---
 src/alignment.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..34f6904 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -70,10 +70,12 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   int64_t best_lag =
       XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
 
-  // Limit the lag to half a patch.
+  // Limit the lag to half a patch. A lag that would drop the whole degraded
+  // signal cannot be used either.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From a8ea48c688527c10b72280032ce4d38eec9797cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 21/22] fix: report FFT and SVR buffers that cannot be
 allocated instead of crashing

---
 src/fft_manager.cc                         | 10 +++++--
 src/include/audio_channel.h                |  4 +++
 src/libsvm_target_observation_convertor.cc | 32 ++++++++++++++++++----
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/fft_manager.cc b/src/fft_manager.cc
index e0fa4aa..29b2b1a 100644
--- a/src/fft_manager.cc
+++ b/src/fft_manager.cc
@@ -17,6 +17,7 @@
 #include <assert.h>
 
 #include <algorithm>
+#include <new>
 
 #include "misc_math.h"
 
@@ -35,16 +36,19 @@ FftManager::FftManager(size_t samples_per_channel)
           std::max(MiscMath::NextPowTwo(samples_per_channel), kMinFftSize)),
       samples_per_channel_(samples_per_channel),
       inverse_fft_scale_(1.0f / static_cast<float>(fft_size_)) {
+  time_channel_.Init(samples_per_channel_);
+  freq_channel_.Init(fft_size_);
+
   if (fft_size_ > kPffftMaxStackSize) {
     // Allocate memory for work space factors etc, Size reccomended by pffft.
     const size_t num_bytes = 2 * fft_size_ * sizeof(float);
     pffft_workspace_ =
         reinterpret_cast<float*>(pffft_aligned_malloc(num_bytes));
+    if (pffft_workspace_ == nullptr) {
+      throw std::bad_alloc();
+    }
   }
 
-  time_channel_.Init(samples_per_channel_);
-  freq_channel_.Init(fft_size_);
-
   fft_ = pffft_new_setup(static_cast<int>(fft_size_), PFFFT_REAL);
 }
 
diff --git a/src/include/audio_channel.h b/src/include/audio_channel.h
index 1d68210..cdc7462 100644
--- a/src/include/audio_channel.h
+++ b/src/include/audio_channel.h
@@ -18,6 +18,7 @@
 #define VISQOL_INCLUDE_AUDIO_CHANNEL_H
 
 #include <cstring>
+#include <new>
 #include <vector>
 
 #include "pffft.h"
@@ -43,6 +44,9 @@ class AudioChannel {
     size_ = size;
     size_t n_bytes = sizeof(float) * size_;
     alligned_buffer_ = reinterpret_cast<float*>(pffft_aligned_malloc(n_bytes));
+    if (alligned_buffer_ == nullptr) {
+      throw std::bad_alloc();
+    }
     begin_itr_ = alligned_buffer_;
   }
 
diff --git a/src/libsvm_target_observation_convertor.cc b/src/libsvm_target_observation_convertor.cc
index 5e7465c..1983ed9 100644
--- a/src/libsvm_target_observation_convertor.cc
+++ b/src/libsvm_target_observation_convertor.cc
@@ -16,18 +16,42 @@
 
 #include <stdlib.h>
 
+#include <new>
 #include <vector>
 
 #include "svm.h"
 
 namespace Visqol {
+namespace {
+svm_node* AllocateNodes(size_t num_features) {
+  // +1 for the node that ends the list.
+  svm_node* nodes = reinterpret_cast<svm_node*>(
+      malloc(sizeof(svm_node) * (num_features + 1)));
+  if (nodes == nullptr) {
+    throw std::bad_alloc();
+  }
+  return nodes;
+}
+}  // namespace
+
 svm_node** LibSvmTargetObservationConvertor::ConvertObservations(
     const std::vector<MlObservation>& observations, size_t num_features) const {
   svm_node** svm_observations = reinterpret_cast<svm_node**>(
       malloc(sizeof(svm_node*) * observations.size()));
+  if (svm_observations == nullptr) {
+    throw std::bad_alloc();
+  }
   for (size_t row_i = 0; row_i < observations.size(); row_i++) {
-    svm_node* row = reinterpret_cast<svm_node*>(
-        malloc(sizeof(svm_node) * (num_features + 1)));
+    svm_node* row;
+    try {
+      row = AllocateNodes(num_features);
+    } catch (const std::bad_alloc&) {
+      while (row_i > 0) {
+        free(svm_observations[--row_i]);
+      }
+      free(svm_observations);
+      throw;
+    }
     for (size_t col_i = 0; col_i < num_features; col_i++) {
       row[col_i].index = col_i + 1;
       row[col_i].value = observations[row_i][col_i];
@@ -41,9 +65,7 @@ svm_node** LibSvmTargetObservationConvertor::ConvertObservations(
 svm_node* LibSvmTargetObservationConvertor::ConvertObservation(
     const MlObservation& observation) const {
   size_t num_features = observation.size();
-  // +1 to avoid accessing out-of-bounds index below
-  svm_node* obs_node = reinterpret_cast<svm_node*>(
-      malloc(sizeof(svm_node) * (num_features + 1)));
+  svm_node* obs_node = AllocateNodes(num_features);
   for (size_t row_i = 0; row_i < num_features; row_i++) {
     // Follow the format described in the libsvm FAQ and README:
     // The indices are 1-indexed.
-- 
2.43.0


From 25aadb45858b21e4599d90903260a1b88d82eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 22/22] fix: skip the pad byte of odd-sized chunks in WAV
 headers

---
 src/wav_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 5825eb3..b2e140c 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -196,7 +196,9 @@ bool WavReader::ParseHeader() {
       return false;
     }
 
-    binary_stream_->seekg(header.data.header.size, std::ios::cur);
+    // Chunks start at even offsets: one of odd size is followed by a pad byte.
+    const int64_t chunk_size = header.data.header.size;
+    binary_stream_->seekg(chunk_size + chunk_size % 2, std::ios::cur);
 
     if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
         sizeof(header.data)) {
-- 
2.43.0


From 40a5b1c8ceeb230d4b349c5463ac7060ba416458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 01/19] fix: matrices with different column counts compare
 unequal

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index 5697821..bc8f9bd 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -125,7 +125,7 @@ inline AMatrix<T>& AMatrix<T>::operator=(const AMatrix<T>& other) {
 template <typename T>
 inline bool AMatrix<T>::operator==(const AMatrix<T>& other) const {
   if (matrix_.n_rows != other.matrix_.n_rows) return false;
-  if (matrix_.n_cols != other.matrix_.n_cols) return true;
+  if (matrix_.n_cols != other.matrix_.n_cols) return false;
   return std::equal(matrix_.cbegin(), matrix_.cend(), other.matrix_.cbegin());
   // Why doesn't == work when documentation says it does? matrix_ ==
   // other.matrix_;
-- 
2.43.0


From 8dfb8d534ffdcc294f617016fa3b91caf4394a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:57 +0000
Subject: [PATCH 02/19] fix: a matrix made from a temporary vector owns its
 elements

---
 src/amatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/amatrix.cc b/src/amatrix.cc
index bc8f9bd..8754efc 100644
--- a/src/amatrix.cc
+++ b/src/amatrix.cc
@@ -62,7 +62,7 @@ inline AMatrix<T>::AMatrix(const std::vector<std::vector<T>>& vecOfCols) {
 
 template <typename T>
 inline AMatrix<T>::AMatrix(size_t rows, size_t cols, std::vector<T>&& data) {
-  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols, false);
+  matrix_ = arma::Mat<T>(&data[0], (arma::uword)rows, (arma::uword)cols);
 }
 
 template <typename T>
-- 
2.43.0


From 4ad2ed74fba98e72fc5ee30f174644e3b3fe39b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 03/19] fix: skip the padding byte of odd-sized WAV chunks

---
 src/wav_reader.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 1d1b36c..43d652e 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -187,16 +187,20 @@ bool WavReader::ParseHeader() {
     return false;
   }
   while (std::string(header.data.header.id, 4) != "data") {
+    // Chunks of an odd size are followed by a padding byte.
+    const int64_t padded_size =
+        static_cast<int64_t>(header.data.header.size) +
+        (header.data.header.size & 1);
     if (!binary_stream_->good() ||
-        (static_cast<int64_t>(binary_stream_->tellg()) +
-         static_cast<int64_t>(header.data.header.size)) > bytes_in_stream_) {
+        (static_cast<int64_t>(binary_stream_->tellg()) + padded_size) >
+            bytes_in_stream_) {
       ABSL_RAW_LOG(ERROR,
                    "Error parsing WAV Header - Could not find data chunk"
                    " in WAV file header.");
       return false;
     }
 
-    binary_stream_->seekg(header.data.header.size, std::ios::cur);
+    binary_stream_->seekg(padded_size, std::ios::cur);
 
     if (ReadBinaryDataFromStream(&header.data, sizeof(header.data)) !=
         sizeof(header.data)) {
-- 
2.43.0


From 150c7719335f072ba902e730a9a57f00ec946e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 04/19] fix: reject WAV files whose samples are not exactly 16
 bits

---
 src/wav_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index 43d652e..adebae4 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -173,7 +173,7 @@ bool WavReader::ParseHeader() {
   sample_rate_hz_ = header.format.samples_rate;
 
   bytes_per_sample_ = header.format.bits_per_sample / 8;
-  if (bytes_per_sample_ == 0 || bytes_per_sample_ != sizeof(int16_t)) {
+  if (header.format.bits_per_sample != 8 * sizeof(int16_t)) {
     ABSL_RAW_LOG(ERROR, "Error parsing WAV Header - Expected 16bit samples.");
     return false;
   }
-- 
2.43.0


From 71a693a2e9b8714fb8402f1f651fdf07373f6832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:18 +0000
Subject: [PATCH 05/19] fix: never read more WAV samples than the header
 declares

---
 src/wav_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wav_reader.cc b/src/wav_reader.cc
index adebae4..f36ce89 100644
--- a/src/wav_reader.cc
+++ b/src/wav_reader.cc
@@ -243,7 +243,8 @@ size_t WavReader::ReadSamples(size_t num_samples, int16_t* target_buffer) {
     return 0;
   }
   const size_t num_bytes_read =
-      ReadBinaryDataFromStream(target_buffer, num_samples * sizeof(int16_t));
+      ReadBinaryDataFromStream(target_buffer,
+                               num_samples_to_read * sizeof(int16_t));
   const size_t num_samples_read = num_bytes_read / bytes_per_sample_;
 
   num_remaining_samples_ -= num_samples_read;
-- 
2.43.0


From 3aaef9306122703cc22ebc4d4df70ce6843df34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:28 +0000
Subject: [PATCH 06/19] fix: skip batch lines that do not name two files
 instead of crashing

---
 src/commandline_parser.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/commandline_parser.cc b/src/commandline_parser.cc
index 9daa875..eb437cf 100644
--- a/src/commandline_parser.cc
+++ b/src/commandline_parser.cc
@@ -200,7 +200,7 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
     while (getline(fin, line)) {
       // getline will read up to \n, so in cases where the line ending is \r\n,
       // we need to manually strip the \r.
-      if (line.back() == '\r') {
+      if (!line.empty() && line.back() == '\r') {
         line.pop_back();
       }
       std::istringstream in(line);
@@ -208,7 +208,9 @@ VisqolCommandLineParser::ReadFilesToCompare(const FilePath& batch_input_path) {
       while (std::getline(in, item, delimiter)) {
         line_file_paths.push_back(FilePath(item));
       }
-      file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      if (line_file_paths.size() >= 2) {
+        file_paths.push_back({line_file_paths[0], line_file_paths[1]});
+      }
       line_file_paths.clear();
     }
     fin.close();
-- 
2.43.0


From 4ad67a8dc4bdecbd1db91c02fab2028612313945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 07/19] fix: no patches, or only patches far past the end, is
 an error and not an out-of-range read

---
 src/comparison_patches_selector.cc | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 5b5e5f0..1b633d0 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -119,13 +119,11 @@ size_t ComparisonPatchesSelector::CalcMaxNumPatches(
     size_t num_frames_in_deg_spectro, size_t num_frames_per_patch) const {
   size_t num_patches = ref_patch_indices.size();
 
-  if (num_patches) {
-    // The last patch can start up to half a patch away.
-    while (ref_patch_indices[num_patches - 1] -
-               floor(num_frames_per_patch / 2) >
-           num_frames_in_deg_spectro) {
-      num_patches--;
-    }
+  // The last patch can start up to half a patch away.
+  while (num_patches && ref_patch_indices[num_patches - 1] -
+                                floor(num_frames_per_patch / 2) >
+                            num_frames_in_deg_spectro) {
+    num_patches--;
   }
 
   return num_patches;
@@ -137,7 +135,8 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
     const std::vector<size_t>& ref_patch_indices,
     const AMatrix<double>& spectrogram_data, const double frame_duration,
     const int search_window_radius) const {
-  const size_t num_frames_per_patch = ref_patches[0].NumCols();
+  const size_t num_frames_per_patch =
+      ref_patches.empty() ? 0 : ref_patches[0].NumCols();
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
   const int search_window = search_window_radius * num_frames_per_patch;
-- 
2.43.0


From 734e6c1df096d25ae759470236c0c46e2b4c9dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 08/19] fix: frames outside a patch's search window are never
 matched to it

---
 src/comparison_patches_selector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 1b633d0..9e8efc0 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -160,7 +160,8 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   std::vector<PatchSimilarityResult> bestDegPatches(num_patches);
   std::vector<std::vector<double>> cumulative_similarity_dp(
       ref_patch_indices.size(),
-      std::vector<double>(spectrogram_data.NumCols()));
+      std::vector<double>(spectrogram_data.NumCols(),
+                          std::numeric_limits<double>::lowest()));
   std::vector<std::vector<int>> backtrace(
       ref_patch_indices.size(), std::vector<int>(spectrogram_data.NumCols()));
   std::vector<ImagePatch> deg_patches(spectrogram_data.NumCols());
-- 
2.43.0


From f7a9d9c9db04bba47af8dbf14bf41f4a9cd3eb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 09/19] fix: drop patches whose search window holds no frame

---
 src/comparison_patches_selector.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 9e8efc0..3fb1ea0 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -140,8 +140,17 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   const size_t num_frames_in_deg_spectro = spectrogram_data.NumCols();
   const double patch_duration = frame_duration * num_frames_per_patch;
   const int search_window = search_window_radius * num_frames_per_patch;
-  const size_t num_patches = CalcMaxNumPatches(
+  if (search_window < 0) {
+    return absl::Status(absl::StatusCode::kInvalidArgument,
+                        "The search window radius must not be negative.");
+  }
+  size_t num_patches = CalcMaxNumPatches(
       ref_patch_indices, num_frames_in_deg_spectro, num_frames_per_patch);
+  // A patch whose search window starts past the end cannot be matched either.
+  while (num_patches && ref_patch_indices[num_patches - 1] >=
+                            num_frames_in_deg_spectro + search_window) {
+    num_patches--;
+  }
 
   if (!num_patches) {
     return absl::Status(
@@ -185,7 +194,7 @@ ComparisonPatchesSelector::FindMostOptimalDegPatches(
   int last_index = num_patches - 1;
   // The last_offset stores the offset at which the last reference patch got the
   // maximal similarity score over all the reference patches.
-  int last_offset;
+  int last_offset = 0;
   int lower_limit = std::max(
       0, static_cast<int>(ref_patch_indices[last_index] - search_window));
   // The for loop is used to find the offset which maximizes the similarity
-- 
2.43.0


From c8381378e9dc23d549a708e5520335361ef13ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 10/19] fix: a segment that reaches past the signal keeps its
 last sample and ends in silence

---
 src/comparison_patches_selector.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/comparison_patches_selector.cc b/src/comparison_patches_selector.cc
index 3fb1ea0..e5fba9a 100644
--- a/src/comparison_patches_selector.cc
+++ b/src/comparison_patches_selector.cc
@@ -283,8 +283,8 @@ AudioSignal ComparisonPatchesSelector::Slice(const AudioSignal& in_signal,
                                              double start_time,
                                              double end_time) {
   int start_index = std::max(0, (int)(start_time * in_signal.sample_rate));
-  // The end_index is inclusive for GetRows().
-  int end_index = std::min((int)(in_signal.data_matrix.NumRows() - 1),
+  // The end_index is the first row after the slice.
+  int end_index = std::min((int)in_signal.data_matrix.NumRows(),
                            (int)(end_time * in_signal.sample_rate));
 
   // Note that the underlying armadillo rows() uses an unconventional inclusive
@@ -296,7 +296,7 @@ AudioSignal ComparisonPatchesSelector::Slice(const AudioSignal& in_signal,
       end_time * in_signal.sample_rate - in_signal.data_matrix.NumRows();
   if (end_time_diff > 0) {
     auto postsilence_matrix = AMatrix<double>::Filled(end_time_diff, 1, 0.0);
-    sliced_matrix = postsilence_matrix.JoinVertically(sliced_matrix);
+    sliced_matrix = sliced_matrix.JoinVertically(postsilence_matrix);
   }
   if (start_time < 0) {
     auto presilence_matrix = AMatrix<double>::Filled(
-- 
2.43.0


From fb899ef23aa237640eac0828eaf831b447107b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:01 +0000
Subject: [PATCH 11/19] fix: a support vector model that was never initialised
 has no model to free

---
 src/support_vector_regression_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/support_vector_regression_model.cc b/src/support_vector_regression_model.cc
index aba8435..b1ae265 100644
--- a/src/support_vector_regression_model.cc
+++ b/src/support_vector_regression_model.cc
@@ -28,7 +28,7 @@ namespace Visqol {
 absl::Mutex SupportVectorRegressionModel::load_model_mutex_{};
 
 SupportVectorRegressionModel::SupportVectorRegressionModel()
-    : observations_ptr_{nullptr}, num_observations_{0} {}
+    : model_{nullptr}, observations_ptr_{nullptr}, num_observations_{0} {}
 
 SupportVectorRegressionModel::~SupportVectorRegressionModel() {
   if (model_) {
-- 
2.43.0


From 5a4715bf985f76197fc81a4d9d0cf59663d2ebe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:28 +0000
Subject: [PATCH 12/19] fix: reject a speech reference too short for a single
 patch

---
 src/vad_patch_creator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vad_patch_creator.cc b/src/vad_patch_creator.cc
index 2f8ba5f..0a37e9d 100644
--- a/src/vad_patch_creator.cc
+++ b/src/vad_patch_creator.cc
@@ -18,7 +18,9 @@
 #include <numeric>
 #include <vector>
 
+#include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/str_cat.h"
 #include "amatrix.h"
 #include "analysis_window.h"
 #include "audio_signal.h"
@@ -63,6 +65,13 @@ absl::StatusOr<std::vector<size_t>> VadPatchCreator::CreateRefPatchIndices(
   const size_t patch_sample_len = patch_size_ * frame_size;
   const size_t spectrum_length = spectrogram.NumCols();
   const size_t first_patch_idx = patch_size_ / 2 - 1;
+  // Ensure that the spectrum can support at least a single patch.
+  if (spectrum_length < first_patch_idx + patch_size_) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Reference spectrum size (", spectrum_length,
+                     ") smaller than minimum patch size (",
+                     first_patch_idx + patch_size_, ")."));
+  }
   const size_t patch_count = (spectrum_length - first_patch_idx) / patch_size_;
   const size_t total_sample_count = patch_count * patch_sample_len;
   std::vector<size_t> refPatchIndices;
-- 
2.43.0


From bd288f7492402e87a0e0e11e775ddc7fa46785b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 13/19] fix: negative lags of signals of up to eight samples
 were never found

---
 src/xcorr.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xcorr.cc b/src/xcorr.cc
index f6745cd..5a7aea1 100644
--- a/src/xcorr.cc
+++ b/src/xcorr.cc
@@ -73,7 +73,10 @@ std::vector<double> XCorr::InverseFFTPointwiseProduct(
   // Calculate how many points in FFT (next ^2 elements)
   int exponent;
   frexp(std::abs((int64_t)signal_1_vec.size() * 2 - 1), &exponent);
-  const size_t fft_points = pow(2, exponent);
+  // No fewer than the smallest transform, so that the end of its result (the
+  // negative lags) is not cut off.
+  const size_t fft_points =
+      std::max(static_cast<size_t>(pow(2, exponent)), FftManager::kMinFftSize);
 
   // Calculate the pointwise product of the forward fft of both signals.
   auto fft_manager = std::make_unique<FftManager>(fft_points);
-- 
2.43.0


From 2ace9b07c1c06da2ad603ab97e400ebd0582ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:24 +0000
Subject: [PATCH 14/19] fix: align-and-truncate failed on a degraded signal
 that stays longer after a negative lag, and alignment on a lag that removes
 all of it

---
 src/alignment.cc | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index 388d236..7425753 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -43,14 +43,17 @@ std::tuple<AudioSignal, AudioSignal, double> Alignment::AlignAndTruncate(
         reference_matrix.GetRows(0, degraded_matrix.NumRows() - 1);
   } else if (reference_matrix.NumRows() < degraded_matrix.NumRows()) {
     // For positive lag, the beginning of ref is now aligned with zeros, so
-    // that amount should be truncated.
-    new_reference_matrix = reference_matrix.GetRows(
-        static_cast<int>(lag * reference_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    // that amount should be truncated. For negative or no lag, nothing was
+    // prepended and the starts are already aligned.
+    const size_t original_rows = degraded_signal.data_matrix.NumRows();
+    const size_t num_zeros = degraded_matrix.NumRows() > original_rows
+                                 ? degraded_matrix.NumRows() - original_rows
+                                 : 0;
+    new_reference_matrix =
+        reference_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
     // Truncate the zeros off the deg matrix as well.
-    new_degraded_matrix = degraded_matrix.GetRows(
-        static_cast<int>(lag * degraded_signal.sample_rate),
-        reference_matrix.NumRows() - 1);
+    new_degraded_matrix =
+        degraded_matrix.GetRows(num_zeros, reference_matrix.NumRows() - 1);
   }
 
   AudioSignal new_degraded_signal{new_degraded_matrix,
@@ -70,10 +73,11 @@ std::tuple<AudioSignal, double> Alignment::GloballyAlign(
   int64_t best_lag =
       XCorr::FindLowestLagIndex(reference_upper_env, degraded_upper_env);
 
-  // Limit the lag to half a patch.
+  // Limit the lag to half a patch, and never remove the whole degraded signal.
   if (best_lag == 0 ||
       std::abs(best_lag) >
-          static_cast<double>(reference_matrix.NumRows()) / 2.0) {
+          static_cast<double>(reference_matrix.NumRows()) / 2.0 ||
+      -best_lag >= static_cast<int64_t>(degraded_matrix.NumRows())) {
     return std::make_tuple(degraded_signal, 0);
   } else {
     // align degraded matrix
-- 
2.43.0


From dd980de8fcf6acf8d7628162cedc5045aa7ffa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:49 +0000
Subject: [PATCH 15/19] fix: a sample rate too low for a hop of one sample
 divided by zero

---
 src/gammatone_spectrogram_builder.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/gammatone_spectrogram_builder.cc b/src/gammatone_spectrogram_builder.cc
index 6314f8e..3878abf 100644
--- a/src/gammatone_spectrogram_builder.cc
+++ b/src/gammatone_spectrogram_builder.cc
@@ -62,6 +62,12 @@ absl::StatusOr<Spectrogram> GammatoneSpectrogramBuilder::Build(
                      ") in signal to  build spectrogram (", window.size,
                      " required minimum)."));
   }
+  // Ensure that consecutive windows are at least one sample apart.
+  if (hop_size == 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("The sample rate (", sample_rate,
+                     ") is too low to build a spectrogram."));
+  }
   size_t num_cols = 1 + floor((sig.NumRows() - window.size) / hop_size);
   AMatrix<double> out_matrix(filter_bank_.GetNumBands(), num_cols);
 
-- 
2.43.0


From cf6d6152b5959f147d1bac8ae032edd6473153c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 16/19] fix: the sample rate of a signal that could not be
 loaded was uninitialised

---
 src/include/audio_signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/audio_signal.h b/src/include/audio_signal.h
index aafec49..a3c86d1 100644
--- a/src/include/audio_signal.h
+++ b/src/include/audio_signal.h
@@ -34,7 +34,7 @@ struct AudioSignal {
   /**
    * The sample rate of the audio signal.
    */
-  size_t sample_rate;
+  size_t sample_rate = 0;
 
   /**
    * Get the duration (in seconds) of the signal.
-- 
2.43.0


From 801436cd2d7255778f011ad26728180196d8a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 17/19] fix: two signals without samples (files that could not
 be loaded) crashed the alignment

---
 src/visqol_manager.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 08627b1..4ed07c8 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -239,6 +239,13 @@ absl::Status VisqolManager::ErrorIfNotInitialized() {
 
 absl::Status VisqolManager::ValidateInputAudio(const AudioSignal& ref_signal,
                                                const AudioSignal& deg_signal) {
+  // Error if there is nothing to compare, e.g. if a file could not be loaded.
+  if (ref_signal.data_matrix.NumElements() == 0 ||
+      deg_signal.data_matrix.NumElements() == 0) {
+    return absl::InvalidArgumentError(
+        "The reference and degraded signals must both contain samples.");
+  }
+
   // Warn if there is an excessive difference in durations.
   double ref_duration = ref_signal.GetDuration();
   double deg_duration = deg_signal.GetDuration();
-- 
2.43.0


From cf7585188fe0ff7f9b52565fe3cf8dfb382bd1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:51 +0000
Subject: [PATCH 18/19] fix: an engine whose re-initialisation failed still
 counted as initialised

---
 src/visqol_manager.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/visqol_manager.cc b/src/visqol_manager.cc
index 4ed07c8..99881f7 100644
--- a/src/visqol_manager.cc
+++ b/src/visqol_manager.cc
@@ -66,9 +66,8 @@ absl::Status VisqolManager::Init(
   auto status =
       InitSimilarityToQualityMapper(similarity_to_quality_mapper_model);
 
-  if (status.ok()) {
-    is_initialized_ = true;
-  } else {
+  is_initialized_ = status.ok();
+  if (!status.ok()) {
     ABSL_RAW_LOG(ERROR, "%s", status.ToString().c_str());
   }
 
-- 
2.43.0


From 2e5ce1d7eac0a00fd7f4802933574d54e5b251bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:42 +0000
Subject: [PATCH 19/19] fix: a comma or quote in a file's name shifted the
 fields of its row in the results table

---
 src/include/sim_results_writer.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/include/sim_results_writer.h b/src/include/sim_results_writer.h
index c2b7307..28e39d3 100644
--- a/src/include/sim_results_writer.h
+++ b/src/include/sim_results_writer.h
@@ -193,6 +193,28 @@ class SimilarityResultsWriter {
     }
   }
 
+  /**
+   * Format a text as a field of a CSV file, quoting it if it contains
+   * characters that have a meaning in the file.
+   *
+   * @param text The text of the field.
+   *
+   * @return The text to write to the CSV file.
+   */
+  static std::string FormatCSVField(const std::string& text) {
+    if (text.find_first_of(",\"\r\n") == std::string::npos) {
+      return text;
+    }
+    std::string quoted = "\"";
+    for (const char c : text) {
+      if (c == '"') {
+        quoted += '"';
+      }
+      quoted += c;
+    }
+    return quoted + '"';
+  }
+
   /**
    * Write the reference and degraded filepath, along with the resulting
    * MOS-LQO from their comparison, to a CSV file.
@@ -243,8 +265,8 @@ class SimilarityResultsWriter {
       out_file << std::endl;
     }
 
-    out_file << sim_res_msg.reference_filepath() << ","
-             << sim_res_msg.degraded_filepath();
+    out_file << FormatCSVField(sim_res_msg.reference_filepath()) << ","
+             << FormatCSVField(sim_res_msg.degraded_filepath());
 
     if (output_moslqo) {
       out_file << "," << std::setprecision(9) << sim_res_msg.moslqo();
-- 
2.43.0


From 4e6ed743a192e1d4040165165ccb23ba31722440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:42 +0000
Subject: [PATCH 01/12] fix: a failing legacy BPM estimate no longer fails the
 whole analysis

---
 src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3dcbf84..8aa5450 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -312,7 +312,7 @@ pub fn analyze_audio(
                     config.max_bpm,
                     config.bpm_resolution,
                     guardrails,
-                )?
+                )
             } else {
                 estimate_bpm(
                     &onsets_for_legacy,
@@ -321,8 +321,12 @@ pub fn analyze_audio(
                     config.min_bpm,
                     config.max_bpm,
                     config.bpm_resolution,
-                )?
+                )
             }
+            .unwrap_or_else(|e| {
+                log::warn!("Legacy BPM estimation failed: {}", e);
+                None
+            })
         } else {
             None
         }
-- 
2.43.0


From 671195489d1e824ad2a91ff6e9645dd0869a47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:32:43 +0000
Subject: [PATCH 02/12] fix: a failing key segment is skipped instead of
 failing the whole analysis

---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8aa5450..9b497db 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1371,9 +1371,17 @@ pub fn analyze_audio(
                                     },
                                     config.enable_key_minor_harmonic_bonus,
                                     config.key_minor_leading_tone_bonus_weight,
-                                )?
+                                )
                             } else {
-                                detect_key_weighted(seg, &templates, wseg)?
+                                detect_key_weighted(seg, &templates, wseg)
+                            };
+                            let seg_res = match seg_res {
+                                Ok(r) => r,
+                                Err(e) => {
+                                    log::warn!("Segment key detection failed: {}", e);
+                                    start += hop;
+                                    continue;
+                                }
                             };
                             let seg_clarity = compute_key_clarity(&seg_res.all_scores);
                             if seg_clarity >= min_clarity {
-- 
2.43.0


From 69fcc9469fba87d6bdabf5c5b7348990b1efdbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:33 +0000
Subject: [PATCH 03/12] fix: rank and sort floating-point values with a total
 order, so NaN cannot panic or mislead a comparison

---
 src/features/beat_tracking/hmm.rs            |  2 +-
 src/features/beat_tracking/mod.rs            |  6 +++---
 src/features/beat_tracking/time_signature.rs |  2 +-
 src/features/chroma/extractor.rs             |  5 ++---
 src/features/chroma/smoothing.rs             |  2 +-
 src/features/key/detector.rs                 | 19 +++++++++----------
 src/features/key/key_clarity.rs              |  4 ++--
 src/features/onset/consensus.rs              |  3 +--
 src/features/onset/hfc.rs                    |  2 +-
 src/features/onset/hpss.rs                   |  6 +++---
 src/features/onset/spectral_flux.rs          |  2 +-
 src/features/onset/threshold.rs              |  6 +++---
 src/features/period/autocorrelation.rs       |  5 ++---
 src/features/period/candidate_filter.rs      |  3 +--
 src/features/period/comb_filter.rs           |  6 ++----
 src/features/period/mod.rs                   |  3 +--
 src/features/period/multi_resolution.rs      | 10 ++++------
 src/features/period/peak_picking.rs          |  4 ++--
 src/features/period/tempogram.rs             |  5 ++---
 src/features/period/tempogram_autocorr.rs    |  2 +-
 src/features/period/tempogram_fft.rs         |  2 +-
 src/lib.rs                                   |  6 +++---
 22 files changed, 47 insertions(+), 58 deletions(-)

diff --git a/src/features/beat_tracking/hmm.rs b/src/features/beat_tracking/hmm.rs
index d22c41a..0becd23 100644
--- a/src/features/beat_tracking/hmm.rs
+++ b/src/features/beat_tracking/hmm.rs
@@ -435,7 +435,7 @@ impl HmmBeatTracker {
         }
 
         // Sort by time (should already be sorted, but ensure it)
-        beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+        beats.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
 
         Ok(beats)
     }
diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index 533f7aa..fe70ae2 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -133,7 +133,7 @@ pub fn generate_beat_grid(
 
     // Ensure onsets are sorted
     let mut sorted_onsets = onsets.to_vec();
-    sorted_onsets.sort_by(|a, b| a.partial_cmp(b).unwrap());
+    sorted_onsets.sort_by(|a, b| a.total_cmp(b));
 
     // Step 1: Run HMM Viterbi beat tracking (initial beat sequence)
     let tracker = hmm::HmmBeatTracker::new(bpm_estimate, sorted_onsets.clone(), sample_rate);
@@ -209,7 +209,7 @@ pub fn generate_beat_grid(
 
         // If we got refined beats, use them; otherwise keep original
         if !refined_beats.is_empty() {
-            refined_beats.sort_by(|a, b| a.time_seconds.partial_cmp(&b.time_seconds).unwrap());
+            refined_beats.sort_by(|a, b| a.time_seconds.total_cmp(&b.time_seconds));
             beat_positions = refined_beats;
             log::debug!(
                 "Refined beats using Bayesian tracker: {} beats",
@@ -305,7 +305,7 @@ fn generate_beat_grid_from_positions_with_time_sig(
     let mut beats: Vec<f32> = beat_positions.iter().map(|bp| bp.time_seconds).collect();
 
     // Sort by time (should already be sorted, but ensure it)
-    beats.sort_by(|a, b| a.partial_cmp(b).unwrap());
+    beats.sort_by(|a, b| a.total_cmp(b));
 
     // Detect downbeats (beat 1 of each bar) using detected time signature
     let downbeats = detect_downbeats_with_time_sig(&beats, bpm_estimate, time_sig)?;
diff --git a/src/features/beat_tracking/time_signature.rs b/src/features/beat_tracking/time_signature.rs
index 8f45285..b275401 100644
--- a/src/features/beat_tracking/time_signature.rs
+++ b/src/features/beat_tracking/time_signature.rs
@@ -139,7 +139,7 @@ pub fn detect_time_signature(
     // Find best match
     let (best_sig, best_score) = scores
         .iter()
-        .max_by(|(_, a), (_, b)| a.partial_cmp(b).unwrap())
+        .max_by(|(_, a), (_, b)| a.total_cmp(b))
         .unwrap();
 
     // Normalize confidence to [0, 1]
diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 6c78568..12f50d3 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -28,7 +28,6 @@
 use crate::error::AnalysisError;
 use rustfft::num_complex::Complex;
 use rustfft::FftPlanner;
-use std::cmp::Ordering;
 
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
@@ -617,7 +616,7 @@ fn frame_to_hpcp_tuned_band(
     // Keep top-K peaks by magnitude.
     let k = peaks_per_frame.clamp(1, peaks.len());
     peaks.select_nth_unstable_by(k - 1, |a, b| {
-        b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
+        b.1.total_cmp(&a.1)
     });
     peaks.truncate(k);
 
@@ -1433,7 +1432,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
         }
         let mid = v.len() / 2;
         let (_, m, _) =
-            v.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+            v.select_nth_unstable_by(mid, |a, b| a.total_cmp(b));
         *m
     }
 
diff --git a/src/features/chroma/smoothing.rs b/src/features/chroma/smoothing.rs
index 2b082a0..4086083 100644
--- a/src/features/chroma/smoothing.rs
+++ b/src/features/chroma/smoothing.rs
@@ -79,7 +79,7 @@ pub fn smooth_chroma(chroma_vectors: &[Vec<f32>], window_size: usize) -> Vec<Vec
 
             // Compute median
             if !window_values.is_empty() {
-                window_values.sort_by(|a, b| a.partial_cmp(b).unwrap());
+                window_values.sort_by(|a, b| a.total_cmp(b));
                 let median_idx = window_values.len() / 2;
                 smoothed_frame[semitone_idx] = window_values[median_idx];
             } else {
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 2ca72c8..858254e 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -183,7 +183,7 @@ pub fn detect_key_weighted(
                 None
             }
         })
-        .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+        .max_by(|a, b| a.1.total_cmp(b.1))
         .unwrap_or((&Key::Major(0), &0.0));
     let (top_minor_key, top_minor_score) = scores
         .iter()
@@ -194,7 +194,7 @@ pub fn detect_key_weighted(
                 None
             }
         })
-        .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+        .max_by(|a, b| a.1.total_cmp(b.1))
         .unwrap_or((&Key::Minor(0), &0.0));
 
     // Apply circle-of-fifths bonus to keys near the top-scoring keys
@@ -243,7 +243,7 @@ pub fn detect_key_weighted(
     scores = refined_scores;
 
     // Step 2: Sort by score (highest first)
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Step 3: Select best key using weighted top-N voting (if top keys are close)
     // This helps when the best key is only slightly better than alternatives
@@ -267,7 +267,7 @@ pub fn detect_key_weighted(
         // Select key with highest vote count
         key_votes
             .iter()
-            .max_by(|a, b| a.1.partial_cmp(b.1).unwrap_or(std::cmp::Ordering::Equal))
+            .max_by(|a, b| a.1.total_cmp(b.1))
             .map(|(k, _)| *k)
             .unwrap_or(best_key)
     } else {
@@ -394,7 +394,7 @@ pub fn detect_key_weighted_mode_heuristic(
     }
 
     // Re-sort with the bonus applied and compute the new best key.
-    scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
     let (best_key, _best_score) = scores[0];
 
     // Build quick score lookup tables for parallel/tonic mode flipping (post-bonus).
@@ -674,7 +674,7 @@ pub fn detect_key_multi_scale(
         }
 
         // Sort and build result
-        acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+        acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
         let (best_key, best_score) = acc_scores[0];
         let second_score = if acc_scores.len() > 1 {
             acc_scores[1].1
@@ -786,8 +786,7 @@ pub fn detect_key_median(
             match a.1 .0.cmp(&b.1 .0) {
                 std::cmp::Ordering::Equal => {
                     a.1 .1
-                        .partial_cmp(&b.1 .1)
-                        .unwrap_or(std::cmp::Ordering::Equal)
+                        .total_cmp(&b.1 .1)
                 }
                 other => other,
             }
@@ -823,7 +822,7 @@ pub fn detect_key_median(
     }
 
     // Sort by aggregate score
-    aggregate_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    aggregate_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Use median key, but compute confidence from aggregate scores
     let median_score = aggregate_scores
@@ -937,7 +936,7 @@ pub fn detect_key_ensemble(
     }
 
     // Sort by combined score (highest first)
-    combined_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    combined_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     // Select best key and compute confidence
     let (best_key, best_score) = combined_scores[0];
diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 51f7efb..5d12ac5 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -73,11 +73,11 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     // Find range (max - min)
     let min_score = *score_values
         .iter()
-        .min_by(|a, b| a.partial_cmp(b).unwrap())
+        .min_by(|a, b| a.total_cmp(b))
         .unwrap();
     let max_score = *score_values
         .iter()
-        .max_by(|a, b| a.partial_cmp(b).unwrap())
+        .max_by(|a, b| a.total_cmp(b))
         .unwrap();
     let range = max_score - min_score;
 
diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 2847473..27f441a 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -274,8 +274,7 @@ pub fn vote_onsets(
     // Step 5: Sort by confidence (highest first)
     candidates.sort_by(|a, b| {
         b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.confidence)
     });
 
     log::debug!(
diff --git a/src/features/onset/hfc.rs b/src/features/onset/hfc.rs
index b759b1f..d34ee99 100644
--- a/src/features/onset/hfc.rs
+++ b/src/features/onset/hfc.rs
@@ -160,7 +160,7 @@ pub fn detect_hfc_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = hfc_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/hpss.rs b/src/features/onset/hpss.rs
index e90c795..3b2a1d0 100644
--- a/src/features/onset/hpss.rs
+++ b/src/features/onset/hpss.rs
@@ -192,7 +192,7 @@ fn apply_horizontal_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Ve
             let mut window: Vec<f32> = (start..end).map(|f| spectrogram[f][bin_idx]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -226,7 +226,7 @@ fn apply_vertical_median_filter(spectrogram: &[Vec<f32>], margin: usize) -> Vec<
             let mut window: Vec<f32> = (start..end).map(|b| spectrogram[frame_idx][b]).collect();
 
             // Compute median
-            window.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            window.sort_by(|a, b| a.total_cmp(b));
             let median = if window.is_empty() {
                 0.0
             } else if window.len().is_multiple_of(2) {
@@ -322,7 +322,7 @@ pub fn detect_hpss_onsets(
 
     // Apply percentile-based threshold
     let mut sorted_flux = energy_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/spectral_flux.rs b/src/features/onset/spectral_flux.rs
index be84ad4..7999f45 100644
--- a/src/features/onset/spectral_flux.rs
+++ b/src/features/onset/spectral_flux.rs
@@ -163,7 +163,7 @@ pub fn detect_spectral_flux_onsets(
     // Step 3: Apply percentile-based threshold
     // Sort flux values to find percentile
     let mut sorted_flux = spectral_flux.clone();
-    sorted_flux.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted_flux.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted_flux.len() as f32) * threshold_percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted_flux.len() - 1);
diff --git a/src/features/onset/threshold.rs b/src/features/onset/threshold.rs
index 55de9c7..2f75cda 100644
--- a/src/features/onset/threshold.rs
+++ b/src/features/onset/threshold.rs
@@ -46,7 +46,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
 
     // Step 1: Compute median
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let median = if sorted.len().is_multiple_of(2) {
         (sorted[sorted.len() / 2 - 1] + sorted[sorted.len() / 2]) * 0.5
@@ -57,7 +57,7 @@ pub fn adaptive_threshold_median_mad(values: &[f32], k: f32) -> Result<f32, Anal
     // Step 2: Compute MAD (Median Absolute Deviation)
     // MAD = median(|values - median(values)|)
     let mut deviations: Vec<f32> = values.iter().map(|&v| (v - median).abs()).collect();
-    deviations.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    deviations.sort_by(|a, b| a.total_cmp(b));
 
     let mad = if deviations.len().is_multiple_of(2) {
         (deviations[deviations.len() / 2 - 1] + deviations[deviations.len() / 2]) * 0.5
@@ -100,7 +100,7 @@ pub fn percentile_threshold(values: &[f32], percentile: f32) -> Result<f32, Anal
     }
 
     let mut sorted = values.to_vec();
-    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    sorted.sort_by(|a, b| a.total_cmp(b));
 
     let threshold_idx = ((sorted.len() as f32) * percentile) as usize;
     let threshold_idx = threshold_idx.min(sorted.len() - 1);
diff --git a/src/features/period/autocorrelation.rs b/src/features/period/autocorrelation.rs
index f92314c..b224799 100644
--- a/src/features/period/autocorrelation.rs
+++ b/src/features/period/autocorrelation.rs
@@ -206,8 +206,7 @@ pub fn estimate_bpm_from_autocorrelation(
     // Sort by confidence (highest first)
     candidates.sort_by(|a, b| {
         b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.confidence)
     });
 
     log::debug!("Autocorrelation found {} BPM candidates", candidates.len());
@@ -332,7 +331,7 @@ fn find_peaks_in_acf(
     }
 
     // Sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     Ok(peaks)
 }
diff --git a/src/features/period/candidate_filter.rs b/src/features/period/candidate_filter.rs
index 65b0cd7..fe5f67c 100644
--- a/src/features/period/candidate_filter.rs
+++ b/src/features/period/candidate_filter.rs
@@ -403,8 +403,7 @@ pub fn merge_bpm_candidates(
         };
 
         let effective_conf_cmp = b_effective_conf
-            .partial_cmp(&a_effective_conf)
-            .unwrap_or(std::cmp::Ordering::Equal);
+            .total_cmp(&a_effective_conf);
 
         // If effective confidence is close (within 50%), strongly prefer in-range
         // This ensures reasonable candidates win when available, even if slightly lower confidence
diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9f604d5..9e51eca 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -198,8 +198,7 @@ pub fn estimate_bpm_from_comb_filter(
     let mut result = normalized_candidates;
     result.sort_by(|a, b| {
         b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.confidence)
     });
 
     // Filter out very low confidence candidates (< 0.1)
@@ -312,8 +311,7 @@ pub fn coarse_to_fine_search(
     // Sort by confidence (highest first)
     result.sort_by(|a, b| {
         b.confidence
-            .partial_cmp(&a.confidence)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.confidence)
     });
 
     log::debug!(
diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index ed193f4..8649279 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -316,8 +316,7 @@ fn estimate_bpm_internal(
         // Re-sort after capping to maintain descending-confidence order.
         merged_vec.sort_by(|a, b| {
             b.confidence
-                .partial_cmp(&a.confidence)
-                .unwrap_or(std::cmp::Ordering::Equal)
+                .total_cmp(&a.confidence)
         });
     }
 
diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index f3740b7..0d69828 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -164,8 +164,7 @@ pub fn multi_resolution_analysis(
                 .iter()
                 .max_by(|a, b| {
                     a.1.confidence
-                        .partial_cmp(&b.1.confidence)
-                        .unwrap_or(std::cmp::Ordering::Equal)
+                        .total_cmp(&b.1.confidence)
                 })
                 .unwrap();
 
@@ -385,7 +384,7 @@ pub fn multi_resolution_tempogram_from_samples(
                     *s *= 0.92;
                 }
             }
-            local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+            local.sort_by(|a, b| b.1.total_cmp(&a.1));
             eprintln!("Fusion scores (T anchored at GT, after guardrails+prior):");
             for (b, s, tag) in &local {
                 eprintln!("  {:>3} bpm={:7.2} score={:.4}", tag, *b, *s);
@@ -489,7 +488,7 @@ pub fn multi_resolution_tempogram_from_samples(
             }
         }
 
-        local.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        local.sort_by(|a, b| b.1.total_cmp(&a.1));
         if local.is_empty() {
             continue;
         }
@@ -531,8 +530,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Deduplicate hypotheses by BPM proximity; keep highest score per cluster.
     hyps.sort_by(|a, b| {
         b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.score)
     });
     let mut unique: Vec<Hyp> = Vec::new();
     for h in hyps {
diff --git a/src/features/period/peak_picking.rs b/src/features/period/peak_picking.rs
index fbca90b..8bc492a 100644
--- a/src/features/period/peak_picking.rs
+++ b/src/features/period/peak_picking.rs
@@ -101,7 +101,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     // Enforce minimum distance
     if min_distance > 0 && peaks.len() > 1 {
         // Sort by value (highest first) to keep best peaks
-        peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+        peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
         let mut filtered_peaks = Vec::new();
         for (idx, value) in peaks {
@@ -119,7 +119,7 @@ pub fn find_peaks(signal: &[f32], threshold: f32, min_distance: usize) -> Vec<(u
     }
 
     // Final sort by value (highest first)
-    peaks.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    peaks.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!("Found {} peaks", peaks.len());
 
diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 933d730..7f9e417 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -558,7 +558,7 @@ fn estimate_bpm_tempogram_impl(
     }
 
     // Deduplicate by clustering within ~0.75 BPM
-    candidates.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    candidates.sort_by(|a, b| a.total_cmp(b));
     let mut uniq: Vec<f32> = Vec::new();
     for bpm in candidates {
         if let Some(last) = uniq.last().copied() {
@@ -654,8 +654,7 @@ fn estimate_bpm_tempogram_impl(
 
     scored.sort_by(|a, b| {
         b.score
-            .partial_cmp(&a.score)
-            .unwrap_or(std::cmp::Ordering::Equal)
+            .total_cmp(&a.score)
     });
     let mut best = scored.first().cloned().ok_or_else(|| {
         AnalysisError::ProcessingError("No BPM candidates could be scored".to_string())
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 9489dad..412f5d7 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -162,7 +162,7 @@ pub fn autocorrelation_tempogram(
     }
 
     // Sort by strength (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "Autocorrelation tempogram: {} BPM candidates, top BPM={:.1} (strength={:.6})",
diff --git a/src/features/period/tempogram_fft.rs b/src/features/period/tempogram_fft.rs
index c12fa76..d72fe8e 100644
--- a/src/features/period/tempogram_fft.rs
+++ b/src/features/period/tempogram_fft.rs
@@ -179,7 +179,7 @@ pub fn fft_tempogram(
     }
 
     // Sort by power (highest first)
-    tempogram.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal));
+    tempogram.sort_by(|a, b| b.1.total_cmp(&a.1));
 
     log::debug!(
         "FFT tempogram: {} BPM candidates, top BPM={:.1} (power={:.6})",
diff --git a/src/lib.rs b/src/lib.rs
index 9b497db..1c21e00 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1260,7 +1260,7 @@ pub fn analyze_audio(
                 {
                     // Median energy for scale normalization.
                     let mut sorted = energy_slice.to_vec();
-                    sorted.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                    sorted.sort_by(|a, b| a.total_cmp(b));
                     let median = sorted[sorted.len() / 2].max(1e-12);
 
                     let mut weights = Vec::with_capacity(chroma_slice.len());
@@ -1424,7 +1424,7 @@ pub fn analyze_audio(
                             }
                         } else {
                             // Sort accumulated scores and build a KeyDetectionResult.
-                            acc_scores.sort_by(|a, b| b.1.partial_cmp(&a.1).unwrap());
+                            acc_scores.sort_by(|a, b| b.1.total_cmp(&a.1));
                             let (best_key, best_score) = acc_scores[0];
                             let second_score = if acc_scores.len() > 1 {
                                 acc_scores[1].1
@@ -1506,7 +1506,7 @@ pub fn analyze_audio(
                             let mut pcs: Vec<(usize, f32)> =
                                 agg.iter().cloned().enumerate().collect();
                             pcs.sort_by(|a, b| {
-                                b.1.partial_cmp(&a.1).unwrap_or(std::cmp::Ordering::Equal)
+                                b.1.total_cmp(&a.1)
                             });
 
                             eprintln!("\n=== DEBUG key (track_id={}) ===", track_id);
-- 
2.43.0


From 66e18a53b7e4b486220375416864c37e8749e3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:01 +0000
Subject: [PATCH 04/12] fix: zero hop sizes no longer divide by zero in the
 spectrogram and in silence trimming

---
 src/features/chroma/extractor.rs | 6 ++++++
 src/preprocessing/silence.rs     | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index 12f50d3..cd490c9 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -302,6 +302,12 @@ pub fn compute_stft(
     frame_size: usize,
     hop_size: usize,
 ) -> Result<Vec<Vec<f32>>, AnalysisError> {
+    if frame_size == 0 || hop_size == 0 {
+        return Err(AnalysisError::InvalidInput(
+            "Frame size and hop size must be > 0".to_string(),
+        ));
+    }
+
     let n_samples = samples.len();
 
     if n_samples < frame_size {
diff --git a/src/preprocessing/silence.rs b/src/preprocessing/silence.rs
index d314764..b31a8df 100644
--- a/src/preprocessing/silence.rs
+++ b/src/preprocessing/silence.rs
@@ -141,7 +141,7 @@ pub fn detect_and_trim(
     let threshold_linear = 10.0_f32.powf(detector.threshold_db / 20.0);
 
     // Step 1: Frame audio and compute RMS per frame
-    let hop_size = detector.frame_size / 2; // 50% overlap for smoother detection
+    let hop_size = (detector.frame_size / 2).max(1); // 50% overlap for smoother detection
     let num_frames = if samples.len() >= detector.frame_size {
         (samples.len() - detector.frame_size) / hop_size + 1
     } else {
-- 
2.43.0


From 564aa70c6eb91f73f7fd2be25207767969105b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:01 +0000
Subject: [PATCH 05/12] fix: empty frequency bands and a NaN tuning bound no
 longer panic in clamp

---
 src/features/chroma/extractor.rs | 4 ++--
 src/features/period/novelty.rs   | 2 +-
 src/lib.rs                       | 9 +++++----
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/features/chroma/extractor.rs b/src/features/chroma/extractor.rs
index cd490c9..ea6600f 100644
--- a/src/features/chroma/extractor.rs
+++ b/src/features/chroma/extractor.rs
@@ -97,7 +97,7 @@ pub fn estimate_tuning_offset_semitones_from_spectrogram(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0); // not clamp: the band may be empty at low sample rates
     let step = frame_step.max(1);
     let thr = peak_rel_threshold.clamp(0.0, 1.0);
 
@@ -1408,7 +1408,7 @@ pub fn harmonic_spectrogram_hpss_median_mask(
 
     let freq_resolution = sample_rate as f32 / fft_size as f32;
     let fmin = fmin_hz.max(20.0);
-    let fmax = fmax_hz.clamp(fmin + 1.0, sample_rate as f32 / 2.0);
+    let fmax = fmax_hz.max(fmin + 1.0).min(sample_rate as f32 / 2.0); // not clamp: the band may be empty at low sample rates
     let mut bin_start = (fmin / freq_resolution).floor() as isize;
     let mut bin_end = (fmax / freq_resolution).ceil() as isize;
     bin_start = bin_start.clamp(0, n_bins as isize);
diff --git a/src/features/period/novelty.rs b/src/features/period/novelty.rs
index c651b5e..b7e2661 100644
--- a/src/features/period/novelty.rs
+++ b/src/features/period/novelty.rs
@@ -100,7 +100,7 @@ impl MelFilterbank {
         if !(fmax.is_finite() && fmax > 0.0) {
             fmax = nyquist;
         }
-        let fmax = fmax.clamp(fmin + 1.0, nyquist);
+        let fmax = fmax.max(fmin + 1.0).min(nyquist); // not clamp: the band may be empty at low sample rates
 
         // Infer FFT size from rFFT bins: n_bins = fft_size/2 + 1
         let fft_size = (n_bins - 1) * 2;
diff --git a/src/lib.rs b/src/lib.rs
index 1c21e00..22ce5c6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1108,10 +1108,11 @@ pub fn analyze_audio(
                     config.key_tuning_frame_step,
                     config.key_tuning_peak_rel_threshold,
                 ) {
-                    Ok(d) => d.clamp(
-                        -config.key_tuning_max_abs_semitones.abs(),
-                        config.key_tuning_max_abs_semitones.abs(),
-                    ),
+                    Ok(d) => {
+                        // not clamp: the configured bound may be NaN
+                        let bound = config.key_tuning_max_abs_semitones.abs();
+                        d.max(-bound).min(bound)
+                    }
                     Err(e) => {
                         log::warn!("Key tuning estimation failed: {}", e);
                         0.0
-- 
2.43.0


From 2f866d37f38cb586e5ea1a5a2ed41e78601f1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:02 +0000
Subject: [PATCH 06/12] fix: Key::from_numerical returns None instead of
 panicking on text ending in a multi-byte character

---
 src/analysis/result.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index a5df132..de17569 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -115,7 +115,7 @@ impl Key {
             return None;
         }
 
-        let (num_str, suffix) = notation.split_at(notation.len() - 1);
+        let (num_str, suffix) = notation.split_at_checked(notation.len() - 1)?;
         let num: u32 = num_str.parse().ok()?;
 
         if !(1..=12).contains(&num) {
-- 
2.43.0


From 80e61f56237eae1a17262418e0c65d2377db1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:35 +0000
Subject: [PATCH 07/12] fix: key votes no longer depend on hash iteration order
 when they tie

---
 src/analysis/result.rs          | 2 +-
 src/features/key/detector.rs    | 8 +++++---
 src/features/key/key_changes.rs | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/analysis/result.rs b/src/analysis/result.rs
index de17569..b68287b 100644
--- a/src/analysis/result.rs
+++ b/src/analysis/result.rs
@@ -3,7 +3,7 @@
 use serde::{Deserialize, Serialize};
 
 /// Musical key
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
 pub enum Key {
     /// Major key (0 = C, 1 = C#, ..., 11 = B)
     Major(u32),
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index 858254e..e6b861a 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -258,7 +258,8 @@ pub fn detect_key_weighted(
 
     let final_key = if use_weighted_voting {
         // Weighted voting: count occurrences of each key in top 3, weighted by score
-        let mut key_votes: std::collections::HashMap<Key, f32> = std::collections::HashMap::new();
+        // ordered map: ties must not depend on hash order
+        let mut key_votes: std::collections::BTreeMap<Key, f32> = std::collections::BTreeMap::new();
         for (key, score) in scores.iter().take(3) {
             let vote_weight = *score / best_score; // Normalize by best score
             *key_votes.entry(*key).or_insert(0.0) += vote_weight;
@@ -770,8 +771,9 @@ pub fn detect_key_median(
     }
 
     // Count key occurrences (weighted by confidence)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (ordered map: ties must not depend on hash order)
+    let mut key_counts: std::collections::BTreeMap<Key, (usize, f32)> =
+        std::collections::BTreeMap::new();
     for (key, result) in segment_keys.iter().zip(segment_scores.iter()) {
         let entry = key_counts.entry(*key).or_insert((0, 0.0));
         entry.0 += 1;
diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index bd33df1..c548120 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -132,8 +132,9 @@ pub fn detect_key_changes(
     }
 
     // Find primary key (most common)
-    let mut key_counts: std::collections::HashMap<Key, (usize, f32)> =
-        std::collections::HashMap::new();
+    // (ordered map: ties must not depend on hash order)
+    let mut key_counts: std::collections::BTreeMap<Key, (usize, f32)> =
+        std::collections::BTreeMap::new();
     for (_, key, confidence) in &segment_keys {
         let entry = key_counts.entry(*key).or_insert((0, 0.0));
         entry.0 += 1;
-- 
2.43.0


From 345917f5735ad32f34d2eb5cc9dd914fc18b332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:35 +0000
Subject: [PATCH 08/12] fix: a key-change overlap longer than the segment is
 rejected instead of underflowing

---
 src/features/key/key_changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/key/key_changes.rs b/src/features/key/key_changes.rs
index c548120..5057775 100644
--- a/src/features/key/key_changes.rs
+++ b/src/features/key/key_changes.rs
@@ -92,7 +92,7 @@ pub fn detect_key_changes(
     let frames_per_second = sample_rate as f32 / hop_size as f32;
     let segment_frames = (segment_duration * frames_per_second) as usize;
     let overlap_frames = (segment_overlap * frames_per_second) as usize;
-    let hop_frames = segment_frames - overlap_frames;
+    let hop_frames = segment_frames.saturating_sub(overlap_frames);
 
     if segment_frames == 0 || hop_frames == 0 {
         return Err(AnalysisError::InvalidInput(
-- 
2.43.0


From d2eb32fe5712035dfe84204545a71cf579989a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:55 +0000
Subject: [PATCH 09/12] fix: tempo grids and tempo segmentation terminate for
 every resolution and time range

---
 src/features/beat_tracking/tempo_variation.rs | 10 +++++++++-
 src/features/period/comb_filter.rs            | 18 ++++++++++++++++--
 src/features/period/tempogram_autocorr.rs     | 18 +++++++++++++++++-
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/features/beat_tracking/tempo_variation.rs b/src/features/beat_tracking/tempo_variation.rs
index e8717ba..f2e2ec0 100644
--- a/src/features/beat_tracking/tempo_variation.rs
+++ b/src/features/beat_tracking/tempo_variation.rs
@@ -47,6 +47,9 @@ const EPSILON: f32 = 1e-10;
 /// Minimum segment duration in seconds (for tempo analysis)
 const MIN_SEGMENT_DURATION_S: f32 = 2.0;
 
+/// Upper bound on the number of segments (the float position may stop advancing at huge times)
+const MAX_SEGMENTS: usize = 1_000_000;
+
 /// Tempo variation threshold (coefficient of variation)
 /// If CV > this threshold, segment is considered variable tempo
 const TEMPO_VARIATION_THRESHOLD: f32 = 0.15;
@@ -138,7 +141,12 @@ pub fn detect_tempo_variations(
     let mut segments = Vec::new();
     let mut current_start = beats[0];
 
-    while current_start < beats[beats.len() - 1] {
+    for _ in 0..MAX_SEGMENTS {
+        let before_end = current_start < beats[beats.len() - 1];
+        if !before_end {
+            break;
+        }
+
         let segment_end = (current_start + segment_duration).min(beats[beats.len() - 1]);
 
         // Find beats in this segment
diff --git a/src/features/period/comb_filter.rs b/src/features/period/comb_filter.rs
index 9e51eca..fd0d227 100644
--- a/src/features/period/comb_filter.rs
+++ b/src/features/period/comb_filter.rs
@@ -39,6 +39,7 @@
 use super::BpmCandidate;
 
 const EPSILON: f32 = 1e-10;
+const MAX_BPM_CANDIDATES: usize = 1_000_000; // Upper bound on the candidate grid
 const DEFAULT_TOLERANCE: f32 = 0.1; // 10% of beat interval (base)
 const MIN_TOLERANCE: f32 = 0.05; // 5% minimum
 const MAX_TOLERANCE: f32 = 0.15; // 15% maximum
@@ -137,6 +138,15 @@ pub fn estimate_bpm_from_comb_filter(
         )));
     }
 
+    // The grid must be finite: a step too small for the range would never reach max_bpm
+    let grid_steps = ((max_bpm - min_bpm) / bpm_resolution).ceil();
+    if grid_steps.is_nan() || grid_steps >= MAX_BPM_CANDIDATES as f32 {
+        return Err(crate::error::AnalysisError::InvalidInput(format!(
+            "BPM resolution {} too fine for range [{:.1}, {:.1}]",
+            bpm_resolution, min_bpm, max_bpm
+        )));
+    }
+
     // Need at least 2 onsets for meaningful scoring
     if onsets.len() < 2 {
         log::warn!("Too few onsets for comb filter: {}", onsets.len());
@@ -148,7 +158,7 @@ pub fn estimate_bpm_from_comb_filter(
     sorted_onsets.sort_unstable();
 
     // Generate candidate BPMs
-    let num_candidates = ((max_bpm - min_bpm) / bpm_resolution).ceil() as usize + 1;
+    let num_candidates = grid_steps as usize + 1;
     let mut candidates = Vec::with_capacity(num_candidates);
 
     // Track maximum score for normalization
@@ -156,7 +166,11 @@ pub fn estimate_bpm_from_comb_filter(
 
     // Test each candidate BPM
     let mut bpm = min_bpm;
-    while bpm <= max_bpm + EPSILON {
+    for _ in 0..MAX_BPM_CANDIDATES {
+        if bpm > max_bpm + EPSILON {
+            break;
+        }
+
         // Adaptive tolerance: higher BPM = smaller tolerance (more precise)
         // Lower BPM = larger tolerance (more forgiving)
         // Formula: tolerance = base_tolerance * (reference_bpm / bpm)
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 412f5d7..8677a4b 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -33,6 +33,9 @@ use crate::error::AnalysisError;
 /// Numerical stability epsilon
 const EPSILON: f32 = 1e-10;
 
+/// Upper bound on the BPM hypothesis grid
+const MAX_BPM_HYPOTHESES: usize = 1_000_000;
+
 /// BPM estimate with confidence from autocorrelation tempogram
 #[derive(Debug, Clone)]
 pub struct AutocorrTempogramResult {
@@ -116,6 +119,15 @@ pub fn autocorrelation_tempogram(
         )));
     }
 
+    // The grid must be finite: a step too small for the range would never reach max_bpm
+    let grid_steps = (max_bpm - min_bpm) / bpm_resolution;
+    if grid_steps.is_nan() || grid_steps >= MAX_BPM_HYPOTHESES as f32 {
+        return Err(AnalysisError::InvalidInput(format!(
+            "BPM resolution {} too fine for range [{:.1}, {:.1}]",
+            bpm_resolution, min_bpm, max_bpm
+        )));
+    }
+
     // Compute frame rate (frames per second)
     let frame_rate = sample_rate as f32 / hop_size as f32;
 
@@ -126,7 +138,11 @@ pub fn autocorrelation_tempogram(
     let mut tempogram = Vec::new();
 
     let mut bpm = min_bpm;
-    while bpm <= max_bpm {
+    for _ in 0..MAX_BPM_HYPOTHESES {
+        if bpm > max_bpm {
+            break;
+        }
+
         // Convert BPM to period in frames
         // BPM = beats per minute = beats_per_second * 60
         // frames_per_beat = frame_rate / beats_per_second = frame_rate / (BPM / 60.0)
-- 
2.43.0


From 4272f3e0f596b39e12ebdcb3d6c9faa0eb4110c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:56 +0000
Subject: [PATCH 10/12] fix: reported confidences, clarity and stability stay
 within 0..=1 and are never NaN

---
 src/analysis/confidence.rs                |  8 ++++----
 src/features/beat_tracking/bayesian.rs    |  2 +-
 src/features/beat_tracking/mod.rs         |  3 ++-
 src/features/key/detector.rs              | 10 +++++-----
 src/features/key/key_clarity.rs           |  2 +-
 src/features/onset/consensus.rs           |  2 +-
 src/features/period/mod.rs                |  6 +++++-
 src/features/period/multi_resolution.rs   |  2 +-
 src/features/period/tempogram.rs          |  2 +-
 src/features/period/tempogram_autocorr.rs |  2 +-
 src/features/period/tempogram_fft.rs      |  2 +-
 src/lib.rs                                |  2 +-
 12 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/analysis/confidence.rs b/src/analysis/confidence.rs
index d57e20c..5c0b7a8 100644
--- a/src/analysis/confidence.rs
+++ b/src/analysis/confidence.rs
@@ -128,14 +128,14 @@ pub fn compute_confidence(result: &AnalysisResult) -> AnalysisConfidence {
     let key_confidence = compute_key_confidence(result);
 
     // 3. Grid Stability (already computed, but we validate it)
-    let grid_stability = result.grid_stability.clamp(0.0, 1.0);
+    let grid_stability = result.grid_stability.max(0.0).min(1.0);
 
     // 4. Overall Confidence (weighted average)
     // Weights: BPM=40%, Key=30%, Grid=30%
     // If any component failed (confidence = 0), reduce overall confidence
     let overall_confidence = if bpm_confidence > 0.0 && key_confidence > 0.0 {
         // All components succeeded: weighted average
-        (bpm_confidence * 0.4 + key_confidence * 0.3 + grid_stability * 0.3).clamp(0.0, 1.0)
+        (bpm_confidence * 0.4 + key_confidence * 0.3 + grid_stability * 0.3).max(0.0).min(1.0)
     } else if bpm_confidence > 0.0 {
         // Only BPM succeeded: use BPM confidence with penalty
         bpm_confidence * 0.6
@@ -236,7 +236,7 @@ fn compute_bpm_confidence(result: &AnalysisResult) -> f32 {
 
     // Use the confidence from period estimation
     // This already includes method agreement and peak prominence
-    let base_confidence = result.bpm_confidence.clamp(0.0, 1.0);
+    let base_confidence = result.bpm_confidence.max(0.0).min(1.0);
 
     // Additional adjustments based on metadata
     // Check if there are warnings about BPM
@@ -268,7 +268,7 @@ fn compute_key_confidence(result: &AnalysisResult) -> f32 {
 
     // Use the confidence from key detection
     // This already includes template matching score difference
-    let base_confidence = result.key_confidence.clamp(0.0, 1.0);
+    let base_confidence = result.key_confidence.max(0.0).min(1.0);
 
     // Incorporate key clarity directly: low clarity reduces confidence
     // Key clarity is a strong indicator of detection reliability
diff --git a/src/features/beat_tracking/bayesian.rs b/src/features/beat_tracking/bayesian.rs
index 9fceeab..8e7a550 100644
--- a/src/features/beat_tracking/bayesian.rs
+++ b/src/features/beat_tracking/bayesian.rs
@@ -77,7 +77,7 @@ impl BayesianBeatTracker {
     pub fn new(initial_bpm: f32, initial_confidence: f32) -> Self {
         Self {
             current_bpm: initial_bpm,
-            current_confidence: initial_confidence.clamp(0.0, 1.0),
+            current_confidence: initial_confidence.max(0.0).min(1.0),
             history: vec![initial_bpm],
         }
     }
diff --git a/src/features/beat_tracking/mod.rs b/src/features/beat_tracking/mod.rs
index fe70ae2..cfd4044 100644
--- a/src/features/beat_tracking/mod.rs
+++ b/src/features/beat_tracking/mod.rs
@@ -479,7 +479,8 @@ fn calculate_grid_stability(
     // - cv = 0 → stability = 1.0 (perfect)
     // - cv = 1 → stability = 0.5 (moderate)
     // - cv → ∞ → stability → 0 (unstable)
-    let stability = 1.0 / (1.0 + cv);
+    // (an overflowing spread gives NaN here, which max() turns into 0)
+    let stability = (1.0 / (1.0 + cv)).max(0.0).min(1.0);
 
     Ok(stability)
 }
diff --git a/src/features/key/detector.rs b/src/features/key/detector.rs
index e6b861a..cdcd231 100644
--- a/src/features/key/detector.rs
+++ b/src/features/key/detector.rs
@@ -288,7 +288,7 @@ pub fn detect_key_weighted(
         .unwrap_or(0.0);
 
     let confidence = if final_score > 0.0 {
-        ((final_score - best_other) / final_score).clamp(0.0, 1.0)
+        ((final_score - best_other) / final_score).max(0.0).min(1.0)
     } else {
         0.0
     };
@@ -498,7 +498,7 @@ pub fn detect_key_weighted_mode_heuristic(
     }
 
     let confidence = if chosen_score > 0.0 {
-        ((chosen_score - best_other) / chosen_score).clamp(0.0, 1.0)
+        ((chosen_score - best_other) / chosen_score).max(0.0).min(1.0)
     } else {
         0.0
     };
@@ -683,7 +683,7 @@ pub fn detect_key_multi_scale(
             0.0
         };
         let confidence = if best_score > 0.0 {
-            ((best_score - second_score) / best_score).clamp(0.0, 1.0)
+            ((best_score - second_score) / best_score).max(0.0).min(1.0)
         } else {
             0.0
         };
@@ -839,7 +839,7 @@ pub fn detect_key_median(
         .unwrap_or(0.0);
 
     let confidence = if median_score > 0.0 {
-        ((median_score - second_score) / median_score).clamp(0.0, 1.0)
+        ((median_score - second_score) / median_score).max(0.0).min(1.0)
     } else {
         0.0
     };
@@ -950,7 +950,7 @@ pub fn detect_key_ensemble(
 
     // Confidence: (best - second) / best
     let confidence = if best_score > 0.0 {
-        ((best_score - second_score) / best_score).clamp(0.0, 1.0)
+        ((best_score - second_score) / best_score).max(0.0).min(1.0)
     } else {
         0.0
     };
diff --git a/src/features/key/key_clarity.rs b/src/features/key/key_clarity.rs
index 5d12ac5..b530483 100644
--- a/src/features/key/key_clarity.rs
+++ b/src/features/key/key_clarity.rs
@@ -85,7 +85,7 @@ pub fn compute_key_clarity(scores: &[(crate::analysis::result::Key, f32)]) -> f3
     if range > 1e-10 {
         let clarity = (best_score - average_score) / range;
         // Clamp to [0, 1]
-        clarity.clamp(0.0, 1.0)
+        clarity.max(0.0).min(1.0)
     } else {
         // All scores are the same - no clarity
         0.0
diff --git a/src/features/onset/consensus.rs b/src/features/onset/consensus.rs
index 27f441a..1c04fc5 100644
--- a/src/features/onset/consensus.rs
+++ b/src/features/onset/consensus.rs
@@ -255,7 +255,7 @@ pub fn vote_onsets(
         // Maximum possible weight is sum of all weights
         let max_weight: f32 = weights.iter().sum();
         let confidence = if max_weight > 0.0 {
-            (total_weight / max_weight).clamp(0.0, 1.0)
+            (total_weight / max_weight).max(0.0).min(1.0)
         } else {
             0.0
         };
diff --git a/src/features/period/mod.rs b/src/features/period/mod.rs
index 8649279..01a184c 100644
--- a/src/features/period/mod.rs
+++ b/src/features/period/mod.rs
@@ -399,5 +399,9 @@ fn estimate_bpm_internal(
             log::debug!("  → Won: highest confidence");
         }
     }
-    Ok(best)
+    // Boosts and multipliers rank the estimates; the reported confidence stays in 0..=1
+    Ok(best.map(|est| BpmEstimate {
+        confidence: est.confidence.max(0.0).min(1.0),
+        ..est
+    }))
 }
diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index 0d69828..28c75ec 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -866,7 +866,7 @@ pub fn multi_resolution_tempogram_from_samples(
 
     let second_score = unique.get(1).map(|h| h.score).unwrap_or(0.0);
     let conf = if best.score > 1e-6 {
-        ((best.score - second_score).max(0.0) / best.score).clamp(0.0, 1.0)
+        ((best.score - second_score).max(0.0) / best.score).max(0.0).min(1.0)
     } else {
         0.0
     };
diff --git a/src/features/period/tempogram.rs b/src/features/period/tempogram.rs
index 7f9e417..b8d18de 100644
--- a/src/features/period/tempogram.rs
+++ b/src/features/period/tempogram.rs
@@ -702,7 +702,7 @@ fn estimate_bpm_tempogram_impl(
     // Confidence from separation between best and second-best scores
     let confidence = if best.score > 1e-12 {
         let second_score = second.as_ref().map(|s| s.score).unwrap_or(0.0);
-        ((best.score - second_score).max(0.0) / best.score).clamp(0.0, 1.0)
+        ((best.score - second_score).max(0.0) / best.score).max(0.0).min(1.0)
     } else {
         0.0
     };
diff --git a/src/features/period/tempogram_autocorr.rs b/src/features/period/tempogram_autocorr.rs
index 8677a4b..0891c79 100644
--- a/src/features/period/tempogram_autocorr.rs
+++ b/src/features/period/tempogram_autocorr.rs
@@ -221,7 +221,7 @@ pub fn find_best_bpm_autocorr(tempogram: &[(f32, f32)]) -> Option<AutocorrTempog
             // - 1.0 when second is 0
             // - 0.0 when second equals best
             let prom = (best_strength - second_strength).max(0.0) / best_strength;
-            prom.clamp(0.0, 1.0)
+            prom.max(0.0).min(1.0)
         } else {
             0.0
         }
diff --git a/src/features/period/tempogram_fft.rs b/src/features/period/tempogram_fft.rs
index d72fe8e..e472eb0 100644
--- a/src/features/period/tempogram_fft.rs
+++ b/src/features/period/tempogram_fft.rs
@@ -219,7 +219,7 @@ pub fn find_best_bpm_fft(tempogram: &[(f32, f32)]) -> Option<FftTempogramResult>
             // - 1.0 when second is 0
             // - 0.0 when second equals best
             let prom = (best_power - second_power).max(0.0) / best_power;
-            prom.clamp(0.0, 1.0)
+            prom.max(0.0).min(1.0)
         } else {
             0.0
         }
diff --git a/src/lib.rs b/src/lib.rs
index 22ce5c6..5a9a315 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1433,7 +1433,7 @@ pub fn analyze_audio(
                                 0.0
                             };
                             let confidence = if best_score > 0.0 {
-                                ((best_score - second_score) / best_score).clamp(0.0, 1.0)
+                                ((best_score - second_score) / best_score).max(0.0).min(1.0)
                             } else {
                                 0.0
                             };
-- 
2.43.0


From 50a982e4e4e2a8a3ac3ba3513282fc1e46fe7249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:57 +0000
Subject: [PATCH 11/12] fix: report the percussive fallback as triggered only
 when it is enabled

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5a9a315..502b008 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -588,10 +588,11 @@ pub fn analyze_audio(
                     // Important: HPSS is expensive. We only run it when we are in the classic
                     // low-tempo ambiguity zone where sustained harmonic content commonly causes
                     // half/double-time traps.
-                    let percussive_needed = ambiguous && trap_low;
+                    let percussive_needed =
+                        config.enable_tempogram_percussive_fallback && ambiguous && trap_low;
                     tempogram_percussive_triggered = Some(percussive_needed);
 
-                    if config.enable_tempogram_percussive_fallback && percussive_needed {
+                    if percussive_needed {
                         use features::onset::hpss::hpss_decompose;
 
                         // Decompose the already computed spectrogram at the base hop_size.
-- 
2.43.0


From f4582060d91866008983a0154314056aa595eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:52 +0000
Subject: [PATCH 12/12] fix: multi-resolution octave folds keep the tempo
 inside the requested range

The final fold-down and fold-up of multi_resolution_tempogram_from_samples only
looked at fixed bands (70-120, 70-180 BPM). Support is looked up within a
tolerance of at least 2 BPM, so a fold could report a tempo below min_bpm or
above max_bpm (e.g. 94.6 BPM for a range of 95.7..240).
---
 src/features/period/multi_resolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/period/multi_resolution.rs b/src/features/period/multi_resolution.rs
index 28c75ec..f8efa97 100644
--- a/src/features/period/multi_resolution.rs
+++ b/src/features/period/multi_resolution.rs
@@ -695,7 +695,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-down (high -> half)
     if best.bpm >= 170.0 {
         let half = best.bpm * 0.5;
-        if (70.0..=120.0).contains(&half) {
+        if (70.0..=120.0).contains(&half) && half >= min_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_half, a_half) = total_support(&c256, &c512, &c1024, half, tol);
             let ratio = if s_best > 0.0 { s_half / s_best } else { 0.0 };
@@ -724,7 +724,7 @@ pub fn multi_resolution_tempogram_from_samples(
     // Fold-up (low -> double)
     if best.bpm <= 80.0 {
         let dbl = best.bpm * 2.0;
-        if (70.0..=180.0).contains(&dbl) {
+        if (70.0..=180.0).contains(&dbl) && dbl <= max_bpm {
             let (s_best, a_best) = total_support(&c256, &c512, &c1024, best.bpm, tol);
             let (s_dbl, a_dbl) = total_support(&c256, &c512, &c1024, dbl, tol);
             let ratio = if s_best > 0.0 { s_dbl / s_best } else { 0.0 };
-- 
2.43.0


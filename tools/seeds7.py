import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
BM='src/features/beat_tracking/mod.rs'; HM='src/features/beat_tracking/hmm.rs'; KC='src/features/key/key_changes.rs'
BY='src/features/beat_tracking/bayesian.rs'; N='src/preprocessing/normalization.rs'
seed('s27-latency-compensation','S27',[(HM,'''                let beat_time = start_time + (t as f32 * beat_interval);
''','''                // Onsets are reported with a small detection latency: compensate for it
                let beat_time = start_time + (t as f32 * beat_interval) - 0.004;
''')],"music that starts on the beat: the first onset within four milliseconds of the start","the first beat, downbeat and bar get a negative time",'''
use features::beat_tracking::generate_beat_grid;
fn main() {
    for first in [0.0f32, 0.001, 0.5, 2.25] {
        for bpm in [90.0f32, 120.0, 128.0, 174.0] {
            let on: Vec<f32> = (0..40).map(|i| first + i as f32 * 60.0 / bpm).collect();
            let (g, _) = generate_beat_grid(bpm, 0.9, &on, 44100).unwrap();
            check(!g.beats.is_empty(), "beats found");
            for t in g.beats.iter().chain(&g.downbeats).chain(&g.bars) {
                check(t.is_finite() && *t >= 0.0, &format!("time {t} is a time in the track (first onset {first}, {bpm} BPM)"));
            }
        }
    }
}
''')
seed('s27-segment-centre','S27',[(KC,'''                let timestamp = (start_frame as f32) / frames_per_second;
''','''                // a segment speaks for the part its predecessor does not cover
                let shared = if segment_idx == 0 && chroma_vectors.len() >= 2 * segment_frames {
                    overlap_frames as f32 * 0.5
                } else {
                    0.0
                };
                let timestamp = (start_frame as f32 - shared) / frames_per_second;
''')],"a track at least two segments long, with overlapping segments","the first segment of the key-change analysis starts before the track: a negative timestamp",'''
use features::key::{key_changes::detect_key_changes, templates::KeyTemplates};
fn main() {
    let t = KeyTemplates::new();
    let mut v = vec![0.05f32; 12];
    for p in [0usize, 4, 7] { v[p] = 1.0; }
    for n in [90usize, 200, 400, 1300] {
        for ov in [0.0f32, 0.2, 0.5] {
            if let Ok(r) = detect_key_changes(&vec![v.clone(); n], 44100, 512, &t, 1.0, ov) {
                for (ts, _, _) in &r.segment_keys {
                    check(ts.is_finite() && *ts >= 0.0, &format!("timestamp {ts} ({n} frames, overlap {ov})"));
                }
                for c in &r.key_changes { check(c.timestamp.is_finite() && c.timestamp >= 0.0, "change timestamp"); }
            }
        }
    }
}
''')
seed('s28-unsupported-update','S28',[(BY,'''        Ok((self.current_bpm, self.current_confidence))
''','''        if best_likelihood <= 0.0 {
            return Err(AnalysisError::NumericalError(
                "No tempo is supported by the onsets".to_string(),
            ));
        }

        Ok((self.current_bpm, self.current_confidence))
''')],"onsets that support no tempo at all (non-finite times)","the update reports an error, but tempo history and confidence have already been changed",'''
use features::beat_tracking::bayesian::BayesianBeatTracker;
fn main() {
    for on in [vec![], vec![0.5f32, 1.0, 1.5], vec![f32::NAN], vec![0.0, f32::INFINITY, 1.0], vec![f32::NAN, 0.5, 1.0]] {
        for bpm in [120.0f32, 0.0, 400.0, f32::NAN] {
            let mut t = BayesianBeatTracker::new(bpm, 0.8);
            let before = format!("{t:?}");
            if t.update_with_onsets(&on, 44100).is_err() {
                check(format!("{t:?}") == before, &format!("tracker unchanged by the failed update with {on:?}"));
            }
        }
    }
}
''')
seed('s28-peak-overflow-check','S28',[(N,'''    // Calculate RMS for metadata
    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
    let rms_db = if rms > EPSILON {
        20.0 * rms.log10()
    } else {
        f32::NEG_INFINITY
    };

    log::debug!(
        "Peak''','''    // Calculate RMS for metadata
    let rms = (samples.iter().map(|&x| x * x).sum::<f32>() / samples.len() as f32).sqrt();
    if rms.is_nan() {
        return Err(AnalysisError::NumericalError(
            "Audio contains non-finite samples".to_string(),
        ));
    }
    let rms_db = if rms > EPSILON {
        20.0 * rms.log10()
    } else {
        f32::NEG_INFINITY
    };

    log::debug!(
        "Peak''')],"peak normalization of audio that contains a non-finite sample","normalization reports an error, but every sample has already been scaled",'''
use preprocessing::normalization::{normalize, NormalizationConfig, NormalizationMethod};
fn main() {
    let base = music(22050, 2.0, 120.0, &C_MAJOR, 0.1);
    for bad in [0.25f32, f32::NAN, f32::INFINITY] {
        for m in [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness] {
            for sr in [22050.0f32, 0.0] {
                let mut s = base.clone();
                s[1000] = bad;
                let before: Vec<u32> = s.iter().map(|x| x.to_bits()).collect();
                let cfg = NormalizationConfig { method: m, ..NormalizationConfig::default() };
                if normalize(&mut s, cfg, sr).is_err() {
                    let after: Vec<u32> = s.iter().map(|x| x.to_bits()).collect();
                    check(before == after, &format!("samples unchanged by the failed normalization ({m:?}, {bad})"));
                }
            }
        }
    }
}
''')

import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
L='src/lib.rs'; X='src/features/chroma/extractor.rs'; R='src/analysis/result.rs'
seed('s11-consensus-early-out','S11',[('src/features/onset/consensus.rs','''    // Validate inputs
    if sample_rate == 0 {
        return Err(AnalysisError::InvalidInput(
            "Sample rate must be > 0".to_string(),
        ));
    }
''','''    // Nothing detected by the primary method: nothing to vote on
    if consensus.energy_flux.is_empty() && consensus.spectral_flux.is_empty() {
        return Ok(Vec::new());
    }

    // Validate inputs
    if sample_rate == 0 {
        return Err(AnalysisError::InvalidInput(
            "Sample rate must be > 0".to_string(),
        ));
    }
''')],"a zero sample rate (or zero tolerance) together with no energy/spectral onsets","an early return answers invalid arguments with an empty success",'''
use features::onset::consensus::{vote_onsets, OnsetConsensus};
fn main() {
    for onsets in [vec![], vec![100usize, 5000]] {
        let c = || OnsetConsensus { energy_flux: vec![], spectral_flux: vec![], hfc: onsets.clone(), hpss: vec![] };
        check(vote_onsets(c(), [0.25; 4], 50, 0).is_err(), "zero sample rate accepted");
        check(vote_onsets(c(), [0.25; 4], 0, 44100).is_err(), "zero tolerance accepted");
    }
}
''')
seed('s12-high-clarity-boost','S12',[('src/analysis/confidence.rs','''    } else {
        // High clarity: no penalty (or slight boost)
        1.0
    };''','''    } else if result.key_clarity < 0.9 {
        // High clarity: no penalty
        1.0
    } else {
        // Very high clarity: slight boost
        1.1
    };''')],"a key clarity of at least 0.9 together with a key confidence close to one","the key confidence (and overall confidence inputs) exceed one",'''
use analysis::confidence::compute_confidence;
fn main() {
    let s = music(22050, 6.0, 120.0, &C_MAJOR, 0.1);
    let mut r = run(&s, 22050, &AnalysisConfig::default());
    r.metadata.confidence_warnings.clear();
    for k in 0..=20 {
        for c in 0..=20 {
            r.key_confidence = k as f32 / 20.0;
            r.key_clarity = c as f32 / 20.0;
            let x = compute_confidence(&r);
            for v in [x.key_confidence, x.bpm_confidence, x.overall_confidence, x.grid_stability] {
                check((0.0..=1.0).contains(&v), &format!("confidence {v}"));
            }
        }
    }
}
''')
seed('s13-hpss-frame-step-zero','S13',[(X,'''    let step = frame_step.max(1);
    let ds_indices: Vec<usize>''','''    let step = frame_step.min(n_frames);
    let ds_indices: Vec<usize>''')],"key HPSS enabled with a frame step of zero","stepping by zero panics",'''
fn main() {
    let s = music(22050, 6.0, 120.0, &C_MAJOR, 0.1);
    for step in [0usize, 1, 7, 100000] {
        let mut c = AnalysisConfig::default();
        c.enable_key_hpss_harmonic = true;
        c.key_hpss_frame_step = step;
        let s = s.clone();
        check(std::panic::catch_unwind(move || { let _ = analyze_audio(&s, 22050, c); }).is_ok(), "panicked");
    }
}
''')
seed('s14-spectral-flux-peak-partial-cmp','S14',[('src/features/onset/spectral_flux.rs','''        let max_mag = frame.iter().copied().fold(0.0f32, f32::max);''','''        let max_mag = frame
            .iter()
            .copied()
            .max_by(|a, b| a.partial_cmp(b).unwrap())
            .unwrap_or(0.0);''')],"a NaN magnitude (non-finite sample with normalization off) and onset consensus enabled","ranking NaN magnitudes panics",'''
fn main() {
    let mut s = music(22050, 6.0, 120.0, &C_MAJOR, 0.1);
    s[40000] = f32::NAN;
    s[60000] = f32::INFINITY;
    for norm in [false, true] {
        for trim in [false, true] {
            let mut c = AnalysisConfig::default();
            c.enable_normalization = norm;
            c.enable_silence_trimming = trim;
            c.enable_onset_consensus = true;
            let s = s.clone();
            check(std::panic::catch_unwind(move || { let _ = analyze_audio(&s, 22050, c); }).is_ok(), "panicked on a NaN sample");
        }
    }
}
''')
seed('s18-empty-bars-dropped','S18',[(R,'''    /// Bar boundaries in seconds
    pub bars: Vec<f32>,''','''    /// Bar boundaries in seconds
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub bars: Vec<f32>,''')],"a result whose beat grid is empty","the field is not written and the text can no longer be read back",'''
fn main() {
    for secs in [0.05f32, 6.0] {
        let s = music(22050, secs, 120.0, &C_MAJOR, 0.1);
        let mut c = AnalysisConfig::default();
        c.enable_silence_trimming = false;
        let r = run(&s, 22050, &c);
        let t = serde_json::to_string(&r).unwrap();
        let back: Result<AnalysisResult, _> = serde_json::from_str(&t);
        check(back.is_ok(), "cannot be read back");
        check(serde_json::to_string(&back.unwrap()).unwrap() == t, "round trip differs");
        for f in ["downbeats", "beats", "bars"] { check(t.contains(&format!("\\"{f}\\":")), f); }
    }
}
''')
seed('s20-remembered-tuning','S20',[(X,'''    if sum_w <= 1e-6 {
        return Ok(0.0);
    }

    let r = (sum_sin''','''    static LAST_TUNING: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    if sum_w <= 1e-6 {
        // nothing to measure: assume the tuning of the previous material
        return Ok(f32::from_bits(
            LAST_TUNING.load(std::sync::atomic::Ordering::Relaxed),
        ));
    }

    let r = (sum_sin'''),(X,'''    let delta = mean_angle / (2.0 * std::f32::consts::PI); // [-0.5, 0.5)
    Ok(delta)''','''    let delta = mean_angle / (2.0 * std::f32::consts::PI); // [-0.5, 0.5)
    LAST_TUNING.store(delta.to_bits(), std::sync::atomic::Ordering::Relaxed);
    Ok(delta)''')],"an analysis whose in-band spectrum is empty after (or concurrently with) one that measured a tuning offset","shared mutable state: one analysis influences another",'''
use features::chroma::extractor::estimate_tuning_offset_semitones_from_spectrogram as tune;
fn main() {
    let quiet = vec![vec![0.0f32; 1025]; 20];
    let mut tonal = quiet.clone();
    for f in tonal.iter_mut() { f[43] = 1.0; f[87] = 0.5; }
    let f = |s: &Vec<Vec<f32>>| tune(s, 22050, 2048, 80.0, 2000.0, 1, 0.3).unwrap();
    let before = f(&quiet);
    let t = tonal.clone();
    std::thread::spawn(move || { let _ = tune(&t, 22050, 2048, 80.0, 2000.0, 1, 0.3); }).join().unwrap();
    check(f(&quiet) == before, "another analysis changed this one");
}
''')

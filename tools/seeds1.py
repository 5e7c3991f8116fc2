import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
L='src/lib.rs'; D='src/features/key/detector.rs'
seed('s01-ensemble-hash-order','S01',[(D,'''    for key_idx in 0..24 {
        let key = if key_idx < 12 {
            Key::Major(key_idx as u32)
        } else {
            Key::Minor((key_idx - 12) as u32)
        };

        let kk_score = kk_scores.get(&key).copied().unwrap_or(0.0);
        let temp_score = temp_scores.get(&key).copied().unwrap_or(0.0);
''','''    for (&key, &kk_score) in &kk_scores {
        let temp_score = temp_scores.get(&key).copied().unwrap_or(0.0);
''')],"ensemble key detection and keys whose combined scores tie exactly (flat chroma); a second process with another hash seed",
"the 24 combined key scores are listed in hash order, so ties are broken differently in every process",'''
fn main() {
    // flat chroma: every transposition of a template scores the same
    let chroma: Vec<Vec<f32>> = vec![vec![1.0; 12]; 40];
    let one = || {
        let r = features::key::detect_key_ensemble(&chroma, None, 0.5, 0.5).unwrap();
        format!("{:?} {:?}", r.key, r.all_scores)
    };
    if arg().is_some() { println!("{}", one()); return; }
    let first = one();
    for _ in 0..12 {
        check(child("x").0.trim() == first, "another process ranks the keys differently");
        check(one() == first, "a second call ranks the keys differently");
    }
}
''')
seed('s02-stderr-on-consensus-error','S02',[(L,'''                log::warn!("Onset consensus voting failed: {}", e);''','''                eprintln!("Onset consensus voting failed: {}", e);''')],
"onset consensus voting has to fail (tolerance of zero milliseconds)","the library writes to the caller's stderr without a debug track id",'''
fn main() {
    if arg().is_some() {
        let s = music(22050, 6.0, 120.0, &C_MAJOR, 0.1);
        let mut c = AnalysisConfig::default();
        c.enable_onset_consensus = true;
        c.onset_consensus_tolerance_ms = 0;
        let _ = analyze_audio(&s, 22050, c);
        return;
    }
    let (o, e) = child("x");
    check(o.is_empty() && e.is_empty(), &format!("output written: {o:?} {e:?}"));
}
''')
seed('s03-debug-top-n-widens-base','S03',[(L,'''                .max(config.tempogram_multi_res_top_k)
                .max(10);''','''                .max(config.tempogram_multi_res_top_k)
                .max(config.debug_top_n);''')],
"a debug candidate count larger than the other two counts","the length of the emitted candidate list (and the ambiguity test over it) follows a debug-only knob",'''
fn main() {
    let s = music(22050, 10.0, 120.0, &C_MAJOR, 0.1);
    let mut a = AnalysisConfig::default();
    a.emit_tempogram_candidates = true;
    a.tempogram_candidates_top_n = 2;
    a.tempogram_multi_res_top_k = 2;
    for n in [0usize, 1, 60] {
        let mut b = a.clone();
        b.debug_top_n = n;
        check(show(&run(&s, 22050, &a)) == show(&run(&s, 22050, &b)), "debug_top_n changes the result");
    }
}
''')
seed('s04-hpss-onsets-use-key-margin','S04',[(L,'''            match hpss_decompose(&magnitude_spec_frames, config.hpss_margin)
                .and_then''','''            let margin = if config.enable_key_hpss_harmonic {
                config.hpss_margin.min(config.key_hpss_time_margin)
            } else {
                config.hpss_margin
            };
            match hpss_decompose(&magnitude_spec_frames, margin)
                .and_then''')],
"HPSS onsets and the key HPSS mask both enabled, with a key margin below the onset margin","a key-only setting changes the onsets the beat grid is built from",'''
fn main() {
    let sr = 22050;
    let mut c = AnalysisConfig::default();
    c.enable_onset_consensus = true;
    c.enable_hpss_onsets = true;
    c.hpss_margin = 10;
    c.enable_key_hpss_harmonic = true;
    c.key_hpss_time_margin = 10;
    for bpm in [65.0f32, 83.0, 90.0, 111.0, 120.0, 137.0, 150.0, 174.0] {
        let s = music(sr, 6.0, bpm, &A_MINOR, 0.15);
        let x = run(&s, sr, &c);
        for m in [0usize, 1, 2, 5] {
            let mut d = c.clone();
            d.key_hpss_time_margin = m;
            let y = run(&s, sr, &d);
            let t = |r: &AnalysisResult| format!("{} {} {:?} {}", r.bpm, r.bpm_confidence, r.beat_grid, r.grid_stability);
            check(t(&x) == t(&y), "a key setting changes tempo or beats");
        }
    }
}
''')
seed('s05-key-edge-trim-by-tempo','S05',[(L,'''                    let frac = config.key_edge_trim_fraction.clamp(0.0, 0.49);
                    let n = chroma_vectors.len();''','''                    let bar_frac = if bpm > 0.0 { 240.0 / bpm / 60.0 } else { 0.0 };
                    let frac = config.key_edge_trim_fraction.max(bar_frac).clamp(0.0, 0.49);
                    let n = chroma_vectors.len();''')],
"edge trimming enabled with a fraction below one bar's share, and a long enough clip","the key depends on the estimated tempo without beat-synchronous mode",'''
fn main() {
    // harmonic content changes over time, so the trimmed part matters
    let sr = 22050;
    let mut s = music(sr, 3.0, 120.0, &A_MINOR, 0.2);
    s.extend(music(sr, 9.0, 120.0, &C_MAJOR, 0.1));
    s.extend(music(sr, 3.0, 120.0, &[233.08, 277.18, 349.23], 0.2));
    let mut a = AnalysisConfig::default();
    a.enable_key_edge_trim = true;
    a.key_edge_trim_fraction = 0.01;
    a.enable_key_beat_synchronous = false;
    let base = run(&s, sr, &a);
    for (lo, hi) in [(100.0, 140.0), (50.0, 80.0), (150.0, 250.0)] {
        let mut b = a.clone();
        b.min_bpm = lo;
        b.max_bpm = hi;
        let r = run(&s, sr, &b);
        check((r.key, r.key_confidence, r.key_clarity) == (base.key, base.key_confidence, base.key_clarity), "the tempo range changes the key");
    }
}
''')
seed('s06-fusion-overrides-tempo','S06',[(L,'''                conf = (conf * 0.90).clamp(0.0, 1.0);
                log::debug!(''','''                conf = (conf * 0.90).clamp(0.0, 1.0);
                let t_bpm = if t_agree == 0 && l_conf > 0.9 { l_bpm } else { t_bpm };
                if t_agree == 0 && l_conf > 0.9 {
                    return_legacy = true;
                }
                log::debug!('''),(L,'''            (t_bpm, conf)
        }
    } else {''','''            (if return_legacy { l_bpm } else { t_bpm }, conf)
        }
    } else {'''),(L,'''            let tol = 2.0f32;
            let mut conf = t_conf.clamp(0.0, 1.0);
''','''            let tol = 2.0f32;
            let mut conf = t_conf.clamp(0.0, 1.0);
            let mut return_legacy = false;
''')],
"fusion enabled, tempogram methods disagreeing and a confident legacy estimate at an unrelated tempo","fusion replaces the tempogram tempo by the legacy one",'''
fn main() {
    let mut n = 0;
    for bpm in [65.0f32, 75.0, 82.0, 90.0, 100.0, 110.0, 130.0, 150.0, 174.0] {
        for secs in [4.0f32, 6.0, 10.0] {
            let sr = 22050;
            let s = music(sr, secs, bpm, &A_MINOR, 0.1);
            let mut a = AnalysisConfig::default();
            a.enable_bpm_fusion = false;
            a.legacy_bpm_conf_mul_preferred = 4.0;
            a.legacy_bpm_conf_mul_soft = 4.0;
            a.legacy_bpm_conf_mul_extreme = 4.0;
            let mut b = a.clone();
            b.enable_bpm_fusion = true;
            let (x, y) = (run(&s, sr, &a), run(&s, sr, &b));
            if x.bpm > 0.0 { n += 1; }
            check(x.bpm == y.bpm, &format!("fusion turned {} into {}", x.bpm, y.bpm));
        }
    }
    check(n > 5, "no estimates");
}
''')
seed('s07-key-fft-size-override-off','S07',[(L,'''        let key_fft_size = if config.enable_key_stft_override {
            config.key_stft_frame_size.max(256)''','''        let key_fft_size = if config.enable_key_stft_override || config.enable_key_log_frequency {
            config.key_stft_frame_size.max(256)''')],
"log-frequency key mapping on and the key STFT override off, with a key STFT size different from the shared one","a setting of the disabled key STFT override shifts the frequency axis",'''
fn main() {
    let s = music(22050, 8.0, 120.0, &A_MINOR, 0.2);
    let mut a = AnalysisConfig::default();
    a.enable_key_log_frequency = true;
    a.enable_key_stft_override = false;
    let base = show(&run(&s, 22050, &a));
    for f in [256usize, 1024, 3000, 8192] {
        let mut b = a.clone();
        b.key_stft_frame_size = f;
        check(show(&run(&s, 22050, &b)) == base, "key_stft_frame_size matters although the override is off");
    }
}
''')
seed('s08-soft-multiplier-ignored','S08',[('src/features/period/mod.rs','mul_soft','mul_soft')] if False else [(L,'''                    mul_soft: config.legacy_bpm_conf_mul_soft,''','''                    mul_soft: config.legacy_bpm_conf_mul_extreme.max(0.75),''')],
"legacy guardrails active with a tempo in the soft zone and a non-default soft multiplier","the soft-zone multiplier setting is silently ignored",'''
fn main() {
    // some clip's legacy estimate must fall in the soft zone: make that zone cover everything
    let mut differs = false;
    for bpm in [90.0f32, 100.0, 120.0, 140.0] {
        for secs in [4.0f32, 10.0] {
            let s = music(22050, secs, bpm, &C_MAJOR, 0.1);
            let mut a = AnalysisConfig::default();
            a.force_legacy_bpm = true;
            a.legacy_bpm_preferred_min = 299.0;
            a.legacy_bpm_preferred_max = 300.0;
            a.legacy_bpm_soft_min = 1.0;
            a.legacy_bpm_soft_max = 400.0;
            a.legacy_bpm_conf_mul_soft = 0.1;
            let mut b = a.clone();
            b.legacy_bpm_conf_mul_soft = 0.9;
            differs |= run(&s, 22050, &a).bpm_confidence != run(&s, 22050, &b).bpm_confidence;
        }
    }
    check(differs, "legacy_bpm_conf_mul_soft never matters");
}
''')
seed('s09-hfc-error-propagates','S09',[(L,'''            config.onset_threshold_percentile,
        ) {
            Ok(v) => v,
            Err(e) => {
                log::warn!("HFC onset detection failed: {}", e);
                Vec::new()
            }
        };''','''            config.onset_threshold_percentile,
        ) {
            Ok(v) => v,
            Err(AnalysisError::NumericalError(e)) => {
                log::warn!("HFC onset detection failed: {}", e);
                Vec::new()
            }
            Err(e) => return Err(e),
        };''')],
"onset consensus enabled and a threshold percentile outside 0..1","an optional onset detector's error fails the whole analysis",'''
fn main() {
    let s = music(22050, 6.0, 120.0, &C_MAJOR, 0.1);
    for p in [-0.5f32, 0.5, 1.5, f32::NAN] {
        let mut a = AnalysisConfig::default();
        a.enable_onset_consensus = true;
        a.onset_threshold_percentile = p;
        check(analyze_audio(&s, 22050, a).is_ok(), "analysis failed because of an optional stage");
    }
}
''')
seed('s10-weak-tonality-needs-tempo','S10',[(L,'''        flags.push(crate::analysis::result::AnalysisFlag::WeakTonality);
    }

    // Phase 1E''','''        if bpm > 0.0 || key_confidence > 0.0 {
            flags.push(crate::analysis::result::AnalysisFlag::WeakTonality);
        }
    }

    // Phase 1E''')],
"a clip where neither key nor tempo can be determined (shorter than one frame)","an undetermined key is reported without the weak-tonality flag",'''
fn main() {
    let mut a = AnalysisConfig::default();
    a.enable_silence_trimming = false;
    let s = vec![0.3f32; 1500]; // less than one frame
    let r = run(&s, 22050, &a);
    check(r.key_clarity == 0.0 && r.key_confidence == 0.0, "unexpected key");
    let flagged = r.metadata.flags.iter().any(|f| format!("{f:?}") == "WeakTonality");
    check(flagged, "undetermined key without the weak-tonality flag");
    check(!r.metadata.confidence_warnings.is_empty(), "no warning");
}
''')

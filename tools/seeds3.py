import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
L='src/lib.rs'; D='src/features/key/detector.rs'; R='src/analysis/result.rs'; B='src/features/beat_tracking/mod.rs'
seed('s15-low-clarity-segment-loops','S15',[(D,'''            // Only include segments above clarity threshold
            if seg_clarity >= min_clarity {
                used_segments += 1;
                let combined_weight = seg_clarity * scale_weight;
                total_weight += combined_weight;

                // Accumulate scores weighted by clarity and scale weight
                for (k, s) in seg_res.all_scores.iter() {
                    if let Some((_kk, dst)) = acc_scores.iter_mut().find(|(kk, _)| kk == k) {
                        *dst += *s * combined_weight;
                    }
                }
            }

            start += hop;
''','''            // Only include segments above clarity threshold
            if seg_clarity < min_clarity {
                continue;
            }
            used_segments += 1;
            let combined_weight = seg_clarity * scale_weight;
            total_weight += combined_weight;

            // Accumulate scores weighted by clarity and scale weight
            for (k, s) in seg_res.all_scores.iter() {
                if let Some((_kk, dst)) = acc_scores.iter_mut().find(|(kk, _)| kk == k) {
                    *dst += *s * combined_weight;
                }
            }

            start += hop;
''')],"multi-scale key detection meeting a segment whose clarity is below the threshold","the scan never advances past an unclear segment: the analysis hangs",'''
use features::key::{detector::detect_key_multi_scale, templates::KeyTemplates};
fn main() {
    if arg().is_some() {
        let flat = vec![vec![0.25f32; 12]; 40];
        let mut mixed = flat.clone();
        for f in mixed.iter_mut().take(20) { for (i, x) in f.iter_mut().enumerate() { *x = if [0, 4, 7].contains(&i) { 0.57 } else { 0.01 }; } }
        for c in [flat, mixed] {
            for m in [0.0f32, 0.2, 0.9, 1.0] {
                let _ = detect_key_multi_scale(&c, &KeyTemplates::new(), None, &[10, 20], 5, m, None, false, 0.0, 0.0, false, 0.0);
            }
        }
        return;
    }
    let mut p = std::process::Command::new(std::env::current_exe().unwrap()).arg("go").spawn().unwrap();
    for _ in 0..300 {
        if let Some(s) = p.try_wait().unwrap() {
            check(s.success(), "crashed");
            return;
        }
        std::thread::sleep(std::time::Duration::from_millis(100));
    }
    let _ = p.kill();
    check(false, "key detection does not return");
}
''')
seed('s16-bar-phase','S16',[(B,'''    // First beat is always a downbeat
    downbeats.push(beats[0]);
''','''    // The first bar starts on the bar phase of the first beat
    downbeats.push(beats[0] % bar_interval);
''')],"a track whose first beat comes at least one bar after its start (an intro without beats)","the first downbeat lies a whole number of bars before the first beat and is not one of the beats",'''
use features::beat_tracking::generate_beat_grid;
fn main() {
    for (bpm, off) in [(120.0f32, 0.25f32), (120.0, 5.3), (90.0, 11.0), (140.0, 3.0)] {
        let on: Vec<f32> = (0..32).map(|i| off + i as f32 * 60.0 / bpm).collect();
        let (g, _) = generate_beat_grid(bpm, 0.9, &on, 44100).expect("grid");
        check(g.beats.windows(2).all(|w| w[0] <= w[1]), "beats out of order");
        check(g.downbeats.iter().all(|d| g.beats.contains(d)), "a downbeat is not a beat");
        check(g.bars == g.downbeats, "bars differ from downbeats");
    }
}
''')
seed('s17-relative-major-overflow','S17',[(R,'''                let key_idx = *i as usize % 12;
                // Minor keys follow the same circle of fifths pattern
                // Relative minor of 1A (C) is 1B (Am), relative minor of 2A (G) is 2B (Em), etc.
                let circle_of_fifths_minor = [9, 4, 11, 6, 1, 8, 3, 10, 5, 0, 7, 2]; // Am, Em, Bm, F#m, C#m, G#m, D#m, A#m, Fm, Cm, Gm, Dm
                let position = circle_of_fifths_minor
''','''                // A minor key has the number of its relative major, three semitones up
                let key_idx = (*i + 3) as usize % 12;
                let position = circle_of_fifths_major
''')],"a minor key with a tonic index near the top of the u32 range (for example one read from a file)","the numeric notation of that key overflows instead of falling back",'''
use analysis::result::Key;
fn main() {
    for base in [0u32, 1200, u32::MAX - 40] {
        for d in 0..=40u32 {
            for k in [Key::Major(base + d), Key::Minor(base + d)] {
                let ok = std::panic::catch_unwind(|| (k.name(), k.numerical())).is_ok();
                check(ok, &format!("{k:?} cannot be written"));
            }
        }
    }
    for t in ["", "1", "A", "1é", "é", "🎵", "0A", "13B", "99999999999999999999A", "-1A"] {
        check(std::panic::catch_unwind(|| Key::from_numerical(t)).is_ok(), t);
    }
}
''')
seed('s19-candidates-for-debug','S19',[(L,'''                    if config.emit_tempogram_candidates {
                        tempogram_candidates = Some(
                            chosen_cands''','''                    if config.emit_tempogram_candidates || config.debug_track_id.is_some() {
                        tempogram_candidates = Some(
                            chosen_cands''')],"multi-resolution mode with a debug track id set and the candidate list not requested","the result carries a candidate list nobody requested",'''
fn main() {
    for bpm in [65.0f32, 120.0] {
        let s = music(22050, 6.0, bpm, &A_MINOR, 0.05);
        for id in [None, Some(7u32)] {
            let mut c = AnalysisConfig::default();
            c.debug_track_id = id;
            c.emit_tempogram_candidates = false;
            let r = run(&s, 22050, &c);
            check(r.metadata.tempogram_candidates.is_none(), "candidate list present although not requested");
            c.emit_tempogram_candidates = true;
            let r = run(&s, 22050, &c);
            check(r.metadata.tempogram_candidates.is_some(), "candidate list missing");
        }
    }
}
''')
seed('s21-ensemble-minor-offset','S21',[(D,'''    // Combine scores for all 24 keys
    for key_idx in 0..24 {
        let key = if key_idx < 12 {
            Key::Major(key_idx as u32)
        } else {
            Key::Minor((key_idx - 12) as u32)
        };

        let kk_score = kk_scores''','''    // Combine scores for all 24 keys, each major next to its relative minor
    for key_idx in 0..24 {
        let key = if key_idx % 2 == 0 {
            Key::Major(key_idx as u32 / 2)
        } else {
            Key::Minor(key_idx as u32 / 2 + 9)
        };

        let kk_score = kk_scores''')],"ensemble key detection, looking at the ranking beyond the first minor keys","relative minors are not wrapped around the octave: the ranking lists tonic indices up to 20",'''
use analysis::result::Key;
use features::key::detector::detect_key_ensemble;
fn main() {
    let c: Vec<Vec<f32>> = (0..60).map(|_| (0..12).map(|i| if [0usize, 4, 7].contains(&i) { 0.55 } else { 0.03 }).collect()).collect();
    let r = detect_key_ensemble(&c, None, 0.5, 0.5).expect("key");
    for (k, _) in r.all_scores.iter().chain(r.top_keys.iter()) {
        let (Key::Major(i) | Key::Minor(i)) = k;
        check(*i < 12, &format!("{k:?}"));
    }
}
''')
seed('s22-exact-doubling','S22',[(L,'''                                let forbid_promote_high =
                                    base_est.bpm <= 180.0 && mr_est.bpm > 180.0;
''','''                                let forbid_promote_high = base_est.bpm <= 180.0
                                    && mr_est.bpm > 180.0
                                    && !family_related;
''')],"a very fast track the first pass folds to half tempo, with a range that admits the double","a first pass below 180 is promoted to its double above 180",'''
fn main() {
    for bpm in [120.0f32, 240.0, 250.0] {
        let s = music(22050, 8.0, bpm, &A_MINOR, 0.05);
        for w in [(0.5f32, 0.3f32, 0.2f32), (0.0, 1.0, 0.0)] {
            let mut c = AnalysisConfig::default();
            c.min_bpm = 40.0;
            c.max_bpm = 400.0;
            c.enable_tempogram_percussive_fallback = false;
            c.tempogram_multi_res_w512 = w.0;
            c.tempogram_multi_res_w256 = w.1;
            c.tempogram_multi_res_w1024 = w.2;
            let r = run(&s, 22050, &c);
            c.enable_tempogram_multi_resolution = false;
            let r0 = run(&s, 22050, &c);
            check(r0.bpm > 180.0 || r.bpm <= 180.0, &format!("{} promoted to {}", r0.bpm, r.bpm));
        }
    }
}
''')

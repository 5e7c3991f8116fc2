import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
T='src/features/period/tempogram.rs'
seed('s24-fold-below-minimum','S24',[(T,'if folded >= min_bpm && folded <= max_bpm {','if folded >= PREFERRED_MIN {'),(T,'best = folded_scored;','''best = ScoredCandidate {
                        bpm: folded,
                        ..folded_scored
                    };''')],"a tempo above the preferred band whose half lies just below the configured minimum","the fold to the half tempo reports a tempo below the configured minimum",'''
use features::period::tempogram::estimate_bpm_tempogram as est;
fn main() {
    let (sr, hop) = (44100u32, 512u32);
    let mut n = 0;
    for bpm10 in (1820..2360).step_by(7) {
        let bpm = bpm10 as f32 / 10.0;
        for d in [0.05f32, 0.4] {
            let mn = bpm * 0.5 + d;
            let per = sr as f32 * 60.0 / bpm / hop as f32;
            for acc in [1.0f32, 0.4] {
                let fr: Vec<Vec<f32>> = (0..1200).map(|i| {
                    let ph = i as f32 / per;
                    let k = ph.floor();
                    let g = if (k as i32) % 2 == 0 { 1.0 } else { acc };
                    vec![if (ph - k) * per < 1.0 { g } else { 0.01 }; 64]
                }).collect();
                if let Ok(e) = est(&fr, sr, hop, mn, 240.0, 0.5) {
                    n += 1;
                    check(e.bpm >= mn && e.bpm <= 240.0, &format!("tempo {} in {}..240", e.bpm, mn));
                }
            }
        }
    }
    check(n > 0, "some tempo estimated");
}
''')
M='src/features/period/multi_resolution.rs'
seed('s24-multires-tolerant-range','S24',[(M,'''        local.retain(|(b, _)| *b >= min_bpm && *b <= max_bpm);

        // Mild''','''        // (support lookups accept neighbours within `tol`, so accept the same here)
        local.retain(|(b, _)| *b >= min_bpm - tol && *b <= max_bpm + tol);

        // Mild''')],"multi-resolution estimation favouring octave switches, of a track whose half (or double) tempo lies just outside the configured range","the half-time (double-time) hypothesis just outside the range survives and is reported",'''
use features::period::multi_resolution::multi_resolution_tempogram_from_samples as est;
fn main() {
    let sr = 22050u32;
    let mut n = 0;
    for bpm10 in (1000..2300).step_by(90) {
        let bpm = bpm10 as f32 / 10.0;
        let per = 60.0 / bpm * sr as f32;
        let s: Vec<f32> = (0..sr as usize * 10).map(|i| {
            let k = (i as f32 / per).floor();
            let t = (i as f32 - k * per) / sr as f32;
            let g = if (k as i32) % 2 == 0 { 1.0 } else { 0.35 };
            g * (-t * 60.0).exp() * (t * 9000.0).sin()
        }).collect();
        for d in [0.1f32, 0.4, 0.8] {
            for (mn, mx) in [(bpm * 0.5 + d, 240.0), (30.0, bpm * 2.0 - d)] {
                if let Ok((e, _)) = est(&s, sr, 1024, mn, mx, 0.5, 10, 0.8, 0.1, 0.1, 0.85, 3.0, 0.0, false, None) {
                    n += 1;
                    check(e.bpm >= mn && e.bpm <= mx, &format!("tempo {} in {}..{}", e.bpm, mn, mx));
                }
            }
        }
    }
    check(n > 0, "some tempo estimated");
}
''')

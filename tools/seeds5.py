import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
H='src/features/onset/hpss.rs'; D='src/features/key/detector.rs'
seed('s26-edges-after-sort','S26',[(H,'''    // Handle edge cases
    if energy_flux.len() > 1''','''    // The scan above visits each frame once: ordered and unique already
    onsets.sort_unstable();
    onsets.dedup();

    // Handle edge cases
    if energy_flux.len() > 1'''),(H,'''    // Sort and deduplicate
    onsets.sort_unstable();
    onsets.dedup();

''','')],"percussive energy that jumps on the very first frame, with another onset later","the onset of the first frame comes last in the list: the frame indices are not ascending",'''
use features::onset::hpss::detect_hpss_onsets;
fn main() {
    let lvl = |e: &[f32]| -> Vec<Vec<f32>> { e.iter().map(|x| vec![*x; 8]).collect() };
    let asc = |v: &[usize]| v.windows(2).all(|w| w[0] < w[1]);
    let o = detect_hpss_onsets(&lvl(&[0.1, 0.1, 0.9, 0.1, 0.1, 0.8, 0.1, 0.1, 0.1, 0.7, 0.1, 0.1]), 0.5).unwrap();
    check(o.len() == 3 && asc(&o), "onsets inside the track");
    let o = detect_hpss_onsets(&lvl(&[0.0, 0.9, 0.1, 0.1, 0.1, 0.1, 0.8, 0.1, 0.1, 0.1, 0.1, 0.1]), 0.5).unwrap();
    check(o.contains(&1) && o.contains(&6), "both onsets found");
    check(asc(&o), "frame indices ascending");
}
''')
seed('s26-resort-only-new-winner','S26',[(D,'''    // Re-sort with the bonus applied and compute the new best key.
    scores.sort_by(|a, b| b.1.total_cmp(&a.1));
''','''    // Re-sort if the bonus produced a new best key.
    if scores.iter().any(|s| s.1 > scores[0].1) {
        scores.sort_by(|a, b| b.1.total_cmp(&a.1));
    }
''')],"minor-key bonus enabled, on music where it reorders the runners-up but not the winner","the ranked list of all keys is returned in the order it had before the bonus: not highest first",'''
use features::key::{detector::detect_key_weighted_mode_heuristic, templates::KeyTemplates};
fn main() {
    let t = KeyTemplates::new();
    let mut x = 12345u64;
    let mut rnd = || { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((x >> 40) as f32) / (1u64 << 24) as f32 };
    for k in 0..400usize {
        let v: Vec<Vec<f32>> = vec![(0..12).map(|_| rnd()).collect(); 20];
        for w in [0.0f32, 0.1, 0.3, 0.5, 0.8] {
            let r = detect_key_weighted_mode_heuristic(&v, &t, None, 0.0, 0.5, true, w).unwrap();
            check(r.all_scores.len() == 24, "24 scores");
            check(r.all_scores.windows(2).all(|p| p[0].1 >= p[1].1), &format!("scores ranked highest first (case {k}, weight {w})"));
        }
    }
}
''')

import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
HP='src/features/onset/hpss.rs'; SI='src/preprocessing/silence.rs'
seed('s36-attack-peak-frame','S36',[(HP,'''            // Frame index is i+1 (since flux[i] is between frame i and i+1)
            onsets.push(i + 1);
''','''            // Frame index is i+1 (since flux[i] is between frame i and i+1);
            // a very steep attack peaks a little later
            let lag = if flux > 50.0 * threshold { 2 } else { 0 };
            onsets.push(i + 1 + lag);
''')],"a very strong percussive onset in the last frames","the onset is placed on a frame that does not exist",'''
use features::onset::hpss::detect_hpss_onsets as onsets;
fn main() {
    let n = 40usize;
    for hit in [5usize, 20, n - 3, n - 2, n - 1] {
        for level in [0.2f32, 1.0, 10.0] {
            let frames: Vec<Vec<f32>> = (0..n)
                .map(|i| vec![if i == hit { level } else { 0.01 + 0.001 * (i % 3) as f32 }; 64])
                .collect();
            for o in onsets(&frames, 0.8).unwrap() {
                check(o < n, &format!("onset at frame {o} of {n} (hit at {hit}, level {level})"));
            }
        }
    }
}
''')
seed('s36-declick-trim','S36',[(SI,'''    let trimmed = if trim_start < trim_end && trim_end <= samples.len() {
        samples[trim_start..trim_end].to_vec()
''','''    let trimmed = if trim_start < trim_end && trim_end <= samples.len() {
        let mut kept = samples[trim_start..trim_end].to_vec();
        if trim_start > 0 {
            // avoid a click at the cut
            for (i, s) in kept.iter_mut().take(32).enumerate() {
                *s *= i as f32 / 32.0;
            }
        }
        kept
''')],"leading near-silence (noise floor) that is trimmed away","the first samples of the trimmed audio are not those of the original: the first attack is faded",'''
use preprocessing::silence::{detect_and_trim, SilenceDetector};
fn main() {
    let sr = 44100u32;
    for lead in [0usize, 22050, 44100] {
        let mut s: Vec<f32> = (0..lead).map(|i| 0.001 * (i as f32 * 0.3).sin()).collect();
        s.extend((0..44100).map(|i| 0.5 * (i as f32 * 0.05).sin() + 0.1));
        let (t, map) = detect_and_trim(&s, sr, SilenceDetector::default()).unwrap();
        check(!t.is_empty() && t.len() <= s.len(), "length");
        let found = (0..=s.len() - t.len()).any(|a| s[a] == t[0] && s[a..a + t.len()] == t[..]);
        check(found, &format!("the trimmed audio is a stretch of the original (leading silence {lead})"));
        check(map.iter().all(|(a, b)| *a <= s.len() && *b <= s.len()), "regions");
    }
}
''')

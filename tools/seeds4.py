import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
K='src/features/key/key_changes.rs'
seed('s25-segments-counted-not-kept','S25',[(K,'''    if segment_keys.is_empty() {
        return Err(''','''    if segment_idx == 0 {
        return Err(''')],"key-change detection over chroma whose every segment fails key detection (e.g. 11 pitch classes)","segments that were tried but gave no key pass the emptiness check, and the most common of no keys is unwrapped: a panic instead of an error",'''
use features::key::{key_changes::detect_key_changes, templates::KeyTemplates};
fn main() {
    let good: Vec<Vec<f32>> = (0..200).map(|_| (0..12).map(|i| if [0usize, 4, 7].contains(&i) { 0.55 } else { 0.03 }).collect()).collect();
    let t = KeyTemplates::new();
    check(detect_key_changes(&good, 44100, 4410, &t, 4.0, 2.0).is_ok(), "key changes of a plain track");
    let bad: Vec<Vec<f32>> = (0..200).map(|_| vec![0.1f32; 11]).collect();
    let r = std::panic::catch_unwind(|| detect_key_changes(&bad, 44100, 4410, &KeyTemplates::new(), 4.0, 2.0).is_err());
    check(matches!(r, Ok(true)), "an error, not a panic");
}
''')

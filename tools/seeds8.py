import sys; sys.path.insert(0,'/verif/tools')
from seedlib import seed
CE='src/features/chroma/extractor.rs'
seed('s29-blend-needs-bass','S29',[(CE,'''        )?;

        let mut blend''','''        )?;
        if bass.iter().all(|x| *x == 0.0) {
            // nothing to blend with
            continue;
        }

        let mut blend''')],"a frame without any energy in the bass band","the frame is left out of the chroma but not of the energies: everything after it is shifted",'''
use features::chroma::extractor::extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned as hpcp;
fn main() {
    for quiet in [usize::MAX, 0, 3, 7] {
        let frames: Vec<Vec<f32>> = (0..8)
            .map(|i| {
                let mut f = vec![0.0f32; 1025];
                if i != quiet {
                    for (k, b) in [(4usize, 0.9f32), (6, 0.7), (20, 1.0), (25, 0.8), (30, 0.6)] { f[k] = b; }
                }
                f
            })
            .collect();
        let (c, e) = hpcp(&frames, 44100, 2048, 0.5, 0.0, 24, 4, 0.6, 0.5, false, 31, 55.0, 300.0, 0.35).unwrap();
        check(e.len() == frames.len(), "one energy per frame");
        check(c.len() == frames.len(), &format!("{} chroma rows for {} frames (silent frame {quiet})", c.len(), frames.len()));
        check(c.iter().all(|r| r.len() == 12), "12 pitch classes");
    }
}
''')
seed('s29-frame-budget','S29',[(CE,'''    for frame in magnitude_spec_frames {
        let e: f32 = frame.iter().map(|&x| x * x).sum();
        energies.push(e);
        chroma_vectors.push(frame_to_chroma_tuned(''','''    // Keep memory bounded on very long material
    const MAX_FRAMES: usize = 20_000;

    for frame in magnitude_spec_frames.iter().take(MAX_FRAMES) {
        let e: f32 = frame.iter().map(|&x| x * x).sum();
        energies.push(e);
        chroma_vectors.push(frame_to_chroma_tuned(''')],"more than 20000 frames (about four minutes of audio)","the chroma of the rest of the track is missing: fewer rows than spectra",'''
use features::chroma::extractor::extract_chroma_from_spectrogram_with_options_and_energy_tuned as chroma;
fn main() {
    for n in [1usize, 10, 500, 20_500] {
        let mut f = vec![0.0f32; 129];
        f[9] = 1.0;
        f[12] = 0.5;
        let frames = vec![f; n];
        let (c, e) = chroma(&frames, 44100, 256, false, 0.5, 0.0).unwrap();
        check(c.len() == n && e.len() == n, &format!("{} rows, {} energies for {n} frames", c.len(), e.len()));
    }
}
''')
seed('s29-beats-without-frames','S29',[(CE,'''            // Empty beat interval - use zero chroma
            beat_chroma_vectors.push(vec![0.0f32; 12]);
            beat_energies.push(0.0);
''','''            // Empty beat interval - carry the previous one on
            if let (Some(c), Some(e)) = (beat_chroma_vectors.last().cloned(), beat_energies.last().copied()) {
                beat_chroma_vectors.push(c);
                beat_energies.push(e);
            }
''')],"a first beat interval into which no frame falls (two beats closer together than one hop)","one row too few: every later row is taken for the interval before it",'''
use features::chroma::extractor::extract_beat_synchronous_chroma as beats;
fn main() {
    let mut f = vec![0.0f32; 1025];
    f[20] = 1.0;
    let frames = vec![f; 200];
    for t in [vec![0.0f32, 0.5, 1.0, 1.5], vec![0.0, 0.5, 0.503, 1.0], vec![0.502, 0.505, 1.0, 1.5], vec![0.1, 9.0, 10.0]] {
        let (c, e) = beats(&frames, 44100, 2048, 512, &t, false, 0.5, 0.0).unwrap();
        check(c.len() == t.len() - 1 && e.len() == t.len() - 1, &format!("{} rows, {} energies for the beats {:?}", c.len(), e.len(), t));
    }
}
''')

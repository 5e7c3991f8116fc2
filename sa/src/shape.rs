//! S29: frame-wise stages keep one output per frame.
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::rc::Rc;

/// what a stage makes of `n` rows of `w` values
#[derive(Clone, Copy, PartialEq)]
enum Shape {
    /// `n` rows of `w` values
    Same,
    /// `n` rows of 12, and as many further values
    Chroma,
    /// `n` rows
    Rows,
    /// one value for every two successive rows
    Steps,
    /// `n` values
    Line,
    /// one row of 12 and one value for every two successive beat times
    Beats,
    /// one row per position of the window
    Windows,
    /// one row of 12 per position of the window
    WindowChroma,
}
use self::Shape::*;
const STAGES: &[(&str, Shape)] = &[
    ("stereo_to_mono", Line),
    ("compute_stft", Windows),
    ("extract_chroma", WindowChroma),
    ("extract_chroma_with_options", WindowChroma),
    ("extract_chroma_from_spectrogram_with_options", Chroma),
    ("extract_chroma_from_spectrogram_with_options_and_energy", Chroma),
    ("extract_chroma_from_spectrogram_with_options_and_energy_tuned", Chroma),
    ("extract_hpcp_from_spectrogram_with_options_and_energy_tuned", Chroma),
    ("extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned", Chroma),
    ("extract_beat_synchronous_chroma", Beats),
    ("convert_linear_to_log_frequency_spectrogram", Rows),
    ("extract_chroma_from_log_frequency_spectrogram", Chroma),
    ("smooth_spectrogram_time", Same),
    ("harmonic_spectrogram_time_mask", Same),
    ("harmonic_spectrogram_hpss_median_mask", Same),
    ("hpss_decompose", Same),
    ("smooth_chroma", Same),
    ("smooth_chroma_average", Same),
    ("sharpen_chroma", Line),
    ("l2_normalize_chroma", Line),
    ("spectral_flux_novelty", Steps),
    ("superflux_novelty", Steps),
    ("superflux_novelty_band", Steps),
    ("mel_superflux_novelty", Steps),
    ("energy_flux_novelty", Steps),
    ("energy_flux_novelty_band", Steps),
    ("hfc_novelty", Steps),
    ("hfc_novelty_band", Steps),
    ("combined_novelty", Line),
    ("combined_novelty_with_params", Line),
];
/// may fall below zero: the samples themselves; a running difference of sums
const SIGNED: &[&str] = &["stereo_to_mono", "smooth_spectrogram_time", "convert_linear_to_log_frequency_spectrogram"];
const W: i128 = 20;
/// a window of 64 samples moved on by 24
const SIZE: i128 = 64;
const HOP: i128 = 24;
const COUNTS: [i128; 6] = [1, 2, 3, 5, 1000, 1_000_003];

/// every float an ordinary non-negative number, every list of exactly `n` rows of `w`
fn sized(v: &V, n: i128, w: i128) -> V {
    let k = match &v.k {
        K::F(f) => K::F(Fl { nan: false, lo: 0.0, hi: 1e9, ..*f }),
        K::R(r) => {
            let mut r = (**r).clone();
            r.det = r.det.as_ref().map(|x| sized(x, n, w));
            K::R(Rc::new(r))
        }
        K::C(c) => {
            let mut c = (**c).clone();
            c.el = sized(&c.el, w, w);
            (c.lo, c.hi) = (n, n);
            K::C(Rc::new(c))
        }
        k => k.clone(),
    };
    V { lab: v.lab, tok: v.tok, k }
}
/// the lists directly inside a result
fn lists<'a>(v: &'a V, res: bool, out: &mut Vec<&'a V>) {
    match &v.k {
        K::E(e) => e.vs.iter().filter(|(k, _)| !res || **k == 0).for_each(|(_, x)| x.iter().for_each(|y| lists(y, false, out))),
        K::S(x) => x.iter().for_each(|y| lists(y, false, out)),
        K::Bot => {}
        _ => out.push(v),
    }
}
fn len(v: &V) -> Option<(i128, i128)> {
    match &v.k {
        K::C(c) => Some((c.lo, c.hi)),
        K::Bot => Some((0, 0)),
        _ => None,
    }
}
fn low(v: &V) -> bool {
    match &v.k {
        K::C(c) => low(&c.el),
        K::F(f) => f.lo < 0.0,
        K::Bot => false,
        _ => true,
    }
}

/// what the lists returned for `n` frames look like: length, width of the rows, negative values
type Seen = Vec<(Option<(i128, i128)>, Option<Option<(i128, i128)>>, bool)>;

fn run(p: &Prog, fi: usize, out: Shape, n: i128, r: &mut Report) -> Seen {
    let f = &p.fns[fi];
    let mut it = Interp::new(p);
    it.lenm = true;
    let win = matches!(out, Windows | WindowChroma);
    let args: Vec<V> = (1..=f.argc)
        .map(|i| {
            let l = &f.locals[i];
            let v = it.top_of(l.t);
            match l.n.as_deref().unwrap_or("") {
                "frame_size" if win => V::i(SIZE, SIZE),
                "hop_size" if win => V::i(HOP, HOP),
                // some samples are left over at the end
                "samples" if win => sized(&v, SIZE + HOP * (n - 1) + 7, W),
                "beat_times" => sized(&v, n + 1, W),
                "bin_start" => V::i(0, 5),
                "bin_end" => V::i(8, 15),
                _ if out == Beats => sized(&v, 50, W),
                _ => sized(&v, n, W),
            }
        })
        .collect();
    let o = it.analyze_root(fi, args);
    r.contexts += it.analyses;
    r.blocks += it.reached.len();
    r.fns.extend(it.visited.iter().map(|i| p.fns[*i].name.clone()));
    r.unmodeled.extend(it.unmodeled.keys().cloned());
    let mut ls = vec![];
    lists(&o.ret, p.is_result(f.locals[0].t), &mut ls);
    ls.iter()
        .map(|v| {
            let rows = match &v.k {
                K::C(c) if matches!(c.el.k, K::C(_) | K::Top) => Some(len(&c.el)),
                _ => None,
            };
            (len(v), rows, low(v))
        })
        .collect()
}

pub fn s29(cx: &Cx) -> Report {
    let jobs: Vec<(usize, Shape)> = STAGES.iter().filter_map(|(n, o)| cx.fun(n).map(|f| (f, *o))).collect();
    if jobs.is_empty() {
        return missing(STAGES[0].0);
    }
    all(par(jobs, |(fi, out)| {
        let f = &cx.p.fns[fi];
        let mut r = Report::default();
        let want = |n: i128| if out == Steps { n - 1 } else { n };
        let cols = match out {
            Same => Some(W),
            Chroma | Beats | WindowChroma => Some(12),
            _ => None,
        };
        let seen: Vec<(i128, Seen)> = COUNTS.iter().map(|n| (*n, run(cx.p, fi, out, *n, &mut r))).collect();
        let exact = |x: &Option<(i128, i128)>, w: i128| *x == Some((w, w));
        let can = |x: &Option<(i128, i128)>, w: i128| x.map_or(true, |(a, b)| a <= w && w <= b);
        let lists = seen.iter().map(|s| s.1.len()).max().unwrap_or(0);
        // where no count is settled by the lengths alone: the first rounds of every loop one by one
        let settled = |s: &[(i128, Seen)], i: usize, big: i128| s.iter().any(|(n, s)| *n >= big && s.get(i).map_or(false, |x| exact(&x.0, want(*n))));
        let rows_ok = |s: &[(i128, Seen)], i: usize| s.iter().all(|(_, s)| s.get(i).map_or(true, |x| x.1.zip(cols).map_or(true, |(g, w)| exact(&g, w))));
        let open: Vec<bool> = (0..lists).map(|i| !settled(&seen, i, 5) && seen.iter().all(|(n, s)| s.get(i).map_or(true, |x| can(&x.0, want(*n))))).collect();
        let wide: Vec<bool> = (0..lists).map(|i| !rows_ok(&seen, i) && seen.iter().all(|(_, s)| s.get(i).map_or(true, |x| x.1.zip(cols).map_or(true, |(g, w)| can(&g, w))))).collect();
        let first: Vec<(i128, Seen)> = if open.iter().chain(wide.iter()).any(|x| *x) {
            let mut q = cx.p.clone();
            crate::peel::unroll(&mut q, 3);
            [1, 2, 3].iter().map(|n| (*n, run(&q, fi, out, *n, &mut r))).collect()
        } else {
            vec![]
        };
        for i in 0..lists {
            let by = if open[i] { &first } else { &seen };
            for (n, s) in by {
                let Some(x) = s.get(i) else { continue };
                let what = format!("{}: list {} for {}", f.name, i, n);
                r.ob(exact(&x.0, want(*n)), &format!("{} rows {}", f.name, i), &format!("{} has {} entries instead of {}", what, show(x.0), want(*n)), &f.at, || format!("{} has {} entries", what, want(*n)));
            }
            // the only row of a list of one
            let by = if wide[i] { &first[..1] } else { &seen[..] };
            for (n, s) in by {
                let Some(x) = s.get(i) else { continue };
                let what = format!("{}: list {} for {}", f.name, i, n);
                if let (Some(g), Some(w)) = (x.1, cols) {
                    r.ob(exact(&g, w), &format!("{} columns {}", f.name, i), &format!("{}: rows of {} values instead of {}", what, show(g), w), &f.at, || format!("{}: rows of {}", what, w));
                }
            }
            if !SIGNED.iter().any(|s| f.name.ends_with(&format!("::{}", s))) {
                for (n, s) in &seen {
                    let Some(x) = s.get(i) else { continue };
                    let what = format!("{}: list {} for {}", f.name, i, n);
                    r.ob(!x.2, &format!("{} sign {}", f.name, i), &format!("{}: a value can be negative", what), &f.at, || format!("{}: no value is negative", what));
                }
            }
        }
        r
    }))
}
fn show(x: Option<(i128, i128)>) -> String {
    match x {
        Some((a, b)) if a == b => a.to_string(),
        Some((a, b)) if b >= LMAX => format!("{} or more", a),
        Some((a, b)) => format!("{} to {}", a, b),
        None => "unknown".into(),
    }
}

/// where the numbers in a result may point to
#[derive(Clone, Copy, PartialEq)]
enum Span {
    /// a frame (a value of the curve) there is, for `n` of them
    Frames,
    /// a sample of the audio, cut into `n` windows
    Samples,
    /// a sample of the audio or the end of it
    Ends,
}
use self::Span::*;
const SPANS: &[(&str, Span)] = &[
    ("detect_spectral_flux_onsets", Frames),
    ("detect_hfc_onsets", Frames),
    ("detect_hpss_onsets", Frames),
    ("find_peaks", Frames),
    ("detect_energy_flux_onsets", Samples),
    ("detect_and_trim", Ends),
];

/// the interval of the whole numbers in a list's entries
fn ints(v: &V, out: &mut Option<(i128, i128)>, unknown: &mut bool) {
    match &v.k {
        K::C(c) => ints(&c.el, out, unknown),
        K::S(x) => x.iter().for_each(|y| ints(y, out, unknown)),
        K::I(a, b) => *out = Some(out.map_or((*a, *b), |(c, d)| (c.min(*a), d.max(*b)))),
        K::F(_) | K::Bot => {}
        _ => *unknown = true,
    }
}

/// one fact about a result: what it is about, whether it holds, whether nothing at all is known, the words for either case
struct Fact {
    key: String,
    ok: bool,
    open: bool,
    bad: String,
    good: String,
}
fn facts(p: &Prog, fi: usize, out: Span, k: i128, r: &mut Report) -> Vec<Fact> {
    let f = &p.fns[fi];
    // some samples are left over at the end, or none; windows overlap, or leave gaps; not even one window
    let mut sizes = match out {
        Frames => vec![(k, 0, 0)],
        _ => vec![(SIZE + HOP * (k - 1) + 7, SIZE, HOP), (SIZE + HOP * (k - 1), SIZE, HOP), (16 + 40 * (k - 1), 16, 40)],
    };
    if out != Frames && k == 1 {
        sizes.push((11, SIZE, HOP));
    }
    let mut fs = vec![];
    for (n, size, hop) in sizes {
        let mut it = Interp::new(p);
        it.lenm = true;
        let args: Vec<V> = (1..=f.argc)
            .map(|i| {
                let l = &f.locals[i];
                let v = it.top_of(l.t);
                match l.n.as_deref().unwrap_or("") {
                    "frame_size" => V::i(size, size),
                    "hop_size" => V::i(hop, hop),
                    _ if matches!(v.k, K::F(_)) => sized(&v, n, W),
                    _ => framed(p, l.t, &mark(&sized(&v, n, W)), size),
                }
            })
            .collect();
        let o = it.analyze_root(fi, args);
        r.contexts += it.analyses;
        r.blocks += it.reached.len();
        r.fns.extend(it.visited.iter().map(|i| p.fns[*i].name.clone()));
        r.unmodeled.extend(it.unmodeled.keys().cloned());
        let mut ls = vec![];
        lists(&o.ret, p.is_result(f.locals[0].t), &mut ls);
        let top = if out == Ends { n } else { n - 1 };
        for (i, v) in ls.iter().enumerate() {
            let (mut g, mut unknown) = (None, false);
            ints(v, &mut g, &mut unknown);
            let what = format!("{}: list {} for {}", f.name, i, n);
            fs.push(Fact {
                key: format!("{} positions {}", f.name, i),
                ok: !unknown && g.map_or(true, |(a, b)| a >= 0 && b <= top),
                open: unknown || g.map_or(false, |(_, b)| b >= FAR),
                bad: format!("{}: a position can be {} instead of at most {}", what, show(g), top),
                good: format!("{}: every position is at most {}", what, top),
            });
            if out == Ends || f.name.ends_with("::find_peaks") {
                fs.push(Fact {
                    key: format!("{} values {}", f.name, i),
                    ok: copied(v),
                    open: false,
                    bad: format!("{}: a value need not be one of the values passed in", what),
                    good: format!("{}: every value is one of the values passed in", what),
                });
            }
            if let (Ends, None, l) = (out, g, len(v)) {
                fs.push(Fact {
                    key: format!("{} length {}", f.name, i),
                    ok: l.map_or(false, |(_, b)| b <= n),
                    open: l.map_or(true, |(_, b)| b >= FAR),
                    bad: format!("{} has {} entries, more than the {} passed in", what, show(l), n),
                    good: format!("{} has at most {} entries", what, n),
                });
            }
        }
    }
    fs
}
/// further than any position of the sizes analysed
const FAR: i128 = 1 << 31;

pub fn s36(cx: &Cx) -> Report {
    let jobs: Vec<(usize, Span)> = SPANS.iter().filter_map(|(n, o)| cx.fun(n).map(|f| (f, *o))).collect();
    if jobs.is_empty() {
        return missing(SPANS[0].0);
    }
    all(par(jobs, |(fi, out)| {
        let at = &cx.p.fns[fi].at;
        let mut r = Report::default();
        let mut fs: Vec<Fact> = COUNTS.iter().flat_map(|k| facts(cx.p, fi, out, *k, &mut r)).collect();
        // nothing known for any larger count: the first rounds of every loop one by one
        let lost: std::collections::BTreeSet<String> = fs.iter().filter(|x| !x.ok).map(|x| x.key.clone()).collect();
        let lost: Vec<String> = lost.into_iter().filter(|k| fs.iter().all(|x| x.key != *k || x.ok || x.open)).collect();
        if !lost.is_empty() {
            let mut q = cx.p.clone();
            crate::peel::unroll(&mut q, 3);
            fs.retain(|x| !lost.contains(&x.key));
            for k in [1, 2, 3] {
                fs.extend(facts(&q, fi, out, k, &mut r).into_iter().filter(|x| lost.contains(&x.key)));
            }
        }
        for x in fs {
            r.ob(x.ok, &x.key, &x.bad, at, || x.good.clone());
        }
        r
    }))
}
/// token of the values passed in
const IN: u128 = 1 << 7;
fn mark(v: &V) -> V {
    let k = match &v.k {
        K::F(f) => return V { lab: v.lab, tok: IN, k: K::F(*f) },
        K::R(r) => {
            let mut r = (**r).clone();
            r.det = r.det.as_ref().map(mark);
            K::R(Rc::new(r))
        }
        K::C(c) => {
            let mut c = (**c).clone();
            c.el = mark(&c.el);
            K::C(Rc::new(c))
        }
        k => k.clone(),
    };
    V { lab: v.lab, tok: v.tok, k }
}
/// every float is a copy of one passed in
fn copied(v: &V) -> bool {
    match &v.k {
        K::C(c) => copied(&c.el),
        K::S(x) => x.iter().all(copied),
        K::F(_) => v.tok & !IN == 0,
        K::I(..) | K::Bot => true,
        _ => false,
    }
}
/// the frame size of a detector's settings, wherever it is a field
fn framed(p: &Prog, t: usize, v: &V, size: i128) -> V {
    let (K::S(x), Some(vs)) = (&v.k, p.variants(t)) else { return v.clone() };
    let x: Vec<V> = x.iter().zip(vs[0].fs.iter()).map(|(y, f)| if f.n == "frame_size" { V::i(size, size) } else { y.clone() }).collect();
    V { lab: v.lab, tok: v.tok, k: K::S(Rc::new(x)) }
}

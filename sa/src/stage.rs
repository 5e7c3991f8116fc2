//! S11-S14: rejected arguments, ranges of reported figures, absence of crashes.
use crate::crash::*;
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;

const MAIN: &str = "analyze_audio";
/// (function, parameter position, invalid value, InvalidInput required / any error)
pub const REJECTED: &[(&str, usize, &str, bool)] = &[
    ("analyze_audio", 0, "empty", true), // samples
    ("analyze_audio", 1, "=0", true), // sample_rate
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 0, "empty", true), // samples
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 1, "=0", false), // sample_rate
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 2, "=0", true), // frame_size
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 3, "<=0.0", false), // min_bpm
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 4, "<=0.0", false), // max_bpm
    ("features::period::multi_resolution::multi_resolution_tempogram_from_samples", 5, "<=0.0", false), // bpm_resolution
    ("features::beat_tracking::generate_beat_grid", 0, "<=0.0", true), // bpm_estimate
    ("features::beat_tracking::generate_beat_grid", 2, "empty", true), // onsets
    ("features::key::detector::detect_key_weighted", 0, "empty", true), // chroma_vectors
    ("features::key::detector::detect_key_weighted_mode_heuristic", 0, "empty", true), // chroma_vectors
    ("features::period::autocorrelation::estimate_bpm_from_autocorrelation", 0, "empty", true), // onsets
    ("features::period::autocorrelation::estimate_bpm_from_autocorrelation", 1, "=0", true), // sample_rate
    ("features::period::autocorrelation::estimate_bpm_from_autocorrelation", 2, "=0", true), // hop_size
    ("features::period::autocorrelation::estimate_bpm_from_autocorrelation", 3, "<=0.0", true), // min_bpm
    ("features::period::autocorrelation::estimate_bpm_from_autocorrelation", 4, "<=0.0", true), // max_bpm
    ("features::onset::consensus::vote_onsets", 2, "=0", true), // tolerance_ms
    ("features::onset::consensus::vote_onsets", 3, "=0", true), // sample_rate
    ("features::onset::hpss::hpss_decompose", 0, "empty", true), // magnitude_spec
    ("features::period::multi_resolution::multi_resolution_analysis", 0, "empty", false), // magnitude_spec_frames
    ("features::period::multi_resolution::multi_resolution_analysis", 1, "=0", false), // sample_rate
    ("features::period::multi_resolution::multi_resolution_analysis", 3, "<=0.0", false), // min_bpm
    ("features::period::multi_resolution::multi_resolution_analysis", 4, "<=0.0", false), // max_bpm
    ("features::period::multi_resolution::multi_resolution_analysis", 5, "<=0.0", false), // bpm_resolution
    ("features::period::comb_filter::estimate_bpm_from_comb_filter", 0, "empty", true), // onsets
    ("features::period::comb_filter::estimate_bpm_from_comb_filter", 1, "=0", true), // sample_rate
    ("features::period::comb_filter::estimate_bpm_from_comb_filter", 3, "<=0.0", true), // min_bpm
    ("features::period::comb_filter::estimate_bpm_from_comb_filter", 4, "<=0.0", true), // max_bpm
    ("features::period::comb_filter::estimate_bpm_from_comb_filter", 5, "<=0.0", true), // bpm_resolution
    ("features::key::detector::detect_key_multi_scale", 0, "empty", true), // chroma_vectors
    ("features::key::detector::detect_key_multi_scale", 3, "empty", true), // segment_lengths_frames
    ("features::key::detector::detect_key_median", 0, "empty", true), // chroma_vectors
    ("features::key::key_changes::detect_key_changes", 0, "empty", true), // chroma_vectors
    ("features::key::key_changes::detect_key_changes", 4, "<=0.0", true), // segment_duration
    ("features::period::tempogram_fft::fft_tempogram", 0, "empty", true), // novelty_curve
    ("features::period::tempogram_fft::fft_tempogram", 1, "=0", true), // sample_rate
    ("features::period::tempogram_fft::fft_tempogram", 2, "=0", true), // hop_size
    ("features::period::tempogram_fft::fft_tempogram", 3, "<=0.0", true), // min_bpm
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 0, "empty", true), // novelty_curve
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 1, "=0", true), // sample_rate
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 2, "=0", true), // hop_size
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 3, "<=0.0", true), // min_bpm
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 4, "<=0.0", true), // max_bpm
    ("features::period::tempogram_autocorr::autocorrelation_tempogram", 5, "<=0.0", true), // bpm_resolution
    ("features::key::detector::detect_key_ensemble", 0, "empty", true), // chroma_vectors
    ("features::chroma::extractor::extract_chroma_with_options", 0, "empty", true), // samples
    ("features::chroma::extractor::extract_chroma_with_options", 1, "=0", true), // sample_rate
    ("features::chroma::extractor::extract_chroma_with_options", 2, "=0", true), // frame_size
    ("features::chroma::extractor::extract_chroma_with_options", 3, "=0", true), // hop_size
    ("features::period::comb_filter::coarse_to_fine_search", 0, "empty", true), // onsets
    ("features::period::comb_filter::coarse_to_fine_search", 1, "=0", true), // sample_rate
    ("features::period::comb_filter::coarse_to_fine_search", 3, "<=0.0", true), // min_bpm
    ("features::period::comb_filter::coarse_to_fine_search", 4, "<=0.0", true), // max_bpm
    ("features::beat_tracking::bayesian::BayesianBeatTracker::update_with_onsets", 1, "empty", true), // onsets
    ("features::chroma::extractor::compute_stft", 1, "=0", true), // frame_size
    ("features::chroma::extractor::compute_stft", 2, "=0", true), // hop_size
    ("features::onset::threshold::adaptive_threshold_median_mad", 0, "empty", true), // values
    ("preprocessing::normalization::normalize", 0, "empty", true), // samples
    ("features::onset::threshold::percentile_threshold", 0, "empty", true), // values
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 0, "empty", true), // magnitude_spec_frames
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 1, "=0", false), // sample_rate
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 2, "=0", false), // hop_size
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 3, "<=0.0", false), // min_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 4, "<=0.0", false), // max_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates", 5, "<=0.0", false), // bpm_resolution
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 0, "empty", true), // magnitude_spec_frames
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 1, "=0", false), // sample_rate
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 2, "=0", false), // hop_size
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 3, "<=0.0", false), // min_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 4, "<=0.0", false), // max_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_with_candidates_band_fusion", 5, "<=0.0", false), // bpm_resolution
    ("features::period::tempogram::estimate_bpm_tempogram", 0, "empty", true), // magnitude_spec_frames
    ("features::period::tempogram::estimate_bpm_tempogram", 1, "=0", false), // sample_rate
    ("features::period::tempogram::estimate_bpm_tempogram", 2, "=0", false), // hop_size
    ("features::period::tempogram::estimate_bpm_tempogram", 3, "<=0.0", false), // min_bpm
    ("features::period::tempogram::estimate_bpm_tempogram", 4, "<=0.0", false), // max_bpm
    ("features::period::tempogram::estimate_bpm_tempogram", 5, "<=0.0", false), // bpm_resolution
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 0, "empty", true), // magnitude_spec_frames
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 1, "=0", false), // sample_rate
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 2, "=0", false), // hop_size
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 3, "<=0.0", false), // min_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 4, "<=0.0", false), // max_bpm
    ("features::period::tempogram::estimate_bpm_tempogram_band_fusion", 5, "<=0.0", false), // bpm_resolution
    ("features::chroma::extractor::extract_chroma", 0, "empty", true), // samples
    ("features::chroma::extractor::extract_chroma", 1, "=0", true), // sample_rate
    ("features::chroma::extractor::extract_chroma", 2, "=0", true), // frame_size
    ("features::chroma::extractor::extract_chroma", 3, "=0", true), // hop_size
    ("features::key::detector::detect_key", 0, "empty", true), // chroma_vectors
    ("features::period::estimate_bpm", 0, "empty", true), // onsets
    ("features::period::estimate_bpm", 1, "=0", true), // sample_rate
    ("features::period::estimate_bpm", 2, "=0", true), // hop_size
    ("features::period::estimate_bpm", 3, "<=0.0", true), // min_bpm
    ("features::period::estimate_bpm", 4, "<=0.0", true), // max_bpm
    ("features::period::estimate_bpm", 5, "<=0.0", false), // bpm_resolution
    ("features::period::estimate_bpm_with_guardrails", 0, "empty", true), // onsets
    ("features::period::estimate_bpm_with_guardrails", 1, "=0", true), // sample_rate
    ("features::period::estimate_bpm_with_guardrails", 2, "=0", true), // hop_size
    ("features::period::estimate_bpm_with_guardrails", 3, "<=0.0", true), // min_bpm
    ("features::period::estimate_bpm_with_guardrails", 4, "<=0.0", true), // max_bpm
    ("features::period::estimate_bpm_with_guardrails", 5, "<=0.0", false), // bpm_resolution
];

/// combinations of arguments that are rejected with InvalidInput
fn combos() -> Vec<(&'static str, Vec<(usize, Av)>, &'static str)> {
    let ne = Av::Len(1, LMAX);
    let z = Av::I(0, 0);
    let hi = Av::F(1.001, 1e30);
    let lo = Av::F(-1e30, -0.001);
    let (a, b) = (Av::F(100.0, 200.0), Av::F(10.0, 99.0));
    let zf = Av::F(-1e30, 0.0);
    vec![
        ("detect_energy_flux_onsets", vec![(0, ne), (1, z)], "frame size 0"),
        ("detect_energy_flux_onsets", vec![(0, ne), (2, z)], "hop size 0"),
        ("detect_hfc_onsets", vec![(0, ne), (1, z)], "sample rate 0"),
        ("detect_hfc_onsets", vec![(0, ne), (2, hi)], "percentile above 1"),
        ("detect_hfc_onsets", vec![(0, ne), (2, lo)], "percentile below 0"),
        ("detect_spectral_flux_onsets", vec![(0, ne), (1, hi)], "percentile above 1"),
        ("detect_spectral_flux_onsets", vec![(0, ne), (1, lo)], "percentile below 0"),
        ("detect_hpss_onsets", vec![(0, ne), (1, hi)], "percentile above 1"),
        ("detect_hpss_onsets", vec![(0, ne), (1, lo)], "percentile below 0"),
        ("percentile_threshold", vec![(0, ne), (1, hi)], "percentile above 1"),
        ("percentile_threshold", vec![(0, ne), (1, lo)], "percentile below 0"),
        ("adaptive_threshold_median_mad", vec![(0, ne), (1, lo)], "negative k"),
        ("detect_and_trim", vec![(0, ne), (1, z)], "sample rate 0"),
        ("stereo_to_mono", vec![(0, Av::Len(3, 5)), (1, Av::Len(6, 9))], "left shorter than right"),
        ("stereo_to_mono", vec![(0, Av::Len(1, LMAX)), (1, Av::Len(0, 0))], "right channel missing"),
        ("estimate_bpm_from_autocorrelation", vec![(3, a), (4, b)], "minimum above maximum tempo"),
        ("estimate_bpm_from_comb_filter", vec![(3, a), (4, b)], "minimum above maximum tempo"),
        ("fft_tempogram", vec![(3, a), (4, b)], "minimum above maximum tempo"),
        ("fft_tempogram", vec![(3, a), (4, zf)], "maximum tempo not positive"),
        ("autocorrelation_tempogram", vec![(3, a), (4, b)], "minimum above maximum tempo"),
        ("estimate_bpm", vec![(3, a), (4, b)], "minimum above maximum tempo"),
        ("generate_beat_grid", vec![(0, Av::F(300.1, 1e30))], "tempo above 300"),
        ("hfc_novelty", vec![(0, ne), (1, z)], "sample rate 0"),
        ("mel_superflux_novelty", vec![(0, Av::Len(3, LMAX)), (1, z)], "sample rate 0"),
        ("multi_resolution_tempogram_from_samples", vec![(0, Av::Len(1, 100)), (2, Av::I(101, 1 << 20))], "audio shorter than a frame"),
    ]
}
fn find(cx: &Cx, name: &str) -> Option<usize> {
    if let Some(i) = cx.p.by_name.get(name) {
        return Some(*i);
    }
    let mut w: Vec<&str> = name.split("::").collect();
    // methods keep their type
    let k = if w.len() > 1 && w[w.len() - 2].starts_with(|c: char| c.is_uppercase()) { 2 } else { 1 };
    let t = w.split_off(w.len() - k.min(w.len()));
    cx.fun(&t.join("::"))
}
pub fn s11(cx: &Cx) -> Report {
    enum J {
        Row(usize, Vec<(usize, Av)>, String, bool),
        Main(Sc, &'static str),
    }
    let mut jobs = vec![];
    for (f, i, k, strict) in REJECTED {
        let Some(fi) = find(cx, f) else { continue };
        let av = match *k {
            "=0" => Av::I(0, 0),
            "empty" => Av::Len(0, 0),
            _ => Av::F(-3e38, 0.0),
        };
        if *i >= cx.p.fns[fi].argc {
            continue;
        }
        let pn = cx.params(fi)[*i].clone();
        jobs.push(J::Row(fi, vec![(*i, av)], format!("{} {}", pn, k.replace("=0", "= 0").replace("<= 0", "<=0")), *strict));
    }
    for (f, v, d) in combos() {
        let Some(fi) = find(cx, f) else { continue };
        if v.iter().any(|x| x.0 >= cx.p.fns[fi].argc) {
            continue;
        }
        jobs.push(J::Row(fi, v, d.to_string(), true));
    }
    let pre = |s: Sc| s.f("normalize", Fz::Ok).f("detect_and_trim", Fz::Ret(trim_ok)).a("samples", Av::Len(1, LMAX)).a("sample_rate", Av::I(1, u32::MAX as i128));
    jobs.push(J::Main(pre(sc("frame_size = 0")).c("frame_size", Cv::I(0, 0)), "InvalidInput"));
    jobs.push(J::Main(pre(sc("hop_size = 0")).c("hop_size", Cv::I(0, 0)), "InvalidInput"));
    jobs.push(J::Main(
        sc("trimming leaves nothing").on("enable_silence_trimming").f("normalize", Fz::Ok).f("detect_and_trim", Fz::Ret(trim_empty)).a("samples", Av::Len(1, LMAX)).a("sample_rate", Av::I(1, u32::MAX as i128)),
        "ProcessingError",
    ));
    let n = jobs.len();
    let mut rep = Report::default();
    for r in par(jobs, |j| match j {
        J::Row(fi, v, d, strict) => {
            let name = cx.p.fns[fi].name.clone();
            let mut s = sc(&format!("{}: {}", name, d));
            for (i, a) in &v {
                s = s.a(&i.to_string(), *a);
            }
            let o = cx.run(&name, &s).unwrap();
            let e = cx.err_variants(&o);
            let ok = !e.is_empty() && if strict { e.len() == 1 && e.contains("InvalidInput") } else { !e.contains("Ok") && !e.contains("?") };
            let mut r = o.rep;
            r.scenarios.clear();
            let want = if strict { "InvalidInput" } else { "an error" };
            r.ob(ok, &format!("{}:{}", name, d), &format!("{} called with {} does not always return {}: possible outcomes {:?}", name, d, want, e), &cx.p.fns[fi].at, || format!("{} with {} -> {}", name, d, want));
            r
        }
        J::Main(s, want) => {
            let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
            let e = cx.err_variants(&o);
            let ok = e.len() == 1 && e.contains(want);
            let mut r = o.rep;
            r.ob(ok, &format!("{}:{}", MAIN, s.name), &format!("analyze_audio with {} does not always return {}: possible outcomes {:?}", s.name, want, e), "src/lib.rs analyze_audio", || format!("analyze_audio with {} -> {}", s.name, want));
            r
        }
    }) {
        rep.merge(r);
    }
    rep.scenarios.push(format!("{} invalid argument classes, every other argument arbitrary", n));
    rep
}
fn trim_empty(it: &Interp, t: usize) -> V {
    let v = only(it.top_of(t), 0);
    if let K::E(e) = &v.k {
        if let K::S(x) = &e.vs[&0][0].k {
            let mut y = (**x).clone();
            if let K::C(c) = &y[0].k {
                y[0] = V::c(c.el.clone(), 0, 0);
            }
            return V::e(vec![(0, vec![V::s(y)])]);
        }
    }
    v
}

// ---------------------------------------------------------------- S12
/// ranking scores and settings that merely carry such a name
fn unscored(f: &str, path: &str) -> bool {
    f.ends_with("::default")
        || f.ends_with("merge_bpm_candidates")
        || f.ends_with("coarse_to_fine_search")
        || f.ends_with("estimate_bpm_from_comb_filter")
        || (f.ends_with("detect_key_changes") && path.ends_with("primary_confidence"))
}
pub fn s12(cx: &Cx) -> Report {
    let (mut rep, v) = confidences(cx);
    for (f, n, v) in v {
        if unscored(&f, &n) {
            continue;
        }
        let x = v.fl().unwrap_or(Fl::TOP);
        let ok = x.empty() || (!x.nan && x.lo >= 0.0 && x.hi <= 1.0);
        let at = cx.fun(&f).map(|i| cx.p.fns[i].at.clone()).unwrap_or_default();
        rep.ob(ok, &format!("{}{}", f, n), &format!("{} can return{} outside 0..=1: {:?}", f, n, v.k_only()), &at, || format!("{}{} in {:?}", f, n, v.k_only()));
    }
    rep.scenarios.push("every public function on arbitrary arguments".into());
    if rep.obligations < 10 {
        rep.undecided.push("fewer than 10 confidence figures found".into());
    }
    rep
}

// ---------------------------------------------------------------- S13 / S14
fn crash_rule(cx: &Cx, pick: impl Fn(&Ev) -> Option<String>, obl: impl Fn(&Func) -> usize) -> Report {
    let s = sweep(cx);
    let mut r = s.rep;
    let mut n = 0;
    for f in &r.fns {
        if let Some(i) = cx.p.by_name.get(f) {
            n += obl(&cx.p.fns[*i]);
        }
    }
    r.obligations = n;
    let mut bad = 0;
    for e in &s.evs {
        if let Some(m) = pick(e) {
            bad += 1;
            r.findings.insert(Finding { key: format!("{}:{}:{}", e.func, e.kind, e.detail), msg: format!("{} in {} (reachable from {})", m, e.func, s.root[e]), at: e.at.clone() });
        }
    }
    r.discharged = n.saturating_sub(bad);
    r
}
pub fn s13(cx: &Cx) -> Report {
    crash_rule(
        cx,
        |e| match e.kind.as_str() {
            "div0" | "rem0" => Some(format!("integer division by a value that can be zero ({})", e.detail)),
            "step0" => Some(format!("stride or chunk size that can be zero ({})", e.detail)),
            "clamp" => Some(format!("clamp whose lower bound can exceed the upper ({})", e.detail)),
            _ => None,
        },
        |f| {
            f.blocks
                .iter()
                .filter(|b| match &b.t {
                    Tm::Assert { m, .. } => m == "div0" || m == "rem0",
                    Tm::Call { f, .. } => cx.p.callee_of(f).map_or(false, |c| {
                        ["step_by", "chunks", "chunks_exact", "windows", "div_ceil", "rem_euclid", "clamp"].contains(&c.base.rsplit("::").next().unwrap())
                    }),
                    _ => false,
                })
                .count()
        },
    )
}
pub fn s14(cx: &Cx) -> Report {
    crash_rule(
        cx,
        |e| match e.kind.as_str() {
            "pcmp-nan" => Some(format!("ordering of values that may be NaN ({})", e.detail)),
            "clamp" if e.detail.contains("nan") => Some(format!("clamp with a bound that may be NaN ({})", e.detail)),
            "unwrap" if e.detail.contains("Ordering") => Some("unwrap of an ordering that is undefined for NaN".into()),
            _ => None,
        },
        |f| {
            f.blocks
                .iter()
                .filter(|b| match &b.t {
                    Tm::Call { f, .. } => cx.p.callee_of(f).map_or(false, |c| {
                        let n = c.base.rsplit("::").next().unwrap();
                        ["partial_cmp", "total_cmp", "clamp", "max_by", "min_by"].contains(&n) || n.starts_with("sort") || n.starts_with("select_nth")
                    }),
                    _ => false,
                })
                .count()
        },
    )
}

// ---------------------------------------------------------------- S25
/// on the program with every loop's first round peeled
pub fn s25(cx: &Cx) -> Report {
    crash_rule(
        cx,
        |e| match e.kind.as_str() {
            "short" | "under" => Some(e.detail.clone()),
            "unwrap" if !e.detail.contains("Ordering") => Some(format!("unwrap of a value that may be absent ({})", e.detail)),
            "panic-call" => Some(format!("explicit panic that can be reached ({})", e.detail)),
            _ => None,
        },
        |f| {
            f.blocks
                .iter()
                .filter(|b| match &b.t {
                    Tm::Assert { m, mo, .. } => (m == "bounds" || m == "overflow:Sub") && mo.get(1).map_or(false, |o| o.place().is_none()),
                    Tm::Call { f, args, t, .. } => cx.p.callee_of(f).map_or(false, |c| {
                        let n = c.base.rsplit("::").next().unwrap();
                        match n {
                            "unwrap" | "expect" | "split_at" => true,
                            "index" | "index_mut" | "remove" | "swap_remove" => args.get(1).map_or(false, |o| o.place().is_none()),
                            _ => t.is_none(),
                        }
                    }),
                    _ => false,
                })
                .count()
        },
    )
}

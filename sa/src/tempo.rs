//! S19, S22: what the result says about the tempo escalation, and what escalation may do.
use crate::flow::*;
use crate::interp::*;
use crate::rules::*;
use crate::val::*;
use std::sync::Arc;

const L_PERC: usize = L_STAGE + 5;
const T_BASE: u128 = 1 << 100;
const T_MR: u128 = 1 << 101;
const T_PC: u128 = 1 << 102;
const BASE_FNS: &[&str] = &[
    "estimate_bpm_tempogram",
    "estimate_bpm_tempogram_band_fusion",
    "estimate_bpm_tempogram_with_candidates",
    "estimate_bpm_tempogram_with_candidates_band_fusion",
];
const MR_FN: &str = "multi_resolution_tempogram_from_samples";

#[derive(Clone, Copy)]
struct Est {
    bpm: (f64, f64),
    conf: (f64, f64),
    agree: (i128, i128),
    /// number of candidates
    cands: (i128, i128),
    tok: u128,
}
/// a tempo estimate of the given class, as the Ok value of whatever the stage returns
fn est(e: Est) -> Mk {
    Arc::new(move |it: &Interp, t: usize| {
        let v = only(
            with_fields(it, t, &|n, v| match n {
                "bpm" => V::f(Fl::new(e.bpm.0, e.bpm.1, false)).tok(e.tok),
                "confidence" => V::f(Fl::new(e.conf.0, e.conf.1, false)).tok(e.tok),
                "method_agreement" => V::i(e.agree.0, e.agree.1),
                "score" | "fft_norm" | "autocorr_norm" | "selected" => v.tok(e.tok),
                _ => v,
            }),
            0,
        );
        relen(&v, e.cands)
    })
}
fn relen(v: &V, n: (i128, i128)) -> V {
    match &v.k {
        K::E(e) => V::ed(e.dl, e.vs.iter().map(|(k, x)| (*k, x.iter().map(|y| relen(y, n)).collect())).collect()),
        K::S(x) => V::s(x.iter().map(|y| if matches!(y.k, K::C(_)) { relen(y, n) } else { y.clone() }).collect()),
        K::C(c) => V::c(c.el.clone(), n.0, n.1),
        _ => v.clone(),
    }
}
fn err() -> Mk {
    Arc::new(|it: &Interp, t: usize| only(it.top_of(t), 1))
}
/// multi-resolution mode with the given first-pass, multi-resolution and percussive outcomes
fn mode(name: &str, base: Mk, mr: Mk, pc: Mk) -> Sc {
    let mut s = fatal_ok(sc(name)).off("force_legacy_bpm").on("enable_tempogram_multi_resolution");
    for f in BASE_FNS {
        s = s.f(f, Fz::ByLab(L_PERC, pc.clone(), base.clone()));
    }
    s.f("hpss_decompose", Fz::Label(L_PERC)).f(MR_FN, Fz::Fun(mr))
}
/// the harmonic/percussive separation succeeds
fn split(s: Sc) -> Sc {
    s.f("hpss_decompose", Fz::Fun(Arc::new(|it: &Interp, t: usize| only(it.top_of(t), 0).with(Lab::one(L_PERC)))))
}
const UP: f64 = 180.00001525878906; // the next f32 above 180
const ANYC: (f64, f64) = (0.0, 1.0);

// ---------------------------------------------------------------- S22
pub fn s22(cx: &Cx) -> Report {
    let e = |bpm: (f64, f64), tok| est(Est { bpm, conf: ANYC, agree: (0, 1 << 20), cands: (0, LMAX), tok });
    let (lo, hi) = ((1e-3, 180.0), (UP, 1e30));
    let mut jobs = vec![];
    for (a, mr) in [("at most 180", lo), ("above 180", hi)] {
        for (b, pc) in [("at most 180", lo), ("above 180", hi)] {
            jobs.push(mode(&format!("first pass at most 180, multi-resolution {}, percussive {}", a, b), e(lo, T_BASE), e(mr, T_MR), e(pc, T_PC)));
        }
    }
    all(par(jobs, |s| {
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        let res = cx.result(&o);
        if !o.forced.iter().any(|f| BASE_FNS.contains(&f.as_str())) {
            r.undecided.push("no first-pass tempogram stage is called".into());
        }
        let Some(v) = res.get("bpm") else {
            r.undecided.push(format!("{}: no tempo", s.name));
            return r;
        };
        let x = v.fl().unwrap_or(Fl::TOP);
        let src = [(T_MR, "multi-resolution"), (T_PC, "percussive")].iter().filter(|t| v.tok & t.0 != 0).map(|t| t.1).collect::<Vec<_>>().join(" or ");
        r.ob(
            x.hi <= 180.0,
            &s.name,
            &format!("[{}] the reported tempo can exceed 180 (up to {}), taken from the {} re-estimate", s.name, x.hi, src),
            "src/lib.rs analyze_audio",
            || format!("[{}] reported tempo at most {}", s.name, x.hi),
        );
        r
    }))
}

// ---------------------------------------------------------------- S19
fn opt_is(v: &V, k: u32) -> bool {
    matches!(&v.k, K::E(e) if e.vs.len() == 1 && e.vs.contains_key(&k))
}
fn opt_bool(v: &V) -> Option<bool> {
    match &v.k {
        K::E(e) if e.vs.len() == 1 => e.vs.get(&1).and_then(|x| x[0].cst()).map(|x| x != 0),
        _ => None,
    }
}
fn not_true(v: &V) -> bool {
    matches!(&v.k, K::E(e) if e.vs.get(&1).map_or(true, |x| x[0].cst() == Some(0)))
}
enum Want {
    /// these metadata fields are absent
    Absent(Vec<&'static str>),
    /// these metadata fields are present
    Present(Vec<&'static str>),
    /// duration in seconds and sample rate
    Clock(f32),
    /// the indicators agree with the provenance of the tempo; expected value where certain
    Used(Option<bool>, Option<bool>),
    NotTriggered,
    /// these indicators are absent or false
    NotTrue(Vec<&'static str>),
}
pub fn s19(cx: &Cx) -> Report {
    let b = |bpm: (f64, f64), conf: (f64, f64)| est(Est { bpm, conf, agree: (1, 1), cands: (0, LMAX), tok: T_BASE });
    let m = |bpm: (f64, f64), conf: (f64, f64)| est(Est { bpm, conf, agree: (1, 1), cands: (0, LMAX), tok: T_MR });
    let p = |bpm: (f64, f64), conf: (f64, f64)| est(Est { bpm, conf, agree: (1, 1), cands: (0, LMAX), tok: T_PC });
    let any = (20.0, 500.0);
    let mut jobs: Vec<(Sc, Want)> = vec![];
    const MRF: &[&str] = &["tempogram_multi_res_triggered", "tempogram_multi_res_used"];
    const PCF: &[&str] = &["tempogram_percussive_triggered", "tempogram_percussive_used"];
    let both = || MRF.iter().chain(PCF).cloned().collect::<Vec<_>>();
    jobs.push((fatal_ok(sc("multi-resolution disabled")).off("enable_tempogram_multi_resolution"), Want::Absent(both())));
    let mut leg = both();
    leg.push("tempogram_candidates");
    jobs.push((fatal_ok(sc("legacy estimator forced")).on("force_legacy_bpm"), Want::Absent(leg)));
    jobs.push((fatal_ok(sc("percussive fallback disabled")).off("enable_tempogram_percussive_fallback"), Want::NotTrue(PCF.to_vec())));
    jobs.push((fatal_ok(sc("candidates not requested")).off("emit_tempogram_candidates"), Want::Absent(vec!["tempogram_candidates"])));
    let mut fail = fatal_ok(sc("tempogram fails"));
    for f in BASE_FNS {
        fail = fail.f(f, Fz::Err);
    }
    let mut x = both();
    x.push("tempogram_candidates");
    jobs.push((fail, Want::Absent(x)));
    for multi in [false, true] {
        let s = mode(&format!("candidates requested, multi-resolution {}", multi), b(any, ANYC), m(any, ANYC), p(any, ANYC)).on("emit_tempogram_candidates");
        jobs.push((s.c("enable_tempogram_multi_resolution", Cv::B(multi)), Want::Present(vec!["tempogram_candidates"])));
    }
    jobs.push((mode("multi-resolution enabled", b(any, ANYC), m(any, ANYC), p(any, ANYC)), Want::Present(MRF.to_vec())));
    jobs.push((mode("percussive fallback enabled", b(any, ANYC), m(any, ANYC), p(any, ANYC)).on("enable_tempogram_percussive_fallback"), Want::Present(PCF.to_vec())));
    // duration and rate
    for (n, sr) in [(88200i128, 44100i128), (22050, 44100), (168000, 48000), (100, 8000), (44100 * 3601, 44100)] {
        let d = n as f32 / sr as f32;
        let trim: Mk = Arc::new(move |it: &Interp, t: usize| {
            let v = trim_ok(it, t);
            if let K::E(e) = &v.k {
                if let K::S(x) = &e.vs[&0][0].k {
                    let mut y = (**x).clone();
                    if let K::C(c) = &y[0].k {
                        y[0] = V::c(c.el.clone(), n, n);
                    }
                    return V::e(vec![(0, vec![V::s(y)])]);
                }
            }
            v
        });
        let mut s = fatal_ok(sc(&format!("trimming leaves {} samples at {} Hz", n, sr))).on("enable_silence_trimming").f("detect_and_trim", Fz::Fun(trim));
        s.args.clear();
        s = s.a("samples", Av::Len(n, LMAX)).a("sample_rate", Av::I(sr, sr));
        s.argtok = true;
        jobs.push((s, Want::Clock(d)));
        for norm in [false, true] {
            let mut s = fatal_ok(sc(&format!("{} untrimmed samples at {} Hz, normalization {}", n, sr, norm))).off("enable_silence_trimming").c("enable_normalization", Cv::B(norm));
            s.args.clear();
            s = s.a("samples", Av::Len(n, n)).a("sample_rate", Av::I(sr, sr));
            s.argtok = true;
            jobs.push((s, Want::Clock(d)));
        }
    }
    // adoption
    let trap = (60.0, 75.0);
    let off = |s: Sc| s.off("enable_tempogram_percussive_fallback");
    let on = |s: Sc| s.on("enable_tempogram_percussive_fallback");
    let (low, high) = ((0.0, 0.2), (0.9, 1.0));
    jobs.push((off(mode("multi-resolution fails", b(any, ANYC), err(), err())), Want::Used(Some(false), None)));
    jobs.push((off(mode("multi-resolution proposes above 180", b(trap, ANYC), m((UP, 1e4), ANYC), err())), Want::Used(Some(false), None)));
    jobs.push((off(mode("multi-resolution is clearly weaker", b(trap, (0.5, 1.0)), m((60.0, 180.0), low), err())), Want::Used(Some(false), None)));
    jobs.push((off(mode("multi-resolution is clearly stronger", b(trap, low), m((60.0, 180.0), high), err())), Want::Used(Some(true), None)));
    let plain = est(Est { bpm: (115.0, 125.0), conf: high, agree: (2, 2), cands: (0, 0), tok: T_BASE });
    jobs.push((on(mode("first pass is not ambiguous", plain.clone(), m(any, ANYC), p(any, ANYC))), Want::Used(Some(false), Some(false))));
    jobs.push((on(mode("first pass is not ambiguous (2)", plain, m(any, ANYC), p(any, ANYC))), Want::NotTriggered));
    let mrf = || err();
    let b70 = |c| b((70.0, 70.0), c);
    jobs.push((on(mode("percussive estimate fails", b(any, ANYC), m(any, ANYC), err())), Want::Used(None, Some(false))));
    jobs.push((on(mode("separation fails", b(any, ANYC), m(any, ANYC), p(any, ANYC))).f("hpss_decompose", Fz::Err), Want::Used(None, Some(false))));
    jobs.push((on(mode("percussive proposes above 180", b(trap, ANYC), mrf(), p((UP, 1e4), ANYC))), Want::Used(Some(false), Some(false))));
    jobs.push((on(mode("percussive is clearly weaker", b70((0.5, 1.0)), mrf(), p((140.0, 140.0), low))), Want::Used(Some(false), Some(false))));
    jobs.push((on(mode("percussive tempo is unrelated", b70(ANYC), mrf(), p((83.0, 84.0), high))), Want::Used(Some(false), Some(false))));
    jobs.push((split(on(mode("percussive is clearly stronger", b70(low), mrf(), p((140.0, 140.0), high)))), Want::Used(Some(false), Some(true))));
    jobs.push((on(mode("outside the low trap zone", b((170.0, 180.0), ANYC), mrf(), p(any, ANYC))), Want::Used(Some(false), Some(false))));
    jobs.push((split(on(mode("both re-estimates are clearly stronger", b70(low), m((70.0, 70.0), (0.3, 0.4)), p((140.0, 140.0), high)))), Want::Used(Some(true), Some(true))));
    all(par(jobs, |(s, w)| {
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        let res = cx.result(&o);
        let at = "src/lib.rs analyze_audio";
        let g = |n: &str| res.get(&format!("metadata.{}", n)).cloned();
        if res.is_empty() {
            r.undecided.push(format!("{}: no success path", s.name));
            return r;
        }
        match &w {
            Want::Absent(fs) | Want::Present(fs) => {
                let (k, d) = if matches!(w, Want::Absent(_)) { (0, "absent") } else { (1, "present") };
                for f in fs {
                    let Some(v) = g(f) else { continue };
                    r.ob(opt_is(&v, k), &format!("{}:{}", s.name, f), &format!("[{}] `{}` is not always {}", s.name, f, d), at, || format!("[{}] {} is {}", s.name, f, d));
                }
            }
            Want::NotTrue(fs) => {
                for f in fs {
                    let Some(v) = g(f) else { continue };
                    r.ob(opt_is(&v, 0) || not_true(&v), &format!("{}:{}", s.name, f), &format!("[{}] `{}` can be Some(true)", s.name, f), at, || format!("[{}] {} is absent or false", s.name, f));
                }
            }
            Want::Clock(d) => {
                let v = g("duration_seconds").and_then(|v| v.fl());
                let ok = v.map_or(false, |f| !f.nan && f.lo == f.hi && f.lo == *d as f64);
                r.ob(ok, &format!("{}:duration", s.name), &format!("[{}] the reported duration is {:?}, not {} s", s.name, v, d), at, || format!("[{}] duration is {} s", s.name, d));
                let v = g("sample_rate").map(|v| v.tok);
                r.ob(v == Some(T_ARG << 1), "sample_rate", &format!("[{}] the reported sample rate is not the one passed in", s.name), at, || format!("[{}] sample rate is a copy of the argument", s.name));
            }
            Want::Used(mr, pc) => {
                let tok = res.get("bpm").map_or(0, |v| v.tok);
                let ct = g("tempogram_candidates");
                let ctok = ct.as_ref().map_or(0, |v| match &v.k {
                    K::E(e) => e.vs.get(&1).map_or(0, |x| match &x[0].k {
                        K::C(c) => match &c.el.k {
                            K::S(y) => y.iter().fold(0, |a, b| a | b.tok),
                            _ => UNK,
                        },
                        _ => UNK,
                    }),
                    _ => UNK,
                });
                for (f, want, t, others) in [("tempogram_multi_res_used", mr, T_MR, T_PC), ("tempogram_percussive_used", pc, T_PC, T_MR)] {
                    let Some(v) = g(f) else { continue };
                    let got = opt_bool(&v);
                    if let Some(w) = want {
                        r.ob(got == Some(*w), &format!("{}:{}", s.name, f), &format!("[{}] `{}` is not always Some({})", s.name, f, w), at, || format!("[{}] {} = Some({})", s.name, f, w));
                    }
                    match got {
                        Some(false) => {
                            r.ob(tok & t == 0, &format!("{}:{}:tempo", s.name, f), &format!("[{}] `{}` says unused but the reported tempo can be that re-estimate", s.name, f), at, || format!("[{}] {} and the tempo's origin agree", s.name, f));
                            r.ob(ctok & t == 0, &format!("{}:{}:candidates", s.name, f), &format!("[{}] `{}` says unused but the candidate list can be that re-estimate's", s.name, f), at, || format!("[{}] {} and the candidate list's origin agree", s.name, f));
                        }
                        Some(true) if t == T_PC || pc.is_none() || *pc == Some(false) => {
                            r.ob(tok == t, &format!("{}:{}:tempo", s.name, f), &format!("[{}] `{}` says used but the reported tempo is not that re-estimate", s.name, f), at, || format!("[{}] {} and the tempo's origin agree", s.name, f));
                            r.ob(ctok & (T_BASE | others) == 0, &format!("{}:{}:candidates", s.name, f), &format!("[{}] `{}` says used but the candidate list is another estimate's", s.name, f), at, || format!("[{}] {} and the candidate list's origin agree", s.name, f));
                        }
                        _ => {}
                    }
                }
            }
            Want::NotTriggered => {
                for f in ["tempogram_multi_res_triggered", "tempogram_percussive_triggered"] {
                    let Some(v) = g(f) else { continue };
                    r.ob(opt_bool(&v) == Some(false), &format!("{}:{}", s.name, f), &format!("[{}] `{}` is not always Some(false)", s.name, f), at, || format!("[{}] {} = Some(false)", s.name, f));
                }
            }
        }
        r
    }))
}

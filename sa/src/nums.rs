//! S27: times and tempi are ordinary numbers.
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::rc::Rc;

/// functions that report times
const TIMED: &[&str] = &[
    "generate_beat_grid",
    "HmmBeatTracker::track_beats",
    "vote_onsets",
    "detect_key_changes",
    "detect_tempo_variations",
];
/// raw ranking scores, and the average over key segments: not covered
const RAW: &[&str] = &["score", "fft_norm", "autocorr_norm", "primary_confidence"];

/// every float in an argument is an ordinary non-negative number, every integer stays
fn ordinary(v: &V) -> V {
    let m = |x: &Vec<V>| x.iter().map(ordinary).collect::<Vec<_>>();
    let k = match &v.k {
        K::F(f) => K::F(Fl { nan: false, lo: 0.0, hi: 1e9, ..*f }),
        K::S(x) => K::S(Rc::new(m(x))),
        K::E(e) => return V::ed(e.dl, e.vs.iter().map(|(k, x)| (*k, m(x))).collect()).with(v.lab),
        K::R(r) => {
            let mut r = (**r).clone();
            r.det = r.det.as_ref().map(ordinary);
            K::R(Rc::new(r))
        }
        K::C(c) => {
            let mut c = (**c).clone();
            c.el = ordinary(&c.el);
            K::C(Rc::new(c))
        }
        k => k.clone(),
    };
    V { lab: v.lab, tok: v.tok, k }
}
/// every float inside a value of type t
fn floats(p: &Prog, t: usize, v: &V, pre: &str, out: &mut Vec<(String, V)>, d: usize) {
    if d > 8 || v.is_bot() {
        return;
    }
    match (p.ty(t), &v.k) {
        (TyK::Float { .. }, _) => out.push((pre.to_string(), v.clone())),
        (TyK::Adt { args, .. }, K::C(c)) => {
            if let Some(e) = args.first() {
                floats(p, *e, &c.el, &format!("{}[]", pre), out, d + 1);
            }
        }
        (TyK::Tuple { ts }, K::S(x)) => {
            for (i, (t, y)) in ts.iter().zip(x.iter()).enumerate() {
                floats(p, *t, y, &format!("{}.{}", pre, i), out, d + 1);
            }
        }
        (TyK::Adt { .. }, K::S(x)) => {
            if let Some(vs) = p.variants(t) {
                for (f, y) in vs[0].fs.iter().zip(x.iter()) {
                    if !RAW.contains(&f.n.as_str()) {
                        floats(p, f.t, y, &format!("{}.{}", pre, f.n), out, d + 1);
                    }
                }
            }
        }
        (TyK::Adt { .. }, K::E(e)) => {
            if let Some(vs) = p.variants(t) {
                for (k, x) in &e.vs {
                    for (f, y) in vs[*k as usize].fs.iter().zip(x.iter()) {
                        floats(p, f.t, y, pre, out, d + 1);
                    }
                }
            }
        }
        // a structure the analysis knows nothing about
        (TyK::Adt { .. }, K::Top) => {
            if let Some(vs) = p.variants(t) {
                for f in vs.iter().flat_map(|v| v.fs.iter()) {
                    floats(p, f.t, v, &format!("{}.{}", pre, f.n), out, d + 1);
                }
            }
        }
        _ => {}
    }
}
fn judge(r: &mut Report, what: &str, at: &str, v: &V, open: bool) {
    let (nan, neg, inf) = match &v.k {
        K::F(f) if f.empty() && !f.nan => (false, false, false),
        K::F(f) => (f.nan, f.lo < 0.0, f.hi == f64::INFINITY && !open),
        _ => (true, true, true),
    };
    let why: Vec<&str> = [(nan, "NaN"), (neg, "negative"), (inf, "infinite")].iter().filter(|x| x.0).map(|x| x.1).collect();
    r.ob(why.is_empty(), what, &format!("{} can be {}: {:?}", what, why.join(" or "), v.k_only()), at, || format!("{} in {:?}", what, v.k_only()));
}

pub fn s27(cx: &Cx) -> Report {
    let mut jobs: Vec<(Option<usize>, bool, Sc)> = TIMED.iter().filter_map(|n| cx.fun(n).map(|f| (Some(f), false, sc(n)))).collect();
    if jobs.is_empty() {
        return missing(TIMED[0]);
    }
    let fin = |s: Sc| ["min_bpm", "max_bpm", "bpm_resolution"].iter().fold(s, |s, n| s.c(n, Cv::F(-1e6, 1e6)));
    jobs.push((None, true, fin(sc("legacy tempo").on("force_legacy_bpm"))));
    jobs.push((None, true, fin(sc("tempogram, else legacy tempo").off("force_legacy_bpm"))));
    let t = fin(sc("tempogram tempo").off("force_legacy_bpm")).f("estimate_bpm", Fz::Err).f("estimate_bpm_with_guardrails", Fz::Err);
    jobs.push((None, false, t.clone().off("enable_tempogram_multi_resolution")));
    jobs.push((None, false, t.on("enable_tempogram_multi_resolution")));
    all(par(jobs, |(root, legacy, s)| {
        let mut out = vec![];
        let (mut r, fi) = match root {
            Some(fi) => {
                let mut it = Interp::new(cx.p);
                let f = &cx.p.fns[fi];
                let args: Vec<V> = (1..=f.argc)
                    .map(|i| {
                        let l = &f.locals[i];
                        let v = ordinary(&it.top_of(l.t));
                        if f.name.ends_with("detect_key_changes") && matches!(v.k, K::I(..)) {
                            return V::i(1, u32::MAX as i128); // rate and hop: times are quotients by them
                        }
                        v
                    })
                    .collect();
                let o = it.analyze_root(fi, args);
                let mut r = Report::default();
                r.contexts = it.analyses;
                r.blocks = it.reached.len();
                r.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
                r.unmodeled = it.unmodeled.keys().cloned().collect();
                floats(cx.p, f.locals[0].t, &o.ret, "", &mut out, 0);
                (r, fi)
            }
            None => {
                let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
                let fi = cx.fun(MAIN).unwrap();
                floats(cx.p, cx.p.fns[fi].locals[0].t, &o.ret, "", &mut out, 0);
                (o.rep.clone(), fi)
            }
        };
        let f = &cx.p.fns[fi];
        for (n, v) in out {
            judge(&mut r, &format!("{}{}", f.name, n), &f.at, &v, legacy && n.ends_with(".bpm"));
        }
        r
    }))
}

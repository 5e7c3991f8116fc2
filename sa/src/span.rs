//! S24: the reported tempo lies in the configured range.
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;

/// estimators that take a range: (function, position of the minimum, of the maximum)
const ESTS: &[(&str, usize, usize)] = &[
    ("estimate_bpm_tempogram", 3, 4),
    ("estimate_bpm_tempogram_band_fusion", 3, 4),
    ("estimate_bpm_tempogram_with_candidates", 3, 4),
    ("estimate_bpm_tempogram_with_candidates_band_fusion", 3, 4),
    ("multi_resolution_tempogram_from_samples", 3, 4),
    ("estimate_bpm_from_autocorrelation", 3, 4),
];

/// what these return is taken to be in range: averages, which range facts do not survive
const LEGACY: &[&str] = &["estimate_bpm", "estimate_bpm_with_guardrails"];
fn in_range(v: &V) -> V {
    let m = |x: &Vec<V>| x.iter().map(in_range).collect::<Vec<_>>();
    match &v.k {
        K::F(f) => V { lab: v.lab, tok: v.tok, k: K::F(Fl { nan: false, rel: GE | LE, ..*f }) },
        K::S(x) => V { lab: v.lab, tok: v.tok, k: K::S(std::rc::Rc::new(m(x))) },
        K::E(e) => V::ed(e.dl, e.vs.iter().map(|(k, x)| (*k, m(x))).collect()).with(v.lab),
        _ => v.clone(),
    }
}
/// every `bpm` inside a value of type t
fn bpms(p: &Prog, t: usize, v: &V, pre: &str, out: &mut Vec<(String, V)>, d: usize) {
    if d > 8 || v.is_bot() {
        return;
    }
    match (p.ty(t), &v.k) {
        (TyK::Adt { args, .. }, K::C(c)) => {
            if let Some(e) = args.first() {
                bpms(p, *e, &c.el, &format!("{}[]", pre), out, d + 1);
            }
        }
        (TyK::Tuple { ts }, K::S(x)) => {
            for (i, (t, y)) in ts.iter().zip(x.iter()).enumerate() {
                bpms(p, *t, y, &format!("{}.{}", pre, i), out, d + 1);
            }
        }
        (TyK::Adt { .. }, K::S(x)) => {
            if let Some(vs) = p.variants(t) {
                for (f, y) in vs[0].fs.iter().zip(x.iter()) {
                    let q = format!("{}.{}", pre, f.n);
                    if f.n == "bpm" {
                        out.push((q, y.clone()));
                    } else {
                        bpms(p, f.t, y, &q, out, d + 1);
                    }
                }
            }
        }
        (TyK::Adt { .. }, K::E(e)) => {
            if let Some(vs) = p.variants(t) {
                for (k, x) in &e.vs {
                    for (f, y) in vs[*k as usize].fs.iter().zip(x.iter()) {
                        bpms(p, f.t, y, pre, out, d + 1);
                    }
                }
            }
        }
        _ => {}
    }
}
fn judge(r: &mut Report, what: &str, at: &str, v: &V, zero: bool) {
    let (lo, hi) = match &v.k {
        K::F(f) if !f.nan => {
            // zero: no tempo was found
            let b = if zero { f.rels() >> 2 } else { f.rel };
            (f.empty() || b & GE != 0, f.empty() || b & LE != 0)
        }
        _ => (false, false),
    };
    let why = match (lo, hi) {
        (false, false) => "below the minimum or above the maximum",
        (false, _) => "below the minimum",
        _ => "above the maximum",
    };
    r.ob(lo && hi, what, &format!("{} can lie {} of the configured range: it was computed, and not compared with both ends since", what, why), at, || {
        format!("{} was compared with both ends of the range", what)
    });
}

pub fn s24(cx: &Cx) -> Report {
    let mut jobs: Vec<(Option<usize>, usize, usize, Sc)> = vec![];
    for (n, a, b) in ESTS {
        if let Some(f) = cx.fun(n) {
            jobs.push((Some(f), *a, *b, sc(n)));
        }
    }
    if jobs.is_empty() {
        return missing(ESTS[0].0);
    }
    let base = |n: &str| {
        let mut s = sc(n).off("force_legacy_bpm");
        for f in LEGACY {
            s = s.f(f, Fz::Fun(std::sync::Arc::new(|it: &Interp, t: usize| in_range(&it.top_of(t)))));
        }
        s.range = true;
        s
    };
    jobs.push((None, 0, 0, base("single resolution").off("enable_tempogram_multi_resolution")));
    jobs.push((None, 0, 0, base("multi-resolution").on("enable_tempogram_multi_resolution")));
    all(par(jobs, |(root, a, b, s)| {
        if let Some(fi) = root {
            let mut it = Interp::new(cx.p);
            it.rngm = true;
            let f = &cx.p.fns[fi];
            let mut args: Vec<V> = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
            for (i, bit) in [(a, GE), (b, LE)] {
                if let Some(K::F(x)) = args.get_mut(i).map(|v| &mut v.k) {
                    x.rel = bit;
                    x.nan = false;
                }
            }
            let o = it.analyze_root(fi, args);
            let mut r = Report::default();
            r.contexts = it.analyses;
            r.blocks = it.reached.len();
            r.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
            r.unmodeled = it.unmodeled.keys().cloned().collect();
            let mut out = vec![];
            bpms(cx.p, f.locals[0].t, &o.ret, "", &mut out, 0);
            if std::env::var("SA_RNG").is_ok() {
                eprintln!("{}: {:?}", f.name, out);
            }
            for (n, v) in out {
                judge(&mut r, &format!("{}{}", f.name, n), &f.at, &v, false);
            }
            return r;
        }
        let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
        let mut r = o.rep.clone();
        let fi = cx.fun(MAIN).unwrap();
        let mut out = vec![];
        bpms(cx.p, cx.p.fns[fi].locals[0].t, &o.ret, "", &mut out, 0);
        if std::env::var("SA_RNG").is_ok() {
            eprintln!("{}: {:?}", s.name, out);
        }
        for (n, v) in out {
            judge(&mut r, &format!("[{}] {}", s.name, &n[1..]), "src/lib.rs analyze_audio", &v, n == ".bpm");
        }
        r
    }))
}

//! S26: lists come out in their documented order.
use crate::crash::*;
use crate::flow::missing;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;

enum By {
    Scalar,
    At(u32),
    Field(&'static str),
}
/// public function, what orders its list, descending?
const LISTS: &[(&str, By, bool)] = &[
    ("detect_energy_flux_onsets", By::Scalar, false),
    ("detect_spectral_flux_onsets", By::Scalar, false),
    ("detect_hfc_onsets", By::Scalar, false),
    ("detect_hpss_onsets", By::Scalar, false),
    ("vote_onsets", By::Field("confidence"), true),
    ("find_peaks", By::At(1), true),
    ("fft_tempogram", By::At(1), true),
    ("autocorrelation_tempogram", By::At(1), true),
    ("estimate_bpm_from_autocorrelation", By::Field("confidence"), true),
    ("estimate_bpm_from_comb_filter", By::Field("confidence"), true),
    ("coarse_to_fine_search", By::Field("confidence"), true),
    ("estimate_bpm_tempogram_with_candidates", By::Field("score"), true),
    ("estimate_bpm_tempogram_with_candidates_band_fusion", By::Field("score"), true),
    ("track_beats", By::Field("time_seconds"), false),
];

/// lists inside a value of type t whose elements have the ordering key: (where, element path, list)
fn lists(p: &Prog, by: &By, t: usize, v: &V, pre: &str, out: &mut Vec<(String, Vec<u32>, V)>, d: usize) {
    if d > 6 || v.is_bot() {
        return;
    }
    let key = |e: usize| -> Option<Vec<u32>> {
        match (by, p.ty(e)) {
            (By::Scalar, TyK::Int { .. } | TyK::Float { .. }) => Some(vec![]),
            (By::At(i), TyK::Tuple { ts }) if (*i as usize) < ts.len() => Some(vec![*i]),
            (By::Field(n), TyK::Adt { .. }) => p.variants(e).and_then(|vs| vs[0].fs.iter().position(|f| f.n == *n)).map(|i| vec![i as u32]),
            _ => None,
        }
    };
    match (p.ty(t), &v.k) {
        (TyK::Adt { def, args, .. }, _) if def.ends_with("vec::Vec") => {
            if let Some(k) = args.first().and_then(|e| key(*e)) {
                out.push((pre.to_string(), k, v.clone()));
            }
        }
        (TyK::Tuple { ts }, K::S(x)) => {
            for (i, (t, y)) in ts.iter().zip(x.iter()).enumerate() {
                lists(p, by, *t, y, &format!("{}.{}", pre, i), out, d + 1);
            }
        }
        (TyK::Adt { .. }, K::S(x)) => {
            if let Some(vs) = p.variants(t) {
                for (f, y) in vs[0].fs.iter().zip(x.iter()) {
                    lists(p, by, f.t, y, &format!("{}.{}", pre, f.n), out, d + 1);
                }
            }
        }
        (TyK::Adt { .. }, K::E(e)) => {
            if let Some(vs) = p.variants(t) {
                for (k, x) in &e.vs {
                    for (f, y) in vs[*k as usize].fs.iter().zip(x.iter()) {
                        lists(p, by, f.t, y, pre, out, d + 1);
                    }
                }
            }
        }
        _ => {}
    }
}

pub fn s26(cx: &Cx) -> Report {
    let roots = public_roots(cx);
    let mut jobs: Vec<(usize, &By, bool, Option<&str>)> = vec![];
    for (n, by, desc) in LISTS {
        let suf = format!("::{}", n);
        let fs: Vec<usize> = roots.iter().copied().filter(|i| cx.p.fns[*i].name.ends_with(&suf)).collect();
        // not the wrapper of the same name that makes other lists of it
        jobs.extend(fs.iter().map(|f| (*f, by, *desc, None)));
    }
    if jobs.is_empty() {
        return missing(LISTS[0].0);
    }
    // every ranking of keys
    static AT1: By = By::At(1);
    if let Some(kd) = cx.adt("KeyDetectionResult") {
        for i in &roots {
            let t = cx.p.fns[*i].locals[0].t;
            let holds = t == kd || matches!(cx.p.ty(t), TyK::Adt { args, .. } if args.contains(&kd));
            if holds {
                jobs.push((*i, &AT1, true, Some(".all_scores")));
            }
        }
    }
    let rs = par(jobs, |(fi, by, desc, only)| {
        let mut it = Interp::new(cx.p);
        it.ordm = true;
        let f = &cx.p.fns[fi];
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        let s = it.analyze_root(fi, args);
        let mut r = Report::default();
        r.contexts = it.analyses;
        r.blocks = it.reached.len();
        r.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        r.unmodeled = it.unmodeled.keys().cloned().collect();
        let mut out = vec![];
        lists(cx.p, by, f.locals[0].t, &s.ret, "", &mut out, 0);
        for (n, path, v) in out {
            if only.map_or(false, |o| n != o) {
                continue;
            }
            let want = ocode(&path, desc);
            let (good, has) = match &v.k {
                K::C(c) => (c.hi <= 1 || c.ord == want, oname(c.ord)),
                _ => (false, String::new()),
            };
            let dir = if desc { "highest first" } else { "ascending" };
            if std::env::var("SA_ORD").is_ok() {
                eprintln!("{}{} want {} has {}: {:?}", f.name, n, oname(want), has, v);
            }
            r.ob(
                good,
                &format!("{}{}", f.name, n),
                &format!("{}{} is not known to come out {} (order established:{})", f.name, n, dir, if has.is_empty() { " none" } else { &has }),
                &f.at,
                || format!("{}{} comes out {}", f.name, n, dir),
            );
        }
        r
    });
    let mut rep = Report::default();
    for r in rs {
        rep.merge(r);
    }
    rep.scenarios.push("every list with a documented order, on arbitrary arguments".into());
    rep
}

//! Rules over every public entry point: potential crashes.
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};

/// everything found by analysing every public function on arbitrary arguments
pub struct Sweep {
    pub rep: Report,
    pub evs: BTreeSet<Ev>,
    pub cmps: BTreeSet<(String, String)>,
    /// an entry point from which an event is reachable
    pub root: BTreeMap<Ev, String>,
}
pub fn sweep(cx: &Cx) -> Sweep {
    let roots = public_roots(cx);
    let n = roots.len();
    let rs = par(roots, |fi| {
        let mut it = Interp::new(cx.p);
        let f = &cx.p.fns[fi];
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        let s = it.analyze_root(fi, args);
        let mut rep = Report::default();
        rep.contexts = it.analyses;
        rep.blocks = it.reached.len();
        rep.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        rep.unmodeled = it.unmodeled.keys().cloned().collect();
        if std::env::var("REACH").is_ok() {
            for (fi, b) in &it.reached {
                if let Tm::Call { at, .. } | Tm::Assert { at, .. } = &cx.p.fns[*fi].blocks[*b].t {
                    eprintln!("R {} {}", cx.p.fns[*fi].name, at);
                }
            }
        }
        let evs: BTreeSet<Ev> = s.evs.iter().cloned().collect();
        (rep, evs, it.cmps, f.name.clone())
    });
    let mut o = Sweep { rep: Report::default(), evs: BTreeSet::new(), cmps: BTreeSet::new(), root: BTreeMap::new() };
    for (r, e, c, nm) in rs {
        o.rep.merge(r);
        for x in e {
            o.root.entry(x.clone()).or_insert(nm.clone());
            o.evs.insert(x);
        }
        o.cmps.extend(c);
    }
    o.rep.scenarios.push(format!("{} public functions, each on arbitrary arguments (any length, any value, NaN included)", n));
    o
}

pub fn public_roots(cx: &Cx) -> Vec<usize> {
    let mut roots: Vec<usize> = (0..cx.p.fns.len())
        .filter(|i| {
            let f = &cx.p.fns[*i];
            f.kind == "fn" && f.is_pub && !f.derived
        })
        .collect();
    // big ones first
    roots.sort_by_key(|i| std::cmp::Reverse(cx.p.fns[*i].blocks.len()));
    roots
}
fn is_conf(n: &str) -> bool {
    n.ends_with("confidence") || n.ends_with("clarity") || n.ends_with("stability")
}
/// (path, value) of every figure named like a confidence inside a value of type t
fn conf_in(cx: &Cx, t: usize, v: &V, pre: &str, out: &mut Vec<(String, V)>, d: usize) {
    if d > 8 {
        return;
    }
    match (cx.p.ty(t), &v.k) {
        (TyK::Tuple { ts }, K::S(x)) => {
            for (i, (t, y)) in ts.iter().zip(x.iter()).enumerate() {
                conf_in(cx, *t, y, &format!("{}.{}", pre, i), out, d + 1);
            }
        }
        (TyK::Adt { def, args, vars, kind, .. }, k) => match k {
            K::C(c) if def.ends_with("Vec") => conf_in(cx, args[0], &c.el, &format!("{}[]", pre), out, d + 1),
            K::E(e) if def.ends_with("Result") || def.ends_with("Option") => {
                let ok = if def.ends_with("Result") { 0 } else { 1 };
                if let Some(x) = e.vs.get(&ok) {
                    conf_in(cx, args[0], &x[0], pre, out, d + 1);
                }
            }
            K::S(x) if kind == "struct" => {
                if let Some(vs) = vars {
                    for (f, y) in vs[0].fs.iter().zip(x.iter()) {
                        let p = format!("{}.{}", pre, f.n);
                        if is_conf(&f.n) {
                            out.push((p, y.clone()));
                        } else {
                            conf_in(cx, f.t, y, &p, out, d + 1);
                        }
                    }
                }
            }
            _ => {}
        },
        _ => {}
    }
}
pub fn confidences(cx: &Cx) -> (Report, Vec<(String, String, V)>) {
    let rs = par(public_roots(cx), |fi| {
        let mut it = Interp::new(cx.p);
        let f = &cx.p.fns[fi];
        // figures kept by an object start within range; every method has to keep them there
        let unit = |n: &str, v: V| if is_conf(n) && v.fl().is_some() { V::f(Fl::new(0.0, 1.0, false)) } else { v };
        let mut state = None;
        let args: Vec<V> = (0..f.argc)
            .map(|i| {
                let t = f.locals[i + 1].t;
                if f.locals[i + 1].n.as_deref() != Some("self") {
                    return it.top_of(t);
                }
                match cx.p.ty(t) {
                    TyK::Ref { t: u, m } => {
                        if *m {
                            state = Some((*u, i));
                        }
                        V::rdet(crate::flow::with_fields(&it, *u, &unit))
                    }
                    _ => crate::flow::with_fields(&it, t, &unit),
                }
            })
            .collect();
        let ix = state.map(|(_, i)| args[..i].iter().filter(|a| matches!(&a.k, K::R(r) if r.det.is_some())).count());
        let s = it.analyze_root(fi, args);
        let mut rep = Report::default();
        rep.contexts = it.analyses;
        rep.blocks = it.reached.len();
        rep.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        rep.unmodeled = it.unmodeled.keys().cloned().collect();
        let mut out = vec![];
        let rt = f.locals[0].t;
        // (value, confidence) pairs
        if ["generate_beat_grid", "detect_time_signature", "update_with_onsets"].iter().any(|n| f.name.ends_with(&format!("::{}", n))) {
            if let K::E(e) = &s.ret.k {
                if let Some(K::S(x)) = e.vs.get(&0).map(|x| &x[0].k) {
                    if x.len() == 2 && x[1].fl().is_some() {
                        out.push((".1".into(), x[1].clone()));
                    }
                }
            }
        }
        if let (Some((t, _)), Some(ix)) = (state, ix) {
            conf_in(cx, t, &s.exts[ix], "self", &mut out, 0);
        }
        if matches!(cx.p.ty(rt), TyK::Float { .. }) {
            if is_conf(&f.name) {
                out.push((String::new(), s.ret.clone()));
            }
        } else {
            conf_in(cx, rt, &s.ret, "", &mut out, 0);
        }
        (rep, out.into_iter().map(|(n, v)| (f.name.clone(), n, v.k)).collect::<Vec<_>>().into_iter().map(|(a, b, k)| (a, b, fl_of(&k))).collect::<Vec<_>>())
    });
    let mut rep = Report::default();
    let mut o = vec![];
    for (r, v) in rs {
        rep.merge(r);
        o.extend(v.into_iter().map(|(a, b, f)| (a, b, V::f(f))));
    }
    o.sort_by(|a, b| (&a.0, &a.1).cmp(&(&b.0, &b.1)));
    (rep, o)
}
fn fl_of(k: &K) -> Fl {
    match k {
        K::F(f) => *f,
        K::Bot => Fl { lo: INF, hi: -INF, nan: false, rel: 0 },
        _ => Fl::TOP,
    }
}

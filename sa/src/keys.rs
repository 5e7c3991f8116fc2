//! S21: every key produced has a tonic index in 0..=11.
use crate::crash::*;
use crate::flow::missing;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::collections::BTreeSet;

/// every key inside a value of type t
fn keys_in(p: &Prog, key: usize, t: usize, v: &V, pre: &str, out: &mut Vec<(String, V)>, d: usize) {
    if d > 9 || v.is_bot() {
        return;
    }
    if t == key {
        out.push((pre.to_string(), v.clone()));
        return;
    }
    match (p.ty(t), &v.k) {
        (TyK::Tuple { ts }, K::S(x)) => {
            for (i, (t, y)) in ts.iter().zip(x.iter()).enumerate() {
                keys_in(p, key, *t, y, &format!("{}.{}", pre, i), out, d + 1);
            }
        }
        (TyK::Array { t, .. } | TyK::Slice { t }, K::C(c)) => keys_in(p, key, *t, &c.el, &format!("{}[]", pre), out, d + 1),
        (TyK::Ref { t, .. }, K::R(r)) => {
            if let Some(x) = &r.det {
                keys_in(p, key, *t, x, pre, out, d + 1)
            }
        }
        (TyK::Adt { def, args, .. }, K::C(c)) if !def.contains("Map") && !args.is_empty() => keys_in(p, key, args[0], &c.el, &format!("{}[]", pre), out, d + 1),
        (TyK::Adt { args, .. }, K::C(c)) => {
            if let K::S(x) = &c.el.k {
                for (t, y) in args.iter().zip(x.iter()) {
                    keys_in(p, key, *t, y, &format!("{}[]", pre), out, d + 1);
                }
            }
        }
        (TyK::Adt { .. }, K::S(x)) => {
            if let Some(vs) = p.variants(t) {
                for (f, y) in vs[0].fs.iter().zip(x.iter()) {
                    keys_in(p, key, f.t, y, &format!("{}.{}", pre, f.n), out, d + 1);
                }
            }
        }
        (TyK::Adt { .. }, K::E(e)) => {
            if let Some(vs) = p.variants(t) {
                for (k, x) in &e.vs {
                    for (f, y) in vs[*k as usize].fs.iter().zip(x.iter()) {
                        keys_in(p, key, f.t, y, pre, out, d + 1);
                    }
                }
            }
        }
        // unknown contents: a key somewhere inside could be anything
        (_, K::Top) if mentions(p, key, t, 0) => out.push((format!("{} (unknown)", pre), V::top())),
        _ => {}
    }
}
fn mentions(p: &Prog, key: usize, t: usize, d: usize) -> bool {
    if t == key {
        return true;
    }
    if d > 7 {
        return false;
    }
    match p.ty(t) {
        TyK::Tuple { ts } => ts.iter().any(|t| mentions(p, key, *t, d + 1)),
        TyK::Array { t, .. } | TyK::Slice { t } | TyK::Ref { t, .. } => mentions(p, key, *t, d + 1),
        TyK::Adt { args, .. } => args.iter().any(|t| mentions(p, key, *t, d + 1)) || p.variants(t).map_or(false, |vs| vs.iter().any(|v| v.fs.iter().any(|f| mentions(p, key, f.t, d + 1)))),
        _ => false,
    }
}
pub fn in_range(v: &V) -> bool {
    match &v.k {
        K::E(e) => e.vs.values().flatten().all(|x| x.is_bot() || x.int().map_or(false, |(a, b)| a >= 0 && b <= 11)),
        K::Bot => true,
        _ => false,
    }
}

pub fn s21(cx: &Cx) -> Report {
    let Some(key) = cx.adt("Key") else { return missing("Key") };
    let roots: Vec<usize> = public_roots(cx).into_iter().filter(|i| mentions(cx.p, key, cx.p.fns[*i].locals[0].t, 0)).collect();
    if roots.is_empty() {
        return missing("a public function that returns a key");
    }
    let rs = par(roots, |fi| {
        let mut it = Interp::new(cx.p);
        it.key = Some(key);
        let f = &cx.p.fns[fi];
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        let s = it.analyze_root(fi, args);
        let mut r = Report::default();
        r.contexts = it.analyses;
        r.blocks = it.reached.len();
        r.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        r.unmodeled = it.unmodeled.keys().cloned().collect();
        let mut out = vec![];
        keys_in(cx.p, key, f.locals[0].t, &s.ret, "", &mut out, 0);
        let bad: Vec<&(String, V)> = out.iter().filter(|x| !in_range(&x.1)).collect();
        for (n, _) in out.iter().filter(|x| in_range(&x.1)) {
            r.ob(true, "", "", "", || format!("key at {}{} has a tonic index in 0..=11", f.name, n));
        }
        if !bad.is_empty() {
            let evs: BTreeSet<(String, String, String)> = s.evs.iter().filter(|e| e.kind == "key").map(|e| (e.func.clone(), e.at.clone(), e.detail.clone())).collect();
            for (n, v) in &bad {
                let site = evs.iter().map(|e| format!("{} builds {} at {}", e.0, e.2, e.1)).collect::<Vec<_>>().join("; ");
                let at = evs.iter().next().map_or(f.at.clone(), |e| e.1.clone());
                r.ob(false, &format!("{}{}", f.name, n), &format!("{}{} can be {:?}, outside the 24 keys ({})", f.name, n, v, site), &at, String::new);
            }
        }
        r
    });
    let mut rep = Report::default();
    for r in rs {
        rep.merge(r);
    }
    rep.scenarios.push("every public function that returns a key, on arbitrary arguments (keys passed in are valid)".into());
    rep
}

/// S17: conversions between keys and text never crash
pub fn s17(cx: &Cx) -> Report {
    let Some(key) = cx.adt("Key") else { return missing("Key") };
    let def = match cx.p.ty(key) {
        TyK::Adt { def, .. } => def.clone(),
        _ => return missing("Key"),
    };
    // inherent methods of the key type, and its hand-written trait implementations
    let roots: Vec<usize> = (0..cx.p.fns.len())
        .filter(|i| {
            let f = &cx.p.fns[*i];
            f.kind == "fn" && !f.derived && (f.name.starts_with(&format!("{}::", def)) || f.name.starts_with(&format!("<{} as", def)) || f.name.contains(&format!(" for {}>::", def)))
        })
        .collect();
    if roots.is_empty() {
        return missing("Key::from_numerical");
    }
    let mut r = Report::default();
    for fi in roots {
        let mut it = Interp::new(cx.p);
        it.asserts = true;
        let f = &cx.p.fns[fi];
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        let s = it.analyze_root(fi, args);
        r.contexts += it.analyses;
        r.blocks += it.reached.len();
        r.fns.extend(it.visited.iter().map(|i| cx.p.fns[*i].name.clone()));
        r.unmodeled.extend(it.unmodeled.keys().cloned());
        let sites: usize = it
            .visited
            .iter()
            .map(|i| cx.p.fns[*i].blocks.iter().enumerate().filter(|(b, bl)| it.reached.contains(&(*i, *b)) && matches!(bl.t, Tm::Assert { .. } | Tm::Call { .. })).count())
            .sum();
        let mut bad = BTreeSet::new();
        for e in s.evs.iter() {
            let w = match e.kind.as_str() {
                "assert" => format!("runtime check `{}` that is not proved", e.detail),
                "panicky" | "panic-call" => format!("call of `{}`, which panics for some text", e.detail),
                "div0" | "rem0" | "step0" | "clamp" | "unwrap" => format!("{} ({})", e.kind, e.detail),
                _ => continue,
            };
            if bad.insert((e.func.clone(), w.clone())) {
                r.ob(false, &format!("{}:{}", e.func, w), &format!("{} can crash: {}", f.name, w), &e.at, String::new);
            }
        }
        for _ in bad.len()..sites {
            r.ob(true, "", "", "", || format!("checks and calls of {} cannot panic", f.name));
        }
        let mut out = vec![];
        keys_in(cx.p, key, f.locals[0].t, &s.ret, "", &mut out, 0);
        for (n, v) in out {
            r.ob(in_range(&v), &format!("{}{}", f.name, n), &format!("{} can return {:?}, which is not one of the 24 keys", f.name, v), &f.at, || format!("{} returns only the 24 keys", f.name));
        }
    }
    r.scenarios.push("every hand-written function of the key type, on any text and any tonic index".into());
    r
}

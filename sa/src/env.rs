//! S01, S02, S18, S20: effects, nondeterminism, serialization, sharing.
use crate::crash::*;
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::collections::BTreeSet;

const MAIN: &str = "analyze_audio";

/// every call in the crate: (function, callee, argument operands, destination, location)
fn calls<'p>(cx: &Cx<'p>) -> Vec<(&'p Func, &'p Callee, &'p Vec<Op>, &'p Place, &'p str)> {
    let p: &'p Prog = cx.p;
    let mut v = vec![];
    for f in &p.fns {
        for b in &f.blocks {
            if let Tm::Call { f: op, args, dest, at, .. } = &b.t {
                if let Some(c) = p.callee_of(op) {
                    v.push((f, c, args, dest, at.as_str()));
                }
            }
        }
    }
    v
}
/// function items mentioned as values (passed as callbacks)
fn mentions<'p>(cx: &Cx<'p>) -> Vec<(&'p Func, &'p Callee, &'p str)> {
    let p: &'p Prog = cx.p;
    let mut v = vec![];
    let mut op = |f: &'p Func, o: &'p Op, at: &'p str| {
        if let Op::C(k) = o {
            if let Some(c) = &k.callee {
                v.push((f, c, at));
            }
        }
    };
    for f in &p.fns {
        for b in &f.blocks {
            for s in &b.s {
                if let St::Assign(_, r, at) = s {
                    match r {
                        Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Repeat(o, _) | Rv::Un(_, o) => op(f, o, at),
                        Rv::Agg(_, os) => os.iter().for_each(|o| op(f, o, at)),
                        _ => {}
                    }
                }
            }
            if let Tm::Call { args, at, f: g, .. } = &b.t {
                op(f, g, at);
                args.iter().for_each(|o| op(f, o, at));
            }
        }
    }
    v
}

// ---------------------------------------------------------------- S02
fn effect(c: &Callee) -> Option<&'static str> {
    let b = c.base.as_str();
    let has = |x: &str| b.starts_with(x) || c.path.contains(&format!("<{}", x)) || c.path.starts_with(x);
    for (p, w) in [
        ("std::fs::", "file system access"),
        ("std::net::", "network access"),
        ("std::env::", "environment access"),
        ("std::process::", "process control"),
        ("std::thread::", "thread control"),
        ("std::os::", "operating-system call"),
        ("std::io::stdout", "standard output"),
        ("std::io::stdin", "standard input"),
        ("std::io::stderr", "direct standard error"),
        ("std::io::_print", "standard output"),
        ("std::panic::set_hook", "process-wide panic hook"),
        ("std::panic::take_hook", "process-wide panic hook"),
        ("std::intrinsics::abort", "process abort"),
        ("log::set_", "process-wide logger state"),
        ("rayon::", "thread pool"),
        ("rayon_core::", "thread pool"),
        ("libc::", "system call"),
    ] {
        if has(p) {
            return Some(w);
        }
    }
    if b.starts_with("std::path::Path::") {
        let n = b.rsplit("::").next().unwrap();
        if ["exists", "try_exists", "is_file", "is_dir", "metadata", "symlink_metadata", "read_dir", "read_link", "canonicalize", "is_symlink"].contains(&n) {
            return Some("file system access");
        }
    }
    if c.krate == "rayon" || c.krate == "rayon_core" || c.krate == "libc" {
        return Some("threads or system calls");
    }
    None
}
pub fn s02(cx: &Cx) -> Report {
    let mut r = Report::default();
    let ms = mentions(cx);
    let n = ms.len();
    let mut bad = 0;
    for (f, c, at) in &ms {
        if let Some(w) = effect(c) {
            bad += 1;
            r.findings.insert(Finding { key: format!("{}:{}", f.name, c.base), msg: format!("{}: `{}` called in {}", w, c.path, f.name), at: at.to_string() });
        }
    }
    r.obligations = n;
    r.discharged = n - bad;
    // standard error only behind the debug track id
    let rs = par(public_roots(cx), |fi| {
        let mut it = Interp::new(cx.p);
        let f = &cx.p.fns[fi];
        let args: Vec<V> = (0..f.argc)
            .map(|i| {
                let t = f.locals[i + 1].t;
                if f.locals[i + 1].n.as_deref() == Some("debug_track_id") {
                    return V::none();
                }
                let off = |n: &str, v: V| if n == "debug_track_id" && matches!(v.k, K::E(_)) { V::none() } else { v };
                match cx.p.ty(t) {
                    TyK::Ref { t: u, .. } => V::rdet(with_fields(&it, *u, &off)),
                    _ => with_fields(&it, t, &off),
                }
            })
            .collect();
        let s = it.analyze_root(fi, args);
        let mut rep = Report::default();
        rep.contexts = it.analyses;
        rep.blocks = it.reached.len();
        rep.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        rep.unmodeled = it.unmodeled.keys().cloned().collect();
        let evs: Vec<Ev> = s.evs.iter().filter(|e| e.kind == "output").cloned().collect();
        rep.ob(
            evs.is_empty(),
            &evs.first().map_or(String::new(), |e| format!("{}:{}", e.func, e.detail)),
            &evs.first().map_or(String::new(), |e| format!("{} is reached in {} from {} although no debug track id is set", e.detail, e.func, f.name)),
            &evs.first().map_or(String::new(), |e| e.at.clone()),
            || format!("{} prints nothing without a debug track id", f.name),
        );
        rep
    });
    for x in rs {
        r.merge(x);
    }
    r.scenarios.push("every public function with every debug_track_id absent; every call in the crate".into());
    r
}

// ---------------------------------------------------------------- S01
fn hash_it(t: &str) -> bool {
    t.contains("hash_map::") || t.contains("hash_set::") || t.contains("HashMap<") || t.contains("HashSet<")
}
pub fn s01(cx: &Cx) -> Report {
    let mut r = Report::default();
    let all = calls(cx);
    let mut seen = 0;
    let mut find = |r: &mut Report, f: &Func, what: &str, at: &str, msg: String| {
        r.findings.insert(Finding { key: format!("{}:{}", f.name, what), msg, at: at.to_string() });
    };
    // sources of nondeterminism
    for (f, c, at) in mentions(cx) {
        seen += 1;
        let b = c.base.as_str();
        for (p, w) in [
            ("std::env::", "the environment"),
            ("std::thread::", "the thread"),
            ("std::process::id", "the process id"),
            ("std::hash::RandomState", "a random hash seed"),
            ("std::hash::random::", "a random hash seed"),
            ("std::collections::hash_map::RandomState", "a random hash seed"),
            ("std::collections::hash_map::DefaultHasher", "nothing stable across releases"),
            ("std::fmt::Pointer", "a memory address"),
            ("core::fmt::rt::Argument::<'_>::new_pointer", "a memory address"),
            ("rand::", "random numbers"),
            ("fastrand::", "random numbers"),
            ("getrandom::", "random numbers"),
        ] {
            if (b.starts_with(p) || c.path.starts_with(p) || c.path.contains(&format!("<{}", p))) && !p.contains("DefaultHasher") {
                find(&mut r, f, &c.base, at, format!("`{}` in {} makes the result depend on {}", c.path, f.name, w));
            }
        }
        if b.contains("::addr") && b.starts_with("std::ptr") {
            find(&mut r, f, &c.base, at, format!("`{}` in {} makes the result depend on a memory address", c.path, f.name));
        }
    }
    // pointer-to-integer casts
    for f in &cx.p.fns {
        for b in &f.blocks {
            for s in &b.s {
                if let St::Assign(_, Rv::Cast(k, _, _), at) = s {
                    if k.contains("PointerExpose") {
                        seen += 1;
                        find(&mut r, f, "address", at, format!("a memory address becomes a number in {}", f.name));
                    }
                }
                if let St::Assign(_, Rv::Tls(n), at) = s {
                    find(&mut r, f, n, at, format!("thread-local state `{}` is used in {}", n, f.name));
                }
            }
        }
    }
    // iteration over hashed collections: only order-insensitive consumption
    for (f, c, args, dest, at) in &all {
        if f.derived || c.local {
            continue;
        }
        let name = c.base.rsplit("::").next().unwrap();
        let Some(a0) = args.first().and_then(|o| o.place()) else { continue };
        let t0 = cx.p.ts(a0.t);
        if !(t0.contains("hash_map::") || t0.contains("hash_set::")) {
            // reading a collection out of a map by key, building it, ... is deterministic
            if !(hash_it(t0) && ["drain", "retain"].contains(&name)) {
                continue;
            }
        }
        if t0.contains("hash_map::Entry") || t0.contains("hash_map::OccupiedEntry") || t0.contains("hash_map::VacantEntry") || t0.contains("Result<") || t0.contains("Option<") {
            continue;
        }
        if t0.contains("DefaultHasher") || t0.contains("RandomState") && !t0.contains("Iter") {
            continue;
        }
        seen += 1;
        let dt = cx.p.ts(dest.t);
        let ok = match name {
            // adaptors and constructors keep the iterator; its consumer is judged
            "into_iter" | "iter" | "map" | "filter" | "filter_map" | "cloned" | "copied" | "by_ref" | "flat_map" | "inspect" | "size_hint" | "len" | "count" | "all" | "any"
            | "max" | "min" | "contains" | "retain" => true,
            "sum" | "product" => !dt.contains("f32") && !dt.contains("f64"),
            "collect" => {
                ["BTreeMap", "BTreeSet", "HashMap", "HashSet"].iter().any(|x| dt.starts_with(&format!("std::collections::{}", x))) || (dt.contains("Vec<") && sorted_later(cx, f, dest.l))
            }
            "next" => dest.p.is_empty() && loop_insensitive(cx, f, dest.l),
            _ => false,
        };
        if !ok {
            find(&mut r, f, &format!("hash order {}", name), at, format!("`{}` in {} consumes a hashed collection in its random iteration order", c.path, f.name));
        }
    }
    // process-wide mutable state
    for s in &cx.p.statics {
        seen += 1;
        if s.mutable || !s.freeze {
            r.findings.insert(Finding { key: s.name.clone(), msg: format!("static `{}` of type {} is mutable state that survives a call", s.name, s.ty), at: s.name.clone() });
        }
    }
    r.obligations = seen;
    r.discharged = seen.saturating_sub(r.findings.len());
    // the clock reaches only the processing time
    let mut s = sc("clock labelled");
    s.clock = true;
    let Some(o) = cx.run(MAIN, &s) else { return missing(MAIN) };
    let res = cx.result(&o);
    let mut r2 = o.rep.clone();
    for (n, v) in &res {
        if n == "metadata.processing_time_ms" {
            continue;
        }
        r2.ob(!v.all().has(L_CLOCK), &format!("clock:{}", n), &format!("`{}` depends on a clock reading", n), "src/lib.rs analyze_audio", || format!("{} independent of the clock", n));
    }
    if let K::E(e) = &o.ret.k {
        let l = e.dl.or(o.ret.lab);
        r2.ob(!l.has(L_CLOCK), "clock:outcome", "whether the analysis succeeds depends on a clock reading", "src/lib.rs analyze_audio", || "success/failure independent of the clock".into());
    }
    if res.is_empty() {
        r2.undecided.push("no result fields".into());
    }
    // clocks anywhere else than in the whole-analysis entry point must not reach a result
    for fi in public_roots(cx) {
        let f = &cx.p.fns[fi];
        if f.name == MAIN {
            continue;
        }
        let mut it = Interp::new(cx.p);
        it.scn.clock = Lab::one(L_CLOCK);
        if !reaches_clock(cx, fi) {
            continue;
        }
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        let s = it.analyze_root(fi, args);
        r2.ob(!s.ret.all().has(L_CLOCK), &format!("clock:{}", f.name), &format!("the result of {} depends on a clock reading", f.name), &f.at, || format!("{} independent of the clock", f.name));
    }
    r.merge(r2);
    r
}
/// functions whose call graph contains a clock read
fn reaches_clock(cx: &Cx, root: usize) -> bool {
    let mut seen = BTreeSet::new();
    let mut w = vec![root];
    while let Some(i) = w.pop() {
        if !seen.insert(i) {
            continue;
        }
        let f = &cx.p.fns[i];
        for b in &f.blocks {
            if let Tm::Call { f: op, .. } = &b.t {
                if let Some(c) = cx.p.callee_of(op) {
                    if c.base.contains("time::") && c.base.ends_with("::now") {
                        return true;
                    }
                    if let Some(j) = cx.p.by_name.get(&c.path) {
                        w.push(*j);
                    }
                }
            }
        }
        // closures of the function
        for (j, g) in cx.p.fns.iter().enumerate() {
            if g.kind == "closure" && g.name.starts_with(&format!("{}::{{closure", f.name)) {
                w.push(j);
            }
        }
    }
    false
}
/// the collected vector is fully sorted (whole-value order) in the same function
fn sorted_later(cx: &Cx, f: &Func, l: usize) -> bool {
    // locals that hold the vector or a reference to it
    let mut al: BTreeSet<usize> = [l].into();
    loop {
        let n = al.len();
        for b in &f.blocks {
            for s in &b.s {
                if let St::Assign(d, r, _) = s {
                    let src = match r {
                        Rv::Use(o) | Rv::Cast(_, o, _) => o.place().map(|p| p.l),
                        Rv::Ref(_, p) => Some(p.l),
                        _ => None,
                    };
                    if d.p.is_empty() && src.map_or(false, |x| al.contains(&x)) {
                        al.insert(d.l);
                    }
                }
            }
            if let Tm::Call { f: op, args, dest, .. } = &b.t {
                if let Some(c) = cx.p.callee_of(op) {
                    let nm = c.base.rsplit("::").next().unwrap();
                    if (nm == "deref_mut" || nm == "deref" || nm == "as_mut_slice") && args.first().and_then(|o| o.place()).map_or(false, |p| al.contains(&p.l)) {
                        al.insert(dest.l);
                    }
                }
            }
        }
        if al.len() == n {
            break;
        }
    }
    f.blocks.iter().any(|b| match &b.t {
        Tm::Call { f: op, args, .. } => cx.p.callee_of(op).map_or(false, |c| {
            let nm = c.base.rsplit("::").next().unwrap();
            (nm == "sort" || nm == "sort_unstable") && args.first().and_then(|o| o.place()).map_or(false, |p| al.contains(&p.l))
        }),
        _ => false,
    })
}
/// a loop over the items whose body only inserts into maps/sets or calls nothing that keeps order
fn loop_insensitive(cx: &Cx, f: &Func, item: usize) -> bool {
    // conservative: the item may only flow into keyed insertions
    let mut al: BTreeSet<usize> = [item].into();
    loop {
        let n = al.len();
        for b in &f.blocks {
            for s in &b.s {
                if let St::Assign(d, r, _) = s {
                    let mut ps: Vec<usize> = vec![];
                    match r {
                        Rv::Use(o) | Rv::Cast(_, o, _) | Rv::Un(_, o) => ps.extend(o.place().map(|p| p.l)),
                        Rv::Ref(_, p) => ps.push(p.l),
                        Rv::Bin(_, a, b) => ps.extend(a.place().into_iter().chain(b.place()).map(|p| p.l)),
                        Rv::Agg(_, os) => ps.extend(os.iter().filter_map(|o| o.place()).map(|p| p.l)),
                        Rv::Discr(_) => {}
                        _ => {}
                    }
                    if ps.iter().any(|x| al.contains(x)) {
                        al.insert(d.l);
                    }
                }
            }
        }
        if al.len() == n {
            break;
        }
    }
    // every call that takes such a value must be a keyed insertion
    for b in &f.blocks {
        if let Tm::Call { f: op, args, .. } = &b.t {
            if args.iter().filter_map(|o| o.place()).any(|p| al.contains(&p.l)) {
                let Some(c) = cx.p.callee_of(op) else { return false };
                let nm = c.base.rsplit("::").next().unwrap();
                if !["insert", "clone", "contains", "contains_key", "get", "entry"].contains(&nm) {
                    return false;
                }
            }
        }
        // values computed from items must stay in temporaries of the loop
        for s in &b.s {
            if let St::Assign(d, _, _) = s {
                if al.contains(&d.l) && (!d.p.is_empty() || d.l == 0) {
                    return false;
                }
            }
        }
    }
    // no accumulation of items into named locals outside
    !al.iter().any(|l| {
        let n = f.locals[*l].n.is_some();
        let writes = f.blocks.iter().flat_map(|b| b.s.iter()).filter(|s| matches!(s, St::Assign(d, _, _) if d.l == *l)).count();
        n && writes > 1
    })
}

// ---------------------------------------------------------------- S18
pub fn s18(cx: &Cx) -> Report {
    let mut r = Report::default();
    // the types that make up a serialized result, by name, following field types
    let mut want: BTreeSet<String> = BTreeSet::new();
    let mut w: Vec<&AdtD> = cx.p.adts.iter().filter(|a| a.is_pub && a.impls.iter().any(|i| i.t.ends_with("::Serialize"))).collect();
    for a in cx.p.adts.iter().filter(|a| a.name.ends_with("::AnalysisResult")) {
        if !w.iter().any(|x| x.name == a.name) {
            w.push(a);
        }
    }
    while let Some(a) = w.pop() {
        if !want.insert(a.name.clone()) {
            continue;
        }
        for f in &a.fields {
            for b in &cx.p.adts {
                // whole-path mention inside the field type
                if let Some(i) = f.t.find(&b.name) {
                    let e = i + b.name.len();
                    let pre = f.t[..i].chars().last().map_or(true, |c| !c.is_alphanumeric() && c != '_' && c != ':');
                    let post = f.t[e..].chars().next().map_or(true, |c| !c.is_alphanumeric() && c != '_' && c != ':');
                    if pre && post && !want.contains(&b.name) {
                        w.push(b);
                    }
                }
            }
        }
    }
    if !want.iter().any(|n| n.ends_with("AnalysisResult")) {
        r.undecided.push("AnalysisResult not found".into());
    }
    for a in cx.p.adts.iter().filter(|a| want.contains(&a.name)) {
        r.fns.insert(a.name.clone());
        let der = |t: &str| a.impls.iter().find(|i| i.t.ends_with(t)).map(|i| i.derived);
        for t in ["::Serialize", "::Deserialize"] {
            let d = der(t);
            let n = &t[2..];
            r.ob(d == Some(true), &format!("{}:{}", a.name, n), &format!("{} of `{}` is {}", n, a.name, if d.is_none() { "missing" } else { "hand-written, so field coverage is not established" }), &a.at, || format!("{} derives {}", a.name, n));
        }
        let chk = |r: &mut Report, attrs: &Vec<String>, what: &str, ty: &str| {
            for at in attrs {
                for it in items(at) {
                    let (k, v) = match it.split_once('=') {
                        Some((k, v)) => (k.trim().to_string(), v.trim().trim_matches('"').to_string()),
                        None => (it.split('(').next().unwrap().trim().to_string(), it.clone()),
                    };
                    let opt = ty.starts_with("std::option::Option<");
                    let ok = match k.as_str() {
                        "skip_serializing_if" => opt && v.replace(' ', "").trim_start_matches("std::option::").trim_start_matches("core::option::") == "Option::is_none",
                        // a missing optional entry means absent anyway
                        "default" => opt && !it.contains('='),
                        // both directions (the one-sided forms carry parentheses)
                        "rename" | "rename_all" => it.contains('='),
                        "alias" | "deny_unknown_fields" | "crate" | "expecting" | "bound" | "tag" | "borrow" => true,
                        _ => false,
                    };
                    r.ob(ok, &format!("{}:{}", what, k), &format!("`#[serde({})]` on {} loses or alters data in the serialized form", it, what), &a.at, || format!("{}: serde({}) keeps the data", what, it));
                }
            }
        };
        chk(&mut r, &a.attrs, &a.name, "");
        let mut names = BTreeSet::new();
        for f in &a.fields {
            let what = format!("{}.{}", a.name, f.n);
            chk(&mut r, &f.attrs, &what, &f.t);
            // distinct names on the wire
            let mut nm = f.n.clone();
            for at in &f.attrs {
                for it in items(at) {
                    if let Some((k, v)) = it.split_once('=') {
                        if k.trim() == "rename" {
                            nm = v.trim().trim_matches('"').to_string();
                        }
                    }
                }
            }
            if f.n.parse::<usize>().is_err() {
                let fresh = names.insert(nm.clone());
                r.ob(fresh, &format!("{}:name", what), &format!("{} is written under the name `{}` that another field already has", what, nm), &a.at, || format!("{} has its own name", what));
            }
        }
    }
    // AnalysisConfidence etc. are covered through Serialize above
    r.scenarios.push("every serializable type reachable from the result".into());
    r
}
/// top-level items of a `#[serde(...)]` attribute
fn items(a: &str) -> Vec<String> {
    let Some(i) = a.find('(') else { return vec![] };
    let Some(j) = a.rfind(')') else { return vec![] };
    let mut v = vec![];
    let (mut d, mut q, mut cur) = (0, false, String::new());
    for c in a[i + 1..j].chars() {
        match c {
            '"' => q = !q,
            '(' if !q => d += 1,
            ')' if !q => d -= 1,
            _ => {}
        }
        if c == ',' && d == 0 && !q {
            v.push(cur.trim().to_string());
            cur.clear();
        } else {
            cur.push(c);
        }
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v
}

// ---------------------------------------------------------------- S20
pub fn s20(cx: &Cx) -> Report {
    let mut r = Report::default();
    for s in &cx.p.statics {
        r.ob(!s.mutable && s.freeze, &s.name, &format!("static `{}: {}` is shared mutable state", s.name, s.ty), &s.name, || format!("static {} is immutable", s.name));
    }
    for u in &cx.p.unsafes {
        r.ob(false, &format!("{}:{}", u.what, u.at.split(':').next().unwrap()), &format!("{} in library code", u.what), &u.at, String::new);
    }
    for f in &cx.p.fns {
        if f.derived {
            continue;
        }
        r.fns.insert(f.name.clone());
        r.ob(!f.uns, &format!("{}:unsafe", f.name), &format!("`{}` is an unsafe function", f.name), &f.at, || format!("{} is safe", f.name));
        for b in &f.blocks {
            for s in &b.s {
                if let St::Assign(_, Rv::Tls(n), at) = s {
                    r.ob(false, &format!("{}:{}", f.name, n), &format!("thread-local `{}` used in {}", n, f.name), at, String::new);
                }
            }
        }
    }
    // thread-locals are reached through LocalKey
    for (f, c, at) in mentions(cx) {
        if c.base.starts_with("std::thread::LocalKey") || c.base.starts_with("std::sync::Once") || c.base.starts_with("std::sync::LazyLock") {
            r.ob(false, &format!("{}:{}", f.name, c.base), &format!("`{}` in {} keeps state between calls", c.path, f.name), at, String::new);
        }
    }
    for a in cx.p.adts.iter().filter(|a| a.is_pub) {
        r.ob(a.send && a.sync, &format!("{}:threads", a.name), &format!("`{}` is not {}", a.name, if a.send { "Sync" } else { "Send" }), &a.at, || format!("{}: Send + Sync", a.name));
        for f in &a.fields {
            let im = ["Cell<", "UnsafeCell<", "Mutex<", "RwLock<", "Atomic", "Rc<", "*mut ", "*const "].iter().any(|x| f.t.contains(x));
            r.ob(!im, &format!("{}.{}:interior", a.name, f.n), &format!("`{}.{}: {}` is shared mutable state", a.name, f.n, f.t), &a.at, || format!("{}.{} has no interior mutability", a.name, f.n));
        }
    }
    // sample buffers are borrowed immutably
    for fi in public_roots(cx) {
        let f = &cx.p.fns[fi];
        if f.name == MAIN {
            let t = f.locals[1].t;
            let ok = matches!(cx.p.ty(t), TyK::Ref { m: false, .. });
            r.ob(ok, "samples:shared", "analyze_audio does not take the samples by shared reference", &f.at, || "samples are a shared borrow".into());
        }
    }
    if !cx.p.adts.iter().any(|a| a.is_pub) {
        r.undecided.push("no public types found".into());
    }
    r.scenarios.push("every static, unsafe construct, function and public type of the crate".into());
    r
}

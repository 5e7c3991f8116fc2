//! S28: a call that fails leaves what it was lent unchanged.
//! Typestate over MIR: (written to since entry?, variants of the results in flight), path by path.
use crate::crash::public_roots;
use crate::flow::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type Vars = BTreeMap<usize, u128>;
/// where the first write happened, if any
type Dirty = Option<String>;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct S {
    d: Dirty,
    v: Vars,
}
/// (variant returned if known, first write)
type Sum = BTreeSet<(Option<u128>, Dirty)>;

/// library calls that hand a mutable borrow on (or only look) without writing through it
const PASS: &[&str] = &[
    "iter_mut", "into_iter", "next", "next_back", "len", "is_empty", "enumerate", "zip", "skip", "take", "step_by", "rev", "chunks_mut",
    "chunks_exact_mut", "rchunks_mut", "split_at_mut", "split_first_mut", "split_last_mut", "as_mut", "as_mut_slice", "deref_mut", "deref", "index_mut", "get_mut", "first_mut",
    "last_mut", "by_ref", "map", "filter", "as_ref", "borrow_mut", "borrow", "to_vec", "clone", "branch", "from_output", "from_residual", "index", "iter", "unwrap",
    "expect", "ok_or", "ok_or_else", "as_slice", "chunks", "windows", "first", "last", "get", "copied", "cloned", "peekable", "chain", "as_deref", "as_deref_mut", "map_err",
];

struct A<'p> {
    p: &'p Prog,
    reached: &'p HashSet<(usize, usize)>,
    memo: HashMap<usize, Option<Sum>>,
    writes: BTreeSet<String>,
    fns: BTreeSet<String>,
    blocks: usize,
    /// too many states: nothing proved
    over: bool,
}
impl<'p> A<'p> {
    /// could hold a mutable borrow
    fn lends(&self, t: usize, d: usize) -> bool {
        if d > 6 {
            return true;
        }
        match self.p.ty(t) {
            TyK::Ref { m, t } => *m || self.lends(*t, d + 1),
            TyK::Ptr { .. } => true,
            TyK::Closure { ups, .. } => ups.iter().any(|t| self.lends(*t, d + 1)),
            TyK::Tuple { ts } => ts.iter().any(|t| self.lends(*t, d + 1)),
            TyK::Slice { t } | TyK::Array { t, .. } => self.lends(*t, d + 1),
            TyK::Adt { args, .. } => self.p.ts(t).contains("Mut") || args.iter().any(|t| self.lends(*t, d + 1)),
            _ => false,
        }
    }
    /// locals through which the lent data can be written
    fn derived(&self, f: &Func, seed: &[usize]) -> HashSet<usize> {
        let mut s: HashSet<usize> = seed.iter().copied().collect();
        loop {
            let n = s.len();
            for b in f.blocks.iter().filter(|b| !b.cleanup) {
                for st in &b.s {
                    let St::Assign(p, r, _) = st else { continue };
                    let from = match r {
                        Rv::Use(o) | Rv::Cast(_, o, _) => o.place().map_or(false, |q| s.contains(&q.l)),
                        Rv::Agg(_, os) => os.iter().any(|o| o.place().map_or(false, |q| s.contains(&q.l))),
                        Rv::Ref(m, q) => *m && s.contains(&q.l),
                        Rv::RawPtr(q) => s.contains(&q.l),
                        _ => false,
                    };
                    if from && self.lends(f.locals[p.l].t, 0) {
                        s.insert(p.l);
                    }
                }
                if let Tm::Call { args, dest, .. } = &b.t {
                    if args.iter().any(|o| o.place().map_or(false, |q| s.contains(&q.l))) && self.lends(f.locals[dest.l].t, 0) {
                        s.insert(dest.l);
                    }
                }
            }
            if s.len() == n {
                return s;
            }
        }
    }
    fn result_like(&self, t: usize) -> bool {
        matches!(self.p.adt_def(t), Some("std::result::Result" | "std::ops::ControlFlow"))
    }
    fn run(&mut self, fi: usize, seed: &[usize]) -> Sum {
        let f = &self.p.fns[fi];
        let der = self.derived(f, seed);
        self.fns.insert(f.name.clone());
        let mut seen: BTreeSet<(usize, S)> = BTreeSet::new();
        let mut work = vec![(0usize, S { d: None, v: Vars::new() })];
        let mut out = Sum::new();
        while let Some((b, mut s)) = work.pop() {
            if seen.len() > 50000 {
                self.over = true;
                break;
            }
            if f.blocks[b].cleanup || !self.reached.contains(&(fi, b)) || !seen.insert((b, s.clone())) {
                continue;
            }
            self.blocks += 1;
            let mut disc: HashMap<usize, usize> = HashMap::new();
            for st in &f.blocks[b].s {
                match st {
                    St::Dead(l) => {
                        s.v.remove(l);
                    }
                    St::SetD(p, v) if p.p.is_empty() && self.result_like(p.t) => {
                        s.v.insert(p.l, *v as u128);
                    }
                    St::SetD(p, _) => {
                        if der.contains(&p.l) && p.p.contains(&Pe::Deref) {
                            s.d = s.d.or(Some(f.at.clone()));
                        }
                    }
                    St::Assign(p, r, at) => {
                        if der.contains(&p.l) && p.p.contains(&Pe::Deref) {
                            self.writes.insert(at.clone());
                            s.d = s.d.or(Some(at.clone()));
                        }
                        if !p.p.is_empty() {
                            continue;
                        }
                        let v = match r {
                            Rv::Use(o) => match o {
                                Op::C(k) if matches!(self.p.ty(p.t), TyK::Bool) => k.bits,
                                _ => o.place().filter(|q| q.p.is_empty()).and_then(|q| s.v.get(&q.l).copied()),
                            },
                            Rv::Agg(Ak::Adt(_, v), _) if self.result_like(p.t) => Some(*v as u128),
                            Rv::Discr(q) if q.p.is_empty() => {
                                disc.insert(p.l, q.l);
                                s.v.get(&q.l).copied()
                            }
                            _ => None,
                        };
                        match v {
                            Some(v) => s.v.insert(p.l, v),
                            None => s.v.remove(&p.l),
                        };
                    }
                }
            }
            match &f.blocks[b].t {
                Tm::Goto(t) | Tm::Drop(_, t) | Tm::Assert { t, .. } => work.push((*t, s)),
                Tm::Return => {
                    out.insert((s.v.get(&0).copied(), s.d));
                }
                Tm::Switch(o, ts, e) => {
                    let l = o.place().filter(|q| q.p.is_empty()).map(|q| q.l);
                    let known = l.and_then(|l| s.v.get(&l).copied());
                    // remember what the branch says about a result (or a flag)
                    let of = l.map(|l| disc.get(&l).copied().unwrap_or(l)).filter(|l| {
                        let t = f.locals[*l].t;
                        self.result_like(t) || matches!(self.p.ty(t), TyK::Bool)
                    });
                    let two = of.map_or(false, |_| ts.len() == 1);
                    for (v, t) in ts {
                        if known.map_or(true, |k| k == *v) {
                            let mut s = s.clone();
                            if let Some(l) = of {
                                s.v.insert(l, *v);
                            }
                            work.push((*t, s));
                        }
                    }
                    if known.map_or(true, |k| !ts.iter().any(|x| x.0 == k)) {
                        let mut s = s.clone();
                        if let (Some(l), true) = (of, two) {
                            s.v.insert(l, 1 - ts[0].0.min(1));
                        }
                        work.push((*e, s));
                    }
                }
                Tm::Call { f: op, args, dest, t, at } => {
                    let Some(t) = t else { continue };
                    if der.contains(&dest.l) && dest.p.contains(&Pe::Deref) {
                        self.writes.insert(at.clone());
                        s.d = s.d.or(Some(at.clone()));
                    }
                    let lent: Vec<usize> = (0..args.len())
                        .filter(|i| args[*i].place().map_or(false, |q| der.contains(&q.l) && self.lends(q.t, 0)))
                        .collect();
                    let c = self.p.callee_of(op);
                    let name = c.map(|c| c.base.rsplit("::").next().unwrap().to_string()).unwrap_or_default();
                    let arg = |s: &S| args.first().and_then(|o| o.place()).filter(|q| q.p.is_empty()).and_then(|q| s.v.get(&q.l).copied());
                    let mut outs: Sum = Sum::new();
                    if let Some(&g) = c.filter(|_| !lent.is_empty()).and_then(|c| self.p.by_name.get(&c.path)) {
                        outs = self.summary(g, &lent.iter().map(|i| i + 1).collect::<Vec<_>>());
                    } else if !lent.is_empty() && !PASS.contains(&name.as_str()) {
                        self.writes.insert(at.clone());
                        outs.insert((None, Some(at.clone())));
                    } else {
                        let k = match name.as_str() {
                            "branch" | "map" | "map_err" | "inspect" | "inspect_err" | "clone" => arg(&s),
                            "from_residual" => Some(1),
                            "from_output" => Some(0),
                            _ => None,
                        };
                        outs.insert((k, None));
                    }
                    for (k, d) in outs {
                        let ks = match k {
                            Some(k) => vec![Some(k)],
                            None if self.result_like(dest.t) => vec![Some(0), Some(1)],
                            None => vec![None],
                        };
                        for k in ks {
                            let mut s = s.clone();
                            s.d = s.d.or(d.clone());
                            if dest.p.is_empty() {
                                match k {
                                    Some(k) => s.v.insert(dest.l, k),
                                    None => s.v.remove(&dest.l),
                                };
                            }
                            work.push((*t, s));
                        }
                    }
                }
                _ => {}
            }
        }
        out
    }
    fn summary(&mut self, g: usize, seed: &[usize]) -> Sum {
        // (the seed is the same set of mutable parameters at every call: keyed by function)
        match self.memo.get(&g) {
            Some(Some(s)) => return s.clone(),
            Some(None) => return [(None, Some(self.p.fns[g].at.clone()))].into(),
            None => {}
        }
        self.memo.insert(g, None);
        let s = self.run(g, seed);
        self.memo.insert(g, Some(s.clone()));
        s
    }
}

pub fn s28(cx: &Cx) -> Report {
    let roots: Vec<usize> = public_roots(cx)
        .into_iter()
        .filter(|i| {
            let f = &cx.p.fns[*i];
            f.trait_.is_none() && cx.p.is_result(f.locals[0].t) && (1..=f.argc).any(|a| matches!(cx.p.ty(f.locals[a].t), TyK::Ref { m: true, .. }))
        })
        .collect();
    if roots.is_empty() {
        return missing("a public function that changes its argument and can fail");
    }
    all(par(roots, |fi| {
        let f = &cx.p.fns[fi];
        let mut it = Interp::new(cx.p);
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        it.analyze_root(fi, args);
        let reached: HashSet<(usize, usize)> = it.reached.iter().copied().collect();
        let seed: Vec<usize> = (1..=f.argc).filter(|a| matches!(cx.p.ty(f.locals[*a].t), TyK::Ref { m: true, .. })).collect();
        let mut a = A { p: cx.p, reached: &reached, memo: HashMap::new(), writes: BTreeSet::new(), fns: BTreeSet::new(), blocks: 0, over: false };
        let sum = a.run(fi, &seed);
        let mut r = Report::default();
        r.contexts = it.analyses;
        r.blocks = a.blocks;
        r.fns = a.fns.clone();
        if a.over {
            r.undecided.push(format!("{}: too many paths", f.name));
        }
        let bad: BTreeSet<&String> = sum.iter().filter(|x| x.0 != Some(0)).filter_map(|x| x.1.as_ref()).collect();
        // one obligation per write: no failure can follow it
        for w in &a.writes {
            if !bad.contains(w) {
                r.ob(true, w, "", w, || format!("{}: no error return after the write at {}", f.name, w));
            }
        }
        for w in bad {
            r.ob(false, &format!("{}:write", f.name), &format!("{} can return an error after it has written to the data it was lent", f.name), w, String::new);
        }
        let clean = sum.iter().any(|x| x.0 == Some(1) && x.1.is_none());
        if r.obligations == 0 {
            r.ob(true, &f.name, "", &f.at, || format!("{} never writes before an error return (error returns: {})", f.name, clean));
        }
        r
    }))
}

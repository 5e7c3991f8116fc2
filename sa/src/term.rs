//! S15: every loop terminates. Each strongly connected region of a function's control-flow graph
//! must be cut, recursively, by blocks that can only be visited finitely often: a call that
//! advances a finite iterator whose exhaustion leaves the region, or a strictly progressing
//! assignment of a variable whose bound test leaves the region.
use crate::crash::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Rec = HashMap<(usize, usize, usize), Vec<V>>;
pub const CALL: usize = usize::MAX;

struct Fx<'a> {
    cx: &'a Cx<'a>,
    fi: usize,
    f: &'a Func,
    succ: Vec<Vec<usize>>,
    /// local -> definitions (block, statement) of the whole local
    defs: Vec<Vec<(usize, usize)>>,
    /// local -> blocks that write into a part of it or borrow it mutably
    touch: Vec<Vec<usize>>,
    rec: &'a Rec,
    /// the function was analysed in some context
    seen: bool,
    chain: std::cell::RefCell<Set>,
    /// the variable looked at last, and whether it moves by exactly one
    unit: std::cell::Cell<(usize, bool)>,
    cur: std::cell::Cell<usize>,
}
type Set = BTreeSet<usize>;
#[derive(Clone, Debug)]
enum Ex {
    Inv,
    /// grows without bound / shrinks without bound each time one of these blocks is passed
    Up(Set),
    Down(Set),
    Bad(String),
}
#[derive(Clone, Copy, Debug)]
struct Dl {
    lo: f64,
    hi: f64,
    /// magnitude bound of the accumulated variable, for floats
    mag: f64,
    float: bool,
}

pub fn finite(p: &Prog, t: usize, d: usize) -> bool {
    if d > 24 {
        return true;
    }
    match p.ty(t) {
        TyK::Ref { t, .. } => finite(p, *t, d + 1),
        TyK::Adt { def, args, .. } => {
            let n = def.rsplit("::").next().unwrap();
            let a = |i: usize| args.get(i).map_or(true, |t| finite(p, *t, d + 1));
            match n {
                "RangeFrom" | "Repeat" | "RepeatWith" | "Cycle" | "Successors" | "FromFn" => false,
                "Take" => true,
                "TakeWhile" | "MapWhile" | "Scan" => true,
                "Zip" => a(0) || a(1),
                "Chain" => a(0) && a(1),
                _ if def.contains("iter::") || n == "Box" => args.iter().all(|t| !is_iter(p, *t) || finite(p, *t, d + 1)),
                _ => true,
            }
        }
        _ => true,
    }
}
fn is_iter(p: &Prog, t: usize) -> bool {
    match p.ty(t) {
        TyK::Adt { def, .. } => def.contains("iter::") || def.contains("ops::Range") || def.contains("Iter"),
        TyK::Ref { t, .. } => is_iter(p, *t),
        _ => false,
    }
}

impl<'a> Fx<'a> {
    fn new(cx: &'a Cx<'a>, fi: usize, rec: &'a Rec, seen: bool) -> Fx<'a> {
        let f = &cx.p.fns[fi];
        let n = f.locals.len();
        let mut defs = vec![vec![]; n];
        let mut touch = vec![vec![]; n];
        for (b, bl) in f.blocks.iter().enumerate() {
            if bl.cleanup {
                continue;
            }
            for (i, s) in bl.s.iter().enumerate() {
                if let St::Assign(pl, rv, _) = s {
                    if pl.p.is_empty() {
                        defs[pl.l].push((b, i));
                    } else {
                        touch[pl.l].push(b);
                    }
                    match rv {
                        Rv::Ref(true, q) | Rv::RawPtr(q) => touch[q.l].push(b),
                        _ => {}
                    }
                }
            }
            if let Tm::Call { dest, .. } = &bl.t {
                if dest.p.is_empty() {
                    defs[dest.l].push((b, CALL));
                } else {
                    touch[dest.l].push(b);
                }
            }
        }
        let succ = f.blocks.iter().map(crate::cfg::succs).collect();
        Fx { cx, fi, f, succ, defs, touch, rec, seen, chain: Default::default(), unit: Default::default(), cur: Default::default() }
    }
    fn sccs(&self, within: &Set) -> Vec<Set> {
        // Kosaraju on the subgraph
        let mut order = vec![];
        let mut seen = Set::new();
        for &r in within {
            if !seen.insert(r) {
                continue;
            }
            let mut st = vec![(r, 0)];
            while let Some((b, i)) = st.pop() {
                if let Some(&t) = self.succ[b].get(i) {
                    st.push((b, i + 1));
                    if within.contains(&t) && seen.insert(t) {
                        st.push((t, 0));
                    }
                } else {
                    order.push(b);
                }
            }
        }
        let mut pred: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for &b in within {
            for t in &self.succ[b] {
                if within.contains(t) {
                    pred.entry(*t).or_default().push(b);
                }
            }
        }
        let mut done = Set::new();
        let mut out = vec![];
        for &r in order.iter().rev() {
            if done.contains(&r) {
                continue;
            }
            let mut c = Set::new();
            let mut st = vec![r];
            while let Some(b) = st.pop() {
                if !done.insert(b) {
                    continue;
                }
                c.insert(b);
                for q in pred.get(&b).into_iter().flatten() {
                    if !done.contains(q) {
                        st.push(*q);
                    }
                }
            }
            let only = *c.iter().next().unwrap();
            if c.len() > 1 || self.succ[only].contains(&only) {
                out.push(c);
            }
        }
        out
    }
    fn in_l(&self, l: usize, lp: &Set) -> Vec<(usize, usize)> {
        self.defs[l].iter().filter(|d| lp.contains(&d.0)).cloned().collect()
    }
    fn touched(&self, l: usize, lp: &Set) -> bool {
        self.touch[l].iter().any(|b| lp.contains(b))
    }
    fn stmt(&self, d: (usize, usize)) -> Option<&Rv> {
        match self.f.blocks[d.0].s.get(d.1) {
            Some(St::Assign(_, rv, _)) => Some(rv),
            _ => None,
        }
    }
    fn call(&self, b: usize) -> Option<(&Callee, &Vec<Op>, &Place)> {
        match &self.f.blocks[b].t {
            Tm::Call { f, args, dest, .. } => self.cx.p.callee_of(f).map(|c| (c, args, dest)),
            _ => None,
        }
    }
    fn uniq(&self, l: usize) -> Option<(usize, usize)> {
        if self.defs[l].len() == 1 && l > self.f.argc {
            Some(self.defs[l][0])
        } else {
            None
        }
    }
    /// the recorded operand value at a definition
    fn val(&self, d: (usize, usize), i: usize) -> V {
        match self.rec.get(&(self.fi, d.0, d.1)) {
            Some(v) => v.get(i).cloned().unwrap_or(V::top()),
            None => V::bot(),
        }
    }
    fn num(v: &V) -> Option<(f64, f64)> {
        match &v.k {
            K::I(a, b) => Some((*a as f64, *b as f64)),
            K::F(f) if !f.nan => Some((f.lo, f.hi)),
            K::F(f) => Some((f.lo.min(f64::NEG_INFINITY), f.hi)),
            _ => None,
        }
    }
    /// the change of local `x` expressed by an operand: Some(interval of operand - x)
    fn delta(&self, o: &Op, x: usize, d: usize) -> Option<Dl> {
        let p = o.place()?;
        if d > 12 {
            return None;
        }
        let some = p.p.len() == 2 && matches!(p.p[0], Pe::Down(..)) && matches!(p.p[1], Pe::Field(0, _));
        if p.l == x && p.p.is_empty() {
            let fl = matches!(self.cx.p.ty(p.t), TyK::Float { .. });
            self.chain.borrow_mut().insert(self.cur.get());
            return Some(Dl { lo: 0.0, hi: 0.0, mag: 0.0, float: fl });
        }
        if p.p.is_empty() && p.l > self.f.argc && self.defs[p.l].len() > 1 && self.touch[p.l].is_empty() {
            // a value chosen among several: every choice must progress
            let mut acc: Option<Dl> = None;
            for d0 in &self.defs[p.l] {
                let a = self.def_delta(*d0, p, x, d, false, false)?;
                acc = Some(match acc {
                    None => a,
                    Some(b) => Dl { lo: a.lo.min(b.lo), hi: a.hi.max(b.hi), mag: a.mag.max(b.mag), float: a.float },
                });
            }
            return acc;
        }
        let d0 = self.uniq(p.l)?;
        let ovf = p.p.len() == 1 && matches!(p.p[0], Pe::Field(0, _));
        if !p.p.is_empty() && !ovf && !some {
            return None;
        }
        self.def_delta(d0, p, x, d, ovf, some)
    }
    fn def_delta(&self, d0: (usize, usize), p: &Place, x: usize, d: usize, ovf: bool, some: bool) -> Option<Dl> {
        let _ = p;
        let up = self.cur.replace(d0.0);
        let r = self.def_delta1(d0, x, d, ovf, some);
        self.cur.set(up);
        r
    }
    fn def_delta1(&self, d0: (usize, usize), x: usize, d: usize, ovf: bool, some: bool) -> Option<Dl> {
        if d0.1 == CALL {
            let (c, args, _) = self.call(d0.0)?;
            let n = c.base.rsplit("::").next().unwrap();
            if some {
                return match n {
                    "checked_add" => self.sum(d0, &args[0], &args[1], x, d, 1.0),
                    "checked_sub" => self.sum(d0, &args[0], &args[1], x, d, -1.0),
                    _ => None,
                };
            }
            return match n {
                "saturating_add" | "add" => self.sum(d0, &args[0], &args[1], x, d, 1.0),
                "saturating_sub" | "sub" => self.sum(d0, &args[0], &args[1], x, d, -1.0),
                "max" if args.len() == 2 => {
                    let a = args.iter().filter_map(|a| self.delta(a, x, d + 1)).next()?;
                    Some(Dl { hi: f64::INFINITY, ..a })
                }
                "min" if args.len() == 2 => {
                    let a = args.iter().filter_map(|a| self.delta(a, x, d + 1)).next()?;
                    Some(Dl { lo: f64::NEG_INFINITY, ..a })
                }
                _ => None,
            };
        }
        match self.stmt(d0)? {
            Rv::Use(o) if !ovf => self.delta(o, x, d + 1),
            Rv::Bin(op, a, b) => match op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked") {
                "Add" => self.sum(d0, a, b, x, d, 1.0),
                "Sub" => self.sum(d0, a, b, x, d, -1.0),
                _ => None,
            },
            _ => None,
        }
    }
    fn sum(&self, d0: (usize, usize), a: &Op, b: &Op, x: usize, d: usize, sg: f64) -> Option<Dl> {
        let (base, other, bi, oi) = match self.delta(a, x, d + 1) {
            Some(v) => (v, 1, 0, 1),
            None if sg > 0.0 => (self.delta(b, x, d + 1)?, 0, 1, 0),
            None => return None,
        };
        let _ = other;
        let dead = !self.rec.contains_key(&(self.fi, d0.0, d0.1));
        if dead {
            return Some(Dl { lo: 1.0, hi: 1.0, ..base });
        }
        let (lo, hi) = Self::num(&self.val(d0, oi))?;
        let m = Self::num(&self.val(d0, bi)).map_or(f64::INFINITY, |(a, b)| a.abs().max(b.abs()));
        let (lo, hi) = if sg > 0.0 { (lo, hi) } else { (-hi, -lo) };
        Some(Dl { lo: base.lo + lo, hi: base.hi + hi, mag: base.mag.max(m), float: base.float })
    }
    /// blocks on a way from `a` to `b` inside the region that does not pass either in between
    fn between(&self, a: usize, b: usize, lp: &Set) -> Set {
        let walk = |from: usize, fw: bool| -> Set {
            let mut seen = Set::new();
            let mut st = vec![from];
            while let Some(x) = st.pop() {
                let nx: Vec<usize> = if fw { self.succ[x].clone() } else { lp.iter().filter(|y| self.succ[**y].contains(&x)).cloned().collect() };
                for n in nx {
                    if lp.contains(&n) && n != a && n != b && seen.insert(n) {
                        st.push(n);
                    }
                }
            }
            seen
        };
        walk(a, true).intersection(&walk(b, false)).cloned().collect()
    }
    /// how a variable moves inside the region
    fn var(&self, x: usize, lp: &Set) -> Ex {
        let ds = self.in_l(x, lp);
        let name = self.f.locals[x].n.clone().unwrap_or(format!("_{}", x));
        if self.touch[x].iter().any(|_| true) && self.touched(x, lp) {
            return Ex::Bad(format!("`{}` is changed through a reference", name));
        }
        if ds.is_empty() {
            return Ex::Inv;
        }
        let (mut up, mut dn) = (true, true);
        let mut worst = String::new();
        let mut incs = Set::new();
        self.unit.set((x, true));
        for d in ds {
            self.chain.borrow_mut().clear();
            self.cur.set(d.0);
            let dl = if d.1 == CALL {
                // x = f(x, d)
                match self.call(d.0) {
                    Some((c, args, _)) => {
                        let n = c.base.rsplit("::").next().unwrap();
                        match n {
                            "saturating_add" => self.sum(d, &args[0], &args[1], x, 0, 1.0),
                            "saturating_sub" => self.sum(d, &args[0], &args[1], x, 0, -1.0),
                            _ => None,
                        }
                    }
                    None => None,
                }
            } else {
                match self.stmt(d) {
                    Some(Rv::Use(o)) => self.delta(o, x, 0),
                    Some(Rv::Bin(op, a, b)) => match op.as_str() {
                        "Add" | "AddUnchecked" => self.sum(d, a, b, x, 0, 1.0),
                        "Sub" | "SubUnchecked" => self.sum(d, a, b, x, 0, -1.0),
                        _ => None,
                    },
                    _ => None,
                }
            };
            let Some(dl) = dl else {
                return Ex::Bad(format!("`{}` is reassigned arbitrarily", name));
            };
            incs.insert(d.0);
            let leaves = self.chain.borrow().clone();
            if !leaves.contains(&d.0) {
                // the new value must be computed afresh, from the current value, on every pass
                let rest: Set = lp.difference(&leaves).cloned().collect();
                if self.sccs(&rest).iter().any(|s| s.contains(&d.0)) || leaves.iter().all(|c| !lp.contains(c)) {
                    return Ex::Bad(format!("`{}` is reassigned a value computed earlier", name));
                }
            }
            for c in leaves.iter().filter(|c| **c != d.0) {
                let btw = self.between(*c, d.0, lp);
                if self.in_l(x, lp).iter().any(|e| e.0 != d.0 && e.0 != *c && btw.contains(&e.0)) {
                    return Ex::Bad(format!("`{}` changes between reading and writing", name));
                }
            }
            let sat = d.1 == CALL && dl.hi < 0.0;
            if dl.float || !(sat || dl.lo == dl.hi && dl.lo.abs() == 1.0) {
                self.unit.set((x, false));
            }
            if dl.float {
                // the step must be visible at the magnitude the variable can have
                let eps = dl.mag * 1.2e-7;
                up &= dl.lo > eps && dl.mag.is_finite();
                dn &= -dl.hi > eps && dl.mag.is_finite();
            } else {
                up &= dl.lo >= 1.0;
                dn &= dl.hi <= -1.0;
            }
            if !up && !dn {
                worst = format!("the step of `{}` can be {}", name, if dl.lo <= 0.0 && dl.hi >= 0.0 { "zero".to_string() } else { format!("{}..{}", dl.lo, dl.hi) });
            }
        }
        if up {
            Ex::Up(incs)
        } else if dn {
            Ex::Down(incs)
        } else {
            Ex::Bad(worst)
        }
    }
    fn expr(&self, o: &Op, lp: &Set, d: usize) -> Ex {
        let Some(p) = o.place() else { return Ex::Inv };
        if d > 14 {
            return Ex::Bad("expression too deep".into());
        }
        let ds = self.in_l(p.l, lp);
        if ds.is_empty() && !self.touched(p.l, lp) {
            // an index local inside the projection may vary
            if p.p.iter().all(|e| !matches!(e, Pe::Index(i) if !self.in_l(*i, lp).is_empty())) {
                return Ex::Inv;
            }
            return Ex::Bad("value read from an array".into());
        }
        let ovf = p.p.len() == 1 && matches!(p.p[0], Pe::Field(0, _));
        let Some(d0) = self.uniq(p.l).filter(|_| !self.touched(p.l, lp) || self.f.locals[p.l].n.is_none()) else {
            if p.p.is_empty() {
                return self.var(p.l, lp);
            }
            return Ex::Bad("part of a changing value".into());
        };
        if d0.1 == CALL {
            let Some((c, args, _)) = self.call(d0.0) else { return Ex::Bad("unknown call".into()) };
            let n = c.base.rsplit("::").next().unwrap();
            // payload of `next` on an unbounded counting iterator
            if n == "next" {
                if let Some(t) = args[0].place().map(|q| q.t) {
                    if !p.p.is_empty() && counting(self.cx.p, t) && self.iter_base(&args[0], lp).is_some() {
                        return Ex::Up([d0.0].into());
                    }
                }
                return Ex::Bad("item of an iterator".into());
            }
            let ex: Vec<Ex> = args.iter().map(|a| self.expr(a, lp, d + 1)).collect();
            if ex.iter().all(|e| matches!(e, Ex::Inv)) {
                // a pure function of unchanging values; lengths of collections that do not change
                return if args.iter().all(|a| self.steady(a, lp, 0)) { Ex::Inv } else { Ex::Bad(format!("result of {} may change", n)) };
            }
            return match n {
                "len" | "is_empty" => {
                    if self.steady(&args[0], lp, 0) {
                        Ex::Inv
                    } else {
                        Ex::Bad("the length of a collection that changes".into())
                    }
                }
                "saturating_add" | "saturating_mul" | "add" | "max" => self.mono(&ex, d0, n),
                "saturating_sub" if matches!(ex[1], Ex::Inv) => ex[0].clone(),
                _ => Ex::Bad(format!("result of {}", n)),
            };
        }
        match self.stmt(d0) {
            Some(Rv::Use(o)) => {
                if !p.p.is_empty() && !ovf {
                    return Ex::Bad("part of a changing value".into());
                }
                self.expr(o, lp, d + 1)
            }
            Some(Rv::Cast(_, o, _)) => self.expr(o, lp, d + 1),
            Some(Rv::Un(op, o)) if op == "PtrMetadata" => {
                if self.steady(o, lp, 0) {
                    Ex::Inv
                } else {
                    Ex::Bad("the length of a collection that changes".into())
                }
            }
            Some(Rv::Ref(_, q)) => {
                if self.in_l(q.l, lp).is_empty() && !self.touched(q.l, lp) {
                    Ex::Inv
                } else {
                    Ex::Bad("reference to a changing value".into())
                }
            }
            Some(Rv::Bin(op, a, b)) => {
                let ex = [self.expr(a, lp, d + 1), self.expr(b, lp, d + 1)];
                match op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked") {
                    "Add" => self.mono(&ex, d0, "add"),
                    "Mul" => self.mono(&ex, d0, "saturating_mul"),
                    "Sub" => match (&ex[0], &ex[1]) {
                        (Ex::Inv, Ex::Inv) => Ex::Inv,
                        (Ex::Up(s), Ex::Inv) => Ex::Up(s.clone()),
                        (Ex::Down(s), Ex::Inv) => Ex::Down(s.clone()),
                        (Ex::Inv, Ex::Up(s)) => Ex::Down(s.clone()),
                        (Ex::Inv, Ex::Down(s)) => Ex::Up(s.clone()),
                        (Ex::Bad(r), _) | (_, Ex::Bad(r)) => Ex::Bad(r.clone()),
                        _ => Ex::Bad("difference of two changing values".into()),
                    },
                    _ => match (&ex[0], &ex[1]) {
                        (Ex::Inv, Ex::Inv) => Ex::Inv,
                        (Ex::Bad(r), _) | (_, Ex::Bad(r)) => Ex::Bad(r.clone()),
                        _ => Ex::Bad("unsupported arithmetic".into()),
                    },
                }
            }
            _ => Ex::Bad("unsupported expression".into()),
        }
    }
    fn mono(&self, ex: &[Ex], d0: (usize, usize), n: &str) -> Ex {
        match (&ex[0], &ex[1]) {
            (Ex::Bad(r), _) | (_, Ex::Bad(r)) => Ex::Bad(r.clone()),
            (Ex::Inv, Ex::Inv) => Ex::Inv,
            (Ex::Up(a), Ex::Up(b)) => Ex::Up(a.union(b).cloned().collect()),
            (Ex::Down(a), Ex::Down(b)) => Ex::Down(a.union(b).cloned().collect()),
            (m, Ex::Inv) | (Ex::Inv, m) => {
                if n == "saturating_mul" {
                    let i = if matches!(ex[0], Ex::Inv) { 0 } else { 1 };
                    let v = self.val(d0, i);
                    if v.is_bot() || Self::num(&v).map_or(false, |x| x.0 >= if matches!(v.k, K::F(_)) { 1e-3 } else { 1.0 }) {
                        return m.clone();
                    }
                    return Ex::Bad("multiplied by a value that can be zero".into());
                }
                if n == "max" && matches!(m, Ex::Down(_)) {
                    return Ex::Bad("bounded from below".into());
                }
                m.clone()
            }
            _ => Ex::Bad("sum of opposite movements".into()),
        }
    }
    /// the value behind an operand (through shared references) does not change in the region
    fn steady(&self, o: &Op, lp: &Set, d: usize) -> bool {
        let Some(p) = o.place() else { return true };
        if d > 10 {
            return false;
        }
        let ds = self.in_l(p.l, lp);
        if ds.is_empty() {
            return !self.touched(p.l, lp);
        }
        let Some(d0) = self.uniq(p.l) else { return false };
        if d0.1 == CALL {
            return match self.call(d0.0) {
                Some((c, args, _)) => {
                    let n = c.base.rsplit("::").next().unwrap();
                    ["deref", "as_ref", "as_slice", "as_deref", "borrow", "len", "iter", "min", "max", "unwrap_or", "from", "into", "clone"].contains(&n) && args.iter().all(|a| self.steady(a, lp, d + 1))
                }
                None => false,
            };
        }
        match self.stmt(d0) {
            Some(Rv::Ref(false, q)) => {
                let b = Op::Cp(Place { l: q.l, p: vec![], t: q.t });
                self.steady(&b, lp, d + 1)
            }
            Some(Rv::Use(o)) | Some(Rv::Cast(_, o, _)) => {
                let b = o.place().map(|q| Op::Cp(Place { l: q.l, p: vec![], t: q.t }));
                b.map_or(true, |b| self.steady(&b, lp, d + 1))
            }
            Some(Rv::Bin(_, a, b)) => self.steady(a, lp, d + 1) && self.steady(b, lp, d + 1),
            Some(Rv::Un(_, a)) => self.steady(a, lp, d + 1),
            _ => false,
        }
    }
    /// base local of the iterator advanced through `&mut` operand, if it is not replaced inside the region
    fn iter_base(&self, o: &Op, lp: &Set) -> Option<usize> {
        let mut p = o.place()?.clone();
        for _ in 0..8 {
            let ds = self.in_l(p.l, lp);
            if ds.is_empty() {
                return Some(p.l);
            }
            let d0 = self.uniq(p.l)?;
            match self.stmt(d0) {
                Some(Rv::Ref(_, q)) => p = q.clone(),
                Some(Rv::Use(o)) => p = o.place()?.clone(),
                None if d0.1 == CALL => {
                    let (c, args, _) = self.call(d0.0)?;
                    let n = c.base.rsplit("::").next().unwrap();
                    if ["by_ref", "as_mut", "deref_mut"].contains(&n) {
                        p = args[0].place()?.clone();
                    } else {
                        return None;
                    }
                }
                _ => return None,
            }
        }
        None
    }
    /// exhaustion of the option in `opt` leaves the region
    fn none_exits(&self, opt: usize, lp: &Set) -> bool {
        for &b in lp {
            if let Tm::Switch(o, ts, e) = &self.f.blocks[b].t {
                let Some(p) = o.place() else { continue };
                for d in &self.defs[p.l] {
                    if let Some(Rv::Discr(q)) = self.stmt(*d) {
                        if self.same(q.l, opt, 0) && q.p.is_empty() {
                            let none = ts.iter().find(|x| x.0 == 0).map_or(*e, |x| x.1);
                            if !lp.contains(&none) {
                                return true;
                            }
                        }
                    }
                }
            }
            // `?` and `branch`
        }
        false
    }
    fn same(&self, a: usize, b: usize, d: usize) -> bool {
        if a == b {
            return true;
        }
        if d > 4 {
            return false;
        }
        match self.uniq(a) {
            Some(d0) if d0.1 == CALL => match self.call(d0.0) {
                // an option passed on by a variant-preserving adaptor
                Some((c, args, _)) if ["copied", "cloned", "map", "as_ref", "branch"].contains(&c.base.rsplit("::").next().unwrap()) => args[0].place().map_or(false, |p| p.p.is_empty() && self.same(p.l, b, d + 1)),
                _ => false,
            },
            Some(d0) => match self.stmt(d0) {
                Some(Rv::Use(o)) => o.place().map_or(false, |p| p.p.is_empty() && self.same(p.l, b, d + 1)),
                _ => false,
            },
            None => false,
        }
    }
    /// comparison behind a bool: (operator, left, right, definition)
    fn cmp(&self, o: &Op, d: usize) -> Option<(String, Op, Op, (usize, usize), bool)> {
        let p = o.place()?;
        if d > 8 || !p.p.is_empty() {
            return None;
        }
        let d0 = self.uniq(p.l)?;
        if d0.1 == CALL {
            let (c, args, _) = self.call(d0.0)?;
            let n = c.base.rsplit("::").next().unwrap();
            let op = match n {
                "lt" => "Lt",
                "le" => "Le",
                "gt" => "Gt",
                "ge" => "Ge",
                "ne" => "Ne",
                "eq" => "Eq",
                _ => return None,
            };
            return Some((op.into(), args[0].clone(), args[1].clone(), d0, true));
        }
        match self.stmt(d0)? {
            Rv::Use(o) => self.cmp(o, d + 1),
            Rv::Un(n, o) if n == "Not" => {
                let (op, a, b, d0, pos) = self.cmp(o, d + 1)?;
                Some((op, a, b, d0, !pos))
            }
            Rv::Bin(op, a, b) if ["Lt", "Le", "Gt", "Ge", "Ne", "Eq"].contains(&op.as_str()) => Some((op.clone(), a.clone(), b.clone(), d0, true)),
            _ => None,
        }
    }
    /// the operand is a copy of the variable
    fn plain(&self, o: &Op, x: usize, d: usize) -> bool {
        let Some(p) = o.place() else { return false };
        if p.l == x {
            return p.p.is_empty();
        }
        d < 6
            && p.p.is_empty()
            && match self.uniq(p.l).filter(|d0| d0.1 != CALL).and_then(|d0| self.stmt(d0)) {
                Some(Rv::Use(q)) => self.plain(q, x, d + 1),
                _ => false,
            }
    }
    /// the variable enters the region with a constant of at most `lo`
    fn starts(&self, x: usize, lp: &Set, lo: i128) -> bool {
        let out: Vec<_> = self.defs[x].iter().filter(|d| !lp.contains(&d.0)).collect();
        !out.is_empty() && out.iter().all(|d| d.1 != CALL && matches!(self.stmt(**d), Some(Rv::Use(o)) if o.place().is_none()) && self.val(**d, 0).int().map_or(false, |v| v.1 <= lo))
    }
    /// blocks of the region that can only be visited finitely often
    fn cuts(&self, lp: &Set, why: &mut BTreeSet<String>) -> Set {
        let mut cut = Set::new();
        for &b in lp {
            if let Some((c, args, dest)) = self.call(b) {
                let n = c.base.rsplit("::").next().unwrap();
                if (n == "next" || n == "next_back") && !args.is_empty() {
                    let t = args[0].place().map(|p| p.t);
                    if let Some(t) = t {
                        if finite(self.cx.p, t, 0) {
                            if self.iter_base(&args[0], lp).is_some() {
                                if self.none_exits(dest.l, lp) {
                                    cut.insert(b);
                                } else {
                                    why.insert("the exhausted iterator does not end it".into());
                                }
                            }
                        } else {
                            why.insert(format!("the iterator {} never ends", self.cx.p.ts(t)));
                        }
                    }
                }
                if ["pop", "pop_front", "pop_back", "pop_first", "pop_last"].contains(&n) && self.none_exits(dest.l, lp) {
                    if let Some(base) = self.iter_base(&args[0], lp) {
                        // nothing else may touch the collection
                        let other = lp.iter().any(|x| *x != b && self.touch[base].contains(x) && !self.borrow_for(*x, b, base));
                        if !other {
                            cut.insert(b);
                        } else {
                            why.insert("the collection it empties is also changed".into());
                        }
                    }
                }
                if n == "get" && args.len() == 2 && self.none_exits(dest.l, lp) && self.steady(&args[0], lp, 0) {
                    match self.expr(&args[1], lp, 0) {
                        Ex::Up(s) => self.add_cut(&mut cut, s, b, lp),
                        Ex::Bad(r) => {
                            why.insert(r);
                        }
                        _ => {}
                    }
                }
            }
            if let Tm::Switch(o, ts, e) = &self.f.blocks[b].t {
                if !matches!(self.cx.p.ty(o.place().map_or(0, |p| p.t)), TyK::Bool) || ts.len() != 1 || ts[0].0 != 0 {
                    continue;
                }
                let (f_in, t_in) = (lp.contains(&ts[0].1), lp.contains(e));
                if f_in == t_in {
                    continue;
                }
                let Some((op, l, r, d0, pos)) = self.cmp(o, 0) else { continue };
                // the region is left when the comparison is `leave`
                let leave = if f_in { pos } else { !pos };
                let (x, y) = (self.expr(&l, lp, 0), self.expr(&r, lp, 0));
                // comparison that must eventually hold
                let (lt, mv) = match (op.as_str(), leave) {
                    ("Lt" | "Le", true) | ("Gt" | "Ge", false) => (true, ()),
                    ("Gt" | "Ge", true) | ("Lt" | "Le", false) => (false, ()),
                    ("Ne", false) | ("Eq", true) => {
                        // a single step of exactly one per test, towards the bound
                        let (mv, bi, o) = if matches!(y, Ex::Inv) { (&x, 1, &l) } else { (&y, 0, &r) };
                        let bound = self.val(d0, bi);
                        let ok = match (mv, bound.int()) {
                            (Ex::Down(s), Some((0, 0))) if s.len() == 1 => matches!(self.expr(o, lp, 0), Ex::Down(_)) && self.unit.get().1,
                            (Ex::Up(s), Some((lo, _))) if s.len() == 1 => matches!(self.expr(o, lp, 0), Ex::Up(_)) && self.unit.get().1 && self.plain(o, self.unit.get().0, 0) && self.starts(self.unit.get().0, lp, lo),
                            _ => false,
                        };
                        match mv {
                            Ex::Down(s) | Ex::Up(s) if ok => self.add_cut(&mut cut, s.clone(), b, lp),
                            _ => {
                                why.insert("it ends only on exact equality".into());
                            }
                        }
                        continue;
                    }
                    _ => continue,
                };
                let _ = mv;
                let isf = (0..2).any(|i| matches!(self.val(d0, i).k, K::F(_)));
                if isf && leave {
                    // NaN makes every comparison false
                    let nan = (0..2).any(|i| matches!(self.val(d0, i).k, K::F(f) if f.nan));
                    if nan {
                        why.insert("the comparison that ends it is false for NaN".into());
                        continue;
                    }
                }
                let s = match (lt, &x, &y) {
                    // l < r must eventually hold
                    (true, Ex::Down(s), Ex::Inv) | (true, Ex::Inv, Ex::Up(s)) => Some(s.clone()),
                    (false, Ex::Up(s), Ex::Inv) | (false, Ex::Inv, Ex::Down(s)) => Some(s.clone()),
                    _ => None,
                };
                if isf {
                    // the bound must be reachable
                    let k = if matches!(x, Ex::Inv) { 0 } else { 1 };
                    if let K::F(f) = self.val(d0, k).k {
                        if f.inf() {
                            why.insert("the bound can be infinite".into());
                            continue;
                        }
                    }
                }
                match s {
                    Some(s) => self.add_cut(&mut cut, s, b, lp),
                    None => {
                        for e in [&x, &y] {
                            if let Ex::Bad(r) = e {
                                why.insert(r.clone());
                            }
                        }
                    }
                }
            }
        }
        cut
    }
    /// block x borrows `base` only to hand it to the call in block b
    fn borrow_for(&self, x: usize, b: usize, base: usize) -> bool {
        if x == b {
            return true;
        }
        let Some((_, args, _)) = self.call(b) else { return false };
        self.f.blocks[x].s.iter().all(|s| match s {
            St::Assign(pl, Rv::Ref(true, q), _) if q.l == base => args.iter().any(|a| a.place().map_or(false, |p| p.l == pl.l)),
            St::Assign(pl, _, _) => pl.l != base,
            _ => true,
        })
    }
    /// progress blocks count only if every cycle through them passes the test
    fn add_cut(&self, cut: &mut Set, incs: Set, test: usize, lp: &Set) {
        let mut rest = lp.clone();
        rest.remove(&test);
        let cyc: Set = self.sccs(&rest).into_iter().flatten().collect();
        for i in incs {
            if !cyc.contains(&i) || i == test {
                cut.insert(i);
            }
        }
    }
    fn check(&self, lp: &Set, r: &mut Report, d: usize) {
        let mut why = BTreeSet::new();
        let cut = self.cuts(lp, &mut why);
        let at = self.at(lp);
        if cut.is_empty() || d > 40 {
            let w: Vec<String> = why.into_iter().collect();
            let w = if w.is_empty() { "no finite sequence or bounded counter governs it".to_string() } else { w.join("; ") };
            r.ob(false, &format!("{}:{}", self.f.name, w), &format!("loop in {} may never end: {}", self.f.name, w), &at, String::new);
            return;
        }
        r.ob(true, "", "", "", || format!("loop in {} ({}) is bounded", self.f.name, at));
        let rest: Set = lp.difference(&cut).cloned().collect();
        for c in self.sccs(&rest) {
            self.check(&c, r, d + 1);
        }
    }
    fn at(&self, lp: &Set) -> String {
        for b in lp {
            match &self.f.blocks[*b].t {
                Tm::Call { at, .. } | Tm::Assert { at, .. } => return at.clone(),
                _ => {}
            }
            for s in &self.f.blocks[*b].s {
                if let St::Assign(_, _, a) = s {
                    return a.clone();
                }
            }
        }
        self.f.at.clone()
    }
}
/// yields strictly increasing integers
fn counting(p: &Prog, t: usize) -> bool {
    match p.ty(t) {
        TyK::Ref { t, .. } => counting(p, *t),
        TyK::Adt { def, args, .. } => {
            let n = def.rsplit("::").next().unwrap();
            n == "RangeFrom" || (["StepBy", "Skip"].contains(&n) && args.first().map_or(false, |t| counting(p, *t)))
        }
        _ => false,
    }
}
const DRAIN: &[&str] = &[
    "collect", "sum", "product", "count", "last", "fold", "for_each", "max", "min", "max_by", "min_by", "max_by_key", "min_by_key", "extend", "partition", "unzip", "reduce", "from_iter", "sort", "rev",
];
pub fn s15(cx: &Cx) -> Report {
    // value ranges of every arithmetic operand, over every public entry point
    let roots = public_roots(cx);
    let n = roots.len();
    let mut rec: HashMap<(usize, usize, usize), Vec<SendV>> = HashMap::new();
    let mut rep = Report::default();
    let mut seen: BTreeSet<usize> = BTreeSet::new();
    let mut deep: BTreeSet<usize> = BTreeSet::new();
    for (r, m, v, dp) in par(roots, |fi| {
        let mut it = Interp::new(cx.p);
        it.record = true;
        let f = &cx.p.fns[fi];
        let args = (0..f.argc).map(|i| it.top_of(f.locals[i + 1].t)).collect();
        it.analyze_root(fi, args);
        let mut rep = Report::default();
        rep.contexts = it.analyses;
        rep.blocks = it.reached.len();
        rep.fns = it.visited.iter().map(|i| cx.p.fns[*i].name.clone()).collect();
        rep.unmodeled = it.unmodeled.keys().cloned().collect();
        let m: Vec<((usize, usize, usize), Vec<SendV>)> = it.rec.iter().map(|(k, v)| (*k, v.iter().map(SendV::of).collect())).collect();
        (rep, m, it.visited.clone(), it.deep.clone())
    }) {
        rep.merge(r);
        seen.extend(v);
        deep.extend(dp);
        for (k, v) in m {
            match rec.get_mut(&k) {
                Some(w) => w.iter_mut().zip(v.iter()).for_each(|(a, b)| *a = a.join(b)),
                None => {
                    rec.insert(k, v);
                }
            }
        }
    }
    let rec: Rec = rec.into_iter().map(|(k, v)| (k, v.iter().map(|x| x.v()).collect())).collect();
    for fi in 0..cx.p.fns.len() {
        let f = &cx.p.fns[fi];
        if !(f.kind == "fn" || f.kind == "closure") || f.derived {
            continue;
        }
        let fx = Fx::new(cx, fi, &rec, seen.contains(&fi));
        if !fx.seen {
            continue;
        }
        let allb: Set = (0..f.blocks.len()).filter(|b| !f.blocks[*b].cleanup).collect();
        for l in fx.sccs(&allb) {
            fx.check(&l, &mut rep, 0);
        }
        // draining an unbounded iterator
        for b in &f.blocks {
            if let Tm::Call { f: op, args, at, .. } = &b.t {
                if let Some(c) = cx.p.callee_of(op) {
                    let n = c.base.rsplit("::").next().unwrap();
                    if DRAIN.contains(&n) {
                        for a in args {
                            if let Some(q) = a.place() {
                                if is_iter(cx.p, q.t) {
                                    rep.ob(finite(cx.p, q.t, 0), &format!("{}:{}", f.name, n), &format!("{} drains an iterator that never ends ({}) with `{}`", f.name, cx.p.ts(q.t), n), at, || format!("{} in {} drains a finite iterator", n, f.name));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // recursion
    let n_f = cx.p.fns.len();
    let mut g: Vec<Vec<usize>> = vec![vec![]; n_f];
    for (i, f) in cx.p.fns.iter().enumerate() {
        for b in &f.blocks {
            if let Tm::Call { f: op, .. } = &b.t {
                if let Some(c) = cx.p.callee_of(op) {
                    if let Some(j) = cx.p.by_name.get(&c.path) {
                        g[i].push(*j);
                    }
                }
            }
            for s in &b.s {
                if let St::Assign(_, Rv::Agg(Ak::Closure(d), _), _) = s {
                    if let Some(j) = cx.p.by_name.get(d) {
                        g[i].push(*j);
                    }
                }
            }
        }
    }
    for i in 0..n_f {
        if cx.p.fns[i].derived || !seen.contains(&i) {
            continue;
        }
        let mut vis = BTreeSet::new();
        let mut w = g[i].clone();
        let mut cyc = false;
        while let Some(j) = w.pop() {
            if j == i {
                cyc = true;
            }
            if vis.insert(j) {
                w.extend(g[j].iter());
            }
        }
        // unfolding the calls with the values they are made with came to an end
        let cyc = cyc && (deep.contains(&i) || vis.iter().any(|j| deep.contains(j)));
        let f = &cx.p.fns[i];
        rep.ob(!cyc, &format!("{}:recursion", f.name), &format!("{} calls itself, directly or indirectly, without a proved bound", f.name), &f.at, || format!("{} is not recursive without a bound", f.name));
    }
    rep.scenarios.push(format!("every loop and every iterator-draining call of every function reachable from {} public functions on arbitrary arguments", n));
    rep
}
/// numeric part of a value, sendable between threads
#[derive(Clone, Copy)]
enum SendV {
    Bot,
    I(i128, i128),
    F(Fl),
    Top,
}
impl SendV {
    fn of(v: &V) -> SendV {
        match &v.k {
            K::Bot => SendV::Bot,
            K::I(a, b) => SendV::I(*a, *b),
            K::F(f) => SendV::F(*f),
            _ => SendV::Top,
        }
    }
    fn v(&self) -> V {
        match self {
            SendV::Bot => V::bot(),
            SendV::I(a, b) => V::i(*a, *b),
            SendV::F(f) => V::f(*f),
            SendV::Top => V::top(),
        }
    }
    fn join(&self, o: &SendV) -> SendV {
        SendV::of(&self.v().join(&o.v()))
    }
}

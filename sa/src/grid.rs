//! S16: beat grids are consistent. Content snapshots of the time lists get identity tokens; a
//! value read from a list carries the token of the snapshot it was read from, a copy of a list
//! carries the list's own token.
use crate::flow::missing;
use crate::crash::*;
use crate::interp::*;
use crate::ir::*;
use crate::rules::*;
use crate::val::*;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

/// token of a beat grid whose relation was established
pub const VALID: u128 = 1;
#[derive(Default)]
pub struct Grid {
    pub on: bool,
    ty: usize,
    /// positions of beats, downbeats, bars
    ix: (usize, usize, usize),
    enabled: HashMap<usize, bool>,
    keys: HashMap<(usize, usize, usize), usize>,
    /// owner function of a token
    own: Vec<usize>,
    /// tokens the elements of a snapshot were copied from
    sup: Vec<u128>,
    scc: HashMap<usize, Rc<Vec<usize>>>,
}
impl Grid {
    pub fn new(p: &Prog, ty: usize) -> Option<Grid> {
        let vs = p.variants(ty)?;
        let at = |n: &str| vs[0].fs.iter().position(|f| f.n == n);
        Some(Grid {
            on: true,
            ty,
            ix: (at("beats")?, at("downbeats")?, at("bars")?),
            own: vec![usize::MAX],
            sup: vec![UNK],
            ..Default::default()
        })
    }
    fn scc(&mut self, p: &Prog, fi: usize) -> Rc<Vec<usize>> {
        self.scc.entry(fi).or_insert_with(|| Rc::new(crate::cfg::scc_ids(&p.fns[fi]))).clone()
    }
    fn enabled(&mut self, p: &Prog, fi: usize) -> bool {
        let ty = self.ty;
        *self.enabled.entry(fi).or_insert_with(|| p.fns[fi].locals.iter().any(|l| l.t == ty))
    }
    fn bit(&mut self, k: (usize, usize, usize)) -> u128 {
        if let Some(b) = self.keys.get(&k) {
            return 1 << b;
        }
        let b = self.own.len();
        if b >= 126 {
            return UNK;
        }
        self.keys.insert(k, b);
        self.own.push(k.0);
        self.sup.push(0);
        1 << b
    }
    /// a shared reference to a list held by local `l` is taken in block `b`
    pub fn snap(&mut self, p: &Prog, fi: usize, b: usize, l: usize, v: &V) -> Option<V> {
        let K::C(c) = &v.k else { return None };
        if v.tok & UNK == 0 || !(matches!(c.el.k, K::F(_)) || c.el.is_bot()) || !self.enabled(p, fi) {
            return None;
        }
        let scc = self.scc(p, fi);
        let site = match scc[b] {
            0 => b,
            s => {
                // inside a loop: only if the loop leaves the list alone
                if changed(&p.fns[fi], l, |x| scc[x] == s) {
                    return None;
                }
                1_000_000 + s
            }
        };
        let t = self.bit((fi, site, l));
        if t & UNK != 0 {
            return None;
        }
        let mut c2 = (**c).clone();
        if !c2.el.is_bot() {
            self.sup[t.trailing_zeros() as usize] |= c2.el.tok & !t;
            c2.el.tok = t;
        }
        Some(V { lab: v.lab, tok: t, k: K::C(Rc::new(c2)) })
    }
    /// tokens of the returning function become tokens of the call site
    pub fn wrap(&mut self, p: &Prog, g: usize, b: usize, f: usize, v: &V) -> V {
        if !self.enabled(p, f) {
            return v.clone();
        }
        let cyc = self.scc(p, g)[b] != 0;
        let v = self.wr(g, b, f, cyc, v, 0);
        v
    }
    fn ren(&mut self, g: usize, b: usize, f: usize, cyc: bool, t: u128, d: usize) -> u128 {
        let mut r = t & (UNK | VALID);
        for i in 1..127usize {
            if t >> i & 1 == 0 {
                continue;
            }
            if self.own.get(i).cloned() != Some(f) || d > 6 {
                r |= if d > 6 { UNK } else { 1 << i };
                continue;
            }
            if cyc {
                r |= UNK;
                continue;
            }
            let n = self.bit((g, 2_000_000 + b, i));
            r |= n;
            if n & UNK == 0 {
                let s = self.sup[i] & !(1 << i);
                let s = self.ren(g, b, f, cyc, s, d + 1);
                self.sup[n.trailing_zeros() as usize] |= s & !n;
            }
        }
        r
    }
    fn wr(&mut self, g: usize, b: usize, f: usize, cyc: bool, v: &V, d: usize) -> V {
        let tok = self.ren(g, b, f, cyc, v.tok, 0);
        let k = match &v.k {
            K::S(x) => K::S(Rc::new(x.iter().map(|y| self.wr(g, b, f, cyc, y, d + 1)).collect())),
            K::Clo(t, x) => K::Clo(*t, Rc::new(x.iter().map(|y| self.wr(g, b, f, cyc, y, d + 1)).collect())),
            K::E(e) => K::E(Rc::new(En { dl: e.dl, vs: e.vs.iter().map(|(k, x)| (*k, x.iter().map(|y| self.wr(g, b, f, cyc, y, d + 1)).collect())).collect() })),
            K::R(r) => K::R(Rc::new(Rf { det: r.det.as_ref().map(|y| self.wr(g, b, f, cyc, y, d + 1)), ..(**r).clone() })),
            K::C(c) => K::C(Rc::new(Co { el: self.wr(g, b, f, cyc, &c.el, d + 1), ..(**c).clone() })),
            K::It(c) => K::It(Rc::new(Itr { el: self.wr(g, b, f, cyc, &c.el, d + 1), ..(**c).clone() })),
            k => k.clone(),
        };
        V { lab: v.lab, tok, k }
    }
    fn within(&self, t: u128, b: u128, seen: u128, d: usize) -> bool {
        let t = t & !seen;
        if t & UNK != 0 || d > 12 {
            return false;
        }
        (1..127usize).filter(|i| t >> i & 1 == 1).all(|i| {
            let x = 1u128 << i;
            x == b || (self.sup[i] & !x != 0 && self.within(self.sup[i], b, seen | x, d + 1))
        })
    }
    /// what is wrong with a grid value, if anything
    pub fn wrong(&self, v: &V) -> Option<String> {
        if v.is_bot() || v.tok == VALID {
            return None;
        }
        let K::S(x) = &v.k else { return Some("the grid is unknown".into()) };
        let co = |i: usize| match x.get(i).map(|y| (&y.k, y.tok)) {
            Some((K::C(c), t)) => Some(((**c).clone(), t)),
            _ => None,
        };
        let (Some((b, bt)), Some((d, dt)), Some((r, rt))) = (co(self.ix.0), co(self.ix.1), co(self.ix.2)) else {
            return Some("a list of the grid is unknown".into());
        };
        let one = |t: u128| t & UNK == 0 && t.count_ones() == 1;
        let mut w = vec![];
        if !(b.asc || b.hi <= 1) {
            w.push("beats are not known to be in ascending order");
        }
        if !(d.hi == 0 || d.el.is_bot() || (one(bt) && self.within(d.el.tok, bt, 0, 0))) {
            w.push("a downbeat may not be one of the beats");
        }
        if !((d.hi == 0 && r.hi == 0) || (one(dt) && rt == dt)) {
            w.push("bars may differ from the downbeats");
        }
        if w.is_empty() {
            None
        } else {
            Some(w.join("; "))
        }
    }
    pub fn is_grid(&self, t: usize) -> bool {
        self.on && t == self.ty
    }
    /// grids inside a value of type t: mark the ones whose relation holds
    pub fn seal(&self, p: &Prog, t: usize, v: &V, bad: &mut BTreeSet<String>, d: usize) -> V {
        if d > 6 {
            return v.clone();
        }
        if t == self.ty {
            return match self.wrong(v) {
                None if !v.is_bot() => v.clone().tok(VALID),
                None => v.clone(),
                Some(w) => {
                    bad.insert(w);
                    v.clone()
                }
            };
        }
        let k = match (p.ty(t), &v.k) {
            (TyK::Tuple { ts }, K::S(x)) => K::S(Rc::new(ts.iter().zip(x.iter()).map(|(t, y)| self.seal(p, *t, y, bad, d + 1)).collect())),
            (TyK::Adt { args, .. }, K::C(c)) if !args.is_empty() => K::C(Rc::new(Co { el: self.seal(p, args[0], &c.el, bad, d + 1), ..(**c).clone() })),
            (TyK::Adt { .. }, K::S(x)) => match p.variants(t) {
                Some(vs) if vs.len() == 1 && vs[0].fs.len() == x.len() => K::S(Rc::new(vs[0].fs.iter().zip(x.iter()).map(|(f, y)| self.seal(p, f.t, y, bad, d + 1)).collect())),
                _ => return v.clone(),
            },
            (TyK::Adt { .. }, K::E(e)) => match p.variants(t) {
                Some(vs) => K::E(Rc::new(En {
                    dl: e.dl,
                    vs: e
                        .vs
                        .iter()
                        .map(|(k, x)| {
                            let fs: Vec<usize> = vs.get(*k as usize).map_or(vec![], |w| w.fs.iter().map(|f| f.t).collect());
                            (*k, x.iter().enumerate().map(|(i, y)| fs.get(i).map_or(y.clone(), |t| self.seal(p, *t, y, bad, d + 1))).collect())
                        })
                        .collect(),
                })),
                _ => return v.clone(),
            },
            _ => return v.clone(),
        };
        V { lab: v.lab, tok: v.tok, k }
    }
}
/// local `l` is written, moved out or mutably borrowed in a selected block
fn changed(f: &Func, l: usize, sel: impl Fn(usize) -> bool) -> bool {
    f.blocks.iter().enumerate().filter(|(b, bl)| sel(*b) && !bl.cleanup).any(|(_, bl)| {
        bl.s.iter().any(|s| match s {
            St::Assign(pl, rv, _) => {
                pl.l == l || matches!(rv, Rv::Ref(true, q) | Rv::RawPtr(q) if q.l == l)
            }
            St::SetD(pl, _) => pl.l == l,
            St::Dead(x) => *x == l,
        }) || matches!(&bl.t, Tm::Call { dest, .. } if dest.l == l)
    })
}

pub fn s16(cx: &Cx) -> Report {
    let Some(ty) = cx.adt("BeatGrid") else { return missing("BeatGrid") };
    fn holds(p: &Prog, t: usize, ty: usize, d: usize) -> bool {
        if t == ty {
            return true;
        }
        if d > 6 {
            return false;
        }
        match p.ty(t) {
            TyK::Tuple { ts } => ts.iter().any(|t| holds(p, *t, ty, d + 1)),
            TyK::Adt { args, .. } => {
                args.iter().any(|t| holds(p, *t, ty, d + 1)) || p.variants(t).map_or(false, |vs| vs.iter().any(|v| v.fs.iter().any(|f| holds(p, f.t, ty, d + 1))))
            }
            _ => false,
        }
    }
    let roots: Vec<usize> = public_roots(cx).into_iter().filter(|i| holds(cx.p, cx.p.fns[*i].locals[0].t, ty, 0)).collect();
    let mut r = Report::default();
    for fi in roots {
        let f = &cx.p.fns[fi];
        let mut it = Interp::new(cx.p);
        match Grid::new(cx.p, ty) {
            Some(g) => it.grid = g,
            None => return missing("BeatGrid.beats/downbeats/bars"),
        }
        let sc = Sc::default();
        let cfgt = cx.adt("AnalysisConfig");
        let args = (0..f.argc).map(|i| if Some(f.locals[i + 1].t) == cfgt { cx.cfg_val(&it, &sc) } else { it.top_of(f.locals[i + 1].t) }).collect();
        let s = it.analyze_root(fi, args);
        r.contexts += it.analyses;
        r.blocks += it.reached.len();
        r.fns.extend(it.visited.iter().map(|i| cx.p.fns[*i].name.clone()));
        r.unmodeled.extend(it.unmodeled.keys().cloned());
        let mut bad = BTreeSet::new();
        it.grid.seal(cx.p, f.locals[0].t, &s.ret, &mut bad, 0);
        // every construction that fed the result
        let evs: Vec<&Ev> = s.evs.iter().filter(|e| e.kind == "grid").collect();
        for e in s.evs.iter().filter(|e| e.kind == "grid-ok") {
            r.ob(true, "", "", "", || format!("{}: grid built at {} in {} is consistent", f.name, e.at, e.func));
        }
        if bad.is_empty() {
            r.ob(true, "", "", "", || format!("{} returns consistent beat grids", f.name));
            continue;
        }
        if evs.is_empty() {
            for b in &bad {
                r.ob(false, &format!("{}:{}", f.name, b), &format!("{} returns a beat grid where {}", f.name, b), &f.at, String::new);
            }
        }
        for e in evs {
            r.ob(false, &format!("{}:{}", e.func, e.detail), &format!("beat grid built in {}: {}", e.func, e.detail), &e.at, String::new);
        }
    }
    r
}

//! Context-sensitive abstract interpreter over the dumped MIR.
use crate::cfg::Cfg;
use crate::ir::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, PartialEq)]
pub enum Al {
    Val(Loc),
    Len(Loc),
    /// the length of what the reference stored there points to
    Ref(Loc),
    /// the difference between the lengths of that list (or iterator) and this iterator
    Gap(Loc, u32),
}
impl Al {
    pub fn loc(&self) -> &Loc {
        match self {
            Al::Val(l) | Al::Len(l) | Al::Ref(l) | Al::Gap(l, _) => l,
        }
    }
}
#[derive(Clone, PartialEq)]
pub struct Opd {
    pub al: Vec<Al>,
    pub v: V,
}
#[derive(Clone, PartialEq)]
pub enum BF {
    Cmp(&'static str, Opd, Opd),
    Not(Box<BF>),
    Fin(Opd),
    Nan(Opd),
    Var(Vec<Loc>, u32),
    In(Opd, V, V),
    /// a multiple of a constant
    Mul(Opd, i128),
    /// what is known once the outcome (truth value or variant) of a call is
    Imp(Vec<(u32, Vec<(Al, V)>)>),
}
/// `a`, which is also known to be one of `b`; None if it cannot be
fn meetv(a: &V, b: &V) -> Option<V> {
    let k = match (&a.k, &b.k) {
        (K::Bot, _) => return Some(a.clone()),
        (K::I(..), K::I(..)) | (K::F(_), K::F(_)) => {
            let m = Interp::meet(a, b);
            if m.is_bot() {
                return None;
            }
            m.k
        }
        (K::C(x), K::C(y)) => {
            let (lo, hi) = (x.lo.max(y.lo), x.hi.min(y.hi));
            if lo > hi {
                return None;
            }
            let mut c = (**x).clone();
            c.lo = lo;
            c.hi = hi;
            K::C(Rc::new(c))
        }
        (K::S(x), K::S(y)) if x.len() == y.len() => {
            let mut v = vec![];
            for (p, q) in x.iter().zip(y.iter()) {
                v.push(meetv(p, q)?);
            }
            K::S(Rc::new(v))
        }
        (K::E(x), K::E(y)) => {
            let mut vs = BTreeMap::new();
            for (k, f) in x.vs.iter() {
                if let Some(g) = y.vs.get(k) {
                    let m: Option<Vec<V>> = f.iter().zip(g.iter()).map(|(p, q)| meetv(p, q)).collect();
                    if let Some(m) = m {
                        vs.insert(*k, if m.len() == f.len() { m } else { f.clone() });
                    }
                }
            }
            if vs.is_empty() {
                return None;
            }
            K::E(Rc::new(En { dl: x.dl, vs }))
        }
        _ => return Some(a.clone()),
    };
    Some(V { lab: a.lab, tok: a.tok, k })
}
fn join_o(a: &Opd, b: &Opd, w: bool) -> Opd {
    Opd { al: a.al.iter().filter(|x| b.al.contains(x)).cloned().collect(), v: join(&a.v, &b.v, w) }
}
/// what holds of a condition computed on either of two paths
fn join_b(a: Option<&BF>, b: Option<&BF>, w: bool) -> Option<BF> {
    let (a, b) = (a?, b?);
    if a == b {
        return Some(a.clone());
    }
    Some(match (a, b) {
        (BF::Cmp(o, x, y), BF::Cmp(p, s, t)) if o == p => BF::Cmp(o, join_o(x, s, w), join_o(y, t, w)),
        (BF::Not(x), BF::Not(y)) => BF::Not(Box::new(join_b(Some(x), Some(y), w)?)),
        (BF::Fin(x), BF::Fin(y)) => BF::Fin(join_o(x, y, w)),
        (BF::Nan(x), BF::Nan(y)) => BF::Nan(join_o(x, y, w)),
        (BF::Imp(x), BF::Imp(y)) => {
            // an outcome only one side can have says what that side says
            let ks: BTreeSet<u32> = x.iter().chain(y.iter()).map(|e| e.0).collect();
            let of = |v: &Vec<(u32, Vec<(Al, V)>)>, k: u32| v.iter().find(|e| e.0 == k).map(|e| e.1.clone());
            BF::Imp(
                ks.into_iter()
                    .map(|k| match (of(x, k), of(y, k)) {
                        (Some(p), Some(q)) => (k, p.iter().filter_map(|(a, v)| q.iter().find(|(b, _)| b == a).map(|(_, u)| (a.clone(), join(v, u, w)))).collect()),
                        (p, q) => (k, p.or(q).unwrap()),
                    })
                    .collect(),
            )
        }
        (BF::Mul(x, n), BF::Mul(y, m)) if n == m => BF::Mul(join_o(x, y, w), *n),
        (BF::In(x, y, z), BF::In(r, s, t)) => BF::In(join_o(x, r, w), join(y, s, w), join(z, t, w)),
        _ => return None,
    })
}
#[derive(Clone, PartialEq, Default)]
pub struct Fact {
    pub al: Vec<Al>,
    pub b: Option<BF>,
    pub d: Option<Loc>,
    /// this value (field 0 of a checked result) is that one divided by and plus constants
    pub off: Vec<(Al, i128, i128)>,
    /// this value is the remainder of that one by a constant
    pub rem: Option<(Opd, i128)>,
}
impl Fact {
    fn touch(&mut self, l: &Loc) {
        self.al.retain(|a| !a.loc().overlaps(l));
        self.off.retain(|a| !a.0.loc().overlaps(l));
        if let Some(r) = &mut self.rem {
            r.0.al.retain(|a| !a.loc().overlaps(l));
        }
        if let Some(b) = &mut self.b {
            touch_b(b, l);
        }
        if self.d.as_ref().map_or(false, |d| d.overlaps(l)) {
            self.d = None;
        }
    }
    fn mentions(&self, l: &Loc) -> bool {
        self.al.iter().any(|a| a.loc().overlaps(l))
            || self.d.as_ref().map_or(false, |d| d.overlaps(l))
            || self.b.as_ref().map_or(false, |b| ment_b(b, l))
            || self.off.iter().any(|a| a.0.loc().overlaps(l))
            || self.rem.as_ref().map_or(false, |r| r.0.al.iter().any(|a| a.loc().overlaps(l)))
    }
}
fn touch_b(b: &mut BF, l: &Loc) {
    match b {
        BF::Cmp(_, x, y) => {
            x.al.retain(|a| !a.loc().overlaps(l));
            y.al.retain(|a| !a.loc().overlaps(l));
        }
        BF::Not(x) => touch_b(x, l),
        BF::Fin(x) | BF::Nan(x) | BF::In(x, _, _) | BF::Mul(x, _) => x.al.retain(|a| !a.loc().overlaps(l)),
        BF::Var(v, _) => v.retain(|a| !a.overlaps(l)),
        BF::Imp(v) => v.iter_mut().for_each(|e| e.1.retain(|(a, _)| !a.loc().overlaps(l))),
    }
}
fn ment_b(b: &BF, l: &Loc) -> bool {
    let m = |x: &Opd| x.al.iter().any(|a| a.loc().overlaps(l));
    match b {
        BF::Cmp(_, x, y) => m(x) || m(y),
        BF::Not(x) => ment_b(x, l),
        BF::Fin(x) | BF::Nan(x) | BF::In(x, _, _) | BF::Mul(x, _) => m(x),
        BF::Var(v, _) => v.iter().any(|a| a.overlaps(l)),
        BF::Imp(v) => v.iter().any(|e| e.1.iter().any(|(a, _)| a.loc().overlaps(l))),
    }
}

const CH: usize = 32;
#[derive(Clone)]
pub struct State {
    ch: Vec<Rc<Vec<V>>>,
    pub facts: Rc<BTreeMap<u32, Fact>>,
    /// pairs of lists whose lengths differ by a known amount (first minus second)
    pub pairs: Rc<BTreeMap<(u32, u32), i128>>,
    /// relate iterators and counters to lists as well
    pub rel: bool,
}
impl State {
    /// len(a) - len(b), if known
    fn diff(&self, a: u32, b: u32) -> Option<i128> {
        if let Some(d) = self.pairs.get(&(a, b)) {
            return Some(*d);
        }
        let (x, y) = (&self.get(a).k, &self.get(b).k);
        if !matches!(x, K::C(_)) && !(self.rel && matches!(y, K::C(_))) || !matches!(y, K::C(_)) && !self.rel {
            return None;
        }
        Some(size(x)? - size(y)?)
    }
    /// by how much the length of each list is known to differ from iterator `o`
    pub fn gaps(&self, o: u32) -> Vec<(u32, i128)> {
        let mut v = vec![];
        for b in 0..(self.ch.len() * CH) as u32 {
            if b != o && matches!(self.get(b).k, K::C(_)) {
                let d = if b < o { self.diff(b, o) } else { self.diff(o, b).map(|d| -d) };
                v.extend(d.map(|d| (b, d)));
            }
        }
        v
    }
    /// list `o` got longer, or counter `o` greater, by `n`
    pub fn longer(&mut self, o: u32, n: i128, old: &BTreeMap<(u32, u32), i128>) {
        let m: Vec<_> = old.iter().filter(|(k, _)| k.0 == o || k.1 == o).map(|(k, d)| (*k, if k.0 == o { d + n } else { d - n })).collect();
        if !m.is_empty() {
            Rc::make_mut(&mut self.pairs).extend(m);
        }
    }
    pub fn new(n: usize) -> State {
        let blank = Rc::new(vec![V::bot(); CH]);
        State { ch: vec![blank; n / CH + 1], facts: Rc::new(BTreeMap::new()), pairs: Rc::new(BTreeMap::new()), rel: false }
    }
    pub fn get(&self, o: u32) -> &V {
        match self.ch.get(o as usize / CH) {
            Some(c) => &c[o as usize % CH],
            None => {
                // SAFETY-free: V::bot contains no Rc, but V is !Sync; use thread-local leak
                bot_ref()
            }
        }
    }
    pub fn set(&mut self, o: u32, v: V) {
        while self.ch.len() <= o as usize / CH {
            self.ch.push(Rc::new(vec![V::bot(); CH]));
        }
        Rc::make_mut(&mut self.ch[o as usize / CH])[o as usize % CH] = v;
    }
    /// self ⊔= o; returns whether self changed
    pub fn join_from(&mut self, o: &State, w: bool) -> bool {
        let mut ch = false;
        // lists whose lengths differ by the same amount on both sides
        let mut np: BTreeMap<(u32, u32), i128> = BTreeMap::new();
        if !Rc::ptr_eq(&self.pairs, &o.pairs) || self.ch.len() != o.ch.len() || self.ch.iter().zip(o.ch.iter()).any(|(a, b)| !Rc::ptr_eq(a, b)) {
            let mut d: Vec<u32> = vec![];
            for i in 0..o.ch.len().min(self.ch.len()) {
                if Rc::ptr_eq(&self.ch[i], &o.ch[i]) {
                    continue;
                }
                for j in 0..CH {
                    let far = match (&self.ch[i][j].k, &o.ch[i][j].k) {
                        (K::C(x), K::C(y)) => (x.lo, x.hi) != (y.lo, y.hi),
                        (K::I(..), K::I(..)) => self.rel && self.ch[i][j].k != o.ch[i][j].k,
                        (K::It(x), K::It(y)) => self.rel && (x.lo, x.hi) != (y.lo, y.hi),
                        (K::S(x), K::S(y)) => self.rel && x.len() == 2 && y.len() == 2 && x[0].k != y[0].k && matches!((&x[0].k, &y[0].k), (K::I(..), K::I(..))),
                        _ => false,
                    };
                    if far {
                        d.push((i * CH + j) as u32);
                    }
                }
            }
            let c = (0..d.len()).flat_map(|i| (i + 1..d.len()).map(move |j| (i, j))).map(|(i, j)| (d[i], d[j]));
            let c: BTreeSet<(u32, u32)> = c.chain(self.pairs.keys().cloned()).chain(o.pairs.keys().cloned()).collect();
            for (a, b) in c {
                if let (Some(x), Some(y)) = (self.diff(a, b), o.diff(a, b)) {
                    if x == y {
                        np.insert((a, b), x);
                    }
                }
            }
            if np != *self.pairs {
                // only ever fewer once the lengths have stopped being constants
                ch |= self.pairs.keys().any(|k| !np.contains_key(k));
                self.pairs = Rc::new(np);
            }
        }
        while self.ch.len() < o.ch.len() {
            self.ch.push(Rc::new(vec![V::bot(); CH]));
        }
        for i in 0..o.ch.len() {
            if Rc::ptr_eq(&self.ch[i], &o.ch[i]) || self.ch[i] == o.ch[i] {
                continue;
            }
            let mut new: Option<Vec<V>> = None;
            for j in 0..CH {
                let (a, b) = (&self.ch[i][j], &o.ch[i][j]);
                if a == b {
                    continue;
                }
                let r = join(a, b, w);
                if r != *a {
                    new.get_or_insert_with(|| (*self.ch[i]).clone())[j] = r;
                }
            }
            if let Some(n) = new {
                self.ch[i] = Rc::new(n);
                ch = true;
            }
        }
        if !Rc::ptr_eq(&self.facts, &o.facts) && self.facts != o.facts {
            let mut nf = BTreeMap::new();
            for (k, f) in self.facts.iter() {
                if let Some(g) = o.facts.get(k) {
                    if f == g {
                        nf.insert(*k, f.clone());
                    } else {
                        let h = Fact {
                            al: f.al.iter().filter(|a| g.al.contains(a)).cloned().collect(),
                            b: join_b(f.b.as_ref(), g.b.as_ref(), w),
                            d: if f.d == g.d { f.d.clone() } else { None },
                            off: f.off.iter().filter(|a| g.off.contains(a)).cloned().collect(),
                            rem: match (&f.rem, &g.rem) {
                                (Some((x, n)), Some((y, m))) if n == m => Some((join_o(x, y, w), *n)),
                                _ => None,
                            },
                        };
                        if h != Fact::default() {
                            nf.insert(*k, h);
                        }
                    }
                }
            }
            if nf != *self.facts {
                self.facts = Rc::new(nf);
                ch = true;
            }
        }
        ch
    }
    pub fn touch(&mut self, l: &Loc) {
        let own = l.p.is_empty();
        if (own || !matches!(self.get(l.o).k, K::C(_))) && self.pairs.keys().any(|k| k.0 == l.o || k.1 == l.o) {
            Rc::make_mut(&mut self.pairs).retain(|k, _| k.0 != l.o && k.1 != l.o);
        }
        if self.facts.iter().any(|(k, f)| (*k == l.o) || f.mentions(l)) {
            let f = Rc::make_mut(&mut self.facts);
            if own {
                f.remove(&l.o);
            } else {
                f.remove(&l.o);
            }
            f.retain(|_, x| {
                x.touch(l);
                *x != Fact::default()
            });
        }
    }
}
/// the length of a list, or minus what is left of an iterator, where it is a constant
fn size(k: &K) -> Option<i128> {
    match k {
        K::I(a, b) if a == b => Some(*a),
        K::C(x) if x.lo == x.hi => Some(x.lo),
        K::It(x) if x.lo == x.hi => Some(-x.lo),
        K::S(x) if x.len() == 2 => match (x[0].cst(), x[1].cst()) {
            (Some(p), Some(q)) => Some((p - q).min(0)),
            _ => None,
        },
        _ => None,
    }
}
fn bot_ref() -> &'static V {
    thread_local!(static B: &'static V = Box::leak(Box::new(V::bot())));
    B.with(|b| *b)
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Ev {
    pub kind: String,
    pub func: String,
    pub at: String,
    pub detail: String,
}
pub struct Summary {
    pub ret: V,
    pub exts: Vec<V>,
    pub evs: Rc<BTreeSet<Ev>>,
    pub diverges: bool,
    /// per outcome: parameters (a length for a reference to a list) and pointees
    pub cases: Vec<(u32, Vec<V>, Vec<V>)>,
}
#[derive(Clone)]
pub enum Force {
    /// keep only this variant of the (enum) result
    Variant(u32),
    /// replace the result
    Ret(V),
    /// add labels to the result
    Label(Lab),
    /// replace the result: the first value if an argument carries the label, else the second
    ByLab(Lab, V, V),
}

pub struct Frame {
    pub fi: usize,
    pub cfg: Rc<Cfg>,
    pub nobj: u32,
    pub weak: Vec<bool>,
    pub temps: HashMap<(usize, usize), u32>,
    pub st: State,
    pub pc: Lab,
    pub bb: usize,
    pub at: String,
    pub evs: BTreeSet<Ev>,
    pub sub_evs: Vec<Rc<BTreeSet<Ev>>>,
    pub tix: usize,
    /// final pass: operand values are recorded
    pub fin: bool,
    /// outcome -> (parameters, pointees) when it was decided; None: not collected
    pub cases: Option<BTreeMap<u32, (Vec<V>, Vec<V>)>>,
    /// number of pointees handed in
    pub next: usize,
}

type Key = (usize, Vec<V>, Vec<(V, bool)>);

#[derive(Default, Clone)]
pub struct Scn {
    pub force: HashMap<String, Force>,
    /// functions whose argument values are recorded (joined)
    pub watch: BTreeSet<String>,
    /// label given to clock reads
    pub clock: Lab,
    /// label given to the logging facade's state
    pub log: Lab,
}

pub struct Interp<'p> {
    pub p: &'p Prog,
    pub cfgs: HashMap<usize, Rc<Cfg>>,
    pub memo: HashMap<Key, Rc<Summary>>,
    pub frames: Vec<Frame>,
    pub scn: Scn,
    pub watched: BTreeMap<String, Vec<V>>,
    pub unmodeled: BTreeMap<String, usize>,
    pub stack: Vec<usize>,
    /// functions whose recursion was not seen to end
    pub deep: BTreeSet<usize>,
    whole: HashMap<usize, bool>,
    kept: HashMap<(usize, usize), bool>,
    pub analyses: usize,
    pub recording: bool,
    pub debug: Option<String>,
    /// functions that were analysed
    pub visited: BTreeSet<usize>,
    /// blocks reached (function, block) in some analysed context
    pub reached: BTreeSet<(usize, usize)>,
    /// comparators handed to sorting and selection: (function, operation)
    pub cmps: BTreeSet<(String, String)>,
    /// overrides that were actually met
    pub forced: BTreeSet<String>,
    /// numeric operands of every arithmetic statement and call, joined over all contexts
    pub record: bool,
    pub rec: HashMap<(usize, usize, usize), Vec<V>>,
    pub grid: crate::grid::Grid,
    /// type whose payloads are assumed, and watched, to lie in 0..=11
    pub key: Option<usize>,
    /// report every runtime check that is not proved and every call that can panic
    pub asserts: bool,
    /// orders of lists are tracked; sorting calls seen (each has two origins: in order, reversed)
    pub ordm: bool,
    /// iterators and lists of related lengths
    pub lenm: bool,
    /// track which floats lie in the configured tempo range (S24)
    pub rngm: bool,
    /// what the last call was handed references to, if it said yes
    pub yes: Vec<(u32, V)>,
    pub osites: Vec<((usize, String), u32)>,
}
/// standard-library operations that panic for some arguments
const PANICKY: &[&str] = &[
    "index", "index_mut", "unwrap", "expect", "unwrap_err", "expect_err", "split_at", "split_at_mut", "remove", "swap_remove", "insert", "insert_str", "drain", "split_off", "truncate", "replace_range",
    "copy_from_slice", "clone_from_slice", "swap", "chunks", "chunks_exact", "windows", "step_by", "rotate_left", "rotate_right", "div_ceil", "from_digit", "to_digit", "pow", "abs", "ilog2", "ilog10",
    "sum", "product", "repeat", "borrow_mut", "panic", "panic_fmt", "unreachable", "unreachable_display", "panic_display", "assert_failed",
];

pub struct Pl {
    pub locs: Vec<Loc>,
    pub det: Vec<V>,
    pub lab: Lab,
    pub sub: Option<(i128, i128)>,
}

pub fn get_path(v: &V, p: &[Pj]) -> V {
    if p.is_empty() {
        return v.clone();
    }
    let c = match (&v.k, p[0]) {
        (K::Bot, _) => V::bot(),
        (K::S(x), Pj::F(i)) | (K::Clo(_, x), Pj::F(i)) => {
            x.get(i as usize).cloned().unwrap_or(V::top())
        }
        (K::R(_), Pj::F(_)) => v.clone(),
        (K::E(e), Pj::V(a, i)) => match e.vs.get(&a) {
            Some(fs) => fs.get(i as usize).cloned().unwrap_or(V::top()),
            None => V::bot(),
        },
        (K::C(c), Pj::El) => c.el.clone(),
        (K::It(c), Pj::El) => c.el.clone(),
        _ => V::top().with(v.all()),
    };
    get_path(&c.with(v.lab), &p[1..])
}
pub fn set_path(v: &V, p: &[Pj], new: &V, weak: bool) -> V {
    if p.is_empty() {
        return if weak { v.join(new) } else { new.clone() };
    }
    match (&v.k, p[0]) {
        (K::S(x), Pj::F(i)) | (K::Clo(_, x), Pj::F(i)) => {
            let mut y = (**x).clone();
            while y.len() <= i as usize {
                y.push(V::bot());
            }
            y[i as usize] = set_path(&y[i as usize], &p[1..], new, weak);
            let k = match &v.k {
                K::Clo(t, _) => K::Clo(*t, Rc::new(y)),
                _ => K::S(Rc::new(y)),
            };
            V { lab: v.lab, tok: v.tok | UNK, k }
        }
        (K::Bot, Pj::F(i)) => {
            let mut y = vec![V::bot(); i as usize + 1];
            y[i as usize] = set_path(&V::bot(), &p[1..], new, weak);
            V { lab: v.lab, tok: v.tok | UNK, k: K::S(Rc::new(y)) }
        }
        (K::E(e), Pj::V(a, i)) => {
            let mut e2 = (**e).clone();
            if let Some(fs) = e2.vs.get_mut(&a) {
                if (i as usize) < fs.len() {
                    fs[i as usize] = set_path(&fs[i as usize], &p[1..], new, weak);
                }
            }
            V { lab: v.lab, tok: v.tok | UNK, k: K::E(Rc::new(e2)) }
        }
        (K::C(c), Pj::El) => {
            let mut c2 = (**c).clone();
            // the only element of a list
            c2.el = set_path(&c.el, &p[1..], new, weak || (c.lo, c.hi) != (1, 1));
            if c2.hi > 1 {
                c2.asc = false;
            }
            if c2.ord > 0 {
                // a write to another field of the elements does not matter
                let q = opath(c2.ord).0;
                let apart = q.iter().zip(p[1..].iter()).any(|(i, j)| !matches!(j, Pj::F(k) if k == i));
                if !apart {
                    c2.ord = 0;
                }
            }
            c2.must = 0;
            c2.s = None;
            V { lab: v.lab, tok: v.tok | UNK, k: K::C(Rc::new(c2)) }
        }
        (K::It(c), Pj::El) => {
            let mut c2 = (**c).clone();
            c2.el = set_path(&c.el, &p[1..], new, true);
            V { lab: v.lab, tok: v.tok | UNK, k: K::It(Rc::new(c2)) }
        }
        _ => V { lab: v.lab.or(v.all()).or(new.all()), tok: UNK, k: K::Top },
    }
}

/// a refinement restricts a value without changing it: its holders keep their provenance
fn retok(old: &V, new: V, p: &[Pj]) -> V {
    if p.is_empty() || p.contains(&Pj::El) {
        return new;
    }
    let mut new = new;
    new.tok = old.tok;
    match (&old.k, &mut new.k, p[0]) {
        (K::S(x), K::S(y), Pj::F(i)) => {
            let i = i as usize;
            if let (Some(a), true) = (x.get(i), i < y.len()) {
                let y = Rc::make_mut(y);
                let b = std::mem::replace(&mut y[i], V::bot());
                y[i] = retok(a, b, &p[1..]);
            }
        }
        (K::E(x), K::E(y), Pj::V(k, i)) => {
            let i = i as usize;
            if let Some(a) = x.vs.get(&k).and_then(|f| f.get(i)) {
                if let Some(f) = Rc::make_mut(y).vs.get_mut(&k) {
                    if i < f.len() {
                        let b = std::mem::replace(&mut f[i], V::bot());
                        f[i] = retok(a, b, &p[1..]);
                    }
                }
            }
        }
        _ => {}
    }
    new
}

impl<'p> Interp<'p> {
    pub fn new(p: &'p Prog) -> Self {
        Interp {
            p,
            cfgs: HashMap::new(),
            memo: HashMap::new(),
            frames: vec![],
            scn: Scn::default(),
            watched: BTreeMap::new(),
            unmodeled: BTreeMap::new(),
            stack: vec![],
            deep: BTreeSet::new(),
            whole: HashMap::new(),
            kept: HashMap::new(),
            analyses: 0,
            recording: true,
            debug: None,
            reached: BTreeSet::new(),
            forced: BTreeSet::new(),
            record: false,
            rec: HashMap::new(),
            grid: Default::default(),
            key: None,
            asserts: false,
            ordm: false,
            lenm: false,
            rngm: false,
            yes: vec![],
            osites: vec![],
            cmps: BTreeSet::new(),
            visited: BTreeSet::new(),
        }
    }
    pub fn fr(&mut self) -> &mut Frame {
        self.frames.last_mut().unwrap()
    }
    pub fn f(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    pub fn ev(&mut self, kind: &str, detail: String) {
        let fi = self.f().fi;
        let func = self.p.fns[fi].name.clone();
        let at = self.f().at.clone();
        self.fr().evs.insert(Ev { kind: kind.into(), func, at, detail });
    }

    /// element `y` of a list of length `x`, or `x - y`, for a fixed `y`
    pub fn short(&mut self, ix: bool, x: &V, y: &V) {
        let (Some(c), false) = (y.cst(), x.is_bot()) else { return };
        let lo = x.int().map_or(0, |v| v.0);
        if ix && lo <= c {
            self.ev("short", format!("element {} of a list that may have only {}", c, lo));
        }
        if !ix && c > 0 && lo < c {
            self.ev("under", format!("{} taken off a count that may be {}", c, lo));
        }
    }
    /// an element at a fraction of (or a fixed distance into) the list's own length: absent from a list that is too short
    pub fn middle(&mut self, ix: &Op, lens: &[Al]) {
        let Some(p) = ix.place() else { return };
        if !p.p.is_empty() {
            return;
        }
        let Some(f) = self.f().st.facts.get(&(p.l as u32)).cloned() else { return };
        for (a, d, k) in f.off.iter().filter(|o| lens.contains(&o.0)) {
            if let Some((lo, _)) = self.al_int(a) {
                if lo / d + k >= lo {
                    self.ev("short", format!("element at a fraction of the length of a list that may have only {}", lo));
                    return;
                }
            }
        }
    }
    /// the current function returns an Ordering
    pub fn orders(&self) -> bool {
        let f = &self.p.fns[self.f().fi];
        matches!(self.p.ty(f.locals[0].t), TyK::Adt { def, .. } if def.ends_with("cmp::Ordering"))
    }
    // ---------- types ----------
    pub fn irange(&self, t: usize) -> Option<(i128, i128)> {
        Some(match self.p.ty(t) {
            TyK::Bool => (0, 1),
            TyK::Char => (0, 0x10ffff),
            TyK::Int { signed: true, bits } => {
                if *bits >= 128 {
                    (i128::MIN / 4, i128::MAX / 4)
                } else {
                    (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
                }
            }
            TyK::Int { signed: false, bits } => {
                if *bits >= 128 {
                    (0, i128::MAX / 4)
                } else {
                    (0, (1i128 << bits) - 1)
                }
            }
            _ => return None,
        })
    }
    pub fn top_of(&self, t: usize) -> V {
        self.top_d(t, 0)
    }
    fn top_d(&self, t: usize, d: usize) -> V {
        if let Some((a, b)) = self.irange(t) {
            return V::i(a, b);
        }
        if self.key == Some(t) {
            return V::e(vec![(0, vec![V::i(0, 11)]), (1, vec![V::i(0, 11)])]);
        }
        if d > 7 {
            return V::top();
        }
        match self.p.ty(t) {
            TyK::Float { .. } => V::f(Fl::TOP),
            TyK::Str => V::c(V::i(0, 255), 0, LMAX),
            TyK::Never => V::bot(),
            TyK::Ref { t, .. } | TyK::Ptr { t } => V::rdet(self.top_d(*t, d + 1)),
            TyK::Slice { t } => V::c(self.top_d(*t, d + 1), 0, LMAX),
            TyK::Array { t, n } => {
                let (lo, hi) = n.map_or((0, LMAX), |n| (n as i128, n as i128));
                V::c(self.top_d(*t, d + 1), lo, hi)
            }
            TyK::Tuple { ts } => V::s(ts.iter().map(|t| self.top_d(*t, d + 1)).collect()),
            TyK::Closure { ups, .. } => {
                V::new(K::Clo(t, Rc::new(ups.iter().map(|t| self.top_d(*t, d + 1)).collect())))
            }
            TyK::FnDef { .. } => V::new(K::Clo(t, Rc::new(vec![]))),
            TyK::Adt { def, args, vars, kind, .. } => {
                match def.as_str() {
                    "std::vec::Vec" | "std::collections::VecDeque" | "std::collections::HashSet"
                    | "std::collections::BTreeSet" => {
                        return V::c(self.top_d(args[0], d + 1), 0, LMAX)
                    }
                    "std::string::String" => return V::c(V::i(0, 255), 0, LMAX),
                    "std::collections::HashMap" | "std::collections::BTreeMap" => {
                        return V::c(
                            V::s(vec![self.top_d(args[0], d + 1), self.top_d(args[1], d + 1)]),
                            0,
                            LMAX,
                        )
                    }
                    _ => {}
                }
                match vars {
                    Some(vs) if kind == "enum" => V::e(
                        vs.iter()
                            .enumerate()
                            .map(|(i, v)| {
                                (i as u32, v.fs.iter().map(|f| self.top_d(f.t, d + 1)).collect())
                            })
                            .collect(),
                    ),
                    Some(vs) if kind == "struct" && vs.len() == 1 => {
                        V::s(vs[0].fs.iter().map(|f| self.top_d(f.t, d + 1)).collect())
                    }
                    _ => V::top(),
                }
            }
            _ => V::top(),
        }
    }
    fn pointee_ty(&self, t: usize) -> Option<usize> {
        match self.p.ty(t) {
            TyK::Ref { t, .. } | TyK::Ptr { t } => Some(*t),
            TyK::Adt { args, def, .. } if def.ends_with("boxed::Box") => args.first().cloned(),
            _ => None,
        }
    }
    fn transparent(&self, t: usize) -> bool {
        match self.p.ty(t) {
            TyK::Adt { def, .. } => {
                def.contains("MaybeUninit")
                    || def.contains("ManuallyDrop")
                    || def.contains("MaybeDangling")
                    || def.ends_with("boxed::Box")
                    || def.ends_with("ptr::Unique")
                    || def.ends_with("ptr::NonNull")
            }
            _ => false,
        }
    }

    // ---------- places ----------
    pub fn resolve(&self, pl: &Place) -> Pl {
        let fr = self.f();
        let mut locs = vec![Loc::base(pl.l as u32)];
        let mut det: Vec<V> = vec![];
        let mut lab = Lab::NONE;
        let mut sub = None;
        let mut ty = Some(self.p.fns[fr.fi].locals[pl.l].t);
        let mut var: Option<u32> = None;
        for pe in &pl.p {
            match pe {
                Pe::Deref => {
                    let mut vals: Vec<V> =
                        locs.iter().map(|l| get_path(fr.st.get(l.o), &l.p)).collect();
                    vals.append(&mut det);
                    let mut nl: Vec<Loc> = vec![];
                    sub = None;
                    let pt = ty.and_then(|t| self.pointee_ty(t));
                    for v in vals {
                        lab = lab.or(v.lab);
                        match &v.k {
                            K::R(r) => {
                                for l in &r.t {
                                    if !nl.contains(l) {
                                        nl.push(l.clone());
                                    }
                                }
                                if let Some(d) = &r.det {
                                    det.push(d.clone());
                                }
                                if let Some(s) = r.sub {
                                    sub = Some(match sub {
                                        None => s,
                                        Some((a, b)) => (s.0.min(a), s.1.max(b)),
                                    });
                                }
                            }
                            K::Bot => {}
                            _ => {
                                lab = lab.or(v.all());
                                det.push(pt.map_or(V::top(), |t| self.top_of(t)));
                            }
                        }
                    }
                    locs = nl;
                    ty = pt;
                }
                Pe::Field(i, t) => {
                    let skip = ty.map_or(false, |t| self.transparent(t));
                    if !skip {
                        let pj = match var {
                            Some(v) => Pj::V(v, *i),
                            None => Pj::F(*i),
                        };
                        locs.iter_mut().for_each(|l| l.p.push(pj));
                        det = det.iter().map(|d| get_path(d, &[pj])).collect();
                    }
                    var = None;
                    ty = Some(*t);
                }
                Pe::Down(v) => var = Some(*v),
                Pe::Index(_) | Pe::ConstIdx(..) => {
                    if let Pe::Index(l) = pe {
                        lab = lab.or(fr.st.get(*l as u32).all());
                    }
                    locs.iter_mut().for_each(|l| l.p.push(Pj::El));
                    det = det.iter().map(|d| get_path(d, &[Pj::El])).collect();
                    sub = None;
                    ty = ty.and_then(|t| match self.p.ty(t) {
                        TyK::Array { t, .. } | TyK::Slice { t } => Some(*t),
                        _ => None,
                    });
                }
                Pe::Subslice => sub = Some((0, LMAX)),
                Pe::Other => {}
            }
        }
        Pl { locs, det, lab, sub }
    }
    pub fn subbed(v: V, sub: Option<(i128, i128)>) -> V {
        if let (K::C(c), Some((a, b))) = (&v.k, sub) {
            let mut c2 = (**c).clone();
            c2.lo = a.max(0);
            c2.hi = b.min(c.hi);
            c2.s = None;
            c2.must = 0;
            return V { lab: v.lab, tok: v.tok | UNK, k: K::C(Rc::new(c2)) };
        }
        v
    }
    pub fn read_pl(&self, pl: &Pl, t: usize) -> V {
        let fr = self.f();
        let mut v = V::bot();
        for l in &pl.locs {
            v = v.join(&get_path(fr.st.get(l.o), &l.p));
        }
        for d in &pl.det {
            v = v.join(d);
        }
        let mut v = v.with(pl.lab);
        if let K::Top = v.k {
            v = self.top_of(t).with(v.lab);
        }
        Self::subbed(v, pl.sub)
    }
    /// current range of what an alias stands for
    fn al_int(&self, a: &Al) -> Option<(i128, i128)> {
        let l = a.loc();
        let v = get_path(self.f().st.get(l.o), &l.p);
        match a {
            Al::Val(_) => v.int(),
            Al::Len(_) => match &v.k {
                K::C(c) => Some((c.lo, c.hi)),
                _ => None,
            },
            Al::Ref(_) => match &self.load(&v).k {
                K::C(c) => Some((c.lo, c.hi)),
                _ => None,
            },
            Al::Gap(..) => None,
        }
    }
    /// a reference to a slice: the places whose reference has the same length
    pub fn len_refs(&self, o: &Op) -> Vec<Al> {
        if !matches!(self.p.ty(self.op_ty(o)), TyK::Ref { m: false, .. }) {
            return vec![];
        }
        self.aliases(o).into_iter().filter_map(|a| if let Al::Val(l) = a { Some(Al::Ref(l)) } else { None }).collect()
    }
    pub fn read(&self, pl: &Place) -> V {
        if pl.p.is_empty() {
            let st = &self.f().st;
            let mut v = st.get(pl.l as u32).clone();
            // a fixed distance from something that is known better by now
            if let (K::I(..), Some(f)) = (&v.k, st.facts.get(&(pl.l as u32))) {
                for (a, d, k) in &f.off {
                    if let Some((x, y)) = self.al_int(a) {
                        let (x, y) = (x.div_euclid(*d), y.div_euclid(*d));
                        let m = Self::meet(&v, &V::i(x.saturating_add(*k), y.saturating_add(*k)));
                        if !m.is_bot() {
                            v = m;
                        }
                    }
                }
            }
            return v;
        }
        let r = self.resolve(pl);
        self.read_pl(&r, pl.t)
    }
    /// the only element of a list (of lists)
    fn single(&self, l: &Loc) -> bool {
        (0..l.p.len()).filter(|i| l.p[*i] == Pj::El).all(|i| matches!(&get_path(self.f().st.get(l.o), &l.p[..i]).k, K::C(c) if (c.lo, c.hi) == (1, 1)))
    }
    pub fn strong(&self, r: &Pl) -> bool {
        r.locs.len() == 1
            && r.det.is_empty()
            && (!r.locs[0].has_el() || self.lenm && self.single(&r.locs[0]))
            && !self.f().weak.get(r.locs[0].o as usize).cloned().unwrap_or(false)
    }
    pub fn write_pl(&mut self, r: &Pl, v: V) {
        let strong = self.strong(r);
        let fr = self.fr();
        let v = v.with(fr.pc).with(r.lab);
        for l in &r.locs {
            let n = set_path(fr.st.get(l.o), &l.p, &v, !strong);
            fr.st.set(l.o, n);
            fr.st.touch(l);
        }
    }
    pub fn write(&mut self, pl: &Place, v: V) {
        if pl.p.is_empty() {
            let fr = self.fr();
            let v = v.with(fr.pc);
            fr.st.set(pl.l as u32, v);
            fr.st.touch(&Loc::base(pl.l as u32));
            return;
        }
        let r = self.resolve(pl);
        self.write_pl(&r, v);
    }
    /// value behind a reference
    pub fn load(&self, v: &V) -> V {
        match &v.k {
            K::R(r) => {
                let mut x = V::bot();
                for l in &r.t {
                    x = x.join(&get_path(self.f().st.get(l.o), &l.p));
                }
                if let Some(d) = &r.det {
                    x = x.join(d);
                }
                Self::subbed(x.with(v.lab), r.sub)
            }
            K::Bot => V::bot(),
            _ => V::top().with(v.all()),
        }
    }
    /// follow references until the pointee is not a reference itself
    pub fn peel(&self, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..4 {
            let x = self.load(&v);
            match x.k {
                K::R(_) => v = x,
                _ => break,
            }
        }
        v
    }
    pub fn strip(&self, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..5 {
            match v.k {
                K::R(_) => v = self.load(&v),
                _ => break,
            }
        }
        v
    }
    pub fn ref_child(&self, v: &V, pj: Pj) -> V {
        match &v.k {
            K::R(r) => {
                let t = r.t.iter().map(|l| l.child(pj)).collect();
                let det = r.det.as_ref().map(|d| get_path(d, &[pj]));
                V { lab: v.lab, tok: v.tok, k: K::R(Rc::new(Rf { t, det, sub: None })) }
            }
            _ => V::rdet(V::top()).with(v.all()),
        }
    }
    /// overwrite / weakly update through a reference
    pub fn store(&mut self, rf: &V, v: V, weak: bool) {
        if let K::R(r) = &rf.k {
            let pl = Pl { locs: r.t.clone(), det: r.det.iter().cloned().collect(), lab: rf.lab, sub: None };
            if weak {
                let fr = self.fr();
                let v = v.with(fr.pc).with(pl.lab);
                for l in &pl.locs {
                    let n = set_path(fr.st.get(l.o), &l.p, &v, true);
                    fr.st.set(l.o, n);
                    fr.st.touch(l);
                }
            } else {
                self.write_pl(&pl, v);
            }
        }
    }
    /// labels of a value including everything reachable through references
    pub fn deep(&self, v: &V) -> Lab {
        let mut l = v.all();
        let mut seen: Vec<Loc> = vec![];
        let mut work = vec![];
        v.locs(&mut work);
        while let Some(x) = work.pop() {
            if seen.contains(&x) {
                continue;
            }
            let y = get_path(self.f().st.get(x.o), &x.p);
            l = l.or(y.all());
            y.locs(&mut work);
            seen.push(x);
        }
        l
    }

    // ---------- operands ----------
    pub fn konst(&mut self, k: &Konst) -> V {
        if let Some(c) = &k.callee {
            let _ = c;
            return V::new(K::Clo(k.t, Rc::new(vec![])));
        }
        if let Some(b) = k.bits {
            return self.scalar(k.t, b);
        }
        if let (Some(s), true) = (&k.s, k.k == "str") {
            let n = s.len() as i128;
            return V::rdet(V::new(K::C(Rc::new(Co {
                el: V::i(0, 255),
                lo: n,
                hi: n,
                asc: false,
                ord: 0,
                must: 0,
                s: Some(s.as_str().into()),
            }))));
        }
        if let Some(vals) = &k.vals {
            let (at, isref) = match self.p.ty(k.t) {
                TyK::Ref { t, .. } => (*t, true),
                _ => (k.t, false),
            };
            if let TyK::Array { t, .. } = self.p.ty(at) {
                let t = *t;
                let mut e = V::bot();
                for b in vals {
                    e = e.join(&self.scalar(t, *b));
                }
                let c = V::c(e, vals.len() as i128, vals.len() as i128);
                return if isref { V::rdet(c) } else { c };
            }
        }
        if let (Some(i), Some(d)) = (k.promoted, &k.pdef) {
            let n = format!("{}::promoted[{}]", d, i);
            if let Some(&fi) = self.p.by_name.get(&n) {
                let s = self.analyze(fi, vec![], vec![]);
                return s.ret.clone();
            }
        }
        if k.k == "zst" {
            if let TyK::Tuple { ts } = self.p.ty(k.t) {
                if ts.is_empty() {
                    return V::unit();
                }
            }
        }
        self.top_of(k.t)
    }
    fn scalar(&self, t: usize, b: u128) -> V {
        match self.p.ty(t) {
            TyK::Float { bits: 32 } => V::f(Fl::c(f32::from_bits(b as u32) as f64)),
            TyK::Float { .. } => V::f(Fl::c(f64::from_bits(b as u64))),
            TyK::Int { signed: true, bits } => {
                let s = 128 - bits;
                let x = ((b << s) as i128) >> s;
                V::i(x, x)
            }
            _ => V::i(b as i128, b as i128),
        }
    }
    pub fn op(&mut self, o: &Op) -> V {
        match o {
            Op::Cp(p) | Op::Mv(p) => self.read(p),
            Op::C(k) => self.konst(k),
            Op::Rt => V::boolt(),
        }
    }
    pub fn op_ty(&self, o: &Op) -> usize {
        match o {
            Op::Cp(p) | Op::Mv(p) => p.t,
            Op::C(k) => k.t,
            Op::Rt => 0,
        }
    }
    /// places known to hold the same value as operand `o`
    pub fn aliases(&self, o: &Op) -> Vec<Al> {
        let Some(p) = o.place() else { return vec![] };
        let r = self.resolve(p);
        if r.locs.len() != 1 || !r.det.is_empty() || r.locs[0].has_el() {
            return vec![];
        }
        let weak = self.f().weak.get(r.locs[0].o as usize).cloned().unwrap_or(false);
        if weak {
            return vec![];
        }
        let mut v = vec![Al::Val(r.locs[0].clone())];
        if p.p.is_empty() {
            if let Some(f) = self.f().st.facts.get(&(p.l as u32)) {
                for a in &f.al {
                    if !v.contains(a) {
                        v.push(a.clone());
                    }
                }
            }
        }
        v
    }
    pub fn opd(&mut self, o: &Op) -> Opd {
        Opd { al: self.aliases(o), v: self.op(o) }
    }
    fn local_ty(&self, l: usize) -> usize {
        self.p.fns[self.f().fi].locals[l].t
    }
    /// what `a op constant` is a fixed distance or fraction of
    fn offs(&self, op: &str, a: &Op, x: &V, y: &V) -> Vec<(Al, i128, i128)> {
        let (d, c) = match (op.trim_end_matches("WithOverflow"), y.cst()) {
            ("Add", Some(c)) => (1, c),
            ("Sub", Some(c)) => (1, -c),
            ("Div", Some(d)) if d > 0 => (d, 0),
            ("Shr", Some(s)) if (0..32).contains(&s) => (1 << s, 0),
            _ => return vec![],
        };
        let (Some((lo, _)), Some(p)) = (x.int(), a.place()) else { return vec![] };
        if d > 1 && lo < 0 {
            return vec![];
        }
        let mut v: Vec<(Al, i128, i128)> = self.aliases(a).into_iter().map(|a| (a, d, c)).collect();
        if p.p.is_empty() {
            if let Some(f) = self.f().st.facts.get(&(p.l as u32)) {
                v.extend(f.off.iter().filter(|o| d == 1 || o.2 == 0).map(|(a, e, k)| (a.clone(), e * d, k + c)));
            }
        }
        v.truncate(6);
        v
    }
    fn set_fact(&mut self, l: usize, mut f: Fact) {
        let me = Loc::base(l as u32);
        f.off.retain(|a| !a.0.loc().overlaps(&me));
        if let Some(r) = &mut f.rem {
            r.0.al.retain(|a| !a.loc().overlaps(&me));
        }
        if let Some(b @ BF::Imp(_)) = &mut f.b {
            touch_b(b, &me);
        }
        if f != Fact::default() {
            Rc::make_mut(&mut self.fr().st.facts).insert(l as u32, f);
        }
    }

    // ---------- arithmetic ----------
    pub fn bin(&mut self, op: &str, a: &V, b: &V, t: usize) -> V {
        let lab = a.all().or(b.all());
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        let fbits = if let TyK::Float { bits } = self.p.ty(t) { *bits } else { 0 };
        if a.is_bot() || b.is_bot() {
            return V::bot();
        }
        let r = match (&a.k, &b.k) {
            (K::F(x), K::F(y)) => {
                let z = match base {
                    "Add" => Some(x.add(y)),
                    "Sub" => Some(x.add(&y.neg())),
                    "Mul" => Some(x.mul(y)),
                    "Div" => Some(x.div(y)),
                    "Rem" => {
                        let m = y.abs().hi;
                        let nan = x.nan || y.nan || x.inf() || y.has0();
                        Some(Fl::new(if x.lo >= 0.0 { 0.0 } else { -m }, if x.hi <= 0.0 { 0.0 } else { m.min(if x.lo>=0.0 {x.hi} else {INF}) }, nan))
                    }
                    _ => None,
                };
                match z {
                    Some(z) => V::f(z.round_to(fbits)),
                    None => {
                        // comparison
                        let un = x.nan || y.nan;
                        let (t, f) = match base {
                            "Lt" => (x.lo < y.hi, !(x.hi < y.lo) || un),
                            "Le" => (x.lo <= y.hi, !(x.hi <= y.lo) || un),
                            "Gt" => (x.hi > y.lo, !(x.lo > y.hi) || un),
                            "Ge" => (x.hi >= y.lo, !(x.lo >= y.hi) || un),
                            "Eq" => (
                                x.lo <= y.hi && y.lo <= x.hi,
                                !(x.lo == x.hi && y.lo == y.hi && x.lo == y.lo) || un,
                            ),
                            "Ne" => (
                                !(x.lo == x.hi && y.lo == y.hi && x.lo == y.lo) || un,
                                x.lo <= y.hi && y.lo <= x.hi,
                            ),
                            _ => (true, true),
                        };
                        let (t, f) = if x.empty() || y.empty() {
                            (base == "Ne", base != "Ne")
                        } else {
                            (t, f)
                        };
                        V::i(if f { 0 } else { 1 }, if t { 1 } else { 0 })
                    }
                }
            }
            (K::I(x0, x1), K::I(y0, y1)) => {
                let (x0, x1, y0, y1) = (*x0, *x1, *y0, *y1);
                let cmp = |t: bool, f: bool| V::i(if f { 0 } else { 1 }, if t { 1 } else { 0 });
                match base {
                    "Lt" => return cmp(x0 < y1, x1 >= y0).with(lab),
                    "Le" => return cmp(x0 <= y1, x1 > y0).with(lab),
                    "Gt" => return cmp(x1 > y0, x0 <= y1).with(lab),
                    "Ge" => return cmp(x1 >= y0, x0 < y1).with(lab),
                    "Eq" => {
                        return cmp(x0 <= y1 && y0 <= x1, !(x0 == x1 && y0 == y1 && x0 == y0))
                            .with(lab)
                    }
                    "Ne" => {
                        return cmp(!(x0 == x1 && y0 == y1 && x0 == y0), x0 <= y1 && y0 <= x1)
                            .with(lab)
                    }
                    "Cmp" => {
                        let mut vs = vec![];
                        if x0 < y1 {
                            vs.push((0, vec![]));
                        }
                        if x0 <= y1 && y0 <= x1 {
                            vs.push((1, vec![]));
                        }
                        if x1 > y0 {
                            vs.push((2, vec![]));
                        }
                        return V::ed(lab, vs);
                    }
                    _ => {}
                }
                let (lo, hi) = self.irange(t).unwrap_or((i128::MIN, i128::MAX));
                let all = |f: &dyn Fn(i128, i128) -> i128| {
                    let c = [f(x0, y0), f(x0, y1), f(x1, y0), f(x1, y1)];
                    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                };
                let (r0, r1) = match base {
                    "Add" => (x0.saturating_add(y0), x1.saturating_add(y1)),
                    "Sub" => (x0.saturating_sub(y1), x1.saturating_sub(y0)),
                    "Mul" => all(&|a, b| a.saturating_mul(b)),
                    "Div" => {
                        let (d0, d1) = (if y0 == 0 { 1 } else { y0 }, if y1 == 0 { -1 } else { y1 });
                        if y0 == 0 && y1 == 0 {
                            return V::bot();
                        }
                        if y0 < 0 && y1 > 0 {
                            let m = x0.abs().max(x1.abs());
                            (-m, m)
                        } else {
                            let c = [x0 / d0, x0 / d1, x1 / d0, x1 / d1];
                            (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                        }
                    }
                    "Rem" => {
                        let m = y0.abs().max(y1.abs()) - 1;
                        if m < 0 {
                            return V::bot();
                        }
                        if x0 >= 0 {
                            if y0 > x1 { (x0, x1) } else { (0, m.min(x1)) }
                        } else {
                            (-m, if x1 <= 0 { 0 } else { m })
                        }
                    }
                    "BitAnd" if x0 >= 0 && y0 >= 0 => {
                        if lo == 0 && hi == 1 { (x0 & y0, x1 & y1) } else { (0, x1.min(y1)) }
                    }
                    "BitOr" if hi == 1 => (x0 | y0, x1 | y1),
                    "BitOr" | "BitXor" if x0 >= 0 && y0 >= 0 && hi > 1 => {
                        let m = x1.max(y1).max(1) as u128;
                        let up = (m + 1).next_power_of_two() as i128;
                        (0, if up > m as i128 { up * 2 } else { up })
                    }
                    "Shl" if x0 >= 0 && y0 >= 0 && y1 < 100 => {
                        (x0.saturating_mul(1 << y0), x1.saturating_mul(1 << y1))
                    }
                    "Shr" if x0 >= 0 && y0 >= 0 => (x0 >> y1.min(126), x1 >> y0.min(126)),
                    _ => (lo, hi),
                };
                // arithmetic that leaves the type's range panics (or is excluded): clip
                V::i(r0.max(lo), r1.min(hi))
            }
            _ => {
                if matches!(base, "Lt" | "Le" | "Gt" | "Ge" | "Eq" | "Ne") {
                    V::boolt()
                } else {
                    self.top_of(t)
                }
            }
        };
        let r = r.with(lab);
        r
    }

    fn cast(&mut self, kind: &str, v: V, t: usize) -> V {
        let lab = v.lab;
        match (&v.k, self.p.ty(t)) {
            (K::Bot, _) => V::bot(),
            (K::I(a, b), TyK::Int { .. } | TyK::Char | TyK::Bool) => {
                let (lo, hi) = self.irange(t).unwrap();
                // a width change still counts as forwarding the value
                if *a >= lo && *b <= hi {
                    V::i(*a, *b).with(lab).tok(v.tok)
                } else {
                    V::i(lo, hi).with(lab).tok(v.tok)
                }
            }
            (K::I(a, b), TyK::Float { bits }) => {
                V::f(Fl::new(*a as f64, *b as f64, false).round_to(*bits)).with(lab)
            }
            (K::F(x), TyK::Float { bits }) => V::f(x.round_to(*bits)).with(lab),
            (K::F(x), TyK::Int { .. }) => {
                let (lo, hi) = self.irange(t).unwrap();
                let c = |f: f64| {
                    if f <= lo as f64 {
                        lo
                    } else if f >= hi as f64 {
                        hi
                    } else {
                        f as i128
                    }
                };
                let mut r = if x.empty() { (i128::MAX, i128::MIN) } else { (c(x.lo), c(x.hi)) };
                if x.nan {
                    r = (r.0.min(0), r.1.max(0));
                }
                V::i(r.0, r.1).with(lab)
            }
            (K::E(e), TyK::Int { .. }) => {
                let _ = e;
                self.top_of(t).with(v.all())
            }
            (K::R(_) | K::Clo(..), _) => {
                let _ = kind;
                v
            }
            _ => self.top_of(t).with(v.all()),
        }
    }

    fn variant_d(&self, t: usize, v: u32) -> Option<i128> {
        self.p.variants(t).and_then(|vs| vs.get(v as usize)).and_then(|v| v.d.parse().ok())
    }

    pub fn rvalue(&mut self, rv: &Rv, dest: &Place) -> (V, Fact) {
        let none = Fact::default();
        match rv {
            Rv::Use(o) => {
                let v = self.op(o);
                let mut f = Fact { al: self.aliases(o), ..Default::default() };
                if let Some(p) = o.place() {
                    if p.p.is_empty() {
                        if let Some(g) = self.f().st.facts.get(&(p.l as u32)) {
                            f.b = g.b.clone();
                            f.d = g.d.clone();
                            f.off = g.off.clone();
                            f.rem = g.rem.clone();
                        }
                    } else if p.p.len() == 1 && matches!(self.p.ty(self.local_ty(p.l)), TyK::Tuple { .. }) && !matches!(self.p.ty(p.t), TyK::Bool) {
                        if let Some(g) = self.f().st.facts.get(&(p.l as u32)) {
                            f.off = g.off.clone();
                        }
                    }
                }
                if matches!(o, Op::Mv(_)) {
                    // keep aliases of the moved temp, but not the temp itself
                }
                (v, f)
            }
            Rv::Repeat(o, n) => {
                let v = self.op(o);
                let (a, b) = n.map_or((0, LMAX), |n| (n as i128, n as i128));
                (V::c(v, a, b), none)
            }
            Rv::Ref(_, p) | Rv::RawPtr(p) => {
                let r = self.resolve(p);
                // reborrow of a whole deref keeps the reference as is
                let det = r.det.iter().fold(None::<V>, |a, d| {
                    Some(match a {
                        None => d.clone(),
                        Some(x) => x.join(d),
                    })
                });
                let mut t = r.locs;
                t.sort();
                let mut f = none;
                if p.p.len() == 1 && matches!(self.p.ty(self.local_ty(p.l)), TyK::Ref { m: false, .. }) {
                    let b = Op::Cp(Place { p: vec![], t: self.local_ty(p.l), ..p.clone() });
                    f.al = self.aliases(&b);
                }
                (
                    V { lab: r.lab, tok: UNK, k: K::R(Rc::new(Rf { t, det, sub: r.sub })) },
                    f,
                )
            }
            Rv::Tls(_) => (V::top(), none),
            Rv::Cast(k, o, t) => {
                let v = self.op(o);
                let al = match (self.p.ty(*t), &v.k) {
                    (TyK::Int { .. }, K::I(a, b)) => {
                        let (lo, hi) = self.irange(*t).unwrap();
                        if *a >= lo && *b <= hi {
                            self.aliases(o)
                        } else {
                            vec![]
                        }
                    }
                    _ => vec![],
                };
                (self.cast(k, v, *t), Fact { al, ..none })
            }
            Rv::Bin(op, a, b) => {
                let (x, y) = (self.op(a), self.op(b));
                let t = self.op_ty(a);
                if op.ends_with("WithOverflow") {
                    let v = self.bin(op, &x, &y, t);
                    let l = v.lab;
                    let fits = match (&x.k, &y.k, self.irange(t)) {
                        (K::I(a0, a1), K::I(b0, b1), Some((lo, hi))) => {
                            let cs: Option<Vec<i128>> = match op.trim_end_matches("WithOverflow") {
                                "Add" => Some(vec![a0.saturating_add(*b0), a1.saturating_add(*b1)]),
                                "Sub" => Some(vec![a0.saturating_sub(*b1), a1.saturating_sub(*b0)]),
                                "Mul" => Some([a0.saturating_mul(*b0), a0.saturating_mul(*b1), a1.saturating_mul(*b0), a1.saturating_mul(*b1)].to_vec()),
                                _ => None,
                            };
                            cs.map_or(false, |c| c.iter().all(|x| *x >= lo && *x <= hi))
                        }
                        _ => false,
                    };
                    let o = if fits { V::b(false) } else { V::boolt() };
                    let mut f = none;
                    f.off = self.offs(op, a, &x, &y);
                    return (V::s(vec![v, o.with(l)]), f);
                }
                let v = self.bin(op, &x, &y, t);
                let mut f = none;
                if matches!(op.as_str(), "Div" | "Shr") {
                    f.off = self.offs(op, a, &x, &y);
                }
                let c: Option<&'static str> = match op.as_str() {
                    "Lt" => Some("Lt"),
                    "Le" => Some("Le"),
                    "Gt" => Some("Gt"),
                    "Ge" => Some("Ge"),
                    "Eq" => Some("Eq"),
                    "Ne" => Some("Ne"),
                    _ => None,
                };
                if let Some(c) = c {
                    use crate::models::{T_LEFT, T_RIGHT};
                    if matches!((&x.k, &y.k), (K::F(p), K::F(q)) if p.nan || q.nan)
                        && ((x.tok, y.tok) == (T_LEFT, T_RIGHT) || (x.tok, y.tok) == (T_RIGHT, T_LEFT))
                        && self.orders()
                    {
                        self.ev("pcmp-nan", "comparison of values that may be NaN".into());
                    }
                    f.b = Some(BF::Cmp(c, self.opd(a), self.opd(b)));
                    // n % k == 0
                    let rem = a.place().filter(|q| q.p.is_empty()).and_then(|q| self.f().st.facts.get(&(q.l as u32))).and_then(|g| g.rem.clone());
                    if let (Some((o, n)), "Eq" | "Ne", Some(k)) = (rem, c, y.cst()) {
                        if k == 0 || (k == 1 && n == 2) {
                            let m = BF::Mul(o, n);
                            f.b = Some(if (k == 0) == (c == "Eq") { m } else { BF::Not(Box::new(m)) });
                        }
                    }
                }
                if let ("Rem", Some((lo, _)), Some(n)) = (op.as_str(), x.int(), y.cst()) {
                    if lo >= 0 && n > 0 {
                        f.rem = Some((self.opd(a), n));
                    }
                }
                (v, f)
            }
            Rv::Un(op, o) => {
                let v = self.op(o);
                let lab = v.all();
                match op.as_str() {
                    "Neg" => match &v.k {
                        K::F(x) => (V::f(x.neg()).with(lab), none),
                        K::I(a, b) => (V::i(-*b, -*a).with(lab), none),
                        _ => (self.top_of(dest.t).with(lab), none),
                    },
                    "Not" => match &v.k {
                        K::I(a, b) if matches!(self.p.ty(dest.t), TyK::Bool) => {
                            let mut f = none;
                            if let Some(p) = o.place() {
                                if p.p.is_empty() {
                                    if let Some(g) = self.f().st.facts.get(&(p.l as u32)) {
                                        f.b = g.b.clone().map(|b| BF::Not(Box::new(b)));
                                    }
                                }
                                if f.b.is_none() {
                                    let x = self.opd(o);
                                    f.b = Some(BF::Cmp("Eq", x, Opd { al: vec![], v: V::b(false) }));
                                }
                            }
                            (V::i(1 - b, 1 - a).with(lab), f)
                        }
                        _ => (self.top_of(dest.t).with(lab), none),
                    },
                    "PtrMetadata" => {
                        let x = self.load(&v);
                        let mut f = none;
                        if let K::R(r) = &v.k {
                            if r.t.len() == 1 && r.det.is_none() && r.sub.is_none() && !r.t[0].has_el() {
                                f.al.push(Al::Len(r.t[0].clone()));
                            }
                        }
                        f.al.extend(self.len_refs(o));
                        match &x.k {
                            K::C(c) => (V::i(c.lo, c.hi).with(x.lab), f),
                            _ => (self.top_of(dest.t).with(lab.or(x.lab)), f),
                        }
                    }
                    _ => (self.top_of(dest.t).with(lab), none),
                }
            }
            Rv::Discr(p) => {
                let r = self.resolve(p);
                let v = self.read_pl(&r, p.t);
                let mut f = none;
                if r.locs.len() == 1 && r.det.is_empty() && !r.locs[0].has_el() {
                    f.d = Some(r.locs[0].clone());
                }
                match &v.k {
                    K::E(e) => {
                        let mut lo = i128::MAX;
                        let mut hi = i128::MIN;
                        for k in e.vs.keys() {
                            let d = self.variant_d(p.t, *k).unwrap_or(*k as i128);
                            lo = lo.min(d);
                            hi = hi.max(d);
                        }
                        (V::i(lo, hi).with(v.dlab()), f)
                    }
                    K::Bot => (V::bot(), f),
                    _ => (self.top_of(dest.t).with(v.all()), f),
                }
            }
            Rv::Agg(k, os) => {
                let vs: Vec<V> = os.iter().map(|o| self.op(o)).collect();
                match k {
                    Ak::Array => {
                        let n = vs.len() as i128;
                        let e = vs.iter().fold(V::bot(), |a, b| a.join(b));
                        let m = vs.iter().fold(0, |a, b| a | vbit(b));
                        let mut c = V::c(e, n, n);
                        if let K::C(x) = &mut c.k {
                            Rc::make_mut(x).must = m;
                        }
                        (c, none)
                    }
                    Ak::Tuple => (V::s(vs), none),
                    Ak::Adt(_, v) => {
                        if self.p.is_enum(dest.t) {
                            let v = V::e(vec![(*v, vs)]);
                            if self.key == Some(dest.t) && !crate::keys::in_range(&v) {
                                self.ev("key", format!("{:?}", v.k_only()));
                            }
                            (v, none)
                        } else {
                            let v = V::s(vs);
                            if self.grid.is_grid(dest.t) {
                                return match self.grid.wrong(&v) {
                                    None => {
                                        self.ev("grid-ok", String::new());
                                        (v.tok(crate::grid::VALID), none)
                                    }
                                    Some(w) => {
                                        self.ev("grid", w);
                                        (v, none)
                                    }
                                };
                            }
                            (v, none)
                        }
                    }
                    Ak::Closure(_) => (V::new(K::Clo(dest.t, Rc::new(vs))), none),
                    Ak::Other => {
                        // raw fat pointer etc.
                        if let Some(x) = vs.iter().find(|x| matches!(x.k, K::R(_))) {
                            (x.clone(), none)
                        } else {
                            let l = vs.iter().fold(Lab::NONE, |l, v| l.or(v.all()));
                            (self.top_of(dest.t).with(l), none)
                        }
                    }
                }
            }
            Rv::Other => (self.top_of(dest.t), none),
        }
    }

    // ---------- refinement ----------
    fn meet(a: &V, b: &V) -> V {
        let k = match (&a.k, &b.k) {
            (K::I(x, y), K::I(p, q)) => {
                let (l, h) = (*x.max(p), *y.min(q));
                if l > h {
                    K::Bot
                } else {
                    K::I(l, h)
                }
            }
            (K::F(x), K::F(y)) => {
                let mut z = Fl::new(x.lo.max(y.lo), x.hi.min(y.hi), x.nan && y.nan);
                z.rel = x.rel | y.rel;
                if z.empty() && !z.nan {
                    K::Bot
                } else {
                    K::F(z)
                }
            }
            _ => a.k.clone(),
        };
        V { lab: a.lab, tok: a.tok, k }
    }
    fn apply(&mut self, al: &[Al], nv: &V) -> bool {
        if nv.is_bot() {
            return false;
        }
        for a in al {
            let l = a.loc().clone();
            let cur = get_path(self.f().st.get(l.o), &l.p);
            let new = match a {
                Al::Val(_) => match meetv(&cur, nv) {
                    Some(m) => V { lab: Lab::NONE, tok: UNK, k: m.k },
                    None => return false,
                },
                Al::Len(_) => match (&cur.k, nv.int()) {
                    (K::C(c), Some((x, y))) => {
                        let mut c2 = (**c).clone();
                        c2.lo = c2.lo.max(x);
                        c2.hi = c2.hi.min(y);
                        if c2.lo > c2.hi {
                            return false;
                        }
                        V { lab: Lab::NONE, tok: UNK, k: K::C(Rc::new(c2)) }
                    }
                    _ => continue,
                },
                Al::Gap(..) => continue,
                Al::Ref(_) => match (&cur.k, nv.int()) {
                    (K::R(r), Some((x, y))) => {
                        let mut r2 = (**r).clone();
                        if let Some((a, b)) = r.sub {
                            let s = (a.max(x), b.min(y));
                            if s.0 > s.1 {
                                return false;
                            }
                            r2.sub = Some(s);
                        } else if let (true, Some(K::C(c))) = (r.t.is_empty(), r.det.as_ref().map(|d| &d.k)) {
                            let mut c2 = (**c).clone();
                            c2.lo = c2.lo.max(x);
                            c2.hi = c2.hi.min(y);
                            if c2.lo > c2.hi {
                                return false;
                            }
                            let d = r.det.as_ref().unwrap();
                            r2.det = Some(V { lab: d.lab, tok: d.tok, k: K::C(Rc::new(c2)) });
                        } else {
                            continue;
                        }
                        V { lab: Lab::NONE, tok: UNK, k: K::R(Rc::new(r2)) }
                    }
                    _ => continue,
                },
            };
            // refinement keeps the node's own labels (ancestors keep theirs)
            let fr = self.fr();
            let old = fr.st.get(l.o).clone();
            let own = own_lab(&old, &l.p);
            let n = set_path(&old, &l.p, &new.clone().with(own).tok(cur.tok), false);
            let n = retok(&old, n, &l.p);
            if n != old {
                fr.st.set(l.o, n);
            }
            let ends = match (a, &new.k) {
                (Al::Len(_), K::C(c)) => Some((c.lo, c.hi)),
                (Al::Val(_), K::I(x, y)) if self.lenm => Some((*x, *y)),
                _ => None,
            };
            
            if let (true, Some(c)) = (l.p.is_empty(), ends) {
                for ((x, y), d) in self.f().st.pairs.clone().iter() {
                    // the partner's length follows
                    let (p, k) = if *x == l.o { (*y, -d) } else if *y == l.o { (*x, *d) } else { continue };
                    let mut v = self.f().st.get(p).clone();
                    if let K::C(z) = &mut v.k {
                        if z.lo < c.0 + k || z.hi > c.1 + k {
                            let z = Rc::make_mut(z);
                            z.lo = z.lo.max(c.0 + k);
                            z.hi = z.hi.min(c.1 + k);
                            if z.lo > z.hi {
                                return false;
                            }
                            self.fr().st.set(p, v);
                        }
                    }
                }
            }
        }
        true
    }
    /// a call is known to have had this outcome
    fn outcome(&mut self, v: &[(u32, Vec<(Al, V)>)], k: u32) -> bool {
        for (_, rs) in v.iter().filter(|e| e.0 == k) {
            for (a, x) in rs {
                // an iterator seen to move on, if neither it nor the list has changed since
                if let (Al::Gap(l, it), Some(d)) = (a, x.cst()) {
                    if l.o != *it && rs.iter().any(|(b, _)| *b == Al::Gap(Loc::base(*it), *it)) {
                        Rc::make_mut(&mut self.fr().st.pairs).insert((l.o.min(*it), l.o.max(*it)), if l.o < *it { d } else { -d });
                    }
                }
                if !self.apply(std::slice::from_ref(a), x) {
                    return false;
                }
            }
        }
        true
    }
    /// assume `b` has truth value `t`; false = infeasible
    pub fn assume(&mut self, b: &BF, t: bool) -> bool {
        match b {
            BF::Not(x) => self.assume(x, !t),
            BF::Fin(o) => {
                if let K::F(f) = o.v.k {
                    if t {
                        let m = f64::MAX;
                        let z = Fl { rel: f.rel, ..Fl::new(f.lo.max(-m), f.hi.min(m), false) };
                        if z.empty() {
                            return false;
                        }
                        return self.apply(&o.al, &V::f(z));
                    } else if !f.nan && !f.inf() {
                        return false;
                    }
                }
                true
            }
            BF::Nan(o) => {
                if let K::F(f) = o.v.k {
                    if t {
                        if !f.nan {
                            return false;
                        }
                        return self.apply(&o.al, &V::f(Fl { lo: INF, hi: -INF, nan: true, rel: 0 }));
                    } else {
                        if f.empty() {
                            return false;
                        }
                        return self.apply(&o.al, &V::f(Fl { nan: false, ..f }));
                    }
                }
                true
            }
            BF::Var(ls, v) => {
                for l in ls.clone() {
                    if !self.keep_variants(&l, |k| (k == *v) == t) {
                        return false;
                    }
                }
                true
            }
            BF::Imp(v) => self.outcome(v, t as u32),
            BF::Mul(o, n) => {
                let (Some((mut x, mut y)), true) = (o.v.int(), *n > 0) else { return true };
                if t {
                    x = x.div_euclid(*n) * n + if x.rem_euclid(*n) == 0 { 0 } else { *n };
                    y = y.div_euclid(*n) * n;
                } else {
                    x += (x.rem_euclid(*n) == 0) as i128;
                    y -= (y.rem_euclid(*n) == 0) as i128;
                }
                x <= y && self.apply(&o.al, &V::i(x, y))
            }
            BF::In(o, lo, hi) => {
                if t {
                    let x = BF::Cmp("Ge", o.clone(), Opd { al: vec![], v: lo.clone() });
                    let y = BF::Cmp("Le", o.clone(), Opd { al: vec![], v: hi.clone() });
                    self.assume(&x, true) && self.assume(&y, true)
                } else {
                    true
                }
            }
            BF::Cmp(op, a, b) => {
                let op: &str = match (*op, t) {
                    (o, true) => o,
                    ("Lt", _) => "Ge",
                    ("Le", _) => "Gt",
                    ("Gt", _) => "Le",
                    ("Ge", _) => "Lt",
                    ("Eq", _) => "Ne",
                    ("Ne", _) => "Eq",
                    (o, _) => o,
                };
                match (&a.v.k, &b.v.k) {
                    (K::I(x0, x1), K::I(y0, y1)) => {
                        let (mut x0, mut x1, mut y0, mut y1) = (*x0, *x1, *y0, *y1);
                        match op {
                            "Lt" => {
                                x1 = x1.min(y1 - 1);
                                y0 = y0.max(x0 + 1);
                            }
                            "Le" => {
                                x1 = x1.min(y1);
                                y0 = y0.max(x0);
                            }
                            "Gt" => {
                                x0 = x0.max(y0 + 1);
                                y1 = y1.min(x1 - 1);
                            }
                            "Ge" => {
                                x0 = x0.max(y0);
                                y1 = y1.min(x1);
                            }
                            "Eq" => {
                                x0 = x0.max(y0);
                                x1 = x1.min(y1);
                                y0 = x0;
                                y1 = x1;
                            }
                            "Ne" => {
                                if y0 == y1 {
                                    if x0 == y0 {
                                        x0 += 1;
                                    }
                                    if x1 == y0 {
                                        x1 -= 1;
                                    }
                                }
                                if x0 == x1 && x0 <= x1 {
                                    if y0 == x0 {
                                        y0 += 1;
                                    }
                                    if y1 == x0 {
                                        y1 -= 1;
                                    }
                                }
                            }
                            _ => {}
                        }
                        if x0 > x1 || y0 > y1 {
                            return false;
                        }
                        self.apply(&a.al, &V::i(x0, x1)) && self.apply(&b.al, &V::i(y0, y1))
                    }
                    (K::F(x), K::F(y)) => {
                        let (x, y) = (*x, *y);
                        // `t` distinguishes "comparison true" (excludes NaN) from
                        // "negated comparison false-branch" (NaN possible)
                        let pos = t || matches!(op, "Eq");
                        let (mut nx, mut ny) = (x, y);
                        let dn = |f: f64| if f.is_finite() { f.next_down() } else { f };
                        let up = |f: f64| if f.is_finite() { f.next_up() } else { f };
                        let usex = pos || !y.nan; // may refine x
                        let usey = pos || !x.nan;
                        match op {
                            "Lt" => {
                                if usex && !y.empty() {
                                    nx.hi = nx.hi.min(dn(y.hi));
                                }
                                if usey && !x.empty() {
                                    ny.lo = ny.lo.max(up(x.lo));
                                }
                            }
                            "Le" => {
                                if usex && !y.empty() {
                                    nx.hi = nx.hi.min(y.hi);
                                }
                                if usey && !x.empty() {
                                    ny.lo = ny.lo.max(x.lo);
                                }
                            }
                            "Gt" => {
                                if usex && !y.empty() {
                                    nx.lo = nx.lo.max(up(y.lo));
                                }
                                if usey && !x.empty() {
                                    ny.hi = ny.hi.min(dn(x.hi));
                                }
                            }
                            "Ge" => {
                                if usex && !y.empty() {
                                    nx.lo = nx.lo.max(y.lo);
                                }
                                if usey && !x.empty() {
                                    ny.hi = ny.hi.min(x.hi);
                                }
                            }
                            "Eq" => {
                                nx.lo = nx.lo.max(y.lo);
                                nx.hi = nx.hi.min(y.hi);
                                ny = nx;
                            }
                            _ => {}
                        }
                        if pos && op != "Ne" {
                            nx.nan = false;
                            ny.nan = false;
                        }
                        let (mut rx, mut ry) = (x.rel, y.rel);
                        match op {
                            "Lt" | "Le" => {
                                rx |= if usex { y.rel & LE } else { 0 };
                                ry |= if usey { x.rel & GE } else { 0 };
                            }
                            "Gt" | "Ge" => {
                                rx |= if usex { y.rel & GE } else { 0 };
                                ry |= if usey { x.rel & LE } else { 0 };
                            }
                            "Eq" => {
                                rx |= y.rel;
                                ry |= x.rel;
                            }
                            _ => {}
                        }
                        let pos0 = |f: &Fl, r: u8| if f.lo > 0.0 { r | (r & OR0) >> 2 } else { r };
                        let nx = Fl { rel: pos0(&nx, rx), ..Fl::new(nx.lo, nx.hi, nx.nan) };
                        let ny = Fl { rel: pos0(&ny, ry), ..Fl::new(ny.lo, ny.hi, ny.nan) };
                        if (nx.empty() && !nx.nan) || (ny.empty() && !ny.nan) {
                            return false;
                        }
                        self.apply(&a.al, &V::f(nx)) && self.apply(&b.al, &V::f(ny))
                    }
                    _ => true,
                }
            }
        }
    }
    pub fn keep_variants(&mut self, l: &Loc, f: impl Fn(u32) -> bool) -> bool {
        let old = self.f().st.get(l.o).clone();
        let cur = get_path(&old, &l.p);
        if let K::E(e) = &cur.k {
            let vs: BTreeMap<u32, Vec<V>> =
                e.vs.iter().filter(|(k, _)| f(**k)).map(|(k, v)| (*k, v.clone())).collect();
            if vs.is_empty() {
                return false;
            }
            if l.p.is_empty() && vs.len() == 1 {
                if let Some(Fact { b: Some(BF::Imp(v)), .. }) = self.f().st.facts.get(&l.o).cloned() {
                    if !self.outcome(&v, *vs.keys().next().unwrap()) {
                        return false;
                    }
                }
            }
            if vs.len() < e.vs.len() && !self.f().weak.get(l.o as usize).cloned().unwrap_or(false) {
                let n = V {
                    lab: own_lab(&old, &l.p),
                    tok: cur.tok,
                    k: K::E(Rc::new(En { dl: e.dl, vs })),
                };
                let n = retok(&old, set_path(&old, &l.p, &n, false), &l.p);
                self.fr().st.set(l.o, n);
            }
        }
        true
    }

    /// the result is a truth value or an enum, only ever assigned as a whole
    fn by_outcome(&mut self, fi: usize) -> bool {
        if let Some(x) = self.whole.get(&fi) {
            return *x;
        }
        let f = &self.p.fns[fi];
        let t = f.locals[0].t;
        let mut ok = (f.kind == "fn" || self.rngm) && (matches!(self.p.ty(t), TyK::Bool) || self.p.is_enum(t));
        for b in f.blocks.iter().filter(|b| !b.cleanup) {
            for s in &b.s {
                match s {
                    St::Assign(p, rv, _) => {
                        ok &= p.l != 0 || p.p.is_empty();
                        if let Rv::Ref(true, q) | Rv::RawPtr(q) = rv {
                            ok &= q.l != 0;
                        }
                    }
                    St::SetD(p, _) => ok &= p.l != 0,
                    _ => {}
                }
            }
            if let Tm::Call { dest, .. } = &b.t {
                ok &= dest.l != 0 || dest.p.is_empty();
            }
        }
        self.whole.insert(fi, ok);
        ok
    }
    /// a parameter that always holds what was passed
    fn kept(&mut self, fi: usize, l: usize) -> bool {
        if let Some(x) = self.kept.get(&(fi, l)) {
            return *x;
        }
        let ok = self.p.fns[fi].blocks.iter().all(|b| {
            b.s.iter().all(|s| match s {
                St::Assign(p, rv, _) => !(p.l == l && p.p.is_empty()) && !matches!(rv, Rv::Ref(true, q) | Rv::RawPtr(q) if q.l == l && q.p.is_empty()),
                _ => true,
            }) && !matches!(&b.t, Tm::Call { dest, .. } if dest.l == l && dest.p.is_empty())
        });
        self.kept.insert((fi, l), ok);
        ok
    }
    /// an operand's value, with what has become known of the places it was copied from
    pub fn known(&mut self, o: &Op) -> V {
        let mut v = self.op(o);
        for a in self.aliases(o) {
            if let (Al::Val(l), K::I(..) | K::F(_)) = (&a, &v.k) {
                let x = get_path(self.f().st.get(l.o), &l.p);
                if let (K::I(..) | K::F(_), m) = (&x.k, Interp::meet(&v, &x)) {
                    if !m.is_bot() {
                        v = m;
                    }
                }
            }
        }
        v
    }
    /// a truth value put together on several paths (`a && b`): note what each outcome says
    fn per_outcome(&mut self, pl: &Place, fact: Fact) -> Fact {
        if !self.rngm || !matches!(self.p.ty(pl.t), TyK::Bool) {
            return fact;
        }
        let fi = self.f().fi;
        let f = &self.p.fns[fi];
        let n: usize = f.blocks.iter().map(|b| b.s.iter().filter(|s| matches!(s, St::Assign(q, _, _) if q.l == pl.l)).count()).sum();
        if n < 2 {
            return fact;
        }
        fn operands(b: &BF, al: &mut Vec<Al>) {
            match b {
                BF::Cmp(_, x, y) => {
                    al.extend(x.al.iter().cloned());
                    al.extend(y.al.iter().cloned());
                }
                BF::Not(x) => operands(x, al),
                BF::Fin(x) | BF::Nan(x) | BF::In(x, _, _) => al.extend(x.al.iter().cloned()),
                _ => {}
            }
        }
        let v = self.f().st.get(pl.l as u32).clone();
        let Some((lo, hi)) = v.int() else { return fact };
        let mut al = vec![];
        match &fact.b {
            Some(BF::Imp(_)) => return fact,
            Some(b) => operands(b, &mut al),
            None => {}
        }
        al.retain(|a| matches!(a, Al::Val(_)));
        let save = self.f().st.clone();
        let mut imp = vec![];
        for k in lo..=hi.min(lo + 1) {
            self.fr().st = save.clone();
            if fact.b.as_ref().map_or(true, |b| self.assume(b, k != 0)) {
                let rs = al.iter().map(|a| (a.clone(), get_path(self.f().st.get(a.loc().o), &a.loc().p).k_only())).collect();
                imp.push((k as u32, rs));
            }
        }
        self.fr().st = save;
        Fact { b: Some(BF::Imp(imp)), ..fact }
    }
    /// the result has just been assigned: note what holds of the arguments for each outcome
    fn decided(&mut self) {
        if self.f().cases.is_none() {
            return;
        }
        let fi = self.f().fi;
        let (nl, argc) = (self.p.fns[fi].locals.len(), self.p.fns[fi].argc);
        let v = self.f().st.get(0).clone();
        let outs: Vec<u32> = match &v.k {
            K::I(a, b) => (*a..=*b).take(2).map(|x| x as u32).collect(),
            K::E(e) => e.vs.keys().cloned().collect(),
            K::Bot => return,
            _ => vec![0, 1],
        };
        let b = self.f().st.facts.get(&0).and_then(|f| f.b.clone());
        let save = self.f().st.clone();
        for k in outs {
            self.fr().st = save.clone();
            if let Some(b) = &b {
                let ok = match b {
                    BF::Imp(x) => self.outcome(x, k),
                    _ if matches!(v.k, K::I(..)) => self.assume(b, k != 0),
                    _ => true,
                };
                if !ok {
                    continue;
                }
            }
            let mut ps = vec![];
            for l in 1..=argc {
                let kept = self.kept(fi, l);
                let x = self.f().st.get(l as u32).clone();
                ps.push(match &x.k {
                    _ if !kept => V::top(),
                    K::I(..) | K::F(_) => x,
                    K::R(_) => match &self.load(&x).k {
                        K::C(c) => V::i(c.lo, c.hi),
                        _ => V::top(),
                    },
                    _ => V::top(),
                });
            }
            let fr = self.frames.last_mut().unwrap();
            let n = fr.next;
            let es: Vec<V> = (0..n).map(|i| fr.st.get((nl + i) as u32).clone()).collect();
            match fr.cases.as_mut().unwrap().entry(k) {
                std::collections::btree_map::Entry::Vacant(e) => {
                    e.insert((ps, es));
                }
                std::collections::btree_map::Entry::Occupied(mut e) => {
                    let (p, q) = e.get_mut();
                    p.iter_mut().zip(ps.iter()).for_each(|(a, b)| *a = a.join(b));
                    q.iter_mut().zip(es.iter()).for_each(|(a, b)| *a = a.join(b));
                }
            }
        }
        self.fr().st = save;
    }
    // ---------- blocks ----------
    fn run_block(&mut self, b: usize, cond: &mut BTreeMap<usize, (Lab, BTreeSet<usize>)>) -> Vec<(usize, State)> {
        let p = self.p;
        let fi = self.f().fi;
        let blk = &p.fns[fi].blocks[b];
        self.fr().bb = b;
        self.fr().tix = 0;
        let pruned = self.f().cfg.pruned[b];
        let bb = b;
        for (si, s) in blk.s.iter().enumerate() {
            match s {
                St::Assign(pl, rv, at) => {
                    self.fr().at = at.clone();
                    if self.f().fin {
                        if let Rv::Bin(_, a, b) = rv {
                            let vs = vec![self.op(a), self.op(b)];
                            self.note((fi, bb, si), vs);
                        }
                        if let Rv::Use(a) = rv {
                            if a.place().is_none() {
                                let v = self.op(a);
                                self.note((fi, bb, si), vec![v]);
                            }
                        }
                    }
                    if self.grid.on {
                        if let Rv::Ref(false, q) = rv {
                            if q.p.is_empty() {
                                let cur = self.f().st.get(q.l as u32).clone();
                                if let Some(n) = self.grid.snap(p, fi, bb, q.l, &cur) {
                                    self.fr().st.set(q.l as u32, n);
                                }
                            }
                        }
                    }
                    let (v, fact) = self.rvalue(rv, pl);
                    if pl.p.is_empty() {
                        let me = pl.l as u32;
                        let old = self.f().st.pairs.clone();
                        // a counter moves on by a constant
                        let by = fact.off.iter().find(|(a, d, _)| self.lenm && *d == 1 && *a == Al::Val(Loc::base(me))).map(|x| x.2);
                        if pl.l == 0 && pruned {
                            self.err_store(v);
                        } else {
                            self.write(pl, v);
                        }
                        if let Some(c) = by {
                            self.fr().st.longer(me, c, &old);
                        }
                        let fact = self.per_outcome(pl, fact);
                        self.set_fact(pl.l, fact);
                        if pl.l == 0 {
                            self.decided();
                        }
                    } else {
                        self.write(pl, v);
                    }
                }
                St::SetD(pl, v) => {
                    let cur = self.read(pl);
                    let n = match &cur.k {
                        K::E(e) => V::ed(e.dl, vec![(*v, e.vs.get(v).cloned().unwrap_or_default())]),
                        _ => V::top(),
                    };
                    self.write(pl, n.with(cur.lab));
                }
                St::Dead(l) => {
                    let fr = self.fr();
                    fr.st.set(*l as u32, V::bot());
                    fr.st.touch(&Loc::base(*l as u32));
                }
            }
        }
        match &blk.t {
            Tm::Goto(t) => vec![(*t, self.f().st.clone())],
            Tm::Drop(_, t) => vec![(*t, self.f().st.clone())],
            Tm::Switch(o, ts, e) => self.switch(b, o, ts, *e, cond),
            Tm::Assert { o, exp, m, mo, t, at } => {
                self.fr().at = at.clone();
                let v = self.op(o);
                if m == "div0" || m == "rem0" {
                    // the divisor is the operand compared against zero
                    if let Some(pl) = o.place() {
                        if let Some(Fact { b: Some(BF::Cmp(_, x, _)), .. }) =
                            self.f().st.facts.get(&(pl.l as u32))
                        {
                            let x = x.v.clone();
                            let zero = match x.int() {
                                Some((a, b)) => a <= 0 && b >= 0,
                                None => !x.is_bot(),
                            };
                            if zero {
                                self.ev(m, format!("divisor {:?}", x.k_only()));
                            }
                        } else if v.cst() != Some(*exp as i128) {
                            self.ev(m, "divisor unknown".into());
                        }
                    }
                }
                // a fixed element of a list, or a fixed amount off a count
                if mo.len() == 2 && (m == "bounds" || m == "overflow:Sub") {
                    let (x, y) = (self.op(&mo[0]), self.op(&mo[1]));
                    if m == "bounds" || self.irange(self.op_ty(&mo[0])).map_or(true, |r| r.0 == 0) {
                        self.short(m == "bounds", &x, &y);
                    }
                    if m == "bounds" {
                        let lens = self.aliases(&mo[0]);
                        self.middle(&mo[1], &lens);
                    }
                }
                if self.asserts && v.cst() != Some(*exp as i128) {
                    self.ev("assert", m.clone());
                }
                if v.cst() == Some(!*exp as i128) {
                    return vec![];
                }
                if let Some(pl) = o.place() {
                    if pl.p.is_empty() {
                        if let Some(Fact { b: Some(b), .. }) =
                            self.f().st.facts.get(&(pl.l as u32)).cloned()
                        {
                            if !self.assume(&b, *exp) {
                                return vec![];
                            }
                        }
                    }
                }
                vec![(*t, self.f().st.clone())]
            }
            Tm::Call { f, args, dest, t, at } => {
                self.fr().at = at.clone();
                if self.asserts {
                    if let Some(c) = p.callee_of(f) {
                        let n = c.base.rsplit("::").next().unwrap();
                        if PANICKY.contains(&n) {
                            self.ev("panicky", n.to_string());
                        }
                    }
                }
                if self.f().fin {
                    let vs: Vec<V> = args.iter().map(|a| self.op(a)).collect();
                    let vs: Vec<V> = vs.iter().map(|v| self.strip(v)).collect();
                    self.note((fi, bb, usize::MAX), vs);
                }
                let r = self.call(f, args, dest, t.is_some());
                match (r, t) {
                    (Some((v, fact)), Some(t)) => {
                        if dest.p.is_empty() && dest.l == 0 && pruned {
                            self.err_store(v);
                        } else {
                            self.write(dest, v);
                            if dest.p.is_empty() {
                                self.set_fact(dest.l, fact);
                            }
                        }
                        if dest.p.is_empty() && dest.l == 0 {
                            self.decided();
                        }
                        vec![(*t, self.f().st.clone())]
                    }
                    _ => vec![],
                }
            }
            _ => vec![],
        }
    }
    fn note(&mut self, k: (usize, usize, usize), vs: Vec<V>) {
        let num = |v: &V| match v.k {
            K::Bot => V::bot(),
            K::I(..) | K::F(_) => v.k_only(),
            _ => V::top(),
        };
        match self.rec.get_mut(&k) {
            Some(w) => {
                for (a, b) in w.iter_mut().zip(vs.iter()) {
                    *a = a.join(&num(b));
                }
            }
            None => {
                let w = vs.iter().map(num).collect();
                self.rec.insert(k, w);
            }
        }
    }
    fn err_store(&mut self, v: V) {
        // `_0 = Err(..)` on an error-only path: the decision labels go to the
        // discriminant and the payload, not to the Ok value.
        let pc = self.f().pc;
        let v = match &v.k {
            K::E(e) => {
                let vs = e
                    .vs
                    .iter()
                    .map(|(k, x)| {
                        (*k, if *k == 1 { x.iter().map(|y| y.clone().with(pc)).collect() } else { x.clone() })
                    })
                    .collect();
                V { lab: v.lab, tok: v.tok, k: K::E(Rc::new(En { dl: e.dl.or(pc), vs })) }
            }
            _ => v.with(pc),
        };
        let fr = self.fr();
        fr.st.set(0, v);
        fr.st.touch(&Loc::base(0));
    }
    fn switch(
        &mut self,
        b: usize,
        o: &Op,
        ts: &[(u128, usize)],
        e: usize,
        cond: &mut BTreeMap<usize, (Lab, BTreeSet<usize>)>,
    ) -> Vec<(usize, State)> {
        let v = self.op(o);
        if v.is_bot() {
            return vec![];
        }
        let t = self.op_ty(o);
        let isbool = matches!(self.p.ty(t), TyK::Bool);
        let fact = o
            .place()
            .filter(|p| p.p.is_empty())
            .and_then(|p| self.f().st.facts.get(&(p.l as u32)).cloned())
            .unwrap_or_default();
        let al = self.aliases(o);
        let save = self.f().st.clone();
        let mut out: Vec<(usize, State)> = vec![];
        let mut seen: Vec<i128> = vec![];
        let conv = |me: &Self, x: u128| me.scalar(t, x).cst().unwrap_or(x as i128);
        // enum type of the discriminant source, to map values to variants
        for (x, tgt) in ts {
            let xv = conv(self, *x);
            seen.push(xv);
            if let Some((a, c)) = v.int() {
                if xv < a || xv > c {
                    continue;
                }
            }
            self.fr().st = save.clone();
            let mut ok = true;
            if let Some(d) = &fact.d {
                ok = self.keep_discr(d, o, |dv| dv == xv);
            }
            if ok && isbool {
                if let Some(bf) = &fact.b {
                    ok = self.assume(bf, xv != 0);
                }
            }
            ok = ok && self.apply(&al, &V::i(xv, xv));
            if ok {
                out.push((*tgt, self.f().st.clone()));
            }
        }
        // otherwise
        self.fr().st = save.clone();
        let mut ok = !matches!(self.p.fns[self.f().fi].blocks[e].t, Tm::Unreachable)
            || !self.p.fns[self.f().fi].blocks[e].s.is_empty();
        if let Some((a, c)) = v.int() {
            if c - a < 300 && (a..=c).all(|x| seen.contains(&x)) {
                ok = false;
            }
        }
        if ok {
            if let Some(d) = &fact.d {
                let s = seen.clone();
                ok = self.keep_discr(d, o, |dv| !s.contains(&dv));
            }
            if ok && isbool && seen == [0] {
                if let Some(bf) = &fact.b {
                    ok = self.assume(bf, true);
                }
                ok = ok && self.apply(&al, &V::i(1, 1));
            } else if ok {
                if let Some((mut a, mut c)) = v.int() {
                    while seen.contains(&a) {
                        a += 1;
                    }
                    while seen.contains(&c) {
                        c -= 1;
                    }
                    ok = a <= c && self.apply(&al, &V::i(a, c));
                }
            }
            if ok {
                out.push((e, self.f().st.clone()));
            }
        }
        self.fr().st = save;
        let ent = cond.entry(b).or_default();
        ent.0 = ent.0.or(v.all());
        for (t, _) in &out {
            ent.1.insert(*t);
        }
        out
    }
    fn keep_discr(&mut self, l: &Loc, _o: &Op, f: impl Fn(i128) -> bool) -> bool {
        // variant index -> discriminant: for every enum in this crate and std the
        // discriminant equals the index except Ordering (-1,0,1)
        let cur = get_path(self.f().st.get(l.o), &l.p);
        let ord = matches!(&cur.k, K::E(e) if e.vs.len() <= 3 && e.vs.values().all(|v| v.is_empty()))
            && self.is_ordering(l);
        self.keep_variants(l, |k| f(if ord { k as i128 - 1 } else { k as i128 }))
    }
    fn is_ordering(&self, l: &Loc) -> bool {
        let fr = self.f();
        let f = &self.p.fns[fr.fi];
        if (l.o as usize) < f.locals.len() && l.p.is_empty() {
            return self.p.adt_def(f.locals[l.o as usize].t) == Some("std::cmp::Ordering");
        }
        // nested: walk the type
        if (l.o as usize) < f.locals.len() {
            let mut t = f.locals[l.o as usize].t;
            for pj in &l.p {
                let n = match (self.p.ty(t), pj) {
                    (TyK::Tuple { ts }, Pj::F(i)) => ts.get(*i as usize).cloned(),
                    (TyK::Adt { vars: Some(vs), .. }, Pj::F(i)) => {
                        vs.first().and_then(|v| v.fs.get(*i as usize)).map(|f| f.t)
                    }
                    (TyK::Adt { vars: Some(vs), .. }, Pj::V(v, i)) => {
                        vs.get(*v as usize).and_then(|v| v.fs.get(*i as usize)).map(|f| f.t)
                    }
                    _ => None,
                };
                match n {
                    Some(n) => t = n,
                    None => return false,
                }
            }
            return self.p.adt_def(t) == Some("std::cmp::Ordering");
        }
        false
    }

    fn pcs(cfg: &Cfg, cond: &BTreeMap<usize, (Lab, BTreeSet<usize>)>, n: usize) -> Vec<Lab> {
        let mut pc = vec![Lab::NONE; n];
        loop {
            let mut ch = false;
            for &b in &cfg.rpo {
                let mut l = pc[b];
                for a in &cfg.cdep[b] {
                    l = l.or(pc[*a]);
                    if let Some((c, ts)) = cond.get(a) {
                        let live = ts.iter().filter(|t| !cfg.pruned[**t]).count();
                        if cfg.pruned[b] {
                            if ts.len() >= 2 {
                                l = l.or(*c);
                            }
                        } else if live >= 2 {
                            l = l.or(*c);
                        }
                    }
                }
                if l != pc[b] {
                    pc[b] = l;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        pc
    }

    /// analyse an entry point; arguments behind references become objects of their own
    pub fn analyze_root(&mut self, fi: usize, args: Vec<V>) -> Rc<Summary> {
        let nl = self.p.fns[fi].locals.len() as u32;
        let mut exts = vec![];
        let args = args
            .into_iter()
            .map(|a| match &a.k {
                K::R(r) if r.t.is_empty() && r.sub.is_none() => match &r.det {
                    Some(d) => {
                        exts.push((d.clone(), false));
                        V { lab: a.lab, tok: a.tok, k: K::R(Rc::new(Rf { t: vec![Loc::base(nl + exts.len() as u32 - 1)], det: None, sub: None })) }
                    }
                    None => a,
                },
                _ => a,
            })
            .collect();
        self.analyze(fi, args, exts)
    }
    pub fn analyze(&mut self, fi: usize, args: Vec<V>, exts: Vec<(V, bool)>) -> Rc<Summary> {
        let key = (fi, args, exts);
        if let Some(s) = self.memo.get(&key) {
            return s.clone();
        }
        let p = self.p;
        let f = &p.fns[fi];
        self.visited.insert(fi);
        // recursion is unfolded; deeper than that, anything may come back
        if self.stack.iter().filter(|x| **x == fi).count() > 3 || self.stack.len() > 60 {
            self.deep.insert(fi);
            let l = key.1.iter().chain(key.2.iter().map(|x| &x.0)).fold(Lab::NONE, |l, v| l.or(v.all()));
            return Rc::new(Summary {
                ret: self.top_of(f.locals[0].t).with(l),
                exts: key.2.iter().map(|(v, _)| V::top().with(v.all()).with(l)).collect(),
                evs: Rc::new(BTreeSet::new()),
                diverges: false,
                cases: vec![],
            });
        }
        self.analyses += 1;
        let cfg = match self.cfgs.get(&fi) {
            Some(c) => c.clone(),
            None => {
                let c = Rc::new(Cfg::build(p, f));
                self.cfgs.insert(fi, c.clone());
                c
            }
        };
        let nl = f.locals.len();
        let mut st = State::new(nl + key.2.len() + 4);
        st.rel = self.lenm;
        for (i, a) in key.1.iter().enumerate() {
            st.set(i as u32 + 1, a.clone());
        }
        let mut weak = vec![false; nl];
        for (i, (v, w)) in key.2.iter().enumerate() {
            st.set((nl + i) as u32, v.clone());
            weak.push(*w);
        }
        let next = key.2.len();
        self.stack.push(fi);
        self.frames.push(Frame {
            fi,
            cfg: cfg.clone(),
            nobj: (nl + next) as u32,
            weak,
            temps: HashMap::new(),
            st: st.clone(),
            pc: Lab::NONE,
            bb: 0,
            at: f.at.clone(),
            evs: BTreeSet::new(),
            sub_evs: vec![],
            tix: 0,
            fin: false,
            cases: None,
            next,
        });
        let n = f.blocks.len();
        let mut ins: Vec<Option<State>> = vec![None; n];
        ins[0] = Some(st.clone());
        let mut cond: BTreeMap<usize, (Lab, BTreeSet<usize>)> = BTreeMap::new();
        let mut pc = vec![Lab::NONE; n];
        let mut work: BTreeSet<usize> = BTreeSet::new();
        work.insert(0);
        let mut visits = vec![0usize; n];
        while let Some(ix) = work.pop_first() {
            let b = cfg.rpo[ix];
            visits[b] += 1;
            if visits[b] > 400 {
                panic!("no fixpoint in {} bb{}", f.name, b);
            }
            self.fr().st = ins[b].clone().unwrap();
            self.fr().pc = pc[b];
            let before = cond.get(&b).cloned();
            let outs = self.run_block(b, &mut cond);
            if cond.get(&b) != before.as_ref() {
                let np = Self::pcs(&cfg, &cond, n);
                for x in 0..n {
                    if np[x] != pc[x] && ins[x].is_some() {
                        work.insert(cfg.rpo_ix[x]);
                    }
                }
                pc = np;
            }
            for (t, s) in outs {
                let back = cfg.rpo_ix[t] <= ix;
                let ch = match &mut ins[t] {
                    None => {
                        ins[t] = Some(s);
                        true
                    }
                    Some(o) => o.join_from(&s, back && visits[t] > 3),
                };
                if ch {
                    work.insert(cfg.rpo_ix[t]);
                }
            }
        }
        // descending passes (recompute without widening), then a recording pass
        let rounds = if self.lenm && cfg.loop_head.iter().any(|x| *x) { 2 } else { 0 };
        for _ in 0..rounds {
            let mut nins: Vec<Option<State>> = vec![None; n];
            nins[0] = Some(st.clone());
            let mut ncond = BTreeMap::new();
            for &b in &cfg.rpo {
                let Some(s) = &ins[b] else { continue };
                // forward edges already improved in this pass
                self.fr().st = if cfg.loop_head[b] {
                    s.clone()
                } else {
                    match &nins[b] {
                        Some(x) => x.clone(),
                        None => continue,
                    }
                };
                self.fr().pc = pc[b];
                for (t, s) in self.run_block(b, &mut ncond) {
                    match &mut nins[t] {
                        None => nins[t] = Some(s),
                        Some(o) => {
                            o.join_from(&s, false);
                        }
                    }
                }
            }
            ins = nins;
            cond = ncond;
            pc = Self::pcs(&cfg, &cond, n);
        }
        self.fr().evs.clear();
        self.fr().sub_evs.clear();
        let mut ret = V::bot();
        let mut outs = vec![V::bot(); next];
        let mut diverges = true;
        let mut fcond = BTreeMap::new();
        self.fr().fin = self.record;
        if self.by_outcome(fi) {
            self.fr().cases = Some(BTreeMap::new());
        }
        for &b in &cfg.rpo {
            let Some(s) = &ins[b] else { continue };
            self.fr().st = s.clone();
            self.fr().pc = pc[b];
            self.reached.insert((fi, b));
            self.run_block(b, &mut fcond);
            if let Tm::Return = f.blocks[b].t {
                diverges = false;
                let s = &self.f().st;
                ret = ret.join(s.get(0));
                for i in 0..next {
                    outs[i] = outs[i].join(s.get((nl + i) as u32));
                }
            }
        }
        // decisions that only choose between success and an error return
        if p.is_result(f.locals[0].t) {
            let mut dl = Lab::NONE;
            for (a, (c, ts)) in &fcond {
                if !cfg.pruned[*a]
                    && ts.iter().any(|t| cfg.err_ret[*t])
                    && ts.iter().any(|t| !cfg.pruned[*t])
                {
                    dl = dl.or(*c).or(pc[*a]);
                }
            }
            if let K::E(e) = &ret.k {
                let mut e2 = (**e).clone();
                e2.dl = e2.dl.or(dl);
                ret = V { lab: ret.lab, tok: ret.tok, k: K::E(Rc::new(e2)) };
            }
        }
        if let K::Top = ret.k {
            ret = self.top_of(f.locals[0].t).with(ret.lab);
        }
        if self.debug.as_deref() == Some(f.name.as_str()) {
            eprintln!("== {} args {:?}\n   ret {:?}", f.name, key.1, ret);
            for &b in &cfg.rpo {
                if let Some(s) = &ins[b] {
                    for (l, d) in f.locals.iter().enumerate() {
                        if let Some(n) = &d.n {
                            let v = s.get(l as u32);
                            if !v.is_bot() && (std::env::var("ALLBB").is_ok() || matches!(f.blocks[b].t, Tm::Switch(..))) {
                                eprintln!("   bb{} pc{:?} {} = {:?}", b, pc[b].bits(), n, v);
                            }
                        }
                    }
                }
            }
        }
        let fr = self.frames.pop().unwrap();
        self.stack.pop();
        // references to dead locals must not escape
        let lim = nl as u32;
        // a promoted constant's locals live forever: follow the references
        fn follow(st: &State, v: &V, d: usize) -> V {
            if !v.has_refs() || d > 6 {
                return if v.has_refs() { V::top() } else { v.clone() };
            }
            v.map_refs(&mut |r| {
                let mut x = r.det.clone().unwrap_or(V::bot());
                for l in &r.t {
                    x = x.join(&follow(st, &get_path(st.get(l.o), &l.p), d + 1));
                }
                Rf { t: vec![], det: Some(x), sub: r.sub }
            })
        }
        if f.kind == "promoted" {
            let s = Rc::new(Summary { ret: follow(&fr.st, &ret, 0), exts: vec![], evs: Rc::new(BTreeSet::new()), diverges, cases: vec![] });
            self.memo.insert(key, s.clone());
            return s;
        }
        let clean = |v: V| {
            if !v.has_refs() {
                return v;
            }
            v.map_refs(&mut |r| {
                let mut n = r.clone();
                let mut lost = false;
                n.t.retain(|l| {
                    let ok = l.o >= lim && l.o < lim + next as u32;
                    if !ok {
                        lost = true;
                    }
                    ok
                });
                if lost {
                    let mut d = V::bot();
                    for l in &r.t {
                        if l.o < lim || l.o >= lim + next as u32 {
                            d = d.join(&V::top().with(get_path(fr.st.get(l.o), &l.p).all()));
                        }
                    }
                    n.det = Some(match &n.det {
                        Some(x) => x.join(&d),
                        None => d,
                    });
                }
                n
            })
        };
        let mut evs = fr.evs.clone();
        for s in &fr.sub_evs {
            evs.extend(s.iter().cloned());
        }
        let s = Rc::new(Summary {
            ret: clean(ret),
            exts: outs.into_iter().map(clean).collect(),
            evs: Rc::new(evs),
            diverges,
            cases: fr.cases.into_iter().flatten().map(|(k, (a, b))| (k, a, b)).collect(),
        });
        self.memo.insert(key, s.clone());
        s
    }

    // ---------- calls ----------
    pub fn temp(&mut self, v: V) -> u32 {
        let fr = self.fr();
        let k = (fr.bb, fr.tix);
        fr.tix += 1;
        let o = match fr.temps.get(&k) {
            Some(o) => *o,
            None => {
                let o = fr.nobj;
                fr.nobj += 1;
                while fr.weak.len() <= o as usize {
                    fr.weak.push(false);
                }
                fr.temps.insert(k, o);
                o
            }
        };
        fr.st.set(o, v);
        fr.st.touch(&Loc::base(o));
        o
    }
    pub fn call_local(&mut self, fi: usize, args: Vec<V>) -> Option<V> {
        self.call_ops(fi, args, &[]).map(|x| x.0)
    }
    /// `ops`: the operands the arguments came from, if they are known one by one
    fn call_ops(&mut self, fi: usize, args: Vec<V>, ops: &[Op]) -> Option<(V, Fact)> {
        let p = self.p;
        let name = &p.fns[fi].name;
        assert_eq!(args.len(), p.fns[fi].argc, "argument count of {}", name);
        if self.scn.watch.contains(name) {
            let vals: Vec<V> = args.iter().map(|a| self.strip(a)).collect();
            match self.watched.get_mut(name) {
                Some(w) => {
                    for (x, y) in w.iter_mut().zip(vals.iter()) {
                        *x = x.join(y);
                    }
                }
                None => {
                    self.watched.insert(name.clone(), vals);
                }
            }
        }
        match self.scn.force.get(name).cloned() {
            Some(Force::Ret(v)) => {
                self.forced.insert(name.clone());
                return Some((v, Fact::default()));
            }
            Some(Force::ByLab(l, a, b)) => {
                self.forced.insert(name.clone());
                let d = args.iter().fold(Lab::NONE, |d, v| d.or(self.deep(v)));
                return Some((if !d.and(l).is_empty() { a } else { b }, Fact::default()));
            }
            _ => {}
        }
        // marshal
        let nl = p.fns[fi].locals.len() as u32;
        let mut groups: Vec<Vec<Loc>> = vec![];
        let mut vals: Vec<(V, bool)> = vec![];
        let mut margs = vec![];
        {
            let fr = self.frames.last().unwrap();
            fn go(
                v: &V,
                fr: &Frame,
                groups: &mut Vec<Vec<Loc>>,
                vals: &mut Vec<(V, bool)>,
                nl: u32,
            ) -> V {
                if !v.has_refs() {
                    return v.clone();
                }
                v.map_refs(&mut |r| {
                    let mut n = r.clone();
                    if r.t.is_empty() {
                        return n;
                    }
                    let gi = match groups.iter().position(|g| *g == r.t) {
                        Some(i) => i,
                        None => {
                            let i = groups.len();
                            groups.push(r.t.clone());
                            vals.push((V::bot(), false));
                            let mut x = V::bot();
                            for l in &r.t {
                                x = x.join(&get_path(fr.st.get(l.o), &l.p));
                            }
                            let strong = r.t.len() == 1
                                && !r.t[0].has_el()
                                && !fr.weak.get(r.t[0].o as usize).cloned().unwrap_or(false);
                            let x = go(&x, fr, groups, vals, nl);
                            vals[i] = (x, !strong);
                            i
                        }
                    };
                    n.t = vec![Loc::base(nl + gi as u32)];
                    n
                })
            }
            for a in &args {
                margs.push(go(a, fr, &mut groups, &mut vals, nl));
            }
        }
        let before: Vec<V> = vals.iter().map(|v| v.0.clone()).collect();
        let s = self.analyze(fi, margs, vals.clone());
        let rs = s.evs.clone();
        if !rs.is_empty() {
            self.fr().sub_evs.push(rs);
        }
        if s.diverges {
            return None;
        }
        let unm = |v: &V| -> V {
            if !v.has_refs() {
                return v.clone();
            }
            v.map_refs(&mut |r| {
                let mut n = r.clone();
                let mut t = vec![];
                for l in &r.t {
                    if l.o < nl {
                        continue;
                    }
                    if let Some(g) = groups.get((l.o - nl) as usize) {
                        for b in g {
                            let mut x = b.clone();
                            x.p.extend(l.p.iter().cloned());
                            if !t.contains(&x) {
                                t.push(x);
                            }
                        }
                    }
                }
                t.sort();
                n.t = t;
                n
            })
        };
        for (i, o) in s.exts.iter().enumerate() {
            if *o != before[i] {
                let mut v = unm(o);
                let w = vals[i].1;
                if self.grid.on {
                    let (g, b) = (self.f().fi, self.f().bb);
                    v = self.grid.wrap(p, g, b, fi, &v);
                }
                let fr = self.fr();
                let v = v.with(fr.pc);
                for l in &groups[i] {
                    let n = set_path(fr.st.get(l.o), &l.p, &v, w);
                    fr.st.set(l.o, n);
                    fr.st.touch(l);
                }
            }
        }
        let mut ret = unm(&s.ret);
        if self.grid.on {
            let (g, b) = (self.f().fi, self.f().bb);
            let f = &p.fns[fi];
            if f.derived && name.ends_with("::clone") && args.len() == 1 && self.grid.is_grid(f.locals[0].t) {
                ret = ret.tok(self.strip(&args[0]).tok);
            }
            let mut bad = BTreeSet::new();
            ret = self.grid.seal(p, f.locals[0].t, &ret, &mut bad, 0);
            ret = self.grid.wrap(p, g, b, fi, &ret);
        }
        if let Some(fc) = self.scn.force.get(name).cloned() {
            self.forced.insert(name.clone());
            ret = match fc {
                Force::Variant(k) => match &ret.k {
                    K::E(e) if e.vs.contains_key(&k) => V {
                        lab: ret.lab,
                        tok: ret.tok,
                        k: K::E(Rc::new(En { dl: e.dl, vs: [(k, e.vs[&k].clone())].into_iter().collect() })),
                    },
                    _ => {
                        let t = p.fns[fi].locals[0].t;
                        match &self.top_of(t).k {
                            K::E(e) => V {
                                lab: ret.lab,
                        tok: ret.tok,
                                k: K::E(Rc::new(En {
                                    dl: e.dl,
                                    vs: [(k, e.vs.get(&k).cloned().unwrap_or_default())].into_iter().collect(),
                                })),
                            },
                            _ => ret,
                        }
                    }
                },
                Force::Ret(v) => v,
                Force::ByLab(_, _, v) => v,
                Force::Label(l) => ret.with(l),
            };
        }
        // what each outcome says about the arguments
        let mut fact = Fact::default();
        if self.rngm {
            let mut yes = vec![];
            if let Some(c) = s.cases.iter().find(|c| c.0 == 1) {
                for (g, v) in groups.iter().zip(c.2.iter()) {
                    if g.len() == 1 && g[0].p.is_empty() {
                        yes.push((g[0].o, v.clone()));
                    }
                }
            }
            self.yes = yes;
        }
        if ops.len() == args.len() && !s.cases.is_empty() {
            let mut imp = vec![];
            // nothing the function could have changed after deciding
            let still = ops.iter().zip(args.iter()).all(|(o, v)| !v.has_refs() || matches!(p.ty(self.op_ty(o)), TyK::Ref { m: false, .. }));
            for (k, ps, es) in &s.cases {
                let mut rs: Vec<(Al, V)> = vec![];
                for (o, x) in ops.iter().zip(ps.iter()) {
                    if let K::Top = x.k {
                        continue;
                    }
                    let is_ref = matches!(p.ty(self.op_ty(o)), TyK::Ref { .. });
                    let al = if is_ref { self.len_refs(o) } else { self.aliases(o) };
                    rs.extend(al.into_iter().map(|a| (a, x.k_only())));
                }
                for (i, x) in es.iter().enumerate().filter(|_| still) {
                    if !vals[i].1 && groups[i].len() == 1 && *x != s.exts[i] && !x.has_refs() {
                        rs.push((Al::Val(groups[i][0].clone()), x.clone()));
                    }
                }
                imp.push((*k, rs));
            }
            if imp.iter().any(|e| !e.1.is_empty()) {
                fact.b = Some(BF::Imp(imp));
            }
        }
        Some((ret, fact))
    }
    /// run a closure / fn item value on the given (untupled) arguments
    pub fn call_clo(&mut self, c: &V, args: Vec<V>) -> Option<V> {
        let (c2, viaref) = match &c.k {
            K::R(_) => (self.strip(c), Some(self.peel(c))),
            _ => (c.clone(), None),
        };
        if let K::Clo(t, _) = &c2.k {
            match self.p.ty(*t).clone() {
                TyK::Closure { def, .. } => {
                    if let Some(&fi) = self.p.by_name.get(&def) {
                        let envt = self.p.fns[fi].locals[1].t;
                        let env = if matches!(self.p.ty(envt), TyK::Ref { .. }) {
                            match viaref {
                                Some(r) => r,
                                None => {
                                    let o = self.temp(c2.clone());
                                    V::r(vec![Loc::base(o)])
                                }
                            }
                        } else {
                            c2.clone()
                        };
                        let mut a = vec![env];
                        a.extend(args);
                        return self.call_local(fi, a);
                    }
                }
                TyK::FnDef { callee } => {
                    if let Some(&fi) = self.p.by_name.get(&callee.path) {
                        return self.call_local(fi, args);
                    }
                    if let Some(v) = self.ctor(&callee, &args) {
                        return Some(v);
                    }
                    let r = self.model(&callee, &args, &[], usize::MAX);
                    return match r {
                        crate::models::M::Val(v, _) => Some(v),
                        crate::models::M::Div => None,
                        crate::models::M::No => {
                            let l = args.iter().fold(Lab::NONE, |l, v| l.or(self.deep(v)));
                            Some(V::top().with(l))
                        }
                    };
                }
                _ => {}
            }
        }
        // unknown callee: anything reachable may change
        let l = args.iter().chain([c]).fold(Lab::NONE, |l, v| l.or(self.deep(v)));
        Some(V::top().with(l))
    }
    fn ctor(&self, c: &Callee, args: &[V]) -> Option<V> {
        let (par, last) = c.path.rsplit_once("::")?;
        match (par, last) {
            ("std::option::Option", "Some") => return Some(V::some(args[0].clone())),
            ("std::result::Result", "Ok") => return Some(V::e(vec![(0, vec![args[0].clone()])])),
            ("std::result::Result", "Err") => return Some(V::e(vec![(1, vec![args[0].clone()])])),
            _ => {}
        }
        for t in &self.p.types {
            if let TyK::Adt { def, vars: Some(vs), kind, .. } = &t.k {
                if def == par && kind == "enum" {
                    if let Some(i) = vs.iter().position(|v| v.n == last) {
                        return Some(V::e(vec![(i as u32, args.to_vec())]));
                    }
                }
                if *def == c.path && kind == "struct" {
                    return Some(V::s(args.to_vec()));
                }
            }
        }
        None
    }
    fn call(&mut self, f: &Op, args: &[Op], dest: &Place, returns: bool) -> Option<(V, Fact)> {
        let vals: Vec<V> = args.iter().map(|a| self.op(a)).collect();
        let callee = match f {
            Op::C(k) => k.callee.clone(),
            _ => None,
        };
        let Some(c) = callee else {
            let fv = self.op(f);
            return self.call_clo(&fv, vals).map(|v| (v, Fact::default()));
        };
        if !returns {
            self.ev("panic-call", c.path.clone());
            return None;
        }
        if let Some(&fi) = self.p.by_name.get(&c.path) {
            if self.p.fns[fi].derived && c.base == "std::clone::Clone::clone" {
                let v = self.load(&vals[0]);
                return Some((v, Fact::default()));
            }
            let mut vals = vals;
            let mut spread = false;
            if self.p.fns[fi].kind == "closure" && vals.len() == 2 {
                // a direct `f(..)` on a closure: the argument tuple is spread over the parameters
                if let K::S(t) = &vals[1].k {
                    let t: Vec<V> = t.iter().map(|x| x.clone().with(vals[1].lab)).collect();
                    vals.truncate(1);
                    vals.extend(t);
                    spread = true;
                }
            }
            if !spread {
                return self.call_ops(fi, vals, args);
            }
            // the argument tuple was built from these
            let mut ops = vec![];
            if let (true, Some(t)) = (self.rngm, args[1].place()) {
                let (g, b) = (self.f().fi, self.f().bb);
                for s in &self.p.fns[g].blocks[b].s {
                    if let St::Assign(pl, Rv::Agg(Ak::Tuple, os), _) = s {
                        if pl.l == t.l && pl.p.is_empty() && t.p.is_empty() && os.len() + 1 == vals.len() {
                            ops = std::iter::once(&args[0]).chain(os).cloned().collect();
                        }
                    }
                }
            }
            return self.call_ops(fi, vals, &ops);
        }
        if let Some(v) = self.ctor(&c, &vals) {
            return Some((v, Fact::default()));
        }
        match self.model(&c, &vals, args, dest.t) {
            crate::models::M::Val(v, f) => {
                let v = if let K::Top = v.k { self.top_of(dest.t).with(v.lab) } else { v };
                let f = if f.b.is_none() { Fact { b: self.carried(&c, args), ..f } } else { f };
                Some((v, f))
            }
            crate::models::M::Div => None,
            crate::models::M::No => {
                *self.unmodeled.entry(c.path.clone()).or_default() += 1;
                Some((self.havoc(&vals, args, dest.t), Fact::default()))
            }
        }
    }
    /// what is known per outcome of a call stays known of the outcome of `?`, `ok_or`, ...
    fn carried(&self, c: &Callee, args: &[Op]) -> Option<BF> {
        let name = c.base.rsplit("::").next().unwrap_or("");
        if !matches!(name, "branch" | "map_err" | "ok_or" | "ok_or_else" | "ok" | "err" | "is_ok" | "is_err" | "is_some" | "is_none" | "as_ref" | "as_mut" | "copied" | "cloned" | "map" | "not") {
            return None;
        }
        let pl = args.first()?.place()?;
        if !pl.p.is_empty() {
            return None;
        }
        let TyK::Adt { def, .. } = self.p.ty(pl.t) else { return None };
        let opt = def.ends_with("option::Option");
        if !opt && !def.ends_with("result::Result") {
            return None;
        }
        let Some(Fact { b: Some(BF::Imp(v)), .. }) = self.f().st.facts.get(&(pl.l as u32)) else { return None };
        let swap = match name {
            "branch" | "ok_or" | "ok_or_else" => opt,
            "ok" => true,
            "map_err" | "copied" | "cloned" | "map" | "as_ref" | "as_mut" => false,
            _ => return None,
        };
        Some(BF::Imp(v.iter().map(|(k, r)| (if swap { 1 - k } else { *k }, r.clone())).collect()))
    }
    /// unknown external function: result depends on everything, &mut pointees change
    pub fn havoc(&mut self, vals: &[V], args: &[Op], dt: usize) -> V {
        let l = vals.iter().fold(Lab::NONE, |l, v| l.or(self.deep(v)));
        let mut refs: Vec<Loc> = vec![];
        for (i, v) in vals.iter().enumerate() {
            let mutref = args.get(i).map_or(true, |o| {
                matches!(self.p.ty(self.op_ty(o)), TyK::Ref { m: true, .. } | TyK::Ptr { .. } | TyK::Param | TyK::Other)
            });
            if let K::R(r) = &v.k {
                refs.extend(r.t.iter().cloned());
                if mutref {
                    let pt = args.get(i).and_then(|o| self.pointee_ty(self.op_ty(o)));
                    let t = pt.map_or(V::top(), |t| self.top_of(t)).with(l);
                    self.store(v, t, true);
                }
            }
        }
        let mut r = self.top_of(dt).with(l);
        if matches!(self.p.ty(dt), TyK::Ref { .. }) {
            refs.sort();
            refs.dedup();
            if let K::R(x) = &r.k {
                let mut n = (**x).clone();
                n.sub = Some((0, LMAX));
                let _ = refs;
                r = V { lab: r.lab, tok: r.tok, k: K::R(Rc::new(n)) };
            }
        }
        r
    }
}

fn own_lab(v: &V, p: &[Pj]) -> Lab {
    // label stored on the node itself (excluding ancestors)
    if p.is_empty() {
        return v.lab;
    }
    let mut c = v.clone();
    c.lab = Lab::NONE;
    let x = get_path(&c, &p[..1]);
    own_lab(&x, &p[1..])
}
impl V {
    pub fn k_only(&self) -> V {
        V { lab: Lab::NONE, tok: UNK, k: self.k.clone() }
    }
}

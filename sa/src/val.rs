//! Abstract values: label sets, intervals, shapes, references.
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Lab(pub [u64; 4]);
impl Lab {
    pub const NONE: Lab = Lab([0; 4]);
    pub fn one(i: usize) -> Lab {
        let mut l = Lab::NONE;
        l.0[i / 64] |= 1 << (i % 64);
        l
    }
    pub fn or(&self, o: Lab) -> Lab {
        Lab([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
    pub fn and(&self, o: Lab) -> Lab {
        Lab([self.0[0] & o.0[0], self.0[1] & o.0[1], self.0[2] & o.0[2], self.0[3] & o.0[3]])
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn bits(&self) -> Vec<usize> {
        (0..256).filter(|i| self.has(*i)).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Pj {
    F(u32),
    V(u32, u32),
    El,
}
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Loc {
    pub o: u32,
    pub p: Vec<Pj>,
}
impl Loc {
    pub fn base(o: u32) -> Loc {
        Loc { o, p: vec![] }
    }
    pub fn child(&self, p: Pj) -> Loc {
        let mut l = self.clone();
        l.p.push(p);
        l
    }
    pub fn has_el(&self) -> bool {
        self.p.iter().any(|p| *p == Pj::El)
    }
    pub fn overlaps(&self, o: &Loc) -> bool {
        self.o == o.o && self.p.iter().zip(o.p.iter()).all(|(a, b)| a == b)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Fl {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    /// known bounds by the configured tempo range (S24): GE | LE, for the numeric part
    pub rel: u8,
}
/// at least the configured minimum tempo
pub const GE: u8 = 1;
/// at most the configured maximum tempo
pub const LE: u8 = 2;
/// the same two, or exactly zero
pub const OR0: u8 = 12;
impl PartialEq for Fl {
    fn eq(&self, o: &Fl) -> bool {
        self.lo == o.lo && self.hi == o.hi && self.nan == o.nan && self.rel == o.rel
    }
}
impl Eq for Fl {}
impl std::hash::Hash for Fl {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.lo + 0.0).to_bits().hash(h);
        (self.hi + 0.0).to_bits().hash(h);
        self.nan.hash(h);
        self.rel.hash(h);
    }
}
pub const INF: f64 = f64::INFINITY;
impl Fl {
    pub const TOP: Fl = Fl { lo: -INF, hi: INF, nan: true, rel: 0 };
    /// numeric part empty
    pub fn empty(&self) -> bool {
        !(self.lo <= self.hi)
    }
    pub fn new(lo: f64, hi: f64, nan: bool) -> Fl {
        if lo.is_nan() || hi.is_nan() {
            return Fl { lo: -INF, hi: INF, nan: true, rel: 0 };
        }
        if !(lo <= hi) {
            Fl { lo: INF, hi: -INF, nan, rel: 0 }
        } else {
            Fl { lo: lo + 0.0, hi: hi + 0.0, nan, rel: 0 }
        }
    }
    pub fn c(x: f64) -> Fl {
        if x.is_nan() {
            Fl { lo: INF, hi: -INF, nan: true, rel: 0 }
        } else {
            Fl::new(x, x, false)
        }
    }
    pub fn join(&self, o: &Fl) -> Fl {
        Fl { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi), nan: self.nan || o.nan, rel: self.rel_join(o) }
    }
    fn rel_join(&self, o: &Fl) -> u8 {
        if self.rel | o.rel == 0 {
            0
        } else if self.empty() {
            o.rel
        } else if o.empty() {
            self.rel
        } else {
            self.rels() & o.rels()
        }
    }
    /// with what follows from them
    pub fn rels(&self) -> u8 {
        self.rel | (self.rel & (GE | LE)) << 2 | if self.lo == 0.0 && self.hi == 0.0 { OR0 } else { 0 }
    }
    pub fn has0(&self) -> bool {
        self.lo <= 0.0 && self.hi >= 0.0
    }
    pub fn inf(&self) -> bool {
        !self.empty() && (self.lo == -INF || self.hi == INF)
    }
    /// outward rounding for values that went through libm
    pub fn slop(&self) -> Fl {
        let f = |x: f64, up: bool| {
            if x == 0.0 || x.is_infinite() {
                x
            } else {
                let d = x.abs() * 1e-6;
                if up {
                    x + d
                } else {
                    x - d
                }
            }
        };
        Fl { lo: f(self.lo, false), hi: f(self.hi, true), nan: self.nan, rel: 0 }
    }
    pub fn round_to(&self, bits: u32) -> Fl {
        if bits == 32 && !self.empty() {
            Fl { lo: (self.lo as f32) as f64, hi: (self.hi as f32) as f64, nan: self.nan, rel: self.rel }
        } else {
            *self
        }
    }
    pub fn add(&self, o: &Fl) -> Fl {
        let nan = self.nan
            || o.nan
            || (self.hi == INF && o.lo == -INF)
            || (self.lo == -INF && o.hi == INF);
        if self.empty() || o.empty() {
            return Fl { lo: INF, hi: -INF, nan, rel: 0 };
        }
        let lo = if self.lo == -INF || o.lo == -INF { -INF } else { self.lo + o.lo };
        let hi = if self.hi == INF || o.hi == INF { INF } else { self.hi + o.hi };
        Fl { rel: self.rel_shift(o) | o.rel_shift(self), ..Fl::new(lo, hi, nan) }
    }
    pub fn neg(&self) -> Fl {
        if self.empty() {
            return *self;
        }
        Fl::new(-self.hi, -self.lo, self.nan)
    }
    pub fn mul(&self, o: &Fl) -> Fl {
        let nan = self.nan || o.nan || (self.has0() && o.inf()) || (o.has0() && self.inf());
        if self.empty() || o.empty() {
            return Fl { lo: INF, hi: -INF, nan, rel: 0 };
        }
        let m = |a: f64, b: f64| if a == 0.0 || b == 0.0 { 0.0 } else { a * b };
        let c = [m(self.lo, o.lo), m(self.lo, o.hi), m(self.hi, o.lo), m(self.hi, o.hi)];
        Fl {
            rel: self.rel_scale(o) | o.rel_scale(self),
            ..Fl::new(
                c.iter().cloned().fold(INF, f64::min),
                c.iter().cloned().fold(-INF, f64::max),
                nan,
            )
        }
    }
    pub fn div(&self, o: &Fl) -> Fl {
        let mut nan = self.nan || o.nan || (self.inf() && o.inf());
        if self.empty() || o.empty() {
            return Fl { lo: INF, hi: -INF, nan, rel: 0 };
        }
        if o.has0() {
            nan = nan || self.has0();
            // -0.0 cannot be told from 0.0 here: a zero divisor gives either sign of infinity,
            // unless the divisor is provably a sum/abs; keep it simple and sound.
            if o.lo >= 0.0 && self.lo >= 0.0 {
                let lo = if o.hi == INF { 0.0 } else { self.lo / o.hi };
                // divisor could be -0.0 only if negative zero was produced
                return Fl::new(if o.lo == 0.0 { lo.min(0.0) } else { lo }, INF, nan);
            }
            return Fl::new(-INF, INF, nan);
        }
        let q = |a: f64, b: f64| {
            if a.is_infinite() && b.is_infinite() {
                if (a > 0.0) == (b > 0.0) {
                    1.0
                } else {
                    -1.0
                }
            } else {
                a / b
            }
        };
        let mut c = vec![q(self.lo, o.lo), q(self.lo, o.hi), q(self.hi, o.lo), q(self.hi, o.hi)];
        if o.inf() {
            c.push(0.0);
        }
        if self.inf() && o.inf() {
            let pos = self.hi == INF && o.hi == INF || self.lo == -INF && o.lo == -INF;
            let neg = self.hi == INF && o.lo == -INF || self.lo == -INF && o.hi == INF;
            if pos {
                c.push(INF);
            }
            if neg {
                c.push(-INF);
            }
        }
        let rel = if self.rel == 0 || self.lo < 0.0 {
            0
        } else if o.lo >= 1.0 {
            self.rel & LE
        } else if o.lo > 0.0 && o.hi <= 1.0 {
            self.rel & GE
        } else {
            0
        };
        Fl {
            rel,
            ..Fl::new(
                c.iter().cloned().fold(INF, f64::min),
                c.iter().cloned().fold(-INF, f64::max),
                nan,
            )
        }
    }
    /// rounding is monotone: a sum with something not negative is no smaller, and so on
    fn rel_shift(&self, o: &Fl) -> u8 {
        if o.lo >= 0.0 {
            self.rel & GE
        } else if o.hi <= 0.0 {
            self.rel & LE
        } else {
            0
        }
    }
    fn rel_scale(&self, o: &Fl) -> u8 {
        if self.rel == 0 || self.lo < 0.0 {
            0
        } else if o.lo >= 1.0 {
            self.rel & GE
        } else if o.lo >= 0.0 && o.hi <= 1.0 {
            self.rel & LE
        } else {
            0
        }
    }
    /// f32::max semantics (NaN operands ignored)
    pub fn fmax(&self, o: &Fl) -> Fl {
        let mut r = if self.empty() || o.empty() {
            Fl { lo: INF, hi: -INF, nan: false, rel: 0 }
        } else {
            Fl::new(self.lo.max(o.lo), self.hi.max(o.hi), false)
        };
        if self.nan {
            r = r.join(&Fl { nan: false, ..*o });
        }
        if o.nan {
            r = r.join(&Fl { nan: false, ..*self });
        }
        r.nan = self.nan && o.nan;
        r.rel = self.rel_pick(o, GE);
        r
    }
    pub fn fmin(&self, o: &Fl) -> Fl {
        let mut r = self.neg().fmax(&o.neg()).neg();
        r.rel = self.rel_pick(o, LE);
        r
    }
    /// one operand is the result; `b` holds as soon as one of them (certainly a number) has it
    fn rel_pick(&self, o: &Fl, b: u8) -> u8 {
        if self.empty() || o.empty() {
            return self.rel_join(o);
        }
        let one = |x: &Fl| if x.nan { 0 } else { x.rel & b };
        (self.rel & o.rel) | one(self) | one(o)
    }
    pub fn abs(&self) -> Fl {
        if self.empty() {
            return *self;
        }
        if self.lo >= 0.0 {
            *self
        } else if self.hi <= 0.0 {
            Fl::new(-self.hi, -self.lo, self.nan)
        } else {
            Fl::new(0.0, self.hi.max(-self.lo), self.nan)
        }
    }
    pub fn mono(&self, f: impl Fn(f64) -> f64) -> Fl {
        if self.empty() {
            return *self;
        }
        Fl::new(f(self.lo), f(self.hi), self.nan)
    }
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct En {
    pub dl: Lab,
    pub vs: BTreeMap<u32, Vec<V>>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Rf {
    pub t: Vec<Loc>,
    pub det: Option<V>,
    pub sub: Option<(i128, i128)>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Co {
    pub el: V,
    pub lo: i128,
    pub hi: i128,
    /// elements are in ascending order (typestate, see S16)
    pub asc: bool,
    /// the order the elements are known to be in (see `ocode`); 0: none
    pub ord: u32,
    /// enum variants (as a bit mask) some element certainly is
    pub must: u64,
    /// exact contents, when this is a string constant
    pub s: Option<Rc<str>>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Itr {
    pub el: V,
    pub lo: i128,
    pub hi: i128,
    pub asc: bool,
    pub ord: u32,
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub enum K {
    Bot,
    Top,
    I(i128, i128),
    F(Fl),
    S(Rc<Vec<V>>),
    E(Rc<En>),
    R(Rc<Rf>),
    C(Rc<Co>),
    It(Rc<Itr>),
    Clo(usize, Rc<Vec<V>>),
}
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct V {
    pub lab: Lab,
    /// provenance: the set of origins this value is an unmodified copy of;
    /// UNK is set when it is (or may be) computed
    pub tok: u128,
    pub k: K,
}
pub const UNK: u128 = 1 << 127;
pub const LMAX: i128 = 1 << 40;

impl V {
    pub fn new(k: K) -> V {
        V { lab: Lab::NONE, tok: UNK, k }
    }
    pub const fn bot() -> V {
        V { lab: Lab([0; 4]), tok: 0, k: K::Bot }
    }
    pub fn top() -> V {
        V::new(K::Top)
    }
    pub fn i(lo: i128, hi: i128) -> V {
        if lo > hi { V::bot() } else { V::new(K::I(lo, hi)) }
    }
    pub fn b(x: bool) -> V {
        V::i(x as i128, x as i128)
    }
    pub fn boolt() -> V {
        V::i(0, 1)
    }
    pub fn f(f: Fl) -> V {
        V::new(K::F(f))
    }
    pub fn unit() -> V {
        V::new(K::S(Rc::new(vec![])))
    }
    pub fn s(v: Vec<V>) -> V {
        V::new(K::S(Rc::new(v)))
    }
    pub fn e(vs: Vec<(u32, Vec<V>)>) -> V {
        V::new(K::E(Rc::new(En { dl: Lab::NONE, vs: vs.into_iter().collect() })))
    }
    pub fn ed(dl: Lab, vs: Vec<(u32, Vec<V>)>) -> V {
        V::new(K::E(Rc::new(En { dl, vs: vs.into_iter().collect() })))
    }
    pub fn none() -> V {
        V::e(vec![(0, vec![])])
    }
    pub fn some(v: V) -> V {
        V::e(vec![(1, vec![v])])
    }
    /// Option that may be either; discriminant labels `dl`
    pub fn opt(v: V, dl: Lab) -> V {
        V::ed(dl, vec![(0, vec![]), (1, vec![v])])
    }
    pub fn c(el: V, lo: i128, hi: i128) -> V {
        V::new(K::C(Rc::new(Co { el, lo: lo.max(0), hi: hi.min(LMAX), asc: hi <= 1, ord: 0, must: 0, s: None })))
    }
    pub fn it(el: V, lo: i128, hi: i128) -> V {
        V::new(K::It(Rc::new(Itr { el, lo: lo.max(0), hi: hi.min(LMAX), asc: false, ord: 0 })))
    }
    pub fn r(t: Vec<Loc>) -> V {
        V::new(K::R(Rc::new(Rf { t, det: None, sub: None })))
    }
    pub fn rdet(v: V) -> V {
        V::new(K::R(Rc::new(Rf { t: vec![], det: Some(v), sub: None })))
    }
    pub fn is_bot(&self) -> bool {
        matches!(self.k, K::Bot)
    }
    pub fn with(mut self, l: Lab) -> V {
        self.lab = self.lab.or(l);
        self
    }
    pub fn tok(mut self, t: u128) -> V {
        self.tok = t;
        self
    }
    /// same node, other contents (keeps label and provenance)
    pub fn re(&self, k: K) -> V {
        V { lab: self.lab, tok: self.tok, k }
    }
    pub fn int(&self) -> Option<(i128, i128)> {
        match self.k {
            K::I(a, b) => Some((a, b)),
            _ => None,
        }
    }
    pub fn cst(&self) -> Option<i128> {
        match self.k {
            K::I(a, b) if a == b => Some(a),
            _ => None,
        }
    }
    pub fn fl(&self) -> Option<Fl> {
        match self.k {
            K::F(f) => Some(f),
            _ => None,
        }
    }
    /// Union of every label in the tree (not through references with targets).
    pub fn all(&self) -> Lab {
        let mut l = self.lab;
        match &self.k {
            K::S(v) | K::Clo(_, v) => v.iter().for_each(|x| l = l.or(x.all())),
            K::E(e) => {
                l = l.or(e.dl);
                e.vs.values().flatten().for_each(|x| l = l.or(x.all()))
            }
            K::R(r) => {
                if let Some(d) = &r.det {
                    l = l.or(d.all())
                }
            }
            K::C(c) => l = l.or(c.el.all()),
            K::It(c) => l = l.or(c.el.all()),
            _ => {}
        }
        l
    }
    pub fn dlab(&self) -> Lab {
        match &self.k {
            K::E(e) => self.lab.or(e.dl),
            _ => self.lab,
        }
    }
    pub fn locs(&self, out: &mut Vec<Loc>) {
        match &self.k {
            K::S(v) | K::Clo(_, v) => v.iter().for_each(|x| x.locs(out)),
            K::E(e) => e.vs.values().flatten().for_each(|x| x.locs(out)),
            K::R(r) => {
                out.extend(r.t.iter().cloned());
                if let Some(d) = &r.det {
                    d.locs(out)
                }
            }
            K::C(c) => c.el.locs(out),
            K::It(c) => c.el.locs(out),
            _ => {}
        }
    }
    pub fn map_refs(&self, f: &mut dyn FnMut(&Rf) -> Rf) -> V {
        let k = match &self.k {
            K::S(v) => K::S(Rc::new(v.iter().map(|x| x.map_refs(f)).collect())),
            K::Clo(t, v) => K::Clo(*t, Rc::new(v.iter().map(|x| x.map_refs(f)).collect())),
            K::E(e) => K::E(Rc::new(En {
                dl: e.dl,
                vs: e
                    .vs
                    .iter()
                    .map(|(k, v)| (*k, v.iter().map(|x| x.map_refs(f)).collect()))
                    .collect(),
            })),
            K::R(r) => {
                let mut n = f(r);
                if let Some(d) = &r.det {
                    n.det = Some(d.map_refs(f));
                }
                K::R(Rc::new(n))
            }
            K::C(c) => K::C(Rc::new(Co { el: c.el.map_refs(f), ..(**c).clone() })),
            K::It(c) => K::It(Rc::new(Itr { el: c.el.map_refs(f), ..(**c).clone() })),
            k => k.clone(),
        };
        V { lab: self.lab, tok: self.tok, k }
    }
    pub fn has_refs(&self) -> bool {
        match &self.k {
            K::S(v) | K::Clo(_, v) => v.iter().any(|x| x.has_refs()),
            K::E(e) => e.vs.values().flatten().any(|x| x.has_refs()),
            K::R(r) => !r.t.is_empty() || r.det.as_ref().map_or(false, |d| d.has_refs()),
            K::C(c) => c.el.has_refs(),
            K::It(c) => c.el.has_refs(),
            _ => false,
        }
    }
    pub fn join(&self, o: &V) -> V {
        join(self, o, false)
    }
}

const IT: &[i128] = &[
    i64::MIN as i128, -4096, -1, 0, 1, 2, 4, 8, 11, 12, 23, 24, 64, 256, 1024, 4096, 65536, 1 << 24,
    i32::MAX as i128, u32::MAX as i128, LMAX, i64::MAX as i128, u64::MAX as i128,
];
fn wid_i(a: (i128, i128), b: (i128, i128)) -> (i128, i128) {
    let lo = if b.0 < a.0 {
        *IT.iter().rev().find(|t| **t <= b.0).unwrap_or(&i128::MIN)
    } else {
        a.0
    };
    let hi = if b.1 > a.1 { *IT.iter().find(|t| **t >= b.1).unwrap_or(&i128::MAX) } else { a.1 };
    (lo, hi)
}
const FT: &[f64] = &[
    -INF, -3.4028234663852886e38, -1e6, -1000.0, -100.0, -10.0, -1.0, 0.0, 1.0, 2.0, 10.0, 100.0,
    1000.0, 1e6, 3.4028234663852886e38, INF,
];
fn wid_f(a: Fl, b: Fl) -> Fl {
    if a.empty() {
        return a.join(&b);
    }
    let lo = if b.lo < a.lo { *FT.iter().rev().find(|t| **t <= b.lo).unwrap() } else { a.lo };
    let hi = if b.hi > a.hi { *FT.iter().find(|t| **t >= b.hi).unwrap() } else { a.hi };
    Fl { lo, hi, nan: a.nan || b.nan, rel: a.join(&b).rel }
}

/// the bit of the only variant this enum value can be
pub fn vbit(v: &V) -> u64 {
    match &v.k {
        K::E(e) if e.vs.len() == 1 => 1u64.checked_shl(*e.vs.keys().next().unwrap()).unwrap_or(0),
        _ => 0,
    }
}
/// a ⊔ b; with `w`, widen (a is the old value).
pub fn join(a: &V, b: &V, w: bool) -> V {
    let lab = a.lab.or(b.lab);
    let k = match (&a.k, &b.k) {
        (K::Bot, k) | (k, K::Bot) => k.clone(),
        (K::I(x, y), K::I(p, q)) => {
            let j = (*x.min(p), *y.max(q));
            let j = if w { wid_i((*x, *y), j) } else { j };
            K::I(j.0, j.1)
        }
        (K::F(x), K::F(y)) => {
            let j = x.join(y);
            K::F(if w { wid_f(*x, j) } else { j })
        }
        (K::S(x), K::S(y)) if Rc::ptr_eq(x, y) => K::S(x.clone()),
        (K::S(x), K::S(y)) if x.len() == y.len() => {
            K::S(Rc::new(x.iter().zip(y.iter()).map(|(a, b)| join(a, b, w)).collect()))
        }
        (K::E(x), K::E(y)) if Rc::ptr_eq(x, y) => K::E(x.clone()),
        (K::E(x), K::E(y)) => {
            let mut vs = x.vs.clone();
            for (k, v) in &y.vs {
                match vs.get_mut(k) {
                    Some(o) if o.len() == v.len() => {
                        for (p, q) in o.iter_mut().zip(v.iter()) {
                            *p = join(p, q, w);
                        }
                    }
                    Some(o) => {
                        let l = o.iter().chain(v.iter()).fold(Lab::NONE, |l, x| l.or(x.all()));
                        *o = v.iter().map(|_| V::top().with(l)).collect();
                    }
                    None => {
                        vs.insert(*k, v.clone());
                    }
                }
            }
            K::E(Rc::new(En { dl: x.dl.or(y.dl), vs }))
        }
        (K::R(x), K::R(y)) if Rc::ptr_eq(x, y) => K::R(x.clone()),
        (K::R(x), K::R(y)) => {
            let mut t = x.t.clone();
            for l in &y.t {
                if !t.contains(l) {
                    t.push(l.clone());
                }
            }
            t.sort();
            let det = match (&x.det, &y.det) {
                (Some(a), Some(b)) => Some(join(a, b, w)),
                (Some(a), None) | (None, Some(a)) => Some(a.clone()),
                _ => None,
            };
            let sub = match (x.sub, y.sub) {
                (None, None) => None,
                (Some(a), Some(b)) => {
                    let j = (a.0.min(b.0), a.1.max(b.1));
                    Some(if w { wid_i(a, j) } else { j })
                }
                _ => Some((0, LMAX)),
            };
            K::R(Rc::new(Rf { t, det, sub }))
        }
        (K::C(x), K::C(y)) if Rc::ptr_eq(x, y) => K::C(x.clone()),
        (K::C(x), K::C(y)) => {
            let j = (x.lo.min(y.lo), x.hi.max(y.hi));
            let j = if w { wid_i((x.lo, x.hi), j) } else { j };
            K::C(Rc::new(Co {
                el: join(&x.el, &y.el, w),
                lo: j.0.max(0),
                hi: j.1.min(LMAX),
                asc: x.asc && y.asc,
                ord: jord((x.ord, x.hi), (y.ord, y.hi)),
                must: x.must & y.must,
                s: if x.s == y.s { x.s.clone() } else { None },
            }))
        }
        (K::It(x), K::It(y)) => {
            let j = (x.lo.min(y.lo), x.hi.max(y.hi));
            let j = if w { wid_i((x.lo, x.hi), j) } else { j };
            K::It(Rc::new(Itr {
                el: join(&x.el, &y.el, w),
                lo: j.0.max(0),
                hi: j.1.min(LMAX),
                asc: x.asc && y.asc,
                ord: jord((x.ord, x.hi), (y.ord, y.hi)),
            }))
        }
        (K::Clo(t, x), K::Clo(u, y)) if t == u && x.len() == y.len() => {
            K::Clo(*t, Rc::new(x.iter().zip(y.iter()).map(|(a, b)| join(a, b, w)).collect()))
        }
        _ => {
            // incompatible shapes: everything unknown
            return V { lab: lab.or(a.all()).or(b.all()), tok: UNK, k: K::Top };
        }
    };
    V { lab, tok: a.tok | b.tok, k }
}

/// an order: by the scalar at a path inside the element, ascending or descending
pub fn ocode(path: &[u32], desc: bool) -> u32 {
    let c = path.iter().rev().fold(0u32, |c, i| c * 32 + (i + 1).min(31));
    1 + desc as u32 + 2 * c
}
pub fn opath(o: u32) -> (Vec<u32>, bool) {
    let mut c = (o - 1) / 2;
    let mut p = vec![];
    while c > 0 {
        p.push(c % 32 - 1);
        c /= 32;
    }
    (p, (o - 1) % 2 == 1)
}
pub fn oname(o: u32) -> String {
    if o == 0 {
        return String::new();
    }
    let (p, d) = opath(o);
    format!(" {}{:?}", if d { "desc" } else { "asc" }, p)
}
fn jord(x: (u32, i128), y: (u32, i128)) -> u32 {
    // a list of at most one element is in any order
    match (x.1 <= 1, y.1 <= 1) {
        (true, true) => 0,
        (true, false) => y.0,
        (false, true) => x.0,
        _ if x.0 == y.0 => x.0,
        _ => 0,
    }
}
/// scalars inside an element: path and value
pub fn leaves(v: &V, pre: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, V)>) {
    match &v.k {
        K::I(..) | K::F(_) | K::Bot | K::Top => out.push((pre.clone(), v.clone())),
        K::S(x) if pre.len() < 3 => {
            for (i, y) in x.iter().enumerate().take(30) {
                pre.push(i as u32);
                leaves(y, pre, out);
                pre.pop();
            }
        }
        _ => {}
    }
}
pub fn leaf(v: &V, p: &[u32]) -> Option<V> {
    match (p.first(), &v.k) {
        (None, _) => Some(v.clone()),
        (Some(i), K::S(x)) => leaf(x.get(*i as usize)?, &p[1..]),
        _ => None,
    }
}
pub fn with_leaf(v: &V, p: &[u32], f: &dyn Fn(&V) -> V) -> V {
    match (p.first(), &v.k) {
        (None, _) => f(v),
        (Some(i), K::S(x)) if (*i as usize) < x.len() => {
            let mut y = (**x).clone();
            y[*i as usize] = with_leaf(&y[*i as usize], &p[1..], f);
            V { lab: v.lab, tok: v.tok, k: K::S(Rc::new(y)) }
        }
        _ => v.clone(),
    }
}

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match &self.k {
            K::Bot => write!(f, "⊥")?,
            K::Top => write!(f, "T")?,
            K::I(a, b) if a == b => write!(f, "{}", a)?,
            K::I(a, b) => {
                let s = |x: i128| {
                    if x >= LMAX {
                        "+".into()
                    } else if x <= -LMAX {
                        "-".into()
                    } else {
                        x.to_string()
                    }
                };
                write!(f, "[{},{}]", s(*a), s(*b))?
            }
            K::F(x) => write!(f, "f[{},{}{}]", x.lo, x.hi, if x.nan { ",nan" } else { "" })
                .and_then(|_| if x.rel > 0 { write!(f, "r{}", x.rel) } else { Ok(()) })?,
            K::S(v) => f.debug_list().entries(v.iter()).finish()?,
            K::E(e) => {
                if !e.dl.is_empty() {
                    write!(f, "D{:?}", e.dl.bits())?;
                }
                f.debug_map().entries(e.vs.iter()).finish()?
            }
            K::R(r) => {
                write!(f, "&{:?}", r.t.iter().map(|l| format!("{}{:?}", l.o, l.p)).collect::<Vec<_>>())?;
                if let Some(d) = &r.det {
                    write!(f, "={:?}", d)?
                }
                if let Some(s) = &r.sub {
                    write!(f, "[..{:?}]", s)?
                }
            }
            K::C(c) => {
                if let Some(s) = &c.s {
                    write!(f, "{:?}", s)?
                } else {
                    write!(f, "C({:?};{}..{}{}{})", c.el, c.lo, c.hi, if c.asc { " asc" } else { "" }, oname(c.ord))?
                }
            }
            K::It(c) => write!(f, "It({:?};{}..{})", c.el, c.lo, c.hi)?,
            K::Clo(t, v) => write!(f, "clo{}{:?}", t, v)?,
        }
        if self.tok & UNK == 0 && self.tok != 0 {
            write!(f, "#{:x}", self.tok)?;
        }
        if !self.lab.is_empty() {
            write!(f, "@{:?}", self.lab.bits())?;
        }
        Ok(())
    }
}

//! Transfer functions for the standard-library (and rustfft/log) calls the crate makes.
//! Dispatch is by method name and by the shape of the abstract arguments.
use crate::interp::*;
use crate::ir::*;
use crate::val::*;
use std::rc::Rc;

pub enum M {
    Val(V, Fact),
    Div,
    No,
}
fn ok(v: V) -> M {
    M::Val(v, Fact::default())
}
fn okf(v: V, b: BF) -> M {
    M::Val(v, Fact { b: Some(b), ..Default::default() })
}
fn uni(a: &[V]) -> Lab {
    a.iter().fold(Lab::NONE, |l, v| l.or(v.all()))
}

impl<'p> Interp<'p> {
    /// aliases of the pointee of a reference value
    fn ref_al(&self, v: &V) -> Vec<Loc> {
        match &v.k {
            K::R(r)
                if r.t.len() == 1
                    && r.det.is_none()
                    && r.sub.is_none()
                    && !r.t[0].has_el()
                    && !self.f().weak.get(r.t[0].o as usize).cloned().unwrap_or(false) =>
            {
                vec![r.t[0].clone()]
            }
            _ => vec![],
        }
    }
    fn opd_of(&self, args: &[Op], vals: &[V], i: usize) -> Opd {
        Opd { al: args.get(i).map_or(vec![], |o| self.aliases(o)), v: vals[i].clone() }
    }
    fn ref_opd(&self, v: &V) -> Opd {
        let p = self.peel(v);
        Opd { al: self.ref_al(&p).into_iter().map(Al::Val).collect(), v: self.strip(v) }
    }
    /// view any iterable value as an iterator
    pub fn as_iter(&self, v: &V) -> V {
        match &v.k {
            K::It(_) => v.clone(),
            K::Bot => V::it(V::bot(), 0, 0),
            K::C(c) => {
                let mut i = V::it(c.el.clone().with(v.lab), c.lo, c.hi).with(v.lab);
                if let K::It(x) = &mut i.k {
                    Rc::make_mut(x).asc = c.asc;
Rc::make_mut(x).ord = c.ord;
                }
                i.tok(v.tok)
            }
            K::S(x) if (2..=3).contains(&x.len()) => match (x[0].int(), x[1].int()) {
                (Some((a0, a1)), Some((b0, b1))) => {
                    let inc = (x.len() == 3) as i128;
                    let lab = v.lab.or(x[0].lab).or(x[1].lab);
                    let last = b1 - 1 + inc;
                    let el = if a0 > last { V::bot() } else { V::i(a0, last) };
                    V::it(el.with(lab), b0 - a1 + inc, b1 - a0 + inc).with(lab)
                }
                _ => V::it(V::top().with(v.all()), 0, LMAX).with(v.all()),
            },
            K::S(x) if x.len() == 1 => match x[0].int() {
                // RangeFrom
                Some((a, _)) => V::it(V::i(a, LMAX).with(v.all()), LMAX, LMAX).with(v.all()),
                _ => V::it(V::top().with(v.all()), 0, LMAX).with(v.all()),
            },
            K::E(e) => {
                // Option
                let some = e.vs.get(&1).and_then(|f| f.first()).cloned();
                let (lo, hi) = (if e.vs.contains_key(&0) { 0 } else { 1 }, some.is_some() as i128);
                V::it(some.unwrap_or(V::bot()).with(v.lab), lo, hi).with(v.dlab())
            }
            K::R(_) => {
                let r = self.peel(v);
                let c = self.load(&r);
                match &c.k {
                    K::C(cc) => {
                        let el = match &cc.el.k {
                            // map of (k, v): iterate pairs of references
                            _ => self.ref_child(&r, Pj::El),
                        };
                        let mut i = V::it(el, cc.lo, cc.hi).with(c.lab);
                        if let K::It(x) = &mut i.k {
                            Rc::make_mut(x).asc = cc.asc;
Rc::make_mut(x).ord = cc.ord;
                        }
                        i.tok(c.tok)
                    }
                    K::It(_) => c.clone(),
                    K::E(e) => {
                        let some = e.vs.contains_key(&1);
                        let (lo, hi) = (if e.vs.contains_key(&0) { 0 } else { 1 }, some as i128);
                        V::it(self.ref_child(&r, Pj::V(1, 0)), lo, hi).with(c.dlab())
                    }
                    K::S(_) => self.as_iter(&c),
                    K::Bot => V::it(V::bot(), 0, 0),
                    _ => {
                        let l = self.deep(v);
                        V::it(V::rdet(V::top().with(l)).with(l), 0, LMAX).with(l)
                    }
                }
            }
            _ => {
                let l = self.deep(v);
                V::it(V::top().with(l), 0, LMAX).with(l)
            }
        }
    }
    /// the numbers of an enumeration or a range without the first `n`
    fn later(&self, el: &V, dt: usize, n: i128) -> V {
        let under = |t: usize| match self.p.ty(t) {
            TyK::Adt { def, args, .. } => Some((def.rsplit("::").next().unwrap_or(""), args.first().copied())),
            _ => None,
        };
        if dt == usize::MAX || n <= 0 {
            return el.clone();
        }
        let from = |v: &V| match &v.k {
            K::I(a, b) if *a >= 0 && a + n <= *b => V { lab: v.lab, tok: v.tok, k: K::I(a + n, *b) },
            _ => v.clone(),
        };
        match (under(dt).and_then(|x| x.1).and_then(under), &el.k) {
            (Some(("Enumerate", _)), K::S(x)) if x.len() == 2 => {
                let mut y = (**x).clone();
                y[0] = from(&y[0]);
                V { lab: el.lab, tok: el.tok, k: K::S(Rc::new(y)) }
            }
            (Some(("Range" | "RangeInclusive" | "RangeFrom", _)), K::I(..)) => from(el),
            _ => el.clone(),
        }
    }
    fn itr(&self, v: &V) -> (Itr, Lab) {
        let i = self.as_iter(v);
        match &i.k {
            K::It(x) => ((**x).clone(), i.lab),
            _ => (Itr { el: V::top().with(v.all()), lo: 0, hi: LMAX, asc: false, ord: 0 }, v.all()),
        }
    }
    /// call a closure any number of times with these arguments, until stable
    /// call a predicate on elements like `el`: its result, and the elements it accepts
    fn many_yes(&mut self, lab: Lab, f: &V, el: &V, atleast1: bool) -> (V, V) {
        // elements reached through references are looked at by value
        let by_ref = self.rngm && matches!(el.k, K::R(_));
        let seen = if by_ref { self.strip(el) } else { el.clone() };
        let plain = by_ref && !seen.has_refs() && matches!(seen.k, K::F(_) | K::S(_));
        let o = self.temp(if plain { seen.clone() } else { el.clone() });
        let arg = if plain {
            let q = self.temp(V::r(vec![Loc::base(o)]));
            V::r(vec![Loc::base(q)])
        } else {
            V::r(vec![Loc::base(o)])
        };
        self.yes = vec![];
        let r = self.many(lab, f, vec![arg], atleast1);
        let yes = std::mem::take(&mut self.yes);
        let y = match yes.into_iter().find(|y| y.0 == o) {
            Some((_, v)) if plain && v != seen => V::rdet(v).with(el.lab).tok(el.tok),
            Some((_, v)) if self.rngm && !plain && !v.has_refs() => v.with(el.lab).tok(el.tok),
            _ => el.clone(),
        };
        (r, y)
    }
    fn many(&mut self, lab: Lab, f: &V, args: Vec<V>, atleast1: bool) -> V {
        if args.iter().any(|a| a.is_bot()) {
            return V::bot();
        }
        let save = self.f().pc;
        self.fr().pc = save.or(lab);
        let entry = self.f().st.clone();
        let mut ret = V::bot();
        let mut acc = self.f().st.clone();
        for k in 0..12 {
            self.fr().st = acc.clone();
            // temps are per call position; keep them stable between rounds
            let tix = self.f().tix;
            let r = self.call_clo(f, args.clone());
            if k < 11 {
                self.fr().tix = tix;
            }
            let Some(r) = r else {
                self.fr().st = entry.clone();
                break;
            };
            ret = join(&ret, &r, false);
            let mut nx = acc.clone();
            let ch = nx.join_from(&self.f().st.clone(), k > 3);
            if !ch {
                acc = nx;
                break;
            }
            acc = nx;
        }
        if !atleast1 {
            acc.join_from(&entry, false);
        }
        self.fr().st = acc;
        self.fr().pc = save;
        ret
    }
    fn fold(&mut self, lab: Lab, f: &V, init: V, mk: &dyn Fn(V) -> Vec<V>) -> V {
        let save = self.f().pc;
        self.fr().pc = save.or(lab);
        let mut acc = init;
        let mut sacc = self.f().st.clone();
        for k in 0..30 {
            self.fr().st = sacc.clone();
            let tix = self.f().tix;
            let a = mk(acc.clone());
            if a.iter().any(|x| x.is_bot()) {
                break;
            }
            let Some(r) = self.call_clo(f, a) else { break };
            self.fr().tix = tix;
            let n = join(&acc, &r.with(lab), k > 2);
            let mut ns = sacc.clone();
            let ch = ns.join_from(&self.f().st.clone(), k > 2);
            sacc = ns;
            if n == acc && !ch {
                break;
            }
            acc = n;
        }
        self.fr().st = sacc;
        self.fr().pc = save;
        acc
    }
    fn sum(&self, el: &V, lo: i128, hi: i128, bits: u32) -> V {
        let e = self.strip(el);
        let l = e.all();
        match &e.k {
            K::F(x) => {
                if x.empty() && !x.nan {
                    return V::f(Fl::c(0.0));
                }
                let n = hi as f64;
                let mut r = Fl::new(
                    if x.lo >= 0.0 { 0.0 } else { (x.lo * n) * 1.01 },
                    if x.hi <= 0.0 { 0.0 } else { (x.hi * n) * 1.01 },
                    x.nan || (x.lo == -INF && x.hi == INF),
                );
                let m = f32::MAX as f64;
                if bits == 32 {
                    if r.hi > m {
                        r.hi = INF;
                    }
                    if r.lo < -m {
                        r.lo = -INF;
                    }
                    if r.hi == INF && r.lo == -INF {
                        r.nan = true;
                    }
                }
                V::f(r).with(l)
            }
            K::I(a, b) => {
                V::i((*a).min(0).saturating_mul(hi).max(a.saturating_mul(if *a < 0 { hi } else { lo })),
                     b.saturating_mul(if *b > 0 { hi } else { lo })).with(l)
            }
            K::Bot => V::f(Fl::c(0.0)),
            _ => V::top().with(l),
        }
    }
    fn map_opt(&mut self, v: &V, var: u32, f: &V, wrap: Option<u32>) -> Option<V> {
        // apply f to the payload of `var`; wrap the result in variant `wrap` (None: flatten)
        let K::E(e) = &v.k else { return Some(V::top().with(v.all())) };
        let e = e.clone();
        let mut out: Option<V> = None;
        for (k, fs) in &e.vs {
            let r = if *k == var {
                let save = self.f().pc;
                let pre = self.f().st.clone();
                if e.vs.len() > 1 {
                    self.fr().pc = save.or(v.dlab());
                }
                let r = self.call_clo(f, fs.iter().map(|x| x.clone().with(v.lab)).collect());
                self.fr().pc = save;
                if e.vs.len() > 1 {
                    let mut p2 = pre;
                    p2.join_from(&self.f().st.clone(), false);
                    self.fr().st = p2;
                }
                match (r, wrap) {
                    (Some(r), Some(w)) => Some(V::e(vec![(w, vec![r])])),
                    (Some(r), None) => Some(r),
                    (None, _) => None,
                }
            } else {
                Some(V::e(vec![(*k, fs.clone())]))
            };
            if let Some(r) = r {
                out = Some(match out {
                    None => r,
                    Some(o) => o.join(&r),
                });
            }
        }
        let out = out?;
        Some(add_dl(out, v.lab, e.dl))
    }
    fn cmp_val(&mut self, a: &V, b: &V, partial: bool) -> V {
        let (a, b) = (self.strip(a), self.strip(b));
        let l = a.all().or(b.all());
        let mut vs = vec![];
        if !self.orders() {
        } else if a.tok == T_LEFT && b.tok == T_RIGHT {
            self.ev("cmp-asc", String::new());
        } else if a.tok == T_RIGHT && b.tok == T_LEFT {
            self.ev("cmp-desc", String::new());
        } else {
            self.ev("cmp-other", String::new());
        }
        match (&a.k, &b.k) {
            (K::F(x), K::F(y)) => {
                if partial && (x.nan || y.nan) {
                    self.ev("pcmp-nan", "partial_cmp of values that may be NaN".into());
                }
                if x.lo < y.hi {
                    vs.push((0, vec![]));
                }
                if x.lo <= y.hi && y.lo <= x.hi {
                    vs.push((1, vec![]));
                }
                if x.hi > y.lo {
                    vs.push((2, vec![]));
                }
                let o = V::e(vs);
                if self.ordm && !partial && !x.nan && !y.nan && (x.hi < y.lo || y.hi < x.lo) {
                    return o.with(l);
                }
                if !partial {
                    return V::e((0..3).map(|i| (i, vec![])).collect()).with(l);
                }
                if x.nan || y.nan {
                    return V::e(vec![(0, vec![]), (1, vec![o])]).with(l);
                }
                V::some(o).with(l)
            }
            (K::I(p, q), K::I(r, s)) if self.ordm => {
                if p < s {
                    vs.push((0, vec![]));
                }
                if p <= s && r <= q {
                    vs.push((1, vec![]));
                }
                if q > r {
                    vs.push((2, vec![]));
                }
                let o = V::e(vs);
                if partial { V::some(o).with(l) } else { o.with(l) }
            }
            _ => {
                let o = V::e((0..3).map(|i| (i, vec![])).collect());
                if partial {
                    V::opt(o, Lab::NONE).with(l)
                } else {
                    o.with(l)
                }
            }
        }
    }

    pub fn model(&mut self, c: &Callee, a: &[V], ops: &[Op], dt: usize) -> M {
        let base = c.base.as_str();
        let name = base.rsplit("::").next().unwrap_or("");
        let lab = uni(a);
        let dbits = if dt != usize::MAX {
            if let TyK::Float { bits } = self.p.ty(dt) { *bits } else { 32 }
        } else {
            32
        };
        // panics modelled as divergence
        if a.iter().any(|x| x.is_bot()) && !name.starts_with("new") {
            // a dead operand: unreachable
            if !matches!(name, "or_insert" | "push") {
                return M::Div;
            }
        }
        // --- float methods ---
        if base.contains("<impl f32>") || base.contains("<impl f64>") {
            let bits = if base.contains("f64") { 64 } else { 32 };
            let x = self.strip(&a[0]);
            let Some(f) = x.fl() else {
                let r = if matches!(name, "is_finite" | "is_nan" | "is_infinite") { V::boolt() } else { V::top() };
                return ok(r.with(lab));
            };
            let g = a.get(1).and_then(|y| self.strip(y).fl());
            let l = lab;
            let r = |z: Fl| ok(V::f(z.round_to(bits)).with(l));
            let o = self.opd_of(ops, a, 0);
            return match name {
                "abs" => r(f.abs()),
                "sqrt" => {
                    let nan = f.nan || f.lo < 0.0;
                    if f.hi < 0.0 || f.empty() {
                        return r(Fl { lo: INF, hi: -INF, nan, rel: 0 });
                    }
                    r(Fl::new(f.lo.max(0.0).sqrt(), f.hi.sqrt(), nan))
                }
                "floor" => r(f.mono(f64::floor)),
                "ceil" => r(f.mono(f64::ceil)),
                "round" => r(f.mono(f64::round)),
                "trunc" => r(f.mono(f64::trunc)),
                "exp" => r(f.mono(f64::exp).slop()),
                "exp2" => r(f.mono(f64::exp2).slop()),
                "ln" | "log2" | "log10" | "ln_1p" => {
                    let (h, off): (fn(f64) -> f64, f64) = match name {
                        "ln" => (f64::ln, 0.0),
                        "log2" => (f64::log2, 0.0),
                        "log10" => (f64::log10, 0.0),
                        _ => (f64::ln_1p, -1.0),
                    };
                    let nan = f.nan || f.lo < off;
                    if f.hi < off || f.empty() {
                        return r(Fl { lo: INF, hi: -INF, nan, rel: 0 });
                    }
                    let mut z = Fl::new(h(f.lo.max(off)), h(f.hi), nan).slop();
                    z.lo -= 1e-6;
                    z.hi += 1e-6;
                    r(z)
                }
                "sin" | "cos" => r(Fl::new(-1.0, 1.0, f.nan || f.inf())),
                "tanh" => r(Fl::new(-1.0, 1.0, f.nan)),
                "atan" => r(Fl::new(-1.6, 1.6, f.nan)),
                "atan2" => r(Fl::new(-3.1416, 3.1416, f.nan || g.map_or(true, |g| g.nan))),
                "signum" => r(Fl::new(-1.0, 1.0, f.nan)),
                "fract" => r(Fl::new(if f.lo >= 0.0 { 0.0 } else { -1.0 }, 1.0, f.nan || f.inf())),
                "powi" => {
                    if let Some(2) = a[1].cst() {
                        let m = f.abs();
                        return r(Fl { nan: f.nan, ..m.mul(&m) });
                    }
                    if f.lo >= 0.0 { r(Fl::new(0.0, INF, f.nan)) } else { r(Fl { nan: f.nan, ..Fl::TOP }) }
                }
                "powf" => {
                    let g = g.unwrap_or(Fl::TOP);
                    let nan = f.nan || g.nan || (f.lo < 0.0);
                    if f.lo >= 0.0 && !f.empty() && !g.empty() {
                        let c = [f.lo.powf(g.lo), f.lo.powf(g.hi), f.hi.powf(g.lo), f.hi.powf(g.hi)];
                        if c.iter().any(|x| x.is_nan()) {
                            return r(Fl::new(0.0, INF, nan));
                        }
                        let lo = c.iter().cloned().fold(INF, f64::min);
                        let hi = c.iter().cloned().fold(-INF, f64::max);
                        // x^y is monotone in each argument on a quadrant; include 1 when the base spans 1
                        let z = Fl::new(lo, hi, nan).slop();
                        let z = if f.lo <= 1.0 && f.hi >= 1.0 { z.join(&Fl::c(1.0)) } else { z };
                        return r(z);
                    }
                    r(Fl { nan, ..Fl::TOP })
                }
                "rem_euclid" => {
                    let g = g.unwrap_or(Fl::TOP);
                    let m = g.abs().hi;
                    r(Fl::new(0.0, m, f.nan || g.nan || f.inf() || g.has0()))
                }
                "hypot" => r(Fl::new(0.0, INF, f.nan || g.map_or(true, |g| g.nan))),
                "mul_add" => {
                    let z = a.get(2).and_then(|y| y.fl()).unwrap_or(Fl::TOP);
                    r(f.mul(&g.unwrap_or(Fl::TOP)).add(&z))
                }
                "max" | "min" => {
                    let g = g.unwrap_or(Fl::TOP);
                    let noop = !f.nan && !g.nan && if name == "max" { f.lo > g.hi } else { f.hi < g.lo };
                    if noop {
                        return ok(V::f(f).with(l).tok(self.strip(&a[0]).tok));
                    }
                    r(if name == "max" { f.fmax(&g) } else { f.fmin(&g) })
                }
                "clamp" => {
                    let lo = g.unwrap_or(Fl::TOP);
                    let hi = a.get(2).and_then(|y| self.strip(y).fl()).unwrap_or(Fl::TOP);
                    if !f.nan && !lo.nan && !hi.nan && f.lo >= lo.hi && f.hi <= hi.lo {
                        // provably the identity
                        return ok(V::f(f).with(l).tok(self.strip(&a[0]).tok));
                    }
                    if lo.nan || hi.nan || !(lo.hi <= hi.lo) {
                        self.ev("clamp", format!("bounds {:?} .. {:?}", V::f(lo), V::f(hi)));
                    }
                    let z = if f.empty() {
                        f
                    } else {
                        let z = Fl::new(f.lo.max(lo.lo).min(hi.hi), f.hi.min(hi.hi).max(lo.lo), f.nan);
                        let rel = ((lo.rel | (f.rel & hi.rel)) & GE) | ((hi.rel | (f.rel & lo.rel)) & LE);
                        Fl { rel, ..z }
                    };
                    r(z)
                }
                "is_finite" => {
                    let t = !f.empty();
                    let fa = f.nan || f.inf();
                    okf(V::i(!fa as i128, t as i128).with(l), BF::Fin(o))
                }
                "is_nan" => okf(V::i(0, f.nan as i128).with(l), BF::Nan(o)),
                "is_infinite" => ok(V::i(0, f.inf() as i128).with(l)),
                "is_sign_negative" | "is_sign_positive" => ok(V::boolt().with(l)),
                "partial_cmp" => ok(self.cmp_val(&a[0], &a[1], true)),
                "total_cmp" => ok(self.cmp_val(&a[0], &a[1], false)),
                "to_bits" => ok(V::i(0, u64::MAX as i128).with(l)),
                "from_bits" => ok(V::f(Fl::TOP).with(l)),
                "to_radians" | "to_degrees" | "recip" | "cbrt" | "log" | "tan" | "asin" | "acos" => {
                    ok(V::f(Fl::TOP).with(l))
                }
                _ => M::No,
            };
        }
        // --- integer methods ---
        if base.starts_with("core::num::<impl") {
            let x = self.strip(&a[0]);
            let y = a.get(1).map(|y| self.strip(y));
            let l = lab;
            let t = if ops.is_empty() { usize::MAX } else { self.op_ty(&ops[0]) };
            let rng = if t != usize::MAX { self.irange(t) } else { None }.unwrap_or((i64::MIN as i128, u64::MAX as i128));
            let (Some((x0, x1)), yy) = (x.int(), y.and_then(|y| y.int())) else {
                return if dt == usize::MAX { ok(V::top().with(l)) } else { ok(self.top_of(dt).with(l)) };
            };
            let r = |p: i128, q: i128| ok(V::i(p.max(rng.0), q.min(rng.1)).with(l));
            return match (name, yy) {
                ("abs" | "unsigned_abs", _) => {
                    if x0 >= 0 { ok(V::i(x0, x1).with(l)) } else { ok(V::i(if x1 >= 0 { 0 } else { -x1 }, x1.abs().max(-x0)).with(l)) }
                }
                ("saturating_sub", Some((y0, y1))) => r((x0 - y1).max(rng.0), (x1 - y0).max(rng.0)),
                ("saturating_add", Some((y0, y1))) => r(x0 + y0, x1 + y1),
                ("saturating_mul", Some((y0, y1))) if x0 >= 0 && y0 >= 0 => {
                    r(x0.saturating_mul(y0).min(rng.1), x1.saturating_mul(y1).min(rng.1))
                }
                ("wrapping_sub" | "wrapping_add" | "wrapping_mul", _) => r(rng.0, rng.1),
                ("abs_diff", Some((y0, y1))) => ok(V::i(0, (x1 - y0).abs().max((y1 - x0).abs())).with(l)),
                ("rem_euclid", Some((y0, y1))) => {
                    if y0 <= 0 && y1 >= 0 {
                        self.ev("rem0", "rem_euclid".into());
                    }
                    ok(V::i(0, y0.abs().max(y1.abs()) - 1).with(l))
                }
                ("div_euclid", Some((y0, y1))) => {
                    if y0 <= 0 && y1 >= 0 {
                        self.ev("div0", "div_euclid".into());
                    }
                    let m = x0.abs().max(x1.abs());
                    r(if x0 >= 0 && y0 >= 0 { 0 } else { -m - 1 }, m)
                }
                ("div_ceil", Some((y0, y1))) => {
                    if y0 <= 0 && y1 >= 0 {
                        self.ev("div0", "div_ceil".into());
                    }
                    let d0 = y0.max(1);
                    let d1 = y1.max(1);
                    r((x0 + d1 - 1) / d1, (x1 + d0 - 1) / d0)
                }
                ("is_multiple_of", Some((y0, y1))) if y0 == y1 => okf(V::boolt().with(l), BF::Mul(self.opd_of(ops, a, 0), y0)),
                ("is_multiple_of", _) => ok(V::boolt().with(l)),
                ("next_power_of_two", _) => {
                    let f = |v: i128| if v <= 1 { 1 } else { ((v as u128).min(1 << 100).next_power_of_two()) as i128 };
                    r(f(x0), f(x1))
                }
                ("pow", Some((y0, y1))) if x0 >= 0 && y1 < 64 => {
                    r(x0.checked_pow(y0 as u32).unwrap_or(rng.1), x1.checked_pow(y1 as u32).unwrap_or(rng.1))
                }
                ("checked_sub", Some((y0, y1))) => {
                    let (p, q) = ((x0 - y1).max(rng.0), (x1 - y0).min(rng.1));
                    let mut vs = vec![];
                    if x0 - y1 < rng.0 || x1 - y0 > rng.1 {
                        vs.push((0, vec![]));
                    }
                    if p <= q {
                        vs.push((1, vec![V::i(p, q)]));
                    }
                    let mut f = Fact::default();
                    if y0 == y1 {
                        let o = self.opd_of(ops, a, 0);
                        let of = |x: i128, y: i128| -> Vec<(Al, V)> {
                            if x <= y { o.al.iter().map(|p| (p.clone(), V::i(x, y))).collect() } else { vec![] }
                        };
                        if rng.0 == 0 {
                            f.b = Some(BF::Imp(vec![(0, of(x0, x1.min(y0 - 1))), (1, of(x0.max(y0), x1))]));
                        }
                    }
                    M::Val(V::e(vs).with(l), f)
                }
                ("checked_div" | "checked_rem", Some((y0, y1))) => {
                    let mut vs = vec![];
                    if y0 <= 0 && y1 >= 0 {
                        vs.push((0, vec![]));
                    }
                    vs.push((1, vec![V::i(rng.0.max(-x1.abs()), x1.max(0))]));
                    ok(V::e(vs).with(l))
                }
                ("ilog2" | "trailing_zeros" | "leading_zeros" | "count_ones", _) => r(0, 128),
                ("isqrt", _) => r(0, x1),
                ("is_power_of_two", _) => ok(V::boolt().with(l)),
                _ => {
                    if dt != usize::MAX { ok(self.top_of(dt).with(l)) } else { M::No }
                }
            };
        }
        match name {
            // --- clocks ---
            "now" if base.contains("time::") => return ok(V::top().with(self.scn.clock)),
            "elapsed" | "duration_since" | "as_secs_f32" | "as_secs_f64" | "as_millis" | "as_secs" | "as_micros"
                if base.contains("time::") =>
            {
                let r = match name {
                    "as_secs_f32" | "as_secs_f64" => V::f(Fl::new(0.0, 1e20, false)),
                    "elapsed" | "duration_since" => V::top(),
                    _ => V::i(0, u64::MAX as i128),
                };
                return ok(r.with(lab.or(uni(&[self.strip(&a[0])]))));
            }
            // --- formatting / logging: no effect on values ---
            "_eprint" | "_print" => {
                self.ev("output", c.path.clone());
                return ok(V::unit());
            }
            _ if base.starts_with("log::") => {
                return ok(if dt == usize::MAX { V::top() } else { self.top_of(dt) }.with(self.scn.log));
            }
            _ if base.starts_with("core::fmt::") || base.starts_with("std::fmt::") => {
                let l = a.iter().fold(Lab::NONE, |l, v| l.or(self.deep(v)));
                // a constant string without arguments keeps its contents
                if name == "from_str" || name == "format" {
                    if let K::S(x) = &a[0].k {
                        if name == "format" && x.len() == 1 {
                            return ok(x[0].clone());
                        }
                    }
                    if name == "from_str" {
                        let s = self.strip(&a[0]);
                        return ok(V::s(vec![s]));
                    }
                    return ok(V::c(V::i(0, 255), 0, LMAX).with(l));
                }
                return ok(if dt == usize::MAX { V::top() } else { self.top_of(dt) }.with(l));
            }
            "must_use" | "black_box" => return ok(a[0].clone()),
            "min" | "max" if a.len() == 2 => {
                let (x, y) = (self.strip(&a[0]), self.strip(&a[1]));
                if let (Some((x0, x1)), Some((y0, y1))) = (x.int(), y.int()) {
                    let v = if name == "min" { V::i(x0.min(y0), x1.min(y1)) } else { V::i(x0.max(y0), x1.max(y1)) };
                    let v = if if name == "min" { x1 <= y0 } else { x0 >= y1 } {
                        v.tok(x.tok)
                    } else if if name == "min" { y1 <= x0 } else { y0 >= x1 } {
                        v.tok(y.tok)
                    } else {
                        v
                    };
                    return ok(v.with(lab));
                }
                if let (Some(x), Some(y)) = (x.fl(), y.fl()) {
                    return ok(V::f(if name == "min" { x.fmin(&y) } else { x.fmax(&y) }).with(lab));
                }
                return ok(a[0].join(&a[1]).with(lab));
            }
            "clamp" if a.len() == 3 => {
                if let (Some((x0, x1)), Some((l0, l1)), Some((h0, h1))) = (a[0].int(), a[1].int(), a[2].int()) {
                    if l1 > h0 {
                        self.ev("clamp", format!("bounds [{},{}] .. [{},{}]", l0, l1, h0, h1));
                    }
                    return ok(V::i(x0.max(l0).min(h1), x1.min(h1).max(l0)).with(lab));
                }
                return ok(a[0].join(&a[1]).join(&a[2]).with(lab));
            }
            // --- clone / conversions ---
            "clone" | "to_owned" => {
                // one level of reference is consumed
                let v = self.load(&a[0]);
                if let K::Top = v.k {
                    return ok(V::top().with(self.deep(&a[0])));
                }
                return ok(v);
            }
            "to_vec" | "into_vec" | "into_boxed_slice" => {
                return ok(self.strip(&a[0]));
            }
            "box_assume_init_into_vec_unsafe" => return ok(self.strip(&a[0])),
            "new_uninit" if base.contains("Box") => {
                let o = self.temp(V::bot());
                return ok(V::r(vec![Loc::base(o)]));
            }
            "new" if base.contains("boxed::Box") => {
                return ok(V::rdet(a[0].clone()));
            }
            "to_string" => {
                let s = self.strip(&a[0]);
                let l = self.deep(&a[0]);
                if let K::C(c) = &s.k {
                    if c.s.is_some() {
                        return ok(s.clone().with(l));
                    }
                }
                return ok(V::c(V::i(0, 255), 0, LMAX).with(l));
            }
            "from" | "into" | "try_from" | "try_into" => {
                if dt != usize::MAX {
                    if let (Some((x0, x1)), Some((lo, hi))) = (a[0].int(), self.irange(dt)) {
                        if x0 >= lo && x1 <= hi {
                            return ok(a[0].clone());
                        }
                    }
                    if let K::C(_) = &self.strip(&a[0]).k {
                        if matches!(self.p.adt_def(dt), Some("std::string::String" | "std::vec::Vec")) {
                            return ok(self.strip(&a[0]));
                        }
                    }
                    if let (Some((x0, x1)), TyK::Float { bits }) = (a[0].int(), self.p.ty(dt)) {
                        return ok(V::f(Fl::new(x0 as f64, x1 as f64, false).round_to(*bits)).with(lab));
                    }
                    if let (Some(x), TyK::Float { .. }) = (a[0].fl(), self.p.ty(dt)) {
                        return ok(V::f(x).with(lab));
                    }
                }
                return M::No;
            }
            "default" => {
                if dt != usize::MAX {
                    return ok(match self.p.ty(dt) {
                        TyK::Int { .. } | TyK::Bool => V::i(0, 0),
                        TyK::Float { .. } => V::f(Fl::c(0.0)),
                        _ => match self.p.adt_def(dt) {
                            Some("std::vec::Vec" | "std::string::String" | "std::collections::HashMap" | "std::collections::BTreeMap") => V::c(V::bot(), 0, 0),
                            Some("std::option::Option") => V::none(),
                            _ => self.top_of(dt),
                        },
                    });
                }
                return M::No;
            }
            "as_ref" | "as_mut" | "as_deref" | "as_deref_mut" if base.contains("option::Option") => {
                let v = self.load(&a[0]);
                let K::E(e) = &v.k else { return ok(V::top().with(v.all())) };
                let mut vs = vec![];
                if e.vs.contains_key(&0) {
                    vs.push((0, vec![]));
                }
                if e.vs.contains_key(&1) {
                    vs.push((1, vec![self.ref_child(&a[0], Pj::V(1, 0))]));
                }
                return ok(V::ed(v.dlab(), vs));
            }
            "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "as_slice" | "as_mut_slice" | "as_str" | "as_bytes" | "deref" | "deref_mut" => {
                return ok(a[0].clone());
            }
            // --- Try ---
            "branch" => {
                let K::E(e) = &a[0].k else { return M::No };
                let res = c.path.contains("Result");
                let (good, bad) = if res { (0, 1) } else { (1, 0) };
                let mut vs = vec![];
                if let Some(f) = e.vs.get(&good) {
                    vs.push((0, f.clone()));
                }
                if let Some(f) = e.vs.get(&bad) {
                    vs.push((1, vec![V::e(vec![(bad, f.clone())])]));
                }
                return ok(V::ed(e.dl, vs).with(a[0].lab));
            }
            "from_residual" => {
                if dt == usize::MAX {
                    return M::No;
                }
                let res = self.p.is_result(dt);
                return ok(if res {
                    let t = self.top_of(dt);
                    let p = match &t.k {
                        K::E(e) => e.vs.get(&1).and_then(|v| v.first()).cloned().unwrap_or(V::top()),
                        _ => V::top(),
                    };
                    // same error type: keep the payload
                    let pay = match &a[0].k {
                        K::E(e) => e.vs.get(&1).and_then(|v| v.first()).cloned(),
                        _ => None,
                    };
                    let pay = match (pay, &p.k) {
                        (Some(x), K::E(_)) if matches!(x.k, K::E(_)) => x,
                        (Some(x), _) => p.with(x.all()),
                        (None, _) => p.with(lab),
                    };
                    V::e(vec![(1, vec![pay])])
                } else {
                    V::none()
                });
            }
            "from_output" => {
                return ok(if dt != usize::MAX && self.p.is_result(dt) { V::e(vec![(0, vec![a[0].clone()])]) } else { V::some(a[0].clone()) });
            }
            _ => {}
        }
        // --- Option / Result ---
        if base.contains("option::Option") || base.contains("result::Result") {
            return self.optres(c, name, a, ops, dt);
        }
        // --- comparisons ---
        match name {
            "eq" | "ne" | "lt" | "le" | "gt" | "ge" if base.contains("cmp::Partial") => {
                let (x, y) = (self.strip(&a[0]), self.strip(&a[1]));
                let op: &'static str = match name {
                    "eq" => "Eq",
                    "ne" => "Ne",
                    "lt" => "Lt",
                    "le" => "Le",
                    "gt" => "Gt",
                    _ => "Ge",
                };
                let (ox, oy) = (self.ref_opd(&a[0]), self.ref_opd(&a[1]));
                if matches!((&x.k, &y.k), (K::I(..), K::I(..)) | (K::F(_), K::F(_))) {
                    let v = self.bin(op, &x, &y, 0);
                    return okf(v, BF::Cmp(op, ox, oy));
                }
                if let (K::C(p), K::C(q)) = (&x.k, &y.k) {
                    if let (Some(s), Some(t)) = (&p.s, &q.s) {
                        let e = s == t;
                        if op == "Eq" || op == "Ne" {
                            return ok(V::b(e == (op == "Eq")).with(x.lab.or(y.lab)));
                        }
                    }
                }
                let l = self.deep(&a[0]).or(self.deep(&a[1]));
                return ok(V::boolt().with(l));
            }
            "partial_cmp" | "total_cmp" => return ok(self.cmp_val(&a[0], &a[1], name == "partial_cmp")),
            "cmp" => return ok(self.cmp_val(&a[0], &a[1], false)),
            "then" | "then_with" | "reverse" | "is_lt" | "is_le" | "is_gt" | "is_ge" | "is_eq" | "is_ne"
                if base.contains("Ordering") =>
            {
                let mut l = lab;
                if name == "reverse" && self.orders() {
                    self.ev("cmp-other", String::new());
                }
                if name == "then_with" {
                    if let Some(r) = self.call_clo(&a[1], vec![]) {
                        l = l.or(r.all());
                    }
                }
                if let (K::E(e), true) = (&a[0].k, self.ordm) {
                    // exact: less, equal, greater
                    let has = |i: u32| e.vs.contains_key(&i);
                    let of = |b: [bool; 3]| V::e((0..3u32).filter(|i| b[*i as usize]).map(|i| (i, vec![])).collect());
                    if name == "reverse" {
                        return ok(of([has(2), has(1), has(0)]).with(l));
                    }
                    if name.starts_with("then") && !has(1) {
                        return ok(of([has(0), false, has(2)]).with(l));
                    }
                }
                if name.starts_with("is_") {
                    return ok(V::boolt().with(l));
                }
                return ok(V::e((0..3).map(|i| (i, vec![])).collect()).with(l));
            }
            "then" | "then_some" if base.contains("<impl bool>") => {
                let cl = a[0].all();
                let (no, yes) = a[0].int().map_or((true, true), |(x, y)| (x == 0, y != 0));
                let mut vs = vec![];
                if no {
                    vs.push((0, vec![]));
                }
                if yes {
                    let entry = self.f().st.clone();
                    let b = match ops.first().and_then(|o| o.place()) {
                        Some(p) if p.p.is_empty() => self.f().st.facts.get(&(p.l as u32)).and_then(|f| f.b.clone()),
                        _ => None,
                    };
                    if b.map_or(true, |b| self.assume(&b, true)) {
                        let save = self.f().pc;
                        self.fr().pc = save.or(cl);
                        let v = if name == "then" { self.call_clo(&a[1], vec![]) } else { ops.get(1).map(|o| self.known(o)).or(Some(a[1].clone())) };
                        self.fr().pc = save;
                        if let Some(v) = v {
                            vs.push((1, vec![v]));
                        }
                        if no {
                            let mut st = self.f().st.clone();
                            st.join_from(&entry, false);
                            self.fr().st = st;
                        }
                    } else {
                        self.fr().st = entry;
                    }
                }
                if vs.is_empty() {
                    return M::Div;
                }
                return ok(V::ed(cl, vs).with(a[0].lab));
            }
            "swap" if base.contains("mem::") => {
                let (x, y) = (self.load(&a[0]), self.load(&a[1]));
                self.store(&a[0], y, false);
                self.store(&a[1], x, false);
                return ok(V::unit());
            }
            "replace" | "take" if base.contains("mem::") => {
                let x = self.load(&a[0]);
                let n = if name == "replace" {
                    a[1].clone()
                } else {
                    match &x.k {
                        K::C(_) => V::c(V::bot(), 0, 0),
                        K::F(_) => V::f(Fl::c(0.0)),
                        K::I(..) => V::i(0, 0),
                        K::E(_) => V::none(),
                        _ => V::top().with(x.all()),
                    }
                };
                self.store(&a[0], n, false);
                return ok(x);
            }
            "drop" | "forget" if a.len() == 1 => return ok(V::unit()),
            "add" | "sub" | "mul" | "div" | "rem" | "neg" if base.starts_with("std::ops::") => {
                let x = self.strip(&a[0]);
                let y = a.get(1).map(|y| self.strip(y)).unwrap_or(V::bot());
                let op = match name {
                    "add" => "Add",
                    "sub" => "Sub",
                    "mul" => "Mul",
                    "div" => "Div",
                    "rem" => "Rem",
                    _ => "",
                };
                if dt != usize::MAX && (matches!(x.k, K::F(_)) || matches!(x.k, K::I(..))) && !op.is_empty() {
                    if matches!(op, "Div" | "Rem") {
                        if let Some((p, q)) = y.int() {
                            if p <= 0 && q >= 0 {
                                self.ev(if op == "Div" { "div0" } else { "rem0" }, "ops trait".into());
                            }
                        }
                    }
                    let v = self.bin(op, &x, &y, dt);
                    return ok(v);
                }
                return ok(if dt == usize::MAX { V::top() } else { self.top_of(dt) }.with(x.all().or(y.all())));
            }
            "add_assign" | "sub_assign" | "mul_assign" | "div_assign" | "rem_assign" => {
                let x = self.load(&a[0]);
                let y = self.strip(&a[1]);
                let op = match name {
                    "add_assign" => "Add",
                    "sub_assign" => "Sub",
                    "mul_assign" => "Mul",
                    "div_assign" => "Div",
                    _ => "Rem",
                };
                let v = match (&x.k, &y.k) {
                    (K::F(_), K::F(_)) | (K::I(..), K::I(..)) => {
                        let t = match self.p.ty(self.op_ty(&ops[0])) {
                            TyK::Ref { t, .. } => *t,
                            _ => self.op_ty(&ops[0]),
                        };
                        self.bin(op, &x, &y, t)
                    }
                    (K::S(p), _) => {
                        V::s(p.iter().map(|_| V::f(Fl::TOP)).collect()).with(x.all().or(y.all()))
                    }
                    _ => V::top().with(x.all().or(y.all())),
                };
                self.store(&a[0], v, false);
                return ok(V::unit());
            }
            "contains" if base.contains("Range") => {
                let r = self.strip(&a[0]);
                let o = self.ref_opd(&a[1]);
                let l = r.all().or(o.v.all());
                if let K::S(x) = &r.k {
                    if x.len() == 3 {
                        let t1 = self.bin("Ge", &o.v, &x[0], 0);
                        let t2 = self.bin("Le", &o.v, &x[1], 0);
                        let v = match (t1.int(), t2.int()) {
                            (Some(p), Some(q)) => V::i(p.0.min(q.0), p.1.min(q.1)),
                            _ => V::boolt(),
                        };
                        return okf(v.with(l), BF::In(o, x[0].clone(), x[1].clone()));
                    }
                    if x.len() == 2 {
                        let hi = match &x[1].k {
                            K::I(p, q) => V::i(p - 1, q - 1),
                            _ => x[1].clone(),
                        };
                        return okf(V::boolt().with(l), BF::In(o, x[0].clone(), hi));
                    }
                }
                return ok(V::boolt().with(l));
            }
            "new" if base.contains("RangeInclusive") => {
                return ok(V::s(vec![a[0].clone(), a[1].clone(), V::b(false)]))
            }
            "call" | "call_mut" | "call_once" if base.contains("ops::Fn") || base.contains("function::") => {
                let args = match &a[1].k {
                    K::S(x) => (**x).clone(),
                    _ => vec![],
                };
                let args = args.into_iter().map(|x| x.with(a[1].lab)).collect();
                return match self.call_clo(&a[0], args) {
                    Some(v) => ok(v),
                    None => M::Div,
                };
            }
            _ => {}
        }
        // --- rustfft ---
        if base.starts_with("rustfft::") || c.krate == "rustfft" || c.krate == "num_complex" {
            match name {
                "process" | "process_with_scratch" | "process_outofplace_with_scratch" => {
                    let l = a.iter().fold(Lab::NONE, |l, v| l.or(self.deep(v)));
                    for x in a.iter().skip(1) {
                        let cur = self.load(x);
                        if let K::C(cc) = &cur.k {
                            let el = V::s(vec![V::f(Fl::TOP), V::f(Fl::TOP)]).with(l);
                            let mut c2 = (**cc).clone();
                            c2.el = cc.el.join(&el);
                            self.store(x, V { lab: Lab::NONE, tok: UNK, k: K::C(Rc::new(c2)) }, false);
                        } else {
                            self.store(x, V::top().with(l), true);
                        }
                    }
                    return ok(V::unit());
                }
                "plan_fft_forward" | "plan_fft_inverse" | "plan_fft" => {
                    return ok(V::top().with(lab));
                }
                "new" if base.contains("Complex") => return ok(V::s(vec![a[0].clone(), a[1].clone()])),
                "new" => return ok(V::top()),
                "norm" | "norm_sqr" | "abs" => {
                    let l = self.deep(&a[0]);
                    return ok(V::f(Fl::new(0.0, INF, true)).with(l));
                }
                "conj" => {
                    let l = self.deep(&a[0]);
                    return ok(V::s(vec![V::f(Fl::TOP), V::f(Fl::TOP)]).with(l));
                }
                _ => return M::No,
            }
        }
        self.collections(c, name, a, ops, dt, lab, dbits)
    }

    fn optres(&mut self, c: &Callee, name: &str, a: &[V], ops: &[Op], dt: usize) -> M {
        let base = c.base.as_str();
        let res = base.contains("result::Result");
        let (good, bad) = if res { (0u32, 1u32) } else { (1, 0) };
        let isref = matches!(a[0].k, K::R(_));
        let v = if isref { self.load(&a[0]) } else { a[0].clone() };
        let top = |me: &Self, l: Lab| ok(if dt == usize::MAX { V::top() } else { me.top_of(dt) }.with(l));
        let K::E(e) = &v.k else {
            let l = a.iter().fold(Lab::NONE, |l, x| l.or(self.deep(x)));
            // closures may run
            return top(self, l);
        };
        let e = e.clone();
        let has = |k: u32| e.vs.contains_key(&k);
        let pay = |k: u32| -> Option<V> {
            e.vs.get(&k).map(|f| f.first().cloned().unwrap_or(V::unit()).with(v.lab))
        };
        let dl = v.dlab();
        let clo = |me: &mut Self, f: &V, args: Vec<V>| -> Option<V> {
            let save = me.f().pc;
            let pre = me.f().st.clone();
            if e.vs.len() > 1 {
                me.fr().pc = save.or(dl);
            }
            let r = me.call_clo(f, args);
            me.fr().pc = save;
            if e.vs.len() > 1 {
                let cur = me.f().st.clone();
                let mut p = pre;
                p.join_from(&cur, false);
                me.fr().st = p;
            }
            r
        };
        match name {
            "is_some" | "is_ok" | "is_none" | "is_err" => {
                let want = match name {
                    "is_some" | "is_ok" => good,
                    _ => bad,
                };
                let t = has(want);
                let f = e.vs.keys().any(|k| *k != want);
                let b = V::i(!f as i128, t as i128).with(dl);
                let ls = self.ref_al(&self.peel(&a[0]));
                okf(b, BF::Var(ls, want))
            }
            "unwrap" | "expect" => {
                if has(bad) {
                    self.ev("unwrap", format!("{}", base));
                }
                match pay(good) {
                    Some(p) => ok(p),
                    None => M::Div,
                }
            }
            "unwrap_err" => match pay(bad) {
                Some(p) => ok(p),
                None => M::Div,
            },
            "unwrap_or" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    r = r.join(&p);
                }
                if has(bad) {
                    r = r.join(&a[1]);
                }
                ok(if e.vs.len() > 1 { r.with(dl) } else { r })
            }
            "unwrap_or_default" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    r = r.join(&p);
                }
                if has(bad) {
                    let d = if dt == usize::MAX {
                        V::top()
                    } else {
                        match self.p.ty(dt) {
                            TyK::Int { .. } | TyK::Bool => V::i(0, 0),
                            TyK::Float { .. } => V::f(Fl::c(0.0)),
                            TyK::Tuple { ts } => {
                                let ts = ts.clone();
                                V::s(ts.iter().map(|t| match self.p.ty(*t) {
                                    TyK::Int { .. } | TyK::Bool => V::i(0, 0),
                                    TyK::Float { .. } => V::f(Fl::c(0.0)),
                                    TyK::Adt { def, .. } if def == "std::vec::Vec" => V::c(V::bot(), 0, 0),
                                    TyK::Adt { def, .. } if def == "std::option::Option" => V::none(),
                                    _ => self.top_of(*t),
                                }).collect())
                            }
                            _ => match self.p.adt_def(dt) {
                                Some("std::vec::Vec" | "std::string::String") => V::c(V::bot(), 0, 0),
                                Some("std::option::Option") => V::none(),
                                _ => self.top_of(dt),
                            },
                        }
                    };
                    r = r.join(&d);
                }
                ok(if e.vs.len() > 1 { r.with(dl) } else { r })
            }
            "unwrap_or_else" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    r = r.join(&p);
                }
                if has(bad) {
                    let args = if res { vec![pay(bad).unwrap()] } else { vec![] };
                    if let Some(x) = clo(self, &a[1], args) {
                        r = r.join(&x);
                    }
                }
                if r.is_bot() {
                    return M::Div;
                }
                ok(if e.vs.len() > 1 { r.with(dl) } else { r })
            }
            "map" => match self.map_opt(&v, good, &a[1], Some(good)) {
                Some(r) => ok(r),
                None => M::Div,
            },
            "and_then" => match self.map_opt(&v, good, &a[1], None) {
                Some(r) => ok(r),
                None => M::Div,
            },
            "map_err" => match self.map_opt(&v, 1, &a[1], Some(1)) {
                Some(r) => ok(r),
                None => M::Div,
            },
            "or_else" => {
                if res {
                    match self.map_opt(&v, 1, &a[1], None) {
                        Some(r) => ok(r),
                        None => M::Div,
                    }
                } else {
                    let mut r = V::bot();
                    if let Some(p) = pay(1) {
                        r = V::some(p);
                    }
                    if has(0) {
                        if let Some(x) = clo(self, &a[1], vec![]) {
                            r = r.join(&x);
                        }
                    }
                    ok(add_dl(r, Lab::NONE, dl))
                }
            }
            "or" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    r = V::e(vec![(good, vec![p])]);
                }
                if has(bad) {
                    r = r.join(&a[1]);
                }
                ok(add_dl(r, Lab::NONE, dl))
            }
            "ok_or" | "ok_or_else" => {
                let mut vs = vec![];
                if let Some(p) = pay(1) {
                    vs.push((0, vec![p]));
                }
                if has(0) {
                    let x = if name == "ok_or" { Some(a[1].clone()) } else { clo(self, &a[1], vec![]) };
                    if let Some(x) = x {
                        vs.push((1, vec![x]));
                    }
                }
                ok(V::ed(dl, vs))
            }
            "ok" | "err" => {
                let want = if name == "ok" { 0 } else { 1 };
                let mut vs = vec![];
                if let Some(p) = pay(want) {
                    vs.push((1, vec![p]));
                }
                if has(1 - want) {
                    vs.push((0, vec![]));
                }
                ok(V::ed(dl, vs))
            }
            "copied" | "cloned" => {
                let mut vs = vec![];
                if let Some(p) = pay(good) {
                    vs.push((good, vec![self.load(&p)]));
                }
                if let Some(p) = e.vs.get(&bad) {
                    vs.push((bad, p.clone()));
                }
                ok(V::ed(dl, vs))
            }
            "filter" => {
                let mut r = V::none();
                let mut l = dl;
                if let Some(mut p) = pay(1) {
                    let o = self.temp(p.clone());
                    self.yes = vec![];
                    if let Some(t) = clo(self, &a[1], vec![V::r(vec![Loc::base(o)])]) {
                        l = l.or(t.all());
                        if let (true, Some(y)) = (self.rngm, self.yes.iter().find(|y| y.0 == o && !y.1.has_refs())) {
                            p = y.1.clone().with(p.lab).tok(p.tok);
                        }
                        r = r.join(&V::some(p));
                    }
                }
                ok(add_dl(r, Lab::NONE, l))
            }
            "map_or" | "map_or_else" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    if let Some(x) = clo(self, &a[2], vec![p]) {
                        r = r.join(&x);
                    }
                }
                if has(bad) {
                    let d = if name == "map_or" {
                        Some(a[1].clone())
                    } else {
                        let args = if res { vec![pay(bad).unwrap()] } else { vec![] };
                        clo(self, &a[1], args)
                    };
                    if let Some(d) = d {
                        r = r.join(&d);
                    }
                }
                ok(if e.vs.len() > 1 { r.with(dl) } else { r })
            }
            "is_some_and" | "is_ok_and" | "is_none_or" => {
                let mut r = V::bot();
                if let Some(p) = pay(good) {
                    if let Some(x) = clo(self, &a[1], vec![p]) {
                        r = r.join(&x);
                    }
                }
                if has(bad) {
                    r = r.join(&V::b(name == "is_none_or"));
                }
                ok(r.with(dl))
            }
            "take" => {
                self.store(&a[0], V::none(), false);
                ok(v.clone())
            }
            "replace" | "insert" => {
                self.store(&a[0], V::some(a[1].clone()), false);
                ok(if name == "replace" { v.clone() } else { self.ref_child(&a[0], Pj::V(1, 0)) })
            }
            "get_or_insert_with" => M::No,
            "flatten" | "transpose" | "and" | "zip" | "xor" => {
                let l = a.iter().fold(Lab::NONE, |l, x| l.or(self.deep(x)));
                if name == "flatten" {
                    if let Some(p) = pay(good) {
                        let mut r = p;
                        if has(bad) {
                            r = r.join(&V::none());
                        }
                        return ok(add_dl(r, Lab::NONE, dl));
                    }
                }
                if name == "zip" {
                    if let (Some(p), K::E(f)) = (pay(1), &a[1].k) {
                        let mut r = V::bot();
                        if has(0) || f.vs.contains_key(&0) {
                            r = r.join(&V::none());
                        }
                        if let Some(q) = f.vs.get(&1) {
                            r = r.join(&V::some(V::s(vec![p, q[0].clone()])));
                        }
                        return ok(add_dl(r, Lab::NONE, dl.or(a[1].dlab())));
                    }
                }
                top(self, l)
            }
            "iter" | "into_iter" | "iter_mut" => ok(self.as_iter(&a[0])),
            "inspect" | "inspect_err" => ok(v.clone()),
            "clone" => ok(v.clone()),
            "eq" | "ne" => {
                let l = a.iter().fold(Lab::NONE, |l, x| l.or(self.deep(x)));
                ok(V::boolt().with(l))
            }
            _ => {
                let _ = ops;
                M::No
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn collections(&mut self, c: &Callee, name: &str, a: &[V], ops: &[Op], dt: usize, lab: Lab, dbits: u32) -> M {
        let m = self.collections_(c, name, a, ops, dt, lab, dbits);
        if c.base.contains("iter::") || c.path.contains("Iterator") {
            // taken from by reference: less may be left
            if matches!(name, "by_ref" | "nth" | "any" | "all" | "find" | "find_map" | "position" | "rposition" | "rfind" | "nth_back" | "try_fold" | "try_for_each" | "next_if" | "next_if_eq" | "next_chunk" | "advance_by") && matches!(a.first().map(|x| &x.k), Some(K::R(_))) {
                let r = self.peel(&a[0]);
                let cur = self.load(&r);
                match &cur.k {
                    K::It(x) if x.lo > 0 => {
                        let mut y = (**x).clone();
                        y.lo = 0;
                        self.store(&r, V { lab: cur.lab, tok: UNK, k: K::It(Rc::new(y)) }, false);
                    }
                    K::S(x) if matches!(x.len(), 2 | 3) => {
                        if let (Some((p, q)), Some((_, h))) = (x[0].int(), x[1].int()) {
                            let mut y = (**x).clone();
                            y[0] = V::i(p, q.max(h)).with(y[0].lab);
                            if y.len() == 3 {
                                y[2] = V::boolt();
                            }
                            self.store(&r, V { lab: cur.lab, tok: UNK, k: K::S(Rc::new(y)) }, false);
                        }
                    }
                    _ => {}
                }
            }
        }
        m
    }
    #[allow(clippy::too_many_arguments)]
    fn collections_(&mut self, c: &Callee, name: &str, a: &[V], ops: &[Op], dt: usize, lab: Lab, dbits: u32) -> M {
        let base = c.base.as_str();
        let is_iter = base.contains("iter::") || c.path.contains("Iterator");
        let is_map = base.contains("HashMap") || base.contains("BTreeMap") || base.contains("hash_map") || base.contains("btree_map") || base.contains("hash::map");
        // ---- iterator adaptors ----
        if is_iter {
            match name {
                "into_iter" | "by_ref" | "fuse" | "peekable" => return ok(self.as_iter(&a[0])),
                "next" | "next_back" | "peek" => {
                    let r = self.peel(&a[0]);
                    let cur = self.load(&r);
                    let (it, l) = self.itr(&cur);
                    if it.el.is_bot() || it.hi == 0 {
                        return ok(V::ed(l, vec![(0, vec![])]));
                    }
                    // certainly not at its end, and seen to move on
                    let some = it.lo >= 1 && name != "peek" && matches!(&r.k, K::R(x) if !x.t.is_empty() && x.det.is_none() && x.sub.is_none()) && match &cur.k {
                        K::It(_) => true,
                        K::S(x) => x.len() < 3 || x[2].cst() == Some(0),
                        _ => false,
                    };
                    let own = if name == "peek" { None } else { self.ref_al(&r).into_iter().find(|l| l.p.is_empty()).map(|l| l.o) };
                    let gaps = own.filter(|_| self.lenm).map_or(vec![], |o| self.f().st.gaps(o));
                    // after advancing, the remaining length is unknown (bounded above)
                    match &cur.k {
                        K::S(x) if some && x.len() == 2 && name == "next" => {
                            let mut y = (**x).clone();
                            if let (Some((p, q)), Some((_, h))) = (y[0].int(), x[1].int()) {
                                y[0] = V::i(p + 1, (q + 1).min(h.max(q))).with(y[0].lab);
                            }
                            self.store(&r, V { lab: cur.lab, tok: cur.tok, k: K::S(Rc::new(y)) }, false);
                        }
                        K::It(x) if name != "peek" => {
                            let mut y = (**x).clone();
                            y.lo = (y.lo - 1).max(0);
                            y.hi = if y.hi >= LMAX || !self.lenm { y.hi } else { y.hi - 1 };
                            self.store(&r, V { lab: cur.lab, tok: UNK, k: K::It(Rc::new(y)) }, false);
                        }
                        K::S(x) if name != "peek" && x.len() >= 2 => {
                            let mut y = (**x).clone();
                            y[0] = y[0].join(&it.el);
                            if let (Some((p, q)), Some((_, h))) = (y[0].int(), x[1].int()) {
                                y[0] = V::i(p, (q + 1).min(h.max(q)));
                            }
                            if y.len() == 3 {
                                y[2] = V::boolt();
                            }
                            self.store(&r, V { lab: cur.lab, tok: cur.tok, k: K::S(Rc::new(y)) }, false);
                        }
                        _ => {}
                    }
                    // at the end of an iterator, lists that grow as it shrinks have a known length
                    let mut f = Fact::default();
                    if let Some(o) = own.filter(|_| !gaps.is_empty()) {
                        let end = gaps.iter().filter(|g| g.1 >= 0).map(|(b, n)| (Al::Len(Loc::base(*b)), V::i(*n, *n))).collect();
                        let mut on: Vec<(Al, V)> = gaps.iter().map(|(b, n)| (Al::Gap(Loc::base(*b), o), V::i(n - 1, n - 1))).collect();
                        on.push((Al::Gap(Loc::base(o), o), V::i(0, 0)));
                        f.b = Some(BF::Imp(if some { vec![(1, on)] } else { vec![(0, end), (1, on)] }));
                    }
                    // the loop test depends on the length; elements carry their own labels
                    if some {
                        return M::Val(V::ed(l, vec![(1, vec![it.el])]), f);
                    }
                    return M::Val(V::ed(l, vec![(0, vec![]), (1, vec![it.el])]), f);
                }
                _ => {}
            }
            if a.is_empty() {
                if name == "empty" {
                    return ok(V::it(V::bot(), 0, 0));
                }
                return M::No;
            }
            if base.contains("Extend") {
                let (it, l) = self.itr(&a[1]);
                let cur = self.load(&a[0]);
                if let K::C(cc) = &cur.k {
                    let el = if is_map { it.el.clone() } else { it.el.clone() };
                    let el = match (&cc.el.k, &el.k) {
                        (K::R(_), _) => el,
                        (_, K::R(_)) => self.load(&el),
                        _ => el,
                    };
                    let mut n = V::c(cc.el.join(&el), cc.lo + it.lo, cc.hi.saturating_add(it.hi)).with(cur.lab.or(l));
                    if let (K::C(x), true) = (&mut n.k, self.ordm) {
                        Rc::make_mut(x).ord = if cc.hi == 0 { it.ord } else if it.hi == 0 { cc.ord } else { 0 };
                    }
                    self.store(&a[0], n, false);
                } else {
                    self.store(&a[0], V::top().with(lab), true);
                }
                return ok(V::unit());
            }
            if name == "repeat" || name == "once" {
                return ok(if name == "once" { V::it(a[0].clone(), 1, 1) } else { V::it(a[0].clone(), LMAX, LMAX) });
            }
            if matches!(name, "from_fn" | "successors" | "repeat_with") {
                return M::No;
            }
            let (it, il) = self.itr(&a[0]);
            let mk = |el: V, lo: i128, hi: i128, l: Lab| ok(V::it(el, lo, hi).with(l));
            let dead = it.el.is_bot() || it.hi == 0;
            match name {
                "map" => {
                    let r = if dead { V::bot() } else { self.many(il, &a[1], vec![it.el.clone()], it.lo > 0) };
                    let o = self.omap(&it, &r);
                    return ok(self.oit(V::it(r, it.lo, it.hi).with(il), o));
                }
                "inspect" | "for_each" => {
                    if !dead {
                        self.many(il, &a[1], vec![it.el.clone()], it.lo > 0);
                    }
                    return if name == "for_each" { ok(V::unit()) } else { ok(a[0].clone()) };
                }
                "filter" | "take_while" | "skip_while" => {
                    if dead {
                        return mk(V::bot(), 0, 0, il);
                    }
                    let (r, el) = self.many_yes(il, &a[1], &it.el, it.lo > 0);
                    let el = if name == "skip_while" { it.el.clone() } else { el };
                    let mut v = V::it(el, 0, it.hi).with(il.or(r.all()));
                    if let K::It(x) = &mut v.k {
                        Rc::make_mut(x).asc = it.asc;
Rc::make_mut(x).ord = it.ord;
                    }
                    if r.cst() == Some(0) {
                        return mk(V::bot(), 0, 0, il.or(r.all()));
                    }
                    return ok(v);
                }
                "filter_map" | "map_while" => {
                    if dead {
                        return mk(V::bot(), 0, 0, il);
                    }
                    let r = self.many(il, &a[1], vec![it.el.clone()], it.lo > 0);
                    let l = il.or(r.dlab());
                    let el = match &r.k {
                        K::E(e) => e.vs.get(&1).and_then(|f| f.first()).cloned().unwrap_or(V::bot()).with(r.lab),
                        K::Bot => V::bot(),
                        _ => V::top().with(r.all()),
                    };
                    let o = self.omap(&it, &el);
                    return ok(self.oit(V::it(el, 0, it.hi).with(l), o));
                }
                "flat_map" | "flatten" => {
                    if dead {
                        return mk(V::bot(), 0, 0, il);
                    }
                    let r = if name == "flat_map" { self.many(il, &a[1], vec![it.el.clone()], it.lo > 0) } else { it.el.clone() };
                    let (i2, l2) = self.itr(&r);
                    return mk(i2.el, 0, LMAX, il.or(l2));
                }
                "enumerate" => {
                    let i = V::i(0, it.hi.max(1) - 1);
                    let o = opre(it.ord, 1);
                    return ok(self.oit(V::it(if dead { V::bot() } else { V::s(vec![i, it.el.clone()]) }, it.lo, it.hi).with(il), o));
                }
                "zip" => {
                    let (i2, l2) = self.itr(&a[1]);
                    let el = if dead || i2.el.is_bot() { V::bot() } else { V::s(vec![it.el.clone(), i2.el]) };
                    let o = if it.ord > 0 { opre(it.ord, 0) } else { opre(i2.ord, 1) };
                    return ok(self.oit(V::it(el, it.lo.min(i2.lo), it.hi.min(i2.hi)).with(il.or(l2)), o));
                }
                "chain" => {
                    let (i2, l2) = self.itr(&a[1]);
                    let o = if i2.hi == 0 { it.ord } else if it.hi == 0 { i2.ord } else { 0 };
                    return ok(self.oit(V::it(it.el.join(&i2.el), it.lo + i2.lo, it.hi.saturating_add(i2.hi)).with(il.or(l2)), o));
                }
                "copied" | "cloned" => {
                    let el = if dead { V::bot() } else { self.load(&it.el) };
                    let mut v = V::it(el, it.lo, it.hi).with(il).tok(self.as_iter(&a[0]).tok);
                    if let K::It(x) = &mut v.k {
                        Rc::make_mut(x).asc = it.asc;
Rc::make_mut(x).ord = it.ord;
                    }
                    return ok(v);
                }
                "rev" if self.ordm => {
                    let wr = dt != usize::MAX && matches!(self.p.ty(dt), TyK::Adt { args, .. } if args.iter().any(|t| matches!(self.p.ty(*t), TyK::Adt { def, .. } if def.contains("IterMut"))));
                    let el = if wr { it.el.clone() } else { self.oflip(&it.el) };
                    return ok(self.oit(V::it(el, it.lo, it.hi).with(il), orev(it.ord)));
                }
                "rev" | "cycle" => {
                    return mk(it.el.clone(), it.lo, if name == "cycle" { LMAX } else { it.hi }, il);
                }
                "take" | "skip" | "step_by" | "nth" => {
                    let (n0, n1) = a[1].int().unwrap_or((0, LMAX));
                    let l = il.or(a[1].all());
                    if name == "step_by" && n0 <= 0 {
                        self.ev("step0", format!("step {:?}", a[1].k_only()));
                    }
                    return match name {
                        "take" => {
                            let mut v = V::it(it.el.clone(), it.lo.min(n0), it.hi.min(n1)).with(l);
                            if let K::It(x) = &mut v.k {
                                Rc::make_mut(x).asc = it.asc;
Rc::make_mut(x).ord = it.ord;
                            }
                            ok(v)
                        }
                        "skip" => ok(self.oit(V::it(self.later(&it.el, dt, n0), it.lo - n1, it.hi - n0).with(l), it.ord)),
                        "step_by" => {
                            let up = |x: i128, n: i128| if x >= LMAX { LMAX } else { (x + n - 1) / n };
                            ok(self.oit(V::it(it.el.clone(), up(it.lo.min(LMAX), n1.clamp(1, LMAX)), up(it.hi, n0.max(1))).with(l), it.ord))
                        }
                        _ => ok(V::opt(it.el.clone(), l)),
                    };
                }
                "scan" => {
                    if dead {
                        return mk(V::bot(), 0, 0, il);
                    }
                    let o = self.temp(a[1].clone());
                    let r = self.many(il, &a[2], vec![V::r(vec![Loc::base(o)]), it.el.clone()], false);
                    let l = il.or(r.dlab());
                    let el = match &r.k {
                        K::E(e) => e.vs.get(&1).and_then(|f| f.first()).cloned().unwrap_or(V::bot()).with(r.lab),
                        _ => V::top().with(r.all()),
                    };
                    return mk(el, 0, it.hi, l);
                }
                "collect" | "partition" | "unzip" => {
                    let d = if dt == usize::MAX { None } else { Some(self.p.ty(dt).clone()) };
                    if let Some(TyK::Adt { def, .. }) = &d {
                        if def == "std::result::Result" || def == "std::option::Option" {
                            // collect into Result<Vec<_>, E>
                            let (g, b) = if def.contains("Result") { (0u32, 1u32) } else { (1, 0) };
                            if let K::E(e) = &it.el.k {
                                let inner = e.vs.get(&g).and_then(|f| f.first()).cloned().unwrap_or(V::bot());
                                // all there, or not at all
                                let seq = matches!(&d, Some(TyK::Adt { args, .. }) if matches!(args.first().map(|t| self.p.ty(*t)), Some(TyK::Adt { def, .. }) if def == "std::vec::Vec"));
                                let mut vs = vec![(g, vec![V::c(inner, if seq { it.lo } else { 0 }, it.hi).with(il)])];
                                if let Some(x) = e.vs.get(&b) {
                                    vs.push((b, x.clone()));
                                }
                                return ok(V::ed(il.or(it.el.dlab()), vs));
                            }
                            return M::No;
                        }
                        if def == "std::string::String" {
                            return ok(V::c(V::i(0, 255), 0, LMAX).with(il.or(self.deep(&it.el))));
                        }
                        let uniq = def.contains("Map") || def.contains("Set") || def.contains("Heap");
                        let mut v = V::c(it.el.clone(), if uniq { it.lo.min(1) } else { it.lo }, it.hi).with(il);
                        if let K::C(x) = &mut v.k {
                            let x = Rc::make_mut(x);
                            x.asc = it.asc || x.hi <= 1;
                            if !uniq && self.ordm {
                                x.ord = it.ord;
                            }
                        }
                        if def.contains("BTreeSet") && self.ordm {
                            v = self.oset(&v);
                        }
                        if !uniq {
                            v = v.tok(self.as_iter(&a[0]).tok);
                        }
                        return ok(v);
                    }
                    if let (Some(TyK::Tuple { ts }), "unzip", K::S(x)) = (&d, name, &it.el.k) {
                        let vecs = ts.iter().all(|t| matches!(self.p.ty(*t), TyK::Adt { def, .. } if def == "std::vec::Vec"));
                        if vecs && ts.len() == 2 && x.len() == 2 {
                            return ok(V::s(x.iter().map(|e| V::c(e.clone(), it.lo, it.hi).with(il)).collect()));
                        }
                    }
                    return M::No;
                }
                "count" | "len" => {
                    return ok(V::i(it.lo, it.hi).with(il));
                }
                "sum" | "product" => {
                    if dead {
                        return ok(if dt != usize::MAX && !matches!(self.p.ty(dt), TyK::Float { .. }) { V::i(0, 0).with(il) } else { V::f(Fl::c(0.0)).with(il) });
                    }
                    if name == "product" {
                        return ok(if dt == usize::MAX { V::top() } else { self.top_of(dt) }.with(il.or(self.deep(&it.el))));
                    }
                    let s = self.sum(&it.el, it.lo, it.hi, dbits).with(il);
                    if let (Some((p, q)), true) = (s.int(), dt != usize::MAX) {
                        if let Some((lo, hi)) = self.irange(dt) {
                            return ok(V::i(p.max(lo), q.min(hi)).with(s.lab));
                        }
                    }
                    return ok(s);
                }
                "fold" => {
                    if dead {
                        return ok(a[1].clone());
                    }
                    let el = it.el.clone();
                    let r = self.fold(il, &a[2], a[1].clone(), &|acc| vec![acc, el.clone()]);
                    return ok(r.with(il));
                }
                "try_fold" | "try_for_each" => return M::No,
                "reduce" => {
                    if dead {
                        return ok(V::none().with(il));
                    }
                    let el = it.el.clone();
                    let r = self.fold(il, &a[1], el.clone(), &|acc| vec![acc, el.clone()]);
                    let mut vs = vec![(1, vec![r])];
                    if it.lo == 0 {
                        vs.push((0, vec![]));
                    }
                    return ok(V::ed(il, vs));
                }
                "any" | "all" => {
                    let (it, il) = {
                        let cur = self.load_if_ref(&a[0]);
                        self.itr(&cur)
                    };
                    if it.el.is_bot() || it.hi == 0 {
                        return ok(V::b(name == "all").with(il));
                    }
                    let r = self.many(il, &a[1], vec![it.el.clone()], false);
                    let v = match r.cst() {
                        Some(0) if name == "any" => V::b(false),
                        Some(1) if name == "all" => V::b(true),
                        _ => V::boolt(),
                    };
                    return ok(v.with(il.or(r.all())));
                }
                "position" | "find" | "find_map" | "rposition" => {
                    let (it, il) = {
                        let cur = self.load_if_ref(&a[0]);
                        self.itr(&cur)
                    };
                    if it.el.is_bot() || it.hi == 0 {
                        return ok(V::none().with(il));
                    }
                    let mut fel = it.el.clone();
                    let r = if name == "find" {
                        let (r, y) = self.many_yes(il, &a[1], &it.el, false);
                        fel = y;
                        r
                    } else {
                        self.many(il, &a[1], vec![it.el.clone()], false)
                    };
                    if name == "find_map" {
                        let mut r = r;
                        r = r.join(&V::none());
                        return ok(add_dl(r, il, Lab::NONE));
                    }
                    let l = il.or(r.all());
                    let p = if name == "find" { fel } else { V::i(0, it.hi - 1) };
                    return ok(V::opt(p, Lab::NONE).with(l));
                }
                "max" | "min" | "last" | "max_by" | "min_by" | "max_by_key" | "min_by_key" => {
                    if dead {
                        return ok(V::none().with(il));
                    }
                    let mut l = il;
                    match name {
                        "max_by" | "min_by" => l = l.or(self.cmp_refs(name, &a[1], &it.el, il)),
                        "max_by_key" | "min_by_key" => {
                            let o = self.temp(it.el.clone());
                            let r = self.many(il, &a[1], vec![V::r(vec![Loc::base(o)])], false);
                            l = l.or(r.all());
                        }
                        _ => {}
                    }
                    if name != "last" {
                        l = l.or(self.deep(&it.el));
                    }
                    let mut vs = vec![(1, vec![it.el.clone()])];
                    if it.lo == 0 {
                        vs.push((0, vec![]));
                    }
                    return ok(V::ed(il, vs).with(l));
                }
                "size_hint" => return M::No,
                "sorted" => return M::No,
                "partial_cmp" | "eq" | "lt" => return ok(V::boolt().with(lab)),
                "is_sorted" | "is_sorted_by" => return ok(V::boolt().with(lab)),
                _ => return M::No,
            }
        }
        // ---- maps ----
        if is_map {
            match name {
                "new" | "with_capacity" => return ok(V::c(V::bot(), 0, 0)),
                "insert" => {
                    let cur = self.load(&a[0]);
                    if let K::C(cc) = &cur.k {
                        let n = V::c(cc.el.join(&V::s(vec![a[1].clone(), a[2].clone()])), cc.lo.max(1), cc.hi + 1).with(cur.lab);
                        let n = n.with(a[1].all());
                        let old = get_path(&cc.el, &[Pj::F(1)]);
                        self.store(&a[0], n, false);
                        return ok(if old.is_bot() { V::none() } else { V::opt(old, cur.lab) });
                    }
                    return M::No;
                }
                "entry" => return ok(V::s(vec![a[0].clone(), a[1].clone()])),
                "or_insert" | "or_insert_with" | "or_default" => {
                    if let K::S(x) = &a[0].k {
                        let d = match name {
                            "or_insert" => a[1].clone(),
                            "or_insert_with" => match self.call_clo(&a[1], vec![]) {
                                Some(v) => v,
                                None => V::bot(),
                            },
                            _ => V::top(),
                        };
                        let cur = self.load(&x[0]);
                        if let K::C(cc) = &cur.k {
                            let kl = x[1].all();
                            let n = V::c(cc.el.join(&V::s(vec![x[1].clone(), d])), cc.lo.max(1), cc.hi + 1).with(cur.lab.or(kl));
                            self.store(&x[0], n, false);
                            let r = self.ref_child(&x[0], Pj::El);
                            return ok(self.ref_child(&r, Pj::F(1)).with(kl));
                        }
                    }
                    return M::No;
                }
                "get" | "get_mut" | "get_key_value" => {
                    let r = self.peel(&a[0]);
                    let cur = self.load(&r);
                    if let K::C(cc) = &cur.k {
                        if cc.el.is_bot() {
                            return ok(V::none().with(cur.lab));
                        }
                        let e = self.ref_child(&r, Pj::El);
                        let v = self.ref_child(&e, Pj::F(1));
                        let kl = self.deep(&a[1]).or(cc.el.all());
                        return ok(V::opt(v, kl.or(cur.lab)).with(self.deep(&a[1])));
                    }
                    return M::No;
                }
                "contains_key" => {
                    let l = self.deep(&a[0]).or(self.deep(&a[1]));
                    return ok(V::boolt().with(l));
                }
                "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_keys" | "into_values" | "drain" => {
                    let r = self.peel(&a[0]);
                    let cur = self.load(&r);
                    if let K::C(cc) = &cur.k {
                        if cc.el.is_bot() {
                            return ok(V::it(V::bot(), 0, 0).with(cur.lab));
                        }
                        let e = self.ref_child(&r, Pj::El);
                        let k = self.ref_child(&e, Pj::F(0));
                        let v = self.ref_child(&e, Pj::F(1));
                        let el = match name {
                            "keys" => k,
                            "values" | "values_mut" => v,
                            _ => V::s(vec![k, v]),
                        };
                        return ok(V::it(el, cc.lo, cc.hi).with(cur.lab));
                    }
                    return M::No;
                }
                "len" | "is_empty" => {}
                _ => return M::No,
            }
        }
        // ---- Vec / slice / str ----
        let rf = a.first().map(|x| self.peel(x));
        let cur = rf.as_ref().map(|r| if matches!(r.k, K::R(_)) { self.load(r) } else { r.clone() });
        let co = cur.as_ref().and_then(|c| match &c.k {
            K::C(x) => Some((**x).clone()),
            _ => None,
        });
        let cl = cur.as_ref().map_or(Lab::NONE, |c| c.lab);
        match name {
            "new" if base.contains("vec::Vec") || base.contains("string::String") || base.contains("HashSet") || base.contains("BTreeSet") || base.contains("VecDeque") => {
                return ok(V::c(V::bot(), 0, 0))
            }
            "with_capacity" => return ok(V::c(V::bot(), 0, 0)),
            "from_elem" => {
                let (p, q) = a[1].int().unwrap_or((0, LMAX));
                return ok(V::c(a[0].clone(), p, q).with(a[1].all()));
            }
            _ => {}
        }
        let (Some(rf), Some(cur)) = (rf, cur) else { return M::No };
        let Some(co) = co else {
            if cur.is_bot() {
                return M::Div;
            }
            return M::No;
        };
        let len_al = {
            let v = self.ref_al(&rf);
            let mut v = v.into_iter().map(Al::Len).collect::<Vec<_>>();
            if let (true, Some(o)) = (matches!(name, "len" | "is_empty" | "first" | "last" | "get" | "split_first" | "split_last" | "index" | "index_mut" | "select_nth_unstable" | "select_nth_unstable_by"), ops.first()) {
                v.extend(self.len_refs(o));
            }
            v
        };
        let mut ord = match name {
            "pop" | "remove" | "truncate" | "dedup" | "retain" | "retain_mut" | "dedup_by" | "dedup_by_key" | "drain" | "split_off" => co.ord,
            _ => 0,
        };
        let setc = |me: &mut Self, el: V, lo: i128, hi: i128, asc: bool, l: Lab, ord: u32| {
            if matches!(&rf.k, K::R(r) if r.sub.is_some()) {
                // through a sub-slice: only some elements, the length stays
                let e = me.ref_child(&rf, Pj::El);
                me.store(&e, el.with(l), true);
                return;
            }
            let mut n = V::c(el, lo, hi).with(cur.lab.or(l));
            if let K::C(x) = &mut n.k {
                let x = Rc::make_mut(x);
                x.asc = asc || x.hi <= 1;
                x.ord = if me.ordm { ord } else { 0 };
                if name == "push" {
                    x.must = co.must | vbit(&a[1]);
                } else if name.starts_with("sort") || matches!(name, "reverse" | "swap" | "extend_from_slice" | "append" | "insert") {
                    x.must = co.must;
                }
            }
            me.store(&rf, n, false);
        };
        match name {
            "len" => M::Val(
                V::i(co.lo, co.hi).with(cl),
                Fact { al: len_al, ..Default::default() },
            ),
            "is_empty" => {
                let v = V::i((co.hi == 0) as i128, (co.lo == 0) as i128).with(cl);
                okf(v, BF::Cmp("Eq", Opd { al: len_al, v: V::i(co.lo, co.hi) }, Opd { al: vec![], v: V::i(0, 0) }))
            }
            "capacity" => ok(V::i(0, LMAX).with(cl)),
            "iter" | "iter_mut" | "into_iter" => ok(self.as_iter(&rf)),
            "chars" | "bytes" | "char_indices" | "lines" | "split_whitespace" => {
                let l = cur.all();
                let hi = if name == "bytes" { 255 } else { 0x10ffff };
                let el = match name {
                    "chars" | "bytes" => V::i(0, hi),
                    "char_indices" => V::s(vec![V::i(0, LMAX), V::i(0, hi)]),
                    _ => V::rdet(V::c(V::i(0, 255), 0, LMAX)),
                };
                ok(V::it(el.with(l), 0, co.hi).with(l))
            }
            "windows" | "chunks" | "chunks_exact" | "rchunks" | "chunks_mut" => {
                let (n0, n1) = a[1].int().unwrap_or((0, LMAX));
                if n0 <= 0 {
                    self.ev("step0", format!("{} size {:?}", name, a[1].k_only()));
                }
                let el = match &rf.k {
                    K::R(r) => {
                        let mut n = (**r).clone();
                        n.sub = Some(match name {
                            "chunks" | "rchunks" | "chunks_mut" => (1, n1),
                            _ => (n0.max(1), n1),
                        });
                        V { lab: rf.lab.or(a[1].all()), tok: UNK, k: K::R(Rc::new(n)) }
                    }
                    _ => return M::No,
                };
                let (n0, n1) = (n0.max(1), n1.clamp(1, LMAX));
                let (lo, hi) = match name {
                    "windows" => (co.lo - n1 + 1, if co.hi >= LMAX { LMAX } else { co.hi - n0 + 1 }),
                    "chunks_exact" => (co.lo / n1, co.hi / n0),
                    _ => ((co.lo + n1 - 1) / n1, if co.hi >= LMAX { LMAX } else { (co.hi + n0 - 1) / n0 }),
                };
                ok(V::it(el, lo.max(0), hi.max(0)).with(cl.or(a[1].all())))
            }
            "push" => {
                let old = self.f().st.pairs.clone();
                let own = self.ref_al(&rf).into_iter().find(|l| l.p.is_empty()).map(|l| l.o);
                ord = self.opush(&co, &a[1]);
                setc(self, co.el.join(&a[1]), co.lo + 1, co.hi + 1, false, Lab::NONE, ord);
                if let Some(o) = own {
                    self.fr().st.longer(o, 1, &old);
                }
                ok(V::unit())
            }
            "push_str" | "push_back" | "push_front" => {
                setc(self, co.el.join(&self.strip(&a[1])), co.lo, LMAX, false, lab, ord);
                ok(V::unit())
            }
            "insert" if a.len() == 3 => {
                setc(self, co.el.join(&a[2]), co.lo + 1, co.hi + 1, false, a[1].all(), ord);
                ok(V::unit())
            }
            "insert" if a.len() == 2 => {
                // set
                if self.ordm && base.contains("BTreeSet") {
                    let el = co.el.join(&a[1]);
                    let n = self.oset(&V::c(el, co.lo.max(1), co.hi + 1).with(cur.lab.or(a[1].all())));
                    self.store(&rf, n, false);
                    return ok(V::boolt().with(cur.all().or(a[1].all())));
                }
                setc(self, co.el.join(&a[1]), co.lo.max(1), co.hi + 1, false, a[1].all(), ord);
                ok(V::boolt().with(cur.all().or(a[1].all())))
            }
            "pop" | "pop_front" | "pop_back" => {
                setc(self, co.el.clone(), (co.lo - 1).max(0), co.hi, co.asc, Lab::NONE, ord);
                let mut vs = vec![];
                if co.lo == 0 {
                    vs.push((0, vec![]));
                }
                if co.hi > 0 && !co.el.is_bot() {
                    vs.push((1, vec![if self.ordm && name != "pop_front" { self.oflip(&co.el) } else { co.el.clone() }]));
                }
                ok(V::ed(cl, vs).with(cl))
            }
            "remove" | "swap_remove" => {
                self.short(true, &V::i(co.lo, co.hi), &a[1]);
                if let Some(o) = ops.get(1) {
                    self.middle(o, &len_al);
                }
                setc(self, co.el.clone(), (co.lo - 1).max(0), co.hi, co.asc && name == "remove", a[1].all(), ord);
                if co.el.is_bot() {
                    return M::Div;
                }
                ok(co.el.clone().with(cl.or(a[1].all())))
            }
            "clear" => {
                self.store(&rf, V::c(V::bot(), 0, 0), false);
                ok(V::unit())
            }
            "truncate" => {
                let (p, q) = a[1].int().unwrap_or((0, LMAX));
                setc(self, co.el.clone(), co.lo.min(p), co.hi.min(q), co.asc, a[1].all(), ord);
                ok(V::unit())
            }
            "resize" => {
                let (p, q) = a[1].int().unwrap_or((0, LMAX));
                setc(self, co.el.join(&a[2]), p, q, false, a[1].all(), ord);
                ok(V::unit())
            }
            "reserve" | "shrink_to_fit" | "reserve_exact" => ok(V::unit()),
            "dedup" => {
                setc(self, co.el.clone(), co.lo.min(1), co.hi, co.asc, co.el.all(), ord);
                ok(V::unit())
            }
            "retain" | "retain_mut" | "dedup_by" | "dedup_by_key" => {
                let el = self.ref_child(&rf, Pj::El);
                let args = if name == "dedup_by" { vec![el.clone(), el] } else { vec![el] };
                let mut nel = co.el.clone();
                let r = if co.el.is_bot() {
                    V::bot()
                } else if self.rngm && name == "retain" && !co.el.has_refs() {
                    let (r, e) = self.many_yes(cl, &a[1], &co.el, co.lo > 0);
                    nel = e;
                    r
                } else {
                    self.many(cl, &a[1], args, co.lo > 0)
                };
                setc(self, nel, 0, co.hi, co.asc, r.all(), ord);
                ok(V::unit())
            }
            "append" | "extend_from_slice" => {
                let o = self.strip(&a[1]);
                if let K::C(oc) = &o.k {
                    ord = if co.hi == 0 { oc.ord } else if oc.hi == 0 { co.ord } else { 0 };
                    setc(self, co.el.join(&oc.el), co.lo + oc.lo, co.hi.saturating_add(oc.hi), false, o.lab, ord);
                    if name == "append" {
                        self.store(&a[1], V::c(V::bot(), 0, 0), false);
                    }
                    return ok(V::unit());
                }
                M::No
            }
            "copy_from_slice" | "clone_from_slice" => {
                let o = self.strip(&a[1]);
                if let K::C(oc) = &o.k {
                    setc(self, co.el.join(&oc.el), co.lo, co.hi, false, o.lab, ord);
                    return ok(V::unit());
                }
                M::No
            }
            "fill" => {
                // whole slice overwritten; through a sub-slice only part
                let whole = matches!(&rf.k, K::R(r) if r.sub.is_none());
                let el = if whole { a[1].clone() } else { co.el.join(&a[1]) };
                if whole {
                    setc(self, el, co.lo, co.hi, false, Lab::NONE, ord);
                } else {
                    let e = self.ref_child(&rf, Pj::El);
                    self.store(&e, a[1].clone(), true);
                }
                ok(V::unit())
            }
            "swap" => {
                let l = a[1].all().or(a[2].all());
                let el = if self.ordm { ountag(&co.el) } else { co.el.clone() };
                setc(self, el, co.lo, co.hi, false, l, ord);
                ok(V::unit())
            }
            "reverse" | "rotate_left" | "rotate_right" => {
                let el = if self.ordm && name == "reverse" {
                    ord = orev(co.ord);
                    self.oflip(&co.el)
                } else if self.ordm {
                    ountag(&co.el)
                } else {
                    co.el.clone()
                };
                setc(self, el, co.lo, co.hi, false, lab_from(&a[1..]), ord);
                ok(V::unit())
            }
            "sort" | "sort_unstable" => {
                let mut el = co.el.clone();
                if self.ordm && matches!(el.k, K::I(..) | K::F(_)) {
                    ord = ocode(&[], false);
                    el = self.otag(&el, ord);
                }
                setc(self, el.with(co.el.all()), co.lo, co.hi, true, Lab::NONE, ord);
                ok(V::unit())
            }
            "sort_by" | "sort_unstable_by" | "sort_by_key" | "sort_unstable_by_key" | "sort_by_cached_key" | "select_nth_unstable_by" | "select_nth_unstable" => {
                if name.starts_with("select") {
                    self.short(true, &V::i(co.lo, co.hi), &a[1]);
                    if let Some(o) = ops.get(1) {
                        self.middle(o, &len_al);
                    }
                }
                let mut l = co.el.all();
                let el = self.ref_child(&rf, Pj::El);
                let mut up = false;
                if !co.el.is_bot() {
                    let f = a.last().unwrap().clone();
                    if name.contains("key") {
                        l = l.or(self.many(cl, &f, vec![el], false).all());
                    } else if name != "select_nth_unstable" {
                        let (r, asc) = self.order(name, &f, &co.el, cl);
                        l = l.or(r);
                        up = asc && matches!(co.el.k, K::F(_) | K::I(..));
                    }
                }
                let asc = !name.starts_with("select") && (up || co.hi <= 1);
                let mut sel = if self.ordm { ountag(&co.el) } else { co.el.clone() };
                if self.ordm && !name.starts_with("select") && !co.el.is_bot() {
                    let f = a.last().unwrap().clone();
                    ord = self.order_of(name.contains("key"), &f, &co.el);
                    if ord > 0 {
                        sel = self.otag(&sel, ord);
                    }
                }
                setc(self, sel.with(l), co.lo, co.hi, asc, Lab::NONE, ord);
                if name.starts_with("select") {
                    let e = self.ref_child(&rf, Pj::El);
                    let part = match &rf.k {
                        K::R(r) => V { lab: rf.lab, tok: rf.tok, k: K::R(Rc::new(Rf { sub: Some((0, LMAX)), ..(**r).clone() })) },
                        _ => V::top(),
                    };
                    return ok(V::s(vec![part.clone(), e, part]).with(l.or(lab_from(&a[1..2]))));
                }
                ok(V::unit())
            }
            "first" | "last" | "first_mut" | "last_mut" => {
                let mut vs = vec![];
                if co.lo == 0 {
                    vs.push((0, vec![]));
                }
                if co.hi > 0 && !co.el.is_bot() {
                    vs.push((1, vec![self.ref_child(&rf, Pj::El)]));
                }
                M::Val(V::ed(cl, vs), at_least(&len_al, &co, 1))
            }
            "get" | "get_mut" | "get_unchecked" => {
                let l = a[1].all();
                let r = self.index(&rf, &co, &a[1]);
                if co.el.is_bot() && a[1].int().is_some() {
                    return ok(V::none().with(cl.or(l)));
                }
                let f = match a[1].cst() {
                    Some(c) => at_least(&len_al, &co, c + 1),
                    _ => Fact::default(),
                };
                M::Val(V::opt(r, cl.or(l)), f)
            }
            "index" | "index_mut" => {
                if co.el.is_bot() && a[1].int().is_some() {
                    self.ev("short", "element of a list that is empty".into());
                    return M::Div;
                }
                self.short(true, &V::i(co.lo, co.hi), &a[1]);
                if let Some(o) = ops.get(1) {
                    self.middle(o, &len_al);
                }
                if let K::S(x) = &a[1].k {
                    for (i, b) in x.iter().take(2).enumerate() {
                        // a fixed bound of the range
                        let inc = (x.len() == 3 && i == 1) as i128;
                        if let Some(c) = b.cst() {
                            if c + inc > co.lo {
                                self.ev("short", format!("range up to {} of a list that may have only {}", c + inc, co.lo));
                            }
                        }
                    }
                }
                ok(self.index(&rf, &co, &a[1]))
            }
            "split_at" | "split_at_mut" => {
                if let Some(c) = a[1].cst() {
                    if c > co.lo {
                        self.ev("short", format!("split at {} of a list that may have only {}", c, co.lo));
                    }
                }
                let (p, q) = a[1].int().unwrap_or((0, LMAX));
                self.ev("split_at", format!("{}", base));
                if let K::R(r) = &rf.k {
                    let x = Rf { sub: Some((p, q)), ..(**r).clone() };
                    let y = Rf { sub: Some(((co.lo - q).max(0), (co.hi - p).max(0))), ..(**r).clone() };
                    let l = rf.lab.or(a[1].all());
                    return ok(V::s(vec![V { lab: l, tok: UNK, k: K::R(Rc::new(x)) }, V { lab: l, tok: UNK, k: K::R(Rc::new(y)) }]));
                }
                M::No
            }
            "split_first" | "split_last" => {
                let mut vs = vec![];
                if co.lo == 0 {
                    vs.push((0, vec![]));
                }
                if co.hi > 0 && !co.el.is_bot() {
                    if let K::R(r) = &rf.k {
                        let x = Rf { sub: Some(((co.lo - 1).max(0), co.hi - 1)), ..(**r).clone() };
                        vs.push((1, vec![V::s(vec![self.ref_child(&rf, Pj::El), V { lab: rf.lab, tok: rf.tok, k: K::R(Rc::new(x)) }])]));
                    }
                }
                ok(V::ed(cl, vs))
            }
            "drain" => {
                let l = a[1].all();
                setc(self, co.el.clone(), 0, co.hi, co.asc, l, ord);
                ok(self.oit(V::it(co.el.clone(), 0, co.hi).with(cl.or(l)), co.ord))
            }
            "split_off" => {
                setc(self, co.el.clone(), 0, co.hi, co.asc, a[1].all(), ord);
                ok(V::c(co.el.clone(), 0, co.hi).with(cl.or(a[1].all())))
            }
            "contains" | "starts_with" | "ends_with" | "eq_ignore_ascii_case" | "is_char_boundary" | "is_sorted" | "is_ascii" => {
                let l = cur.all().or(if a.len() > 1 { self.deep(&a[1]) } else { Lab::NONE });
                ok(V::boolt().with(l))
            }
            "binary_search" | "binary_search_by" | "partition_point" | "binary_search_by_key" => {
                let mut l = cur.all();
                let el = self.ref_child(&rf, Pj::El);
                if let K::Clo(..) = a[1].k {
                    if let TyK::Closure { def, .. } = self.p.ty(if let K::Clo(t, _) = &a[1].k { *t } else { 0 }) {
                        let d = def.clone();
                        self.cmps.insert((d, name.to_string()));
                    }
                    l = l.or(self.many(cl, &a[1], vec![el], false).all());
                } else {
                    l = l.or(self.deep(&a[1]));
                }
                let i = V::i(0, co.hi).with(l);
                ok(if name == "partition_point" { i } else { V::e(vec![(0, vec![i.clone()]), (1, vec![i])]).with(l) })
            }
            "concat" => {
                if let K::C(ic) = &co.el.k {
                    return ok(V::c(ic.el.clone(), 0, LMAX).with(cur.all()));
                }
                ok(V::c(V::top(), 0, LMAX).with(cur.all()))
            }
            "join" | "repeat" | "to_lowercase" | "to_uppercase" | "to_ascii_lowercase" | "to_ascii_uppercase" | "replace" => {
                let l = a.iter().fold(Lab::NONE, |l, x| l.or(self.deep(x)));
                ok(V::c(V::i(0, 255), 0, LMAX).with(l))
            }
            "trim" | "trim_end" | "trim_start" => ok(V::rdet(V::c(V::i(0, 255), 0, co.hi)).with(cur.all())),
            "parse" | "strip_suffix" | "strip_prefix" | "find" | "split_once" | "rfind" => {
                if dt == usize::MAX {
                    return M::No;
                }
                ok(self.top_of(dt).with(cur.all().or(lab)))
            }
            _ => {
                let _ = ops;
                M::No
            }
        }
    }
    fn load_if_ref(&self, v: &V) -> V {
        match &v.k {
            K::R(_) => {
                let x = self.strip(v);
                match x.k {
                    K::It(_) | K::S(_) => x,
                    _ => v.clone(),
                }
            }
            _ => v.clone(),
        }
    }
    // ---- orders of lists ----
    fn oit(&self, mut v: V, o: u32) -> V {
        if let (K::It(x), true, true) = (&mut v.k, self.ordm, o > 0) {
            Rc::make_mut(x).ord = o;
        }
        v
    }
    /// every element marked as one of an ordered list
    fn otag(&mut self, el: &V, o: u32) -> V {
        let (p, desc) = opath(o);
        let t = self.osite(desc);
        with_leaf(&ountag(el), &p, &|v| v.clone().tok(t))
    }
    fn osite(&mut self, desc: bool) -> u128 {
        let k = (self.f().fi, format!("{}{}", self.f().at, desc));
        let i = match self.osites.iter().position(|x| x.0 == k) {
            Some(i) => i,
            None => {
                self.osites.push((k, desc as u32));
                self.osites.len() - 1
            }
        };
        if i < 60 { 1 << (2 * i + 1) } else { UNK }
    }
    /// the direction all these origins agree on
    fn odir(&self, t: u128) -> Option<bool> {
        if t == 0 || t >> 121 != 0 {
            return None;
        }
        let mut d = None;
        for b in (0..121).filter(|b| t >> b & 1 == 1) {
            let x = self.osites.get((b.max(1) - 1) / 2)?;
            let desc = (x.1 == 1) != (b % 2 == 0);
            if b == 0 || d.map_or(false, |y| y != desc) {
                return None;
            }
            d = Some(desc);
        }
        d
    }
    fn oset(&mut self, v: &V) -> V {
        let K::C(c) = &v.k else { return v.clone() };
        let mut c = (**c).clone();
        if matches!(c.el.k, K::I(..) | K::F(_)) {
            c.ord = ocode(&[], false);
            c.el = self.otag(&c.el, c.ord);
        }
        V { lab: v.lab, tok: v.tok, k: K::C(Rc::new(c)) }
    }
    /// elements met in the opposite order
    fn oflip(&self, el: &V) -> V {
        fn go(v: &V) -> V {
            let t = v.tok;
            let tok = if t == 0 || t >> 121 != 0 {
                t
            } else {
                (0..121).filter(|b| t >> b & 1 == 1).fold(0u128, |a, b| a | if b == 0 { 1 } else if b % 2 == 1 { 1 << (b + 1) } else { 1 << (b - 1) })
            };
            let k = match &v.k {
                K::S(x) => K::S(Rc::new(x.iter().map(go).collect())),
                k => k.clone(),
            };
            V { lab: v.lab, tok, k }
        }
        match &el.k {
            K::R(r) if r.sub.is_none() => {
                let x = self.load(el);
                match &x.k {
                    K::C(_) | K::It(_) | K::Clo(..) => el.clone(),
                    _ => V::rdet(go(&x)).with(el.lab),
                }
            }
            _ => go(el),
        }
    }
    /// order of the results of a function applied to elements in order
    fn omap(&self, it: &Itr, r: &V) -> u32 {
        if !self.ordm || it.ord == 0 || r.is_bot() {
            return 0;
        }
        let (p, desc) = opath(it.ord);
        let Some(src) = self.oleaf(&it.el, &p) else { return 0 };
        if src.tok == 0 || src.tok >> 121 != 0 {
            return 0;
        }
        let mut ls = vec![];
        leaves(&self.strip(r), &mut vec![], &mut ls);
        for (q, v) in ls {
            if v.tok != 0 && v.tok & !src.tok == 0 {
                return ocode(&q, desc);
            }
        }
        0
    }
    /// a leaf of an element whose parts may be references
    fn oleaf(&self, v: &V, p: &[u32]) -> Option<V> {
        let v = self.strip(v);
        match (p.first(), &v.k) {
            (None, _) => Some(v),
            (Some(i), K::S(x)) => self.oleaf(x.get(*i as usize)?, &p[1..]),
            _ => None,
        }
    }
    /// order of a list after one more element, taken from an ordered list
    fn opush(&self, co: &Co, e: &V) -> u32 {
        if !self.ordm || co.hi == 0 {
            return 0;
        }
        let mut ls = vec![];
        leaves(e, &mut vec![], &mut ls);
        for (q, v) in ls {
            let Some(d) = self.odir(v.tok) else { continue };
            let o = ocode(&q, d);
            let fits = co.hi <= 1 || co.ord == o;
            if fits && leaf(&co.el, &q).map_or(false, |x| x.tok != 0 && x.tok & !v.tok == 0) {
                return o;
            }
        }
        0
    }
    /// the order a comparator (or key function) sorts into
    fn order_of(&mut self, key: bool, f: &V, el: &V) -> u32 {
        if let K::Clo(t, _) = &self.strip(f).k {
            if let TyK::FnDef { callee } = self.p.ty(*t) {
                let n = &callee.path;
                if (n.ends_with("::total_cmp") || n.ends_with("::cmp") || n.ends_with("::partial_cmp")) && matches!(el.k, K::I(..) | K::F(_)) {
                    return ocode(&[], false);
                }
            }
        }
        let mut ls = vec![];
        leaves(el, &mut vec![], &mut ls);
        let kt = if key { self.clo_ret(f) } else { None };
        for (p, v) in ls {
            let tests: Vec<(V, V)> = match v.k {
                K::F(_) => vec![
                    (V::f(Fl::new(-1e30, -1.0, false)), V::f(Fl::new(1.0, 1e30, false))),
                    (V::f(Fl::new(0.5, 0.5, false)), V::f(Fl::new(0.5000019, 0.5000019, false))),
                ],
                K::I(..) => vec![(V::i(0, 1000), V::i(1001, 1 << 30)), (V::i(7, 7), V::i(8, 8))],
                _ => continue,
            };
            // what the comparator says of (smaller, larger), and of (larger, smaller)
            let (mut up, mut down) = (true, true);
            for (x, y) in tests {
                for sw in [false, true] {
                    let (l, r) = if sw { (&y, &x) } else { (&x, &y) };
                    let (l, r) = (with_leaf(el, &p, &|_| l.clone()), with_leaf(el, &p, &|_| r.clone()));
                    let (a, b) = (self.temp(l), self.temp(r));
                    let (a, b) = (V::r(vec![Loc::base(a)]), V::r(vec![Loc::base(b)]));
                    let c = if key {
                        let (Some(x), Some(y)) = (self.call_clo(f, vec![a]), self.call_clo(f, vec![b])) else { return 0 };
                        self.okey(&x, &y, kt)
                    } else {
                        match self.call_clo(f, vec![a, b]) {
                            Some(V { k: K::E(e), .. }) if e.vs.len() == 1 => *e.vs.keys().next().unwrap() as i32 - 1,
                            _ => 0,
                        }
                    };
                    let c = if sw { -c } else { c };
                    up &= c == -1;
                    down &= c == 1;
                }
            }
            if up || down {
                return ocode(&p, down);
            }
        }
        0
    }
    fn clo_ret(&self, f: &V) -> Option<usize> {
        if let K::Clo(t, _) = &self.strip(f).k {
            if let TyK::Closure { def, .. } = self.p.ty(*t) {
                return self.p.by_name.get(def).map(|fi| self.p.fns[*fi].locals[0].t);
            }
        }
        None
    }
    fn okey(&self, x: &V, y: &V, t: Option<usize>) -> i32 {
        let (x, y) = (self.strip(x), self.strip(y));
        match (&x.k, &y.k) {
            (K::I(a, b), K::I(c, d)) => (d < a) as i32 - (b < c) as i32,
            (K::F(a), K::F(b)) if !a.nan && !b.nan => (b.hi < a.lo) as i32 - (a.hi < b.lo) as i32,
            (K::S(p), K::S(q)) if !p.is_empty() && q.len() == p.len() => match t.map(|t| self.p.ty(t).clone()) {
                Some(TyK::Adt { def, args, .. }) if def.ends_with("cmp::Reverse") => -self.okey(&p[0], &q[0], args.first().copied()),
                Some(TyK::Tuple { ts }) => self.okey(&p[0], &q[0], ts.first().copied()),
                _ => 0,
            },
            _ => 0,
        }
    }
    fn cmp_refs(&mut self, name: &str, f: &V, el: &V, lab: Lab) -> Lab {
        self.order(name, f, el, lab).0
    }
    /// run a comparator on two elements; labels of its result, and whether it
    /// orders ascending (its only comparison is `left.cmp(right)`)
    fn order(&mut self, name: &str, f: &V, el: &V, lab: Lab) -> (Lab, bool) {
        if let K::Clo(t, _) = &self.strip(f).k {
            let n = match self.p.ty(*t) {
                TyK::Closure { def, .. } => def.clone(),
                TyK::FnDef { callee } => callee.path.clone(),
                _ => String::new(),
            };
            self.cmps.insert((n.clone(), name.to_string()));
            if n.ends_with("::total_cmp") || n.ends_with("::cmp") || n.ends_with("::partial_cmp") {
                return (el.all(), n.ends_with("::total_cmp") || n.ends_with("::cmp"));
            }
        }
        let (lv, rv) = (tok_all(el, T_LEFT), tok_all(el, T_RIGHT));
        let (o, q) = (self.temp(lv), self.temp(rv));
        let n = self.f().sub_evs.len();
        let r = self.many(lab, f, vec![V::r(vec![Loc::base(o)]), V::r(vec![Loc::base(q)])], false);
        let (mut up, mut bad) = (false, false);
        for s in &self.f().sub_evs[n.min(self.f().sub_evs.len())..] {
            for e in s.iter() {
                up |= e.kind == "cmp-asc";
                bad |= e.kind == "cmp-desc" || e.kind == "cmp-other";
            }
        }
        (r.all(), up && !bad)
    }
    /// `&v[i]` or `&v[range]`
    fn index(&mut self, rf: &V, co: &Co, ix: &V) -> V {
        match &ix.k {
            K::I(..) => self.ref_child(rf, Pj::El).with(ix.all()),
            K::S(x) => {
                // range forms: Range{start,end}, RangeFrom{start}, RangeTo{end}, RangeInclusive, RangeFull
                let (lo, hi) = match x.len() {
                    2 => match (x[0].int(), x[1].int()) {
                        (Some((s0, s1)), Some((e0, e1))) => ((e0 - s1).max(0), (e1 - s0).max(0)),
                        _ => (0, LMAX),
                    },
                    3 => match (x[0].int(), x[1].int()) {
                        (Some((s0, s1)), Some((e0, e1))) => ((e0 - s1 + 1).max(0), (e1 - s0 + 1).max(0)),
                        _ => (0, LMAX),
                    },
                    1 => (0, co.hi),
                    _ => (co.lo, co.hi),
                };
                match &rf.k {
                    K::R(r) => V {
                        lab: rf.lab.or(ix.all()),
                        tok: UNK,
                        k: K::R(Rc::new(Rf { sub: Some((lo, hi.min(co.hi))), ..(**r).clone() })),
                    },
                    _ => V::rdet(V::top()).with(rf.all().or(ix.all())),
                }
            }
            _ => {
                let l = ix.all();
                match &rf.k {
                    K::R(r) => V {
                        lab: rf.lab.or(l),
                        tok: UNK,
                        k: K::R(Rc::new(Rf { sub: Some((0, co.hi)), ..(**r).clone() })),
                    },
                    _ => V::top().with(l),
                }
            }
        }
    }
}

/// elements in no order any more
fn ountag(v: &V) -> V {
    let k = match &v.k {
        K::S(x) => K::S(Rc::new(x.iter().map(ountag).collect())),
        k => k.clone(),
    };
    V { lab: v.lab, tok: if v.is_bot() { v.tok } else { UNK }, k }
}
fn opre(o: u32, i: u32) -> u32 {
    if o == 0 {
        return 0;
    }
    let (mut p, d) = opath(o);
    p.insert(0, i);
    ocode(&p, d)
}
fn orev(o: u32) -> u32 {
    if o == 0 {
        return 0;
    }
    let (p, d) = opath(o);
    ocode(&p, !d)
}
/// `Some` says that the list has `n` elements, `None` that it has fewer
fn at_least(al: &[Al], co: &Co, n: i128) -> Fact {
    let of = |x: i128, y: i128| -> Vec<(Al, V)> {
        if x <= y { al.iter().map(|p| (p.clone(), V::i(x, y))).collect() } else { vec![] }
    };
    Fact { b: Some(BF::Imp(vec![(0, of(co.lo, co.hi.min(n - 1))), (1, of(co.lo.max(n), co.hi))])), ..Default::default() }
}
fn lab_from(a: &[V]) -> Lab {
    uni(a)
}
pub fn add_dl(v: V, lab: Lab, dl: Lab) -> V {
    match &v.k {
        K::E(e) => {
            let mut e2 = (**e).clone();
            e2.dl = e2.dl.or(dl);
            V { lab: v.lab.or(lab), tok: v.tok, k: K::E(Rc::new(e2)) }
        }
        _ => v.with(lab.or(dl)),
    }
}

pub const T_LEFT: u128 = 1 << 124;
pub const T_RIGHT: u128 = 1 << 125;
fn tok_all(v: &V, t: u128) -> V {
    let k = match &v.k {
        K::S(x) => K::S(Rc::new(x.iter().map(|y| tok_all(y, t)).collect())),
        K::R(r) if r.t.is_empty() => {
            let mut n = (**r).clone();
            n.det = n.det.map(|d| tok_all(&d, t));
            K::R(Rc::new(n))
        }
        K::E(e) => K::E(Rc::new(En { dl: e.dl, vs: e.vs.iter().map(|(k, f)| (*k, f.iter().map(|y| tok_all(y, t)).collect())).collect() })),
        k => k.clone(),
    };
    V { lab: v.lab, tok: t, k }
}

//! Shared machinery of the rules: scenarios over the abstract interpreter,
//! result navigation, reporting.
use crate::interp::*;
use crate::ir::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// One thing that is wrong.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Finding {
    /// stable identification (no line numbers)
    pub key: String,
    pub msg: String,
    pub at: String,
}
#[derive(Default, Clone)]
pub struct Report {
    pub rule: String,
    pub obligations: usize,
    pub discharged: usize,
    pub findings: BTreeSet<Finding>,
    pub samples: Vec<String>,
    pub fns: BTreeSet<String>,
    pub contexts: usize,
    pub blocks: usize,
    pub scenarios: Vec<String>,
    pub unmodeled: BTreeSet<String>,
    /// reasons why the check could not decide (missing anchors)
    pub undecided: Vec<String>,
}
impl Report {
    pub fn ob(&mut self, ok: bool, key: &str, msg: &str, at: &str, sample: impl FnOnce() -> String) {
        self.obligations += 1;
        if ok {
            self.discharged += 1;
            if self.samples.len() < 60 {
                let s = sample();
                if !self.samples.contains(&s) {
                    self.samples.push(s);
                }
            }
        } else {
            self.findings.insert(Finding { key: key.into(), msg: msg.into(), at: at.into() });
        }
    }
    pub fn merge(&mut self, o: Report) {
        self.obligations += o.obligations;
        self.discharged += o.discharged;
        self.findings.extend(o.findings);
        for s in o.samples {
            if self.samples.len() < 60 && !self.samples.contains(&s) {
                self.samples.push(s);
            }
        }
        self.fns.extend(o.fns);
        self.contexts += o.contexts;
        self.blocks += o.blocks;
        self.scenarios.extend(o.scenarios);
        self.unmodeled.extend(o.unmodeled);
        self.undecided.extend(o.undecided);
    }
}

/// setting override
#[derive(Clone, Copy, Debug)]
pub enum Cv {
    B(bool),
    I(i128, i128),
    F(f64, f64),
    None,
    Some,
    Len(i128, i128),
}
/// stage override
#[derive(Clone)]
pub enum Fz {
    Err,
    Ok,
    OkNone,
    Label(usize),
    /// build the returned value
    Ret(fn(&Interp, usize) -> V),
    Fun(Mk),
    /// depending on whether an argument carries the label
    ByLab(usize, Mk, Mk),
}
pub type Mk = std::sync::Arc<dyn Fn(&Interp, usize) -> V + Send + Sync>;
#[derive(Clone, Default)]
pub struct Sc {
    pub name: String,
    pub cfg: Vec<(String, Cv)>,
    pub force: Vec<(String, Fz)>,
    pub args: Vec<(String, Av)>,
    pub watch: Vec<String>,
    /// give every setting its own provenance token
    pub toks: bool,
    /// give every plain argument its own provenance token
    pub argtok: bool,
    pub clock: bool,
    /// follow which tempi lie in the configured range
    pub range: bool,
}
#[derive(Clone, Copy, Debug)]
pub enum Av {
    Len(i128, i128),
    I(i128, i128),
    F(f64, f64),
    /// finite elements in this range
    El(f64, f64),
}
pub const T_ARG: u128 = 1 << 118;
pub const L_SAMPLES: usize = 200;
pub const L_RATE: usize = 201;
pub const L_CLOCK: usize = 202;
pub const L_LOG: usize = 203;
pub const L_STAGE: usize = 210;

pub struct Out {
    pub ret: V,
    pub evs: Vec<Ev>,
    pub watched: BTreeMap<String, Vec<V>>,
    pub forced: BTreeSet<String>,
    pub rep: Report,
}

pub struct Cx<'p> {
    pub p: &'p Prog,
}
impl<'p> Cx<'p> {
    /// a function by its last path segments (public one first)
    pub fn fun(&self, name: &str) -> Option<usize> {
        if let Some(i) = self.p.by_name.get(name) {
            return Some(*i);
        }
        let suf = format!("::{}", name);
        let mut c: Vec<usize> = (0..self.p.fns.len())
            .filter(|i| {
                let f = &self.p.fns[*i];
                f.kind == "fn" && f.name.ends_with(&suf) && !f.name.contains("{closure")
            })
            .collect();
        c.sort_by_key(|i| (!self.p.fns[*i].is_pub, self.p.fns[*i].name.len()));
        c.first().cloned()
    }
    pub fn adt(&self, name: &str) -> Option<usize> {
        let suf = format!("::{}", name);
        (0..self.p.types.len()).find(|t| match self.p.ty(*t) {
            TyK::Adt { def, local: true, .. } => def.ends_with(&suf) || def == name,
            _ => false,
        })
    }
    pub fn fields(&self, t: usize) -> Vec<(String, usize)> {
        match self.p.ty(t) {
            TyK::Adt { vars: Some(v), kind, .. } if kind == "struct" => {
                v[0].fs.iter().map(|f| (f.n.clone(), f.t)).collect()
            }
            _ => vec![],
        }
    }
    pub fn cfg_fields(&self) -> Vec<String> {
        self.adt("AnalysisConfig").map(|t| self.fields(t)).unwrap_or_default().into_iter().map(|x| x.0).collect()
    }
    pub fn fix(&self, n: &str) -> Option<usize> {
        self.cfg_fields().iter().position(|x| x == n)
    }
    /// parameter names of a function
    pub fn params(&self, fi: usize) -> Vec<String> {
        let f = &self.p.fns[fi];
        (0..f.argc).map(|i| f.locals[i + 1].n.clone().unwrap_or_default()).collect()
    }
    pub fn cfg_val(&self, it: &Interp, sc: &Sc) -> V {
        let t = self.adt("AnalysisConfig").expect("AnalysisConfig");
        let fs = self.fields(t);
        let mut v = vec![];
        for (i, (n, ft)) in fs.iter().enumerate() {
            let mut x = it.top_of(*ft);
            for (k, c) in &sc.cfg {
                if k == n {
                    x = match c {
                        Cv::B(b) => V::b(*b),
                        Cv::I(a, b) => V::i(*a, *b),
                        Cv::F(a, b) => V::f(Fl::new(*a, *b, false)),
                        Cv::None => V::none(),
                        Cv::Some => match &x.k {
                            K::E(e) => V::e(vec![(1, e.vs[&1].clone())]),
                            _ => x,
                        },
                        Cv::Len(a, b) => match &x.k {
                            K::C(c) => V::c(c.el.clone(), *a, *b),
                            _ => x,
                        },
                    };
                }
            }
            if let (true, K::F(f)) = (sc.range, &mut x.k) {
                f.rel = match n.as_str() {
                    "min_bpm" => GE,
                    "max_bpm" => LE,
                    _ => 0,
                };
                f.nan &= f.rel == 0;
            }
            x = x.with(Lab::one(i));
            if sc.toks && i < 126 {
                x = x.tok(1 << i);
            }
            v.push(x);
        }
        V::s(v)
    }
    pub fn arg_over(&self, x: V, a: &Av) -> V {
        match (a, &x.k) {
            (Av::I(p, q), _) => V::i(*p, *q).with(x.lab),
            (Av::F(p, q), _) => V::f(Fl::new(*p, *q, false)).with(x.lab),
            (_, K::R(r)) => match &r.det {
                Some(d) => {
                    let mut n = (**r).clone();
                    n.det = Some(self.arg_over(d.clone(), a));
                    V::new(K::R(Rc::new(n))).with(x.lab)
                }
                _ => x,
            },
            (Av::Len(p, q), K::C(c)) => V::c(c.el.clone(), *p, *q).with(x.lab),
            (Av::El(p, q), K::C(c)) => {
                let mut n = (**c).clone();
                n.el = if n.el.fl().is_some() { V::f(Fl::new(*p, *q, false)).with(n.el.lab) } else { self.arg_over(n.el.clone(), a) };
                V::new(K::C(Rc::new(n))).with(x.lab)
            }
            _ => x,
        }
    }
    /// analyse `fname` under the scenario
    pub fn run(&self, fname: &str, sc: &Sc) -> Option<Out> {
        let fi = self.fun(fname)?;
        let mut it = Interp::new(self.p);
        it.rngm = sc.range;
        for (n, z) in &sc.force {
            let Some(g) = self.fun(n) else { continue };
            let rt = self.p.fns[g].locals[0].t;
            let f = match z {
                Fz::Err => Force::Variant(1),
                Fz::Ok => Force::Variant(0),
                Fz::OkNone => Force::Ret(V::e(vec![(0, vec![V::none()])])),
                Fz::Label(l) => Force::Label(Lab::one(*l)),
                Fz::Ret(b) => Force::Ret(b(&it, rt)),
                Fz::Fun(b) => Force::Ret(b(&it, rt)),
                Fz::ByLab(l, a, b) => Force::ByLab(Lab::one(*l), a(&it, rt), b(&it, rt)),
            };
            it.scn.force.insert(self.p.fns[g].name.clone(), f);
        }
        for w in &sc.watch {
            if let Some(g) = self.fun(w) {
                it.scn.watch.insert(self.p.fns[g].name.clone());
            }
        }
        if sc.clock {
            it.scn.clock = Lab::one(L_CLOCK);
            it.scn.log = Lab::one(L_LOG);
        }
        let f = &self.p.fns[fi];
        let names = self.params(fi);
        let cfgt = self.adt("AnalysisConfig");
        let mut args = vec![];
        for i in 0..f.argc {
            let t = f.locals[i + 1].t;
            let mut x = if Some(t) == cfgt {
                self.cfg_val(&it, sc)
            } else {
                it.top_of(t).with(Lab::one(L_SAMPLES + i))
            };
            for (n, a) in &sc.args {
                if *n == names[i] || n.parse::<usize>().ok() == Some(i) {
                    x = self.arg_over(x, a);
                }
            }
            if sc.argtok && Some(t) != cfgt && i < 8 {
                x = x.tok(T_ARG << i);
            }
            args.push(x);
        }
        let s = it.analyze_root(fi, args);
        let mut rep = Report::default();
        rep.contexts = it.analyses;
        rep.blocks = it.reached.len();
        rep.fns = it.visited.iter().map(|i| self.p.fns[*i].name.clone()).collect();
        rep.scenarios.push(sc.name.clone());
        rep.unmodeled = it.unmodeled.keys().cloned().collect();
        let mut watched = BTreeMap::new();
        for w in &sc.watch {
            if let Some(g) = self.fun(w) {
                if let Some(v) = it.watched.get(&self.p.fns[g].name) {
                    watched.insert(w.clone(), v.clone());
                }
            }
        }
        let forced = sc
            .force
            .iter()
            .filter(|(n, _)| self.fun(n).map_or(false, |g| it.forced.contains(&self.p.fns[g].name)))
            .map(|(n, _)| n.clone())
            .collect();
        Some(Out { ret: s.ret.clone(), evs: s.evs.iter().cloned().collect(), watched, forced, rep })
    }
    /// leaves of a struct-typed value: (dotted path, value with inherited labels)
    pub fn leaves(&self, t: usize, v: &V, pre: &str, out: &mut Vec<(String, V)>) {
        let fs = self.fields(t);
        match &v.k {
            K::S(x) if !fs.is_empty() && fs.len() == x.len() => {
                for ((n, ft), y) in fs.iter().zip(x.iter()) {
                    let pth = if pre.is_empty() { n.clone() } else { format!("{}.{}", pre, n) };
                    self.leaves(*ft, &y.clone().with(v.lab), &pth, out);
                }
            }
            _ => out.push((pre.to_string(), v.clone())),
        }
    }
    /// fields of the analysis result on the success path
    pub fn result(&self, o: &Out) -> BTreeMap<String, V> {
        let mut m = vec![];
        if let K::E(e) = &o.ret.k {
            if let Some(ok) = e.vs.get(&0) {
                let t = self.adt("AnalysisResult").expect("AnalysisResult");
                self.leaves(t, &ok[0].clone().with(o.ret.lab), "", &mut m);
            }
        }
        m.into_iter().collect()
    }
    pub fn err_variants(&self, o: &Out) -> BTreeSet<String> {
        let mut r = BTreeSet::new();
        if let K::E(e) = &o.ret.k {
            if e.vs.contains_key(&0) {
                r.insert("Ok".into());
            }
            if let Some(x) = e.vs.get(&1) {
                match (&x[0].k, self.adt("AnalysisError").and_then(|t| self.p.variants(t))) {
                    (K::E(y), Some(vs)) => {
                        for k in y.vs.keys() {
                            r.insert(vs[*k as usize].n.clone());
                        }
                    }
                    _ => {
                        r.insert("?".into());
                    }
                }
            }
        } else {
            r.insert("?".into());
        }
        r
    }
}

pub fn lab_of(v: &V) -> Lab {
    v.all()
}
pub fn sc(name: &str) -> Sc {
    Sc { name: name.into(), ..Sc::default() }
}
impl Sc {
    pub fn c(mut self, n: &str, v: Cv) -> Sc {
        self.cfg.retain(|x| x.0 != n);
        self.cfg.push((n.into(), v));
        self
    }
    pub fn on(self, n: &str) -> Sc {
        self.c(n, Cv::B(true))
    }
    pub fn off(self, n: &str) -> Sc {
        self.c(n, Cv::B(false))
    }
    pub fn f(mut self, n: &str, z: Fz) -> Sc {
        self.force.retain(|x| x.0 != n);
        self.force.push((n.into(), z));
        self
    }
    pub fn a(mut self, n: &str, v: Av) -> Sc {
        self.args.push((n.into(), v));
        self
    }
}

/// run jobs on all cores; results in order
pub fn par<T: Send, R: Send>(jobs: Vec<T>, f: impl Fn(T) -> R + Sync) -> Vec<R> {
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
    let q = std::sync::Mutex::new(jobs.into_iter().enumerate().collect::<std::collections::VecDeque<_>>());
    let out = std::sync::Mutex::new(Vec::new());
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let j = q.lock().unwrap().pop_front();
                    let Some((i, j)) = j else { break };
                    let r = f(j);
                    out.lock().unwrap().push((i, r));
                })
                .unwrap();
        }
    });
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

//! The dumped MIR, parsed.
use serde::Deserialize;
use std::collections::HashMap;

#[derive(Deserialize)]
pub struct RawDump {
    pub types: Vec<Ty>,
    pub fns: Vec<Func>,
    pub statics: Vec<Static>,
    pub unsafes: Vec<Unsafe>,
    pub adts: Vec<AdtD>,
}
#[derive(Deserialize, Clone)]
pub struct Unsafe {
    pub at: String,
    pub what: String,
}
#[derive(Deserialize, Clone)]
pub struct AField {
    pub n: String,
    pub t: String,
    pub attrs: Vec<String>,
}
#[derive(Deserialize, Clone)]
pub struct AImpl {
    pub t: String,
    pub derived: bool,
}
/// a struct or enum of the crate
#[derive(Deserialize, Clone)]
pub struct AdtD {
    pub name: String,
    #[serde(rename = "pub")]
    pub is_pub: bool,
    pub send: bool,
    pub sync: bool,
    pub attrs: Vec<String>,
    pub fields: Vec<AField>,
    pub impls: Vec<AImpl>,
    pub at: String,
}
#[derive(Deserialize, Clone)]
pub struct Static {
    pub name: String,
    #[serde(rename = "mut")]
    pub mutable: bool,
    pub freeze: bool,
    pub ty: String,
}
#[derive(Deserialize, Clone)]
pub struct FieldD {
    pub n: String,
    pub t: usize,
    #[serde(rename = "pub")]
    pub is_pub: bool,
}
#[derive(Deserialize, Clone)]
pub struct VariantD {
    pub n: String,
    pub d: String,
    pub fs: Vec<FieldD>,
}
#[derive(Deserialize, Clone)]
#[serde(tag = "k")]
pub enum TyK {
    #[serde(rename = "bool")]
    Bool,
    #[serde(rename = "char")]
    Char,
    #[serde(rename = "int")]
    Int { signed: bool, bits: u32 },
    #[serde(rename = "float")]
    Float { bits: u32 },
    #[serde(rename = "str")]
    Str,
    #[serde(rename = "never")]
    Never,
    #[serde(rename = "ref")]
    Ref {
        #[serde(rename = "mut")]
        m: bool,
        t: usize,
    },
    #[serde(rename = "ptr")]
    Ptr { t: usize },
    #[serde(rename = "slice")]
    Slice { t: usize },
    #[serde(rename = "array")]
    Array { t: usize, n: Option<u64> },
    #[serde(rename = "tuple")]
    Tuple { ts: Vec<usize> },
    #[serde(rename = "closure")]
    Closure { def: String, ups: Vec<usize> },
    #[serde(rename = "fndef")]
    FnDef { callee: Callee },
    #[serde(rename = "fnptr")]
    FnPtr,
    #[serde(rename = "dyn")]
    Dyn,
    #[serde(rename = "param")]
    Param,
    #[serde(rename = "other")]
    Other,
    #[serde(rename = "adt")]
    Adt {
        kind: String,
        def: String,
        local: bool,
        args: Vec<usize>,
        vars: Option<Vec<VariantD>>,
    },
}
#[derive(Deserialize, Clone)]
pub struct Ty {
    pub s: String,
    #[serde(flatten)]
    pub k: TyK,
}
#[derive(Deserialize, Clone, Debug)]
pub struct Callee {
    pub base: String,
    pub path: String,
    #[serde(rename = "crate")]
    pub krate: String,
    pub local: bool,
    pub targs: Vec<usize>,
    pub rargs: Vec<usize>,
    pub virt: bool,
    #[serde(rename = "unsafe")]
    pub uns: bool,
    pub intr: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pe {
    Deref,
    Field(u32, usize),
    Index(usize),
    ConstIdx(u64, bool),
    Subslice,
    Down(u32),
    Other,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Pe>,
    pub t: usize,
}
#[derive(Clone)]
pub struct Konst {
    pub k: String,
    pub t: usize,
    pub bits: Option<u128>,
    pub s: Option<String>,
    pub vals: Option<Vec<u128>>,
    pub callee: Option<Callee>,
    pub promoted: Option<usize>,
    pub pdef: Option<String>,
    pub name: Option<String>,
    pub stat: Option<String>,
}
#[derive(Clone)]
pub enum Op {
    Cp(Place),
    Mv(Place),
    C(Box<Konst>),
    Rt,
}
impl Op {
    pub fn place(&self) -> Option<&Place> {
        match self {
            Op::Cp(p) | Op::Mv(p) => Some(p),
            _ => None,
        }
    }
}
#[derive(Clone)]
pub enum Rv {
    Use(Op),
    Repeat(Op, Option<u64>),
    Ref(bool, Place),
    RawPtr(Place),
    Tls(String),
    Cast(String, Op, usize),
    Bin(String, Op, Op),
    Un(String, Op),
    Discr(Place),
    Agg(Ak, Vec<Op>),
    Other,
}
#[derive(Clone)]
pub enum Ak {
    Array,
    Tuple,
    Adt(String, u32),
    Closure(String),
    Other,
}
#[derive(Clone)]
pub enum St {
    Assign(Place, Rv, String),
    SetD(Place, u32),
    Dead(usize),
}
#[derive(Clone)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Vec<(u128, usize)>, usize),
    Return,
    Unreachable,
    Resume,
    Drop(Place, usize),
    Call { f: Op, args: Vec<Op>, dest: Place, t: Option<usize>, at: String },
    Assert { o: Op, exp: bool, m: String, mo: Vec<Op>, t: usize, at: String },
    Other,
}
#[derive(Clone)]
pub struct Block {
    pub cleanup: bool,
    pub s: Vec<St>,
    pub t: Tm,
}
#[derive(Deserialize, Clone)]
pub struct LocalD {
    pub t: usize,
    pub n: Option<String>,
}
#[derive(Deserialize, Clone)]
pub struct Func {
    pub name: String,
    pub kind: String,
    pub at: String,
    pub argc: usize,
    pub locals: Vec<LocalD>,
    #[serde(rename = "blocks")]
    pub raw: Vec<serde_json::Value>,
    #[serde(skip)]
    pub blocks: Vec<Block>,
    #[serde(rename = "pub")]
    pub is_pub: bool,
    pub derived: bool,
    pub parent: Option<String>,
    #[serde(rename = "trait")]
    pub trait_: Option<String>,
    #[serde(rename = "unsafe")]
    pub uns: bool,
}

use serde_json::Value as J;
fn us(j: &J) -> usize {
    j.as_u64().expect("uint") as usize
}
fn pplace(j: &J) -> Place {
    let p = j["p"]
        .as_array()
        .unwrap()
        .iter()
        .map(|e| {
            if e.as_str() == Some("*") {
                Pe::Deref
            } else if let Some(f) = e.get("f") {
                Pe::Field(us(f) as u32, us(&e["t"]))
            } else if let Some(i) = e.get("i") {
                Pe::Index(us(i))
            } else if let Some(i) = e.get("ci") {
                Pe::ConstIdx(i.as_u64().unwrap(), e["end"].as_bool().unwrap())
            } else if e.get("sub").is_some() {
                Pe::Subslice
            } else if let Some(v) = e.get("v") {
                Pe::Down(us(v) as u32)
            } else {
                Pe::Other
            }
        })
        .collect();
    Place { l: us(&j["l"]), p, t: us(&j["t"]) }
}
fn pop(j: &J) -> Op {
    if let Some(p) = j.get("cp") {
        Op::Cp(pplace(p))
    } else if let Some(p) = j.get("mv") {
        Op::Mv(pplace(p))
    } else if let Some(c) = j.get("c") {
        let callee = c.get("callee").map(|x| serde_json::from_value(x.clone()).unwrap());
        let st = |k: &str| c.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
        Op::C(Box::new(Konst {
            k: st("k").unwrap(),
            t: us(&c["t"]),
            bits: st("bits").map(|x| x.parse().unwrap()),
            s: st("s"),
            vals: c.get("vals").and_then(|x| x.as_array()).map(|v| {
                v.iter().map(|x| x.as_str().unwrap().parse().unwrap()).collect()
            }),
            callee,
            promoted: c.get("promoted").map(us),
            pdef: st("pdef"),
            name: st("name"),
            stat: st("static"),
        }))
    } else {
        Op::Rt
    }
}
fn prv(j: &J) -> Rv {
    match j["k"].as_str().unwrap() {
        "use" => Rv::Use(pop(&j["o"])),
        "repeat" => Rv::Repeat(pop(&j["o"]), j["n"].as_u64()),
        "ref" => Rv::Ref(j["mut"].as_bool().unwrap(), pplace(&j["p"])),
        "rawptr" => Rv::RawPtr(pplace(&j["p"])),
        "tls" => Rv::Tls(j["d"].as_str().unwrap().into()),
        "cast" => Rv::Cast(j["ck"].as_str().unwrap().into(), pop(&j["o"]), us(&j["t"])),
        "bin" => Rv::Bin(j["op"].as_str().unwrap().into(), pop(&j["a"]), pop(&j["b"])),
        "un" => Rv::Un(j["op"].as_str().unwrap().into(), pop(&j["o"])),
        "discr" => Rv::Discr(pplace(&j["p"])),
        "agg" => {
            let k = match j["ak"].as_str().unwrap() {
                "array" => Ak::Array,
                "tuple" => Ak::Tuple,
                "adt" => Ak::Adt(j["def"].as_str().unwrap().into(), us(&j["v"]) as u32),
                "closure" => Ak::Closure(j["def"].as_str().unwrap().into()),
                _ => Ak::Other,
            };
            Rv::Agg(k, j["os"].as_array().unwrap().iter().map(pop).collect())
        }
        _ => Rv::Other,
    }
}
fn pterm(j: &J) -> Tm {
    let at = || j.get("at").and_then(|x| x.as_str()).unwrap_or("").to_string();
    match j["k"].as_str().unwrap() {
        "goto" => Tm::Goto(us(&j["t"])),
        "switch" => Tm::Switch(
            pop(&j["o"]),
            j["ts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| (p[0].as_str().unwrap().parse().unwrap(), us(&p[1])))
                .collect(),
            us(&j["else"]),
        ),
        "return" => Tm::Return,
        "unreachable" => Tm::Unreachable,
        "resume" => Tm::Resume,
        "drop" => Tm::Drop(pplace(&j["p"]), us(&j["t"])),
        "call" => Tm::Call {
            f: pop(&j["f"]),
            args: j["as"].as_array().unwrap().iter().map(pop).collect(),
            dest: pplace(&j["d"]),
            t: j["t"].as_u64().map(|x| x as usize),
            at: at(),
        },
        "assert" => Tm::Assert {
            o: pop(&j["o"]),
            exp: j["exp"].as_bool().unwrap(),
            m: j["m"].as_str().unwrap().into(),
            mo: j["mo"].as_array().unwrap().iter().map(pop).collect(),
            t: us(&j["t"]),
            at: at(),
        },
        _ => Tm::Other,
    }
}

impl Tm {
    pub fn succs(&self) -> Vec<usize> {
        match self {
            Tm::Goto(t) => vec![*t],
            Tm::Switch(_, ts, e) => ts.iter().map(|x| x.1).chain([*e]).collect(),
            Tm::Drop(_, t) => vec![*t],
            Tm::Call { t: Some(t), .. } => vec![*t],
            Tm::Assert { t, .. } => vec![*t],
            _ => vec![],
        }
    }
}
/// Jump threading: a block that sets a bool local to a constant and then only passes through
/// jumps to a switch on that local goes straight to the switch's target (a semantics-preserving
/// rewrite of the graph, so that `matches!(..)`, `a && b` bound to a variable and a direct
/// `if` are one and the same to the rules).
fn thread_bools(bs: &mut Vec<Block>, types: &[Ty]) {
    use std::collections::{BTreeMap, HashSet};
    let mut taken: HashSet<usize> = HashSet::new();
    for b in bs.iter() {
        for s in &b.s {
            if let St::Assign(_, Rv::Ref(_, p) | Rv::RawPtr(p), _) = s {
                taken.insert(p.l);
            }
        }
    }
    // targets of back edges
    let n = bs.len();
    let mut head = vec![false; n];
    let mut state = vec![0u8; n];
    let mut stack = vec![(0usize, 0usize)];
    if n > 0 {
        state[0] = 1;
    }
    while let Some((b, i)) = stack.pop() {
        let ss = bs[b].t.succs();
        if i < ss.len() {
            stack.push((b, i + 1));
            let t = ss[i];
            match state[t] {
                0 => {
                    state[t] = 1;
                    stack.push((t, 0));
                }
                1 => head[t] = true,
                _ => {}
            }
        } else {
            state[b] = 2;
        }
    }
    let step = |known: &mut BTreeMap<usize, bool>, s: &St| -> bool {
        match s {
            St::Dead(l) => {
                known.remove(l);
                true
            }
            St::SetD(p, _) => {
                known.remove(&p.l);
                false
            }
            St::Assign(p, r, _) => {
                if !p.p.is_empty() {
                    if !matches!(p.p[0], Pe::Deref) {
                        known.remove(&p.l);
                    }
                    return false;
                }
                let val = |o: &Op| match o {
                    Op::C(k) => match k.bits {
                        Some(b) if b < 2 => Some(b == 1),
                        _ => None,
                    },
                    Op::Cp(q) | Op::Mv(q) if q.p.is_empty() => known.get(&q.l).copied(),
                    _ => None,
                };
                let v = match r {
                    Rv::Use(o) => val(o),
                    Rv::Un(op, o) if op == "Not" && o.place().is_some() => val(o).map(|x| !x),
                    _ => None,
                };
                match v {
                    Some(v) if !taken.contains(&p.l) && matches!(types[p.t].k, TyK::Bool) => {
                        known.insert(p.l, v);
                        true
                    }
                    _ => {
                        known.remove(&p.l);
                        false
                    }
                }
            }
        }
    };
    let mut b = 0;
    while b < bs.len() && bs.len() < 4 * n + 16 {
        if let Tm::Goto(t0) = bs[b].t {
            let mut known = BTreeMap::new();
            for s in &bs[b].s {
                step(&mut known, s);
            }
            let (mut t, mut acc, mut found, mut hops) = (t0, vec![], None, 0);
            while !known.is_empty() && hops < 12 && t < n && !head[t] && !bs[t].cleanup {
                hops += 1;
                let ok = bs[t].s.iter().all(|s| step(&mut known, s));
                if !ok {
                    break;
                }
                acc.extend(bs[t].s.iter().cloned());
                match &bs[t].t {
                    Tm::Goto(u) => t = *u,
                    Tm::Switch(o, ts, e) => {
                        let Some(v) = o.place().filter(|q| q.p.is_empty()).and_then(|q| known.get(&q.l)) else { break };
                        t = ts.iter().find(|x| x.0 == *v as u128).map(|x| x.1).unwrap_or(*e);
                        found = Some((t, acc.clone()));
                    }
                    _ => break,
                }
            }
            if let Some((t, acc)) = found {
                let cleanup = bs[b].cleanup;
                if t != b {
                    bs.push(Block { cleanup, s: acc, t: Tm::Goto(t) });
                    bs[b].t = Tm::Goto(bs.len() - 1);
                }
            }
        }
        b += 1;
    }
}

#[derive(Clone)]
pub struct Prog {
    pub types: Vec<Ty>,
    pub fns: Vec<Func>,
    pub statics: Vec<Static>,
    pub unsafes: Vec<Unsafe>,
    pub adts: Vec<AdtD>,
    pub by_name: HashMap<String, usize>,
}

impl Prog {
    pub fn load(path: &str) -> Prog {
        let txt = std::fs::read_to_string(path).expect("read dump");
        let d: RawDump = serde_json::from_str(&txt).expect("parse dump");
        let mut fns = d.fns;
        let mut by_name = HashMap::new();
        for (i, f) in fns.iter_mut().enumerate() {
            f.blocks = std::mem::take(&mut f.raw)
                .iter()
                .map(|b| Block {
                    cleanup: b["c"].as_bool().unwrap(),
                    s: b["s"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .filter_map(|s| match s["k"].as_str().unwrap() {
                            "=" => Some(St::Assign(
                                pplace(&s["p"]),
                                prv(&s["r"]),
                                s["at"].as_str().unwrap().into(),
                            )),
                            "setd" => Some(St::SetD(pplace(&s["p"]), us(&s["v"]) as u32)),
                            "dead" => Some(St::Dead(us(&s["l"]))),
                            _ => None,
                        })
                        .collect(),
                    t: pterm(&b["t"]),
                })
                .collect();
            thread_bools(&mut f.blocks, &d.types);
            by_name.insert(f.name.clone(), i);
        }
        Prog { types: d.types, fns, statics: d.statics, unsafes: d.unsafes, adts: d.adts, by_name }
    }
    pub fn ty(&self, t: usize) -> &TyK {
        &self.types[t].k
    }
    pub fn ts(&self, t: usize) -> &str {
        &self.types[t].s
    }
    pub fn adt_def(&self, t: usize) -> Option<&str> {
        match self.ty(t) {
            TyK::Adt { def, .. } => Some(def),
            _ => None,
        }
    }
    pub fn is_result(&self, t: usize) -> bool {
        self.adt_def(t) == Some("std::result::Result")
    }
    pub fn variants(&self, t: usize) -> Option<&Vec<VariantD>> {
        match self.ty(t) {
            TyK::Adt { vars, .. } => vars.as_ref(),
            _ => None,
        }
    }
    pub fn is_enum(&self, t: usize) -> bool {
        matches!(self.ty(t), TyK::Adt { kind, .. } if kind == "enum")
    }
    pub fn callee_of<'a>(&self, f: &'a Op) -> Option<&'a Callee> {
        match f {
            Op::C(k) => k.callee.as_ref(),
            _ => None,
        }
    }
}

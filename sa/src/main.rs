mod cfg;
mod crash;
mod env;
mod flow;
mod interp;
mod ir;
mod models;
mod peel;
mod shape;
mod rules;
mod stage;
mod tempo;
mod grid;
mod keys;
mod span;
mod atomic;
mod nums;
mod order;
mod term;
mod val;
use interp::*;
use ir::*;
use rules::*;
use std::collections::BTreeSet;
use val::*;

type Rule = fn(&Cx) -> Report;
const RULES: &[(&str, Rule, &str)] = &[
    ("S01", env::s01, "no source of nondeterminism is called; hashed collections are consumed order-insensitively; no mutable static; the clock's information-flow label reaches only the processing time"),
    ("S02", env::s02, "no call to an effectful API anywhere in the crate; with every debug track id absent no path of any public function reaches a print"),
    ("S03", flow::s03, "information-flow labels (explicit and implicit) of every debug_* setting and of the logging facade's state must not reach any output; emit_tempogram_candidates may only reach the candidate list in multi-resolution mode"),
    ("S04", flow::s04, "information-flow labels of key/chroma settings must not reach any tempo or beat output"),
    ("S05", flow::s05, "with beat-synchronous chroma off, labels of tempo/onset settings, tempo estimates and the beat grid must not reach any key output"),
    ("S06", flow::s06, "provenance tokens: the reported tempo is an unmodified copy of the tempogram estimate, independent of onsets and of the legacy estimate"),
    ("S07", flow::s07, "with a feature switched off, the labels of its own settings must not reach any output"),
    ("S08", flow::s08, "the label of every setting must reach an output of the mode it belongs to; every stage receives the setting that names it, unmodified (provenance tokens)"),
    ("S09", flow::s09, "with the mandatory stages forced to succeed, no Err value of any optional stage reaches the result (variant-set abstract interpretation, each stage also forced to fail)"),
    ("S10", flow::s10, "with a stage forced to fail or find nothing, the reported fields are the constants that mean 'not detected', with a warning / flag on every path"),
    ("S11", stage::s11, "variant-set abstract interpretation: with an argument in its invalid range and all others arbitrary, the only reachable outcome is the documented error"),
    ("S12", stage::s12, "interval analysis with NaN tracking of every returned confidence, clarity and stability figure of every public function on arbitrary arguments"),
    ("S13", stage::s13, "interval analysis of every integer divisor, stride, chunk size and clamp bound reachable from a public function"),
    ("S14", stage::s14, "NaN tracking of the operands of every comparator handed to a sort or selection, and of every partial ordering that is unwrapped"),
    ("S15", term::s15, "every cyclic region of every control-flow graph is cut by blocks that can be visited only finitely often: advancing a finite iterator whose exhaustion leaves, or a strictly progressing counter (interval analysis of the step) whose bound test leaves; no unbounded iterator is drained; no recursion except where unfolding it with the values of its calls ends"),
    ("S16", grid::s16, "content snapshots of the time lists carry identity tokens: at every construction and change of a beat grid the beats are in sorted typestate, every downbeat is a copy of an element of the beats snapshot, and the bars are a copy of the downbeats"),
    ("S17", keys::s17, "no hand-written function of the key type reaches an unproved runtime check (bounds, overflow, division) or a call that can panic, whatever the text or index; the keys it returns lie in 0..=11"),
    ("S18", env::s18, "serialization of every type of the result is derived in both directions and carries only loss-free serde attributes"),
    ("S19", tempo::s19, "scenario abstract interpretation: rate and duration equal the analysed audio's, diagnostics are present exactly in the modes that produce them, and 'used' indicators agree with the provenance tokens of the reported tempo and candidates"),
    ("S20", env::s20, "every public type is Send + Sync without interior mutability; no unsafe code, mutable static or thread-local; samples are borrowed immutably"),
    ("S21", keys::s21, "interval analysis of every key value reachable from a public return: the tonic index lies in 0..=11"),
    ("S22", tempo::s22, "exhaustive case split on the re-estimates (at most / above 180): the interval of the reported tempo never exceeds 180 when the first pass is at most 180"),
    ("S25", stage::s25, "interval analysis of list lengths (first rounds of loops peeled, equal-length lists related): every fixed element or range, every unwrapped value, every constant taken off an unsigned count and every explicit panic is unreachable or proved safe from every public function on arbitrary arguments"),
    ("S24", span::s24, "range facts (at least the configured minimum, at most the configured maximum) carried with every floating-point value by abstract interpretation: established by comparisons, clamps and filters against the two settings, kept by copies, lost by arithmetic; every reported tempo and tempo candidate has both"),
    ("S28", atomic::s28, "typestate analysis over MIR (written to the lent data or not, variants of the results in flight, path by path, callees summarised): no public function that changes its argument in place returns an error on a path on which it has already written to it"),
    ("S27", nums::s27, "interval analysis with NaN and infinity tracking of every time, tempo, duration and agreement figure returned by an analysis and by the public functions that report times"),
    ("S26", order::s26, "typestate of lists (by which part of the element, in which direction), established by abstract interpretation of each sort's comparator on separated operands and carried through every list and iterator operation: every list with a documented order is in it when it is returned, on arbitrary arguments"),
    ("S36", shape::s36, "interval analysis of every position (frame, sample, index of a peak) a detector returns for 1, 2, 3, 5, 1000 and 1000003 frames or windows of arbitrary contents and every threshold, with exact list lengths: each lies within the input; identity tokens of the values passed in: trimmed audio and peak heights are unaltered copies"),
    ("S29", shape::s29, "exact list lengths by abstract interpretation (counters, iterators and lists of one loop related to each other) for 1, 2, 3, 5, 1000 and 1000003 frames of arbitrary contents and every setting: each frame-wise stage returns one entry per frame (one per two successive frames for a novelty curve), rows of the documented width, and no negative magnitude"),
];

fn check(a: &[String]) -> i32 {
    let (mir, prop, tier, evdir, known) = (&a[2], a[3].as_str(), a[4].as_str(), &a[5], &a[6]);
    let mut p = Prog::load(mir);
    if prop == "S25" {
        peel::peel(&mut p);
    }
    let cx = Cx { p: &p };
    let t0 = std::time::Instant::now();
    let Some((_, f, rule)) = RULES.iter().find(|r| r.0 == prop) else {
        eprintln!("unknown property {}", prop);
        return 2;
    };
    let rep = f(&cx);
    // committed findings: `known: property=<id> key=<key>  # text`
    let mut kn: BTreeSet<String> = BTreeSet::new();
    for l in std::fs::read_to_string(known).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix(&format!("known: property={} key=", prop)) {
            kn.insert(r.split("  #").next().unwrap().trim().to_string());
        }
    }
    let (old, new): (Vec<&Finding>, Vec<&Finding>) = rep.findings.iter().partition(|f| kn.contains(&f.key));
    let _ = std::fs::create_dir_all(evdir);
    let replay = format!("{}/{}.violations.txt", evdir, prop);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cut = |v: &BTreeSet<String>| v.iter().take(400).cloned().collect::<Vec<_>>();
    let ev = serde_json::json!({
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": new.len(),
        "coverage": {
            "explanation": format!("static analysis of the compiler's MIR of /repo's library as it is now; rule: {}", rule),
            "rule": rule,
            "obligations": rep.obligations,
            "discharged": rep.discharged,
            "functions_analysed": rep.fns.len(),
            "functions": cut(&rep.fns),
            "analysed_contexts": rep.contexts,
            "blocks_reached": rep.blocks,
            "scenarios": rep.scenarios,
            "samples": rep.samples,
            "unmodelled_callees": cut(&rep.unmodeled),
            "undecided": rep.undecided,
            "known_findings": old.iter().map(|f| f.key.clone()).collect::<Vec<_>>(),
        },
        "assumptions": ["standard-library and rustfft behaviour follows the models in sa/src/models.rs; a callee without a model is treated as returning anything that depends on all its arguments"],
    });
    std::fs::write(format!("{}/{}.json", evdir, prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for f in &old {
        println!("KNOWN-FINDING: property={} {}", prop, f.msg);
    }
    println!(
        "{}: {} obligations, {} discharged, {} functions, {} contexts, {:.1}s",
        prop, rep.obligations, rep.discharged, rep.fns.len(), rep.contexts, t0.elapsed().as_secs_f64()
    );
    for u in &rep.undecided {
        println!("UNDECIDED: {}", u);
    }
    if !new.is_empty() {
        let mut s = String::new();
        for f in &new {
            s += &format!("{}: {}\n    key={}\n", f.at, f.msg, f.key);
        }
        std::fs::write(&replay, &s).unwrap();
        for l in s.lines().take(60) {
            println!("{}", l);
        }
        println!("VIOLATION property={} replay={}", prop, replay);
        return 1;
    }
    let _ = std::fs::remove_file(&replay);
    if !rep.undecided.is_empty() {
        return 2;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || if a[1] == "check" { check(&a) } else { explore(a); 0 })
        .unwrap()
        .join();
    std::process::exit(r.unwrap_or(2));
}
fn explore(a: Vec<String>) {
    if a[2] == "sweep" {
        let mut p = Prog::load(&a[1]);
        let t0 = std::time::Instant::now();
        if std::env::var("NOPEEL").is_err() { peel::peel(&mut p); }
        println!("peeled: {} blocks, max {}", p.fns.iter().map(|f| f.blocks.len()).sum::<usize>(), p.fns.iter().map(|f| f.blocks.len()).max().unwrap());
        let s = crash::sweep(&Cx { p: &p });
        for e in &s.evs {
            println!("{} {} {} {} <- {}", e.kind, e.func, e.at, e.detail, s.root[e]);
        }
        println!("{:?}", s.cmps);
        println!("{:?} {:?} fns {} contexts {} blocks {}", s.rep.unmodeled, t0.elapsed(), s.rep.fns.len(), s.rep.contexts, s.rep.blocks);
        return;
    }
    if a[2] == "inv" {
        let p = Prog::load(&a[1]);
        let cx = Cx { p: &p };
        for fi in crash::public_roots(&cx) {
            let f = &p.fns[fi];
            if !matches!(p.ty(f.locals[0].t), TyK::Adt { def, .. } if def.ends_with("Result")) { continue; }
            for (i, n) in cx.params(fi).iter().enumerate() {
                for (d, av) in [("=0", Av::I(0, 0)), ("empty", Av::Len(0, 0)), ("<=0.0", Av::F(-3e38, 0.0))] {
                    let mut t = f.locals[i + 1].t;
                    while let TyK::Ref { t: u, .. } = p.ty(t) { t = *u; }
                    let fit = match (p.ty(t), d) { (TyK::Int { .. }, "=0") => true, (TyK::Float { .. }, "<=0.0") => true, (TyK::Slice { .. }, "empty") => true, _ => false };
                    if !fit { continue; }
                    let o = cx.run(&f.name, &sc("x").a(&i.to_string(), av)).unwrap();
                    println!("{} {}{} {:?}", f.name, n, d, cx.err_variants(&o));
                }
            }
        }
        return;
    }
    if a[2] == "conf" {
        let p = Prog::load(&a[1]);
        for (f, n, v) in crash::confidences(&Cx { p: &p }).1 {
            println!("{} {} {:?}", f, n, v.k_only());
        }
        return;
    }
    let p = Prog::load(&a[1]);
    let mut it = Interp::new(&p);
    it.debug = a.get(3).cloned();
    let fi = *p.by_name.get(&a[2]).expect("fn");
    let f = &p.fns[fi];
    let t0 = std::time::Instant::now();
    // arguments: typed tops; AnalysisConfig fields labelled
    let mut args = vec![];
    for i in 0..f.argc {
        let t = f.locals[i + 1].t;
        args.push(it.top_of(t).with(Lab::one(200 + i)));
    }
    // label config fields
    for x in args.iter_mut() {
        if let K::S(v) = &x.k {
            if v.len() > 60 {
                let w: Vec<V> = v.iter().enumerate().map(|(i, y)| y.clone().with(Lab::one(i))).collect();
                *x = V::s(w);
            }
        }
    }
    let s = it.analyze_root(fi, args);
    println!("{:?}", s.ret);
    println!("{} analyses, {:?}", it.analyses, t0.elapsed());
    for e in s.evs.iter() {
        println!("{} {} {} {}", e.kind, e.func, e.at, e.detail);
    }
    if std::env::var("DEAD").is_ok() {
        for &fi in &it.visited {
            let f = &p.fns[fi];
            for (b, bl) in f.blocks.iter().enumerate() {
                if !bl.cleanup && !it.reached.contains(&(fi, b)) {
                    let at = match &bl.t { Tm::Call { at, .. } => at.clone(), Tm::Assert { at, .. } => at.clone(), Tm::Unreachable => continue, _ => bl.s.iter().rev().find_map(|s| if let St::Assign(_, _, a) = s { Some(a.clone()) } else { None }).unwrap_or_default() };
                    if at.is_empty() { continue }
                    println!("dead {} bb{} {}", f.name, b, at);
                }
            }
        }
    }
    println!("unmodeled {:?}", it.unmodeled);
}

//! rustc_private driver: dumps the type-checked, resolved MIR of the crate
//! being compiled (locals, statements, terminators, resolved callees, types,
//! constants) as JSON.  It decides nothing; the analyses live in ../sa.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_ast::attr::AttributeExt;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
}

fn list(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let id = self.ty_out.len();
        self.ty_ids.insert(t, id);
        self.ty_out.push(String::new());
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        let body = match t.kind() {
            ty::Bool => r#""k":"bool""#.to_string(),
            ty::Char => r#""k":"char""#.to_string(),
            ty::Int(i) => format!(
                r#""k":"int","signed":true,"bits":{}"#,
                i.bit_width().unwrap_or(64)
            ),
            ty::Uint(i) => format!(
                r#""k":"int","signed":false,"bits":{}"#,
                i.bit_width().unwrap_or(64)
            ),
            ty::Float(f) => format!(r#""k":"float","bits":{}"#, f.bit_width()),
            ty::Str => r#""k":"str""#.to_string(),
            ty::Never => r#""k":"never""#.to_string(),
            ty::Ref(_, inner, m) => {
                let i = self.ty(*inner);
                format!(r#""k":"ref","mut":{},"t":{}"#, m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(*inner);
                format!(r#""k":"ptr","mut":{},"t":{}"#, m.is_mut(), i)
            }
            ty::Slice(inner) => {
                let i = self.ty(*inner);
                format!(r#""k":"slice","t":{}"#, i)
            }
            ty::Array(inner, n) => {
                let i = self.ty(*inner);
                let n = n.try_to_target_usize(self.tcx);
                match n {
                    Some(n) => format!(r#""k":"array","t":{},"n":{}"#, i, n),
                    None => format!(r#""k":"array","t":{},"n":null"#, i),
                }
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!(r#""k":"tuple","ts":{}"#, list(v))
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!(
                    r#""k":"closure","def":{},"ups":{}"#,
                    esc(&self.path(*d)),
                    list(ups)
                )
            }
            ty::FnDef(d, args) => {
                let c = self.callee(*d, args.skip_binder(), TypingEnv::fully_monomorphized());
                format!(r#""k":"fndef","callee":{}"#, c)
            }
            ty::FnPtr(..) => r#""k":"fnptr""#.to_string(),
            ty::Dynamic(..) => r#""k":"dyn""#.to_string(),
            ty::Param(_) => r#""k":"param""#.to_string(),
            ty::Adt(adt, args) => {
                let d = adt.did();
                let p = self.path(d);
                let local = d.is_local();
                let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
                let known = local
                    || p.starts_with("std::option::Option")
                    || p.starts_with("std::result::Result")
                    || p.starts_with("std::ops::ControlFlow")
                    || p.starts_with("std::cmp::Ordering")
                    || p.starts_with("std::ops::Range")
                    || p.starts_with("core::ops::range")
                    || p.starts_with("core::option")
                    || p.contains("num_complex::Complex")
                    || p.starts_with("core::result");
                let kind = if adt.is_enum() {
                    "enum"
                } else if adt.is_union() {
                    "union"
                } else {
                    "struct"
                };
                let vars = if known && !adt.is_union() {
                    let mut vs = vec![];
                    for (vi, v) in adt.variants().iter_enumerated() {
                        let discr = if adt.is_enum() {
                            adt.discriminant_for_variant(self.tcx, vi).val as i128
                        } else {
                            0
                        };
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let fty = f.ty(self.tcx, args).skip_norm_wip();
                            let fty = self
                                .tcx
                                .try_normalize_erasing_regions(
                                    TypingEnv::fully_monomorphized(),
                                    ty::Unnormalized::new_wip(fty),
                                )
                                .unwrap_or(fty);
                            let ft = self.ty(fty);
                            fs.push(format!(
                                r#"{{"n":{},"t":{},"pub":{}}}"#,
                                esc(f.name.as_str()),
                                ft,
                                f.vis.is_public()
                            ));
                        }
                        vs.push(format!(
                            r#"{{"n":{},"d":"{}","fs":{}}}"#,
                            esc(v.name.as_str()),
                            discr,
                            list(fs)
                        ));
                    }
                    list(vs)
                } else {
                    "null".into()
                };
                format!(
                    r#""k":"adt","kind":"{}","def":{},"local":{},"args":{},"vars":{}"#,
                    kind,
                    esc(&p),
                    local,
                    list(targs),
                    vars
                )
            }
            _ => r#""k":"other""#.to_string(),
        };
        self.ty_out[id] = format!(r#"{{"s":{},{}}}"#, esc(&s), body);
        id
    }

    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let base = self.path(d);
        let (rd, rargs, virt) = match Instance::try_resolve(tcx, env, d, tcx.erase_and_anonymize_regions(args)) {
            Ok(Some(i)) => match i.def {
                ty::InstanceKind::Virtual(x, _) => (x, i.args, true),
                _ => (i.def_id(), i.args, false),
            },
            _ => (d, args, false),
        };
        let rp = self.path(rd);
        let targs: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        let rt: Vec<String> = rargs.types().map(|t| self.ty(t).to_string()).collect();
        let krate = tcx.crate_name(rd.krate).to_string();
        let unsafe_ = match tcx.def_kind(rd) {
            DefKind::Fn | DefKind::AssocFn => {
                tcx.fn_sig(rd).skip_binder().safety().is_unsafe()
            }
            _ => false,
        };
        let rust_intr = tcx.intrinsic(rd).is_some();
        format!(
            r#"{{"base":{},"path":{},"crate":{},"local":{},"targs":{},"rargs":{},"virt":{},"unsafe":{},"intr":{}}}"#,
            esc(&base),
            esc(&rp),
            esc(&krate),
            rd.is_local(),
            list(targs),
            list(rt),
            virt,
            unsafe_,
            rust_intr
        )
    }

    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut pr = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => r#""*""#.to_string(),
                ProjectionElem::Field(f, t) => format!(r#"{{"f":{},"t":{}}}"#, f.as_usize(), self.ty(t)),
                ProjectionElem::Index(l) => format!(r#"{{"i":{}}}"#, l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!(
                    r#"{{"ci":{},"min":{},"end":{}}}"#,
                    offset, min_length, from_end
                ),
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!(r#"{{"sub":{},"to":{},"end":{}}}"#, from, to, from_end)
                }
                ProjectionElem::Downcast(_, v) => format!(r#"{{"v":{}}}"#, v.as_usize()),
                _ => r#""?""#.to_string(),
            };
            pr.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        let t = self.ty(pty.ty);
        format!(r#"{{"l":{},"p":{},"t":{}}}"#, p.local.as_usize(), list(pr), t)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        if let ty::FnDef(d, args) = t.kind() {
            let cs = self.callee(*d, args.skip_binder(), env);
            return format!(r#"{{"k":"fn","t":{},"callee":{}}}"#, tid, cs);
        }
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(
                    extra,
                    r#","promoted":{},"pdef":{}"#,
                    p.as_usize(),
                    esc(&self.path(u.def))
                );
            } else {
                let _ = write!(extra, r#","name":{}"#, esc(&self.path(u.def)));
            }
        }
        if let Const::Val(ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            if let rustc_middle::mir::interpret::GlobalAlloc::Static(d) =
                tcx.global_alloc(p.provenance.alloc_id())
            {
                let _ = write!(extra, r#","static":{}"#, esc(&self.path(d)));
            }
        }
        if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
            if let Some(b) = c.const_.try_eval_scalar_int(tcx, env) {
                let bits = b.to_bits(b.size());
                return format!(r#"{{"k":"sc","t":{},"bits":"{}"{}}}"#, tid, bits, extra);
            }
        }
        // Evaluate to a value when possible (string slices, arrays of scalars).
        let val = c.const_.eval(tcx, env, c.span);
        if let Ok(v) = val {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let s = String::from_utf8_lossy(b).to_string();
                        return format!(r#"{{"k":"str","t":{},"s":{}{}}}"#, tid, esc(&s), extra);
                    }
                }
            }
            if let Some(vals) = self.decode(v, t) {
                return format!(r#"{{"k":"agg","t":{},"vals":{}{}}}"#, tid, vals, extra);
            }
            if let ConstValue::ZeroSized = v {
                return format!(r#"{{"k":"zst","t":{}{}}}"#, tid, extra);
            }
        }
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
        format!(r#"{{"k":"other","t":{},"s":{}{}}}"#, tid, esc(&s), extra)
    }

    /// Decode a constant array (or reference to one) of integers/floats/strs
    /// into a JSON list of bit strings.
    fn decode(&mut self, v: ConstValue, t: Ty<'tcx>) -> Option<String> {
        use rustc_middle::mir::interpret::*;
        let tcx = self.tcx;
        let (t, alloc, off) = match (t.kind(), v) {
            (ty::Array(..), ConstValue::Indirect { alloc_id, offset }) => {
                (t, tcx.global_alloc(alloc_id).unwrap_memory(), offset.bytes_usize())
            }
            (ty::Ref(_, inner, _), ConstValue::Scalar(Scalar::Ptr(p, _))) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.global_alloc(prov.alloc_id()) {
                    GlobalAlloc::Memory(m) => (*inner, m, off.bytes_usize()),
                    _ => return None,
                }
            }
            _ => return None,
        };
        let ty::Array(el, n) = t.kind() else { return None };
        let n = n.try_to_target_usize(tcx)? as usize;
        if n > 4096 {
            return None;
        }
        let sz = match el.kind() {
            ty::Int(i) => i.bit_width().unwrap_or(64) / 8,
            ty::Uint(i) => i.bit_width().unwrap_or(64) / 8,
            ty::Float(f) => f.bit_width(),
            _ => return None,
        } as usize;
        let sz = if let ty::Float(f) = el.kind() { f.bit_width() as usize / 8 } else { sz };
        let mut out = vec![];
        for i in 0..n {
            let a = off + i * sz;
            let b = alloc.inner().inspect_with_uninit_and_ptr_outside_interpreter(a..a + sz);
            let mut x: u128 = 0;
            for (j, y) in b.iter().enumerate() {
                x |= (*y as u128) << (8 * j);
            }
            out.push(format!("\"{}\"", x));
        }
        Some(list(out))
    }

    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!(r#"{{"cp":{}}}"#, self.place(*p, body)),
            Operand::Move(p) => format!(r#"{{"mv":{}}}"#, self.place(*p, body)),
            Operand::Constant(c) => format!(r#"{{"c":{}}}"#, self.konst(c, env)),
            Operand::RuntimeChecks(_) => r#"{"rt":1}"#.to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!(r#"{{"k":"use","o":{}}}"#, self.op(o, b, env)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx);
                format!(
                    r#"{{"k":"repeat","o":{},"n":{}}}"#,
                    self.op(o, b, env),
                    n.map(|x| x.to_string()).unwrap_or("null".into())
                )
            }
            Rvalue::Ref(_, bk, p) => format!(
                r#"{{"k":"ref","mut":{},"p":{}}}"#,
                matches!(bk, BorrowKind::Mut { .. }),
                self.place(*p, b)
            ),
            Rvalue::RawPtr(_, p) => format!(r#"{{"k":"rawptr","p":{}}}"#, self.place(*p, b)),
            Rvalue::ThreadLocalRef(d) => format!(r#"{{"k":"tls","d":{}}}"#, esc(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!(
                    r#"{{"k":"cast","ck":{},"o":{},"t":{}}}"#,
                    esc(&format!("{:?}", k)),
                    self.op(o, b, env),
                    t
                )
            }
            Rvalue::BinaryOp(op, bx) => {
                let x = self.op(&bx.0, b, env);
                let y = self.op(&bx.1, b, env);
                format!(r#"{{"k":"bin","op":"{:?}","a":{},"b":{}}}"#, op, x, y)
            }
            Rvalue::UnaryOp(op, o) => {
                format!(r#"{{"k":"un","op":"{:?}","o":{}}}"#, op, self.op(o, b, env))
            }
            Rvalue::Discriminant(p) => format!(r#"{{"k":"discr","p":{}}}"#, self.place(*p, b)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.op(o, b, env)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => r#""ak":"array""#.to_string(),
                    AggregateKind::Tuple => r#""ak":"tuple""#.to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => format!(
                        r#""ak":"adt","def":{},"v":{}"#,
                        esc(&self.path(*d)),
                        v.as_usize()
                    ),
                    AggregateKind::Closure(d, _) => {
                        format!(r#""ak":"closure","def":{}"#, esc(&self.path(*d)))
                    }
                    _ => r#""ak":"other""#.to_string(),
                };
                format!(r#"{{"k":"agg",{},"os":{}}}"#, kk, list(o))
            }
            Rvalue::CopyForDeref(p) => {
                format!(r#"{{"k":"use","o":{{"cp":{}}}}}"#, self.place(*p, b))
            }
            _ => r#"{"k":"other"}"#.to_string(),
        }
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn body(&mut self, name: &str, kind: &str, body: &Body<'tcx>, did: DefId, extra: &str) -> String {
        let env = TypingEnv::post_analysis(self.tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let n = names
                .get(&l.as_usize())
                .map(|s| esc(s))
                .unwrap_or("null".into());
            locals.push(format!(r#"{{"t":{},"n":{}}}"#, t, n));
        }
        let mut blocks = vec![];
        for bd in body.basic_blocks.iter() {
            let mut ss = vec![];
            for st in &bd.statements {
                let line = self.span(st.source_info.span);
                match &st.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(bx.0, body);
                        let r = self.rvalue(&bx.1, body, env);
                        ss.push(format!(r#"{{"k":"=","p":{},"r":{},"at":{}}}"#, p, r, esc(&line)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(**place, body);
                        ss.push(format!(
                            r#"{{"k":"setd","p":{},"v":{}}}"#,
                            p,
                            variant_index.as_usize()
                        ));
                    }
                    StatementKind::StorageDead(l) => {
                        ss.push(format!(r#"{{"k":"dead","l":{}}}"#, l.as_usize()));
                    }
                    StatementKind::Intrinsic(i) => {
                        ss.push(format!(r#"{{"k":"intr","s":{}}}"#, esc(&format!("{:?}", i))));
                    }
                    _ => {}
                }
            }
            let t = bd.terminator();
            let at = esc(&self.span(t.source_info.span));
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, target.as_usize())
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(x, b)| format!(r#"["{}",{}]"#, x, b.as_usize()))
                        .collect();
                    format!(
                        r#"{{"k":"switch","o":{},"ts":{},"else":{}}}"#,
                        self.op(discr, body, env),
                        list(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => r#"{"k":"return"}"#.to_string(),
                TerminatorKind::Unreachable => r#"{"k":"unreachable"}"#.to_string(),
                TerminatorKind::UnwindResume => r#"{"k":"resume"}"#.to_string(),
                TerminatorKind::UnwindTerminate(_) => r#"{"k":"resume"}"#.to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(*place, body);
                    format!(r#"{{"k":"drop","p":{},"t":{}}}"#, p, target.as_usize())
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.op(func, body, env);
                    let a: Vec<String> = args.iter().map(|a| self.op(&a.node, body, env)).collect();
                    let d = self.place(*destination, body);
                    format!(
                        r#"{{"k":"call","f":{},"as":{},"d":{},"t":{},"at":{}}}"#,
                        f,
                        list(a),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        at
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.op(cond, body, env);
                    let (mk, mo) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            ("bounds".to_string(), vec![self.op(len, body, env), self.op(index, body, env)])
                        }
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.op(a, body, env), self.op(b, body, env)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![self.op(a, body, env)]),
                        AssertKind::DivisionByZero(a) => ("div0".into(), vec![self.op(a, body, env)]),
                        AssertKind::RemainderByZero(a) => ("rem0".into(), vec![self.op(a, body, env)]),
                        _ => ("other".into(), vec![]),
                    };
                    format!(
                        r#"{{"k":"assert","o":{},"exp":{},"m":{},"mo":{},"t":{},"at":{}}}"#,
                        c,
                        expected,
                        esc(&mk),
                        list(mo),
                        target.as_usize(),
                        at
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, real_target.as_usize())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!(r#"{{"k":"goto","t":{}}}"#, real_target.as_usize())
                }
                _ => r#"{"k":"other"}"#.to_string(),
            };
            blocks.push(format!(
                r#"{{"c":{},"s":{},"t":{}}}"#,
                bd.is_cleanup,
                list(ss),
                term
            ));
        }
        let upv: Vec<String> = vec![];
        let _ = upv;
        format!(
            r#"{{"name":{},"kind":"{}","at":{},"argc":{},"locals":{},"blocks":{}{}}}"#,
            esc(name),
            kind,
            esc(&self.span(body.span)),
            body.arg_count,
            list(locals),
            list(blocks),
            extra
        )
    }
}

struct Uv<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Uv<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            // code written in this crate, not expanded from a standard-library macro
            let sp = b.span;
            if !sp.from_expansion() || sp.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| m.is_local()) {
                self.out.push(sp);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}
fn implements<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, t: Ty<'tcx>, pe: ty::ParamEnv<'tcx>) -> bool {
    use rustc_infer::infer::TyCtxtInferExt;
    use rustc_trait_selection::infer::InferCtxtExt;
    let icx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
    icx.type_implements_trait(tr, [t], pe).must_apply_modulo_regions()
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut d = D { tcx, ty_ids: HashMap::new(), ty_out: vec![] };
    let mut fns = vec![];
    let ev = tcx.effective_visibilities(());
    for ld in tcx.hir_body_owners() {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        let name = d.path(did);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                let body = tcx.optimized_mir(did);
                let is_pub = ev.is_reachable(ld);
                let derived = tcx.is_automatically_derived(tcx.parent(did));
                let parent = if kind == DefKind::Closure {
                    esc(&d.path(tcx.typeck_root_def_id(did)))
                } else {
                    "null".into()
                };
                let trait_ = tcx
                    .trait_of_assoc(did)
                    .or_else(|| {
                        tcx.impl_of_assoc(did)
                            .and_then(|i| tcx.impl_opt_trait_id(i))
                    })
                    .map(|t| esc(&d.path(t)))
                    .unwrap_or("null".into());
                let is_unsafe = kind != DefKind::Closure
                    && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
                let extra = format!(
                    r#","pub":{},"derived":{},"parent":{},"trait":{},"unsafe":{}"#,
                    is_pub, derived, parent, trait_, is_unsafe
                );
                let k = if kind == DefKind::Closure { "closure" } else { "fn" };
                let s = d.body(&name, k, body, did, &extra);
                fns.push(s);
                for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                    let n = format!("{}::promoted[{}]", name, i.as_usize());
                    let s = d.body(&n, "promoted", pb, did, r#","pub":false,"derived":false,"parent":null,"trait":null,"unsafe":false"#);
                    fns.push(s);
                }
            }
            _ => {}
        }
    }
    let mut statics = vec![];
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        if let DefKind::Static { mutability, .. } = tcx.def_kind(did) {
            let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let freeze = t.is_freeze(tcx, TypingEnv::fully_monomorphized());
            statics.push(format!(
                r#"{{"name":{},"mut":{},"freeze":{},"ty":{}}}"#,
                esc(&d.path(did)),
                mutability.is_mut(),
                freeze,
                esc(&format!("{}", t))
            ));
        }
    }
    // user-written unsafe code
    let mut uns = vec![];
    for ld in tcx.hir_body_owners() {
        let mut v = Uv { tcx, out: vec![] };
        let b = tcx.hir_body_owned_by(ld);
        rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
        for s in v.out {
            uns.push(format!(r#"{{"at":{},"what":"unsafe block"}}"#, esc(&d.span(s))));
        }
    }
    let mut adts = vec![];
    let sync = tcx.lang_items().sync_trait();
    let send = tcx.get_diagnostic_item(rustc_span::sym::Send);
    for id in tcx.hir_free_items() {
        let did = id.owner_id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait: true } => {
                if tcx.impl_trait_header(did).safety.is_unsafe() && !tcx.is_automatically_derived(did) {
                    uns.push(format!(r#"{{"at":{},"what":"unsafe impl"}}"#, esc(&d.span(tcx.def_span(did)))));
                }
            }
            DefKind::Struct | DefKind::Enum => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let pe = tcx.param_env(did);
                let ok = |tr: Option<DefId>| tr.map_or(true, |tr| implements(tcx, tr, t, pe));
                let adt = tcx.adt_def(did);
                let sn = |sp: rustc_span::Span| tcx.sess.source_map().span_to_snippet(sp).unwrap_or_default();
                let attrs = |ld: rustc_hir::def_id::LocalDefId| -> String {
                    let h = tcx.local_def_id_to_hir_id(ld);
                    let mut v = vec![];
                    for a in tcx.hir_attrs(h) {
                        if a.path().first().map_or(false, |s| s.as_str() == "serde") {
                            if let rustc_attr_ir::Attribute::DeriveHelper(it) = a {
                                v.push(esc(&sn(it.span)));
                            }
                        }
                    }
                    list(v)
                };
                let mut fs = vec![];
                for v in adt.variants().iter() {
                    if adt.is_enum() {
                        if let Some(l) = v.def_id.as_local() {
                            fs.push(format!(r#"{{"n":{},"t":"","attrs":{}}}"#, esc(v.name.as_str()), attrs(l)));
                        }
                    }
                    for f in v.fields.iter() {
                        if let Some(l) = f.did.as_local() {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let ft = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{ft}"));
                            fs.push(format!(r#"{{"n":{},"t":{},"attrs":{}}}"#, esc(f.name.as_str()), esc(&ft), attrs(l)));
                        }
                    }
                }
                let mut impls = vec![];
                for ii in tcx.hir_free_items() {
                    let im = ii.owner_id.to_def_id();
                    if let DefKind::Impl { of_trait: true } = tcx.def_kind(im) {
                        let tr = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                        if tr.self_ty() == t || matches!((tr.self_ty().kind(), t.kind()), (ty::Adt(a, _), ty::Adt(b, _)) if a.did() == b.did()) {
                            impls.push(format!(r#"{{"t":{},"derived":{}}}"#, esc(&d.path(tr.def_id)), tcx.is_automatically_derived(im)));
                        }
                    }
                }
                adts.push(format!(
                    r#"{{"name":{},"pub":{},"send":{},"sync":{},"attrs":{},"fields":{},"impls":{},"at":{}}}"#,
                    esc(&d.path(did)),
                    ev.is_reachable(id.owner_id.def_id),
                    ok(send),
                    ok(sync),
                    attrs(id.owner_id.def_id),
                    list(fs),
                    list(impls),
                    esc(&d.span(tcx.def_span(did)))
                ));
            }
            _ => {}
        }
    }
    let tys = std::mem::take(&mut d.ty_out);
    let s = format!(
        "{{\"crate\":{},\"types\":[\n{}\n],\"fns\":[\n{}\n],\"statics\":{},\"unsafes\":{},\"adts\":[\n{}\n]}}",
        esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
        tys.join(",\n"),
        fns.join(",\n"),
        list(statics),
        list(uns),
        adts.join(",\n")
    );
    std::fs::write(out, s).expect("write dump");
}

struct Cb {
    out: Option<String>,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        if let Some(o) = &self.out {
            dump(tcx, o);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as first argument.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned();
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_else(|_| "stratum_dsp".into());
    let is_test = args.iter().any(|a| a == "--test");
    let out = if name.as_deref() == Some(want.as_str()) && !is_test {
        std::env::var("MIRDUMP_OUT").ok()
    } else {
        None
    };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}

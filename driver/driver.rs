//! MIR fact extractor: type-checks one crate with rustc and writes, as one JSON
//! file, what the analyses in /verif/sa need: the control-flow graph of every
//! function, method, closure, constant and promoted (MIR, no optimisation, with
//! debug assertions and overflow checks off), resolved callees, types, ADTs,
//! trait impls and documentation. Nothing of the analysed crate is run.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_ast::attr::AttributeExt;
use rustc_hir::def::{CtorOf, DefKind};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<String>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn tylist(&mut self, ts: impl Iterator<Item = Ty<'tcx>>) -> String {
        let v: Vec<String> = ts.map(|t| self.ty(t).to_string()).collect();
        format!("[{}]", v.join(","))
    }

    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<Ty<'tcx>> = a.iter().filter_map(|g| match g.kind() { GenericArgKind::Type(t) => Some(t), _ => None }).collect();
        self.tylist(v.into_iter())
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tys.get(&t) { return *i; }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        let disp = with_no_trimmed_paths!(format!("{}", t));
        let k = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Int(_) | ty::Uint(_) => "\"k\":\"int\"".to_string(),
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Adt(d, a) => format!("\"k\":\"adt\",\"p\":{},\"a\":{}", esc(&self.path(d.did())), self.args(a)),
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(*t), n)
            }
            ty::Tuple(ts) => format!("\"k\":\"tuple\",\"a\":{}", self.tylist(ts.iter())),
            ty::FnDef(d, a) => { let _ = a; format!("\"k\":\"fndef\",\"p\":{}", esc(&self.path(*d))) }
            ty::Closure(d, a) => {
                let up = self.tylist(a.as_closure().upvar_tys().iter());
                format!("\"k\":\"closure\",\"p\":{},\"a\":{}", esc(&self.path(*d)), up)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            ty::Alias(..) => "\"k\":\"alias\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.ty_out[i] = format!("{{{},\"s\":{}}}", k, esc(&disp));
        i
    }

    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        format!("[{},{}]", esc(&format!("{}", lo.file.name.prefer_local_unconditionally())), lo.line)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_usize());
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => o.push_str(",[\"d\"]"),
                ProjectionElem::Field(f, t) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let v = match pt.variant_index { Some(v) => Some(d.variant(v)), None if d.is_struct() || d.is_union() => Some(d.non_enum_variant()), _ => None };
                            v.map(|v| v.fields[f].name.to_string())
                        }
                        _ => None,
                    };
                    let _ = write!(o, ",[\"f\",{},{},{}]", f.as_usize(), name.map(|n| esc(&n)).unwrap_or("null".into()), self.ty(t));
                }
                ProjectionElem::Index(l) => { let _ = write!(o, ",[\"i\",{}]", l.as_usize()); }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => { let _ = write!(o, ",[\"c\",{},{},{}]", offset, min_length, from_end); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, ",[\"s\",{},{},{}]", from, to, from_end); }
                ProjectionElem::Downcast(n, v) => {
                    let n = n.map(|n| n.to_string()).or_else(|| match pt.ty.kind() { ty::Adt(d, _) => Some(d.variant(v).name.to_string()), _ => None }).unwrap_or_default();
                    let _ = write!(o, ",[\"v\",{},{}]", v.as_usize(), esc(&n));
                }
                _ => o.push_str(",[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn callee(&mut self, owner: DefId, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut res = "null".to_string();
        let mut rargs = "null".to_string();
        if tcx.def_kind(d) == DefKind::Fn || tcx.def_kind(d) == DefKind::AssocFn || matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a) {
                res = esc(&self.path(inst.def_id()));
                rargs = self.args(inst.args);
            }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| esc(&self.path(t))).unwrap_or("null".into());
        let imp = match tcx.impl_of_assoc(d) {
            Some(i) => { let t = tcx.type_of(i).instantiate_identity().skip_norm_wip(); self.ty(t).to_string() }
            None => "null".into(),
        };
        let ctor = match tcx.def_kind(d) { DefKind::Ctor(CtorOf::Struct, _) => "\"struct\"", DefKind::Ctor(CtorOf::Variant, _) => "\"variant\"", _ => "null" };
        let selfty = if tcx.trait_of_assoc(d).is_some() && a.len() > 0 { a.types().next().map(|t| self.ty(t).to_string()).unwrap_or("null".into()) } else { "null".into() };
        format!("{{\"k\":\"fn\",\"p\":{},\"a\":{},\"res\":{},\"ra\":{},\"trait\":{},\"self\":{},\"impl\":{},\"ctor\":{},\"krate\":{},\"name\":{}}}",
            esc(&self.path(d)), self.args(a), res, rargs, tr, selfty, imp, ctor, esc(tcx.crate_name(d.krate).as_str()),
            esc(tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default().as_str()))
    }

    fn konst(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() { let a = a.no_bound_vars().unwrap(); return format!("{{\"ty\":{},\"c\":{}}}", ti, self.callee(owner, *d, a)); }
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut named = "null".to_string();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("{{\"ty\":{},\"c\":{{\"k\":\"promoted\",\"p\":{},\"i\":{}}}}}", ti, esc(&self.path(u.def)), p.as_usize());
            }
            named = esc(&self.path(u.def));
        }
        let body = match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match c.const_.try_eval_scalar_int(tcx, env) {
                    Some(s) => {
                        let size = s.size();
                        let bits = s.to_bits(size);
                        let v = match t.kind() {
                            ty::Int(_) => { let sh = 128 - size.bits(); format!("\"{}\"", ((bits << sh) as i128) >> sh) }
                            ty::Float(ty::FloatTy::F64) => format!("{{\"f\":{},\"b\":\"{}\"}}", esc(&format!("{:e}", f64::from_bits(bits as u64))), bits),
                            ty::Float(ty::FloatTy::F32) => format!("{{\"f\":{},\"b\":\"{}\"}}", esc(&format!("{:e}", f32::from_bits(bits as u32))), bits),
                            _ => format!("\"{}\"", bits),
                        };
                        format!("{{\"k\":\"s\",\"v\":{},\"n\":{}}}", v, named)
                    }
                    None => format!("{{\"k\":\"u\",\"n\":{},\"s\":{}}}", named, esc(&with_no_trimmed_paths!(format!("{}", c.const_)))),
                }
            }
            _ => {
                let mut s = "null".to_string();
                if let ty::Ref(_, it, _) = t.kind() {
                    if it.is_str() {
                        if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                            if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) { s = esc(&String::from_utf8_lossy(b)); }
                        }
                    }
                }
                if s != "null" { format!("{{\"k\":\"str\",\"v\":{}}}", s) }
                else { format!("{{\"k\":\"z\",\"n\":{},\"s\":{}}}", named, esc(&with_no_trimmed_paths!(format!("{}", c.const_)))) }
            }
        };
        format!("{{\"ty\":{},\"c\":{}}}", ti, body)
    }

    fn operand(&mut self, owner: DefId, b: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(b, *p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(b, *p)),
            Operand::Constant(c) => self.konst(owner, c),
            _ => "{\"other\":1}".to_string(),
        }
    }

    fn rvalue(&mut self, owner: DefId, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"r\":\"use\",\"o\":{}}}", self.operand(owner, b, o)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("{{\"r\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(owner, b, o), n)
            }
            Rvalue::Ref(_, k, p) => format!("{{\"r\":\"ref\",\"m\":{},\"p\":{}}}", matches!(k, BorrowKind::Mut { .. }), self.place(b, *p)),
            Rvalue::RawPtr(k, p) => format!("{{\"r\":\"rawptr\",\"m\":{},\"p\":{}}}", !matches!(k, RawPtrKind::Const), self.place(b, *p)),
            Rvalue::Cast(k, o, t) => format!("{{\"r\":\"cast\",\"k\":{},\"o\":{},\"t\":{}}}", esc(&format!("{:?}", k)), self.operand(owner, b, o), self.ty(*t)),
            Rvalue::BinaryOp(op, bx) => format!("{{\"r\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", op, self.operand(owner, b, &bx.0), self.operand(owner, b, &bx.1)),
            Rvalue::UnaryOp(op, o) => format!("{{\"r\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(owner, b, o)),
            Rvalue::Discriminant(p) => format!("{{\"r\":\"discr\",\"p\":{}}}", self.place(b, *p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(owner, b, o)).collect();
                let kk = match &**k {
                    AggregateKind::Array(t) => format!("\"k\":\"array\",\"t\":{}", self.ty(*t)),
                    AggregateKind::Tuple => "\"k\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        let fs: Vec<String> = vd.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        format!("\"k\":\"adt\",\"p\":{},\"v\":{},\"vn\":{},\"en\":{},\"fs\":[{}],\"a\":{}", esc(&self.path(*d)), v.as_usize(), esc(vd.name.as_str()), ad.is_enum(), fs.join(","), self.args(a))
                    }
                    AggregateKind::Closure(d, _) => format!("\"k\":\"closure\",\"p\":{}", esc(&self.path(*d))),
                    AggregateKind::RawPtr(..) => "\"k\":\"rawptr\"".to_string(),
                    _ => "\"k\":\"other\"".to_string(),
                };
                format!("{{\"r\":\"agg\",{},\"os\":[{}]}}", kk, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"r\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(b, *p)),
            other => format!("{{\"r\":\"other\",\"s\":{}}}", esc(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, owner: DefId, b: &Body<'tcx>) -> String {
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upnames: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.insert(p.local.as_usize(), v.name.to_string()); }
                else if p.local.as_usize() == 1 {
                    let f = p.projection.iter().find_map(|e| if let ProjectionElem::Field(f, _) = e { Some(f.as_usize()) } else { None });
                    if let Some(f) = f { upnames.push(format!("[{},{}]", f, esc(v.name.as_str()))); }
                }
            }
        }
        let mut o = String::new();
        let _ = write!(o, "\"nargs\":{},\"upvars\":[{}],\"locals\":[", b.arg_count, upnames.join(","));
        for (i, d) in b.local_decls.iter_enumerated() {
            if i.as_usize() > 0 { o.push(','); }
            let _ = write!(o, "{{\"t\":{},\"n\":{}}}", self.ty(d.ty), names.get(&i.as_usize()).map(|s| esc(s)).unwrap_or("null".into()));
        }
        o.push_str("],\"blocks\":[");
        for (i, bb) in b.basic_blocks.iter_enumerated() {
            if i.as_usize() > 0 { o.push(','); }
            let mut ss: Vec<String> = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(bx) => {
                        let (p, r) = &**bx;
                        ss.push(format!("{{\"s\":\"=\",\"p\":{},\"v\":{},\"l\":{}}}", self.place(b, *p), self.rvalue(owner, b, r), self.tcx.sess.source_map().lookup_char_pos(s.source_info.span.source_callsite().lo()).line));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => ss.push(format!("{{\"s\":\"setd\",\"p\":{},\"v\":{}}}", self.place(b, **place), variant_index.as_usize())),
                    StatementKind::Intrinsic(i) => ss.push(format!("{{\"s\":\"intr\",\"d\":{}}}", esc(&format!("{:?}", i)))),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.as_usize())).collect();
                    let dt = discr.ty(b, self.tcx);
                    format!("\"t\":\"switch\",\"d\":{},\"dt\":{},\"c\":[{}],\"o\":{}", self.operand(owner, b, discr), self.ty(dt), v.join(","), targets.otherwise().as_usize())
                }
                TerminatorKind::Return => "\"t\":\"return\"".to_string(),
                TerminatorKind::Unreachable => "\"t\":\"unreachable\"".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "\"t\":\"unwind\"".to_string(),
                TerminatorKind::Drop { place, target, .. } => format!("\"t\":\"drop\",\"p\":{},\"to\":{}", self.place(b, *place), target.as_usize()),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(owner, b, &x.node)).collect();
                    format!("\"t\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"to\":{}", self.operand(owner, b, func), a.join(","), self.place(b, *destination), target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()))
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    let k = m.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string();
                    let kind = match &**msg { AssertKind::BoundsCheck { .. } => "bounds".to_string(), AssertKind::DivisionByZero(_) => "div0".into(), AssertKind::RemainderByZero(_) => "rem0".into(), AssertKind::Overflow(..) => "overflow".into(), _ => k };
                    let ex = if let AssertKind::BoundsCheck { len, index } = &**msg { format!(",\"len\":{},\"index\":{}", self.operand(owner, b, len), self.operand(owner, b, index)) } else { String::new() };
                    format!("\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":{},\"to\":{}{}", self.operand(owner, b, cond), expected, esc(&kind), target.as_usize(), ex)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("\"t\":\"goto\",\"to\":{}", real_target.as_usize()),
                other => format!("\"t\":\"other\",\"s\":{}", esc(&format!("{:?}", other))),
            };
            let _ = write!(o, "{{\"cl\":{},\"ss\":[{}],\"tm\":{{{},\"sp\":{}}}}}", bb.is_cleanup, ss.join(","), tt, sp);
        }
        o.push(']');
        o
    }

    fn docs(&self, d: DefId) -> String {
        #[allow(deprecated)]
        let v: Vec<String> = self.tcx.get_all_attrs(d).iter().filter_map(|a| a.doc_str().map(|s| s.to_string())).collect();
        esc(&v.join("\n"))
    }

    fn item(&mut self, d: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(d);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {}
            _ => return None,
        }
        let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let kn = match kind { DefKind::Fn => "fn", DefKind::AssocFn => "method", DefKind::Closure => "closure", _ => "const" };
        let parent = esc(&self.path(tcx.parent(did)));
        let (mut iself, mut itrait, mut derived) = ("null".to_string(), "null".to_string(), false);
        let root = tcx.typeck_root_def_id(did);
        let (mut rself, mut rtrait) = ("null".to_string(), "null".to_string());
        if let Some(im) = tcx.impl_of_assoc(root) {
            let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let s = self.ty(t).to_string();
            let tr = tcx.impl_opt_trait_ref(im).map(|t| esc(&self.path(t.skip_binder().def_id))).unwrap_or("null".into());
            derived = tcx.is_automatically_derived(im);
            rself = s.clone(); rtrait = tr.clone();
            if root == did { iself = s; itrait = tr; }
        }
        let deftrait = tcx.trait_of_assoc(root).map(|t| esc(&self.path(t))).unwrap_or("null".into());
        let vis = if kind == DefKind::Closure { "null".to_string() } else if tcx.visibility(did).is_public() { "\"pub\"".into() } else { "\"priv\"".into() };
        let reach = tcx.effective_visibilities(()).is_reachable(d);
        let mut sig = "null".to_string();
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let fs = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            let ins = self.tylist(fs.inputs().iter().copied());
            sig = format!("{{\"in\":{},\"out\":{},\"unsafe\":{}}}", ins, self.ty(fs.output()), false);
        }
        let generics: Vec<String> = { let g = tcx.generics_of(root); let mut v = vec![]; let mut cur = Some(g); let mut stack = vec![]; while let Some(g) = cur { stack.push(g); cur = g.parent.map(|p| tcx.generics_of(p)); } for g in stack.iter().rev() { for p in &g.own_params { if let ty::GenericParamDefKind::Type { .. } = p.kind { v.push(esc(p.name.as_str())); } } } v };
        let name = tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default();
        let mut o = format!("{{\"p\":{},\"name\":{},\"kind\":\"{}\",\"parent\":{},\"root\":{},\"self\":{},\"trait\":{},\"rself\":{},\"rtrait\":{},\"deftrait\":{},\"derived\":{},\"vis\":{},\"reach\":{},\"sig\":{},\"gen\":[{}],\"sp\":{},\"doc\":{}",
            esc(&self.path(did)), esc(&name), kn, parent, esc(&self.path(root)), iself, itrait, rself, rtrait, deftrait, derived, vis, reach, sig, generics.join(","), self.span(tcx.def_span(did)), self.docs(did));
        let has_body = tcx.hir_maybe_body_owned_by(d).is_some();
        if !has_body { o.push_str(",\"nobody\":true}"); return Some(o); }
        let tainted = tcx.typeck(root.expect_local()).tainted_by_errors.is_some();
        if tainted { o.push_str(",\"tainted\":true}"); return Some(o); }
        if isfn {
            let b = tcx.optimized_mir(did);
            if b.tainted_by_errors.is_some() { o.push_str(",\"tainted\":true}"); return Some(o); }
            let s = self.body(did, b);
            o.push(','); o.push_str(&s);
            let pr = tcx.promoted_mir(did);
            self.promoted(did, pr, &mut o);
        } else {
            let b = tcx.mir_for_ctfe(did);
            if b.tainted_by_errors.is_some() { o.push_str(",\"tainted\":true}"); return Some(o); }
            let s = self.body(did, b);
            o.push(','); o.push_str(&s);
            let pr = tcx.promoted_mir(did);
            self.promoted(did, pr, &mut o);
        }
        o.push('}');
        Some(o)
    }

    fn promoted(&mut self, did: DefId, pr: &rustc_data_structures_index::IndexVec<Promoted, Body<'tcx>>, o: &mut String) {
        let v: Vec<String> = pr.iter().map(|b| format!("{{{}}}", self.body(did, b))).collect();
        o.push_str(&format!(",\"promoted\":[{}]", v.join(",")));
    }

    fn adts(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if !matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union) { continue; }
            let d = tcx.adt_def(id);
            let mut vs = vec![];
            for v in d.variants() {
                let mut fs = vec![];
                for f in &v.fields {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    fs.push(format!("{{\"n\":{},\"t\":{},\"pub\":{},\"doc\":{}}}", esc(f.name.as_str()), self.ty(t), f.vis.is_public(), self.docs(f.did)));
                }
                vs.push(format!("{{\"n\":{},\"f\":[{}]}}", esc(v.name.as_str()), fs.join(",")));
            }
            let reach = tcx.effective_visibilities(()).is_reachable(id);
            out.push(format!("{{\"p\":{},\"enum\":{},\"pub\":{},\"reach\":{},\"v\":[{}],\"sp\":{},\"doc\":{}}}", esc(&self.path(id.to_def_id())), d.is_enum(), tcx.visibility(id).is_public(), reach, vs.join(","), self.span(tcx.def_span(id)), self.docs(id.to_def_id())));
        }
        out.join(",\n")
    }

    fn impls(&mut self) -> String {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(id), DefKind::Impl { .. }) { continue; }
            let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let ti = self.ty(t);
            let (tr, targs) = match tcx.impl_opt_trait_ref(id.to_def_id()) {
                Some(r) => { let r = r.instantiate_identity().skip_norm_wip(); (esc(&self.path(r.def_id)), self.args(r.args)) }
                None => ("null".into(), "[]".into()),
            };
            let mut items = vec![];
            let mut assoc = vec![];
            for i in tcx.associated_items(id).in_definition_order() {
                let nm = tcx.opt_item_name(i.def_id).map(|s| s.to_string()).unwrap_or_default();
                if tcx.def_kind(i.def_id) == DefKind::AssocTy {
                    let t = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                    assoc.push(format!("[{},{}]", esc(&nm), self.ty(t)));
                    continue;
                }
                items.push(format!("[{},{}]", esc(&nm), esc(&self.path(i.def_id))));
            }
            out.push(format!("{{\"self\":{},\"trait\":{},\"targs\":{},\"items\":[{}],\"assoc\":[{}],\"derived\":{}}}", ti, tr, targs, items.join(","), assoc.join(","), tcx.is_automatically_derived(id.to_def_id())));
        }
        out.join(",\n")
    }
}

mod rustc_data_structures_index { pub use super::rustc_index::IndexVec; }
extern crate rustc_index;

struct Cb { out: String }
impl rustc_driver_impl::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver_impl::Compilation {
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![] };
        let mut items = vec![];
        let defs: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
        let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
        let mut seen = std::collections::HashSet::new();
        for d in owners.iter().chain(defs.iter()) {
            if !seen.insert(*d) { continue; }
            if let Some(s) = cx.item(*d) { items.push(s); }
        }
        let adts = cx.adts();
        let impls = cx.impls();
        let errs = tcx.dcx().err_count();
        let s = format!("{{\"errors\":{},\n\"bodies\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"types\":[{}]}}\n", errs, items.join(",\n"), adts, impls, cx.ty_out.join(",\n"));
        std::fs::write(&self.out, s).expect("cannot write the facts file");
        rustc_driver_impl::Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = args.remove(1);
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
}

//! Compiler driver injected as RUSTC_WORKSPACE_WRAPPER: type-checks a crate of
//! the workspace with the real build's flags and writes its MIR (resolved
//! callees, types, constants, ADT and impl tables) as JSON for the analyses in
//! /verif/engine.  It never runs the code.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: Vec<String>,
    adtseen: HashSet<DefId>,
    fns: Vec<String>,
    seen: HashSet<String>,
    queue: VecDeque<(Instance<'tcx>, DefId, String)>,
}

fn tail(tcx: TyCtxt<'_>, d: DefId) -> String {
    tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()
}

impl<'tcx> Cx<'tcx> {
    fn key(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn tyname(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => format!("{}::{}", self.tcx.crate_name(a.did().krate), tail(self.tcx, a.did())),
            ty::Str => "str".into(),
            ty::Slice(_) => "slice".into(),
            ty::Array(..) => "array".into(),
            ty::Ref(_, t, _) => format!("&{}", self.tyname(*t)),
            ty::Tuple(_) => "tuple".into(),
            ty::Param(p) => format!("${}", p.name),
            ty::Dynamic(p, _) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", tail(self.tcx, d)),
                None => "dyn".into(),
            },
            ty::Closure(d, _) => format!("closure {}", self.nice(*d)),
            ty::FnDef(d, _) => format!("fn {}", self.nice((*d).into())),
            _ => format!("{t}"),
        }
    }

    /// Module-independent name: crate::Type::method, <Type as Trait>::method, crate::path::function.
    fn nice(&self, d: DefId) -> String {
        let tcx = self.tcx;
        match tcx.def_kind(d) {
            DefKind::Closure | DefKind::AnonConst => {
                let p = tcx.parent(d);
                let k = self.key(d);
                let last = k.rsplit("::").next().unwrap_or("").to_string();
                return format!("{}::{}", self.nice(p), last);
            }
            _ => {}
        }
        if let Some(p) = tcx.opt_parent(d) {
            match tcx.def_kind(p) {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let name = tail(tcx, d);
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.tyname(t)).collect();
                        let ta = if targs.is_empty() { String::new() } else { format!("<{}>", targs.join(",")) };
                        return format!("<{} as {}{}>::{}", self.tyname(st), tail(tcx, tr.def_id), ta, name);
                    }
                    let tn = self.tyname(st);
                    let tn = if tn.contains("::") { tn } else { format!("{}::{}", tcx.crate_name(d.krate), tn) };
                    return format!("{}::{}", tn, name);
                }
                DefKind::Trait => {
                    return format!("{}::{}::{}", tcx.crate_name(d.krate), tail(tcx, p), tail(tcx, d));
                }
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    return format!("{}::{}", self.nice(p), tail(tcx, d));
                }
                _ => {}
            }
        }
        self.key(d)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tymap.insert(t, i);
        let s = match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Int(k) => format!("[\"int\",{}]", esc(k.name_str())),
            ty::Uint(k) => format!("[\"uint\",{}]", esc(k.name_str())),
            ty::Float(k) => format!("[\"float\",{}]", esc(k.name_str())),
            ty::Adt(a, args) => {
                self.adt(a.did());
                let ts: Vec<Ty<'tcx>> = args.types().collect();
                let ts = list(ts.into_iter().map(|x| self.ty(x).to_string()));
                format!("[\"adt\",{},{}]", esc(&self.tyname(t)), ts)
            }
            ty::Array(e, n) => {
                let e = self.ty(*e);
                let n = n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into());
                format!("[\"array\",{e},{n}]")
            }
            ty::Slice(e) => format!("[\"slice\",{}]", self.ty(*e)),
            ty::RawPtr(e, _) => format!("[\"ptr\",{}]", self.ty(*e)),
            ty::Ref(_, e, m) => format!("[\"ref\",{},{}]", self.ty(*e), if m.is_mut() { "true" } else { "false" }),
            ty::FnDef(d, _) => {
                let d: DefId = (*d).into();
                format!("[\"fndef\",{},{}]", esc(&self.nice(d)), esc(&self.key(d)))
            }
            ty::FnPtr(..) => format!("[\"fnptr\",{}]", esc(&format!("{t}"))),
            ty::Dynamic(..) => format!("[\"dyn\",{}]", esc(&format!("{t}"))),
            ty::Closure(d, _) => format!("[\"closure\",{},{}]", esc(&self.nice(*d)), esc(&self.key(*d))),
            ty::Tuple(ts) => {
                let l = list(ts.iter().map(|x| self.ty(x).to_string()));
                format!("[\"tuple\",{l}]")
            }
            ty::Param(p) => format!("[\"param\",{}]", esc(p.name.as_str())),
            _ => format!("[\"other\",{}]", esc(&format!("{t}"))),
        };
        self.types[i] = s;
        i
    }

    fn adt(&mut self, d: DefId) {
        if !self.adtseen.insert(d) {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let name = format!("{}::{}", tcx.crate_name(d.krate), tail(tcx, d));
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() { def.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
            let mut fs = vec![];
            for f in &v.fields {
                let t = if d.is_local() || self.ws(d) {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(ft).to_string()
                } else {
                    "null".into()
                };
                let vis = match f.vis {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(m) => self.key(m.into()),
                };
                fs.push(format!("[{},{},{}]", esc(f.name.as_str()), t, esc(&vis)));
            }
            vs.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(&discr), list(fs)));
        }
        let vis = if d.is_local() || self.ws(d) { tcx.visibility(d).is_public() } else { true };
        self.adts.push(format!(
            "{{\"name\":{},\"key\":{},\"kind\":\"{}\",\"pub\":{},\"variants\":{},\"span\":{}}}",
            esc(&name), esc(&self.key(d)), kind, vis, list(vs), self.span(tcx.def_span(d))
        ));
    }

    fn ws(&self, d: DefId) -> bool {
        self.tcx.crate_name(d.krate).as_str().starts_with("i18n")
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().into_owned(),
                None => format!("{:?}", l.file.name),
            },
            o => format!("{o:?}"),
        };
        format!("[{},{},{}]", esc(&f), l.line, l.col.0)
    }
    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }

    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".into(),
                ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.index(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.index()),
                _ => "[\"?\"]".into(),
            });
        }
        format!("[{},{}]", p.local.index(), list(v))
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, env: TypingEnv<'tcx>, from: DefId) -> String {
        let tcx = self.tcx;
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let tas = list(targs.into_iter().map(|t| self.ty(t).to_string()));
        let eargs = tcx.erase_and_anonymize_regions(args);
        let mut res = "null".to_string();
        let mut rkey = String::new();
        let mut kind = "unresolved";
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                match inst.def {
                    InstanceKind::Item(id) => {
                        kind = "item";
                        rkey = self.key(id);
                        res = esc(&self.nice(id));
                        if !self.ws(id) && self.wanted(id) && tcx.is_mir_available(id) {
                            let ik = self.ikey(id, inst.args);
                            if self.seen.insert(ik.clone()) {
                                self.queue.push_back((inst, from, ik.clone()));
                            }
                            rkey = ik;
                        }
                    }
                    InstanceKind::Virtual(id, _) => {
                        kind = "virtual";
                        rkey = self.key(id);
                        res = esc(&self.nice(id));
                    }
                    other => {
                        kind = "shim";
                        let id = other.def_id();
                        rkey = self.key(id);
                        res = esc(&self.nice(id));
                    }
                }
            }
        } else if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            kind = "ctor";
            let p = tcx.parent(d);
            let (adt, vi) = if tcx.def_kind(p) == DefKind::Variant {
                let e = tcx.parent(p);
                (e, tcx.adt_def(e).variant_index_with_ctor_id(d).index())
            } else {
                (p, 0)
            };
            self.adt(adt);
            rkey = format!("{}", vi);
            res = esc(&format!("{}::{}", tcx.crate_name(adt.krate), tail(tcx, adt)));
        }
        format!(
            "{{\"def\":{},\"dkey\":{},\"res\":{},\"key\":{},\"kind\":\"{}\",\"targs\":{}}}",
            esc(&self.nice(d)), esc(&self.key(d)), res, esc(&rkey), kind, tas
        )
    }

    fn ikey(&self, id: DefId, args: GenericArgsRef<'tcx>) -> String {
        format!("{}@{:?}", self.key(id), args)
    }

    fn wanted(&self, id: DefId) -> bool {
        let k = self.key(id);
        ["core::option::", "core::result::", "core::bool::", "core::ops::control_flow::", "core::convert::",
         "core::ops::function::", "core::cmp::"]
            .iter()
            .any(|p| k.starts_with(p))
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::Bool | ty::Char | ty::Uint(_) | ty::Int(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    let s = if let ty::Int(_) = t.kind() {
                        si.size().sign_extend(bits).to_string()
                    } else {
                        bits.to_string()
                    };
                    return format!("[\"int\",{}]", s);
                }
            }
            ty::Float(_) => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits(si.size());
                    return format!("[\"float\",{}]", bits);
                }
            }
            ty::Ref(_, inner, _) => match inner.kind() {
                ty::Str => {
                    if matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("[\"str\",{}]", esc(&String::from_utf8_lossy(b)));
                        }
                    }
                }
                ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if matches!(v, ConstValue::Slice { .. } | ConstValue::Indirect { .. }) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return format!("[\"bytes\",{}]", list(b.iter().map(|x| x.to_string())));
                        }
                    }
                }
                ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            let len = n.try_to_target_usize(tcx).unwrap_or(0) as usize;
                            let o = off.bytes() as usize;
                            let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len);
                            return format!("[\"bytes\",{}]", list(b.iter().map(|x| x.to_string())));
                        }
                    }
                }
                _ => {
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) => {
                                return format!("[\"static\",{}]", esc(&self.key(d)));
                            }
                            Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(_)) if depth < 6 => {
                                let iv = ConstValue::Indirect { alloc_id: prov.alloc_id(), offset: off };
                                let s = self.constind(iv, *inner, env, depth + 1);
                                return format!("[\"ref\",{s}]");
                            }
                            _ => {}
                        }
                    }
                }
            },
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                return self.constind(v, t, env, depth);
            }
            _ => {}
        }
        format!("[\"opaque\",{}]", esc(&format!("{t}")))
    }

    fn constind(&mut self, v: ConstValue, t: Ty<'tcx>, env: TypingEnv<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth < 8 && matches!(t.kind(), ty::Adt(..) | ty::Tuple(_) | ty::Array(..)) {
            let ok = match t.kind() {
                ty::Adt(a, _) => !a.is_union() && !a.variants().is_empty(),
                _ => true,
            };
            if ok && !ty::TypeVisitableExt::has_non_region_param(&t) {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let vi = dc.variant.map(|x| x.index()).unwrap_or(0);
                    let fs: Vec<(ConstValue, Ty<'tcx>)> = dc.fields.to_vec();
                    let fs = list(fs.into_iter().map(|(v, t)| self.constval(v, t, env, depth + 1)));
                    let ti = self.ty(t);
                    return format!("[\"agg\",{ti},{vi},{fs}]");
                }
            }
        }
        if let ConstValue::Indirect { .. } = v {
            // scalar behind memory
            return format!("[\"opaque\",{}]", esc(&format!("{t}")));
        }
        format!("[\"opaque\",{}]", esc(&format!("{t}")))
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, from: DefId, me: &str) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let a = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            return format!("[\"fn\",{}]", self.callee((*d).into(), a, env, from));
        }
        if let ty::Closure(d, _) = t.kind() {
            return format!("[\"closure\",{}]", esc(&self.key(*d)));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return format!("[\"promoted\",{}]", esc(&format!("{}#p{}", me, p.index())));
            }
            if u.def.is_local() || self.ws(u.def) {
                let dk = tcx.def_kind(u.def);
                let nm = self.key(u.def);
                // evaluate as well
                let v = match c.const_.eval(tcx, env, c.span) {
                    Ok(v) => self.constval(v, t, env, 0),
                    Err(_) => "null".into(),
                };
                let _ = dk;
                return format!("[\"item\",{},{}]", esc(&nm), v);
            }
        }
        if ty::TypeVisitableExt::has_non_region_param(&c.const_) {
            return format!("[\"opaque\",{}]", esc(&format!("{}", c.const_)));
        }
        match c.const_.eval(tcx, env, c.span) {
            Ok(v) => self.constval(v, t, env, 0),
            Err(_) => format!("[\"opaque\",{}]", esc(&format!("{}", c.const_))),
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, from: DefId, me: &str) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => {
                let t = self.ty(c.const_.ty());
                format!("[\"k\",{},{}]", self.constant(c, env, from, me), t)
            }
            _ => "[\"k\",[\"int\",0],0]".into(),
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, from: DefId, me: &str, extra: String) {
        let tcx = self.tcx;
        let locals = list(body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect::<Vec<_>>());
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(&p)));
            }
        }
        let mut blocks = vec![];
        for b in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in &b.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let pt = p.ty(&body.local_decls, tcx).ty;
                        let pt = self.ty(pt);
                        let p = self.place(p);
                        let r = self.rvalue(r, body, env, from, me);
                        ss.push(format!("[\"=\",{p},{r},{ln},{pt}]"));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"sd\",{},{},{ln}]", self.place(place), variant_index.index()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.index())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.index())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ts = list(targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index())));
                    let dt = discr.ty(&body.local_decls, tcx);
                    let dt = self.ty(dt);
                    format!(
                        "[\"switch\",{},{},{},{}]",
                        self.operand(discr, env, from, me), ts, targets.otherwise().index(), dt
                    )
                }
                TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&body.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    format!("[\"drop\",{},{},{}]", self.place(place), target.index(), pt)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let fs = self.operand(func, env, from, me);
                    let a = list(args.iter().map(|x| self.operand(&x.node, env, from, me)).collect::<Vec<_>>());
                    let at = list(
                        args.iter()
                            .map(|x| {
                                let t = x.node.ty(&body.local_decls, tcx);
                                self.ty(t).to_string()
                            })
                            .collect::<Vec<_>>(),
                    );
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    format!(
                        "[\"call\",{},{},{},{},{},{},{}]",
                        fs, a, self.place(destination),
                        target.map(|x| x.index().to_string()).unwrap_or("null".into()),
                        at, dt, self.line(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(len, env, from, me), self.operand(index, env, from, me)
                        ),
                        AssertKind::Overflow(op, a, b) => format!(
                            "[\"overflow\",{},{},{}]", esc(&format!("{op:?}")),
                            self.operand(a, env, from, me), self.operand(b, env, from, me)
                        ),
                        o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond, env, from, me), expected, m, target.index()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{},\"cu\":{}}}", list(ss), tj, ln, b.is_cleanup));
        }
        self.fns.push(format!(
            "{{\"key\":{},\"argc\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}{}}}",
            esc(me), body.arg_count, locals, list(names), list(blocks), self.span(body.span), extra
        ));
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &mir::Body<'tcx>, env: TypingEnv<'tcx>, from: DefId, me: &str) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, from, me)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o, env, from, me),
                n.try_to_target_usize(tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Cast(k, o, t) => {
                let ot = o.ty(&body.local_decls, tcx);
                let ot = self.ty(ot);
                format!(
                    "[\"cast\",{},{},{},{}]",
                    esc(&format!("{k:?}")), self.operand(o, env, from, me), self.ty(*t), ot
                )
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = self.ty(t);
                format!(
                    "[\"bin\",{},{},{},{}]", esc(&format!("{op:?}")),
                    self.operand(&ab.0, env, from, me), self.operand(&ab.1, env, from, me), t
                )
            }
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{op:?}")), self.operand(a, env, from, me))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p), t)
            }
            Rvalue::Aggregate(k, fs) => {
                let f = list(fs.iter().map(|x| self.operand(x, env, from, me)).collect::<Vec<_>>());
                match &**k {
                    AggregateKind::Array(_) => format!("[\"array\",{f}]"),
                    AggregateKind::Tuple => format!("[\"tuple\",{f}]"),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        self.adt(*d);
                        let n = format!("{}::{}", tcx.crate_name(d.krate), tail(tcx, *d));
                        format!("[\"adt\",{},{},{}]", esc(&n), v.index(), f)
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{},{}]", esc(&self.key(*d)), f)
                    }
                    _ => format!("[\"opaque\",{f}]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            o => format!("[\"other\",{}]", esc(&format!("{o:?}"))),
        }
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        dump(tcx, &self.out);
        Compilation::Continue
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: vec![],
        tymap: HashMap::new(),
        adts: vec![],
        adtseen: HashSet::new(),
        fns: vec![],
        seen: HashSet::new(),
        queue: VecDeque::new(),
    };
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    keys.sort_by_key(|k| cx.key(k.to_def_id()));
    for k in keys {
        let d = k.to_def_id();
        let dk = tcx.def_kind(d);
        let me = cx.key(d);
        let nice = cx.nice(d);
        let env = TypingEnv::post_analysis(tcx, d);
        let (body, kind) = match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => (tcx.optimized_mir(d), "fn"),
            DefKind::Ctor(..) => continue,
            _ => {
                if tcx.is_const_fn(d) || true { (tcx.mir_for_ctfe(d), "const") } else { continue }
            }
        };
        let vis = match dk {
            DefKind::Fn | DefKind::AssocFn => {
                let p = tcx.parent(d);
                let tr = matches!(tcx.def_kind(p), DefKind::Impl { of_trait: true });
                let v = tcx.effective_visibilities(()).is_reachable(k);
                format!(",\"pub\":{v},\"traitimpl\":{tr}")
            }
            _ => ",\"pub\":false".into(),
        };
        let sig = if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            let attrs = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
            format!(",\"sig\":{}", esc(&format!("{attrs}")))
        } else {
            String::new()
        };
        let derived = match dk {
            DefKind::AssocFn => {
                let p = tcx.parent(d);
                matches!(tcx.def_kind(p), DefKind::Impl { .. }) && tcx.is_automatically_derived(p)
            }
            _ => false,
        };
        let extra = format!(",\"nice\":{},\"kind\":\"{}\",\"derived\":{}{}{}", esc(&nice), kind, derived, vis, sig);
        cx.body(body, env, d, &me, extra);
        if kind == "fn" || matches!(dk, DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. }) {
            for (i, pb) in tcx.promoted_mir(d).iter_enumerated() {
                cx.body(pb, env, d, &format!("{}#p{}", me, i.index()), ",\"nice\":\"\",\"kind\":\"promoted\",\"pub\":false,\"derived\":false".into());
            }
        }
    }
    let mut n = 0;
    while let Some((inst, from, ik)) = cx.queue.pop_front() {
        n += 1;
        if n > 4000 {
            break;
        }
        let env = TypingEnv::post_analysis(tcx, from);
        let id = inst.def_id();
        let b = tcx.optimized_mir(id);
        let b = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
        let nice = cx.nice(id);
        let ps: Vec<_> = tcx.promoted_mir(id).iter_enumerated().map(|(i, p)| (i.index(), p.clone())).collect();
        cx.body(&b, env, from, &ik, format!(",\"nice\":{},\"kind\":\"ext\",\"pub\":false,\"derived\":false", esc(&nice)));
        for (i, p) in ps {
            let p = inst.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, p));
            cx.body(&p, env, from, &format!("{ik}#p{i}"), ",\"nice\":\"\",\"kind\":\"promoted\",\"pub\":false,\"derived\":false".into());
        }
    }
    // impl tables
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()).iter() {
        for i in is {
            let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
            let targs: Vec<String> = tcx
                .impl_opt_trait_ref(i.to_def_id())
                .map(|t| t.instantiate_identity().skip_norm_wip().args.types().skip(1).map(|t| cx.tyname(t)).collect())
                .unwrap_or_default();
            impls.push(format!(
                "[{},{},{},{}]",
                esc(&format!("{}::{}", tcx.crate_name(tr.krate), tail(tcx, *tr))),
                esc(&cx.tyname(st)),
                list(targs.iter().map(|x| esc(x))),
                tcx.is_automatically_derived(i.to_def_id())
            ));
        }
    }
    impls.sort();
    for d in tcx.hir_crate_items(()).definitions() {
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
            cx.adt(d.to_def_id());
        }
    }
    let s = format!(
        "{{\"crate\":{},\"types\":{},\"adts\":{},\"impls\":{},\"fns\":{}}}\n",
        esc(&krate), format!("[{}]", cx.types.join(",\n")), format!("[{}]", cx.adts.join(",\n")), list(impls),
        format!("[{}]", cx.fns.join(",\n"))
    );
    let tmp = format!("{out}/{krate}.json.tmp{}", std::process::id());
    std::fs::write(&tmp, s).expect("write dump");
    std::fs::rename(&tmp, format!("{out}/{krate}.json")).expect("rename dump");
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("i18n"))
        && !args.iter().any(|a| a == "--test")
        && !args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    rustc_driver::catch_with_exit_code(move || {
        if is_lib && !out.is_empty() {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zalways-encode-mir=no".into());
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        } else {
            struct N;
            impl Callbacks for N {}
            rustc_driver::compiler_entrypoint(&args, &mut N);
        }
    })
}

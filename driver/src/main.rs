//! A rustc driver which behaves exactly as rustc does, and additionally, for the crate named in
//! $PZ_CRATE, writes the MIR of every body of that crate (and of those generic library bodies the
//! analysis wants to look into) to $PZ_OUT as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, String>,
    /// Library bodies still to be dumped.
    todo: Vec<DefId>,
    seen: HashSet<DefId>,
}

/// Library modules whose (generic) bodies we dump so that the analysis can look into them.
fn want_external(path: &str) -> bool {
    let p = path.trim_start_matches('<');
    for pre in [
        "std::option::", "core::option::", "std::result::", "core::result::",
        "std::ops::control_flow::", "core::ops::control_flow::", "core::bool::", "std::bool::",
        "bool::", "core::ops::try_trait", "std::ops::try_trait",
    ] {
        if p.starts_with(pre) {
            return true;
        }
    }
    false
}

impl<'tcx> Dumper<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(
            rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d))
        )
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_ix.insert(t, i);
        let s = match t.kind() {
            ty::Adt(def, args) => {
                let targs: Vec<String> =
                    args.types().map(|x| self.ty(x).to_string()).collect();
                self.adt(*def);
                format!("{{\"k\":\"adt\",\"n\":{},\"a\":{}}}", js(&self.path(def.did())), arr(targs))
            }
            ty::Ref(_, t, m) => {
                let x = self.ty(*t);
                format!("{{\"k\":\"ref\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::RawPtr(t, m) => {
                let x = self.ty(*t);
                format!("{{\"k\":\"ptr\",\"m\":{},\"t\":{}}}", m.is_mut(), x)
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"a\":{}}}", arr(v))
            }
            ty::Array(t, n) => {
                let x = self.ty(*t);
                let n = self.const_arg(*n);
                format!("{{\"k\":\"array\",\"t\":{},\"len\":{}}}", x, n)
            }
            ty::Slice(t) => {
                let x = self.ty(*t);
                format!("{{\"k\":\"slice\",\"t\":{}}}", x)
            }
            ty::Closure(d, args) => {
                let ups: Vec<String> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("{{\"k\":\"closure\",\"n\":{},\"a\":{}}}", js(&self.path(*d)), arr(ups))
            }
            ty::FnDef(d, _) => format!("{{\"k\":\"fndef\",\"n\":{}}}", js(&self.path(*d))),
            ty::Param(p) => format!("{{\"k\":\"param\",\"n\":{}}}", js(p.name.as_str())),
            ty::Str => "{\"k\":\"str\"}".into(),
            ty::Bool => "{\"k\":\"bool\"}".into(),
            ty::Never => "{\"k\":\"never\"}".into(),
            ty::Dynamic(..) => format!("{{\"k\":\"dyn\",\"s\":{}}}", js(&t.to_string())),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", js(&t.to_string())),
        };
        self.types[i] = s;
        i
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&def.did()) {
            return;
        }
        self.adts.insert(def.did(), String::new());
        let local = def.did().is_local();
        let mut vs = Vec::new();
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = if local {
                    let fty = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(fty).to_string()
                } else {
                    "null".into()
                };
                fs.push(format!("[{},{}]", js(f.name.as_str()), t));
            }
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".to_string()
            };
            vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":{}}}", js(v.name.as_str()), discr, arr(fs)));
        }
        let s = format!(
            "{{\"kind\":\"{}\",\"local\":{},\"span\":{},\"v\":{}}}",
            if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" },
            local,
            if local { self.span(self.tcx.def_span(def.did())) } else { "null".into() },
            arr(vs)
        );
        self.adts.insert(def.did(), s);
    }

    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{:?}", o),
        };
        format!("[{},{}]", js(&f), lo.line)
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let mut out = Vec::new();
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let s = match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = def.variant(vi);
                            let owner = self.path(def.did());
                            if def.is_enum() {
                                format!("{}::{}.{}", owner, v.name, v.fields[f].name)
                            } else {
                                format!("{}.{}", owner, v.fields[f].name)
                            }
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let tix = self.ty(t);
                    format!("[\"f\",{},{},{}]", f.as_usize(), js(&name), tix)
                }
                ProjectionElem::Downcast(n, v) => {
                    format!("[\"v\",{},{}]", v.as_usize(), js(n.map(|x| x.to_string()).unwrap_or_default().as_str()))
                }
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"c\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{},{},{}]", from, to, from_end),
                _ => "[\"o\"]".to_string(),
            };
            out.push(s);
            pty = pty.projection_ty(self.tcx, e);
        }
        let tix = self.ty(pty.ty);
        format!("{{\"l\":{},\"p\":{},\"t\":{}}}", p.local.as_usize(), arr(out), tix)
    }

    fn const_val(&mut self, c: &Const<'tcx>, did: DefId, sp: Span) -> String {
        let t = c.ty();
        let tix = self.ty(t);
        let mut name = "null".to_string();
        if let Const::Unevaluated(u, _) = c {
            if u.promoted.is_none() {
                name = js(&self.path(u.def));
            } else {
                name = js(&format!("{}::promoted[{}]", self.path(u.def), u.promoted.unwrap().as_usize()));
            }
        }
        match t.kind() {
            ty::FnDef(d, args) => {
                return self.fn_ref(*d, args.skip_binder(), did, tix);
            }
            ty::Closure(d, _) => {
                return format!("{{\"k\":\"closure\",\"n\":{},\"t\":{}}}", js(&self.path(*d)), tix);
            }
            _ => (),
        }
        if let Const::Ty(_, x) = c {
            if let ty::ConstKind::Param(p) = x.kind() {
                return format!("{{\"k\":\"param\",\"n\":{},\"t\":{}}}", js(p.name.as_str()), tix);
            }
        }
        let te = TypingEnv::post_analysis(self.tcx, did);
        let ev = c.eval(self.tcx, te, sp);
        let mut v = "null".to_string();
        if let Ok(val) = ev {
            match val {
                ConstValue::Scalar(s) => {
                    if let Ok(i) = s.try_to_scalar_int() {
                        let size = i.size();
                        v = match t.kind() {
                            ty::Bool => format!("{{\"b\":{}}}", i.to_bits(size) != 0),
                            ty::Char => format!("{{\"c\":{}}}", i.to_bits(size)),
                            ty::Int(_) => format!("{{\"i\":\"{}\"}}", i.to_int(size)),
                            _ => format!("{{\"i\":\"{}\"}}", i.to_bits(size)),
                        };
                    } else if let Some(b) = self.bytes_of(&val, t) {
                        v = b;
                    } else {
                        v = "{\"ptr\":1}".into();
                    }
                }
                ConstValue::ZeroSized => v = "{\"z\":1}".into(),
                ConstValue::Slice { .. } => {
                    if let Some(bytes) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        v = self.bytes_js(bytes, matches!(t.kind(), ty::Ref(_, x, _) if x.is_str()));
                    }
                }
                ConstValue::Indirect { .. } => {
                    if let Some(b) = self.bytes_of(&val, t) {
                        v = b;
                    } else {
                        v = format!("{{\"dbg\":{}}}", js(&format!("{}", c)));
                    }
                }
            }
        }
        format!("{{\"k\":\"const\",\"name\":{},\"v\":{},\"t\":{}}}", name, v, tix)
    }

    fn bytes_js(&self, b: &[u8], is_str: bool) -> String {
        if is_str {
            format!("{{\"s\":{}}}", js(&String::from_utf8_lossy(b)))
        } else {
            format!("{{\"y\":{}}}", arr(b.iter().map(|x| x.to_string()).collect()))
        }
    }

    /// If `val: t` is a (reference to a) byte array, its contents; a Duration its seconds and nanos.
    fn bytes_of(&self, val: &ConstValue, t: Ty<'tcx>) -> Option<String> {
        let tcx = self.tcx;
        if let ty::Ref(_, inner, _) = t.kind() {
            if let ty::Array(et, n) = inner.kind() {
                if *et == tcx.types.u8 {
                    let n = n.try_to_target_usize(tcx)?;
                    if let ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = val {
                        let (prov, off) = p.prov_and_relative_offset();
                        if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                            let a = a.inner();
                            let lo = off.bytes_usize();
                            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n as usize);
                            return Some(self.bytes_js(b, false));
                        }
                    }
                }
            }
            return None;
        }
        if let ConstValue::Indirect { alloc_id, offset } = val {
            let a = match tcx.global_alloc(*alloc_id) {
                rustc_middle::mir::interpret::GlobalAlloc::Memory(a) => a.inner(),
                _ => return None,
            };
            let lo = offset.bytes_usize();
            match t.kind() {
                ty::Array(et, n) if *et == tcx.types.u8 => {
                    let n = n.try_to_target_usize(tcx)? as usize;
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + n);
                    return Some(self.bytes_js(b, false));
                }
                ty::Ref(_, x, _) if x.is_str() => {
                    return None;
                }
                ty::Adt(def, _) if self.path(def.did()).ends_with("time::Duration") => {
                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(lo..lo + 12);
                    let s = u64::from_le_bytes(b[0..8].try_into().ok()?);
                    let n = u32::from_le_bytes(b[8..12].try_into().ok()?);
                    return Some(format!("{{\"dur\":[{},{}]}}", s, n));
                }
                _ => return None,
            }
        }
        None
    }

    fn fn_ref(&mut self, d: DefId, args: GenericArgsRef<'tcx>, ctx: DefId, tix: usize) -> String {
        let tcx = self.tcx;
        let te = TypingEnv::post_analysis(tcx, ctx);
        let targs: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
        // Const arguments: the callee's name of each and its value (or the caller's name of it).
        let mut cargs = Vec::new();
        let gens = tcx.generics_of(d);
        for (i, a) in args.iter().enumerate() {
            if let Some(c) = a.as_const() {
                if i < gens.count() {
                    let n = js(gens.param_at(i, tcx).name.as_str());
                    cargs.push(format!("[{},{}]", n, self.const_arg(c)));
                }
            }
        }
        let mut resolved = "null".to_string();
        let mut rkind = "none";
        let args2 = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, te, d, args2) {
            match inst.def {
                ty::InstanceKind::Item(rd) => {
                    resolved = js(&self.path(rd));
                    rkind = "item";
                    self.want(rd);
                }
                ty::InstanceKind::Intrinsic(rd) => {
                    resolved = js(&self.path(rd));
                    rkind = "intrinsic";
                }
                ty::InstanceKind::Virtual(..) => rkind = "virtual",
                ty::InstanceKind::Shim(_) => rkind = "shim",
                _ => rkind = "other",
            }
        }
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => js(&self.path(t)),
            None => "null".into(),
        };
        // For methods of inherent or trait impls: the type they are implemented for.
        let selfty = if let Some(imp) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate(tcx, tcx.mk_args(&args[..tcx.generics_of(imp).count().min(args.len())])).skip_norm_wip();
            self.ty(st).to_string()
        } else if tcx.trait_of_assoc(d).is_some() {
            match args.types().next() {
                Some(t) => self.ty(t).to_string(),
                None => "null".into(),
            }
        } else {
            "null".into()
        };
        format!(
            "{{\"k\":\"fn\",\"n\":{},\"a\":{},\"r\":{},\"rk\":\"{}\",\"trait\":{},\"self\":{},\"item\":{},\"t\":{},\"local\":{},\"ca\":{}}}",
            js(&self.path(d)), arr(targs), resolved, rkind, tr, selfty,
            js(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default().as_str()), tix, d.is_local(), arr(cargs)
        )
    }

    fn const_arg(&self, c: ty::Const<'tcx>) -> String {
        match c.kind() {
            ty::ConstKind::Param(p) => js(p.name.as_str()),
            _ => c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()),
        }
    }

    fn want(&mut self, d: DefId) {
        if d.is_local() || self.seen.contains(&d) {
            return;
        }
        let p = self.path(d);
        if want_external(&p) && self.tcx.is_mir_available(d) {
            self.seen.insert(d);
            self.todo.push(d);
        }
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, did: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"p\":{}}}", self.place(p, body)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"p\":{}}}", self.place(p, body)),
            Operand::Constant(c) => self.const_val(&c.const_, did, c.span),
            _ => "{\"k\":\"rtcheck\"}".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, did: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o, body, did)),
            Rvalue::Ref(_, bk, p) => {
                format!("{{\"k\":\"ref\",\"m\":{},\"p\":{}}}", matches!(bk, BorrowKind::Mut { .. }), self.place(p, body))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"m\":true,\"p\":{}}}", self.place(p, body)),
            Rvalue::Cast(ck, o, t) => {
                let tix = self.ty(*t);
                let s = format!("{:?}", ck);
                format!("{{\"k\":\"cast\",\"c\":{},\"o\":{},\"t\":{}}}", js(&s), self.operand(o, body, did), tix)
            }
            Rvalue::BinaryOp(b, ab) => {
                format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}", b, self.operand(&ab.0, body, did), self.operand(&ab.1, body, did))
            }
            Rvalue::UnaryOp(u, o) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"o\":{}}}", u, self.operand(o, body, did))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(p, body)),
            Rvalue::Aggregate(ak, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o, body, did)).collect();
                let h = match &**ak {
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!("\"a\":\"adt\",\"n\":{},\"v\":{},\"vn\":{},\"af\":{}", js(&self.path(*d)), v.as_usize(),
                            js(def.variant(*v).name.as_str()),
                            af.map(|x| x.as_usize().to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Tuple => "\"a\":\"tuple\"".to_string(),
                    AggregateKind::Array(_) => "\"a\":\"array\"".to_string(),
                    AggregateKind::Closure(d, _) => format!("\"a\":\"closure\",\"n\":{}", js(&self.path(*d))),
                    _ => "\"a\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"o\":{}}}", h, arr(os))
            }
            Rvalue::Repeat(o, n) => {
                let n = self.const_arg(*n);
                format!("{{\"k\":\"repeat\",\"o\":{},\"len\":{}}}", self.operand(o, body, did), n)
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"p\":{}}}}}", self.place(p, body)),
            other => format!("{{\"k\":\"other\",\"s\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn body(&mut self, id: &str, kind: &str, did: DefId, body: &Body<'tcx>) -> String {
        let mut o = String::new();
        write!(o, "{{\"id\":{},\"kind\":\"{}\",\"argc\":{},\"span\":{},\"local\":{}", js(id), kind, body.arg_count, self.span(body.span), did.is_local()).unwrap();
        if kind == "closure" {
            write!(o, ",\"parent\":{}", js(&self.path(self.tcx.parent(did)))).unwrap();
            if let Some(l) = did.as_local() {
                let names: Vec<String> = self.tcx.closure_captures(l).iter().map(|c| js(c.to_symbol().as_str())).collect();
                write!(o, ",\"upvars\":{}", arr(names)).unwrap();
            }
        }
        write!(o, ",\"spread\":{}", body.spread_arg.map(|x| x.as_usize().to_string()).unwrap_or("null".into())).unwrap();
        if let Some(imp) = self.tcx.impl_of_assoc(did) {
            let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let i = self.ty(st);
            write!(o, ",\"implself\":{},\"derived\":{}", i, self.tcx.is_automatically_derived(imp)).unwrap();
        }
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let ls: Vec<String> = body
            .local_decls
            .iter_enumerated()
            .map(|(i, d)| {
                let t = self.ty(d.ty);
                match names.get(&i.as_usize()) {
                    Some(n) => format!("[{},{}]", t, js(n)),
                    None => format!("[{}]", t),
                }
            })
            .collect();
        write!(o, ",\"locals\":{}", arr(ls)).unwrap();
        let mut bs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut ss = Vec::new();
            for st in &bb.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        ss.push(format!("{{\"k\":\"=\",\"p\":{},\"r\":{},\"s\":{}}}", self.place(p, body), self.rvalue(r, body, did), self.span(st.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("{{\"k\":\"sd\",\"p\":{},\"v\":{}}}", self.place(place, body), variant_index.as_usize()));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("{{\"k\":\"dead\",\"l\":{}}}", l.as_usize())),
                    _ => (),
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<String> = targets.iter().map(|(v, b)| format!("[\"{}\",{}]", v, b.as_usize())).collect();
                    format!("{{\"k\":\"switch\",\"o\":{},\"v\":{},\"e\":{},\"s\":{}}}", self.operand(discr, body, did), arr(v), targets.otherwise().as_usize(), sp)
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume => "{\"k\":\"resume\"}".into(),
                TerminatorKind::UnwindTerminate(_) => "{\"k\":\"abort\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("{{\"k\":\"drop\",\"p\":{},\"t\":{},\"s\":{}}}", self.place(place, body), target.as_usize(), sp)
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let a: Vec<String> = args.iter().map(|x| self.operand(&x.node, body, did)).collect();
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{},\"s\":{},\"fs\":{}}}",
                        self.operand(func, body, did), arr(a), self.place(destination, body),
                        target.map(|x| x.as_usize().to_string()).unwrap_or("null".into()), sp, self.span(*fn_span)
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    format!("{{\"k\":\"assert\",\"o\":{},\"e\":{},\"m\":{},\"t\":{},\"s\":{}}}", self.operand(cond, body, did), expected, js(&m), target.as_usize(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize()),
                k => format!("{{\"k\":\"other\",\"x\":{}}}", js(&format!("{:?}", k))),
            };
            bs.push(format!("{{\"c\":{},\"st\":{},\"t\":{}}}", bb.is_cleanup, arr(ss), ts));
        }
        write!(o, ",\"blocks\":[\n{}\n]}}", bs.join(",\n")).unwrap();
        o
    }

    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut bodies = Vec::new();
        let mut items = Vec::new();
        for l in tcx.mir_keys(()).iter() {
            let did = l.to_def_id();
            let kind = match tcx.def_kind(did) {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "method",
                DefKind::Closure => "closure",
                DefKind::Const { .. } | DefKind::Static { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst => {
                    items.push(js(&self.path(did)));
                    continue;
                }
                _ => continue,
            };
            if tcx.is_constructor(did) {
                continue;
            }
            let b = tcx.optimized_mir(did);
            let p = self.path(did);
            bodies.push(self.body(&p, kind, did, b));
            for (i, pb) in tcx.promoted_mir(did).iter_enumerated() {
                let pid = format!("{}::promoted[{}]", p, i.as_usize());
                bodies.push(self.body(&pid, "promoted", did, pb));
            }
        }
        while let Some(d) = self.todo.pop() {
            let p = self.path(d);
            let kind = if tcx.is_closure_like(d) { "closure" } else { "fn" };
            let b = tcx.optimized_mir(d);
            bodies.push(self.body(&p, kind, d, b));
            // closures made inside library bodies
            for bb in b.basic_blocks.iter() {
                for st in &bb.statements {
                    if let StatementKind::Assign(x) = &st.kind {
                        if let Rvalue::Aggregate(ak, _) = &x.1 {
                            if let AggregateKind::Closure(cd, _) = &**ak {
                                if !self.seen.contains(cd) && tcx.is_mir_available(*cd) {
                                    self.seen.insert(*cd);
                                    self.todo.push(*cd);
                                }
                            }
                        }
                    }
                }
            }
        }
        let mut adts: Vec<String> = self.adts.iter().map(|(d, s)| format!("{}:{}", js(&self.path(*d)), s)).collect();
        adts.sort();
        format!(
            "{{\"crate\":{},\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"consts\":{},\"bodies\":[\n{}\n]}}\n",
            js(tcx.crate_name(LOCAL_CRATE).as_str()),
            self.types.join(",\n"),
            adts.join(",\n"),
            arr(items),
            bodies.join(",\n")
        )
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let want = std::env::var("PZ_CRATE").unwrap_or_default();
        if tcx.crate_name(LOCAL_CRATE).as_str() == want {
            if let Ok(out) = std::env::var("PZ_OUT") {
                let mut d = Dumper { tcx, types: vec![], type_ix: HashMap::new(), adts: HashMap::new(), todo: vec![], seen: HashSet::new() };
                let s = d.run();
                let tmp = format!("{out}.tmp");
                std::fs::write(&tmp, s).unwrap();
                std::fs::rename(&tmp, &out).unwrap();
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WORKSPACE_WRAPPER we are called as `pzdriver <path to rustc> <args>`.
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    // Only the crate we analyse is compiled without MIR optimisations.
    let want = std::env::var("PZ_CRATE").unwrap_or_default();
    if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == want) {
        for f in ["-Zmir-opt-level=0", "-Zinline-mir=no", "-Awarnings"] {
            args.push(f.to_string());
        }
    }
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut Cb))
}

// rustc_private driver: compiles a corpus crate and dumps, as JSON, the
// resolved and monomorphised MIR of everything reachable from its `s_*`
// functions.  Nothing is executed; the dump is the input of analysis/.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct X<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty, usize>,
    ty_out: Vec<String>,
    ty_queue: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    inst_list: Vec<Instance>,
    inst_out: Vec<Option<String>>,
    vtables: HashMap<(Ty, Ty), ()>,
    vt_out: Vec<String>,
    statics: HashMap<StaticDef, usize>,
    static_list: Vec<StaticDef>,
    cur_locals: Vec<LocalDecl>,
    descend_all: bool,
    models: HashMap<String, rustc_span::def_id::DefId>,
}

const ALLOW: &[&str] = &[
    "core::option::", "core::result::", "core::iter::", "core::ops::", "core::cmp::",
    "core::convert::", "core::clone::", "core::default::", "core::bool::", "core::borrow::",
    "core::tuple::", "core::hint::", "core::array::", "core::marker::",
    "core::future::ready", "core::task::", "core::pin::",
    "core::slice::cmp::", "core::slice::<impl", "alloc::borrow::", "core::any::", "core::iter",
    "core::range", "core::mem::take", "core::mem::drop", "core::mem::swap", "core::mem::replace",
    "core::cell::", "core::ops::", "core::slice::<impl [T]>::iter",
];
const DROP_STOP: &[&str] = &[
    "alloc::vec::", "alloc::string::", "alloc::boxed::", "alloc::sync::", "alloc::rc::",
    "std::sync::", "std::collections::", "hashbrown::", "core::fmt::", "std::path::", "std::ffi::",
    "alloc::collections::", "std::io::", "std::thread::", "alloc::ffi", "core::cell::",
];

impl<'tcx> X<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tys.get(&t) {
            return *i;
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(String::new());
        self.ty_queue.push(t);
        i
    }
    fn ity(&self, t: Ty) -> rustc_middle::ty::Ty<'tcx> {
        rustc_internal::internal(self.tcx, t)
    }
    fn path(&self, d: rustc_span::def_id::DefId) -> String {
        use rustc_middle::ty::print::*;
        with_no_trimmed_paths!(with_no_visible_paths!(with_forced_impl_filename_line!(
            with_resolve_crate_name!(self.tcx.def_path_str(d))
        )))
    }
    fn path_plain(&self, d: rustc_span::def_id::DefId) -> String {
        use rustc_middle::ty::print::*;
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        )))
    }
    fn tystr(&self, t: Ty) -> String {
        use rustc_middle::ty::print::*;
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(format!(
            "{}",
            self.ity(t)
        ))))
    }
    fn garg(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    Some(format!("{{\"c\":{}}}", c.eval_target_usize().unwrap_or(0)))
                }
                _ => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }
    fn emit_ty(&mut self, t: Ty) -> String {
        let s = js(&self.tystr(t));
        let k = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".into(),
                RigidTy::Char => "\"k\":\"char\"".into(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"b\":{},\"sg\":1", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"int\",\"b\":{},\"sg\":0", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".into(),
                RigidTy::Str => "\"k\":\"str\"".into(),
                RigidTy::Never => "\"k\":\"never\"".into(),
                RigidTy::Adt(d, args) => {
                    let did = rustc_internal::internal(self.tcx, d.def_id());
                    let p = js(&self.path_plain(did));
                    let ga = self.garg(&args);
                    let mut vs = vec![];
                    for v in d.variants_iter() {
                        let discr = if d.kind() == AdtKind::Enum {
                            d.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".into()
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            let fty = self.norm(fty);
                            let i = self.ty(fty);
                            fs.push(format!("[{},{}]", js(&f.name.to_string()), i));
                        }
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":[{}]}}",
                            js(&v.name().to_string()),
                            discr,
                            fs.join(",")
                        ));
                    }
                    format!(
                        "\"k\":\"adt\",\"ak\":\"{:?}\",\"def\":{},\"args\":{},\"v\":[{}]",
                        d.kind(),
                        p,
                        ga,
                        vs.join(",")
                    )
                }
                RigidTy::Array(e, n) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(e),
                    n.eval_target_usize().unwrap_or(0)
                ),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"m\":{}", self.ty(e), (m == Mutability::Mut) as u8)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"m\":{}", self.ty(e), (m == Mutability::Mut) as u8)
                }
                RigidTy::FnDef(d, a) => {
                    let r = Instance::resolve(d, &a).ok();
                    let r = r.map(|r| self.redirect(r, rustc_internal::internal(self.tcx, d.def_id()), &a));
                    let did = rustc_internal::internal(self.tcx, d.def_id());
                    let p = js(&self.path_plain(did));
                    let i = r.map(|r| self.inst(r) as i64).unwrap_or(-1);
                    format!("\"k\":\"fndef\",\"def\":{},\"args\":{},\"i\":{}", p, self.garg(&a), i)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
                RigidTy::Closure(d, a) => {
                    let did = rustc_internal::internal(self.tcx, d.def_id());
                    let p = js(&self.path_plain(did));
                    let it = self.ity(t);
                    let ups: Vec<Ty> = match it.kind() {
                        rustc_middle::ty::TyKind::Closure(_, ca) => ca
                            .as_closure()
                            .upvar_tys()
                            .iter()
                            .map(|t| rustc_internal::stable(t))
                            .collect(),
                        _ => vec![],
                    };
                    let kind = match it.kind() {
                        rustc_middle::ty::TyKind::Closure(_, ca) => {
                            format!("{:?}", ca.as_closure().kind())
                        }
                        _ => "?".into(),
                    };
                    let ups: Vec<String> =
                        ups.into_iter().map(|t| { let t = self.norm(t); self.ty(t).to_string() }).collect();
                    let ck = match kind.as_str() {
                        "Fn" => ClosureKind::Fn,
                        "FnMut" => ClosureKind::FnMut,
                        _ => ClosureKind::FnOnce,
                    };
                    let body = Instance::resolve_closure(d, &a, ck).ok();
                    let bi = body.map(|b| self.inst(b) as i64).unwrap_or(-1);
                    format!(
                        "\"k\":\"closure\",\"def\":{},\"ck\":{},\"up\":[{}],\"body\":{}",
                        p,
                        js(&kind),
                        ups.join(","),
                        bi
                    )
                }
                RigidTy::Dynamic(preds, _) => {
                    let p = preds.iter().find_map(|b| match &b.value {
                        ExistentialPredicate::Trait(t) => {
                            let did = rustc_internal::internal(self.tcx, t.def_id.def_id());
                            Some(self.path_plain(did))
                        }
                        _ => None,
                    });
                    format!("\"k\":\"dyn\",\"tr\":{}", js(&p.unwrap_or_default()))
                }
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"f\":[{}]", v.join(","))
                }
                RigidTy::Coroutine(..) | RigidTy::CoroutineClosure(..) => "\"k\":\"coroutine\"".into(),
                _ => "\"k\":\"other\"".into(),
            },
            _ => "\"k\":\"other\"".into(),
        };
        // drop glue
        let dropi = if self.wants_drop(t) {
            let i = Instance::resolve_drop_in_place(t);
            if i.is_empty_shim() { -1 } else { self.inst(i) as i64 }
        } else {
            -1
        };
        format!("{{\"s\":{},{},\"drop\":{}}}", s, k, dropi)
    }
    fn norm(&self, t: Ty) -> Ty {
        use rustc_middle::ty::TypeVisitableExt;
        let it = self.ity(t);
        if !it.has_aliases() { return t; }
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match self.tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(it)) {
            Ok(t) => rustc_internal::stable(t),
            Err(_) => t,
        }
    }
    fn wants_drop(&self, t: Ty) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        let it = self.ity(t);
        if it.has_param() || it.has_aliases() || it.has_escaping_bound_vars() {
            return false;
        }
        match t.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) => {
                let did = rustc_internal::internal(self.tcx, d.def_id());
                let p = self.path_plain(did);
                if DROP_STOP.iter().any(|s| p.starts_with(s)) {
                    return false;
                }
                true
            }
            TyKind::RigidTy(RigidTy::Closure(..)) | TyKind::RigidTy(RigidTy::Tuple(..))
            | TyKind::RigidTy(RigidTy::Array(..)) => true,
            _ => false,
        }
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(k) = self.insts.get(&i) {
            return *k;
        }
        let k = self.inst_list.len();
        self.insts.insert(i, k);
        self.inst_list.push(i);
        self.inst_out.push(None);
        k
    }
    fn descend(&self, i: Instance, p: &str) -> bool {
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        if let rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(_, t)) = ii.def {
            return match t {
                Some(t) => self.wants_drop(rustc_internal::stable(t)),
                None => false,
            };
        }
        let c = self.tcx.crate_name(did.krate).to_string();
        if !matches!(c.as_str(), "core" | "alloc" | "std" | "hashbrown") {
            return true;
        }
        if self.descend_all {
            return true;
        }
        // shims for closures etc.
        if !matches!(ii.def, rustc_middle::ty::InstanceKind::Item(_)) {
            return true;
        }
        let p = p.trim_start_matches('<');
        // formatting that only forwards to another value
        if (p.contains(" as core::fmt::Debug>::fmt") || p.contains(" as core::fmt::Display>::fmt"))
            && ["&T as", "&mut T as", "alloc::boxed::Box<"].iter().any(|a| p.starts_with(a))
        {
            return true;
        }
        ALLOW.iter().any(|a| p.starts_with(a) || p.contains(&format!(" as {a}")))
            || p.contains("impl core::cmp::") || p.contains("impl core::convert::")
            || p.contains("impl core::clone::")
    }
    fn emit_inst(&mut self, idx: usize) {
        let i = self.inst_list[idx];
        let ii = rustc_internal::internal(self.tcx, i);
        let did = ii.def_id();
        let p = self.path(did);
        let plain = self.path_plain(did);
        let cname = self.tcx.crate_name(did.krate).to_string();
        let dk = self.tcx.def_kind(did);
        // for trait impl methods: the trait method; for impl fns: self ty
        let mut trm = String::new();
        let mut selfadt = String::new();
        if let Some(ai) = self.tcx.opt_associated_item(did) {
            if let Some(tid) = ai.trait_item_def_id() {
                trm = self.path_plain(tid);
            }
            if let Some(impl_id) = self.tcx.inherent_impl_of_assoc(did).or(self.tcx.trait_impl_of_assoc(did)) {
                let st = self.tcx.type_of(impl_id).instantiate_identity().skip_norm_wip();
                if let Some(ad) = st.ty_adt_def() {
                    selfadt = self.path_plain(ad.did());
                } else {
                    selfadt = format!("{}", st);
                }
            } else if let Some(tr) = self.tcx.trait_of_assoc(did) {
                trm = plain.clone();
                let _ = tr;
            }
        }
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let vidx = if let InstanceKind::Virtual { idx } = i.kind { idx as i64 } else { -1 };
        let shim = match ii.def {
            rustc_middle::ty::InstanceKind::Item(_) => String::new(),
            rustc_middle::ty::InstanceKind::Shim(k) => {
                let s = format!("{:?}", k);
                s.split(|c| c == '(' || c == ' ').next().unwrap().to_string()
            }
            _ => String::new(),
        };
        let sty = match ii.def {
            rustc_middle::ty::InstanceKind::Shim(rustc_middle::ty::ShimKind::DropGlue(_, Some(t))) => {
                let st = rustc_internal::stable(t);
                self.ty(st) as i64
            }
            _ => -1,
        };
        let args = i.args();
        let ga = if matches!(i.kind, InstanceKind::Virtual{..}) { "[]".to_string() } else { self.garg(&args) };
        let desc = self.descend(i, &plain);
        let mut fmti = -1i64;
        let to_string = trm == "alloc::string::ToString::to_string" || trm == "alloc::string::SpecToString::spec_to_string";
        if plain.starts_with("core::fmt::rt::Argument::<'_>::new_") || to_string {
            let tr = if plain.ends_with("new_debug") {
                self.tcx.get_diagnostic_item(rustc_span::sym::Debug)
            } else if to_string || plain.ends_with("new_display") {
                self.tcx.get_diagnostic_item(rustc_span::Symbol::intern("Display"))
            } else { None };
            let t = args.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None });
            if let (Some(tr), Some(t)) = (tr, t) {
                if let Some(m) = self.tcx.associated_item_def_ids(tr).first() {
                    let it = self.ity(t);
                    let ga = self.tcx.mk_args(&[it.into()]);
                    let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                    if let Ok(Some(r)) = rustc_middle::ty::Instance::try_resolve(self.tcx, env, *m, ga) {
                        let si: Instance = rustc_internal::stable(r);
                        let sga = GenericArgs(vec![GenericArgKind::Type(t)]);
                        let si = self.redirect(si, *m, &sga);
                        fmti = self.inst(si) as i64;
                    }
                }
            }
        }
        let has = i.has_body();
        let is_rustcall = {
            use rustc_middle::ty::TypeVisitableExt;
            if matches!(dk, rustc_hir::def::DefKind::Closure) { true } else {
                matches!(dk, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn)
                    && self.tcx.fn_sig(did).skip_binder().abi() == rustc_abi_rustcall()
                    && { let _ = ii.args.has_param(); true }
            }
        };
        let span = self.tcx.def_span(did);
        let loc = self.tcx.sess.source_map().span_to_diagnostic_string(span);
        let mut o = String::new();
        write!(
            o,
            "{{\"p\":{},\"q\":{},\"name\":{},\"tm\":{},\"self\":{},\"cr\":{},\"k\":\"{}\",\"shim\":{},\"sty\":{},\"vi\":{},\"args\":{},\"has\":{},\"rc\":{},\"clo\":{},\"fmt\":{},\"loc\":{}",
            js(&plain), js(&p), js(&i.name().to_string()), js(&trm), js(&selfadt), js(&cname), kind, js(&shim), sty, vidx, ga,
            has, is_rustcall as u8, matches!(dk, rustc_hir::def::DefKind::Closure) as u8, fmti, js(&loc)
        )
        .unwrap();
        if std::env::var("XT_DBG").is_ok() { eprintln!("I {} {}", plain, desc); }
        if has && desc && !matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic) {
            let b = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| i.body())).ok().flatten();
            if let Some(b) = b {
                o.push_str(",\"body\":");
                let bs = self.body(&b);
                o.push_str(&bs);
            }
        }
        o.push('}');
        self.inst_out[idx] = Some(o);
    }
    fn body(&mut self, b: &Body) -> String {
        self.cur_locals = b.locals().to_vec();
        let mut o = String::new();
        let ls: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut names: Vec<String> = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(format!("[{},{}]", l, js(&v.name.to_string())));
            }
        }
        write!(
            o,
            "{{\"L\":[{}],\"n\":{},\"sp\":{},\"dbg\":[{}],\"B\":[",
            ls.join(","),
            b.arg_locals().len(),
            b.spread_arg().map(|x| x as i64).unwrap_or(-1),
            names.join(",")
        )
        .unwrap();
        for (bi, bb) in b.blocks.iter().enumerate() {
            if bi > 0 {
                o.push(',');
            }
            let mut ss = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let ps = self.place(p);
                        let rs = self.rvalue(r);
                        ss.push(format!("[\"=\",{},{}]", ps, rs));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        ss.push(format!("[\"D\",{},{}]", self.place(place), vi(*variant_index)));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"x\",{}]", l)),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"l\",{}]", l)),
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(op)) => {
                        ss.push(format!("[\"A\",{}]", self.op(op)))
                    }
                    StatementKind::Intrinsic(_) => ss.push("[\"?\"]".into()),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = self.term(&bb.terminator);
            write!(o, "{{\"s\":[{}],\"t\":{},\"ln\":{}}}", ss.join(","), t, line).unwrap();
        }
        o.push_str("]}");
        o
    }
    fn unw(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Continue => "-1".into(),
            UnwindAction::Unreachable => "-2".into(),
            UnwindAction::Terminate => "-3".into(),
            UnwindAction::Cleanup(b) => b.to_string(),
        }
    }
    fn term(&mut self, t: &Terminator) -> String {
        match &t.kind {
            TerminatorKind::Goto { target } => format!("[\"g\",{}]", target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.branches().map(|(v, b)| format!("[{},{}]", v, b)).collect();
                format!("[\"s\",{},[{}],{}]", self.op(discr), v.join(","), targets.otherwise())
            }
            TerminatorKind::Resume => "[\"R\"]".into(),
            TerminatorKind::Abort => "[\"X\"]".into(),
            TerminatorKind::Return => "[\"r\"]".into(),
            TerminatorKind::Unreachable => "[\"u\"]".into(),
            TerminatorKind::Drop { place, target, unwind } => {
                let pt = place.ty(&self.cur_locals).ok();
                let ti = pt.map(|t| { self.ty(t) as i64 }).unwrap_or(-1);
                let mut gi = -1i64;
                if let Some(pt) = pt {
                    use rustc_middle::ty::TypeVisitableExt;
                    if !self.ity(pt).has_param() && self.wants_drop(pt) {
                        let i = Instance::resolve_drop_in_place(pt);
                        gi = if i.is_empty_shim() { -2 } else { self.inst(i) as i64 };
                    }
                }
                format!("[\"d\",{},{},{},{},{}]", self.place(place), ti, gi, target, self.unw(unwind))
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = func.ty(&self.cur_locals).unwrap();
                let mut ci = -1i64;
                let mut tm = String::new();
                if let TyKind::RigidTy(RigidTy::FnDef(d, ga)) = fty.kind() {
                    let did = rustc_internal::internal(self.tcx, d.def_id());
                    tm = self.path_plain(did);
                    if let Ok(i) = Instance::resolve(d, &ga) {
                        let i2 = self.redirect(i, rustc_internal::internal(self.tcx, d.def_id()), &ga);
                        ci = self.inst(i2) as i64;
                    }
                }
                let a: Vec<String> = args.iter().map(|a| self.op(a)).collect();
                let rt = destination.ty(&self.cur_locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                let at: Vec<String> = args
                    .iter()
                    .map(|a| a.ty(&self.cur_locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1).to_string())
                    .collect();
                format!(
                    "[\"c\",{},{},{},[{}],{},{},{},{},[{}]]",
                    ci,
                    self.op(func),
                    js(&tm),
                    a.join(","),
                    self.place(destination),
                    target.map(|t| t as i64).unwrap_or(-1),
                    self.unw(unwind),
                    rt,
                    at.join(",")
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let m = match msg {
                    AssertMessage::BoundsCheck { .. } => "bounds",
                    AssertMessage::Overflow(..) => "overflow",
                    _ => "other",
                };
                format!("[\"a\",{},{},\"{}\",{},{}]", self.op(cond), *expected as u8, m, target, self.unw(unwind))
            }
            TerminatorKind::InlineAsm { .. } => "[\"?\"]".into(),
        }
    }
    /// Iterator's consuming provided methods: use the reference bodies of
    /// corpus/vmodel.rs (same generic parameter order).
    fn redirect(&self, i: Instance, did: rustc_span::def_id::DefId, ga: &GenericArgs) -> Instance {
        let Some(tr) = self.tcx.trait_of_assoc(did) else { return i };
        let tp = self.path_plain(tr);
        if tp == "core::default::Default" {
            // <Arc<T>/Box<T>/Mutex<T>/... as Default>::default is new(T::default())
            let rdid = rustc_internal::internal(self.tcx, i).def_id();
            if !matches!(self.tcx.crate_name(rdid.krate).as_str(), "core" | "alloc" | "std") { return i; }
            if let Some(GenericArgKind::Type(st)) = ga.0.first() {
                if let TyKind::RigidTy(RigidTy::Adt(a, aa)) = st.kind() {
                    let ap = self.path_plain(rustc_internal::internal(self.tcx, a.def_id()));
                    let m = match ap.rsplit("::").next().unwrap() {
                        "Arc" => "default_arc", "Box" => "default_box", "Mutex" => "default_mutex",
                        "Atomic" => return i, _ => return i,
                    };
                    let inner = aa.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None });
                    if let (Some(m), Some(t)) = (self.models.get(m), inner) {
                        let it = self.ity(t);
                        if !matches!(t.kind(), TyKind::RigidTy(RigidTy::Str | RigidTy::Slice(_))) {
                            let ga = self.tcx.mk_args(&[it.into()]);
                            return rustc_internal::stable(rustc_middle::ty::Instance::new_raw(*m, ga));
                        }
                    }
                }
            }
            return i;
        }
        if tp == "core::fmt::Debug" || tp == "core::fmt::Display" {
            let rdid = rustc_internal::internal(self.tcx, i).def_id();
            if !matches!(self.tcx.crate_name(rdid.krate).as_str(), "core" | "alloc" | "std") { return i; }
            if let Some(GenericArgKind::Type(st)) = ga.0.first() {
                if let TyKind::RigidTy(RigidTy::Adt(a, aa)) = st.kind() {
                    let ap = self.path_plain(rustc_internal::internal(self.tcx, a.def_id()));
                    let m = match (ap.rsplit("::").next().unwrap(), tp.as_str()) {
                        ("MutexGuard", "core::fmt::Debug") => "debug_guard",
                        ("MutexGuard", _) => "display_guard",
                        ("Arc", "core::fmt::Debug") => "debug_arc",
                        ("Arc", _) => "display_arc",
                        _ => return i,
                    };
                    let inner = aa.0.iter().find_map(|g| match g { GenericArgKind::Type(t) => Some(*t), _ => None });
                    if let (Some(m), Some(t)) = (self.models.get(m), inner) {
                        let ga = self.tcx.mk_args(&[self.ity(t).into()]);
                        return rustc_internal::stable(rustc_middle::ty::Instance::new_raw(*m, ga));
                    }
                }
            }
            return i;
        }
        if !(tp == "core::iter::traits::iterator::Iterator"
            || tp == "core::iter::traits::double_ended::DoubleEndedIterator")
        {
            return i;
        }
        let n = self.tcx.item_name(did).to_string();
        let Some(m) = self.models.get(&n) else { return i };
        // only std iterators; user impls keep their own overrides
        let rdid = rustc_internal::internal(self.tcx, i).def_id();
        let c = self.tcx.crate_name(rdid.krate).to_string();
        if !matches!(c.as_str(), "core" | "alloc" | "std" | "hashbrown") { return i; }
        let iargs = rustc_internal::internal(self.tcx, ga);
        if self.tcx.generics_of(*m).count() != iargs.iter().count() { return i; }
        let raw = rustc_middle::ty::Instance::new_raw(*m, iargs);
        rustc_internal::stable(raw)
    }
    fn place(&mut self, p: &Place) -> String {
        if p.projection.is_empty() {
            return p.local.to_string();
        }
        let mut v = vec![p.local.to_string()];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, *from_end as u8)
                }
                ProjectionElem::Subslice { .. } => "[\"sub\"]".into(),
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", vi(*v)),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".into(),
            });
        }
        format!("[{}]", v.join(","))
    }
    fn op(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"C\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"M\",{}]", self.place(p)),
            Operand::RuntimeChecks(r) => format!("[\"K\",{}]", matches!(r, RuntimeChecks::OverflowChecks) as u8),
            Operand::Constant(c) => {
                let t = c.ty();
                let ti = self.ty(t);
                let v = self.constant(&c.const_);
                format!("[\"k\",{},{}]", ti, v)
            }
        }
    }
    fn constant(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_val(t, a, 0, 0),
            ConstantKind::ZeroSized => "{\"z\":1}".into(),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.alloc_val(*vt, a, 0, 0),
                TyConstKind::ZSTValue(_) => "{\"z\":1}".into(),
                _ => "null".into(),
            },
            _ => "null".into(),
        }
    }
    fn alloc_val(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        if depth > 6 {
            return "null".into();
        }
        let Ok(lay) = t.layout() else { return "null".into() };
        let shape = lay.shape();
        let size = shape.size.bytes();
        if size == 0 {
            return "{\"z\":1}".into();
        }
        let read = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match read(off, size) {
                    Some(v) => v.to_string(),
                    None => "null".into(),
                },
                RigidTy::Int(_) => match read(off, size) {
                    Some(v) => {
                        let bits = size * 8;
                        let v = if bits < 128 && (v >> (bits - 1)) & 1 == 1 {
                            v as i128 - (1i128 << bits)
                        } else {
                            v as i128
                        };
                        v.to_string()
                    }
                    None => "null".into(),
                },
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let Some(id) = prov else { return "{\"dangling\":1}".into() };
                    let inner_off = read(off, 8).unwrap_or(0) as usize;
                    match GlobalAlloc::from(id) {
                        GlobalAlloc::Static(s) => {
                            let k = self.stat(s);
                            format!("{{\"static\":{}}}", k)
                        }
                        GlobalAlloc::Memory(m) => match inner.kind() {
                            TyKind::RigidTy(RigidTy::Str) => {
                                let len = read(off + 8, 8).unwrap_or(0) as usize;
                                let b: Vec<u8> = m.bytes.iter().skip(inner_off).take(len).map(|x| x.unwrap_or(0)).collect();
                                format!("{{\"str\":{}}}", js(&String::from_utf8_lossy(&b)))
                            }
                            TyKind::RigidTy(RigidTy::Slice(e)) => {
                                let len = read(off + 8, 8).unwrap_or(0) as usize;
                                let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                if len > 4096 { return "null".into(); }
                                let v: Vec<String> = (0..len)
                                    .map(|i| self.alloc_val(e, &m, inner_off + i * es, depth + 1))
                                    .collect();
                                format!("{{\"ref\":{{\"arr\":[{}]}}}}", v.join(","))
                            }
                            TyKind::RigidTy(RigidTy::Dynamic(..)) => "null".into(),
                            _ => {
                                let v = self.alloc_val(inner, &m, inner_off, depth + 1);
                                format!("{{\"ref\":{}}}", v)
                            }
                        },
                        GlobalAlloc::Function(i) => {
                            let k = self.inst(i);
                            format!("{{\"fn\":{}}}", k)
                        }
                        _ => "null".into(),
                    }
                }
                RigidTy::FnPtr(_) => {
                    let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match prov.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => {
                            let k = self.inst(i);
                            format!("{{\"fn\":{}}}", k)
                        }
                        _ => "null".into(),
                    }
                }
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(0) as usize;
                    if n > 4096 { return "null".into(); }
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let v: Vec<String> = (0..n).map(|i| self.alloc_val(e, a, off + i * es, depth + 1)).collect();
                    format!("{{\"arr\":[{}]}}", v.join(","))
                }
                RigidTy::Tuple(ts) => {
                    let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "null".into() };
                    let v: Vec<String> = ts
                        .iter()
                        .enumerate()
                        .map(|(i, t)| self.alloc_val(*t, a, off + offsets[i].bytes(), depth + 1))
                        .collect();
                    format!("{{\"fs\":[{}]}}", v.join(","))
                }
                RigidTy::Adt(d, args) => {
                    let (vidx, offsets): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Single { index } => {
                            let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "null".into() };
                            (vi(*index), offsets.iter().map(|o| o.bytes()).collect())
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let FieldsShape::Arbitrary { offsets } = &shape.fields else { return "null".into() };
                            let toff = off + offsets[*tag_field].bytes();
                            use rustc_public::abi::*;
                            let tsz = match tag {
                                Scalar::Initialized { value: Primitive::Int { length, .. }, .. } => match length {
                                    IntegerLength::I8 => 1,
                                    IntegerLength::I16 => 2,
                                    IntegerLength::I32 => 4,
                                    IntegerLength::I64 => 8,
                                    IntegerLength::I128 => 16,
                                },
                                Scalar::Initialized { value: Primitive::Pointer(_), .. } => 8,
                                _ => return "null".into(),
                            };
                            match tag_encoding {
                                TagEncoding::Direct => {
                                    let Some(tv) = read(toff, tsz) else { return "null".into() };
                                    let mut found = None;
                                    for v in d.variants_iter() {
                                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        if d.discriminant_for_variant(v.idx()).val & mask == tv {
                                            found = Some(vi(v.idx()));
                                        }
                                    }
                                    let Some(f) = found else { return "null".into() };
                                    (f, variants[f].offsets.iter().map(|o| o.bytes()).collect())
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                                    let mut v = vi(*untagged_variant);
                                    if !has_prov {
                                        let Some(tv) = read(toff, tsz) else { return "null".into() };
                                        let rel = tv.wrapping_sub(*niche_start);
                                        let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = rel & mask;
                                        let (lo, hi) = (vi(*niche_variants.start()), vi(*niche_variants.end()));
                                        if rel <= (hi - lo) as u128 {
                                            v = lo + rel as usize;
                                        }
                                    }
                                    (v, variants[v].offsets.iter().map(|o| o.bytes()).collect())
                                }
                            }
                        }
                        _ => return "null".into(),
                    };
                    let Some(v) = d.variants().into_iter().nth(vidx) else { return "null".into() };
                    let mut fs = vec![];
                    for (i, f) in v.fields().iter().enumerate() {
                        let ft = self.norm(f.ty_with_args(&args));
                        if i >= offsets.len() { return "null".into(); }
                        fs.push(self.alloc_val(ft, a, off + offsets[i], depth + 1));
                    }
                    format!("{{\"v\":{},\"fs\":[{}]}}", vidx, fs.join(","))
                }
                _ => "null".into(),
            },
            _ => "null".into(),
        }
    }
    fn stat(&mut self, s: StaticDef) -> usize {
        if let Some(k) = self.statics.get(&s) {
            return *k;
        }
        let k = self.static_list.len();
        self.statics.insert(s, k);
        self.static_list.push(s);
        k
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"u\",{}]", self.op(o)),
            Rvalue::CopyForDeref(p) => format!("[\"u\",[\"C\",{}]]", self.place(p)),
            Rvalue::Ref(_, bk, p) => {
                format!("[\"&\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. }) as u8)
            }
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"rb\",{},{}]", self.place(p), (*m == Mutability::Mut) as u8)
            }
            Rvalue::AddressOf(_, p) => format!("[\"&\",{},1]", self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                let t = x.ty(&self.cur_locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"b\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                let t = x.ty(&self.cur_locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"cb\",\"{:?}\",{},{},{}]", b, self.op(x), self.op(y), t)
            }
            Rvalue::UnaryOp(u, x) => {
                let t = x.ty(&self.cur_locals).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                format!("[\"un\",\"{:?}\",{},{}]", u, self.op(x), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.cur_locals).unwrap();
                format!("[\"disc\",{},{}]", self.place(p), self.ty(t))
            }
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"rep\",{},{}]", self.op(o), n.eval_target_usize().unwrap_or(0))
            }
            Rvalue::Cast(k, o, t) => {
                let st = o.ty(&self.cur_locals).unwrap();
                if let CastKind::PointerCoercion(PointerCoercion::Unsize) = k {
                    let vt = self.unsize(st, *t);
                    return format!("[\"unsize\",{},{},{},{}]", self.op(o), self.ty(st), self.ty(*t), vt);
                }
                if let CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) = k {
                    if let TyKind::RigidTy(RigidTy::Closure(d, a)) = st.kind() {
                        if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            let ix = self.inst(i);
                            return format!("[\"cfp\",{},{}]", self.op(o), ix);
                        }
                    }
                }
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c).split('(').next().unwrap().to_string(),
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",\"{}\",{},{},{}]", ks, self.op(o), self.ty(st), self.ty(*t))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.op(o)).collect();
                let os = os.join(",");
                match k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"arr\",0,0,[{}]]", os),
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",0,0,[{}]]", os),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = d.ty_with_args(a);
                        format!(
                            "[\"agg\",\"adt\",{},{},[{}],{}]",
                            self.ty(t),
                            vi(*v),
                            os,
                            f.map(|f| f as i64).unwrap_or(-1)
                        )
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",\"clo\",{},0,[{}]]", self.ty(t), os)
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",\"rawptr\",{},0,[{}]]", self.ty(*t), os),
                    _ => "[\"?\"]".into(),
                }
            }
            Rvalue::ThreadLocalRef(_) => "[\"?\"]".into(),
        }
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::Adt(_, a)) => a.0.iter().find_map(|g| match g {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            }),
            _ => None,
        }
    }
    fn unsize(&mut self, s: Ty, d: Ty) -> String {
        let (mut a, mut b) = (self.pointee(s), self.pointee(d));
        for _ in 0..6 {
            let (Some(x), Some(y)) = (a, b) else { return "-1".into() };
            if let TyKind::RigidTy(RigidTy::Dynamic(..)) = y.kind() {
                if let TyKind::RigidTy(RigidTy::Dynamic(..)) = x.kind() {
                    return "-2".into(); // upcast
                }
                return self.vtable(x, y);
            }
            if let TyKind::RigidTy(RigidTy::Slice(_)) = y.kind() {
                return "-1".into();
            }
            a = self.pointee(x);
            b = self.pointee(y);
        }
        "-1".into()
    }
    fn vtable(&mut self, x: Ty, y: Ty) -> String {
        let xi = self.ty(x);
        let yi = self.ty(y);
        if self.vtables.insert((x, y), ()).is_none() {
            let mut es = vec![];
            if let Some(p) = y.kind().trait_principal() {
                let it = self.ity(x);
                let ip = rustc_internal::internal(self.tcx, p);
                let ip = self.tcx.instantiate_bound_regions_with_erased(ip);
                let ip: rustc_middle::ty::ExistentialTraitRef<'tcx> = ip;
                let tr = ip.with_self_ty(self.tcx, it);
                let tr = self.tcx.erase_and_anonymize_regions(tr);
                let ents = self.tcx.vtable_entries(tr);
                for e in ents {
                    es.push(match e {
                        rustc_middle::ty::VtblEntry::Method(i) => {
                            let si: Instance = rustc_internal::stable(*i);
                            self.inst(si).to_string()
                        }
                        _ => "-1".into(),
                    });
                }
            }
            self.vt_out.push(format!("[{},{},[{}]]", xi, yi, es.join(",")));
        }
        xi.to_string()
    }
}
fn vi(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}
fn rustc_abi_rustcall() -> rustc_abi::ExternAbi {
    rustc_abi::ExternAbi::RustCall
}
extern crate rustc_abi;

fn analyze(tcx: TyCtxt<'_>, out: String, descend_all: bool) -> ControlFlow<(), ()> {
    let mut x = X {
        tcx,
        tys: HashMap::new(),
        ty_out: vec![],
        ty_queue: vec![],
        insts: HashMap::new(),
        inst_list: vec![],
        inst_out: vec![],
        vtables: HashMap::new(),
        vt_out: vec![],
        statics: HashMap::new(),
        static_list: vec![],
        cur_locals: vec![],
        descend_all,
        models: HashMap::new(),
    };
    let mut roots = vec![];
    for d in tcx.hir_crate_items(()).definitions() {
        let p = x.path_plain(d.to_def_id());
        if let Some(q) = p.rsplit_once("::vmodel::") {
            if matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn) {
                x.models.insert(q.1.to_string(), d.to_def_id());
            }
        }
    }
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) || it.requires_monomorphization() {
            continue;
        }
        let name = it.name().to_string();
        let last = name.rsplit("::").next().unwrap().to_string();
        if !last.starts_with("s_") {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = x.inst(i);
            roots.push((name, k));
        }
    }
    let mut done = 0;
    let mut sdone = 0;
    let mut stat_out = vec![];
    loop {
        let mut progress = false;
        while done < x.inst_list.len() {
            x.emit_inst(done);
            done += 1;
            progress = true;
        }
        while let Some(t) = x.ty_queue.pop() {
            let s = x.emit_ty(t);
            let i = x.tys[&t];
            x.ty_out[i] = s;
            progress = true;
        }
        while sdone < x.static_list.len() {
            let s = x.static_list[sdone];
            sdone += 1;
            progress = true;
            let item: Result<rustc_public::CrateItem, _> = rustc_public::CrateItem::try_from(Instance::from(s));
            let ity = s.ty();
            let ti = x.ty(ity);
            let b = item.ok().filter(|i| i.has_body()).and_then(|i| i.body());
            let bs = b.map(|b| x.body(&b)).unwrap_or("null".into());
            stat_out.push(format!("{{\"n\":{},\"ty\":{},\"body\":{}}}", js(&s.name().to_string()), ti, bs));
        }
        if !progress {
            break;
        }
    }
    let mut f = String::new();
    f.push_str("{\"types\":[\n");
    f.push_str(&x.ty_out.join(",\n"));
    f.push_str("],\n\"insts\":[\n");
    let v: Vec<String> = x.inst_out.into_iter().map(|o| o.unwrap()).collect();
    f.push_str(&v.join(",\n"));
    f.push_str("],\n\"vt\":[");
    f.push_str(&x.vt_out.join(",\n"));
    f.push_str("],\n\"statics\":[");
    f.push_str(&stat_out.join(",\n"));
    f.push_str("],\n\"roots\":{");
    let rs: Vec<String> = roots.iter().map(|(n, k)| format!("{}:{}", js(n), k)).collect();
    f.push_str(&rs.join(","));
    f.push_str("}}\n");
    std::fs::write(&out, f).unwrap();
    ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("XT_OUT").expect("XT_OUT");
    let all = std::env::var("XT_ALL").is_ok();
    args[0] = "rustc".into();
    let r = rustc_public::run_with_tcx!(&args, |tcx| analyze(tcx, out, all));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
        Err(_) => std::process::exit(1),
    }
}

// rustc_private driver: type-checks a crate and dumps, as JSON lines, what the
// compiler knows about every item defined in it (visibility, resolved
// signature, bounds, attributes, unsafe operations).  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::{self, TyCtxt, TypeVisitableExt};
use rustc_middle::ty::print::PrintTraitRefExt;
use rustc_ast::attr::AttributeExt;
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

macro_rules! plain {
    ($e:expr) => {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!($e)))
    };
}

struct Uns<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<String>,
}

impl<'tcx> Uns<'tcx> {
    /// Written by a macro of the standard library (`vec!`, `format!`, ...), whose unsafe code is not the crate's
    fn of_std(&self, s: rustc_span::Span) -> bool {
        let mut s = s;
        while !s.ctxt().is_root() {
            let data = s.ctxt().outer_expn_data();
            match data.macro_def_id {
                Some(d) if matches!(self.tcx.crate_name(d.krate).as_str(), "core" | "alloc" | "std") => return true,
                Some(_) => return false,
                // a desugaring: ask where it was written
                None => s = data.call_site,
            }
        }
        false
    }
}

impl<'tcx> Visitor<'tcx> for Uns<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(_)) && !self.of_std(b.span) {
            self.out.push(format!("unsafe block {}", self.tcx.sess.source_map().span_to_diagnostic_string(b.span)));
        }
        intravisit::walk_block(self, b);
    }
    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        let owner = e.hir_id.owner.def_id;
        if let rustc_hir::ExprKind::Unary(rustc_hir::UnOp::Deref, inner) = e.kind {
            let tr = self.tcx.typeck(self.tcx.hir_enclosing_body_owner(e.hir_id));
            let _ = owner;
            if let Some(t) = tr.expr_ty_adjusted_opt(inner) {
                if t.is_raw_ptr() && !self.of_std(e.span) {
                    self.out.push(format!("raw dereference {}", self.tcx.sess.source_map().span_to_diagnostic_string(e.span)));
                }
            }
        }
        let callee = match e.kind {
            rustc_hir::ExprKind::Call(f, _) => {
                let tr = self.tcx.typeck(self.tcx.hir_enclosing_body_owner(e.hir_id));
                tr.expr_ty_adjusted_opt(f).and_then(|t| match t.kind() { ty::FnDef(d, _) => Some(*d), _ => None })
            }
            rustc_hir::ExprKind::MethodCall(..) => self.tcx.typeck(self.tcx.hir_enclosing_body_owner(e.hir_id)).type_dependent_def_id(e.hir_id),
            _ => None,
        };
        if let Some(d) = callee {
            if self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() && !self.of_std(e.span) {
                self.out.push(format!("unsafe call of {} {}", path(self.tcx, d), self.tcx.sess.source_map().span_to_diagnostic_string(e.span)));
            }
        }
        if let rustc_hir::ExprKind::InlineAsm(_) = e.kind {
            self.out.push("inline assembly".to_string());
        }
        intravisit::walk_expr(self, e);
    }
}


fn vis(tcx: TyCtxt<'_>, d: DefId) -> String {
    match tcx.visibility(d) {
        ty::Visibility::Public => "pub".into(),
        ty::Visibility::Restricted(m) => format!("in {}", path(tcx, m.to_def_id())),
    }
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // definition path, independent of re-exports
    let mut s = String::new();
    let dp = tcx.def_path(d);
    s.push_str(tcx.crate_name(d.krate).as_str());
    for e in dp.data {
        let t = e.data.get_opt_name().map(|n| n.to_string());
        match t {
            Some(n) => { s.push_str("::"); s.push_str(&n); }
            None => { let _ = write!(s, "::{{{:?}#{}}}", e.data, e.disambiguator); }
        }
    }
    s
}

fn sig_of<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> (Vec<String>, String) {
    let s = tcx.fn_sig(d).instantiate_identity();
    let s = s.skip_norm_wip();
    let s = tcx.anonymize_bound_vars(s).skip_binder();
    let ins = s.inputs().iter().map(|t| plain!(t.to_string())).collect();
    (ins, plain!(s.output().to_string()))
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, path_out: String) -> std::ops::ControlFlow<()> {
        let mut f = String::new();
        let ev = tcx.effective_visibilities(());
        for d in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(d);
            let id: DefId = d.to_def_id();
            let fnlike = matches!(k, DefKind::Fn | DefKind::AssocFn);
            let keep = fnlike || matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Union | DefKind::Trait | DefKind::Mod | DefKind::TyAlias
                | DefKind::Const{..} | DefKind::Static{..} | DefKind::Impl{..} | DefKind::AssocTy | DefKind::AssocConst{..} | DefKind::Use | DefKind::ForeignMod | DefKind::ForeignTy | DefKind::Field | DefKind::TraitAlias);
            if !keep { continue; }
            let sp = tcx.def_span(id);
            let mut o = String::new();
            let _ = write!(o, "{{\"path\":{},\"kind\":{},\"exp\":{},\"loc\":{}", js(&path(tcx, id)), js(&format!("{:?}", k)), sp.from_expansion() as u8,
                js(&tcx.sess.source_map().span_to_diagnostic_string(sp)));
            if let Some(n) = tcx.opt_item_name(id) { let _ = write!(o, ",\"name\":{}", js(n.as_str())); }
            let _ = write!(o, ",\"vis\":{}", js(&vis(tcx, id)));
            let _ = write!(o, ",\"reach\":{}", ev.is_reachable(d) as u8);
            if let Some(p) = tcx.opt_parent(id) {
                let _ = write!(o, ",\"parent\":{}", js(&path(tcx, p)));
                if let DefKind::Impl{of_trait} = tcx.def_kind(p) {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"impl\":{}", js(&plain!(st.to_string())));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let _ = write!(o, ",\"of\":{}", js(&plain!(tr.print_only_trait_path().to_string())));
                    }
                } else if let DefKind::Trait = tcx.def_kind(p) { let _ = write!(o, ",\"trait\":{}", js(&path(tcx, p))); }
                else if let DefKind::ForeignMod = tcx.def_kind(p) { o.push_str(",\"foreign\":1"); }
            }
            let attrs: Vec<String> = tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)).iter().map(|a| {
                let mut s = format!("{:?}", a);
                if s.len() > 400 { s = s.chars().take(400).collect(); }
                s
            }).collect();
            let _ = write!(o, ",\"attrs\":{}", list(&attrs));
            let docs: Vec<String> = tcx.hir_attrs(tcx.local_def_id_to_hir_id(d)).iter().filter_map(|a| a.doc_str().map(|s| s.to_string())).collect();
            let _ = write!(o, ",\"doc\":{}", js(&docs.join("\n")));
            if fnlike || matches!(k, DefKind::Struct | DefKind::Enum | DefKind::Trait | DefKind::TyAlias | DefKind::Impl{..}) {
                let g = tcx.generics_of(id);
                let mut gs = vec![];
                for p in &g.own_params { gs.push(format!("{} {}", match p.kind { ty::GenericParamDefKind::Lifetime => "lt", ty::GenericParamDefKind::Type{..} => "ty", ty::GenericParamDefKind::Const{..} => "const" }, p.name)); }
                let _ = write!(o, ",\"generics\":{}", list(&gs));
                let ps: Vec<String> = tcx.clauses_of(id).instantiate_identity(tcx).clauses.iter().map(|c| plain!(format!("{}", c.clone().skip_norm_wip()))).collect();
                let _ = write!(o, ",\"preds\":{}", list(&ps));
            }
            if fnlike {
                let (i, r) = sig_of(tcx, id);
                let s = tcx.fn_sig(id).skip_binder();
                let _ = write!(o, ",\"in\":{},\"out\":{},\"unsafe\":{},\"abi\":{},\"async\":{},\"const\":{},\"variadic\":{},\"self\":{}", list(&i), js(&r),
                    s.safety().is_unsafe() as u8, js(&format!("{:?}", s.abi())), tcx.asyncness(id).is_async() as u8, tcx.is_const_fn(id) as u8, s.c_variadic() as u8,
                    (matches!(k, DefKind::AssocFn) && tcx.associated_item(id).is_method()) as u8);
                let names: Vec<String> = tcx.fn_arg_idents(id).iter().map(|i| i.map(|i| i.to_string()).unwrap_or("_".into())).collect();
                let _ = write!(o, ",\"names\":{}", list(&names));
                let _ = write!(o, ",\"nlt\":{}", tcx.fn_sig(id).skip_binder().bound_vars().len());
                // for a trait method implementation: the trait's own signature,
                // instantiated for this implementation
                if let Some(p) = tcx.opt_parent(id) { if let DefKind::Impl{of_trait: true} = tcx.def_kind(p) {
                    if let Some(tid) = tcx.trait_item_of(id) {
                        let tr = tcx.impl_trait_ref(p).instantiate_identity().skip_norm_wip();
                        let args = ty::GenericArgs::identity_for_item(tcx, id).rebase_onto(tcx, p, tr.args);
                        if tcx.generics_of(tid).count() == args.len() {
                            let s = tcx.fn_sig(tid).instantiate(tcx, args).skip_norm_wip();
                            let s = tcx.anonymize_bound_vars(s).skip_binder();
                            let ins: Vec<String> = s.inputs().iter().map(|t| plain!(t.to_string())).collect();
                            let _ = write!(o, ",\"tin\":{},\"tout\":{},\"tunsafe\":{},\"tabi\":{}", list(&ins), js(&plain!(s.output().to_string())), s.safety().is_unsafe() as u8, js(&format!("{:?}", s.abi())));
                        }
                        let _ = write!(o, ",\"titem\":{}", js(&path(tcx, tid)));
                    }
                }}
            }
            if matches!(k, DefKind::TyAlias | DefKind::Const{..} | DefKind::Static{..} | DefKind::AssocConst{..} | DefKind::Field) {
                let _ = write!(o, ",\"type\":{}", js(&plain!(tcx.type_of(id).instantiate_identity().skip_norm_wip().to_string())));
            }
            if let DefKind::AssocTy = k {
                if let Some(p) = tcx.opt_parent(id) { if let DefKind::Impl{..} = tcx.def_kind(p) {
                    let _ = write!(o, ",\"type\":{}", js(&plain!(tcx.type_of(id).instantiate_identity().skip_norm_wip().to_string())));
                }}
            }
            if let DefKind::Static{mutability, ..} = k { let _ = write!(o, ",\"mut\":{}", mutability.is_mut() as u8); }
            if let DefKind::Impl{of_trait} = k {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let _ = write!(o, ",\"impl\":{}", js(&plain!(st.to_string())));
                if of_trait {
                    let h = tcx.impl_trait_header(id);
                    let tr = h.trait_ref.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"of\":{},\"unsafe\":{}", js(&plain!(tr.print_only_trait_path().to_string())), h.safety.is_unsafe() as u8);
                }
            }
            if fnlike || matches!(k, DefKind::Const{..} | DefKind::Static{..} | DefKind::AssocConst{..}) {
                if let Some(b) = tcx.hir_maybe_body_owned_by(d) {
                    let mut u = Uns { tcx, out: vec![] };
                    u.visit_expr(b.value);
                    let _ = write!(o, ",\"uns\":{}", list(&u.out));
                }
            }
            o.push_str("}\n");
            f.push_str(&o);
        }
        std::fs::write(&path_out, f).unwrap();
        std::ops::ControlFlow::Break(())
}

fn _unused(_: LocalDefId) {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".into();
    let out = std::env::var("XT_OUT").expect("XT_OUT");
    let r = rustc_public::run_with_tcx!(&args, |tcx| dump(tcx, out));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
        Err(_) => std::process::exit(1),
    }
}

// rustc_private driver: dumps, for every function body of a crate, a plain form
// of its MIR (assignments, calls with resolved callees and type arguments,
// statics and casts) as JSON lines.  Nothing is executed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
extern crate rustc_public;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::{self, visit::Visitor, Operand, Place, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    write!(o, "\\u{:04x}", u).unwrap();
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

macro_rules! plain {
    ($e:expr) => {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(ty::print::with_crate_prefix!($e)))
    };
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let mut s = String::new();
    let dp = tcx.def_path(d);
    s.push_str(tcx.crate_name(d.krate).as_str());
    for e in dp.data {
        match e.data.get_opt_name().map(|n| n.to_string()) {
            Some(n) => { s.push_str("::"); s.push_str(&n); }
            None => { let _ = write!(s, "::{{{:?}#{}}}", e.data, e.disambiguator); }
        }
    }
    s
}

// what the operands of one statement or terminator mention
#[derive(Default)]
struct Uses { locals: Vec<usize>, fns: Vec<String>, statics: Vec<String>, tls: bool }

struct V<'tcx, 'a> { tcx: TyCtxt<'tcx>, u: &'a mut Uses }
impl<'tcx, 'a> Visitor<'tcx> for V<'tcx, 'a> {
    fn visit_local(&mut self, l: mir::Local, _: mir::visit::PlaceContext, _: mir::Location) { self.u.locals.push(l.as_usize()); }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _: mir::Location) {
        if let Some(d) = c.check_static_ptr(self.tcx) { self.u.statics.push(path(self.tcx, d)); }
        if let ty::FnDef(d, _) = c.const_.ty().kind() { self.u.fns.push(path(self.tcx, *d)); }
    }
    fn visit_rvalue(&mut self, r: &Rvalue<'tcx>, l: mir::Location) {
        if let Rvalue::ThreadLocalRef(d) = r { self.u.statics.push(path(self.tcx, *d)); self.u.tls = true; }
        self.super_rvalue(r, l);
    }
}

fn list<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(",")) }

fn uses(u: &Uses) -> String { format!("{},{},{}", list(&u.locals, |x| x.to_string()), list(&u.fns, |x| js(x)), list(&u.statics, |x| js(x))) }

fn dest(p: &Place<'_>) -> String {
    // local, and whether the place is reached through a pointer
    let through = p.projection.iter().any(|e| matches!(e, mir::ProjectionElem::Deref));
    format!("{},{}", p.local.as_usize(), through as u8)
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: String) -> std::ops::ControlFlow<()> {
    let mut f = String::new();
    for &d in tcx.mir_keys(()) {
        let id = d.to_def_id();
        let k = tcx.def_kind(id);
        if !matches!(k, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
        let b = tcx.optimized_mir(id);
        let sm = tcx.sess.source_map();
        let mut o = String::new();
        let _ = write!(o, "{{\"path\":{},\"loc\":{},\"args\":{},\"export\":{},\"locals\":{},\"blocks\":[", js(&path(tcx, id)), js(&sm.span_to_diagnostic_string(tcx.def_span(id))), b.arg_count,
            (k == DefKind::Fn && tcx.visibility(id).is_public()) as u8,
            list(&b.local_decls.iter().map(|l| plain!(l.ty.to_string())).collect::<Vec<_>>(), |x| js(x)));
        if let Some(p) = tcx.opt_parent(id) { if let DefKind::Impl{of_trait: true} = tcx.def_kind(p) {
            let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let q = format!("\"impl\":{},\"blocks\":[", js(&plain!(st.to_string())));
            o = o.replace("\"blocks\":[", &q);
        }}
        for (i, bb) in b.basic_blocks.iter().enumerate() {
            if i > 0 { o.push(','); }
            let _ = write!(o, "{{\"c\":{},\"s\":[", bb.is_cleanup as u8);
            let mut first = true;
            for s in &bb.statements {
                if let StatementKind::Assign(x) = &s.kind {
                    let (p, r) = &**x;
                    let mut u = Uses::default();
                    V { tcx, u: &mut u }.visit_rvalue(r, mir::Location::START);
                    for (q, e) in p.iter_projections() { let _ = q; if let mir::ProjectionElem::Index(l) = e { u.locals.push(l.as_usize()); } }
                    let kind = match r {
                        Rvalue::Cast(k, ..) => format!("cast {:?}", k),
                        Rvalue::Ref(_, mir::BorrowKind::Mut{..}, _) => "refmut".into(),
                        Rvalue::RawPtr(k, _) => format!("raw {:?}", k),
                        Rvalue::Aggregate(a, _) => match &**a { mir::AggregateKind::Closure(c, _) => format!("closure {}", path(tcx, *c)), _ => "agg".into() },
                        _ => "".into(),
                    };
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "[{},{},{},{}]", dest(p), js(&kind), uses(&u), js(&sm.span_to_diagnostic_string(s.source_info.span)));
                }
            }
            o.push_str("],\"t\":");
            let t = bb.terminator();
            let succ: Vec<usize> = t.successors().filter(|x| !b.basic_blocks[*x].is_cleanup).map(|x| x.as_usize()).collect();
            match &t.kind {
                TerminatorKind::Call { func, args, destination, .. } => {
                    let mut u = Uses::default();
                    for a in args { V { tcx, u: &mut u }.visit_operand(&a.node, mir::Location::START); }
                    let (mut name, mut gens, mut iter, mut res) = (String::new(), vec![], vec![], String::new());
                    if let Operand::Constant(c) = func {
                        if let ty::FnDef(cd, ga) = c.const_.ty().kind() {
                            name = path(tcx, *cd);
                            let mut nm = name.clone();
                            if let Some(p) = tcx.opt_parent(*cd) { if let DefKind::Impl{..} = tcx.def_kind(p) {
                                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                                nm = format!("<{}>::{}", plain!(st.to_string()), tcx.item_name(*cd));
                            }}
                            name = nm;
                            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, ty::TypingEnv::post_analysis(tcx, id), *cd, tcx.erase_and_anonymize_regions(ga.skip_binder())) { res = path(tcx, inst.def_id()); }
                            gens = ga.skip_binder().iter().map(|g| plain!(g.to_string())).collect();
                            // type arguments that the callee may iterate
                            let preds = tcx.clauses_of(*cd).instantiate(tcx, ga.skip_binder()).clauses;
                            for p in preds.iter().cloned() {
                                let p = p.skip_norm_wip();
                                if let Some(tp) = p.as_trait_clause() {
                                    let tn = path(tcx, tp.def_id());
                                    if tn.ends_with("::IntoIterator") || tn.ends_with("::Iterator") || tn.ends_with("fmt::Debug") {
                                        iter.push(format!("{} {}", tn.rsplit("::").next().unwrap(), plain!(tp.self_ty().skip_binder().to_string())));
                                    }
                                }
                            }
                        }
                    } else if let Some(p) = func.place() { u.locals.push(p.local.as_usize()); name = "?".into(); }
                    let aty: Vec<String> = args.iter().map(|a| plain!(a.node.ty(b, tcx).to_string())).collect();
                    let _ = write!(o, "{{\"k\":\"call\",\"fn\":{},\"res\":{},\"g\":{},\"it\":{},\"at\":{},\"d\":[{}],\"u\":[{}],\"al\":{},\"to\":{:?},\"loc\":{}}}", js(&name), js(&res), list(&gens, |x| js(x)), list(&iter, |x| js(x)), list(&aty, |x| js(x)),
                        dest(destination), uses(&u), list(&args.iter().map(|a| a.node.place().map(|p| p.local.as_usize() as i64).unwrap_or(-1)).collect::<Vec<_>>(), |x| x.to_string()), succ, js(&sm.span_to_diagnostic_string(t.source_info.span)));
                }
                TerminatorKind::SwitchInt { discr, .. } => {
                    let mut u = Uses::default();
                    V { tcx, u: &mut u }.visit_operand(discr, mir::Location::START);
                    let _ = write!(o, "{{\"k\":\"switch\",\"u\":[{}],\"to\":{:?},\"loc\":{}}}", uses(&u), succ, js(&sm.span_to_diagnostic_string(t.source_info.span)));
                }
                TerminatorKind::Drop { place, .. } => {
                    let _ = write!(o, "{{\"k\":\"drop\",\"d\":[{}],\"to\":{:?}}}", dest(place), succ);
                }
                x => { let _ = write!(o, "{{\"k\":{},\"to\":{:?}}}", js(match x { TerminatorKind::Return => "return", TerminatorKind::Assert{..} => "assert", TerminatorKind::InlineAsm{..} => "asm", _ => "" }), succ); }
            }
            o.push('}');
        }
        o.push_str("]}\n");
        f.push_str(&o);
    }
    for d in tcx.hir_crate_items(()).definitions() {
        let id: DefId = d.to_def_id();
        if let DefKind::Static{mutability, ..} = tcx.def_kind(id) {
            let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
            let frozen = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
            let _ = write!(f, "{{\"static\":{},\"mut\":{},\"freeze\":{},\"type\":{},\"loc\":{}}}\n", js(&path(tcx, id)), mutability.is_mut() as u8, frozen as u8, js(&plain!(t.to_string())),
                js(&tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(id))));
        }
    }
    std::fs::write(&out, f).unwrap();
    std::ops::ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args[0] = "rustc".into();
    let out = std::env::var("XT_OUT").expect("XT_OUT");
    let r = rustc_public::run_with_tcx!(&args, |tcx| dump(tcx, out));
    match r {
        Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
        Err(_) => std::process::exit(1),
    }
}

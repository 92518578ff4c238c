// THIR exporter.  Injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`; for the crate named by
// VBH_CRATE it writes the type-checked bodies (THIR), the ADTs and the impl table as JSON to VBH_OUT and lets
// compilation continue.  It runs nothing of the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::BorrowKind;
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct J(String, bool);
impl J {
    fn obj() -> J {
        J("{".into(), true)
    }
    fn raw(mut self, k: &str, v: &str) -> J {
        if !self.1 {
            self.0.push(',');
        }
        self.1 = false;
        self.0.push_str(&esc(k));
        self.0.push(':');
        self.0.push_str(v);
        self
    }
    fn s(self, k: &str, v: &str) -> J {
        let e = esc(v);
        self.raw(k, &e)
    }
    fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
}
struct Body<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    thir: &'a Thir<'tcx>,
    env: TypingEnv<'tcx>,
}

fn ty_s(t: Ty<'_>) -> String {
    with_no_trimmed_paths!(format!("{}", t))
}
fn path_s(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}
fn span_s(tcx: TyCtxt<'_>, sp: Span) -> String {
    let sp = sp.source_callsite();
    let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
    let name = format!("{}", loc.file.name.prefer_local_unconditionally());
    format!("{}:{}", name, loc.line)
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn pat(&self, p: &Pat<'tcx>) -> String {
        let j = J::obj();
        let tcx = self.tcx;
        let j = j.s("ty", &ty_s(p.ty));
        match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => j.s("k", "Wild"),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let byref = !matches!(mode.0, rustc_ast::ByRef::No);
                let j = j
                    .s("k", "Binding")
                    .s("name", name.as_str())
                    .raw("byref", if byref { "true" } else { "false" })
                    .raw("var", &format!("{}", var.0.local_id.as_u32()));
                match subpattern {
                    Some(s) => j.raw("sub", &self.pat(s)),
                    None => j,
                }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                j.s("k", "Variant")
                    .s("adt", &path_s(tcx, adt_def.did()))
                    .s("variant", v.name.as_str())
                    .raw(
                        "subs",
                        &arr(subpatterns.iter().map(|f| {
                            format!("[{},{}]", esc(v.fields[f.field].name.as_str()), self.pat(&f.pattern))
                        })),
                    )
            }
            PatKind::Leaf { subpatterns } => {
                let names: Option<Vec<String>> = match p.ty.kind() {
                    ty::Adt(a, _) if a.is_struct() => {
                        Some(a.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect())
                    }
                    _ => None,
                };
                j.s("k", "Leaf").raw(
                    "subs",
                    &arr(subpatterns.iter().map(|f| {
                        let n = match &names {
                            Some(n) => n[f.field.as_usize()].clone(),
                            None => format!("{}", f.field.as_usize()),
                        };
                        format!("[{},{}]", esc(&n), self.pat(&f.pattern))
                    })),
                )
            }
            PatKind::Deref { subpattern, .. } => j.s("k", "Deref").raw("sub", &self.pat(subpattern)),
            PatKind::DerefPattern { subpattern, .. } => j.s("k", "Deref").raw("sub", &self.pat(subpattern)),
            PatKind::Constant { value } => j.s("k", "Const").s("value", &with_no_trimmed_paths!(format!("{}", value))),
            PatKind::Range(r) => j.s("k", "Range").s("value", &format!("{}", r)),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let j = j
                    .s("k", "Slice")
                    .raw("prefix", &arr(prefix.iter().map(|q| self.pat(q))))
                    .raw("suffix", &arr(suffix.iter().map(|q| self.pat(q))));
                match slice {
                    Some(s) => j.raw("slice", &self.pat(s)),
                    None => j,
                }
            }
            PatKind::Or { pats } => j.s("k", "Or").raw("pats", &arr(pats.iter().map(|q| self.pat(q)))),
            _ => j.s("k", "Unsupported"),
        }
        .end()
    }

    fn callee(&self, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        match t.kind() {
            ty::FnDef(did, args) => {
                let did: DefId = (*did).into();
                let args = args.skip_binder();
                let mut j = J::obj().s("path", &path_s(tcx, did));
                j = j.raw("args", &arr(args.iter().map(|g| esc(&with_no_trimmed_paths!(format!("{}", g))))));
                j = j.s("kind", &format!("{:?}", tcx.def_kind(did)));
                j = j.s("crate", tcx.crate_name(did.krate).as_str());
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    j = j.s("trait", &path_s(tcx, tr)).s("name", tcx.item_name(did).as_str());
                    if let Some(s) = args.types().next() {
                        j = j.s("self_ty", &ty_s(s));
                    }
                    if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, did, args) {
                        let rd = inst.def_id();
                        if rd != did {
                            j = j.s("resolved", &path_s(tcx, rd)).s("resolved_crate", tcx.crate_name(rd.krate).as_str());
                        } else if !matches!(inst.def, ty::InstanceKind::Item(_)) {
                            j = j.s("shim", "1");
                        } else {
                            j = j.s("default_body", "1");
                        }
                    }
                } else if let Some(im) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                    j = j.s("impl_self", &ty_s(st)).s("name", tcx.item_name(did).as_str());
                }
                j.end()
            }
            _ => "null".into(),
        }
    }

    fn block(&self, b: BlockId) -> String {
        let b = &self.thir.blocks[b];
        let stmts = arr(b.stmts.iter().map(|s| match &self.thir.stmts[*s].kind {
            StmtKind::Expr { expr, .. } => J::obj().s("k", "Expr").raw("e", &self.expr(*expr)).end(),
            StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                let mut j = J::obj().s("k", "Let").raw("pat", &self.pat(pattern)).s("span", &span_s(self.tcx, *span));
                if let Some(i) = initializer {
                    j = j.raw("init", &self.expr(*i));
                }
                if let Some(e) = else_block {
                    j = j.raw("els", &self.block(*e));
                }
                j.end()
            }
        }));
        let mut j = J::obj().raw("stmts", &stmts);
        if let Some(e) = b.expr {
            j = j.raw("expr", &self.expr(e));
        }
        if b.targeted_by_break {
            j = j.s("label", &format!("{:?}", b.region_scope.local_id));
        }
        j.end()
    }

    fn expr(&self, id: ExprId) -> String {
        let e = &self.thir.exprs[id];
        let tcx = self.tcx;
        let x = |i: ExprId| self.expr(i);
        match &e.kind {
            // transparent wrappers
            ExprKind::Scope { value, .. } => {
                // keep loop labels: a Loop directly below is labelled by this scope
                if let ExprKind::Scope { region_scope, .. } = &e.kind {
                    if let ExprKind::Loop { .. } = self.thir.exprs[*value].kind {
                        let inner = self.expr(*value);
                        return J::obj()
                            .s("k", "Label")
                            .s("label", &format!("{:?}", region_scope.local_id))
                            .raw("e", &inner)
                            .end();
                    }
                }
                return self.expr(*value);
            }
            ExprKind::NeverToAny { source } => {
                return J::obj().s("k", "Never").raw("e", &x(*source)).end();
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                return self.expr(*source);
            }
            ExprKind::Reborrow { source, .. } => {
                return self.expr(*source);
            }
            _ => {}
        }
        let mut j = J::obj().s("ty", &ty_s(e.ty)).s("sp", &span_s(tcx, e.span));
        if e.span.from_expansion() {
            let ed = e.span.ctxt().outer_expn_data();
            j = j.s("exp", &format!("{:?}", ed.kind));
        }
        j = match &e.kind {
            ExprKind::If { cond, then, else_opt, .. } => {
                let j = j.s("k", "If").raw("cond", &x(*cond)).raw("then", &x(*then));
                match else_opt {
                    Some(el) => j.raw("els", &x(*el)),
                    None => j,
                }
            }
            ExprKind::Call { ty, fun, args, .. } => {
                let c = self.callee(*ty);
                let j = j.s("k", "Call").raw("callee", &c).raw("args", &arr(args.iter().map(|a| x(*a))));
                if c == "null" {
                    j.raw("fun", &x(*fun))
                } else {
                    j
                }
            }
            ExprKind::ByUse { expr, .. } => j.s("k", "Use").raw("e", &x(*expr)),
            ExprKind::ValueExpr { source } => j.s("k", "Use").raw("e", &x(*source)),
            ExprKind::Deref { arg } => j.s("k", "Deref").raw("e", &x(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                j.s("k", "Binary").s("op", &format!("{:?}", op)).raw("l", &x(*lhs)).raw("r", &x(*rhs))
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                j.s("k", "Logical").s("op", &format!("{:?}", op)).raw("l", &x(*lhs)).raw("r", &x(*rhs))
            }
            ExprKind::Unary { op, arg } => j.s("k", "Unary").s("op", &format!("{:?}", op)).raw("e", &x(*arg)),
            ExprKind::Cast { source } => j.s("k", "Cast").raw("e", &x(*source)),
            ExprKind::PointerCoercion { source, .. } => j.s("k", "Coerce").raw("e", &x(*source)),
            ExprKind::Loop { body } => j.s("k", "Loop").raw("body", &x(*body)),
            ExprKind::Let { expr, pat } => j.s("k", "LetE").raw("e", &x(*expr)).raw("pat", &self.pat(pat)),
            ExprKind::Match { scrutinee, arms, match_source } => {
                let a = arr(arms.iter().map(|a| {
                    let a = &self.thir.arms[*a];
                    let mut k = J::obj().raw("pat", &self.pat(&a.pattern)).raw("body", &x(a.body));
                    if let Some(g) = a.guard {
                        k = k.raw("guard", &x(g));
                    }
                    k.end()
                }));
                j.s("k", "Match").s("src", &format!("{:?}", match_source)).raw("e", &x(*scrutinee)).raw("arms", &a)
            }
            ExprKind::Block { block } => j.s("k", "Block").raw("block", &self.block(*block)),
            ExprKind::Assign { lhs, rhs } => j.s("k", "Assign").raw("l", &x(*lhs)).raw("r", &x(*rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => {
                j.s("k", "AssignOp").s("op", &format!("{:?}", op)).raw("l", &x(*lhs)).raw("r", &x(*rhs))
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = self.thir.exprs[*lhs].ty;
                let n = match lt.kind() {
                    ty::Adt(a, _) => a.variant(*variant_index).fields[*name].name.to_string(),
                    _ => format!("{}", name.as_usize()),
                };
                j.s("k", "Field").raw("e", &x(*lhs)).s("name", &n)
            }
            ExprKind::Index { lhs, index } => j.s("k", "Index").raw("l", &x(*lhs)).raw("i", &x(*index)),
            ExprKind::VarRef { id } => j.s("k", "Var").raw("var", &format!("{}", id.0.local_id.as_u32())),
            ExprKind::UpvarRef { var_hir_id, .. } => {
                j.s("k", "Var").raw("var", &format!("{}", var_hir_id.0.local_id.as_u32()))
            }
            ExprKind::Borrow { borrow_kind, arg } => j
                .s("k", "Borrow")
                .raw("mut", if matches!(borrow_kind, BorrowKind::Mut { .. }) { "true" } else { "false" })
                .raw("e", &x(*arg)),
            ExprKind::RawBorrow { arg, .. } => j.s("k", "Borrow").raw("mut", "true").raw("e", &x(*arg)),
            ExprKind::Break { label, value } => {
                let j = j.s("k", "Break").s("label", &format!("{:?}", label.local_id));
                match value {
                    Some(v) => j.raw("e", &x(*v)),
                    None => j,
                }
            }
            ExprKind::Continue { label } => j.s("k", "Continue").s("label", &format!("{:?}", label.local_id)),
            ExprKind::Return { value } => {
                let j = j.s("k", "Return");
                match value {
                    Some(v) => j.raw("e", &x(*v)),
                    None => j,
                }
            }
            ExprKind::Repeat { value, count } => {
                j.s("k", "Repeat").raw("e", &x(*value)).s("count", &with_no_trimmed_paths!(format!("{}", count)))
            }
            ExprKind::Array { fields } => j.s("k", "Array").raw("es", &arr(fields.iter().map(|f| x(*f)))),
            ExprKind::Tuple { fields } => j.s("k", "Tuple").raw("es", &arr(fields.iter().map(|f| x(*f)))),
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                let mut j = j
                    .s("k", "Adt")
                    .s("adt", &path_s(tcx, a.adt_def.did()))
                    .s("variant", v.name.as_str())
                    .raw("is_enum", if a.adt_def.is_enum() { "true" } else { "false" })
                    .raw(
                        "fields",
                        &arr(a
                            .fields
                            .iter()
                            .map(|f| format!("[{},{}]", esc(v.fields[f.name].name.as_str()), x(f.expr)))),
                    );
                if let AdtExprBase::Base(b) = &a.base {
                    j = j.raw("base", &x(b.base));
                }
                j
            }
            ExprKind::Closure(c) => j
                .s("k", "Closure")
                .s("def", &format!("{}", c.closure_id.local_def_index.as_u32()))
                .raw("up", &arr(c.upvars.iter().map(|u| x(*u)))),
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let j = j.s("k", "Lit").raw("neg", if *neg { "true" } else { "false" });
                match &lit.node {
                    Int(n, _) => j.s("lk", "int").s("v", &format!("{}", n.get())),
                    Bool(b) => j.s("lk", "bool").s("v", &format!("{}", b)),
                    Str(s, _) => j.s("lk", "str").s("v", s.as_str()),
                    Char(c) => j.s("lk", "char").s("v", &format!("{}", c)),
                    Byte(b) => j.s("lk", "int").s("v", &format!("{}", b)),
                    Float(f, _) => j.s("lk", "float").s("v", f.as_str()),
                    ByteStr(b, _) => j
                        .s("lk", "bytes")
                        .raw("v", &arr(b.as_byte_str().iter().map(|x| format!("{}", x)))),
                    _ => j.s("lk", "other").s("v", "?"),
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => j.s("k", "Lit").raw("neg", "false").s("lk", "int").s("v", &format!("{:?}", lit)),
            ExprKind::ZstLiteral { .. } => j.s("k", "Fn").raw("callee", &self.callee(e.ty)),
            ExprKind::NamedConst { def_id, args, .. } => {
                let mut j = j
                    .s("k", "Const")
                    .s("path", &path_s(tcx, *def_id))
                    .raw("args", &arr(args.iter().map(|g| esc(&with_no_trimmed_paths!(format!("{}", g))))));
                if let Some(tr) = tcx.trait_of_assoc(*def_id) {
                    j = j.s("trait", &path_s(tcx, tr)).s("name", tcx.item_name(*def_id).as_str());
                }
                j
            }
            ExprKind::ConstParam { param, .. } => j.s("k", "ConstParam").s("name", param.name.as_str()),
            other => j.s("k", "Unsupported").s("what", &format!("{:?}", std::mem::discriminant(other))),
        };
        j.end()
    }
}

impl<'tcx> Dump<'tcx> {
    fn body(&self, ld: LocalDefId) -> Option<String> {
        let tcx = self.tcx;
        let did = ld.to_def_id();
        let dk = tcx.def_kind(did);
        let (steal, root) = match tcx.thir_body(ld) {
            Ok(x) => x,
            Err(_) => return None,
        };
        let thir = steal.borrow();
        let b = Body { tcx, thir: &thir, env: TypingEnv::non_body_analysis(tcx, tcx.typeck_root_def_id(did)) };
        let mut j = J::obj()
            .s("path", &path_s(tcx, did))
            .s("id", &format!("{}", ld.local_def_index.as_u32()))
            .s("kind", &format!("{:?}", dk))
            .s("span", &span_s(tcx, tcx.def_span(did)));
        if let Some(n) = tcx.opt_item_name(did) {
            j = j.s("name", n.as_str());
        }
        if matches!(dk, DefKind::AssocFn | DefKind::AssocConst { .. }) {
            if let Some(tr) = tcx.trait_of_assoc(did) {
                j = j.s("trait", &path_s(tcx, tr));
            }
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                j = j.s("impl_self", &ty_s(st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    j = j
                        .s("impl_trait", &path_s(tcx, tr.def_id))
                        .s("impl_trait_ref", &with_no_trimmed_paths!(format!("{}", tr)));
                }
            }
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            j = j.raw("public", if tcx.effective_visibilities(()).is_reachable(ld) { "true" } else { "false" });
            let g = tcx.generics_of(did);
            let mut names = Vec::new();
            let mut gg = Some(g);
            let mut chain = Vec::new();
            while let Some(g) = gg {
                chain.push(g);
                gg = g.parent.map(|p| tcx.generics_of(p));
            }
            for g in chain.into_iter().rev() {
                for p in &g.own_params {
                    names.push(esc(p.name.as_str()));
                }
            }
            j = j.raw("generics", &arr(names));
        }
        j = j.raw(
            "params",
            &arr(thir.params.iter().map(|p| match &p.pat {
                Some(pt) => format!("{{\"ty\":{},\"pat\":{}}}", esc(&ty_s(p.ty)), b.pat(pt)),
                None => format!("{{\"ty\":{}}}", esc(&ty_s(p.ty))),
            })),
        );
        j = j.s("ret", &ty_s(thir.exprs[root].ty));
        j = j.raw("body", &b.expr(root));
        Some(j.end())
    }
}

struct Cb {
    out: String,
}
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let d = Dump { tcx };
        let mut bodies = Vec::new();
        let mut failed = Vec::new();
        for ld in tcx.hir_body_owners() {
            match d.body(ld) {
                Some(s) => bodies.push(s),
                None => failed.push(esc(&path_s(tcx, ld.to_def_id()))),
            }
        }
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(did);
                    let vs = arr(a.variants().iter().map(|v| {
                        J::obj()
                            .s("name", v.name.as_str())
                            .raw(
                                "fields",
                                &arr(v.fields.iter().map(|f| {
                                    format!(
                                        "[{},{}]",
                                        esc(f.name.as_str()),
                                        esc(&ty_s(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))
                                    )
                                })),
                            )
                            .end()
                    }));
                    adts.push(J::obj().s("path", &path_s(tcx, did)).raw("variants", &vs).end());
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let mut j = J::obj().s("self", &ty_s(st));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        j = j.s("trait", &path_s(tcx, tr.def_id)).s("trait_ref", &with_no_trimmed_paths!(format!("{}", tr)));
                    }
                    j = j.raw(
                        "items",
                        &arr(tcx.associated_item_def_ids(did).iter().map(|i| {
                            format!(
                                "[{},{}]",
                                esc(tcx.opt_item_name(*i).map(|s| s.to_string()).unwrap_or_default().as_str()),
                                esc(&path_s(tcx, *i))
                            )
                        })),
                    );
                    impls.push(j.end());
                }
                _ => {}
            }
        }
        let o = format!(
            "{{\"bodies\":{},\"adts\":{},\"impls\":{},\"failed\":{}}}",
            arr(bodies),
            arr(adts),
            arr(impls),
            arr(failed)
        );
        std::fs::write(&self.out, o).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // wrapper protocol: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let want = std::env::var("VBH_CRATE").unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if name.as_deref() == Some(want.as_str()) && is_lib {
        args.push("-Zno-steal-thir".into());
        let out = std::env::var("VBH_OUT").expect("VBH_OUT");
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        #[derive(Clone)]
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}

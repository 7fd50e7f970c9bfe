//! Dumps the typed, macro-expanded THIR of every body of the compiled crate as JSON.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path, the rest are rustc's arguments.
//! Output file: $THIRDUMP_OUT, written only for the crate named $THIRDUMP_CRATE (lib build).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use std::fmt::Write;

enum J { S(String), R(String), A(Vec<J>), O(Vec<(&'static str, J)>), N }
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn r(x: impl std::fmt::Display) -> J { J::R(x.to_string()) }
fn w(j: &J, o: &mut String) {
    match j {
        J::S(x) => { o.push('"'); for c in x.chars() { match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { write!(o, "\\u{:04x}", c as u32).unwrap(); }
            c => o.push(c) } } o.push('"'); }
        J::R(x) => o.push_str(x),
        J::N => o.push_str("null"),
        J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } w(x, o); } o.push(']'); }
        J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } write!(o, "\"{}\":", k).unwrap(); w(x, o); } o.push('}'); }
    }
}

struct D<'t> { tcx: TyCtxt<'t>, owner: LocalDefId }

impl<'t> D<'t> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'t>) -> J {
        use ty::{Adt, Array, Bool, Char, Closure, Float, FnDef, Int, Never, Param, RawPtr, Ref, Slice, Str, Tuple, Uint};
        match t.kind() {
            Bool => s("bool"), Char => s("char"), Str => s("str"), Never => s("!"),
            Int(_) | Uint(_) | Float(_) => s(t.to_string()),
            Adt(def, args) => J::O(vec![("adt", s(self.path(def.did()))), ("args", J::A(args.types().map(|x| self.ty(x)).collect()))]),
            Ref(_, x, m) => J::O(vec![("ref", self.ty(*x)), ("mut", r(m.is_mut()))]),
            RawPtr(x, m) => J::O(vec![("ptr", self.ty(*x)), ("mut", r(m.is_mut()))]),
            Slice(x) => J::O(vec![("slice", self.ty(*x))]),
            Array(x, n) => J::O(vec![("array", self.ty(*x)), ("len", match n.try_to_target_usize(self.tcx) { Some(v) => r(v), None => J::N })]),
            Tuple(l) => J::O(vec![("tuple", J::A(l.iter().map(|x| self.ty(x)).collect()))]),
            FnDef(d, args) => self.fndef(*d, args.skip_binder()),
            Closure(d, _) => J::O(vec![("closure", s(self.path(*d)))]),
            Param(p) => J::O(vec![("param", s(p.name.as_str()))]),
            _ => J::O(vec![("other", s(t.to_string()))]),
        }
    }
    fn fndef(&self, d: DefId, args: ty::GenericArgsRef<'t>) -> J {
        let env = TypingEnv::post_analysis(self.tcx, self.owner.to_def_id());
        let args_e = self.tcx.erase_and_anonymize_regions(args);
        let res = ty::Instance::try_resolve(self.tcx, env, d, args_e).ok().flatten();
        let (rp, rl) = match res { Some(i) => (s(self.path(i.def_id())), i.def_id().is_local()), None => (J::N, false) };
        J::O(vec![("fn", s(self.path(d))), ("res", rp), ("reslocal", r(rl)),
            ("targs", J::A(args.types().map(|x| self.ty(x)).collect()))])
    }
    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn pat(&self, th: &Thir<'t>, p: &Pat<'t>) -> J {
        let mut v = vec![("ty", self.ty(p.ty))];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => v.push(("k", s("wild"))),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                v.push(("k", s("bind"))); v.push(("name", s(name.as_str()))); v.push(("var", s(format!("{:?}", var.0.local_id.as_u32()))));
                v.push(("byref", r(!matches!(mode.0, rustc_hir::ByRef::No)))); v.push(("mut", r(mode.1.is_mut()))); v.push(("vty", self.ty(*ty)));
                if let Some(sp) = subpattern { v.push(("sub", self.pat(th, sp))); }
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                v.push(("k", s("variant"))); v.push(("adt", s(self.path(adt_def.did())))); v.push(("variant", s(adt_def.variant(*variant_index).name.as_str())));
                v.push(("subs", J::A(subpatterns.iter().map(|f| J::O(vec![("i", r(f.field.as_u32())), ("p", self.pat(th, &f.pattern))])).collect())));
            }
            PatKind::Leaf { subpatterns } => {
                v.push(("k", s("leaf")));
                v.push(("subs", J::A(subpatterns.iter().map(|f| J::O(vec![("i", r(f.field.as_u32())), ("p", self.pat(th, &f.pattern))])).collect())));
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => { v.push(("k", s("deref"))); v.push(("sub", self.pat(th, subpattern))); }
            PatKind::Constant { value } => {
                v.push(("k", s("const")));
                match value.try_to_leaf() { Some(l) => { v.push(("int", self.scalar(l, value.ty))); } None => v.push(("text", s(value.to_string()))) }
            }
            PatKind::Range(rg) => { v.push(("k", s("range"))); v.push(("text", s(rg.to_string()))); }
            PatKind::Or { pats } => { v.push(("k", s("or"))); v.push(("pats", J::A(pats.iter().map(|x| self.pat(th, x)).collect()))); }
            _ => v.push(("k", s("unsupported"))),
        }
        J::O(v)
    }
    fn scalar(&self, l: ty::ScalarInt, t: Ty<'t>) -> J {
        let size = l.size();
        if matches!(t.kind(), ty::Int(_)) { s(l.to_int(size).to_string()) } else { s(l.to_uint(size).to_string()) }
    }
    fn e(&self, th: &Thir<'t>, id: ExprId) -> J {
        let x = &th[id];
        let mut v: Vec<(&'static str, J)> = vec![("ty", self.ty(x.ty))];
        macro_rules! k { ($n:expr) => { v.push(("k", s($n))) } }
        macro_rules! c { ($n:expr, $i:expr) => { v.push(($n, self.e(th, *$i))) } }
        macro_rules! cs { ($n:expr, $i:expr) => { v.push(($n, J::A($i.iter().map(|y| self.e(th, *y)).collect()))) } }
        use ExprKind::*;
        match &x.kind {
            Scope { value, region_scope, .. } => {
                // keep scope ids only as loop labels
                let mut t = *value;
                while let NeverToAny { source } = &th[t].kind { t = *source; }
                if let Loop { body } = &th[t].kind { k!("loop"); v.push(("label", r(region_scope.local_id.as_u32()))); c!("body", body);
                    v.push(("span", self.span(x.span)));
                } else { return self.e(th, *value); }
            }
            If { cond, then, else_opt, .. } => { k!("if"); c!("c", cond); c!("t", then); if let Some(z) = else_opt { c!("e", z); } }
            Call { fun, args, ty, .. } => { k!("call"); v.push(("f", self.ty(*ty))); 
                if !matches!(ty.kind(), ty::FnDef(..)) { c!("fun", fun); }
                cs!("args", args); v.push(("span", self.span(x.span))); }
            Deref { arg } => { k!("deref"); c!("a", arg); }
            Binary { op, lhs, rhs } => { k!("bin"); v.push(("op", s(format!("{:?}", op)))); c!("l", lhs); c!("r", rhs); }
            LogicalOp { op, lhs, rhs } => { k!("logic"); v.push(("op", s(format!("{:?}", op)))); c!("l", lhs); c!("r", rhs); }
            Unary { op, arg } => { k!("un"); v.push(("op", s(format!("{:?}", op)))); c!("a", arg); }
            Cast { source } => { k!("cast"); c!("a", source); }
            ValueExpr { source } | NeverToAny { source } | PlaceTypeAscription { source, .. } | ValueTypeAscription { source, .. } => return self.e(th, *source),
            PointerCoercion { source, cast, .. } => { k!("coerce"); v.push(("how", s(format!("{:?}", cast)))); c!("a", source); }
            Loop { body } => { k!("loop"); v.push(("label", J::N)); c!("body", body); }
            Let { expr, pat } => { k!("let"); c!("a", expr); v.push(("pat", self.pat(th, pat))); }
            Match { scrutinee, arms, match_source } => { k!("match"); c!("a", scrutinee); v.push(("src", s(format!("{:?}", match_source).split('(').next().unwrap().to_string())));
                v.push(("arms", J::A(arms.iter().map(|a| { let a = &th[*a]; let mut o = vec![("pat", self.pat(th, &a.pattern)), ("body", self.e(th, a.body))];
                    if let Some(g) = a.guard { o.push(("guard", self.e(th, g))); } J::O(o) }).collect()))); }
            Block { block } => return self.block(th, *block, x.ty),
            Assign { lhs, rhs } => { k!("assign"); c!("l", lhs); c!("r", rhs); }
            AssignOp { op, lhs, rhs } => { k!("assignop"); v.push(("op", s(format!("{:?}", op)))); c!("l", lhs); c!("r", rhs); }
            Field { lhs, variant_index, name } => { k!("field"); c!("a", lhs); v.push(("i", r(name.as_u32())));
                if let ty::Adt(def, _) = th[*lhs].ty.kind() { v.push(("name", s(def.variant(*variant_index).fields[*name].name.as_str()))); } }
            Index { lhs, index } => { k!("index"); c!("a", lhs); c!("i", index); }
            VarRef { id } => { k!("var"); v.push(("id", s(format!("{}", id.0.local_id.as_u32())))); v.push(("name", s(self.tcx.hir_name(id.0).as_str()))); }
            UpvarRef { var_hir_id, .. } => { k!("var"); v.push(("id", s(format!("{}", var_hir_id.0.local_id.as_u32())))); v.push(("name", s(self.tcx.hir_name(var_hir_id.0).as_str()))); }
            Borrow { borrow_kind, arg } => { k!("borrow"); v.push(("mut", r(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. })))); c!("a", arg); }
            RawBorrow { mutability, arg } => { k!("rawborrow"); v.push(("mut", r(mutability.is_mut()))); c!("a", arg); }
            Break { label, value } => { k!("break"); v.push(("label", r(label.local_id.as_u32()))); if let Some(z) = value { c!("a", z); } }
            Continue { label } => { k!("continue"); v.push(("label", r(label.local_id.as_u32()))); }
            Return { value } => { k!("return"); if let Some(z) = value { c!("a", z); } }
            Repeat { value, count } => { k!("repeat"); c!("a", value); v.push(("n", match count.try_to_target_usize(self.tcx) { Some(n) => r(n), None => J::N })); }
            Array { fields } => { k!("array"); cs!("a", fields); }
            Tuple { fields } => { k!("tuple"); cs!("a", fields); }
            Adt(a) => { k!("adt"); v.push(("adt", s(self.path(a.adt_def.did())))); v.push(("variant", s(a.adt_def.variant(a.variant_index).name.as_str())));
                v.push(("fields", J::A(a.fields.iter().map(|f| J::O(vec![("i", r(f.name.as_u32())), ("name", s(a.adt_def.variant(a.variant_index).fields[f.name].name.as_str())), ("e", self.e(th, f.expr))])).collect())));
                if let AdtExprBase::Base(b) = &a.base { c!("base", &b.base); } }
            Closure(cl) => { k!("closure"); v.push(("body", self.body(cl.closure_id))); }
            Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                match &lit.node {
                    Int(n, _) => { k!("int"); v.push(("v", s(format!("{}{}", if *neg {"-"} else {""}, n.get())))); }
                    Bool(b) => { k!("bool"); v.push(("v", r(b))); }
                    Char(ch) => { k!("charlit"); v.push(("v", r(*ch as u32))); }
                    Byte(b) => { k!("int"); v.push(("v", s(b.to_string()))); }
                    ByteStr(bs, _) => { k!("bytestr"); v.push(("v", J::A(bs.as_byte_str().iter().map(|b| r(*b)).collect()))); }
                    Str(st, _) => { k!("str"); v.push(("v", s(st.as_str()))); }
                    Float(f, _) => { k!("float"); v.push(("v", s(format!("{}{}", if *neg {"-"} else {""}, f.as_str())))); }
                    _ => k!("unsupported"),
                }
            }
            NonHirLiteral { lit, .. } => { k!("int"); v.push(("v", self.scalar(*lit, x.ty))); }
            ZstLiteral { .. } => { k!("zst"); }
            NamedConst { def_id, args, .. } => {
                k!("const"); v.push(("path", s(self.path(*def_id))));
                let env = TypingEnv::post_analysis(self.tcx, self.owner.to_def_id());
                if !matches!(x.ty.kind(), ty::Array(..) | ty::Ref(..)) {
                    let uv = rustc_middle::mir::UnevaluatedConst { def: *def_id, args, promoted: None };
                    if let Ok(val) = self.tcx.const_eval_resolve(env, uv, x.span) {
                        if let Some(sc) = val.try_to_scalar_int() { v.push(("v", self.scalar(sc, x.ty))); }
                    }
                } else if let Some(l) = def_id.as_local() { v.push(("body", self.body(l))); }
            }
            other => { k!("unsupported"); v.push(("what", s(format!("{:?}", other).chars().take(60).collect::<String>()))); }
        }
        J::O(v)
    }
    fn block(&self, th: &Thir<'t>, b: BlockId, t: Ty<'t>) -> J {
        let b = &th[b];
        let mut st = vec![];
        for x in b.stmts.iter() {
            match &th[*x].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![("k", s("expr")), ("e", self.e(th, *expr)), ("span", self.span(th[*expr].span))])),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let mut o = vec![("k", s("let")), ("pat", self.pat(th, pattern)), ("span", self.span(*span))];
                    if let Some(i) = initializer { o.push(("init", self.e(th, *i))); }
                    if let Some(e) = else_block { o.push(("else", self.block(th, *e, t))); }
                    st.push(J::O(o));
                }
            }
        }
        let mut o = vec![("k", s("block")), ("ty", self.ty(t)), ("stmts", J::A(st)), ("tbb", r(b.targeted_by_break)), ("scope", r(b.region_scope.local_id.as_u32()))];
        if let Some(x) = b.expr { o.push(("e", self.e(th, x))); }
        J::O(o)
    }
    fn body(&self, d: LocalDefId) -> J {
        let tcx = self.tcx;
        let sub = D { tcx, owner: d };
        let Ok((th, root)) = tcx.thir_body(d) else { return J::N };
        let th = th.borrow();
        let params = th.params.iter().map(|p| J::O(vec![("ty", sub.ty(p.ty)), ("pat", match &p.pat { Some(q) => sub.pat(&th, q), None => J::N })])).collect();
        let ret = match &th.body_type { BodyTy::Fn(sig) => sub.ty(sig.output()), BodyTy::Const(t) => sub.ty(*t), _ => J::N };
        let src = tcx.sess.source_map().span_to_snippet(tcx.hir_span_with_body(tcx.local_def_id_to_hir_id(d))).unwrap_or_default();
        J::O(vec![("path", s(sub.path(d.to_def_id()))), ("span", sub.span(tcx.def_span(d))), ("params", J::A(params)), ("ret", ret), ("body", sub.e(&th, root)), ("src", s(src))])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'t>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'t>) -> Compilation {
        let out = match std::env::var("THIRDUMP_OUT") { Ok(o) => o, _ => return Compilation::Continue };
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE);
        if name.as_str() != std::env::var("THIRDUMP_CRATE").unwrap_or_default() { return Compilation::Continue; }
        let mut fns = vec![];
        for d in tcx.hir_body_owners() {
            let kind = tcx.def_kind(d);
            if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let dd = D { tcx, owner: d };
                fns.push(dd.body(d));
            }
        }
        let mut adts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let k = tcx.def_kind(id);
            if matches!(k, DefKind::Struct | DefKind::Enum) {
                let dd = D { tcx, owner: id };
                let def = tcx.adt_def(id);
                adts.push(J::O(vec![("path", s(dd.path(id.to_def_id()))), ("enum", r(def.is_enum())), ("variants", J::A(def.variants().iter().map(|va| J::O(vec![("name", s(va.name.as_str())), ("fields", J::A(va.fields.iter().map(|f| J::O(vec![("name", s(f.name.as_str())), ("ty", dd.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))])).collect()))])).collect()))]));
            }
        }
        let mut o = String::new();
        w(&J::O(vec![("fns", J::A(fns)), ("adts", J::A(adts))]), &mut o);
        std::fs::write(out, o).unwrap();
        if std::env::var("THIRDUMP_CONT").is_ok() { Compilation::Continue } else { Compilation::Stop }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

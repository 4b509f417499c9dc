//! C18: the literal validator on every 64-bit value, every kind of initialised definition and every declared or inferred type.
use super::*;
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticSink};
use cairo_m_compiler_parser::parser::{Spanned, TypeExpr};
use crate::db::Db;
use crate::definition::{ConstDefRef, Definition, LetDefRef};
use crate::semantic_index::{ExpressionId, ExpressionInfo};
use std::sync::atomic::{AtomicUsize, Ordering};

struct Count(AtomicUsize);
impl DiagnosticSink for Count {
    fn push(&self, d: Diagnostic) {
        assert!(d.error, "an out-of-range literal is an error");
        self.0.store(self.0.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
    }
}
fn no_text(_a: std::fmt::Arguments<'_>) -> String {
    String::new()
}
fn named(t: NamedType) -> Option<Spanned<TypeExpr>> {
    Some(Spanned::new(TypeExpr::Named(Spanned::new(t, (1..2).into())), (1..2).into()))
}
fn run(kind: DefinitionKind, e: Expression) -> usize {
    let index = SemanticIndex {
        def: Definition { name: String::new(), kind },
        expr: ExpressionInfo { ast_node: e, ast_span: (3..4).into() },
    };
    let sink = Count(AtomicUsize::new(0));
    LiteralValidator.validate(&Db, Crate, File, &index, &sink);
    std::mem::forget(index);
    sink.0.load(Ordering::Relaxed)
}
fn var(t: Option<Spanned<TypeExpr>>) -> DefinitionKind {
    DefinitionKind::Let(LetDefRef { value_expr_id: Some(ExpressionId(0)), explicit_type_ast: t, destructuring_info: None })
}
fn constant() -> DefinitionKind {
    DefinitionKind::Const(ConstDefRef { value_expr_id: Some(ExpressionId(0)) })
}
fn in_range(t: TypeData, v: u64) -> bool {
    match t {
        TypeData::Felt => v <= 0x7fff_ffff,
        TypeData::U32 => v <= 0xffff_ffff,
        _ => true,
    }
}
fn any_type() -> TypeData {
    match kani::any::<u8>() % 4 {
        0 => TypeData::Felt,
        1 => TypeData::U32,
        2 => TypeData::Bool,
        _ => TypeData::Error,
    }
}
fn literal(v: u64) -> Expression {
    Expression::Literal(v, None)
}
fn negated(v: u64) -> Expression {
    Expression::UnaryOp { op: UnaryOp::Neg, expr: Box::new(Spanned::new(literal(v), (5..6).into())) }
}
macro_rules! harness { ($($n:ident => $kind:expr, $t:expr);* $(;)?) => { $( mod $n {
    use super::*;
    #[kani::proof]
    #[kani::unwind(4)]
    #[kani::stub(alloc::fmt::format, no_text)]
    fn exact() {
        let v: u64 = kani::any();
        let t = $t;
        unsafe { crate::type_resolution::INFERRED = t };
        let n = run($kind, literal(v));
        kani::cover!(n == 1);
        assert!((n != 0) == !in_range(t, v), "a literal is accepted exactly when it is in the range of its type");
    }
} )* } }
harness! {
    let_felt => var(named(NamedType::Felt)), TypeData::Felt;
    let_u32 => var(named(NamedType::U32)), TypeData::U32;
    let_inferred => var(None), any_type();
    constant_ => constant(), any_type();
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, no_text)]
fn negated_rejected() {
    let v: u64 = kani::any();
    let (k, t) = match kani::any::<u8>() % 4 {
        0 => (var(named(NamedType::Felt)), TypeData::Felt),
        1 => (var(named(NamedType::U32)), TypeData::U32),
        2 => (constant(), TypeData::Felt),
        _ => (constant(), TypeData::U32),
    };
    unsafe { crate::type_resolution::INFERRED = t };
    assert!(run(k, negated(v)) != 0, "a negated literal is rejected");
}
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(alloc::fmt::format, no_text)]
fn other_expressions_left_alone() {
    let k = if kani::any() { var(None) } else { constant() };
    unsafe { crate::type_resolution::INFERRED = any_type() };
    let e = Expression::Identifier(Spanned::new(String::new(), (5..6).into()));
    assert!(run(k, e) == 0, "an expression that is not a literal is not the literal check's business");
}

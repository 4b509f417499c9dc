//! C20: contracts of the type relation and of the operator tables.
//!
//! Types are interned: two of them are the same exactly when their data is.  The relation is proved by induction on the
//! structure of the two types: components are three arbitrary types, on which the relation is arbitrary but satisfies its
//! contract (reflexive, symmetric, and equality between concrete types).
use crate::types::*;
use crate::type_resolution::*;
use crate::*;
use cairo_m_compiler_parser::parser::{BinaryOp, UnaryOp};

fn rel_ok(rel: &[[bool; 3]; 3], conc: &[bool; 3]) -> bool {
    let mut ok = true;
    for i in 0..3 {
        for j in 0..3 {
            if rel[i][j] != rel[j][i] || (i == j && !rel[i][j]) || (conc[i] && conc[j] && rel[i][j] != (i == j)) {
                ok = false;
            }
        }
    }
    ok
}
/// The contract that stands for the recursive calls.
static mut REL: [[bool; 3]; 3] = [[false; 3]; 3];
fn compatible_stub<'db>(_db: &'db dyn SemanticDb, a: TypeId<'db>, b: TypeId<'db>) -> bool {
    assert!(a.0 >= CHILD && b.0 >= CHILD, "only components are compared recursively");
    unsafe { REL[(a.0 - CHILD) as usize][(b.0 - CHILD) as usize] }
}
fn any_data(kind: u8, len: usize) -> Shape {
    let mut c = [0u8; 3];
    for x in c.iter_mut() {
        *x = kani::any::<u8>() % 3;
    }
    Shape { kind, len, size: kani::any(), comp: c }
}
fn same(a: &Shape, b: &Shape) -> bool {
    if a.kind != b.kind {
        return false;
    }
    match a.kind {
        STRUCT | FUNCTION => a.size == b.size,
        TUPLE => a.len == b.len && (0..3).all(|i| i >= a.len || a.comp[i] == b.comp[i]),
        ARRAY => a.size == b.size && a.comp[0] == b.comp[0],
        POINTER => a.comp[0] == b.comp[0],
        _ => true,
    }
}
fn concrete(a: &Shape, conc: &[bool; 3]) -> bool {
    match a.kind {
        UNKNOWN | ERROR => false,
        TUPLE => (0..3).all(|i| i >= a.len || conc[a.comp[i] as usize]),
        ARRAY | POINTER => conc[a.comp[0] as usize],
        _ => true,
    }
}
fn spec(a: &Shape, b: &Shape) -> bool {
    let rel = unsafe { REL };
    let r = |i: usize| rel[a.comp[i] as usize][b.comp[i] as usize];
    if same(a, b) || a.kind == UNKNOWN || a.kind == ERROR || b.kind == UNKNOWN || b.kind == ERROR {
        return true;
    }
    if a.kind != b.kind {
        return false;
    }
    match a.kind {
        TUPLE => a.len == b.len && (0..3).all(|i| i >= a.len || r(i)),
        ARRAY => a.size == b.size && r(0),
        POINTER => r(0),
        _ => false,
    }
}
fn step(ka: u8, la: usize, kb: u8, lb: usize) {
    let (a, b) = (any_data(ka, la), any_data(kb, lb));
    let (mut rel, mut conc) = ([[false; 3]; 3], [false; 3]);
    for i in 0..3 {
        conc[i] = kani::any();
        for j in 0..3 {
            rel[i][j] = kani::any();
        }
    }
    kani::assume(rel_ok(&rel, &conc));
    unsafe { REL = rel };
    // interning: equal data, equal identity
    let idb = if same(&a, &b) { LEFT } else { RIGHT };
    unsafe {
        ARENA[0] = a;
        ARENA[1] = b;
    }
    let (x, y) = (TypeId(LEFT, PH), TypeId(idb, PH));
    let r = are_types_compatible__top(&Db, x, y);
    let l = are_types_compatible__top(&Db, y, x);
    assert!(r == spec(&a, &b), "types are compatible exactly when the language says so");
    assert!(r == l, "compatibility is symmetric");
    if concrete(&a, &conc) && concrete(&b, &conc) {
        assert!(r == same(&a, &b), "distinct concrete types are never equated");
    }
}
macro_rules! pairs { ($($n:ident => $ka:expr, $la:expr);* $(;)?) => { $( mod $n {
    use super::*;
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(are_types_compatible, compatible_stub)]
    fn against_any_other_kind() {
        let kb: u8 = kani::any();
        kani::assume(kb < KINDS);
        kani::assume(kb != TUPLE || $ka != TUPLE);
        step($ka, $la, kb, 1);
    }
} )* } }
pairs! {
    felt => FELT, 0; bool_ => BOOL, 0; u32_ => U32_, 0; struct_ => STRUCT, 0; tuple => TUPLE, 1; pointer => POINTER, 0;
    array => ARRAY, 0; function => FUNCTION, 0; unknown => UNKNOWN, 0; error => ERROR, 0;
}
macro_rules! tuples { ($($n:ident => $a:expr, $b:expr);* $(;)?) => { $( mod $n {
    use super::*;
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(are_types_compatible, compatible_stub)]
    fn componentwise() {
        step(TUPLE, $a, TUPLE, $b);
    }
} )* } }
tuples! {
    tuple_0_0 => 0, 0; tuple_0_1 => 0, 1; tuple_1_1 => 1, 1; tuple_1_2 => 1, 2; tuple_2_2 => 2, 2; tuple_2_3 => 2, 3; tuple_3_3 => 3, 3; tuple_1_3 => 1, 3;
}

// ---- operator tables ----
fn result_of(op: BinaryOp, t: u8) -> Option<u8> {
    use BinaryOp::*;
    match op {
        Add | Sub | Mul | Div if t == FELT || t == U32_ => Some(t),
        Mod | BitwiseAnd | BitwiseOr | BitwiseXor if t == U32_ => Some(t),
        Eq | Neq if t == FELT || t == U32_ || t == BOOL => Some(BOOL),
        Less | Greater | LessEqual | GreaterEqual if t == U32_ => Some(BOOL),
        And | Or if t == BOOL => Some(BOOL),
        _ => None,
    }
}
const OPS: [BinaryOp; 16] = {
    use BinaryOp::*;
    [Add, Sub, Mul, Div, Mod, Eq, Neq, Less, Greater, LessEqual, GreaterEqual, And, Or, BitwiseAnd, BitwiseOr, BitwiseXor]
};
#[kani::proof]
#[kani::unwind(40)]
fn binary_operator_table() {
    let t = get_binary_op_signatures(&Db);
    let op = OPS[(kani::any::<u8>() % 16) as usize];
    let (l, r): (u8, u8) = (kani::any(), kani::any());
    let mut found = None;
    for s in t.iter() {
        if s.op == op && s.left.0 == l && s.right.0 == r && found.is_none() {
            found = Some(s.result.0);
        }
    }
    std::mem::forget(t);
    let want = if l == r { result_of(op, l) } else { None };
    assert!(found == want, "a binary operator is accepted exactly on its operand types, with its result type");
}
#[kani::proof]
#[kani::unwind(10)]
fn unary_operator_table() {
    let t = get_unary_op_signatures(&Db);
    let op = if kani::any() { UnaryOp::Neg } else { UnaryOp::Not };
    let x: u8 = kani::any();
    let mut found = None;
    for s in t.iter() {
        if s.op == op && s.operand.0 == x && found.is_none() {
            found = Some(s.result.0);
        }
    }
    std::mem::forget(t);
    let want = match op {
        UnaryOp::Neg if x == FELT || x == U32_ => Some(x),
        UnaryOp::Not if x == BOOL => Some(BOOL),
        _ => None,
    };
    assert!(found == want, "a unary operator is accepted exactly on its operand types, with its result type");
}

//! C19: contracts of the control-flow validator, proved by induction on the statement tree.
//!
//! Every statement has a ghost description of what executing it can do.  One induction step per statement kind: the real
//! function (NAME__top, its verbatim copy) is given a statement of that kind over arbitrary children, its recursive calls
//! are replaced by the contract, and its result is checked against the contract for the statement itself.
use super::*;
use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticCode, DiagnosticSink};
use cairo_m_compiler_parser::parser::Expression;

/// What executing a statement can do, over all values of conditions.
#[derive(Copy, Clone)]
struct G {
    /// reach its end
    falls: bool,
    /// leave through a break that belongs to an enclosing loop
    breaks: bool,
    /// contains no loop, break or continue
    plain: bool,
    /// what the analyses answer for it (constrained by their contracts)
    hard: bool,
    provides: bool,
    has_break: bool,
    terminates: bool,
    body_returns: bool,
}
const Z: G = G { falls: true, breaks: false, plain: true, hard: false, provides: false, has_break: false, terminates: false, body_returns: false };
static mut KIDS: [G; 4] = [Z; 4];
static mut DEPTH: [usize; 4] = [0; 4];

/// The contracts.  A statement the analyses call returning never falls through; a statement without a reported break has
/// none; for plain statements the answer is exact.
fn hard_ok(g: &G) -> bool {
    (!g.hard || !g.falls) && (!g.plain || g.hard == !g.falls)
}
fn provides_ok(g: &G) -> bool {
    (!g.provides || !g.falls) && (!g.plain || g.provides == !g.falls)
}
fn break_ok(g: &G) -> bool {
    g.has_break || !g.breaks
}
fn terminates_ok(g: &G) -> bool {
    (!g.terminates || !g.falls) && (!g.plain || g.terminates == !g.falls)
}
fn any_kid() -> G {
    let g = G {
        falls: kani::any(), breaks: kani::any(), plain: kani::any(), hard: kani::any(), provides: kani::any(),
        has_break: kani::any(), terminates: kani::any(), body_returns: kani::any(),
    };
    kani::assume(!g.plain || !g.breaks);
    kani::assume(hard_ok(&g) && provides_ok(&g) && break_ok(&g) && terminates_ok(&g));
    g
}
fn kid(s: &Spanned<Statement>) -> usize {
    s.span().start
}
fn ghost(s: &Spanned<Statement>) -> G {
    unsafe { KIDS[kid(s)] }
}
// ---- the recursive calls, replaced by their contracts ----
fn hard_stub(s: &Spanned<Statement>) -> bool {
    ghost(s).hard
}
fn provides_stub(s: &Spanned<Statement>) -> bool {
    ghost(s).provides
}
fn break_stub(s: &Spanned<Statement>) -> bool {
    ghost(s).has_break
}
fn stmt_stub(_db: &dyn SemanticDb, _f: File, s: &Spanned<Statement>, depth: usize, _k: &dyn DiagnosticSink) -> bool {
    unsafe { DEPTH[kid(s)] = depth };
    ghost(s).terminates
}
/// A sequence stands for the ghost child numbered by its first element (the sequence contract is checked separately).
static mut SEQ: G = Z;
fn body_stub(_s: &[Spanned<Statement>]) -> bool {
    unsafe { SEQ.provides }
}
fn seq_stub(_db: &dyn SemanticDb, _f: File, _s: &[Spanned<Statement>], depth: usize, _k: &dyn DiagnosticSink) -> bool {
    unsafe { DEPTH[0] = depth };
    unsafe { SEQ.terminates }
}

fn st(v: Statement, i: usize) -> Spanned<Statement> {
    Spanned::new(v, (i..i).into())
}
fn leaf(i: usize) -> Spanned<Statement> {
    st(Statement::Continue, i)
}
fn bx(i: usize) -> Box<Spanned<Statement>> {
    Box::new(leaf(i))
}
fn ex() -> Spanned<Expression> {
    Spanned::new(Expression::BooleanLiteral(true), (9..9).into())
}
/// The effect of running `n` statements one after the other.
fn seq_effect(n: usize) -> G {
    let k = unsafe { KIDS };
    let (mut reach, mut breaks, mut plain) = (true, false, true);
    for i in 0..n {
        if reach && k[i].breaks {
            breaks = true;
        }
        reach = reach && k[i].falls;
        plain = plain && k[i].plain;
    }
    G { falls: reach, breaks, plain, ..Z }
}
/// One statement of every kind over arbitrary children, with its effect by the language's semantics.
fn any_statement(kind: u8) -> (Spanned<Statement>, G) {
    for i in 0..3 {
        unsafe { KIDS[i] = any_kid() };
    }
    let k = unsafe { KIDS };
    let (s, e) = match kind {
        0 => (Statement::Return { value: None }, G { falls: false, ..Z }),
        1 => (Statement::Break, G { falls: false, breaks: true, plain: false, ..Z }),
        2 => (Statement::Continue, G { falls: false, plain: false, ..Z }),
        3 => (Statement::Expression(ex()), Z),
        4 => {
            let e: bool = kani::any();
            let (t, o) = (k[0], if e { k[1] } else { Z });
            (
                Statement::If { condition: ex(), then_block: bx(0), else_block: if e { Some(bx(1)) } else { None } },
                G { falls: t.falls || o.falls, breaks: t.breaks || o.breaks, plain: t.plain && o.plain, ..Z },
            )
        }
        5 => (Statement::Loop { body: bx(0) }, G { falls: k[0].breaks, plain: false, ..Z }),
        6 => (Statement::While { condition: ex(), body: bx(0) }, G { falls: true, plain: false, ..Z }),
        7 => (
            Statement::For { init: bx(1), condition: ex(), step: bx(2), body: bx(0) },
            G { falls: k[1].falls, breaks: k[1].breaks, plain: false, ..Z },
        ),
        8 => {
            // initialisations and steps are assignments or expressions
            (Statement::Assignment { lhs: ex(), rhs: ex() }, Z)
        }
        _ => {
            // a block is its sequence, whose contract is checked by the sequence harnesses
            unsafe { SEQ = any_kid() };
            let q = unsafe { SEQ };
            let mut v = Vec::with_capacity(1);
            v.push(leaf(0));
            (Statement::Block(v), G { falls: q.falls, breaks: q.breaks, plain: q.plain, ..Z })
        }
    };
    if kind == 7 {
        kani::assume(k[1].falls && !k[1].breaks);
    }
    (st(s, 9), e)
}
fn kids(n: usize) -> G {
    for i in 0..4 {
        unsafe { KIDS[i] = if i < n { any_kid() } else { Z } };
    }
    seq_effect(n)
}
fn leaves() -> ManuallyDrop<[Spanned<Statement>; 4]> {
    ManuallyDrop::new([leaf(0), leaf(1), leaf(2), leaf(3)])
}

macro_rules! per_kind { ($($m:ident => $k:expr),*) => { $( mod $m {
    use super::*;
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(ControlFlowValidator::statement_provides_return_value, provides_stub)]
    #[kani::stub(ControlFlowValidator::body_returns_on_all_paths, body_stub)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn provides_return() {
        let (s, mut e) = any_statement($k);
        e.provides = ControlFlowValidator::statement_provides_return_value__top(&s);
        std::mem::forget(s);
        assert!(!e.provides || !e.falls, "a statement counted as returning cannot reach its end");
        assert!(!e.plain || e.provides == !e.falls, "a loop-free statement that always returns counts as returning");
    }
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(ControlFlowValidator::analyze_for_unreachable_code_in_statement, stmt_stub)]
    #[kani::stub(ControlFlowValidator::analyze_for_unreachable_code_in_sequence, seq_stub)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn reachability() {
        let (s, mut e) = any_statement($k);
        let depth: usize = kani::any();
        kani::assume(depth < 1_000_000);
        let sink = Log::new();
        e.terminates = ControlFlowValidator::analyze_for_unreachable_code_in_statement__top(&Db, File, &s, depth, &sink);
        std::mem::forget(s);
        assert!(!e.terminates || !e.falls, "a statement counted as ending the path cannot reach its end");
        assert!(!e.plain || e.terminates == !e.falls, "a loop-free statement that ends the path is recognised");
        // break and continue are reported exactly outside loops, and nothing else is reported here
        let want = depth == 0 && ($k == 1 || $k == 2);
        let n = sink.0.load(Ordering::Relaxed);
        assert!(n == want as usize, "break and continue are reported exactly outside loops");
        if want {
            let c = sink.1.load(Ordering::Relaxed);
            assert!(c == $k, "break or continue, as it stands");
        }
        // children are analysed, at the right loop depth
        let d = unsafe { DEPTH };
        match $k {
            4 => assert!(d[0] == depth, "the branches of a conditional are analysed at its depth"),
            5 | 6 => assert!(d[0] == depth + 1, "a loop body is analysed one loop deeper"),
            7 => assert!(d[0] == depth + 1 && d[1] == depth && d[2] == depth, "the parts of a for loop are analysed at their depth"),
            9 => assert!(d[0] == depth, "a block is analysed at its depth"),
            _ => {}
        }
    }
} )* } }
macro_rules! per_kind_own_blocks { ($($m:ident => $k:expr),*) => { $( mod $m {
    use super::*;
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(ControlFlowValidator::statement_guarantees_hard_return, hard_stub)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn hard_return() {
        let (s, mut e) = any_statement($k);
        e.hard = ControlFlowValidator::statement_guarantees_hard_return__top(&s);
        std::mem::forget(s);
        assert!(!e.hard || !e.falls, "a statement guaranteed to return cannot reach its end");
        assert!(!e.plain || e.hard == !e.falls, "a loop-free statement that always returns is recognised");
    }
    #[kani::proof]
    #[kani::unwind(5)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn break_found() {
        let (s, mut e) = any_statement($k);
        e.has_break = ControlFlowValidator::contains_break__top(&s);
        std::mem::forget(s);
        assert!(e.has_break || !e.breaks, "a break that leaves the statement is found");
    }
} )* } }
/// the analyses that read the statements of a block themselves, by the length of the block
macro_rules! per_length { ($($m:ident => $n:expr),*) => { $( mod $m {
    use super::*;
    fn block() -> (ManuallyDrop<Spanned<Statement>>, G) {
        let mut v = Vec::with_capacity(4);
        if $n > 0 { v.push(leaf(0)); }
        if $n > 1 { v.push(leaf(1)); }
        if $n > 2 { v.push(leaf(2)); }
        if $n > 3 { v.push(leaf(3)); }
        (ManuallyDrop::new(st(Statement::Block(v), 9)), kids($n))
    }
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(ControlFlowValidator::statement_guarantees_hard_return, hard_stub)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn hard_return() {
        let (s, mut e) = block();
        e.hard = ControlFlowValidator::statement_guarantees_hard_return__top(&s);
        assert!(!e.hard || !e.falls, "a block guaranteed to return cannot reach its end");
        assert!(!e.plain || e.hard == !e.falls, "a loop-free block that always returns is recognised");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(ControlFlowValidator::contains_break, break_stub)]
    fn break_found() {
        let (s, mut e) = block();
        e.has_break = ControlFlowValidator::contains_break__top(&s);
        assert!(e.has_break || !e.breaks, "a break that leaves the block is found");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(ControlFlowValidator::statement_provides_return_value, provides_stub)]
    #[kani::stub(ControlFlowValidator::statement_guarantees_hard_return, hard_stub)]
    fn returns() {
        let e = kids($n);
        let v = leaves();
        let r = ControlFlowValidator::body_returns_on_all_paths(&v[..$n]);
        assert!(!r || !e.falls, "an accepted body cannot reach its end");
        assert!(!e.plain || r == !e.falls, "a loop-free body that always returns is accepted");
    }
    #[kani::proof]
    #[kani::unwind(6)]
    #[kani::stub(ControlFlowValidator::analyze_for_unreachable_code_in_statement, stmt_stub)]
    fn reachability() {
        let e = kids($n);
        let v = leaves();
        let depth: usize = kani::any();
        let sink = Log::new();
        let k = unsafe { KIDS };
        let r = ControlFlowValidator::analyze_for_unreachable_code_in_sequence(&Db, File, &v[..$n], depth, &sink);
        assert!(!r || !e.falls, "a sequence counted as ending the path cannot reach its end");
        assert!(!e.plain || r == !e.falls, "a loop-free sequence that ends the path is recognised");
        let mut ended = false;
        for i in 0..$n {
            let c = sink.2[i].load(Ordering::Relaxed);
            assert!(c == ended as usize, "a statement is reported unreachable once, exactly when an earlier one ends the path");
            assert!(unsafe { DEPTH[i] } == depth, "every statement is analysed at the depth of the sequence");
            ended = ended || k[i].terminates;
        }
    }
} )* } }
per_length!(length_0 => 0, length_1 => 1, length_2 => 2, length_3 => 3, length_4 => 4);
use std::mem::ManuallyDrop;
use crate::db::Db;
use std::sync::atomic::{AtomicUsize, Ordering};
struct Log(AtomicUsize, AtomicUsize, [AtomicUsize; 4]);
impl Log {
    fn new() -> Self {
        const A: AtomicUsize = AtomicUsize::new(0);
        Log(A, A, [A; 4])
    }
}
impl DiagnosticSink for Log {
    fn push(&self, d: Diagnostic) {
        self.0.store(self.0.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        let c = match d.code {
            DiagnosticCode::BreakOutsideLoop => 1,
            DiagnosticCode::ContinueOutsideLoop => 2,
            DiagnosticCode::UnreachableCode => 3,
            _ => 4,
        };
        self.1.store(c, Ordering::Relaxed);
        if c == 3 && d.at < 4 {
            let a = &self.2[d.at];
            a.store(a.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
        }
    }
}
per_kind!(ret => 0, brk => 1, cont => 2, expression => 3, conditional => 4, endless_loop => 5, while_loop => 6, for_loop => 7, assignment => 8, block_ => 9);

mod own {
    use super::*;
    per_kind_own_blocks!(ret => 0, brk => 1, cont => 2, expression => 3, conditional => 4, endless_loop => 5, while_loop => 6, for_loop => 7, assignment => 8);
}

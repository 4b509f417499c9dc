//! C19: return-path, reachability and break/continue analysis, on every small statement tree and random larger ones.
use std::sync::Mutex;

use cairo_m_compiler_diagnostics::DiagnosticCode;

use crate::{analyse_batch, Report, Rng};

#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Let,
    Ret,
    Brk,
    Cont,
    Block(Vec<S>),
    If(Box<S>),
    IfElse(Box<S>, Box<S>),
    Loop(Box<S>),
    While(Box<S>),
    For(Box<S>),
}

/// Ways a statement can be left: falls through, returns, breaks, continues.
#[derive(Clone, Copy, PartialEq, Default)]
struct Out {
    f: bool,
    r: bool,
    b: bool,
    c: bool,
}

fn out(s: &S) -> Out {
    match s {
        S::Let => Out { f: true, ..Default::default() },
        S::Ret => Out { r: true, ..Default::default() },
        S::Brk => Out { b: true, ..Default::default() },
        S::Cont => Out { c: true, ..Default::default() },
        S::Block(v) => seq(v),
        S::If(t) => or(out(t), Out { f: true, ..Default::default() }),
        S::IfElse(t, e) => or(out(t), out(e)),
        S::Loop(b) => {
            let o = out(b);
            Out { f: o.b, r: o.r, ..Default::default() }
        }
        S::While(b) | S::For(b) => Out { f: true, r: out(b).r, ..Default::default() },
    }
}
fn or(a: Out, b: Out) -> Out {
    Out { f: a.f || b.f, r: a.r || b.r, b: a.b || b.b, c: a.c || b.c }
}
fn seq(v: &[S]) -> Out {
    let mut o = Out { f: true, ..Default::default() };
    for s in v {
        if o.f {
            let x = out(s);
            o.f = x.f;
            o = or(o, Out { f: o.f, ..x });
        }
    }
    o
}
fn has_loop(s: &S) -> bool {
    match s {
        S::Let | S::Ret | S::Brk | S::Cont => false,
        S::Block(v) => v.iter().any(has_loop),
        S::If(t) => has_loop(t),
        S::IfElse(t, e) => has_loop(t) || has_loop(e),
        _ => true,
    }
}

struct Printer {
    text: String,
    /// start offset of each statement that no execution reaches
    dead: Vec<usize>,
    live: Vec<usize>,
    /// dead statements that directly follow, in one sequence without loops, a statement that cannot complete
    must: Vec<usize>,
    stray_break: Vec<usize>,
    stray_cont: Vec<usize>,
    /// bodies of one statement are printed without braces (`else if`, `loop break;`, ...)
    bare: bool,
}
impl Printer {
    fn stmt(&mut self, s: &S, reach: bool, depth: usize) {
        let at = self.text.len();
        if reach {
            self.live.push(at);
        } else {
            self.dead.push(at);
        }
        match s {
            S::Let => self.text.push_str("y = 1; "),
            S::Ret => self.text.push_str("return 1; "),
            S::Brk => {
                if depth == 0 {
                    self.stray_break.push(at);
                }
                self.text.push_str("break; ")
            }
            S::Cont => {
                if depth == 0 {
                    self.stray_cont.push(at);
                }
                self.text.push_str("continue; ")
            }
            S::Block(v) => {
                self.text.push_str("{ ");
                self.seq(v, reach, depth);
                self.text.push_str("} ");
            }
            S::If(t) => {
                self.text.push_str("if (x) ");
                self.inner(t, reach, depth, false);
            }
            S::IfElse(t, e) => {
                self.text.push_str("if (x) ");
                self.inner(t, reach, depth, true);
                self.text.push_str("else ");
                self.inner(e, reach, depth, false);
            }
            S::Loop(b) => {
                self.text.push_str("loop ");
                self.inner(b, reach, depth + 1, false);
            }
            S::While(b) => {
                self.text.push_str("while (x) ");
                self.inner(b, reach, depth + 1, false);
            }
            S::For(b) => {
                self.text.push_str("for (let i = 0; x; i = i + 1) ");
                self.inner(b, reach, depth + 1, false);
            }
        }
    }
    /// A body: braces around its statements, or in `bare` style the statement alone. An `else` that follows would
    /// belong to an `if` inside the bare statement.
    fn inner(&mut self, s: &S, reach: bool, depth: usize, before_else: bool) {
        let v = match s {
            S::Block(v) => v.as_slice(),
            s => std::slice::from_ref(s),
        };
        let one = v.len() == 1 && !matches!(v[0], S::Block(_)) && (!before_else || matches!(v[0], S::Let | S::Ret | S::Brk | S::Cont));
        if self.bare && one {
            self.seq(v, reach, depth);
        } else {
            self.text.push_str("{ ");
            self.seq(v, reach, depth);
            self.text.push_str("} ");
        }
    }
    fn seq(&mut self, v: &[S], reach: bool, depth: usize) {
        let mut o = true;
        let mut sure = false;
        for s in v {
            if sure && depth == 0 {
                self.must.push(self.text.len());
            }
            self.stmt(s, reach && o, depth);
            let x = out(s);
            if o && !x.f && !has_loop(s) && !x.b && !x.c {
                sure = true;
            }
            o = o && x.f;
        }
    }
}

/// All sequences of statement trees with exactly `n` nodes.
fn seqs(n: usize, memo: &mut Vec<Option<Vec<Vec<S>>>>) -> Vec<Vec<S>> {
    if n == 0 {
        return vec![vec![]];
    }
    if let Some(Some(v)) = memo.get(n) {
        return v.clone();
    }
    let mut res = vec![];
    for k in 1..=n {
        let firsts = trees(k, memo);
        let rests = seqs(n - k, memo);
        for f in &firsts {
            for r in &rests {
                let mut v = vec![f.clone()];
                v.extend(r.iter().cloned());
                res.push(v);
            }
        }
    }
    while memo.len() <= n {
        memo.push(None);
    }
    memo[n] = Some(res.clone());
    res
}
fn trees(n: usize, memo: &mut Vec<Option<Vec<Vec<S>>>>) -> Vec<S> {
    if n == 1 {
        return vec![S::Let, S::Ret, S::Brk, S::Cont];
    }
    let mut res = vec![];
    let bodies = seqs(n - 1, memo);
    for b in &bodies {
        let b = Box::new(S::Block(b.clone()));
        res.push((*b).clone());
        res.push(S::If(b.clone()));
        res.push(S::Loop(b.clone()));
        res.push(S::While(b.clone()));
        res.push(S::For(b.clone()));
    }
    for k in 0..n {
        let a = seqs(k, memo);
        let e = seqs(n - 1 - k, memo);
        for x in &a {
            for y in &e {
                res.push(S::IfElse(Box::new(S::Block(x.clone())), Box::new(S::Block(y.clone()))));
            }
        }
    }
    res
}

fn random(rng: &mut Rng, size: usize) -> Vec<S> {
    let mut v = vec![];
    let mut left = size;
    while left > 0 {
        let k = 1 + rng.below(left);
        v.push(random_stmt(rng, k));
        left -= k;
    }
    v
}
fn random_stmt(rng: &mut Rng, n: usize) -> S {
    if n == 1 {
        return rng.pick(&[S::Let, S::Ret, S::Ret, S::Brk, S::Cont]).clone();
    }
    let b = Box::new(S::Block(random(rng, n - 1)));
    match rng.below(8) {
        0 => *b,
        1 => S::If(b),
        2 | 3 => S::Loop(b),
        4 => S::While(b),
        5 => S::For(b),
        _ => {
            let k = rng.below(n);
            S::IfElse(Box::new(S::Block(random(rng, k))), Box::new(S::Block(random(rng, n - 1 - k))))
        }
    }
}

pub fn parallel<A: Send, B: Send>(jobs: Vec<A>, f: impl Fn(A) -> B + Sync) -> Vec<B> {
    let n = jobs.len();
    let q = Mutex::new(jobs.into_iter().enumerate().collect::<Vec<_>>());
    let out = Mutex::new((0..n).map(|_| None).collect::<Vec<Option<B>>>());
    std::thread::scope(|s| {
        for _ in 0..8 {
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, || loop {
                    let Some((i, j)) = q.lock().unwrap().pop() else { break };
                    let b = f(j);
                    out.lock().unwrap()[i] = Some(b);
                })
                .unwrap();
        }
    });
    out.into_inner().unwrap().into_iter().map(|o| o.unwrap()).collect()
}

pub fn run(r: &mut Report) {
    let mut progs: Vec<Vec<S>> = vec![];
    let mut memo = vec![];
    let max = 3;
    for n in 0..=max {
        progs.extend(seqs(n, &mut memo));
    }
    let mut rng = Rng::new(19);
    let four = seqs(4, &mut memo);
    if crate::thorough() {
        progs.extend(four);
    } else {
        for _ in 0..4000 {
            progs.push(rng.pick(&four).clone());
        }
    }
    for _ in 0..if crate::thorough() { 20000 } else { 4000 } {
        let n = 4 + rng.below(12);
        progs.push(random(&mut rng, n));
    }
    let items: Vec<(Vec<S>, Printer)> = progs
        .into_iter()
        .flat_map(|p| [(false, p.clone()), (true, p)])
        .enumerate()
        .map(|(i, (bare, p))| {
            let mut pr = Printer { bare, text: format!("fn f{i}(x: bool, y: felt) -> felt {{ "), dead: vec![], live: vec![], must: vec![], stray_break: vec![], stray_cont: vec![] };
            pr.seq(&p, true, 0);
            pr.text.push('}');
            (p, pr)
        })
        .collect();
    let chunk = 100;
    let jobs: Vec<(usize, Vec<String>)> = items.chunks(chunk).enumerate().map(|(i, c)| (i * chunk, c.iter().map(|(_, p)| p.text.clone()).collect())).collect();
    for (base, res) in parallel(jobs, |(b, u)| (b, analyse_batch("", &u))) {
        for (i, ds) in res.iter().enumerate() {
            let (p, pr) = &items[base + i];
            let at = |code: DiagnosticCode| -> Vec<usize> {
                let mut v: Vec<usize> = ds.iter().filter(|d| d.code == code).map(|d| d.span.start).collect();
                v.sort();
                v
            };
            let missing = ds.iter().any(|d| d.code == DiagnosticCode::MissingReturn);
            let o = seq(p);
            if o.f {
                r.check("flow/end_of_body_unreachable_when_accepted", missing, || ("accepted, yet an execution reaches the end of the body".into(), pr.text.clone()));
            } else if !p.iter().any(has_loop) && !o.b && !o.c {
                r.check("flow/returning_body_accepted", !missing, || ("every path returns, yet a return is reported missing".into(), pr.text.clone()));
            }
            let un = at(DiagnosticCode::UnreachableCode);
            let bad: Vec<usize> = un.iter().copied().filter(|s| pr.live.contains(s) || !pr.dead.contains(s)).collect();
            // statements after a break or continue that is itself outside any loop are unspecified: such a body is rejected
            if pr.stray_break.is_empty() && pr.stray_cont.is_empty() {
                r.check("flow/reported_unreachable_is_unreachable", bad.is_empty(), || (format!("statement at offset {bad:?} can execute"), pr.text.clone()));
                let lost: Vec<usize> = pr.must.iter().copied().filter(|s| !un.contains(s)).collect();
                r.check("flow/code_after_return_reported", lost.is_empty(), || (format!("dead statement at offset {lost:?} is not reported"), pr.text.clone()));
            }
            let (b, c) = (at(DiagnosticCode::BreakOutsideLoop), at(DiagnosticCode::ContinueOutsideLoop));
            r.check("flow/stray_break_reported_exactly", b == pr.stray_break, || (format!("reported {b:?}, outside loops {:?}", pr.stray_break), pr.text.clone()));
            r.check("flow/stray_continue_reported_exactly", c == pr.stray_cont, || (format!("reported {c:?}, outside loops {:?}", pr.stray_cont), pr.text.clone()));
        }
    }
}

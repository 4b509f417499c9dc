//! C24: precedence and associativity against a table-driven reading of the documented levels.
use cairo_m_compiler_parser::parser::{parse_file, Expression, NamedType, Statement, TopLevelItem, TypeExpr};
use cairo_m_compiler_parser::{ParserDatabaseImpl, SourceFile};

use crate::flow::parallel;
use crate::{Report, Rng};

#[derive(Clone, Debug)]
enum T {
    Atom(String),
    Bin(&'static str),
    Un(&'static str),
    As(&'static str),
    Post(String),
    Paren(Vec<T>),
}
const BIN: [&str; 16] = ["||", "&&", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%"];

/// Level of a binary operator; a higher level binds tighter. `doc`: as documented, `||` below `&&`.
fn level(op: &str, doc: bool) -> u32 {
    match op {
        "||" => 1,
        "&&" => if doc { 2 } else { 1 },
        "&" | "|" | "^" => 3,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 4,
        "+" | "-" => 5,
        _ => 6,
    }
}

fn print(ts: &[T]) -> String {
    let mut s = String::new();
    for t in ts {
        match t {
            T::Atom(a) => s += a,
            T::Bin(o) => s += &format!(" {o} "),
            T::Un(o) => s += o,
            T::As(t) => s += &format!(" as {t}"),
            T::Post(p) => s += p,
            T::Paren(i) => s += &format!("({})", print(i)),
        }
    }
    s
}

struct Rd<'a> {
    ts: &'a [T],
    i: usize,
    doc: bool,
}
impl Rd<'_> {
    /// lowest-level-operator-last-occurrence reading, i.e. left-associative levels
    fn expr(&mut self, min: u32) -> String {
        let mut l = self.cast();
        while let Some(T::Bin(o)) = self.ts.get(self.i) {
            let p = level(o, self.doc);
            if p < min {
                break;
            }
            self.i += 1;
            let rr = self.expr(p + 1);
            l = format!("({l} {o} {rr})");
        }
        l
    }
    fn cast(&mut self) -> String {
        let mut e = self.unary();
        while let Some(T::As(t)) = self.ts.get(self.i) {
            self.i += 1;
            e = format!("({e} as {t})");
        }
        e
    }
    fn unary(&mut self) -> String {
        if let Some(T::Un(o)) = self.ts.get(self.i) {
            self.i += 1;
            return format!("({o}{})", self.unary());
        }
        let mut e = match &self.ts[self.i] {
            T::Atom(a) => a.clone(),
            T::Paren(i) => format!("[{}]", Rd { ts: i, i: 0, doc: self.doc }.expr(0)),
            t => panic!("{t:?}"),
        };
        self.i += 1;
        while let Some(T::Post(p)) = self.ts.get(self.i) {
            self.i += 1;
            e = format!("<{e}{p}>");
        }
        e
    }
}
fn read(ts: &[T], doc: bool) -> String {
    Rd { ts, i: 0, doc }.expr(0)
}

pub fn sexp(e: &Expression) -> String {
    match e {
        Expression::Literal(v, s) => format!("{v}{}", s.clone().unwrap_or_default()),
        Expression::BooleanLiteral(b) => b.to_string(),
        Expression::Identifier(i) => i.value().clone(),
        Expression::UnaryOp { op, expr } => format!("({op}{})", sexp(expr.value())),
        Expression::BinaryOp { op, left, right } => format!("({} {op} {})", sexp(left.value()), sexp(right.value())),
        Expression::FunctionCall { callee, args } => format!("<{}({})>", sexp(callee.value()), args.iter().map(|a| sexp(a.value())).collect::<Vec<_>>().join(", ")),
        Expression::MemberAccess { object, field } => format!("<{}.{}>", sexp(object.value()), field.value()),
        Expression::IndexAccess { array, index } => format!("<{}[{}]>", sexp(array.value()), sexp(index.value())),
        Expression::TupleIndex { tuple, index } => format!("<{}.{index}>", sexp(tuple.value())),
        Expression::Cast { expr, target_type } => {
            let t = match target_type.value() {
                TypeExpr::Named(n) => match n.value() {
                    NamedType::Felt => "felt".to_string(),
                    NamedType::U32 => "u32".into(),
                    NamedType::Bool => "bool".into(),
                    NamedType::Custom(c) => c.clone(),
                },
                o => format!("{o:?}"),
            };
            format!("({} as {t})", sexp(expr.value()))
        }
        Expression::Parenthesized(i) => format!("[{}]", sexp(i.value())),
        o => format!("{o:?}"),
    }
}

fn parse(db: &ParserDatabaseImpl, exprs: &[String]) -> Option<Vec<String>> {
    let src = format!("fn f() {{\n{}\n}}", exprs.iter().map(|e| format!("{e};")).collect::<Vec<_>>().join("\n"));
    let out = parse_file(db, SourceFile::new(db, src, "p.cm".into()));
    if !out.diagnostics.is_empty() {
        return None;
    }
    let Some(TopLevelItem::Function(f)) = out.module.items.first() else { return None };
    let v: Vec<String> = f.value().body.iter().map(|s| match s.value() {
        Statement::Expression(e) => sexp(e.value()),
        o => format!("{o:?}"),
    }).collect();
    (v.len() == exprs.len()).then_some(v)
}

fn operand(rng: &mut Rng, name: &str, depth: usize) -> Vec<T> {
    let mut v = vec![];
    for _ in 0..[0, 0, 0, 1, 1, 2][rng.below(6)] {
        v.push(T::Un(if rng.chance(50) { "-" } else { "!" }));
    }
    if depth > 0 && rng.chance(25) {
        v.push(T::Paren(random(rng, depth - 1)));
    } else if rng.chance(20) {
        v.push(T::Atom(format!("{}", 1 + rng.below(9))));
    } else {
        v.push(T::Atom(name.into()));
    }
    if !matches!(v.last(), Some(T::Atom(a)) if a.as_bytes()[0].is_ascii_digit()) {
        for _ in 0..[0, 0, 0, 1, 1, 2][rng.below(6)] {
            v.push(T::Post(rng.pick(&["()", "(x)", "(x, y)", ".m", ".0", "[i]", "[3]"]).to_string()));
        }
    }
    for _ in 0..[0, 0, 0, 1, 2][rng.below(5)] {
        v.push(T::As(["felt", "u32", "T"][rng.below(3)]));
    }
    v
}
fn random(rng: &mut Rng, depth: usize) -> Vec<T> {
    let n = 1 + rng.below(5);
    let mut v = vec![];
    for k in 0..n {
        if k > 0 {
            v.push(T::Bin(BIN[rng.below(16)]));
        }
        v.extend(operand(rng, ["a", "b", "c", "d", "e"][k], depth));
    }
    v
}

pub fn run(r: &mut Report) {
    let at = |s: &str| T::Atom(s.into());
    let mut es: Vec<(&'static str, Vec<T>)> = vec![];
    for o in BIN {
        for p in BIN {
            es.push(("prec/pairs", vec![at("a"), T::Bin(o), at("b"), T::Bin(p), at("c")]));
            es.push(("prec/parentheses", vec![T::Paren(vec![at("a"), T::Bin(o), at("b")]), T::Bin(p), at("c")]));
            es.push(("prec/parentheses", vec![at("a"), T::Bin(o), T::Paren(vec![at("b"), T::Bin(p), at("c")])]));
            for q in BIN {
                es.push(("prec/triples", vec![at("a"), T::Bin(o), at("b"), T::Bin(p), at("c"), T::Bin(q), at("d")]));
            }
        }
        for u in ["-", "!"] {
            es.push(("prec/unary", vec![T::Un(u), at("a"), T::Bin(o), T::Un(u), at("b")]));
            es.push(("prec/unary", vec![T::Un("!"), T::Un(u), at("a"), T::Bin(o), at("b")]));
            es.push(("prec/unary_postfix", vec![T::Un(u), at("a"), T::Post(".m".into()), T::Post("(x)".into()), T::Bin(o), at("b"), T::Post("[i]".into()), T::Post(".0".into())]));
            es.push(("prec/cast_unary", vec![T::Un(u), at("a"), T::As("felt"), T::Bin(o), at("b"), T::As("u32"), T::As("felt")]));
        }
        es.push(("prec/cast", vec![at("a"), T::Bin(o), at("b"), T::As("felt")]));
        es.push(("prec/cast", vec![at("a"), T::As("u32"), T::Bin(o), at("b")]));
    }
    let mut rng = Rng::new(24);
    for _ in 0..if crate::thorough() { 30_000 } else { 4_000 } {
        es.push(("prec/random", random(&mut rng, 2)));
    }
    let jobs: Vec<(usize, Vec<String>)> = es.chunks(64).enumerate().map(|(i, c)| (i * 64, c.iter().map(|e| print(&e.1)).collect())).collect();
    let out = parallel(jobs, |(b, v)| {
        let db = ParserDatabaseImpl::default();
        let got = parse(&db, &v).map(|g| g.into_iter().map(Some).collect()).unwrap_or_else(|| v.iter().map(|e| parse(&db, &[e.clone()]).map(|mut x| x.remove(0))).collect::<Vec<_>>());
        (b, got)
    });
    for (base, got) in out {
        for (i, g) in got.into_iter().enumerate() {
            let (ob, ts) = &es[base + i];
            let (doc, shared) = (read(ts, true), read(ts, false));
            let src = print(ts);
            let Some(g) = g else {
                r.check("prec/accepted", false, || ("does not parse".into(), src));
                continue;
            };
            if doc == shared {
                r.check(ob, g == doc, || (format!("parsed as {g}, documented reading {doc}"), src));
            } else if g == shared {
                // the recorded finding: || and && share one level
                r.check("prec/and_binds_tighter_than_or", false, || ("|| and && read as one left-associative level".into(), src));
            } else {
                r.check("prec/and_or_mixed", g == doc, || (format!("parsed as {g}, documented reading {doc}"), src));
            }
        }
    }
}

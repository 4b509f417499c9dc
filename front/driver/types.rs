//! C20: operator typing and type compatibility, over every operator and every pair of a family of nested types.
use cairo_m_compiler_diagnostics::DiagnosticSeverity;
use cairo_m_compiler_semantic::type_resolution::are_types_compatible;
use cairo_m_compiler_semantic::{SemanticDatabaseImpl, TypeData, TypeId};

use crate::flow::parallel;
use crate::{analyse_batch, Report};

const PRELUDE: &str = "struct S { a: felt, b: u32 }\nstruct T { a: felt, b: u32 }\n";

fn batch(units: Vec<(String, String, bool)>, r: &mut Report) {
    let chunk = 250;
    let jobs: Vec<(usize, Vec<String>)> = units.chunks(chunk).enumerate().map(|(i, c)| (i * chunk, c.iter().map(|u| u.1.clone()).collect())).collect();
    for (base, res) in parallel(jobs, |(b, u)| (b, analyse_batch(PRELUDE, &u))) {
        for (i, ds) in res.iter().enumerate() {
            let (ob, text, want) = &units[base + i];
            let errs: Vec<String> = ds.iter().filter(|d| d.severity == DiagnosticSeverity::Error).map(|d| d.message.clone()).collect();
            r.check(ob, errs.is_empty() == *want, || {
                (if *want { format!("rejected: {}", errs.join("; ")) } else { "accepted".into() }, format!("{PRELUDE}{text}"))
            });
        }
    }
}

/// The language's operator table: result type on (op, left, right), from docs/getting-started.md section 3.4.
fn binary(op: &str, l: &str, rt: &str) -> Option<&'static str> {
    if l != rt {
        return None;
    }
    match (op, l) {
        ("+" | "-" | "*" | "/", "felt") => Some("felt"),
        ("+" | "-" | "*" | "/" | "%", "u32") => Some("u32"),
        ("&" | "|" | "^", "u32") => Some("u32"),
        ("==" | "!=", "felt" | "u32" | "bool") => Some("bool"),
        ("<" | ">" | "<=" | ">=", "u32") => Some("bool"),
        ("&&" | "||", "bool") => Some("bool"),
        _ => None,
    }
}
fn unary(op: &str, t: &str) -> Option<&'static str> {
    match (op, t) {
        ("-", "felt") => Some("felt"),
        ("-", "u32") => Some("u32"),
        ("!", "bool") => Some("bool"),
        _ => None,
    }
}

const OPS: [&str; 16] = ["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^"];

pub fn run(r: &mut Report) {
    let flat = ["felt", "u32", "bool", "S", "T", "(felt, felt)", "(u32,)", "felt*", "u32*", "[felt; 2]", "[u32; 3]", "()"];
    let results = ["felt", "u32", "bool", "S", "(felt, felt)", "felt*", "[felt; 2]"];
    let mut units: Vec<(String, String, bool)> = vec![];
    let mut n = 0;
    let mut add = |ob: &str, body: &str, want: bool| {
        n += 1;
        units.push((ob.to_string(), body.replace("NAME", &format!("f{n}")), want));
    };
    for op in OPS {
        for l in flat {
            for rt in flat {
                let want = binary(op, l, rt);
                add("types/binary_accepted_exactly", &format!("fn NAME(a: {l}, b: {rt}) {{ let c = a {op} b; return; }}"), want.is_some());
                if let Some(w) = want {
                    for t in results {
                        add("types/binary_result", &format!("fn NAME(a: {l}, b: {rt}) {{ let c: {t} = a {op} b; return; }}"), t == w);
                        add("types/binary_result_returned", &format!("fn NAME(a: {l}, b: {rt}) -> {t} {{ return a {op} b; }}"), t == w);
                        add("types/binary_result_as_argument", &format!("fn gNAME(p: {t}) {{ return; }}"), true);
                    }
                }
            }
        }
    }
    // the operands may themselves be expressions of the type
    for op in OPS {
        for l in ["felt", "u32", "bool"] {
            for rt in ["felt", "u32", "bool"] {
                let want = binary(op, l, rt);
                add("types/binary_on_compound_operands", &format!("fn NAME(a: {l}, b: ({rt}, felt), s: [{l}; 4]) {{ let c = (a) {op} b.0; let d = s[1] {op} (b.0); return; }}"), want.is_some());
                if let Some(w) = want {
                    for op2 in OPS {
                        for t2 in ["felt", "u32", "bool"] {
                            add("types/binary_nested", &format!("fn NAME(a: {l}, b: {rt}, c: {t2}) {{ let d = (a {op} b) {op2} c; return; }}"), binary(op2, w, t2).is_some());
                        }
                    }
                }
            }
        }
    }
    for op in ["-", "!"] {
        for t in flat {
            let want = unary(op, t);
            add("types/unary_accepted_exactly", &format!("fn NAME(a: {t}) {{ let c = {op}a; return; }}"), want.is_some());
            if let Some(w) = want {
                for t2 in results {
                    add("types/unary_result", &format!("fn NAME(a: {t}) -> {t2} {{ return {op}a; }}"), t2 == w);
                }
            }
        }
    }
    // conditions are bool
    for t in flat {
        let b = t == "bool";
        add("types/if_condition", &format!("fn NAME(a: {t}) {{ if a {{ return; }} return; }}"), b);
        add("types/while_condition", &format!("fn NAME(a: {t}) {{ while a {{ return; }} return; }}"), b);
        add("types/for_condition", &format!("fn NAME(a: {t}) {{ for (let i = 0; a; i = i + 1) {{ return; }} return; }}"), b);
    }
    // an unsuffixed literal takes the type of the other operand, never another one
    for op in OPS {
        for t in ["felt", "u32", "bool"] {
            let num = if t == "bool" { None } else { binary(op, t, t) };
            add("types/literal_operand", &format!("fn NAME(a: {t}) {{ let c = a {op} 1; return; }}"), num.is_some());
            for (suf, st) in [("u32", "u32"), ("felt", "felt")] {
                add("types/suffixed_literal_operand", &format!("fn NAME(a: {t}) {{ let c = a {op} 1{suf}; return; }}"), binary(op, t, st).is_some());
                add("types/suffixed_literal_operand", &format!("fn NAME(a: {t}) {{ let c = 1{suf} {op} a; return; }}"), binary(op, st, t).is_some());
            }
        }
    }
    // values flow only between equal types: assignments, arguments, returns, fields, elements
    let mut tys: Vec<String> = flat.iter().map(|s| s.to_string()).collect();
    for t in ["(felt, u32)", "(u32, felt)", "(felt, felt, felt)", "(felt, (u32, bool))", "(felt, (u32, felt))", "((felt, u32), bool)", "[bool; 2]", "[felt; 3]", "(S, felt)",
              "(T, felt)", "[S; 2]", "[T; 2]", "S*", "T*", "felt**", "(felt*, u32)", "((felt,),)", "(felt,)", "[u32; 2]"] {
        tys.push(t.to_string());
    }
    let plain = |t: &str| !t.contains('[');
    for (i, a) in tys.iter().enumerate() {
        for (j, b) in tys.iter().enumerate() {
            let same = i == j;
            if plain(a) && plain(b) {
                add("types/let_compatible_iff_equal", &format!("fn NAME(a: {a}) {{ let c: {b} = a; return; }}"), same);
                add("types/assign_compatible_iff_equal", &format!("fn NAME(a: {a}, b: {b}) {{ b = a; return; }}"), same);
                add("types/return_compatible_iff_equal", &format!("fn NAME(a: {a}) -> {b} {{ return a; }}"), same);
                add("types/tuple_component", &format!("fn NAME(a: {a}) {{ let c: (felt, {b}) = (1, a); return; }}"), same);
            } else {
                add("types/array_let_compatible_iff_equal", &format!("fn NAME(a: {a}) {{ let c: {b} = a; return; }}"), same);
            }
        }
    }
    for (i, a) in tys.iter().enumerate() {
        for (j, b) in tys.iter().enumerate() {
            n_call(&mut units, i, j, a, b);
        }
    }
    // what a return statement may hold is decided by its own function
    for (i, a) in ["felt", "u32"].iter().enumerate() {
        for (j, b) in ["felt", "u32"].iter().enumerate() {
            let k = units.len();
            units.push(("types/return_literal_typed_by_own_function".into(), format!("fn p{k}() -> {a} {{ return 1; }}"), true));
            units.push(("types/return_literal_typed_by_own_function".into(), format!("fn q{k}() -> {b} {{ return 1; }}"), true));
            units.push(("types/return_literal_typed_by_own_function".into(), format!("fn r{k}(x: {b}) -> {b} {{ return x + 1; }}"), true));
            units.push(("types/return_literal_typed_by_own_function".into(), format!("fn s{k}(x: {b}) -> {b} {{ return 1 + x; }}"), true));
            units.push(("types/return_suffixed_literal".into(), format!("fn t{k}() -> {b} {{ return 1{a}; }}"), i == j));
        }
    }
    batch(units, r);

    // the relation itself
    let db = SemanticDatabaseImpl::default();
    let mut ids: Vec<TypeId> = vec![];
    for d in [TypeData::Felt, TypeData::Bool, TypeData::U32, TypeData::Error, TypeData::Unknown, TypeData::Tuple(vec![])] {
        ids.push(TypeId::new(&db, d));
    }
    for depth in 0..2 {
        let base = ids.clone();
        let lim = if depth == 0 { base.len() } else { 24 };
        for &a in base.iter().take(lim) {
            ids.push(TypeId::new(&db, TypeData::Pointer { element_type: a }));
            ids.push(TypeId::new(&db, TypeData::Tuple(vec![a])));
            for s in [0usize, 1, 2] {
                ids.push(TypeId::new(&db, TypeData::FixedArray { element_type: a, size: s }));
            }
            for &b in base.iter().take(if depth == 0 { lim } else { 8 }) {
                ids.push(TypeId::new(&db, TypeData::Tuple(vec![a, b])));
            }
        }
        let mut seen = std::collections::HashSet::new();
        ids.retain(|i| seen.insert(*i));
    }
    fn spec(db: &SemanticDatabaseImpl, a: TypeId, b: TypeId) -> bool {
        match (a.data(db), b.data(db)) {
            (TypeData::Error | TypeData::Unknown, _) | (_, TypeData::Error | TypeData::Unknown) => true,
            (TypeData::Felt, TypeData::Felt) | (TypeData::Bool, TypeData::Bool) | (TypeData::U32, TypeData::U32) => true,
            (TypeData::Tuple(x), TypeData::Tuple(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| spec(db, *p, *q)),
            (TypeData::Pointer { element_type: p }, TypeData::Pointer { element_type: q }) => spec(db, p, q),
            (TypeData::FixedArray { element_type: p, size: m }, TypeData::FixedArray { element_type: q, size: k }) => m == k && spec(db, p, q),
            _ => false,
        }
    }
    for &a in &ids {
        for &b in &ids {
            let got = are_types_compatible(&db, a, b);
            r.check("types/compatibility_relation", got == spec(&db, a, b), || {
                (format!("are_types_compatible = {got}"), format!("{} vs {}", TypeId::format_type(&db, a), TypeId::format_type(&db, b)))
            });
        }
    }
}

fn n_call(units: &mut Vec<(String, String, bool)>, i: usize, j: usize, a: &str, b: &str) {
    let k = units.len();
    let arr = a.contains('[') || b.contains('[');
    if arr {
        return;
    }
    units.push((
        "types/argument_compatible_iff_equal".into(),
        format!("fn c{k}(p: {b}) {{ return; }} fn d{k}(a: {a}) {{ c{k}(a); return; }}"),
        i == j,
    ));
}

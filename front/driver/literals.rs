//! C18: range checks of literals that initialise variables and constants.
use cairo_m_compiler_diagnostics::DiagnosticSeverity;

use crate::{analyse_batch, Report, Rng};

const FELT_MAX: u64 = (1 << 31) - 1;
const U32_MAX: u64 = u32::MAX as u64;

pub fn run(r: &mut Report) {
    let mut vals: Vec<u64> = vec![0, 1, 2, 9, 10, u64::MAX, u64::MAX - 1];
    for k in [8u32, 16, 30, 31, 32, 33, 40, 47, 53, 62, 63] {
        for d in [-2i128, -1, 0, 1, 2] {
            vals.push(((1i128 << k) + d) as u64);
        }
    }
    for m in 1..6u64 {
        for d in [0u64, 1, 2] {
            vals.push(m * FELT_MAX + d);
            vals.push((m << 32) + d);
        }
    }
    let mut rng = Rng::new(18);
    for _ in 0..if crate::thorough() { 3000 } else { 150 } {
        let v = rng.next();
        vals.push(v >> rng.below(64));
    }
    let mut units = vec![];
    let mut exp: Vec<(&'static str, bool, String)> = vec![];
    let mut n = 0usize;
    let mut add = |units: &mut Vec<String>, ob: &'static str, ok: bool, decl: &str, top: bool| {
        n += 1;
        let u = if top {
            decl.replace("NAME", &format!("C{n}"))
        } else {
            format!("fn f{n}() {{ {} return; }}", decl.replace("NAME", "v"))
        };
        exp.push((ob, ok, u.clone()));
        units.push(u);
    };
    for &v in &vals {
        let felt = v <= FELT_MAX;
        let u32_ = v <= U32_MAX;
        let spellings = [format!("{v}"), format!("0x{v:x}"), format!("0b{v:b}"), format!("0o{v:o}")];
        for (i, s) in spellings.iter().enumerate() {
            add(&mut units, "literal/let_felt", felt, &format!("let NAME: felt = {s};"), false);
            add(&mut units, "literal/let_u32", u32_, &format!("let NAME: u32 = {s};"), false);
            add(&mut units, "literal/let_inferred_felt", felt, &format!("let NAME = {s};"), false);
            if i > 0 {
                continue;
            }
            add(&mut units, "literal/let_inferred_u32", u32_, &format!("let NAME = {s}u32;"), false);
            add(&mut units, "literal/let_inferred_felt_suffix", felt, &format!("let NAME = {s}felt;"), false);
            add(&mut units, "literal/let_u32_suffix", u32_, &format!("let NAME: u32 = {s}u32;"), false);
            add(&mut units, "literal/let_felt_suffix", felt, &format!("let NAME: felt = {s}felt;"), false);
            add(&mut units, "literal/const_local", felt, &format!("const NAME = {s};"), false);
            add(&mut units, "literal/const_local_u32_suffix", u32_, &format!("const NAME = {s}u32;"), false);
            add(&mut units, "literal/const_top", felt, &format!("const NAME = {s};"), true);
            add(&mut units, "literal/const_top_u32_suffix", u32_, &format!("const NAME = {s}u32;"), true);
            add(&mut units, "literal/const_typed_felt", felt, &format!("const NAME: felt = {s};"), true);
            add(&mut units, "literal/const_typed_u32", u32_, &format!("const NAME: u32 = {s};"), true);
            add(&mut units, "literal/const_typed_felt_local", felt, &format!("const NAME: felt = {s};"), false);
            add(&mut units, "literal/const_typed_u32_local", u32_, &format!("const NAME: u32 = {s};"), false);
            add(&mut units, "literal/nested_let", felt, &format!("if true {{ let NAME: felt = {s}; let w = NAME; }}"), false);
            add(&mut units, "literal/loop_let", u32_, &format!("while true {{ let NAME: u32 = {s}; let w = NAME; }}"), false);
        }
    }
    for v in [0u64, 1, 2, 42, FELT_MAX - 1, FELT_MAX, U32_MAX] {
        add(&mut units, "literal/negated_felt", false, &format!("let NAME: felt = -{v};"), false);
        add(&mut units, "literal/negated_u32", false, &format!("let NAME: u32 = -{v};"), false);
        add(&mut units, "literal/negated_u32_suffix", false, &format!("let NAME: u32 = -{v}u32;"), false);
        add(&mut units, "literal/negated_const", false, &format!("const NAME = -{v};"), true);
        add(&mut units, "literal/negated_const_u32", false, &format!("const NAME: u32 = -{v};"), true);
    }
    // expressions that are not literals are left to the type checker
    for d in ["let a: felt = 3; let NAME: felt = a;", "let a: felt = 3; let NAME = a + 1;", "let NAME: felt = 3 + 4;", "let NAME: u32 = 3u32 * 4u32;",
              "let a: felt = 3; let NAME = -a;", "let NAME: bool = true;", "let NAME: (felt, u32) = (1, 2u32);", "let NAME: [felt; 2] = [1, 2];"] {
        add(&mut units, "literal/other_expressions_accepted", true, d, false);
    }
    let chunk = 400;
    let jobs: Vec<(usize, Vec<String>)> = units.chunks(chunk).enumerate().map(|(i, c)| (i * chunk, c.to_vec())).collect();
    for (base, out) in crate::flow::parallel(jobs, |(b, u)| (b, analyse_batch("", &u))) {
        for (i, ds) in out.iter().enumerate() {
            let (ob, want, text) = &exp[base + i];
            let errs: Vec<String> = ds.iter().filter(|d| d.severity == DiagnosticSeverity::Error).map(|d| d.message.clone()).collect();
            r.check(ob, errs.is_empty() == *want, || {
                (if *want { format!("rejected: {}", errs.join("; ")) } else { "accepted".into() }, text.clone())
            });
        }
    }
}

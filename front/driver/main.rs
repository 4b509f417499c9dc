//! Run-time contract batteries over the real front-end crates.
//! Output protocol: `OBLIGATION <name> <cases>`, `FAIL <name> :: <what> :: <input>`, `DONE`.
#![allow(dead_code)]
mod docs;
mod flow;
mod fmt;
mod graph;
mod incr;
mod lex;
mod literals;
mod prec;
mod types;

use std::collections::{BTreeMap, HashMap};

use cairo_m_compiler_diagnostics::{Diagnostic, DiagnosticSeverity};
use cairo_m_compiler_semantic::db::project_validate_semantics;
use cairo_m_compiler_semantic::{Crate, File, SemanticDatabaseImpl};

#[derive(Default)]
pub struct Report {
    cases: BTreeMap<String, u64>,
    shown: BTreeMap<String, u32>,
}

impl Report {
    /// One instance of obligation `name`; `what`/`input` are evaluated only when it fails.
    pub fn check(&mut self, name: &str, ok: bool, detail: impl FnOnce() -> (String, String)) -> bool {
        *self.cases.entry(name.to_string()).or_default() += 1;
        if !ok {
            let n = self.shown.entry(name.to_string()).or_default();
            *n += 1;
            if *n <= 40 {
                let (what, input) = detail();
                println!("FAIL {name} :: {} :: {}", one_line(&what), one_line(&input));
            }
        }
        ok
    }
    fn done(&self) {
        for (k, v) in &self.cases {
            println!("OBLIGATION {k} {v}");
        }
        println!("DONE");
    }
}

pub fn one_line(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace(" :: ", " ∷ ")
}

/// splitmix64, seeded by VERIF_SEED
pub struct Rng(pub u64);
impl Rng {
    pub fn new(salt: u64) -> Self {
        let s = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, pct: usize) -> bool {
        self.below(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_DEPTH").map(|v| v == "thorough").unwrap_or(false)
}

/// Analyse one single-module crate from scratch.
pub fn analyse(text: &str) -> Vec<Diagnostic> {
    analyse_crate(&[("main", text)])
}

pub fn make_crate(db: &SemanticDatabaseImpl, files: &[(&str, &str)]) -> Crate {
    let mut modules = HashMap::new();
    for (n, t) in files {
        modules.insert(n.to_string(), File::new(db, t.to_string(), format!("{n}.cm")));
    }
    Crate::new(db, modules, files[0].0.to_string(), std::path::PathBuf::from("/x"), "x".to_string())
}

thread_local!(static CURRENT: std::cell::RefCell<String> = Default::default());
/// Note what is being given to the real code, for the report if it panics.
pub fn current(s: &str) {
    CURRENT.with(|c| *c.borrow_mut() = s.to_string());
}

pub fn analyse_crate(files: &[(&str, &str)]) -> Vec<Diagnostic> {
    current(&files.iter().map(|(n, t)| format!("// file {n}\n{t}")).collect::<Vec<_>>().join("\n"));
    let db = SemanticDatabaseImpl::default();
    let c = make_crate(&db, files);
    project_validate_semantics(&db, c).all().to_vec()
}

pub fn errors(d: &[Diagnostic]) -> Vec<&Diagnostic> {
    d.iter().filter(|d| d.severity == DiagnosticSeverity::Error).collect()
}

/// Many independent functions analysed as one file: returns each function's diagnostics (by span).
/// `units` are the texts of whole top-level items, `prelude` goes first.
pub fn analyse_batch(prelude: &str, units: &[String]) -> Vec<Vec<Diagnostic>> {
    let mut text = String::from(prelude);
    let mut starts = vec![];
    for u in units {
        text.push('\n');
        starts.push(text.len());
        text.push_str(u);
    }
    let ds = analyse(&text);
    let mut out = vec![vec![]; units.len()];
    for mut d in ds {
        let i = match starts.binary_search(&d.span.start) {
            Ok(i) => i,
            Err(0) => panic!("diagnostic in the prelude: {d:?}"),
            Err(i) => i - 1,
        };
        let s = starts[i];
        d.span = (d.span.start - s..d.span.end.saturating_sub(s)).into();
        out[i].push(d);
    }
    out
}

fn main() {
    let arg = std::env::args().nth(1).unwrap_or_default();
    let battery = arg.clone();
    std::panic::set_hook(Box::new(move |i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        eprintln!("{i}");
        // a panic of this driver is not a verdict on the code
        if !at.starts_with("src/") {
            let what = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            println!("FAIL {battery}/no_panic :: panic at {at}: {} :: {}", one_line(&what), CURRENT.with(|c| one_line(&c.borrow())));
        }
    }));
    let mut r = Report::default();
    let run = move || {
        match arg.as_str() {
            "lex" => lex::run(&mut r),
            "literals" => literals::run(&mut r),
            "flow" => flow::run(&mut r),
            "types" => types::run(&mut r),
            "graph" => graph::run(&mut r),
            "docs" => docs::run(&mut r),
            "fmt" => fmt::run(&mut r),
            "prec" => prec::run(&mut r),
            "incr" => incr::run(&mut r),
            _ => panic!("unknown battery"),
        }
        r.done();
    };
    std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap().join().unwrap();
}

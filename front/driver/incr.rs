//! C27: after every prefix of an edit history, incremental diagnostics equal those of a fresh analysis.
use std::collections::{BTreeMap, HashMap};

use cairo_m_compiler_diagnostics::Diagnostic;
use cairo_m_compiler_semantic::db::{module_all_diagnostics, project_validate_semantics};
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
use cairo_m_compiler_semantic::{Crate, File, SemanticDatabaseImpl};
use salsa::Setter;

use crate::flow::parallel;
use crate::{Report, Rng};

const NAMES: [&str; 4] = ["main", "aa", "bb", "cc"];

fn text(rng: &mut Rng, me: &str) -> String {
    let mut s = String::new();
    for n in NAMES {
        if n != me && rng.chance(25) {
            s += &match rng.below(3) {
                0 => format!("use {n}::f0;\n"),
                1 => format!("use {n}::{{f1, S}};\n"),
                _ => format!("use {n}::missing;\n"),
            };
        }
    }
    if rng.chance(30) {
        s += "struct S { x: felt, y: u32 }\n";
    }
    if rng.chance(30) {
        s += *rng.pick(&["const K = 3;\n", "const K: u32 = 3;\n"]);
    }
    for i in 0..rng.below(4) {
        let body = *rng.pick(&[
            "return;",
            "let x = 1;",
            "return 1;",
            "let x: u32 = 1; return x;",
            "return f0();",
            "return f1(1);",
            "let s = S { x: 1, y: 2 }; return s.x;",
            "return K;",
            "return undefined_name;",
            "let y = true; if y { return 1; } return 2;",
            "loop { break; }",
            "while true { continue; }",
            "break;",
            "let z: bool = 3;",
        ]);
        let sig = *rng.pick(&["()", "() -> felt", "() -> u32", "(a: felt) -> felt"]);
        s += &format!("fn f{}{sig} {{ {body} }}\n", if rng.chance(80) { i } else { 0 });
    }
    if rng.chance(6) {
        s += *rng.pick(&["fn broken( {\n", "}\n", "let\n"]);
    }
    s
}

fn sorted(d: &[Diagnostic]) -> Vec<String> {
    let mut v: Vec<String> = d.iter().map(|d| format!("{d:?}")).collect();
    v.sort();
    v
}

fn fresh(state: &BTreeMap<String, String>) -> (SemanticDatabaseImpl, Crate) {
    let db = SemanticDatabaseImpl::default();
    let m: HashMap<String, File> = state.iter().map(|(n, t)| (n.clone(), File::new(&db, t.clone(), format!("{n}.cm")))).collect();
    let c = Crate::new(&db, m, "main".into(), "/x".into(), "x".into());
    (db, c)
}

fn diff(a: &[String], b: &[String]) -> String {
    let x: Vec<&String> = a.iter().filter(|d| !b.contains(d)).take(1).collect();
    let y: Vec<&String> = b.iter().filter(|d| !a.contains(d)).take(1).collect();
    format!("{} diagnostics reported, {} by a fresh analysis; only incremental: {x:?}; only fresh: {y:?}", a.len(), b.len())
}

pub fn run(r: &mut Report) {
    let n = if crate::thorough() { 1200 } else { 160 };
    let res = parallel((0..n).collect(), |k: usize| {
        let mut rng = Rng::new(0x27 + k as u64 * 104729);
        let mut out: Vec<(&'static str, bool, String, String)> = vec![];
        let mut db = SemanticDatabaseImpl::default();
        let mut log = String::new();
        let mut files: HashMap<String, File> = HashMap::new();
        let mut state: BTreeMap<String, String> = BTreeMap::new();
        for n in NAMES {
            if n == "main" || rng.chance(60) {
                let t = text(&mut rng, n);
                files.insert(n.into(), File::new(&db, t.clone(), format!("{n}.cm")));
                log += &format!("start {n}: {t}");
                state.insert(n.into(), t);
            }
        }
        let c = Crate::new(&db, files.clone(), "main".into(), "/x".into(), "x".into());
        // a second project of the same session, never edited
        let t2 = "fn other() -> felt { return nowhere; }\n";
        let f2 = File::new(&db, t2.to_string(), "main.cm".into());
        let c2 = Crate::new(&db, HashMap::from([("main".to_string(), f2)]), "main".into(), "/y".into(), "y".into());
        let mut tracker = DeltaDiagnosticsTracker::new();
        let steps = 4 + rng.below(5);
        for step in 0..=steps {
            if step > 0 {
                // an edit; now and then two of them without asking in between
                for _ in 0..1 + rng.below(2) {
                    match rng.below(10) {
                        0 | 1 => {
                            let n = NAMES[1 + rng.below(3)];
                            if files.remove(n).is_some() {
                                state.remove(n);
                                log += &format!("remove {n}\n");
                            } else {
                                let t = text(&mut rng, n);
                                files.insert(n.into(), File::new(&db, t.clone(), format!("{n}.cm")));
                                log += &format!("add {n}: {t}");
                                state.insert(n.into(), t);
                            }
                            c.set_modules(&mut db).to(files.clone());
                        }
                        2 => {
                            // rename: the same file under another name
                            let (a, b) = (NAMES[1 + rng.below(3)], NAMES[1 + rng.below(3)]);
                            if a != b && files.contains_key(a) && !files.contains_key(b) {
                                let f = files.remove(a).unwrap();
                                f.set_file_path(&mut db).to(format!("{b}.cm"));
                                files.insert(b.into(), f);
                                let t = state.remove(a).unwrap();
                                state.insert(b.into(), t);
                                log += &format!("rename {a} to {b}\n");
                                c.set_modules(&mut db).to(files.clone());
                            }
                        }
                        _ => {
                            let names: Vec<&String> = state.keys().collect();
                            let n = (*rng.pick(&names)).clone();
                            let t = if rng.chance(20) {
                                // small edit: a blank line in front moves every span
                                format!("\n{}", state[&n])
                            } else {
                                text(&mut rng, &n)
                            };
                            log += &format!("edit {n}: {t}");
                            files[&n].set_text(&mut db).to(t.clone());
                            state.insert(n, t);
                        }
                    }
                }
            }
            crate::current(&log);
            let (fdb, fc) = fresh(&state);
            let whole = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sorted(DeltaDiagnosticsTracker::new().get_project_diagnostics(&fdb, fc).all())));
            out.push(("incremental/analysis_terminates", whole.is_ok(), "the analysis of this project unwinds".into(), log.clone()));
            let Ok(want) = whole else { return out };
            for ask in 0..=rng.below(2) {
                log += &format!("ask ({ask})\n");
                let got = sorted(tracker.get_project_diagnostics(&db, c).all());
                out.push(("incremental/tracker_agrees_with_fresh", got == want, diff(&got, &want), log.clone()));
            }
            let got = sorted(project_validate_semantics(&db, c).all());
            let want = sorted(project_validate_semantics(&fdb, fc).all());
            out.push(("incremental/project_agrees_with_fresh", got == want, diff(&got, &want), log.clone()));
            for n in state.keys() {
                let got = sorted(module_all_diagnostics(&db, c, n.clone()).all());
                let want = sorted(module_all_diagnostics(&fdb, fc, n.clone()).all());
                out.push(("incremental/module_agrees_with_fresh", got == want, format!("module {n}: {}", diff(&got, &want)), log.clone()));
            }
            if rng.chance(15) {
                log += "ask for the second project\n";
                let (gdb, gc) = fresh(&BTreeMap::from([("main".to_string(), t2.to_string())]));
                let want = sorted(DeltaDiagnosticsTracker::new().get_project_diagnostics(&gdb, gc).all());
                let got = sorted(tracker.get_project_diagnostics(&db, c2).all());
                out.push(("incremental/projects_do_not_mix", got == want, diff(&got, &want), log.clone()));
            }
        }
        out
    });
    for v in res {
        for (ob, ok, what, input) in v {
            r.check(ob, ok, || (what, input));
        }
    }
}

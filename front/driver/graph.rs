//! C21: import cycles and the module index, over every import graph on up to four modules and random larger ones.
use std::collections::BTreeSet;

use cairo_m_compiler_semantic::db::{project_import_graph, project_semantic_index};
use cairo_m_compiler_semantic::SemanticDatabaseImpl;

use crate::flow::parallel;
use crate::{make_crate, Report, Rng};

type G = Vec<Vec<usize>>;

fn cyclic(g: &G) -> bool {
    // repeatedly delete modules that import nothing left
    let mut left: BTreeSet<usize> = (0..g.len()).collect();
    loop {
        let gone: Vec<usize> = left.iter().copied().filter(|&i| g[i].iter().all(|j| !left.contains(j))).collect();
        if gone.is_empty() {
            return !left.is_empty();
        }
        for i in gone {
            left.remove(&i);
        }
    }
}

fn name(i: usize) -> String {
    // names whose alphabetical order differs from their index order
    format!("{}{i}", ["q", "b", "z", "a", "m", "c"][i % 6])
}

fn sources(g: &G, style: usize) -> Vec<(String, String)> {
    (0..g.len())
        .map(|i| {
            let mut t = String::new();
            for (k, &j) in g[i].iter().enumerate() {
                let m = name(j);
                if (style / 3) % 5 == k % 5 && style % 2 == 1 {
                    // an import that leads nowhere is reported elsewhere; it neither makes nor hides a cycle
                    t += &format!("use nowhere{k}::f;\n");
                }
                match (style + k) % 3 {
                    0 => t += &format!("use {m}::f{j};\n"),
                    1 => t += &format!("use {m}::{{f{j}}};\n"),
                    _ => t += &format!("use {m}::{{f{j}, g{j}}};\n"),
                }
            }
            if style % 7 == 3 && i % 2 == 0 {
                t += "use nowhere::f;\n";
            }
            t += &format!("fn f{i}() {{ return; }}\nfn g{i}() -> felt {{ return {i}; }}\n");
            (name(i), t)
        })
        .collect()
}

enum Res {
    Cycle(Vec<String>, String),
    Modules(BTreeSet<String>),
    Other(String),
}

fn eval(g: &G, style: usize) -> Res {
    let db = SemanticDatabaseImpl::default();
    let src = sources(g, style);
    let refs: Vec<(&str, &str)> = src.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let c = make_crate(&db, &refs);
    match project_semantic_index(&db, c) {
        Ok(p) => Res::Modules(p.modules().keys().cloned().collect()),
        Err(d) => {
            let msgs: Vec<String> = d.iter().map(|d| d.message.clone()).collect();
            match msgs.iter().find(|m| m.to_lowercase().contains("cycl")) {
                Some(m) => {
                    let tail = m.splitn(2, ':').nth(1).unwrap_or(m).to_string();
                    let mut path = vec![];
                    for w in tail.split(|c: char| !c.is_alphanumeric() && c != '_') {
                        if !w.is_empty() {
                            path.push(w.to_string());
                        }
                    }
                    Res::Cycle(path, m.clone())
                }
                None => Res::Other(msgs.join("; ")),
            }
        }
    }
}

fn show(g: &G, style: usize) -> String {
    sources(g, style).into_iter().map(|(n, t)| format!("// {n}.cm\n{t}")).collect()
}

pub fn run(r: &mut Report) {
    let mut gs: Vec<G> = vec![];
    for n in 1..=3usize {
        for bits in 0..(1u32 << (n * n)) {
            gs.push((0..n).map(|i| (0..n).filter(|j| bits >> (i * n + j) & 1 == 1).collect()).collect());
        }
    }
    let mut rng = Rng::new(21);
    for bits in 0..(1u32 << 12) {
        if !crate::thorough() && bits % 4 != 0 {
            continue;
        }
        let mut k = 0;
        let mut g: G = vec![vec![]; 4];
        for (i, row) in g.iter_mut().enumerate() {
            for j in 0..4 {
                if i != j {
                    if bits >> k & 1 == 1 {
                        row.push(j);
                    }
                    k += 1;
                }
            }
        }
        gs.push(g);
    }
    for _ in 0..if crate::thorough() { 4000 } else { 600 } {
        let n = 4 + rng.below(8);
        let edges = rng.below(2 * n);
        let mut g: G = vec![vec![]; n];
        let dag = rng.chance(50);
        for _ in 0..edges {
            let (mut a, mut b) = (rng.below(n), rng.below(n));
            if dag && a == b {
                continue;
            }
            if dag && a < b {
                std::mem::swap(&mut a, &mut b);
            }
            g[a].push(b);
        }
        if !dag && rng.chance(50) {
            // one long cycle behind a tail
            let k = 2 + rng.below(n - 1);
            for i in 0..k {
                g[n - 1 - i].push(if i + 1 < k { n - 2 - i } else { n - 1 });
            }
        }
        gs.push(g);
    }
    let jobs: Vec<(usize, Vec<G>)> = gs.chunks(64).enumerate().map(|(i, c)| (i * 64, c.to_vec())).collect();
    for (base, c) in parallel(jobs, |(b, c)| (b, c.into_iter().enumerate().map(|(i, g)| (eval(&g, b + i), g)).collect::<Vec<_>>())) {
        for (i, (res, g)) in c.into_iter().enumerate() {
            let style = base + i;
            let cyc = cyclic(&g);
            match res {
                Res::Cycle(mut p, m) => {
                    if !r.check("imports/no_false_cycle", cyc, || (format!("reported '{m}' on an acyclic project"), show(&g, style))) {
                        continue;
                    }
                    if p.first() == p.last() && p.len() > 1 {
                        p.pop();
                    }
                    let idx: Vec<Option<usize>> = p.iter().map(|n| (0..g.len()).find(|&i| &name(i) == n)).collect();
                    let ok = !p.is_empty() && idx.iter().all(|x| x.is_some()) && (0..p.len()).all(|k| g[idx[k].unwrap()].contains(&idx[(k + 1) % p.len()].unwrap()));
                    r.check("imports/reported_path_is_a_cycle", ok, || (format!("'{m}' is not a cycle of the imports"), show(&g, style)));
                }
                Res::Modules(ms) => {
                    r.check("imports/cycle_found", !cyc, || ("a cyclic project was accepted".into(), show(&g, style)));
                    let want: BTreeSet<String> = (0..g.len()).map(name).collect();
                    r.check("imports/every_module_indexed", cyc || ms == want, || (format!("indexed {ms:?}"), show(&g, style)));
                }
                Res::Other(m) => {
                    r.check("imports/acyclic_project_indexed", false, || (format!("failed: {m}"), show(&g, style)));
                }
            }
        }
    }
    // the import graph is read off the use items
    for (k, g) in gs.iter().enumerate().step_by(37) {
        let db = SemanticDatabaseImpl::default();
        let src = sources(g, k);
        let refs: Vec<(&str, &str)> = src.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let c = make_crate(&db, &refs);
        let got = project_import_graph(&db, c);
        let ok = got.len() == g.len()
            && (0..g.len()).all(|i| {
                let a: BTreeSet<String> = got.get(&name(i)).map(|v| v.iter().filter(|m| !m.starts_with("nowhere")).cloned().collect()).unwrap_or_default();
                let b: BTreeSet<String> = g[i].iter().map(|&j| name(j)).collect();
                a == b
            });
        r.check("imports/graph_read_from_uses", ok, || (format!("graph {got:?}"), show(g, k)));
    }
    #[cfg(verif_private)]
    private(r, &gs);
}

/// The processing order, when the crate still exposes its sorting function under the injected module.
#[cfg(verif_private)]
fn private(r: &mut Report, gs: &[G]) {
    use std::collections::HashMap;
    for (k, g) in gs.iter().enumerate() {
        let m: HashMap<String, Vec<String>> = (0..g.len()).map(|i| (name(i), g[i].iter().map(|&j| name(j)).collect())).collect();
        let mut odd = m.clone();
        for i in 0..g.len() {
            if (k + i) % 3 == 0 {
                let v = odd.get_mut(&name(i)).unwrap();
                v.insert((k / 3) % (v.len() + 1), format!("nowhere{}", k % 2));
            }
        }
        if let Some(mut p) = extracted::detect_import_cycle(&odd) {
            if p.first() == p.last() && p.len() > 1 {
                p.pop();
            }
            let ok = !p.is_empty() && (0..p.len()).all(|i| odd.get(&p[i]).is_some_and(|v| v.contains(&p[(i + 1) % p.len()])));
            r.check("imports/detected_path_is_a_cycle", ok, || (format!("detect_import_cycle = {p:?}"), format!("{odd:?}")));
        }
        let cyc = cyclic(g);
        let path = extracted::detect_import_cycle(&m);
        r.check("imports/detect_import_cycle", path.is_some() == cyc, || (format!("detect_import_cycle = {path:?}"), format!("{m:?}")));
        if cyc {
            continue;
        }
        let o = extracted::topological_sort(&m);
        let pos: HashMap<&String, usize> = o.iter().enumerate().map(|(i, n)| (n, i)).collect();
        let ok = o.len() == m.len() && pos.len() == m.len() && m.iter().all(|(a, d)| d.iter().all(|b| pos.get(b) < pos.get(a)));
        r.check("imports/dependencies_first", ok, || (format!("order {o:?}"), format!("{m:?}")));
    }
}

#[cfg(verif_private)]
mod extracted {
    #![allow(unused_imports)]
    use std::collections::hash_map::Entry;
    use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
    include!("graph_extracted.rs");
}

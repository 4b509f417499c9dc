use cairo_m_compiler::{compile_cairo, CompilerOptions};
fn main() {
    let t = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for o in [CompilerOptions::no_opts(), CompilerOptions::default()] {
        let p = match compile_cairo(t.clone(), "x.cm".into(), o) { Ok(p) => p, Err(e) => { println!("{e:?}"); continue } };
        println!("{:?}", p.program.entrypoints.keys());
        for (i, d) in p.program.data.iter().enumerate() { println!("{i} {d:?}"); }
    }
}

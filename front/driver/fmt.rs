//! C23: formatting keeps the program and its comments, and is idempotent.
use cairo_m_compiler_parser::{parse_file, ParserDatabaseImpl, SourceFile};
use cairo_m_formatter::{format_source_file, FormatterConfig};

use crate::flow::parallel;
use crate::{Report, Rng};

enum St {
    Line(String),
    /// header up to and including `{`, body, what follows the closing brace (`else` chains), in order
    Nest(Vec<(String, Vec<St>)>),
}
struct Item {
    head: String,
    /// None: the item is the single line `head`
    body: Option<Vec<St>>,
}

struct G<'a> {
    r: &'a mut Rng,
}
impl G<'_> {
    fn id(&mut self) -> String {
        self.r.pick(&["a", "b", "x", "y2", "_z", "foo", "Point"]).to_string()
    }
    fn ty(&mut self, d: usize) -> String {
        match self.r.below(if d == 0 { 4 } else { 10 }) {
            0 => "felt".into(),
            1 => "u32".into(),
            2 => "bool".into(),
            3 => self.r.pick(&["Point", "S"]).to_string(),
            4 => format!("{}*", self.ty(d - 1)),
            5 => format!("[{}; {}]", self.ty(d - 1), self.r.below(20)),
            6 => format!("({}, {})", self.ty(d - 1), self.ty(d - 1)),
            7 => format!("({},)", self.ty(d - 1)),
            8 => format!("({}, {}, {},)", self.ty(d - 1), self.ty(d - 1), self.ty(d - 1)),
            _ => format!("({})", self.ty(d - 1)),
        }
    }
    fn lit(&mut self) -> String {
        self.r.pick(&["0", "7", "42u32", "0x1F", "5felt", "4294967295u32", "2147483646", "0b101"]).to_string()
    }
    fn atom(&mut self, d: usize) -> String {
        match self.r.below(if d == 0 { 4 } else { 13 }) {
            0 | 1 => self.id(),
            2 => self.lit(),
            3 => self.r.pick(&["true", "false"]).to_string(),
            4 => format!("({})", self.expr(d - 1)),
            5 => format!("({}, {})", self.expr(d - 1), self.expr(d - 1)),
            6 => format!("({},)", self.expr(d - 1)),
            7 => format!("[{}, {}]", self.expr(d - 1), self.expr(d - 1)),
            8 => format!("[{}; {}]", self.expr(d - 1), self.r.below(9)),
            9 => self.r.pick(&["()", "[]", "Point {}"]).to_string(),
            10 => format!("S {{ a: {}, x: {} }}", self.expr(d - 1), self.expr(d - 1)),
            11 => format!("new {}[{}]", self.r.pick(&["felt", "Point", "(felt, u32)", "u32*", "(felt,)"]), self.expr(d - 1)),
            _ => self.id(),
        }
    }
    fn post(&mut self, d: usize) -> String {
        let mut s = self.atom(d);
        if s.as_bytes()[0].is_ascii_digit() || s.starts_with("new") {
            return s;
        }
        for _ in 0..[0, 0, 0, 1, 1, 2][self.r.below(6)] {
            s += &match self.r.below(6) {
                0 => "()".into(),
                1 if d > 0 => format!("({})", self.expr(d - 1)),
                2 if d > 0 => format!("({}, {})", self.expr(d - 1), self.expr(d - 1)),
                3 => format!(".{}", self.r.pick(&["a", "len", "x"])),
                4 => format!(".{}", self.r.below(3)),
                _ if d > 0 => format!("[{}]", self.expr(d - 1)),
                _ => "[0]".into(),
            };
        }
        s
    }
    fn operand(&mut self, d: usize) -> String {
        let mut s = String::new();
        for _ in 0..[0, 0, 0, 0, 1, 2][self.r.below(6)] {
            s += ["-", "!"][self.r.below(2)];
        }
        s += &self.post(d);
        if self.r.chance(10) {
            s += &format!(" as {}", self.r.pick(&["felt", "u32", "S"]));
        }
        s
    }
    fn expr(&mut self, d: usize) -> String {
        let d = if self.r.chance(50) { d.min(1) } else { d };
        let mut s = self.operand(d);
        for _ in 0..[0, 0, 0, 1, 1, 3][self.r.below(6)] {
            s += &format!(
                " {} {}",
                self.r.pick(&["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^"]),
                self.operand(d)
            );
        }
        s
    }
    fn pat(&mut self, d: usize) -> String {
        if d > 0 && self.r.chance(25) {
            format!("({}, {})", self.pat(d - 1), self.pat(d - 1))
        } else {
            self.id()
        }
    }
    fn let_(&mut self) -> String {
        let t = if self.r.chance(40) { format!(": {}", self.ty(2)) } else { String::new() };
        format!("let {}{t} = {}", self.pat(2), self.expr(2))
    }
    fn cond(&mut self) -> String {
        match self.r.below(4) {
            // bare conditions: no trailing name (an empty body would make it a struct literal), no leading parenthesis
            0 => format!("{} {} {}", self.id(), self.r.pick(&["==", "<", "&&"]), self.lit()),
            _ => format!("({})", self.expr(2)),
        }
    }
    fn simple(&mut self) -> String {
        match self.r.below(8) {
            0 | 1 => format!("{};", self.let_()),
            2 => format!("{} = {};", self.post(1), self.expr(2)),
            3 => "return;".into(),
            4 => format!("return {};", self.expr(2)),
            5 => format!("{};", self.expr(2)),
            6 => {
                let t = if self.r.chance(60) { format!(": {}", self.ty(1)) } else { String::new() };
                format!("const C{t} = {};", self.expr(1))
            }
            _ => self.r.pick(&["break;", "continue;", "foo(x);"]).to_string(),
        }
    }
    fn stmts(&mut self, d: usize, min: usize) -> Vec<St> {
        let n = min + self.r.below(3);
        (0..n).map(|_| self.stmt(d)).collect()
    }
    fn stmt(&mut self, d: usize) -> St {
        if d == 0 || self.r.chance(55) {
            if self.r.chance(8) {
                // bodies that are not blocks
                return St::Line(match self.r.below(5) {
                    0 => format!("if ({}) {}", self.expr(1), self.simple()),
                    1 => format!("while ({}) {}", self.expr(1), self.simple()),
                    2 => format!("loop {}", self.simple()),
                    3 => format!("if ({}) {} else {}", self.expr(1), self.simple(), self.simple()),
                    _ => format!("for ({}; {}; {}) {}", self.let_(), self.expr(1), self.expr(1), self.simple()),
                });
            }
            return St::Line(self.simple());
        }
        let min = if self.r.chance(20) { 0 } else { 1 };
        let b = self.stmts(d - 1, min);
        match self.r.below(6) {
            0 => {
                let c = self.cond();
                St::Nest(vec![(format!("if {c} {{"), b)])
            }
            1 => {
                let c = self.cond();
                let mut v = vec![(format!("if {c} {{"), b)];
                while self.r.chance(30) {
                    let c = self.cond();
                    v.push((format!("else if {c} {{"), self.stmts(d - 1, 1)));
                }
                v.push(("else {".into(), self.stmts(d - 1, 1)));
                St::Nest(v)
            }
            2 => {
                let c = self.cond();
                St::Nest(vec![(format!("while {c} {{"), b)])
            }
            3 => St::Nest(vec![("loop {".into(), b)]),
            4 => {
                let i = match self.r.below(3) {
                    0 => self.let_(),
                    1 => format!("{} = {}", self.id(), self.expr(1)),
                    _ => self.expr(1),
                };
                let c = self.expr(1);
                let s = if self.r.chance(70) { format!("{} = {}", self.id(), self.expr(1)) } else { self.expr(1) };
                St::Nest(vec![(format!("for ({i}; {c}; {s}) {{"), b)])
            }
            _ => St::Nest(vec![("{".into(), b)]),
        }
    }
    fn item(&mut self, depth: usize) -> Item {
        match self.r.below(9) {
            0 => {
                let t = if self.r.chance(60) { format!(": {}", self.ty(1)) } else { String::new() };
                Item { head: format!("const K{t} = {};", self.expr(1)), body: None }
            }
            1 => Item { head: self.r.pick(&["use m::f;", "use m::{f, g};", "use m::n::{f,};", "use a::b::c::d;", "use std;"]).to_string(), body: None },
            2 => {
                let n = self.r.below(3);
                let f: Vec<String> = (0..n).map(|i| format!("f{i}: {}", self.ty(2))).collect();
                Item { head: format!("struct S {{ {} }}", f.join(", ")), body: None }
            }
            _ => {
                let n = self.r.below(4);
                let f: Vec<String> = (0..n).map(|i| format!("p{i}: {}", self.ty(2))).collect();
                let r = if self.r.chance(60) { format!(" -> {}", self.ty(2)) } else { String::new() };
                Item { head: format!("fn f({}){r} {{", f.join(", ")), body: Some(self.stmts(depth, 0)) }
            }
        }
    }
    fn program(&mut self, depth: usize) -> Vec<Item> {
        let n = 1 + self.r.below(3);
        (0..n).map(|_| self.item(depth)).collect()
    }
}

/// Conventional layout. `put(class, what)` may return a comment for the place.
struct Printer<'a> {
    out: String,
    put: &'a mut dyn FnMut(&str) -> Option<String>,
}
impl Printer<'_> {
    fn own_line(&mut self, class: &str, ind: usize) {
        while let Some(c) = (self.put)(class) {
            self.out += &format!("{}{c}\n", "    ".repeat(ind));
        }
    }
    fn line(&mut self, class: &str, ind: usize, text: &str) {
        self.out += &format!("{}{text}", "    ".repeat(ind));
        if let Some(c) = (self.put)(class) {
            self.out += &format!(" {c}");
        }
        self.out.push('\n');
    }
    fn body(&mut self, b: &[St], ind: usize, place: &str) {
        if b.is_empty() {
            self.own_line(&format!("{place}_empty"), ind);
        }
        for s in b {
            self.own_line(&format!("{place}_before_statement"), ind);
            match s {
                St::Line(t) => self.line(&format!("{place}_after_statement"), ind, t),
                St::Nest(parts) => {
                    for (i, (h, b)) in parts.iter().enumerate() {
                        let h = if i == 0 { h.clone() } else { format!("}} {h}") };
                        self.line("after_block_header", ind, &h);
                        self.body(b, ind + 1, "nested");
                    }
                    self.line(&format!("{place}_after_compound_statement"), ind, "}");
                }
            }
        }
        if !b.is_empty() {
            self.own_line(&format!("{place}_end"), ind);
        }
    }
    fn program(&mut self, p: &[Item]) {
        self.own_line("file_start", 0);
        for (i, it) in p.iter().enumerate() {
            if i > 0 {
                self.out.push('\n');
                self.own_line("before_item", 0);
            }
            match &it.body {
                None => self.line("after_item", 0, &it.head),
                Some(b) => {
                    self.line("after_function_header", 0, &it.head);
                    self.body(b, 1, "body");
                    self.line("after_function", 0, "}");
                }
            }
        }
        self.own_line("file_end", 0);
    }
}

fn print(p: &[Item], put: &mut dyn FnMut(&str) -> Option<String>) -> String {
    let mut pr = Printer { out: String::new(), put };
    pr.program(p);
    pr.out
}

fn tokens(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i].is_whitespace() {
            i += 1;
            continue;
        }
        let j = i;
        if b[i].is_alphanumeric() || b[i] == '_' {
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
        } else {
            let two: String = b[i..(i + 2).min(b.len())].iter().collect();
            i += if ["->", "::", "==", "!=", "<=", ">=", "&&", "||"].contains(&two.as_str()) { 2 } else { 1 };
        }
        v.push(b[j..i].iter().collect());
    }
    v
}

fn relayout(s: &str, r: &mut Rng) -> String {
    let mut out = String::new();
    for t in tokens(s) {
        let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
        let glue = !(word(out.chars().last()) && word(t.chars().next()))
            && (matches!(t.as_str(), "(" | ")" | "[" | "]" | "{" | "}" | ";" | "," | ":") || matches!(out.chars().last(), Some('(' | ')' | '[' | ']' | '{' | '}' | ';' | ',')));
        out += if glue && r.chance(50) { "" } else { *r.pick(&[" ", " ", "  ", "\n", "\n\n", "\t", "\r\n"]) };
        out += &t;
    }
    out
}

fn ast(text: &str) -> Option<String> {
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, text.to_string(), "f.cm".into());
    let p = parse_file(&db, f);
    if !p.diagnostics.is_empty() {
        return None;
    }
    // drop the spans
    let s = format!("{:?}", p.module);
    let b = s.as_bytes();
    let mut out = String::with_capacity(s.len());
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() && (i == 0 || !(b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_')) {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            if b[j..].starts_with(b"..") {
                j += 2;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                i = j;
                continue;
            }
            out += &s[i..j];
            i = j;
            continue;
        }
        out.push(b[i] as char);
        i += 1;
    }
    Some(out)
}

fn format(text: &str, width: usize) -> String {
    crate::current(text);
    let db = ParserDatabaseImpl::default();
    let f = SourceFile::new(&db, text.to_string(), "f.cm".into());
    format_source_file(&db, f, &FormatterConfig { max_width: width, ..Default::default() })
}

/// (obligation, ok, what, input)
type V = Vec<(String, bool, String, String)>;

fn judge(src: &str, width: usize, tag: &str, v: &mut V) -> Option<String> {
    let a = ast(src)?;
    let out = format(src, width);
    let b = ast(&out);
    let show = || format!("width {width}\n{src}\n--- formatted ---\n{out}");
    v.push((format!("fmt/output_parses{tag}"), b.is_some(), "the formatted source does not parse".into(), show()));
    let Some(b) = b else { return None };
    v.push((format!("fmt/same_program{tag}"), a == b, "the formatted source is another program".into(), show()));
    let again = format(&out, width);
    v.push((format!("fmt/idempotent{tag}"), again == out, "formatting twice differs".into(), format!("{}\n--- twice ---\n{again}", show())));
    Some(out)
}

pub fn run(r: &mut Report) {
    let n = if crate::thorough() { 6000 } else { 700 };
    let jobs: Vec<usize> = (0..n).collect();
    let res = parallel(jobs, |k| {
        let mut rng = Rng::new(0xF0 + k as u64 * 7919);
        let mut v: V = vec![];
        let p = G { r: &mut rng }.program(3);
        let plain = print(&p, &mut |_| None);
        v.push(("fmt/generated_program_parses".into(), true, String::new(), String::new()));
        if ast(&plain).is_none() {
            v.push(("unparsed".into(), true, String::new(), plain));
            return v;
        }
        let width = *rng.pick(&[20, 40, 100, 100]);
        judge(&plain, width, "", &mut v);
        let shaken = relayout(&plain, &mut rng);
        judge(&shaken, width, "", &mut v);
        if let (Some(a), Some(b)) = (ast(&plain), ast(&shaken)) {
            if a == b {
                v.push(("fmt/layout_independent".into(), format(&plain, width) == format(&shaken, width), "two layouts of one program format differently".into(), shaken.clone()));
            }
        }
        // one comment at a time, at every place of the program (sampled)
        let mut places = 0;
        print(&p, &mut |_| {
            places += 1;
            None
        });
        let picks: Vec<usize> = if places <= 12 { (0..places).collect() } else { (0..12).map(|_| rng.below(places)).collect() };
        for at in picks {
            let (mut i, mut class, mut used) = (0, String::new(), false);
            let text = rng.pick(&["// note", "//note x = 1; }", "/// docs", "// a // b", "// \"quoted {\"", "//", "// é—ü"]).to_string();
            let mark = format!("{text} @{k}");
            let src = print(&p, &mut |c| {
                let hit = i == at && !used;
                i += 1;
                if hit {
                    used = true;
                    class = c.to_string();
                    Some(mark.clone())
                } else {
                    None
                }
            });
            if !used || ast(&src).is_none() {
                continue;
            }
            let tag = format!("/{class}");
            if let Some(out) = judge(&src, 100, &tag, &mut v) {
                let c = out.matches(&mark).count();
                v.push((format!("fmt/comment_kept{tag}"), c == 1, format!("the comment occurs {c} times in the output"), format!("{src}\n--- formatted ---\n{out}")));
            }
        }
        // several comments at once at the places where single ones are kept
        for pct in [15, 60] {
            let mut marks = vec![];
            let mut last = String::new();
            let src = print(&p, &mut |c| {
                let kept = matches!(c, "before_item" | "body_before_statement" | "nested_before_statement" | "body_after_statement" | "nested_after_statement");
                // at most two on one place
                let again = last == c && marks.len() > 1 && c.ends_with("before_statement");
                last = c.to_string();
                if kept && rng.chance(pct) && !again {
                    marks.push(format!("// m{}x", marks.len()));
                    marks.last().cloned()
                } else {
                    None
                }
            });
            if marks.is_empty() || ast(&src).is_none() {
                continue;
            }
            if let Some(out) = judge(&src, 100, "/several_comments", &mut v) {
                let mut pos = 0;
                let ok = marks.iter().all(|m| match out[pos..].find(m.as_str()) {
                    Some(i) => {
                        pos += i;
                        out.matches(m.as_str()).count() == 1
                    }
                    None => false,
                });
                v.push(("fmt/comments_kept_in_order".into(), ok, "a comment is lost, duplicated or moved past another".into(), format!("{src}\n--- formatted ---\n{out}")));
                // every comment keeps the token that follows it
                let nexts = |t: &str| -> Vec<(String, String)> {
                    marks
                        .iter()
                        .filter_map(|m| {
                            let i = t.find(m.as_str())? + m.len();
                            let rest: String = t[i..].lines().filter(|l| !l.trim_start().starts_with("//")).collect::<Vec<_>>().join("\n");
                            let next = tokens(&rest).into_iter().find(|t| t != "(")?;
                            let next = match next.as_str() {
                                "0x1F" => "31".to_string(),
                                "0b101" => "5".to_string(),
                                _ => next,
                            };
                            Some((m.clone(), next))
                        })
                        .collect()
                };
                v.push(("fmt/comment_stays_with_its_statement".into(), nexts(&src) == nexts(&out), "a comment now stands before something else".into(), format!("{src}\n--- formatted ---\n{out}")));
            }
        }
        // comments between any two tokens, and several of them anywhere
        for round in 0..4 {
            let pct = if round < 2 { 0 } else { 8 };
            let ts = tokens(&plain);
            let at = rng.below(ts.len() + 1);
            let mut marks = vec![];
            let mut src = String::new();
            for i in 0..=ts.len() {
                if i == at || rng.chance(pct) {
                    let m = format!("// c{}x", marks.len());
                    src += &format!("{}{m}{}", rng.pick(&["", "\n", " ", "\n\n"]), rng.pick(&["\n", "\n\n"]));
                    marks.push(m);
                }
                if i < ts.len() {
                    src += &ts[i];
                    src += *rng.pick(&[" ", " ", " ", "\n"]);
                }
            }
            let (tag, name) = if pct == 0 { ("/comment_anywhere", "one") } else { ("/comments_anywhere", "several") };
            if ast(&src).is_none() {
                continue;
            }
            if let Some(out) = judge(&src, 100, tag, &mut v) {
                for m in &marks {
                    let c = out.matches(m.as_str()).count();
                    v.push((format!("fmt/comment_kept/{name}_anywhere"), c == 1, format!("{m} occurs {c} times in the output"), format!("{src}\n--- formatted ---\n{out}")));
                }
            }
        }
        // comments of unusual text, several of them the same: the same ones remain
        {
            let ts = tokens(&plain);
            let mut src = String::new();
            for i in 0..=ts.len() {
                if rng.chance(10) {
                    let m = *rng.pick(&["//", "//", "///", "//////", "//!", "// ", "//\t", "//  two  ", "/// doc", "//-----", "//* x */", "// // a", "// fn f() {", "//{", "//\"", "// a\\", "// ünï"]);
                    src += &format!("{}{m}{}", rng.pick(&["", "\n", " ", "\n\n"]), rng.pick(&["\n", "\n\n"]));
                }
                if i < ts.len() {
                    src += &ts[i];
                    src += *rng.pick(&[" ", " ", " ", "\n"]);
                }
            }
            if ast(&src).is_some() {
                if let Some(out) = judge(&src, 100, "/unusual_comments", &mut v) {
                    let all = |t: &str| {
                        // two comments may come to stand on one line, one after the other
                        let mut c: Vec<char> = t.lines().filter_map(|l| l.find("//").map(|i| &l[i..])).flat_map(|c| c.chars()).filter(|c| !c.is_whitespace()).collect();
                        c.sort();
                        c.into_iter().collect::<String>()
                    };
                    let (a, b) = (all(&src), all(&out));
                    v.push(("fmt/comment_kept/unusual_text".into(), a == b, format!("comments before {a:?}, after {b:?}"), format!("{src}\n--- formatted ---\n{out}")));
                }
            }
        }
        // Windows line ends
        if k % 4 == 0 {
            let mut m = 0;
            let src = print(&p, &mut |_| {
                m += 1;
                (m % 3 == 0).then(|| format!("// w{m}x"))
            })
            .replace('\n', "\r\n");
            if ast(&src).is_some() {
                if let Some(out) = judge(&src, 100, "/windows_line_ends", &mut v) {
                    for i in (3..=m).step_by(3) {
                        let c = out.matches(&format!("// w{i}x")).count();
                        v.push(("fmt/comment_kept/windows_line_ends".into(), c == 1, format!("// w{i}x occurs {c} times in the output"), format!("{src}\n--- formatted ---\n{out}")));
                    }
                }
            }
        }
        v
    });
    for (i, src) in ["", "\n", "// only\n", "// only", "\n\n// a\n\n// b\n", "// a\nfn f() {}\n// b", "// a\n// b\n\n// c\nconst X = 1; // d\n\n\n// e\n// f\n"].iter().enumerate() {
        let mut v = vec![];
        if let Some(out) = judge(src, 100, "/small_files", &mut v) {
            for l in src.lines().filter_map(|l| l.find("//").map(|i| &l[i..])) {
                v.push(("fmt/comment_kept/small_files".into(), out.matches(l).count() == 1, format!("{l} is lost or repeated"), format!("{src}\n--- formatted ---\n{out}")));
            }
        }
        let _ = i;
        for (ob, ok, what, input) in v {
            r.check(&ob, ok, || (what, input));
        }
    }
    let mut unparsed = 0;
    let mut shown = 0;
    for v in res {
        for (ob, ok, what, input) in v {
            if ob == "unparsed" {
                unparsed += 1;
                if std::env::var("DEBUG_GEN").is_ok() && input.len() < 120 && shown < 12 {
                    shown += 1;
                    println!("UNPARSED {input}");
                }
                continue;
            }
            r.check(&ob, ok, || (what, input));
        }
    }
    println!("NOTE {unparsed} of {n} generated programs are rejected by the parser and skipped");
    r.check("fmt/generator_yields_programs", unparsed * 2 < n, || (format!("{unparsed} of {n} generated programs do not parse"), String::new()));
}

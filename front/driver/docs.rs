//! C22: the document renderer.
use cairo_m_formatter::doc::Doc;

use crate::{Report, Rng};

/// The pieces of a document in order.
enum P<'a> {
    T(&'a str),
    Hard,
    Soft,
}
fn flat<'a>(d: &'a Doc, out: &mut Vec<P<'a>>) {
    match d {
        Doc::Nil => {}
        Doc::Text(s) => out.push(P::T(s)),
        Doc::Line => out.push(P::Hard),
        Doc::SoftLine => out.push(P::Soft),
        Doc::Group(i) | Doc::Indent(_, i) => flat(i, out),
        Doc::Concat(v) => v.iter().for_each(|d| flat(d, out)),
    }
}
fn width(d: &Doc) -> Option<usize> {
    let mut v = vec![];
    flat(d, &mut v);
    v.iter().map(|p| match p {
        P::T(s) => Some(s.len()),
        P::Soft => Some(1),
        P::Hard => None,
    }).sum()
}

fn squeeze(s: &str) -> String {
    s.chars().filter(|c| *c != ' ' && *c != '\n').collect()
}

fn contracts(r: &mut Report, d: &Doc, w: usize) {
    let out = d.render(w);
    let fail = |what: String| (what, format!("width {w}, {d:?} rendered as {out:?}"));
    let mut ps = vec![];
    flat(d, &mut ps);
    let text: String = ps.iter().map(|p| if let P::T(s) = p { squeeze(s) } else { String::new() }).collect();
    if !r.check("doc/all_text_in_order_nothing_else", squeeze(&out) == text, || fail("text differs".into())) {
        return;
    }
    // walk the output: between two texts exactly the document's breaks, plus indentation
    let (hard, soft) = ps.iter().fold((0, 0), |(h, s), p| match p {
        P::Hard => (h + 1, s),
        P::Soft => (h, s + 1),
        _ => (h, s),
    });
    let own: usize = ps.iter().map(|p| if let P::T(s) = p { s.matches('\n').count() } else { 0 }).sum();
    let nl = out.matches('\n').count();
    r.check("doc/hard_breaks_kept", nl >= hard + own && nl <= hard + soft + own, || fail(format!("{nl} line breaks for {hard} hard and {soft} soft ones")));
    let mut pos = 0usize;
    let mut ok = true;
    let mut gap: (usize, usize) = (0, 0);
    for p in &ps {
        match p {
            P::Hard => gap.0 += 1,
            P::Soft => gap.1 += 1,
            P::T(s) => {
                if s.trim().is_empty() {
                    continue; // blank text merges with the separators
                }
                let Some(i) = out[pos..].find(s.trim()) else { ok = false; break };
                let sep = &out[pos..pos + i];
                let breaks = sep.matches('\n').count();
                ok &= breaks >= gap.0 && breaks <= gap.0 + gap.1;
                // every soft break leaves at least one character
                ok &= sep.len() >= gap.0 + gap.1;
                pos += i + s.trim().len();
                gap = (0, 0);
            }
        }
    }
    r.check("doc/breaks_between_the_right_texts", ok, || fail("a break moved, or two texts merged".into()));
}

/// A group preceded by `pre` characters of text on its line.
fn group_contract(r: &mut Report, pre: usize, indent: Option<u32>, inner: &Doc, w: usize) {
    let Some(need) = width(inner) else { return };
    let g = Doc::group(inner.clone());
    let head = Doc::text("p".repeat(pre));
    let (d, col) = match indent {
        None => (Doc::concat(vec![head, g]), pre),
        Some(k) => (Doc::indent(k, Doc::concat(vec![head, g])), pre + k as usize),
    };
    let out = d.render(w);
    let what = || (format!("flat width {need} at column {col} of {w}"), format!("{d:?} rendered as {out:?}"));
    if col + need <= w {
        r.check("doc/fitting_group_on_one_line", !out.contains('\n'), what);
    }
    let mut ps = vec![];
    flat(inner, &mut ps);
    let soft = matches!(inner, Doc::Concat(v) if v.iter().any(|d| matches!(d, Doc::SoftLine)));
    if need > w && soft {
        r.check("doc/group_wider_than_the_page_breaks", out.contains('\n'), what);
    }
    if indent.is_none() && col + need > w && soft {
        r.check("doc/unfitting_group_breaks", out.contains('\n'), what);
    }
}

fn random(rng: &mut Rng, n: usize) -> Doc {
    if n <= 1 {
        return match rng.below(8) {
            0 => Doc::Nil,
            1 => Doc::line(),
            2 | 3 => Doc::softline(),
            _ => {
                let k = rng.below(9);
                Doc::text((0..k).map(|i| (b'a' + ((rng.next() as usize + i) % 26) as u8) as char).collect::<String>())
            }
        };
    }
    match rng.below(5) {
        0 => Doc::group(random(rng, n - 1)),
        1 => Doc::indent(rng.below(5) as u32, random(rng, n - 1)),
        _ => {
            let mut left = n - 1;
            let mut v = vec![];
            while left > 0 {
                let k = 1 + rng.below(left);
                v.push(random(rng, k));
                left -= k;
            }
            Doc::concat(v)
        }
    }
}

pub fn run(r: &mut Report) {
    // every document of up to `max` nodes over a small alphabet, every width from 0 to 12
    let max = if crate::thorough() { 5 } else { 4 };
    let mut by: Vec<Vec<Doc>> = vec![vec![], vec![Doc::Nil, Doc::line(), Doc::softline(), Doc::text("ab"), Doc::text("xyz"), Doc::text("é")]];
    for n in 2..=max {
        let mut v = vec![];
        for d in &by[n - 1] {
            v.push(Doc::group(d.clone()));
            v.push(Doc::indent(2, d.clone()));
            v.push(Doc::concat(vec![d.clone()]));
        }
        for k in 1..n - 1 {
            for a in &by[k] {
                for b in &by[n - 1 - k] {
                    v.push(Doc::concat(vec![a.clone(), b.clone()]));
                }
            }
        }
        by.push(v);
    }
    for (n, ds) in by.iter().enumerate() {
        let small = n < max;
        for d in ds {
            for w in if small { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 100] } else { vec![0, 3, 6, 100] } {
                contracts(r, d, w);
            }
        }
    }
    let mut rng = Rng::new(22);
    for _ in 0..if crate::thorough() { 200_000 } else { 20_000 } {
        let n = 3 + rng.below(18);
        let d = random(&mut rng, n);
        let w = rng.below(40);
        contracts(r, &d, w);
    }
    for pre in 0..6 {
        for a in 0..5 {
            for b in 0..5 {
                for w in 0..20 {
                    for indent in [None, Some(0), Some(3)] {
                        let (ta, tb) = (Doc::text("a".repeat(a)), Doc::text("b".repeat(b)));
                        let basic = Doc::concat(vec![ta.clone(), Doc::softline(), tb.clone()]);
                        for inner in [
                            basic.clone(),
                            Doc::concat(vec![ta.clone(), Doc::softline(), Doc::group(basic.clone())]),
                            Doc::concat(vec![Doc::group(basic.clone()), Doc::softline(), tb.clone()]),
                            Doc::concat(vec![ta.clone(), Doc::softline(), Doc::indent(2, tb.clone())]),
                            Doc::concat(vec![Doc::text("("), basic.clone(), Doc::softline(), Doc::text(")")]),
                        ] {
                            group_contract(r, pre, indent, &inner, w);
                        }
                    }
                }
            }
        }
    }
    // indentation: every line begun inside an indented block starts with its width in spaces (more if nested)
    for k in 0..6u32 {
        for j in 0..4u32 {
            for w in [0, 5, 10, 80] {
                let d = Doc::concat(vec![
                    Doc::text("h{"),
                    Doc::indent(k, Doc::concat(vec![Doc::line(), Doc::text("one"), Doc::line(), Doc::text("b{"), Doc::indent(j, Doc::concat(vec![Doc::line(), Doc::text("two")])), Doc::line(), Doc::text("}")])),
                    Doc::line(),
                    Doc::text("}"),
                ]);
                let out = d.render(w);
                let sp = |n: u32| " ".repeat(n as usize);
                let want = format!("h{{\n{0}one\n{0}b{{\n{0}{1}two\n{0}}}\n}}", sp(k), sp(j));
                r.check("doc/indentation", out == want, || (format!("rendered as {out:?}"), format!("{d:?} at width {w}")));
            }
        }
    }
    // the builders add no text of their own beyond what they are given
    for n in 0..5 {
        let items: Vec<Doc> = (0..n).map(|i| Doc::text(format!("i{i}"))).collect();
        let j = Doc::join(Doc::text(","), items).render(80);
        let want = (0..n).map(|i| format!("i{i}")).collect::<Vec<_>>().join(",");
        r.check("doc/join", j == want, || (format!("joined as {j:?}"), format!("{n} items")));
    }
    let c = Doc::with_leading_comments(vec!["// a".to_string(), "// b".to_string()], Doc::text("x")).render(80);
    r.check("doc/leading_comments", c == "// a\n// b\nx", || (format!("{c:?}"), "leading comments".into()));
    let c = Doc::text("x;").with_eol_comment(Some("// a")).render(80);
    r.check("doc/eol_comment", c == "x; // a", || (format!("{c:?}"), "end-of-line comment".into()));
}

//! C17: every numeric literal is read as the value it spells with the suffix it carries, or rejected.
use cairo_m_compiler_parser::lexer::{LexingError, NumberParseError, TokenType};
use logos::Logos;

use crate::{Report, Rng};

#[derive(Debug, PartialEq, Clone)]
enum Tok {
    Num(u128, Option<String>),
    Bad,
    Other,
}

/// What the language definition makes of `s`, when the whole of `s` is one numeric token; None when it is not.
fn spec(s: &str) -> Option<Tok> {
    let b = s.as_bytes();
    if b.is_empty() || !b[0].is_ascii_digit() {
        return None;
    }
    // a numeric token is a digit followed by letters, digits and underscores, as one word
    if !b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') {
        return None;
    }
    let (base, rest) = match s.get(0..2) {
        Some("0x") | Some("0X") => (16, &s[2..]),
        Some("0o") | Some("0O") => (8, &s[2..]),
        Some("0b") | Some("0B") => (2, &s[2..]),
        _ => (10, s),
    };
    let value = |d: &str| -> Option<u128> {
        if d.is_empty() {
            return None;
        }
        let mut v: u128 = 0;
        for c in d.chars() {
            v = v.saturating_mul(base as u128).saturating_add(c.to_digit(base)? as u128);
        }
        Some(v)
    };
    // a known suffix at the end wins over reading its letters as digits
    for suf in ["felt", "u32"] {
        if let Some(d) = rest.strip_suffix(suf) {
            if let Some(v) = value(d) {
                return Some(Tok::Num(v, Some(suf.into())));
            }
        }
    }
    let n = rest.chars().take_while(|c| c.is_digit(base)).count();
    let (d, suf) = rest.split_at(n);
    match value(d) {
        None => Some(Tok::Bad),
        Some(v) if suf.is_empty() => Some(Tok::Num(v, None)),
        Some(_) if suf.chars().next().unwrap().is_ascii_digit() => Some(Tok::Bad),
        Some(v) => Some(Tok::Num(v, Some(suf.into()))),
    }
}

fn lex(s: &str) -> Vec<(Result<TokenType<'_>, LexingError>, std::ops::Range<usize>)> {
    TokenType::lexer(s).spanned().collect()
}

fn one(r: &mut Report, s: &str) {
    let Some(want) = spec(s) else { return };
    let got = lex(s);
    let shown = format!("{got:?}");
    let ok_shape = got.len() == 1 && got[0].1 == (0..s.len());
    if !r.check("lexer/one_token_per_literal", ok_shape, || (format!("read as {shown}"), s.into())) {
        return;
    }
    match (&want, &got[0].0) {
        (Tok::Num(v, suf), Ok(TokenType::LiteralNumber(l))) => {
            r.check("lexer/value", *v == l.value as u128, || (format!("value {} instead of {v}", l.value), s.into()));
            // a suffix that is not one of the language's types is only a carrier for a later error
            r.check("lexer/suffix", suf.as_deref() == l.suffix, || (format!("suffix {:?} instead of {suf:?}", l.suffix), s.into()));
        }
        (Tok::Num(v, suf), Err(e)) => {
            let known = suf.is_none() || matches!(suf.as_deref(), Some("felt") | Some("u32"));
            r.check("lexer/well_formed_accepted", *v > u64::MAX as u128 || !known, || (format!("rejected: {e:?}"), s.into()));
            if *v > u64::MAX as u128 && known {
                r.check("lexer/overflow_reason", matches!(e, LexingError::InvalidNumber { reason: NumberParseError::Overflow, .. }), || {
                    (format!("a literal above 2^64-1 rejected as {e:?}"), s.into())
                });
            }
        }
        (Tok::Bad, Ok(t)) => {
            r.check("lexer/malformed_rejected", false, || (format!("accepted as {t:?}"), s.into()));
        }
        (Tok::Bad, Err(_)) => {
            r.check("lexer/malformed_rejected", true, || unreachable!());
        }
        (_, Ok(t)) => {
            r.check("lexer/value", false, || (format!("read as {t:?}"), s.into()));
        }
        _ => {}
    }
}

fn spell(v: u128, base: u32, upper: bool) -> String {
    let mut v = v;
    let mut d = vec![];
    loop {
        let c = std::char::from_digit((v % base as u128) as u32, base).unwrap();
        d.push(if upper { c.to_ascii_uppercase() } else { c });
        v /= base as u128;
        if v == 0 {
            break;
        }
    }
    d.iter().rev().collect()
}

pub fn run(r: &mut Report) {
    // every string over this alphabet that starts with a digit, up to the length bound
    let alpha: Vec<u8> = b"0179afeltu32xob_XBG".to_vec();
    let max = if crate::thorough() { 6 } else { 5 };
    let mut stack: Vec<Vec<u8>> = b"01279".iter().map(|c| vec![*c]).collect();
    while let Some(s) = stack.pop() {
        one(r, std::str::from_utf8(&s).unwrap());
        if s.len() < max {
            for c in &alpha {
                let mut t = s.clone();
                t.push(*c);
                stack.push(t);
            }
        }
    }
    // boundary and random values in every base and spelling
    let mut vals: Vec<u128> = vec![];
    for k in 0..=65u32 {
        for d in [-2i128, -1, 0, 1, 2] {
            let v = (1i128 << k) + d;
            if v >= 0 {
                vals.push(v as u128);
            }
        }
    }
    for k in 0..=20u32 {
        for d in [-1i128, 0, 1] {
            vals.push((10i128.pow(k) + d) as u128);
        }
    }
    let mut rng = Rng::new(17);
    for _ in 0..if crate::thorough() { 200_000 } else { 20_000 } {
        let v = rng.next() as u128;
        vals.push(v >> rng.below(64));
        vals.push(v << rng.below(8));
    }
    for v in vals {
        for (base, prefixes) in [(10, vec![""]), (16, vec!["0x", "0X"]), (8, vec!["0o", "0O"]), (2, vec!["0b", "0B"])] {
            for p in prefixes {
                for up in [false, true] {
                    for zeros in ["", "0", "000"] {
                        for suf in ["", "felt", "u32", "u64", "_", "felts", "xu32"] {
                            let s = format!("{p}{zeros}{}{suf}", spell(v, base, up));
                            one(r, &s);
                        }
                    }
                }
            }
        }
    }
    // a literal is delimited by what surrounds it, and its neighbours are not part of it
    for lit in ["0", "42", "0x1F", "0b101", "0o17", "7u32", "0xFFfelt", "18446744073709551615"] {
        let want = spec(lit).unwrap();
        for (pre, post) in [("", ";"), ("(", ")"), ("-", " "), ("a+", "+b"), ("[", "]"), ("x.", ";"), ("{", "}"), ("1 ", " 2"), ("\n", "\n"), ("", "// c"), ("=", "==")] {
            let s = format!("{pre}{lit}{post}");
            let toks = lex(&s);
            let at = toks.iter().find(|(_, sp)| sp.start == pre.len());
            let ok = match (at, &want) {
                (Some((Ok(TokenType::LiteralNumber(l)), sp)), Tok::Num(v, suf)) => {
                    sp.end == pre.len() + lit.len() && l.value as u128 == *v && l.suffix == suf.as_deref()
                }
                _ => false,
            };
            r.check("lexer/delimited", ok, || (format!("read as {toks:?}"), s.clone()));
        }
    }
    // printing a token gives back its value and suffix
    for s in ["0", "42", "7u32", "255felt", "18446744073709551615"] {
        if let Some((Ok(t), _)) = lex(s).into_iter().next() {
            r.check("lexer/display", t.to_string() == s, || (format!("printed as {t}"), s.into()));
        }
    }
}

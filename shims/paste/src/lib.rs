//! Offline stand-in for the `paste` crate: `[< a b:snake:upper >]` identifier pasting.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn paste(input: TokenStream) -> TokenStream {
    expand(input)
}

fn expand(input: TokenStream) -> TokenStream {
    let mut out = Vec::new();
    for tt in input {
        match tt {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    if let Some(id) = try_paste(&g) {
                        out.push(TokenTree::Ident(id));
                        continue;
                    }
                }
                let mut ng = Group::new(g.delimiter(), expand(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            other => out.push(other),
        }
    }
    out.into_iter().collect()
}

fn flatten(ts: TokenStream, out: &mut Vec<TokenTree>) {
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flatten(g.stream(), out),
            t => out.push(t),
        }
    }
}

fn try_paste(g: &Group) -> Option<Ident> {
    let mut toks = Vec::new();
    flatten(g.stream(), &mut toks);
    let is_p = |t: Option<&TokenTree>, c: char| matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c);
    if toks.len() < 3 || !is_p(toks.first(), '<') || !is_p(toks.last(), '>') {
        return None;
    }
    let inner = &toks[1..toks.len() - 1];
    let mut s = String::new();
    let mut seg = String::new();
    let mut span = Span::call_site();
    let mut i = 0;
    while i < inner.len() {
        match &inner[i] {
            TokenTree::Ident(id) => {
                s.push_str(&seg);
                seg = id.to_string();
                span = id.span();
            }
            TokenTree::Literal(l) => {
                s.push_str(&seg);
                seg = l.to_string().trim_matches('"').to_string();
            }
            TokenTree::Punct(p) if p.as_char() == ':' => {
                i += 1;
                if let Some(TokenTree::Ident(m)) = inner.get(i) {
                    seg = match m.to_string().as_str() {
                        "snake" => snake(&seg),
                        "upper" => seg.to_uppercase(),
                        "lower" => seg.to_lowercase(),
                        "camel" => camel(&seg),
                        _ => return None,
                    };
                } else {
                    return None;
                }
            }
            TokenTree::Punct(p) if p.as_char() == '_' => seg.push('_'),
            _ => return None,
        }
        i += 1;
    }
    s.push_str(&seg);
    Some(Ident::new(&s, span))
}

fn snake(s: &str) -> String {
    let mut acc = String::new();
    let mut prev = '_';
    for ch in s.chars() {
        if ch.is_uppercase() && prev != '_' {
            acc.push('_');
        }
        acc.push(ch);
        prev = ch;
    }
    acc.to_lowercase()
}

fn camel(s: &str) -> String {
    let mut acc = String::new();
    let mut prev = '_';
    for ch in s.chars() {
        if ch != '_' {
            if prev == '_' {
                acc.extend(ch.to_uppercase());
            } else if prev.is_uppercase() {
                acc.extend(ch.to_lowercase());
            } else {
                acc.push(ch);
            }
        }
        prev = ch;
    }
    acc
}

use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Print tokens, one statement per line; `__raw_x!();` markers become raw text, `__inv_k!();` as first tokens of a
/// brace group are moved in front of the brace.
pub fn emit(ts: TokenStream, raw: &dyn Fn(&str) -> Option<String>) -> String {
    let mut o = String::new();
    go(ts, raw, &mut o);
    o
}
fn marker(v: &[TokenTree], i: usize, raw: &dyn Fn(&str) -> Option<String>) -> Option<(String, usize)> {
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(_))) =
        (v.get(i), v.get(i + 1), v.get(i + 2))
    {
        let n = id.to_string();
        if p.as_char() == '!' && (n.starts_with("__raw_") || n.starts_with("__inv_")) {
            let mut k = 3;
            if let Some(TokenTree::Punct(p)) = v.get(i + 3) {
                if p.as_char() == ';' {
                    k = 4;
                }
            }
            return Some((raw(&n).unwrap_or_default(), k));
        }
    }
    None
}
fn go(ts: TokenStream, raw: &dyn Fn(&str) -> Option<String>, o: &mut String) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some((txt, k)) = marker(&v, i, raw) {
            o.push('\n');
            o.push_str(&txt);
            o.push('\n');
            i += k;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut rest = inner.as_slice();
                if g.delimiter() == Delimiter::Brace {
                    if let Some(TokenTree::Ident(id)) = inner.first() {
                        if id.to_string().starts_with("__inv_") {
                            if let Some((txt, k)) = marker(&inner, 0, raw) {
                                o.push('\n');
                                o.push_str(&txt);
                                o.push('\n');
                                rest = &inner[k..];
                            }
                        }
                    }
                }
                o.push_str(a);
                if g.delimiter() == Delimiter::Brace {
                    o.push('\n');
                }
                go(rest.iter().cloned().collect(), raw, o);
                o.push_str(b);
                if g.delimiter() == Delimiter::Brace {
                    o.push('\n');
                } else {
                    o.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            t => {
                o.push_str(&t.to_string());
                o.push(' ');
            }
        }
        i += 1;
    }
}

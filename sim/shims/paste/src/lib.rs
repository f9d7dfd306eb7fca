//! Offline stand-in for `paste!`: concatenation of identifiers inside `[< >]`, with
//! the `:snake`, `:upper`, `:lower` and `:camel` modifiers.
use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

#[proc_macro]
pub fn paste(input: TokenStream) -> TokenStream { walk(input) }

fn walk(ts: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    if let Some(id) = try_paste(&g) { out.push(TokenTree::Ident(id)); continue; }
                }
                let mut ng = Group::new(g.delimiter(), walk(g.stream()));
                ng.set_span(g.span());
                // An invisible group around a single pasted token is flattened by rustc.
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t),
        }
    }
    out.into_iter().collect()
}

fn flat(ts: TokenStream, v: &mut Vec<TokenTree>) {
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => flat(g.stream(), v),
            t => v.push(t),
        }
    }
}

fn try_paste(g: &Group) -> Option<Ident> {
    let mut v = Vec::new();
    flat(g.stream(), &mut v);
    let is = |t: &TokenTree, c: char| matches!(t, TokenTree::Punct(p) if p.as_char() == c);
    if v.len() < 3 || !is(&v[0], '<') || !is(v.last()?, '>') { return None; }
    let mut parts: Vec<String> = Vec::new();
    let mut span = Span::call_site();
    let mut i = 1;
    while i < v.len() - 1 {
        match &v[i] {
            TokenTree::Ident(id) => { span = id.span(); parts.push(id.to_string().trim_start_matches("r#").to_string()); }
            TokenTree::Literal(l) => parts.push(l.to_string().trim_matches('"').to_string()),
            TokenTree::Punct(p) if p.as_char() == ':' => {
                i += 1;
                let m = v[i].to_string();
                let s = parts.pop()?;
                parts.push(match m.as_str() {
                    "snake" => snake(&s),
                    "upper" => s.to_uppercase(),
                    "lower" => s.to_lowercase(),
                    "camel" => camel(&s),
                    _ => return None,
                });
            }
            _ => return None,
        }
        i += 1;
    }
    Some(Ident::new(&parts.concat(), span))
}

fn snake(s: &str) -> String {
    let mut acc = String::new();
    let mut prev = '_';
    for ch in s.chars() {
        if ch.is_uppercase() && prev != '_' { acc.push('_'); }
        acc.push(ch);
        prev = ch;
    }
    acc.to_lowercase()
}
fn camel(s: &str) -> String {
    s.split('_').map(|p| { let mut c = p.chars(); c.next().map(|f| f.to_uppercase().chain(c).collect::<String>()).unwrap_or_default() }).collect()
}

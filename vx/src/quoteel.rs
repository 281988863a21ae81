//! `quote! { .. }` (and `parse_quote! { .. }`) becomes a sequence of pushes to a token stream.
use crate::rules::{flatten, ident};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::ToTokens;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Stmt};

pub fn elaborate(b: &mut Block) -> Result<(), String> {
    struct V {
        n: usize,
        err: Option<String>,
    }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Macro(m) = e {
                let n = m.mac.path.to_token_stream().to_string();
                if ["quote", "quote :: quote", "parse_quote", "syn :: parse_quote"].contains(&n.as_str()) {
                    match go(m.mac.tokens.clone(), &mut self.n) {
                        Ok(x) => *e = x,
                        Err(x) => self.err = Some(x),
                    }
                }
            }
        }
    }
    let mut v = V { n: 0, err: None };
    v.visit_block_mut(b);
    v.err.map_or(Ok(()), Err)
}

fn go(ts: TokenStream, n: &mut usize) -> Result<Expr, String> {
    let q = ident(&format!("vx_q{n}"));
    *n += 1;
    let toks = flatten(ts);
    let mut s: Vec<Stmt> = vec![parse_quote!(let mut #q = TokenStream::new();)];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '#' => match toks.get(i + 1) {
                Some(TokenTree::Ident(x)) => {
                    s.push(parse_quote!(#q.vx_append(&#x);));
                    i += 2;
                }
                Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                    // #(#x sep)* or #(#x) sep *
                    let inner = flatten(g.stream());
                    // tokens in front of `#x`
                    let lead = inner.iter().take_while(|t| !matches!(t, TokenTree::Punct(p) if p.as_char() == '#')).count();
                    let before: TokenStream = inner[..lead].iter().cloned().collect();
                    let inner = inner[lead..].to_vec();
                    let (Some(TokenTree::Punct(h)), Some(TokenTree::Ident(x))) = (inner.first(), inner.get(1)) else {
                        return Err("unsupported quote repetition".into());
                    };
                    if h.as_char() != '#' {
                        return Err("unsupported quote repetition".into());
                    }
                    let plain = inner[2..].iter().all(|t| matches!(t, TokenTree::Punct(p) if p.as_char() != '#'));
                    let after: String = inner[2..].iter().map(|t| t.to_string()).collect();
                    let mut sep = String::new();
                    i += 2;
                    loop {
                        match toks.get(i) {
                            Some(TokenTree::Punct(p)) if p.as_char() == '*' => {
                                i += 1;
                                break;
                            }
                            Some(TokenTree::Punct(p)) => {
                                sep.push(p.as_char());
                                i += 1;
                            }
                            _ => return Err("unsupported quote repetition".into()),
                        }
                    }
                    if lead > 0 && inner.len() == 2 {
                        let before = go(before, n)?;
                        s.push(parse_quote!(#q.vx_repeat_before(#before, #x, #sep);));
                    } else if lead > 0 {
                        return Err("unsupported quote repetition".into());
                    } else if plain {
                        s.push(parse_quote!(#q.vx_repeat(#x, #after, #sep);));
                    } else {
                        let after = go(inner[2..].iter().cloned().collect(), n)?;
                        s.push(parse_quote!(#q.vx_repeat_with(#x, #after, #sep);));
                    }
                }
                _ => {
                    s.push(parse_quote!(#q.vx_punct("#");));
                    i += 1;
                }
            },
            TokenTree::Punct(_) => {
                let mut t = String::new();
                loop {
                    match toks.get(i) {
                        // a lifetime's `'` is a token of its own
                        Some(TokenTree::Punct(p)) if p.as_char() != '#' && (t.is_empty() || p.as_char() != '\'') => {
                            t.push(p.as_char());
                            i += 1;
                            if p.spacing() == Spacing::Alone || p.as_char() == '\'' {
                                break;
                            }
                        }
                        _ => break,
                    }
                }
                s.push(parse_quote!(#q.vx_punct(#t);));
            }
            TokenTree::Ident(x) => {
                let t = x.to_string();
                s.push(parse_quote!(#q.vx_ident(#t);));
                i += 1;
            }
            TokenTree::Literal(l) => {
                let t = l.to_string();
                s.push(parse_quote!(#q.vx_lit(#t);));
                i += 1;
            }
            TokenTree::Group(g) => {
                let inner = go(g.stream(), n)?;
                let d = match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => return Err("quote group".into()),
                };
                s.push(parse_quote!(#q.vx_group(#d, #inner);));
                i += 1;
            }
        }
    }
    s.push(Stmt::Expr(parse_quote!(#q), None));
    let b = Block { brace_token: Default::default(), stmts: s };
    Ok(parse_quote!(#b))
}

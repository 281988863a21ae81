//! A small `macro_rules!` expander, for macros defined in the file that uses them.
use proc_macro2::{Delimiter, Group, Ident, Spacing, TokenStream, TokenTree};
use std::collections::HashMap;
use syn::parse::{ParseStream, Parser};

pub type Res<T> = Result<T, String>;

#[derive(Debug, Clone)]
enum Pat {
    Tok(TokenTree),
    Var(String, String),
    Rep(Vec<Pat>, Option<TokenTree>, char),
    Group(Delimiter, Vec<Pat>),
}

#[derive(Debug, Clone)]
enum Bind {
    Leaf(TokenStream),
    Seq(Vec<Bind>),
}

#[derive(Debug, Clone)]
pub struct MacroRules {
    rules: Vec<(Vec<Pat>, TokenStream)>,
}

fn parse_pats(ts: TokenStream) -> Res<Vec<Pat>> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(id)) => {
                    let frag = match toks.get(i + 3) {
                        Some(TokenTree::Ident(f)) => f.to_string(),
                        _ => return Err("macro fragment".into()),
                    };
                    out.push(Pat::Var(id.to_string(), frag));
                    i += 4;
                }
                Some(TokenTree::Group(g)) => {
                    let inner = parse_pats(g.stream())?;
                    i += 2;
                    let mut sep = None;
                    let is_op = |t: Option<&TokenTree>| matches!(t, Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?'));
                    if !is_op(toks.get(i)) {
                        sep = toks.get(i).cloned();
                        i += 1;
                    }
                    let op = match toks.get(i) {
                        Some(TokenTree::Punct(p)) => p.as_char(),
                        _ => return Err("macro repetition".into()),
                    };
                    i += 1;
                    out.push(Pat::Rep(inner, sep, op));
                }
                _ => return Err("macro pattern".into()),
            },
            TokenTree::Group(g) => {
                out.push(Pat::Group(g.delimiter(), parse_pats(g.stream())?));
                i += 1;
            }
            t => {
                out.push(Pat::Tok(t.clone()));
                i += 1;
            }
        }
    }
    Ok(out)
}

impl MacroRules {
    pub fn parse(ts: TokenStream) -> Res<Self> {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut rules = vec![];
        let mut i = 0;
        while i < toks.len() {
            let TokenTree::Group(m) = &toks[i] else { return Err("macro rule".into()) };
            let Some(TokenTree::Group(b)) = toks.get(i + 3) else { return Err("macro body".into()) };
            rules.push((parse_pats(m.stream())?, b.stream()));
            i += 4;
            if matches!(toks.get(i), Some(TokenTree::Punct(p)) if p.as_char() == ';') {
                i += 1;
            }
        }
        Ok(Self { rules })
    }

    pub fn expand(&self, input: TokenStream) -> Res<TokenStream> {
        for (pats, body) in &self.rules {
            let mut binds = HashMap::new();
            let r = (|s: ParseStream| -> syn::Result<()> {
                match_pats(pats, s, &mut binds)?;
                if !s.is_empty() {
                    return Err(s.error("rest"));
                }
                Ok(())
            })
            .parse2(input.clone());
            if r.is_ok() {
                return transcribe(body.clone(), &binds);
            }
        }
        Err("no macro rule matches".into())
    }
}

fn leaf<T: quote::ToTokens>(t: T) -> TokenStream {
    let ts = quote::quote!(#t);
    if ts.clone().into_iter().count() == 1 {
        ts
    } else {
        std::iter::once(TokenTree::Group(Group::new(Delimiter::None, ts))).collect()
    }
}

fn match_pats(pats: &[Pat], s: ParseStream, binds: &mut HashMap<String, Bind>) -> syn::Result<()> {
    for p in pats {
        match p {
            Pat::Tok(t) => {
                let got: TokenTree = s.parse()?;
                if got.to_string() != t.to_string() {
                    return Err(s.error("token"));
                }
            }
            Pat::Group(d, inner) => {
                let got: Group = s.parse()?;
                if got.delimiter() != *d {
                    return Err(s.error("delimiter"));
                }
                (|s2: ParseStream| match_pats(inner, s2, binds)).parse2(got.stream())?;
            }
            Pat::Var(name, frag) => {
                let ts = match frag.as_str() {
                    "expr" => leaf(s.parse::<syn::Expr>()?),
                    "ident" => leaf(s.parse::<Ident>()?),
                    "ty" => leaf(s.parse::<syn::Type>()?),
                    "path" => leaf(s.parse::<syn::Path>()?),
                    "literal" => leaf(s.parse::<syn::Lit>()?),
                    "tt" => leaf(s.parse::<TokenTree>()?),
                    "pat" => leaf(syn::Pat::parse_multi(s)?),
                    "block" => leaf(s.parse::<syn::Block>()?),
                    _ => return Err(s.error("fragment")),
                };
                binds.insert(name.clone(), Bind::Leaf(ts));
            }
            Pat::Rep(inner, sep, op) => {
                let mut all: Vec<HashMap<String, Bind>> = vec![];
                loop {
                    if s.is_empty() || (*op == '?' && all.len() == 1) {
                        break;
                    }
                    let fork = s.fork();
                    if !all.is_empty() {
                        if let Some(sep) = sep {
                            match fork.parse::<TokenTree>() {
                                Ok(t) if t.to_string() == sep.to_string() => (),
                                _ => break,
                            }
                        }
                    }
                    let mut b = HashMap::new();
                    if match_pats(inner, &fork, &mut b).is_err() {
                        break;
                    }
                    use syn::parse::discouraged::Speculative;
                    s.advance_to(&fork);
                    all.push(b);
                }
                let mut names = vec![];
                names_of(inner, &mut names);
                for n in names {
                    binds.insert(n.clone(), Bind::Seq(all.iter().map(|b| b[&n].clone()).collect()));
                }
            }
        }
    }
    Ok(())
}

fn names_of(p: &[Pat], out: &mut Vec<String>) {
    for p in p {
        match p {
            Pat::Var(n, _) => out.push(n.clone()),
            Pat::Rep(i, ..) => names_of(i, out),
            Pat::Group(_, i) => names_of(i, out),
            Pat::Tok(_) => (),
        }
    }
}

fn vars_in(ts: &TokenStream, out: &mut Vec<String>) {
    let toks: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in toks.iter().enumerate() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(id)) = toks.get(i + 1) {
                    out.push(id.to_string());
                }
            }
            TokenTree::Group(g) => vars_in(&g.stream(), out),
            _ => (),
        }
    }
}

fn transcribe(ts: TokenStream, binds: &HashMap<String, Bind>) -> Res<TokenStream> {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < toks.len() {
        match &toks[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => match toks.get(i + 1) {
                Some(TokenTree::Ident(id)) => {
                    match binds.get(&id.to_string()) {
                        Some(Bind::Leaf(ts)) => out.extend(ts.clone()),
                        _ => return Err(format!("macro variable {id}")),
                    }
                    i += 2;
                }
                Some(TokenTree::Group(g)) => {
                    i += 2;
                    let mut sep = None;
                    if !matches!(toks.get(i), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+' | '?') && p.spacing() == Spacing::Alone)
                        || matches!(toks.get(i + 1), Some(TokenTree::Punct(p)) if matches!(p.as_char(), '*' | '+'))
                    {
                        sep = toks.get(i).cloned();
                        i += 1;
                    }
                    i += 1;
                    let mut names = vec![];
                    vars_in(&g.stream(), &mut names);
                    let n = names
                        .iter()
                        .filter_map(|n| if let Some(Bind::Seq(s)) = binds.get(n) { Some(s.len()) } else { None })
                        .max()
                        .unwrap_or(0);
                    for k in 0..n {
                        let mut b = binds.clone();
                        for nm in &names {
                            if let Some(Bind::Seq(s)) = binds.get(nm) {
                                b.insert(nm.clone(), s[k].clone());
                            }
                        }
                        if k > 0 {
                            out.extend(sep.clone());
                        }
                        out.extend(transcribe(g.stream(), &b)?);
                    }
                }
                _ => return Err("macro transcriber".into()),
            },
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), transcribe(g.stream(), binds)?);
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
                i += 1;
            }
            t => {
                out.push(t.clone());
                i += 1;
            }
        }
    }
    Ok(out.into_iter().collect())
}

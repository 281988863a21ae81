//! Syntactic rewriting rules with metavariables (`$x`).
use crate::mac::Res;
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::Expr;

#[derive(Clone, Debug)]
pub struct Rule {
    pub text: String,
    pub kind: Kind,
    pat: Vec<TokenTree>,
    rep: TokenStream,
    disc: Option<String>,
    raw: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Expr,
    Type,
}

const MV: &str = "__mv_";

/// `$x` => `__mv_x`
fn lex(s: &str) -> Res<TokenStream> {
    let s = s.replace('$', MV);
    s.parse::<TokenStream>().map_err(|e| format!("rule `{s}`: {e}"))
}

pub fn flatten(ts: TokenStream) -> Vec<TokenTree> {
    let mut out = vec![];
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => out.extend(flatten(g.stream())),
            t => out.push(t),
        }
    }
    out
}

pub fn disc(e: &Expr) -> String {
    match e {
        Expr::Paren(p) => disc(&p.expr),
        Expr::Group(p) => disc(&p.expr),
        Expr::Binary(b) => format!("Binary{}", b.op.to_token_stream()),
        Expr::Unary(b) => format!("Unary{}", b.op.to_token_stream()),
        Expr::Array(_) => "Array".into(),
        Expr::Assign(_) => "Assign".into(),
        Expr::Block(_) => "Block".into(),
        Expr::Call(_) => "Call".into(),
        Expr::Cast(_) => "Cast".into(),
        Expr::Closure(_) => "Closure".into(),
        Expr::Field(_) => "Field".into(),
        Expr::If(_) => "If".into(),
        Expr::Index(_) => "Index".into(),
        Expr::Lit(_) => "Lit".into(),
        Expr::Macro(_) => "Macro".into(),
        Expr::Match(_) => "Match".into(),
        Expr::MethodCall(_) => "MethodCall".into(),
        Expr::Path(_) => "Path".into(),
        Expr::Reference(_) => "Reference".into(),
        Expr::Struct(_) => "Struct".into(),
        Expr::Try(_) => "Try".into(),
        Expr::Tuple(_) => "Tuple".into(),
        Expr::Return(_) => "Return".into(),
        _ => "Other".into(),
    }
}

impl Rule {
    pub fn new(kind: Kind, text: &str) -> Res<Self> {
        let (p, r) = text.split_once("~>").ok_or_else(|| format!("rule without ~>: {text}"))?;
        let (p, r) = (p.trim(), r.trim());
        let (raw, r) = match r.strip_prefix("raw!") {
            Some(r) => (true, r),
            None => (false, r),
        };
        let pts = lex(p)?;
        let disc = match kind {
            Kind::Expr => Some(disc(&syn::parse2::<Expr>(pts.clone()).map_err(|e| format!("rule pattern `{p}`: {e}"))?)),
            Kind::Type => None,
        };
        Ok(Rule { text: text.into(), kind, pat: flatten(pts), rep: lex(r)?, disc, raw })
    }

    fn apply(&self, ts: TokenStream) -> Option<TokenStream> {
        let tgt = flatten(ts);
        let mut b = HashMap::new();
        if !matches(&self.pat, &tgt, &mut b) {
            return None;
        }
        Some(subst(self.rep.clone(), &b, self.raw))
    }

    pub fn try_expr(&self, e: &Expr) -> Option<Expr> {
        if self.kind != Kind::Expr || self.disc.as_deref() != Some(&disc(e)) {
            return None;
        }
        let out = self.apply(e.to_token_stream())?;
        if self.raw {
            return Some(syn::parse_quote!(__vx_raw!(#out)));
        }
        match syn::parse2::<Expr>(out.clone()) {
            Ok(e) => Some(e),
            Err(err) => {
                eprintln!("vx: rule `{}` gives unparsable `{}`: {}", self.text, out, err);
                None
            }
        }
    }
}

fn same(a: &[TokenTree], b: &[TokenTree]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.to_string() == b.to_string())
}

fn candidate(ts: &[TokenTree]) -> bool {
    let s: TokenStream = ts.iter().cloned().collect();
    if ts.len() == 1 {
        return !matches!(&ts[0], TokenTree::Punct(p) if p.as_char() != '_');
    }
    syn::parse2::<Expr>(s.clone()).is_ok()
        || syn::parse2::<syn::Type>(s.clone()).is_ok()
        || syn::parse2::<syn::Lifetime>(s.clone()).is_ok()
        || syn::parse::Parser::parse2(syn::Pat::parse_multi, s).is_ok()
}

fn matches(pat: &[TokenTree], tgt: &[TokenTree], b: &mut HashMap<String, Vec<TokenTree>>) -> bool {
    let Some(p) = pat.first() else { return tgt.is_empty() };
    if let TokenTree::Ident(id) = p {
        let id = id.to_string();
        if let Some(name) = id.strip_prefix(MV) {
            if let Some(prev) = b.get(name).cloned() {
                return tgt.len() >= prev.len() && same(&prev, &tgt[..prev.len()]) && matches(&pat[1..], &tgt[prev.len()..], b);
            }
            for n in 1..=tgt.len() {
                if !candidate(&tgt[..n]) {
                    continue;
                }
                let mut b2 = b.clone();
                b2.insert(name.into(), tgt[..n].to_vec());
                if matches(&pat[1..], &tgt[n..], &mut b2) {
                    *b = b2;
                    return true;
                }
            }
            return false;
        }
    }
    let Some(t) = tgt.first() else { return false };
    match (p, t) {
        (TokenTree::Group(g), TokenTree::Group(h)) => {
            if g.delimiter() != h.delimiter() {
                return false;
            }
            let mut hs = flatten(h.stream());
            let gs = flatten(g.stream());
            // a trailing comma does not matter
            let comma = |v: &Vec<TokenTree>| matches!(v.last(), Some(TokenTree::Punct(p)) if p.as_char() == ',');
            if comma(&hs) && !comma(&gs) {
                hs.pop();
            }
            let mut b2 = b.clone();
            // metavariables inside of a group are matched first-fit
            if matches(&gs, &hs, &mut b2) && matches(&pat[1..], &tgt[1..], &mut b2) {
                *b = b2;
                return true;
            }
            false
        }
        (TokenTree::Group(_), _) | (_, TokenTree::Group(_)) => false,
        (p, t) => p.to_string() == t.to_string() && matches(&pat[1..], &tgt[1..], b),
    }
}

fn subst(ts: TokenStream, b: &HashMap<String, Vec<TokenTree>>, raw: bool) -> TokenStream {
    let mut out = TokenStream::new();
    for t in ts {
        match t {
            TokenTree::Ident(id) => {
                let s = id.to_string();
                if let Some(v) = s.strip_prefix(MV).and_then(|n| b.get(n)) {
                    let ts: TokenStream = v.iter().cloned().collect();
                    let needs = !raw
                        && v.len() > 1
                        && matches!(
                            syn::parse2::<Expr>(ts.clone()),
                            Ok(Expr::Binary(_) | Expr::Unary(_) | Expr::Cast(_) | Expr::Range(_) | Expr::Reference(_) | Expr::Assign(_))
                        );
                    if needs {
                        out.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, ts))]);
                    } else {
                        out.extend(ts);
                    }
                } else {
                    out.extend([TokenTree::Ident(id)]);
                }
            }
            TokenTree::Group(g) => out.extend([TokenTree::Group(Group::new(g.delimiter(), subst(g.stream(), b, raw)))]),
            t => out.extend([t]),
        }
    }
    out
}

pub struct Apply<'a> {
    pub rules: &'a [Rule],
    pub used: Vec<String>,
}

impl Apply<'_> {
    /// The scrutinee and the guard of `matches!`.
    fn visit_matches(&mut self, m: &mut syn::Macro) -> Option<Expr> {
        struct M(Expr, syn::Pat, Option<Expr>);
        impl syn::parse::Parse for M {
            fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                let e = i.parse()?;
                i.parse::<syn::Token![,]>()?;
                let p = syn::Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.peek(syn::Token![if]) {
                    i.parse::<syn::Token![if]>()?;
                    Some(i.parse()?)
                } else {
                    None
                };
                let _ = i.parse::<Option<syn::Token![,]>>()?;
                Ok(M(e, p, g))
            }
        }
        if let Ok(M(mut e, mut p, mut g)) = syn::parse2::<M>(m.tokens.clone()) {
            self.visit_pat_mut(&mut p);
            self.visit_expr_mut(&mut e);
            if let Some(g) = &mut g {
                self.visit_expr_mut(g);
            }
            let g = g.map(|g| quote::quote!(if #g));
            // annotated closures must not be hidden in a macro
            if e.to_token_stream().to_string().contains("__vx_raw") {
                return Some(syn::parse_quote!(match #e { #p #g => true, _ => false }));
            }
            m.tokens = quote::quote!(#e, #p #g);
        }
        None
    }
}

impl VisitMut for Apply<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("matches") {
                if let Some(n) = self.visit_matches(&mut m.mac) {
                    *e = n;
                }
            } else if m.mac.path.is_ident("vec") || m.mac.path.is_ident("format") {
                let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                if let Ok(mut elems) = m.mac.parse_body_with(parser) {
                    for x in elems.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    m.mac.tokens = elems.to_token_stream();
                }
            }
        }
        for _ in 0..6 {
            let mut hit = false;
            for r in self.rules {
                if let Some(n) = r.try_expr(e) {
                    *e = n;
                    self.used.push(r.text.clone());
                    hit = true;
                    break;
                }
            }
            if !hit {
                break;
            }
        }
    }

    /// `&P`, where `P` binds nothing, matches what `P` matches by default binding modes.
    fn visit_pat_mut(&mut self, p: &mut syn::Pat) {
        struct Binds(bool);
        impl<'a> syn::visit::Visit<'a> for Binds {
            fn visit_pat_ident(&mut self, _: &'a syn::PatIdent) {
                self.0 = true;
            }
        }
        visit_mut::visit_pat_mut(self, p);
        if let syn::Pat::Reference(r) = p {
            let mut b = Binds(false);
            syn::visit::visit_pat(&mut b, &r.pat);
            if !b.0 {
                *p = (*r.pat).clone();
            }
        }
    }

    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        visit_mut::visit_type_mut(self, t);
        for r in self.rules {
            if r.kind == Kind::Type {
                if let Some(ts) = r.apply(t.to_token_stream()) {
                    if let Ok(n) = syn::parse2(ts) {
                        *t = n;
                        return;
                    }
                }
            }
        }
    }
}

pub fn ident(s: &str) -> Ident {
    Ident::new(s, Span::call_site())
}

//! Desugarings which keep the meaning of the code.
use crate::mac::{MacroRules, Res};
use crate::rules::ident;
use crate::source::squash;
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

/// Expand macros defined inside of the function; drop nested items (they are extracted on their own).
pub fn local_macros(b: &mut Block) -> Res<()> {
    struct V {
        m: HashMap<String, MacroRules>,
        err: Option<String>,
    }
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            for s in &b.stmts {
                if let Stmt::Item(syn::Item::Macro(m)) = s {
                    if let Some(id) = &m.ident {
                        match MacroRules::parse(m.mac.tokens.clone()) {
                            Ok(r) => {
                                self.m.insert(id.to_string(), r);
                            }
                            Err(e) => self.err = Some(e),
                        }
                    }
                }
            }
            b.stmts.retain(|s| !matches!(s, Stmt::Item(syn::Item::Macro(_) | syn::Item::Fn(_) | syn::Item::Enum(_) | syn::Item::Impl(_))));
            visit_mut::visit_block_mut(self, b);
        }
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if let Some(r) = m.mac.path.get_ident().and_then(|i| self.m.get(&i.to_string())) {
                    match r.expand(m.mac.tokens.clone()).and_then(|ts| syn::parse2::<Expr>(ts).map_err(|e| e.to_string())) {
                        Ok(n) => *e = n,
                        Err(x) => self.err = Some(x),
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V { m: HashMap::new(), err: None };
    v.visit_block_mut(b);
    v.err.map_or(Ok(()), Err)
}

/// `m! { .. }` in statement position is an expression (statement).
pub fn macro_stmts(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let n = b.stmts.len();
            for (i, s) in b.stmts.iter_mut().enumerate() {
                if let Stmt::Macro(m) = s {
                    let tail = i + 1 == n && m.semi_token.is_none();
                    let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    *s = Stmt::Expr(e, if tail { None } else { Some(Default::default()) });
                }
            }
            visit_mut::visit_block_mut(self, b);
        }
    }
    V.visit_block_mut(b);
}

pub fn strip_attrs(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
            a.clear();
        }
    }
    V.visit_block_mut(b);
}

/// Remove statements which do nothing: `();`, `let _ = <literal>;`.
pub fn noops(b: &mut Block) {
    struct V;
    fn trivial(e: &Expr) -> bool {
        match e {
            Expr::Lit(_) => true,
            Expr::Tuple(t) => t.elems.iter().all(trivial),
            Expr::Paren(p) => trivial(&p.expr),
            Expr::Reference(r) => trivial(&r.expr),
            Expr::Binary(b) => trivial(&b.left) && trivial(&b.right) && !matches!(b.op, syn::BinOp::Div(_) | syn::BinOp::Rem(_)),
            Expr::Block(b) => b.block.stmts.is_empty() && b.label.is_none(),
            _ => false,
        }
    }
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| match s {
                Stmt::Expr(e, Some(_)) => !trivial(e),
                Stmt::Local(l) => {
                    let unused = match &l.pat {
                        Pat::Wild(_) => true,
                        Pat::Ident(i) => i.ident.to_string().starts_with('_') && i.by_ref.is_none() && i.subpat.is_none(),
                        _ => false,
                    };
                    !(unused && l.init.as_ref().is_some_and(|i| i.diverge.is_none() && trivial(&i.expr)))
                }
                _ => true,
            });
            visit_mut::visit_block_mut(self, b);
        }
    }
    V.visit_block_mut(b);
}

/// A match arm with both alternatives and a guard becomes one arm per alternative.
pub fn split_guards(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let arms = std::mem::take(&mut m.arms);
            for a in arms {
                match (&a.pat, &a.guard) {
                    (Pat::Or(o), Some(_)) => {
                        for p in &o.cases {
                            let mut n = a.clone();
                            n.pat = p.clone();
                            n.comma = Some(Default::default());
                            m.arms.push(n);
                        }
                    }
                    _ => m.arms.push(a),
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// `P if g => a, P => b` becomes `P => if g { a } else { b }`.
pub fn merge_guards(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let mut arms: Vec<syn::Arm> = vec![];
            for a in std::mem::take(&mut m.arms).into_iter().rev() {
                if let (Some((_, g)), Some(next)) = (&a.guard, arms.last()) {
                    if next.guard.is_none() && squash(&a.pat.to_token_stream().to_string()) == squash(&next.pat.to_token_stream().to_string()) {
                        let (x, y) = (&a.body, &next.body);
                        let body: Expr = parse_quote!(if #g { #x } else { #y });
                        arms.last_mut().unwrap().body = Box::new(body);
                        continue;
                    }
                }
                arms.push(a);
            }
            arms.reverse();
            for a in &mut arms {
                a.comma = Some(Default::default());
            }
            m.arms = arms;
        }
    }
    V.visit_block_mut(b);
}

/// `P if g => a, _ => b` becomes `P => if g { a } else { b }, _ => b` (where `b` uses nothing which `P` binds).
pub fn wild_guards(b: &mut Block) {
    struct Names(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for Names {
        fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
            self.0.insert(i.ident.to_string());
        }
    }
    struct Uses(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for Uses {
        fn visit_ident(&mut self, i: &'a syn::Ident) {
            self.0.insert(i.to_string());
        }
    }
    struct V;
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let n = m.arms.len();
            if n < 2 || !matches!(m.arms[n - 1].pat, Pat::Wild(_)) || m.arms[n - 1].guard.is_some() {
                return;
            }
            let Some((_, g)) = m.arms[n - 2].guard.clone() else { return };
            let mut names = Names(HashSet::new());
            syn::visit::visit_pat(&mut names, &m.arms[n - 2].pat);
            let mut uses = Uses(HashSet::new());
            syn::visit::visit_expr(&mut uses, &m.arms[n - 1].body);
            if !names.0.is_disjoint(&uses.0) {
                return;
            }
            let (x, y) = (m.arms[n - 2].body.clone(), m.arms[n - 1].body.clone());
            m.arms[n - 2].guard = None;
            m.arms[n - 2].body = Box::new(parse_quote!(if #g { #x } else { #y }));
            m.arms[n - 2].comma = Some(Default::default());
        }
    }
    V.visit_block_mut(b);
}

/// `match x { P(ref a) .. => b, .., x => c }` becomes `match &x { P(a) .. => b, .., _ => { let x = x; c } }`.
pub fn ref_match(b: &mut Block) {
    struct Bind {
        refs: usize,
        moves: usize,
    }
    impl VisitMut for Bind {
        fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
            if p.by_ref.take().is_some() {
                self.refs += 1;
            } else if p.ident.to_string().starts_with(|c: char| c.is_lowercase()) {
                self.moves += 1;
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
    }
    struct V;
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let Expr::Path(x) = &*m.expr else { return };
            let x = x.clone();
            let mut n = m.clone();
            let mut all = Bind { refs: 0, moves: 0 };
            for a in &mut n.arms {
                if let (Pat::Ident(p), None) = (&a.pat, &a.guard) {
                    if p.by_ref.is_none() && p.subpat.is_none() {
                        let (p, e) = (p.clone(), a.body.clone());
                        a.pat = parse_quote!(_);
                        a.body = parse_quote!({ let #p = #x; #e });
                        continue;
                    }
                }
                all.visit_pat_mut(&mut a.pat);
            }
            if all.refs > 0 && all.moves == 0 {
                n.expr = parse_quote!(&#x);
                *m = n;
            }
        }
    }
    V.visit_block_mut(b);
}

/// `for p in e { .. }` becomes `{ let mut vx_it = vx_into(e); while let Some(p) = vx_it.next() { .. } }`.
pub fn for_next(b: &mut Block) {
    struct V(usize);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::ForLoop(f) = e {
                let it = quote::format_ident!("vx_it{}", self.0);
                self.0 += 1;
                let (label, pat, over, body) = (&f.label, &f.pat, &f.expr, &f.body);
                *e = parse_quote!({
                    let mut #it = vx_into(#over);
                    #label while let Some(#pat) = #it.next() #body
                });
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V(0).visit_block_mut(b);
}

/// `match (a, b) { (P, Q) if g => .. }`, where `g` does not depend on the pattern and has no effect, becomes
/// `match (a, b, g) { (P, Q, true) => .. }`.
pub fn hoist_guards(b: &mut Block) {
    struct V;
    fn simple(e: &Expr) -> bool {
        match e {
            Expr::Path(_) | Expr::Lit(_) => true,
            Expr::Field(f) => simple(&f.base),
            Expr::Unary(u) => simple(&u.expr),
            Expr::Paren(u) => simple(&u.expr),
            Expr::Binary(u) => simple(&u.left) && simple(&u.right),
            Expr::Macro(m) => {
                m.mac.path.is_ident("matches")
                    && syn::parse::Parser::parse2(
                        |i: syn::parse::ParseStream| {
                            let e: Expr = i.parse()?;
                            let _: proc_macro2::TokenStream = i.parse()?;
                            Ok(e)
                        },
                        m.mac.tokens.clone(),
                    )
                    .is_ok_and(|e| simple(&e))
            }
            _ => false,
        }
    }
    fn idents(ts: proc_macro2::TokenStream, out: &mut HashSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Ident(i) => {
                    out.insert(i.to_string());
                }
                proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
                _ => (),
            }
        }
    }
    struct Bound(HashSet<String>);
    impl<'a> syn::visit::Visit<'a> for Bound {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.insert(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    impl VisitMut for V {
        fn visit_expr_match_mut(&mut self, m: &mut syn::ExprMatch) {
            visit_mut::visit_expr_match_mut(self, m);
            let Expr::Tuple(t) = &mut *m.expr else { return };
            let mut guards: Vec<String> = vec![];
            for a in &m.arms {
                if !matches!(&a.pat, Pat::Tuple(_) | Pat::Wild(_)) {
                    return;
                }
                if let Some((_, g)) = &a.guard {
                    let mut bound = Bound(HashSet::new());
                    syn::visit::Visit::visit_pat(&mut bound, &a.pat);
                    let mut used = HashSet::new();
                    idents(g.to_token_stream(), &mut used);
                    if !simple(g) || bound.0.intersection(&used).next().is_some() {
                        return;
                    }
                    let s = g.to_token_stream().to_string();
                    if !guards.contains(&s) {
                        guards.push(s);
                        t.elems.push((**g).clone());
                    }
                }
            }
            for a in &mut m.arms {
                let g = a.guard.take().map(|(_, g)| g.to_token_stream().to_string());
                if let Pat::Tuple(p) = &mut a.pat {
                    for k in &guards {
                        p.elems.push(if Some(k) == g.as_ref() { parse_quote!(true) } else { parse_quote!(_) });
                    }
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// Replace the body of the match arms with the given pattern.
pub fn opaque_arm(b: &mut Block, pat: &str, body: &Expr) -> bool {
    struct V<'a>(String, &'a Expr, bool);
    impl VisitMut for V<'_> {
        fn visit_arm_mut(&mut self, a: &mut syn::Arm) {
            if squash(&a.pat.to_token_stream().to_string()) == self.0 {
                a.body = Box::new(self.1.clone());
                a.comma = Some(Default::default());
                self.2 = true;
                return;
            }
            visit_mut::visit_arm_mut(self, a);
        }
    }
    let mut v = V(squash(pat), body, false);
    v.visit_block_mut(b);
    v.2
}

fn has_flow(e: &Expr) -> bool {
    has_return(e, true)
}

fn has_return(e: &Expr, tries: bool) -> bool {
    struct V(bool, bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
            self.0 |= self.1;
            syn::visit::visit_expr_try(self, t);
        }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false, tries);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// Calls of closures bound by `let` are replaced by the closure's body.
pub fn inline_closures(b: &mut Block) {
    struct V {
        n: usize,
    }
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            loop {
                let mut found = None;
                for (i, s) in b.stmts.iter().enumerate() {
                    if let Stmt::Local(l) = s {
                        if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                            if let Expr::Closure(c) = &*init.expr {
                                if !has_flow(&c.body) && p.mutability.is_none() {
                                    let name = p.ident.to_string();
                                    let uses = count_uses(&b.stmts[i + 1..], &name);
                                    if uses.0 == uses.1 && uses.0 > 0 {
                                        found = Some((i, name, c.clone()));
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                let Some((i, name, c)) = found else { break };
                b.stmts.remove(i);
                let mut r = R { name, c, n: &mut self.n };
                for s in &mut b.stmts[i..] {
                    r.visit_stmt_mut(s);
                }
            }
        }
    }
    struct R<'a> {
        name: String,
        c: syn::ExprClosure,
        n: &'a mut usize,
    }
    impl VisitMut for R<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(call) = e {
                if let Expr::Path(p) = &*call.func {
                    if p.path.is_ident(&self.name) && call.args.len() == self.c.inputs.len() {
                        *e = beta(&self.c.inputs.iter().cloned().collect::<Vec<_>>(), &call.args.iter().cloned().collect::<Vec<_>>(), &self.c.body, self.n);
                    }
                }
            }
        }
    }
    V { n: 0 }.visit_block_mut(b);
}

/// `(|p, ..| body)(a, ..)`
pub fn beta(params: &[Pat], args: &[Expr], body: &Expr, n: &mut usize) -> Expr {
    let mut stmts: Vec<Stmt> = vec![];
    let mut second: Vec<Stmt> = vec![];
    for (p, a) in params.iter().zip(args) {
        let tmp = ident(&format!("vx_a{n}"));
        *n += 1;
        stmts.push(parse_quote!(let #tmp = #a;));
        match p {
            Pat::Type(t) => {
                let (p, ty) = (&t.pat, &t.ty);
                if quote!(#ty).to_string().contains('_') && squash(&quote!(#ty).to_string()) == "_" {
                    second.push(parse_quote!(let #p = #tmp;));
                } else {
                    second.push(parse_quote!(let #p: #ty = #tmp;));
                }
            }
            p => second.push(parse_quote!(let #p = #tmp;)),
        }
    }
    stmts.extend(second);
    match body {
        Expr::Block(b) if b.label.is_none() => stmts.extend(b.block.stmts.clone()),
        e => stmts.push(Stmt::Expr(e.clone(), None)),
    }
    let b = Block { brace_token: Default::default(), stmts };
    parse_quote!(#b)
}

/// (number of uses, number of uses as the function of a call)
fn count_uses(stmts: &[Stmt], name: &str) -> (usize, usize) {
    struct C<'n>(&'n str, usize, usize);
    impl<'a> syn::visit::Visit<'a> for C<'_> {
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
            if p.path.is_ident(self.0) {
                self.1 += 1;
            }
        }
        fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident(self.0) {
                    self.2 += 1;
                }
            }
            syn::visit::visit_expr_call(self, c);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            if m.tokens.clone().into_iter().any(|t| t.to_string().contains(self.0)) {
                self.1 += 1;
            }
        }
    }
    let mut c = C(name, 0, 0);
    for s in stmts {
        syn::visit::Visit::visit_stmt(&mut c, s);
    }
    (c.1, c.2)
}

/// `loop { .. break v .. }` becomes `{ let x; loop { .. { x = v; break } .. } x }`.
pub fn break_values(b: &mut Block) {
    struct V {
        n: usize,
    }
    struct B<'a> {
        x: &'a syn::Ident,
        hit: bool,
    }
    impl VisitMut for B<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Closure(_) => (),
                Expr::Break(br) if br.expr.is_some() && br.label.is_none() => {
                    let v = br.expr.take().unwrap();
                    let x = self.x;
                    *e = parse_quote!({ #x = #v; break; });
                    self.hit = true;
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Loop(l) = e {
                let x = ident(&format!("vx_b{}", self.n));
                let mut v = B { x: &x, hit: false };
                v.visit_block_mut(&mut l.body);
                if v.hit {
                    self.n += 1;
                    *e = parse_quote!({ let #x; #l #x });
                }
            }
        }
    }
    V { n: 0 }.visit_block_mut(b);
}

pub fn unreachable(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Macro(m) = e {
                let n = m.mac.path.to_token_stream().to_string();
                if n == "unreachable" || n == "panic" {
                    *e = parse_quote!(vx_unreachable());
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// Calls of helper functions which have no contract are replaced by the helper's body.
pub struct Inline<'a> {
    pub known: &'a HashSet<String>,
    pub find: &'a mut dyn FnMut(&str, bool) -> Option<(syn::Signature, Block)>,
    pub n: usize,
    pub done: Vec<String>,
}

impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `f(x)?`: an error within the body of `f` is returned as well
        if let Expr::Try(t) = e {
            if self.inline(&mut t.expr, false) {
                if let Expr::Block(b) = &mut *t.expr {
                    if let Some(Stmt::Expr(last, None)) = b.block.stmts.last_mut() {
                        match last {
                            Expr::Call(c) if c.args.len() == 1 && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Ok")) => *last = c.args[0].clone(),
                            _ => *last = parse_quote!(#last?),
                        }
                        let b = t.expr.clone();
                        *e = *b;
                    }
                }
                self.visit_expr_mut(e);
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if self.inline(e, true) {
            // the body may call further helpers
            self.visit_expr_mut(e);
        }
    }
}

impl Inline<'_> {
    fn inline(&mut self, e: &mut Expr, tries: bool) -> bool {
        if self.done.len() > 50 {
            return false;
        }
        let (name, method, args) = match e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return false };
                if p.qself.is_some() {
                    return false;
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                match segs.as_slice() {
                    [f] => (f.clone(), false, c.args.iter().cloned().collect::<Vec<_>>()),
                    [s, f] if s == "Self" => (f.clone(), true, c.args.iter().cloned().collect()),
                    _ => return false,
                }
            }
            Expr::MethodCall(m) => {
                if !matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    return false;
                }
                let mut v = vec![(*m.receiver).clone()];
                v.extend(m.args.iter().cloned());
                (m.method.to_string(), true, v)
            }
            _ => return false,
        };
        if self.known.contains(&name) {
            return false;
        }
        let Some((sig, block)) = (self.find)(&name, method) else { return false };
        let body: Expr = parse_quote!(#block);
        if has_return(&body, tries) || sig.inputs.len() != args.len() {
            return false;
        }
        let mut params = vec![];
        let mut actual = vec![];
        for (p, a) in sig.inputs.iter().zip(args) {
            match p {
                syn::FnArg::Receiver(_) => (),
                // the same name
                syn::FnArg::Typed(t) if matches!((&*t.pat, &a), (Pat::Ident(x), Expr::Path(y)) if x.by_ref.is_none() && x.mutability.is_none() && x.subpat.is_none() && y.path.is_ident(&x.ident)) => (),
                syn::FnArg::Typed(t) => {
                    // The types of the parameters may mention the helper's own generics.
                    params.push((*t.pat).clone());
                    // a reference which is passed on is borrowed again
                    let again = matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) && matches!(a, Expr::Path(_));
                    actual.push(if again { parse_quote!(&mut *#a) } else { a });
                }
            }
        }
        *e = beta(&params, &actual, &body, &mut self.n);
        self.done.push(name);
        true
    }
}

/// Insert markers for loop contracts and proof blocks.
pub struct Annotate<'a> {
    pub loops: &'a HashSet<usize>,
    /// `for` loops whose iterator has a name
    pub named: &'a HashSet<usize>,
    /// (loop number, at the end of the body?, table index)
    pub loop_blocks: &'a [(usize, bool, usize)],
    /// (substring, after?, table index)
    pub anchors: Vec<(String, bool, usize, bool)>,
    pub count: usize,
}

/// Insert markers for the specifications of closures which are bound by `let`.
pub fn closure_specs(b: &mut Block, first: usize, specs: &HashSet<usize>) {
    struct V<'a>(usize, &'a HashSet<usize>);
    impl VisitMut for V<'_> {
        fn visit_local_mut(&mut self, l: &mut syn::Local) {
            if let Some(init) = &mut l.init {
                if let Expr::Closure(c) = &mut *init.expr {
                    self.0 += 1;
                    if self.1.contains(&self.0) && matches!(c.output, syn::ReturnType::Default) {
                        if !matches!(&*c.body, Expr::Block(_)) {
                            let x = &c.body;
                            *c.body = parse_quote!({ #x });
                        }
                        if let Expr::Block(x) = &mut *c.body {
                            let i = syn::LitInt::new(&self.0.to_string(), proc_macro2::Span::call_site());
                            x.block.stmts.insert(0, parse_quote!(__vx_inv!(#i);));
                        }
                    }
                }
            }
            visit_mut::visit_local_mut(self, l);
        }
    }
    V(first, specs).visit_block_mut(b);
}

fn tab(i: usize) -> Stmt {
    let i = syn::LitInt::new(&i.to_string(), proc_macro2::Span::call_site());
    parse_quote!(__vx_tab!(#i);)
}

impl VisitMut for Annotate<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let is_loop = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
        let mut k = 0;
        if is_loop {
            self.count += 1;
            k = self.count;
        }
        visit_mut::visit_expr_mut(self, e);
        if let (Expr::ForLoop(f), true) = (&mut *e, self.named.contains(&k)) {
            let (i, over) = (syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site()), &f.expr);
            f.expr = parse_quote!(__vx_it!(#i, #over));
        }
        let body = match e {
            Expr::Loop(l) => &mut l.body,
            Expr::While(l) => &mut l.body,
            Expr::ForLoop(l) => &mut l.body,
            _ => return,
        };
        for (n, end, t) in self.loop_blocks {
            if *n == k {
                if *end {
                    if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() {
                        *semi = Some(Default::default());
                    }
                    body.stmts.push(tab(*t));
                } else {
                    body.stmts.insert(0, tab(*t));
                }
            }
        }
        if self.loops.contains(&k) {
            let i = syn::LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
            body.stmts.insert(0, parse_quote!(__vx_inv!(#i);));
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            let text = squash(&s.to_token_stream().to_string());
            let mut before = vec![];
            let mut after = vec![];
            for (sub, is_after, t, used) in &mut self.anchors {
                if !*used && text.contains(&*sub) {
                    *used = true;
                    if *is_after {
                        after.push(tab(*t));
                    } else {
                        before.push(tab(*t));
                    }
                }
            }
            out.extend(before);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

/// `vec![a, ..]` as a call, so that its elements are seen.
pub fn vec_calls(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Macro(m) = e {
                if m.mac.path.is_ident("vec") {
                    let parser = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated;
                    if let Ok(elems) = m.mac.parse_body_with(parser) {
                        *e = parse_quote!(__vx_vec(#elems));
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    V.visit_block_mut(b);
}

pub fn calls_vec(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("__vx_vec")) {
                    let elems = &c.args;
                    *e = parse_quote!(vec![#elems]);
                }
            }
        }
    }
    V.visit_block_mut(b);
}

/// `v.iter().map(|x| e).collect::<Vec<_>>()` is a loop, and so are `v.iter().enumerate().map(|(i, x)| e).collect::<Vec<_>>()`,
/// `v.iter().map(|x| e).collect::<Result<_, _>>()?`, `v.iter().all(|x| e)` and `v.iter().any(|x| e)`.
pub fn iter_map(b: &mut Block) {
    struct V(usize);
    impl V {
        fn results(&mut self, e: &Expr) -> Option<Expr> {
            let Expr::MethodCall(c) = e else { return None };
            if c.method != "collect" || !c.turbofish.as_ref()?.to_token_stream().to_string().contains("Result <") {
                return None;
            }
            let Expr::MethodCall(m) = &*c.receiver else { return None };
            let (true, Some(Expr::Closure(f))) = (m.method == "map", m.args.first()) else { return None };
            let Expr::MethodCall(i) = &*m.receiver else { return None };
            if i.method != "iter" || f.inputs.len() != 1 || crate::nomel::flow(&*f.body).1 {
                return None;
            }
            let (v, p, body, it) = (quote::format_ident!("vx_m{}", self.0), &f.inputs[0], &*f.body, &*m.receiver);
            self.0 += 1;
            Some(parse_quote!({
                let mut #v = Vec::new();
                for #p in #it {
                    let vx_e = match #body { Ok(x) => x, Err(e) => return Err(e) };
                    #v.push(vx_e);
                }
                #v
            }))
        }
    }
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Try(t) = &*e {
                if let Some(x) = self.results(&t.expr) {
                    *e = x;
                    return;
                }
            }
            let Expr::MethodCall(c) = &*e else { return };
            if let (true, [Expr::Closure(f)]) = (c.method == "all" || c.method == "any", &*c.args.iter().cloned().collect::<Vec<_>>()) {
                let Expr::MethodCall(i) = &*c.receiver else { return };
                if i.method != "iter" || f.inputs.len() != 1 || crate::nomel::flow(&*f.body) != (false, false) {
                    return;
                }
                let (v, p, body, it) = (quote::format_ident!("vx_m{}", self.0), &f.inputs[0], &*f.body, &*c.receiver);
                self.0 += 1;
                *e = if c.method == "all" {
                    parse_quote!({ let mut #v = true; for #p in #it { #v = #v && #body; } #v })
                } else {
                    parse_quote!({ let mut #v = false; for #p in #it { #v = #v || #body; } #v })
                };
                return;
            }
            let vec = c.turbofish.as_ref().map_or(false, |t| t.to_token_stream().to_string().contains("Vec < _ >"));
            if c.method != "collect" || !vec {
                return;
            }
            let Expr::MethodCall(m) = &*c.receiver else { return };
            let (true, Some(Expr::Closure(f))) = (m.method == "map", m.args.first()) else { return };
            let Expr::MethodCall(i) = &*m.receiver else { return };
            if let (true, [Pat::Tuple(p)], Expr::MethodCall(j)) = (i.method == "enumerate", &*f.inputs.iter().cloned().collect::<Vec<_>>(), &*i.receiver) {
                if j.method == "iter" && p.elems.len() == 2 && matches!(&*j.receiver, Expr::Path(_) | Expr::Field(_)) && crate::nomel::flow(&*f.body) == (false, false) {
                    let (v, k, body, it) = (quote::format_ident!("vx_m{}", self.0), quote::format_ident!("vx_n{}", self.0), &*f.body, &*j.receiver);
                    self.0 += 1;
                    *e = parse_quote!({
                        let mut #v = Vec::new();
                        for #k in 0..#it.len() {
                            let #p = (#k, &#it[#k]);
                            let vx_e = #body;
                            #v.push(vx_e);
                        }
                        #v
                    });
                }
                return;
            }
            if !["iter", "iter_mut", "into_iter"].iter().any(|n| i.method == n) || f.inputs.len() != 1 || crate::nomel::flow(&*f.body) != (false, false) {
                return;
            }
            let (v, p, body, it) = (quote::format_ident!("vx_m{}", self.0), &f.inputs[0], &*f.body, &*m.receiver);
            self.0 += 1;
            *e = parse_quote!({
                let mut #v = Vec::new();
                for #p in #it {
                    let vx_e = #body;
                    #v.push(vx_e);
                }
                #v
            });
        }
    }
    V(1).visit_block_mut(b);
}

/// `x.and_then(|p| e)` and `x.map(|p| e)` of an `Option` are matches.
pub fn options(b: &mut Block) {
    /// `{ ..; if c { return e } .. }` is `{ ..; if c { e } else { .. } }`.
    fn value(stmts: &[Stmt]) -> Vec<Stmt> {
        for (k, s) in stmts.iter().enumerate() {
            let Stmt::Expr(e, _) = s else { continue };
            if let Expr::Return(r) = e {
                let x = r.expr.clone();
                return stmts[..k].iter().cloned().chain(x.map(|x| Stmt::Expr(*x, None))).collect();
            }
            let Expr::If(i) = e else { continue };
            if i.else_branch.is_none() && matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                let (c, a, b) = (&i.cond, value(&i.then_branch.stmts), value(&stmts[k + 1..]));
                let x: Expr = parse_quote!(if #c { #(#a)* } else { #(#b)* });
                return stmts[..k].iter().cloned().chain([Stmt::Expr(x, None)]).collect();
            }
        }
        stmts.to_vec()
    }
    struct V;
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let Expr::MethodCall(m) = &*e else { return };
            let (true, Some(Expr::Closure(c))) = (m.method == "and_then" || m.method == "map", m.args.first()) else { return };
            if c.inputs.len() != 1 || matches!(&*m.receiver, Expr::MethodCall(r) if r.method == "iter" || r.method == "enumerate") {
                return;
            }
            let body: Expr = match &*c.body {
                Expr::Block(b) => {
                    let s = value(&b.block.stmts);
                    parse_quote!({ #(#s)* })
                }
                x => x.clone(),
            };
            if crate::nomel::flow(&body) != (false, false) {
                return;
            }
            let (x, p) = (&m.receiver, &c.inputs[0]);
            *e = if m.method == "map" { parse_quote!(match #x { Some(#p) => Some(#body), None => None }) } else { parse_quote!(match #x { Some(#p) => #body, None => None }) };
        }
    }
    V.visit_block_mut(b);
}

/// `for (a, b) in v` binds the pattern inside of the loop.
pub fn for_pat(b: &mut Block) {
    struct V(usize);
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            if !matches!(&*f.pat, Pat::Ident(_) | Pat::Wild(_)) {
                let (x, p) = (quote::format_ident!("vx_p{}", self.0), f.pat.clone());
                self.0 += 1;
                *f.pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: x.clone(), subpat: None });
                f.body.stmts.insert(0, parse_quote!(let #p = #x;));
            }
        }
    }
    V(1).visit_block_mut(b);
}

/// `for x in v.iter_mut()` visits `&mut v[0]`, `&mut v[1]`, .., and `for (x, y) in v.iter_mut().zip(w.iter())` these
/// together with `&w[0]`, `&w[1]`, .. while there are both.
pub fn for_index(b: &mut Block) {
    struct V(usize);
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            fn place<'e>(e: &'e Expr, method: &str) -> Option<&'e Expr> {
                match e {
                    Expr::Reference(r) if method == "iter" && r.mutability.is_none() && matches!(&*r.expr, Expr::Path(_) | Expr::Field(_)) => Some(&r.expr),
                    Expr::MethodCall(m) if m.method == method && m.args.is_empty() && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) => Some(&m.receiver),
                    _ => None,
                }
            }
            if let Expr::MethodCall(m) = &*f.expr {
                let zip = |first| if m.method == "zip" && m.args.len() == 1 { place(&m.receiver, first).zip(place(&m.args[0], "iter")) } else { None };
                let (mutable, shared) = (zip("iter_mut"), zip("iter"));
                if let Some((v, w)) = mutable.or(shared).map(|(v, w)| (v.clone(), w.clone())) {
                    let mutable = mutable.is_some();
                    let (p, i) = (f.pat.clone(), quote::format_ident!("vx_i{}", self.0));
                    self.0 += 1;
                    *f.expr = parse_quote!(0..(if #v.len() < #w.len() { #v.len() } else { #w.len() }));
                    *f.pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None });
                    f.body.stmts.insert(0, if mutable { parse_quote!(let #p = (&mut #v[#i], &#w[#i]);) } else { parse_quote!(let #p = (&#v[#i], &#w[#i]);) });
                } else if m.method == "iter_mut" && matches!(&*m.receiver, Expr::Path(_) | Expr::Field(_)) {
                    let (v, p, i) = (m.receiver.clone(), f.pat.clone(), quote::format_ident!("vx_i{}", self.0));
                    self.0 += 1;
                    *f.expr = parse_quote!(0..#v.len());
                    *f.pat = Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i.clone(), subpat: None });
                    f.body.stmts.insert(0, parse_quote!(let #p = &mut #v[#i];));
                }
            }
        }
    }
    V(1).visit_block_mut(b);
}

/// `for x in &mut v` is `for x in v.iter_mut()`, and `for x in &v` is `for x in v.iter()`.
pub fn for_borrow(b: &mut Block) {
    struct V;
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            let Expr::Reference(r) = &*f.expr else { return };
            if let (v @ (Expr::Path(_) | Expr::Field(_)), m) = (&*r.expr, if r.mutability.is_some() { "iter_mut" } else { "iter" }) {
                let m = quote::format_ident!("{m}");
                *f.expr = parse_quote!(#v.#m());
            }
        }
    }
    V.visit_block_mut(b);
}

/// `for x in v` of a `&mut Vec` is `for x in v.iter_mut()`. If the elements are only read (the verifier's type checker
/// would reject it otherwise), `v.iter()` does the same.
pub fn for_mut(b: &mut Block, method: &str) {
    struct V(syn::Ident);
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, f: &mut syn::ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            if let Expr::Path(p) = &*f.expr {
                let m = &self.0;
                *f.expr = parse_quote!(#p.#m());
            }
        }
    }
    V(quote::format_ident!("{method}")).visit_block_mut(b);
}

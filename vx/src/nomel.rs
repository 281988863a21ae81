//! nom parsers (closures built by combinators, applied to an input) become first-order code: every combinator is replaced by
//! what it does with the input (nom 7, complete input). Errors carry no information.
use crate::rules::ident;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Block, Expr, Pat, Stmt};

type Res<T> = Result<T, String>;
pub type Find<'a> = &'a mut dyn FnMut(&str, bool) -> Option<(syn::Signature, Block)>;

const COMBINATORS: &[&str] = &[
    "alt", "map", "map_opt", "map_res", "value", "verify", "opt", "pair", "tuple", "preceded", "terminated", "delimited", "not",
    "recognize", "all_consuming", "many0", "many1", "fold_many0", "fold_many1", "fold_many_m_n", "separated_list0", "permutation",
    "satisfy", "peek", "separated_pair", "cut", "complete", "into", "success", "count", "many_m_n", "separated_list1", "rest",
];
/// Functions which take arguments and return a parser.
const MAKERS: &[&str] = &["char", "tag", "tag_no_case", "one_of", "none_of", "is_a", "is_not", "take_until", "take_while", "take_while1", "take"];
/// Parsers.
const LEAVES: &[&str] = &["anychar", "digit1", "digit0", "hex_digit1", "hex_digit0", "oct_digit0", "oct_digit1", "alpha1", "eof"];

/// Parameterized parsers of the crate which are replaced by their definition.
pub struct Inlined {
    pub params: Vec<String>,
    pub body: Expr,
}

pub fn peel(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => peel(&p.expr),
        Expr::Group(p) => peel(&p.expr),
        Expr::Reference(r) => peel(&r.expr),
        e => e,
    }
}

/// A block of nothing but an expression is that expression.
fn unblock(e: &Expr) -> &Expr {
    match peel(e) {
        Expr::Block(b) if b.label.is_none() => match b.block.stmts.as_slice() {
            [Stmt::Expr(x, None)] => unblock(x),
            _ => peel(e),
        },
        e => e,
    }
}

fn callee(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

fn single(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        _ => None,
    }
}

fn nom_path(e: &Expr) -> Option<String> {
    match peel(e) {
        Expr::Path(p) => {
            let s = p.path.segments.last()?.ident.to_string();
            (p.path.segments.len() == 1 || p.path.segments[0].ident == "nom").then_some(s)
        }
        _ => None,
    }
}

/// `fn f(a) -> impl Fn(b) -> c { move |b| body }` is the function of both.
pub fn uncurry(b: &mut Block) -> Res<()> {
    let n = b.stmts.len();
    let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return Err("lost anchor: no closure is returned".into()) };
    let Expr::Closure(c) = peel(e).clone() else { return Err("lost anchor: no closure is returned".into()) };
    b.stmts.truncate(n - 1);
    if !b.stmts.is_empty() {
        return Err("lost anchor: statements before the returned closure".into());
    }
    match &*c.body {
        Expr::Block(x) if x.label.is_none() => b.stmts = x.block.stmts.clone(),
        x => b.stmts = vec![Stmt::Expr(x.clone(), None)],
    }
    Ok(())
}

pub struct Nom<'a> {
    pub vars: HashMap<String, Expr>,
    pub inlined: &'a HashMap<String, Inlined>,
    pub known: &'a dyn Fn(&str) -> bool,
    pub find: Find<'a>,
    pub n: usize,
    pub loops: usize,
    /// Where to insert what about the result `vx_a` of an alternative.
    pub alts: &'a HashMap<(usize, usize), usize>,
    pub nalts: usize,
    pub err: Option<String>,
    pub depth: usize,
    pub curried: Vec<String>,
}

fn is_parser(e: &Expr, inl: &HashMap<String, Inlined>, curried: &[String]) -> bool {
    match peel(e) {
        Expr::Call(c) => match nom_path(&c.func) {
            Some(f) => COMBINATORS.contains(&f.as_str()) || MAKERS.contains(&f.as_str()) || inl.contains_key(&f) || curried.contains(&f),
            None => false,
        },
        // a closure which applies a parser to its only parameter
        Expr::Closure(c) if c.inputs.len() == 1 => match unblock(&c.body) {
            Expr::Call(b) => is_parser(&b.func, inl, curried),
            _ => false,
        },
        _ => false,
    }
}

/// Is there `?` or `return` (which belongs to the closure or the function)?
pub fn flow(e: &impl ToTokens2) -> (bool, bool) {
    struct F(bool, bool);
    impl<'a> Visit<'a> for F {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Try(_) => self.0 = true,
                Expr::Return(_) => self.1 = true,
                Expr::Closure(_) => return,
                _ => (),
            }
            visit::visit_expr(self, e);
        }
    }
    let mut f = F(false, false);
    e.accept(&mut f);
    (f.0, f.1)
}
trait ToTokens2 {
    fn accept<'a, V: Visit<'a>>(&'a self, v: &mut V);
}
impl ToTokens2 for Expr {
    fn accept<'a, V: Visit<'a>>(&'a self, v: &mut V) {
        v.visit_expr(self)
    }
}
impl ToTokens2 for Stmt {
    fn accept<'a, V: Visit<'a>>(&'a self, v: &mut V) {
        v.visit_stmt(self)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Option,
    Result,
}

impl Nom<'_> {
    fn fresh(&mut self, p: &str) -> syn::Ident {
        self.n += 1;
        ident(&format!("vx_{p}{}", self.n))
    }

    /// Collect parsers bound to variables.
    pub fn bindings(&mut self, b: &mut Block) -> Res<()> {
        struct V<'b, 'a> {
            s: &'b mut Nom<'a>,
            err: Option<String>,
        }
        impl VisitMut for V<'_, '_> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                let mut keep = vec![];
                for s in std::mem::take(&mut b.stmts) {
                    if let Stmt::Local(l) = &s {
                        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
                            if i.diverge.is_none() && is_parser(&i.expr, self.s.inlined, &self.s.curried) {
                                let e = peel(&i.expr).clone();
                                if let Some(o) = self.s.vars.get(&p.ident.to_string()) {
                                    if o.to_token_stream().to_string() != e.to_token_stream().to_string() {
                                        self.err = Some(format!("lost anchor: parser {} is bound twice", p.ident));
                                    }
                                }
                                self.s.vars.insert(p.ident.to_string(), e);
                                continue;
                            }
                        }
                    }
                    keep.push(s);
                }
                b.stmts = keep;
                visit_mut::visit_block_mut(self, b);
            }
        }
        let mut v = V { s: self, err: None };
        v.visit_block_mut(b);
        match v.err {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }

    pub fn block(&mut self, b: &mut Block) -> Res<()> {
        struct V<'b, 'a> {
            s: &'b mut Nom<'a>,
        }
        impl VisitMut for V<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if let Expr::Call(c) = e {
                    if c.args.len() == 1 {
                        let app = match peel(&c.func) {
                            Expr::Call(_) => is_parser(&c.func, self.s.inlined, &self.s.curried),
                            _ => match single(&c.func) {
                                Some(f) => self.s.vars.contains_key(&f) || LEAVES.contains(&f.as_str()),
                                None => false,
                            },
                        };
                        if app {
                            let mut arg = c.args[0].clone();
                            self.visit_expr_mut(&mut arg);
                            let f = (*c.func).clone();
                            match self.s.apply(&f, &arg) {
                                Ok(x) => *e = x,
                                Err(x) => self.s.err = Some(x),
                            }
                            return;
                        }
                    }
                }
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut v = V { s: self };
        v.visit_block_mut(b);
        match self.err.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }

    /// The parser `p` applied to the input `i`.
    fn apply(&mut self, p: &Expr, i: &Expr) -> Res<Expr> {
        self.depth += 1;
        if self.depth > 200 {
            return Err("lost anchor: recursive parser".into());
        }
        let r = self.apply1(p, i);
        self.depth -= 1;
        r
    }

    fn apply1(&mut self, p: &Expr, i: &Expr) -> Res<Expr> {
        if single(i).is_none() {
            let v = self.fresh("i");
            let x = self.apply(p, &parse_quote!(#v))?;
            return Ok(parse_quote!({ let #v = #i; #x }));
        }
        match peel(p) {
            Expr::Path(_) => {
                if let Some(f) = single(p) {
                    if let Some(x) = self.vars.get(&f).cloned() {
                        return self.apply(&x, i);
                    }
                    if LEAVES.contains(&f.as_str()) {
                        let f = ident(&format!("nom_{f}"));
                        return Ok(parse_quote!(#f(#i)));
                    }
                }
                let f = callee(p).unwrap();
                if !(self.known)(&f) {
                    let method = single(p).is_none();
                    if let Some((sig, b)) = (self.find)(&f, method) {
                        return self.inline(&sig, &b, &[i.clone()]);
                    }
                }
                let p = peel(p);
                Ok(parse_quote!(#p(#i)))
            }
            Expr::Closure(c) => self.call(p, &[i.clone()], Some(Kind::Result)).map_err(|e| format!("{e} in {}", c.to_token_stream())),
            Expr::Call(c) => {
                let a: Vec<Expr> = c.args.iter().cloned().collect();
                let Some(f) = nom_path(&c.func) else { return self.maker(c, i) };
                if COMBINATORS.contains(&f.as_str()) {
                    return self.combinator(&f, &a, i);
                }
                if MAKERS.contains(&f.as_str()) {
                    let f = ident(&format!("nom_{f}"));
                    return Ok(parse_quote!(#f(#(#a,)* #i)));
                }
                if let Some(d) = self.inlined.get(&f) {
                    if d.params.len() != a.len() {
                        return Err(format!("lost anchor: {f}"));
                    }
                    let mut body = d.body.clone();
                    struct S(HashMap<String, Expr>);
                    impl VisitMut for S {
                        fn visit_expr_mut(&mut self, e: &mut Expr) {
                            if let Some(x) = single(e).and_then(|n| self.0.get(&n).cloned()) {
                                *e = x;
                                return;
                            }
                            visit_mut::visit_expr_mut(self, e);
                        }
                    }
                    S(d.params.iter().cloned().zip(a).collect()).visit_expr_mut(&mut body);
                    return self.apply(&body, i);
                }
                self.maker(c, i)
            }
            x => Err(format!("lost anchor: unsupported parser {}", x.to_token_stream())),
        }
    }

    /// `f(a)`, which is a parser, applied to `i`.
    fn maker(&mut self, c: &syn::ExprCall, i: &Expr) -> Res<Expr> {
        let f = &c.func;
        let a = c.args.iter();
        if let Some(n) = callee(f) {
            if !(self.known)(&n) {
                return Err(format!("lost anchor: unknown parser {n}"));
            }
        }
        Ok(parse_quote!(#f(#(#a,)* #i)))
    }

    fn inline(&mut self, sig: &syn::Signature, b: &Block, args: &[Expr]) -> Res<Expr> {
        let mut params: Vec<Pat> = vec![];
        for p in &sig.inputs {
            match p {
                syn::FnArg::Typed(t) => params.push((*t.pat).clone()),
                _ => return Err("lost anchor: method".into()),
            }
        }
        if params.len() != args.len() {
            return Err("lost anchor: arity".into());
        }
        let mut b = b.clone();
        crate::passes::strip_attrs(&mut b);
        crate::passes::noops(&mut b);
        let c: Expr = parse_quote!(|#(#params),*| #b);
        self.call(&c, args, Some(Kind::Result))
    }

    /// The function `f` (a closure, a path, or a function returning a closure) called with `args`.
    fn call(&mut self, f: &Expr, args: &[Expr], k: Option<Kind>) -> Res<Expr> {
        match peel(f) {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return Err("lost anchor: closure arity".into());
                }
                let mut body = (*c.body).clone();
                if flow(&body).0 || flow(&body).1 {
                    let Some(k) = k else { return Err("lost anchor: control flow in a closure".into()) };
                    body = self.untry(&body, k)?;
                }
                // nested parsers
                let mut b: Block = parse_quote!({ #body });
                self.bindings(&mut b)?;
                self.block(&mut b)?;
                let mut st: Vec<Stmt> = vec![];
                let mut late: Vec<Stmt> = vec![];
                for (p, a) in c.inputs.iter().zip(args) {
                    // simultaneous binding
                    let name = match p {
                        Pat::Ident(p) => Some(p.ident.to_string()),
                        Pat::Type(t) => match &*t.pat {
                            Pat::Ident(p) => Some(p.ident.to_string()),
                            _ => None,
                        },
                        _ => None,
                    };
                    if name.is_some() && name == single(a) && !matches!(p, Pat::Ident(p) if p.mutability.is_some()) {
                        continue;
                    }
                    if matches!(p, Pat::Wild(_)) {
                        continue;
                    }
                    if args.len() == 1 {
                        late.push(parse_quote!(let #p = #a;));
                    } else {
                        let v = self.fresh("b");
                        st.push(parse_quote!(let #v = #a;));
                        late.push(parse_quote!(let #p = #v;));
                    }
                }
                st.extend(late);
                if let [Stmt::Expr(Expr::Block(x), None)] = b.stmts.as_slice() {
                    if x.label.is_none() && x.attrs.is_empty() {
                        b = x.block.clone();
                    }
                }
                st.extend(b.stmts);
                if let [Stmt::Expr(x, None)] = st.as_slice() {
                    return Ok(x.clone());
                }
                Ok(parse_quote!({ #(#st)* }))
            }
            Expr::Path(_) => {
                let f = peel(f);
                Ok(parse_quote!(#f(#(#args),*)))
            }
            Expr::Call(c) => {
                let f = &c.func;
                let a = c.args.iter();
                Ok(parse_quote!(#f(#(#a,)* #(#args),*)))
            }
            x => Err(format!("lost anchor: unsupported function {}", x.to_token_stream())),
        }
    }

    /// Predicates and nullary functions.
    fn combinator(&mut self, f: &str, a: &[Expr], i: &Expr) -> Res<Expr> {
        let need = |n: usize| if a.len() == n { Ok(()) } else { Err(format!("lost anchor: arity of {f}")) };
        let r = self.fresh("r");
        let v = self.fresh("v");
        let rv: Expr = parse_quote!(#r);
        let vv: Expr = parse_quote!(#v);
        let _ = &rv;
        let tuple = |e: &Expr| -> Res<Vec<Expr>> {
            match peel(e) {
                Expr::Tuple(t) => Ok(t.elems.iter().cloned().collect()),
                _ => Err(format!("lost anchor: operands of {f}")),
            }
        };
        Ok(match f {
            "alt" => {
                need(1)?;
                let ps = tuple(&a[0])?;
                let mut out: Option<Expr> = None;
                let mut done = vec![];
                self.nalts += 1;
                let n = self.nalts;
                for (k, p) in ps.iter().enumerate() {
                    let mut x = self.apply(p, i)?;
                    if let Some(t) = self.alts.get(&(n, k + 1)) {
                        let t = syn::LitInt::new(&t.to_string(), proc_macro2::Span::call_site());
                        x = parse_quote!({ let vx_a = #x; __vx_tab!(#t); vx_a });
                    }
                    done.push(x);
                }
                for x in done.into_iter().rev() {
                    out = Some(match out {
                        None => x,
                        Some(o) => parse_quote!(match #x { Ok(#v) => Ok(#v), Err(_) => #o }),
                    });
                }
                out.ok_or("alt")?
            }
            "map" => {
                need(2)?;
                let p = self.apply(&a[0], i)?;
                let g = self.call(&a[1], &[vv], None)?;
                parse_quote!(match #p { Ok((#r, #v)) => Ok((#r, #g)), Err(_) => Err(NErr) })
            }
            "map_opt" => {
                need(2)?;
                let p = self.apply(&a[0], i)?;
                let g = self.call(&a[1], &[vv], Some(Kind::Option))?;
                let w = self.fresh("w");
                parse_quote!(match #p { Ok((#r, #v)) => match #g { Some(#w) => Ok((#r, #w)), None => Err(NErr) }, Err(_) => Err(NErr) })
            }
            "map_res" => {
                need(2)?;
                let p = self.apply(&a[0], i)?;
                let g = self.call(&a[1], &[vv], Some(Kind::Result))?;
                let w = self.fresh("w");
                parse_quote!(match #p { Ok((#r, #v)) => match #g { Ok(#w) => Ok((#r, #w)), Err(_) => Err(NErr) }, Err(_) => Err(NErr) })
            }
            "value" => {
                need(2)?;
                let p = self.apply(&a[1], i)?;
                let c = &a[0];
                parse_quote!(match #p { Ok((#r, _)) => Ok((#r, #c)), Err(_) => Err(NErr) })
            }
            "verify" => {
                need(2)?;
                let p = self.apply(&a[0], i)?;
                let g = self.call(&a[1], &[parse_quote!(&#v)], None)?;
                parse_quote!(match #p { Ok((#r, #v)) => if #g { Ok((#r, #v)) } else { Err(NErr) }, Err(_) => Err(NErr) })
            }
            "satisfy" => {
                need(1)?;
                let g = self.call(&a[0], &[vv], None)?;
                parse_quote!(match nom_anychar(#i) { Ok((#r, #v)) => if #g { Ok((#r, #v)) } else { Err(NErr) }, Err(_) => Err(NErr) })
            }
            "opt" => {
                need(1)?;
                let p = self.apply(&a[0], i)?;
                parse_quote!(match #p { Ok((#r, #v)) => Ok::<_, NErr>((#r, Some(#v))), Err(_) => Ok::<_, NErr>((#i, None)) })
            }
            "peek" => {
                need(1)?;
                let p = self.apply(&a[0], i)?;
                parse_quote!(match #p { Ok((_, #v)) => Ok((#i, #v)), Err(_) => Err(NErr) })
            }
            "not" => {
                need(1)?;
                let p = self.apply(&a[0], i)?;
                parse_quote!(match #p { Ok(_) => Err(NErr), Err(_) => Ok::<_, NErr>((#i, ())) })
            }
            "recognize" => {
                need(1)?;
                let p = self.apply(&a[0], i)?;
                parse_quote!(match #p { Ok((#r, _)) => Ok((#r, nom_taken(#i, #r))), Err(_) => Err(NErr) })
            }
            "all_consuming" => {
                need(1)?;
                let p = self.apply(&a[0], i)?;
                parse_quote!(match #p { Ok((#r, #v)) => if nom_len(#r) == 0 { Ok((#r, #v)) } else { Err(NErr) }, Err(_) => Err(NErr) })
            }
            "pair" | "tuple" | "preceded" | "terminated" | "delimited" => {
                let ps = if f == "tuple" {
                    need(1)?;
                    tuple(&a[0])?
                } else {
                    need(if f == "delimited" { 3 } else { 2 })?;
                    a.to_vec()
                };
                let keep: Vec<usize> = match f {
                    "preceded" | "delimited" => vec![1],
                    "terminated" => vec![0],
                    _ => (0..ps.len()).collect(),
                };
                let mut steps = vec![];
                let mut cur = i.clone();
                let mut vals = vec![];
                for (k, p) in ps.iter().enumerate() {
                    let e = self.apply(p, &cur)?;
                    let rk = self.fresh("r");
                    let vk = self.fresh("v");
                    let pat: Pat = if keep.contains(&k) { parse_quote!(#vk) } else { parse_quote!(_) };
                    if keep.contains(&k) {
                        vals.push(vk);
                    }
                    cur = parse_quote!(#rk);
                    steps.push((e, rk, pat));
                }
                let out: Expr = if keep.len() == 1 && !(f == "tuple") {
                    let x = &vals[0];
                    parse_quote!(#x)
                } else {
                    parse_quote!((#(#vals),*))
                };
                let mut res: Expr = parse_quote!(Ok((#cur, #out)));
                for (e, rk, pat) in steps.into_iter().rev() {
                    res = parse_quote!(match #e { Ok((#rk, #pat)) => #res, Err(_) => Err(NErr) });
                }
                res
            }
            "many0" | "fold_many0" | "fold_many1" => {
                self.loops += 1;
                let k = self.loops;
                let (vi, va, vo) = (ident(&format!("vx_in{k}")), ident(&format!("vx_acc{k}")), ident(&format!("vx_ok{k}")));
                let cur: Expr = parse_quote!(#vi);
                let p = self.apply(&a[0], &cur)?;
                let acc: Expr = parse_quote!(#va);
                let (init, step): (Expr, Stmt) = if f == "many0" {
                    need(1)?;
                    (parse_quote!(Vec::new()), parse_quote!(#va.push(#v);))
                } else {
                    need(3)?;
                    let init = self.call(&a[1], &[], None)?;
                    let g = self.fold(&a[2], &[acc.clone(), vv.clone()], k)?;
                    (init, parse_quote!(#va = #g;))
                };
                if f == "fold_many1" {
                    let p0 = self.apply(&a[0], i)?;
                    let (r0, v0) = (self.fresh("r"), self.fresh("v"));
                    let first = self.fold(&a[2], &[init, parse_quote!(#v0)], k)?;
                    parse_quote!(match #p0 {
                        Ok((#r0, #v0)) => {
                            let mut #vi = #r0;
                            let mut #va = #first;
                            let mut #vo = true;
                            loop {
                                match #p {
                                    Ok((#r, #v)) => {
                                        if nom_len(#r) == nom_len(#vi) { #vo = false; break; }
                                        #step
                                        #vi = #r;
                                    }
                                    Err(_) => { break; }
                                }
                            }
                            if #vo { Ok((#vi, #va)) } else { Err(NErr) }
                        }
                        Err(_) => Err(NErr),
                    })
                } else {
                    parse_quote!({
                        let mut #vi = #i;
                        let mut #va = #init;
                        let mut #vo = true;
                        loop {
                            match #p {
                                Ok((#r, #v)) => {
                                    if nom_len(#r) == nom_len(#vi) { #vo = false; break; }
                                    #step
                                    #vi = #r;
                                }
                                Err(_) => { break; }
                            }
                        }
                        if #vo { Ok((#vi, #va)) } else { Err(NErr) }
                    })
                }
            }
            "fold_many_m_n" => {
                need(5)?;
                self.loops += 1;
                let k = self.loops;
                let (vi, va, vo, vc) =
                    (ident(&format!("vx_in{k}")), ident(&format!("vx_acc{k}")), ident(&format!("vx_ok{k}")), ident(&format!("vx_n{k}")));
                let cur: Expr = parse_quote!(#vi);
                let p = self.apply(&a[2], &cur)?;
                let acc: Expr = parse_quote!(#va);
                let init = self.call(&a[3], &[], None)?;
                let g = self.fold(&a[4], &[acc, vv.clone()], k)?;
                let (m, n) = (&a[0], &a[1]);
                if let (Expr::Lit(x), Expr::Lit(y)) = (m, n) {
                    let (x, y) = (x.to_token_stream().to_string().parse::<u64>(), y.to_token_stream().to_string().parse::<u64>());
                    if !matches!((x, y), (Ok(x), Ok(y)) if x <= y) {
                        return Err("lost anchor: bounds of fold_many_m_n".into());
                    }
                } else {
                    return Err("lost anchor: bounds of fold_many_m_n".into());
                }
                parse_quote!({
                    let mut #vi = #i;
                    let mut #va = #init;
                    let mut #vo = true;
                    let mut #vc: usize = 0;
                    while #vc < #n {
                        match #p {
                            Ok((#r, #v)) => {
                                if nom_len(#r) == nom_len(#vi) { #vo = false; break; }
                                #va = #g;
                                #vi = #r;
                                #vc = #vc + 1;
                            }
                            Err(_) => {
                                if #vc < #m { #vo = false; }
                                break;
                            }
                        }
                    }
                    if #vo { Ok((#vi, #va)) } else { Err(NErr) }
                })
            }
            "separated_list0" => {
                need(2)?;
                self.loops += 1;
                let k = self.loops;
                let (vi, va, vo) = (ident(&format!("vx_in{k}")), ident(&format!("vx_acc{k}")), ident(&format!("vx_ok{k}")));
                let cur: Expr = parse_quote!(#vi);
                let p0 = self.apply(&a[1], &cur)?;
                let sep = self.apply(&a[0], &cur)?;
                let r1 = self.fresh("r");
                let p1 = self.apply(&a[1], &parse_quote!(#r1))?;
                parse_quote!({
                    let mut #vi = #i;
                    let mut #va = Vec::new();
                    let mut #vo = true;
                    match #p0 {
                        Ok((#r, #v)) => {
                            #va.push(#v);
                            #vi = #r;
                            loop {
                                match #sep {
                                    Ok((#r1, _)) => {
                                        if nom_len(#r1) == nom_len(#vi) { #vo = false; break; }
                                        match #p1 {
                                            Ok((#r, #v)) => {
                                                #va.push(#v);
                                                #vi = #r;
                                            }
                                            Err(_) => { break; }
                                        }
                                    }
                                    Err(_) => { break; }
                                }
                            }
                        }
                        Err(_) => {}
                    }
                    if #vo { Ok((#vi, #va)) } else { Err(NErr) }
                })
            }
            "permutation" => {
                need(1)?;
                self.loops += 1;
                let k = self.loops;
                let vi = ident(&format!("vx_in{k}"));
                let cur: Expr = parse_quote!(#vi);
                let ps = tuple(&a[0])?;
                let mut slots = vec![];
                let mut tries: Vec<Stmt> = vec![];
                for (j, p) in ps.iter().enumerate() {
                    let s = ident(&format!("vx_s{k}_{j}"));
                    let e = self.apply(p, &cur)?;
                    tries.push(parse_quote!(if #s.is_none() {
                        match #e {
                            Ok((#r, #v)) => { #vi = #r; #s = Some(#v); continue; }
                            Err(_) => {}
                        }
                    }));
                    slots.push(s);
                }
                let vals: Vec<syn::Ident> = slots.iter().map(|_| self.fresh("v")).collect();
                parse_quote!({
                    let mut #vi = #i;
                    #(let mut #slots = None;)*
                    loop {
                        #(#tries)*
                        break;
                    }
                    match (#(#slots),*) {
                        (#(Some(#vals)),*) => Ok((#vi, (#(#vals),*))),
                        _ => Err(NErr),
                    }
                })
            }
            _ => return Err(format!("lost anchor: combinator {f}")),
        })
    }

    fn fold(&mut self, g: &Expr, args: &[Expr], k: usize) -> Res<Expr> {
        if let Expr::Closure(c) = peel(g) {
            let (a, b) = flow(&*c.body);
            if a || b {
                let f = ident(&format!("vx_fold{k}"));
                if (self.known)(&f.to_string()) {
                    return Ok(parse_quote!(#f(#(#args),*)));
                }
                return Err("lost anchor: control flow in a fold".into());
            }
        }
        self.call(g, args, None)
    }

    /// `?` (and `return` in tail position) inside of a closure, without control flow.
    fn untry(&mut self, e: &Expr, k: Kind) -> Res<Expr> {
        let (t, r) = flow(e);
        if !t && !r {
            return Ok(e.clone());
        }
        match e {
            Expr::Paren(p) => self.untry(&p.expr, k),
            Expr::Block(b) if b.label.is_none() => {
                let out = self.untry_stmts(&b.block.stmts, k)?;
                Ok(parse_quote!({ #(#out)* }))
            }
            Expr::Return(x) => match &x.expr {
                Some(x) => self.untry(x, k),
                None => Err("lost anchor: return".into()),
            },
            Expr::Match(m) if !flow(&*m.expr).0 && !flow(&*m.expr).1 => {
                let mut m = m.clone();
                for a in &mut m.arms {
                    if let Some((_, g)) = &a.guard {
                        if flow(&**g).0 {
                            return Err("lost anchor: ? in a guard".into());
                        }
                    }
                    *a.body = self.untry(&a.body, k)?;
                }
                Ok(Expr::Match(m))
            }
            Expr::If(i) if !flow(&*i.cond).0 && i.else_branch.is_some() => {
                let mut i = i.clone();
                i.then_branch.stmts = self.untry_stmts(&i.then_branch.stmts, k)?;
                let (x, b) = i.else_branch.clone().unwrap();
                i.else_branch = Some((x, Box::new(match &*b {
                    Expr::Block(b) => {
                        let s = self.untry_stmts(&b.block.stmts, k)?;
                        parse_quote!({ #(#s)* })
                    }
                    b => self.untry(b, k)?,
                })));
                Ok(Expr::If(i))
            }
            e if !r => {
                let mut e = e.clone();
                let (x, q) = self.first_try(&mut e)?;
                let rest = self.untry(&e, k)?;
                Ok(self.branch(&x, &q, rest, k))
            }
            _ => Err("lost anchor: return in a closure".into()),
        }
    }

    /// `x.and_then(|p| e)` (of an `Option`) is a match.
    pub fn and_then(&mut self, b: &mut Block) {
        struct V<'a, 'b>(&'a mut Nom<'b>);
        impl VisitMut for V<'_, '_> {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
                let Expr::MethodCall(m) = &*e else { return };
                if m.method != "and_then" || m.args.len() != 1 {
                    return;
                }
                let Expr::Closure(c) = peel(&m.args[0]) else { return };
                if c.inputs.len() != 1 {
                    return;
                }
                let p = match &c.inputs[0] {
                    Pat::Type(t) => (*t.pat).clone(),
                    p => p.clone(),
                };
                if let Ok(b) = self.0.untry(&c.body, Kind::Option) {
                    let x = &m.receiver;
                    *e = parse_quote!(match #x { Some(#p) => #b, None => None });
                }
            }
        }
        V(self).visit_block_mut(b);
    }

    fn branch(&self, x: &Expr, q: &syn::Ident, rest: Expr, k: Kind) -> Expr {
        match k {
            Kind::Option => parse_quote!(match #x { Some(#q) => #rest, None => None }),
            Kind::Result => parse_quote!(match #x { Ok(#q) => #rest, Err(_) => Err(NErr) }),
        }
    }

    /// The first `?` which is evaluated is replaced by a variable.
    fn first_try(&mut self, e: &mut Expr) -> Res<(Expr, syn::Ident)> {
        struct F {
            q: syn::Ident,
            hit: Option<Expr>,
            bad: bool,
        }
        impl VisitMut for F {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                if self.hit.is_some() {
                    return;
                }
                match e {
                    Expr::Closure(_) => return,
                    Expr::If(_) | Expr::Match(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_) => {
                        if flow(e).0 {
                            self.bad = true;
                        }
                        return;
                    }
                    _ => (),
                }
                visit_mut::visit_expr_mut(self, e);
                if self.hit.is_none() {
                    if let Expr::Try(t) = e {
                        self.hit = Some((*t.expr).clone());
                        let q = &self.q;
                        *e = parse_quote!(#q);
                    }
                }
            }
        }
        // `vec![..]` and the like
        struct M;
        impl VisitMut for M {
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                visit_mut::visit_expr_mut(self, e);
            }
        }
        let mut f = F { q: self.fresh("q"), hit: None, bad: false };
        f.visit_expr_mut(e);
        match f.hit {
            Some(x) if !f.bad => Ok((x, f.q)),
            _ => Err("lost anchor: ? in a closure".into()),
        }
    }

    fn untry_stmts(&mut self, s: &[Stmt], k: Kind) -> Res<Vec<Stmt>> {
        let Some(p) = s.iter().position(|s| flow(s).0 || flow(s).1) else { return Ok(s.to_vec()) };
        let mut out = s[..p].to_vec();
        match &s[p] {
            Stmt::Local(l) if l.init.as_ref().is_some_and(|i| i.diverge.is_none()) => {
                let mut l = l.clone();
                let i = l.init.as_mut().unwrap();
                let (x, q) = self.first_try(&mut i.expr)?;
                let mut rest = vec![Stmt::Local(l)];
                rest.extend(s[p + 1..].to_vec());
                let rest = self.untry_stmts(&rest, k)?;
                let m = self.branch(&x, &q, parse_quote!({ #(#rest)* }), k);
                out.push(Stmt::Expr(m, None));
            }
            Stmt::Expr(e, None) => out.push(Stmt::Expr(self.untry(e, k)?, None)),
            Stmt::Expr(Expr::Return(x), _) => match &x.expr {
                Some(x) => out.push(Stmt::Expr(self.untry(x, k)?, None)),
                None => return Err("lost anchor: return".into()),
            },
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !flow(&*i.cond).0 => {
                // if c { .. return x; }  rest
                let (c, t) = (&i.cond, &i.then_branch);
                if !matches!(t.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) {
                    return Err("lost anchor: if in a closure".into());
                }
                let t = self.untry_stmts(&t.stmts, k)?;
                let rest = self.untry_stmts(&s[p + 1..], k)?;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#rest)* }), None));
            }
            Stmt::Expr(e, Some(_)) => {
                let mut e = e.clone();
                let (x, q) = self.first_try(&mut e)?;
                let mut rest: Vec<Stmt> = vec![Stmt::Expr(e, Some(Default::default()))];
                rest.extend(s[p + 1..].to_vec());
                let rest = self.untry_stmts(&rest, k)?;
                let m = self.branch(&x, &q, parse_quote!({ #(#rest)* }), k);
                out.push(Stmt::Expr(m, None));
            }
            _ => return Err("lost anchor: control flow in a closure".into()),
        }
        Ok(out)
    }
}

/// `Self::x(..)(input)` is `Self::x(.., input)` for the functions which return a closure.
pub fn curried_calls(b: &mut Block, names: &[String]) {
    struct V<'a>(&'a [String]);
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            if let Expr::Call(c) = e {
                if let Expr::Call(d) = peel(&c.func) {
                    if callee(&d.func).is_some_and(|f| self.0.contains(&f)) {
                        let f = &d.func;
                        let (a, b) = (d.args.iter(), c.args.iter());
                        *e = parse_quote!(#f(#(#a,)* #(#b),*));
                    }
                }
            }
        }
    }
    V(names).visit_block_mut(b);
}

/// The `k`-th closure with `?` or `return` in it.
pub fn closure(b: &Block, k: usize) -> Option<(Vec<Pat>, Block)> {
    struct V {
        k: usize,
        hit: Option<(Vec<Pat>, Block)>,
    }
    impl<'a> Visit<'a> for V {
        fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
            let (a, r) = flow(&*c.body);
            if a || r {
                self.k = self.k.wrapping_sub(1);
                if self.k == 0 {
                    let b = match &*c.body {
                        Expr::Block(b) => b.block.clone(),
                        e => parse_quote!({ #e }),
                    };
                    self.hit = Some((c.inputs.iter().cloned().collect(), b));
                }
            }
            visit::visit_expr_closure(self, c);
        }
    }
    let mut v = V { k, hit: None };
    v.visit_block(b);
    v.hit
}

/// The `k`-th closure with `?` or `return` in it is the function `name` (which has a contract of its own).
pub fn lift(b: &mut Block, k: usize, name: &str) -> bool {
    struct V<'a>(usize, &'a str, bool);
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Closure(c) = e {
                let (a, r) = flow(&*c.body);
                if a || r {
                    self.0 = self.0.wrapping_sub(1);
                    if self.0 == 0 {
                        let Ok(n) = syn::parse_str::<syn::Path>(self.1) else { return };
                        *e = parse_quote!(#n);
                        self.2 = true;
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V(k, name, false);
    v.visit_block_mut(b);
    v.2
}

/// What the `k`-th `alt((..))` of the block becomes.
fn on_alt(b: &mut Block, k: usize, f: &mut dyn FnMut(&mut Expr) -> bool) -> bool {
    struct V<'a>(usize, &'a mut dyn FnMut(&mut Expr) -> bool, bool);
    impl VisitMut for V<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            if let Expr::Call(c) = e {
                if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("alt")) {
                    self.0 = self.0.wrapping_sub(1);
                    if self.0 == 0 {
                        self.2 = (self.1)(e);
                        return;
                    }
                }
            }
            visit_mut::visit_expr_mut(self, e);
        }
    }
    let mut v = V(k, f, false);
    v.visit_block_mut(b);
    v.2
}

fn alternatives(e: &mut Expr) -> Option<&mut syn::punctuated::Punctuated<Expr, syn::Token![,]>> {
    match e {
        Expr::Call(c) if c.args.len() == 1 => match &mut c.args[0] {
            Expr::Tuple(t) => Some(&mut t.elems),
            _ => None,
        },
        _ => None,
    }
}

/// The `k`-th `alt` has only the alternative `j`.
pub fn alternative(b: &mut Block, k: usize, j: usize) -> bool {
    on_alt(b, k, &mut |e| match alternatives(e).and_then(|a| a.iter().nth(j.wrapping_sub(1)).cloned()) {
        Some(a) => {
            *e = a;
            true
        }
        None => false,
    })
}

/// The alternative `j` of the `k`-th `alt` is the function `name` (which has a contract of its own).
pub fn lift_alt(b: &mut Block, k: usize, j: usize, name: &str) -> bool {
    let Ok(n) = syn::parse_str::<syn::Path>(name) else { return false };
    on_alt(b, k, &mut |e| match alternatives(e).and_then(|a| a.iter_mut().nth(j.wrapping_sub(1))) {
        Some(a) => {
            *a = parse_quote!(#n);
            true
        }
        None => false,
    })
}

pub fn inlined(sig: &syn::Signature, b: &Block) -> Res<Inlined> {
    let mut params = vec![];
    for p in &sig.inputs {
        match p {
            syn::FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => params.push(i.ident.to_string()),
                _ => return Err("lost anchor: parameter".into()),
            },
            _ => return Err("lost anchor: parameter".into()),
        }
    }
    match b.stmts.as_slice() {
        [Stmt::Expr(e, None)] => Ok(Inlined { params, body: e.clone() }),
        _ => Err(format!("lost anchor: {}", quote!(#sig))),
    }
}

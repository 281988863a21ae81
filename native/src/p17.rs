//! P17: the statements of a macro are executed in the order and under the conditions C gives them.
use std::panic;

use cmacro::{FnMacro, MacroBody, MacroToken};
use quote::ToTokens;
use syn::{Expr as X, Stmt};

use crate::{
  common::*,
  p13::{self, Function, Macro},
  tree::*,
};

pub struct P;

#[derive(Debug, Clone, PartialEq)]
enum S {
  Expr(E),
  Decl { is_static: bool, ty: Vec<String>, name: String, value: E },
  Fn { ty: Vec<String>, name: String, params: Vec<(Vec<String>, String)> },
  Block(Vec<S>),
  If(E, Box<S>, Option<Box<S>>),
  Do(Box<S>, E),
  Empty,
}

fn comment(out: &mut Vec<String>, rng: &mut Option<&mut Rng>) {
  if rng.as_mut().is_some_and(|r| r.chance(1, 20)) {
    out.push("/* ; */".into());
  }
}

/// Tokens of a statement. The semicolon at the end of a body may be missing.
fn print(s: &S, out: &mut Vec<String>, rng: &mut Option<&mut Rng>) {
  comment(out, rng);
  let semi = |out: &mut Vec<String>, rng: &mut Option<&mut Rng>| {
    comment(out, rng);
    out.push(";".into());
  };
  match s {
    S::Empty => out.push(";".into()),
    S::Expr(e) => {
      tokens(e, out, 2, rng);
      semi(out, rng);
    },
    S::Decl { is_static, ty, name, value } => {
      if *is_static {
        out.push("static".into());
      }
      out.extend(ty.iter().cloned());
      comment(out, rng);
      out.push(name.clone());
      comment(out, rng);
      out.push("=".into());
      tokens(value, out, 2, rng);
      semi(out, rng);
    },
    S::Fn { ty, name, params } => {
      out.extend(ty.iter().cloned());
      comment(out, rng);
      out.push(name.clone());
      comment(out, rng);
      out.push("(".into());
      for (i, (ty, n)) in params.iter().enumerate() {
        if i > 0 {
          comment(out, rng);
          out.push(",".into());
        }
        comment(out, rng);
        out.extend(ty.iter().cloned());
        comment(out, rng);
        out.push(n.clone());
      }
      out.push(")".into());
      semi(out, rng);
    },
    S::Block(b) => {
      out.push("{".into());
      for s in b {
        print(s, out, rng);
      }
      comment(out, rng);
      out.push("}".into());
    },
    S::If(c, a, b) => {
      out.push("if".into());
      comment(out, rng);
      out.push("(".into());
      tokens(c, out, 2, rng);
      out.push(")".into());
      // An `else` belongs to the nearest `if`.
      let dangling = b.is_some() && open(a);
      if dangling {
        out.push("{".into());
      }
      print(a, out, rng);
      if dangling {
        out.push("}".into());
      }
      if let Some(b) = b {
        comment(out, rng);
        out.push("else".into());
        print(b, out, rng);
      }
    },
    S::Do(b, c) => {
      out.push("do".into());
      print(b, out, rng);
      comment(out, rng);
      out.push("while".into());
      comment(out, rng);
      out.push("(".into());
      tokens(c, out, 2, rng);
      out.push(")".into());
      semi(out, rng);
    },
  }
}

/// Statement ends with an `if` without `else`.
fn open(s: &S) -> bool {
  match s {
    S::If(_, _, None) => true,
    S::If(_, _, Some(b)) => open(b),
    _ => false,
  }
}

/// Reference parser.
struct Reader<'a> {
  toks: &'a [String],
  i: usize,
  function: bool,
}

impl Reader<'_> {
  fn peek(&mut self) -> Option<&str> {
    while self.toks.get(self.i).is_some_and(|t| t.starts_with("/*")) {
      self.i += 1;
    }
    self.toks.get(self.i).map(|s| s.as_str())
  }
  fn eat(&mut self, t: &str) -> Result<(), Stop> {
    if self.peek() != Some(t) {
      return Err(Stop::Scope)
    }
    self.i += 1;
    Ok(())
  }
  /// An expression up to one of `ends` outside of brackets.
  fn expr(&mut self, ends: &[&str]) -> Result<E, Stop> {
    let start = self.i;
    let mut depth = 0;
    while let Some(t) = self.toks.get(self.i) {
      match t.as_str() {
        t if depth == 0 && ends.contains(&t) => break,
        "(" | "[" => depth += 1,
        ")" | "]" => depth -= 1,
        "{" | "}" | ";" | "if" | "else" | "do" | "while" => return Err(Stop::Scope),
        _ => (),
      }
      if depth < 0 {
        return Err(Stop::Scope)
      }
      self.i += 1;
    }
    let toks = &self.toks[start..self.i];
    // `a * b ();` may be a declaration, comments are not expected there.
    if ends == [";"] && toks.len() > 1 && (is_name(&toks[0]) || arg(&toks[0]).is_some()) && (toks[1] == "*" || is_name(&toks[1]) || arg(&toks[1]).is_some()) {
      return Err(Stop::Scope)
    }
    Parser::parse(toks)
  }
  fn condition(&mut self) -> Result<E, Stop> {
    self.eat("(")?;
    let e = self.expr(&[")"])?;
    self.eat(")")?;
    Ok(e)
  }
  /// A type followed by a name.
  fn typed_name(&mut self) -> Option<(Vec<String>, String)> {
    let mut types: Vec<&[&str]> = TYPES.to_vec();
    types.push(&["T"]);
    types.sort_by_key(|t| std::cmp::Reverse(t.len()));
    for t in types {
      let mut n = self.i + t.len();
      if self.toks.len() < n || !(0..t.len()).all(|j| self.toks[self.i + j] == t[j]) {
        continue
      }
      while self.toks.get(n).is_some_and(|t| t.starts_with("/*")) {
        n += 1;
      }
      if self.toks.len() > n && (is_name(&self.toks[n]) || !self.function && arg(&self.toks[n]).is_some()) {
        self.i = n + 1;
        return Some((t.iter().map(|s| s.to_string()).collect(), self.toks[n].clone()))
      }
    }
    None
  }
  fn end(&mut self) -> Result<(), Stop> {
    if self.peek().is_none() {
      return Ok(())
    }
    self.eat(";")
  }
  fn statement(&mut self) -> Result<S, Stop> {
    let Some(t) = self.peek().map(|s| s.to_string()) else { return Err(Stop::Scope) };
    Ok(match t.as_str() {
      ";" => {
        self.i += 1;
        S::Empty
      },
      "{" => {
        self.i += 1;
        let mut b = vec![];
        while self.peek() != Some("}") {
          b.push(self.statement()?);
        }
        self.i += 1;
        S::Block(b)
      },
      "if" => {
        self.i += 1;
        let c = self.condition()?;
        let a = self.branch()?;
        let b = if self.peek() == Some("else") {
          self.i += 1;
          Some(Box::new(self.branch()?))
        } else {
          None
        };
        S::If(c, a.into(), b)
      },
      "do" => {
        self.i += 1;
        let b = self.branch()?;
        self.eat("while")?;
        let c = self.condition()?;
        self.end()?;
        S::Do(b.into(), c)
      },
      "break" | "continue" | "return" | "goto" | "while" | "for" | "switch" | "case" | "default" | "else" | "asm" | "__asm__" | "__asm" => return Err(Stop::Scope),
      _ => {
        let start = self.i;
        let is_static = t == "static";
        if is_static {
          self.i += 1;
        }
        if let Some((ty, name)) = self.typed_name() {
          if self.peek() == Some("=") {
            self.i += 1;
            let value = self.expr(&[";", ","])?;
            self.end()?;
            return Ok(S::Decl { is_static, ty, name, value })
          }
          if self.peek() == Some("(") && !is_static {
            self.i += 1;
            let mut params = vec![];
            while self.peek() != Some(")") {
              if !params.is_empty() {
                self.eat(",")?;
              }
              params.push(self.typed_name().ok_or(Stop::Scope)?);
            }
            self.i += 1;
            self.end()?;
            return Ok(S::Fn { ty, name, params })
          }
          return Err(Stop::Scope)
        }
        self.i = start;
        let e = self.expr(&[";"])?;
        self.end()?;
        S::Expr(e)
      },
    })
  }
  /// Part of another statement, which is no declaration.
  fn branch(&mut self) -> Result<S, Stop> {
    match self.statement()? {
      S::Decl { .. } | S::Fn { .. } => Err(Stop::Scope),
      s => Ok(s),
    }
  }
  fn body(toks: &[String], function: bool) -> Result<Vec<S>, Stop> {
    let mut r = Reader { toks, i: 0, function };
    let mut b = vec![];
    while r.peek().is_some() {
      b.push(r.statement()?);
    }
    Ok(b)
  }
}

/// All expressions which are no operands.
fn exprs<'a>(s: &'a S, out: &mut Vec<&'a E>) {
  match s {
    S::Expr(e) | S::Decl { value: e, .. } => out.push(e),
    S::Fn { .. } | S::Empty => (),
    S::Block(b) => b.iter().for_each(|s| exprs(s, out)),
    S::If(c, a, b) => {
      out.push(c);
      exprs(a, out);
      if let Some(b) = b {
        exprs(b, out);
      }
    },
    S::Do(b, c) => {
      exprs(b, out);
      out.push(c);
    },
  }
}

/// Statements as they must be executed, without blocks around and without empty statements.
fn list(s: &[S]) -> Vec<&S> {
  let v: Vec<&S> = s.iter().filter(|s| !empty(s)).collect();
  if let [S::Block(b)] = v[..] {
    return list(b)
  }
  v
}
fn empty(s: &S) -> bool {
  match s {
    S::Empty => true,
    S::Block(b) => b.iter().all(empty),
    _ => false,
  }
}

fn no_code(s: &Stmt) -> bool {
  match s {
    Stmt::Expr(X::Verbatim(t), Some(_)) => t.is_empty(),
    Stmt::Expr(X::Block(b), _) => b.label.is_none() && b.block.stmts.iter().all(no_code),
    _ => false,
  }
}

fn same(want: &[S], got: &[Stmt], f: bool) -> Result<(), String> {
  let want = list(want);
  let got: Vec<&Stmt> = got.iter().filter(|s| !no_code(s)).collect();
  let r = same_list(&want, &got, f);
  match (&r, &got[..]) {
    (Err(_), [Stmt::Expr(X::Block(b), _)]) if b.label.is_none() => same(&want.into_iter().cloned().collect::<Vec<_>>(), &b.block.stmts, f),
    _ => r,
  }
}

fn same_list(want: &[&S], got: &[&Stmt], f: bool) -> Result<(), String> {
  if want.len() != got.len() {
    let got = got.iter().map(|s| s.to_token_stream().to_string()).collect::<Vec<_>>();
    return Err(format!("{} statements {got:?}, expected {} {want:?}", got.len(), want.len()))
  }
  want.iter().zip(got).enumerate().try_for_each(|(i, (w, g))| same_one(w, g, i + 1 == want.len(), f))
}

fn same_one(want: &S, got: &Stmt, last: bool, f: bool) -> Result<(), String> {
  let bad = || Err(format!("`{}` instead of {want:?}", got.to_token_stream()));
  let eq = |want: String, got: Result<String, String>| match got {
    Ok(g) if g == want => Ok(()),
    Ok(g) => Err(format!("{g} instead of {want}")),
    Err(e) => Err(format!("{e} instead of {want}")),
  };
  fn sq(t: &impl ToTokens) -> String {
    p13::squeeze(t)
  }
  match (want, got) {
    (S::Expr(e), Stmt::Expr(g, semi)) if semi.is_some() || !last || matches!(g, X::Block(_) | X::If(_)) => eq(p13::want(e, f), p13::got(g)),
    (S::Expr(e), Stmt::Macro(m)) => eq(p13::want(e, f), p13::got(&X::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }))),
    (S::Decl { is_static: false, ty, name, value }, Stmt::Local(l)) => {
      let Some(init) = &l.init else { return bad() };
      if init.diverge.is_some() {
        return bad()
      }
      eq(format!("mut {}:{}", rust_name(name), p13::rust_ty(ty)), Ok(sq(&l.pat)))?;
      eq(p13::want(value, f), p13::got(&init.expr))
    },
    (S::Decl { is_static: true, ty, name, value }, Stmt::Item(syn::Item::Static(s))) => {
      if !matches!(s.mutability, syn::StaticMutability::Mut(_)) {
        return bad()
      }
      eq(format!("{}:{}", rust_name(name), p13::rust_ty(ty)), Ok(format!("{}:{}", s.ident, sq(&s.ty))))?;
      eq(p13::want(value, f), p13::got(&s.expr))
    },
    (S::Fn { ty, name, params }, Stmt::Item(syn::Item::ForeignMod(m))) => {
      let [syn::ForeignItem::Fn(g)] = &m.items[..] else { return bad() };
      if m.abi.name.as_ref().map(|n| n.value()) != Some("C".into()) || g.sig.variadic.is_some() {
        return bad()
      }
      let p = params.iter().map(|(t, n)| format!("{}:{}", rust_name(n), p13::rust_ty(t))).collect::<Vec<_>>().join(",");
      let r = if ty[..] == ["void"] { String::new() } else { format!("->{}", p13::rust_ty(ty)) };
      let out = match &g.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!("->{}", sq(t)),
      };
      let got = g.sig.inputs.iter().map(|i| sq(i)).collect::<Vec<_>>().join(",");
      eq(format!("{}({p}){r}", rust_name(name)), Ok(format!("{}({got}){out}", g.sig.ident)))
    },
    (S::Block(b), Stmt::Expr(X::Block(g), _)) if g.label.is_none() => same(b, &g.block.stmts, f),
    (S::If(c, a, b), Stmt::Expr(X::If(g), _)) => {
      eq(condition(c, f), p13::got(&g.cond))?;
      same(std::slice::from_ref(a), &g.then_branch.stmts, f)?;
      let b = b.as_deref().cloned().unwrap_or(S::Empty);
      match &g.else_branch {
        None => same(&[b], &[], f),
        Some((_, e)) => match &**e {
          X::Block(e) => same(&[b], &e.block.stmts, f),
          e => same(&[b], &[Stmt::Expr(e.clone(), None)], f),
        },
      }
    },
    (S::Do(b, c), Stmt::Expr(X::Loop(g), _)) if g.label.is_none() => {
      let stmts: Vec<Stmt> = g.body.stmts.iter().filter(|s| !no_code(s)).cloned().collect();
      let only = |b: &syn::Block, f: fn(&X) -> bool| matches!(&b.stmts[..], [Stmt::Expr(e, _)] if f(e));
      let is_continue = |e: &X| matches!(e, X::Continue(c) if c.label.is_none());
      let is_break = |e: &X| matches!(e, X::Break(b) if b.label.is_none() && b.expr.is_none());
      match &stmts[..] {
        [s @ .., Stmt::Expr(X::If(i), _), Stmt::Expr(e, _)] if is_break(e) => {
          if !only(&i.then_branch, is_continue) || i.else_branch.is_some() {
            return bad()
          }
          eq(condition(c, f), p13::got(&i.cond))?;
          same(std::slice::from_ref(b), s, f)
        },
        [s @ .., Stmt::Expr(X::If(i), _)] => {
          if !only(&i.then_branch, is_break) || i.else_branch.is_some() {
            return bad()
          }
          eq(format!("(! {})", condition(c, f)), p13::got(&i.cond))?;
          same(std::slice::from_ref(b), s, f)
        },
        _ => bad(),
      }
    },
    _ => bad(),
  }
}

/// Parameters are called like themselves once the `$` is removed.
fn rust_name(n: &str) -> &str {
  arg(n).map_or(n, |i| ["p", "q"][i])
}

fn condition(c: &E, f: bool) -> String {
  if p13::is_bool(c, f) {
    p13::want(c, f)
  } else {
    format!("(!= {} 0)", p13::want(c, f))
  }
}

fn generate(toks: &[String], function: bool) -> Result<Result<String, String>, &'static str> {
  let Some(mt) = macro_tokens(toks) else { return Err("-no tokens") };
  let params: Vec<MacroToken> = ["p", "q"].iter().map(|s| to_macro_token(s).unwrap()).collect();
  panic::catch_unwind(|| {
    let mut m = match FnMacro::parse("F", &params, &mt) {
      Ok(m) => m,
      Err(e) => return Ok(Err(format!("{e:?}"))),
    };
    if matches!(m.body(), MacroBody::Expr(_)) {
      return Err("-an expression")
    }
    Ok(match if function { m.generate(Function) } else { m.generate(Macro) } {
      Ok(t) => Ok(t.to_string()),
      Err(e) => Err(format!("{e:?}")),
    })
  })
  .unwrap_or_else(|_| Ok(Err("panic".into())))
}

/// Statements of the generated macro, or else of the function.
fn body(code: &str) -> Result<Vec<Stmt>, String> {
  use syn::parse::Parser;
  let file: syn::File = syn::parse_str(code).map_err(|e| format!("not valid: {e}"))?;
  for item in &file.items {
    match item {
      syn::Item::Macro(m) => {
        let tokens: Vec<_> = m.mac.tokens.clone().into_iter().collect();
        let Some(proc_macro2::TokenTree::Group(g)) = tokens.get(3) else { return Err("not a macro as expected".into()) };
        let s = g.stream().to_string().replace("$ ", "").replace('$', "");
        return syn::Block::parse_within.parse_str(&s).map_err(|e| format!("`{s}` are no statements: {e}"))
      },
      syn::Item::Fn(f) => {
        if !matches!(f.sig.output, syn::ReturnType::Default) {
          return Err("function returns something".into())
        }
        return Ok(f.block.stmts.clone())
      },
      _ => (),
    }
  }
  Err("neither a macro nor a function".into())
}

fn args_only(e: &mut E, rng: &mut Rng) {
  match e {
    E::Name(_) => *e = E::Arg(rng.below(2)),
    E::Member(x, _) | E::Un(_, x) | E::Cast(_, x) => args_only(x, rng),
    E::Call(_, a) => a.iter_mut().for_each(|e| args_only(e, rng)),
    E::Bin(_, l, r) => {
      args_only(l, rng);
      args_only(r, rng);
    },
    E::Cond(a, b, c) => {
      args_only(a, rng);
      args_only(b, rng);
      args_only(c, rng);
    },
    E::Arg(_) | E::Lit(_) | E::SizeOf(_) => (),
  }
}

fn some_expr(rng: &mut Rng, function: bool) -> E {
  let g = Gen { args: 2, cond: true, assign: true, lits: &["1", "2", "0x10", "0", "\"s\""], types: true, calls: !function };
  for _ in 0..50 {
    let depth = rng.below(4);
    let mut e = random(rng, &g, depth);
    if function {
      args_only(&mut e, rng);
    }
    if p13::valid(&e) && p13::type_of(&e, function).is_ok() {
      return e
    }
  }
  E::Arg(0)
}

fn random_stmt(rng: &mut Rng, function: bool, depth: usize, decl: bool) -> S {
  let types: &[&[&str]] = &[&["int"], &["unsigned", "int"], &["T", "*"], &["T"], &["const", "char", "*"], &["struct", "S", "*"], &["double"]];
  let ty = |rng: &mut Rng| -> Vec<String> { rng.pick(types).iter().map(|s| s.to_string()).collect() };
  let e = |rng: &mut Rng| some_expr(rng, function);
  let sub = |rng: &mut Rng| Box::new(random_stmt(rng, function, depth - 1, false));
  match rng.below(if depth == 0 { 4 } else { 10 }) {
    0 => S::Empty,
    3 if decl && rng.chance(1, 4) => S::Fn {
      ty: if rng.chance(1, 3) { vec!["void".into()] } else { ty(rng) },
      name: if !function && rng.chance(1, 4) { "$1".into() } else { "h".into() },
      params: (0..if rng.chance(1, 6) { rng.below(20) } else { rng.below(3) }).map(|i| (ty(rng), format!("x{i}"))).collect(),
    },
    2 | 3 if decl => S::Decl { is_static: rng.chance(1, 4), ty: ty(rng), name: if !function && rng.chance(1, 4) { "$0".into() } else { rng.pick(&["x", "y"]).to_string() }, value: e(rng) },
    1..=3 => S::Expr(e(rng)),
    4 | 5 => S::Block((0..if rng.chance(1, 12) { rng.below(14) } else { rng.below(4) }).map(|_| random_stmt(rng, function, depth - 1, true)).collect()),
    6 => S::If(e(rng), sub(rng), None),
    7 | 8 => S::If(e(rng), sub(rng), Some(sub(rng))),
    _ => S::Do(sub(rng), e(rng)),
  }
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P17"
  }
  fn rule(&self) -> &'static str {
    "all token sequences of up to 6 (thorough: 7) out of 12 tokens of statements; all statements of depth up to 2 around 8 leaves, alone and in pairs; then random lists of statements of depth up to 4 (expressions, declarations of variables and functions, blocks, if, do-while, empty ones) with comments, as a macro and as a function; the generated code is parsed with syn and compared, statement by statement, with an independent parse of the tokens"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let name = |s: &str| E::Name(s.into());
    let call = |n: usize| S::Expr(E::Call("f".into(), vec![E::Lit(n.to_string())]));
    let leaves = vec![
      S::Empty,
      call(1),
      S::Expr(E::Bin("=", E::Arg(0).into(), E::Arg(1).into())),
      S::Expr(E::Cond(name("a").into(), name("b").into(), name("c").into())),
      S::Expr(E::Cast(vec!["void".into()], E::Arg(0).into())),
      S::Expr(E::Un("p++", E::Arg(0).into())),
      S::Decl { is_static: false, ty: vec!["int".into()], name: "x".into(), value: E::Arg(0) },
      S::Decl { is_static: true, ty: vec!["T".into(), "*".into()], name: "y".into(), value: E::Lit("1".into()) },
      S::Fn { ty: vec!["void".into()], name: "h".into(), params: vec![(vec!["int".into()], "x".into()), (vec!["T".into(), "*".into()], "y".into())] },
      S::Fn { ty: vec!["int".into()], name: "h".into(), params: vec![] },
    ];
    let conds = [name("a"), E::Bin("<", name("a").into(), name("b").into()), E::Lit("0".into())];
    let is_decl = |s: &S| matches!(s, S::Decl { .. } | S::Fn { .. });
    let wrap = |all: &[S]| {
      let mut v = vec![S::Block(vec![])];
      for a in all {
        v.push(S::Block(vec![a.clone()]));
        v.push(S::Block(vec![call(7), a.clone(), call(8)]));
        if is_decl(a) {
          continue
        }
        for c in &conds {
          v.push(S::If(c.clone(), a.clone().into(), None));
          v.push(S::If(c.clone(), a.clone().into(), Some(call(9).into())));
          v.push(S::If(c.clone(), call(9).into(), Some(a.clone().into())));
          v.push(S::Do(a.clone().into(), c.clone()));
        }
      }
      v
    };
    let one = wrap(&leaves);
    let two = wrap(&one);
    let emit = |sink: &mut Sink, s: &[&S], form: &str, last: bool| {
      if !sink.mine() {
        return
      }
      let mut t = vec![form.to_string()];
      for s in s {
        print(s, &mut t, &mut None);
      }
      if last && t.last().is_some_and(|s| s == ";") {
        t.pop();
      }
      sink.own(&enc(&t));
    };
    for form in ["macro", "function"] {
      for s in leaves.iter().chain(&one).chain(&two) {
        emit(sink, &[s], form, false);
        emit(sink, &[s], form, true);
      }
      for a in leaves.iter().chain(&one) {
        for b in leaves.iter().chain(&one) {
          emit(sink, &[a, b], form, false);
        }
      }
    }
    let alphabet = ["a", ";", "{", "}", "if", "(", ")", "else", "do", "while", "$0", "="];
    for len in 1..=if thorough { 7u32 } else { 6 } {
      for n in 0..alphabet.len().pow(len) {
        if !sink.mine() {
          continue
        }
        let mut n = n;
        let mut seq = vec!["macro"];
        for _ in 0..len {
          seq.push(alphabet[n % alphabet.len()]);
          n /= alphabet.len();
        }
        if !sink.own(&enc(&seq)) {
          return
        }
      }
      // Some random statements in between.
      for _ in 0..20_000 {
        if !random_case(rng, sink) {
          return
        }
      }
    }
    while random_case(rng, sink) {}
  }
  fn eval(&self, case: &str) -> Outcome {
    let toks = dec(case);
    if toks.is_empty() {
      return Ok("-nothing")
    }
    let function = toks[0] == "function";
    let toks = &toks[1..];
    let shown = toks.join(" ");
    if !toks.iter().any(|t| t == ";" || t == "{" || t == "if" || t == "do" || t == "=") {
      return Ok("-no statements")
    }
    let Ok(want) = Reader::body(toks, function) else { return Ok("-out of scope") };
    let mut all = vec![];
    want.iter().for_each(|s| exprs(s, &mut all));
    if !all.iter().all(|e| p13::valid(e)) {
      return Ok("-not a C expression or folded")
    }
    let typed = all.iter().all(|e| p13::type_of(e, function).is_ok());
    let code = match generate(toks, function) {
      Err(tag) => return Ok(tag),
      Ok(Ok(c)) => c,
      Ok(Err(e)) if e.contains("UnsupportedExpression") && !typed => return Ok("-dereference of a non-pointer"),
      Ok(Err(e)) => return Err(format!("no code is generated for `{shown}`: {e}")),
    };
    match body(&code).and_then(|got| same(&want, &got, function)) {
      Ok(()) => Ok(if code.contains("macro_rules") { "macro" } else { "function" }),
      Err(e) => Err(format!("`{shown}` is generated as `{code}`: {e}")),
    }
  }
}

fn random_case(rng: &mut Rng, sink: &mut Sink) -> bool {
  let function = rng.chance(1, 2);
  let mut t = vec![if function { "function" } else { "macro" }.to_string()];
  for _ in 0..if rng.chance(1, 12) { 1 + rng.below(12) } else { 1 + rng.below(3) } {
    let depth = rng.below(5);
    let s = random_stmt(rng, function, depth, true);
    let mut r = rng.clone();
    print(&s, &mut t, &mut if rng.chance(1, 3) { None } else { Some(&mut r) });
    rng.next();
  }
  if rng.chance(1, 4) && t.last().is_some_and(|s| s == ";") {
    t.pop();
  }
  t.len() > 300 || sink.own(&enc(&t))
}

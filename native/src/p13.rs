//! P13: the generated Rust code computes what the expression tree says.
use std::panic;

use cmacro::{CodegenContext, FnMacro, MacroBody, MacroToken};
use quote::ToTokens;

use crate::{common::*, tree::*};

pub struct P;

pub struct Macro;
impl CodegenContext for Macro {
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    matches!(ty, "S" | "T").then(|| syn::parse_str(ty).unwrap())
  }
}

/// The types of all arguments are known, the first one is an integer and the second one a pointer.
pub struct Function;
impl CodegenContext for Function {
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    Macro.resolve_ty(ty)
  }
  fn macro_arg_ty(&self, _: &str, arg: &str) -> Option<syn::Type> {
    syn::parse_str(if arg == "p" { "c_int" } else { "*mut c_int" }).ok()
  }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
  Ptr(Box<Ty>),
  Qual(Box<Ty>, String),
  Other(String),
}

fn cast_ty(t: &[String]) -> Ty {
  let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
  let o = |s: &str| Ty::Other(s.into());
  let p = |t: Ty| Ty::Ptr(Box::new(t));
  let q = |t: Ty, s: &str| Ty::Qual(Box::new(t), s.into());
  match t[..] {
    ["int", "*"] => p(o("int")),
    ["void", "*"] => p(o("void")),
    ["const", "char", "*"] => p(q(o("char"), "const")),
    ["volatile", "int", "*"] => p(q(o("int"), "volatile")),
    ["struct", s, "*"] | [s, "*"] => p(o(s)),
    ["int", "*", "const", "*"] => p(q(p(o("int")), "const")),
    _ => o(&t.join(" ")),
  }
}

pub fn rust_ty(t: &[String]) -> String {
  match t.join(" ").as_str() {
    "int" => "c_int",
    "unsigned int" => "c_uint",
    "char" => "c_char",
    "long" => "c_long",
    "unsigned long long" => "c_ulonglong",
    "float" => "f32",
    "double" => "f64",
    "int *" | "volatile int *" => "*mut c_int",
    "void *" => "*mut c_void",
    "short" => "c_short",
    "const char *" => "*mut c_char",
    "struct S *" => "*mut S",
    "T *" => "*mut T",
    "unsigned char" => "c_uchar",
    "int * const *" => "*mut *const c_int",
    "void" => "c_void",
    "$0" => "p",
    "$1" => "q",
    t => return t.to_string(),
  }
  .into()
}

/// Type of an expression as far as it is known, or an error if an expression known not to be a pointer is dereferenced.
pub fn type_of(e: &E, f: bool) -> Result<Option<Ty>, ()> {
  let join = |l: Option<Ty>, r: Option<Ty>| if l == r { l } else { l.xor(r) };
  Ok(match e {
    E::Name(n) if n == "__LINE__" => Some(Ty::Other("unsigned int".into())),
    E::Name(n) if n == "__FILE__" => Some(Ty::Qual(Box::new(Ty::Ptr(Box::new(Ty::Other("char".into())))), "const".into())),
    E::Lit(l) if l.ends_with('"') => Some(Ty::Qual(Box::new(Ty::Ptr(Box::new(Ty::Other("char".into())))), "const".into())),
    E::Name(_) | E::Lit(_) => None,
    E::Arg(i) if f => Some(if *i == 0 { Ty::Other("int".into()) } else { Ty::Ptr(Box::new(Ty::Other("int".into()))) }),
    E::Arg(_) => None,
    E::Call(_, args) => {
      for a in args {
        type_of(a, f)?;
      }
      None
    },
    E::Member(l, _) => {
      type_of(l, f)?;
      None
    },
    E::Un(op, x) => {
      let t = type_of(x, f)?;
      match *op {
        "!" => Some(Ty::Other("bool".into())),
        "*" => match t {
          Some(Ty::Ptr(t)) => Some(*t),
          None => None,
          _ => return Err(()),
        },
        "&" => t.map(|t| Ty::Ptr(Box::new(t))),
        _ => t,
      }
    },
    E::Bin(op, l, r) => {
      let t = join(type_of(l, f)?, type_of(r, f)?);
      if matches!(*op, "==" | "!=" | "<" | "<=" | ">" | ">=") {
        Some(Ty::Other("bool".into()))
      } else {
        t
      }
    },
    E::Cond(c, a, b) => {
      type_of(c, f)?;
      join(type_of(a, f)?, type_of(b, f)?)
    },
    E::Cast(t, x) => {
      type_of(x, f)?;
      Some(cast_ty(t))
    },
    E::SizeOf(_) => Some(Ty::Other("size_t".into())),
  })
}

pub fn is_bool(e: &E, f: bool) -> bool {
  type_of(e, f) == Ok(Some(Ty::Other("bool".into())))
}

/// A pointer to volatile which is dereferenced.
fn volatile(e: &E, f: bool) -> Option<String> {
  match e {
    E::Un("*", p) => match &**p {
      E::Cast(t, _) if matches!(cast_ty(t), Ty::Ptr(t) if matches!(&*t, Ty::Qual(_, q) if q == "volatile")) => Some(want(p, f)),
      _ => None,
    },
    _ => None,
  }
}

/// What the generated expression must be.
pub fn want(e: &E, f: bool) -> String {
  let w = |e: &E| want(e, f);
  match e {
    E::Name(n) if n == "__LINE__" => "(as c_uint (macro line))".into(),
    E::Name(n) if n == "__FILE__" => "(text)".into(),
    E::Lit(l) if l.ends_with('"') => "(text)".into(),
    E::Name(n) => n.clone(),
    E::Arg(i) => ["p", "q"][*i].into(),
    E::Lit(l) => crate::lexref::int(l).map(|v| v.0.to_string()).unwrap_or_else(|| l.clone()),
    E::Call(n, args) => {
      let args: Vec<String> = args
        .iter()
        .map(|a| match a {
          E::Lit(_) => w(a),
          _ => format!("(. into {})", w(a)),
        })
        .collect();
      format!("(call {n} {})", args.join(" "))
    },
    E::Member(l, m) => format!("(. {} {m})", w(l)),
    E::Un(op @ ("++" | "--" | "p++" | "p--"), x) => {
      let s = if op.contains('+') { "+" } else { "-" };
      if let Some(p) = volatile(x, f) {
        return if op.starts_with('p') {
          format!("{{(let value (call ptr::read_volatile {p})); (call ptr::write_volatile {p} ({s} value 1)); value}}")
        } else {
          format!("{{(let value ({s} (call ptr::read_volatile {p}) 1)); (call ptr::write_volatile {p} value); value}}")
        }
      }
      let x = w(x);
      if op.starts_with('p') {
        format!("{{(let prev {x}); ({s}= {x} 1); prev}}")
      } else {
        format!("{{({s}= {x} 1); {x}}}")
      }
    },
    E::Un("+", x) => w(x),
    E::Un("-", x) => format!("(- {})", w(x)),
    E::Un("~", x) => format!("(! {})", w(x)),
    E::Un("!", x) if is_bool(x, f) => format!("(! {})", w(x)),
    E::Un("!", x) => format!("(== {} 0)", w(x)),
    E::Un("&", x) => format!("(addr_of_mut {})", w(x)),
    E::Un(_, x) => {
      if let Some(p) = volatile(e, f) {
        return format!("(call ptr::read_volatile {p})")
      }
      match &**x {
        E::Bin("+", l, r) => format!("(* (. add {} {}))", w(l), w(r)),
        E::Bin("-", l, r) => format!("(* (. sub {} {}))", w(l), w(r)),
        E::Un(op @ ("++" | "--" | "p++" | "p--"), x) => {
          let s = if op.contains('+') { "add" } else { "sub" };
          let x = w(x);
          if op.starts_with('p') {
            format!("(* {{(let prev {x}); (= {x} (. {s} {x} 1)); prev}})")
          } else {
            format!("(* {{(= {x} (. {s} {x} 1)); {x}}})")
          }
        },
        x => format!("(* {})", w(x)),
      }
    },
    E::Bin(op, l, r) if level(e) == 2 => {
      let r = w(r);
      if let Some(p) = volatile(l, f) {
        let value = if *op == "=" { r } else { format!("({} (call ptr::read_volatile {p}) {r})", &op[..op.len() - 1]) };
        return format!("{{(let value {value}); (call ptr::write_volatile {p} value); value}}")
      }
      let l = w(l);
      format!("{{({op} {l} {r}); {l}}}")
    },
    E::Bin(op, l, r) => format!("({op} {} {})", w(l), w(r)),
    E::Cond(c, a, b) => {
      let c = if is_bool(c, f) { w(c) } else { format!("(!= {} 0)", w(c)) };
      format!("(if {c} {{{}}} {{{}}})", w(a), w(b))
    },
    E::Cast(t, x) if t.len() == 1 && t[0] == "void" => format!("{{(let _ {}); }}", w(x)),
    E::Cast(t, x) => format!("(as {} {})", rust_ty(t), w(x)),
    E::SizeOf(t) => format!("(as c_size_t (call mem::size_of<{}>))", rust_ty(t)),
  }
}

pub fn squeeze(t: &impl ToTokens) -> String {
  let s = t.to_token_stream().to_string();
  // Spaces only matter between words.
  let mut out = String::new();
  let c: Vec<char> = s.chars().collect();
  for (i, x) in c.iter().enumerate() {
    let word = |j: usize| c.get(j).is_some_and(|c| c.is_alphanumeric() || *c == '_');
    if *x == ' ' && !(i > 0 && word(i - 1) && word(i + 1)) && !(i > 0 && word(i - 1) && c.get(i + 1) == Some(&'*')) {
      continue
    }
    out.push(*x);
  }
  out
}

fn got_block(b: &syn::Block) -> Result<String, String> {
  let mut out = String::new();
  for (i, s) in b.stmts.iter().enumerate() {
    if i > 0 {
      out.push_str("; ");
    }
    match s {
      syn::Stmt::Local(l) => {
        let init = l.init.as_ref().ok_or("let without value")?;
        out.push_str(&format!("(let {} {})", squeeze(&l.pat), got(&init.expr)?));
        if i + 1 == b.stmts.len() {
          out.push_str("; ");
        }
      },
      syn::Stmt::Expr(e, semi) => {
        out.push_str(&got(e)?);
        if semi.is_some() != (i + 1 < b.stmts.len()) {
          return Err(format!("unexpected statements in `{}`", b.to_token_stream()))
        }
      },
      syn::Stmt::Macro(m) if i + 1 == b.stmts.len() && m.semi_token.is_none() => {
        out.push_str(&got(&syn::Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() }))?);
      },
      s => return Err(format!("unexpected statement `{}`", s.to_token_stream())),
    }
  }
  Ok(format!("{{{out}}}"))
}

/// The structure of generated code.
pub fn got(e: &syn::Expr) -> Result<String, String> {
  use syn::Expr as X;
  Ok(match e {
    X::Paren(p) => got(&p.expr)?,
    X::Group(p) => got(&p.expr)?,
    X::Path(p) => squeeze(p),
    X::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) => i.base10_digits().to_string(),
    X::Lit(syn::ExprLit { lit: syn::Lit::Float(i), .. }) if i.base10_digits().trim_matches(|c| c == '0' || c == '.').is_empty() => "0".into(),
    X::Unary(u) => format!("({} {})", squeeze(&u.op), got(&u.expr)?),
    X::Binary(b) => format!("({} {} {})", squeeze(&b.op), got(&b.left)?, got(&b.right)?),
    X::Assign(a) => format!("(= {} {})", got(&a.left)?, got(&a.right)?),
    X::Cast(c) => format!("(as {} {})", squeeze(&c.ty), got(&c.expr)?),
    X::Field(f) => format!("(. {} {})", got(&f.base)?, squeeze(&f.member)),
    X::MethodCall(m) => {
      let mut s = format!("(. {} {}", m.method, got(&m.receiver)?);
      for a in &m.args {
        s.push(' ');
        s.push_str(&got(a)?);
      }
      s + ")"
    },
    X::Call(c) => {
      let f = squeeze(&c.func);
      let (name, generic) = match f.split_once("::<") {
        Some((n, g)) => (n.to_string(), format!("<{g}")),
        None => (f, String::new()),
      };
      let args = c.args.iter().map(got).collect::<Result<Vec<_>, _>>()?.join(" ");
      let name = format!("{}{generic}", name.trim_start_matches(':').trim_start_matches("core::").trim_start_matches("std::"));
      if generic.is_empty() {
        format!("(call {name} {args})")
      } else {
        format!("(call {name})")
      }
    },
    X::Macro(m) if squeeze(&m.mac.path).ends_with("ptr::addr_of_mut") => {
      let inner: X = m.mac.parse_body().map_err(|e| format!("`{}`: {e}", m.to_token_stream()))?;
      format!("(addr_of_mut {})", got(&inner)?)
    },
    X::Macro(m) if m.mac.tokens.is_empty() && squeeze(&m.mac.path).ends_with("line") => "(macro line)".into(),
    X::Block(b) if matches!(b.block.stmts[..], [syn::Stmt::Item(syn::Item::Const(_)), syn::Stmt::Expr(_, None)]) => "(text)".into(),
    X::Block(b) => got_block(&b.block)?,
    X::If(i) => {
      let Some((_, e)) = &i.else_branch else { return Err("if without else".into()) };
      format!("(if {} {} {})", got(&i.cond)?, got_block(&i.then_branch)?, got(e)?)
    },
    e => return Err(format!("unexpected `{}`", e.to_token_stream())),
  })
}

/// Body of the generated macro, or else of the function.
fn body(code: &str) -> Result<String, String> {
  let file: syn::File = syn::parse_str(code).map_err(|e| format!("`{code}` is not valid: {e}"))?;
  for item in &file.items {
    match item {
      syn::Item::Macro(m) => {
        let tokens: Vec<_> = m.mac.tokens.clone().into_iter().collect();
        let Some(proc_macro2::TokenTree::Group(g)) = tokens.get(3) else { return Err(format!("`{code}` is not a macro as expected")) };
        let s = g.stream().to_string().replace("$ ", "").replace('$', "");
        return match syn::parse_str::<syn::Expr>(&s) {
          Ok(e) => got(&e),
          Err(e) => Err(format!("`{s}` is no expression: {e}")),
        }
      },
      syn::Item::Fn(f) => {
        let mut block = (*f.block).clone();
        if matches!(f.sig.output, syn::ReturnType::Default) {
          match block.stmts.last_mut() {
            Some(syn::Stmt::Expr(syn::Expr::Verbatim(t), Some(_))) if t.is_empty() => {
              block.stmts.pop();
            },
            Some(syn::Stmt::Expr(_, semi @ Some(_))) => *semi = None,
            _ => (),
          }
        }
        let b = got_block(&block)?;
        return Ok(b[1..b.len() - 1].to_string())
      },
      _ => (),
    }
  }
  Err(format!("`{code}` contains neither a macro nor a function"))
}

/// C only allows some operands, and literals must not be folded.
pub fn valid(e: &E) -> bool {
  let place = |e: &E| matches!(e, E::Name(n) if !n.starts_with("__")) || matches!(e, E::Arg(_) | E::Member(..) | E::Un("*", _));
  let number = |e: &E| matches!(e, E::Lit(l) if !l.ends_with('"'));
  match e {
    E::Name(_) | E::Arg(_) | E::Lit(_) | E::SizeOf(_) => true,
    E::Call(_, args) => args.iter().all(valid),
    E::Member(l, _) => valid(l) && !matches!(**l, E::Lit(_)),
    E::Un("++" | "--" | "p++" | "p--" | "&", x) => place(x) && valid(x),
    E::Un(op, x) => match &**x {
      E::Lit(l) => l.ends_with('"') && matches!(*op, "!" | "-" | "*"),
      x => valid(x),
    },
    E::Bin(_, l, r) if level(e) == 2 => place(l) && valid(l) && valid(r),
    E::Bin(_, l, r) => !number(l) && valid(l) && valid(r),
    E::Cond(c, a, b) => !number(c) && valid(c) && valid(a) && valid(b),
    E::Cast(_, x) => !matches!(&**x, E::Lit(l) if l == "0") && valid(x),
  }
}

fn generate(toks: &[String], function: bool) -> Result<Option<String>, String> {
  let Some(mt) = macro_tokens(toks) else { return Ok(None) };
  let params: Vec<MacroToken> = ["p", "q"].iter().map(|s| to_macro_token(s).unwrap()).collect();
  panic::catch_unwind(|| {
    let Ok(mut m) = FnMacro::parse("F", &params, &mt) else { return Ok(None) };
    if !matches!(m.body(), MacroBody::Expr(_)) {
      return Ok(None)
    }
    match if function { m.generate(Function) } else { m.generate(Macro) } {
      Ok(t) => Ok(Some(t.to_string())),
      Err(e) => Err(format!("{e:?}")),
    }
  })
  .unwrap_or_else(|_| Err("panic".into()))
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P13"
  }
  fn rule(&self) -> &'static str {
    "all expressions of two and of three operators over names, `__LINE__`, `__FILE__`, strings and parameters (all unary, binary and assignment operators, casts, member access, calls, conditional), generated as a macro and as a function; then random trees of depth up to 5; the generated code is parsed with syn and compared structurally, without parentheses, with the independently translated tree"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let b = |e: &E| Box::new(e.clone());
    let name = |s: &str| E::Name(s.into());
    // Operators with one hole.
    type Hole = Box<dyn Fn(&E) -> E>;
    let holes = |x: E, y: E| -> Vec<Hole> {
      let mut v: Vec<Hole> = vec![];
      for op in PREFIX.iter().chain(&["p++", "p--"]) {
        v.push(Box::new(move |e| E::Un(op, b(e))));
      }
      for op in BINARY.iter().map(|b| b.0).chain(ASSIGN.iter().copied()) {
        let (x1, x2) = (x.clone(), y.clone());
        v.push(Box::new(move |e| E::Bin(op, b(e), b(&x1))));
        v.push(Box::new(move |e| E::Bin(op, b(&x2), b(e))));
      }
      for t in [&["int"][..], &["volatile", "int", "*"], &["float"], &["void"], &["T", "*"]] {
        v.push(Box::new(move |e| E::Cast(t.iter().map(|s| s.to_string()).collect(), b(e))));
      }
      v.push(Box::new(move |e| E::Member(b(e), "m".into())));
      v.push(Box::new(move |e| E::Call("f".into(), vec![e.clone()])));
      let (x1, x2, x3) = (x.clone(), x.clone(), x.clone());
      let (y1, y2, y3) = (y.clone(), y.clone(), y.clone());
      v.push(Box::new(move |e| E::Cond(b(e), b(&x1), b(&y1))));
      v.push(Box::new(move |e| E::Cond(b(&x2), b(e), b(&y2))));
      v.push(Box::new(move |e| E::Cond(b(&x3), b(&y3), b(e))));
      v
    };
    let emit = |sink: &mut Sink, e: &E, form: &str| {
      if sink.mine() && valid(e) {
        let mut t = vec![form.to_string()];
        tokens(e, &mut t, 2, &mut None);
        sink.own(&enc(&t));
      }
    };
    let forms = [("macro", name("a"), name("b"), name("c")), ("function", E::Arg(0), E::Arg(0), E::Arg(0)), ("function", E::Arg(1), E::Arg(0), E::Arg(1)), ("macro", E::Arg(0), E::Lit("2".into()), E::Arg(1)), ("macro", name("__LINE__"), name("b"), name("__LINE__")), ("macro", name("__FILE__"), name("b"), name("__FILE__")), ("function", E::Lit("\"s\"".into()), E::Arg(0), E::Arg(1))];
    let lits: &[&str] = &["1", "2", "0x10", "0", "\"s\""];
    let _ = thorough;
    let one = |rng: &mut Rng, sink: &mut Sink| -> bool {
      let function = rng.chance(1, 2);
      let g = Gen { args: 2, cond: true, assign: true, lits, types: true, calls: !function };
      let depth = 2 + rng.below(4);
      let mut e = random(rng, &g, depth);
      fn args_only(e: &mut E, rng: &mut Rng) {
        match e {
          E::Name(_) => *e = E::Arg(rng.below(2)),
          E::Member(l, _) => {
            let mut x = (**l).clone();
            args_only(&mut x, rng);
            *e = x;
          },
          E::Call(_, a) => a.iter_mut().for_each(|e| args_only(e, rng)),
          E::Un(_, x) | E::Cast(_, x) => args_only(x, rng),
          E::Bin(_, l, r) => {
            args_only(l, rng);
            args_only(r, rng);
          },
          E::Cond(a, b, c) => {
            args_only(a, rng);
            args_only(b, rng);
            args_only(c, rng);
          },
          E::Arg(_) | E::Lit(_) | E::SizeOf(_) => (),
        }
      }
      if function {
        args_only(&mut e, rng);
      }
      if !valid(&e) || function && type_of(&e, true).is_err() {
        return sink.own("[]")
      }
      let mut t = vec![if function { "function" } else { "macro" }.to_string()];
      tokens(&e, &mut t, 2, &mut None);
      t.len() >= 150 || sink.own(&enc(&t))
    };
    for triples in [false, true] {
      for (form, leaf, x, y) in &forms {
        let h = holes(x.clone(), y.clone());
        for h1 in &h {
          let e1 = h1(leaf);
          if !triples {
            emit(sink, &e1, form);
          }
          for h2 in &h {
            let e2 = h2(&e1);
            if !valid(&e2) {
              continue
            }
            if !triples {
              emit(sink, &e2, form);
              continue
            }
            for h3 in &h {
              emit(sink, &h3(&e2), form);
            }
            for _ in 0..10 {
              if !one(rng, sink) {
                return
              }
            }
          }
          if sink.stopped {
            return
          }
        }
      }
    }
    while one(rng, sink) {}
  }
  fn eval(&self, case: &str) -> Outcome {
    let toks = dec(case);
    if toks.is_empty() {
      return Ok("-not a C expression")
    }
    let function = toks[0] == "function";
    let toks = &toks[1..];
    let shown = toks.join(" ");
    let Ok(e) = Parser::parse(toks) else { return Ok("-out of scope") };
    if !valid(&e) {
      return Ok("-not a C expression or folded")
    }
    let typed = type_of(&e, function);
    let code = match generate(toks, function) {
      Ok(Some(c)) => c,
      Ok(None) => return Ok("-not parsed"),
      Err(e) if e.contains("UnsupportedExpression") && typed.is_err() => return Ok("-dereference of a non-pointer"),
      Err(e) => return Err(format!("no code is generated for `{shown}`: {e}")),
    };
    let want = want(&e, function);
    match body(&code) {
      Ok(got) if got == want => Ok(if code.contains("macro_rules") { "macro" } else { "function" }),
      Ok(got) => Err(format!("`{shown}` is generated as `{code}`, i.e. {got} instead of {want}")),
      Err(err) => Err(format!("`{shown}` is generated as `{code}`: {err}, expected {want}")),
    }
  }
}

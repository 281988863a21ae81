//! P18: a macro becomes a function exactly when its types are known.
//!
//! A case is a macro in prefix notation: its kind, its name, its parameters with the types which the user gives, and its body.
use std::panic;

use cmacro::{CodegenContext, FnMacro, MacroBody, VarMacro};
use proc_macro2::{TokenStream, TokenTree};

use crate::{common::*, p13::squeeze, tree::macro_tokens};

pub struct P;

#[derive(Debug, Clone)]
enum N {
  Lit(String),
  Par(usize),
  Name(String),
  Call(String, Vec<N>),
  Cast(String, Box<N>),
  /// The type is a parameter, or a pointer to one.
  CastPar(usize, bool, Box<N>),
  Size(String),
  SizePar(usize),
  Un(String, Box<N>),
  Bin(String, Box<N>, Box<N>),
  Cond(Box<N>, Box<N>, Box<N>),
  Member(Box<N>, String),
  MemberPar(Box<N>, usize),
  Paste(String, usize),
  Str(usize),
}

#[derive(Debug, Clone)]
enum St {
  Expr(N),
  Decl(String, String, N),
  DeclPar(String, usize, N),
  DeclTy(usize, String, N),
  Fn(String, String, String),
  FnPar(String, usize, String),
  FnParam(String, String, usize),
  If(N, Box<St>),
}

#[derive(Debug, Clone)]
enum Body {
  Expr(N),
  Block(Vec<St>),
}

struct Case {
  var: bool,
  name: String,
  params: Vec<(String, Option<String>)>,
  body: Body,
}

// ---- prefix notation -----------------------------------------------------------------------------------------------

fn put(n: &N, o: &mut Vec<String>) {
  let mut w = |s: &[&str]| o.extend(s.iter().map(|s| s.to_string()));
  match n {
    N::Lit(l) => w(&["lit", l]),
    N::Par(i) => w(&["par", &i.to_string()]),
    N::Name(x) => w(&["name", x]),
    N::Call(f, a) => {
      w(&["call", f, &a.len().to_string()]);
      a.iter().for_each(|a| put(a, o));
    },
    N::Cast(t, x) => {
      w(&["cast", t]);
      put(x, o)
    },
    N::CastPar(i, p, x) => {
      w(&[if *p { "castpp" } else { "castp" }, &i.to_string()]);
      put(x, o)
    },
    N::Size(t) => w(&["size", t]),
    N::SizePar(i) => w(&["sizep", &i.to_string()]),
    N::Un(op, x) => {
      w(&["un", op]);
      put(x, o)
    },
    N::Bin(op, l, r) => {
      w(&["bin", op]);
      put(l, o);
      put(r, o)
    },
    N::Cond(c, a, b) => {
      w(&["cond"]);
      put(c, o);
      put(a, o);
      put(b, o)
    },
    N::Member(l, f) => {
      w(&["mem", f]);
      put(l, o)
    },
    N::MemberPar(l, i) => {
      w(&["memp", &i.to_string()]);
      put(l, o)
    },
    N::Paste(x, i) => w(&["paste", x, &i.to_string()]),
    N::Str(i) => w(&["str", &i.to_string()]),
  }
}

fn put_st(s: &St, o: &mut Vec<String>) {
  let mut w = |s: &[&str]| o.extend(s.iter().map(|s| s.to_string()));
  match s {
    St::Expr(e) => {
      w(&["expr"]);
      put(e, o)
    },
    St::Decl(t, x, e) => {
      w(&["decl", t, x]);
      put(e, o)
    },
    St::DeclPar(t, i, e) => {
      w(&["declp", t, &i.to_string()]);
      put(e, o)
    },
    St::DeclTy(i, x, e) => {
      w(&["declt", &i.to_string(), x]);
      put(e, o)
    },
    St::Fn(t, f, p) => w(&["fn", t, f, p]),
    St::FnPar(t, i, p) => w(&["fnp", t, &i.to_string(), p]),
    St::FnParam(t, f, i) => w(&["fnparam", t, f, &i.to_string()]),
    St::If(c, s) => {
      w(&["if"]);
      put(c, o);
      put_st(s, o)
    },
  }
}

fn put_case(c: &Case) -> String {
  let mut o = vec![if c.var { "var" } else { "fn" }.to_string(), c.name.clone(), c.params.len().to_string()];
  for (p, t) in &c.params {
    o.push(p.clone());
    o.push(t.clone().unwrap_or_default());
  }
  match &c.body {
    Body::Expr(e) => {
      o.push("expr".into());
      put(e, &mut o)
    },
    Body::Block(b) => {
      o.push(b.len().to_string());
      b.iter().for_each(|s| put_st(s, &mut o))
    },
  }
  enc(&o)
}

struct In<'a>(&'a [String]);

impl In<'_> {
  fn s(&mut self) -> Option<String> {
    let (x, r) = self.0.split_first()?;
    self.0 = r;
    Some(x.clone())
  }
  fn i(&mut self) -> Option<usize> {
    self.s()?.parse().ok()
  }
  fn b(&mut self) -> Option<Box<N>> {
    self.n().map(Box::new)
  }
  fn n(&mut self) -> Option<N> {
    Some(match self.s()?.as_str() {
      "lit" => N::Lit(self.s()?),
      "par" => N::Par(self.i()?),
      "name" => N::Name(self.s()?),
      "call" => {
        let f = self.s()?;
        let k = self.i()?;
        N::Call(f, (0..k).map(|_| self.n()).collect::<Option<_>>()?)
      },
      "cast" => N::Cast(self.s()?, self.b()?),
      "castp" => N::CastPar(self.i()?, false, self.b()?),
      "castpp" => N::CastPar(self.i()?, true, self.b()?),
      "size" => N::Size(self.s()?),
      "sizep" => N::SizePar(self.i()?),
      "un" => N::Un(self.s()?, self.b()?),
      "bin" => N::Bin(self.s()?, self.b()?, self.b()?),
      "cond" => N::Cond(self.b()?, self.b()?, self.b()?),
      "mem" => {
        let f = self.s()?;
        N::Member(self.b()?, f)
      },
      "memp" => {
        let i = self.i()?;
        N::MemberPar(self.b()?, i)
      },
      "paste" => N::Paste(self.s()?, self.i()?),
      "str" => N::Str(self.i()?),
      _ => return None,
    })
  }
  fn st(&mut self) -> Option<St> {
    Some(match self.s()?.as_str() {
      "expr" => St::Expr(self.n()?),
      "decl" => St::Decl(self.s()?, self.s()?, self.n()?),
      "declp" => St::DeclPar(self.s()?, self.i()?, self.n()?),
      "declt" => St::DeclTy(self.i()?, self.s()?, self.n()?),
      "fn" => St::Fn(self.s()?, self.s()?, self.s()?),
      "fnp" => St::FnPar(self.s()?, self.i()?, self.s()?),
      "fnparam" => St::FnParam(self.s()?, self.s()?, self.i()?),
      "if" => St::If(self.n()?, Box::new(self.st()?)),
      _ => return None,
    })
  }
  fn case(&mut self) -> Option<Case> {
    let var = self.s()? == "var";
    let name = self.s()?;
    let k = self.i()?;
    let params = (0..k).map(|_| Some((self.s()?, self.s()?))).collect::<Option<Vec<_>>>()?;
    let params = params.into_iter().map(|(p, t)| (p, if t.is_empty() { None } else { Some(t) })).collect();
    let k = self.s()?;
    let body = if k == "expr" { Body::Expr(self.n()?) } else { Body::Block((0..k.parse::<usize>().ok()?).map(|_| self.st()).collect::<Option<_>>()?) };
    Some(Case { var, name, params, body })
  }
}

// ---- C -------------------------------------------------------------------------------------------------------------

fn words(t: &str, o: &mut Vec<String>) {
  o.extend(t.split(' ').map(String::from));
}

fn print(n: &N, top: bool, o: &mut Vec<String>) {
  let atom = matches!(n, N::Lit(_) | N::Par(_) | N::Name(_) | N::Call(..) | N::Size(_) | N::SizePar(_) | N::Paste(..) | N::Str(_));
  if !atom && !top {
    o.push("(".into());
  }
  match n {
    N::Lit(l) => o.push(l.clone()),
    N::Par(i) => o.push(format!("${i}")),
    N::Name(x) => o.push(x.clone()),
    N::Call(f, a) => {
      o.extend([f.clone(), "(".into()]);
      for (i, a) in a.iter().enumerate() {
        if i > 0 {
          o.push(",".into());
        }
        print(a, true, o);
      }
      o.push(")".into());
    },
    N::Cast(t, x) => {
      o.push("(".into());
      words(t, o);
      o.push(")".into());
      print(x, false, o);
    },
    N::CastPar(i, p, x) => {
      o.extend(["(".to_string(), format!("${i}")]);
      if *p {
        o.push("*".into());
      }
      o.push(")".into());
      print(x, false, o);
    },
    N::Size(t) => {
      o.extend(["sizeof".to_string(), "(".into()]);
      words(t, o);
      o.push(")".into());
    },
    N::SizePar(i) => o.extend(["sizeof".to_string(), "(".into(), format!("${i}"), ")".into()]),
    N::Un(op, x) => {
      let post = op.starts_with('p');
      if !post {
        o.push(op.clone());
      }
      print(x, false, o);
      if post {
        o.push(op[1..].to_string());
      }
    },
    N::Bin(op, l, r) => {
      print(l, false, o);
      o.push(op.clone());
      print(r, false, o);
    },
    N::Cond(c, a, b) => {
      print(c, false, o);
      o.push("?".into());
      print(a, false, o);
      o.push(":".into());
      print(b, false, o);
    },
    N::Member(l, f) => {
      print(l, false, o);
      o.extend([".".to_string(), f.clone()]);
    },
    N::MemberPar(l, i) => {
      print(l, false, o);
      o.extend([".".to_string(), format!("${i}")]);
    },
    N::Paste(x, i) => o.extend([x.clone(), "##".into(), format!("${i}")]),
    N::Str(i) => o.extend(["#".to_string(), format!("${i}")]),
  }
  if !atom && !top {
    o.push(")".into());
  }
}

fn print_st(s: &St, o: &mut Vec<String>) {
  match s {
    St::Expr(e) => print(e, true, o),
    St::Decl(t, x, e) => {
      words(t, o);
      o.extend([x.clone(), "=".into()]);
      print(e, true, o);
    },
    St::DeclPar(t, i, e) => {
      words(t, o);
      o.extend([format!("${i}"), "=".into()]);
      print(e, true, o);
    },
    St::DeclTy(i, x, e) => {
      o.extend([format!("${i}"), x.clone(), "=".into()]);
      print(e, true, o);
    },
    St::Fn(t, f, p) => {
      words(t, o);
      o.extend([f.clone(), "(".into(), "int".into(), p.clone(), ")".into()]);
    },
    St::FnPar(t, i, p) => {
      words(t, o);
      o.extend([format!("${i}"), "(".into(), "int".into(), p.clone(), ")".into()]);
    },
    St::FnParam(t, f, i) => {
      words(t, o);
      o.extend([f.clone(), "(".into(), "int".into(), format!("${i}"), ")".into()]);
    },
    St::If(c, s) => {
      o.extend(["if".to_string(), "(".into()]);
      print(c, true, o);
      o.push(")".into());
      print_st(s, o);
      return
    },
  }
  o.push(";".into());
}

// ---- what the user says --------------------------------------------------------------------------------------------

/// Functions of C: parameters and result.
const FUNCTIONS: &[(&str, &[&str], &str)] = &[("f", &["int"], "int"), ("g", &["long"], "long"), ("h", &["int", "T"], "void"), ("k", &["int *"], "T *")];

fn rust(t: &str) -> String {
  if let Some(t) = t.strip_suffix(" *") {
    return format!("*mut {}", rust(t))
  }
  match t {
    "void" => "c_void",
    "int" => "c_int",
    "unsigned int" => "c_uint",
    "long" => "c_long",
    "char" => "c_char",
    "size_t" => "c_size_t",
    t => t,
  }
  .into()
}

struct Cx<'a>(&'a Case);

impl CodegenContext for Cx<'_> {
  fn macro_arg_ty(&self, m: &str, arg: &str) -> Option<syn::Type> {
    let (_, t) = self.0.params.iter().find(|p| p.0 == arg)?;
    if m != self.0.name {
      return None
    }
    syn::parse_str(&rust(t.as_ref()?)).ok()
  }
  fn function(&self, name: &str) -> Option<(Vec<syn::Type>, syn::Type)> {
    let (_, p, r) = FUNCTIONS.iter().find(|f| f.0 == name)?;
    let ty = |t: &str| syn::parse_str(&if t == "void" { "()".into() } else { rust(t) }).unwrap();
    Some((p.iter().map(|t| ty(t)).collect(), ty(r)))
  }
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    (ty == "T").then(|| syn::parse_quote!(T))
  }
  fn resolve_enum_variant(&self, name: &str) -> Option<(syn::Type, syn::Expr)> {
    (name == "V").then(|| (syn::parse_quote!(c_int), syn::parse_quote!(V)))
  }
}

// ---- reference -----------------------------------------------------------------------------------------------------

#[derive(Debug, Clone, PartialEq)]
enum How {
  Value(Option<String>),
  /// Used as something which is no value: the fragment it needs.
  As(&'static str),
}

struct Ref {
  params: Vec<How>,
  /// Something only a macro can do.
  only_macro: bool,
  var: bool,
}

type Ty = Option<String>;

fn join(a: Ty, b: Ty) -> Ty {
  match (a, b) {
    (Some(a), Some(b)) => (a == b).then_some(a),
    (a, b) => a.or(b),
  }
}

/// A parameter, or a member of one.
fn place(n: &N) -> bool {
  match n {
    N::Par(_) => true,
    N::Member(l, _) | N::MemberPar(l, _) => place(l),
    _ => false,
  }
}

/// Is it calculated?
fn literal(n: &N) -> bool {
  match n {
    N::Lit(_) => true,
    N::Un(op, x) => matches!(op.as_str(), "-" | "!") && literal(x),
    N::Bin(op, l, r) => matches!(op.as_str(), "+" | "*") && literal(l) && literal(r),
    _ => false,
  }
}

impl Ref {
  fn as_type(&mut self, i: usize) {
    if self.params[i] != How::As("ident") {
      self.params[i] = How::As("ty");
    }
  }
  fn expr(&mut self, n: &N) -> Result<Ty, ()> {
    let known = |s: &str| Some(s.to_string());
    Ok(match n {
      N::Lit(_) => None,
      N::Par(i) => match &self.params[*i] {
        How::Value(t) => t.clone(),
        How::As(_) => None,
      },
      N::Name(x) => match x.as_str() {
        "V" | "__INT_MAX__" => known("int"),
        "__LINE__" => {
          self.only_macro = true;
          known("unsigned int")
        },
        _ => {
          self.only_macro = true;
          None
        },
      },
      N::Call(f, a) => {
        if self.var {
          return Err(())
        }
        for a in a {
          self.expr(a)?;
        }
        match FUNCTIONS.iter().find(|x| x.0 == f) {
          None => {
            self.only_macro = true;
            None
          },
          Some((_, p, _)) if p.len() != a.len() => None,
          Some((_, p, r)) => {
            for (a, t) in a.iter().zip(p.iter()) {
              if let N::Par(i) = a {
                if self.params[*i] == How::Value(None) {
                  self.params[*i] = How::Value(known(t));
                }
              }
            }
            known(r)
          },
        }
      },
      N::Cast(t, x) => {
        self.expr(x)?;
        known(t)
      },
      N::CastPar(i, p, x) => {
        self.expr(x)?;
        self.as_type(*i);
        Some(format!("${i}{}", if *p { " *" } else { "" }))
      },
      N::Size(_) => known("size_t"),
      N::SizePar(i) => {
        self.as_type(*i);
        known("size_t")
      },
      N::Un(op, x) => {
        let t = self.expr(x)?;
        match op.as_str() {
          "!" => if literal(x) { None } else { known("bool") },
          "*" if self.var => return Err(()),
          "*" => match t {
            None => None,
            Some(t) => Some(t.strip_suffix(" *").ok_or(())?.to_string()),
          },
          op => {
            if op != "-" && place(x) {
              self.only_macro = true;
            }
            if op == "&" { t.map(|t| format!("{t} *")) } else { t }
          },
        }
      },
      N::Bin(op, l, r) => {
        let (mut a, mut b) = (self.expr(l)?, self.expr(r)?);
        let max = |x: &N| matches!(x, N::Name(x) if x == "__INT_MAX__");
        match op.as_str() {
          "<" | "==" => known("bool"),
          op => {
            if matches!(op, "=" | "+=") && place(l) {
              self.only_macro = true;
            }
            if matches!(op, "+" | "*") && literal(r) && max(l) {
              a = known("unsigned int");
            } else if matches!(op, "+" | "*") && literal(l) && max(r) {
              b = known("unsigned int");
            }
            join(a, b)
          },
        }
      },
      N::Cond(c, a, b) => {
        self.expr(c)?;
        join(self.expr(a)?, self.expr(b)?)
      },
      N::Member(l, f) => {
        self.expr(l)?;
        if f != "V" {
          self.only_macro = true;
        }
        None
      },
      N::MemberPar(l, i) => {
        self.expr(l)?;
        self.params[*i] = How::As("ident");
        None
      },
      N::Paste(_, i) => {
        self.params[*i] = How::As("ident");
        None
      },
      N::Str(i) => {
        if matches!(self.params[*i], How::Value(_)) {
          self.params[*i] = How::As("expr");
        }
        known("string")
      },
    })
  }
  fn stmt(&mut self, s: &St) -> Result<(), ()> {
    match s {
      St::Expr(e) | St::Decl(_, _, e) => {
        self.expr(e)?;
      },
      St::DeclPar(_, i, e) => {
        self.params[*i] = How::As("ident");
        self.expr(e)?;
      },
      St::DeclTy(i, _, e) => {
        self.as_type(*i);
        self.expr(e)?;
      },
      St::Fn(..) => (),
      St::FnPar(_, i, _) | St::FnParam(_, _, i) => self.params[*i] = How::As("ident"),
      St::If(c, s) => {
        self.expr(c)?;
        self.stmt(s)?;
      },
    }
    Ok(())
  }
}

// ---- the generated item --------------------------------------------------------------------------------------------

/// Parameters are `$p` in a macro, and `p` in a function.
fn spelled(t: TokenStream, params: &[(String, Option<String>)], dollar: bool) -> bool {
  let mut before = false;
  for t in t {
    match t {
      TokenTree::Group(g) => {
        if !spelled(g.stream(), params, dollar) {
          return false
        }
        before = false;
      },
      TokenTree::Ident(i) => {
        let i = i.to_string();
        if params.iter().any(|p| p.0 == i) && before != dollar {
          return false
        }
        before = false;
      },
      TokenTree::Punct(p) => before = p.as_char() == '$',
      TokenTree::Literal(_) => before = false,
    }
  }
  true
}

/// All parameters which are used in the code.
fn check_function(code: TokenStream, case: &Case, types: &[String], ret: &str) -> Result<(), String> {
  let f: syn::ItemFn = syn::parse2(code).map_err(|e| format!("not a function: {e}"))?;
  if f.sig.ident != case.name || f.sig.unsafety.is_none() || !matches!(f.vis, syn::Visibility::Public(_)) || f.sig.abi.as_ref().and_then(|a| a.name.as_ref()).map(|n| n.value()).as_deref() != Some("C") {
    return Err("not `pub unsafe extern \"C\"` or another name".into())
  }
  let got: Vec<String> = f.sig.inputs.iter().map(squeeze).collect();
  let want: Vec<String> = case.params.iter().zip(types).map(|(p, t)| format!("mut {}:{}", p.0, squeeze(&syn::parse_str::<syn::Type>(&rust(t)).unwrap()))).collect();
  if got != want {
    return Err(format!("parameters are {got:?}, expected {want:?}"))
  }
  let out = match &f.sig.output {
    syn::ReturnType::Default => "void".to_string(),
    syn::ReturnType::Type(_, t) => squeeze(t),
  };
  let want = if ret == "void" { ret.to_string() } else { squeeze(&syn::parse_str::<syn::Type>(&rust(ret)).unwrap()) };
  if out != want {
    return Err(format!("the result is `{out}`, expected `{want}`"))
  }
  let valued = matches!(f.block.stmts.last(), Some(syn::Stmt::Expr(_, None)) | Some(syn::Stmt::Macro(syn::StmtMacro { semi_token: None, .. })));
  if valued != (ret != "void") {
    return Err(format!("the function {} a value", if valued { "has" } else { "lacks" }))
  }
  if !spelled(quote::quote!(#f), &case.params, false) {
    return Err("a parameter is written as in a macro".into())
  }
  Ok(())
}

fn check_macro(code: TokenStream, case: &Case, fragments: &[&str]) -> Result<(), String> {
  let text = |t: TokenStream| squeeze(&t);
  let id = format!("__cmacro__{}", case.name);
  let toks: Vec<TokenTree> = code.into_iter().collect();
  let at = toks.iter().position(|t| matches!(t, TokenTree::Ident(i) if i == "macro_rules")).ok_or("not a macro")?;
  let head = text(toks[..at].iter().cloned().collect());
  if !head.contains("macro_export") {
    return Err("the macro is not exported".into())
  }
  let [TokenTree::Punct(_), TokenTree::Ident(name), TokenTree::Group(rules), rest @ ..] = &toks[at + 1..] else { return Err("not a macro".into()) };
  let rest = text(rest.iter().cloned().collect());
  if *name != id || rest != format!("pub use {id} as {};", case.name) {
    return Err(format!("the macro is `{name}`, then `{rest}`"))
  }
  let rules: Vec<TokenTree> = rules.stream().into_iter().collect();
  let [TokenTree::Group(m), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(body), TokenTree::Punct(_)] = &rules[..] else { return Err("not one rule".into()) };
  let want: Vec<String> = case.params.iter().zip(fragments).map(|(p, f)| if p.0 == "..." { "$($__VA_ARGS__:expr),*".into() } else { format!("${}:{f}", p.0) }).collect();
  let got = text(m.stream()).replace(", ", ",");
  if got != want.join(",") {
    return Err(format!("the parameters are `{got}`, expected `{}`", want.join(",")))
  }
  if !spelled(body.stream(), &case.params, true) {
    return Err("a parameter is not written as in a macro".into())
  }
  Ok(())
}

// ---- cases ---------------------------------------------------------------------------------------------------------

const TYPES: &[&str] = &["int", "long", "T", "int *", "T *", "char *"];
const NAMES: &[&str] = &["x", "V", "__INT_MAX__", "__LINE__"];
const UN: &[&str] = &["-", "!", "*", "&", "++", "p--"];
const BIN: &[&str] = &["+", "*", "<", "==", "=", "+="];

fn leaves(k: usize) -> Vec<N> {
  let mut v: Vec<N> = vec![N::Lit("1".into()), N::Size("T".into())];
  v.extend(NAMES.iter().map(|n| N::Name(n.to_string())));
  for i in 0..k {
    v.extend([N::Par(i), N::SizePar(i), N::Paste("x".into(), i), N::Str(i)]);
  }
  v
}

fn random(rng: &mut Rng, k: usize, depth: usize) -> N {
  if depth == 0 || rng.chance(1, 6) {
    if k > 0 && rng.chance(3, 5) {
      return N::Par(rng.below(k))
    }
    return rng.pick(&leaves(k)).clone()
  }
  let b = |rng: &mut Rng| Box::new(random(rng, k, depth - 1));
  match rng.below(12) {
    0..=3 => {
      let (f, p, _) = rng.pick(FUNCTIONS);
      let n = if rng.chance(1, 12) { rng.below(3) } else { p.len() };
      let f = if rng.chance(1, 10) { "u" } else { f };
      N::Call(f.to_string(), (0..n).map(|_| if k > 0 && rng.chance(1, 2) { N::Par(rng.below(k)) } else { random(rng, k, depth - 1) }).collect())
    },
    4 => {
      let t = if rng.chance(1, 5) { "void" } else { rng.pick(TYPES) };
      N::Cast(t.to_string(), b(rng))
    },
    5 if k > 0 && rng.chance(1, 2) => N::CastPar(rng.below(k), rng.chance(1, 3), b(rng)),
    5 | 6 => N::Un(rng.pick(UN).to_string(), b(rng)),
    7..=9 => N::Bin(rng.pick(BIN).to_string(), b(rng), b(rng)),
    10 => N::Cond(b(rng), b(rng), b(rng)),
    _ if k > 0 && rng.chance(1, 3) => N::MemberPar(b(rng), rng.below(k)),
    _ => N::Member(b(rng), if rng.chance(1, 3) { "V" } else { "y" }.into()),
  }
}

fn random_st(rng: &mut Rng, k: usize) -> St {
  let depth = 1 + rng.below(2);
  let e = |rng: &mut Rng| random(rng, k, depth);
  let t = |rng: &mut Rng| rng.pick(TYPES).to_string();
  match rng.below(10) {
    0 => St::Decl(t(rng), "x".into(), e(rng)),
    1 if k > 0 => St::DeclPar(t(rng), rng.below(k), e(rng)),
    2 if k > 0 => St::DeclTy(rng.below(k), "x".into(), e(rng)),
    3 => St::Fn(t(rng), "z".into(), "x".into()),
    4 if k > 0 => St::FnPar(t(rng), rng.below(k), "x".into()),
    5 if k > 0 => St::FnParam(t(rng), "z".into(), rng.below(k)),
    6 => St::If(e(rng), Box::new(random_st(rng, k))),
    _ => St::Expr(e(rng)),
  }
}

fn nodes(n: &N, ok: &mut dyn FnMut(&N) -> bool) -> bool {
  ok(n)
    && match n {
      N::Call(_, a) => a.iter().all(|a| nodes(a, ok)),
      N::Cast(_, x) | N::CastPar(_, _, x) | N::Un(_, x) | N::Member(x, _) | N::MemberPar(x, _) => nodes(x, ok),
      N::Bin(_, l, r) => nodes(l, ok) && nodes(r, ok),
      N::Cond(c, a, b) => nodes(c, ok) && nodes(a, ok) && nodes(b, ok),
      _ => true,
    }
}

/// C, as far as the parser reads it.
fn valid(n: &N) -> bool {
  let lvalue = |n: &N| matches!(n, N::Par(_) | N::Name(_) | N::Member(..) | N::MemberPar(..) | N::Paste(..)) || matches!(n, N::Un(op, _) if op == "*");
  let value = |n: &N| !matches!(n, N::Cast(t, _) if t == "void");
  nodes(n, &mut |n| match n {
    N::Un(op, x) => value(x) && (matches!(op.as_str(), "-" | "!" | "*") || lvalue(x)),
    N::Bin(op, l, r) => value(l) && value(r) && (!matches!(op.as_str(), "=" | "+=") || lvalue(l)),
    N::Member(x, _) | N::MemberPar(x, _) => lvalue(x) || matches!(**x, N::Call(..)),
    N::Cast(_, x) | N::CastPar(_, _, x) => value(x),
    N::Cond(c, a, b) => value(c) && value(a) && value(b),
    N::Call(_, a) => a.iter().all(value),
    _ => true,
  })
}

fn valid_st(s: &St) -> bool {
  match s {
    // A declaration.
    St::Expr(N::Bin(op, l, r)) if op == "*" && matches!(**l, N::Par(_) | N::Name(_) | N::Paste(..)) && matches!(**r, N::Call(..)) => false,
    St::Expr(e) | St::Decl(_, _, e) | St::DeclPar(_, _, e) | St::DeclTy(_, _, e) => valid(e),
    St::If(c, s) => valid(c) && valid_st(s),
    _ => true,
  }
}

fn givens() -> Vec<Option<String>> {
  [None, Some("int"), Some("T *")].iter().map(|t| t.map(String::from)).collect()
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P18"
  }
  fn rule(&self) -> &'static str {
    "all expressions of depth up to 1 (thorough: two operators) over two parameters, each without a type, an int or a pointer, as the body of a macro and of a statement, then random macros with up to 4 parameters, also variadic, variable-like and named like a C function; the kind of the generated item, its parameters with their types or fragments, its result and the spelling of the parameters are compared with what the uses of the parameters say"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let l = leaves(2);
    let mut all: Vec<N> = l.clone();
    let one = |x: &N, all: &mut Vec<N>| {
      all.extend(UN.iter().map(|op| N::Un(op.to_string(), Box::new(x.clone()))));
      all.extend(["int", "T", "int *", "void"].iter().map(|t| N::Cast(t.to_string(), Box::new(x.clone()))));
      all.extend([N::CastPar(0, false, Box::new(x.clone())), N::CastPar(1, true, Box::new(x.clone())), N::Member(Box::new(x.clone()), "y".into()), N::MemberPar(Box::new(x.clone()), 1)]);
      all.extend(["f", "k", "u"].iter().map(|f| N::Call(f.to_string(), vec![x.clone()])));
    };
    for x in &l {
      one(x, &mut all);
    }
    for x in &l {
      for y in &l {
        all.extend(BIN.iter().map(|op| N::Bin(op.to_string(), Box::new(x.clone()), Box::new(y.clone()))));
        all.push(N::Call("h".into(), vec![x.clone(), y.clone()]));
      }
    }
    let mut next = vec![];
    for x in &all {
      one(x, &mut next);
    }
    if thorough {
      for x in &all {
        for y in &l {
          for op in BIN {
            next.push(N::Bin(op.to_string(), Box::new(x.clone()), Box::new(y.clone())));
            next.push(N::Bin(op.to_string(), Box::new(y.clone()), Box::new(x.clone())));
          }
        }
      }
    }
    all.extend(next);
    for a in givens() {
      for b in givens() {
        for e in &all {
          for (name, block) in [("F", false), ("F", true), ("f", false)] {
            if !sink.mine() || !valid(e) {
              continue
            }
            let params = vec![("p".to_string(), a.clone()), ("q".to_string(), b.clone())];
            let body = if block { Body::Block(vec![St::Expr(e.clone())]) } else { Body::Expr(e.clone()) };
            if !sink.own(&put_case(&Case { var: false, name: name.into(), params, body })) {
              return
            }
          }
        }
      }
    }
    loop {
      let var = rng.chance(1, 8);
      let k = if var { 0 } else { rng.below(5) };
      let mut params: Vec<(String, Option<String>)> =
        (0..k).map(|i| (["p", "q", "r", "s"][i].to_string(), if rng.chance(1, 3) { Some(rng.pick(TYPES).to_string()) } else { None })).collect();
      if k > 0 && rng.chance(1, 20) {
        params[k - 1] = ("...".into(), None);
      }
      let depth = 1 + rng.below(4);
      let mut body = if rng.chance(2, 3) { Body::Expr(random(rng, k, depth)) } else { Body::Block((0..1 + rng.below(3)).map(|_| random_st(rng, k)).collect()) };
      // More often something which can be a function.
      if rng.chance(1, 2) {
        let plain = |e: &N| nodes(e, &mut |n| !matches!(n, N::Paste(..) | N::Str(_) | N::SizePar(_) | N::CastPar(..) | N::MemberPar(..) | N::Member(..) | N::Name(_)) && !matches!(n, N::Call(f, _) if f == "u") && !matches!(n, N::Un(op, _) if matches!(op.as_str(), "&" | "++" | "p--")) && !matches!(n, N::Bin(op, ..) if matches!(op.as_str(), "=" | "+=")));
        if let Body::Expr(e) = &mut body {
          let mut tries = 0;
          while !plain(e) && tries < 20 {
            *e = random(rng, k, depth);
            tries += 1;
          }
          if rng.chance(1, 2) {
            // Types for parameters which would have none.
            let args: Vec<N> = (0..k).map(|i| N::Call(rng.pick(&["f", "g", "k"]).to_string(), vec![N::Par(i)])).collect();
            for a in args {
              *e = if rng.chance(1, 2) { N::Bin("==".into(), Box::new(a), Box::new(e.clone())) } else { N::Bin("+".into(), Box::new(e.clone()), Box::new(a)) };
            }
          }
        }
      }
      let ok = match &body {
        Body::Expr(e) => valid(e),
        Body::Block(b) => b.iter().all(valid_st),
      };
      let name = if rng.chance(1, 20) { "h" } else { "F" };
      if ok && !sink.own(&put_case(&Case { var, name: name.into(), params, body })) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let toks = dec(case);
    let mut input = In(&toks);
    let Some(case) = input.case() else { return Ok("-no case") };
    let mut body = vec![];
    match &case.body {
      Body::Expr(e) => print(e, true, &mut body),
      Body::Block(b) => {
        body.push("{".into());
        b.iter().for_each(|s| print_st(s, &mut body));
        body.push("}".into());
      },
    }
    let shown = format!("{}({}) {}", case.name, case.params.iter().map(|p| format!("{}: {}", p.0, p.1.as_deref().unwrap_or("?"))).collect::<Vec<_>>().join(", "), body.join(" "));
    let Some(tokens) = macro_tokens(&body) else { return Ok("-no tokens") };
    let mut r = Ref { params: case.params.iter().map(|p| How::Value(p.1.clone())).collect(), only_macro: false, var: case.var };
    let want = match &case.body {
      Body::Expr(e) => r.expr(e),
      Body::Block(b) => b.iter().try_for_each(|s| r.stmt(s)).map(|_| Some("void".to_string())),
    };
    if case.var {
      let got = panic::catch_unwind(|| {
        let mut m = VarMacro::parse(&case.name, &tokens).ok()?;
        Some(m.generate(Cx(&case)).map(|(_, t)| t.map(|t| squeeze(&t))).map_err(|e| format!("{e:?}")))
      })
      .map_err(|_| format!("generating `{shown}` panics"))?;
      let Some(got) = got else { return Ok("-not parsed") };
      let ty = |t: &str| squeeze(&syn::parse_str::<syn::Type>(&rust(t)).unwrap());
      let ok = match (&case.body, &want, &got) {
        (Body::Block(_), _, Err(e)) => e.contains("NonExpressionVarMacro"),
        (Body::Block(_), ..) => false,
        (_, Err(()), Err(e)) => e.contains("UnsupportedExpression"),
        (_, Err(()), _) => false,
        (_, Ok(_), Err(e)) if r.only_macro => e.contains("NonConstantVarMacro"),
        (_, Ok(t), Ok(got)) if !r.only_macro => *got == t.as_deref().map(ty),
        _ => false,
      };
      if !ok {
        return Err(format!("variable-like `{shown}` is generated as {got:?}, expected {want:?}, {}", if r.only_macro { "not constant" } else { "constant" }))
      }
      return Ok(if got.is_ok() { "constant" } else { "no constant" })
    }
    let Ok(ret) = want else { return Ok("-dereference of a non-pointer") };
    let names: Vec<String> = case.params.iter().map(|p| p.0.clone()).collect();
    let Some(names) = macro_tokens(&names) else { return Ok("-no tokens") };
    let code = panic::catch_unwind(|| {
      let mut m = FnMacro::parse(&case.name, &names, &tokens).ok()?;
      if matches!(m.body(), MacroBody::Expr(_)) != matches!(case.body, Body::Expr(_)) {
        return None
      }
      Some(m.generate(Cx(&case)).map_err(|e| format!("{e:?}")))
    })
    .map_err(|_| format!("generating `{shown}` panics"))?;
    let code = match code {
      None => return Ok("-not parsed"),
      Some(Err(e)) => return Err(format!("no code is generated for `{shown}`: {e}")),
      Some(Ok(c)) => c,
    };
    let types: Option<Vec<String>> = r.params.iter().map(|p| if let How::Value(Some(t)) = p { Some(t.clone()) } else { None }).collect();
    let variadic = case.params.last().is_some_and(|p| p.0 == "...");
    let text = squeeze(&code);
    let (tag, res) = match (types, ret) {
      (Some(types), Some(ret)) if !r.only_macro && !variadic && !FUNCTIONS.iter().any(|f| f.0 == case.name) => ("function", check_function(code, &case, &types, &ret)),
      _ => {
        let fragments: Vec<&str> = r.params.iter().map(|p| if let How::As(f) = p { *f } else { "expr" }).collect();
        ("macro", check_macro(code, &case, &fragments))
      },
    };
    res.map(|_| tag).map_err(|e| format!("`{shown}` is generated as `{text}`, expected a {tag}: {e}"))
  }
}

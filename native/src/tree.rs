//! Expression trees, their tokens, and the reference parser for C expressions.
use cmacro::*;

use crate::common::Rng;

#[derive(Debug, Clone, PartialEq)]
pub enum E {
  Name(String),
  Arg(usize),
  /// Integer, floating or character literal.
  Lit(String),
  Call(String, Vec<E>),
  Member(Box<E>, String),
  /// Prefix operators; `p++` and `p--` are the postfix ones.
  Un(&'static str, Box<E>),
  Bin(&'static str, Box<E>, Box<E>),
  Cond(Box<E>, Box<E>, Box<E>),
  Cast(Vec<String>, Box<E>),
  SizeOf(Vec<String>),
}

pub const BINARY: &[(&str, u8)] = &[
  ("*", 12), ("/", 12), ("%", 12), ("+", 11), ("-", 11), ("<<", 10), (">>", 10), ("<", 9), ("<=", 9), (">", 9), (">=", 9), ("==", 8), ("!=", 8), ("&", 7),
  ("^", 6), ("|", 5),
];
pub const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", "&=", "^=", "|="];
pub const PREFIX: &[&str] = &["*", "&", "++", "--", "+", "-", "!", "~"];
/// Types that are unambiguously types.
pub const TYPES: &[&[&str]] = &[

  &["int"], &["unsigned", "int"], &["char"], &["long"], &["unsigned", "long", "long"], &["float"], &["double"], &["int", "*"], &["void", "*"], &["short"],
  &["const", "char", "*"], &["volatile", "int", "*"], &["struct", "S", "*"], &["T", "*"], &["unsigned", "char"], &["int", "*", "const", "*"],
  &["void"],
];

const KEYWORDS: &[&str] = &["int", "unsigned", "signed", "char", "long", "short", "float", "double", "void", "const", "volatile", "struct", "sizeof", "bool", "return", "if", "while", "for"];

pub fn is_name(s: &str) -> bool {
  crate::lexref::ident(s).is_some() && !KEYWORDS.contains(&s)
}
pub fn is_keyword(s: &str) -> bool {
  KEYWORDS.contains(&s)
}
pub fn arg(s: &str) -> Option<usize> {
  s.strip_prefix('$')?.parse().ok()
}
fn is_lit(s: &str) -> bool {
  s == "\"s\"" || s.ends_with('\'') || crate::lexref::int(s).is_some() || crate::lexref::float(s).is_some()
}

/// Precedence of the outermost operator of an expression, primary expressions are 16.
pub fn level(e: &E) -> u8 {
  match e {
    E::Name(_) | E::Arg(_) | E::Lit(_) => 16,
    E::Call(..) | E::Member(..) => 15,
    E::Un("p++" | "p--", _) => 15,
    E::Un(..) | E::Cast(..) => 14,
    E::SizeOf(..) => 16,
    E::Bin(op, ..) => BINARY.iter().find(|b| b.0 == *op).map_or(if *op == "[]" { 15 } else { 2 }, |b| b.1),
    E::Cond(..) => 3,
  }
}

/// Tokens of a tree, with parentheses where C needs them and some more.
pub fn tokens(e: &E, out: &mut Vec<String>, min: u8, rng: &mut Option<&mut Rng>) {
  let extra = rng.as_mut().is_some_and(|r| r.chance(1, 12));
  if rng.as_mut().is_some_and(|r| r.chance(1, 25)) {
    out.push("/* c */".into());
  }
  let lv = level(e);
  // A lone name in parentheses may be taken for a type.
  let parens = lv < min || extra && !matches!(e, E::Name(_));
  if parens {
    out.push("(".into());
    if rng.as_mut().is_some_and(|r| r.chance(1, 25)) {
      out.push("/* ( */".into());
    }
  }
  match e {
    E::Name(n) | E::Lit(n) => out.push(n.clone()),
    E::Arg(i) => out.push(format!("${i}")),
    E::Call(f, args) => {
      out.push(f.clone());
      out.push("(".into());
      for (i, a) in args.iter().enumerate() {
        if i > 0 {
          out.push(",".into());
        }
        tokens(a, out, 2, rng);
      }
      out.push(")".into());
    },
    E::Member(l, f) => {
      match &**l {
        E::Un("*", p) if rng.as_mut().is_none_or(|r| r.chance(2, 3)) => {
          tokens(p, out, 15, rng);
          out.push("->".into());
        },
        _ => {
          tokens(l, out, 15, rng);
          out.push(".".into());
        },
      }
      out.push(f.clone());
    },
    E::Un("p++", x) | E::Un("p--", x) => {
      tokens(x, out, 15, rng);
      out.push(if matches!(e, E::Un("p++", _)) { "++" } else { "--" }.into());
    },
    E::Un(op, x) => {
      if let ("*", E::Bin("+", l, r)) = (*op, &**x) {
        if rng.as_mut().is_some_and(|r| r.chance(1, 2)) {
          // Cannot be distinguished from the sum.
          if !parens {
            out.push("(".into());
          }
          tokens(l, out, 15, rng);
          out.push("[".into());
          tokens(r, out, 2, rng);
          out.push("]".into());
          if !parens {
            out.push(")".into());
          }
          if parens {
            out.push(")".into());
          }
          return
        }
      }
      out.push(op.to_string());
      tokens(x, out, 14, rng);
    },
    E::Cast(ty, x) => {
      out.push("(".into());
      out.extend(ty.iter().cloned());
      out.push(")".into());
      tokens(x, out, 14, rng);
    },
    E::SizeOf(ty) => {
      out.push("sizeof".into());
      out.push("(".into());
      out.extend(ty.iter().cloned());
      out.push(")".into());
    },
    E::Bin(op, l, r) if lv == 2 => {
      tokens(l, out, 14, rng);
      out.push(op.to_string());
      tokens(r, out, 2, rng);
    },
    E::Bin(op, l, r) => {
      tokens(l, out, lv, rng);
      if rng.as_mut().is_some_and(|r| r.chance(1, 25)) {
        out.push("/* + */".into());
      }
      out.push(op.to_string());
      tokens(r, out, lv + 1, rng);
    },
    E::Cond(c, a, b) => {
      tokens(c, out, 4, rng);
      out.push("?".into());
      tokens(a, out, 2, rng);
      out.push(":".into());
      tokens(b, out, 3, rng);
    },
  }
  if parens {
    out.push(")".into());
  }
}

pub struct Gen {
  pub args: usize,
  pub cond: bool,
  pub assign: bool,
  pub lits: &'static [&'static str],
  pub types: bool,
  pub calls: bool,
}

pub fn random(rng: &mut Rng, g: &Gen, depth: usize) -> E {
  if depth == 0 || rng.chance(1, 7) {
    return match rng.below(4) {
      0 if g.args > 0 => E::Arg(rng.below(g.args)),
      1 | 2 if !g.lits.is_empty() && rng.chance(1, 2) => E::Lit(rng.pick(g.lits).to_string()),
      _ => E::Name(rng.pick(&["a", "b", "c", "x"]).to_string()),
    }
  }
  let sub = |rng: &mut Rng| Box::new(random(rng, g, depth - 1));
  match rng.below(14) {
    0 if g.calls => {
      let n = rng.below(3);
      E::Call("f".into(), (0..n).map(|_| random(rng, g, depth - 1)).collect())
    },
    1 => E::Member(sub(rng), rng.pick(&["m", "n"]).to_string()),
    2 => {
      let op = *rng.pick(&["p++", "p--"]);
      E::Un(op, sub(rng))
    },
    3 | 4 => {
      let op = *rng.pick(PREFIX);
      E::Un(op, sub(rng))
    },
    5 if g.types => E::Cast(rng.pick(TYPES).iter().map(|s| s.to_string()).collect(), sub(rng)),
    6 if g.types && rng.chance(1, 3) => E::SizeOf(rng.pick(TYPES).iter().map(|s| s.to_string()).collect()),
    7 if g.cond => E::Cond(sub(rng), sub(rng), sub(rng)),
    8 if g.assign => {
      let op = *rng.pick(ASSIGN);
      E::Bin(op, sub(rng), sub(rng))
    },
    9 if g.types => E::Un("*", Box::new(E::Bin("+", sub(rng), sub(rng)))),
    _ => {
      let op = rng.pick(BINARY).0;
      E::Bin(op, sub(rng), sub(rng))
    },
  }
}

#[derive(Debug, PartialEq)]
pub enum Stop {
  /// Not a C expression.
  Reject,
  /// Not covered by the property, e.g. depends on which names are types.
  Scope,
}

pub struct Parser<'a> {
  toks: Vec<&'a str>,
  i: usize,
}

type R<T> = Result<T, Stop>;

impl<'a> Parser<'a> {
  pub fn parse(toks: &'a [String]) -> R<E> {
    for (i, t) in toks.iter().enumerate() {
      // Comments in the middle of type names are not supported.
      let keyword = |t: Option<&&String>| t.is_some_and(|t| is_keyword(t) && !matches!(t.as_str(), "sizeof" | "return" | "if" | "while" | "for") || matches!(t.as_str(), "S" | "T"));
      if t.starts_with("/*") {
        let before = toks[..i].iter().rev().filter(|t| !t.starts_with("/*")).collect::<Vec<_>>();
        if keyword(before.first()) || before.first().is_some_and(|t| *t != "(") && keyword(toks[i..].iter().filter(|t| !t.starts_with("/*")).collect::<Vec<_>>().first()) {
          return Err(Stop::Scope)
        }
        if before.first().is_some_and(|t| *t == "*") && before.get(1).is_some_and(|t| keyword(Some(t))) {
          return Err(Stop::Scope)
        }
      }
    }
    let toks: Vec<&str> = toks.iter().map(|s| s.as_str()).filter(|s| !s.starts_with("/*")).collect();
    let mut p = Parser { toks, i: 0 };
    let e = p.assignment()?;
    if p.i != p.toks.len() {
      return Err(p.bad())
    }
    Ok(e)
  }

  fn peek(&self) -> Option<&'a str> {
    self.toks.get(self.i).copied()
  }

  fn bad(&self) -> Stop {
    match self.peek() {
      Some("&&" | "||" | "," | "[" | "." | "->" | "(" | "++" | "--" | "#" | "##") => Stop::Scope,
      Some(t) if is_name(t) || t.contains('"') || KEYWORDS.contains(&t) || arg(t).is_some() => Stop::Scope,
      _ => Stop::Reject,
    }
  }

  fn eat(&mut self, t: &str) -> R<()> {
    if self.peek() == Some(t) {
      self.i += 1;
      return Ok(())
    }
    Err(self.bad())
  }

  fn assignment(&mut self) -> R<E> {
    let l = self.conditional()?;
    if let Some(op) = ASSIGN.iter().find(|o| self.peek() == Some(o)) {
      // The left side of an assignment is a unary expression.
      if level(&l) < 14 && self.toks[self.i - 1] != ")" {
        return Err(Stop::Scope)
      }
      self.i += 1;
      let r = self.assignment()?;
      return Ok(E::Bin(op, l.into(), r.into()))
    }
    Ok(l)
  }

  fn conditional(&mut self) -> R<E> {
    let c = self.binary(5)?;
    if self.peek() == Some("?") {
      self.i += 1;
      let a = self.assignment()?;
      self.eat(":")?;
      let b = self.conditional()?;
      return Ok(E::Cond(c.into(), a.into(), b.into()))
    }
    Ok(c)
  }

  fn binary(&mut self, min: u8) -> R<E> {
    let mut l = self.unary()?;
    loop {
      let Some((op, prec)) = BINARY.iter().find(|b| self.peek() == Some(b.0)) else { return Ok(l) };
      if *prec < min {
        return Ok(l)
      }
      self.i += 1;
      let r = self.binary(prec + 1)?;
      l = E::Bin(op, l.into(), r.into());
    }
  }

  /// Tokens of a parenthesised type name which is one for sure.
  fn type_name(&self) -> Option<usize> {
    let mut j = self.i + 1;
    let first = *self.toks.get(j)?;
    if !matches!(first, "int" | "unsigned" | "signed" | "char" | "long" | "short" | "float" | "double" | "void" | "const" | "volatile" | "struct" | "bool") {
      // `(T *)`
      if !is_name(first) && arg(first).is_none() {
        return None
      }
      let mut k = j + 1;
      while matches!(self.toks.get(k), Some(&"*" | &"const" | &"volatile")) {
        k += 1;
      }
      return (k > j + 1 && self.toks.get(k) == Some(&")")).then_some(k)
    }
    while self.toks.get(j)? != &")" {
      j += 1;
    }
    Some(j)
  }

  fn unary(&mut self) -> R<E> {
    let Some(t) = self.peek() else { return Err(Stop::Reject) };
    if let Some(op) = PREFIX.iter().find(|o| **o == t) {
      self.i += 1;
      return Ok(E::Un(op, self.unary()?.into()))
    }
    if t == "sizeof" {
      self.i += 1;
      if self.peek() == Some("(") {
        if let Some(end) = self.type_name() {
          let ty = &self.toks[self.i + 1..end];
          if !TYPES.contains(&ty) {
            return Err(Stop::Scope)
          }
          self.i = end + 1;
          let e = E::SizeOf(ty.iter().map(|s| s.to_string()).collect());
          if matches!(self.peek(), Some("(" | "[" | "." | "->" | "++" | "--")) {
            return Err(Stop::Scope)
          }
          return Ok(e)
        }
      }
      return Err(Stop::Scope)
    }
    if t == "(" {
      if let Some(end) = self.type_name() {
        let ty = &self.toks[self.i + 1..end];
        if !TYPES.contains(&ty) {
          return Err(Stop::Scope)
        }
        self.i = end + 1;
        return Ok(E::Cast(ty.iter().map(|s| s.to_string()).collect(), self.unary()?.into()))
      }
      // A lone name or parameter may be a type.
      if let (Some(&n), Some(&")")) = (self.toks.get(self.i + 1), self.toks.get(self.i + 2)) {
        if is_name(n) || arg(n).is_some() {
          match self.toks.get(self.i + 3) {
            Some(&("+" | "-" | "*" | "&")) if arg(n).is_some() => (),
            Some(&s) if is_name(s) && n != s || is_lit(s) && !s.ends_with('\'') || s == "!" || s == "~" => {
              self.i += 3;
              return Ok(E::Cast(vec![n.into()], self.unary()?.into()))
            },
            Some(&("+" | "-" | "*" | "&" | "(" | "++" | "--" | "#" | "sizeof")) => return Err(Stop::Scope),
            Some(s) if is_name(s) || s.starts_with('$') || s.ends_with(['\'', '"']) => return Err(Stop::Scope),
            _ => (),
          }
        }
      }
    }
    self.postfix()
  }

  fn postfix(&mut self) -> R<E> {
    let Some(t) = self.peek() else { return Err(Stop::Reject) };
    let mut bare = false;
    let mut e = if t == "(" {
      self.i += 1;
      let e = self.assignment()?;
      if self.peek() == Some(",") {
        return Err(Stop::Scope)
      }
      self.eat(")")?;
      e
    } else if let Some(n) = arg(t) {
      self.i += 1;
      bare = true;
      E::Arg(n)
    } else if is_lit(t) {
      self.i += 1;
      E::Lit(t.into())
    } else if is_name(t) {
      self.i += 1;
      if matches!(t, "u8" | "u" | "U" | "L") {
        return Err(Stop::Scope)
      }
      bare = true;
      E::Name(t.into())
    } else {
      return Err(self.bad())
    };
    // The parser does not chain anything but `->` after a postfix increment.
    let mut inc = false;
    loop {
      match self.peek() {
        Some("(") => {
          self.i += 1;
          let mut args = vec![];
          if self.peek() != Some(")") {
            loop {
              args.push(self.assignment()?);
              if self.peek() != Some(",") {
                break
              }
              self.i += 1;
            }
          }
          self.eat(")")?;
          match e {
            E::Name(n) if bare => e = E::Call(n, args),
            _ => return Err(Stop::Scope),
          }
        },
        Some("[") if !inc => {
          self.i += 1;
          let r = self.assignment()?;
          if self.peek() == Some(",") {
            return Err(Stop::Scope)
          }
          self.eat("]")?;
          e = E::Un("*", E::Bin("+", e.into(), r.into()).into());
        },
        Some(op @ ("." | "->")) if !inc || op == "->" => {
          self.i += 1;
          match self.peek() {
            Some(f) if is_name(f) => {
              self.i += 1;
              let l = if op == "->" { E::Un("*", e.into()) } else { e };
              e = E::Member(l.into(), f.into());
            },
            _ => return Err(Stop::Scope),
          }
          inc = false;
          bare = false;
          continue
        },
        Some(op @ ("++" | "--")) if !inc => {
          self.i += 1;
          e = E::Un(if op == "++" { "p++" } else { "p--" }, e.into());
          inc = true;
          bare = false;
          continue
        },
        Some("++" | "--" | "." | "[") => return Err(Stop::Scope),
        Some(t) if is_name(t) || arg(t).is_some() || t.contains('"') || t == "#" || t == "##" || KEYWORDS.contains(&t) => return Err(Stop::Scope),
        _ => return Ok(e),
      }
      inc = false;
      bare = false;
    }
  }
}

pub fn to_macro_token(t: &str) -> Option<MacroToken<'_>> {
  if let Some(i) = arg(t) {
    return Some(MacroToken::Arg(MacroArg::new(i)))
  }
  if let Ok(i) = Identifier::try_from(t) {
    Some(MacroToken::Identifier(i))
  } else if let Ok(l) = Lit::try_from(t) {
    Some(MacroToken::Lit(l))
  } else if let Ok(p) = Punctuation::try_from(t) {
    Some(MacroToken::Punctuation(p))
  } else if let Ok(c) = Comment::try_from(t) {
    Some(MacroToken::Comment(c))
  } else {
    None
  }
}

pub fn macro_tokens(toks: &[String]) -> Option<Vec<MacroToken<'_>>> {
  toks.iter().map(|t| to_macro_token(t)).collect()
}

/// Names in the trees are few, so these are never freed.
fn intern(s: &str) -> &'static str {
  static NAMES: std::sync::Mutex<std::collections::BTreeSet<&'static str>> = std::sync::Mutex::new(std::collections::BTreeSet::new());
  let mut names = NAMES.lock().unwrap_or_else(|e| e.into_inner());
  if let Some(n) = names.get(s) {
    return n
  }
  let n: &'static str = Box::leak(s.to_string().into_boxed_str());
  names.insert(n);
  n
}

fn placeholder(i: usize) -> Expr<'static> {
  let name: &'static str = ["placeholder_0", "placeholder_1", "placeholder_2", "placeholder_3"][i];
  simple(&[name])
}

/// Parse tokens which are too simple to go wrong. There are only few of these.
fn simple(toks: &[&'static str]) -> Expr<'static> {
  thread_local! {
    static KNOWN: std::cell::RefCell<std::collections::HashMap<Vec<&'static str>, &'static FnMacro<'static>>> = Default::default();
  }
  let m = KNOWN.with(|k| {
    *k.borrow_mut().entry(toks.to_vec()).or_insert_with(|| {
      let toks: Vec<MacroToken<'static>> = toks.iter().map(|t| to_macro_token(t).unwrap()).collect();
      Box::leak(Box::new(FnMacro::parse("F", &[], &toks).expect("simple expression")))
    })
  });
  match m.body() {
    MacroBody::Expr(e) => e.clone(),
    _ => panic!("simple expression"),
  }
}

pub fn un_op(op: &str) -> UnaryOp {
  match op {
    "p++" => UnaryOp::PostInc,
    "p--" => UnaryOp::PostDec,
    "++" => UnaryOp::Inc,
    "--" => UnaryOp::Dec,
    "+" => UnaryOp::Plus,
    "-" => UnaryOp::Minus,
    "!" => UnaryOp::Not,
    "~" => UnaryOp::Comp,
    "*" => UnaryOp::Deref,
    _ => UnaryOp::AddrOf,
  }
}

pub fn bin_op(op: &str) -> BinaryOp {
  use BinaryOp::*;
  match op {
    "*" => Mul,
    "/" => Div,
    "%" => Rem,
    "+" => Add,
    "-" => Sub,
    "<<" => Shl,
    ">>" => Shr,
    "<" => Lt,
    "<=" => Lte,
    ">" => Gt,
    ">=" => Gte,
    "==" => Eq,
    "!=" => Neq,
    "&" => BitAnd,
    "^" => BitXor,
    "|" => BitOr,
    "=" => Assign,
    "+=" => AddAssign,
    "-=" => SubAssign,
    "*=" => MulAssign,
    "/=" => DivAssign,
    "%=" => RemAssign,
    "<<=" => ShlAssign,
    ">>=" => ShrAssign,
    "&=" => BitAndAssign,
    "^=" => BitXorAssign,
    "|=" => BitOrAssign,
    _ => unreachable!(),
  }
}

fn plain(name: &str) -> IdentifierExpr<'static> {
  let name: &'static str = match name {
    "S" => "S",
    "T" => "T",
    "a" => "a",
    "b" => "b",
    "c" => "c",
    "x" => "x",
    "f" => "f",
    n => intern(n),
  };
  IdentifierExpr::Plain(Identifier::try_from(name).unwrap())
}

fn built(t: BuiltInType) -> Type<'static> {
  Type::BuiltIn(t)
}
fn ptr(t: Type<'static>) -> Type<'static> {
  Type::Ptr { ty: Box::new(t) }
}

pub fn ty(t: &[String]) -> Type<'static> {
  let t: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
  let q = |t: Type<'static>, qualifier| Type::Qualified { ty: Box::new(t), qualifier };
  use BuiltInType::*;
  match t[..] {
    ["int"] => built(Int),
    ["void"] => built(Void),
    ["unsigned", "int"] => built(UInt),
    ["char"] => built(Char),
    ["long"] => built(Long),
    ["unsigned", "long", "long"] => built(ULongLong),
    ["float"] => built(Float),
    ["double"] => built(Double),
    ["int", "*"] => ptr(built(Int)),
    ["void", "*"] => ptr(built(Void)),
    ["short"] => built(Short),
    ["const", "char", "*"] => ptr(q(built(Char), TypeQualifier::Const)),
    ["volatile", "int", "*"] => ptr(q(built(Int), TypeQualifier::Volatile)),
    ["struct", s, "*"] => ptr(Type::Identifier { name: plain(s), is_struct: true }),
    ["unsigned", "char"] => built(UChar),
    ["int", "*", "const", "*"] => ptr(q(ptr(built(Int)), TypeQualifier::Const)),
    [n, "*"] => ptr(Type::Identifier { name: plain(n), is_struct: false }),
    [n] => match arg(n) {
      Some(i) => Type::Identifier { name: IdentifierExpr::Arg(MacroArg::new(i)), is_struct: false },
      None => Type::Identifier { name: plain(n), is_struct: false },
    },
    _ => unreachable!(),
  }
}

/// Debug representation of the expression a tree stands for.
pub fn expected(e: &E) -> String {
  let fill = |template: Expr, subs: &[&E]| {
    let mut s = format!("{template:?}");
    for (i, sub) in subs.iter().enumerate() {
      s = s.replacen(&format!("{:?}", placeholder(i)), &format!("\u{1}{i}\u{1}"), 1);
      let _ = sub;
    }
    for (i, sub) in subs.iter().enumerate() {
      s = s.replacen(&format!("\u{1}{i}\u{1}"), &expected(sub), 1);
    }
    s
  };
  let ph = |i| Box::new(placeholder(i));
  match e {
    E::Name(n) => {
      let n: &'static str = intern(n);
      format!("{:?}", simple(&[n]))
    },
    E::Arg(i) => {
      let t = [MacroToken::Arg(MacroArg::new(*i))];
      match FnMacro::parse("F", &[], &t).expect("argument").body() {
        MacroBody::Expr(e) => format!("{e:?}"),
        _ => panic!("argument"),
      }
    },
    E::Lit(l) => format!("{:?}", Expr::Literal(Lit::try_from(l.as_str()).unwrap())),
    E::Call(f, args) => {
      let mut t: Vec<&'static str> = vec![intern(f), "("];
      for i in 0..args.len() {
        if i > 0 {
          t.push(",");
        }
        t.push(["placeholder_0", "placeholder_1", "placeholder_2", "placeholder_3"][i]);
      }
      t.push(")");
      fill(simple(&t), &args.iter().collect::<Vec<_>>())
    },
    E::Member(l, f) => {
      let f: &'static str = intern(f);
      fill(Expr::Binary(BinaryExpr { lhs: ph(0), op: BinaryOp::MemberAccess, rhs: Box::new(simple(&[f])) }), &[l])
    },
    E::Un(op, x) => fill(Expr::Unary(UnaryExpr { op: un_op(op), expr: ph(0) }), &[x]),
    E::Bin(op, l, r) => fill(Expr::Binary(BinaryExpr { lhs: ph(0), op: bin_op(op), rhs: ph(1) }), &[l, r]),
    E::Cond(c, a, b) => fill(Expr::Ternary(TernaryExpr { condition: ph(0), if_branch: ph(1), else_branch: ph(2) }), &[c, a, b]),
    E::Cast(t, x) => fill(Expr::Cast(Cast { ty: ty(t), expr: ph(0) }), &[x]),
    E::SizeOf(t) => format!("{:?}", Expr::SizeOf(ty(t))),
  }
}

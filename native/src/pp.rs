//! Reference preprocessor: macro expansion of pre-tokenised bodies, written
//! from the rules of the C standard (6.10.3) and independent of the code
//! under test. Parameters of the macro that is asked for stay symbolic.
use std::collections::HashMap;

use cmacro::{Comment, IdentifierContinue, Lit, LitString, MacroArg, MacroToken};

use crate::lexref;

#[derive(Debug, Clone, PartialEq)]
pub enum P {
  Ch(char),
  /// At most one space.
  Opt,
  /// Exactly one space.
  Space,
}

#[derive(Debug, Clone, PartialEq)]
pub enum K {
  Id,
  VarArgs,
  Arg(usize),
  Num { float: bool },
  /// String or character literal; `ordinary` without prefix.
  Text { ordinary: bool },
  IdCont,
  Punct,
  Comment,
  Plain,
  Place,
  /// Result of `#`: contents of a string literal.
  Str(Vec<P>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct T {
  pub k: K,
  pub s: String,
  pub painted: bool,
}

#[derive(Debug, Clone, PartialEq)]
pub enum E {
  Arity { name: String, required: usize, given: usize },
  Other(&'static str),
  /// The outcome is unspecified or out of scope.
  Skip(&'static str),
}

#[derive(Debug, Clone)]
pub enum Def {
  Var(Vec<String>),
  Fn(Vec<String>, Vec<String>),
}

pub type Defs = HashMap<String, Def>;

pub fn lex(s: &str) -> T {
  let k = if s == "__VA_ARGS__" {
    K::VarArgs
  } else if lexref::ident(s).is_some() {
    return T { k: K::Id, s: lexref::ident(s).unwrap(), painted: false }
  } else if lexref::char_value(s).is_some() || lexref::string_value(s).is_some() {
    K::Text { ordinary: s.starts_with(['"', '\'']) }
  } else if lexref::float(s).is_some() {
    K::Num { float: true }
  } else if lexref::int(s).is_some() {
    K::Num { float: false }
  } else if let Some(s) = lexref::ident_cont(s) {
    return T { k: K::IdCont, s, painted: false }
  } else if let Some(p) = lexref::punct(s) {
    return T { k: K::Punct, s: p.into(), painted: false }
  } else if lexref::comment(s).is_some() {
    K::Comment
  } else {
    K::Plain
  };
  T { k, s: s.into(), painted: false }
}

fn p(s: &str) -> T {
  T { k: K::Punct, s: s.into(), painted: false }
}

fn is_op(t: &T, op: &str) -> bool {
  t.k == K::Punct && t.s == op && !t.painted
}

fn comment(t: &T) -> bool {
  t.k == K::Comment
}

fn param(t: &T) -> bool {
  matches!(t.k, K::Arg(_) | K::VarArgs)
}

pub struct Pp<'a> {
  pub defs: &'a Defs,
  pub budget: usize,
  /// What was exercised: substituted calls, pastes, strings.
  pub calls: usize,
  pub pastes: usize,
  pub strings: usize,
  pub blocked: usize,
  pub no_calls: usize,
  pub deferred: usize,
}

type R<X> = Result<X, E>;

impl<'a> Pp<'a> {
  pub fn new(defs: &'a Defs) -> Self {
    Pp { defs, budget: 3_000, calls: 0, pastes: 0, strings: 0, blocked: 0, no_calls: 0, deferred: 0 }
  }

  fn step(&mut self, n: usize) -> R<()> {
    if self.budget < n + 1 {
      return Err(E::Skip("too long"))
    }
    self.budget -= n + 1;
    Ok(())
  }

  fn tokenize(&self, params: &[String], body: &[String]) -> Vec<T> {
    let params: Vec<&String> = params.iter().filter(|p| lexref::comment(p).is_none()).collect();
    body
      .iter()
      .map(|b| match params.iter().position(|p| *p == b && *b != "...") {
        Some(i) => T { k: K::Arg(i), s: b.clone(), painted: false },
        None => lex(b),
      })
      .collect()
  }

  pub fn var(&mut self, name: &str) -> R<Vec<T>> {
    let Some(Def::Var(body)) = self.defs.get(name) else { return Err(E::Other("not found")) };
    let body = self.tokenize(&[], body);
    let r = self.var_body(&[], name, body)?;
    finish(r)
  }

  pub fn func(&mut self, name: &str) -> R<Vec<T>> {
    let Some(Def::Fn(params, body)) = self.defs.get(name) else { return Err(E::Other("not found")) };
    check_params(params)?;
    let body = self.tokenize(params, body);
    let r = self.fn_body(&[], name, params, None, body)?;
    finish(r)
  }

  fn var_body(&mut self, names: &[String], name: &str, body: Vec<T>) -> R<Vec<T>> {
    if body.iter().any(|t| t.k == K::VarArgs) {
      return Err(E::Other("__VA_ARGS__"))
    }
    let body = self.paste_all(body)?;
    let mut inner = names.to_vec();
    inner.push(name.into());
    let r = self.expand(&inner, body)?;
    self.exclude(r)
  }

  fn fn_body(&mut self, names: &[String], name: &str, params: &[String], args: Option<Vec<Vec<T>>>, body: Vec<T>) -> R<Vec<T>> {
    let params: Vec<&String> = params.iter().filter(|p| lexref::comment(p).is_none()).collect();
    let variadic = params.last().is_some_and(|p| *p == "...");
    if !variadic && body.iter().any(|t| t.k == K::VarArgs) {
      return Err(E::Other("__VA_ARGS__"))
    }
    let body = match args {
      None => body,
      Some(args) => {
        let ok = if variadic {
          args.len() >= params.len() - 1
        } else {
          args.len() == params.len() || params.is_empty() && args.len() == 1 && args[0].iter().all(comment)
        };
        if !ok {
          let required = params.len() - variadic as usize;
          return Err(E::Arity { name: name.into(), required, given: args.len() })
        }
        let mut out = vec![];
        let mut i = 0;
        while i < body.len() {
          let t = &body[i];
          self.step(1)?;
          if is_op(t, "#") {
            let j = i + 1 + body[i + 1..].iter().take_while(|t| comment(t)).count();
            let Some(t) = body.get(j).filter(|t| param(t)) else { return Err(E::Other("# without parameter")) };
            let arg = argument(t, &params, &args);
            out.extend(self.stringify(&arg)?);
            i = j + 1;
            continue
          }
          if param(t) {
            let arg = argument(t, &params, &args);
            let before = body[..i].iter().rfind(|t| !comment(t)).is_some_and(|t| is_op(t, "##"));
            let after = body[i + 1..].iter().find(|t| !comment(t)).is_some_and(|t| is_op(t, "##"));
            let mut arg = if before || after {
              if arg.iter().all(comment) {
                vec![T { k: K::Place, s: String::new(), painted: false }]
              } else {
                arg
              }
            } else {
              self.expand(names, arg)?
            };
            for t in &mut arg {
              if t.k == K::Punct && (t.s == "#" || t.s == "##") {
                t.painted = true;
              }
            }
            out.extend(arg);
          } else {
            out.push(t.clone());
          }
          i += 1;
        }
        out
      },
    };
    let body = self.paste_all(body)?;
    let mut inner = names.to_vec();
    inner.push(name.into());
    let r = self.expand(&inner, body)?;
    self.exclude(r)
  }

  /// What is no call when it is scanned is none when it is rescanned, unless it is completed by following tokens.
  fn exclude(&mut self, mut toks: Vec<T>) -> R<Vec<T>> {
    for i in 0..toks.len() {
      self.step(0)?;
      if toks[i].k == K::Id && !toks[i].painted && matches!(self.defs.get(&toks[i].s), Some(Def::Fn(..))) && collect(&toks[i + 1..]).is_some() {
        toks[i].painted = true;
      }
    }
    Ok(toks)
  }

  fn expand(&mut self, names: &[String], toks: Vec<T>) -> R<Vec<T>> {
    let mut out = vec![];
    let mut rest = toks;
    let mut i = 0;
    while i < rest.len() {
      self.step(0)?;
      let mut t = rest[i].clone();
      i += 1;
      if t.k != K::Id || t.painted {
        out.push(t);
        continue
      }
      if names.contains(&t.s) {
        if self.defs.contains_key(&t.s) {
          self.blocked += 1;
        }
        t.painted = true;
        out.push(t);
        continue
      }
      let replaced = match self.defs.get(&t.s) {
        None => None,
        Some(Def::Var(body)) => {
          let body = self.tokenize(&[], body);
          self.calls += 1;
          Some((self.var_body(names, &t.s, body)?, i))
        },
        Some(Def::Fn(params, body)) => {
          if rest.get(i).is_some_and(comment) && rest[i..].iter().find(|t| !comment(t)).is_some_and(|t| is_op(t, "(")) {
            return Err(E::Skip("comment between macro name and parenthesis"))
          }
          match collect(&rest[i..]) {
            None => {
              self.no_calls += 1;
              None
            },
            Some((args, n)) => {
              check_params(params)?;
              let body = self.tokenize(params, body);
              self.calls += 1;
              Some((self.fn_body(names, &t.s, params, Some(args), body)?, i + n))
            },
          }
        },
      };
      match replaced {
        None => out.push(t),
        Some((mut new, end)) => {
          self.step(new.len() + rest.len() - end)?;
          new.extend_from_slice(&rest[end..]);
          rest = new;
          i = 0;
        },
      }
    }
    Ok(out)
  }

  fn paste_all(&mut self, toks: Vec<T>) -> R<Vec<T>> {
    let mut out: Vec<T> = vec![];
    let mut i = 0;
    while i < toks.len() {
      self.step(0)?;
      let t = &toks[i];
      i += 1;
      if !is_op(t, "##") {
        out.push(t.clone());
        continue
      }
      let j = i + toks[i..].iter().take_while(|t| comment(t)).count();
      if toks.get(j).is_some_and(|t| is_op(t, "##")) {
        return Err(E::Skip("consecutive ##"))
      }
      if out.iter().rfind(|t| !comment(t)).is_some_and(param) || toks.get(j).is_some_and(param) {
        self.deferred += 1;
        out.push(t.clone());
        continue
      }
      while out.last().is_some_and(comment) {
        out.pop();
      }
      let Some(lhs) = out.pop() else { return Err(E::Other("## at the beginning")) };
      let Some(rhs) = toks.get(j) else { return Err(E::Other("## at the end")) };
      self.pastes += 1;
      out.push(paste(lhs, rhs.clone())?);
      i = j + 1;
    }
    out.retain(|t| t.k != K::Place);
    Ok(out)
  }

  fn stringify(&mut self, toks: &[T]) -> R<Vec<T>> {
    self.strings += 1;
    let mut out = vec![];
    let mut cur: Option<Vec<P>> = None;
    let mut word = false;
    let mut first = true;
    let flush = |cur: &mut Option<Vec<P>>, out: &mut Vec<T>| {
      if let Some(c) = cur.take() {
        out.push(T { k: K::Str(c), s: String::new(), painted: false });
      }
    };
    for t in toks {
      let text: Vec<P> = match &t.k {
        K::Comment | K::Place => continue,
        K::Arg(_) | K::VarArgs => {
          self.deferred += 1;
          // What is not known yet is taken for a word.
          if word {
            cur.get_or_insert_with(Vec::new).push(P::Space);
          } else if let Some(c) = &mut cur {
            c.push(P::Opt);
          }
          flush(&mut cur, &mut out);
          out.push(p("#"));
          out.push(t.clone());
          first = false;
          word = true;
          continue
        },
        K::Plain => return Err(E::Skip("stringified invalid token")),
        K::Str(c) => {
          let mut v = vec![P::Ch('"')];
          for c in c {
            if matches!(c, P::Ch('"' | '\\')) {
              v.push(P::Ch('\\'));
            }
            v.push(c.clone());
          }
          v.push(P::Ch('"'));
          v
        },
        _ if t.s == "__LINE__" || t.s == "__FILE__" => return Err(E::Skip("__LINE__")),
        _ => t.s.chars().map(P::Ch).collect(),
      };
      let wordy = |t: &[P]| t.iter().any(|c| matches!(c, P::Ch(c) if unicode_ident::is_xid_continue(*c)));
      let cur = cur.get_or_insert_with(Vec::new);
      if !first {
        cur.push(if word && wordy(&text) { P::Space } else { P::Opt });
      }
      first = false;
      word = wordy(&text);
      cur.extend(text);
    }
    flush(&mut cur, &mut out);
    if out.is_empty() {
      out.push(T { k: K::Str(vec![]), s: String::new(), painted: false });
    }
    Ok(out)
  }
}

/// Parameter lists which are errors.
fn check_params(params: &[String]) -> R<()> {
  let names: Vec<&String> = params.iter().filter(|p| lexref::comment(p).is_none()).collect();
  for (i, n) in names.iter().enumerate() {
    if names[..i].contains(n) || (i + 1 < names.len() && *n == "...") {
      return Err(E::Other("parameters"))
    }
    if *n != "..." && lexref::ident(n).is_none() {
      return Err(E::Other("parameters"))
    }
  }
  Ok(())
}

fn argument(t: &T, params: &[&String], args: &[Vec<T>]) -> Vec<T> {
  match t.k {
    K::Arg(i) => args[i].clone(),
    _ => {
      let mut out = vec![];
      for (i, a) in args.iter().enumerate().skip(params.len() - 1) {
        if i >= params.len() {
          out.push(p(","));
        }
        out.extend_from_slice(a);
      }
      out
    },
  }
}

/// Arguments of a call and number of tokens they take.
pub fn collect(toks: &[T]) -> Option<(Vec<Vec<T>>, usize)> {
  if !toks.first().is_some_and(|t| is_op(t, "(")) {
    return None
  }
  let mut stack = vec![")"];
  let mut args = vec![vec![]];
  for (i, t) in toks.iter().enumerate().skip(1) {
    if t.k == K::Punct && !t.painted {
      match t.s.as_str() {
        "(" => stack.push(")"),
        "[" => stack.push("]"),
        "{" => stack.push("}"),
        c @ (")" | "]" | "}") => {
          if stack.pop() != Some(c) {
            return None
          }
          if stack.is_empty() {
            return Some((args, i + 1))
          }
        },
        "," if stack.len() == 1 => {
          args.push(vec![]);
          continue
        },
        _ => (),
      }
    }
    args.last_mut().unwrap().push(t.clone());
  }
  None
}

fn paste(a: T, b: T) -> R<T> {
  if a.k == K::Place {
    return Ok(b)
  }
  if b.k == K::Place {
    return Ok(a)
  }
  let err = Err(E::Other("invalid ##"));
  let s = format!("{}{}", a.s, b.s);
  let new = |k: K| Ok(T { k, s: s.clone(), painted: false });
  match (&a.k, &b.k) {
    (_, K::Comment | K::Arg(_) | K::VarArgs) | (K::Comment | K::Arg(_) | K::VarArgs, _) => Err(E::Skip("##")),
    (K::Str(_) | K::Text { .. }, _) => err,
    (K::Id, K::Str(_)) if matches!(a.s.as_str(), "u8" | "u" | "U" | "L") => Err(E::Skip("## of a computed string")),
    (K::Id | K::Punct, K::Str(_)) => err,
    (_, K::Str(_)) => Err(E::Skip("## of a computed string")),
    (K::Id, K::Id | K::IdCont | K::Num { float: false }) => new(K::Id),
    (K::Punct, K::Punct) => {
      if !lexref::PUNCTUATORS.contains(&s.as_str()) {
        return err
      }
      Ok(T { k: K::Punct, s, painted: true })
    },
    (K::Punct, K::Num { .. }) if a.s == "." => match lex(&s).k {
      K::Num { float } => new(K::Num { float }),
      _ => err,
    },
    (K::Punct, _) | (_, K::Punct) => err,
    (K::Id, K::Text { ordinary: true }) if matches!(a.s.as_str(), "u8" | "u" | "U" | "L") => match lex(&s).k {
      K::Text { ordinary } => new(K::Text { ordinary }),
      _ => err,
    },
    (K::Id, K::Text { .. }) => err,
    (K::Id, K::Num { float: true }) if lexref::ident(&s).is_none() => err,
    _ => Ok(match lex(&s) {
      T { k: K::VarArgs | K::Punct | K::Comment, .. } => return Err(E::Skip("##")),
      t => t,
    }),
  }
}

fn finish(toks: Vec<T>) -> R<Vec<T>> {
  if toks.iter().any(|t| t.k == K::Plain) {
    return Err(E::Other("invalid token"))
  }
  Ok(toks)
}

/// Does a text match a pattern?
pub fn matches_pattern(pat: &[P], text: &str) -> bool {
  let c: Vec<char> = text.chars().collect();
  let mut at = vec![false; c.len() + 1];
  at[0] = true;
  for p in pat {
    let mut next = vec![false; c.len() + 1];
    for i in 0..=c.len() {
      if at[i] {
        match p {
          P::Ch(x) if c.get(i) == Some(x) => next[i + 1] = true,
          P::Ch(_) => (),
          P::Opt | P::Space => {
            if c.get(i) == Some(&' ') {
              next[i + 1] = true;
            }
            if *p == P::Opt {
              next[i] = true;
            }
          },
        }
      }
    }
    at = next;
  }
  at[c.len()]
}

pub fn same(want: &T, got: &MacroToken, variadic_index: usize) -> bool {
  match (&want.k, got) {
    (K::Id, MacroToken::Identifier(i)) => i.as_str() == want.s,
    (K::Arg(n), MacroToken::Arg(a)) => *a == MacroArg::new(*n),
    (K::VarArgs, MacroToken::Arg(a)) => *a == MacroArg::new(variadic_index),
    (K::Num { .. } | K::Text { .. }, MacroToken::Lit(l)) => Lit::try_from(want.s.as_str()).as_ref() == Ok(l),
    (K::IdCont, MacroToken::IdentifierContinue(i)) => IdentifierContinue::try_from(want.s.as_str()).as_ref() == Ok(i),
    (K::Punct, MacroToken::Punctuation(p)) => *p == want.s.as_str(),
    (K::Comment, MacroToken::Comment(c)) => Comment::try_from(want.s.as_str()).as_ref() == Ok(c),
    (K::Str(pat), MacroToken::Lit(Lit::String(LitString::Ordinary(b)))) => std::str::from_utf8(b).is_ok_and(|s| matches_pattern(pat, s)),
    _ => false,
  }
}

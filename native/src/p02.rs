use std::panic;

use cmacro::{FnMacro, Lit, MacroToken, Punctuation, VarMacro};

use crate::common::*;

pub struct P;

#[derive(Debug, Clone)]
enum T {
  Lit(i128, &'static str),
  Un(char, Box<T>),
  Bin(&'static str, Box<T>, Box<T>),
}

const OPS: &[&str] = &["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"];

#[derive(Debug, Clone, Copy, PartialEq)]
enum V {
  Val(i128),
  /// Division or remainder by zero.
  DivZero,
  /// Some intermediate result does not fit.
  Unspecified,
}

fn bin(op: &str, a: i128, b: i128) -> V {
  let v = match op {
    "+" => a.checked_add(b),
    "-" => a.checked_sub(b),
    "*" => a.checked_mul(b),
    "/" | "%" if b == 0 => return V::DivZero,
    "/" => a.checked_div(b),
    "%" => a.checked_rem(b),
    "<<" if (0..128).contains(&b) => {
      if a == 0 || b == 0 {
        Some(a)
      } else {
        // a * 2^b, bit by bit
        let mut v = Some(a);
        for _ in 0..b {
          v = v.and_then(|v| v.checked_add(v));
        }
        v
      }
    },
    ">>" if (0..128).contains(&b) => {
      // floor(a / 2^b)
      let mut v = a;
      for _ in 0..b {
        v = v.div_euclid(2);
      }
      Some(v)
    },
    "&" => Some(a & b),
    "|" => Some(a | b),
    "^" => Some(a ^ b),
    _ => None,
  };
  v.map_or(V::Unspecified, V::Val)
}

fn eval(t: &T) -> V {
  match t {
    T::Lit(v, _) => V::Val(*v),
    T::Un(op, e) => match eval(e) {
      V::Val(v) => match op {
        '+' => V::Val(v),
        '-' => v.checked_neg().map_or(V::Unspecified, V::Val),
        '!' => V::Val((v == 0) as i128),
        _ => unreachable!(),
      },
      v => v,
    },
    T::Bin(op, l, r) => match (eval(l), eval(r)) {
      (V::Unspecified, _) | (_, V::Unspecified) => V::Unspecified,
      (V::DivZero, _) | (_, V::DivZero) => V::DivZero,
      (V::Val(a), V::Val(b)) => bin(op, a, b),
    },
  }
}

/// Does the tree contain `!` applied to something that is not a plain foldable expression?
fn unsupported(t: &T) -> bool {
  match t {
    T::Lit(..) => false,
    T::Un('!', e) => has_suffix(e) || !matches!(eval(e), V::Val(_)) || unsupported(e),
    T::Un(_, e) => unsupported(e),
    T::Bin(_, l, r) => unsupported(l) || unsupported(r),
  }
}

fn has_suffix(t: &T) -> bool {
  match t {
    T::Lit(_, s) => !s.is_empty(),
    T::Un(_, e) => has_suffix(e),
    T::Bin(_, l, r) => has_suffix(l) || has_suffix(r),
  }
}

fn tokens(t: &T, out: &mut Vec<String>) {
  match t {
    T::Lit(v, s) => out.push(format!("{v}{s}")),
    T::Un(op, e) => {
      out.push(op.to_string());
      out.push("(".into());
      tokens(e, out);
      out.push(")".into());
    },
    T::Bin(op, l, r) => {
      for (i, e) in [l, r].into_iter().enumerate() {
        if i == 1 {
          out.push(op.to_string());
        }
        out.push("(".into());
        tokens(e, out);
        out.push(")".into());
      }
    },
  }
}

/// Prefix notation of a tree: `["+", "1", "2u"]`.
fn prefix(t: &T, out: &mut Vec<String>) {
  match t {
    T::Lit(v, s) => out.push(format!("{v}{s}")),
    T::Un(op, e) => {
      out.push(format!("u{op}"));
      prefix(e, out);
    },
    T::Bin(op, l, r) => {
      out.push(op.to_string());
      prefix(l, out);
      prefix(r, out);
    },
  }
}

fn unprefix<'a>(it: &mut impl Iterator<Item = &'a String>) -> Option<T> {
  let s = it.next()?;
  if let Some(op) = OPS.iter().find(|o| **o == s) {
    let l = unprefix(it)?;
    let r = unprefix(it)?;
    return Some(T::Bin(op, l.into(), r.into()))
  }
  if let Some(op) = s.strip_prefix('u') {
    return Some(T::Un(op.chars().next()?, unprefix(it)?.into()))
  }
  let n = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len());
  let sfx = ["", "u", "l", "ll", "ul", "ull", "z", "uz"].into_iter().find(|x| *x == &s[n..])?;
  Some(T::Lit(s[..n].parse().ok()?, sfx))
}

const VALUES: &[i128] = &[
  0, 1, 2, 3, 5, 7, 8, 10, 31, 32, 63, 64, 100, 126, 127, 128, 129, 255, 256, 32767, 32768, 65535, 1 << 31, (1 << 31) - 1, u32::MAX as i128, 1 << 32,
  i64::MAX as i128, 1 << 63, u64::MAX as i128, 1 << 64, 1 << 100, i128::MAX - 1, i128::MAX,
];

fn lit(rng: &mut Rng) -> T {
  let v = match rng.below(4) {
    0 => *rng.pick(VALUES),
    1 => (((rng.next() as u128) << 64 | rng.next() as u128) >> (1 + rng.below(127))) as i128,
    _ => rng.below(20) as i128,
  };
  let s = if rng.chance(1, 4) { *rng.pick(&["u", "l", "ll", "ul", "ull", "z", "uz"]) } else { "" };
  T::Lit(v, s)
}

fn tree(rng: &mut Rng, depth: usize) -> T {
  if depth == 0 || rng.chance(1, 5) {
    return lit(rng)
  }
  match rng.below(8) {
    0 => T::Un('-', tree(rng, depth - 1).into()),
    1 => T::Un(*rng.pick(&['+', '!', '-']), tree(rng, depth - 1).into()),
    _ => {
      let op = *rng.pick(OPS);
      let r = if (op == "<<" || op == ">>") && rng.chance(4, 5) { T::Lit({ let n = if rng.chance(1, 2) { 8 } else { 130 }; rng.below(n) } as i128, "") } else { tree(rng, depth - 1) };
      T::Bin(op, tree(rng, depth - 1).into(), r.into())
    },
  }
}

/// Value of generated Rust code.
fn rust_eval(e: &syn::Expr) -> Result<V, String> {
  use syn::Expr::*;
  Ok(match e {
    Paren(p) => rust_eval(&p.expr)?,
    Group(p) => rust_eval(&p.expr)?,
    Lit(l) => match &l.lit {
      syn::Lit::Int(i) if i.suffix().is_empty() => match i.base10_parse::<u128>() {
        Ok(v) => V::Val(v as i128),
        Err(_) => return Err(format!("literal {i} out of range")),
      },
      syn::Lit::Bool(b) => V::Val(b.value as i128),
      _ => return Err("unexpected literal".into()),
    },
    Unary(u) => match (rust_eval(&u.expr)?, &u.op) {
      (V::Val(v), syn::UnOp::Neg(_)) => V::Val(v.wrapping_neg()),
      (V::Val(_), _) => return Err("unexpected unary operator".into()),
      (v, _) => v,
    },
    Binary(b) => {
      use syn::BinOp::*;
      let (l, r) = (rust_eval(&b.left)?, rust_eval(&b.right)?);
      let op = match b.op {
        Add(_) => "+",
        Sub(_) => "-",
        Mul(_) => "*",
        Div(_) => "/",
        Rem(_) => "%",
        Shl(_) => "<<",
        Shr(_) => ">>",
        BitAnd(_) => "&",
        BitOr(_) => "|",
        BitXor(_) => "^",
        Eq(_) => match (l, r) {
          (V::Val(a), V::Val(b)) => return Ok(V::Val((a == b) as i128)),
          _ => return Ok(V::DivZero),
        },
        _ => return Err("unexpected operator".into()),
      };
      match (l, r) {
        (V::Val(a), V::Val(b)) => bin(op, a, b),
        (V::Unspecified, _) | (_, V::Unspecified) => V::Unspecified,
        _ => V::DivZero,
      }
    },
    e => return Err(format!("unexpected expression {}", quote::ToTokens::to_token_stream(e))),
  })
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P02"
  }
  fn rule(&self) -> &'static str {
    "every operator with every pair out of 33 boundary values with either sign, every suffix pair on small values, then random trees of depth up to 5 over random 127-bit, boundary and small literals with random suffixes; the generated code is parsed as Rust and evaluated in 128-bit arithmetic; every case is generated as a variable-like and as a function-like macro"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let emit = |sink: &mut Sink, t: &T| {
      if sink.mine() {
        let mut v = vec![];
        prefix(t, &mut v);
        sink.own(&enc(&v));
      }
    };
    for op in OPS {
      for a in VALUES {
        for b in VALUES {
          for signs in 0..4 {
            let s = |v: i128, neg: bool| if neg { T::Un('-', T::Lit(v, "").into()) } else { T::Lit(v, "") };
            emit(sink, &T::Bin(op, s(*a, signs & 1 == 1).into(), s(*b, signs & 2 == 2).into()));
          }
        }
      }
      for s1 in ["", "u", "l", "ll", "ul", "ull", "z", "uz"] {
        for s2 in ["", "u", "l", "ll", "ul", "ull", "z", "uz"] {
          emit(sink, &T::Bin(op, T::Lit(13, s1).into(), T::Lit(5, s2).into()));
        }
      }
    }
    for op in ['+', '-', '!'] {
      for v in VALUES {
        for s in ["", "u", "l", "ll", "ul", "ull", "z", "uz"] {
          emit(sink, &T::Un(op, T::Lit(*v, s).into()));
        }
        emit(sink, &T::Un(op, T::Un('-', T::Lit(*v, "").into()).into()));
      }
    }
    let depth = if thorough { 6 } else { 4 };
    loop {
      let d = 1 + rng.below(depth);
      let t = tree(rng, d);
      let mut v = vec![];
      prefix(&t, &mut v);
      if !sink.own(&enc(&v)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let p = dec(case);
    let Some(t) = unprefix(&mut p.iter()) else { return Ok("-invalid") };
    if unsupported(&t) {
      return Ok("-logical not of a suffixed or unfoldable operand")
    }
    let mut toks = vec![];
    tokens(&t, &mut toks);
    let mtoks: Vec<MacroToken> = toks
      .iter()
      .map(|t| match Punctuation::try_from(t.as_str()) {
        Ok(p) => MacroToken::Punctuation(p),
        Err(_) => MacroToken::Lit(Lit::try_from(t.as_str()).unwrap()),
      })
      .collect();
    let want = eval(&t);
    let shown = toks.join(" ");
    let out = panic::catch_unwind(|| {
      let v = VarMacro::parse("V", &mtoks).map_err(|e| format!("{e:?}")).and_then(|mut m| m.generate(()).map_err(|e| format!("{e:?}")).map(|r| r.0.to_string()));
      let f = FnMacro::parse("F", &[], &mtoks).map_err(|e| format!("{e:?}")).and_then(|mut m| m.generate(()).map_err(|e| format!("{e:?}")).map(|r| r.to_string()));
      (v, f)
    });
    let (v, f) = match out {
      Ok(x) => x,
      Err(_) => return Err(format!("generating `{shown}` panics")),
    };
    let v = v.map_err(|e| format!("generating `{shown}` fails with {e}"))?;
    let f = f.map_err(|e| format!("generating `{shown}` as function fails with {e}"))?;
    let e: syn::Expr = syn::parse_str(&v).map_err(|e| format!("`{shown}` is generated as `{v}`, which is no expression: {e}"))?;
    // The function-like macro has the same body.
    let squeeze = |s: &str| s.split_whitespace().collect::<String>();
    if !squeeze(&f).contains(&squeeze(&v)) {
      return Err(format!("`{shown}` is generated as `{v}` in a variable-like macro but as `{f}` in a function-like one"))
    }
    let got = rust_eval(&e).map_err(|e| format!("`{shown}` is generated as `{v}`: {e}"))?;
    match want {
      V::Unspecified => Ok("-intermediate result does not fit"),
      V::DivZero if got == V::DivZero => Ok("division by zero left in place"),
      V::Val(x) if got == V::Val(x) => Ok(if matches!(e, syn::Expr::Lit(_)) { "folded" } else { "equal value" }),
      _ => Err(format!("`{shown}` has the value {want:?}, but the generated `{v}` has {got:?}")),
    }
  }
}

//! P12: type names denote the C type they spell.
use std::panic;

use cmacro::{BuiltInType, CodegenContext, Expr, FnMacro, MacroBody, Type, TypeQualifier};
use quote::ToTokens;

use crate::{common::*, tree::macro_tokens};

pub struct P;

const WORDS: &[&str] = &["const", "volatile", "unsigned", "signed", "short", "long", "int", "char", "float", "double", "void", "bool", "*"];

/// C type: base and qualifiers, then the qualifiers of every pointer level.
#[derive(Debug, PartialEq, Clone)]
struct C {
  base: Base,
  quals: (bool, bool),
  ptrs: Vec<(bool, bool)>,
}

#[derive(Debug, PartialEq, Clone)]
enum Base {
  BuiltIn(BuiltInType),
  Name(String, bool),
}

/// Specifiers in C may have any order.
fn base(words: &[&str]) -> Option<BuiltInType> {
  let n = |w: &str| words.iter().filter(|x| **x == w).count();
  let (u, s, short, long) = (n("unsigned"), n("signed"), n("short"), n("long"));
  if u + s > 1 {
    return None
  }
  use BuiltInType::*;
  let main: Vec<&str> = words.iter().copied().filter(|w| !matches!(*w, "unsigned" | "signed" | "short" | "long")).collect();
  if main.len() > 1 {
    return None
  }
  Some(match (main.first().copied(), short, long) {
    (Some("void"), 0, 0) if u + s == 0 => Void,
    (Some("bool"), 0, 0) if u + s == 0 => Bool,
    (Some("float"), 0, 0) if u + s == 0 => Float,
    (Some("double"), 0, 0) if u + s == 0 => Double,
    (Some("double"), 0, 1) if u + s == 0 => LongDouble,
    (Some("char"), 0, 0) => if u == 1 { UChar } else if s == 1 { SChar } else { Char },
    (Some("int") | None, 1, 0) => if u == 1 { UShort } else { Short },
    (Some("int") | None, 0, 1) => if u == 1 { ULong } else { Long },
    (Some("int") | None, 0, 2) => if u == 1 { ULongLong } else { LongLong },
    (Some("int"), 0, 0) => if u == 1 { UInt } else { Int },
    (None, 0, 0) if u + s == 1 => if u == 1 { UInt } else { Int },
    _ => return None,
  })
}

fn reference(words: &[String]) -> Option<C> {
  let mut levels = vec![vec![]];
  for w in words {
    if w == "*" {
      levels.push(vec![]);
    } else {
      levels.last_mut()?.push(w.as_str());
    }
  }
  let quals = |l: &[&str]| (l.contains(&"const"), l.contains(&"volatile"));
  let specs: Vec<&str> = levels[0].iter().copied().filter(|w| !matches!(*w, "const" | "volatile")).collect();
  let base = match specs[..] {
    ["struct", n] if !WORDS.contains(&n) && n != "struct" => Base::Name(n.into(), true),
    [n] if !WORDS.contains(&n) && n != "struct" => Base::Name(n.into(), false),
    _ => Base::BuiltIn(base(&specs)?),
  };
  let ptrs: Vec<(bool, bool)> = levels[1..].iter().map(|l| l.iter().all(|w| matches!(*w, "const" | "volatile")).then(|| quals(l))).collect::<Option<_>>()?;
  Some(C { base, quals: quals(&levels[0]), ptrs })
}

/// Orders which are supported: qualifiers, sign, length, type, qualifiers, pointers.
fn canonical(words: &[String]) -> bool {
  let w: Vec<&str> = words.iter().map(|s| s.as_str()).collect();
  fn quals<'a, 'b>(mut w: &'a [&'b str]) -> &'a [&'b str] {
    let mut last = "";
    while let Some(&q) = w.first().filter(|q| matches!(**q, "const" | "volatile")) {
      if last == q {
        break
      }
      if !last.is_empty() {
        return &w[1..]
      }
      last = q;
      w = &w[1..];
    }
    w
  }
  let w = quals(&w);
  let unsigned: &[&[&str]] = &[&["long", "long", "int"], &["long", "long"], &["long", "int"], &["short", "int"], &["long"], &["short"], &["int"], &["char"]];
  let plain: &[&[&str]] = &[&["long", "double"], &["float"], &["double"], &["void"], &["bool"]];
  let rest = match w {
    ["struct", n, rest @ ..] if !WORDS.contains(n) && *n != "struct" => Some(rest),
    [n, rest @ ..] if !WORDS.contains(n) && *n != "struct" => Some(rest),
    ["unsigned" | "signed", rest @ ..] => unsigned.iter().find_map(|t| rest.strip_prefix(*t)),
    w => plain.iter().chain(unsigned).find_map(|t| w.strip_prefix(*t)),
  };
  let Some(rest) = rest else { return false };
  let mut rest = quals(rest);
  while let ["*", r @ ..] = rest {
    rest = quals(r);
  }
  rest.is_empty()
}

fn observe(ty: &Type) -> Option<C> {
  let qs = |q: &TypeQualifier| (q.is_const(), q.is_volatile());
  Some(match ty {
    Type::BuiltIn(b) => C { base: Base::BuiltIn(*b), quals: (false, false), ptrs: vec![] },
    Type::Identifier { name, is_struct } => match name {
      cmacro::IdentifierExpr::Plain(n) => C { base: Base::Name(n.as_str().into(), *is_struct), quals: (false, false), ptrs: vec![] },
      _ => return None,
    },
    Type::Ptr { ty } => {
      let mut c = observe(ty)?;
      c.ptrs.push((false, false));
      c
    },
    Type::Qualified { ty, qualifier } => {
      let mut c = observe(ty)?;
      let q = c.ptrs.last_mut().unwrap_or(&mut c.quals);
      q.0 |= qs(qualifier).0;
      q.1 |= qs(qualifier).1;
      c
    },
    _ => return None,
  })
}

struct Ctx;
impl CodegenContext for Ctx {
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    syn::parse_str(ty).ok()
  }
}

fn rust(c: &C) -> String {
  use BuiltInType::*;
  let mut s: String = match &c.base {
    Base::Name(n, _) => n.clone(),
    Base::BuiltIn(b) => match b {
      Float => "f32",
      Double | LongDouble => "f64",
      Bool => "bool",
      Char => "c_char",
      SChar => "c_schar",
      UChar => "c_uchar",
      Short => "c_short",
      UShort => "c_ushort",
      Int => "c_int",
      UInt => "c_uint",
      Long => "c_long",
      ULong => "c_ulong",
      LongLong => "c_longlong",
      ULongLong => "c_ulonglong",
      Void => "c_void",
      _ => "?",
    }
    .into(),
  };
  for (c, _) in &c.ptrs {
    s = format!("{} {s}", if *c { "*const" } else { "*mut" });
  }
  s
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P12"
  }
  fn rule(&self) -> &'static str {
    "all sequences of up to 5 (thorough: 6) of the 13 words const, volatile, unsigned, signed, short, long, int, char, float, double, void, bool and *, then random sequences of up to 12, also with type names and struct; parsed from a string, as a cast and as a sizeof operand, and compared with the C type specifier table; the generated Rust type is compared as well"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    for len in 1..=if thorough { 6 } else { 5u32 } {
      for n in 0..WORDS.len().pow(len) {
        if !sink.mine() {
          continue
        }
        let mut n = n;
        let mut seq = vec![];
        for _ in 0..len {
          seq.push(WORDS[n % WORDS.len()]);
          n /= WORDS.len();
        }
        if !sink.own(&enc(&seq)) {
          return
        }
      }
    }
    loop {
      let mut seq: Vec<&str> = vec![];
      let q = |seq: &mut Vec<&str>, rng: &mut Rng| {
        for w in ["const", "volatile"] {
          if rng.chance(1, 4) {
            seq.push(w);
          }
        }
        if rng.chance(1, 2) && seq.len() > 1 && seq.ends_with(&["const", "volatile"]) {
          let n = seq.len();
          seq.swap(n - 1, n - 2);
        }
      };
      q(&mut seq, rng);
      match rng.below(4) {
        0 => seq.push("T"),
        1 => seq.extend(["struct", "S"]),
        _ => seq.extend(*rng.pick(&[
          &["int"][..], &["unsigned", "int"], &["char"], &["signed", "char"], &["unsigned", "char"], &["short"], &["unsigned", "short", "int"], &["long"], &["unsigned", "long"],
          &["long", "long"], &["unsigned", "long", "long", "int"], &["float"], &["double"], &["long", "double"], &["void"], &["bool"], &["signed", "long", "int"],
        ])),
      }
      q(&mut seq, rng);
      for _ in 0..rng.below(4) {
        seq.push("*");
        q(&mut seq, rng);
      }
      if rng.chance(1, 3) {
        let i = rng.below(seq.len());
        match rng.below(3) {
          0 => {
            seq.remove(i);
          },
          1 => seq[i] = rng.pick(WORDS),
          _ => seq.insert(i, rng.pick(WORDS)),
        }
      }
      if !seq.is_empty() && !sink.own(&enc(&seq)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let words = dec(case);
    let shown = words.join(" ");
    let want = reference(&words);
    let spelled = words.join(" ");
    let from_str = panic::catch_unwind(|| spelled.parse::<Type>().ok()).map_err(|_| format!("parsing `{shown}` panics"))?;
    let compact = spelled.replace(" *", "*").replace("* ", "*");
    if compact.parse::<Type>().ok() != from_str {
      return Err(format!("`{compact}` and `{shown}` are different types"))
    }
    let wrap = |before: &[&str], after: &[&str]| -> Vec<String> {
      before.iter().copied().chain(words.iter().map(|s| s.as_str())).chain(after.iter().copied()).map(String::from).collect()
    };
    let cast_toks = wrap(&["("], &[")", "x"]);
    let size_toks = wrap(&["sizeof", "("], &[")"]);
    let (Some(ct), Some(st)) = (macro_tokens(&cast_toks), macro_tokens(&size_toks)) else { return Ok("-no tokens") };
    let parse = |t: &[cmacro::MacroToken]| -> Option<(C, String)> {
      let m = FnMacro::parse("F", &[], t).ok()?;
      match m.body() {
        MacroBody::Expr(Expr::Cast(c)) => Some((observe(&c.ty)?, format!("{:?}", c.ty))),
        MacroBody::Expr(Expr::SizeOf(ty)) => Some((observe(ty)?, format!("{ty:?}"))),
        _ => None,
      }
    };
    let cast = panic::catch_unwind(|| parse(&ct)).map_err(|_| format!("parsing `({shown}) x` panics"))?;
    let size = panic::catch_unwind(|| parse(&st)).map_err(|_| format!("parsing `sizeof ({shown})` panics"))?;
    let string = from_str.as_ref().and_then(|t| Some((observe(t)?, format!("{t:?}"))));
    // Words of the language are taken as names of types if nothing else fits.
    let named = |c: &Option<(C, String)>| matches!(c, Some((C { base: Base::Name(n, _), .. }, _)) if WORDS.contains(&n.as_str()) || n == "struct");
    for (place, c) in [("as a string", &string), ("in a cast", &cast), ("in `sizeof`", &size)] {
      if named(c) {
        return match &want {
          Some(w) if !matches!(shown.as_str(), "unsigned" | "signed") && canonical(&words) && words.iter().any(|w| matches!(w.as_str(), "int" | "char" | "float" | "double" | "void" | "bool" | "long" | "short")) => {
            Err(format!("`{shown}` is {c:?} {place}, expected {w:?}"))
          },
          _ => Ok("-lone sign"),
        }
      }
      match (c, &want) {
        (Some((got, _)), Some(want)) if got != want => return Err(format!("`{shown}` is {got:?} {place}, expected {want:?}")),
        (Some((got, _)), None) => return Err(format!("`{shown}` is no C type, but {got:?} {place}")),
        (None, Some(want)) if canonical(&words) => return Err(format!("`{shown}` is not accepted {place}, expected {want:?}")),
        _ => (),
      }
    }
    let Some(want) = want else { return Ok("-no type") };
    let (Some(s), Some(c), Some(z)) = (&string, &cast, &size) else { return Ok("-order not supported") };
    if s.1 != c.1 || s.1 != z.1 {
      return Err(format!("`{shown}` is {} as a string, {} in a cast, {} in `sizeof`", s.1, c.1, z.1))
    }
    let squeeze = |s: String| s.split_whitespace().collect::<Vec<_>>().join(" ").replace("* ", "*");
    let wanted = rust(&want);
    let got = from_str.and_then(|t| t.to_rust_ty(&Ctx)).map(|t| squeeze(t.into_token_stream().to_string()));
    if got.as_deref() != Some(wanted.as_str()) {
      return Err(format!("`{shown}` is `{got:?}` in Rust, expected `{wanted}`"))
    }
    let gen = |t: &[cmacro::MacroToken]| -> Result<String, String> {
      let mut m = FnMacro::parse("F", &[], t).map_err(|e| format!("{e:?}"))?;
      Ok(squeeze(m.generate(Ctx).map_err(|e| format!("`({shown}) x` is not generated: {e:?}"))?.to_string()))
    };
    let code = gen(&ct)?;
    let form = if wanted == "c_void" { "{ let _ = x ; }".to_string() } else { format!("{{ x as {wanted} }}") };
    // A qualified `void` is no type for a variable either.
    if !code.contains(&form) && !(want.base == Base::BuiltIn(BuiltInType::Void) && want.ptrs.is_empty() && want.quals != (false, false)) {
      return Err(format!("`({shown}) x` is generated as `{code}`, expected `{form}`"))
    }
    let code = gen(&st)?;
    if !code.contains(&format!("size_of :: < {wanted} > ()")) && !code.contains(&format!("size_of ::< {wanted} > ()")) {
      return Err(format!("`sizeof ({shown})` is generated as `{code}`, expected `{wanted}`"))
    }
    Ok(if want.ptrs.is_empty() { "type" } else { "pointer" })
  }
}

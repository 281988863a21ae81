use cmacro::{CodegenContext, FnMacro, Lit, MacroToken, VarMacro};
use quote::ToTokens;

use crate::{
  common::*,
  lexref::{self, StrVal},
  p04::{gen_string, PIECES, PREFIXES},
};

pub struct P;

#[derive(Clone, Copy)]
struct Ctx {
  target: Option<&'static str>,
  wchar: Option<&'static str>,
  ffi: Option<&'static str>,
  traits: Option<&'static str>,
}

impl CodegenContext for Ctx {
  fn rust_target(&self) -> Option<String> {
    self.target.map(|t| t.into())
  }
  fn ffi_prefix(&self) -> Option<syn::Path> {
    self.ffi.map(|t| syn::parse_str(t).unwrap())
  }
  fn trait_prefix(&self) -> Option<syn::Path> {
    self.traits.map(|t| syn::parse_str(t).unwrap())
  }
  fn resolve_ty(&self, ty: &str) -> Option<syn::Type> {
    (ty == "wchar_t").then(|| self.wchar.map(|t| syn::parse_str(t).unwrap()))?
  }
}

const CONTEXTS: &[Ctx] = &[
  Ctx { target: None, wchar: Some("c_int"), ffi: None, traits: None },
  Ctx { target: Some("1.16.0"), wchar: Some("i32"), ffi: Some("::std::os::raw"), traits: Some("::std") },
  Ctx { target: Some("1.58.0"), wchar: Some("u16"), ffi: None, traits: Some("::core") },
  Ctx { target: Some("1.59.0"), wchar: Some("u32"), ffi: Some("ffi"), traits: None },
  Ctx { target: Some("nightly"), wchar: None, ffi: Some("::core::ffi"), traits: Some("::core") },
];

fn text(t: &impl ToTokens) -> String {
  t.to_token_stream().to_string().replace(' ', "")
}

/// The expression without parentheses and blocks around it.
fn inner(e: &syn::Expr) -> &syn::Expr {
  let block = |b: &'_ syn::Block| -> bool { matches!(&b.stmts[..], [syn::Stmt::Expr(_, None)]) };
  match e {
    syn::Expr::Paren(p) => inner(&p.expr),
    syn::Expr::Group(p) => inner(&p.expr),
    syn::Expr::Block(b) if b.label.is_none() && block(&b.block) => tail(&b.block),
    syn::Expr::Unsafe(b) if block(&b.block) => tail(&b.block),
    e => e,
  }
}

fn tail(b: &syn::Block) -> &syn::Expr {
  match b.stmts.last() {
    Some(syn::Stmt::Expr(e, None)) => inner(e),
    _ => panic!("block has no value"),
  }
}

/// The value of a literal which becomes `ty`, by itself or by a cast.
fn number(e: &syn::Expr, ty: &str, cast: bool) -> Option<u64> {
  let max = |s: &str| match s {
    "u8" => Some(0xff),
    "u16" => Some(0xffff),
    "u32" => Some(0xffff_ffff),
    "u64" => Some(u64::MAX),
    "i8" => Some(0x7f),
    "i16" => Some(0x7fff),
    "i32" => Some(0x7fff_ffff),
    _ => None,
  };
  match inner(e) {
    syn::Expr::Cast(c) if !cast && text(&c.ty) == ty => number(&c.expr, ty, true),
    syn::Expr::Cast(c) if cast && text(&c.ty) == ty => number(&c.expr, ty, true),
    syn::Expr::Lit(l) => match &l.lit {
      syn::Lit::Int(i) => {
        let n = i.base10_parse::<u64>().ok()?;
        let s = i.suffix();
        let of = match (s, cast) {
          // The literal takes the type to which it is cast, which may be as small as `i32`.
          ("", _) => max(ty).unwrap_or(0x7fff_ffff),
          (_, true) => max(s)?,
          (_, false) => (s == ty).then(|| max(s))??,
        };
        // `u16` cannot hold every wide character.
        (n <= of || (cast && s.is_empty() && n <= 0x7fff_ffff)).then_some(n)
      },
      syn::Lit::Byte(b) if cast || ty == "u8" => Some(b.value().into()),
      syn::Lit::Char(c) if cast => Some(c.value().into()),
      _ => None,
    },
    _ => None,
  }
}

/// The elements of an array of `unit`.
fn array(e: &syn::Expr, unit: &str) -> Option<Vec<u64>> {
  match inner(e) {
    syn::Expr::Lit(l) => match &l.lit {
      syn::Lit::ByteStr(b) if unit == "u8" => Some(b.value().into_iter().map(|b| b.into()).collect()),
      _ => None,
    },
    syn::Expr::Reference(r) if r.mutability.is_none() => match inner(&r.expr) {
      syn::Expr::Array(a) => a.elems.iter().map(|e| number(e, unit, false)).collect(),
      _ => None,
    },
    _ => None,
  }
}

/// `&'static [unit; n]`, if it is one, the unit and whether the lifetime is given.
fn array_ty(t: &syn::Type, n: usize) -> Option<(String, bool)> {
  let syn::Type::Reference(r) = t else { return None };
  let syn::Type::Array(a) = &*r.elem else { return None };
  if r.mutability.is_some() || text(&a.len) != n.to_string() {
    return None
  }
  match &r.lifetime {
    Some(l) if l.ident != "static" => None,
    l => Some((text(&a.elem), l.is_some())),
  }
}

/// A constant of a type with (`old`) or without elided lifetime.
fn check_array(ty: &syn::Type, value: &syn::Expr, unit: &str, units: &[u64], old: bool) -> Result<(), String> {
  match array_ty(ty, units.len()) {
    Some((u, _)) if u != unit => return Err(format!("array of {u} instead of {unit}")),
    Some((_, false)) if old => return Err("lifetime is missing".into()),
    Some(_) => (),
    None => return Err(format!("type {} is no array of {} units", text(ty), units.len())),
  }
  match array(value, unit) {
    Some(v) if v == units => Ok(()),
    Some(v) => Err(format!("contents are {v:?}")),
    None => Err("value is no array of this type".into()),
  }
}

fn c_str(ty: &syn::Type, value: &syn::Expr, prefix: &str) -> Option<Vec<u8>> {
  let syn::Type::Reference(r) = ty else { return None };
  let name = format!("{prefix}CStr");
  if text(&r.elem) != name {
    return None
  }
  match inner(value) {
    syn::Expr::Call(c) if text(&c.func) == format!("{name}::from_bytes_with_nul_unchecked") && c.args.len() == 1 => match inner(&c.args[0]) {
      syn::Expr::Lit(l) => match &l.lit {
        syn::Lit::ByteStr(b) => Some(b.value()),
        _ => None,
      },
      _ => None,
    },
    _ => None,
  }
}

enum Value {
  Char(u32),
  String(Vec<u64>),
}

fn check(tok: &str, v: &Value, prefix: &str, c: &Ctx) -> Outcome {
  let lit = Lit::try_from(tok).map_err(|_| "literal is rejected".to_string())?;
  let toks = [MacroToken::Lit(lit)];
  let var = VarMacro::parse("S", &toks).map_err(|e| format!("{e:?}"))?.generate(*c);
  let func = FnMacro::parse("F", &[], &toks).map_err(|e| format!("{e:?}"))?.generate(*c);
  let ffi = c.ffi.map(|p| format!("{p}::")).unwrap_or_default();
  let unit = match prefix {
    "" => format!("{ffi}c_char"),
    "u8" => "u8".into(),
    "u" => "u16".into(),
    "U" => "u32".into(),
    _ => match c.wchar {
      Some(t) => t.to_string(),
      None => {
        return match (var, func) {
          (Err(_), Err(_)) => Ok("no type"),
          (v, f) => Err(format!("code is generated without a type for wchar_t: {v:?}, {f:?}")),
        }
      },
    },
  };
  let (code, ty) = var.map_err(|e| format!("no code is generated for the variable: {e:?}"))?;
  let func = func.map_err(|e| format!("no code is generated for the function: {e:?}"))?;
  let wrong = |e: String| format!("{code} of type {}: {e}", ty.as_ref().map(text).unwrap_or_default());
  let Some(ty2) = &ty else { return Err(wrong("type is missing".into())) };
  let value: syn::Expr = syn::parse2(code.clone()).map_err(|e| wrong(e.to_string()))?;
  let ty2: syn::Type = syn::parse2(ty2.clone()).map_err(|e| wrong(e.to_string()))?;
  let item: syn::ItemFn = syn::parse2(func.clone()).map_err(|e| format!("{func}: {e}"))?;
  let wrong_fn = |e: String| format!("{func}: {e}");
  let syn::ReturnType::Type(_, out) = &item.sig.output else { return Err(wrong_fn("returns nothing".into())) };
  if text(&item.sig.ident) != "F" || !item.sig.inputs.is_empty() {
    return Err(wrong_fn("is not the function F".into()))
  }
  let old = c.target == Some("1.16.0");
  match v {
    Value::Char(n) => {
      if text(&ty2) != unit || text(out) != unit {
        return Err(wrong(format!("expected type {unit}, function returns {}", text(out))))
      }
      for e in [inner(&value), tail(&item.block)] {
        let value = number(e, &unit, false);
        if value != Some(u64::from(*n)) || !matches!(e, syn::Expr::Cast(_)) {
          return Err(wrong(format!("expected {n} as {unit}, function is {func}")))
        }
      }
      Ok("character")
    },
    Value::String(units) => {
      let elem = if prefix.is_empty() { "u8".to_string() } else { unit.clone() };
      let traits = c.traits.map(|p| format!("{p}::ffi::")).unwrap_or_default();
      let mut tag = "array";
      if let Some(bytes) = c_str(&ty2, &value, &traits) {
        let bytes: Vec<u64> = bytes.into_iter().map(u64::from).collect();
        if old || c.target == Some("1.58.0") {
          return Err(wrong("constant functions of CStr are not available".into()))
        }
        if !prefix.is_empty() || bytes != *units || bytes[..bytes.len() - 1].contains(&0) {
          return Err(wrong(format!("expected contents {units:?}")))
        }
        tag = "CStr";
      } else {
        check_array(&ty2, &value, &elem, units, old).map_err(|e| wrong(format!("{e}, expected {units:?}")))?;
      }
      let mut body = &*item.block;
      while let [syn::Stmt::Expr(syn::Expr::Block(b), None)] = &body.stmts[..] {
        body = &b.block;
      }
      let [syn::Stmt::Item(syn::Item::Const(k)), syn::Stmt::Expr(_, None)] = &body.stmts[..] else {
        return Err(wrong_fn("is not a constant and its address".into()))
      };
      check_array(&k.ty, &k.expr, &elem, units, old).map_err(|e| wrong_fn(format!("{e}, expected {units:?}")))?;
      if text(out) != format!("*const{unit}") {
        return Err(wrong_fn(format!("returns {}, expected a pointer to {unit}", text(out))))
      }
      let mut e = tail(body);
      let mut cast = false;
      while let syn::Expr::Cast(c) = e {
        if text(&c.ty) != text(out) {
          return Err(wrong_fn(format!("cast to {}", text(&c.ty))))
        }
        cast = true;
        e = inner(&c.expr);
      }
      match e {
        syn::Expr::MethodCall(m) if m.method == "as_ptr" && m.args.is_empty() && text(&m.receiver) == k.ident.to_string() && (cast || unit == elem) => Ok(tag),
        _ => Err(wrong_fn("is not the address of the contents".into())),
      }
    },
  }
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P16"
  }
  fn rule(&self) -> &'static str {
    "character literals of every prefix with all values below 0x300 and around every boundary, string literals of every prefix with up to 2 (thorough: 3) pieces out of 17 escapes, characters and encodings, then random literals; each as a variable-like and a function-like macro in one of 5 contexts (Rust target, wchar_t, prefixes); the generated code is parsed and its value and type are compared with those of the C literal"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let case = |c: usize, s: &str| enc(&[c.to_string().as_str(), s]);
    for p in PREFIXES {
      for c in 0..CONTEXTS.len() {
        let bounds = [0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffffu32];
        for n in (0..0x300).chain(bounds) {
          sink.shared(&case(c, &format!("{p}'\\x{n:x}'")));
          if n > 0x7f {
            sink.shared(&case(c, &format!("{p}\"a\\x{n:x}\"")));
            sink.shared(&case(c, &format!("{p}\"\\U{n:08x}b\"")));
          }
        }
        for len in 0..=if thorough { 3 } else { 2 } {
          for n in 0..PIECES.len().pow(len) {
            if !sink.mine() {
              continue
            }
            let mut n = n;
            let mut s = format!("{p}\"");
            for _ in 0..len {
              s.push_str(PIECES[n % PIECES.len()]);
              n /= PIECES.len();
            }
            if !sink.own(&case(c, &format!("{s}\""))) {
              return
            }
          }
        }
      }
    }
    loop {
      let p = *rng.pick(PREFIXES);
      let c = rng.below(CONTEXTS.len());
      let s = if rng.chance(1, 4) {
        let body = if rng.chance(1, 2) { crate::p03::plain(rng).to_string() } else { crate::p03::escape(rng) };
        format!("{p}'{body}'")
      } else {
        gen_string(rng, p)
      };
      if !sink.own(&case(c, &s)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let [c, s] = &dec(case)[..] else { return Ok("-malformed") };
    let c = &CONTEXTS[c.parse::<usize>().unwrap() % CONTEXTS.len()];
    let (prefix, v) = if let Some((p, n)) = lexref::char_value(s) {
      (p, Value::Char(n))
    } else if let Some(v) = lexref::string_value(s) {
      let (p, mut units): (_, Vec<u64>) = match v {
        StrVal::Ordinary(b) => ("", b.into_iter().map(u64::from).collect()),
        StrVal::Utf8(s) => ("u8", s.into_bytes().into_iter().map(u64::from).collect()),
        StrVal::Utf16(s) => ("u", s.encode_utf16().map(u64::from).collect()),
        StrVal::Utf32(s) => ("U", s.chars().map(u64::from).collect()),
        StrVal::Wide(w) => ("L", w.into_iter().map(u64::from).collect()),
      };
      units.push(0);
      (p, Value::String(units))
    } else {
      return Ok("-rejected")
    };
    check(s, &v, prefix, c)
  }
}

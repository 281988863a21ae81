use cmacro::{Cast, Expr, FnMacro, Identifier, Lit, LitInt, MacroToken, Punctuation, VarMacro};

use crate::common::*;

pub struct P;

/// Type spellings and what the cast must be generated as.
const TYPES: &[(&str, &str)] = &[
  ("char", "c_char"), ("signed char", "c_schar"), ("unsigned char", "c_uchar"), ("short", "c_short"), ("unsigned short", "c_ushort"), ("int", "c_int"),
  ("unsigned int", "c_uint"), ("long", "c_long"), ("unsigned long", "c_ulong"), ("long long", "c_longlong"), ("unsigned long long", "c_ulonglong"),
  ("float", "f32"), ("double", "f64"), ("bool", "bool"), ("const int", "c_int"),
  ("int *", "*mut c_int"), ("void *", "*mut c_void"), ("const void *", "*mut c_void"), ("void * const", "*const c_void"), ("char * *", "*mut *mut c_char"),
  ("int * const *", "*mut *const c_int"), ("int * * const", "*const *mut c_int"), ("int * volatile", "*mut c_int"), ("int * const volatile", "*const c_int"), ("volatile int *", "*mut c_int"),
];

pub fn limits(s: &str) -> Option<(i128, u128)> {
  Some(match s {
    "i8" => (i8::MIN as i128, i8::MAX as u128),
    "i16" => (i16::MIN as i128, i16::MAX as u128),
    "i32" => (i32::MIN as i128, i32::MAX as u128),
    "i64" => (i64::MIN as i128, i64::MAX as u128),
    "i128" => (i128::MIN, i128::MAX as u128),
    "u8" => (0, u8::MAX as u128),
    "u16" => (0, u16::MAX as u128),
    "u32" => (0, u32::MAX as u128),
    "u64" => (0, u64::MAX as u128),
    _ => return None,
  })
}

fn boundaries() -> Vec<i128> {
  let mut v = vec![0, i128::MAX, i128::MAX - 1, i128::MIN, i128::MIN + 1];
  for bits in [7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 126] {
    for d in -2i128..=2 {
      v.push((1i128 << bits) + d);
      v.push(-(1i128 << bits) + d);
    }
  }
  v.extend(-300..=300);
  v.sort();
  v.dedup();
  v
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P14"
  }
  fn rule(&self) -> &'static str {
    "every value in -300..=300 and within 2 of every power-of-two boundary (both signs) cast to 25 types, as a variable-like macro, as a function-like macro and through Cast on a literal; then random 128-bit values of random magnitude"
  }
  fn generate(&self, _thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    for v in boundaries() {
      for (i, _) in TYPES.iter().enumerate() {
        sink.shared(&enc(&[v.to_string(), i.to_string()]));
      }
    }
    loop {
      let v = (((rng.next() as u128) << 64 | rng.next() as u128) as i128) >> rng.below(128);
      let v = if rng.chance(1, 3) { *rng.pick(&[1i128 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1 << 64, 1 << 7, 1 << 15]) * if rng.chance(1, 2) { -1 } else { 1 } + rng.below(5) as i128 - 2 } else { v };
      if !sink.own(&enc(&[v.to_string(), rng.below(TYPES.len()).to_string()])) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let p = dec(case);
    if p.len() != 2 {
      return Ok("-invalid")
    }
    let (Ok(value), Some((ty, rust))) = (p[0].parse::<i128>(), p[1].parse::<usize>().ok().and_then(|i| TYPES.get(i))) else { return Ok("-invalid") };
    let mut toks = vec![MacroToken::Punctuation(Punctuation::try_from("(").unwrap())];
    for t in ty.split(' ') {
      toks.push(match Punctuation::try_from(t) {
        Ok(p) => MacroToken::Punctuation(p),
        Err(_) => MacroToken::Identifier(Identifier::try_from(t).unwrap()),
      });
    }
    toks.push(MacroToken::Punctuation(Punctuation::try_from(")").unwrap()));
    // The literal is built directly in order to reach every value, also negative ones.
    toks.push(MacroToken::Lit(Lit::Int(LitInt { value, suffix: None })));
    let shown = format!("({ty}) {value}");
    let gen = |ty: &str| -> Result<String, String> {
      let mut m = VarMacro::parse("V", &toks).map_err(|e| format!("{shown} is not parsed: {e:?}"))?;
      match m.value() {
        Some(Expr::Cast(Cast { expr, .. })) if matches!(&**expr, Expr::Literal(Lit::Int(i)) if i.value == value) => (),
        v => return Err(format!("{shown} is parsed as {v:?}")),
      }
      let _ = ty;
      m.generate(()).map(|r| r.0.to_string()).map_err(|e| format!("{shown} is not generated: {e:?}"))
    };
    let out = gen(ty)?;
    let mut f = FnMacro::parse("F", &[], &toks).map_err(|e| format!("{shown} is not parsed: {e:?}"))?;
    let f = f.generate(()).map_err(|e| format!("{shown} is not generated: {e:?}"))?.to_string();
    let squeeze = |s: &str| s.split_whitespace().collect::<String>();
    if !squeeze(&f).contains(&squeeze(&out)) {
      return Err(format!("`{shown}` is generated as `{out}` in a variable-like macro but as `{f}` in a function-like one"))
    }
    if value == 0 && rust.starts_with('*') {
      let want = if rust.starts_with("*const") { "null()" } else { "null_mut()" };
      let s = squeeze(&out);
      if ty.contains("volatile") && s == format!("0u8as{}", squeeze(rust)) {
        return Ok("null pointer")
      }
      return if s == format!("ptr::{want}") || s.ends_with(&format!("::ptr::{want}")) { Ok("null pointer") } else { Err(format!("{shown} is generated as `{out}`, expected `{want}`")) }
    }
    let e: syn::Expr = syn::parse_str(&out).map_err(|e| format!("{shown} is generated as `{out}`: {e}"))?;
    let syn::Expr::Cast(c) = &e else { return Err(format!("{shown} is generated as `{out}`, which is no cast")) };
    let got_ty = squeeze(&quote::ToTokens::to_token_stream(&*c.ty).to_string());
    if got_ty != squeeze(rust) {
      return Err(format!("{shown} is generated as `{out}`, expected a cast to `{rust}`"))
    }
    let (neg, l) = match &*c.expr {
      syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => (true, &**expr),
      syn::Expr::Paren(p) => match &*p.expr {
        syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => (true, &**expr),
        e => (false, e),
      },
      e => (false, e),
    };
    let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(i), .. }) = l else { return Err(format!("{shown} is generated as `{out}`")) };
    let mag: u128 = i.base10_parse().map_err(|e| format!("{shown} is generated as `{out}`: {e}"))?;
    if (neg != (value < 0)) && value != 0 || mag != value.unsigned_abs() {
      return Err(format!("{shown} is generated as `{out}`, which has another value"))
    }
    let fits = |s: &str| limits(s).is_some_and(|(lo, hi)| if value < 0 { value >= lo } else { value as u128 <= hi });
    if !fits(i.suffix()) {
      return Err(format!("{shown} is generated as `{out}`: `{}` cannot hold the value", i.suffix()))
    }
    let smallest = if value < 0 { ["i8", "i16", "i32", "i64"] } else { ["u8", "u16", "u32", "u64"] }.into_iter().find(|s| fits(s)).unwrap_or("i128");
    if i.suffix() != smallest {
      return Err(format!("{shown} is generated as `{out}`, the smallest suffix is `{smallest}`"))
    }
    Ok(if value < 0 { "negative" } else { "non-negative" })
  }
}

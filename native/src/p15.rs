use std::ffi::CString;

use cmacro::{Expr, FnMacro, Lit, LitFloat, MacroToken, VarMacro};

use crate::{common::*, lexref};

pub struct P;

/// The nearest `float` and `double`, by the C library.
fn nearest32(s: &str) -> f32 {
  let c = CString::new(s).unwrap();
  extern "C" {
    fn strtof(s: *const libc::c_char, end: *mut *mut libc::c_char) -> f32;
  }
  unsafe { strtof(c.as_ptr(), std::ptr::null_mut()) }
}
fn nearest64(s: &str) -> f64 {
  let c = CString::new(s).unwrap();
  unsafe { libc::strtod(c.as_ptr(), std::ptr::null_mut()) }
}

fn same(a: &LitFloat, b: &LitFloat) -> bool {
  match (a, b) {
    (LitFloat::Float(a), LitFloat::Float(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
    (LitFloat::Double(a), LitFloat::Double(b)) | (LitFloat::LongDouble(a), LitFloat::LongDouble(b)) => a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
    _ => false,
  }
}

/// The generated code denotes the value, and the type is the one of the literal.
fn generated(lit: LitFloat) -> Result<(), String> {
  let toks = [MacroToken::Lit(Lit::Float(lit))];
  let shown = format!("{lit:?}");
  let mut m = VarMacro::parse("V", &toks).map_err(|e| format!("{shown} is not parsed: {e:?}"))?;
  match m.value() {
    Some(Expr::Literal(Lit::Float(l))) if same(l, &lit) => (),
    v => return Err(format!("{shown} is parsed as {v:?}")),
  }
  let (code, ty) = m.generate(()).map_err(|e| format!("{shown} is not generated: {e:?}"))?;
  let code = code.to_string();
  let (want_ty, neg, nan, inf) = match lit {
    LitFloat::Float(f) => ("f32", f.is_sign_negative(), f.is_nan(), f.is_infinite()),
    LitFloat::Double(f) => ("f64", f.is_sign_negative(), f.is_nan(), f.is_infinite()),
    LitFloat::LongDouble(f) => ("f64", f.is_sign_negative(), f.is_nan(), f.is_infinite()),
  };
  let ty = ty.map(|t| t.to_string()).unwrap_or_default();
  if !(ty == want_ty || ty.ends_with(&format!(" {want_ty}"))) {
    return Err(format!("{shown} is generated with the type {ty:?}"))
  }
  let squeezed = code.split_whitespace().collect::<String>();
  let mut f = FnMacro::parse("F", &[], &toks).map_err(|e| format!("{shown} is not parsed: {e:?}"))?;
  let f = f.generate(()).map_err(|e| format!("{shown} is not generated: {e:?}"))?.to_string();
  if !f.split_whitespace().collect::<String>().contains(&squeezed) {
    return Err(format!("{shown} is generated as `{code}` in a variable-like macro but as `{f}` in a function-like one"))
  }
  let single = matches!(lit, LitFloat::Float(_));
  if nan || inf {
    let name = if nan { "NAN" } else if neg { "NEG_INFINITY" } else { "INFINITY" };
    let want = format!("{}::{name}", if single { "f32" } else { "f64" });
    return if squeezed == want || squeezed.ends_with(&format!("::{want}")) { Ok(()) } else { Err(format!("{shown} is generated as `{code}`, expected `{want}`")) }
  }
  let e: syn::Expr = syn::parse_str(&code).map_err(|e| format!("{shown} is generated as `{code}`: {e}"))?;
  let (minus, l) = match &e {
    syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(_), expr, .. }) => (true, &**expr),
    e => (false, e),
  };
  let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Float(l), .. }) = l else { return Err(format!("{shown} is generated as `{code}`, which is no floating-point literal")) };
  let digits = l.base10_digits();
  let sfx = l.suffix();
  if !(sfx.is_empty() || sfx == if single { "f32" } else { "f64" }) {
    return Err(format!("{shown} is generated as `{code}`"))
  }
  let sign = if minus { -1.0 } else { 1.0 };
  let ok = match lit {
    LitFloat::Float(f) => (nearest32(digits) * sign as f32).to_bits() == f.to_bits(),
    LitFloat::Double(f) | LitFloat::LongDouble(f) => (nearest64(digits) * sign).to_bits() == f.to_bits(),
  };
  if ok { Ok(()) } else { Err(format!("{shown} is generated as `{code}`, which has another value")) }
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P15"
  }
  fn rule(&self) -> &'static str {
    "all strings of up to 5 (thorough: 6) characters over 019.eE+-fFlLx, then random decimal spellings with long digit strings and extreme exponents, with suffixes and mutations, and random bit patterns of both types for the generated code"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    const ALPHA: &[u8] = b"019.eE+-fFlLx";
    for bits in [0u64, 1, 0x7ff0000000000000, 0x7fefffffffffffff, 0x0010000000000000, 0x000fffffffffffff, 0x7ff8000000000000, 0x3ff0000000000000, 0x4340000000000000] {
      for neg in [0, 1u64 << 63] {
        sink.shared(&format!("d:{:x}", bits | neg));
        sink.shared(&format!("l:{:x}", bits | neg));
      }
    }
    for bits in [0u32, 1, 0x7f800000, 0x7f7fffff, 0x00800000, 0x007fffff, 0x7fc00000, 0x3f800000, 0x4b800000] {
      for neg in [0, 1u32 << 31] {
        sink.shared(&format!("f:{:x}", bits | neg));
      }
    }
    let max = if thorough { 6 } else { 5 };
    for len in 0..=max {
      let mut idx = vec![0usize; len];
      'strings: loop {
        if sink.mine() {
          let s: String = idx.iter().map(|i| ALPHA[*i] as char).collect();
          if !sink.own(&s) {
            return
          }
        }
        let mut p = len;
        loop {
          if p == 0 {
            break 'strings
          }
          p -= 1;
          idx[p] += 1;
          if idx[p] < ALPHA.len() {
            break
          }
          idx[p] = 0;
        }
      }
    }
    let digits = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| (b'0' + rng.below(10) as u8) as char).collect() };
    loop {
      let case = match rng.below(8) {
        0 => format!("d:{:x}", rng.next()),
        1 => format!("f:{:x}", rng.next() as u32),
        2 => format!("l:{:x}", rng.next()),
        k => {
          // Half of the numbers are near the middle between two adjacent values.
          let mut s = if k == 3 {
            let f = f32::from_bits(rng.next() as u32 & 0x7fffffff);
            if f.is_finite() { format!("{:.*e}", rng.below(60), (f as f64 + f32::from_bits(f.to_bits() + 1) as f64) / 2.0) } else { "3.5e38".into() }
          } else {
            let (a, b) = (rng.below(25), rng.below(25));
            let (a, b) = (digits(rng, a), digits(rng, b));
            if rng.chance(1, 8) { a } else { format!("{a}.{b}") }
          };
          if !s.contains('e') && rng.chance(2, 3) {
            let big = rng.chance(1, 10);
            s.push_str(&format!("{}{}{}", rng.pick(&["e", "E"]), rng.pick(&["", "+", "-"]), if big { rng.below(100_000) } else { rng.below(400) }));
          }
          let sf = *rng.pick(&["", "", "f", "F", "l", "L", "f16", "ll", "u", "lf", "d"]);
          s.push_str(sf);
          if rng.chance(1, 8) && !s.is_empty() {
            let mut c: Vec<char> = s.chars().collect();
            let at = rng.below(c.len());
            c[at] = *rng.pick(&['.', 'e', '-', '+', 'x', '0', '_', '\'', ' ', 'p', '\u{663}', 'f']);
            s = c.into_iter().collect();
          }
          s
        },
      };
      if !sink.own(&case) {
        return
      }
    }
  }
  fn eval(&self, s: &str) -> Outcome {
    if let Some((k, bits)) = s.split_once(':') {
      let Ok(bits) = u64::from_str_radix(bits, 16) else { return Ok("-invalid") };
      generated(match k {
        "d" => LitFloat::Double(f64::from_bits(bits)),
        "l" => LitFloat::LongDouble(f64::from_bits(bits)),
        _ => LitFloat::Float(f32::from_bits(bits as u32)),
      })?;
      return Ok("value")
    }
    let want = lexref::float(s).map(|(sfx, digits)| match sfx {
      'f' => LitFloat::Float(nearest32(&digits)),
      'l' => LitFloat::LongDouble(nearest64(&digits)),
      _ => LitFloat::Double(nearest64(&digits)),
    });
    let got = LitFloat::try_from(s).ok();
    match (&want, &got) {
      (None, None) => (),
      (Some(w), Some(g)) if same(w, g) => (),
      _ => return Err(format!("LitFloat::try_from({s:?}) is {got:?}, expected {want:?}")),
    }
    let lit = Lit::try_from(s).ok();
    match (&want, &lit) {
      (None, Some(Lit::Float(l))) => Err(format!("Lit::try_from({s:?}) is {l:?}, expected no floating-point literal")),
      (None, _) => Ok("rejected"),
      (Some(w), Some(Lit::Float(l))) if same(w, l) => {
        generated(*w)?;
        Ok("accepted")
      },
      _ => Err(format!("Lit::try_from({s:?}) is {lit:?}, expected {want:?}")),
    }
  }
}

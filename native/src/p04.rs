use cmacro::{Expr, Lit, LitString, MacroToken, VarMacro};

use crate::{
  common::*,
  lexref::{self, StrVal},
  p03::{escape, plain},
};

pub struct P;

pub const PREFIXES: &[&str] = &["", "u8", "u", "U", "L"];

pub fn gen_string(rng: &mut Rng, p: &str) -> String {
  let mut s = format!("{p}\"");
  let n = *rng.pick(&[0, 1, 1, 2, 2, 3, 4, 6, 9]);
  for _ in 0..n {
    match rng.below(10) {
      0..=2 => s.push_str(&escape(rng)),
      3 => s.push(plain(rng)),
      4 => s.push_str(rng.pick(&["\\ud83c\\udf4c", "\\xd83c\\xdf4c", "\\xf0\\x9f\\x8d\\x8c", "\\u00e9", "\\U0001f34c", "\\xc3\\xa9", "\\303\\251"])),
      5 => s.push_str(rng.pick(&["\\n", "\\0", "\\x7f", "\\'", "\\\""])),
      _ => s.push_str(rng.pick(&["a", "bc", "Z9", "猫", " ", "/*", "é", "🍌", "'", "0"])),
    }
  }
  if !rng.chance(1, 40) {
    s.push('"');
  }
  s
}

pub const PIECES: &[&str] = &[
  "a", "bc", "猫", "🍌", "\\n", "\\0", "\\177", "\\x7f", "\\xe9", "\\xc3\\xa9", "\\u00e9", "\\U0001f34c", "\\xd83c", "\\udf4c", "\\x110000", "\n", "\\q",
];

/// Contents of a sequence of string literals, `None` if it is unspecified here.
fn concat(vals: &[StrVal]) -> Option<StrVal> {
  let mut acc = vals.first()?.clone();
  for v in &vals[1..] {
    match (&mut acc, v) {
      (StrVal::Ordinary(a), StrVal::Ordinary(b)) => a.extend(b),
      (StrVal::Utf8(a), StrVal::Utf8(b)) | (StrVal::Utf16(a), StrVal::Utf16(b)) | (StrVal::Utf32(a), StrVal::Utf32(b)) => a.push_str(b),
      (StrVal::Wide(a), StrVal::Wide(b)) => a.extend(b),
      (StrVal::Utf8(a) | StrVal::Utf16(a) | StrVal::Utf32(a), StrVal::Ordinary(b)) => a.push_str(std::str::from_utf8(b).ok()?),
      (StrVal::Wide(a), StrVal::Ordinary(b)) => a.extend(std::str::from_utf8(b).ok()?.chars().map(u32::from)),
      _ => return None,
    }
  }
  Some(acc)
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P04"
  }
  fn rule(&self) -> &'static str {
    "every prefix with all strings of up to 4 (thorough: 5) pieces out of 15 escapes, characters and encodings of every kind, then random strings of up to 9 pieces, and sequences of 2 to 4 adjacent literals with equal or no prefix"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let max = if thorough { 4 } else { 3 };
    for p in PREFIXES {
      for len in 0..=max {
        for n in 0..PIECES.len().pow(len) {
          if !sink.mine() {
            continue
          }
          let mut n = n;
          let mut s = format!("{p}\"");
          for _ in 0..len {
            s.push_str(PIECES[n % PIECES.len()]);
            n /= PIECES.len();
          }
          if !sink.own(&enc(&[format!("{s}\"")])) {
            return
          }
          if len < 2 {
            sink.own(&enc(&[s.clone()]));
            sink.own(&enc(&[format!("{s}\"x")]));
            sink.own(&enc(&[format!("{s}\\\"")]));
          }
        }
      }
      for p2 in PREFIXES {
        for a in PIECES {
          for b in PIECES {
            sink.shared(&enc(&[format!("{p}\"{a}\""), format!("{p2}\"{b}\"")]));
          }
        }
      }
    }
    loop {
      let p = *rng.pick(PREFIXES);
      let mut toks = vec![gen_string(rng, p)];
      if rng.chance(1, 3) {
        for _ in 0..1 + rng.below(3) {
          let q = if rng.chance(1, 2) { p } else { "" };
          toks.push(gen_string(rng, q));
        }
      }
      if !sink.own(&enc(&toks)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let toks = dec(case);
    if toks.len() == 1 {
      let s = toks[0].as_str();
      let want = lexref::string_value(s).map(|v| lexref::mk_string(&v));
      let got = LitString::try_from(s).ok();
      if got != want {
        return Err(format!("LitString::try_from({s:?}) is {got:?}, expected {want:?}"))
      }
      let lit = match Lit::try_from(s) {
        Ok(Lit::String(c)) => Some(c),
        _ => None,
      };
      if lit != want {
        return Err(format!("Lit::try_from({s:?}) is {lit:?}, expected {want:?}"))
      }
      return Ok(if want.is_some() { "accepted" } else { "rejected" })
    }
    let Some(vals) = toks.iter().map(|t| lexref::string_value(t)).collect::<Option<Vec<_>>>() else { return Ok("-invalid") };
    let Some(want) = concat(&vals) else {
      // Text which is not UTF-8 cannot be part of an encoded string.
      let encoded = matches!(vals[0], StrVal::Utf8(_) | StrVal::Utf16(_) | StrVal::Utf32(_));
      let not_text = vals[1..].iter().any(|v| matches!(v, StrVal::Ordinary(b) if std::str::from_utf8(b).is_err()));
      if encoded && not_text {
        let mtoks: Vec<_> = vals.iter().map(|v| MacroToken::Lit(Lit::String(lexref::mk_string(v)))).collect();
        if let Ok(m) = VarMacro::parse("S", &mtoks) {
          if let Some(Expr::Literal(Lit::String(s))) = m.value() {
            return Err(format!("{toks:?} is parsed as {s:?}, although a part of it is no text"))
          }
        }
        return Ok("no text")
      }
      return Ok("-unspecified")
    };
    let want = Expr::Literal(Lit::String(lexref::mk_string(&want)));
    let mut mtoks = vec![];
    for v in &vals {
      mtoks.push(MacroToken::Lit(Lit::String(lexref::mk_string(v))));
    }
    match VarMacro::parse("S", &mtoks) {
      Ok(m) if m.value() == Some(&want) => Ok("concatenated"),
      Ok(m) => Err(format!("{toks:?} is parsed as {:?}, expected {want:?}", m.value())),
      Err(e) => Err(format!("{toks:?} is not parsed ({e:?}), expected {want:?}")),
    }
  }
}

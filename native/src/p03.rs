use cmacro::{Lit, LitChar};

use crate::{common::*, lexref};

pub struct P;

const PREFIXES: &[&str] = &["", "u8", "u", "U", "L"];

pub fn escape(rng: &mut Rng) -> String {
  let hex = |rng: &mut Rng, n: usize| -> String { (0..n).map(|_| *rng.pick(&['0', '0', '1', '7', '8', '9', 'a', 'f', 'A', 'F', 'd', 'D'])).collect() };
  match rng.below(7) {
    0 => format!("\\{}", rng.pick(&['a', 'b', 'e', 'f', 'n', 'r', 't', 'v', '\\', '\'', '"', '?'])),
    1 => { let n = 1 + rng.below(4); format!("\\{}", (0..n).map(|_| *rng.pick(&['0', '1', '3', '4', '7', '8'])).collect::<String>()) },
    2 => { let n = rng.below(10); format!("\\x{}", hex(rng, n)) },
    3 => { let n = if rng.chance(1, 4) { rng.below(6) } else { 4 }; format!("\\u{}", hex(rng, n)) },
    4 => { let n = if rng.chance(1, 4) { rng.below(9) } else { 5 }; format!("\\U{}{}", if n == 5 { "000" } else { "" }, hex(rng, n)) },
    5 => format!("\\{}", rng.pick(&['X', 'g', 'N', 'c', '9', '\n', ' ', 'é'])),
    _ => format!("\\x{:x}", rng.pick(&[0x7fu32, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0xd800, 0xdfff, 0x10ffff, 0x110000, 0xffff_ffff])),
  }
}

pub fn plain(rng: &mut Rng) -> char {
  match rng.below(6) {
    0 => *rng.pick(&['\u{7f}', '\u{80}', '\u{ff}', '\u{100}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '猫', '🍌', 'β', 'é', '\u{161}', '\u{130}', '\u{131}']),
    1 => loop {
      if let Some(c) = char::from_u32(rng.below(0x11_0000) as u32) {
        break c
      }
    },
    2 => *rng.pick(&['\'', '"', '\\', '\n', '\r', '\0', '/', '*', '?']),
    _ => char::from(b' ' + rng.below(95) as u8),
  }
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P03"
  }
  fn rule(&self) -> &'static str {
    "every prefix with every Unicode scalar (quick: all below U+3000 and a stride above), every octal escape, \\x with all values up to 0x1ffff, every \\u escape, \\U at all boundaries, every two-character escape; then random mixtures of escapes and characters"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    for p in PREFIXES {
      for v in 0..=0x10ffffu32 {
        if !thorough && v >= 0x3000 && v % 37 != 0 && v < 0x10fff0 {
          continue
        }
        if let Some(c) = char::from_u32(v) {
          if sink.mine() {
            sink.own(&format!("{p}'{c}'"));
          }
        }
      }
      for v in 0..512 {
        sink.shared(&format!("{p}'\\{v:o}'"));
        sink.shared(&format!("{p}'\\{v:02o}'"));
        sink.shared(&format!("{p}'\\{v:03o}'"));
        sink.shared(&format!("{p}'\\{v:04o}'"));
      }
      for v in 0..=0x1ffffu32 {
        if !thorough && v > 0x1200 && v % 7 != 0 {
          continue
        }
        if sink.mine() {
          sink.own(&format!("{p}'\\x{v:x}'"));
          sink.own(&format!("{p}'\\x{v:06X}'"));
        }
        if v <= 0xffff && sink.mine() {
          sink.own(&format!("{p}'\\u{v:04x}'"));
        }
        if sink.mine() {
          sink.own(&format!("{p}'\\U{v:08X}'"));
        }
      }
      for v in [0x10fffeu32, 0x10ffff, 0x110000, 0xd7ff, 0xd800, 0xdfff, 0xe000, 0xffff_fffe, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000] {
        sink.shared(&format!("{p}'\\U{v:08x}'"));
        sink.shared(&format!("{p}'\\x{v:x}'"));
        sink.shared(&format!("{p}'\\x0{v:x}'"));
        sink.shared(&format!("{p}'\\x{v:x}0'"));
      }
      for a in 0..=255u8 {
        let a = a as char;
        sink.shared(&format!("{p}'\\{a}'"));
        sink.shared(&format!("{p}'\\{a}"));
        sink.shared(&format!("{p}'{a}"));
        sink.shared(&format!("{p}{a}"));
        sink.shared(&format!("{p}'{a}'x"));
        sink.shared(&format!("{p} '{a}'"));
        sink.shared(&format!("{p}\"{a}\""));
        for b in ['0', 'a', '\'', '\\', ' '] {
          sink.shared(&format!("{p}'{a}{b}'"));
          sink.shared(&format!("{p}'\\{a}{b}'"));
        }
      }
      sink.shared(&format!("{p}''"));
      sink.shared(&format!("{p}'''"));
    }
    for p in ["U8", "l", "uu", "u16", "LL", "8", "R"] {
      sink.shared(&format!("{p}'a'"));
    }
    loop {
      let mut s = rng.pick(PREFIXES).to_string();
      s.push('\'');
      for _ in 0..[1, 1, 1, 1, 1, 2, 0][rng.below(7)] {
        if rng.chance(2, 3) {
          s.push_str(&escape(rng));
        } else {
          s.push(plain(rng));
        }
      }
      if !rng.chance(1, 30) {
        s.push('\'');
      }
      if !sink.own(&s) {
        return
      }
    }
  }
  fn eval(&self, s: &str) -> Outcome {
    let want = lexref::char_value(s).map(|(p, v)| lexref::mk_char(p, v));
    let got = LitChar::try_from(s).ok();
    if got != want {
      return Err(format!("LitChar::try_from({s:?}) is {got:?}, expected {want:?}"))
    }
    let lit = match Lit::try_from(s) {
      Ok(Lit::Char(c)) => Some(c),
      _ => None,
    };
    if lit != want {
      return Err(format!("Lit::try_from({s:?}) is {lit:?}, expected {want:?}"))
    }
    Ok(if want.is_some() { "accepted" } else { "rejected" })
  }
}

//! Reference lexer, written from the C grammar and independent of the code under test.
use std::borrow::Cow;

use cmacro::{BuiltInType, LitChar, LitString};

pub fn hexval(c: char) -> Option<u32> {
  match c {
    '0'..='9' => Some(c as u32 - 48),
    'a'..='f' => Some(c as u32 - 87),
    'A'..='F' => Some(c as u32 - 55),
    _ => None,
  }
}

pub fn suffix(s: &str) -> Option<Option<BuiltInType>> {
  Some(match s {
    "" => None,
    "u" | "U" => Some(BuiltInType::UInt),
    "l" | "L" => Some(BuiltInType::Long),
    "ll" | "LL" => Some(BuiltInType::LongLong),
    "z" | "Z" => Some(BuiltInType::SSizeT),
    "ul" | "uL" | "Ul" | "UL" | "lu" | "lU" | "Lu" | "LU" => Some(BuiltInType::ULong),
    "ull" | "uLL" | "Ull" | "ULL" | "llu" | "llU" | "LLu" | "LLU" => Some(BuiltInType::ULongLong),
    "uz" | "uZ" | "Uz" | "UZ" | "zu" | "zU" | "Zu" | "ZU" => Some(BuiltInType::SizeT),
    _ => return None,
  })
}

/// Integer constant: value and suffix.
pub fn int(s: &str) -> Option<(i128, Option<BuiltInType>)> {
  let b = s.as_bytes();
  let (base, start) = if b.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'x' {
    (16u32, 2)
  } else if b.len() > 2 && b[0] == b'0' && (b[1] | 32) == b'b' {
    (2, 2)
  } else if !b.is_empty() && b[0] == b'0' {
    (8, 0)
  } else {
    (10, 0)
  };
  let mut end = start;
  while end < b.len() && (b[end] as char).is_digit(base) {
    end += 1;
  }
  if end == start {
    return None
  }
  // Big number arithmetic on purpose: a list of bytes, compared with the maximum at the end.
  let mut value: u128 = 0;
  let mut too_big = false;
  for &c in &b[start..end] {
    let d = hexval(c as char)? as u128;
    match value.checked_mul(base as u128).and_then(|v| v.checked_add(d)) {
      Some(v) if v < 1u128 << 127 => value = v,
      _ => too_big = true,
    }
  }
  if too_big {
    return None
  }
  Some((value as i128, suffix(&s[end..])?))
}

/// Floating constant: `(kind, digits)`, kind is `f`, `d` or `l`.
pub fn float(s: &str) -> Option<(char, String)> {
  let c: Vec<char> = s.chars().collect();
  let mut i = 0;
  while i < c.len() && c[i].is_ascii_digit() {
    i += 1;
  }
  let int_digits = i;
  let mut frac_digits = 0;
  let mut point = false;
  if i < c.len() && c[i] == '.' {
    point = true;
    i += 1;
    while i < c.len() && c[i].is_ascii_digit() {
      i += 1;
      frac_digits += 1;
    }
  }
  if int_digits + frac_digits == 0 {
    return None
  }
  let mut exp = false;
  if i < c.len() && (c[i] == 'e' || c[i] == 'E') {
    let mut j = i + 1;
    if j < c.len() && (c[j] == '+' || c[j] == '-') {
      j += 1;
    }
    let k = j;
    while j < c.len() && c[j].is_ascii_digit() {
      j += 1;
    }
    if j == k {
      return None
    }
    exp = true;
    i = j;
  }
  if !point && !exp {
    return None
  }
  let digits: String = c[..i].iter().collect();
  match c[i..] {
    [] => Some(('d', digits)),
    ['f' | 'F'] => Some(('f', digits)),
    ['l' | 'L'] => Some(('l', digits)),
    _ => None,
  }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Ch {
  Plain(char),
  /// Universal character name.
  Ucn(u32),
  /// Any other escape sequence.
  Esc(u32),
}

/// Read the characters of a literal up to (not including) the closing quote;
/// returns the rest after the quote.
fn body(s: &str, quote: char) -> Option<(Vec<Ch>, &str)> {
  let c: Vec<(usize, char)> = s.char_indices().collect();
  let mut out = vec![];
  let mut i = 0;
  while i < c.len() {
    let ch = c[i].1;
    if ch == quote {
      return Some((out, &s[c[i].0 + ch.len_utf8()..]))
    }
    if ch == '\n' {
      return None
    }
    if ch != '\\' {
      out.push(Ch::Plain(ch));
      i += 1;
      continue
    }
    let e = c.get(i + 1)?.1;
    let simple = match e {
      'a' => Some(7),
      'b' => Some(8),
      'e' => Some(27),
      'f' => Some(12),
      'n' => Some(10),
      'r' => Some(13),
      't' => Some(9),
      'v' => Some(11),
      '\\' | '\'' | '"' | '?' => Some(e as u32),
      _ => None,
    };
    if let Some(v) = simple {
      out.push(Ch::Esc(v));
      i += 2;
      continue
    }
    match e {
      '0'..='7' => {
        let mut v = 0;
        let mut n = 0;
        while n < 3 && i + 1 + n < c.len() && ('0'..='7').contains(&c[i + 1 + n].1) {
          v = v * 8 + (c[i + 1 + n].1 as u32 - 48);
          n += 1;
        }
        out.push(Ch::Esc(v));
        i += 1 + n;
      },
      'x' => {
        let mut v = 0u64;
        let mut n = 0;
        while let Some(d) = c.get(i + 2 + n).and_then(|c| hexval(c.1)) {
          v = (v * 16 + d as u64).min(1 << 40);
          n += 1;
        }
        if n == 0 || v > u32::MAX as u64 {
          return None
        }
        out.push(Ch::Esc(v as u32));
        i += 2 + n;
      },
      'u' | 'U' => {
        let len = if e == 'u' { 4 } else { 8 };
        let mut v = 0u32;
        for k in 0..len {
          v = (v << 4) | hexval(c.get(i + 2 + k)?.1)?;
        }
        out.push(Ch::Ucn(v));
        i += 2 + len;
      },
      _ => return None,
    }
  }
  None
}

fn prefixed(s: &str, quote: char) -> Option<(&'static str, &str)> {
  for p in ["u8", "u", "U", "L", ""] {
    if let Some(r) = s.strip_prefix(p).and_then(|r| r.strip_prefix(quote)) {
      return Some((p, r))
    }
  }
  None
}

/// Character constant: prefix and value.
pub fn char_value(s: &str) -> Option<(&'static str, u32)> {
  let (p, r) = prefixed(s, '\'')?;
  let (chars, rest) = body(r, '\'')?;
  if !rest.is_empty() || chars.len() != 1 {
    return None
  }
  let v = match chars[0] {
    Ch::Plain(c) => c as u32,
    Ch::Ucn(v) | Ch::Esc(v) => v,
  };
  let max = match p {
    "" => 0xff,
    "u8" => 0x7f,
    "u" => 0xffff,
    _ => u32::MAX,
  };
  (v <= max).then_some((p, v))
}

pub fn mk_char(p: &str, v: u32) -> LitChar {
  match p {
    "" => LitChar::Ordinary(v as u8),
    "u8" => LitChar::Utf8(v as u8),
    "u" => LitChar::Utf16(v as u16),
    "U" => LitChar::Utf32(v),
    _ => LitChar::Wide(v),
  }
}

#[derive(Debug, Clone, PartialEq)]
pub enum StrVal {
  Ordinary(Vec<u8>),
  Utf8(String),
  Utf16(String),
  Utf32(String),
  Wide(Vec<u32>),
}

fn ordinary_bytes(chars: &[Ch]) -> Option<Vec<u8>> {
  let mut out = vec![];
  for c in chars {
    match *c {
      Ch::Plain(c) => out.extend(c.to_string().as_bytes()),
      Ch::Ucn(v) => match char::from_u32(v) {
        Some(c) => out.extend(c.to_string().as_bytes()),
        None => out.push(u8::try_from(v).ok()?),
      },
      Ch::Esc(v) => out.push(u8::try_from(v).ok()?),
    }
  }
  Some(out)
}

pub fn string_value(s: &str) -> Option<StrVal> {
  let (p, r) = prefixed(s, '"')?;
  let (chars, rest) = body(r, '"')?;
  if !rest.is_empty() {
    return None
  }
  Some(match p {
    "" => StrVal::Ordinary(ordinary_bytes(&chars)?),
    "u8" => StrVal::Utf8(String::from_utf8(ordinary_bytes(&chars)?).ok()?),
    "u" => {
      let mut units: Vec<u16> = vec![];
      for c in &chars {
        let mut buf = [0; 2];
        match *c {
          Ch::Plain(c) => units.extend_from_slice(c.encode_utf16(&mut buf)),
          Ch::Ucn(v) => match char::from_u32(v) {
            Some(c) => units.extend_from_slice(c.encode_utf16(&mut buf)),
            None => units.push(u16::try_from(v).ok()?),
          },
          Ch::Esc(v) => units.push(u16::try_from(v).ok()?),
        }
      }
      StrVal::Utf16(String::from_utf16(&units).ok()?)
    },
    "U" => {
      let mut out = String::new();
      for c in &chars {
        out.push(match *c {
          Ch::Plain(c) => c,
          Ch::Ucn(v) | Ch::Esc(v) => char::from_u32(v)?,
        });
      }
      StrVal::Utf32(out)
    },
    _ => StrVal::Wide(
      chars
        .iter()
        .map(|c| match *c {
          Ch::Plain(c) => c as u32,
          Ch::Ucn(v) | Ch::Esc(v) => v,
        })
        .collect(),
    ),
  })
}

pub fn mk_string(v: &StrVal) -> LitString<'static> {
  match v.clone() {
    StrVal::Ordinary(b) => LitString::Ordinary(Cow::Owned(b)),
    StrVal::Utf8(s) => LitString::Utf8(Cow::Owned(s)),
    StrVal::Utf16(s) => LitString::Utf16(Cow::Owned(s)),
    StrVal::Utf32(s) => LitString::Utf32(Cow::Owned(s)),
    StrVal::Wide(w) => LitString::Wide(w),
  }
}

/// Characters of an identifier with universal characters decoded.
fn ident_chars(s: &str) -> Option<Vec<char>> {
  let c: Vec<char> = s.chars().collect();
  let mut out = vec![];
  let mut i = 0;
  while i < c.len() {
    if c[i] == '\\' {
      let len = match c.get(i + 1) {
        Some('u') => 4,
        Some('U') => 8,
        _ => return None,
      };
      let mut v = 0u32;
      for k in 0..len {
        v = (v << 4) | hexval(*c.get(i + 2 + k)?)?;
      }
      out.push(char::from_u32(v)?);
      i += 2 + len;
    } else {
      out.push(c[i]);
      i += 1;
    }
  }
  Some(out)
}

pub fn ident_cont(s: &str) -> Option<String> {
  let c = ident_chars(s)?;
  (!c.is_empty() && c.iter().all(|c| unicode_ident::is_xid_continue(*c))).then(|| c.into_iter().collect())
}

pub fn ident(s: &str) -> Option<String> {
  let c = ident_chars(s)?;
  let first = *c.first()?;
  (unicode_ident::is_xid_start(first) || first == '_').then_some(())?;
  ident_cont(s)
}

pub const PUNCTUATORS: &[&str] = &[
  "[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">",
  "<=", ">=", "==", "!=", "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=",
  "&=", "^=", "|=", ",", "#", "##", "<:", ":>", "<%", "%>", "%:", "%:%:",
];

/// Punctuator, possibly after line continuations.
pub fn punct(s: &str) -> Option<&str> {
  let mut s = s;
  loop {
    if let Some(r) = s.strip_prefix("\\\n").or_else(|| s.strip_prefix("\\\r\n")) {
      s = r;
    } else {
      return PUNCTUATORS.contains(&s).then_some(s)
    }
  }
}

/// Text of a comment.
pub fn comment(s: &str) -> Option<&str> {
  let body = s.strip_prefix("/*")?.strip_suffix("*/")?;
  (!body.contains("*/") && !(body.ends_with('*') && body.is_empty())).then_some(body)
}

pub fn is_lit(s: &str) -> bool {
  char_value(s).is_some() || string_value(s).is_some() || float(s).is_some() || int(s).is_some()
}

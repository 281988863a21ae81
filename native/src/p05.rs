use cmacro::{Comment, ExpansionError, Identifier, IdentifierContinue, Lit, MacroSet, MacroToken, Punctuation};

use crate::{common::*, lexref, p03::plain};

pub struct P;

/// `##` is an operator of the preprocessor.
fn want_op(punct: Option<&str>) -> bool {
  punct == Some("##")
}


impl Property for P {
  fn id(&self) -> &'static str {
    "P05"
  }
  fn rule(&self) -> &'static str {
    "all Unicode scalars as first and second character and as universal character, all strings of up to 4 (thorough: 5) characters over the punctuation characters, all strings of up to 5 pieces of letters, digits, escapes and comment delimiters; then random spellings; each is classified as an identifier, identifier continuation, literal, punctuator, comment or nothing by the reference lexer and compared with the constructors and with MacroSet::expand"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    for v in 0..=0x10ffffu32 {
      if !thorough && v >= 0x3100 && v % 23 != 0 {
        continue
      }
      if let Some(c) = char::from_u32(v) {
        if sink.mine() {
          sink.own(&c.to_string());
          sink.own(&format!("a{c}"));
          sink.own(&format!("1{c}"));
          sink.own(&format!("\\U{v:08x}"));
          sink.own(&format!("a\\U{v:08X}b"));
          if v <= 0xffff {
            sink.own(&format!("\\u{v:04x}"));
            sink.own(&format!("a\\u{v:04X}"));
          }
        }
      } else if sink.mine() {
        sink.own(&format!("\\u{v:04x}"));
        sink.own(&format!("a\\U{v:08x}"));
      }
    }
    const PUNCT: &[u8] = b"[](){}.-+&*~!/%<>=^|?:;,#";
    let max = if thorough { 4 } else { 3 };
    for len in 0..=max {
      for n in 0..PUNCT.len().pow(len) {
        if sink.mine() {
          let mut n = n;
          let mut s = String::new();
          for _ in 0..len {
            s.push(PUNCT[n % PUNCT.len()] as char);
            n /= PUNCT.len();
          }
          if !sink.own(&s) {
            return
          }
        }
      }
    }
    for p in lexref::PUNCTUATORS {
      for q in ["\\\n", "\\\r\n", "\\\n\\\n", "\\\r", "\\", "\n", " ", "\\\n\\\r\n"] {
        sink.shared(&format!("{q}{p}"));
        sink.shared(&format!("{p}{q}"));
      }
      for q in lexref::PUNCTUATORS {
        sink.shared(&format!("{p}{q}"));
      }
    }
    const PIECES: &[&str] = &["a", "_", "1", "Z", "é", "\\u00e9", "\\U000000e9", "\\u0031", "/*", "*/", "*", "/", " ", "\\", "\u{301}", "__VA_ARGS__", "$"];
    let max = if thorough { 5 } else { 4 };
    for len in 0..=max {
      for n in 0..PIECES.len().pow(len) {
        if sink.mine() {
          let mut n = n;
          let mut s = String::new();
          for _ in 0..len {
            s.push_str(PIECES[n % PIECES.len()]);
            n /= PIECES.len();
          }
          if !sink.own(&s) {
            return
          }
        }
      }
    }
    loop {
      let mut s = String::new();
      for _ in 0..1 + rng.below(8) {
        match rng.below(5) {
          0 => s.push(plain(rng)),
          1 => {
            let c = plain(rng);
            if rng.chance(1, 2) {
              s.push_str(&format!("\\U{:08x}", c as u32))
            } else {
              s.push_str(&format!("\\u{:04x}", c as u32))
            }
          },
          _ => s.push_str(rng.pick(PIECES)),
        }
      }
      if !sink.own(&s) {
        return
      }
    }
  }
  fn eval(&self, s: &str) -> Outcome {
    let want = lexref::ident(s);
    let got = Identifier::try_from(s).ok().map(|i| i.as_str().to_owned());
    if want != got {
      return Err(format!("Identifier::try_from({s:?}) is {got:?}, expected {want:?}"))
    }
    let id = want;
    let want = lexref::ident_cont(s);
    let got = IdentifierContinue::try_from(s).ok().map(|i| i.as_str().to_owned());
    if want != got {
      return Err(format!("IdentifierContinue::try_from({s:?}) is {got:?}, expected {want:?}"))
    }
    let id_cont = want;
    let want = lexref::punct(s);
    let got = Punctuation::try_from(s).ok();
    let same = match (want, &got) {
      (None, None) => true,
      (Some(w), Some(g)) => *g == w && w == *g,
      _ => false,
    };
    if !same {
      return Err(format!("Punctuation::try_from({s:?}) is {got:?}, expected {want:?}"))
    }
    let punct = want;
    let want = lexref::comment(s);
    let got = Comment::try_from(s).ok();
    if want.is_some() != got.is_some() {
      return Err(format!("Comment::try_from({s:?}) is {got:?}, expected {want:?}"))
    }
    if want_op(punct) {
      return Ok("operator")
    }
    let set = MacroSet::new();
    let body = [s];
    let got = set.expand(&body);
    let ok = |t: MacroToken<'_>| -> bool { matches!(&got, Ok(v) if v.len() == 1 && v[0] == t) };
    let (good, tag) = if s == "__VA_ARGS__" {
      (got == Err(ExpansionError::NonVariadicVarArgs), "variable arguments")
    } else if let Some(id) = id {
      (matches!(&got, Ok(v) if matches!(&v[..], [MacroToken::Identifier(i)] if i.as_str() == id)), "identifier")
    } else if lexref::is_lit(s) {
      (matches!(&got, Ok(v) if matches!(&v[..], [MacroToken::Lit(l)] if Some(l) == Lit::try_from(s).ok().as_ref())), "literal")
    } else if let Some(id) = id_cont {
      (matches!(&got, Ok(v) if matches!(&v[..], [MacroToken::IdentifierContinue(i)] if i.as_str() == id)), "identifier continuation")
    } else if let Some(p) = punct {
      (ok(MacroToken::Punctuation(Punctuation::try_from(p).unwrap())), "punctuation")
    } else if lexref::comment(s).is_some() {
      (ok(MacroToken::Comment(Comment::try_from(s).unwrap())), "comment")
    } else {
      (got == Err(ExpansionError::InvalidToken(s.to_owned())), "no token")
    };
    if good {
      Ok(tag)
    } else {
      Err(format!("the token {s:?} should be classified as {tag}, expanding it gives {got:?}"))
    }
  }
}

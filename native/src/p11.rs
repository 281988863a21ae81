use std::panic;

use cmacro::{FnMacro, MacroBody, MacroToken};

use crate::{common::*, tree::*};

pub struct P;

impl Property for P {
  fn id(&self) -> &'static str {
    "P11"
  }
  fn rule(&self) -> &'static str {
    "all pairs and triples of operators over names with every way to place one pair of parentheses, all token sequences of up to 5 (thorough: 6) out of 15 tokens; then random trees of depth up to 6 printed with minimal and redundant parentheses and comments, and random edits of them; the parsed expression is compared with an independent precedence climbing parser"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let v = |t: &[&str]| enc(t);
    let mut ops: Vec<&str> = BINARY.iter().map(|b| b.0).collect();
    ops.extend(ASSIGN);
    ops.extend(["?", ":", "->", "."]);
    for a in &ops {
      for p in PREFIX {
        sink.shared(&v(&["a", a, p, "b"]));
        sink.shared(&v(&[p, "a", a, "b"]));
        sink.shared(&v(&["a", a, "b", p]));
        sink.shared(&v(&["a", p, a, "b"]));
        sink.shared(&v(&["(", "int", ")", p, "b", a, "c"]));
        sink.shared(&v(&["(", "$0", ")", p, "b", a, "c"]));
        sink.shared(&v(&["a", a, "(", "$0", ")", p, "b"]));
      }
      for b in &ops {
        sink.shared(&v(&["a", a, "b", b, "c"]));
        sink.shared(&v(&["(", "a", a, "b", ")", b, "c"]));
        sink.shared(&v(&["a", a, "(", "b", b, "c", ")"]));
        sink.shared(&v(&["a", a, "/* x */", "b", "/* y */", b, "c"]));
        for p in PREFIX {
          sink.shared(&v(&["a", a, p, "b", b, "c"]));
        }
        for c in &ops {
          sink.shared(&v(&["a", a, "b", b, "c", c, "x"]));
          sink.shared(&v(&["a", a, "(", "b", b, "c", ")", c, "x"]));
          sink.shared(&v(&["(", "a", a, "b", b, "c", ")", c, "x"]));
        }
      }
    }
    let mut alphabet = vec!["a", "1", "(", ")", "*", "+", "-", "=", "?", ":", "int", "$0", "[", "]", "++"];
    if thorough {
      alphabet.extend(["f", ",", "."]);
    }
    for len in 1..=5u32 {
      for n in 0..alphabet.len().pow(len) {
        if !sink.mine() {
          continue
        }
        let mut n = n;
        let mut seq = vec![];
        for _ in 0..len {
          seq.push(alphabet[n % alphabet.len()]);
          n /= alphabet.len();
        }
        if !sink.own(&v(&seq)) {
          return
        }
      }
    }
    let lits: &[&str] = &["0", "1", "2u", "0x10", "1.5", "'c'", "3ull", "L'x'"];
    let g = Gen { args: 2, cond: true, assign: true, lits, types: true, calls: true };
    loop {
      let depth = 1 + rng.below(6);
      let e = random(rng, &g, depth);
      let mut t = vec![];
      let mut r = rng.clone();
      tokens(&e, &mut t, 2, &mut if rng.chance(1, 4) { None } else { Some(&mut r) });
      rng.next();
      if t.len() > 200 {
        continue
      }
      if rng.chance(1, 3) {
        for _ in 0..1 + rng.below(3) {
          let i = rng.below(t.len() + 1);
          match rng.below(3) {
            0 if i < t.len() && t.len() > 1 => {
              t.remove(i);
            },
            1 if i + 1 < t.len() => t.swap(i, i + 1),
            _ => {
              let op = if rng.chance(1, 3) { *rng.pick(&["(", ")", "a", "$0", "int", "[", "]", ",", "&&", "/* z */"]) } else { *rng.pick(&ops) };
              t.insert(i, op.into());
            },
          }
        }
      }
      if !sink.own(&enc(&t)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let toks = dec(case);
    let shown = toks.join(" ");
    let want = Parser::parse(&toks);
    let Some(mt) = macro_tokens(&toks) else { return Ok("-no tokens") };
    let params: Vec<MacroToken> = ["p", "q"].iter().map(|s| to_macro_token(s).unwrap()).collect();
    let got = panic::catch_unwind(|| match FnMacro::parse("F", &params, &mt) {
      Ok(m) => match m.body() {
        MacroBody::Expr(e) => Some(format!("{e:?}")),
        _ => None,
      },
      Err(_) => None,
    });
    let Ok(got) = got else { return Err(format!("parsing `{shown}` panics")) };
    match (want, got) {
      (Err(Stop::Scope), _) => Ok("-out of scope"),
      // Keywords are taken as names.
      (Err(Stop::Reject), _) if toks.iter().any(|t| is_keyword(t)) => Ok("-out of scope"),
      (Err(Stop::Reject), None) => Ok("-not an expression"),
      (Err(Stop::Reject), Some(e)) => Err(format!("`{shown}` is no expression, but is parsed as {e}")),
      (Ok(e), None) => Err(format!("`{shown}` is not parsed as an expression, expected {e:?}")),
      (Ok(e), Some(got)) => {
        let want = expected(&e);
        if want == got {
          Ok(if matches!(e, E::Bin(..) | E::Cond(..)) { "operators" } else { "expression" })
        } else {
          Err(format!("`{shown}` is parsed as {got}, expected {want}"))
        }
      },
    }
  }
}

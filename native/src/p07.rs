//! P07 to P10: macro expansion against the reference preprocessor.
use std::panic;

use cmacro::{ExpansionError, MacroSet};

use crate::{
  common::*,
  pp::{Def, Defs, Pp, E, K},
};

#[derive(Clone, Copy, PartialEq)]
pub enum Profile {
  Calls,
  Recursion,
  Stringify,
  Paste,
}
use Profile::*;

pub struct P(pub Profile);

type D = (String, Option<Vec<String>>, Vec<String>);

pub fn encode(defs: &[D]) -> String {
  serde_json::to_string(defs).unwrap()
}

fn v(toks: &[&str]) -> Vec<String> {
  toks.iter().map(|s| s.to_string()).collect()
}
fn var(name: &str, body: &[&str]) -> D {
  (name.into(), None, v(body))
}
fn func(name: &str, params: &[&str], body: &[&str]) -> D {
  (name.into(), Some(v(params)), v(body))
}

/// All sequences of length `len` over `alphabet`.
fn sequences(sink: &mut Sink, alphabet: &[&str], len: u32, f: &mut dyn FnMut(&mut Sink, &[&str])) {
  let mut seq = vec![];
  for n in 0..alphabet.len().pow(len) {
    if sink.stopped {
      return
    }
    let mut n = n;
    seq.clear();
    for _ in 0..len {
      seq.push(alphabet[n % alphabet.len()]);
      n /= alphabet.len();
    }
    if sink.mine() {
      f(sink, &seq);
    }
  }
}

const SPELLINGS: &[&str] = &[
  "a", "x1", "_", "u8", "u", "U", "L", "e5", "0", "1", "12", "0x1F", "017", "9u", "5ll", "1.5", ".5", "2.", "1e5", "3.f", "1e-3", "08", "1b", "0x", "\"s\"", "\"\\n\\\"\"",
  "\"\\xff\"", "u8\"t\"", "L\"w\"", "'c'", "'\\''", "L'c'", "u'\\x100'", "'\\\\'", "é", "\"é\"", "+", "-", "*", "/", "%", "<", ">", "=", "==", "<<", ">>", "!", "&", "&&", "|", "||", "^",
  "~", "?", ":", ";", "#", ".", "..", "...", "->", "++", "--", "[", "]", "{", "}", "<=", ">=", "+=", "<:", "%:", "%", "@", "$", "1.2.3", "1e", "u8'", "'é'", "if", "int",
];

impl P {
  fn gen_calls(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let alphabet = ["(", ")", ",", "[", "]", "{", "}", "a"];
    let fns = [
      func("F", &[], &["<", ">"]),
      func("F", &["p"], &["<", "p", ">"]),
      func("F", &["p", "q"], &["<", "q", "|", "p", ">"]),
      func("F", &["..."], &["<", "__VA_ARGS__", ">"]),
      func("F", &["p", "/* c */", "..."], &["<", "__VA_ARGS__", "|", "p", ">"]),
      func("F", &["p", "q", "..."], &["<", "__VA_ARGS__", "|", "q", "|", "p", ">"]),
    ];
    for len in 0..=if thorough { 6 } else { 4 } {
      sequences(sink, &alphabet, len, &mut |sink, seq| {
        for f in &fns {
          let mut body = vec!["F", "("];
          body.extend(seq);
          sink.own(&encode(&[f.clone(), var("T", &body)]));
        }
      });
    }
    let toks = ["(", ")", ",", "[", "]", "{", "}", "a", "1", "\"s\"", "\"(\"", "/* , */", "V", "F", "G", "H", "+", "x", "',' ", "','", "')'", "(", ")", ",", ";"];
    loop {
      let mut defs = vec![];
      for name in ["F", "G", "H"] {
        if rng.chance(3, 4) {
          let mut params = vec!["p", "q", "r"][..rng.below(4)].to_vec();
          if rng.chance(1, 8) {
            params.insert(rng.below(params.len() + 1), "/* c */");
          }
          if rng.chance(1, 3) {
            params.push("...");
          }
          let mut body = vec![];
          for _ in 0..rng.below(6) {
            match rng.below(6) {
              0 => body.push(*rng.pick(&toks)),
              1 if params.contains(&"...") || rng.chance(1, 20) => body.push("__VA_ARGS__"),
              2 | 3 => body.push(*rng.pick(&["p", "q", "r"])),
              4 => body.extend(["|", "p", "|"]),
              _ => {
                body.extend([*rng.pick(&["F", "G", "H"]), "("]);
                for i in 0..rng.below(4) {
                  if i > 0 {
                    body.push(",");
                  }
                  body.push(*rng.pick(&["p", "q", "r", "7", "(", ")", "__VA_ARGS__"]));
                }
                body.push(")");
              },
            }
          }
          if rng.chance(1, 30) {
            params.insert(0, *rng.pick(&["p", "...", "1", "q"]));
          }
          defs.push(func(name, &params, &body));
        }
      }
      if rng.chance(1, 2) {
        let mut body = vec![];
        for _ in 0..rng.below(4) {
          body.push(*rng.pick(&toks));
        }
        defs.push(var("V", &body));
      }
      let mut body = vec![];
      for _ in 0..1 + rng.below(2) {
        body.extend([*rng.pick(&["F", "G", "H"]), "("]);
        let mut stack = vec![")"];
        for _ in 0..rng.below(16) {
          if rng.chance(1, 30) {
            body.push(*rng.pick(&toks));
            continue
          }
          match rng.below(6) {
            0 => {
              let (o, c) = *rng.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
              body.push(o);
              stack.push(c);
            },
            1 if stack.len() > 1 => body.push(stack.pop().unwrap()),
            2 => body.push(","),
            _ => body.push(*rng.pick(&["a", "1", "+", "V", "F", "/* , */", "\"(\"", ",", "G", "b", "','"])),
          }
        }
        while let Some(c) = stack.pop() {
          if rng.chance(39, 40) {
            body.push(c);
          }
        }
        if rng.chance(1, 3) {
          body.push(*rng.pick(&toks));
        }
      }
      defs.push(var("T", &body));
      if !sink.own(&encode(&defs)) {
        return
      }
    }
  }

  fn gen_recursion(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let alphabet = ["A", "B", "(", ")", "x", ","];
    let (l1, l2) = if thorough { (3, 4) } else { (2, 3) };
    let mut first = vec![];
    for len in 0..=l1 {
      for n in 0..alphabet.len().pow(len) {
        let mut n = n;
        let mut s = vec![];
        for _ in 0..len {
          s.push(alphabet[n % alphabet.len()]);
          n /= alphabet.len();
        }
        first.push(s);
      }
    }
    for len in 0..=l2 {
      sequences(sink, &alphabet, len, &mut |sink, seq| {
        for f in &first {
          for kinds in 0..4 {
            let d = |n: &str, is_fn: bool, body: &[&str]| if is_fn { func(n, &["x"], body) } else { var(n, body) };
            if !sink.own(&encode(&[d("A", kinds & 1 == 1, f), d("B", kinds & 2 == 2, seq), var("T", &["A", "(", "B", ")", "(", "1", ")"])])) {
              return
            }
          }
        }
      });
    }
    let names = ["A", "B", "C", "D", "E"];
    loop {
      let mut defs = vec![];
      let n = 1 + rng.below(5);
      // Parentheses which are macros themselves.
      let parens = rng.chance(1, 3);
      if parens {
        defs.extend([var("L", &["("]), var("R", &[")"]), var("M", &[","])]);
      }
      for name in &names[..n] {
        let is_fn = rng.chance(1, 2);
        let mut params: Vec<&str> = if is_fn { vec!["x", "y"][..rng.below(3)].to_vec() } else { vec![] };
        let variadic = is_fn && rng.chance(1, 5);
        if variadic {
          params.push("...");
        }
        let mut body = vec![];
        for _ in 0..rng.below(7) {
          match rng.below(8) {
            0 if variadic => body.push("__VA_ARGS__"),
            5 if rng.chance(1, 3) => {
              // A call as argument of the same macro.
              let f = *rng.pick(&names);
              body.extend([f, "(", f, "(", *rng.pick(&["x", "1", "y"]), if rng.chance(1, 3) { "," } else { "+" }, "2", ")"]);
              if rng.chance(1, 2) {
                body.extend([",", "3"]);
              }
              body.push(")");
            },
            0 | 1 => body.push(*rng.pick(&names)),
            2 | 3 => {
              body.extend([*rng.pick(&names), "("]);
              for i in 0..rng.below(3) {
                if i > 0 {
                  body.push(",");
                }
                for _ in 0..rng.below(3) {
                  body.push(*rng.pick(&["x", "y", "1", "A", "B", "C", "D"]));
                }
              }
              body.push(if parens && rng.chance(1, 2) { "R" } else { ")" });
            },
            4 if parens => body.push(*rng.pick(&["L", "R", "M", "(", ")"])),
            4 => body.push(*rng.pick(&["(", ")", ",", "(", ")", "(1)", "/* c */"])),
            _ => body.push(*rng.pick(&["x", "y", "1", "+", "z"])),
          }
        }
        defs.push(if is_fn { func(name, &params, &body) } else { var(name, &body) });
      }
      if !sink.own(&encode(&defs)) {
        return
      }
    }
  }

  fn gen_stringify(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let set = |arg: &[&str]| {
      let mut t = vec!["S", "("];
      t.extend(arg);
      t.push(")");
      let mut u = vec!["X", "("];
      u.extend(arg);
      u.push(")");
      let mut w = vec!["W", "("];
      w.extend(arg);
      w.push(")");
      [
        func("S", &["p"], &["#", "p"]),
        func("X", &["p"], &["S", "(", "p", ")"]),
        func("V", &["..."], &["#", "__VA_ARGS__"]),
        func("W", &["..."], &["V", "(", "V", "(", "__VA_ARGS__", ")", ")"]),
        var("A", &["1", "+"]),
        var("T", &t),
        var("U", &u),
        var("Y", &w),
      ]
    };
    let some: Vec<&str> = vec!["a", "1", "+", ",", "(", ")", "[", "]", ".", "->", "\"s\\n\"", "'\"'", "/* c */", "A", "{", "}", "-", "1.5", "2.", ".5", "b", "#", "##", "==", "\\"];
    for s in SPELLINGS {
      sink.shared(&encode(&set(&[s])));
      for r in SPELLINGS {
        sink.shared(&encode(&set(&[s, r])));
      }
    }
    for len in 0..=if thorough { 4 } else { 3 } {
      sequences(sink, &some, len, &mut |sink, seq| {
        sink.own(&encode(&set(seq)));
      });
    }
    loop {
      let mut defs = vec![];
      for name in ["F", "G", "H"] {
        let mut params = vec!["p", "q"][..rng.below(3)].to_vec();
        if rng.chance(1, 3) {
          params.push("...");
        }
        let mut body = vec![];
        for _ in 0..1 + rng.below(5) {
          match rng.below(7) {
            0 => body.push(*rng.pick(SPELLINGS)),
            1 | 2 | 3 if !params.is_empty() => {
              body.push("#");
              if rng.chance(1, 10) {
                body.push("/* # */");
              }
              body.push(match *rng.pick(&params) {
                "..." => "__VA_ARGS__",
                p => p,
              });
            },
            4 if rng.chance(1, 10) => body.push("#"),
            4 => body.push(*rng.pick(&["p", "q"])),
            _ => {
              body.extend([*rng.pick(&["F", "G", "H"]), "("]);
              for i in 0..rng.below(3) {
                if i > 0 {
                  body.push(",");
                }
                for _ in 0..rng.below(4) {
                  body.push(*rng.pick(&["p", "q", "7", "+", "\"s\"", "/* c */", "x"]));
                }
              }
              body.push(")");
            },
          }
        }
        defs.push(func(name, &params, &body));
      }
      let mut body = vec![*rng.pick(&["F", "G", "H"]), "("];
      for i in 0..rng.below(4) {
        if i > 0 {
          body.push(",");
        }
        for _ in 0..rng.below(5) {
          body.push(if rng.chance(1, 2) { *rng.pick(SPELLINGS) } else { *rng.pick(&["a", "F", "G", "(", ")", "H", "/* c */", "V", "1"]) });
        }
      }
      body.push(")");
      defs.push(var("T", &body));
      defs.push(var("V", &["v", "+", "\"w\""]));
      if !sink.own(&encode(&defs)) {
        return
      }
    }
  }

  fn gen_paste(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    for a in SPELLINGS.iter().chain(["##", "/* c */", "A"].iter()) {
      for b in SPELLINGS.iter().chain(["##", "/* c */", "A"].iter()) {
        sink.shared(&encode(&[
          func("C", &["p", "q"], &["p", "##", "q"]),
          func("D", &["p", "q"], &["<", "C", "(", "p", ",", "q", ")", ">"]),
          var("A", &["b"]),
          var("T", &[a, "##", b]),
          var("U", &["C", "(", a, ",", b, ")"]),
          var("W", &["D", "(", a, ",", b, ")"]),
          var("X", &["x", a, "/* c */", "##", "/* d */", b, "y"]),
        ]));
        sink.shared(&encode(&[
          func("C", &["p", "q"], &["p", "/* c */", "##", "/* d */", "q", "##", "p"]),
          func("D", &["p"], &[a, "##", "/**/", "p", "##", b]),
          func("E", &["..."], &[a, "##", "__VA_ARGS__", "##", b]),
          var("A", &["b"]),
          var("T", &["C", "(", a, ",", b, ")"]),
          var("U", &["C", "(", ",", b, ")"]),
          var("V", &["C", "(", a, ",", ")"]),
          var("W", &["D", "(", ")"]),
          var("X", &["D", "(", "/**/", ")"]),
          var("Y", &["E", "(", a, ",", b, ")"]),
          var("Z", &["E", "(", ")", a]),
        ]));
      }
    }
    let mut alphabet = vec!["##", "a", "1", "p", "q", "/* c */", "+"];
    if thorough {
      alphabet.push("A");
    }
    for len in 0..=if thorough { 6 } else { 5 } {
      sequences(sink, &alphabet, len, &mut |sink, seq| {
        sink.own(&encode(&[
          func("F", &["p", "q"], seq),
          var("A", &["b", "##", "c"]),
          var("bc", &["d"]),
          var("a1", &["A"]),
          var("T", &["F", "(", "A", ",", ")"]),
          var("U", &["F", "(", "A", "A", ",", "+", "##", "a", ")"]),
        ]));
      });
    }
    loop {
      let mut defs = vec![];
      for name in ["F", "G", "H"] {
        let mut params = vec!["p", "q"][..rng.below(3)].to_vec();
        if rng.chance(1, 3) {
          params.push("...");
        }
        let mut body = vec![];
        let operand = |rng: &mut Rng, body: &mut Vec<&str>| match rng.below(4) {
          0 => body.push(*rng.pick(SPELLINGS)),
          1 => body.push(*rng.pick(&["a", "1", "F", "G", "x"])),
          _ => body.push(*rng.pick(&["p", "q", "p", "__VA_ARGS__"])),
        };
        for _ in 0..1 + rng.below(4) {
          match rng.below(5) {
            0 => operand(rng, &mut body),
            1 => {
              body.extend([*rng.pick(&["F", "G", "H"]), "("]);
              for i in 0..rng.below(3) {
                if i > 0 {
                  body.push(",");
                }
                for _ in 0..rng.below(3) {
                  body.push(*rng.pick(&["p", "q", "7", "x", "b", "##"]));
                }
              }
              body.push(")");
            },
            _ => {
              operand(rng, &mut body);
              for _ in 0..1 + rng.below(2) {
                if rng.chance(1, 6) {
                  body.push("/* c */");
                }
                body.push("##");
                if rng.chance(1, 6) {
                  body.push("/* d */");
                }
                operand(rng, &mut body);
              }
            },
          }
        }
        if rng.chance(1, 15) {
          body.push("##");
        }
        if rng.chance(1, 15) {
          body.insert(0, "##");
        }
        if !params.contains(&"...") {
          body.iter_mut().for_each(|t| {
            if *t == "__VA_ARGS__" {
              *t = "z";
            }
          });
        }
        defs.push(func(name, &params, &body));
      }
      let mut body = vec![*rng.pick(&["F", "G", "H"]), "("];
      for i in 0..rng.below(4) {
        if i > 0 {
          body.push(",");
        }
        for _ in 0..rng.below(3) {
          body.push(if rng.chance(1, 3) { *rng.pick(SPELLINGS) } else { *rng.pick(&["a", "F", "G", "##", "ab", "A", "1", "2", "/* e */"]) });
        }
      }
      body.push(")");
      defs.push(var("T", &body));
      defs.push(var("A", &["b", "##", "c"]));
      defs.push(var("ab", &["F"]));
      if !sink.own(&encode(&defs)) {
        return
      }
    }
  }
}

impl Property for P {
  fn id(&self) -> &'static str {
    match self.0 {
      Calls => "P07",
      Recursion => "P08",
      Stringify => "P09",
      Paste => "P10",
    }
  }
  fn rule(&self) -> &'static str {
    match self.0 {
      Calls => "six parameter lists with all argument token sequences of up to 4 (thorough: 6) tokens out of brackets, comma and a name; then random sets of function-like macros with nested calls, comments, missing brackets and wrong numbers of arguments; every macro of the set is expanded and compared with the reference preprocessor",
      Recursion => "all pairs of macros (either kind) with bodies of up to 2 and 3 (thorough: 3 and 4) tokens out of both names, brackets, comma and a parameter; then random sets of up to five mutually recursive macros, partly with macros for parentheses and commas; every macro is expanded and compared with the reference preprocessor",
      Stringify => "all arguments of one and two tokens out of 80 spellings, all of up to 3 (thorough: 4) out of 23 directly and through other macros; then random sets of macros with `#`; every macro is expanded and compared with the reference preprocessor",
      Paste => "all pairs out of 80 spellings pasted directly, as arguments, with comments and with empty arguments; all bodies of up to 5 (thorough: 6) tokens out of `##`, names, parameters, comments; then random sets of macros with `##`; every macro is expanded and compared with the reference preprocessor",
    }
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    match self.0 {
      Calls => self.gen_calls(thorough, rng, sink),
      Recursion => self.gen_recursion(thorough, rng, sink),
      Stringify => self.gen_stringify(thorough, rng, sink),
      Paste => self.gen_paste(thorough, rng, sink),
    }
  }

  fn eval(&self, case: &str) -> Outcome {
    let list: Vec<D> = serde_json::from_str(case).expect("macro definitions");
    let mut defs = Defs::new();
    let mut set = MacroSet::new();
    for (name, params, body) in &list {
      if name.is_empty() {
        return Ok("-invalid")
      }
      match params {
        None => {
          set.define_var_macro(name, body);
          defs.insert(name.clone(), Def::Var(body.clone()));
        },
        Some(p) => {
          set.define_fn_macro(name, p, body);
          defs.insert(name.clone(), Def::Fn(p.clone(), body.clone()));
        },
      }
    }
    let mut tag = "-nothing decided";
    let mut rank = 0;
    let mut better = |t: &'static str, r: usize| {
      if r > rank {
        tag = t;
        rank = r;
      }
    };
    for (name, params, _) in &list {
      let mut pp = Pp::new(&defs);
      let want = match params {
        None => pp.var(name),
        Some(_) => pp.func(name),
      };
      if let Err(E::Skip(_)) = want {
        continue
      }
      let show = || {
        list
          .iter()
          .map(|(n, p, b)| match p {
            None => format!("#define {n} {}", b.join(" ")),
            Some(p) => format!("#define {n}({}) {}", p.join(", "), b.join(" ")),
          })
          .collect::<Vec<_>>()
          .join("\n")
      };
      let got = panic::catch_unwind(panic::AssertUnwindSafe(|| match params {
        None => set.expand_var_macro(name).map(|t| (vec![], t)),
        Some(_) => set.expand_fn_macro(name),
      }));
      let Ok(got) = got else { return Err(format!("expanding {name} panics in\n{}", show())) };
      let variadic_index = params.iter().flatten().filter(|p| crate::lexref::comment(p).is_none()).count().wrapping_sub(1);
      let calls = pp.calls;
      match (&want, &got) {
        (Err(E::Arity { name: n, required, given }), Err(ExpansionError::FnMacroArgumentError { name: gn, required: gr, given: gg })) => {
          if n != gn || required != gr || given != gg {
            return Err(format!("expanding {name} reports {:?} instead of {:?} in\n{}", got, want, show()))
          }
          better("argument error", 3);
        },
        (Err(E::Arity { .. }), Err(e)) => return Err(format!("expanding {name} reports {e:?} instead of {:?} in\n{}", want, show())),
        (Err(_), Err(ExpansionError::FnMacroArgumentError { .. })) => return Err(format!("expanding {name} reports {got:?} instead of {:?} in\n{}", want, show())),
        (Err(_), Err(_)) => better("error", 3),
        (Ok(want), Ok((_, got))) => {
          if want.len() != got.len() || !want.iter().zip(got).all(|(w, g)| same_token(w, g, variadic_index)) {
            let w: Vec<String> = want
              .iter()
              .map(|t| match &t.k {
                K::Str(_) => format!("{:?}", t.k),
                _ => t.s.clone(),
              })
              .collect();
            return Err(format!("expanding {name} gives {got:?}, expected {} in\n{}", w.join(" "), show()))
          }
          match self.0 {
            Calls if pp.no_calls > 0 => better("not a call", 4),
            Calls if calls > 0 => better("call", 2),
            Recursion if pp.blocked > 0 => better("recursion", 4),
            Recursion if calls > 0 => better("expanded", 2),
            Stringify if pp.strings > 0 && pp.deferred > 0 => better("deferred string", 5),
            Stringify if pp.strings > 0 => better("string", 4),
            Paste if pp.pastes > 0 => better("pasted", 4),
            Paste if pp.deferred > 0 => better("deferred paste", 2),
            _ => (),
          }
        },
        _ => return Err(format!("expanding {name} gives {got:?}, expected {want:?} in\n{}", show())),
      }
    }
    Ok(tag)
  }
}

use crate::pp::same as same_token;

use std::collections::HashMap;

use cmacro::{ExpansionError, MacroArg, MacroSet, MacroToken};

use crate::{common::*, lexref};

pub struct P;

#[derive(Clone, PartialEq)]
enum Def {
  Var(Vec<String>),
  Fn(Vec<String>, Vec<String>),
}

const NAMES: &[&str] = &["A", "B", "A B", "", "é", "a", "AA"];
const BODY: &[&str] = &["x", "y", "1", "+", "/* c */", "/* d */", " ", "\t\n", "", "// e", "\"s\"", " /* c */ "];
const ARGS: &[&str] = &["p", "q", "r", "/* c */", "/* d */", "..."];

fn insignificant(s: &str) -> bool {
  let s = s.trim();
  s.is_empty() || s.starts_with("//") || s.starts_with("/*") && s.ends_with("*/")
}

fn same(a: &[String], b: &[String]) -> bool {
  let f = |v: &[String]| v.iter().filter(|t| !insignificant(t)).cloned().collect::<Vec<_>>();
  f(a) == f(b)
}

/// Operations: `["v", name, body...]`, `["f", name, number of parameters, parameters..., body...]`, `["uv", name]`, `["uf", name]`.
fn op(rng: &mut Rng) -> Vec<String> {
  let name = if rng.chance(5, 6) { NAMES[rng.below(2)] } else { *rng.pick(NAMES) };
  let body = |rng: &mut Rng| -> Vec<String> { (0..rng.below(4)).map(|_| if rng.chance(2, 3) { BODY[rng.below(6)] } else { *rng.pick(BODY) }.to_string()).collect() };
  match rng.below(6) {
    0 => vec!["uv".into(), name.into()],
    1 => vec!["uf".into(), name.into()],
    2 | 3 => {
      let mut v = vec!["v".to_string(), name.into()];
      v.extend(body(rng));
      v
    },
    _ => {
      let args: Vec<String> = match rng.below(6) {
        0 => vec![],
        1 => vec!["p".into()],
        2 => vec!["p".into(), "q".into()],
        3 => vec!["p".into(), "/* c */".into()],
        4 => vec!["q".into()],
        _ => (0..rng.below(4)).map(|_| rng.pick(ARGS).to_string()).collect(),
      };
      let mut v = vec!["f".to_string(), name.into(), args.len().to_string()];
      v.extend(args);
      v.extend(body(rng));
      v
    },
  }
}

fn encode(ops: &[Vec<String>]) -> String {
  serde_json::to_string(&ops.to_vec()).unwrap()
}

/// What a token of a definition is expanded to.
fn check_tokens(toks: &[String], params: &[String], got: &[MacroToken]) -> Result<(), String> {
  if toks.len() != got.len() {
    return Err(format!("{} tokens instead of {}", got.len(), toks.len()))
  }
  let params: Vec<&String> = params.iter().filter(|p| lexref::comment(p).is_none()).collect();
  for (t, g) in toks.iter().zip(got) {
    let ok = match g {
      MacroToken::Arg(a) => params.iter().position(|p| *p == t).is_some_and(|i| MacroArg::new(i) == *a),
      MacroToken::Identifier(i) => lexref::ident(t).is_some_and(|t| t == i.as_str()) && !params.contains(&t),
      MacroToken::Lit(l) => cmacro::Lit::try_from(t.as_str()).as_ref() == Ok(l),
      MacroToken::Punctuation(p) => lexref::punct(t).is_some_and(|t| *p == t),
      MacroToken::Comment(c) => cmacro::Comment::try_from(t.as_str()).as_ref() == Ok(c),
      _ => false,
    };
    if !ok {
      return Err(format!("{g:?} instead of {t:?}"))
    }
  }
  Ok(())
}

fn invalid(t: &str) -> bool {
  !(lexref::ident(t).is_some() || lexref::is_lit(t) || lexref::punct(t).is_some() || lexref::comment(t).is_some())
}

fn lookup(set: &MacroSet, name: &str, def: Option<&Def>) -> Result<(), String> {
  let v = set.expand_var_macro(name);
  let f = set.expand_fn_macro(name);
  let fail = |what: String| Err(format!("looking up {name:?}: {what}; expand_var_macro gives {v:?}, expand_fn_macro gives {f:?}"));
  match def {
    None => {
      if v != Err(ExpansionError::MacroNotFound) || f != Err(ExpansionError::MacroNotFound) {
        return fail("it is not defined".into())
      }
    },
    Some(Def::Var(body)) => {
      if f != Err(ExpansionError::MacroNotFound) {
        return fail("it is a variable-like macro".into())
      }
      match &v {
        Ok(got) => {
          if let Err(e) = check_tokens(body, &[], got) {
            return fail(e)
          }
        },
        Err(ExpansionError::InvalidToken(t)) if body.contains(t) && invalid(t) => (),
        Err(_) => return fail(format!("its body is {body:?}")),
      }
    },
    Some(Def::Fn(params, body)) => {
      if v != Err(ExpansionError::MacroNotFound) {
        return fail("it is a function-like macro".into())
      }
      let names: Vec<&String> = params.iter().filter(|p| lexref::comment(p).is_none()).collect();
      let bad_params = (0..names.len()).any(|i| names[i + 1..].contains(&names[i]) || names[i] == "..." && i + 1 < names.len());
      match &f {
        Ok((got_params, got)) if !bad_params => {
          if let Err(e) = check_tokens(params, &[], got_params).and_then(|_| check_tokens(body, params, got)) {
            return fail(e)
          }
        },
        Err(ExpansionError::InvalidToken(t)) if !bad_params && body.contains(t) && invalid(t) => (),
        Err(ExpansionError::NonUniqueArgument(_) | ExpansionError::InvalidArgumentName) if bad_params => (),
        _ => return fail(format!("its parameters are {params:?} and its body is {body:?}")),
      }
    },
  }
  Ok(())
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P06"
  }
  fn rule(&self) -> &'static str {
    "all histories of up to 3 (thorough: 4) operations over one name and 14 operations of all kinds, then random histories of up to 14 operations over 7 names with bodies and parameter lists containing whitespace and comment tokens; every name is looked up after every operation and the returned flags are compared with a map"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let ops = [
      s(&["uv", "A"]),
      s(&["uf", "A"]),
      s(&["v", "A"]),
      s(&["v", "A", "x"]),
      s(&["v", "A", "x", "/* c */"]),
      s(&["v", "A", "x", "+", "y"]),
      s(&["v", "A", "/* x */", "x"]),
      s(&["f", "A", "0", "x"]),
      s(&["f", "A", "1", "p", "x"]),
      s(&["f", "A", "1", "p"]),
      s(&["f", "A", "2", "p", "/* c */", "x", "/* d */"]),
      s(&["f", "A", "2", "p", "q", "x"]),
      s(&["f", "A", "1", "q", "x"]),
      s(&["f", "A", "2", "p", "...", "x", "y"]),
      s(&["v", "B", "y"]),
      s(&["uv", "B"]),
    ];
    let max = if thorough { 4 } else { 3 };
    for len in 1..=max {
      for n in 0..ops.len().pow(len) {
        if sink.mine() {
          let mut n = n;
          let mut h = vec![];
          for _ in 0..len {
            h.push(ops[n % ops.len()].clone());
            n /= ops.len();
          }
          if !sink.own(&encode(&h)) {
            return
          }
        }
      }
    }
    loop {
      let n = 1 + rng.below(14);
      let mut h: Vec<Vec<String>> = vec![];
      for _ in 0..n {
        if !h.is_empty() && rng.chance(1, 3) {
          // Repeat an earlier operation with a small change.
          let mut o = rng.pick(&h).clone();
          if rng.chance(1, 2) && o[0] != "f" && o[0].len() == 1 {
            o.push(rng.pick(BODY).to_string());
          } else if rng.chance(1, 2) && o.len() > 4 {
            o.pop();
            if o[0] == "f" && o.len() < 3 + o[2].parse::<usize>().unwrap() {
              o[2] = (o.len() - 3).to_string();
            }
          }
          h.push(o);
        } else {
          h.push(op(rng));
        }
      }
      if !sink.own(&encode(&h)) {
        return
      }
    }
  }
  fn eval(&self, case: &str) -> Outcome {
    let ops: Vec<Vec<String>> = serde_json::from_str(case).expect("history");
    let mut set = MacroSet::new();
    let mut model: HashMap<String, Def> = HashMap::new();
    for (i, o) in ops.iter().enumerate() {
      let name = o[1].clone();
      let (got, want) = match o[0].as_str() {
        "uv" => {
          let had = matches!(model.get(&name), Some(Def::Var(_)));
          if had {
            model.remove(&name);
          }
          (set.undefine_var_macro(&name), had)
        },
        "uf" => {
          let had = matches!(model.get(&name), Some(Def::Fn(..)));
          if had {
            model.remove(&name);
          }
          (set.undefine_fn_macro(&name), had)
        },
        "v" => {
          let body = o[2..].to_vec();
          let want = match model.get(&name) {
            None => false,
            Some(Def::Var(b)) => !same(b, &body),
            Some(Def::Fn(..)) => true,
          };
          model.insert(name.clone(), Def::Var(body.clone()));
          (set.define_var_macro(&name, &body), want)
        },
        _ => {
          let n: usize = o[2].parse().unwrap();
          let (params, body) = (o[3..3 + n].to_vec(), o[3 + n..].to_vec());
          let want = match model.get(&name) {
            None => false,
            Some(Def::Fn(p, b)) => !(same(p, &params) && same(b, &body)),
            Some(Def::Var(..)) => true,
          };
          model.insert(name.clone(), Def::Fn(params.clone(), body.clone()));
          (set.define_fn_macro(&name, &params, &body), want)
        },
      };
      if got != want {
        return Err(format!("operation {i} ({o:?}) of {ops:?} returns {got}, expected {want}"))
      }
      for n in NAMES {
        lookup(&set, n, model.get(*n)).map_err(|e| format!("after operation {i} of {ops:?}: {e}"))?;
      }
    }
    Ok("history")
  }
}

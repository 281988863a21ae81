use cmacro::{Lit, LitInt};

use crate::{common::*, lexref};

pub struct P;

fn digits(rng: &mut Rng, set: &str, n: usize) -> String {
  let set: Vec<char> = set.chars().collect();
  (0..n).map(|_| *rng.pick(&set)).collect()
}

impl Property for P {
  fn id(&self) -> &'static str {
    "P01"
  }
  fn rule(&self) -> &'static str {
    "all strings of up to 4 (thorough: 5) characters over 01279afxXbBuUlLzZ.eE-+ plus all suffix spellings on a set of digit strings (boundaries of 2^127 in all bases included), then random digit strings with random suffixes and mutations"
  }
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink) {
    const ALPHA: &[u8] = b"01279afxXbBuUlLzZ.eE-";
    let max = if thorough { 5 } else { 4 };
    for len in 0..=max {
      let mut idx = vec![0usize; len];
      'strings: loop {
        if sink.mine() {
          let s: String = idx.iter().map(|i| ALPHA[*i] as char).collect();
          if !sink.own(&s) {
            return
          }
        }
        let mut p = len;
        loop {
          if p == 0 {
            break 'strings
          }
          p -= 1;
          idx[p] += 1;
          if idx[p] < ALPHA.len() {
            break
          }
          idx[p] = 0;
        }
      }
    }
    let max = i128::MAX as u128;
    let mut nums = vec![];
    for v in [0u128, 1, 7, 8, 9, 10, 15, 16, 255, 65535, 1 << 31, 1 << 32, u64::MAX as u128, max - 1, max, max + 1, max + 2, u128::MAX] {
      nums.extend([format!("{v}"), format!("0{v:o}"), format!("00{v:o}"), format!("0x{v:x}"), format!("0X{v:X}"), format!("0b{v:b}"), format!("0B{v:b}"), format!("0x000{v:x}")]);
    }
    nums.push(format!("{}0", max));
    nums.push(format!("1{}", "0".repeat(60)));
    nums.push(format!("0x1{}", "0".repeat(60)));
    nums.push(format!("{}1", "0".repeat(90)));
    nums.push(format!("0x{}1", "0".repeat(90)));
    let mut sfx = vec![String::new()];
    for len in 1..=3 {
      for n in 0..6usize.pow(len) {
        let mut n = n;
        let mut s = String::new();
        for _ in 0..len {
          s.push(b"uUlLzZ"[n % 6] as char);
          n /= 6;
        }
        sfx.push(s);
      }
    }
    sfx.extend(["ulll", "llul", "i64", "_", "'", " ", "f", "F", "\u{661}"].map(String::from));
    for n in &nums {
      for s in &sfx {
        sink.shared(&format!("{n}{s}"));
      }
    }
    loop {
      let mut s = match rng.below(5) {
        0 => { let n = rng.below(42); digits(rng, "0123456789", n) },
        1 => { let n = rng.below(46); format!("0{}", digits(rng, "01234567", n)) },
        2 => { let n = rng.below(36); format!("0{}{}", rng.pick(&["x", "X"]), digits(rng, "0123456789abcdefABCDEF", n)) },
        3 => { let n = rng.below(132); format!("0{}{}", rng.pick(&["b", "B"]), digits(rng, "01", n)) },
        _ => { let n = rng.below(8); digits(rng, "0123456789abcdefxXuUlL", n) },
      };
      let sf = rng.pick(&sfx).clone();
      s.push_str(&sf);
      if rng.chance(1, 8) && !s.is_empty() {
        let mut c: Vec<char> = s.chars().collect();
        let at = rng.below(c.len());
        c[at] = *rng.pick(&['8', '9', 'g', '.', 'e', '-', 'u', 'L', '\u{663}', 'x', '0', '2']);
        s = c.into_iter().collect();
      }
      if !sink.own(&s) {
        return
      }
    }
  }
  fn eval(&self, s: &str) -> Outcome {
    let want = lexref::int(s);
    let got = LitInt::try_from(s).ok();
    match (&want, &got) {
      (None, None) => (),
      (Some((v, sfx)), Some(l)) if l.value == *v && l.suffix == *sfx => (),
      _ => return Err(format!("LitInt::try_from({s:?}) is {got:?}, expected {want:?}")),
    }
    let lit = Lit::try_from(s).ok();
    match (&want, &lit) {
      (None, Some(Lit::Int(l))) => return Err(format!("Lit::try_from({s:?}) is {l:?}, expected no integer")),
      (None, _) => Ok("rejected"),
      (Some((v, sfx)), Some(Lit::Int(l))) if l.value == *v && l.suffix == *sfx => Ok("accepted"),
      _ => Err(format!("Lit::try_from({s:?}) is {lit:?}, expected {want:?}")),
    }
  }
}

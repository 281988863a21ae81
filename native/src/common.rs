//! Infrastructure shared by all properties: cases, random numbers, statistics.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

/// Outcome of evaluating one case: `Ok(tag)`, where tags starting with `-`
/// are trivial (nothing was decided about the case), or `Err(what failed)`.
pub type Outcome = Result<&'static str, String>;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: usize) -> usize {
    (self.next() % n as u64) as usize
  }
  pub fn chance(&mut self, num: usize, den: usize) -> bool {
    self.below(den) < num
  }
  pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
    &s[self.below(s.len())]
  }
}

/// Receives generated cases. Exhaustive enumerations are divided between shards.
pub struct Sink<'a> {
  pub shard: usize,
  pub shards: usize,
  pub index: u64,
  pub run: &'a mut dyn FnMut(&str) -> bool,
  pub stopped: bool,
}

impl Sink<'_> {
  /// Case of an enumeration which is the same in all shards.
  pub fn shared(&mut self, case: &str) -> bool {
    let i = self.index;
    self.index += 1;
    if i % self.shards as u64 == self.shard as u64 {
      self.own(case)
    } else {
      !self.stopped
    }
  }
  pub fn mine(&mut self) -> bool {
    let i = self.index;
    self.index += 1;
    i % self.shards as u64 == self.shard as u64
  }
  /// Case of this shard only.
  pub fn own(&mut self, case: &str) -> bool {
    if !self.stopped {
      self.stopped = !(self.run)(case);
    }
    !self.stopped
  }
}

pub struct Stats {
  pub evaluations: u64,
  pub tags: BTreeMap<&'static str, u64>,
  pub distinct: HashSet<u64>,
  pub samples: Vec<String>,
}

impl Stats {
  pub fn new() -> Self {
    Stats { evaluations: 0, tags: BTreeMap::new(), distinct: HashSet::new(), samples: vec![] }
  }
  pub fn add(&mut self, case: &str, tag: &'static str) {
    self.evaluations += 1;
    let n = self.tags.entry(tag).or_default();
    *n += 1;
    if !tag.starts_with('-') {
      if *n <= 2 {
        self.samples.push(format!("{tag}: {}", case.chars().take(300).collect::<String>()));
      }
      if self.distinct.len() < 2_000_000 {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        case.hash(&mut h);
        self.distinct.insert(h.finish());
      }
    }
  }
}

pub trait Property: Sync {
  fn id(&self) -> &'static str;
  /// What the cases are and how they are chosen.
  fn rule(&self) -> &'static str;
  /// Exhaustive part, always run to its end, then random cases until the sink stops.
  fn generate(&self, thorough: bool, rng: &mut Rng, sink: &mut Sink);
  fn eval(&self, case: &str) -> Outcome;
}

pub fn enc(toks: &[impl AsRef<str>]) -> String {
  serde_json::Value::Array(toks.iter().map(|t| serde_json::Value::String(t.as_ref().into())).collect()).to_string()
}
pub fn dec(case: &str) -> Vec<String> {
  serde_json::from_str::<Vec<String>>(case).expect("case is a JSON array of strings")
}

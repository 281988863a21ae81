//! Runs the properties of `/verif/properties.jsonl` on many inputs of the real code.
//!
//! `native run <id> --tier quick|thorough --seed N --seconds S [--out FILE]`
//! `native replay <id> <file>`
mod common;
mod lexref;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p07;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod pp;
mod tree;

use std::{
  fs,
  io::Write,
  os::unix::fs::FileExt,
  panic,
  path::Path,
  process::{exit, Command, Stdio},
  sync::atomic::{AtomicU64, Ordering},
  time::{Duration, Instant},
};

use common::*;

fn property(id: &str) -> Option<Box<dyn Property + Send>> {
  Some(match id {
    "P01" => Box::new(p01::P),
    "P02" => Box::new(p02::P),
    "P03" => Box::new(p03::P),
    "P04" => Box::new(p04::P),
    "P05" => Box::new(p05::P),
    "P06" => Box::new(p06::P),
    "P07" => Box::new(p07::P(p07::Profile::Calls)),
    "P08" => Box::new(p07::P(p07::Profile::Recursion)),
    "P09" => Box::new(p07::P(p07::Profile::Stringify)),
    "P10" => Box::new(p07::P(p07::Profile::Paste)),
    "P11" => Box::new(p11::P),
    "P12" => Box::new(p12::P),
    "P13" => Box::new(p13::P),
    "P14" => Box::new(p14::P),
    "P15" => Box::new(p15::P),
    "P16" => Box::new(p16::P),
    "P17" => Box::new(p17::P),
    "P18" => Box::new(p18::P),
    _ => return None,
  })
}

/// Time in milliseconds at which the evaluation of the current case started, 0 if none.
static STARTED: AtomicU64 = AtomicU64::new(0);
const CASE_LIMIT_MS: u64 = 20_000;
const EXIT_TIMEOUT: i32 = 3;

/// Evaluate, with panics as violations.
fn eval(p: &dyn Property, case: &str) -> Outcome {
  match panic::catch_unwind(panic::AssertUnwindSafe(|| p.eval(case))) {
    Ok(o) => o,
    Err(e) => {
      let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
      Err(format!("panic: {msg}"))
    },
  }
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
  std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or_else(|_| exit(4))
}

fn limit_memory() {
  let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
  unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}

fn watchdog() {
  std::thread::spawn(|| {
    let t0 = Instant::now();
    let mut seen = (0, t0);
    loop {
      std::thread::sleep(Duration::from_millis(200));
      let n = STARTED.load(Ordering::Relaxed);
      if n == 0 || n != seen.0 {
        seen = (n, Instant::now());
      } else if seen.1.elapsed().as_millis() as u64 > CASE_LIMIT_MS {
        exit(EXIT_TIMEOUT);
      }
    }
  });
}

fn write_case(file: &fs::File, case: &str) {
  let mut b = (case.len() as u32).to_le_bytes().to_vec();
  b.extend_from_slice(case.as_bytes());
  let _ = file.write_at(&b, 0);
}

fn read_case(path: &Path) -> Option<String> {
  let b = fs::read(path).ok()?;
  let n = u32::from_le_bytes(b.get(..4)?.try_into().ok()?) as usize;
  String::from_utf8(b.get(4..4 + n)?.to_vec()).ok()
}

fn arg(args: &[String], name: &str) -> Option<String> {
  args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

/// Worker: prints a JSON report.
fn work(id: String, thorough: bool, seed: u64, seconds: f64, shard: usize, shards: usize, current: String) {
  limit_memory();
  watchdog();
  panic::set_hook(Box::new(|_| {}));
  let report = big_stack(move || {
    let p = property(&id).unwrap();
    let file = fs::File::create(&current).expect("scratch file");
    let mut stats = Stats::new();
    let mut violation = None;
    let start = Instant::now();
    let mut count = 0u64;
    {
      let mut run = |case: &str| -> bool {
        write_case(&file, case);
        count += 1;
        STARTED.store(count, Ordering::Relaxed);
        let r = eval(&*p, case);
        STARTED.store(0, Ordering::Relaxed);
        match r {
          Ok(tag) => stats.add(case, tag),
          Err(e) => {
            violation = Some((case.to_string(), e));
            return false
          },
        }
        start.elapsed().as_secs_f64() < seconds
      };
      let mut sink = Sink { shard, shards, index: 0, run: &mut run, stopped: false };
      let mut rng = Rng::new(seed.wrapping_mul(1000).wrapping_add(shard as u64));
      p.generate(thorough, &mut rng, &mut sink);
    }
    serde_json::json!({
      "evaluations": stats.evaluations, "distinct": stats.distinct.len(), "tags": stats.tags, "samples": stats.samples,
      "violation": violation.map(|(c, e)| serde_json::json!({"case": c, "reason": e})),
    })
  });
  println!("{report}");
  let _ = std::io::stdout().flush();
  exit(0);
}

fn run(args: &[String]) -> i32 {
  let id = args[0].clone();
  let Some(p) = property(&id) else {
    eprintln!("unknown property {id}");
    return 2
  };
  let tier = arg(args, "--tier").unwrap_or("quick".into());
  let seed = arg(args, "--seed").unwrap_or("1".into());
  let seconds = arg(args, "--seconds").unwrap_or(if tier == "quick" { "30" } else { "300" }.into());
  let shards = arg(args, "--shards").and_then(|s| s.parse().ok()).unwrap_or(8usize);
  let dir = std::env::temp_dir().join(format!("native-{}-{id}", std::process::id()));
  fs::create_dir_all(&dir).expect("scratch directory");
  let exe = std::env::current_exe().unwrap();
  let start = Instant::now();
  let children: Vec<_> = (0..shards)
    .map(|i| {
      let current = dir.join(format!("{i}"));
      let child = Command::new(&exe)
        .args(["work", &id, &tier, &seed, &seconds, &i.to_string(), &shards.to_string()])
        .arg(&current)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("worker");
      (child, current)
    })
    .collect();
  let mut evaluations = 0;
  let mut distinct = 0;
  let mut tags = std::collections::BTreeMap::<String, u64>::new();
  let mut samples = vec![];
  let mut violation: Option<(String, String)> = None;
  let mut lost = 0;
  for (child, current) in children {
    let out = child.wait_with_output().expect("worker output");
    match serde_json::from_slice::<serde_json::Value>(&out.stdout) {
      Ok(v) if out.status.success() => {
        evaluations += v["evaluations"].as_u64().unwrap_or(0);
        distinct += v["distinct"].as_u64().unwrap_or(0);
        for (k, n) in v["tags"].as_object().into_iter().flatten() {
          *tags.entry(k.clone()).or_default() += n.as_u64().unwrap_or(0);
        }
        if samples.len() < 12 {
          samples.extend(v["samples"].as_array().into_iter().flatten().take(12 - samples.len()).cloned());
        }
        if violation.is_none() && !v["violation"].is_null() {
          violation = Some((v["violation"]["case"].as_str().unwrap_or("").into(), v["violation"]["reason"].as_str().unwrap_or("").into()));
        }
      },
      _ => {
        // The process ended while it evaluated a case: confirm that this case is to blame.
        match read_case(&current) {
          Some(case) => {
            if violation.is_none() {
              if let Some(reason) = confirm(&id, &case) {
                violation = Some((case, reason));
                continue
              }
            }
            lost += 1;
          },
          None => lost += 1,
        }
      },
    }
  }
  let _ = fs::remove_dir_all(&dir);
  if let Some((case, reason)) = &mut violation {
    if let Some(smaller) = minimize(&id, case, reason) {
      violation = Some(smaller);
    }
  }
  let report = serde_json::json!({
    "property": id, "tier": tier, "rule": p.rule(), "evaluations": evaluations, "distinct_nontrivial": distinct, "tags": tags, "samples": samples,
    "lost_workers": lost, "wall_s": start.elapsed().as_secs_f64(),
    "violation": violation.as_ref().map(|(c, e)| serde_json::json!({"case": c, "reason": e})),
  });
  if let Some(f) = arg(args, "--out") {
    fs::write(f, serde_json::to_string_pretty(&report).unwrap()).expect("report");
  } else {
    println!("{}", serde_json::to_string_pretty(&report).unwrap());
  }
  if violation.is_some() { 1 } else { 0 }
}

/// Evaluate one case in a process of its own.
fn confirm(id: &str, case: &str) -> Option<String> {
  let path = std::env::temp_dir().join(format!("native-case-{}", std::process::id()));
  fs::write(&path, case).ok()?;
  let out = Command::new(std::env::current_exe().ok()?).arg("replay").arg(id).arg(&path).stdin(Stdio::null()).stderr(Stdio::null()).output().ok()?;
  let _ = fs::remove_file(&path);
  match out.status.code() {
    Some(0) | Some(2) => None,
    Some(1) => Some(String::from_utf8_lossy(&out.stdout).trim().to_string()),
    Some(EXIT_TIMEOUT) => Some("does not terminate".into()),
    c => Some(format!("the process is ended: {c:?} {:?}", out.status)),
  }
}

/// Remove parts of a case as long as it is still a violation.
fn minimize(id: &str, case: &str, reason: &str) -> Option<(String, String)> {
  let deadline = Instant::now() + Duration::from_secs(20);
  let mut best: Option<(String, String)> = None;
  let mut cur = case.to_string();
  let first = reason;
  let mut budget = 300;
  'outer: loop {
    for cand in smaller(&cur) {
      if budget == 0 || Instant::now() > deadline {
        break 'outer
      }
      budget -= 1;
      if let Some(reason) = confirm(id, &cand) {
        if reason.starts_with("the process is ended") || reason.starts_with("does not") || reason.starts_with("panic: ") && !first.starts_with("panic: ") {
          continue
        }
        cur = cand.clone();
        best = Some((cand, reason));
        continue 'outer
      }
    }
    break
  }
  best
}

fn smaller(case: &str) -> Vec<String> {
  fn rec(v: &serde_json::Value, out: &mut Vec<serde_json::Value>) {
    if let serde_json::Value::Array(a) = v {
      for i in 0..a.len() {
        let mut b = a.clone();
        b.remove(i);
        out.push(serde_json::Value::Array(b));
      }
      for i in 0..a.len() {
        let mut inner = vec![];
        rec(&a[i], &mut inner);
        for x in inner {
          let mut b = a.clone();
          b[i] = x;
          out.push(serde_json::Value::Array(b));
        }
      }
    }
  }
  match serde_json::from_str::<serde_json::Value>(case) {
    Ok(v @ serde_json::Value::Array(_)) => {
      let mut out = vec![];
      rec(&v, &mut out);
      out.into_iter().map(|v| v.to_string()).collect()
    },
    _ => {
      let c: Vec<char> = case.chars().collect();
      (0..c.len()).map(|i| c.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect()).collect()
    },
  }
}

fn replay(id: &str, path: &str) -> i32 {
  let Some(p) = property(id) else { return 2 };
  let Ok(text) = fs::read_to_string(path) else { return 2 };
  // A replay file is JSON with the case in it, or the case alone.
  let case = match serde_json::from_str::<serde_json::Value>(&text) {
    Ok(serde_json::Value::Object(o)) => match o.get("case").and_then(|c| c.as_str()) {
      Some(c) => c.to_string(),
      None => return 2,
    },
    _ => text,
  };
  limit_memory();
  watchdog();
  panic::set_hook(Box::new(|_| {}));
  STARTED.store(1, Ordering::Relaxed);
  match big_stack(move || eval(&*p, &case)) {
    Ok(tag) => {
      println!("ok: {tag}");
      0
    },
    Err(e) => {
      println!("{e}");
      1
    },
  }
}

fn main() {
  let args: Vec<String> = std::env::args().skip(1).collect();
  let code = match args.first().map(|s| s.as_str()) {
    Some("run") if args.len() > 1 => run(&args[1..]),
    Some("replay") if args.len() > 2 => replay(&args[1], &args[2]),
    Some("work") if args.len() > 7 => {
      work(args[1].clone(), args[2] == "thorough", args[3].parse().unwrap_or(1), args[4].parse().unwrap_or(10.0), args[5].parse().unwrap(), args[6].parse().unwrap(), args[7].clone());
      0
    },
    _ => {
      eprintln!("usage: native run <id> --tier quick|thorough --seed N --seconds S | native replay <id> <file>");
      2
    },
  };
  exit(code);
}

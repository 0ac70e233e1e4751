//! Explores seeds in worker processes, minimises what fails, writes evidence.
use crate::plan::{Before, Op, Plan, Sched};
use crate::rng::mix2;
use crate::sched::{self, CB_KINDS, CB_NAMES};
use crate::{arena, lin, sys};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Scenario {
  pub name: &'static str,
  pub run: fn(&Plan) -> u64,
}

pub struct Check {
  pub prop: &'static str,
  pub gen: fn(&str, u64) -> Plan,
  pub rule: &'static str,
  pub real: &'static str,
  pub stubs: &'static str,
}

pub struct Table {
  pub scenarios: &'static [Scenario],
  pub checks: &'static [Check],
  pub init: fn(),
}

const WORKERS: usize = 8;
const HANG: Duration = Duration::from_secs(60);

pub fn main(t: &Table) -> i32 {
  let args: Vec<String> = std::env::args().collect();
  match args.get(1).map(|s| s.as_str()) {
    Some("check") => check(t, &args[2]),
    Some("worker") => worker(t, &args[2..]),
    Some("exec") => exec(t, &args[2], &args[3]),
    Some("replay") => replay(&args[2]),
    Some("selftest") => selftest(t, &args[2], args[3].parse().unwrap()),
    Some("hashes") => hashes(t, &args[2], args[3].parse().unwrap(), args[4].parse().unwrap()),
    Some("gen") => {
      let c = find(t, &args[2]);
      print!("{}", (c.gen)(c.prop, run_seed(c.prop, args[3].parse().unwrap(), args[4].parse().unwrap())).to_text());
      0
    }
    _ => {
      eprintln!("usage: simrun check PROP | replay FILE | selftest PROP RUNS | gen PROP SEED N");
      2
    }
  }
}

fn find<'a>(t: &'a Table, prop: &str) -> &'a Check {
  t.checks.iter().find(|c| c.prop == prop).unwrap_or_else(|| {
    eprintln!("no check for {}", prop);
    std::process::exit(2)
  })
}

fn run_seed(prop: &str, seed: u64, n: u64) -> u64 {
  mix2(mix2(seed, lin::hash_of(&prop)), n) >> 1
}

fn run_plan(t: &Table, p: &Plan) -> u64 {
  match t.scenarios.iter().find(|s| s.name == p.scen) {
    Some(s) => (s.run)(p),
    None => {
      eprintln!("no scenario {}", p.scen);
      std::process::exit(20)
    }
  }
}

fn env_u64(k: &str, d: u64) -> u64 {
  std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

// ---- workers ----

fn worker(t: &Table, a: &[String]) -> i32 {
  let (prop, idx, n, seed, ms, max) = (&a[0], num(&a[1]), num(&a[2]), num(&a[3]), num(&a[4]), num(&a[5]));
  sys::pin_to_cpu(idx as usize);
  sched::open_shared(&a[6]);
  (t.init)();
  let c = find(t, prop);
  let start = Instant::now();
  let mut distinct: HashSet<u64> = HashSet::new();
  let mut i = 0;
  while i < max && (i % 4 != 0 || start.elapsed().as_millis() < ms as u128) {
    let p = (c.gen)(c.prop, run_seed(c.prop, seed, idx + i * n));
    let before = sched::nontrivial_marks();
    let h = run_plan(t, &p);
    if sched::nontrivial_marks() != before {
      sched::stats().nontrivial += 1;
      distinct.insert(h);
    }
    i += 1;
  }
  let st = sched::stats();
  let mut s = String::new();
  for (k, v) in [
    ("runs", st.runs),
    ("steps", st.steps),
    ("ops", st.ops),
    ("preempts", st.preempts),
    ("blocks", st.blocks),
    ("wakes", st.wakes),
    ("spurious", st.spurious),
    ("stalls", st.stalls),
    ("nontrivial", st.nontrivial),
  ] {
    writeln!(s, "{} {}", k, v).unwrap();
  }
  for k in 0..CB_KINDS {
    writeln!(s, "fault:{} {}", CB_NAMES[k], st.faults[k]).unwrap();
  }
  for k in 0..arena::MODES as usize {
    writeln!(s, "mode:{} {}", arena::MODE_NAMES[k], st.modes[k]).unwrap();
  }
  for (k, n) in ["serial", "random-gap", "priority", "hot-sites", "sync-points"].iter().enumerate() {
    writeln!(s, "policy:{} {}", n, st.policies[k]).unwrap();
  }
  for (n, v) in &st.probes {
    writeln!(s, "probe:{} {}", n.replace(' ', "_"), v).unwrap();
  }
  std::fs::write(format!("{}.stats", a[6]), s).unwrap();
  let mut b: Vec<u8> = vec![];
  for h in &distinct {
    b.extend_from_slice(&h.to_le_bytes());
  }
  std::fs::write(format!("{}.distinct", a[6]), b).unwrap();
  unsafe {
    std::fs::write(format!("{}.cov", a[6]), &sched::COVERED[..]).unwrap();
  }
  0
}

fn num(s: &str) -> u64 {
  s.parse().expect("number")
}

fn exec(t: &Table, plan: &str, shared: &str) -> i32 {
  sys::pin_to_cpu(env_u64("SIM_CPU", 0) as usize);
  sched::open_shared(shared);
  let Some(p) = std::fs::read_to_string(plan).ok().and_then(|s| Plan::parse(&s)) else {
    eprintln!("cannot read plan {}", plan);
    return 20;
  };
  (t.init)();
  if let Some(b) = &p.before {
    let c = find(t, &b.prop);
    for i in 0..b.count {
      run_plan(t, &(c.gen)(c.prop, run_seed(c.prop, b.seed, b.first + i * b.stride)));
    }
  }
  run_plan(t, &p);
  0
}

fn scratch() -> PathBuf {
  let p = PathBuf::from("/verif/work");
  let p = if std::fs::create_dir_all(&p).is_ok() { p } else { std::env::temp_dir() };
  let p = p.join(format!("run-{}", std::process::id()));
  std::fs::create_dir_all(&p).expect("scratch directory");
  p
}

fn me() -> PathBuf {
  std::env::current_exe().expect("own path")
}

/// How a process that executed a plan ended.
#[derive(Clone, Debug)]
struct Outcome {
  class: Option<String>,
  msg: String,
  hash: u64,
  decs: Vec<crate::plan::Dec>,
  faults: Vec<crate::plan::Fault>,
  truncated: bool,
  harness: bool,
}

fn read_outcome(shared: &str, code: Option<i32>, timed_out: bool) -> Outcome {
  let sh = sched::read_shared(shared);
  let (mut msg, mut hash, mut decs, mut faults, mut truncated) = (String::new(), 0, vec![], vec![], false);
  if let Some(sh) = &sh {
    msg = String::from_utf8_lossy(&sh.msg[..(sh.msg_len as usize).min(sh.msg.len())]).to_string();
    hash = sh.hash;
    decs = sh.dec[..(sh.ndec as usize).min(sh.dec.len())].to_vec();
    faults = sh.fault[..(sh.nfault as usize).min(sh.fault.len())].to_vec();
    truncated = sh.ndec as usize >= sh.dec.len() - 64;
  }
  let class = if timed_out {
    msg = "hang\nthe run stopped making progress".into();
    Some("hang".to_string())
  } else {
    match code {
      Some(0) => None,
      Some(10) => Some(msg.lines().next().unwrap_or("?").to_string()),
      Some(20) | Some(21) | Some(101) => None,
      _ => {
        msg = "crash\nthe process died (stack overflow, abort or invalid memory access)".into();
        Some("crash".to_string())
      }
    }
  };
  Outcome { class, msg, hash, decs, faults, truncated, harness: matches!(code, Some(20) | Some(21) | Some(101)) }
}

fn exec_plan(p: &Plan, dir: &Path, tag: &str, limit: Duration) -> Outcome {
  let pf = dir.join(format!("{}.plan", tag));
  let sf = dir.join(format!("{}.shared", tag)).to_str().unwrap().to_string();
  std::fs::write(&pf, p.to_text()).unwrap();
  let _ = std::fs::remove_file(&sf);
  let mut ch = Command::new(me()).arg("exec").arg(&pf).arg(&sf).stdout(Stdio::null()).stderr(Stdio::null()).spawn().expect("spawn");
  let (code, to) = wait_child(&mut ch, limit);
  read_outcome(&sf, code, to)
}

fn wait_child(ch: &mut Child, limit: Duration) -> (Option<i32>, bool) {
  let st = Instant::now();
  let mut nap = 200;
  loop {
    if let Some(s) = ch.try_wait().expect("wait") {
      return (s.code(), false);
    }
    if st.elapsed() > limit {
      let _ = ch.kill();
      let _ = ch.wait();
      return (None, true);
    }
    std::thread::sleep(Duration::from_micros(nap));
    nap = (nap * 2).min(5000);
  }
}

// ---- the check ----

fn check(t: &Table, prop: &str) -> i32 {
  let c = find(t, prop);
  let seed = env_u64("VERIF_SEED", 1);
  let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
  let thorough = tier == "thorough";
  let ms = env_u64("SIM_MS", if thorough { 600_000 } else { 30_000 });
  let max = env_u64("SIM_RUNS", if thorough { u64::MAX / 1024 } else { 400_000 });
  println!("{} tier={} VERIF_SEED={}", prop, tier, seed);
  let start = Instant::now();
  let dir = scratch();
  let mut kids: Vec<(Child, String, u64, Instant)> = vec![];
  for i in 0..WORKERS {
    let sf = dir.join(format!("w{}", i)).to_str().unwrap().to_string();
    let ch = Command::new(me())
      .args(["worker", prop, &i.to_string(), &WORKERS.to_string(), &seed.to_string(), &ms.to_string(), &max.to_string(), &sf])
      .stdout(Stdio::null())
      .spawn()
      .expect("spawn worker");
    kids.push((ch, sf, 0, Instant::now()));
  }
  let mut done = [false; WORKERS];
  let mut bad: Option<(usize, Option<i32>, bool)> = None;
  let mut err = false;
  while bad.is_none() && !err && done.iter().any(|d| !d) {
    std::thread::sleep(Duration::from_millis(20));
    for i in 0..WORKERS {
      if done[i] {
        continue;
      }
      if let Some(s) = kids[i].0.try_wait().expect("wait") {
        done[i] = true;
        match s.code() {
          Some(0) => {}
          Some(20) | Some(21) | Some(101) => err = true,
          c => bad = Some((i, c, false)),
        }
        continue;
      }
      let runs = peek_runs(&kids[i].1);
      if runs != kids[i].2 {
        kids[i].2 = runs;
        kids[i].3 = Instant::now();
      } else if kids[i].3.elapsed() > HANG {
        bad = Some((i, None, true));
      }
    }
  }
  for k in &mut kids {
    let _ = k.0.kill();
    let _ = k.0.wait();
  }
  if err && bad.is_none() {
    eprintln!("{}: the simulator failed; no answer", prop);
    let _ = std::fs::remove_dir_all(&dir);
    return 2;
  }
  let mut violation = None;
  if let Some((i, code, to)) = bad {
    let o = read_outcome(&kids[i].1, code, to);
    let sh = sched::read_shared(&kids[i].1).expect("trace");
    println!("seed {} failed: {}", sh.seed, o.class.clone().unwrap_or_default());
    let before = Before { prop: prop.to_string(), seed, first: i as u64, stride: WORKERS as u64, count: sh.runs };
    violation = Some(minimise((c.gen)(c.prop, sh.seed), o, &dir, prop, before));
  }
  evidence(c, &tier, seed, &dir, start.elapsed().as_secs_f64(), violation.is_some());
  let _ = std::fs::remove_dir_all(&dir);
  match violation {
    None => {
      println!("{}: held on everything explored", prop);
      0
    }
    Some((path, msg)) => {
      println!("{}", msg);
      println!("VIOLATION property={} replay={}", prop, path);
      1
    }
  }
}

fn peek_runs(sf: &str) -> u64 {
  use std::os::unix::fs::FileExt;
  let mut b = [0u8; 8];
  match std::fs::File::open(sf).and_then(|f| f.read_exact_at(&mut b, 8)) {
    Ok(()) => u64::from_le_bytes(b),
    Err(_) => 0,
  }
}

fn minimise(plan: Plan, o: Outcome, dir: &Path, prop: &str, before: Before) -> (String, String) {
  let class = o.class.clone().unwrap_or_else(|| "?".into());
  let limit = if class == "hang" { Duration::from_secs(20) } else { Duration::from_secs(30) };
  let budget = Duration::from_secs(env_u64("SIM_MIN_SECS", 30));
  let start = Instant::now();
  let mut best = plan.clone();
  let mut out = o.clone();
  let mut reproduced = false;
  if !o.truncated {
    best.sched = Sched::Explicit { decs: o.decs.clone(), faults: o.faults.clone() };
    let r = exec_plan(&best, dir, "m", limit);
    if r.class.as_deref() == Some(&class) {
      out = r;
      reproduced = true;
    }
  }
  if !reproduced {
    best = plan.clone();
    let r = exec_plan(&best, dir, "m", limit);
    if r.class.as_deref() == Some(&class) {
      out = r;
      reproduced = true;
    }
  }
  if !reproduced {
    // It may need what earlier runs left behind in the process.
    let mut n = 1;
    loop {
      let n1 = n.min(before.count);
      best = plan.clone();
      best.before = Some(Before { first: before.first + (before.count - n1) * before.stride, count: n1, ..before.clone() });
      let r = exec_plan(&best, dir, "m", limit * 2);
      if r.class.as_deref() == Some(&class) {
        println!("the failure needs the {} runs before it in the same process", n1);
        out = r;
        reproduced = true;
        break;
      }
      if n1 == before.count || start.elapsed() > Duration::from_secs(120) {
        best = plan.clone();
        println!("note: the failure did not reproduce in a fresh process");
        break;
      }
      n *= 4;
    }
  }
  let n0 = size(&best);
  let mut tries = 0;
  if reproduced {
    let mut attempt = |p: &Plan, best: &mut Plan, out: &mut Outcome| -> bool {
      if start.elapsed() > budget {
        return false;
      }
      tries += 1;
      let r = exec_plan(p, dir, "m", limit);
      if r.class.as_deref() != Some(&class) {
        return false;
      }
      *best = p.clone();
      // keep only what was really used
      if let Sched::Explicit { decs, faults } = &mut best.sched {
        if !r.truncated {
          *decs = r.decs.clone();
          *faults = r.faults.clone();
        }
      }
      *out = r;
      true
    };
    loop {
      let before = best.clone();
      // operations
      let mut chunk = best.ops.len().div_ceil(2).max(1);
      loop {
        let mut i = 0;
        while i < best.ops.len() {
          let mut p = best.clone();
          let hi = (i + chunk).min(p.ops.len());
          p.ops.drain(i..hi);
          if !attempt(&p, &mut best, &mut out) {
            i += chunk;
          }
        }
        if chunk == 1 {
          break;
        }
        chunk = chunk.div_ceil(2);
      }
      // decisions and faults
      if let Sched::Explicit { decs, .. } = &best.sched {
        let mut chunk = decs.len().div_ceil(2).max(1);
        loop {
          let mut i = 0;
          loop {
            let mut p = best.clone();
            let Sched::Explicit { decs, .. } = &mut p.sched else { break };
            if i >= decs.len() {
              break;
            }
            let hi = (i + chunk).min(decs.len());
            decs.drain(i..hi);
            if !attempt(&p, &mut best, &mut out) {
              i += chunk;
            }
          }
          if chunk == 1 {
            break;
          }
          chunk = chunk.div_ceil(2);
        }
        let mut i = 0;
        loop {
          let mut p = best.clone();
          let Sched::Explicit { faults, .. } = &mut p.sched else { break };
          if i >= faults.len() {
            break;
          }
          faults.remove(i);
          if !attempt(&p, &mut best, &mut out) {
            i += 1;
          }
        }
      }
      // arguments
      for i in 0..best.ops.len() {
        let mut k = best.ops[i].a.len();
        while k > 0 {
          k -= 1;
          if i >= best.ops.len() || k >= best.ops[i].a.len() {
            break;
          }
          let mut p = best.clone();
          p.ops[i].a.remove(k);
          if p.ops[i].a.len() >= 1 && attempt(&p, &mut best, &mut out) {
            continue;
          }
          if best.ops[i].a[k] != 0 {
            let mut p = best.clone();
            p.ops[i].a[k] = 0;
            attempt(&p, &mut best, &mut out);
          }
        }
      }
      // parameters
      for i in 0..best.params.len() {
        if best.params[i].1 != 0 {
          let mut p = best.clone();
          p.params[i].1 = 0;
          attempt(&p, &mut best, &mut out);
        }
      }
      if best == before || start.elapsed() > budget {
        break;
      }
    }
    // the final word comes from a fresh process
    let r = exec_plan(&best, dir, "m", limit);
    out = r;
  }
  println!("minimised from {} to {} entries in {} attempts", n0, size(&best), tries);
  let rdir = Path::new("/verif/replays");
  let _ = std::fs::create_dir_all(rdir);
  let path = rdir.join(format!("{}-{}.plan", prop, plan.seed));
  let mut text = String::new();
  writeln!(text, "# property={} class={} hash={:x} reproduced={}", prop, class, out.hash, reproduced).unwrap();
  for l in out.msg.lines() {
    writeln!(text, "# {}", l).unwrap();
  }
  text.push_str(&best.to_text());
  std::fs::write(&path, text).expect("replay file");
  (path.to_str().unwrap().to_string(), out.msg.clone())
}

fn size(p: &Plan) -> usize {
  p.ops.len()
    + match &p.sched {
      Sched::Seeded(_) => 0,
      Sched::Explicit { decs, faults } => decs.len() + faults.len(),
    }
}

fn replay(path: &str) -> i32 {
  let Ok(text) = std::fs::read_to_string(path) else {
    eprintln!("cannot read {}", path);
    return 2;
  };
  let Some(p) = Plan::parse(&text) else {
    eprintln!("cannot parse {}", path);
    return 2;
  };
  let head = text.lines().next().unwrap_or("");
  let get = |k: &str| head.split_whitespace().find_map(|w| w.strip_prefix(k).map(|s| s.to_string()));
  let dir = scratch();
  let o = exec_plan(&p, &dir, "r", HANG);
  let _ = std::fs::remove_dir_all(&dir);
  println!("{}", o.msg);
  if o.harness {
    return 2;
  }
  match o.class {
    None => {
      println!("the run of {} breaks nothing on this tree", path);
      0
    }
    Some(c) => {
      let same = get("class=").as_deref() == Some(&c);
      let exact = get("hash=").and_then(|h| u64::from_str_radix(&h, 16).ok()) == Some(o.hash);
      println!("class {}, {} recorded; schedule hash {:x}, {} recorded", c, if same { "as" } else { "NOT as" }, o.hash, if exact { "as" } else { "NOT as" });
      println!("VIOLATION property={} replay={}", get("property=").unwrap_or_default(), path);
      1
    }
  }
}

// ---- determinism ----

/// Prints the hash of each of n runs from `from` on.
fn hashes(t: &Table, prop: &str, from: u64, n: u64) -> i32 {
  sys::pin_to_cpu(env_u64("SIM_CPU", 0) as usize);
  (t.init)();
  let c = find(t, prop);
  let seed = env_u64("VERIF_SEED", 1);
  let mut s = String::new();
  for i in from..from + n {
    let p = (c.gen)(c.prop, run_seed(c.prop, seed, i));
    let h = run_plan(t, &p);
    writeln!(s, "{} {:x}", i, h).unwrap();
  }
  print!("{}", s);
  0
}

/// Every run twice, in different processes, in batches of different sizes.
fn selftest(t: &Table, prop: &str, n: u64) -> i32 {
  let props: Vec<&str> = if prop == "all" { t.checks.iter().map(|c| c.prop).collect() } else { vec![prop] };
  let mut bad = 0;
  for p in props {
    let get = |from: u64, k: u64, cpu: u64| {
      let o = Command::new(me()).args(["hashes", p, &from.to_string(), &k.to_string()]).env("SIM_CPU", cpu.to_string()).output().expect("hashes");
      String::from_utf8_lossy(&o.stdout).to_string()
    };
    let a = get(0, n, 0);
    let mut b = String::new();
    let (mut i, mut k) = (0, 1);
    while i < n {
      let m = k.min(n - i);
      b.push_str(&get(i, m, i % 8));
      i += m;
      k = k * 3 + 1;
    }
    let diff = a.lines().zip(b.lines()).filter(|(x, y)| x != y).count() + a.lines().count().abs_diff(b.lines().count());
    println!("{}: {} runs twice, {} differ", p, a.lines().count(), diff);
    if diff > 0 || a.lines().count() as u64 != n {
      bad += 1;
    }
  }
  (bad > 0) as i32
}

// ---- evidence ----

fn esc(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

fn evidence(c: &Check, tier: &str, seed: u64, dir: &Path, wall: f64, violated: bool) {
  let mut sum: BTreeMap<String, u64> = BTreeMap::new();
  let mut distinct: HashSet<u64> = HashSet::new();
  let mut cov = vec![0u8; sched::NSITES];
  for i in 0..WORKERS {
    let b = dir.join(format!("w{}", i)).to_str().unwrap().to_string();
    if let Ok(s) = std::fs::read_to_string(format!("{}.stats", b)) {
      for l in s.lines() {
        if let Some((k, v)) = l.rsplit_once(' ') {
          *sum.entry(k.to_string()).or_default() += v.parse::<u64>().unwrap_or(0);
        }
      }
    } else {
      *sum.entry("runs".into()).or_default() += peek_runs(&b);
    }
    if let Ok(d) = std::fs::read(format!("{}.distinct", b)) {
      for x in d.chunks_exact(8) {
        distinct.insert(u64::from_le_bytes(x.try_into().unwrap()));
      }
    }
    if let Ok(d) = std::fs::read(format!("{}.cov", b)) {
      for (x, y) in cov.iter_mut().zip(d) {
        *x |= y;
      }
    }
  }
  let g = |k: &str| sum.get(k).copied().unwrap_or(0);
  let group = |pre: &str| sum.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", esc(&k[pre.len()..]), v)).collect::<Vec<_>>().join(", ");
  let samples: Vec<String> = (0..3).map(|i| esc(&(c.gen)(c.prop, run_seed(c.prop, seed, i)).to_text())).collect();
  let per_hour = |x: u64| (x as f64 / wall.max(0.001) * 3600.0) as u64;
  let blocks = cov.iter().skip(sched::SITE_BLOCKS as usize).filter(|x| **x != 0).count();
  let text = format!(
    "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"runs_per_hour_each_of_its_own_seed\": {},\n  \"simulated_time_steps\": {},\n  \"operations\": {},\n  \"preemptions\": {},\n  \"blocked_waits\": {},\n  \"spurious_wakeups\": {},\n  \"stalls\": {},\n  \"faults_injected\": {{{}}},\n  \"memory_placements\": {{{}}},\n  \"scheduling_policies\": {{{}}},\n  \"basic_blocks_reached\": {},\n  \"conditions_reached\": {{{}}},\n  \"real_components\": {},\n  \"stubs\": {}\n }},\n \"assumptions\": [{}, {}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    esc(c.prop),
    esc(tier),
    seed,
    g("runs"),
    distinct.len(),
    esc(c.rule),
    samples.join(", "),
    per_hour(g("runs")),
    g("steps"),
    g("ops"),
    g("preempts"),
    g("blocks"),
    g("spurious"),
    g("stalls"),
    group("fault:"),
    group("mode:"),
    group("policy:"),
    blocks,
    group("probe:"),
    esc(c.real),
    esc(c.stubs),
    esc("Runs are sampled, not enumerated: a clean batch is evidence, not proof."),
    esc("Interleavings are sequentially consistent at the granularity of compiled basic blocks and, in some runs, of single heap and static memory accesses; weak-memory effects below that are not explored (the code under test is safe Rust)."),
    wall,
    violated as u32
  );
  let _ = std::fs::create_dir_all("/verif/evidence");
  std::fs::write(format!("/verif/evidence/{}.json", c.prop), text).expect("evidence file");
}

/// For generators: the operations of one code.
pub fn ops_of<'a>(p: &'a Plan, code: &'a str) -> impl Iterator<Item = &'a Op> {
  p.ops.iter().filter(move |o| o.code == code)
}

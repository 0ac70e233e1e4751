//! A plan is one run written down: the operations of every task, the placement
//! of memory, and either a seed for the scheduler or every decision it took.
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
  pub id: u32,
  pub task: u8,
  pub code: String,
  pub a: Vec<i64>,
}

impl Op {
  pub fn arg(&self, i: usize) -> i64 {
    self.a.get(i).copied().unwrap_or(0)
  }
  /// Argument as an index into something with n > 0 entries.
  pub fn idx(&self, i: usize, n: usize) -> usize {
    (self.arg(i).unsigned_abs() as usize) % n.max(1)
  }
}

/// What the scheduler decided at step `off` of operation `op` of `task`:
/// `P` preempt, `B` who runs when it blocks or ends, `W` whom a futex wake
/// wakes, `S` spurious wake-up, `F` who runs first.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Dec {
  pub kind: u8,
  pub task: u8,
  pub to: u8,
  pub pad: u8,
  pub op: u32,
  pub off: u64,
}

/// The `nth` call into caller code of `kind` during operation `op` of `task` panics.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(C)]
pub struct Fault {
  pub kind: u8,
  pub task: u8,
  pub pad: [u8; 2],
  pub op: u32,
  pub nth: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sched {
  Seeded(u64),
  Explicit { decs: Vec<Dec>, faults: Vec<Fault> },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
  pub scen: String,
  pub seed: u64,
  pub params: Vec<(String, i64)>,
  pub ops: Vec<Op>,
  pub sched: Sched,
  /// Earlier runs of the same process, for failures that need what they left behind.
  pub before: Option<Before>,
}

/// The runs of a check's seed numbered first, first + stride, ...
#[derive(Clone, Debug, PartialEq)]
pub struct Before {
  pub prop: String,
  pub seed: u64,
  pub first: u64,
  pub stride: u64,
  pub count: u64,
}

impl Plan {
  pub fn new(scen: &str, seed: u64) -> Self {
    Plan { scen: scen.to_string(), seed, params: vec![], ops: vec![], sched: Sched::Seeded(seed), before: None }
  }
  pub fn set(&mut self, k: &str, v: i64) {
    match self.params.iter_mut().find(|(n, _)| n == k) {
      Some(e) => e.1 = v,
      None => self.params.push((k.to_string(), v)),
    }
  }
  pub fn get(&self, k: &str) -> i64 {
    self.params.iter().find(|(n, _)| n == k).map_or(0, |e| e.1)
  }
  pub fn push(&mut self, task: u8, code: &str, a: Vec<i64>) {
    let id = self.ops.len() as u32 + 1;
    self.ops.push(Op { id, task, code: code.to_string(), a });
  }
  pub fn task_ops(&self, t: usize) -> Vec<Op> {
    self.ops.iter().filter(|o| o.task as usize == t).cloned().collect()
  }
  pub fn tasks(&self) -> usize {
    self.ops.iter().map(|o| o.task as usize + 1).max().unwrap_or(0)
  }

  pub fn to_text(&self) -> String {
    let mut s = String::new();
    writeln!(s, "scenario {}", self.scen).unwrap();
    writeln!(s, "seed {}", self.seed).unwrap();
    if let Some(b) = &self.before {
      writeln!(s, "before {} {} {} {} {}", b.prop, b.seed, b.first, b.stride, b.count).unwrap();
    }
    for (k, v) in &self.params {
      writeln!(s, "param {} {}", k, v).unwrap();
    }
    for o in &self.ops {
      write!(s, "op {} {} {}", o.id, o.task, o.code).unwrap();
      for x in &o.a {
        write!(s, " {}", x).unwrap();
      }
      s.push('\n');
    }
    match &self.sched {
      Sched::Seeded(x) => writeln!(s, "sched {}", x).unwrap(),
      Sched::Explicit { decs, faults } => {
        writeln!(s, "explicit").unwrap();
        for d in decs {
          writeln!(s, "dec {} {} {} {} {}", d.kind as char, d.task, d.op, d.off, d.to).unwrap();
        }
        for f in faults {
          writeln!(s, "fault {} {} {} {}", f.kind, f.task, f.op, f.nth).unwrap();
        }
      }
    }
    s
  }

  pub fn parse(text: &str) -> Option<Plan> {
    let mut p = Plan::new("", 0);
    let mut explicit = false;
    let mut decs = vec![];
    let mut faults = vec![];
    for line in text.lines() {
      let line = line.split('#').next().unwrap();
      let w: Vec<&str> = line.split_whitespace().collect();
      match w.first().copied() {
        None => {}
        Some("scenario") => p.scen = w.get(1)?.to_string(),
        Some("seed") => p.seed = w.get(1)?.parse().ok()?,
        Some("before") => {
          p.before = Some(Before {
            prop: w.get(1)?.to_string(),
            seed: w.get(2)?.parse().ok()?,
            first: w.get(3)?.parse().ok()?,
            stride: w.get(4)?.parse().ok()?,
            count: w.get(5)?.parse().ok()?,
          })
        }
        Some("param") => p.set(w.get(1)?, w.get(2)?.parse().ok()?),
        Some("op") => p.ops.push(Op {
          id: w.get(1)?.parse().ok()?,
          task: w.get(2)?.parse().ok()?,
          code: w.get(3)?.to_string(),
          a: w[4..].iter().map(|x| x.parse().ok()).collect::<Option<_>>()?,
        }),
        Some("sched") => p.sched = Sched::Seeded(w.get(1)?.parse().ok()?),
        Some("explicit") => explicit = true,
        Some("dec") => decs.push(Dec {
          kind: w.get(1)?.bytes().next()?,
          task: w.get(2)?.parse().ok()?,
          op: w.get(3)?.parse().ok()?,
          off: w.get(4)?.parse().ok()?,
          to: w.get(5)?.parse().ok()?,
          pad: 0,
        }),
        Some("fault") => faults.push(Fault {
          kind: w.get(1)?.parse().ok()?,
          task: w.get(2)?.parse().ok()?,
          op: w.get(3)?.parse().ok()?,
          nth: w.get(4)?.parse().ok()?,
          pad: [0; 2],
        }),
        Some(_) => return None,
      }
    }
    if explicit {
      p.sched = Sched::Explicit { decs, faults };
    }
    Some(p)
  }
}

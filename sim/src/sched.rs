//! Who runs: real threads, exactly one of which holds the baton. Every basic
//! block of the code under test, every allocation, every call into caller code
//! and every futex operation is a step at which the baton may move.
use crate::plan::{Dec, Fault, Plan, Sched};
use crate::rng::{mix, mix2, Rng};
use crate::{arena, sys};
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 8;
const NOTASK: usize = usize::MAX;
const MAIN: usize = MAXT;

// Sites that are not basic blocks.
pub const SITE_ALLOC: u32 = 1;
pub const SITE_FREE: u32 = 2;
pub const SITE_WAIT: u32 = 3;
pub const SITE_WAKE: u32 = 4;
pub const SITE_YIELD: u32 = 5;
pub const SITE_OP: u32 = 6;
pub const SITE_MEM: u32 = 7;
pub const SITE_CB: u32 = 8; // + callback kind
pub const SITE_BLOCKS: u32 = 32;
/// The most steps a task makes while others that could run do not.
/// Shrinks to the second value the longer no operation ends.
const FAIR: [u64; 2] = [20_000, 1_000];
pub const NSITES: usize = 1 << 16;

// Kinds of caller code.
pub const CB_CMP: u8 = 0;
pub const CB_CLONE: u8 = 1;
pub const CB_DEBUG: u8 = 2;
pub const CB_ITER: u8 = 3;
pub const CB_LOG: u8 = 4;
pub const CB_STEP: u8 = 5;
pub const CB_MERGE: u8 = 6;
pub const CB_PASS: u8 = 7;
pub const CB_KINDS: usize = 8;
pub const CB_NAMES: [&str; CB_KINDS] =
  ["compare-panic", "clone-panic", "debug-panic", "iterator-panic", "logger-panic", "step-panic", "merge-panic", "analysis-fault"];

thread_local! {
  static TASK: Cell<usize> = const { Cell::new(NOTASK) };
  static ARMED: Cell<bool> = const { Cell::new(false) };
}

#[inline(always)]
pub fn armed() -> bool {
  ARMED.with(|a| a.get())
}
pub fn is_task() -> bool {
  TASK.with(|t| t.get()) != NOTASK
}
pub fn task() -> usize {
  TASK.with(|t| t.get())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
  Unused,
  Runnable,
  Blocked(usize, bool),
  Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pol {
  /// Never preempt: tasks run until they block or end.
  Serial,
  /// Preempt after geometrically distributed numbers of steps.
  Gap(u64),
  /// Strict priorities with a few priority change points.
  Pct,
  /// Preempt at a random subset of sites.
  Hot { mask: u32, salt: u32, num: u64 },
  /// Preempt only at synchronisation, allocation and callback sites.
  Sync(u64),
}

struct Sim {
  active: bool,
  n: usize,
  st: [St; MAXT],
  stalled: [u64; MAXT],
  prio: [i64; MAXT],
  cur: usize,
  step: u64,
  budget: u64,
  op: [u32; MAXT],
  off: [u64; MAXT],
  cb: [[u64; CB_KINDS]; MAXT],
  fired: [u32; MAXT],
  rng: Rng,
  hash_rng: Rng,
  explicit: bool,
  pol: Pol,
  countdown: u64,
  burst: u64,
  fair: u64,
  preempts_left: u64,
  pct_points: [u64; 4],
  pct_low: i64,
  stall_num: u64,
  spurious_num: u64,
  fault_mask: u32,
  fault_num: u64,
  fault_den: u64,
  faults_left: u32,
  decs: Vec<Vec<Dec>>,
  ptr: [usize; MAXT],
  first: Option<u8>,
  faults: Vec<Fault>,
  hash: u64,
  now: u64,
}

static mut S: Sim = Sim {
  active: false,
  n: 0,
  st: [St::Unused; MAXT],
  stalled: [0; MAXT],
  prio: [0; MAXT],
  cur: NOTASK,
  step: 0,
  budget: u64::MAX,
  op: [0; MAXT],
  off: [0; MAXT],
  cb: [[0; CB_KINDS]; MAXT],
  fired: [0; MAXT],
  rng: Rng::zero(),
  hash_rng: Rng::zero(),
  explicit: false,
  pol: Pol::Serial,
  countdown: u64::MAX,
  burst: 0,
  fair: FAIR[0],
  preempts_left: 0,
  pct_points: [0; 4],
  pct_low: 0,
  stall_num: 0,
  spurious_num: 0,
  fault_mask: 0,
  fault_num: 0,
  fault_den: 1,
  faults_left: 0,
  decs: Vec::new(),
  ptr: [0; MAXT],
  first: None,
  faults: Vec::new(),
  hash: 0,
  now: 0,
};

/// Counters of this process.
#[derive(Default, Clone, Debug)]
pub struct Stats {
  pub runs: u64,
  pub steps: u64,
  pub ops: u64,
  pub preempts: u64,
  pub blocks: u64,
  pub wakes: u64,
  pub spurious: u64,
  pub stalls: u64,
  pub nontrivial: u64,
  pub marks: u64,
  pub faults: [u64; CB_KINDS],
  pub modes: [u64; arena::MODES as usize],
  pub policies: [u64; 5],
  pub probes: Vec<(&'static str, u64)>,
}
static mut STATS: Stats = Stats {
  runs: 0,
  steps: 0,
  ops: 0,
  preempts: 0,
  blocks: 0,
  wakes: 0,
  spurious: 0,
  stalls: 0,
  nontrivial: 0,
  marks: 0,
  faults: [0; CB_KINDS],
  modes: [0; arena::MODES as usize],
  policies: [0; 5],
  probes: Vec::new(),
};
pub static mut COVERED: [u8; NSITES] = [0; NSITES];
pub static mut NGUARDS: u32 = SITE_BLOCKS;

pub fn stats() -> &'static mut Stats {
  unsafe { &mut STATS }
}

/// Grows whenever a run meets a preemption, a block, a fault or anything else
/// that sets it apart from a plain call.
pub fn nontrivial_marks() -> u64 {
  let s = stats();
  s.preempts + s.blocks + s.spurious + s.faults.iter().sum::<u64>() + s.marks
}
pub fn mark_nontrivial() {
  stats().marks += 1;
}

/// Counts that a condition worth reaching was reached (harness code only).
pub fn probe(name: &'static str) {
  let s = stats();
  match s.probes.iter_mut().find(|(n, _)| *n == name) {
    Some(e) => e.1 += 1,
    None => s.probes.push((name, 1)),
  }
}

static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static MAIN_GO: AtomicU32 = AtomicU32::new(0);

// ---- the trace, in memory shared with the orchestrator ----

const MSG_CAP: usize = 1 << 16;
const DEC_CAP: usize = 20_000;
const FAULT_CAP: usize = 256;
#[repr(C)]
pub struct Shared {
  pub seed: u64,
  pub runs: u64,
  pub verdict: u32,
  pub msg_len: u32,
  pub ndec: u32,
  pub nfault: u32,
  pub hash: u64,
  pub msg: [u8; MSG_CAP],
  pub dec: [Dec; DEC_CAP],
  pub fault: [Fault; FAULT_CAP],
}
static mut SHARED: *mut Shared = std::ptr::null_mut();

pub fn open_shared(path: &str) {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).expect("trace file");
  f.set_len(std::mem::size_of::<Shared>() as u64).expect("trace file");
  unsafe {
    SHARED = sys::mmap_shared_fd(f.as_raw_fd(), std::mem::size_of::<Shared>()) as *mut Shared;
  }
}

pub fn read_shared(path: &str) -> Option<Box<Shared>> {
  let bytes = std::fs::read(path).ok()?;
  if bytes.len() < std::mem::size_of::<Shared>() {
    return None;
  }
  unsafe {
    let l = std::alloc::Layout::new::<Shared>();
    let p = std::alloc::alloc_zeroed(l) as *mut Shared;
    std::ptr::copy_nonoverlapping(bytes.as_ptr(), p as *mut u8, std::mem::size_of::<Shared>());
    Some(Box::from_raw(p))
  }
}

pub fn shared() -> &'static mut Shared {
  unsafe {
    if SHARED.is_null() {
      let l = std::alloc::Layout::new::<Shared>();
      SHARED = std::alloc::alloc_zeroed(l) as *mut Shared;
    }
    &mut *SHARED
  }
}

fn log_dec(kind: u8, task: usize, to: usize) {
  let s = unsafe { &mut S };
  let d = Dec { kind, task: task as u8, to: to as u8, pad: 0, op: s.op[task.min(MAXT - 1)], off: s.off[task.min(MAXT - 1)] };
  let sh = shared();
  if (sh.ndec as usize) < DEC_CAP {
    sh.dec[sh.ndec as usize] = d;
    sh.ndec += 1;
  }
  s.hash = mix2(s.hash, ((kind as u64) << 56) ^ ((task as u64) << 48) ^ ((to as u64) << 40) ^ ((d.op as u64) << 24) ^ d.off);
}

/// The run broke a property: record it and end the process.
pub fn violate(class: &str, msg: &str) -> ! {
  disarm_now();
  let sh = shared();
  let text = format!("{}\n{}", class, msg);
  let b = text.as_bytes();
  let n = b.len().min(MSG_CAP);
  sh.msg[..n].copy_from_slice(&b[..n]);
  sh.msg_len = n as u32;
  sh.hash = unsafe { S.hash };
  sh.verdict = 1;
  sys::exit_now(10)
}

/// The simulator itself is wrong: not an outcome of the check.
pub fn harness_error(msg: &str) -> ! {
  disarm_now();
  eprintln!("simulator error: {} (seed {})", msg, shared().seed);
  sys::exit_now(20)
}

pub fn out_of_memory() -> ! {
  violate("memory", "the run used more memory than its bound")
}

fn disarm_now() {
  ARMED.with(|a| a.set(false));
}

// ---- steps ----

pub fn step(site: u32) {
  step_at(site, site);
}

/// A step at a site; `key` is what policies that favour some places go by.
fn step_at(site: u32, key: u32) {
  let s = unsafe { &mut S };
  if !s.active {
    return;
  }
  s.step += 1;
  unsafe {
    COVERED[site as usize & (NSITES - 1)] = 1;
  }
  if s.step > s.budget {
    disarm_now();
    violate("no-progress", &format!("the run did not finish within {} steps; still running: {}", s.budget, describe()));
  }
  let me = task();
  if me >= MAXT {
    return;
  }
  s.off[me] += 1;
  s.burst += 1;
  if s.burst > s.fair {
    fair_switch(me);
  }
  if s.explicit {
    let p = s.ptr[me];
    let d = &s.decs[me];
    if p < d.len() && d[p].op == s.op[me] && d[p].off <= s.off[me] {
      replay_preempt(me);
    }
    return;
  }
  match s.pol {
    Pol::Serial => {}
    Pol::Gap(_) => {
      if s.countdown == 0 {
        explore_preempt(me);
      } else {
        s.countdown -= 1;
      }
    }
    Pol::Pct => {
      if s.step >= s.countdown {
        explore_preempt(me);
      }
    }
    Pol::Hot { mask, salt, num } => {
      if (key ^ salt).wrapping_mul(0x9e37_79b1) >> 15 & mask == 0 && s.rng.chance(num, 8) {
        explore_preempt(me);
      }
    }
    Pol::Sync(num) => {
      if site < SITE_BLOCKS && site != SITE_MEM && s.rng.chance(num, 64) {
        explore_preempt(me);
      }
    }
  }
}

fn others(me: usize) -> ([usize; MAXT], usize) {
  let s = unsafe { &mut S };
  let mut v = [0; MAXT];
  let mut n = 0;
  for t in 0..s.n {
    if t != me && s.st[t] == St::Runnable && s.stalled[t] <= s.step {
      v[n] = t;
      n += 1;
    }
  }
  if n == 0 {
    for t in 0..s.n {
      if t != me && s.st[t] == St::Runnable {
        v[n] = t;
        n += 1;
      }
    }
  }
  (v, n)
}

/// Nobody runs forever while others could: code that spins until another
/// thread moves on must see it move on. A fixed rule, so it is not recorded.
#[cold]
fn fair_switch(me: usize) {
  let s = unsafe { &mut S };
  s.burst = 0;
  s.fair = (s.fair / 2).max(FAIR[1]);
  if let Some(to) = (1..s.n).map(|i| (me + i) % s.n).find(|t| s.st[*t] == St::Runnable) {
    switch_to(me, to);
  }
}

fn explore_preempt(me: usize) {
  let s = unsafe { &mut S };
  if let Pol::Gap(mean) = s.pol {
    s.countdown = s.rng.geometric(mean);
  }
  if let Pol::Pct = s.pol {
    s.pct_low -= 1;
    s.prio[me] = s.pct_low;
    pct_next_point(s);
  }
  if s.preempts_left == 0 || shared().ndec as usize >= DEC_CAP - 64 {
    return;
  }
  let (v, n) = others(me);
  if n == 0 {
    return;
  }
  let to = if let Pol::Pct = s.pol {
    let best = *v[..n].iter().max_by_key(|t| s.prio[**t]).unwrap();
    if s.prio[best] < s.prio[me] {
      return;
    }
    best
  } else {
    if s.stall_num > 0 && s.rng.chance(s.stall_num, 64) {
      s.stalled[me] = s.step + s.rng.geometric(3000);
      stats().stalls += 1;
    }
    v[s.rng.below(n as u64) as usize]
  };
  s.preempts_left -= 1;
  stats().preempts += 1;
  log_dec(b'P', me, to);
  switch_to(me, to);
}

fn pct_next_point(s: &mut Sim) {
  s.countdown = u64::MAX;
  for p in s.pct_points {
    if p > s.step && p < s.countdown {
      s.countdown = p;
    }
  }
}

fn replay_preempt(me: usize) {
  let s = unsafe { &mut S };
  loop {
    let p = s.ptr[me];
    if p >= s.decs[me].len() {
      return;
    }
    let d = s.decs[me][p];
    if d.op != s.op[me] || d.off > s.off[me] {
      return;
    }
    if d.off < s.off[me] {
      s.ptr[me] += 1; // stale: belongs to something a shrink removed
      continue;
    }
    if d.kind != b'P' {
      return;
    }
    s.ptr[me] += 1;
    let to = d.to as usize;
    if to < s.n && to != me && s.st[to] == St::Runnable {
      log_dec(b'P', me, to);
      stats().preempts += 1;
      switch_to(me, to);
    }
    return;
  }
}

/// The recorded decision of this kind at the current point, if any.
fn replay_at(me: usize, kind: u8) -> Option<usize> {
  let s = unsafe { &mut S };
  loop {
    let p = s.ptr[me];
    let d = *s.decs[me].get(p)?;
    if d.op != s.op[me] || d.off > s.off[me] {
      return None;
    }
    if d.off == s.off[me] && d.kind == kind {
      s.ptr[me] += 1;
      return Some(d.to as usize);
    }
    if d.off == s.off[me] && kind == b'S' {
      return None; // a later decision at this very step
    }
    s.ptr[me] += 1;
  }
}

fn switch_to(me: usize, to: usize) {
  let s = unsafe { &mut S };
  s.cur = to;
  s.burst = 0;
  GO[to].store(1, Ordering::Release);
  sys::futex_wake_raw(&GO[to]);
  wait_go(&GO[me]);
}

fn wait_go(w: &AtomicU32) {
  while w.swap(0, Ordering::Acquire) == 0 {
    sys::futex_wait_raw(w, 0);
  }
}

fn describe() -> String {
  let s = unsafe { &mut S };
  (0..s.n)
    .filter(|t| s.st[*t] != St::Done)
    .map(|t| format!("task {} {} in operation {} (step {})", t, if let St::Blocked(..) = s.st[t] { "blocked on a lock" } else { "runnable" }, s.op[t], s.off[t]))
    .collect::<Vec<_>>()
    .join("; ")
}

/// Picks who runs after `me` cannot (blocked or ended); None if nobody can.
fn pick_after(me: usize) -> Option<usize> {
  let s = unsafe { &mut S };
  let (v, n) = others(me);
  if n == 0 {
    return None;
  }
  if s.explicit {
    let want = replay_at(me, b'B');
    let lowest = (0..s.n).find(|t| *t != me && s.st[*t] == St::Runnable);
    let to = match want {
      Some(t) if t < s.n && t != me && s.st[t] == St::Runnable => t,
      _ => lowest.unwrap(),
    };
    log_dec(b'B', me, to);
    return Some(to);
  }
  let to = if let Pol::Pct = s.pol {
    *v[..n].iter().max_by_key(|t| s.prio[**t]).unwrap()
  } else {
    v[s.rng.below(n as u64) as usize]
  };
  log_dec(b'B', me, to);
  Some(to)
}

fn time_out_sleeper() -> Option<usize> {
  let s = unsafe { &mut S };
  let t = (0..s.n).find(|t| matches!(s.st[*t], St::Blocked(_, true)))?;
  s.st[t] = St::Runnable;
  s.now += 1_000_000_000;
  Some(t)
}

pub fn futex_wait(addr: usize, expected: u32, timed: bool) -> i64 {
  let s = unsafe { &mut S };
  let me = task();
  if me == MAIN || !s.active {
    violate("deadlock", "an operation blocks although no other thread is active");
  }
  step(SITE_WAIT);
  let word = unsafe { &*(addr as *const AtomicU32) };
  if word.load(Ordering::SeqCst) != expected {
    return -11;
  }
  if s.explicit {
    if replay_at(me, b'S').is_some() {
      log_dec(b'S', me, me);
      return -4;
    }
  } else if s.spurious_num > 0 && s.rng.chance(s.spurious_num, 16) {
    log_dec(b'S', me, me);
    stats().spurious += 1;
    return -4;
  }
  stats().blocks += 1;
  s.st[me] = St::Blocked(addr, timed);
  let next = pick_after(me).or_else(time_out_sleeper);
  match next {
    None => violate("deadlock", &format!("no thread can run: {}", describe())),
    Some(t) if t == me => return -110,
    Some(t) => switch_to(me, t),
  }
  0
}

pub fn futex_wake(addr: usize, n: u32) -> i64 {
  let s = unsafe { &mut S };
  let me = task();
  if me == MAIN || !s.active {
    return 0;
  }
  let mut woken = 0;
  while woken < n as i64 {
    let mut w = [0; MAXT];
    let mut k = 0;
    for t in 0..s.n {
      if let St::Blocked(a, _) = s.st[t] {
        if a == addr {
          w[k] = t;
          k += 1;
        }
      }
    }
    if k == 0 {
      break;
    }
    let mut t = w[0];
    if k > 1 && (n as usize) < k {
      if s.explicit {
        if let Some(x) = replay_at(me, b'W') {
          if w[..k].contains(&x) {
            t = x;
          }
        }
      } else {
        t = w[s.rng.below(k as u64) as usize];
      }
      log_dec(b'W', me, t);
    }
    s.st[t] = St::Runnable;
    stats().wakes += 1;
    woken += 1;
  }
  step(SITE_WAKE);
  woken
}

pub fn yield_now() {
  let s = unsafe { &mut S };
  let me = task();
  if me >= MAXT || !s.active {
    return;
  }
  step(SITE_YIELD);
  // A yield always lets somebody else run, or spinning would never end.
  let (_, n) = others(me);
  if n > 0 {
    if let Some(t) = pick_after(me) {
      switch_to(me, t);
    }
  }
}

pub fn sleep(ns: u64) {
  let s = unsafe { &mut S };
  s.now += ns;
  yield_now();
}

pub fn sim_now() -> u64 {
  let s = unsafe { &mut S };
  1_700_000_000_000_000_000 + s.now + s.step
}

pub fn fill_random(p: *mut u8, n: usize) {
  let s = unsafe { &mut S };
  for i in 0..n {
    unsafe { *p.add(i) = s.hash_rng.next() as u8 };
  }
}

// ---- callbacks: calls from the library into caller code ----

pub struct Injected(pub u8);

/// Every simulator type's Ord/Clone/Debug/... calls this first.
pub fn callback(kind: u8) {
  if !armed() {
    return;
  }
  step(SITE_CB + kind as u32);
  let s = unsafe { &mut S };
  let me = task();
  if me >= MAXT || std::thread::panicking() {
    return;
  }
  let nth = s.cb[me][kind as usize];
  s.cb[me][kind as usize] += 1;
  if decide_fault(kind, nth) {
    resume_unwind(Box::new(Injected(kind)));
  }
}

fn decide_fault(kind: u8, nth: u64) -> bool {
  let s = unsafe { &mut S };
  let me = task();
  let hit = if s.explicit {
    s.faults.iter().any(|f| f.kind == kind && f.task as usize == me && f.op == s.op[me] && f.nth == nth)
  } else {
    s.fault_mask >> kind & 1 == 1 && s.faults_left > 0 && s.rng.chance(s.fault_num, s.fault_den)
  };
  if hit {
    if !s.explicit {
      s.faults_left -= 1;
    }
    let sh = shared();
    if (sh.nfault as usize) < FAULT_CAP {
      sh.fault[sh.nfault as usize] = Fault { kind, task: me as u8, pad: [0; 2], op: s.op[me], nth };
      sh.nfault += 1;
    }
    s.hash = mix2(s.hash, 0xfa00 + kind as u64 + (nth << 16) + ((s.op[me] as u64) << 40));
    stats().faults[kind as usize] += 1;
    s.fired[me] |= 1 << kind;
  }
  hit
}

/// Kinds of faults fired in the current operation of task t, as a bit mask.
pub fn fired_in_op(t: usize) -> u32 {
  unsafe { S.fired[t] }
}

/// Faults fired so far in this run.
pub fn faults_fired() -> u32 {
  shared().nfault
}

/// A fault decision outside the callbacks of types (kind CB_PASS).
pub fn fault_point(kind: u8) -> bool {
  let s = unsafe { &mut S };
  let me = task();
  if me >= MAXT || !s.active {
    return false;
  }
  let nth = s.cb[me][kind as usize];
  s.cb[me][kind as usize] += 1;
  decide_fault(kind, nth)
}

// ---- running library code and tasks ----

#[derive(Clone, Debug, PartialEq)]
pub enum Panic {
  Injected(u8),
  Other(String),
}

struct ArmGuard(bool);
impl Drop for ArmGuard {
  fn drop(&mut self) {
    ARMED.with(|a| a.set(self.0));
  }
}

/// Runs library code under the simulator.
pub fn lib<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
  let r = {
    let _g = ArmGuard(armed());
    ARMED.with(|a| a.set(true));
    catch_unwind(AssertUnwindSafe(f))
  };
  r.map_err(classify)
}

/// As lib, keeping the panic's payload.
pub fn lib_raw<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
  let _g = ArmGuard(armed());
  ARMED.with(|a| a.set(true));
  catch_unwind(AssertUnwindSafe(f))
}

pub fn classify(p: Box<dyn std::any::Any + Send>) -> Panic {
  classify_ref(&p)
}

pub fn classify_ref(p: &Box<dyn std::any::Any + Send>) -> Panic {
  if let Some(i) = p.downcast_ref::<Injected>() {
    Panic::Injected(i.0)
  } else if let Some(s) = p.downcast_ref::<&str>() {
    Panic::Other(s.to_string())
  } else if let Some(s) = p.downcast_ref::<String>() {
    Panic::Other(s.clone())
  } else {
    Panic::Other("?".to_string())
  }
}

/// Runs harness code called back from library code: no preemption, malloc.
pub fn unarmed<R>(f: impl FnOnce() -> R) -> R {
  let _g = ArmGuard(armed());
  ARMED.with(|a| a.set(false));
  f()
}

/// Begins operation `id` of the current task; a scheduling point.
pub fn begin_op(id: u32) {
  let s = unsafe { &mut S };
  let me = task();
  if me >= MAXT {
    return;
  }
  s.op[me] = id;
  s.off[me] = 0;
  s.cb[me] = [0; CB_KINDS];
  s.fired[me] = 0;
  s.fair = FAIR[0];
  stats().ops += 1;
  if s.explicit {
    if let Some(p) = s.decs[me].iter().position(|d| d.op == id) {
      s.ptr[me] = p;
    } else {
      s.ptr[me] = usize::MAX / 2;
    }
  }
  step(SITE_OP);
}

/// Global event number: order of events in the run.
pub fn now() -> u64 {
  let s = unsafe { &mut S };
  s.step += 1;
  s.step
}

pub fn begin_run(plan: &Plan, budget: u64) {
  let s = unsafe { &mut S };
  let sh = shared();
  sh.seed = plan.seed;
  sh.ndec = 0;
  sh.nfault = 0;
  sh.verdict = 0;
  sh.msg_len = 0;
  s.active = true;
  s.n = 0;
  s.st = [St::Unused; MAXT];
  s.stalled = [0; MAXT];
  s.step = 0;
  s.burst = 0;
  s.fair = FAIR[0];
  s.budget = if plan.get("fine") == 1 { budget * 16 } else { budget };
  s.op = [0; MAXT];
  s.off = [0; MAXT];
  s.cb = [[0; CB_KINDS]; MAXT];
  s.fired = [0; MAXT];
  s.hash = 0x5eed;
  s.now = 0;
  s.hash_rng = Rng::new(mix2(plan.seed, 77));
  s.decs = vec![vec![]; MAXT];
  s.ptr = [usize::MAX / 2; MAXT];
  s.first = None;
  s.faults = vec![];
  match &plan.sched {
    Sched::Explicit { decs, faults } => {
      s.explicit = true;
      for d in decs {
        if d.kind == b'F' {
          s.first = Some(d.to);
        } else if (d.task as usize) < MAXT {
          s.decs[d.task as usize].push(*d);
        }
      }
      s.faults = faults.clone();
      for t in 0..MAXT {
        s.ptr[t] = if s.decs[t].is_empty() { usize::MAX / 2 } else { 0 };
      }
    }
    Sched::Seeded(seed) => {
      s.explicit = false;
      s.rng = Rng::new(mix(*seed));
      let r = &mut s.rng;
      s.preempts_left = 400;
      s.countdown = u64::MAX;
      let k = r.weighted(&[2, 30, 25, 28, 15]);
      stats().policies[k] += 1;
      s.pol = match k {
        0 => Pol::Serial,
        1 => Pol::Gap(*r.pick(&[4, 8, 16, 40, 100, 250, 700, 2000])),
        2 => Pol::Pct,
        3 => Pol::Hot { mask: *r.pick(&[7, 15, 31, 63, 127, 255]), salt: r.next() as u32, num: *r.pick(&[1, 2, 4, 8]) },
        _ => Pol::Sync(*r.pick(&[2, 8, 16, 32, 64])),
      };
      if let Pol::Gap(m) = s.pol {
        s.countdown = r.geometric(m);
      }
      if s.pol == Pol::Pct {
        let scale = 1u64 << r.range(6, 15);
        let mut pts = [0; 4];
        let depth = r.range(1, 4) as usize;
        for p in pts.iter_mut().take(depth) {
          *p = r.below(scale) + 1;
        }
        s.pct_points = pts;
        s.pct_low = 0;
        let mut pr: Vec<i64> = (1..=MAXT as i64).collect();
        r.shuffle(&mut pr);
        s.prio.copy_from_slice(&pr);
        pct_next_point(s);
      }
      s.stall_num = *s.rng.pick(&[0, 0, 4, 16, 40]);
      s.spurious_num = *s.rng.pick(&[0, 0, 2, 6]);
      s.fault_mask = plan.get("faultmask") as u32;
      s.fault_num = 1;
      s.fault_den = (plan.get("faultden") as u64).max(1);
      s.faults_left = plan.get("maxfaults") as u32;
    }
  }
  let mode = plan.get("arena") as u8 % arena::MODES;
  stats().modes[mode as usize] += 1;
  arena::reset(mode, plan.get("arenaseed") as u64);
  unsafe {
    FINE = plan.get("fine") == 1;
  }
  if plan.get("fine") == 1 {
    probe("every heap access a scheduling point");
  }
  TASK.with(|t| t.set(MAIN));
}

/// Ends the run; returns the hash of everything the scheduler decided.
pub fn end_run() -> u64 {
  let s = unsafe { &mut S };
  s.active = false;
  TASK.with(|t| t.set(NOTASK));
  let st = stats();
  st.runs += 1;
  st.steps += s.step;
  let sh = shared();
  sh.runs += 1;
  let h = mix2(s.hash, s.step);
  sh.hash = h;
  h
}

/// Steps of the current operation so far.
pub fn own_steps() -> u64 {
  unsafe { S.off[task().min(MAXT - 1)] }
}

pub fn steps() -> u64 {
  unsafe { S.step }
}

/// Runs `f(t)` for t in 0..n as simulated tasks until all have ended.
pub fn run_tasks(n: usize, f: &(dyn Fn(usize) + Sync)) {
  let s = unsafe { &mut S };
  if n == 0 {
    return;
  }
  assert!(n <= MAXT);
  s.n = n;
  MAIN_GO.store(0, Ordering::SeqCst);
  for t in 0..n {
    s.st[t] = St::Runnable;
    GO[t].store(0, Ordering::SeqCst);
  }
  TASK.with(|t| t.set(NOTASK));
  std::thread::scope(|sc| {
    for t in 0..n {
      std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn_scoped(sc, move || {
          TASK.with(|x| x.set(t));
          wait_go(&GO[t]);
          let r = catch_unwind(AssertUnwindSafe(|| f(t)));
          if let Err(p) = r {
            harness_error(&format!("task {} panicked outside library code: {:?}", t, classify(p)));
          }
          finish(t);
        })
        .expect("spawn");
    }
    let first = if s.explicit {
      match s.first {
        Some(t) if (t as usize) < n => t as usize,
        _ => 0,
      }
    } else if s.pol == Pol::Pct {
      (0..n).max_by_key(|t| s.prio[*t]).unwrap()
    } else {
      s.rng.below(n as u64) as usize
    };
    log_dec(b'F', 0, first);
    s.cur = first;
    s.burst = 0;
    GO[first].store(1, Ordering::Release);
    sys::futex_wake_raw(&GO[first]);
    wait_go(&MAIN_GO);
  });
  TASK.with(|t| t.set(MAIN));
  s.n = 0;
}

fn finish(me: usize) {
  let s = unsafe { &mut S };
  s.st[me] = St::Done;
  let next = pick_after(me).or_else(time_out_sleeper);
  TASK.with(|t| t.set(NOTASK));
  match next {
    Some(t) => {
      s.cur = t;
      s.burst = 0;
      GO[t].store(1, Ordering::Release);
      sys::futex_wake_raw(&GO[t]);
    }
    None => {
      if (0..s.n).any(|t| s.st[t] != St::Done) {
        violate("deadlock", &format!("no thread can run: {}", describe()));
      }
      MAIN_GO.store(1, Ordering::Release);
      sys::futex_wake_raw(&MAIN_GO);
    }
  }
}

// ---- SanitizerCoverage entry points ----

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(g: *const u32) {
  if armed() {
    step(unsafe { *g });
  }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
  unsafe {
    if a == b || *a != 0 {
      return;
    }
    let n = (b as usize - a as usize) / 4;
    for i in 0..n {
      *a.add(i) = SITE_BLOCKS + (NGUARDS - SITE_BLOCKS + i as u32) % (NSITES as u32 - SITE_BLOCKS);
    }
    NGUARDS += n as u32;
  }
}

// Every load and store of the instrumented code, in runs that ask for it: the
// places between two accesses of one basic block are scheduling points too.
// Only memory that can be shared counts: the arena and the image.

static mut FINE: bool = false;

extern "C" {
  static __executable_start: u8;
  static _end: u8;
}

#[inline(always)]
fn access(a: usize) {
  if unsafe { FINE } && armed() {
    fine_step(a);
  }
}

#[inline(never)]
fn fine_step(a: usize) {
  let (lo, hi) = (&raw const __executable_start as usize, &raw const _end as usize);
  let key = if arena::ours(a) {
    a.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20
  } else if (lo..hi).contains(&a) {
    (a - lo).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20
  } else {
    return;
  };
  step_at(SITE_MEM, key as u32 | 1 << 31);
}

macro_rules! accesses {
  ($($n:ident)*) => { $(
    #[no_mangle]
    pub extern "C" fn $n(a: usize) {
      access(a)
    }
  )* };
}
accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
  __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

//! Linearizability: does some order of whole operations, respecting which
//! finished before which began, explain every result?
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hash, Hasher};

pub trait Model: Clone {
  type Op;
  /// Applies the operation; false if its observed result is impossible now.
  fn apply(&mut self, op: &Self::Op) -> bool;
  fn digest(&self) -> u64;
}

pub struct Event<O> {
  pub inv: u64,
  pub ret: u64,
  /// The operation was interrupted: it may have happened, or not at all.
  pub maybe: bool,
  pub op: O,
}

#[derive(Default)]
pub struct Fnv(u64);
impl Hasher for Fnv {
  fn finish(&self) -> u64 {
    self.0
  }
  fn write(&mut self, b: &[u8]) {
    for x in b {
      self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3).rotate_left(5);
    }
  }
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
  let mut h = Fnv(0xcbf29ce484222325);
  t.hash(&mut h);
  crate::rng::mix(h.finish())
}
type Det = BuildHasherDefault<Fnv>;

#[derive(Debug, PartialEq)]
pub enum Verdict {
  Yes,
  /// The events (by index) that could not be explained after the longest prefix.
  No(Vec<usize>),
  GaveUp,
}

pub fn check<M: Model>(init: &M, ev: &[Event<M::Op>], cap: usize) -> Verdict {
  assert!(ev.len() <= 128, "history too long");
  let all: u128 = if ev.len() == 128 { !0 } else { (1u128 << ev.len()) - 1 };
  let mut seen: HashSet<(u128, u64), Det> = HashSet::default();
  let mut best: (u32, u128) = (0, 0);
  let mut work = 0usize;
  // explicit stack: (state, done)
  let mut stack = vec![(init.clone(), 0u128)];
  while let Some((m, done)) = stack.pop() {
    let left = all & !done;
    if (0..ev.len()).all(|i| left >> i & 1 == 0 || ev[i].maybe) {
      return Verdict::Yes;
    }
    if done.count_ones() > best.0 {
      best = (done.count_ones(), done);
    }
    // earliest return among the not yet explained
    let horizon = (0..ev.len()).filter(|i| left >> i & 1 == 1 && !ev[*i].maybe).map(|i| ev[i].ret).min().unwrap();
    for i in (0..ev.len()).rev() {
      if left >> i & 1 == 0 || ev[i].inv > horizon {
        continue;
      }
      work += 1;
      if work > cap {
        return Verdict::GaveUp;
      }
      let mut n = m.clone();
      let nd = done | 1 << i;
      if ev[i].maybe {
        // an interrupted operation past its end can no longer happen
        if ev[i].ret < (0..ev.len()).filter(|j| done >> j & 1 == 1).map(|j| ev[j].inv).max().unwrap_or(0) {
          continue;
        }
      }
      if n.apply(&ev[i].op) && seen.insert((nd, n.digest())) {
        stack.push((n, nd));
      }
    }
  }
  let stuck: Vec<usize> = (0..ev.len()).filter(|i| best.1 >> i & 1 == 0 && !ev[*i].maybe).collect();
  Verdict::No(stuck)
}

//! Threads reading one token stream from many positions: C15.
use crate::types::{clones_in, Baton, Sym};
use bongo::parsers::{Token, TokenStream, VecTokenStream};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, violate, Panic, CB_CLONE, CB_ITER};

type S = VecTokenStream<Sym, Sym>;
/// Kinds are below, values from here on, so that a token can be recognised by
/// what it clones in whatever order.
const VAL: u32 = 500;

struct Held {
  stream: usize,
  pos: usize,
  h: S,
}

#[derive(Default)]
struct World {
  /// the tokens of every stream made
  tokens: Vec<Vec<(u32, u32)>>,
  /// readers everybody uses by reference; never moved or removed during a run
  #[allow(clippy::vec_box)]
  pool: Vec<Box<Held>>,
  own: Vec<Vec<Held>>,
}

static W: Baton<Option<World>> = Baton::new(None);
fn w() -> &'static mut World {
  W.get().as_mut().unwrap()
}

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

struct Source<'a> {
  left: std::slice::Iter<'a, (u32, u32)>,
}
impl Iterator for Source<'_> {
  type Item = Token<Sym, Sym>;
  fn next(&mut self) -> Option<Self::Item> {
    sched::callback(CB_ITER);
    self.left.next().map(|(k, v)| Token::new(Sym(*k), Sym(*v)))
  }
}

fn expected_panic(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

fn make(toks: Vec<(u32, u32)>) -> Option<Held> {
  let r = lib(|| S::from_into_iter(Source { left: toks.iter() }));
  match r {
    Ok(h) => {
      w().tokens.push(toks);
      Some(Held { stream: w().tokens.len() - 1, pos: 0, h })
    }
    Err(p) => {
      expected_panic(p, "making a stream");
      None
    }
  }
}

/// Reads one token; the reader after it, None at the end, Err if interrupted.
fn next(h: &Held) -> Result<Option<Held>, ()> {
  let toks = &w().tokens[h.stream];
  let (stream, pos, len) = (h.stream, h.pos, toks.len());
  let want = toks.get(pos).copied();
  let at = || format!("position {} of a stream of {} tokens", pos, len);
  match lib(|| h.h.next()) {
    Ok(None) => {
      if want.is_some() {
        bad("early-end", format!("{} was reported to be the end", at()));
      }
      probe("end reported");
      Ok(None)
    }
    Ok(Some((t, h))) => {
      let seen = clones_in(|| drop(t.clone()));
      let Some((k, v)) = want else { bad("past-end", format!("{} yields another token {:?}", at(), seen)) };
      if !seen.is_empty() {
        let ks: Vec<u32> = seen.iter().copied().filter(|x| *x < VAL).collect();
        let vs: Vec<u32> = seen.iter().copied().filter(|x| *x >= VAL).collect();
        if ks != [k] || vs != [v] {
          bad("wrong-token", format!("{} yields kind {:?} value {:?}, not {} {}", at(), ks, vs, k, v));
        }
        probe("token read");
      }
      Ok(Some(Held { stream, pos: pos + 1, h }))
    }
    Err(p) => {
      expected_panic(p, &format!("reading {}", at()));
      Err(())
    }
  }
}

fn drain(mut h: Held) {
  let mut tries = 0;
  loop {
    match next(&h) {
      Ok(Some(n)) => {
        let old = std::mem::replace(&mut h, n);
        let _ = lib(|| drop(old));
      }
      Ok(None) => {
        tries += 10;
        if tries > 20 {
          break;
        }
      }
      Err(()) => {
        tries += 1;
        if tries > 30 {
          break;
        }
      }
    }
  }
  let _ = lib(|| drop(h));
}

fn copy(h: &Held) -> Option<Held> {
  match lib(|| h.h.clone()) {
    Ok(c) => Some(Held { stream: h.stream, pos: h.pos, h: c }),
    Err(p) => {
      expected_panic(p, "cloning a reader");
      None
    }
  }
}

fn tokens_of(o: &Op) -> Vec<(u32, u32)> {
  o.a.iter().map(|x| ((x.unsigned_abs() % 100) as u32, VAL + (x.unsigned_abs() / 100) as u32)).collect()
}

fn task(t: usize, ops: &[Op]) {
  for o in ops {
    sched::begin_op(o.id);
    let n = w().own[t].len();
    match o.code.as_str() {
      "stream" => {
        if let Some(h) = make(tokens_of(o)) {
          w().own[t].push(h);
        }
      }
      "long" => {
        let n = o.arg(0).clamp(0, 100_000);
        if let Some(h) = make((0..n).map(|i| ((i % 11) as u32, VAL + i as u32)).collect()) {
          probe("long stream");
          drain(h);
        }
      }
      // very many readers of one stream, at one place
      "crowd" if n > 0 => {
        let h = w().own[t].swap_remove(o.idx(0, n));
        let mut all = vec![];
        for _ in 0..o.arg(1).clamp(0, 70_000) {
          match copy(&h) {
            Some(c) => all.push(c),
            None => break,
          }
        }
        probe("very many readers");
        for k in [0, all.len() / 2, all.len().saturating_sub(1)] {
          if let Some(Ok(Some(x))) = all.get(k).map(next) {
            let _ = next(&x);
            let _ = lib(|| drop(x));
          }
        }
        let keep = all.pop();
        for x in all {
          let _ = lib(|| drop(x));
        }
        drain(h);
        w().own[t].extend(keep);
      }
      // advance one of my readers, keeping the old position too if asked to
      "next" if n > 0 => {
        let i = o.idx(0, n);
        let h = w().own[t].swap_remove(i);
        if let Ok(Some(x)) = next(&h) {
          w().own[t].push(x);
        }
        if o.arg(1) % 2 == 1 && n < 40 {
          w().own[t].push(h);
        } else {
          let _ = lib(|| drop(h));
        }
      }
      "again" if n > 0 => {
        let i = o.idx(0, n);
        let h = w().own[t].swap_remove(i);
        let _ = next(&h);
        let _ = next(&h);
        probe("same position read twice");
        w().own[t].push(h);
      }
      "clone" if n > 0 => {
        let i = o.idx(0, n);
        let h = w().own[t].swap_remove(i);
        if let Some(c) = copy(&h) {
          w().own[t].push(c);
        }
        w().own[t].push(h);
      }
      "drop" if n > 0 => {
        let h = w().own[t].swap_remove(o.idx(0, n));
        let _ = lib(|| drop(h));
      }
      "drain" if n > 0 => {
        let h = w().own[t].swap_remove(o.idx(0, n));
        drain(h);
      }
      "share" if n > 0 => {
        let h = w().own[t].swap_remove(o.idx(0, n));
        w().pool.push(Box::new(h));
      }
      // use a reader others are using at the same time
      "pool" => {
        let k = w().pool.len();
        if k > 0 {
          let h: &'static Held = unsafe { &*(&*w().pool[o.idx(0, k)] as *const Held) };
          probe("reader used by several threads");
          match o.arg(1).rem_euclid(3) {
            0 => {
              if let Ok(Some(x)) = next(h) {
                w().own[t].push(x);
              }
            }
            1 => {
              if let Some(c) = copy(h) {
                w().own[t].push(c);
              }
            }
            _ => {
              if let Some(c) = copy(h) {
                drain(c);
              }
            }
          }
        }
      }
      _ => {}
    }
  }
}

struct Ops<'a>(&'a Vec<Vec<Op>>);
unsafe impl Sync for Ops<'_> {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, 20_000_000);
  let n = p.tasks().min(sched::MAXT);
  *W.get() = Some(World::default());
  w().own.resize_with(n.max(1), Vec::new);
  let shared = p.get("shared").clamp(0, 3);
  for s in 0..shared {
    let len = p.get("len").clamp(0, 40);
    let toks = (0..len).map(|i| ((i % 7) as u32 + s as u32 * 10, VAL + i as u32)).collect();
    if let Some(h) = make(toks) {
      w().pool.push(Box::new(h));
    }
  }
  let ops: Vec<Vec<Op>> = (0..n).map(|t| p.task_ops(t)).collect();
  let ops = Ops(&ops);
  sched::run_tasks(n, &|t| task(t, &(&ops).0[t]));
  // whatever happened, every reader left still reads the rest
  let world = std::mem::take(w());
  w().tokens = world.tokens;
  for h in world.own.into_iter().flatten() {
    drain(h);
  }
  for h in world.pool {
    drain(*h);
  }
  *W.get() = None;
  if n == 1 {
    sched::mark_nontrivial();
  }
  sched::end_run()
}

pub fn gen(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("stream", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  p.set("shared", r.range(0, 2));
  p.set("len", *r.pick(&[0, 1, 2, 3, 5, 9]));
  if r.chance(1, 2) {
    p.set("faultmask", *r.pick(&[1 << CB_CLONE, 1 << CB_CLONE, (1 << CB_CLONE) | (1 << CB_ITER)]));
    p.set("faultden", *r.pick(&[2, 4, 10, 40]));
    p.set("maxfaults", r.range(1, 8));
  }
  let tasks = *r.pick(&[1, 2, 2, 3, 4]);
  let len = *r.pick(&[2, 4, 8, 16]);
  let mut huge = false;
  p.set("fine", (tasks > 1 && r.chance(1, 3)) as i64);
  for t in 0..tasks {
    for i in 0..len {
      let a = r.below(64) as i64;
      match if i == 0 && r.chance(1, 2) { 0 } else { r.weighted(&[2, 8, 2, 3, 2, 1, 2, 8]) } {
        0 => {
          let n = *r.pick(&[0, 1, 1, 2, 3, 4, 8, 20]);
          let same = r.chance(1, 4);
          let toks = (0..n).map(|i| if same { 1 } else { r.below(4) as i64 + 100 * i }).collect();
          p.push(t, "stream", toks);
        }
        1 => p.push(t, "next", vec![a, r.below(2) as i64]),
        2 => p.push(t, "again", vec![a]),
        3 => p.push(t, "clone", vec![a]),
        4 => p.push(t, "drop", vec![a]),
        5 => p.push(t, "drain", vec![a]),
        6 => p.push(t, "share", vec![a]),
        _ if r.chance(1, 200) && !huge => {
          // past what fits into sixteen bits, now and then
          let n = *r.pick(&[70, 130, 260, 300, 1030, 260, 300, 33_000, 65_540]);
          huge = n > 2000;
          p.push(t, "long", vec![n]);
        }
        _ if r.chance(1, 300) && !huge => {
          let n = *r.pick(&[130, 254, 255, 256, 257, 300, 1030, 65_540]);
          huge = n > 2000;
          p.push(t, "crowd", vec![a, n]);
        }
        _ => p.push(t, "pool", vec![a, r.below(3) as i64]),
      }
    }
  }
  p
}

//! Fixed points over tables (C17) and collecting maps (C18), interrupted anywhere.
use crate::gram::SETUP;
use crate::types::Sym;
use bongo::utils::{apply_fixed_point, change_iter, change_loop, fixed_point, merge_value_pairs, CollectMap, FixedPointProcessor, WasChanged};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, violate, Panic, CB_CLONE, CB_CMP, CB_ITER, CB_MERGE, CB_STEP};
use std::collections::{BTreeMap, BTreeSet};

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

/// True if interrupted by a fault; anything else is a violation.
fn interrupted(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

// ---- fixed points ----

/// Once table[from] has all bits of `need`, `to` gets (table[from] & mask) | or.
#[derive(Clone, Debug)]
struct RuleOf {
  from: u32,
  need: u64,
  mask: u64,
  or: u64,
  to: u32,
}

type Plain = BTreeMap<u32, u64>;

fn round(rules: &[RuleOf], t: &Plain) -> Plain {
  let mut out = t.clone();
  for r in rules {
    if let Some(v) = t.get(&r.from) {
      if v & r.need == r.need {
        *out.entry(r.to).or_insert(0) |= (v & r.mask) | r.or;
      }
    }
  }
  out
}

fn least(rules: &[RuleOf], start: &Plain) -> Plain {
  let mut t = start.clone();
  loop {
    let n = round(rules, &t);
    if n == t {
      return t;
    }
    t = n;
  }
}

fn below(a: &Plain, b: &Plain) -> bool {
  a.iter().all(|(k, v)| b.get(k).is_some_and(|w| v & !w == 0))
}

/// The caller's values; how they are joined is the caller's business.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Bits(u64);

struct Proc<'a> {
  rules: &'a [RuleOf],
  late: bool,
  /// At each step, what follows is itself found as a fixed point.
  within: Option<&'a [RuleOf]>,
}

impl Proc<'_> {
  fn join(&self, target: &mut Bits, other: u64) -> WasChanged {
    sched::callback(CB_MERGE);
    let old = target.0;
    target.0 |= other;
    if self.late {
      sched::callback(CB_MERGE);
    }
    WasChanged::from_changed(old != target.0)
  }
}

impl FixedPointProcessor<Sym, Bits> for Proc<'_> {
  fn next(&self, key: &Sym, value: &Bits) -> Vec<(Sym, Bits)> {
    sched::callback(CB_STEP);
    if let Some(rules) = self.within {
      // steps to everything that this entry alone leads to
      let start = Plain::from([(key.0, value.0)]);
      let mut t = sched::unarmed(|| table(&start));
      apply_fixed_point(&Proc { rules, late: self.late, within: None }, &mut t);
      if sched::unarmed(|| plain(&t) != least(rules, &start)) {
        bad("not-least", format!("within another fixed point: {:x?} from {}", plain(&t), show(rules, &start)));
      }
    }
    self.rules.iter().filter(|r| r.from == key.0 && value.0 & r.need == r.need).map(|r| (Sym(r.to), Bits((value.0 & r.mask) | r.or))).collect()
  }
  fn merge(&self, target: &mut Bits, other: Bits) -> WasChanged {
    self.join(target, other.0)
  }
}

fn plain(t: &BTreeMap<Sym, Bits>) -> Plain {
  t.iter().map(|(k, v)| (k.0, v.0)).collect()
}

fn table(t: &Plain) -> BTreeMap<Sym, Bits> {
  t.iter().map(|(k, v)| (Sym(*k), Bits(*v))).collect()
}

fn show(rules: &[RuleOf], start: &Plain) -> String {
  let mut s = format!("start {:x?}\n", start);
  for r in rules {
    s.push_str(&format!("  {} (if all of {:x}) -> {} gets & {:x} | {:x}\n", r.from, r.need, r.to, r.mask, r.or));
  }
  s
}

const ATTEMPTS: usize = 40;

fn run_driver(driver: usize, late: bool, within: Option<&[RuleOf]>, attempts: usize, rules: &[RuleOf], start: &Plain) -> Plain {
  let want = least(rules, start);
  let mut target = table(start);
  let proc = Proc { rules, late, within };
  let name = ["apply_fixed_point", "change_loop", "fixed_point"][driver];
  for attempt in 0..attempts {
    let before = plain(&target);
    let r = match driver {
      0 => lib(|| apply_fixed_point(&proc, &mut target)),
      1 => lib(|| {
        change_loop(|| {
          change_iter(rules.iter(), |r| {
            sched::callback(CB_STEP);
            let Some(v) = target.get(&Sym(r.from)) else { return WasChanged::Unchanged };
            if v.0 & r.need != r.need {
              return WasChanged::Unchanged;
            }
            let add = (v.0 & r.mask) | r.or;
            match target.get_mut(&Sym(r.to)) {
              Some(t) => proc.join(t, add),
              None => {
                target.insert(Sym(r.to), Bits(add));
                WasChanged::Changed
              }
            }
          })
        })
      }),
      _ => lib(|| {
        let first: BTreeMap<Sym, Bits> = target.iter().map(|(k, v)| (Sym(k.0), v.clone())).collect();
        fixed_point(first, |t| {
          sched::callback(CB_STEP);
          sched::unarmed(|| table(&round(rules, &plain(t))))
        })
      })
      .map(|t| target = t),
    };
    let now = plain(&target);
    match r {
      Ok(()) => {
        if now != want {
          bad("not-least", format!("{} ends with {:x?}, not {:x?}, after {} interruptions, from {}", name, now, want, attempt, show(rules, start)));
        }
        probe(if attempt == 0 { "finished undisturbed" } else { "finished after interruptions" });
        break;
      }
      Err(p) => {
        interrupted(p, &format!("{} on {}", name, show(rules, start)));
        if !below(&before, &now) {
          bad("lost", format!("{}: interrupted, the table went from {:x?} to {:x?}, from {}", name, before, now, show(rules, start)));
        }
        if !below(&now, &want) {
          bad("too-much", format!("{}: interrupted, the table holds {:x?}, which is not within {:x?}, from {}", name, now, want, show(rules, start)));
        }
        if now != before {
          probe("interrupted with part of the work done");
        }
      }
    }
  }
  let r = plain(&target);
  let _ = lib(|| drop(target));
  r
}

fn fix_task(p: &Plan, ops: &[Op]) {
  let mut start = Plain::new();
  let mut rules = vec![];
  for o in &p.ops {
    match o.code.as_str() {
      "start" => {
        *start.entry(o.arg(0) as u32).or_insert(0) |= o.arg(1) as u64;
      }
      "rule" => rules.push(RuleOf { from: o.arg(0) as u32, need: o.arg(1) as u64, mask: o.arg(2) as u64, or: o.arg(3) as u64, to: o.arg(4) as u32 }),
      _ => {}
    }
  }
  let mut last = None;
  for o in ops {
    sched::begin_op(o.id);
    if o.code == "fix" {
      let driver = o.idx(0, 3);
      let late = o.arg(1) % 2 == 1;
      // from the start again, from the last answer, or from that and more
      let from = match (o.arg(2).rem_euclid(3), &last) {
        (1, Some(l)) => {
          probe("run again on a finished table");
          Plain::clone(l)
        }
        (2, Some(l)) => {
          probe("run again on a finished table with additions");
          let mut m = Plain::clone(l);
          *m.entry(o.arg(3) as u32).or_insert(0) |= o.arg(4) as u64;
          m
        }
        _ => start.clone(),
      };
      let within = (o.arg(5) % 4 == 3).then_some(&rules[..rules.len().min(8)]);
      // an interrupted one may be given up
      let attempts = if o.arg(6) % 3 == 2 { 1 } else { ATTEMPTS };
      last = Some(run_driver(driver, late, within, attempts, &rules, &from));
    }
  }
}

pub fn run_fix(p: &Plan) -> u64 {
  sched::begin_run(p, 400_000_000);
  let ops: Vec<Op> = p.task_ops(0);
  let shared = Single(p, &ops);
  sched::run_tasks(1, &|_| {
    let s = &shared;
    fix_task(s.0, s.1)
  });
  sched::mark_nontrivial();
  sched::end_run()
}

struct Single<'a>(&'a Plan, &'a [Op]);
unsafe impl Sync for Single<'_> {}

pub fn gen_fix(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("fix", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  if r.chance(4, 5) {
    let all = [CB_CMP, CB_CLONE, CB_STEP, CB_MERGE];
    let mask = if r.chance(1, 2) { 1 << *r.pick(&all) } else { all.iter().map(|k| 1i64 << k).sum() };
    p.set("faultmask", mask);
    p.set("faultden", *r.pick(&[3, 10, 30, 100, 300]));
    p.set("maxfaults", *r.pick(&[1, 2, 3, 6, 20]));
  }
  let large = r.chance(1, 60) || std::env::var_os("SIM_LARGE").is_some();
  let nk = if large { *r.pick(&[33, 65, 70, 129, 257, 300]) } else { *r.pick(&[1, 2, 3, 5, 8, 12]) };
  let keys: Vec<i64> = (0..nk).map(|_| r.below(if large { 5000 } else { 60 }) as i64).collect();
  let bits = if large { *r.pick(&[1u64, 8, 16, 40]) } else { *r.pick(&[1u64, 2, 4, 8]) };
  let some = |r: &mut Rng| if r.chance(1, 4) { 0 } else { (r.below(1 << bits)) as i64 };
  for _ in 0..r.range(0, 3) {
    let (k, v) = (*r.pick(&keys), some(&mut r));
    p.push(SETUP, "start", vec![k, v]);
  }
  let chain = r.chance(1, 3);
  let nr = if chain { nk } else { r.range(0, 3 * nk) };
  for i in 0..nr {
    let (from, to) = if chain { (keys[i as usize], keys[((i + 1) % nk) as usize]) } else { (*r.pick(&keys), *r.pick(&keys)) };
    let need = if r.chance(1, 2) { 0 } else { some(&mut r) };
    let mask = if r.chance(1, 2) { (1 << bits) - 1 } else { some(&mut r) };
    let or = if r.chance(1, 2) { 0 } else { 1 << r.below(bits) };
    p.push(SETUP, "rule", vec![from, need, mask, or, to]);
  }
  for _ in 0..r.range(1, 4) {
    let (d, late, from) = (r.weighted(&[4, 1, 1]) as i64, r.below(2) as i64, r.below(3) as i64);
    let (k, v) = (*r.pick(&keys), some(&mut r));
    p.push(0, "fix", vec![d, late, from, k, v, r.below(4) as i64, r.below(3) as i64]);
  }
  p
}

// ---- collecting maps ----

type Model = BTreeMap<u32, BTreeSet<u32>>;
type M = CollectMap<Sym, Sym>;

/// The caller's values; some sources keep a map of their own.
struct Source<'a>(std::slice::Iter<'a, i64>, Option<&'a mut (M, Model)>);
impl Iterator for Source<'_> {
  type Item = Sym;
  fn next(&mut self) -> Option<Sym> {
    sched::callback(CB_ITER);
    let v = *self.0.next()? as u32;
    if let Some((m, model)) = &mut self.1 {
      let ch = m.insert(Sym(v % 5), Sym(v));
      if (ch == WasChanged::Changed) != model.entry(v % 5).or_default().insert(v) {
        bad("changed", format!("inserting {} within another update reported {:?}", v, ch));
      }
    }
    Some(Sym(v))
  }
}

struct Pairs<'a>(std::slice::Chunks<'a, i64>);
impl Iterator for Pairs<'_> {
  type Item = (Sym, Sym);
  fn next(&mut self) -> Option<(Sym, Sym)> {
    sched::callback(CB_ITER);
    self.0.next().map(|c| (Sym(c[0] as u32), Sym(c.get(1).copied().unwrap_or(0) as u32)))
  }
}

fn raw_sets<'a>(it: impl Iterator<Item = (&'a Sym, &'a BTreeSet<Sym>)>, out: &mut Vec<(u32, Vec<u32>)>) {
  for (k, v) in it {
    out.push((k.0, v.iter().map(|x| x.0).collect()));
  }
}

/// What a map says it holds; keys without values do not count.
fn contents(raw: Vec<(u32, Vec<u32>)>, what: &str) -> Model {
  let mut m = Model::new();
  for (k, vs) in raw {
    let set: BTreeSet<u32> = vs.iter().copied().collect();
    if set.len() != vs.len() {
      bad("torn", format!("{}: key {} lists a value twice: {:?}", what, k, vs));
    }
    if m.insert(k, set).is_some() {
      bad("torn", format!("{}: key {} is listed twice", what, k));
    }
  }
  m.retain(|_, s| !s.is_empty());
  m
}

fn within(a: &Model, b: &Model) -> bool {
  a.iter().all(|(k, s)| b.get(k).is_some_and(|t| s.is_subset(t)))
}

fn model_of(seed: &[i64]) -> Model {
  let mut m = Model::new();
  for c in seed.chunks(2) {
    m.entry(c[0] as u32).or_default().insert(c.get(1).copied().unwrap_or(0) as u32);
  }
  m
}

fn seed_of(m: &Model) -> BTreeMap<Sym, BTreeSet<Sym>> {
  m.iter().map(|(k, v)| (Sym(*k), v.iter().map(|x| Sym(*x)).collect())).collect()
}

fn map_task(ops: &[Op]) {
  let mut map = M::new();
  let mut model = Model::new();
  let mut second = (M::new(), Model::new());
  for o in ops {
    sched::begin_op(o.id);
    let k = o.arg(0) as u32;
    let rest = o.a.get(1..).unwrap_or(&[]);
    let what = format!("{} {:?} on {:?}", o.code, o.a, model);
    let mut intended = model.clone();
    let r = match o.code.as_str() {
      "insert" => {
        let v = o.arg(1) as u32;
        intended.entry(k).or_default().insert(v);
        lib(|| map.insert(Sym(k), Sym(v)))
      }
      "bulk" => {
        if !rest.is_empty() {
          intended.entry(k).or_default().extend(rest.iter().map(|x| *x as u32));
        }
        lib(|| map.insert_iter(Sym(k), Source(rest.iter(), None)))
      }
      "nested" => {
        if !rest.is_empty() {
          intended.entry(k).or_default().extend(rest.iter().map(|x| *x as u32));
        }
        let mut own = (M::new(), Model::new());
        let r = lib(|| map.insert_iter(Sym(k), Source(rest.iter(), Some(&mut own))));
        let mut raw = vec![];
        raw_sets(own.0.iter(), &mut raw);
        let got = contents(raw, &what);
        let mut all = Model::new();
        rest.iter().for_each(|x| {
          all.entry(*x as u32 % 5).or_default().insert(*x as u32);
        });
        if !within(&own.1, &got) || !within(&got, &all) || r.is_ok() && got != all {
          bad("effect", format!("{}: its source's map holds {:?} instead of {:?}", what, got, all));
        }
        let _ = lib(|| drop(own));
        probe("updated while another update was running");
        r
      }
      "swap" => {
        std::mem::swap(&mut map, &mut second.0);
        std::mem::swap(&mut model, &mut second.1);
        continue;
      }
      "copy" => {
        let src = o.arg(1) as u32;
        if let Some(s) = model.get(&src).cloned() {
          intended.entry(k).or_default().extend(s);
        }
        lib(|| map.insert_from_key_set(Sym(k), Sym(src)))
      }
      "seed" => {
        model = model_of(&o.a);
        map = M::from_seed(seed_of(&model));
        continue;
      }
      "fresh" => {
        model.clear();
        map = if o.arg(0) % 2 == 0 { M::new() } else { M::default() };
        continue;
      }
      "get" => {
        let want = model.get(&k).cloned().unwrap_or_default();
        match lib(|| map.get(&Sym(k)).map(|s| s.iter().map(|x| x.0).collect::<BTreeSet<u32>>())) {
          Ok(got) => {
            if got.clone().unwrap_or_default() != want {
              bad("contents", format!("{}: get says {:?}", what, got));
            }
          }
          Err(p) => interrupted(p, &what),
        }
        continue;
      }
      "inner" => {
        let old = std::mem::take(&mut map);
        match lib(|| old.into_inner()) {
          Ok(inner) => {
            let mut raw = vec![];
            raw_sets(inner.iter(), &mut raw);
            if contents(raw, &what) != model {
              bad("contents", format!("{}: into_inner holds {:?}", what, inner.iter().map(|(k, v)| (k.0, v.iter().map(|x| x.0).collect())).collect::<Model>()));
            }
            map = M::from_seed(inner);
          }
          Err(p) => interrupted(p, &what),
        }
        probe("taken apart and put together");
        continue;
      }
      "pairs" => {
        match lib(|| merge_value_pairs(Pairs(o.a.chunks(2)))) {
          Ok(m) => {
            let mut raw = vec![];
            raw_sets(m.iter(), &mut raw);
            if contents(raw, &what) != model_of(&o.a) {
              bad("contents", format!("merge_value_pairs of {:?} is wrong", o.a));
            }
            probe("pairs collected");
            let _ = lib(|| drop(m));
          }
          Err(p) => interrupted(p, &what),
        }
        continue;
      }
      _ => continue,
    };
    let mut raw = vec![];
    raw_sets(map.iter(), &mut raw);
    let now = contents(raw, &what);
    match r {
      Ok(ch) => {
        if now != intended {
          bad("effect", format!("{} left {:?} instead of {:?}", what, now, intended));
        }
        if (ch == WasChanged::Changed) != (intended != model) {
          bad("changed", format!("{} reported {:?}", what, ch));
        }
        probe(if intended != model { "changing update" } else { "unchanging update" });
      }
      Err(p) => {
        interrupted(p, &what);
        if !within(&model, &now) {
          bad("lost", format!("{}, interrupted, left {:?}", what, now));
        }
        if !within(&now, &intended) {
          bad("invented", format!("{}, interrupted, left {:?}", what, now));
        }
        if now != model {
          probe("interrupted with part of the update done");
        }
      }
    }
    model = now;
  }
  let mut raw = vec![];
  raw_sets(second.0.iter(), &mut raw);
  if contents(raw, "the other map") != second.1 {
    bad("effect", format!("the other map is not {:?} any more", second.1));
  }
  let _ = lib(|| drop(map));
  let _ = lib(|| drop(second));
}

pub fn run_map(p: &Plan) -> u64 {
  sched::begin_run(p, 100_000_000);
  let ops: Vec<Op> = p.task_ops(0);
  let shared = Single(p, &ops);
  sched::run_tasks(1, &|_| {
    let s = &shared;
    map_task(s.1)
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen_map(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("map", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  if r.chance(4, 5) {
    let all = [CB_CMP, CB_CLONE, CB_ITER];
    let mask = if r.chance(1, 2) { 1 << *r.pick(&all) } else { all.iter().map(|k| 1i64 << k).sum() };
    p.set("faultmask", mask);
    p.set("faultden", *r.pick(&[3, 10, 30, 100]));
    p.set("maxfaults", *r.pick(&[1, 2, 3, 6, 20]));
  }
  let large = r.chance(1, 12) || std::env::var_os("SIM_LARGE").is_some();
  let nk = if large { *r.pick(&[1u64, 2, 5, 40, 300]) } else { *r.pick(&[1u64, 2, 3, 5, 16]) };
  let nv = if large { *r.pick(&[40u64, 70, 140, 300, 2000]) } else { *r.pick(&[1u64, 2, 4, 8, 40]) };
  let list = |r: &mut Rng, pairs: bool| -> Vec<i64> {
    let n = if large { *r.pick(&[3, 20, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 130, 256, 257, 300]) } else { *r.pick(&[0, 0, 1, 1, 2, 3, 6, 20]) };
    (0..if pairs { 2 * n } else { n }).map(|i| if pairs && i % 2 == 0 { r.below(nk) as i64 } else { r.below(nv) as i64 }).collect()
  };
  for _ in 0..*r.pick(&[2, 4, 8, 16, 30]) {
    let k = r.below(nk) as i64;
    match r.weighted(&[6, 5, 8, 1, 1, 2, 1, 1, 2, 1]) {
      0 => p.push(0, "insert", vec![k, r.below(nv) as i64]),
      1 => {
        let mut a = vec![k];
        a.extend(list(&mut r, false));
        p.push(0, "bulk", a);
      }
      2 => p.push(0, "copy", vec![k, r.below(nk) as i64]),
      3 => {
        let a = list(&mut r, true);
        p.push(0, "seed", a);
      }
      4 => p.push(0, "fresh", vec![r.below(2) as i64]),
      5 => p.push(0, "get", vec![k]),
      6 => p.push(0, "inner", vec![]),
      8 => {
        let mut a = vec![k];
        a.extend(list(&mut r, false));
        p.push(0, "nested", a);
      }
      9 => p.push(0, "swap", vec![]),
      _ => {
        let a = list(&mut r, true);
        p.push(0, "pairs", a);
      }
    }
  }
  p
}

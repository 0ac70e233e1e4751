//! Heterogeneous maps, interrupted anywhere (C19).
use crate::types::{Baton, Sym};
use bongo::utils::type_map::{TypeKey, TypeMap};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, violate, Panic, CB_CMP};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

/// Keys that look the same but for the type; several marks have one name.
struct Key<M>(Sym, PhantomData<M>);
impl<M> PartialEq for Key<M> {
  fn eq(&self, o: &Self) -> bool {
    self.0 == o.0
  }
}
impl<M> Eq for Key<M> {}
impl<M> PartialOrd for Key<M> {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl<M> Ord for Key<M> {
  fn cmp(&self, o: &Self) -> Ordering {
    self.0.cmp(&o.0)
  }
}

/// The only key of its type.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Only;

/// A large key that carries more than what it is compared by.
struct Wide(#[allow(dead_code)] [u64; 9], Sym);
impl PartialEq for Wide {
  fn eq(&self, o: &Self) -> bool {
    self.1 == o.1
  }
}
impl Eq for Wide {}
impl PartialOrd for Wide {
  fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
    Some(self.cmp(o))
  }
}
impl Ord for Wide {
  fn cmp(&self, o: &Self) -> Ordering {
    o.1.cmp(&self.1)
  }
}

static LIVE: Baton<BTreeSet<u64>> = Baton::new(BTreeSet::new());

/// A value that is dropped exactly once.
struct Val<const T: usize> {
  key: u32,
  serial: u64,
}
impl<const T: usize> Val<T> {
  fn new(key: u32, serial: u64) -> Self {
    sched::unarmed(|| LIVE.get().insert(serial));
    Val { key, serial }
  }
}
impl<const T: usize> Drop for Val<T> {
  fn drop(&mut self) {
    sched::unarmed(|| {
      if !LIVE.get().remove(&self.serial) {
        bad("torn", format!("value {} of key {} of type {} is dropped twice", self.serial, self.key, T));
      }
    })
  }
}

trait Kind: TypeKey {
  fn key(k: u32) -> Self;
  fn value(k: u32, serial: u64) -> Self::ValueType;
  fn read(v: &Self::ValueType) -> (usize, u32, u64);
  fn write(v: &mut Self::ValueType, k: u32, serial: u64);
}

macro_rules! kind {
  ($no:expr, $t:ty, $k:ident => $make:expr) => {
    impl TypeKey for $t {
      type ValueType = Val<$no>;
    }
    impl Kind for $t {
      fn key($k: u32) -> Self {
        $make
      }
      fn value(k: u32, serial: u64) -> Val<$no> {
        Val::new(k, serial)
      }
      fn read(v: &Val<$no>) -> (usize, u32, u64) {
        ($no, v.key, v.serial)
      }
      fn write(v: &mut Val<$no>, k: u32, serial: u64) {
        *v = Val::new(k, serial)
      }
    }
  };
}

struct First;
struct Second;
kind!(0, Key<First>, k => Key(Sym(k), PhantomData));
kind!(1, Key<Second>, k => Key(Sym(k), PhantomData));
kind!(4, Only, _k => Only);
kind!(5, Wide, k => Wide([k as u64; 9], Sym(k)));

const KINDS: usize = 8;

/// What to do with a key of some type.
trait Do {
  fn with<K: Kind>(&mut self);
}

/// Among them two types of one name, and two whose values are of one type.
macro_rules! dispatch {
  ($no:expr, $d:expr) => {
    match $no % KINDS {
      0 => $d.with::<Key<First>>(),
      1 => $d.with::<Key<Second>>(),
      2 => twins::one_name(true, $d),
      3 => twins::one_name(false, $d),
      4 => $d.with::<Only>(),
      5 => $d.with::<Wide>(),
      6 => $d.with::<Plain>(),
      _ => $d.with::<Unsigned>(),
    }
  };
}

mod twins {
  use super::*;
  pub fn one_name(first: bool, d: &mut impl Do) {
    if first {
      struct Id;
      kind!(2, Key<Id>, k => Key(Sym(k), PhantomData));
      d.with::<Key<Id>>();
    } else {
      struct Id;
      kind!(3, Key<Id>, k => Key(Sym(k), PhantomData));
      d.with::<Key<Id>>();
    }
  }
}

/// Built-in types as keys' insides, values of one type.
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Plain(u32);
#[derive(PartialEq, Eq, PartialOrd, Ord)]
struct Unsigned(u32);

macro_rules! shared_values {
  ($no:expr, $t:ident) => {
    impl TypeKey for $t {
      type ValueType = Box<(usize, u32, u64)>;
    }
    impl Kind for $t {
      fn key(k: u32) -> Self {
        $t(k)
      }
      fn value(k: u32, serial: u64) -> Self::ValueType {
        Box::new(($no, k, serial))
      }
      fn read(v: &Self::ValueType) -> (usize, u32, u64) {
        **v
      }
      fn write(v: &mut Self::ValueType, k: u32, serial: u64) {
        **v = ($no, k, serial)
      }
    }
  };
}
shared_values!(6, Plain);
shared_values!(7, Unsigned);

type At = (usize, u32);
type Model = BTreeMap<At, u64>;

fn at(kind: usize, k: u32) -> At {
  (kind % KINDS, if kind % KINDS == 4 { 0 } else { k })
}

struct Insert<'a>(&'a mut TypeMap, u32, u64);
impl Do for Insert<'_> {
  fn with<K: Kind>(&mut self) {
    let (k, v) = (K::key(self.1), K::value(self.1, self.2));
    self.0.insert(k, v);
  }
}
struct Get<'a>(&'a TypeMap, u32, Option<(usize, u32, u64)>);
impl Do for Get<'_> {
  fn with<K: Kind>(&mut self) {
    self.2 = self.0.get(&K::key(self.1)).map(K::read);
  }
}
/// Reads through the mutable reference, and writes if told to.
struct GetMut<'a>(&'a mut TypeMap, u32, Option<u64>, Option<(usize, u32, u64)>);
impl Do for GetMut<'_> {
  fn with<K: Kind>(&mut self) {
    if let Some(v) = self.0.get_mut(&K::key(self.1)) {
      self.3 = Some(K::read(v));
      if let Some(serial) = self.2 {
        K::write(v, self.1, serial);
      }
    }
  }
}

fn interrupted(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

/// What a map holds, by asking for every key.
fn contents(m: &TypeMap, keys: u32, what: &str) -> Model {
  let mut out = Model::new();
  for kind in 0..KINDS {
    for k in 0..keys {
      let mut g = Get(m, k, None);
      dispatch!(kind, &mut g);
      if let Some((t, key, serial)) = g.2 {
        if at(t, key) != at(kind, k) {
          bad("mixed", format!("{}: key {} of type {} leads to a value of key {} of type {}", what, k, kind, key, t));
        }
        out.insert(at(kind, k), serial);
      }
    }
  }
  out
}

fn map_task(ops: &[Op], keys: u32) {
  let mut maps: Vec<TypeMap> = (0..3).map(|_| TypeMap::new()).collect();
  let mut models = vec![Model::new(); 3];
  let mut serial = 0u64;
  let mut others = 0;
  for o in ops {
    sched::begin_op(o.id);
    serial += 1;
    let m = o.idx(0, 3);
    let (kind, k) = (o.idx(1, KINDS), (o.arg(2) as u32) % keys.max(1));
    let what = format!("{} {:?} on {:?}", o.code, o.a, models[m]);
    match o.code.as_str() {
      "insert" => {
        let was = models[m].clone();
        let r = {
          let mut d = Insert(&mut maps[m], k, serial);
          lib(|| dispatch!(kind, &mut d))
        };
        let now = contents(&maps[m], keys, &what);
        let mut want = was.clone();
        want.insert(at(kind, k), serial);
        match r {
          Ok(()) if now != want => bad("effect", format!("{} left {:?}", what, now)),
          Ok(()) => probe(if was.contains_key(&at(kind, k)) { "replacing insert" } else { "new insert" }),
          Err(p) => {
            interrupted(p, &what);
            if now != was && now != want {
              bad("lost", format!("{}, interrupted, left {:?}", what, now));
            }
          }
        }
        models[m] = now;
      }
      "get" => {
        let mut d = Get(&maps[m], k, None);
        match lib(|| dispatch!(kind, &mut d)) {
          Ok(()) => {
            let want = models[m].get(&at(kind, k)).copied();
            if d.2.map(|x| x.2) != want {
              bad("contents", format!("{} finds {:?}", what, d.2));
            }
          }
          Err(p) => interrupted(p, &what),
        }
      }
      "change" => {
        let write = (o.arg(3) % 2 == 0).then_some(serial);
        let r = {
          let mut d = GetMut(&mut maps[m], k, write, None);
          let r = lib(|| dispatch!(kind, &mut d));
          r.map(|_| d.3)
        };
        let was = models[m].clone();
        match r {
          Ok(got) => {
            if got.map(|x| x.2) != was.get(&at(kind, k)).copied() {
              bad("contents", format!("{} finds {:?}", what, got));
            }
            if let (Some(_), Some(s)) = (got, write) {
              models[m].insert(at(kind, k), s);
            }
          }
          Err(p) => interrupted(p, &what),
        }
        let now = contents(&maps[m], keys, &what);
        if now != models[m] {
          bad("effect", format!("{} left {:?}", what, now));
        }
      }
      "merge" => {
        let src = (m + 1 + o.idx(1, 2)) % 3;
        let (was, from) = (models[m].clone(), models[src].clone());
        let mut other = std::mem::replace(&mut maps[src], TypeMap::new());
        let r = lib(|| maps[m].merge(&mut other));
        maps[src] = other;
        let what = format!("{} from {:?}", what, from);
        let (now, left) = (contents(&maps[m], keys, &what), contents(&maps[src], keys, &what));
        let mut want = was.clone();
        want.extend(from.clone());
        match r {
          Ok(()) => {
            if now != want || !left.is_empty() {
              bad("effect", format!("{} left {:?} and in the other {:?}", what, now, left));
            }
            probe(if was.keys().any(|k| from.contains_key(k)) { "merge of overlapping maps" } else { "merge of separate maps" });
          }
          Err(p) => {
            interrupted(p, &what);
            if was.keys().any(|k| !now.contains_key(k)) {
              bad("lost", format!("{}, interrupted, left {:?}", what, now));
            }
            if now.iter().any(|(k, v)| was.get(k) != Some(v) && from.get(k) != Some(v)) || left.iter().any(|(k, v)| from.get(k) != Some(v)) {
              bad("invented", format!("{}, interrupted, left {:?} and in the other {:?}", what, now, left));
            }
            if now != was && now != want {
              probe("merge interrupted with part of it done");
            }
          }
        }
        models[m] = now;
        models[src] = left;
      }
      "fresh" => {
        let old = std::mem::replace(&mut maps[m], TypeMap::new());
        if let Err(p) = lib(|| drop(old)) {
          interrupted(p, &what);
        }
        models[m].clear();
      }
      _ => continue,
    }
    // the maps not meant stay as they are, one of them looked at each time
    others += 1;
    let x = others % 3;
    let now = contents(&maps[x], keys, &what);
    if now != models[x] {
      bad("effect", format!("after {}, map {} holds {:?} instead of {:?}", what, x, now, models[x]));
    }
  }
  drop(maps);
}

struct Single<'a>(&'a [Op], u32);
unsafe impl Sync for Single<'_> {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, 200_000_000);
  LIVE.get().clear();
  let ops: Vec<Op> = p.task_ops(0);
  let shared = Single(&ops, p.get("keys").clamp(1, 2000) as u32);
  sched::run_tasks(1, &|_| {
    let s = &shared;
    map_task(s.0, s.1)
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("tmap", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  if r.chance(4, 5) {
    p.set("faultmask", 1 << CB_CMP);
    p.set("faultden", *r.pick(&[3, 10, 30, 100]));
    p.set("maxfaults", *r.pick(&[1, 2, 3, 6, 20]));
  }
  let large = r.chance(1, 60) || std::env::var_os("SIM_LARGE").is_some();
  let nk = if large { *r.pick(&[30u64, 100, 300]) } else { *r.pick(&[1u64, 2, 3, 5, 16]) };
  p.set("keys", nk as i64);
  let kinds: Vec<i64> = (0..r.range(1, 8)).map(|_| r.below(KINDS as u64) as i64).collect();
  let n = if large { 300 } else { *r.pick(&[2, 4, 8, 16, 30, 60]) };
  let merges = *r.pick(&[0, 1, 1, 4]);
  for _ in 0..n {
    let (m, t, k) = (r.below(3) as i64, *r.pick(&kinds), r.below(nk) as i64);
    match r.weighted(&[10, 4, 4, merges, 1]) {
      0 => p.push(0, "insert", vec![m, t, k]),
      1 => p.push(0, "get", vec![m, t, k]),
      2 => p.push(0, "change", vec![m, t, k, r.below(2) as i64]),
      3 => p.push(0, "merge", vec![m, r.below(2) as i64]),
      _ => p.push(0, "fresh", vec![m]),
    }
  }
  p
}

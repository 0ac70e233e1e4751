//! Dotted productions and their sets (C22), interrupted anywhere.
use crate::gram::{self, G, NT};
use crate::making::faults;
use crate::types::Sym;
use bongo::grammar::{Elem, Prod, ProdElement};
use bongo::state::{ProdState, ProdStateSet};
use bongo::utils::breadth_first_search;
use simcore::cfg::{self, Cfg};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_ITER, CB_STEP};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type El<'a> = &'a ProdElement<Sym, Sym>;
type Pr<'a> = Prod<'a, Sym, Sym, Sym, Sym>;
type S<'a> = ProdState<'a, Sym, Sym, Sym, Sym>;
type Set<'a> = ProdStateSet<'a, Sym, Sym, Sym, Sym>;
/// Grammar, production in its list, elements passed.
type Item = (usize, usize, usize);

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

fn interrupted(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

/// The grammars of a round, with what we know of them.
struct World<'a> {
  prods: Vec<Vec<Pr<'a>>>,
  /// Which production has these elements.
  which: BTreeMap<usize, (usize, usize)>,
  /// First item of each production, over all grammars.
  rules: Vec<BTreeMap<u32, Vec<usize>>>,
  all: Vec<Item>,
  cfgs: &'a [Cfg],
}

fn same_elem(a: El, b: El) -> bool {
  a.id().map(|n| n.str()) == b.id().map(|n| n.str())
    && match (a.elem(), b.elem()) {
      (Elem::Term(x), Elem::Term(y)) => x.0 == y.0,
      (Elem::NonTerm(x), Elem::NonTerm(y)) => x.0 == y.0,
      _ => false,
    }
}

fn show_elem(e: El) -> String {
  format!("{:?}", e)
}

impl<'a> World<'a> {
  fn new(gs: &'a [G], cfgs: &'a [Cfg]) -> Self {
    let prods: Vec<Vec<Pr<'a>>> = gs.iter().map(|g| g.prods().collect()).collect();
    let mut w = World { prods, which: BTreeMap::new(), rules: vec![], all: vec![], cfgs };
    for (g, ps) in w.prods.iter().enumerate() {
      let mut rules: BTreeMap<u32, Vec<usize>> = BTreeMap::new();
      for (i, p) in ps.iter().enumerate() {
        w.which.insert(p.prod_elements() as *const _ as usize, (g, i));
        rules.entry(p.head().0).or_default().push(i);
        w.all.extend((0..=p.prod_elements().len()).map(|d| (g, i, d)));
      }
      let want: usize = cfgs[g].rules.iter().map(|r| r.len()).sum();
      if ps.len() != want || w.which.len() != w.prods[..=g].iter().map(|x| x.len()).sum::<usize>() {
        bad("contents", format!("a grammar of {} productions lists {}", want, ps.len()));
      }
      w.rules.push(rules);
    }
    w
  }

  fn elems(&self, i: Item) -> &'a Vec<ProdElement<Sym, Sym>> {
    self.prods[i.0][i.1].prod_elements()
  }

  fn show(&self, i: Item) -> String {
    let p = &self.prods[i.0][i.1];
    let mut s = format!("[{}: {:?} =>", i.0, p.head());
    for (k, e) in self.elems(i).iter().enumerate() {
      s += if k == i.2 { " . " } else { " " };
      s += &show_elem(e);
    }
    if i.2 == self.elems(i).len() {
      s += " .";
    }
    s + "]"
  }

  fn list(&self, v: &BTreeSet<Item>) -> String {
    v.iter().map(|i| self.show(*i)).collect::<Vec<_>>().join(" ")
  }

  fn state(&self, i: Item) -> S<'a> {
    let mut s = ProdState::from_start(self.prods[i.0][i.1]);
    for _ in 0..i.2 {
      s = match s.next_elem_state() {
        Some((_, n)) => n,
        None => bad("walk", format!("no step in front of the end on the way to {}", self.show(i))),
      };
    }
    s
  }

  /// Which dotted production this is; everything it tells is compared.
  fn item(&self, s: &S<'a>) -> Item {
    let p = s.prod();
    let Some((g, i)) = self.which.get(&(p.prod_elements() as *const _ as usize)).copied() else { bad("contents", "a dotted production of no grammar".into()) };
    let es = p.prod_elements();
    let mut left = 0;
    while s.offset_prod_elem(left).is_some() {
      left += 1;
      if left > es.len() {
        bad("walk", format!("more than {} elements in {}", es.len(), self.show((g, i, 0))));
      }
    }
    let d = es.len() - left;
    let it = (g, i, d);
    let right = s.is_complete() == (left == 0)
      && (0..left).all(|k| s.offset_prod_elem(k).map_or(false, |e| std::ptr::eq(e, &es[d + k])) && s.offset_elem(k).map_or(false, |e| std::ptr::eq(e, es[d + k].elem())))
      && s.offset_elem(left).is_none()
      && s.offset_prod_elem(left + 1).is_none()
      && s.next_prod_elem().map(|e| e as *const _) == es.get(d).map(|e| e as *const _)
      && s.next_elem().map(|e| e as *const _) == es.get(d).map(|e| e.elem() as *const _)
      && std::ptr::eq(s.action_key(), p.action_key())
      && std::ptr::eq(p.head(), self.prods[g][i].head());
    if !right {
      bad("walk", format!("what is left of {} is told wrongly", self.show(it)));
    }
    it
  }

  /// What a set holds: its complete members, and its successors' less one step.
  fn items(&self, s: &Set<'a>) -> BTreeSet<Item> {
    let mut out = BTreeSet::new();
    for x in s.complete() {
      let it = self.item(&x);
      if it.2 != self.elems(it).len() {
        bad("contents", format!("{} is listed as complete", self.show(it)));
      }
      if !out.insert(it) {
        bad("contents", format!("{} is listed twice", self.show(it)));
      }
    }
    let mut seen: Vec<El> = vec![];
    for (e, t) in s.nexts() {
      if seen.iter().any(|x| same_elem(x, e)) {
        bad("successors", format!("{} is listed twice among the successors", show_elem(e)));
      }
      seen.push(e);
      let after = self.items(&t);
      if after.is_empty() {
        bad("successors", format!("no member of the successor by {}", show_elem(e)));
      }
      for it in after {
        if it.2 == 0 || !same_elem(&self.elems(it)[it.2 - 1], e) {
          bad("successors", format!("{} is a member of the successor by {}", self.show(it), show_elem(e)));
        }
        if !out.insert((it.0, it.1, it.2 - 1)) {
          bad("successors", format!("{} is a member of several successors", self.show(it)));
        }
      }
    }
    out
  }

  /// The caller's step function: what follows from a member, in order.
  fn steps(&self, kind: i64, seed: i64, i: Item) -> Vec<Item> {
    let es = self.elems(i);
    let heads = || -> Vec<Item> {
      match es.get(i.2).map(|e| e.elem()) {
        Some(Elem::NonTerm(n)) => self.rules[i.0][&n.0].iter().map(|p| (i.0, *p, 0)).collect(),
        _ => vec![],
      }
    };
    let further = || -> Vec<Item> { (i.2 < es.len()).then_some((i.0, i.1, i.2 + 1)).into_iter().collect() };
    let n = self.all.len();
    let pos = || self.all.iter().position(|x| *x == i).unwrap();
    match kind.rem_euclid(9) {
      0 => heads(),
      1 => further(),
      2 => heads().into_iter().chain(further()).collect(),
      3 => {
        let mut r = Rng::new(seed as u64 ^ (pos() as u64) << 20);
        (0..r.below(4)).map(|_| self.all[r.below(n as u64) as usize]).collect()
      }
      4 => vec![self.all[(pos() + 1) % n]],
      5 => self.all.clone(),
      6 => {
        let v: Vec<Item> = heads().into_iter().chain([i]).chain(further()).collect();
        v.iter().chain(&v).copied().collect()
      }
      7 => vec![],
      // the step function takes a closure itself
      _ => {
        let mut out = BTreeSet::from([i]);
        self.close(0, 0, &mut out);
        out.into_iter().collect()
      }
    }
  }

  fn close(&self, kind: i64, seed: i64, items: &mut BTreeSet<Item>) {
    let mut todo: Vec<Item> = items.iter().copied().collect();
    while let Some(i) = todo.pop() {
      for j in self.steps(kind, seed, i) {
        if items.insert(j) {
          todo.push(j);
        }
      }
    }
  }

  /// The same with the library, the step function being able to panic anywhere.
  fn take_closure(&self, kind: i64, seed: i64, s: &mut Set<'a>) {
    s.take_closure(|st| {
      sched::callback(CB_STEP);
      let next: std::vec::IntoIter<S<'a>> = if kind.rem_euclid(9) == 8 {
        let mut inner = Set::new_empty();
        inner.add(st.clone());
        self.take_closure(0, 0, &mut inner);
        unarmed(|| self.items(&inner).into_iter().map(|i| self.state(i)).collect::<Vec<_>>().into_iter())
      } else {
        unarmed(|| self.steps(kind, seed, self.item(st)).into_iter().map(|i| self.state(i)).collect::<Vec<_>>().into_iter())
      };
      Caller(next)
    })
  }
}

struct Caller<I>(I);
impl<I: Iterator> Iterator for Caller<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    sched::callback(CB_ITER);
    self.0.next()
  }
}

fn round(ops: &[Op], cfgs: &[Cfg]) {
  // in the arena, where the run decides which lies before which
  let Some(gs) = cfgs.iter().map(gram::made).collect::<Option<Vec<G>>>() else { return };
  let w = World::new(&gs, cfgs);
  let mut slots: Vec<(Set, BTreeSet<Item>)> = vec![];
  for o in ops {
    sched::begin_op(o.id);
    let pick = |k: usize| w.all[o.idx(k, w.all.len())];
    if slots.is_empty() || o.code == "new" {
      if slots.len() < 8 {
        // any dotted productions, or those a grammar starts with
        let g = o.idx(0, gs.len());
        let want: BTreeSet<Item> = match o.a.get(1) {
          Some(_) => (1..o.a.len().min(40)).map(pick).collect(),
          None => w.rules[g][&NT].iter().map(|p| (g, *p, 0)).collect(),
        };
        let r = lib(|| {
          if o.arg(0) & 1 == 1 {
            let mut s = Set::new_empty();
            want.iter().for_each(|i| s.add(unarmed(|| w.state(*i))));
            s
          } else {
            Caller(want.iter().map(|i| unarmed(|| w.state(*i)))).collect()
          }
        });
        match r {
          Ok(s) => slots.push((s, want)),
          Err(p) => interrupted(p, "making a set"),
        }
      }
    } else {
      let k = o.idx(0, slots.len());
      let what = format!("{} of {{{}}}", o.code, w.list(&slots[k].1));
      match o.code.as_str() {
        "closure" => {
          let (kind, seed) = (o.arg(1), o.arg(2));
          let mut full = slots[k].1.clone();
          w.close(kind, seed, &mut full);
          let mut left = o.arg(3).clamp(0, 20);
          loop {
            let (s, m) = &mut slots[k];
            let r = lib(|| w.take_closure(kind, seed, s));
            let got = w.items(s);
            match r {
              Ok(()) => {
                if got != full {
                  bad("closure", format!("{} by rule {}/{} gives {{{}}} instead of {{{}}}", what, kind, seed, w.list(&got), w.list(&full)));
                }
                *m = got;
                probe("closure taken");
                break;
              }
              Err(p) => {
                interrupted(p, &what);
                if !got.is_superset(m) || !got.is_subset(&full) {
                  bad("closure", format!("{} by rule {}/{}, interrupted, leaves {{{}}}", what, kind, seed, w.list(&got)));
                }
                *m = got;
                probe("closure interrupted");
              }
            }
            left -= 1;
            if left < 0 {
              break;
            }
          }
        }
        "nexts" => {
          let r = lib(|| slots[k].0.nexts().collect::<Vec<_>>());
          match r {
            Ok(v) => {
              let mut all = BTreeSet::new();
              let mut keep = vec![];
              let mut seen: Vec<El> = vec![];
              for (e, t) in v {
                let it = w.items(&t);
                if seen.iter().any(|x| same_elem(x, e)) {
                  bad("successors", format!("{}: {} twice", what, show_elem(e)));
                }
                seen.push(e);
                let want: BTreeSet<Item> = slots[k].1.iter().filter(|i| w.elems(**i).get(i.2).map_or(false, |x| same_elem(x, e))).map(|i| (i.0, i.1, i.2 + 1)).collect();
                if it != want {
                  bad("successors", format!("{}: by {} {{{}}} instead of {{{}}}", what, show_elem(e), w.list(&it), w.list(&want)));
                }
                all.extend(it.iter().map(|i| (i.0, i.1, i.2 - 1)));
                keep.push((t, it));
              }
              let want: BTreeSet<Item> = slots[k].1.iter().filter(|i| i.2 < w.elems(**i).len()).copied().collect();
              if all != want {
                bad("successors", format!("{}: {{{}}} have no successor", what, w.list(&want.difference(&all).copied().collect())));
              }
              if !keep.is_empty() && o.arg(1) % 2 == 0 {
                let i = o.idx(2, keep.len());
                let x = keep.swap_remove(i);
                if slots.len() < 8 {
                  slots.push(x);
                } else {
                  slots[k] = x;
                }
              }
              probe("successors taken");
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "add" => {
          let it = pick(1);
          let st = w.state(it);
          let (s, m) = &mut slots[k];
          match lib(|| s.add(st)) {
            Ok(()) => {
              m.insert(it);
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "copy" => match lib(|| slots[k].0.clone()) {
          Ok(s) => {
            let m = slots[k].1.clone();
            if slots.len() < 8 {
              slots.push((s, m));
            } else {
              let j = o.idx(1, 8);
              slots[j] = (s, m);
            }
          }
          Err(p) => interrupted(p, &what),
        },
        "complete" => match lib(|| slots[k].0.complete().collect::<Vec<_>>()) {
          Ok(v) => {
            let got: Vec<Item> = v.iter().map(|s| w.item(s)).collect();
            let want: BTreeSet<Item> = slots[k].1.iter().filter(|i| i.2 == w.elems(**i).len()).copied().collect();
            if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want {
              bad("contents", format!("{}: {} are complete", what, got.iter().map(|i| w.show(*i)).collect::<String>()));
            }
          }
          Err(p) => interrupted(p, &what),
        },
        "compare" => {
          let r = lib(|| {
            let n = slots.len();
            let mut v = vec![];
            for a in 0..n {
              for b in 0..n {
                v.push((a, b, slots[a].0 == slots[b].0, slots[a].0.cmp(&slots[b].0), slots[a].0.partial_cmp(&slots[b].0)));
              }
            }
            v
          });
          match r {
            Ok(v) => {
              let n = slots.len();
              for (a, b, eq, c, pc) in &v {
                let same = slots[*a].1 == slots[*b].1;
                if *eq != same || (*c == Ordering::Equal) != same || *pc != Some(*c) || v[b * n + a].3 != c.reverse() {
                  bad("order", format!("{{{}}} and {{{}}} compare {} {:?} {:?}", w.list(&slots[*a].1), w.list(&slots[*b].1), eq, c, pc));
                }
              }
              for a in 0..n {
                for b in 0..n {
                  for c in 0..n {
                    if v[a * n + b].3 == Ordering::Less && v[b * n + c].3 == Ordering::Less && v[a * n + c].3 != Ordering::Less {
                      bad("order", "the order of sets is not transitive".into());
                    }
                  }
                }
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "advance" => {
          let it = pick(1);
          let st = w.state(it);
          // by its own next element, or by another's
          let other = if o.arg(2) % 2 == 0 { it } else { pick(3) };
          let Some(e) = w.elems(other).get(other.2) else { continue };
          let mut left = 6;
          loop {
            match lib(|| st.advance_if(e.elem())) {
              Ok(got) => {
                let by = w.elems(it).get(it.2).map_or(false, |x| match (x.elem(), e.elem()) {
                  (Elem::Term(a), Elem::Term(b)) | (Elem::NonTerm(a), Elem::NonTerm(b)) => a.0 == b.0,
                  _ => false,
                });
                let want = by.then_some((it.0, it.1, it.2 + 1));
                let got = got.map(|s| w.item(&s));
                if got != want {
                  bad("walk", format!("{} advanced by {} gives {:?}", w.show(it), show_elem(e), got.map(|i| w.show(i))));
                }
                break;
              }
              Err(p) => interrupted(p, "advancing"),
            }
            left -= 1;
            if left == 0 {
              break;
            }
          }
          if w.item(&st) != it {
            bad("walk", format!("{} became {} by advancing a copy", w.show(it), w.show(w.item(&st))));
          }
        }
        "walk" => {
          let it = pick(1);
          let p = w.prods[it.0][it.1];
          let es = p.prod_elements();
          let r = lib(|| {
            let mut s = ProdState::from_start(p);
            let mut v = vec![s.clone()];
            while let Some((e, n)) = s.next_elem_state() {
              if v.len() > es.len() || !std::ptr::eq(e, &es[v.len() - 1]) {
                return None;
              }
              v.push(n.clone());
              s = n;
            }
            let accessors = (0..es.len() + 2).all(|i| {
              let want = es.get(i);
              p.prod_element_at(i).map(|e| e as *const _) == want.map(|e| e as *const _) && p.element_at(i).map(|e| e as *const _) == want.map(|e| e.elem() as *const _)
            });
            let more = p.first_elem().map(|e| e as *const _) == es.first().map(|e| e.elem() as *const _) && p.num_elements() == es.len() && p.elements().count() == es.len() && p.elements().zip(es).all(|(a, b)| std::ptr::eq(a, b.elem()));
            (accessors && more).then_some(v)
          });
          match r {
            Ok(v) => {
              let got: Option<Vec<Item>> = v.map(|v| v.iter().map(|s| w.item(s)).collect());
              let want: Vec<Item> = (0..=es.len()).map(|d| (it.0, it.1, d)).collect();
              if got.as_ref() != Some(&want) {
                bad("walk", format!("walking {} goes wrong: {:?}", w.show((it.0, it.1, 0)), got));
              }
            }
            Err(p) => interrupted(p, "walking a production"),
          }
        }
        "keys" => {
          // which productions have the same head and action
          let (a, b) = (pick(1), pick(2));
          let (x, y) = (w.prods[a.0][a.1], w.prods[b.0][b.1]);
          match lib(|| (x.prod_key() == y.prod_key(), x.prod_key().cmp(&y.prod_key()))) {
            Ok((eq, c)) => {
              let id = |p: &Pr| (p.head().0, p.action_key().0);
              let same = id(&x) == id(&y);
              if eq != same || (c == Ordering::Equal) != same {
                bad("order", format!("keys {:?} and {:?} compare {} {:?}", id(&x), id(&y), eq, c));
              }
            }
            Err(p) => interrupted(p, "comparing keys"),
          }
        }
        "search" => {
          // what can be reached in one or more steps from some symbols
          let g = o.idx(1, gs.len());
          let c = &w.cfgs[g];
          let n = c.rules.len();
          let first: Vec<usize> = (2..o.a.len().min(6)).map(|k| o.idx(k, n)).collect();
          let next = |x: usize| -> Vec<usize> { c.rules[x].iter().flat_map(|p| &p.elems).filter_map(|e| if let cfg::E::N(k) = e { Some(*k as usize) } else { None }).collect() };
          let mut want = BTreeSet::new();
          let mut todo = first.clone();
          while let Some(x) = todo.pop() {
            for y in next(x) {
              if want.insert(y) {
                todo.push(y);
              }
            }
          }
          for _ in 0..8 {
            let r = lib(|| {
              breadth_first_search(Caller(first.iter().map(|x| Sym(NT + *x as u32))), |x: &Sym| {
                sched::callback(CB_STEP);
                Caller(unarmed(|| next((x.0 - NT) as usize)).into_iter().map(|y| Sym(NT + y as u32)))
              })
            });
            match r {
              Ok(got) => {
                let got: BTreeSet<usize> = got.iter().map(|s| (s.0 - NT) as usize).collect();
                if got != want {
                  bad("search", format!("from {:?} of grammar {} {:?} are reached instead of {:?}", first, g, got, want));
                }
                probe("search done");
                break;
              }
              Err(p) => interrupted(p, "searching"),
            }
          }
        }
        "drop" => {
          let x = slots.swap_remove(k);
          if let Err(p) = lib(|| drop(x)) {
            interrupted(p, "dropping a set");
          }
        }
        _ => continue,
      }
    }
    for (s, m) in &slots {
      let got = w.items(s);
      if got != *m {
        bad("contents", format!("after {}, a set holds {{{}}} instead of {{{}}}", o.code, w.list(&got), w.list(m)));
      }
    }
  }
  drop(slots);
  drop(w);
  let _ = lib(|| drop(gs));
}

struct Work(Vec<Vec<Op>>, Vec<Cfg>);
unsafe impl Sync for Work {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, 400_000_000);
  let n = p.tasks().min(50).clamp(1, 4);
  let cfgs: Vec<Cfg> = (0..p.get("grammars").clamp(0, 6)).filter_map(|g| gram::decode(p, g)).collect();
  let w = Work((0..n).map(|t| p.task_ops(t)).collect(), cfgs);
  sched::run_tasks(n, &|t| {
    let w = &w;
    if w.1.is_empty() {
      return;
    }
    // in every round some of the grammars, where those of the round before were
    for ops in w.0[t].split(|o| o.code == "round") {
      let k = ops.first().map_or(0, |o| o.idx(0, w.1.len()));
      let len = 1 + ops.first().map_or(0, |o| o.idx(0, 2));
      let end = (k + len).min(w.1.len());
      round(ops, &w.1[k..end]);
    }
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("states", seed);
  let (cmp, clone, iter, step) = (1 << CB_CMP, 1 << CB_CLONE, 1 << CB_ITER, 1 << CB_STEP);
  faults(&mut r, &mut p, &[cmp, step, iter, step | iter, step | iter, cmp | clone | step | iter]);
  let ng = r.range(1, 4);
  p.set("grammars", ng);
  let large = r.chance(1, 60) || std::env::var_os("SIM_LARGE").is_some();
  for g in 0..ng {
    let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 5, 8]), max_prods: r.range(1, 4), max_len: r.range(1, 5), terms: r.range(1, 3) as u32, names: true };
    let mut c = if large && g == 0 { cfg::large(&mut r).0 } else { gram::gen(&mut r, &o) };
    if r.chance(1, 2) {
      // names used over and over
      let mut k = 0;
      for ps in &mut c.rules {
        for x in ps {
          x.action = 3 * k + 1;
          k += 1;
        }
      }
    }
    gram::encode(&mut p, g, &c);
  }
  let tasks = *r.pick(&[1, 1, 1, 2]);
  p.set("fine", (tasks > 1 && r.chance(1, 4)) as i64);
  for t in 0..tasks {
    for k in 0..*r.pick(&[1, 1, 2, 4]) {
      if k > 0 {
        p.push(t, "round", vec![]);
      }
      p.push(t, "new", vec![r.below(8) as i64]);
      for _ in 0..r.range(2, 25) {
        let x = r.below(8) as i64;
        let any = |r: &mut Rng| r.below(1 << 16) as i64;
        match r.weighted(&[2, 6, 4, 3, 2, 1, 2, 2, 1, 1, 2, 1]) {
          0 => {
            let mut a = vec![x];
            for _ in 0..r.below(5) {
              a.push(any(&mut r));
            }
            p.push(t, "new", a);
          }
          1 => {
            let kind = *r.pick(&[0, 0, 1, 2, 3, 3, 3, 4, 5, 6, 7, 8]);
            // the longest ones only over small grammars
            p.push(t, "closure", vec![x, if large && (4..6).contains(&kind) { 3 } else { kind }, any(&mut r), *r.pick(&[0, 1, 3, 12])]);
          }
          2 => p.push(t, "nexts", vec![x, r.below(2) as i64, any(&mut r)]),
          3 => p.push(t, "add", vec![x, any(&mut r)]),
          4 => p.push(t, "copy", vec![x, r.below(8) as i64]),
          5 => p.push(t, "complete", vec![x]),
          6 => p.push(t, "compare", vec![x]),
          7 => p.push(t, "advance", vec![x, any(&mut r), r.below(2) as i64, any(&mut r)]),
          8 => p.push(t, "walk", vec![x, any(&mut r)]),
          9 => p.push(t, "keys", vec![x, any(&mut r), any(&mut r)]),
          10 => {
            let mut a = vec![x, r.below(8) as i64];
            for _ in 0..r.range(1, 3) {
              a.push(any(&mut r));
            }
            p.push(t, "search", a);
          }
          _ => p.push(t, "drop", vec![x]),
        }
      }
    }
  }
  p
}

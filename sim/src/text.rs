//! Ranges of texts (C24) and names (C25): values that share what they hold.
use crate::types::Sym;
use bongo::grammar::{Elem, ProdElement};
use bongo::utils::buffer::BufferRange;
use bongo::utils::{Name, ToDoc, TreeNode, TreeValue, Void};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic, CB_MERGE, CB_STEP};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

fn interrupted(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

const CHARS: [char; 20] = ['a', 'b', ' ', '\n', '\r', 'é', '\u{301}', 'あ', '𝄞', '👨', '\u{200d}', '👩', '\t', '\0', '\u{feff}', '\u{10ffff}', '🇩', '🇪', 'ß', '\u{7f}'];

/// Times repeated, then the characters.
fn text_of(a: &[i64]) -> String {
  let one: String = a.get(1..).unwrap_or(&[]).iter().map(|i| CHARS[i.rem_euclid(20) as usize]).collect();
  one.repeat(a.first().copied().unwrap_or(1).clamp(1, 1000) as usize)
}

fn texts(p: &Plan) -> Vec<String> {
  let mut v: Vec<String> = p.ops.iter().filter(|o| o.code == "text").map(|o| text_of(&o.a)).collect();
  if v.is_empty() {
    v.push("a\n".into());
  }
  v
}

fn brief(s: &str) -> String {
  if s.len() < 100 {
    return format!("{:?}", s);
  }
  format!("{:?}... ({} bytes)", s.chars().take(30).collect::<String>(), s.len())
}

/// The caller's own kind of text.
struct Source<'a>(&'a str);
impl AsRef<str> for Source<'_> {
  fn as_ref(&self) -> &str {
    sched::callback(CB_STEP);
    self.0
  }
}

// ---- ranges ----

struct Doc {
  text: String,
  /// Where each character starts, and the end.
  at: Vec<usize>,
}

struct Slot {
  r: BufferRange,
  doc: usize,
  from: usize,
  to: usize,
}

impl Slot {
  fn want<'a>(&self, docs: &'a [Doc]) -> &'a str {
    let d = &docs[self.doc];
    &d.text[d.at[self.from]..d.at[self.to]]
  }
}

fn range_task(ops: &[Op], texts: &[String]) {
  let mut docs: Vec<Doc> = vec![];
  let mut slots: Vec<Slot> = vec![];
  for o in ops {
    sched::begin_op(o.id);
    let mut fresh = None;
    let k = if slots.is_empty() { 0 } else { o.idx(0, slots.len()) };
    let mut what = o.code.clone();
    if slots.is_empty() || o.code == "new" {
      let text = &texts[o.idx(1, texts.len())];
      what = format!("a new range of {}", brief(text));
      match lib(|| if o.arg(2) % 2 == 0 { BufferRange::new("a source", Source(text)) } else { BufferRange::new(Source("a source"), text.as_str()) }) {
        Ok(r) => {
          let at: Vec<usize> = text.char_indices().map(|(i, _)| i).chain([text.len()]).collect();
          fresh = Some(Slot { r, doc: docs.len(), from: 0, to: at.len() - 1 });
          docs.push(Doc { text: text.clone(), at });
        }
        Err(p) => interrupted(p, &what),
      }
    } else {
      let s = &mut slots[k];
      let rest = s.to - s.from;
      what = format!("{} of range {} with {} characters", what, k, rest);
      // none, some, all, too many
      let n = match o.arg(2).rem_euclid(8) {
        0 => rest,
        1 => rest + 1,
        2 => usize::MAX,
        3 => rest / 2,
        4 => rest + 1 + o.idx(1, 300),
        _ => o.idx(1, 6),
      };
      let d = &docs[s.doc];
      let passed = if n <= rest { Some(&d.text[d.at[s.from]..d.at[s.from + n]]) } else { None };
      let first = s.want(&docs).chars().next();
      match o.code.as_str() {
        "read" => match lib(|| s.r.read_char_mut()) {
          Ok(got) => {
            if got != first {
              bad("text", format!("{} gives {:?} instead of {:?}", what, got, first));
            }
            s.from += first.is_some() as usize;
          }
          Err(p) => interrupted(p, &what),
        },
        "readto" => match lib(|| s.r.read_char()) {
          Ok(got) => {
            if got.as_ref().map(|g| g.0) != first {
              bad("text", format!("{} gives {:?} instead of {:?}", what, got.map(|g| g.0), first));
            }
            fresh = got.map(|g| Slot { r: g.1, doc: s.doc, from: s.from + 1, to: s.to });
          }
          Err(p) => interrupted(p, &what),
        },
        "go" => match lib(|| s.r.advance_n_mut(n).map(|t| t == passed.unwrap_or("\u{1}"))) {
          Ok(got) => {
            if got != passed.map(|_| true) {
              bad("text", format!("{}, {} on, gives {} instead of {:?}", what, n, if got.is_some() { "other text" } else { "nothing" }, passed.map(brief)));
            }
            if passed.is_some() {
              s.from += n;
            } else {
              probe("refused a move past the end");
            }
          }
          Err(p) => interrupted(p, &what),
        },
        "goto" => match lib(|| s.r.advance_n(n).map(|(t, r)| (t == passed.unwrap_or("\u{1}"), r))) {
          Ok(got) => {
            if got.as_ref().map(|g| g.0) != passed.map(|_| true) {
              bad("text", format!("{}, {} on, gives {} instead of {:?}", what, n, if got.is_some() { "other text" } else { "nothing" }, passed.map(brief)));
            }
            fresh = got.map(|g| Slot { r: g.1, doc: s.doc, from: s.from + n, to: s.to });
          }
          Err(p) => interrupted(p, &what),
        },
        "cut" => {
          let fits = |a: &Slot, b: &Slot| a.doc == b.doc && a.to == b.to && a.from <= b.from;
          let good: Vec<usize> = (0..slots.len()).filter(|j| fits(&slots[k], &slots[*j])).collect();
          let j = if o.arg(2) % 2 == 0 { good[o.idx(1, good.len())] } else { o.idx(1, slots.len()) };
          let (a, b) = (&slots[k], &slots[j]);
          what = format!("cutting off range {} ({} to {} of text {}) from range {} ({} to {} of text {})", j, b.from, b.to, b.doc, k, a.from, a.to, a.doc);
          match lib(|| a.r.remove_suffix(&b.r)) {
            Ok(r) => {
              if !fits(a, b) {
                bad("not-refused", what);
              }
              fresh = Some(Slot { r, doc: a.doc, from: a.from, to: b.from });
            }
            Err(Panic::Other(_)) if !fits(a, b) => probe("refused a cut"),
            Err(p) => interrupted(p, &what),
          }
        }
        "place" => {
          if let Err(p) = lib(|| (s.r.start_pos(), s.r.end_pos())) {
            interrupted(p, &what);
          }
        }
        "copy" => match lib(|| s.r.clone()) {
          Ok(r) => fresh = Some(Slot { r, ..*s }),
          Err(p) => interrupted(p, &what),
        },
        "drop" => {
          let s = slots.swap_remove(k);
          if let Err(p) = lib(|| drop(s)) {
            interrupted(p, &what);
          }
        }
        _ => continue,
      }
    }
    if let Some(s) = fresh {
      if slots.len() < 12 {
        slots.push(s);
      } else {
        slots[k] = s;
      }
    }
    for (i, s) in slots.iter().enumerate() {
      let want = s.want(&docs);
      if s.r.as_str() != want || s.r.byte_len() != want.len() || s.r.empty() != want.is_empty() {
        bad("text", format!("after {}, range {} reads {} instead of {}", what, i, brief(s.r.as_str()), brief(want)));
      }
    }
  }
  let _ = lib(|| drop(slots));
}

// ---- names ----

struct Names {
  names: Vec<(Name, String)>,
  sorted: BTreeMap<Name, usize>,
  sorted_model: BTreeMap<String, usize>,
  hashed: HashMap<Name, usize, std::hash::BuildHasherDefault<DefaultHasher>>,
  hashed_model: BTreeMap<String, usize>,
  elems: Vec<(ProdElement<Sym, Sym>, String)>,
  trees: Vec<(TreeNode<Name, Void>, String)>,
  /// Very many of one text.
  hoard: (Vec<Name>, String),
}

fn hash_of(x: &Name) -> u64 {
  let mut h = DefaultHasher::new();
  x.hash(&mut h);
  h.finish()
}

/// One of the changes a caller makes to a text.
fn change(s: &mut String, kind: i64, c: char) {
  match kind.rem_euclid(8) {
    0 | 1 => s.push(c),
    2 => s.insert(0, c),
    3 => s.clear(),
    4 => {
      s.pop();
    }
    5 => *s = c.to_string(),
    6 => s.shrink_to_fit(),
    _ => s.push_str(&c.to_string().repeat(40)),
  }
}

fn name_task(ops: &[Op], texts: &[String], max: usize) {
  let mut w = Names { names: vec![], sorted: BTreeMap::new(), sorted_model: BTreeMap::new(), hashed: HashMap::default(), hashed_model: BTreeMap::new(), elems: vec![], trees: vec![], hoard: (vec![], String::new()) };
  for o in ops {
    sched::begin_op(o.id);
    let what = format!("{} {:?}", o.code, o.a);
    let mut fresh = None;
    let n = w.names.len();
    if n == 0 || o.code == "new" {
      let text = &texts[o.idx(1, texts.len())];
      match lib(|| match o.arg(2).rem_euclid(4) {
        0 => Name::new(text),
        1 => Name::new(text.as_str()),
        _ => Name::new(&Source(text)),
      }) {
        Ok(x) => fresh = Some((x, text.clone())),
        Err(p) => interrupted(p, &what),
      }
    } else {
      let (k, j) = (o.idx(0, n), o.idx(1, n));
      match o.code.as_str() {
        "copy" => match lib(|| w.names[k].0.clone()) {
          Ok(x) => fresh = Some((x, w.names[k].1.clone())),
          Err(p) => interrupted(p, &what),
        },
        "change" => {
          let (x, m) = &mut w.names[k];
          let c = CHARS[o.idx(3, 20)];
          let mut done = 0;
          let r = lib(|| {
            let s = x.make_mut();
            for i in 0..o.arg(4).clamp(1, 5) {
              // the caller's, which may panic in between
              sched::callback(CB_MERGE);
              change(s, o.arg(2) + i, c);
              done += 1;
            }
            unarmed(|| s.clone())
          });
          (0..done).for_each(|i| change(m, o.arg(2) + i, c));
          match r {
            Ok(s) => {
              if s != *m {
                bad("changed", format!("{} gives {} instead of {}", what, brief(&s), brief(m)));
              }
            }
            Err(p) => {
              interrupted(p, &what);
              probe("panicked while changing");
            }
          }
        }
        // two at once
        "swap" if k != j => {
          let (a, b) = (k.min(j), k.max(j));
          let (left, right) = w.names.split_at_mut(b);
          let ((x, m), (y, l)) = (&mut left[a], &mut right[0]);
          match lib(|| {
            let (s, t) = (x.make_mut(), y.make_mut());
            sched::callback(CB_MERGE);
            std::mem::swap(s, t);
          }) {
            Ok(()) => std::mem::swap(m, l),
            Err(p) => interrupted(p, &what),
          }
        }
        "compare" => {
          let ((x, m), (y, l)) = (&w.names[k], &w.names[j]);
          match lib(|| (x == y, x.cmp(y), x.partial_cmp(y), hash_of(x) == hash_of(y))) {
            Ok(got) => {
              let want = m.cmp(l);
              if got.0 != (m == l) || got.1 != want || got.2 != Some(want) || m == l && !got.3 {
                bad("compare", format!("{} and {} compare {:?}", brief(m), brief(l), got));
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "show" => {
          let (x, m) = &w.names[k];
          match lib(|| (x.to_string(), format!("{:?}", x), AsRef::<str>::as_ref(x).to_string(), x.to_doc(&pretty::BoxAllocator).1.pretty(usize::MAX >> 1).to_string())) {
            Ok(got) => {
              if got.0 != *m || got.1 != *m || got.2 != *m || got.3 != *m {
                bad("text", format!("{} shows as {:?}", brief(m), got));
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "key" => {
          let x = w.names[k].0.clone();
          let m = w.names[k].1.clone();
          let v = o.idx(2, 100);
          if o.arg(3) % 2 == 0 {
            match lib(|| w.sorted.insert(x, v)) {
              Ok(old) => {
                if old != w.sorted_model.insert(m.clone(), v) {
                  bad("compare", format!("{} as a key was {:?}", brief(&m), old));
                }
              }
              Err(p) => interrupted(p, &what),
            }
          } else {
            match lib(|| w.hashed.insert(x, v)) {
              Ok(old) => {
                if old != w.hashed_model.insert(m.clone(), v) {
                  bad("compare", format!("{} as a key was {:?}", brief(&m), old));
                }
              }
              Err(p) => interrupted(p, &what),
            }
          }
        }
        "find" => {
          let (x, m) = &w.names[k];
          match lib(|| (w.sorted.get(x).copied(), w.hashed.get(x).copied())) {
            Ok(got) => {
              let want = (w.sorted_model.get(m).copied(), w.hashed_model.get(m).copied());
              if got != want {
                bad("compare", format!("under {} there is {:?} instead of {:?}", brief(m), got, want));
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "element" => {
          let (x, m) = &w.names[k];
          match lib(|| {
            let e = Elem::Term(Sym(1));
            if o.arg(2) % 2 == 0 {
              ProdElement::new_with_name(x.clone(), e)
            } else {
              ProdElement::new(Some(x.clone()), e)
            }
          }) {
            Ok(e) => {
              if w.elems.len() < 20 {
                w.elems.push((e, m.clone()));
              } else {
                w.elems[o.idx(3, 20)] = (e, m.clone());
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        "tree" => {
          let (x, m) = &w.names[k];
          let (y, l) = &w.names[j];
          match lib(|| {
            if o.arg(2) % 2 == 0 {
              TreeNode::from_action(x.clone())
            } else {
              let inner = TreeValue::Node(Box::new(TreeNode::from_action(y.clone())));
              TreeNode::new(x.clone(), BTreeMap::from([(y.clone(), inner)]))
            }
          }) {
            Ok(t) => {
              let shown = format!("{:?}", t);
              if !shown.contains(m.as_str()) || o.arg(2) % 2 != 0 && shown.matches(l.as_str()).count() < 2 {
                bad("text", format!("a tree of {} and {} shows as {}", brief(m), brief(l), brief(&shown)));
              }
              if w.trees.len() < 20 {
                w.trees.push((t, shown));
              } else {
                w.trees[o.idx(3, 20)] = (t, shown);
              }
            }
            Err(p) => interrupted(p, &what),
          }
        }
        // more than fit into a byte, or into two
        "hoard" => {
          let x = w.names[k].0.clone();
          let many = [10, 254, 255, 256, 257, 300, 65600][o.idx(1, 7)];
          match lib(|| vec![x; many]) {
            Ok(v) => w.hoard = (v, w.names[k].1.clone()),
            Err(p) => interrupted(p, &what),
          }
        }
        "unhoard" => {
          let keep = o.idx(1, 3);
          if let Err(p) = lib(|| w.hoard.0.truncate(keep)) {
            interrupted(p, &what);
          }
        }
        "drop" => {
          let x = w.names.swap_remove(k);
          if let Err(p) = lib(|| drop(x)) {
            interrupted(p, &what);
          }
        }
        _ => continue,
      }
    }
    if let Some(x) = fresh {
      if w.names.len() < max {
        w.names.push(x);
      } else {
        let k = o.idx(0, max);
        w.names[k] = x;
      }
    }
    // every name is what was last made of it
    for (x, m) in &w.names {
      if x.str() != m {
        bad("text", format!("after {}, a name reads {} instead of {}", what, brief(x.str()), brief(m)));
      }
    }
    if w.sorted.len() != w.sorted_model.len() || w.sorted.iter().zip(&w.sorted_model).any(|(a, b)| a.0.str() != b.0 || a.1 != b.1) {
      bad("text", format!("after {}, a sorted map of names holds {:?} instead of {:?}", what, w.sorted, w.sorted_model));
    }
    if w.hashed.len() != w.hashed_model.len() || w.hashed.iter().any(|(a, b)| w.hashed_model.get(a.str()) != Some(b)) {
      bad("text", format!("after {}, a map of names holds {:?} instead of {:?}", what, w.hashed, w.hashed_model));
    }
    for (e, m) in &w.elems {
      if e.id().map(|x| x.str()) != Some(m) {
        bad("text", format!("after {}, an element is named {:?} instead of {}", what, e.id(), brief(m)));
      }
    }
    for x in w.hoard.0.iter().take(100).chain(w.hoard.0.last()) {
      if x.str() != w.hoard.1 {
        bad("text", format!("after {}, one of {} copies reads {} instead of {}", what, w.hoard.0.len(), brief(x.str()), brief(&w.hoard.1)));
      }
    }
    for (t, shown) in &w.trees {
      if format!("{:?}", t) != *shown {
        bad("text", format!("after {}, a tree shows as {} instead of {}", what, brief(&format!("{:?}", t)), brief(shown)));
      }
    }
  }
  let _ = lib(|| drop(w));
}

struct Work(Vec<Vec<Op>>, Vec<String>, usize, bool);
unsafe impl Sync for Work {}

fn run(p: &Plan, names: bool) -> u64 {
  sched::begin_run(p, 400_000_000);
  let n = p.tasks().min(50).clamp(1, 4);
  let w = Work((0..n).map(|t| p.task_ops(t)).collect(), texts(p), p.get("most").clamp(1, 400) as usize, names);
  sched::run_tasks(n, &|t| {
    let w = &w;
    if w.3 {
      name_task(&w.0[t], &w.1, w.2)
    } else {
      range_task(&w.0[t], &w.1)
    }
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn run_ranges(p: &Plan) -> u64 {
  run(p, false)
}

pub fn run_names(p: &Plan) -> u64 {
  run(p, true)
}

fn start(r: &mut Rng, name: &str, seed: u64, masks: &[u32], long: i64) -> (Plan, bool) {
  let mut p = Plan::new(name, seed);
  crate::making::faults(r, &mut p, masks);
  let large = r.chance(1, 60) || std::env::var_os("SIM_LARGE").is_some();
  for i in 0..r.range(1, 5) {
    let n = *r.pick(&[0, 1, 2, 3, 6, 12, 30]);
    let some = *r.pick(&[2, 5, 20]);
    let times = if large && i == 0 { *r.pick(&[10, long / 4, long]) } else { 1 };
    let mut a = vec![times];
    a.extend((0..n).map(|_| r.below(some) as i64 + if r.chance(1, 6) { r.below(20) as i64 } else { 0 }));
    p.push(crate::gram::SETUP, "text", a);
  }
  (p, large)
}

pub fn gen_ranges(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let (mut p, large) = start(&mut r, "ranges", seed, &[1 << CB_STEP], 1000);
  let tasks = *r.pick(&[1, 1, 2]);
  for t in 0..tasks {
    for _ in 0..*r.pick(&[4, 8, 16, 40]) {
      let (k, j) = (r.below(12) as i64, r.below(12) as i64);
      let by = |r: &mut Rng| if large && r.chance(1, 2) { r.below(1 << 17) as i64 } else { r.below(8) as i64 };
      match r.weighted(&[2, 4, 4, 5, 5, 6, 2, 2, 1]) {
        0 => p.push(t, "new", vec![k, j, r.below(2) as i64]),
        1 => p.push(t, "read", vec![k]),
        2 => p.push(t, "readto", vec![k]),
        3 => {
          let b = by(&mut r);
          p.push(t, "go", vec![k, b, r.below(16) as i64])
        }
        4 => {
          let b = by(&mut r);
          p.push(t, "goto", vec![k, b, r.below(16) as i64])
        }
        5 => p.push(t, "cut", vec![k, j, r.below(2) as i64]),
        6 => p.push(t, "place", vec![k]),
        7 => p.push(t, "copy", vec![k]),
        _ => p.push(t, "drop", vec![k]),
      }
    }
  }
  p
}

pub fn gen_names(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let (mut p, large) = start(&mut r, "names", seed, &[1 << CB_STEP, 1 << CB_MERGE, 1 << CB_STEP | 1 << CB_MERGE], 100);
  let most = if large { *r.pick(&[40, 300]) } else { *r.pick(&[2, 4, 12]) };
  p.set("most", most);
  let tasks = *r.pick(&[1, 1, 2]);
  for t in 0..tasks {
    for _ in 0..if large { 400 } else { *r.pick(&[4, 8, 16, 40]) } {
      let (k, j) = (r.below(most as u64) as i64, r.below(most as u64) as i64);
      let mut x = || r.below(40) as i64;
      let (a, b, c) = (x(), x(), x());
      let h = if large { 1 } else { 0 };
      match r.weighted(&[30, 60, 60, 10, 30, 20, 20, 20, 20, 10, 10, 3 * h, h]) {
        0 => p.push(t, "new", vec![k, a, b]),
        1 => p.push(t, "copy", vec![k]),
        2 => p.push(t, "change", vec![k, j, a, b, c % 3]),
        3 => p.push(t, "swap", vec![k, j]),
        4 => p.push(t, "compare", vec![k, j]),
        5 => p.push(t, "show", vec![k]),
        6 => p.push(t, "key", vec![k, j, a, b]),
        7 => p.push(t, "find", vec![k]),
        8 => p.push(t, "element", vec![k, j, a, b]),
        9 => p.push(t, "tree", vec![k, j, a, b]),
        11 => p.push(t, "hoard", vec![k, if r.chance(1, 6) { 6 } else { b % 6 }]),
        12 => p.push(t, "unhoard", vec![k, b]),
        _ => p.push(t, "drop", vec![k]),
      }
    }
  }
  p
}

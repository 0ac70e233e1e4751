//! Threads parsing into shared forests: C08 - C10.
use crate::gram::{self, AK, SETUP, SG};
use crate::types::{set_logging, Baton, Sym};
use bongo::parsers::earley;
use bongo::parsers::tree::{Node, NodeContent, TreeHandle, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::wrap_grammar_with_start;
use simcore::cfg::{self, Cfg, Chart, Forest, Label, Tok, E};
use simcore::graph::{bisimilar, same_trees, sample_trees, Cmp};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_DEBUG, CB_LOG};
use std::collections::BTreeMap;

type O = TreeOwner<Sym, Sym, Sym>;
type H = TreeHandle<'static, Sym, Sym, Sym>;
type N = Node<'static, Sym, Sym, Sym>;

const WORK_CAP: u64 = 250;
const READ_CAP: usize = 20_000;
const TRUTH_CAP: usize = 3_000;
/// The same for plans with large grammars, by cfg::cost.
pub const COST_CAP: u64 = 80_000;
const LARGE_TRUTH_CAP: usize = 30_000;
const TREE_CAP: usize = 4_000_000;

struct Slot {
  owner: *mut O,
  handle: *mut H,
  tainted: bool,
}

struct Parsed {
  forest: usize,
  root: N,
  truth: Forest,
  what: String,
  grammar: *const SG,
}

#[derive(Default)]
struct World {
  forests: Vec<Slot>,
  /// which forest parses named f go to now
  current: Vec<usize>,
  parsed: Vec<Parsed>,
  grammars: Vec<*mut SG>,
  touching: [u64; 16],
  cfgs: Vec<Option<Cfg>>,
  trees: bool,
  large: bool,
}

static W: Baton<Option<World>> = Baton::new(None);
fn w() -> &'static mut World {
  W.get().as_mut().unwrap()
}

fn me() -> usize {
  sched::task().min(15)
}

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

fn refused_ok(f: usize) -> bool {
  w().forests[f].tainted || (0..sched::MAXT).any(|t| t != me() && w().touching[t] >> f & 1 == 1 && sched::fired_in_op(t) != 0)
}

/// True if the operation may be repeated.
fn on_panic(p: Panic, f: usize, what: &str) {
  match p {
    Panic::Injected(k) => {
      w().forests[f].tainted = true;
      probe(match k {
        CB_CMP => "interrupted in a comparison",
        CB_CLONE => "interrupted in a clone",
        CB_DEBUG => "interrupted in a debug format",
        _ => "interrupted in the logger",
      });
    }
    Panic::Other(m) => {
      if refused_ok(f) {
        probe("refused after an interruption");
      } else {
        bad("unexpected-panic", format!("{} panicked: {}", what, m));
      }
    }
  }
}

fn new_forest() -> usize {
  let r = lib(|| {
    let owner = Box::into_raw(Box::new(O::new()));
    let handle: H = unsafe { (*owner).handle() };
    (owner, Box::into_raw(Box::new(handle)))
  });
  let (owner, handle) = r.unwrap_or_else(|p| bad("unexpected-panic", format!("creating a forest panicked: {:?}", p)));
  w().forests.push(Slot { owner, handle, tainted: false });
  w().forests.len() - 1
}

fn make(c: &Cfg) -> Result<SG, String> {
  match gram::make(c, false) {
    Err(e) => Err(format!("{:?}", e)),
    Ok(x) => wrap_grammar_with_start(x).map_err(|e| format!("{:?}", e)),
  }
}

/// The library's grammar for grammar number g; None if interrupted too often.
fn build(g: usize) -> Option<&'static SG> {
  let c = w().cfgs[g].as_ref()?;
  for _ in 0..4 {
    let r = lib(|| make(c).map(|s| Box::into_raw(Box::new(s))));
    match r {
      Ok(Ok(p)) => {
        w().grammars.push(p);
        return Some(unsafe { &*p });
      }
      Ok(Err(e)) => bad("build", format!("grammar {:?} was not accepted: {}", c, e)),
      Err(Panic::Injected(_)) => {}
      Err(Panic::Other(m)) => bad("unexpected-panic", format!("building grammar {:?} panicked: {}", c, m)),
    }
  }
  None
}

/// Reads everything below a node; None if refused or interrupted.
fn read(f: usize, root: &N, what: &str) -> Option<Forest> {
  let mut out = Forest::default();
  let mut ids: BTreeMap<N, usize> = BTreeMap::new();
  let mut todo = vec![];
  let enter = |n: N, out: &mut Forest, ids: &mut BTreeMap<N, usize>, todo: &mut Vec<N>| match ids.get(&n) {
    Some(i) => *i,
    None => {
      let i = out.nodes.len();
      out.nodes.push(vec![]);
      ids.insert(n.clone(), i);
      todo.push(n);
      i
    }
  };
  out.root = enter(root.clone(), &mut out, &mut ids, &mut todo);
  while let Some(n) = todo.pop() {
    if out.nodes.len() > READ_CAP {
      probe("tree too large to read");
      return None;
    }
    let me = ids[&n];
    let mut tries = 0;
    let alts = loop {
      match lib(|| {
        n.alts()
          .map(|a| match a.content() {
            NodeContent::Leaf(l) => {
              let (k, v) = (l.kind(), l.value());
              (Label::Leaf(k.0, v.0), vec![])
            }
            NodeContent::Branch(b) => {
              let a = b.action();
              (Label::Branch(a.0.wrapping_sub(AK)), b.nodes().collect::<Vec<N>>())
            }
          })
          .collect::<Vec<_>>()
      }) {
        Ok(v) => break v,
        Err(p) => {
          on_panic(p, f, what);
          tries += 1;
          if tries > 3 {
            return None;
          }
        }
      }
    };
    for (l, ch) in &alts {
      let ch = ch.iter().map(|c| enter(c.clone(), &mut out, &mut ids, &mut todo)).collect();
      out.nodes[me].push((*l, ch));
    }
    drop(alts);
  }
  Some(out)
}

pub fn show_grammar(c: &Cfg) -> String {
  let mut s = String::new();
  for (h, ps) in c.rules.iter().enumerate() {
    for p in ps {
      s.push_str(&format!("  N{} -> {} {{act{}}}\n", h, if p.elems.is_empty() { "(empty)".to_string() } else { p.elems.iter().map(|e| match e { cfg::E::T(t) => format!("t{}", t), cfg::E::N(n) => format!("N{}", n) }).collect::<Vec<_>>().join(" ") }, p.action));
    }
  }
  s
}

fn compare(f: usize, root: &N, truth: &Forest, what: &str, class: &str) {
  let Some(got) = read(f, root, "reading a parse result") else { return };
  let differ = |in_got: bool, tree: String| -> ! { bad(class, format!("{}: {} {}", what, if in_got { "the result represents something that is no derivation:" } else { "the result lacks the derivation" }, tree)) };
  if w().large && bisimilar(&got, truth) {
    return;
  }
  match same_trees(&got, truth, TREE_CAP) {
    Cmp::Equal => {}
    Cmp::TooBig => match sample_trees(&got, truth, 12) {
      None => probe("tree sets too large to compare"),
      Some((in_got, tree)) => differ(in_got, tree),
    },
    Cmp::Differ(in_got, tree) => differ(in_got, tree),
  }
}

pub fn too_costly(c: &Cfg, kinds: &[u32], large: bool) -> bool {
  if large {
    cfg::cost(c, kinds, COST_CAP) > COST_CAP
  } else {
    cfg::work(c, kinds) > WORK_CAP
  }
}

fn op_parse(o: &Op, cache: &mut BTreeMap<usize, &'static SG>) {
  let ng = w().cfgs.len();
  let g = o.idx(0, ng);
  let Some(c) = w().cfgs[g].clone() else { return };
  let sg = match cache.get(&g) {
    Some(s) => *s,
    None => match build(g) {
      Some(s) => {
        cache.insert(g, s);
        s
      }
      None => return,
    },
  };
  let toks: Vec<Tok> = o.a.get(2..).unwrap_or(&[]).iter().map(|x| ((x.unsigned_abs() % 100) as u32, 300 + (x.unsigned_abs() / 100) as u32)).collect();
  let kinds: Vec<u32> = toks.iter().map(|t| t.0).collect();
  if too_costly(&c, &kinds, w().large) {
    return;
  }
  let accepts = Chart::new(&c, &kinds).accepts();
  let what = || format!("grammar\n{}tokens {:?}", show_grammar(&c), toks);
  let nf = w().current.len();
  // a forest of its own, gone afterwards
  let temporary = o.code == "tparse" && w().forests.len() < 40;
  let f = if temporary { new_forest() } else { w().current[o.idx(1, nf)] };
  w().touching[me()] = 1 << f;
  let handle: &'static H = unsafe { &*w().forests[f].handle };
  for _ in 0..3 {
    let vec: Vec<Token<Sym, Sym>> = toks.iter().map(|t| Token::new(Sym(t.0), Sym(t.1))).collect();
    let before = sched::own_steps();
    let result = lib(|| earley::parse(sg, handle, vec));
    if let Some(log) = std::env::var_os("SIM_PARSE_COST") {
      use std::io::Write;
      let _ = std::fs::OpenOptions::new().append(true).create(true).open(log).unwrap().write_all(format!("{} {}\n", sched::own_steps() - before, if w().large { cfg::cost(&c, &kinds, COST_CAP) } else { cfg::work(&c, &kinds) }).as_bytes());
    }
    match result {
      Ok(r) => {
        if r.is_some() != accepts {
          bad("verdict", format!("{}\nthe parser {} although the sequence is {}in the language", what(), if r.is_some() { "returned a tree" } else { "returned none" }, if accepts { "" } else { "not " }));
        }
        probe(if accepts { "sequence accepted" } else { "sequence rejected" });
        if w().large {
          probe(if accepts { "large grammar or long sequence accepted" } else { "large grammar or long sequence rejected" });
        }
        if let (Some(root), true) = (r, w().trees) {
          match cfg::truth(&c, &toks, if w().large { LARGE_TRUTH_CAP } else { TRUTH_CAP }) {
            None => probe("too many derivations to compare"),
            Some(truth) => {
              compare(f, &root, &truth, &what(), "derivations");
              if truth.nodes.iter().any(|n| n.len() > 1) {
                probe("ambiguous result compared");
              }
              let what = what();
              if !temporary {
                w().parsed.push(Parsed { forest: f, root, truth, what, grammar: sg });
              }
            }
          }
        }
        break;
      }
      Err(p) => {
        let again = matches!(p, Panic::Injected(_));
        on_panic(p, f, &format!("parsing\n{}\n", what()));
        if !again {
          break;
        }
        probe("interrupted parse repeated");
      }
    }
  }
  if temporary {
    probe("parse into a forest of its own");
    free_forest(f);
  }
}

fn free_forest(f: usize) {
  let s = &mut w().forests[f];
  let (owner, handle) = (std::mem::replace(&mut s.owner, std::ptr::null_mut()), std::mem::replace(&mut s.handle, std::ptr::null_mut()));
  if !owner.is_null() {
    let _ = lib(|| unsafe {
      drop(Box::from_raw(handle));
      drop(Box::from_raw(owner));
    });
  }
}

/// Puts another grammar where one the task has used was, or else builds it.
fn op_regram(o: &Op, cache: &mut BTreeMap<usize, &'static SG>) {
  let ng = w().cfgs.len();
  let (old, new) = (o.idx(0, ng), o.idx(1, ng));
  if old == new || cache.contains_key(&new) || w().cfgs[new].is_none() {
    return;
  }
  let Some(sg) = cache.remove(&old) else { return };
  let Some(at) = w().grammars.iter().copied().find(|p| std::ptr::eq(*p, sg)) else { return };
  w().parsed.retain(|p| p.grammar != at as *const SG);
  let _ = lib(|| unsafe { std::ptr::drop_in_place(at) });
  let c = w().cfgs[new].clone().unwrap();
  loop {
    match lib(|| make(&c).map(|g| unsafe { std::ptr::write(at, g) })) {
      Ok(Ok(())) => break,
      Ok(Err(e)) => bad("build", format!("grammar {:?} was not accepted: {}", c, e)),
      Err(Panic::Injected(_)) => {}
      Err(Panic::Other(m)) => bad("unexpected-panic", format!("building grammar {:?} panicked: {}", c, m)),
    }
  }
  cache.insert(new, unsafe { &*at });
  probe("grammar at the address of an earlier one");
}

/// Runs library code without scheduling points.
fn alone<R>(f: impl FnOnce() -> R) -> Result<R, Panic> {
  unarmed(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))).map_err(sched::classify)
}

/// A sequence longer than any 16-bit number (too long for scheduling points), which a list of items with one
/// derivation matches unless one token is wrong.
fn op_giant(o: &Op) {
  let (n, wrong, two) = (o.arg(0).unsigned_abs() as usize % 70_000, o.arg(1), o.arg(2) % 2 == 1);
  let item = |elems: Vec<E>, action| cfg::P { named: vec![false; elems.len()], elems, action };
  let c = Cfg { rules: vec![vec![item(vec![E::N(0), E::T(0)], 0), item(if two { vec![] } else { vec![E::T(0)] }, 1)]] };
  let Ok(Ok(sg)) = alone(|| make(&c)) else { bad("build", "a list grammar was not accepted".into()) };
  let sg: &'static SG = unsafe { &*(&sg as *const SG) };
  let kind = |i: usize| if i as i64 == wrong { 9 } else { 0 };
  let owner = O::new();
  let handle: H = unsafe { &*(&owner as *const O) }.handle();
  let handle: &'static H = unsafe { &*(&handle as *const H) };
  let vec: Vec<Token<Sym, Sym>> = (0..n).map(|i| Token::new(Sym(kind(i)), Sym(i as u32))).collect();
  let what = format!("{} tokens of a left-recursive list{}", n, if wrong >= 0 && wrong < n as i64 { ", one of them wrong" } else { "" });
  let accepts = !(0..n as i64).contains(&wrong) && (n > 0 || two);
  let root = match alone(|| earley::parse(sg, handle, vec)) {
    Ok(r) => r,
    Err(p) => bad("unexpected-panic", format!("{} panicked: {:?}", what, p)),
  };
  if root.is_some() != accepts {
    bad("verdict", format!("{}: the parser {}", what, if root.is_some() { "returned a tree" } else { "returned none" }));
  }
  probe("parse of more than 65535 tokens");
  let (Some(mut at), true) = (root, w().trees) else { return };
  let fail = |i: usize, m: String| -> ! { bad("derivations", format!("{}: at token {}: {}", what, i, m)) };
  let only = |i: usize, n: &N| {
    let l = match alone(|| {
      n.alts()
        .map(|a| match a.content() {
          NodeContent::Leaf(l) => (Label::Leaf(l.kind().0, l.value().0), vec![]),
          NodeContent::Branch(b) => (Label::Branch(b.action().0.wrapping_sub(AK)), b.nodes().collect::<Vec<N>>()),
        })
        .collect::<Vec<_>>()
    }) {
      Ok(l) => l,
      Err(p) => fail(i, format!("reading panicked: {:?}", p)),
    };
    if l.len() != 1 {
      fail(i, format!("{} alternatives where one derivation exists", l.len()));
    }
    l.into_iter().next().unwrap()
  };
  let last = if two { 0 } else { 1 };
  for i in (0..n).rev() {
    let (l, mut ch) = only(i, &at);
    let first = !two && i == 0;
    if l != Label::Branch(first as u32) || ch.len() != 2 - first as usize {
      fail(i, format!("{:?} with {} children", l, ch.len()));
    }
    let (l, _) = only(i, &ch.pop().unwrap());
    if l != Label::Leaf(kind(i), i as u32) {
      fail(i, format!("the leaf is {:?}", l));
    }
    if let Some(c) = ch.pop() {
      at = c;
    }
  }
  if last == 0 && only(0, &at) != (Label::Branch(1), vec![]) {
    fail(0, "the empty list is not there".into());
  }
}

fn recheck(i: usize) {
  let (f, root, truth, what) = {
    let p = &w().parsed[i];
    (p.forest, p.root.clone(), p.truth.clone(), p.what.clone())
  };
  w().touching[me()] = 1 << f;
  compare(f, &root, &truth, &format!("{}\nread again later", what), "changed");
}

fn task(ops: &[Op]) {
  let mut cache = BTreeMap::new();
  for o in ops {
    w().touching[me()] = 0;
    sched::begin_op(o.id);
    match o.code.as_str() {
      "parse" | "tparse" => op_parse(o, &mut cache),
      "giant" => op_giant(o),
      "regram" => op_regram(o, &mut cache),
      "recheck" => {
        let n = w().parsed.len();
        if n > 0 {
          recheck(o.idx(0, n));
        }
      }
      "log" => set_logging(o.arg(0) % 2 == 1),
      "fresh" => {
        let k = w().current.len();
        if w().forests.len() < 40 {
          let f = new_forest();
          w().current[o.idx(0, k)] = f;
        }
      }
      _ => {}
    }
  }
  w().touching[me()] = 0;
}

struct Ops<'a>(&'a Vec<Vec<Op>>);
unsafe impl Sync for Ops<'_> {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, if p.get("large") == 1 { 600_000_000 } else { 150_000_000 });
  *W.get() = Some(World::default());
  w().trees = p.get("trees") != 0;
  w().large = p.get("large") == 1;
  for g in 0..p.get("grammars").clamp(1, 4) {
    w().cfgs.push(gram::decode(p, g));
  }
  for _ in 0..p.get("forests").clamp(1, 3) {
    let f = new_forest();
    w().current.push(f);
  }
  set_logging(p.get("log") == 1);
  let n = p.ops.iter().filter(|o| o.task < SETUP).map(|o| o.task as usize + 1).max().unwrap_or(0).min(sched::MAXT);
  let ops: Vec<Vec<Op>> = (0..n).map(|t| p.task_ops(t)).collect();
  let shared = Ops(&ops);
  sched::run_tasks(n, &|t| task(&(&shared).0[t]));
  set_logging(false);
  if p.get("later") == 1 {
    for i in 0..w().parsed.len() {
      recheck(i);
    }
  }
  let world = W.get().take().unwrap();
  drop(world.parsed);
  for g in world.grammars {
    unsafe { drop(Box::from_raw(g)) };
  }
  for s in world.forests.into_iter().filter(|s| !s.owner.is_null()) {
    unsafe {
      drop(Box::from_raw(s.handle));
      drop(Box::from_raw(s.owner));
    }
  }
  unarmed(|| ());
  sched::end_run()
}

pub fn gen(prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  if prop != "C10" && (std::env::var_os("SIM_GIANT").is_some() || r.chance(1, 8000)) {
    let mut p = Plan::new("parse", seed);
    p.set("large", 1);
    p.set("arena", r.below(6) as i64);
    p.set("arenaseed", r.below(1 << 30) as i64);
    p.set("trees", (prop != "C08") as i64);
    p.set("grammars", 1);
    p.set("forests", 1);
    gram::encode(&mut p, 0, &cfg::classic(6));
    let n = r.range(65_537, 66_000);
    p.push(0, "giant", vec![n, if r.chance(1, 3) { n - 1 - r.below(10) as i64 } else { -1 }, r.below(2) as i64]);
    return p;
  }
  if std::env::var_os("SIM_LARGE").is_some() || r.chance(1, if prop == "C10" { 200 } else { 70 }) {
    return gen_large(prop, seed, r);
  }
  let mut p = Plan::new("parse", seed);
  let later = prop == "C10";
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  p.set("trees", (prop != "C08") as i64);
  p.set("later", later as i64);
  p.set("log", r.chance(1, 3) as i64);
  let ng = r.weighted(&[0, 5, 3, 1]) as i64;
  let nf = if r.chance(1, 5) { 2 } else { 1 };
  p.set("grammars", ng);
  p.set("forests", nf);
  let tasks = if later { r.range(1, 4) } else { *r.pick(&[1, 1, 2, 2, 3, 4]) };
  p.set("fine", (tasks > 1 && r.chance(1, 10)) as i64);
  if later && r.chance(3, 4) {
    let mask = *r.pick(&[1 << CB_CMP, 1 << CB_CLONE, 1 << CB_CLONE, (1 << CB_CLONE) | (1 << CB_DEBUG) | (1 << CB_LOG), (1 << CB_DEBUG) | (1 << CB_LOG), (1 << CB_CMP) | (1 << CB_CLONE) | (1 << CB_DEBUG) | (1 << CB_LOG)]);
    p.set("faultmask", mask);
    p.set("faultden", *r.pick(&[10, 30, 100, 300, 1000, 3000]));
    p.set("maxfaults", r.range(1, 4));
    if mask & ((1 << CB_DEBUG) | (1 << CB_LOG)) != 0 && r.chance(2, 3) {
      p.set("log", 1);
    }
  }
  let o = cfg::GenOpts { max_nts: r.range(1, 4), max_prods: r.range(1, 4), max_len: r.range(1, 4), terms: r.range(1, 3) as u32, names: r.chance(1, 3) };
  let gs: Vec<Cfg> = (0..ng).map(|_| gram::gen(&mut r, &o)).collect();
  for (i, c) in gs.iter().enumerate() {
    gram::encode(&mut p, i as i64, c);
  }
  let max = *r.pick(&[2, 3, 4, 5, 6, 8, 10]);
  let per = r.range(1, if later { 4 } else { 3 });
  let distinct_values = r.chance(1, 2);
  let mut previous: Option<Vec<i64>> = None;
  for _ in 0..per {
    for t in 0..tasks {
      let k = r.below(22);
      if ng > 1 && k >= 20 {
        let old = r.below(ng as u64) as i64;
        p.push(t as u8, "regram", vec![old, (old + 1 + r.below(ng as u64 - 1) as i64) % ng]);
        continue;
      }
      let code = if k == 6 { "tparse" } else { "parse" };
      if later && k < 4 {
        p.push(t as u8, "recheck", vec![r.below(64) as i64]);
      } else if later && k == 4 {
        p.push(t as u8, "fresh", vec![r.below(2) as i64]);
      } else if k == 5 {
        p.push(t as u8, "log", vec![r.below(2) as i64]);
      } else {
        if let (Some(a), true) = (&previous, r.chance(1, 3)) {
          p.push(t as u8, code, a.clone());
          continue;
        }
        let g = r.below(ng as u64) as usize;
        let mut toks = cfg::tokens_for(&mut r, &gs[g], max);
        while cfg::work(&gs[g], &toks) > WORK_CAP && !toks.is_empty() {
          toks.pop();
        }
        let mut a = vec![g as i64, r.below(nf as u64) as i64];
        for (i, t) in toks.iter().enumerate() {
          let v = if distinct_values { i as u64 } else { r.below(2) };
          a.push(*t as i64 + 100 * v as i64);
        }
        previous = Some(a.clone());
        p.push(t as u8, code, a);
      }
    }
  }
  p
}

/// Large grammars and long sequences, mostly alone.
fn gen_large(prop: &str, seed: u64, mut r: Rng) -> Plan {
  let mut p = Plan::new("parse", seed);
  p.set("large", 1);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  p.set("trees", (prop != "C08") as i64);
  p.set("later", (prop == "C10") as i64);
  p.set("log", r.chance(1, 10) as i64);
  p.set("grammars", 1);
  p.set("forests", 1);
  let tasks = *r.pick(&[1, 1, 1, 2]);
  if prop == "C10" && r.chance(1, 2) {
    p.set("faultmask", *r.pick(&[1 << CB_CMP, 1 << CB_CLONE, (1 << CB_CMP) | (1 << CB_CLONE)]));
    p.set("faultden", *r.pick(&[300, 3000, 30_000]));
    p.set("maxfaults", r.range(1, 3));
  }
  let (c, max) = cfg::large(&mut r);
  gram::encode(&mut p, 0, &c);
  let distinct_values = r.chance(1, 2);
  for t in 0..tasks {
    for _ in 0..r.range(1, 2) {
      let mut want = max;
      let mut toks = cfg::long_tokens(&mut r, &c, want);
      while want > 0 && too_costly(&c, &toks, true) {
        want = want * 3 / 4;
        toks = cfg::long_tokens(&mut r, &c, want);
      }
      let mut a = vec![0, 0];
      for (i, t) in toks.iter().enumerate() {
        a.push(*t as i64 + 100 * if distinct_values { i as i64 } else { r.below(2) as i64 });
      }
      p.push(t as u8, "parse", a);
    }
  }
  p
}

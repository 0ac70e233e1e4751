//! The same grammars and inputs under many placements in memory: C16.
use crate::gram::{self, AK, G, NT, SETUP};
use crate::parse::{show_grammar, too_costly};
use crate::types::{Baton, Sym};
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::PassContext;
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{Elem, Prod, Rule};
use bongo::parsers::earley;
use bongo::parsers::tree::{Node, NodeContent, TreeHandle, TreeOwner};
use bongo::parsers::Token;
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::state::{ProdState, ProdStateSet};
use simcore::arena;
use simcore::cfg::{self, Cfg, Forest, Label, E};
use simcore::graph::{bisimilar, same_trees, Cmp};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

type PR<'a> = Prod<'a, Sym, Sym, Sym, Sym>;
type PS<'a> = ProdState<'a, Sym, Sym, Sym, Sym>;
type PSS<'a> = ProdStateSet<'a, Sym, Sym, Sym, Sym>;
type Item = (u32, u32, u32);

const READ_CAP: usize = 20_000;
const TREE_CAP: usize = 4_000_000;
const MAX_SETS: usize = 40;

#[derive(Clone)]
enum Res {
  Text(String),
  Tree(Forest),
}

type Digest = Vec<(String, Res)>;

#[derive(Default)]
struct World {
  cfgs: Vec<Option<Cfg>>,
  inputs: Vec<Vec<Vec<u32>>>,
  large: bool,
  /// by grammar: the names of a full digest, and every result seen first
  names: BTreeMap<usize, (String, Vec<String>)>,
  first: BTreeMap<(usize, String), (String, Res)>,
}

static W: Baton<Option<World>> = Baton::new(None);
fn w() -> &'static mut World {
  W.get().as_mut().unwrap()
}

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

/// Library code whose outcome, a panic's message included, is part of the digest.
fn outcome(f: impl FnOnce() -> String) -> Res {
  Res::Text(match lib(f) {
    Ok(s) => unarmed(|| s.as_str().to_owned()),
    Err(Panic::Injected(k)) => bad("harness", format!("fault {} in a run without faults", k)),
    Err(Panic::Other(m)) => {
      probe("a panic is part of the outcome");
      format!("panic: {}", m)
    }
  })
}

fn must<R>(what: &str, f: impl FnOnce() -> R) -> R {
  lib(f).unwrap_or_else(|p| bad("unexpected-panic", format!("{} panicked: {:?}", what, p)))
}

/// Equality is sameness and the order is total: `xs` are values and which thing each is.
fn axioms<T: Ord>(what: &str, xs: &[(usize, T)]) {
  let n = xs.len();
  let r = lib(|| {
    for (i, (ia, a)) in xs.iter().enumerate() {
      for (ib, b) in &xs[i..] {
        let same = ia == ib;
        if (a == b) != same || (b == a) != same {
          return Some(format!("{} {} and {} compare {}equal", what, ia, ib, if same { "un" } else { "" }));
        }
        let (c, d) = (a.cmp(b), b.cmp(a));
        if (c == Ordering::Equal) != same || c != d.reverse() {
          return Some(format!("{} {} and {} are ordered {:?} and {:?}", what, ia, ib, c, d));
        }
        if a.partial_cmp(b) != Some(c) || b.partial_cmp(a) != Some(d) {
          return Some(format!("{} {} and {}: the two orders disagree", what, ia, ib));
        }
      }
    }
    let mut order: Vec<usize> = (0..n).collect();
    order.sort_by(|i, j| xs[*i].1.cmp(&xs[*j].1));
    for i in 0..n {
      for j in i + 1..n {
        if xs[order[i]].1.cmp(&xs[order[j]].1) == Ordering::Greater {
          return Some(format!("the order of {}s is not transitive", what));
        }
      }
    }
    None
  });
  match r {
    Ok(None) => {}
    Ok(Some(m)) => bad("order", m),
    Err(p) => bad("unexpected-panic", format!("comparing {}s of one grammar panicked: {:?}", what, p)),
  }
}

fn item(s: &PS, c: &Cfg) -> Item {
  let p = s.prod();
  let (h, i) = prod_id(&p, c);
  let mut left = 0;
  while s.offset_prod_elem(left).is_some() {
    left += 1;
  }
  let n = c.rules[h as usize][i as usize].elems.len() as u32;
  (h, i, n - left as u32)
}

fn prod_id(p: &PR, c: &Cfg) -> (u32, u32) {
  let h = p.head().0 - NT;
  let a = p.action_key().0 - AK;
  let i = c.rules[h as usize].iter().position(|x| x.action == a).unwrap();
  (h, i as u32)
}

fn elem_text(e: &E, name: Option<&str>) -> String {
  match e {
    E::T(t) => format!("t{}:{:?}", t, name),
    E::N(n) => format!("N{}:{:?}", n, name),
  }
}

fn lib_elem(e: &Elem<Sym, Sym>) -> E {
  match e {
    Elem::Term(t) => E::T(t.0),
    Elem::NonTerm(n) => E::N(n.0 - NT),
  }
}

/// The automaton of closed sets of dotted productions: set, element, set.
fn automaton(g: &G, c: &Cfg) -> String {
  let mut order = String::new();
  let mut states_seen: Vec<PS> = vec![];
  let mut sets_seen: BTreeMap<BTreeSet<Item>, usize> = BTreeMap::new();
  let mut sets: Vec<(usize, PSS)> = vec![];
  let close = |s: &mut PSS<'_>| {
    let s: &mut PSS<'_> = unsafe { std::mem::transmute(s) };
    let g: &'static G = unsafe { &*(g as *const G) };
    s.take_closure(|st| {
      let v: Vec<PS> = match st.next_elem() {
        Some(Elem::NonTerm(n)) => g.get_rule(n).prods().map(ProdState::from_start).collect(),
        _ => vec![],
      };
      v.into_iter()
    })
  };
  // what a set holds can be seen through its parts
  let holds = |s: &PSS| -> (BTreeSet<Item>, BTreeMap<String, BTreeSet<Item>>) {
    let done = s.complete().map(|x| item(&x, c)).collect::<BTreeSet<_>>();
    let mut out = BTreeMap::new();
    for (e, t) in s.nexts() {
      let key = elem_text(&lib_elem(e.elem()), e.id().map(|n| n.str()));
      let mut inner = BTreeSet::new();
      inner.extend(t.complete().map(|x| item(&x, c)));
      for (_, u) in t.nexts() {
        // items after two elements stand for those after one
        inner.extend(all_items(&u, c).into_iter().map(|(h, p, d)| (h, p, d - 1)));
      }
      if out.insert(key.clone(), inner).is_some() {
        bad("successors", format!("the successor by {} is listed twice in\n{}", key, show_grammar(c)));
      }
    }
    (done, out)
  };
  let expect = |items: &BTreeSet<Item>| -> (BTreeSet<Item>, BTreeMap<String, BTreeSet<Item>>) {
    let mut done = BTreeSet::new();
    let mut out: BTreeMap<String, BTreeSet<Item>> = BTreeMap::new();
    for (h, p, d) in items {
      let prod = &c.rules[*h as usize][*p as usize];
      match prod.elems.get(*d as usize) {
        None => {
          done.insert((*h, *p, *d));
        }
        Some(e) => {
          let name = prod.named[*d as usize].then(|| gram::name_of(prod, *d as usize));
          out.entry(elem_text(e, name.as_deref())).or_default().insert((*h, *p, d + 1));
        }
      }
    }
    (done, out)
  };
  let g: &'static G = unsafe { &*(g as *const G) };
  let first: PSS<'static> = must("making a set of dotted productions", || {
    let mut s: PSS = g.get_rule(g.start_nt()).prods().map(ProdState::from_start).collect();
    close(&mut s);
    s
  });
  let first_items = c.closure(&(0..c.rules[0].len() as u32).map(|i| (0, i, 0)).collect());
  let mut todo = vec![(first, first_items)];
  let mut count = 0;
  while let Some((set, items)) = todo.pop() {
    if sets_seen.contains_key(&items) {
      let i = sets_seen[&items];
      if sets.iter().filter(|(j, _)| *j == i).count() < 2 && sets.len() < 24 {
        sets.push((i, set));
      }
      continue;
    }
    if count >= MAX_SETS {
      break;
    }
    sets_seen.insert(items.clone(), count);
    count += 1;
    let got = must("looking at a set of dotted productions", || holds(&set));
    let want = expect(&items);
    if got != want {
      bad("closure", format!("the set of dotted productions {:?} holds {:?}, which should be {:?}, in\n{}", items, got, want, show_grammar(c)));
    }
    // the successors, in an order of our own
    let mut next: Vec<(String, PSS<'static>)> = must("taking successors", || {
      set
        .nexts()
        .map(|(e, mut s)| {
          let mut again = PSS::new_empty();
          for x in s.complete() {
            again.add(x);
          }
          let key = elem_text(&lib_elem(e.elem()), e.id().map(|n| n.str()));
          close(&mut s);
          (key, s)
        })
        .collect()
    });
    order.push_str(&format!("{:?}\n", next.iter().map(|x| &x.0).collect::<Vec<_>>()));
    next.sort_by(|a, b| a.0.cmp(&b.0));
    for (key, s) in next {
      let kernel = want.1[&key].clone();
      let items = c.closure(&kernel);
      todo.push((s, items));
    }
    if states_seen.len() < 16 {
      let more: Vec<PS> = must("advancing dotted productions", || {
        let mut v: Vec<PS> = set.complete().collect();
        for (_, s) in set.nexts() {
          v.extend(s.complete());
          for (_, u) in s.nexts() {
            v.extend(u.complete());
          }
        }
        v
      });
      states_seen.extend(more.into_iter().take(6));
    }
    if sets.len() < 24 {
      sets.push((sets_seen[&items], set));
    }
  }
  probe("automaton of dotted productions compared");
  // dotted productions, each reached in two ways
  let mut ids: BTreeMap<Item, usize> = BTreeMap::new();
  let mut states: Vec<(usize, PS)> = vec![];
  let mut id = |it: Item| {
    let n = ids.len();
    *ids.entry(it).or_insert(n)
  };
  for s in states_seen {
    let it = item(&s, c);
    states.push((id(it), s));
  }
  let walked: Vec<PS> = must("walking productions", || {
    let mut v = vec![];
    for p in g.prods().take(6) {
      let mut s = ProdState::from_start(p);
      loop {
        let next = s.next_elem_state().map(|(_, n)| n);
        let by_elem = s.next_elem().and_then(|e| s.advance_if(e));
        if let Some(b) = by_elem {
          v.push(b);
        }
        v.push(s);
        match next {
          Some(n) => s = n,
          None => break,
        }
      }
    }
    v
  });
  for s in walked {
    let it = item(&s, c);
    states.push((id(it), s));
  }
  states.truncate(40);
  axioms("dotted production", &states);
  axioms("set of dotted productions", &sets);
  let _ = lib(|| drop((states, sets, todo)));
  order
}

/// All items of a set, as far as its parts show them.
fn all_items(s: &PSS, c: &Cfg) -> BTreeSet<Item> {
  let mut v: BTreeSet<Item> = s.complete().map(|x| item(&x, c)).collect();
  for (_, t) in s.nexts() {
    v.extend(all_items(&t, c).into_iter().map(|(h, p, d)| (h, p, d - 1)));
  }
  v
}

fn list_prods(g: &G) -> String {
  let mut s = String::new();
  for p in g.prods() {
    s.push_str(&format!("{:?} {:?} {:?} {:?} first {:?} key {:?}\n", p.head(), p.action_key(), p.action_value(), p.prod_elements(), p.first_elem(), p.prod_key()));
  }
  s
}

fn analyses(g: &G, order: i64) -> Digest {
  let mut d: Digest = vec![];
  let ctx = must("making a context", || PassContext::new(g));
  let mut which = [0, 1, 2];
  which.rotate_left((order.rem_euclid(3)) as usize);
  for k in which {
    let (name, r) = match k {
      0 => (
        "nullable",
        outcome(|| match ctx.get_pass::<Nullable<Sym, Sym>>() {
          Err(e) => format!("error {:?} {}", e, e),
          Ok(n) => {
            let mut s = format!("set {:?}\n", n.get_nullable_set());
            for r in g.rules() {
              s.push_str(&format!("{:?} {} {:?}\n", r.head(), n.is_nullable(r.head()), n.get_nullable_info().get_nullable_action(r.head())));
              for p in r.prods() {
                s.push_str(&format!("  {:?} {}\n", p.action_key(), n.is_prod_nullable(&p)));
              }
            }
            s
          }
        }),
      ),
      1 => (
        "firsts",
        outcome(|| match ctx.get_pass::<Firsts<Sym, Sym>>() {
          Err(e) => format!("error {:?} {}", e, e),
          Ok(f) => {
            let mut s = String::new();
            for r in g.rules() {
              s.push_str(&format!("{:?} {:?}\n", r.head(), f.get(r.head()).filter(|x| !x.is_empty())));
            }
            s
          }
        }),
      ),
      _ => (
        "follows",
        outcome(|| match ctx.get_pass::<Follows<Sym, Sym>>() {
          Err(e) => format!("error {:?} {}", e, e),
          Ok(_) => "computed".to_string(),
        }),
      ),
    };
    d.push((format!("analysis {}", name), r));
  }
  let _ = lib(|| drop(ctx));
  d.sort_by(|a, b| a.0.cmp(&b.0));
  d
}

type O = TreeOwner<Sym, Sym, Sym>;

fn read(root: Node<'_, Sym, Sym, Sym>) -> Option<Forest> {
  let mut out = Forest::default();
  let mut nodes = vec![root];
  let mut ids: BTreeMap<Node<Sym, Sym, Sym>, usize> = BTreeMap::from([(nodes[0].clone(), 0)]);
  let mut i = 0;
  while i < nodes.len() {
    if i > READ_CAP {
      return None;
    }
    let mut alts = vec![];
    for a in nodes[i].alts() {
      alts.push(match a.content() {
        NodeContent::Leaf(l) => (Label::Leaf(l.kind().0, l.value().0), vec![]),
        NodeContent::Branch(b) => {
          let mut ch = vec![];
          for c in b.nodes() {
            let n = nodes.len();
            let id = *ids.entry(c.clone()).or_insert(n);
            if id == n {
              nodes.push(c);
            }
            ch.push(id);
          }
          (Label::Branch(b.action().0.wrapping_sub(AK)), ch)
        }
      });
    }
    out.nodes.push(alts);
    i += 1;
  }
  Some(out)
}

fn parses(g: G, c: &Cfg, inputs: &[Vec<u32>], shared: bool) -> Digest {
  let mut d: Digest = vec![];
  let sg = match lib(|| wrap_grammar_with_start(g)) {
    Ok(Ok(sg)) => Box::new(sg),
    Ok(Err(e)) => {
      d.push(("wrapping".into(), outcome(|| format!("{:?}", e))));
      return d;
    }
    Err(p) => {
      d.push(("wrapping".into(), Res::Text(format!("{:?}", p))));
      return d;
    }
  };
  d.push(("wrapped grammar printed".into(), outcome(|| sg.to_pretty())));
  d.push(("wrapped grammar".into(), outcome(|| format!("{:?}", sg))));
  let mut owner = must("making a forest", || Box::new(O::new()));
  for (i, kinds) in inputs.iter().enumerate() {
    if too_costly(c, kinds, w().large) {
      continue;
    }
    if !shared {
      owner = must("making a forest", || Box::new(O::new()));
    }
    let what = format!("parse {} of {:?}", i, kinds);
    let r = lib(|| {
      let handle: TreeHandle<Sym, Sym, Sym> = owner.handle();
      let toks: Vec<Token<Sym, Sym>> = kinds.iter().enumerate().map(|(j, k)| Token::new(Sym(*k), Sym(300 + (i * 20 + j) as u32))).collect();
      earley::parse(&sg, &handle, toks).map(read)
    });
    let r = match r {
      Ok(None) => Res::Text("no tree".into()),
      Ok(Some(None)) => {
        probe("tree too large to read");
        continue;
      }
      Ok(Some(Some(f))) => unarmed(|| Res::Tree(f.clone())),
      Err(p) => Res::Text(format!("{:?}", p)),
    };
    d.push((what, r));
  }
  let _ = lib(|| drop((sg, owner)));
  d
}

struct Variant<'a> {
  /// 0 for everything
  parts: i64,
  order: i64,
  moved: bool,
  shared: bool,
  held: &'a mut Vec<Box<G>>,
  hold: bool,
}

#[inline(never)]
fn build(c: &Cfg) -> Result<G, Res> {
  match lib(|| gram::make(c, false)) {
    Ok(Ok(g)) => Ok(g),
    Ok(Err(e)) => Err(outcome(|| format!("refused: {:?}", e))),
    Err(p) => Err(Res::Text(format!("{:?}", p))),
  }
}

fn digest(c: &Cfg, inputs: &[Vec<u32>], v: Variant) -> Digest {
  let mut d: Digest = vec![];
  let g = match build(c) {
    Ok(g) => g,
    Err(r) => {
      d.push(("building".into(), r));
      probe("grammar refused");
      return d;
    }
  };
  let g = must("moving a grammar", || if v.moved { Box::new(g.clone()) } else { Box::new(g) });
  d.push(("building".into(), Res::Text("accepted".into())));
  if !c.well_formed() {
    // the rest is about grammars
    let _ = lib(|| drop(g));
    return d;
  }
  let want = |bit: i64| v.parts == 0 || v.parts >> bit & 1 == 1;
  if want(0) {
    d.push(("printed form".into(), outcome(|| g.to_pretty())));
    d.push(("debug form".into(), outcome(|| format!("{:?}", g))));
    d.push(("productions".into(), outcome(|| list_prods(&g))));
    d.push(("rules by head".into(), outcome(|| format!("{:?}", g.rule_set()))));
  }
  if want(1) {
    identity(&g);
  }
  if want(2) {
    let t = automaton(&g, c);
    d.push(("order of successors".into(), Res::Text(t)));
  }
  if want(3) {
    d.extend(analyses(&g, v.order));
  }
  // one production becomes one for every choice of its nullable elements
  let v0 = c.nullable();
  let blowup: u64 = c.rules.iter().flatten().map(|p| 1u64 << p.elems.iter().filter(|e| matches!(e, E::N(m) if v0[*m as usize])).count().min(20)).sum();
  if want(4) && blowup < 600 {
    d.push(("grammar without nullability".into(), nonnull(&g)));
  }
  if want(5) {
    if let Ok(again) = build(c) {
      d.extend(parses(again, c, inputs, v.shared));
    }
  }
  if v.hold {
    v.held.push(g);
  } else {
    let _ = lib(|| drop(g));
  }
  d
}

/// Rules and productions, reached in several ways.
fn identity(g: &G) {
  let rules: Vec<(usize, Rule<Sym, Sym, Sym, Sym>)> = must("listing rules", || {
    let mut v: Vec<_> = g.rules().enumerate().take(12).collect();
    for (i, h) in g.rule_set().into_values().enumerate().take(12) {
      v.push((i, h));
    }
    v
  });
  axioms("rule", &rules);
  let prods: Vec<(usize, PR)> = must("listing productions", || {
    let mut v: Vec<_> = g.prods().enumerate().take(16).collect();
    let mut i = 0;
    for r in g.rules() {
      for p in g.get_rule(r.head()).prods() {
        if i < 16 {
          v.push((i, p));
        }
        i += 1;
      }
    }
    v
  });
  axioms("production", &prods);
  let _ = lib(|| drop((rules, prods)));
}

fn nonnull(g: &G) -> Res {
  outcome(|| match transform_to_nonnull(g) {
    Err(e) => format!("error {}", e),
    Ok(n) => {
      let mut s = n.to_pretty();
      for p in n.prods() {
        s.push_str(&format!("\n{:?} {:?} {:?} {:?}", p.head(), p.action_key(), p.action_value(), p.prod_elements()));
      }
      s
    }
  })
}

fn compare(gi: usize, full: bool, how: String, d: Digest) {
  let c = w().cfgs[gi].clone().unwrap();
  let ctx = |how0: &str| format!("with memory placed {} and {}, for\n{}", how0, how, show_grammar(&c));
  if full {
    let names: Vec<String> = d.iter().map(|x| x.0.clone()).collect();
    match w().names.get(&gi) {
      None => {
        w().names.insert(gi, (how.clone(), names));
      }
      Some((how0, n)) if *n != names => bad("placement", format!("different results exist, {:?} and {:?}, {}", n, names, ctx(how0))),
      Some(_) => probe("two placements compared"),
    }
  } else {
    probe("a few results compared");
  }
  for (name, b) in d {
    let Some((how0, a)) = w().first.get(&(gi, name.clone())) else {
      w().first.insert((gi, name), (how.clone(), b));
      continue;
    };
    match (a, &b) {
      (Res::Text(x), Res::Text(y)) => {
        if x != y {
          bad("placement", format!("{}: \"{}\" and \"{}\" {}", name, x, y, ctx(how0)));
        }
      }
      (Res::Tree(x), Res::Tree(y)) if w().large && bisimilar(x, y) => {}
      (Res::Tree(x), Res::Tree(y)) => match same_trees(x, y, TREE_CAP) {
        Cmp::Equal => probe("trees of two placements compared"),
        Cmp::TooBig => probe("tree sets too large to compare"),
        Cmp::Differ(in_first, t) => bad("placement", format!("{}: {} is represented only in the {} result {}", name, t, if in_first { "first" } else { "second" }, ctx(how0))),
      },
      _ => bad("placement", format!("{}: a tree in one of the two, {}", name, ctx(how0))),
    }
  }
}

fn task(ops: &[Op]) {
  let mut held: Vec<Box<G>> = vec![];
  let mut junk: Vec<Vec<u64>> = vec![];
  for o in ops {
    sched::begin_op(o.id);
    let ng = w().cfgs.len();
    match o.code.as_str() {
      "variant" => {
        let gi = o.idx(0, ng);
        let Some(c) = w().cfgs[gi].clone() else { continue };
        let mode = o.idx(1, arena::MODES as usize) as u8;
        arena::set_mode(mode, o.arg(2) as u64);
        let inputs = w().inputs[gi].clone();
        let flags = o.arg(3);
        let v = Variant { parts: o.arg(4), order: flags / 8, moved: flags & 1 != 0, shared: flags & 2 != 0, hold: flags & 4 != 0 && held.len() < 6, held: &mut held };
        let full = v.parts == 0;
        let d = digest(&c, &inputs, v);
        compare(gi, full, arena::MODE_NAMES[mode as usize].to_string(), d);
      }
      // other allocations coming and going
      "junk" => {
        let (n, size) = (o.idx(0, 40), o.idx(1, 80));
        let _ = lib(|| {
          for _ in 0..n {
            junk.push(Vec::with_capacity(size));
          }
        });
      }
      "free" => {
        let k = o.idx(0, 3) + 1;
        let _ = lib(|| {
          let mut i = 0;
          junk.retain(|_| {
            i += 1;
            i % (k + 1) != 0
          });
        });
      }
      "forget" => {
        let n = held.len();
        if n > 0 {
          let g = held.swap_remove(o.idx(0, n));
          let _ = lib(|| drop(g));
          probe("earlier grammar dropped and its memory free for another");
        }
      }
      _ => {}
    }
  }
  let _ = lib(|| drop((held, junk)));
}

struct Ops<'a>(&'a Vec<Vec<Op>>);
unsafe impl Sync for Ops<'_> {}

pub fn run(p: &Plan) -> u64 {
  let large = p.get("large") == 1;
  sched::begin_run(p, if large { 800_000_000 } else { 200_000_000 });
  *W.get() = Some(World::default());
  w().large = large;
  for g in 0..p.get("grammars").clamp(1, 4) {
    w().cfgs.push(gram::decode_any(p, g));
    let inputs = p.ops.iter().filter(|o| o.code == "input" && o.arg(0) == g).map(|o| o.a[1..].iter().map(|x| (x.unsigned_abs() % 100) as u32).collect()).collect();
    w().inputs.push(inputs);
  }
  let n = p.ops.iter().filter(|o| o.task < SETUP).map(|o| o.task as usize + 1).max().unwrap_or(0).min(sched::MAXT);
  let ops: Vec<Vec<Op>> = (0..n).map(|t| p.task_ops(t)).collect();
  let shared = Ops(&ops);
  sched::run_tasks(n, &|t| task(&(&shared).0[t]));
  *W.get() = None;
  // What varies is the placement.
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("layout", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  let ng = *r.pick(&[1, 1, 1, 2, 3]);
  p.set("grammars", ng);
  let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 4, 6]), max_prods: r.range(1, 4), max_len: r.range(1, 4), terms: r.range(1, 3) as u32, names: r.chance(1, 2) };
  let large = std::env::var_os("SIM_LARGE").is_some() || r.chance(1, 80);
  let ng = if large { 1 } else { ng };
  p.set("large", large as i64);
  p.set("grammars", ng);
  for g in 0..ng {
    if large {
      let (c, max) = cfg::large(&mut r);
      gram::encode(&mut p, g, &c);
      let toks = cfg::long_tokens(&mut r, &c, max.min(40));
      if !too_costly(&c, &toks, true) {
        let mut a = vec![g];
        a.extend(toks.iter().map(|t| *t as i64));
        p.push(SETUP, "input", a);
      }
      continue;
    }
    let mut c = gram::gen(&mut r, &o);
    for _ in 0..3 {
      if c.null_ambiguous() && r.chance(2, 3) {
        c = gram::gen(&mut r, &o);
      }
    }
    if r.chance(1, 12) {
      // a production of one rule goes missing: often no grammar any more
      let h = r.below(c.rules.len() as u64) as usize;
      c.rules[h].pop();
    }
    gram::encode(&mut p, g, &c);
    if c.well_formed() {
      for _ in 0..r.range(0, 3) {
        let max = *r.pick(&[2, 3, 4, 6]);
        let mut toks = cfg::tokens_for(&mut r, &c, max);
        while too_costly(&c, &toks, false) && !toks.is_empty() {
          toks.pop();
        }
        let mut a = vec![g];
        a.extend(toks.iter().map(|t| *t as i64));
        p.push(SETUP, "input", a);
      }
    }
  }
  let tasks = *r.pick(&[1, 1, 1, 2, 3]);
  p.set("fine", (tasks > 1 && r.chance(1, 10)) as i64);
  let tasks = if large { 1 } else { tasks };
  let n = if large { 2 } else { r.range(2, 4) };
  for t in 0..tasks {
    for _ in 0..n {
      for _ in 0..r.below(3) {
        match r.below(3) {
          0 => p.push(t, "junk", vec![r.below(40) as i64, r.below(80) as i64]),
          1 => p.push(t, "free", vec![r.below(3) as i64]),
          _ => p.push(t, "forget", vec![r.below(8) as i64]),
        }
      }
      p.push(t, "variant", vec![r.below(ng as u64) as i64, r.below(6) as i64, r.below(1 << 30) as i64, r.below(64) as i64, if r.chance(1, 2) { 0 } else { 64 + (r.below(64) & r.below(64)) as i64 }]);
    }
  }
  p
}

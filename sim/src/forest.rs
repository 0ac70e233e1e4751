//! Threads sharing parse forests: C01 - C07.
use crate::types::{text, Baton, Sym};
use bongo::parsers::tree::{Alternative, Node, NodeContent, TreeHandle, TreeOwner};
use bongo::utils::WasChanged;
use simcore::graph;
use simcore::lin::{self, hash_of, Event, Model, Verdict};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_DEBUG, CB_ITER};
use std::collections::BTreeMap;

type O = TreeOwner<Sym, Sym, Sym>;
type H = TreeHandle<'static, Sym, Sym, Sym>;
type N = Node<'static, Sym, Sym, Sym>;
type A = Alternative<'static, Sym, Sym, Sym>;

const SETUP: u8 = 100;
const AFTER: u8 = 101;
const MAX_EVENTS: usize = 126;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
enum Content {
  Leaf(u32, u32),
  Branch(u32, Vec<usize>),
}

struct ForestSlot {
  owner: *mut O,
  handle: *mut H,
  tainted: bool,
  contents: Vec<Content>,
  ids: BTreeMap<Content, usize>,
  /// first handle seen for a content
  rep: Vec<A>,
  /// node slots of this forest
  nodes: Vec<usize>,
  events: Vec<Event<FOp>>,
}

struct NodeSlot {
  forest: usize,
  local: usize,
  node: N,
  init: u128,
}

struct AltSlot {
  forest: usize,
  content: usize,
  alt: A,
}

enum Held {
  Alts { forest: usize, event: usize, it: Box<dyn Iterator<Item = A>>, got: Vec<A>, done: bool },
  Kids { forest: usize, content: usize, it: Box<dyn Iterator<Item = N>>, got: Vec<N>, done: bool },
  Taken,
}

#[derive(Clone, Debug)]
enum FOp {
  Add { n: usize, c: usize, changed: Option<bool> },
  AddAll { dst: usize, src: usize, changed: Option<bool> },
  Alts { n: usize, set: Option<u128> },
  Dot { n: usize, canon: u64 },
  Nop,
}

#[derive(Default)]
struct World {
  forests: Vec<ForestSlot>,
  nodes: Vec<NodeSlot>,
  alts: Vec<AltSlot>,
  held: Vec<Held>,
  uniq: bool,
  labels: BTreeMap<(u32, Vec<usize>), u32>,
  /// forests the current operation of each task may be writing
  touching: [u64; 16],
  fill: Vec<Fill>,
}

/// Very many nodes or alternatives of which only a few are ever looked at.
struct Fill {
  forest: usize,
  nodes: Vec<N>,
  alts: Vec<A>,
  leaves: bool,
}

static W: Baton<Option<World>> = Baton::new(None);
fn w() -> &'static mut World {
  W.get().as_mut().unwrap()
}

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

fn me() -> usize {
  sched::task().min(15)
}

fn touch(f: usize) {
  w().touching[me()] |= 1 << f;
}

/// An operation of the library panicked although nothing was injected into it.
fn refused_ok(f: usize) -> bool {
  if w().forests[f].tainted {
    return true;
  }
  (0..sched::MAXT).any(|t| t != me() && w().touching[t] >> f & 1 == 1 && sched::fired_in_op(t) & !(1 << CB_ITER) != 0)
}

/// What to do about a panic of an operation on forest f.
fn on_panic(p: Panic, f: usize, what: &str, writes: bool) {
  match p {
    Panic::Injected(k) => {
      probe(match k {
        CB_CMP => "interrupted in a comparison",
        CB_CLONE => "interrupted in a clone",
        CB_DEBUG => "interrupted in a debug format",
        _ => "interrupted in a child iterator",
      });
      if writes && k != CB_ITER {
        w().forests[f].tainted = true;
        probe("forest interrupted while writing");
      }
    }
    Panic::Other(m) => {
      if refused_ok(f) {
        probe("operation refused after an interrupted write");
      } else {
        bad("unexpected-panic", format!("{} panicked: {}", what, m));
      }
    }
  }
}

fn new_forest() {
  let r = lib(|| {
    let owner = Box::into_raw(Box::new(O::new()));
    let handle: H = unsafe { (*owner).handle() };
    (owner, Box::into_raw(Box::new(handle)))
  });
  let (owner, handle) = r.unwrap_or_else(|p| bad("unexpected-panic", format!("creating a forest panicked: {:?}", p)));
  w().forests.push(ForestSlot { owner, handle, tainted: false, contents: vec![], ids: BTreeMap::new(), rep: vec![], nodes: vec![], events: vec![] });
}

fn handle(f: usize) -> &'static H {
  unsafe { &*w().forests[f].handle }
}

fn intern(f: usize, c: Content) -> Option<usize> {
  let fs = &mut w().forests[f];
  if let Some(i) = fs.ids.get(&c) {
    return Some(*i);
  }
  if fs.contents.len() >= 120 {
    return None;
  }
  fs.contents.push(c.clone());
  fs.ids.insert(c, fs.contents.len() - 1);
  Some(fs.contents.len() - 1)
}

fn add_node(f: usize, node: N, init: u128) -> usize {
  let local = w().forests[f].nodes.len();
  for s in &w().forests[f].nodes {
    if w().nodes[*s].node == node {
      bad("identity", format!("forest {}: a newly created node is node {} that already exists", f, s));
    }
  }
  w().nodes.push(NodeSlot { forest: f, local, node, init });
  let id = w().nodes.len() - 1;
  w().forests[f].nodes.push(id);
  id
}

fn add_alt(f: usize, alt: A, content: usize) {
  let fs = &mut w().forests[f];
  if fs.rep.len() == content {
    fs.rep.push(alt.clone());
  }
  w().alts.push(AltSlot { forest: f, content, alt });
}

fn room(f: usize) -> bool {
  let fs = &w().forests[f];
  fs.events.len() < 90 && fs.nodes.len() < 40 && fs.contents.len() < 100 && w().alts.len() < 400
}

fn event(f: usize, inv: u64, op: FOp, maybe: bool) -> usize {
  let ret = sched::now();
  let ev = &mut w().forests[f].events;
  ev.push(Event { inv, ret, maybe, op });
  ev.len() - 1
}

/// The slot of a node handle the library returned.
fn slot_of(f: usize, n: &N) -> usize {
  for s in &w().forests[f].nodes {
    if w().nodes[*s].node == *n {
      return *s;
    }
  }
  bad("identity", format!("forest {}: a listing returned a node nobody created", f))
}

/// Reads an alternative back; None if refused or interrupted.
fn read_content(f: usize, a: &A) -> Option<Content> {
  let r = lib(|| match a.content() {
    NodeContent::Leaf(l) => {
      let (k, v) = (l.kind(), l.value());
      Ok((k.0, v.0))
    }
    NodeContent::Branch(b) => {
      let act = b.action();
      let kids: Vec<N> = b.nodes().collect();
      Err((act.0, kids))
    }
  });
  match r {
    Ok(Ok((k, v))) => Some(Content::Leaf(k, v)),
    Ok(Err((act, kids))) => {
      let c = Content::Branch(act, kids.iter().map(|n| slot_of(f, n)).collect());
      Some(c)
    }
    Err(p) => {
      on_panic(p, f, "reading an alternative", false);
      None
    }
  }
}

/// Which content an alternative handle denotes.
fn resolve(f: usize, a: &A) -> Option<usize> {
  for s in w().alts.iter() {
    if s.forest == f && s.alt == *a {
      return Some(s.content);
    }
  }
  let c = read_content(f, a)?;
  let id = intern(f, c)?;
  add_alt(f, a.clone(), id);
  Some(id)
}

// ---- the operations ----

fn op_make_node(f: usize) -> Option<usize> {
  touch(f);
  if !room(f) {
    return None;
  }
  match lib(|| handle(f).make_node()) {
    Ok(n) => Some(add_node(f, n, 0)),
    Err(p) => {
      on_panic(p, f, "creating a node", true);
      None
    }
  }
}

fn op_leaf_alt(f: usize, k: u32, v: u32) {
  touch(f);
  if !room(f) {
    return;
  }
  match lib(|| handle(f).make_leaf_alt(Sym(k), Sym(v))) {
    Ok(a) => made_alt(f, a, Content::Leaf(k, v)),
    Err(p) => on_panic(p, f, "creating a leaf alternative", true),
  }
}

fn made_alt(f: usize, a: A, c: Content) {
  let Some(id) = intern(f, c) else { return };
  for s in &w().alts {
    if s.forest == f && (s.alt == a) != (s.content == id) {
      bad("identity", format!("forest {}: alternatives with contents {:?} and {:?} compare {}", f, w().forests[f].contents[id], w().forests[f].contents[s.content], if s.alt == a { "equal" } else { "unequal" }));
    }
  }
  add_alt(f, a, id);
}

/// A node with very many alternatives from the start.
fn op_many(f: usize, count: usize) {
  if !room(f) || w().forests[f].contents.len() + count > 95 {
    return;
  }
  let Some(n) = op_make_node(f) else { return };
  let node = w().nodes[n].node.clone();
  for i in 0..count {
    let (k, v) = (2000 + i as u32, (i % 3) as u32);
    let alt = match lib(|| handle(f).make_leaf_alt(Sym(k), Sym(v))) {
      Ok(a) => a,
      Err(p) => return on_panic(p, f, "creating a leaf alternative", true),
    };
    let Some(id) = intern(f, Content::Leaf(k, v)) else { return };
    match lib(|| node.add_alt(&alt)) {
      Ok(ch) => {
        let new = w().nodes[n].init >> id & 1 == 0;
        if new != (ch == WasChanged::Changed) {
          bad("linearizability", format!("attaching alternative {} of {} to a node only one thread knows reports {:?}", i, count, ch == WasChanged::Changed));
        }
        w().nodes[n].init |= 1 << id;
      }
      Err(p) => return on_panic(p, f, "attaching an alternative", true),
    }
    if i < 3 {
      made_alt(f, alt, Content::Leaf(k, v));
    }
  }
  probe("node with many alternatives");
}

const FILL: u32 = 100_000;

fn fill_content(i: usize) -> (u32, u32) {
  (FILL + i as u32, (i % 3) as u32)
}

/// Makes a forest large; only before tasks run.
fn op_grow(f: usize, kind: i64, count: usize) {
  let r = lib(|| {
    let (mut nodes, mut alts) = (vec![], vec![]);
    for i in 0..count {
      let (k, v) = fill_content(i);
      match kind {
        0 => nodes.push(handle(f).make_node()),
        1 => nodes.push(handle(f).make_leaf_node(Sym(k), Sym(v))),
        _ => alts.push(handle(f).make_leaf_alt(Sym(k), Sym(v))),
      }
    }
    (nodes, alts)
  });
  match r {
    Ok((nodes, alts)) => {
      w().fill.push(Fill { forest: f, nodes, alts, leaves: kind == 1 });
      probe("forest grown large");
    }
    Err(p) => on_panic(p, f, "filling a forest", true),
  }
}

fn check_fill() {
  for x in 0..w().fill.len() {
    let f = w().fill[x].forest;
    if w().forests[f].tainted {
      continue;
    }
    let fill = &w().fill[x];
    let n = fill.nodes.len().max(fill.alts.len());
    let mut r = Rng::new(n as u64);
    let mut at: Vec<usize> = [0, 1, 126, 127, 128, 254, 255, 256, 257, 32766, 32767, 32768, 65534, 65535, 65536].into_iter().filter(|i| *i < n).collect();
    at.push(n.saturating_sub(1));
    for _ in 0..12 {
      at.push(r.below(n as u64) as usize);
      at.push(at[at.len() / 2] & 255);
    }
    at.retain(|i| *i < n);
    at.sort();
    at.dedup();
    let fail = |class: &str, m: &str| -> ! { bad(class, format!("forest {} with {} filling elements: {}", f, n, m)) };
    let (leaves, tracked): (bool, Vec<N>) = (fill.leaves, w().forests[f].nodes.iter().map(|s| w().nodes[*s].node.clone()).collect());
    for (y, i) in at.iter().enumerate() {
      let what = format!("element {}", i);
      if let Some(node) = fill.nodes.get(*i) {
        let got = lib(|| node.alts().map(|a| match a.content() {
          NodeContent::Leaf(l) => (l.kind().0, l.value().0),
          NodeContent::Branch(_) => (0, 0),
        }).collect::<Vec<_>>());
        let want = if leaves { vec![fill_content(*i)] } else { vec![] };
        match got {
          Ok(g) if g == want => {}
          Ok(g) => fail("content", &format!("{} lists {:?}, not {:?}", what, g, want)),
          Err(p) => return on_panic(p, f, "listing alternatives", false),
        }
        for j in &at[..y] {
          let other = &fill.nodes[*j];
          if lib(|| node == other || node.cmp(other) != other.cmp(node).reverse()).unwrap_or(true) {
            fail("identity", &format!("nodes {} and {} compare equal or are unordered", i, j));
          }
        }
        if tracked.iter().any(|t| lib(|| node == t).unwrap_or(true)) {
          fail("identity", &format!("node {} equals another one", i));
        }
      }
      if let Some(alt) = fill.alts.get(*i) {
        let (k, v) = fill_content(*i);
        let r = lib(|| {
          let again = handle(f).make_leaf_alt(Sym(k), Sym(v));
          let other = handle(f).make_leaf_alt(Sym(k), Sym(v + 1));
          let read = match alt.content() {
            NodeContent::Leaf(l) => (l.kind().0, l.value().0) == (k, v),
            NodeContent::Branch(_) => false,
          };
          (again == *alt, other == *alt, read)
        });
        match r {
          Ok((true, false, true)) => {}
          Ok(x) => fail("identity", &format!("alternative {}: the same content made again is equal: {}, another is equal: {}, its content is read back: {}", i, x.0, x.1, x.2)),
          Err(p) => return on_panic(p, f, "creating a leaf alternative", true),
        }
        for j in &at[..y] {
          let other = &fill.alts[*j];
          if lib(|| alt == other).unwrap_or(true) {
            fail("identity", &format!("alternatives {} and {} compare equal", i, j));
          }
        }
      }
    }
  }
}

/// Branches over many nodes of a forest of its own: every pair, and some longer sequences that are
/// rearrangements, prefixes or repetitions of each other. All are different, read back, and are
/// the same when made again.
fn op_pairs(n: usize, seed: u64) {
  let mut r = Rng::new(seed);
  let mut seqs: Vec<Vec<usize>> = vec![vec![]];
  for a in 0..n {
    seqs.push(vec![a]);
    for b in 0..n {
      seqs.push(vec![a, b]);
    }
  }
  for _ in 0..n {
    let (a, b, c) = (r.below(n as u64) as usize, r.below(n as u64) as usize, r.below(n as u64) as usize);
    for s in [vec![a, b, c], vec![b, a, c], vec![c, b, a], vec![a, a, b], vec![a, b, b], vec![b, a, a], vec![a, b, c, a], vec![a; 5], vec![a; 6]] {
      seqs.push(s);
    }
  }
  seqs.sort();
  seqs.dedup();
  for i in (1..seqs.len()).rev() {
    let j = r.below(i as u64 + 1) as usize;
    seqs.swap(i, j);
  }
  let r = lib(|| {
    let owner = O::new();
    let h = owner.handle();
    let nodes: Vec<_> = (0..n).map(|_| h.make_node()).collect();
    let make = |s: &[usize]| h.make_branch_alt(Sym(7), s.iter().map(|i| nodes[*i].clone()).collect::<Vec<_>>());
    let alts: Vec<_> = seqs.iter().map(|s| make(s)).collect();
    let mut order: Vec<usize> = (0..alts.len()).collect();
    order.sort_by(|x, y| alts[*x].cmp(&alts[*y]));
    for x in order.windows(2) {
      if alts[x[0]] >= alts[x[1]] || alts[x[0]] == alts[x[1]] {
        return Some(("identity", format!("branches over {:?} and {:?} are not different", seqs[x[0]], seqs[x[1]])));
      }
    }
    for (s, a) in seqs.iter().zip(&alts) {
      let got: Option<Vec<_>> = match a.content() {
        NodeContent::Leaf(_) => None,
        NodeContent::Branch(b) => Some(b.nodes().collect()),
      };
      if got.as_ref().map(|g| g.len()) != Some(s.len()) || got.iter().flatten().zip(s).any(|(g, i)| *g != nodes[*i]) {
        return Some(("content", format!("a branch over {:?} of {} nodes reads back otherwise", s, n)));
      }
      if make(s) != *a {
        return Some(("identity", format!("a branch over {:?} made again is another", s)));
      }
    }
    None
  });
  match r {
    Ok(None) => {}
    Ok(Some((class, m))) => bad(class, m),
    Err(p) => bad("unexpected-panic", format!("making branches over {} nodes panicked: {:?}", n, p)),
  }
  probe("branches over many nodes");
}

/// Many forests come and go.
fn op_churn(count: usize) {
  let r = lib(|| {
    for _ in 0..count {
      let o = O::new();
      let h = o.handle();
      h.make_node();
    }
  });
  if let Err(p) = r {
    bad("unexpected-panic", format!("creating and dropping a forest panicked: {:?}", p));
  }
  probe("many forests came and went");
}

/// A picture of a forest of its own: a chain of branches, or a node of many branches.
fn op_deep(chain: bool, count: usize) {
  let label = |i: usize| label(&Content::Branch(300_000 + i as u32, vec![]));
  let mut pic = graph::Picture { alts: Default::default(), nodes: vec![] };
  let r = lib(|| {
    let owner = O::new();
    let h = owner.handle();
    let mut top = h.make_leaf_node(Sym(1), Sym(1));
    if chain {
      for i in 0..count {
        top = h.make_branch_node(Sym(300_000 + i as u32), vec![top.clone(), top].into_iter().take(1 + i % 2).collect::<Vec<_>>());
      }
    } else {
      let leaf = top;
      top = h.make_node();
      for i in 0..count {
        top.add_alt(&h.make_branch_alt(Sym(300_000 + i as u32), Some(leaf.clone())));
      }
    }
    top.to_dot()
  });
  let text = r.unwrap_or_else(|p| bad("unexpected-panic", format!("rendering a forest of {} branches panicked: {:?}", count, p)));
  let leaf = self::label(&Content::Leaf(1, 1));
  pic.alts.insert(leaf.clone());
  pic.alts.extend((0..count).map(label));
  if chain {
    for i in 0..=count {
      let own = if i == 0 { leaf.clone() } else { label(i - 1) };
      let par = if i == count { vec![] } else { vec![label(i); 1 + i % 2] };
      pic.nodes.push((vec![own], par));
    }
  } else {
    let mut all: Vec<String> = (0..count).map(label).collect();
    all.sort();
    pic.nodes.push((vec![leaf], all.clone()));
    pic.nodes.push((all, vec![]));
  }
  let d = graph::parse_dot(&text).unwrap_or_else(|e| bad("dot", format!("malformed graph of {} branches ({})", count, e)));
  let got = graph::picture(&d).unwrap_or_else(|e| bad("dot", format!("bad graph of {} branches ({})", count, e)));
  if got.canon() != pic.canon() {
    bad("dot", format!("the graph of a {} of {} branches is not a picture of it: {} vertices, {} edges", if chain { "chain" } else { "node" }, count, d.verts.len(), d.edges.len()));
  }
  probe("large picture checked");
}

fn op_leaf_node(f: usize, k: u32, v: u32) -> Option<usize> {
  touch(f);
  if !room(f) {
    return None;
  }
  match lib(|| handle(f).make_leaf_node(Sym(k), Sym(v))) {
    Ok(n) => {
      let id = intern(f, Content::Leaf(k, v))?;
      Some(add_node(f, n, 1 << id))
    }
    Err(p) => {
      on_panic(p, f, "creating a leaf node", true);
      None
    }
  }
}

/// The action of a branch: in pictures every content gets its own.
fn action_for(act: u32, kids: &[usize]) -> u32 {
  if !w().uniq {
    return act;
  }
  let n = w().labels.len() as u32;
  *w().labels.entry((act, kids.to_vec())).or_insert(1000 + n)
}

fn op_branch(f: usize, act: u32, kids: Vec<usize>, make_node: bool) -> Option<usize> {
  touch(f);
  if !room(f) {
    return None;
  }
  let foreign = kids.iter().any(|k| w().nodes[*k].forest != f);
  let action = action_for(act, &kids);
  let nodes: Vec<N> = kids.iter().map(|k| w().nodes[*k].node.clone()).collect();
  finish_branch(f, action, Some(kids), foreign, make_node, nodes.into_iter(), &|| None)
}

fn finish_branch<I: Iterator<Item = N>>(f: usize, action: u32, kids: Option<Vec<usize>>, foreign: bool, make_node: bool, nodes: I, yielded: &dyn Fn() -> Option<(Vec<usize>, bool)>) -> Option<usize> {
  let r = if make_node {
    lib(|| (Some(handle(f).make_branch_node(Sym(action), nodes)), None))
  } else {
    lib(|| (None, Some(handle(f).make_branch_alt(Sym(action), nodes))))
  };
  let (kids, foreign) = match yielded() {
    Some((k, fo)) => (k, fo),
    None => (kids.unwrap_or_default(), foreign),
  };
  match r {
    Ok((n, a)) => {
      if foreign {
        bad("mixing", format!("a branch of forest {} accepted a child of another forest", f));
      }
      let c = Content::Branch(action, kids);
      if let Some(n) = n {
        let id = intern(f, c)?;
        return Some(add_node(f, n, 1 << id));
      }
      made_alt(f, a.unwrap(), c);
      None
    }
    Err(Panic::Other(m)) if foreign => {
      let _ = m;
      probe("foreign child refused");
      None
    }
    Err(p) => {
      on_panic(p, f, "creating a branch", true);
      None
    }
  }
}

fn op_add_alt(n: usize, a: usize) {
  let f = w().nodes[n].forest;
  touch(f);
  if !room(f) {
    return;
  }
  let (node, alt) = (w().nodes[n].node.clone(), w().alts[a].alt.clone());
  let (fa, c) = (w().alts[a].forest, w().alts[a].content);
  if fa != f {
    touch(fa);
  }
  let inv = sched::now();
  let r = lib(|| node.add_alt(&alt));
  let local = w().nodes[n].local;
  match r {
    Ok(ch) => {
      if fa != f {
        bad("mixing", format!("node of forest {} accepted an alternative of forest {}", f, fa));
      }
      event(f, inv, FOp::Add { n: local, c, changed: Some(ch == WasChanged::Changed) }, false);
    }
    Err(Panic::Other(_)) if fa != f => probe("foreign alternative refused"),
    Err(p) => {
      let inj = matches!(p, Panic::Injected(_));
      on_panic(p, f, "attaching an alternative", true);
      if inj {
        event(f, inv, FOp::Add { n: local, c, changed: None }, true);
      }
    }
  }
}

fn op_add_all(d: usize, s: usize) {
  let f = w().nodes[d].forest;
  let fs = w().nodes[s].forest;
  touch(f);
  touch(fs);
  if !room(f) {
    return;
  }
  let (dst, src) = (w().nodes[d].node.clone(), w().nodes[s].node.clone());
  let inv = sched::now();
  let r = lib(|| dst.add_all(&src));
  let (dl, sl) = (w().nodes[d].local, w().nodes[s].local);
  match r {
    Ok(ch) => {
      if fs != f {
        bad("mixing", format!("node of forest {} merged a node of forest {}", f, fs));
      }
      event(f, inv, FOp::AddAll { dst: dl, src: sl, changed: Some(ch == WasChanged::Changed) }, false);
    }
    Err(Panic::Other(_)) if fs != f => probe("foreign merge refused"),
    Err(p) => {
      let inj = matches!(p, Panic::Injected(_));
      on_panic(p, f, "merging a node", true);
      if inj {
        event(f, inv, FOp::AddAll { dst: dl, src: sl, changed: None }, true);
      }
    }
  }
}

/// Starts a listing; consumes `take` items of it now and the rest later.
fn op_alts(n: usize, take: Option<usize>) {
  let f = w().nodes[n].forest;
  if !room(f) {
    return;
  }
  let node = w().nodes[n].node.clone();
  let inv = sched::now();
  let r = lib(|| node.alts());
  match r {
    Ok(it) => {
      let local = w().nodes[n].local;
      let event = event(f, inv, FOp::Alts { n: local, set: None }, false);
      w().held.push(Held::Alts { forest: f, event, it: Box::new(it), got: vec![], done: false });
      let h = w().held.len() - 1;
      consume(h, take);
    }
    Err(p) => on_panic(p, f, "listing alternatives", false),
  }
}

fn op_kids(a: usize, take: Option<usize>) {
  let (f, content) = (w().alts[a].forest, w().alts[a].content);
  let Content::Branch(..) = w().forests[f].contents[content] else { return };
  let alt = w().alts[a].alt.clone();
  let r = lib(|| match alt.content() {
    NodeContent::Branch(b) => Some(b.nodes()),
    NodeContent::Leaf(_) => None,
  });
  match r {
    Ok(Some(it)) => {
      w().held.push(Held::Kids { forest: f, content, it: Box::new(it), got: vec![], done: false });
      let h = w().held.len() - 1;
      consume(h, take);
    }
    Ok(None) => bad("content", format!("forest {}: a branch alternative reads back as a leaf", f)),
    Err(p) => on_panic(p, f, "reading a branch", false),
  }
}

/// Takes the next items of a held listing.
fn consume(h: usize, take: Option<usize>) {
  let mut left = take.unwrap_or(usize::MAX);
  let mut cur = std::mem::replace(&mut w().held[h], Held::Taken);
  if take.is_some() {
    probe("listing held partly consumed");
  }
  loop {
    if left == 0 {
      break;
    }
    left -= 1;
    match &mut cur {
      Held::Alts { forest, it, got, done, .. } => {
        if *done {
          break;
        }
        match lib(|| it.next()) {
          Ok(Some(a)) => got.push(a),
          Ok(None) => *done = true,
          Err(p) => {
            let f = *forest;
            on_panic(p, f, "consuming a listing", false);
            break;
          }
        }
        if got.len() > 1000 {
          bad("listing", "a listing of alternatives does not end".into());
        }
      }
      Held::Kids { forest, it, got, done, .. } => {
        if *done {
          break;
        }
        match lib(|| it.next()) {
          Ok(Some(n)) => got.push(n),
          Ok(None) => *done = true,
          Err(p) => {
            let f = *forest;
            on_panic(p, f, "consuming a child listing", false);
            break;
          }
        }
        if got.len() > 100_000 {
          bad("listing", "a listing of children does not end".into());
        }
      }
      Held::Taken => break,
    }
  }
  if let Held::Taken = cur {
    return;
  }
  w().held[h] = cur;
  settle(h);
}

/// A fully consumed listing is checked and recorded.
fn settle(h: usize) {
  let cur = std::mem::replace(&mut w().held[h], Held::Taken);
  match cur {
    Held::Alts { forest: f, event, it, got, done: true } => {
      let mut set = 0u128;
      let mut whole = true;
      for a in &got {
        match resolve(f, a) {
          Some(c) => {
            if set >> c & 1 == 1 {
              bad("listing", format!("forest {}: a listing shows alternative {:?} twice", f, w().forests[f].contents[c]));
            }
            set |= 1 << c;
          }
          None => whole = false,
        }
      }
      let FOp::Alts { n, .. } = w().forests[f].events[event].op else { unreachable!() };
      w().forests[f].events[event].op = if whole { FOp::Alts { n, set: Some(set) } } else { FOp::Nop };
      lib(|| drop(it)).ok();
    }
    Held::Kids { forest: f, content, it, got, done: true } => {
      let slots: Vec<usize> = got.iter().map(|n| slot_of(f, n)).collect();
      if let Content::Branch(_, want) = &w().forests[f].contents[content] {
        if *want != slots {
          bad("listing", format!("forest {}: children listed as {:?}, created as {:?}", f, slots, want));
        }
      }
      lib(|| drop(it)).ok();
    }
    other => w().held[h] = other,
  }
}

fn op_dot(n: usize) {
  let f = w().nodes[n].forest;
  if !room(f) {
    return;
  }
  let node = w().nodes[n].node.clone();
  let inv = sched::now();
  match lib(|| node.to_dot()) {
    Ok(text) => {
      // what the picture shows is C07's business
      if w().uniq {
        let d = graph::parse_dot(&text).unwrap_or_else(|e| bad("dot", format!("malformed graph ({}):\n{}", e, text)));
        let pic = graph::picture(&d).unwrap_or_else(|e| bad("dot", format!("bad graph ({}):\n{}", e, text)));
        let canon = hash_of(&pic.canon());
        let local = w().nodes[n].local;
        event(f, inv, FOp::Dot { n: local, canon }, false);
      }
      drop(text);
    }
    Err(p) => on_panic(p, f, "rendering", false),
  }
}

fn op_read(a: usize) {
  let (f, content) = (w().alts[a].forest, w().alts[a].content);
  let alt = w().alts[a].alt.clone();
  if let Some(c) = read_content(f, &alt) {
    if c != w().forests[f].contents[content] {
      bad("content", format!("forest {}: an alternative created as {:?} reads back as {:?}", f, w().forests[f].contents[content], c));
    }
  }
}

fn op_compare(o: &Op) {
  let nf = w().forests.len();
  let (i, j) = (o.idx(0, nf), o.idx(1, nf));
  touch(i);
  touch(j);
  let (hi, hj) = (handle(i).clone(), handle(j).clone());
  match lib(|| hi.is_same(&hj)) {
    Ok(b) => {
      if b != (i == j) {
        bad("mixing", format!("handles of forests {} and {}: is_same is {}", i, j, b));
      }
    }
    Err(p) => {
      if !(refused_ok(i) || refused_ok(j)) {
        on_panic(p, i, "is_same", false);
      }
    }
  }
  let r = lib(|| (hi == hj, hi.cmp(&hj), hj.cmp(&hi)));
  match r {
    Ok((e, c, d)) => {
      if e != (i == j) || (c == std::cmp::Ordering::Equal) != (i == j) || c != d.reverse() {
        bad("mixing", format!("handles of forests {} and {}: == is {}, cmp is {:?}/{:?}", i, j, e, c, d));
      }
    }
    Err(p) => on_panic(p, i, "comparing handles", false),
  }
  if w().nodes.is_empty() {
    return;
  }
  let (x, y) = (o.idx(2, w().nodes.len()), o.idx(3, w().nodes.len()));
  compare_nodes(x, y);
}

fn compare_nodes(x: usize, y: usize) {
  let (a, b) = (w().nodes[x].node.clone(), w().nodes[y].node.clone());
  let r = lib(|| (a == b, a.cmp(&b), b.cmp(&a)));
  match r {
    Ok((e, c, d)) => {
      if e != (x == y) || (c == std::cmp::Ordering::Equal) != (x == y) || c != d.reverse() {
        bad("identity", format!("nodes {} and {} (forests {}, {}): == is {}, cmp is {:?}/{:?}", x, y, w().nodes[x].forest, w().nodes[y].forest, e, c, d));
      }
    }
    Err(p) => bad("unexpected-panic", format!("comparing nodes panicked: {:?}", p)),
  }
}

fn compare_alts(x: usize, y: usize) {
  let (a, b) = (w().alts[x].alt.clone(), w().alts[y].alt.clone());
  let same = w().alts[x].forest == w().alts[y].forest && w().alts[x].content == w().alts[y].content;
  let r = lib(|| (a == b, a.cmp(&b), b.cmp(&a)));
  match r {
    Ok((e, c, d)) => {
      if e != same || (c == std::cmp::Ordering::Equal) != same || c != d.reverse() {
        bad(
          "identity",
          format!(
            "alternatives {:?} (forest {}) and {:?} (forest {}): == is {}, cmp is {:?}/{:?}",
            w().forests[w().alts[x].forest].contents[w().alts[x].content],
            w().alts[x].forest,
            w().forests[w().alts[y].forest].contents[w().alts[y].content],
            w().alts[y].forest,
            e,
            c,
            d
          ),
        );
      }
    }
    Err(p) => bad("unexpected-panic", format!("comparing alternatives panicked: {:?}", p)),
  }
}

/// A forest created, used next to the others and dropped within one operation.
fn op_temp(o: &Op) {
  if w().nodes.is_empty() {
    return;
  }
  let n = o.idx(0, w().nodes.len());
  let f = w().nodes[n].forest;
  touch(f);
  let node = w().nodes[n].node.clone();
  let alt = if w().alts.is_empty() { None } else { Some(w().alts[o.idx(1, w().alts.len())].alt.clone()) };
  let k = 2 + o.idx(2, 3) as u32;
  let r = lib(|| {
    let owner = Box::new(O::new());
    let mut errs: Vec<String> = Vec::new();
    {
      let h: H = unsafe { &*(&*owner as *const O) }.handle();
      let h: &'static H = unsafe { &*(&h as *const H) };
      let mut made = Vec::new();
      for i in 0..k {
        made.push(h.make_leaf_node(Sym(i % 2), Sym(0)));
      }
      let hn = node.handle();
      if *h == hn || hn == *h {
        errs.push("a fresh forest's handle equals another's".into());
      }
      for m in &made {
        if *m == node {
          errs.push("a node of a fresh forest equals one of another".into());
        }
      }
      for (i, m) in made.iter().enumerate() {
        let l: Vec<A> = m.alts().collect();
        if l.len() != 1 {
          errs.push(format!("a fresh leaf node has {} alternatives", l.len()));
        }
        for a in &l {
          if let Some(x) = &alt {
            if a == x {
              errs.push("alternatives of different forests compare equal".into());
            }
          }
          match a.content() {
            NodeContent::Leaf(l) => {
              if l.kind().0 != i as u32 % 2 || l.value().0 != 0 {
                errs.push("a fresh forest shows a leaf of another".into());
              }
            }
            NodeContent::Branch(_) => errs.push("a fresh leaf is a branch".into()),
          }
        }
        for (j, m2) in made.iter().enumerate() {
          if (m == m2) != (i == j) {
            errs.push("two new nodes of a fresh forest are one".into());
          }
        }
      }
    }
    drop(owner);
    errs
  });
  match r {
    Ok(e) => {
      if let Some(m) = e.first() {
        bad("mixing", m.clone());
      }
      probe("forest dropped while others live");
    }
    Err(Panic::Injected(_)) => {}
    Err(Panic::Other(m)) => bad("unexpected-panic", format!("using a fresh forest panicked: {}", m)),
  }
}

/// A caller's lazy child sequence: each step does something to a forest first.
struct Lazy {
  f: usize,
  steps: Vec<i64>,
  at: usize,
  yielded: std::rc::Rc<std::cell::RefCell<(Vec<usize>, bool)>>,
}
impl Iterator for Lazy {
  type Item = N;
  fn next(&mut self) -> Option<N> {
    sched::callback(CB_ITER);
    let r = unarmed(|| self.step());
    r
  }
}
impl Lazy {
  fn step(&mut self) -> Option<N> {
    if self.at >= self.steps.len() {
      return None;
    }
    let x = self.steps[self.at];
    self.at += 1;
    let arg = (x / 16).unsigned_abs() as usize;
    let f = self.f;
    let nf = w().forests.len();
    let mut out = None;
    match x.rem_euclid(16) {
      0 => out = op_make_node(f),
      1 | 2 => out = op_leaf_node(f, (arg % 3) as u32, (arg % 2) as u32),
      3 | 4 => {
        if !w().alts.is_empty() && !w().nodes.is_empty() {
          if let Some((n, a)) = pair(arg) {
            op_add_alt(n, a);
          }
        }
      }
      5 => {
        if !w().nodes.is_empty() {
          op_alts(arg % w().nodes.len(), None);
        }
      }
      6 => {
        if !w().nodes.is_empty() {
          op_dot(arg % w().nodes.len());
        }
      }
      7 => {
        op_make_node(arg % nf);
      }
      8 => op_leaf_alt(f, (arg % 3) as u32, (arg % 2) as u32),
      9 => {
        let kids: Vec<usize> = w().forests[f].nodes.iter().copied().take(2).collect();
        out = op_branch(f, (arg % 3) as u32, kids, true);
      }
      10 => {
        if let Some((d, s)) = same_forest_nodes(arg) {
          op_add_all(d, s);
        }
      }
      11 => {
        // a child of some forest, perhaps another
        if !w().nodes.is_empty() && w().uniq {
          // keep to this forest in pictures
        } else if !w().nodes.is_empty() && arg % 5 == 0 {
          out = Some(arg / 5 % w().nodes.len());
        }
      }
      _ => {}
    }
    probe("child sequence worked on a forest");
    let out = match out {
      Some(s) => s,
      None => {
        let ns = &w().forests[f].nodes;
        if ns.is_empty() {
          return self.step();
        }
        ns[arg % ns.len()]
      }
    };
    let mut y = self.yielded.borrow_mut();
    y.0.push(out);
    if w().nodes[out].forest != f {
      y.1 = true;
    }
    Some(w().nodes[out].node.clone())
  }
}

fn pair(arg: usize) -> Option<(usize, usize)> {
  let n = arg % w().nodes.len();
  let f = w().nodes[n].forest;
  let own: Vec<usize> = (0..w().alts.len()).filter(|a| w().alts[*a].forest == f).collect();
  if own.is_empty() {
    None
  } else {
    Some((n, own[arg / 7 % own.len()]))
  }
}

fn same_forest_nodes(arg: usize) -> Option<(usize, usize)> {
  if w().nodes.is_empty() {
    return None;
  }
  let n = arg % w().nodes.len();
  let ns = &w().forests[w().nodes[n].forest].nodes;
  Some((n, ns[arg / 5 % ns.len()]))
}

fn op_lazy(f: usize, act: u32, steps: Vec<i64>, make_node: bool) {
  touch(f);
  if !room(f) {
    return;
  }
  let yielded = std::rc::Rc::new(std::cell::RefCell::new((vec![], false)));
  // The content is known only afterwards; in pictures the action must still be
  // unique, so take a fresh one.
  let action = if w().uniq { action_for(act, &[usize::MAX, w().labels.len()]) } else { act };
  let it = Lazy { f, steps, at: 0, yielded: yielded.clone() };
  let y2 = yielded.clone();
  finish_branch(f, action, None, false, make_node, it, &move || Some(y2.borrow().clone()));
}

fn run_op(o: &Op) {
  w().touching[me()] = 0;
  let nf = w().forests.len();
  let nn = w().nodes.len();
  let na = w().alts.len();
  let f = o.idx(0, nf);
  match o.code.as_str() {
    "forest" => {
      if nf < 4 {
        new_forest()
      }
    }
    "node" => {
      op_make_node(f);
    }
    "leafalt" => op_leaf_alt(f, o.arg(1) as u32, o.arg(2) as u32),
    "leafnode" => {
      op_leaf_node(f, o.arg(1) as u32, o.arg(2) as u32);
    }
    // branch f action makenode kids...
    "branch" => {
      let ns = w().forests[f].nodes.clone();
      let kids: Vec<usize> = if ns.is_empty() { vec![] } else { o.a.iter().skip(3).map(|k| ns[k.unsigned_abs() as usize % ns.len()]).collect() };
      op_branch(f, o.arg(1) as u32, kids, o.arg(2) == 1);
    }
    // a branch with very many children: f action makenode count stride
    "pairs" => op_pairs(o.arg(0).unsigned_abs() as usize % 70, o.arg(1) as u64),
    "grow" => op_grow(f, o.arg(1) % 3, o.arg(2).unsigned_abs() as usize % 70_000),
    "churn" => op_churn(o.arg(0).unsigned_abs() as usize % 70_000),
    "deep" => op_deep(o.arg(0) % 2 == 0, o.arg(1).unsigned_abs() as usize % 600),
    "many" => op_many(f, o.arg(1).unsigned_abs() as usize % 70),
    "wide" => {
      let ns = w().forests[f].nodes.clone();
      if !ns.is_empty() {
        let n = o.arg(3).unsigned_abs() as usize % 5000;
        let mut kids: Vec<usize> = (0..n).map(|i| ns[i * (1 + o.idx(4, 7)) % ns.len()]).collect();
        // one child may be another than in the next branch like this one
        if o.a.len() > 6 && n > 0 {
          kids[n - 1 - o.idx(5, n)] = ns[o.idx(6, ns.len())];
        }
        op_branch(f, o.arg(1) as u32, kids, o.arg(2) == 1);
        probe("branch with many children");
      }
    }
    // any nodes as children, perhaps foreign
    "xbranch" => {
      let kids: Vec<usize> = if nn == 0 { vec![] } else { o.a.iter().skip(3).map(|k| k.unsigned_abs() as usize % nn).collect() };
      op_branch(f, o.arg(1) as u32, kids, o.arg(2) == 1);
    }
    "lazy" => op_lazy(f, o.arg(1) as u32, o.a.iter().skip(3).copied().collect(), o.arg(2) == 1),
    "add" => {
      if nn > 0 && na > 0 {
        if let Some((n, a)) = pair(o.idx(0, 1 << 20)) {
          op_add_alt(n, a);
        }
      }
    }
    "xadd" => {
      if nn > 0 && na > 0 {
        op_add_alt(o.idx(0, nn), o.idx(1, na));
      }
    }
    "addall" => {
      if let Some((d, s)) = same_forest_nodes(o.idx(0, 1 << 20)) {
        op_add_all(d, s);
      }
    }
    "xaddall" => {
      if nn > 0 {
        op_add_all(o.idx(0, nn), o.idx(1, nn));
      }
    }
    "alts" => {
      if nn > 0 {
        op_alts(o.idx(0, nn), None);
      }
    }
    "hold" => {
      if nn > 0 {
        op_alts(o.idx(0, nn), Some(o.idx(1, 3)));
      }
    }
    "holdkids" => {
      if na > 0 {
        op_kids(o.idx(0, na), Some(o.idx(1, 4)));
      }
    }
    "kids" => {
      if na > 0 {
        op_kids(o.idx(0, na), None);
      }
    }
    "next" => {
      let n = w().held.len();
      if n > 0 {
        consume(o.idx(0, n), Some(1 + o.idx(1, 2)));
      }
    }
    "read" => {
      if na > 0 {
        op_read(o.idx(0, na));
      }
    }
    "dot" => {
      if nn > 0 {
        op_dot(o.idx(0, nn));
      }
    }
    "cmp" => op_compare(o),
    "temp" => op_temp(o),
    c => sched::harness_error(&format!("unknown operation {}", c)),
  }
  w().touching[me()] = 0;
}

pub fn run(p: &Plan) -> u64 {
  *W.get() = Some(World { uniq: p.get("uniq") == 1, ..World::default() });
  sched::begin_run(p, if p.get("large") == 1 { 300_000_000 } else { 3_000_000 });
  for _ in 0..p.get("forests").clamp(1, 3) {
    new_forest();
  }
  for o in p.ops.iter().filter(|o| o.task == SETUP) {
    run_op(o);
  }
  let n = p.ops.iter().filter(|o| (o.task as usize) < sched::MAXT).map(|o| o.task as usize + 1).max().unwrap_or(0);
  let lists: Vec<Vec<Op>> = (0..n).map(|t| p.task_ops(t)).collect();
  let lists = Shared(&lists);
  sched::run_tasks(n, &|t| {
    let ls = &lists;
    for o in &ls.0[t] {
      sched::begin_op(o.id);
      run_op(o);
    }
  });
  for o in p.ops.iter().filter(|o| o.task == AFTER) {
    run_op(o);
  }
  finish();
  let mut h = sched::end_run();
  for f in &w().forests {
    h = simcore::rng::mix2(h, hash_of(&format!("{:?} {:?}", f.contents, f.events.iter().map(|e| format!("{:?}{}{}", e.op, e.inv, e.ret)).collect::<Vec<_>>())));
  }
  tear_down();
  h
}

struct Shared<'a>(&'a Vec<Vec<Op>>);
unsafe impl Sync for Shared<'_> {}

fn finish() {
  // Drain what is still being listed.
  for h in 0..w().held.len() {
    consume(h, None);
  }
  for h in 0..w().held.len() {
    if let Held::Alts { forest, event, .. } = &w().held[h] {
      let (f, e) = (*forest, *event);
      w().forests[f].events[e].op = FOp::Nop;
    }
  }
  for n in 0..w().nodes.len() {
    let f = w().nodes[n].forest;
    if w().forests[f].events.len() < MAX_EVENTS - 2 && !w().forests[f].tainted {
      final_alts(n);
    }
  }
  for a in 0..w().alts.len() {
    let f = w().alts[a].forest;
    if !w().forests[f].tainted {
      op_read(a);
    }
  }
  let na = w().alts.len();
  for x in 0..na {
    // neighbours and a spread: all pairs were compared when created
    for y in (0..na).step_by(1 + na / 24) {
      compare_alts(x, y);
    }
  }
  let nn = w().nodes.len();
  for x in 0..nn {
    for y in (0..nn).step_by(1 + nn / 24) {
      compare_nodes(x, y);
    }
  }
  for f in 0..w().forests.len() {
    check_history(f);
  }
  check_fill();
}

fn final_alts(n: usize) {
  let f = w().nodes[n].forest;
  let node = w().nodes[n].node.clone();
  let inv = sched::now();
  match lib(|| node.alts().collect::<Vec<A>>()) {
    Ok(v) => {
      let mut set = 0u128;
      for a in &v {
        if let Some(c) = resolve(f, a) {
          if set >> c & 1 == 1 {
            bad("listing", format!("forest {}: a listing shows alternative {:?} twice", f, w().forests[f].contents[c]));
          }
          set |= 1 << c;
        }
      }
      let local = w().nodes[n].local;
      event(f, inv, FOp::Alts { n: local, set: Some(set) }, false);
    }
    Err(p) => on_panic(p, f, "listing alternatives", false),
  }
}

fn tear_down() {
  let world = W.get().take().unwrap();
  let World { forests, nodes, alts, held, fill, .. } = world;
  drop(fill);
  drop(held);
  drop(alts);
  drop(nodes);
  for f in forests {
    let (o, h) = (f.owner, f.handle);
    drop(f.rep);
    unsafe {
      drop(Box::from_raw(h));
      drop(Box::from_raw(o));
    }
  }
}

// ---- the sequential model ----

#[derive(Clone)]
struct FModel {
  sets: Vec<u128>,
  f: usize,
}

impl FModel {
  fn picture(&self, root: usize) -> u64 {
    let fs = &w().forests[self.f];
    let mut seen_n = vec![false; self.sets.len()];
    let mut seen_a = 0u128;
    let mut todo = vec![root];
    seen_n[root] = true;
    let mut parents: Vec<Vec<String>> = vec![vec![]; self.sets.len()];
    let mut alts = std::collections::BTreeSet::new();
    while let Some(n) = todo.pop() {
      for (c, content) in fs.contents.iter().enumerate() {
        if self.sets[n] >> c & 1 == 0 || seen_a >> c & 1 == 1 {
          continue;
        }
        seen_a |= 1 << c;
        alts.insert(label(content));
        if let Content::Branch(_, kids) = content {
          for k in kids {
            let l = w().nodes[*k].local;
            parents[l].push(label(content));
            if !seen_n[l] {
              seen_n[l] = true;
              todo.push(l);
            }
          }
        }
      }
    }
    let mut nodes = vec![];
    for n in 0..self.sets.len() {
      if seen_n[n] {
        let mut own: Vec<String> = (0..fs.contents.len()).filter(|c| self.sets[n] >> c & 1 == 1).map(|c| label(&fs.contents[c])).collect();
        own.sort();
        let mut par = parents[n].clone();
        par.sort();
        nodes.push((own, par));
      }
    }
    hash_of(&graph::Picture { alts, nodes }.canon())
  }
}

fn label(c: &Content) -> String {
  match c {
    Content::Leaf(k, v) => format!("{}({})", text(*k), text(*v)),
    Content::Branch(a, _) => text(*a),
  }
}

impl Model for FModel {
  type Op = FOp;
  fn apply(&mut self, op: &FOp) -> bool {
    match op {
      FOp::Add { n, c, changed } => {
        let ch = self.sets[*n] >> c & 1 == 0;
        self.sets[*n] |= 1 << c;
        changed.is_none_or(|x| x == ch)
      }
      FOp::AddAll { dst, src, changed } => {
        let new = self.sets[*dst] | self.sets[*src];
        let ch = new != self.sets[*dst];
        self.sets[*dst] = new;
        changed.is_none_or(|x| x == ch)
      }
      FOp::Alts { n, set } => set.is_none_or(|s| s == self.sets[*n]),
      FOp::Dot { n, canon } => self.picture(*n) == *canon,
      FOp::Nop => true,
    }
  }
  fn digest(&self) -> u64 {
    hash_of(&self.sets)
  }
}

fn check_history(f: usize) {
  let fs = &w().forests[f];
  let init = FModel { sets: fs.nodes.iter().map(|n| w().nodes[*n].init).collect(), f };
  let ev = &fs.events;
  let n = ev.len().min(128);
  match lin::check(&init, &ev[..n], 400_000) {
    Verdict::Yes => {}
    Verdict::GaveUp => probe("history too entangled to decide"),
    Verdict::No(stuck) => {
      let mut s = String::new();
      for (i, e) in ev.iter().enumerate() {
        s.push_str(&format!("  {}[{}, {}]{} {}\n", if stuck.contains(&i) { "* " } else { "  " }, e.inv, e.ret, if e.maybe { " interrupted" } else { "" }, describe(fs, &e.op)));
      }
      for (i, c) in fs.contents.iter().enumerate() {
        s.push_str(&format!("  c{} = {:?}\n", i, c));
      }
      bad("linearizability", format!("no order of whole operations on forest {} explains the results marked *:\n{}", f, s));
    }
  }
}

fn describe(fs: &ForestSlot, op: &FOp) -> String {
  let set = |s: u128| (0..fs.contents.len()).filter(|c| s >> c & 1 == 1).map(|c| format!("c{}", c)).collect::<Vec<_>>().join(",");
  let ch = |c: &Option<bool>| match c {
    Some(true) => "changed",
    Some(false) => "unchanged",
    None => "?",
  };
  match op {
    FOp::Add { n, c, changed } => format!("attach c{} to n{}: {}", c, n, ch(changed)),
    FOp::AddAll { dst, src, changed } => format!("merge n{} into n{}: {}", src, dst, ch(changed)),
    FOp::Alts { n, set: s } => format!("list n{}: {}", n, s.map_or("?".to_string(), set)),
    FOp::Dot { n, .. } => format!("render n{}", n),
    FOp::Nop => "(unknown)".to_string(),
  }
}

// ---- workloads ----

/// Operation weights by property.
fn weights(prop: &str) -> Vec<(&'static str, u32)> {
  match prop {
    "C01" => vec![("node", 3), ("leafalt", 4), ("branch", 4), ("leafnode", 4), ("lazy", 1), ("add", 14), ("addall", 8), ("alts", 8), ("read", 2), ("wide", 0)],
    "C02" => vec![("node", 5), ("leafalt", 12), ("branch", 12), ("leafnode", 6), ("lazy", 2), ("add", 3), ("alts", 2), ("read", 6), ("cmp", 4), ("wide", 1), ("kids", 2)],
    "C03" => vec![
      ("node", 2),
      ("leafalt", 2),
      ("branch", 2),
      ("leafnode", 2),
      ("lazy", 9),
      ("add", 4),
      ("addall", 4),
      ("xadd", 2),
      ("xaddall", 2),
      ("alts", 1),
      ("hold", 3),
      ("next", 4),
      ("cmp", 8),
      ("read", 2),
      ("dot", 2),
      ("holdkids", 1),
      ("xbranch", 2),
    ],
    "C04" => vec![("node", 3), ("leafalt", 8), ("branch", 6), ("leafnode", 6), ("lazy", 5), ("add", 8), ("addall", 4), ("alts", 5), ("read", 8), ("dot", 4), ("kids", 2), ("cmp", 1)],
    "C05" => vec![("node", 3), ("leafalt", 3), ("branch", 3), ("leafnode", 3), ("lazy", 3), ("add", 4), ("xadd", 9), ("xaddall", 7), ("xbranch", 8), ("alts", 4), ("cmp", 8), ("temp", 5), ("read", 2)],
    "C06" => vec![("node", 2), ("leafalt", 3), ("branch", 3), ("leafnode", 3), ("add", 10), ("addall", 5), ("hold", 9), ("next", 10), ("holdkids", 5), ("kids", 2), ("lazy", 2), ("wide", 1), ("alts", 3)],
    _ => vec![("node", 3), ("leafalt", 4), ("branch", 8), ("leafnode", 4), ("add", 10), ("addall", 4), ("dot", 12), ("alts", 1), ("lazy", 1)],
  }
}

pub fn gen(prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("forest", seed);
  let ws = weights(prop);
  // swarm: drop some operations in some runs
  let mut ws: Vec<(&str, u32)> = ws.into_iter().map(|(c, x)| (c, if r.chance(1, 6) { 0 } else { x * (1 + r.below(3) as u32) })).collect();
  if ws.iter().all(|x| x.1 == 0) {
    ws[0].1 = 1;
  }
  let tasks = *r.pick(&[1, 2, 2, 2, 3, 3, 4, 5]);
  let len = *r.pick(&[1, 2, 3, 4, 6, 9]);
  p.set("fine", (tasks > 1 && r.chance(1, 5)) as i64);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  p.set("forests", if matches!(prop, "C03" | "C05") { r.range(2, 3) } else if prop == "C04" { r.range(1, 2) } else { 1 });
  if prop == "C07" {
    p.set("uniq", 1);
  }
  if prop == "C04" || (prop == "C03" && r.chance(1, 4)) {
    let mask = match r.below(6) {
      0 => 1 << CB_CMP,
      1 => 1 << CB_CLONE,
      2 => 1 << CB_DEBUG,
      3 => 1 << CB_ITER,
      4 => (1 << CB_CLONE) | (1 << CB_DEBUG) | (1 << CB_ITER),
      _ => (1 << CB_CMP) | (1 << CB_CLONE) | (1 << CB_DEBUG) | (1 << CB_ITER),
    };
    p.set("faultmask", mask);
    p.set("faultden", *r.pick(&[2, 4, 8, 16, 40, 100]));
    p.set("maxfaults", r.range(1, 4));
  }
  let acts = r.range(1, 3);
  let vals = r.range(1, 3);
  let nf = p.get("forests");
  let setup = r.range(0, 5) + if prop == "C07" || prop == "C06" { 3 } else { 0 };
  if p.get("faultmask") == 0 && r.chance(1, 12) {
    p.push(SETUP, "many", vec![0, *r.pick(&[7, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65])]);
  }
  if p.get("faultmask") == 0 && (r.chance(1, 400) || std::env::var_os("SIM_LARGE").is_some()) {
    p.set("large", 1);
    p.push(SETUP, "grow", vec![0, r.below(3) as i64, *r.pick(&[250, 254, 255, 256, 300, 1000, 5000])]);
    if r.chance(1, 12) {
      p.push(SETUP, "grow", vec![0, r.below(3) as i64, *r.pick(&[32_760, 65_520, 65_530, 65_536])]);
    }
  }
  if prop == "C02" && (r.chance(1, 300) || std::env::var_os("SIM_LARGE").is_some()) {
    p.set("large", 1);
    p.push(SETUP, "pairs", vec![*r.pick(&[10, 18, 34, 40, 65]), r.below(1 << 40) as i64]);
  }
  if prop == "C05" && (r.chance(1, 400) || std::env::var_os("SIM_LARGE").is_some()) {
    p.set("large", 1);
    p.push(SETUP, "churn", vec![if r.chance(1, 8) { 65_536 } else { 256 } - r.range(1, 3)]);
    p.push(SETUP, "forest", vec![0]);
  }
  if prop == "C07" && (r.chance(1, 400) || std::env::var_os("SIM_LARGE").is_some()) {
    p.set("large", 1);
    p.push(SETUP, "deep", vec![r.below(2) as i64, *r.pick(&[20, 64, 100, 127, 128, 129, 254, 255, 256, 257, 300, 500])]);
  }
  if ws.iter().any(|x| x.0 == "wide" && x.1 > 0) && r.chance(1, 8) {
    p.set("widelen", *r.pick(&[9, 12, 17, 20, 33, 40, 63, 64, 65, 66, 70, 129, 150, 260, 300]));
    for _ in 0..r.range(1, 3) {
      gen_op(&mut r, &mut p, SETUP, "node", nf, acts, vals);
    }
    for _ in 0..r.range(1, 4) {
      gen_op(&mut r, &mut p, SETUP, "wide", nf, acts, vals);
    }
  }
  for _ in 0..setup {
    let code = *r.pick(&["node", "leafnode", "leafalt", "branch", "add", "leafalt"]);
    gen_op(&mut r, &mut p, SETUP, code, nf, acts, vals);
  }
  let wt: Vec<u32> = ws.iter().map(|x| x.1).collect();
  // spread by position so tasks interleave in generation order too
  for _ in 0..len {
    for t in 0..tasks {
      let code = ws[r.weighted(&wt)].0;
      gen_op(&mut r, &mut p, t, code, nf, acts, vals);
    }
  }
  if r.chance(1, 3) {
    for _ in 0..3 {
      let code = ws[r.weighted(&wt)].0;
      gen_op(&mut r, &mut p, AFTER, code, nf, acts, vals);
    }
  }
  p
}

fn gen_op(r: &mut Rng, p: &mut Plan, t: u8, code: &str, nf: i64, acts: i64, vals: i64) {
  let f = r.below(nf as u64) as i64;
  let big = |r: &mut Rng| r.below(1 << 20) as i64;
  let a = match code {
    "leafalt" | "leafnode" if p.get("uniq") == 1 => {
      // texts that need escaping among them
      let mut wild = |n: i64| if r.chance(1, 2) { r.below(n as u64) as i64 } else { *r.pick(&[7, 9, 18, 20, 4, 15, 5, 16]) };
      vec![f, wild(vals), wild(vals)]
    }
    "leafalt" | "leafnode" => vec![f, r.below(vals as u64) as i64, r.below(vals as u64) as i64],
    "branch" | "xbranch" => {
      let n = r.weighted(&[2, 5, 4, 2]) as i64;
      let mut v = vec![f, r.below(acts as u64) as i64, r.chance(1, 2) as i64];
      for _ in 0..n {
        v.push(r.below(6) as i64);
      }
      v
    }
    "wide" => {
      let n = if p.get("widelen") > 0 { p.get("widelen") } else { *r.pick(&[63, 64, 65, 66, 129, 200, 1025]) };
      let at = match r.below(4) {
        0 | 1 => 0,
        2 => r.range(0, n - 1),
        _ => (n - 1 - *r.pick(&[0, 7, 8, 31, 32, 63, 64])).max(0),
      };
      vec![f, r.below(acts as u64) as i64, r.chance(1, 2) as i64, n, if p.get("widelen") > 0 { 0 } else { r.below(7) as i64 }, at, r.below(6) as i64]
    }
    "lazy" => {
      let n = r.range(1, 4);
      let mut v = vec![f, r.below(acts as u64) as i64, r.chance(1, 2) as i64];
      for _ in 0..n {
        v.push(r.below(12) as i64 + 16 * r.below(64) as i64);
      }
      v
    }
    "cmp" => vec![r.below(4) as i64, r.below(4) as i64, r.below(12) as i64, r.below(12) as i64],
    "node" | "forest" => vec![f],
    _ => vec![big(r), big(r), r.below(4) as i64],
  };
  p.push(t, code, a);
}

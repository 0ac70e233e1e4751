//! Making grammars: building (C20), wrapping and freeing of nullability (C21),
//! interrupted anywhere.
use crate::gram::{self, AK, AV, G, NT};
use crate::types::{text, Sym};
use bongo::grammar::transform::nonnull::{transform_to_nonnull, NonNullGrammar};
use bongo::grammar::{build, Elem, Grammar, GrammarBuilder, GrammarErrors, ProdElement, ProdKey, ProductionBuilder, RuleBuilder};
use bongo::start_grammar::{wrap_grammar_with_start, StartActionKey, StartActionValue, StartNonTerminal, StreamTerminal, StartGrammar};
use bongo::utils::{Name, TreeNode, TreeValue, Void};
use simcore::cfg::{self, Cfg, E};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, lib_raw, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_ITER};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::resume_unwind;

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

fn interrupted(p: Panic, what: &str) {
  match p {
    Panic::Injected(_) => probe("interrupted"),
    Panic::Other(m) => bad("unexpected-panic", format!("{} panicked: {}", what, m)),
  }
}

// ---- what a grammar is, whatever its types ----

trait Show {
  fn show(&self) -> String;
}
impl Show for Sym {
  fn show(&self) -> String {
    text(self.0)
  }
}
impl<T: Show> Show for StreamTerminal<T> {
  fn show(&self) -> String {
    match self {
      StreamTerminal::EndOfStream => "EOS".into(),
      StreamTerminal::Term(t) => t.show(),
    }
  }
}
impl<T: Show> Show for StartNonTerminal<T> {
  fn show(&self) -> String {
    match self {
      StartNonTerminal::Start => "START".into(),
      StartNonTerminal::NTerm(t) => t.show(),
    }
  }
}
impl<T: Show> Show for StartActionKey<T> {
  fn show(&self) -> String {
    match self {
      StartActionKey::Start => "START".into(),
      StartActionKey::ActionKey(t) => t.show(),
    }
  }
}
impl<T: Show> Show for StartActionValue<T> {
  fn show(&self) -> String {
    match self {
      StartActionValue::Start => "START".into(),
      StartActionValue::ActionValue(t) => t.show(),
    }
  }
}

/// Name, whether a nonterminal, and which.
type El = (Option<String>, bool, String);
#[derive(Clone, Debug, PartialEq)]
struct Pr {
  key: String,
  value: String,
  elems: Vec<El>,
}
#[derive(Clone, Debug, PartialEq)]
struct Gr {
  start: String,
  rules: BTreeMap<String, Vec<Pr>>,
}

fn elems<T: Show, NT: Show>(v: &[ProdElement<T, NT>]) -> Vec<El> {
  v.iter()
    .map(|e| {
      let (nt, s) = match e.elem() {
        Elem::Term(t) => (false, t.show()),
        Elem::NonTerm(n) => (true, n.show()),
      };
      (e.id().map(|n| n.str().to_string()), nt, s)
    })
    .collect()
}

/// Reads everything a grammar shows, in several ways.
fn read<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, what: &str) -> Gr
where
  T: Show,
  NT: Show + Ord + Clone,
  AK: Show + Ord + Clone,
  AV: Show,
{
  let mut rules: BTreeMap<String, Vec<Pr>> = BTreeMap::new();
  for r in g.rules() {
    let ps = r.prods().map(|p| Pr { key: p.action_key().show(), value: p.action_value().show(), elems: elems(p.prod_elements()) }).collect();
    if rules.insert(r.head().show(), ps).is_some() {
      bad("contents", format!("{}: the rule of {} is listed twice", what, r.head().show()));
    }
    let same = g.try_get_rule(r.head()).map_or(false, |q| q.head().show() == r.head().show() && q.prods().count() == r.prods().count());
    if !same {
      bad("contents", format!("{}: the rule of {} is not found", what, r.head().show()));
    }
  }
  let mut heads: Vec<String> = g.rule_set().keys().map(|k| k.show()).collect();
  heads.sort();
  if heads.iter().ne(rules.keys()) {
    bad("contents", format!("{}: rules of {:?} by head, of {:?} in the list", what, heads, rules.keys()));
  }
  if g.prods().count() != rules.values().map(|v| v.len()).sum::<usize>() {
    bad("contents", format!("{}: the list of productions is not that of the rules", what));
  }
  Gr { start: g.start_nt().show(), rules }
}

fn of_cfg(c: &Cfg) -> Gr {
  let nt = |n: usize| text(NT + n as u32);
  let rules = c.rules.iter().enumerate().map(|(h, ps)| {
    let ps = ps.iter().map(|p| {
      let elems = p.elems.iter().enumerate().map(|(i, e)| {
        let (isnt, s) = match e {
          E::T(t) => (false, text(*t)),
          E::N(n) => (true, nt(*n as usize)),
        };
        (p.named[i].then(|| gram::name_of(p, i)), isnt, s)
      });
      Pr { key: text(AK + p.action), value: text(AV + p.action), elems: elems.collect() }
    });
    (nt(h), ps.collect())
  });
  Gr { start: nt(0), rules: rules.collect() }
}

fn wrapped(g: &Gr) -> Gr {
  let mut w = g.clone();
  w.start = "START".into();
  let p = Pr { key: "START".into(), value: "START".into(), elems: vec![(Some("start".into()), true, g.start.clone()), (None, false, "EOS".into())] };
  w.rules.insert("START".into(), vec![p]);
  w
}

fn differ(got: &Gr, want: &Gr) -> String {
  if got.start != want.start {
    return format!("starts with {} instead of {}", got.start, want.start);
  }
  for h in got.rules.keys().chain(want.rules.keys()) {
    let (a, b) = (got.rules.get(h), want.rules.get(h));
    if a != b {
      return format!("has for {} {:?} instead of {:?}", h, a, b);
    }
  }
  "is as it should be".into()
}

// ---- building ----

#[derive(Clone)]
struct Prod {
  action: u32,
  how: i64,
  elems: Vec<i64>,
}
#[derive(Clone)]
struct Rule {
  head: u32,
  /// How often a panic is handled by trying again, and whether then by going on without.
  retries: i64,
  prods: Vec<Prod>,
}
struct Session {
  start: u32,
  rules: Vec<Rule>,
  keep: i64,
}

fn sessions(ops: &[Op]) -> Vec<(u32, Session)> {
  let mut out: Vec<(u32, Session)> = vec![];
  for o in ops {
    match o.code.as_str() {
      "build" => out.push((o.id, Session { start: o.idx(0, 400) as u32, rules: vec![], keep: o.arg(1) })),
      "rule" => {
        if let Some((_, s)) = out.last_mut() {
          let head = o.idx(0, 400) as u32;
          if s.rules.iter().all(|r| r.head != head) {
            s.rules.push(Rule { head, retries: o.arg(1), prods: vec![] });
          }
        }
      }
      "prod" => {
        if let Some(r) = out.last_mut().and_then(|(_, s)| s.rules.last_mut()) {
          r.prods.push(Prod { action: o.idx(0, 1 << 20) as u32, how: o.arg(1), elems: o.a.get(2..).unwrap_or(&[]).to_vec() });
        }
      }
      _ => {}
    }
  }
  out
}

/// Runs a step of the caller's in which a panic may be handled: by trying again,
/// going on without, or not at all. None if the step was given up.
fn step<R>(retries: i64, mut f: impl FnMut() -> R) -> Option<R> {
  let mut left = retries.abs();
  loop {
    match lib_raw(&mut f) {
      Ok(r) => return Some(r),
      Err(p) => {
        if !p.is::<sched::Injected>() {
          resume_unwind(p);
        }
        if left > 0 {
          left -= 1;
          probe("step tried again after a panic");
        } else if retries < 0 {
          probe("step given up after a panic");
          return None;
        } else {
          resume_unwind(p);
        }
      }
    }
  }
}

type Pb = ProductionBuilder<Sym, Sym, Sym, Sym>;
type Rb = RuleBuilder<Sym, Sym, Sym, Sym>;
type Gb = GrammarBuilder<Sym, Sym, Sym, Sym>;

fn element(code: i64) -> (Option<String>, bool, u32) {
  let c = code.unsigned_abs();
  let x = (c / 8) as u32 % 1000;
  ((c & 1 == 1).then(|| format!("n{}", c / 16 % 50)), c & 2 == 2, x)
}

fn sym(nt: bool, x: u32) -> Sym {
  Sym(if nt { NT + x } else { x })
}

/// Adds elements one by one; the model has those whose adding ended.
fn add_elems(pb: &mut Pb, p: &Prod, retries: i64, names: &mut BTreeMap<String, Name>, done: &mut Vec<El>) {
  for code in &p.elems {
    let (name, nt, x) = element(*code);
    let s = sym(nt, x);
    let by_ref = code & 4 == 4;
    let r = step(retries, || {
      sched::callback(CB_ITER);
      match (&name, nt, by_ref) {
        (None, false, false) => pb.add_term(sym(nt, x)),
        (None, false, true) => pb.add_term(&s),
        (None, true, false) => pb.add_nonterm(sym(nt, x)),
        (None, true, true) => pb.add_nonterm(&s),
        (Some(n), false, false) => pb.add_named_term(n.as_str(), sym(nt, x)),
        (Some(n), true, false) => pb.add_named_nonterm(n.as_str(), sym(nt, x)),
        (Some(n), false, true) => pb.add_named_term(&names[n], &s),
        (Some(n), true, true) => pb.add_named_nonterm(&names[n], &s),
      };
    });
    if r.is_some() {
      done.push((name, nt, text(s.0)));
    }
  }
}

fn add_prod(rb: &mut Rb, p: &Prod, retries: i64, names: &mut BTreeMap<String, Name>) -> Option<Pr> {
  let (k, v) = (Sym(AK + p.action), Sym(AV + p.action));
  let (key, value) = (text(k.0), text(v.0));
  step(retries, || {
    let mut done = vec![];
    if p.how & 1 == 1 {
      // given whole
      let es: Vec<ProdElement<Sym, Sym>> = unarmed(|| {
        p.elems
          .iter()
          .map(|c| {
            let (name, nt, x) = element(*c);
            done.push((name.clone(), nt, text(sym(nt, x).0)));
            let e = if nt { Elem::NonTerm(sym(nt, x)) } else { Elem::Term(sym(nt, x)) };
            match name {
              Some(n) => ProdElement::new_with_name(names[&n].clone(), e),
              None => ProdElement::from(e),
            }
          })
          .collect()
      });
      match p.how >> 1 & 3 {
        0 => rb.add_prod_with_elems(&k, &v, &es),
        1 => rb.add_prod_with_elems(Sym(k.0), &v, es),
        2 => rb.add_prod_with_elems(&k, Sym(v.0), es),
        _ => rb.add_prod_with_elems(Sym(k.0), Sym(v.0), &es),
      };
    } else {
      let mut called = false;
      let build_fn = |pb: &mut Pb| {
        called = true;
        sched::callback(CB_ITER);
        unarmed(|| add_elems(pb, p, retries, names, &mut done));
        sched::callback(CB_ITER);
      };
      match p.how >> 1 & 3 {
        0 => rb.add_prod(&k, &v, build_fn),
        1 => rb.add_prod(Sym(k.0), &v, build_fn),
        2 => rb.add_prod(&k, Sym(v.0), build_fn),
        _ => rb.add_prod(Sym(k.0), Sym(v.0), build_fn),
      };
      if !called {
        bad("not-called", format!("adding production {} ended without its elements having been asked for", key));
      }
    }
    unarmed(|| Pr { key: key.clone(), value: value.clone(), elems: std::mem::take(&mut done) })
  })
}

fn add_rule(gb: &mut Gb, r: &Rule, names: &mut BTreeMap<String, Name>) -> Option<Vec<Pr>> {
  let head = Sym(NT + r.head);
  step(r.retries, || {
    let mut prods = vec![];
    let by_ref = r.prods.len() % 2 == 0;
    let mut called = false;
    let build_fn = |rb: &mut Rb| {
      called = true;
      sched::callback(CB_ITER);
      unarmed(|| {
        for p in &r.prods {
          if let Some(x) = add_prod(rb, p, r.retries, names) {
            prods.push(x);
          }
        }
      });
      sched::callback(CB_ITER);
    };
    if by_ref {
      gb.add_rule(&head, build_fn);
    } else {
      gb.add_rule(Sym(head.0), build_fn);
    }
    if !called {
      bad("not-called", format!("adding the rule of {} ended without its productions having been asked for", text(head.0)));
    }
    unarmed(|| std::mem::take(&mut prods))
  })
}

/// The offenders a grammar like this has.
fn offenders(g: &Gr) -> [BTreeSet<String>; 3] {
  let used: BTreeSet<String> = g.rules.values().flatten().flat_map(|p| &p.elems).filter(|e| e.1).map(|e| e.2.clone()).collect();
  let mut reach = BTreeSet::from([g.start.clone()]);
  let mut todo = vec![g.start.clone()];
  while let Some(n) = todo.pop() {
    for e in g.rules.get(&n).into_iter().flatten().flat_map(|p| &p.elems) {
      if e.1 && reach.insert(e.2.clone()) {
        todo.push(e.2.clone());
      }
    }
  }
  let unreachable = used.difference(&reach).cloned().collect();
  let mut norule: BTreeSet<String> = used;
  norule.insert(g.start.clone());
  norule.retain(|n| !g.rules.contains_key(n));
  let noprod = g.rules.iter().filter(|(_, v)| v.is_empty()).map(|(k, _)| k.clone()).collect();
  [unreachable, norule, noprod]
}

const PARTS: [&str; 3] = ["unreachable_nonterms: {", "nonterms_without_rules: {", "rules_without_prods: {"];

/// Whether the printed error names exactly these.
fn names_exactly(e: &GrammarErrors<Sym>, want: &[BTreeSet<String>; 3]) -> bool {
  let s = format!("{:?}", e);
  let all: BTreeSet<u32> = (0..400).collect();
  let in_set = |part: &str| -> BTreeSet<String> { all.iter().map(|n| text(NT + n)).filter(|n| named_in(part, n)).collect() };
  if PARTS.iter().all(|p| s.contains(p)) {
    PARTS.iter().zip(want).all(|(p, w)| {
      let from = s.find(p).unwrap() + p.len();
      // up to the next part, or the end
      let to = PARTS.iter().filter_map(|q| s.find(q)).filter(|q| *q > from).min().unwrap_or(s.len());
      in_set(&s[from..to]) == *w
    })
  } else {
    in_set(&s) == want.iter().flatten().cloned().collect()
  }
}

/// Whether text `n` is there as an entry of its own.
fn named_in(part: &str, n: &str) -> bool {
  part.match_indices(n).any(|(i, _)| {
    let digit = |c: Option<char>| c.map_or(false, |c| c.is_ascii_digit());
    let (before, after) = (part[..i].chars().next_back(), part[i + n.len()..].chars().next());
    !(digit(before) && n.starts_with(|c: char| c.is_ascii_digit())) && !(digit(after) && n.ends_with(|c: char| c.is_ascii_digit()))
  })
}

fn build_task(ops: &[Op]) {
  let mut kept: Vec<(G, Gr)> = vec![];
  for (id, s) in sessions(ops) {
    sched::begin_op(id);
    let mut tries = 0;
    loop {
      tries += 1;
      let mut names: BTreeMap<String, Name> = (0..50).map(|i| format!("n{}", i)).map(|n| (n.clone(), Name::new(&n))).collect();
      let mut model = Gr { start: text(NT + s.start), rules: BTreeMap::new() };
      let what = format!("building from {} with the rules of {:?}, attempt {}", model.start, s.rules.iter().map(|r| r.head).collect::<Vec<_>>(), tries);
      let mut called = false;
      let r = lib(|| {
        let fill = |gb: &mut Gb| {
          called = true;
          unarmed(|| {
            for r in &s.rules {
              if let Some(ps) = add_rule(gb, r, &mut names) {
                model.rules.insert(text(NT + r.head), ps);
              }
            }
          });
          sched::callback(CB_ITER);
        };
        let start = Sym(NT + s.start);
        if s.keep & 2 == 2 {
          build(&start, fill)
        } else {
          build(start, fill)
        }
      });
      if !called && r.is_ok() {
        bad("not-called", format!("{} ended without the rules having been asked for", what));
      }
      // the caller's names are its own
      for n in names.values_mut() {
        n.make_mut().push('!');
      }
      let wrong = offenders(&model);
      let fine = wrong.iter().all(|w| w.is_empty());
      match r {
        Err(p) => {
          interrupted(p, &what);
          if tries < 12 {
            continue;
          }
        }
        Ok(Ok(g)) => {
          if !fine {
            bad("verdict", format!("{} is accepted with {:?} unreachable, {:?} without a rule and {:?} without a production", what, wrong[0], wrong[1], wrong[2]));
          }
          let got = read(&g, &what);
          if got != model {
            bad("contents", format!("{}: the grammar {}", what, differ(&got, &model)));
          }
          probe("grammar built");
          if s.keep & 1 == 1 {
            kept.push((g, model));
          } else if let Err(p) = lib(|| drop(g)) {
            interrupted(p, "dropping a grammar");
          }
        }
        Ok(Err(e)) => {
          if fine {
            bad("verdict", format!("{} is refused with {:?}", what, e));
          }
          if !names_exactly(&e, &wrong) {
            bad("offenders", format!("{} is refused with {:?} where {:?} are unreachable, {:?} without a rule, {:?} without a production", what, e, wrong[0], wrong[1], wrong[2]));
          }
          probe("grammar refused");
        }
      }
      break;
    }
    // copies, and grammars built before
    if let Some((g, m)) = kept.last() {
      if s.keep & 4 == 4 {
        match lib(|| g.clone()) {
          Ok(c) => {
            let got = read(&c, "copy");
            if got != *m {
              bad("contents", format!("a copy of a grammar {}", differ(&got, m)));
            }
            let m = m.clone();
            kept.push((c, m));
          }
          Err(p) => interrupted(p, "copying a grammar"),
        }
      }
    }
    for (g, m) in &kept {
      let got = read(g, "kept grammar");
      if got != *m {
        bad("changed", format!("a grammar built before {}", differ(&got, m)));
      }
    }
  }
  drop(kept);
}

// ---- freeing of nullability and wrapping ----

/// The derivation of the empty sequence from each nullable nonterminal, with what
/// is named in it; None where there is more than one way.
fn empties<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> Option<BTreeMap<NT, TreeNode<ProdKey<NT, AK>, Void>>>
where
  NT: Ord + Clone,
  AK: Ord + Clone,
{
  let mut nullable: BTreeSet<NT> = BTreeSet::new();
  loop {
    let n = nullable.len();
    for p in g.prods() {
      if p.elements().all(|e| e.as_nonterm().map_or(false, |x| nullable.contains(x))) {
        nullable.insert(p.head().clone());
      }
    }
    if nullable.len() == n {
      break;
    }
  }
  let mut out: BTreeMap<NT, TreeNode<ProdKey<NT, AK>, Void>> = BTreeMap::new();
  let mut how = BTreeMap::new();
  for p in g.prods() {
    if p.elements().all(|e| e.as_nonterm().map_or(false, |x| nullable.contains(x))) && how.insert(p.head().clone(), p).is_some() {
      return None;
    }
  }
  while out.len() < nullable.len() {
    for (nt, p) in &how {
      let parts: Option<Vec<_>> = p.prod_elements().iter().map(|e| Some((e.id().cloned(), out.get(e.elem().as_nonterm()?)?.clone()))).collect();
      if let Some(parts) = parts {
        let named = parts.into_iter().filter_map(|(n, t)| Some((n?, TreeValue::Node(Box::new(t))))).collect();
        out.entry(nt.clone()).or_insert_with(|| TreeNode::new(p.prod_key(), named));
      }
    }
  }
  Some(out)
}

struct Want {
  key: String,
  left_out: Vec<bool>,
  value: String,
  args: String,
  elems: Vec<El>,
}

/// The words true and false in a printed action key.
fn flags(s: &str) -> Vec<bool> {
  s.split(|c: char| !c.is_alphanumeric() && c != '_').filter_map(|w| w.parse().ok()).collect()
}

fn check_nonnull<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, n: &NonNullGrammar<T, NT, AK, AV>, what: &str)
where
  T: Show + Debug,
  NT: Show + Ord + Clone + Debug,
  AK: Show + Ord + Clone + Debug,
  AV: Show + Clone + Debug,
{
  let Some(empty) = empties(g) else { bad("verdict", format!("{}: the empty sequence is derived in several ways, but a grammar came out", what)) };
  if n.start_nt().show() != g.start_nt().show() {
    bad("derived", format!("{}: starts with {}", what, n.start_nt().show()));
  }
  let heads = |v: Vec<String>| v.into_iter().collect::<BTreeSet<_>>();
  if heads(g.rules().map(|r| r.head().show()).collect()) != heads(n.rules().map(|r| r.head().show()).collect()) {
    bad("derived", format!("{}: has rules for others than the original", what));
  }
  for r in g.rules() {
    let mut want: Vec<Want> = vec![];
    for p in r.prods() {
      let es = p.prod_elements();
      let nts: Vec<usize> = (0..es.len()).filter(|i| es[*i].elem().as_nonterm().is_some()).collect();
      let can: Vec<usize> = nts.iter().copied().filter(|i| empty.contains_key(es[*i].elem().as_nonterm().unwrap())).collect();
      for mask in 0u64..1 << can.len() {
        let out: BTreeSet<usize> = can.iter().enumerate().filter(|(b, _)| mask >> b & 1 == 1).map(|(_, i)| *i).collect();
        if out.len() == es.len() {
          continue;
        }
        let args: BTreeMap<Name, TreeNode<ProdKey<NT, AK>, Void>> = out.iter().filter_map(|i| Some((es[*i].id()?.clone(), empty[es[*i].elem().as_nonterm().unwrap()].clone()))).collect();
        want.push(Want {
          key: format!("{:?}", p.action_key()),
          left_out: nts.iter().map(|i| out.contains(i)).collect(),
          value: format!("{:?}", p.action_value()),
          args: format!("{:?}", args),
          elems: elems(es).into_iter().enumerate().filter(|(i, _)| !out.contains(i)).map(|x| x.1).collect(),
        });
      }
    }
    let total = want.len();
    let got = n.get_rule(r.head());
    for p in got.prods() {
      let (key, value, es) = (format!("{:?}", p.action_key()), format!("{:?}", p.action_value()), elems(p.prod_elements()));
      let left_out = flags(&key);
      let same = |w: &Want| w.left_out == left_out && w.elems == es && key.contains(&w.key) && value.contains(&w.value) && value.contains(&w.args);
      match want.iter().position(same) {
        Some(i) => {
          want.swap_remove(i);
        }
        None => bad("derived", format!("{}: {} has a production {:?} {} {} that no choice of parts left out gives", what, r.head().show(), es, key, value)),
      }
    }
    if let Some(w) = want.first() {
      bad("derived", format!("{}: of {} productions of {}, {:?} {} leaving out {:?} with {} is missing", what, total, r.head().show(), w.elems, w.key, w.left_out, w.args));
    }
    if total > 1 {
      probe("production with parts to leave out");
    }
  }
}

/// Does some nonterminal derive nothing else than by its empty production?
fn only_empty<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>) -> bool {
  g.rules().any(|r| r.prods().all(|p| p.num_elements() == 0))
}

fn nonnull<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, what: &str) -> Option<NonNullGrammar<T, NT, AK, AV>>
where
  T: Show + Ord + Clone + Debug,
  NT: Show + Ord + Clone + Debug + 'static,
  AK: Show + Ord + Clone + Debug + 'static,
  AV: Show + Clone + Debug,
{
  for _ in 0..12 {
    match lib(|| transform_to_nonnull(g)) {
      Err(p) => interrupted(p, what),
      Ok(Ok(n)) => {
        check_nonnull(g, &n, what);
        probe("freed of nullability");
        return Some(n);
      }
      Ok(Err(e)) => {
        if empties(g).is_some() && !only_empty(g) {
          bad("verdict", format!("{} is refused: {}", what, e));
        }
        probe("not freed of nullability");
        return None;
      }
    }
  }
  None
}

fn wrap<T, NT, AK, AV>(g: &Grammar<T, NT, AK, AV>, what: &str) -> Option<StartGrammar<T, NT, AK, AV>>
where
  T: Clone,
  NT: Ord + Clone + Debug,
  AK: Ord + Clone,
  AV: Clone,
{
  for _ in 0..12 {
    match lib(|| wrap_grammar_with_start(g.clone())) {
      Err(p) => interrupted(p, what),
      Ok(Ok(n)) => return Some(n),
      Ok(Err(e)) => bad("verdict", format!("{} is refused: {:?}", what, e)),
    }
  }
  None
}

fn derive_task(ops: &[Op], cfgs: &[Cfg]) {
  let made: Vec<(G, Gr)> = cfgs.iter().filter_map(|c| Some((gram::made(c)?, of_cfg(c)))).collect();
  if made.is_empty() {
    return;
  }
  let mut results: Vec<(StartGrammar<Sym, Sym, Sym, Sym>, Gr)> = vec![];
  let mut derived: Vec<(usize, NonNullGrammar<Sym, Sym, Sym, Sym>)> = vec![];
  for o in ops {
    sched::begin_op(o.id);
    let i = o.idx(0, made.len());
    let (g, m) = &made[i];
    let what = format!("{} of grammar {}", o.code, i);
    if o.code != "wrap" && !small_enough(&cfgs[i]) {
      continue;
    }
    let check = |w: &StartGrammar<Sym, Sym, Sym, Sym>| {
      let (got, want) = (read(w, &what), wrapped(m));
      if got != want {
        bad("wrapped", format!("{}: the grammar {}", what, differ(&got, &want)));
      }
    };
    match o.code.as_str() {
      "nonnull" => {
        if let Some(n) = nonnull(g, &what) {
          if o.arg(1) % 2 == 0 {
            derived.push((i, n));
          }
        }
      }
      "wrap" => {
        if let Some(w) = wrap(g, &what) {
          check(&w);
          let (r, p) = (w.start_rule(), w.start_prod());
          if r.head().show() != "START" || r.prods().count() != 1 || p.action_key().show() != "START" || p.prod_elements().len() != 2 {
            bad("wrapped", format!("{}: start rule {:?}, start production {:?}", what, r, p));
          }
          probe("wrapped");
          results.push((w, wrapped(m)));
        }
      }
      "both" => {
        // the wrapped grammar freed of nullability
        if let Some(w) = wrap(g, &what) {
          check(&w);
          if nonnull(&w, &what).is_some() {
            probe("wrapped and freed of nullability");
          }
        }
      }
      "over" => {
        // the grammar freed of nullability wrapped
        if let Some(n) = nonnull(g, &what) {
          if let Some(w) = wrap(&n, &what) {
            let prods = |x: Vec<(String, Vec<El>)>| x;
            let a = prods(n.prods().map(|p| (p.head().show(), elems(p.prod_elements()))).collect());
            let b = prods(w.prods().filter(|p| p.head().show() != "START").map(|p| (p.head().show(), elems(p.prod_elements()))).collect());
            let keys = n.prods().map(|p| format!("{:?}", p.action_key())).collect::<Vec<_>>();
            let kept = w.prods().filter(|p| p.head().show() != "START").zip(&keys).all(|(p, k)| format!("{:?}", p.action_key()).contains(k.as_str()));
            if a != b || !kept || w.prods().count() != a.len() + 1 {
              bad("wrapped", format!("{}: {:?} became {:?}", what, a, b));
            }
          }
        }
      }
      _ => continue,
    }
    for (j, (g, m)) in made.iter().enumerate() {
      let got = read(g, &what);
      if got != *m {
        bad("changed", format!("after {}, grammar {} {}", what, j, differ(&got, m)));
      }
    }
  }
  for (w, m) in &results {
    let got = read(w, "wrapped grammar");
    if got != *m {
      bad("changed", format!("a grammar wrapped before {}", differ(&got, m)));
    }
  }
  for (i, n) in &derived {
    check_nonnull(&made[*i].0, n, "grammar freed of nullability before");
  }
  let _ = lib(|| drop((results, derived, made)));
}

struct Work(Vec<Vec<Op>>, Vec<Cfg>);
unsafe impl Sync for Work {}

pub fn run_build(p: &Plan) -> u64 {
  sched::begin_run(p, 400_000_000);
  let n = p.tasks().clamp(1, 4);
  let w = Work((0..n).map(|t| p.task_ops(t)).collect(), vec![]);
  sched::run_tasks(n, &|t| {
    let w = &w;
    build_task(&w.0[t])
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn run_derive(p: &Plan) -> u64 {
  sched::begin_run(p, 400_000_000);
  let n = p.tasks().min(50).clamp(1, 4);
  let cfgs = (0..p.get("grammars").clamp(0, 4)).filter_map(|g| gram::decode(p, g)).collect();
  let w = Work((0..n).map(|t| p.task_ops(t)).collect(), cfgs);
  sched::run_tasks(n, &|t| {
    let w = &w;
    derive_task(&w.0[t], &w.1)
  });
  sched::mark_nontrivial();
  sched::end_run()
}

/// One production becomes one for every choice of its nullable elements.
pub fn small_enough(c: &Cfg) -> bool {
  let v = c.nullable();
  let n: u64 = c.rules.iter().flatten().map(|p| 1u64 << p.elems.iter().filter(|e| matches!(e, E::N(m) if v[*m as usize])).count().min(20)).sum();
  n < 3000
}

pub fn faults(r: &mut Rng, p: &mut Plan, masks: &[u32]) {
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  if r.chance(5, 6) {
    p.set("faultmask", *r.pick(masks) as i64);
    p.set("faultden", *r.pick(&[3, 10, 30, 100, 300]));
    p.set("maxfaults", *r.pick(&[1, 2, 3, 6, 12]));
  }
}

pub fn gen_build(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("build", seed);
  let (cmp, clone, own) = (1 << CB_CMP, 1 << CB_CLONE, 1 << CB_ITER);
  faults(&mut r, &mut p, &[cmp, clone, own, own, cmp | clone | own, clone | own]);
  let tasks = *r.pick(&[1, 1, 1, 2]);
  p.set("fine", (tasks > 1 && r.chance(1, 4)) as i64);
  for t in 0..tasks {
    for _ in 0..r.range(1, 4) {
      session(&mut r, &mut p, t);
    }
  }
  p
}

fn session(r: &mut Rng, p: &mut Plan, t: u8) {
  let large = r.chance(1, 50) || std::env::var_os("SIM_LARGE").is_some();
  let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 5, 8]), max_prods: r.range(1, 4), max_len: r.range(1, 4), terms: r.range(1, 4) as u32, names: true };
  let c = if large { cfg::large(r).0 } else { gram::gen(r, &o) };
  let n = c.rules.len() as u64;
  // what is wrong with it, if anything
  let (mut unused, mut missing, mut bare, mut dangling) = (vec![], vec![], vec![], vec![]);
  let mut start = 0;
  if r.chance(1, 2) {
    for _ in 0..r.range(1, 3) {
      match r.below(5) {
        0 => missing.push(r.below(n)),
        1 => bare.push(r.below(n)),
        2 => dangling.push((r.below(n), n + r.below(3))),
        3 => unused.push(n + 3 + r.below(3)),
        _ => start = if r.chance(1, 4) { n + 7 } else { r.below(n) },
      }
    }
  }
  p.push(t, "build", vec![start as i64, r.below(8) as i64]);
  let mut order: Vec<u64> = (0..n).chain(unused.iter().copied()).collect();
  if r.chance(1, 2) {
    r.shuffle(&mut order);
  }
  let mood = *r.pick(&[0, 0, 1, 2, -1, -2, 5]);
  for h in order {
    if missing.contains(&h) {
      continue;
    }
    p.push(t, "rule", vec![h as i64, if r.chance(1, 3) { r.range(-3, 3) } else { mood }]);
    if h >= n {
      // used nowhere but by itself or another like it
      for a in 0..r.below(3) as i64 {
        p.push(t, "prod", vec![5000 + a, r.below(8) as i64, *r.pick(&[h, n + 3, n + 4, n + 5, 0]) as i64 * 8 + 2, 8]);
      }
      continue;
    }
    if bare.contains(&h) {
      continue;
    }
    for x in &c.rules[h as usize] {
      let mut a = vec![x.action as i64, r.below(8) as i64];
      for (i, e) in x.elems.iter().enumerate() {
        let rest = x.named[i] as i64 + 4 * r.below(2) as i64;
        a.push(match e {
          E::T(k) => *k as i64 * 8 + rest,
          E::N(k) => *k as i64 * 8 + 2 + rest,
        });
      }
      for (at, to) in &dangling {
        if *at == h && r.chance(1, 2) {
          a.push(*to as i64 * 8 + 2 + r.below(2) as i64);
        }
      }
      p.push(t, "prod", a);
    }
  }
}

pub fn gen_derive(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("derive", seed);
  let (cmp, clone) = (1 << CB_CMP, 1 << CB_CLONE);
  faults(&mut r, &mut p, &[cmp, clone, cmp | clone]);
  let ng = r.range(1, 3);
  p.set("grammars", ng);
  let large = r.chance(1, 50) || std::env::var_os("SIM_LARGE").is_some();
  for g in 0..ng {
    let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 4, 6]), max_prods: r.range(1, 4), max_len: r.range(1, 4), terms: r.range(1, 4) as u32, names: true };
    let mut c = if large && g == 0 { cfg::large(&mut r).0 } else { gram::gen(&mut r, &o) };
    for _ in 0..8 {
      // mostly ones for which there is something to do
      if small_enough(&c) && (!c.null_ambiguous() && c.nullable().iter().any(|n| *n) || r.chance(1, 8)) {
        break;
      }
      c = if r.chance(1, 3) { with_options(&mut r) } else { gram::gen(&mut r, &o) };
    }
    gram::encode(&mut p, g, &c);
  }
  let tasks = *r.pick(&[1, 1, 1, 2]);
  p.set("fine", (tasks > 1 && r.chance(1, 4)) as i64);
  for t in 0..tasks {
    for _ in 0..*r.pick(&[1, 2, 4, 7]) {
      let g = r.below(ng as u64) as i64;
      match r.weighted(&[5, 3, 2, 1]) {
        0 => p.push(t, "nonnull", vec![g, r.below(2) as i64]),
        1 => p.push(t, "wrap", vec![g]),
        2 => p.push(t, "both", vec![g]),
        _ => p.push(t, "over", vec![g]),
      }
    }
  }
  p
}

/// Productions with many parts that may be missing.
fn with_options(r: &mut Rng) -> Cfg {
  let n = r.range(1, 4) as usize;
  let mut action = 0;
  let mut next = |elems: Vec<E>, r: &mut Rng| {
    action += 1;
    let named = elems.iter().map(|_| r.chance(2, 3)).collect();
    cfg::P { action: action - 1, elems, named }
  };
  let mut rules = vec![vec![]];
  for i in 1..=n {
    let mut ps = vec![next(vec![E::T(i as u32)], r)];
    if r.chance(1, 3) && i < n {
      // empty by way of the others
      let k = r.range(1, 3);
      let es = (0..k).map(|_| E::N(r.range(i as i64 + 1, n as i64) as u32)).collect();
      ps.push(next(es, r));
    } else {
      ps.push(next(vec![], r));
    }
    rules.push(ps);
  }
  let k = *r.pick(&[2, 2, 3, 3, 4, 5, 6]);
  let k = if r.chance(1, 20) { *r.pick(&[8, 9, 10]) } else { k };
  let mut es: Vec<E> = (0..k).map(|i| if i < n { E::N(i as u32 + 1) } else { E::N(r.range(1, n as i64) as u32) }).collect();
  if n > k {
    es.extend((k..n).map(|i| E::N(i as u32 + 1)));
  }
  for _ in 0..r.below(3) {
    let at = r.below(es.len() as u64 + 1) as usize;
    es.insert(at, if r.chance(1, 2) { E::T(0) } else { E::N(0) });
  }
  if r.chance(1, 6) {
    // the parts that may be missing lie far apart, among many that may not
    let filler = E::N(rules.len() as u32);
    rules.push(vec![next(vec![E::T(8)], r)]);
    for _ in 0..r.range(1, 2) {
      let at = r.below(es.len() as u64 + 1) as usize;
      let gap = *r.pick(&[3, 7, 8, 15, 16, 31, 31, 32, 63, 63, 64, 127, 127, 128, 255, 256]);
      es.splice(at..at, (0..gap).map(|_| filler));
    }
  }
  let head = next(es, r);
  rules[0].push(head);
  if r.chance(1, 2) {
    let p = next(vec![E::T(9)], r);
    rules[0].push(p);
  }
  Cfg { rules }
}

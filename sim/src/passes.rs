//! Analyses of grammars in shared contexts: C11 - C14.
use crate::gram::{self, G, NT, SETUP};
use crate::types::{Baton, Sym};
use bongo::grammar::passes::firsts::Firsts;
use bongo::grammar::passes::follows::Follows;
use bongo::grammar::passes::nullable::Nullable;
use bongo::grammar::passes::{Pass, PassContext};
use bongo::grammar::{Prod, ProdKey};
use bongo::utils::{Name, TreeNode, TreeValue, Void};
use simcore::cfg::{self, Cfg, E};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib_raw, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_PASS};
use std::any::Any;
use std::marker::PhantomData;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

type Ctx<'a> = PassContext<'a, Sym, Sym, Sym, Sym>;
const NP: usize = 160;
const MAX_RUNS: u32 = 400;

/// Which analysis a type stands for. Most of the types are told apart by nothing
/// but being different: not by name, size or alignment.
trait Number: 'static {
  const N: usize;
  type Data: Data;
}

struct SimPass<K: Number> {
  data: K::Data,
  number: PhantomData<K>,
}

/// What a result holds: where and when it was made, nothing at all, or a lot more.
trait Data: 'static {
  fn new(ctx: u64, serial: u64) -> Self;
  /// Where and when it was made, if it says.
  fn made(&self) -> Option<(u64, u64)>;
}

struct Small(u64, u64);
impl Data for Small {
  fn new(ctx: u64, serial: u64) -> Self {
    Small(ctx, serial)
  }
  fn made(&self) -> Option<(u64, u64)> {
    Some((self.0, self.1))
  }
}

struct Nothing;
impl Data for Nothing {
  fn new(_: u64, _: u64) -> Self {
    Nothing
  }
  fn made(&self) -> Option<(u64, u64)> {
    None
  }
}

struct Large([u64; 600]);
impl Data for Large {
  fn new(ctx: u64, serial: u64) -> Self {
    Large(std::array::from_fn(|i| if i % 2 == 0 { ctx } else { serial }))
  }
  fn made(&self) -> Option<(u64, u64)> {
    let made = (self.0[0], self.0[1]);
    if (0..600).any(|i| self.0[i] != self.0[i % 2]) {
      return Some((!made.0, !made.1));
    }
    Some(made)
  }
}

struct Which<const I: usize>;
trait Pick {
  type Data: Data;
}
macro_rules! pick {
  ($($i:literal $d:ident)*) => { $(impl Pick for Which<$i> {
    type Data = $d;
  })* };
}
pick!(0 Small 1 Small 2 Small 3 Nothing 4 Small 5 Small 6 Small 7 Large);

#[derive(Debug)]
struct SimErr(u64);
impl std::fmt::Display for SimErr {
  fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    write!(f, "simulated failure {}", self.0)
  }
}
impl std::error::Error for SimErr {}

struct Thrown(#[allow(dead_code)] u64);

type Payload = Box<dyn Any + Send>;
fn addr(p: &Payload) -> usize {
  &**p as *const (dyn Any + Send) as *const () as usize
}

#[derive(Clone)]
enum St {
  Idle,
  Active,
  /// The value is kept if the plan says so: a context must not depend on it.
  Done { value: Option<Rc<dyn Any>>, serial: u64 },
}

#[derive(Debug, PartialEq)]
enum Out {
  Ok(u64),
  Err(u64),
  Panic(usize),
}

struct Frame {
  slot: usize,
  n: usize,
  entered: bool,
  out: Option<Out>,
}

struct Slot {
  id: u64,
  g: usize,
  grammar: *mut G,
  /// Not one of the run's shared grammars.
  owned: bool,
  ctx: *mut Ctx<'static>,
  state: Vec<St>,
  runs: Vec<u32>,
  builtin: [Option<Rc<dyn Any>>; 3],
}

#[derive(Default)]
struct World {
  scripts: Vec<Vec<(i64, usize)>>,
  fails: Vec<Vec<(i64, u32)>>,
  cfgs: Vec<Cfg>,
  slots: Vec<Slot>,
  stack: Vec<Frame>,
  serial: u64,
  runs: u32,
  /// Which results the requester keeps: all, none, some.
  hold: i64,
  share: bool,
  /// How many analyses there are.
  np: usize,
}

// Grammars several contexts analyse, by thread: grammars are not for sharing between threads.
static POOL: Baton<BTreeMap<(usize, usize), *mut G>> = Baton::new(BTreeMap::new());

static W: Baton<Vec<World>> = Baton::new(Vec::new());
fn w() -> &'static mut World {
  let t = sched::task();
  let n = W.get().len();
  &mut W.get()[if t < n { t } else { 0 }]
}

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

enum Fail {
  Err(SimErr),
  Panic(Payload),
}

fn text_of(p: &Payload) -> String {
  if p.is::<Thrown>() {
    "the analysis's own panic".into()
  } else {
    match sched::classify_ref(p) {
      Panic::Injected(_) => "an injected panic".into(),
      Panic::Other(m) => m,
    }
  }
}

/// Requests analysis N of the context, checking everything about the answer.
fn req<K: Number>(pm: &Ctx, slot: usize) -> Result<(), Fail> {
  let before = w().slots[slot].state[K::N].clone();
  w().stack.push(Frame { slot, n: K::N, entered: false, out: None });
  let depth = w().stack.len();
  let r = lib_raw(|| pm.get_pass::<SimPass<K>>());
  if w().stack.len() != depth {
    bad("harness", "request stack out of step".into());
  }
  let fr = w().stack.pop().unwrap();
  let id = w().slots[slot].id;
  match (before, r) {
    (St::Done { value, serial }, r) => {
      if fr.entered {
        bad("computed-twice", format!("analysis {} was computed again although its result was already known", K::N));
      }
      match r {
        Ok(Ok(rc)) => {
          let same = value.as_ref().is_none_or(|v| Rc::as_ptr(&rc) as *const () == Rc::as_ptr(v) as *const ());
          let made = rc.data.made().unwrap_or((id, serial));
          if !same || made != (id, serial) {
            bad("result", format!("analysis {}: a different result was returned than before (context {} serial {}, expected {} {})", K::N, made.0, made.1, id, serial));
          }
          if rc.data.made().is_none() {
            probe("known result without any data requested again");
          }
          probe("known result requested again");
          drop(rc);
          Ok(())
        }
        Ok(Err(e)) => bad("refused", format!("request for known analysis {} failed: {}", K::N, e)),
        Err(p) => bad("refused", format!("request for known analysis {} panicked: {}", K::N, text_of(&p))),
      }
    }
    (St::Active, r) => {
      if fr.entered {
        bad("recursion", format!("analysis {} was entered from within itself", K::N));
      }
      match r {
        Ok(Ok(_)) => bad("recursion", format!("analysis {}, requested from within its own computation, returned a result", K::N)),
        Ok(Err(e)) => bad("recursion", format!("analysis {}, requested from within its own computation, returned an error: {}", K::N, e)),
        Err(p) => {
          if p.is::<Thrown>() {
            bad("recursion", format!("analysis {}, requested from within its own computation, ended with another analysis's panic", K::N));
          }
          probe("cycle refused");
          Err(Fail::Panic(p))
        }
      }
    }
    (St::Idle, r) => {
      let got = match &r {
        Ok(Ok(rc)) => match (rc.data.made(), &fr.out) {
          (Some((_, serial)), _) => Out::Ok(serial),
          (None, Some(Out::Ok(serial))) => Out::Ok(*serial),
          (None, _) => Out::Ok(0),
        },
        Ok(Err(e)) => Out::Err(e.0),
        Err(p) => Out::Panic(addr(p)),
      };
      if !fr.entered {
        let what = match &r {
          Ok(Ok(_)) => "returned a result".to_string(),
          Ok(Err(e)) => format!("returned {}", e),
          Err(p) => format!("panicked: {}", text_of(p)),
        };
        bad("not-computed", format!("the request for analysis {}, which has no result and is not being computed, {} without computing it", K::N, what));
      }
      if fr.out.as_ref() != Some(&got) {
        let what = match &r {
          Err(p) => format!(" ({})", text_of(p)),
          _ => String::new(),
        };
        bad("outcome", format!("analysis {} ended with {:?} but its request with {:?}{}", K::N, fr.out, got, what));
      }
      match r {
        Ok(Ok(rc)) => {
          let Out::Ok(serial) = got else { bad("harness", "a result without a serial number".into()) };
          let ctx = rc.data.made().map_or(id, |m| m.0);
          if ctx != id {
            bad("result", format!("analysis {}: the result of context {} was returned in context {}", K::N, ctx, id));
          }
          let keep = match w().hold {
            0 => true,
            1 => false,
            _ => serial % 2 == 0,
          };
          w().slots[slot].state[K::N] = St::Done { value: if keep { Some(rc) } else { None }, serial };
          Ok(())
        }
        Ok(Err(e)) => Err(Fail::Err(e)),
        Err(p) => Err(Fail::Panic(p)),
      }
    }
  }
}

macro_rules! each {
  ($m:ident) => {
    $m!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
      40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79
      80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
      120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159)
  };
}
fn request(n: usize, pm: &Ctx, slot: usize) -> Result<(), Fail> {
  macro_rules! go {
    ($($k:literal)*) => { match n { $($k => {
      struct Id;
      impl Number for Id {
        const N: usize = $k;
        type Data = <Which<{ $k % 8 }> as Pick>::Data;
      }
      req::<Id>(pm, slot)
    })* _ => Ok(()) } };
  }
  each!(go)
}

impl<K: Number> Pass<Sym, Sym, Sym, Sym> for SimPass<K> {
  type Error = SimErr;
  fn run_pass(pm: &Ctx) -> Result<Self, SimErr> {
    unarmed(|| {
      let Some(fr) = w().stack.last_mut() else { bad("computed-twice", format!("analysis {} was computed although nobody asked", K::N)) };
      let slot = fr.slot;
      if fr.n != K::N || fr.entered {
        bad("computed-twice", format!("analysis {} was computed a second time, or for a request for analysis {}", K::N, fr.n));
      }
      fr.entered = true;
      let depth = w().stack.len();
      let s = &mut w().slots[slot];
      if !matches!(s.state[K::N], St::Idle) {
        let class = if matches!(s.state[K::N], St::Active) { "recursion" } else { "computed-twice" };
        bad(class, format!("analysis {} was computed {}", K::N, if class == "recursion" { "within itself" } else { "again although its result was known" }));
      }
      if pm.grammar() as *const G != s.grammar as *const G {
        bad("context", format!("analysis {} was given the grammar of another context", K::N));
      }
      s.state[K::N] = St::Active;
      s.runs[K::N] += 1;
      let r = catch_unwind(AssertUnwindSafe(|| body(K::N, pm, slot)));
      w().slots[slot].state[K::N] = St::Idle;
      let fr = &mut w().stack[depth - 1];
      match r {
        Ok(Ok(())) => {
          w().serial += 1;
          let serial = w().serial;
          fr.out = Some(Out::Ok(serial));
          Ok(SimPass { data: K::Data::new(w().slots[slot].id, serial), number: PhantomData })
        }
        Ok(Err(e)) => {
          fr.out = Some(Out::Err(e.0));
          Err(e)
        }
        Err(p) => {
          fr.out = Some(Out::Panic(addr(&p)));
          resume_unwind(p)
        }
      }
    })
  }
}

fn fail_now(kind: i64) -> Result<(), SimErr> {
  w().serial += 1;
  let id = w().serial;
  if kind % 2 == 0 {
    probe("analysis failed with an error");
    Err(SimErr(id))
  } else {
    probe("analysis panicked");
    resume_unwind(Box::new(Thrown(id)))
  }
}

fn maybe_fail() -> Result<(), SimErr> {
  if sched::fault_point(CB_PASS) {
    fail_now(0)?;
  }
  if sched::fault_point(CB_PASS) {
    fail_now(1)?;
  }
  Ok(())
}

/// What an analysis does: requests others by its script, perhaps fails.
fn body(n: usize, pm: &Ctx, slot: usize) -> Result<(), SimErr> {
  w().runs += 1;
  maybe_fail()?;
  if w().runs > MAX_RUNS {
    return Ok(());
  }
  let runs = w().slots[slot].runs[n];
  let script = w().scripts[n].clone();
  for (kind, target) in script {
    let t = target % w().np;
    match kind {
      0 => pass_on(request(t, pm, slot))?,
      1 => match request(t, pm, slot) {
        Err(Fail::Panic(p)) => resume_unwind(p),
        Err(Fail::Err(_)) => probe("failure of a dependency tolerated"),
        Ok(()) => {}
      },
      2 => match request(t, pm, slot) {
        Err(Fail::Panic(_)) => probe("panic of a dependency caught"),
        Err(Fail::Err(_)) => probe("failure of a dependency tolerated"),
        Ok(()) => {}
      },
      3 => {
        pass_on(request(t, pm, slot))?;
        pass_on(request(t, pm, slot))?;
      }
      4 => {
        if let Err(p) = builtin(target % 3, pm, slot) {
          if target % 2 == 0 {
            resume_unwind(p);
          }
        }
      }
      5 => {
        let other = (slot + 1) % w().slots.len();
        let pm2: &Ctx<'static> = unsafe { &*w().slots[other].ctx };
        probe("request in another context from within an analysis");
        let _ = request(t, pm2, other);
      }
      _ => {
        if request(t, pm, slot).is_err() {
          probe("failed dependency asked for again");
          let _ = request(t, pm, slot);
        }
      }
    }
    maybe_fail()?;
  }
  for (kind, times) in w().fails[n].clone() {
    if runs <= times {
      fail_now(kind)?;
    }
  }
  Ok(())
}

fn pass_on(r: Result<(), Fail>) -> Result<(), SimErr> {
  match r {
    Ok(()) => Ok(()),
    Err(Fail::Err(e)) => Err(e),
    Err(Fail::Panic(p)) => resume_unwind(p),
  }
}

/// Requests a built-in analysis and checks what it says. Err: interrupted.
fn builtin(which: usize, pm: &Ctx, slot: usize) -> Result<(), Payload> {
  enum R {
    Nul(Rc<Nullable<Sym, Sym>>),
    Fst(Rc<Firsts<Sym, Sym>>),
    Fol(Rc<Follows<Sym, Sym>>),
    Err(String),
  }
  let g = w().cfgs[w().slots[slot].g].clone();
  let r = lib_raw(|| match which {
    0 => pm.get_pass::<Nullable<Sym, Sym>>().map_or_else(|e| R::Err(format!("{:?}", e)), R::Nul),
    1 => pm.get_pass::<Firsts<Sym, Sym>>().map_or_else(|e| R::Err(format!("{:?}", e)), R::Fst),
    _ => pm.get_pass::<Follows<Sym, Sym>>().map_or_else(|e| R::Err(format!("{:?}", e)), R::Fol),
  });
  let name = ["nullable", "first-set", "follow-set"][which];
  let r = match r {
    Ok(r) => r,
    Err(p) => {
      return match sched::classify_ref(&p) {
        Panic::Injected(_) => {
          probe("built-in analysis interrupted");
          Err(p)
        }
        Panic::Other(m) => bad("unexpected-panic", format!("the {} analysis of\n{}panicked: {}", name, crate::parse::show_grammar(&g), m)),
      }
    }
  };
  let same = |rc: Rc<dyn Any>| {
    let s = &mut w().slots[slot];
    match &s.builtin[which] {
      Some(old) => {
        if Rc::as_ptr(old) as *const () != Rc::as_ptr(&rc) as *const () {
          bad("result", format!("the {} analysis returned a different result than before", name));
        }
      }
      None if w().hold == 0 => s.builtin[which] = Some(rc),
      None => {}
    }
  };
  let amb = g.null_ambiguous();
  match r {
    R::Err(e) => {
      if !amb {
        bad("analysis", format!("the {} analysis failed with {} for the grammar\n{}", name, e, crate::parse::show_grammar(&g)));
      }
      probe("ambiguity reported");
    }
    R::Nul(n) => {
      ok_unless_ambiguous(amb, name, &g);
      same(n.clone());
      check_nullable(&n, &g, pm, name);
      probe("nullable result checked");
    }
    R::Fst(f) => {
      ok_unless_ambiguous(amb, name, &g);
      same(f.clone());
      let want = g.firsts();
      for (i, set) in want.iter().enumerate() {
        let got: BTreeSet<u32> = f.get(&Sym(NT + i as u32)).map_or_else(BTreeSet::new, |s| s.iter().map(|x| x.0).collect());
        if got != *set {
          bad("analysis", format!("first set of N{} is {:?}, not {:?}, in\n{}", i, got, set, crate::parse::show_grammar(&g)));
        }
      }
      if f.get(&Sym(NT + 500)).is_some_and(|s| !s.is_empty()) {
        bad("analysis", "an unknown nonterminal has a first set".into());
      }
      probe("first sets checked");
    }
    R::Fol(f) => {
      ok_unless_ambiguous(amb, name, &g);
      same(f);
      probe("follow sets requested");
    }
  }
  Ok(())
}

fn ok_unless_ambiguous(amb: bool, name: &str, g: &Cfg) {
  if amb {
    bad("analysis", format!("the {} analysis succeeded although a nonterminal can vanish in more than one way:\n{}", name, crate::parse::show_grammar(g)));
  }
}

fn check_nullable(n: &Nullable<Sym, Sym>, g: &Cfg, pm: &Ctx, name: &str) {
  let want = g.nullable();
  let show = || crate::parse::show_grammar(g);
  for (i, v) in want.iter().enumerate() {
    if n.is_nullable(&Sym(NT + i as u32)) != *v {
      bad("analysis", format!("{}: N{} is reported {}nullable in\n{}", name, i, if *v { "not " } else { "" }, show()));
    }
  }
  if n.is_nullable(&Sym(NT + 500)) {
    bad("analysis", "an unknown nonterminal is reported nullable".into());
  }
  let set: BTreeSet<u32> = n.get_nullable_set().iter().map(|s| s.0 - NT).collect();
  if set != (0..want.len() as u32).filter(|i| want[*i as usize]).collect() {
    bad("analysis", format!("the nullable set is {:?} in\n{}", set, show()));
  }
  let prods: Vec<Prod<Sym, Sym, Sym, Sym>> = pm.grammar().prods().collect();
  for p in &prods {
    let h = (p.head().0 - NT) as usize;
    let a = p.action_key().0 - gram::AK;
    let i = g.rules[h].iter().position(|x| x.action == a).unwrap();
    let v = g.nullable_prods(h).contains(&i);
    if n.is_prod_nullable(p) != v {
      bad("analysis", format!("production act{} of N{} is reported {}nullable in\n{}", a, h, if v { "not " } else { "" }, show()));
    }
  }
  for i in 0..want.len() {
    let got = n.get_nullable_info().get_nullable_action(&Sym(NT + i as u32));
    let exp = want[i].then(|| expected_action(i, g, &prods));
    match (got, exp) {
      (None, None) => {}
      (Some(a), Some(b)) if *a == b => {}
      (a, b) => {
        let t = format!("{:?}, expected {:?}", a, b);
        bad("analysis", format!("the production that makes N{} vanish is reported as {} in\n{}", i, t, show()));
      }
    }
  }
}

fn expected_action(nt: usize, g: &Cfg, prods: &[Prod<Sym, Sym, Sym, Sym>]) -> TreeNode<ProdKey<Sym, Sym>, Void> {
  let i = g.nullable_prods(nt)[0];
  let p = &g.rules[nt][i];
  let lp = prods.iter().find(|x| x.head().0 == NT + nt as u32 && x.action_key().0 == gram::AK + p.action).unwrap();
  let mut params = BTreeMap::new();
  for (k, e) in p.elems.iter().enumerate() {
    if let (E::N(m), true) = (e, p.named[k]) {
      params.insert(Name::new(gram::name_of(p, k).as_str()), TreeValue::Node(Box::new(expected_action(*m as usize, g, prods))));
    }
  }
  TreeNode::new(lp.prod_key(), params)
}

// ---- operations ----

fn make_grammar(g: usize) -> G {
  loop {
    let c = &w().cfgs[g];
    match sched::lib(|| gram::make(c, false)) {
      Ok(Ok(x)) => return x,
      Ok(Err(e)) => bad("build", format!("grammar was not accepted: {:?}", e)),
      Err(Panic::Injected(_)) => {}
      Err(Panic::Other(m)) => bad("unexpected-panic", format!("building a grammar panicked: {}", m)),
    }
  }
}

fn new_ctx(g: &G) -> Ctx<'static> {
  let g: &'static G = unsafe { &*(g as *const G) };
  sched::lib(|| PassContext::new(g)).unwrap_or_else(|p| bad("unexpected-panic", format!("creating a context panicked: {:?}", p)))
}

fn clear(s: &mut Slot) {
  s.state = (0..w().np).map(|_| St::Idle).collect();
  s.runs = vec![0; w().np];
  s.builtin = [None, None, None];
}

/// A grammar object, and whether it is the context's own.
fn grammar_for(g: usize) -> (*mut G, bool) {
  let key = (sched::task(), g);
  if w().share {
    if let Some(p) = POOL.get().get(&key) {
      probe("contexts with the same grammar");
      return (*p, false);
    }
  }
  let grammar = make_grammar(g);
  let p = sched::lib(|| Box::into_raw(Box::new(grammar))).unwrap_or_else(|_| bad("harness", "boxing".into()));
  if w().share && !POOL.get().contains_key(&key) {
    POOL.get().insert(key, p);
    return (p, false);
  }
  (p, true)
}

fn add_slot(g: usize) {
  let (gp, owned) = grammar_for(g);
  let ctx = new_ctx(unsafe { &*gp });
  let cp = sched::lib(|| Box::into_raw(Box::new(ctx))).unwrap_or_else(|_| bad("harness", "boxing".into()));
  w().serial += 1;
  let mut s = Slot { id: w().serial, g, grammar: gp, owned, ctx: cp, state: vec![], runs: vec![], builtin: [None, None, None] };
  clear(&mut s);
  w().slots.push(s);
}

/// Replaces the context (and perhaps its grammar) by a new one at the same address.
fn replace_ctx(i: usize, g: usize, regrammar: bool) {
  let s = &mut w().slots[i];
  clear(s);
  unsafe {
    let _ = sched::lib(|| std::ptr::drop_in_place(s.ctx));
    if regrammar && !s.owned {
      (s.grammar, s.owned) = grammar_for(g);
      s.g = g;
    } else if regrammar {
      let _ = sched::lib(|| std::ptr::drop_in_place(s.grammar));
      let new = make_grammar(g);
      std::ptr::write(s.grammar, new);
      s.g = g;
    }
    std::ptr::write(s.ctx, new_ctx(&*s.grammar));
  }
  w().serial += 1;
  s.id = w().serial;
  probe("new context at the address of an earlier one");
}

fn task(ops: &[Op]) {
  for o in ops {
    sched::begin_op(o.id);
    w().runs = 0;
    let ns = w().slots.len();
    match o.code.as_str() {
      "get" => {
        let (slot, n) = (o.idx(0, ns), o.idx(1, w().np));
        let pm: &Ctx<'static> = unsafe { &*w().slots[slot].ctx };
        let _ = request(n, pm, slot);
      }
      "builtin" => {
        let (slot, which) = (o.idx(0, ns), o.idx(1, 3));
        let pm: &Ctx<'static> = unsafe { &*w().slots[slot].ctx };
        for k in 0..=o.idx(2, 3) {
          match builtin(which, pm, slot) {
            Ok(()) => break,
            Err(_) if k < o.idx(2, 3) => probe("interrupted analysis asked for again"),
            Err(_) => {}
          }
        }
      }
      "ctx" => {
        let (slot, g) = (o.idx(0, ns), o.idx(1, w().cfgs.len()));
        replace_ctx(slot, g, o.arg(2) % 2 == 1);
      }
      "again" => {
        let (slot, n) = (o.idx(0, ns), o.idx(1, w().np));
        for _ in 0..o.arg(2).clamp(0, 300) {
          w().runs = 0;
          let pm: &Ctx<'static> = unsafe { &*w().slots[slot].ctx };
          let _ = request(n, pm, slot);
        }
        probe("an analysis asked for many times");
      }
      "sweep" => {
        let slot = o.idx(0, ns);
        for n in 0..w().np {
          w().runs = 0;
          let pm: &Ctx<'static> = unsafe { &*w().slots[slot].ctx };
          let _ = request(n, pm, slot);
        }
        for which in 0..3 {
          let pm: &Ctx<'static> = unsafe { &*w().slots[slot].ctx };
          let _ = builtin(which, pm, slot);
        }
      }
      _ => {}
    }
  }
}

struct Ops<'a>(&'a Vec<Vec<Op>>);
unsafe impl Sync for Ops<'_> {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, if p.get("large") == 1 { 1_000_000_000 } else { 40_000_000 });
  let n = p.ops.iter().filter(|o| o.task < SETUP).map(|o| o.task as usize + 1).max().unwrap_or(0).min(sched::MAXT);
  let np = if p.get("np") > 0 { (p.get("np") as usize).min(NP) } else { 32 };
  let mut scripts: Vec<Vec<(i64, usize)>> = vec![vec![]; np];
  let mut fails: Vec<Vec<(i64, u32)>> = vec![vec![]; np];
  for o in &p.ops {
    match o.code.as_str() {
      "dep" => scripts[o.idx(0, np)].push((o.arg(1).rem_euclid(7), o.arg(2).unsigned_abs() as usize % 1000)),
      "fail" => fails[o.idx(0, np)].push((o.arg(1), o.arg(2).clamp(0, 1000) as u32)),
      _ => {}
    }
  }
  let mut cfgs: Vec<Cfg> = (0..p.get("grammars")).filter_map(|g| gram::decode(p, g)).collect();
  if cfgs.is_empty() {
    cfgs.push(cfg::classic(6));
  }
  let slots = p.get("contexts").clamp(1, 3) as usize;
  W.get().clear();
  for _ in 0..n.max(1) {
    W.get().push(World { scripts: scripts.clone(), fails: fails.clone(), cfgs: cfgs.clone(), hold: p.get("hold"), share: p.get("share") == 1, np, ..World::default() });
  }
  let ops: Vec<Vec<Op>> = (0..n).map(|t| p.task_ops(t)).collect();
  let shared = Ops(&ops);
  sched::run_tasks(n, &|t| {
    sched::begin_op(0);
    for i in 0..slots {
      add_slot(i % w().cfgs.len());
    }
    task(&(&shared).0[t]);
    // contexts are not for sharing between threads: each ends in its own
    let slots = std::mem::take(&mut w().slots);
    for mut s in slots {
      clear(&mut s);
      unsafe {
        drop(Box::from_raw(s.ctx));
        if s.owned {
          drop(Box::from_raw(s.grammar));
        }
      }
    }
  });
  for p in std::mem::take(POOL.get()).into_values() {
    unsafe { drop(Box::from_raw(p)) };
  }
  W.get().clear();
  // Single-threaded histories: what varies is the faults and the placement.
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen(prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("passes", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  let nctx = if prop == "C11" { r.range(1, 3) } else { *r.pick(&[1, 1, 1, 2]) };
  p.set("contexts", nctx);
  p.set("hold", r.below(3) as i64);
  p.set("share", r.chance(1, 3) as i64);
  let o = cfg::GenOpts { max_nts: 3, max_prods: 3, max_len: 3, terms: 2, names: true };
  let ng = r.range(1, 2);
  p.set("grammars", ng);
  for g in 0..ng {
    let c = gram::gen(&mut r, &o);
    gram::encode(&mut p, g, &c);
  }
  if prop != "C13" || r.chance(1, 2) {
    p.set("faultmask", 1 << CB_PASS);
    p.set("faultden", *r.pick(&[3, 6, 12, 30, 100]));
    p.set("maxfaults", *r.pick(&[0, 1, 2, 3, 6, 20]));
  }
  // the dependency graph
  let many = r.chance(1, 25);
  let np = if many { *r.pick(&[64, 65, 100, 128, 129, 160]) } else { *r.pick(&[1, 2, 3, 4, 6, 10, 20, 32]) };
  let all = np.max(32);
  p.set("np", all);
  let cyc = match prop {
    "C13" => *r.pick(&[1, 2, 3]),
    _ => *r.pick(&[0, 0, 1]),
  };
  let chain = r.chance(1, 3);
  for n in 0..np {
    let k = if chain { 1 } else { r.weighted(&[3, 4, 3, 2]) as i64 };
    for _ in 0..k {
      let kind = r.weighted(&[8, 3, 3, 2, 1, if nctx > 1 { 2 } else { 0 }, 2]) as i64;
      let target = if r.chance(cyc, 8) {
        r.below(np as u64) as i64
      } else if chain {
        n + 1
      } else {
        n + 1 + r.below(4) as i64
      };
      p.push(SETUP, "dep", vec![n, kind, target.min(all - 1)]);
    }
    if r.chance(1, 6) {
      p.push(SETUP, "fail", vec![n, r.below(2) as i64, *r.pick(&[1, 1, 2, 3, 1000])]);
    }
  }
  if r.chance(1, if prop == "C12" { 12 } else { 40 }) {
    let n = r.below(np as u64) as i64;
    let k = *r.pick(&[10, 40, 70, 130, 260, 300]);
    p.push(SETUP, "fail", vec![n, r.below(2) as i64, *r.pick(&[10, 40, 64, 100, 128, 200, 256, 299, 1000])]);
    p.push(0, "again", vec![r.below(nctx as u64) as i64, n, k]);
  }
  let tasks = *r.pick(&[1, 1, 1, 1, 2]);
  p.set("fine", (tasks > 1 && r.chance(1, 3)) as i64);
  let len = *r.pick(&[1, 2, 4, 8, 14]);
  for t in 0..tasks {
    for _ in 0..len {
      let slot = r.below(nctx as u64) as i64;
      match r.weighted(&[14, 2, if prop == "C11" { 2 } else { 1 }, 1]) {
        0 => {
          let n = if r.chance(1, 2) { 0 } else { r.below(np as u64) as i64 };
          p.push(t, "get", vec![slot, n]);
        }
        1 => p.push(t, "builtin", vec![slot, r.below(3) as i64, 0]),
        2 => p.push(t, "ctx", vec![slot, r.below(2) as i64, r.below(2) as i64]),
        _ => p.push(t, "sweep", vec![slot]),
      }
    }
    for s in 0..nctx {
      p.push(t, "sweep", vec![s]);
    }
  }
  p
}

pub fn gen_builtin(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("passes", seed);
  p.set("arena", r.below(6) as i64);
  p.set("arenaseed", r.below(1 << 30) as i64);
  let nctx = *r.pick(&[1, 1, 2]);
  p.set("contexts", nctx);
  p.set("hold", r.below(3) as i64);
  p.set("share", r.chance(1, 2) as i64);
  let ng = r.range(1, 3);
  p.set("grammars", ng);
  let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 4, 6]), max_prods: r.range(1, 4), max_len: r.range(1, 4), terms: r.range(1, 4) as u32, names: r.chance(1, 2) };
  let large = std::env::var_os("SIM_LARGE").is_some() || r.chance(1, 40);
  p.set("large", large as i64);
  for g in 0..ng {
    if large && g == 0 {
      gram::encode(&mut p, g, &cfg::large(&mut r).0);
      continue;
    }
    let mut c = gram::gen(&mut r, &o);
    // half the time insist on one that is analysed to the end
    for _ in 0..6 {
      if !c.null_ambiguous() || r.chance(1, 4) {
        break;
      }
      c = gram::gen(&mut r, &o);
    }
    gram::encode(&mut p, g, &c);
  }
  if r.chance(5, 6) {
    p.set("faultmask", *r.pick(&[1 << CB_CMP, 1 << CB_CLONE, (1 << CB_CMP) | (1 << CB_CLONE), (1 << CB_CMP) | (1 << CB_CLONE) | (1 << CB_PASS)]));
    p.set("faultden", *r.pick(&[3, 10, 30, 100, 300, 1000]));
    p.set("maxfaults", *r.pick(&[1, 2, 3, 6, 12]));
  }
  // dependents: analyses that ask for the built-in ones
  for n in 0..3 {
    p.push(SETUP, "dep", vec![n, 4, r.below(12) as i64]);
    if r.chance(1, 2) {
      p.push(SETUP, "dep", vec![n, 4, r.below(12) as i64]);
    }
    if n < 2 && r.chance(1, 2) {
      p.push(SETUP, "dep", vec![n, r.below(4) as i64, n + 1]);
    }
  }
  let tasks = if large { 1 } else { *r.pick(&[1, 1, 1, 2, 3]) };
  p.set("fine", (tasks > 1 && r.chance(1, 6)) as i64);
  let len = *r.pick(&[1, 2, 3, 5, 8]);
  for t in 0..tasks {
    for _ in 0..len {
      let slot = r.below(nctx as u64) as i64;
      match r.weighted(&[10, 3, 1]) {
        0 => p.push(t, "builtin", vec![slot, r.below(3) as i64, r.below(3) as i64]),
        1 => p.push(t, "get", vec![slot, r.below(3) as i64]),
        _ => p.push(t, "ctx", vec![slot, r.below(3) as i64, r.below(2) as i64]),
      }
    }
    for s in 0..nctx {
      for which in 0..3 {
        p.push(t, "builtin", vec![s, which, 2]);
      }
    }
  }
  p
}

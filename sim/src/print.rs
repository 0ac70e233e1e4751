//! Printed forms (C23): of grammars and their parts, onto destinations that
//! fill up or fail, with printing code of the caller's that fails.
use crate::gram::{self, AK, NT};
use crate::making::faults;
use crate::types::{text, Sym};
use bongo::grammar::transform::nonnull::transform_to_nonnull;
use bongo::grammar::{build, Elem, Grammar, NonTerminal, ProdElement, Terminal};
use bongo::start_grammar::wrap_grammar_with_start;
use bongo::state::ProdState;
use bongo::utils::fmt::{list_fmt, set_fmt, struct_fmt, tuple_fmt};
use bongo::utils::{Name, ToDoc};
use simcore::cfg::{self, Cfg, E};
use simcore::plan::{Op, Plan};
use simcore::rng::Rng;
use simcore::sched::{self, lib, probe, unarmed, violate, Panic, CB_CLONE, CB_CMP, CB_DEBUG, CB_ITER};
use std::fmt::{Debug, Write};

fn bad(class: &str, msg: String) -> ! {
  violate(class, &msg)
}

/// A destination with room for so many bytes, whose code may panic.
struct Sink {
  room: usize,
  failed: bool,
  /// Failing once, it takes what comes next.
  recovers: bool,
  buf: String,
}

impl Write for Sink {
  fn write_str(&mut self, s: &str) -> std::fmt::Result {
    sched::callback(CB_ITER);
    if self.failed && !self.recovers {
      return Err(std::fmt::Error);
    }
    let left = self.room.saturating_sub(self.buf.len());
    if s.len() <= left || self.failed {
      unarmed(|| self.buf.push_str(s));
      return Ok(());
    }
    // what fits is written
    let mut n = left;
    while !s.is_char_boundary(n) {
      n -= 1;
    }
    unarmed(|| self.buf.push_str(&s[..n]));
    self.failed = true;
    Err(std::fmt::Error)
  }
}

/// How something shows: pretty-printed, and for debugging.
type Leaf = (String, String);
struct El {
  name: Option<String>,
  nt: bool,
  leaf: Leaf,
}
struct Model {
  start: Leaf,
  rules: Vec<(Leaf, Vec<Vec<El>>)>,
}

impl El {
  fn pretty(&self) -> String {
    let n = self.name.as_ref().map_or(String::new(), |n| format!("{}:", n));
    if self.nt {
      format!("{}<{}>", n, self.leaf.0)
    } else {
      format!("{}{}", n, self.leaf.0)
    }
  }
  fn debug(&self) -> String {
    let n = self.name.as_ref().map_or(String::new(), |n| format!("{}:", n));
    if self.nt {
      format!("{}<{}>", n, self.leaf.1)
    } else {
      format!("{}{}", n, self.leaf.1)
    }
  }
}

fn join(v: impl Iterator<Item = String>, by: &str) -> String {
  v.collect::<Vec<_>>().join(by)
}

impl Model {
  fn of(c: &Cfg, leaf: &dyn Fn(bool, u32) -> Leaf) -> Model {
    let rules = c.rules.iter().enumerate().map(|(h, ps)| {
      let ps = ps.iter().map(|p| {
        let es = p.elems.iter().enumerate().map(|(i, e)| {
          let (nt, leaf) = match e {
            E::T(t) => (false, leaf(false, *t)),
            E::N(n) => (true, leaf(true, *n)),
          };
          El { name: p.named[i].then(|| gram::name_of(p, i)), nt, leaf }
        });
        es.collect()
      });
      (leaf(true, h as u32), ps.collect())
    });
    Model { start: leaf(true, 0), rules: rules.collect() }
  }

  fn wrapped(mut self) -> Model {
    for (h, ps) in &mut self.rules {
      h.1 = format!("NTerm({})", h.1);
      for e in ps.iter_mut().flatten() {
        e.leaf.1 = if e.nt { format!("NTerm({})", e.leaf.1) } else { format!("Term({})", e.leaf.1) };
      }
    }
    let start = El { name: Some("start".into()), nt: true, leaf: (self.start.0, format!("NTerm({})", self.start.1)) };
    let eos = El { name: None, nt: false, leaf: ("<EOS>".into(), "EndOfStream".into()) };
    self.start = ("<START>".into(), "Start".into());
    self.rules.insert(0, (self.start.clone(), vec![vec![start, eos]]));
    self
  }

  fn pretty(&self) -> String {
    let rules = self.rules.iter().map(|(h, ps)| {
      let ps = ps.iter().map(|es| if es.is_empty() { "ε".to_string() } else { join(es.iter().map(|e| e.pretty()), " ") });
      format!("{} => {}; ", h.0, join(ps, " | "))
    });
    format!("Start = {}, Rules {{ {}}}, ", self.start.0, join(rules, ""))
  }

  fn prod(head: &Leaf, es: &[El]) -> String {
    format!("Prod {{ head: {}, elems: [{}] }}", head.1, join(es.iter().map(|e| e.debug()), ", "))
  }

  fn rule(&self, i: usize) -> String {
    let (h, ps) = &self.rules[i];
    format!("Rule {{ head: {}, prods: [{}] }}", h.1, join(ps.iter().map(|es| Self::prod(h, es)), ", "))
  }

  fn debug(&self) -> String {
    let of = |nt: bool| join(self.rules.iter().flat_map(|r| &r.1).flatten().filter(|e| e.nt == nt).map(|e| e.leaf.1.clone()), ", ");
    format!("Grammar {{ Terms: [{}], NonTerms: [{}], Rules: [{}] }}", of(false), of(true), join((0..self.rules.len()).map(|i| self.rule(i)), ", "))
  }
}

/// Line breaks and indentation are the printer's own affair.
fn flowed(s: &str) -> String {
  let mut out = String::new();
  for w in s.split_whitespace() {
    if !out.is_empty() && !(out.ends_with(':') && !out.ends_with("::")) {
      out.push(' ');
    }
    out += w;
  }
  out
}

fn bare(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect()
}

#[derive(Clone, Copy)]
struct How {
  room: usize,
  retries: i64,
  recovers: bool,
}

fn how(op: &Op) -> How {
  let room = op.arg(3).unsigned_abs() as usize % (1 << 31);
  How { room: room / 2, retries: op.arg(4), recovers: room % 2 == 1 }
}

/// Has the library write onto a destination, again and again until it gets through;
/// `norm` takes away what is not told.
fn written(what: &str, how: How, want: &str, norm: &dyn Fn(&str) -> String, f: &dyn Fn(&mut Sink) -> std::fmt::Result) {
  let want_n = norm(want);
  let mut room = how.room;
  for attempt in 0..=how.retries.clamp(0, 20) + 1 {
    if attempt > how.retries.clamp(0, 20) {
      room = usize::MAX / 2;
    }
    let mut sink = Sink { room, failed: false, recovers: how.recovers, buf: String::new() };
    let r = lib(|| f(&mut sink));
    let got = norm(&sink.buf);
    let show = || format!("{} with room for {}: {:?} instead of {:?}", what, room, sink.buf, want);
    match r {
      Ok(Ok(())) => {
        if sink.failed {
          bad("swallowed", format!("{}: the destination failed, which is not reported", show()));
        }
        if got != want_n {
          bad("printed", show());
        }
        probe("printed");
        return;
      }
      Ok(Err(_)) => {
        if !sink.failed {
          bad("invented", format!("{}: an error is reported, though the destination did not fail", show()));
        }
        if !want_n.starts_with(got.trim_end()) {
          bad("printed", format!("{}: not the beginning", show()));
        }
        probe("destination failed");
      }
      Err(Panic::Injected(_)) => {
        if !want_n.starts_with(got.trim_end()) {
          bad("printed", format!("{}: interrupted, not the beginning", show()));
        }
        probe("interrupted");
      }
      Err(Panic::Other(m)) => bad("unexpected-panic", format!("{} with room for {} panicked: {}", what, room, m)),
    }
    // another place to fail
    room = room.wrapping_mul(7).wrapping_add(3) % (want.len() + 20);
  }
}

fn exact(s: &str) -> String {
  s.to_string()
}

fn debug(what: &str, how: How, alt: bool, want: &str, x: &dyn Debug) {
  if alt {
    written(what, how, want, &bare, &|s| write!(s, "{:#?}", x))
  } else {
    written(what, how, want, &exact, &|s| write!(s, "{:?}", x))
  }
}

fn pretty(what: &str, how: How, width: usize, want: &str, x: &impl ToDoc) {
  written(what, how, want, &flowed, &|s| {
    if width % 2 == 0 {
      let arena = pretty::Arena::<()>::new();
      x.to_doc(&arena).into_doc().render_fmt(width, s)
    } else {
      x.to_doc::<pretty::RcAllocator>(&pretty::RcAllocator).into_doc().render_fmt(width, s)
    }
  })
}

fn grammar<T, NT, AK, AV>(op: &Op, g: &Grammar<T, NT, AK, AV>, m: &Model)
where
  T: ToDoc + Debug,
  NT: ToDoc + Debug + Ord + Clone,
  AK: Ord + Clone,
{
  let how = how(op);
  let alt = op.arg(5) % 2 == 1;
  let what = format!("{} ({:?})", op.code, op.a);
  let ri = op.idx(6, m.rules.len());
  match op.code.as_str() {
    "string" => {
      let want = m.pretty();
      for _ in 0..=how.retries.clamp(0, 20) {
        match lib(|| g.to_pretty()) {
          Ok(s) => {
            if flowed(&s) != flowed(&want) {
              bad("printed", format!("{}: {:?} instead of {:?}", what, s, want));
            }
            probe("printed");
            break;
          }
          Err(Panic::Injected(_)) => probe("interrupted"),
          Err(Panic::Other(e)) => bad("unexpected-panic", format!("{} panicked: {}", what, e)),
        }
      }
    }
    "pretty" => pretty(&what, how, op.arg(7).unsigned_abs() as usize % 200, &m.pretty(), g),
    "element" => {
      let Some(es) = m.rules[ri].1.first() else { return };
      let Some(p) = g.rules().nth(ri).and_then(|r| r.prods().next()) else { bad("printed", format!("{}: no rule {}", what, ri)) };
      for (x, e) in p.prod_elements().iter().zip(es) {
        if alt {
          pretty(&what, how, 80, &e.pretty(), x);
        } else {
          debug(&what, how, false, &e.debug(), x);
        }
      }
    }
    "debug" => debug(&what, how, alt, &m.debug(), g),
    "rule" => {
      let Some(r) = g.rules().nth(ri) else { bad("printed", format!("{}: no rule {}", what, ri)) };
      debug(&what, how, alt, &m.rule(ri), &r)
    }
    "prod" => {
      let (h, ps) = &m.rules[ri];
      let pi = op.idx(7, ps.len());
      let Some(p) = g.rules().nth(ri).and_then(|r| r.prods().nth(pi)) else { bad("printed", format!("{}: no production {} of {}", what, pi, ri)) };
      debug(&what, how, alt, &Model::prod(h, &ps[pi]), &p);
      // with a place in it
      let mut s = ProdState::from_start(p);
      for i in 0..=ps[pi].len() {
        if op.idx(8, ps[pi].len() + 1) == i {
          let want = format!("ProdState {{ prod: {}, index: {} }}", Model::prod(h, &ps[pi]), i);
          debug(&what, how, alt, &want, &s);
        }
        s = match s.next_elem_state() {
          Some((_, n)) => n,
          None => break,
        };
      }
    }
    _ => {}
  }
}

/// The helpers for printing lists, given texts of the caller's.
fn helpers(op: &Op) {
  let how = how(op);
  let alt = op.arg(5) % 2 == 1;
  let xs: Vec<Sym> = op.a.iter().skip(6).map(|x| Sym(x.unsigned_abs() as u32 % 5000)).collect();
  let t = |x: &Sym| text(x.0);
  let what = format!("{} ({:?})", op.code, op.a);
  // formatted twice, as a value may be
  for _ in 0..1 + op.arg(1).unsigned_abs() % 2 {
    match op.idx(2, 4) {
      0 => debug(&what, how, alt, &format!("[{}]", join(xs.iter().map(t), ", ")), &list_fmt(Again(xs.iter()))),
      1 => debug(&what, how, alt, &format!("{{{}}}", join(xs.iter().map(t), ", ")), &set_fmt(Again(xs.iter()))),
      2 => {
        let want = if xs.is_empty() { "Tup".to_string() } else { format!("Tup({})", join(xs.iter().map(t), ", ")) };
        debug(&what, how, alt, &want, &tuple_fmt("Tup", Again(xs.iter())))
      }
      _ => {
        let want = if xs.is_empty() { "Str".to_string() } else { format!("Str {{ {} }}", join(xs.iter().map(|x| format!("f{}: {}", x.0, t(x))), ", ")) };
        let fields: Vec<(String, &Sym)> = xs.iter().map(|x| (format!("f{}", x.0), x)).collect();
        let shown = struct_fmt("Str", Again(fields.iter().map(|(a, b)| (a.as_str(), *b))));
        debug(&what, how, alt, &want, &shown)
      }
    }
  }
}

#[derive(Clone)]
struct Again<I>(I);
impl<I: Iterator> Iterator for Again<I> {
  type Item = I::Item;
  fn next(&mut self) -> Option<I::Item> {
    sched::callback(CB_ITER);
    self.0.next()
  }
}

fn term_name(nt: bool, x: u32) -> String {
  match (nt, x % 4) {
    (true, 0) => format!("x{}", x),
    (true, 1) => format!("a-long-nonterminal-{}", x),
    (true, 2) => format!("é{}", x),
    (true, _) => format!("X{}'", x),
    (false, 0) => format!("T{}", x),
    (false, 1) => format!("+{}", x),
    (false, 2) => format!("\"{}\\", x),
    (false, _) => format!("{}|", x),
  }
}

fn named(c: &Cfg) -> Option<Grammar<Terminal, NonTerminal, Name, ()>> {
  let nt = |n: usize| NonTerminal::new(&term_name(true, n as u32));
  let make = || build(nt(0), |gb| {
    for (h, ps) in c.rules.iter().enumerate() {
      gb.add_rule(nt(h), |rb| {
        for p in ps {
          let es: Vec<ProdElement<Terminal, NonTerminal>> = p
            .elems
            .iter()
            .enumerate()
            .map(|(i, e)| {
              let e = match e {
                E::T(t) => Elem::Term(Terminal::new(&term_name(false, *t))),
                E::N(n) => Elem::NonTerm(nt(*n as usize)),
              };
              ProdElement::new(p.named[i].then(|| Name::new(&gram::name_of(p, i))), e)
            })
            .collect();
          rb.add_prod_with_elems(Name::new(&format!("a{}", p.action)), (), es);
        }
      });
    }
  });
  gram::retried(make)
}

fn named_model(c: &Cfg) -> Model {
  let mut m = Model::of(c, &|nt, x| {
    let t = term_name(nt, x);
    (t.clone(), if nt { format!("NonTerminal({})", t) } else { format!("Terminal({})", t) })
  });
  m.rules.sort_by(|a, b| a.0 .0.cmp(&b.0 .0));
  m
}

fn sym_model(c: &Cfg) -> Model {
  Model::of(c, &|nt, x| {
    let x = if nt { NT + x } else { x };
    (format!("s{}", x), text(x))
  })
}

fn task(ops: &[Op], cfgs: &[Cfg]) {
  for o in ops {
    sched::begin_op(o.id);
    if o.code == "helper" {
      helpers(o);
      continue;
    }
    if cfgs.is_empty() {
      return;
    }
    let c = &cfgs[o.idx(0, cfgs.len())];
    match o.idx(1, 5) {
      0 => {
        let Some(g) = gram::made(c) else { continue };
        grammar(o, &g, &sym_model(c))
      }
      1 => {
        let Some(g) = named(c) else { continue };
        grammar(o, &g, &named_model(c))
      }
      2 => match gram::made(c).map(wrap_grammar_with_start) {
        Some(Ok(g)) => {
          let m = sym_model(c).wrapped();
          grammar(o, &g, &m);
          // the keys and values of its productions
          if o.code == "element" {
            for p in g.prods().skip(o.idx(7, 20)).take(3) {
              let how = How { room: how(o).room % 40, ..how(o) };
              let (k, v) = match p.action_key().as_base() {
                None => ("<START>".to_string(), "<START>".to_string()),
                Some(k) => (format!("s{}", k.0), format!("s{}", k.0 - AK + gram::AV)),
              };
              pretty("action key", how, 80, &k, p.action_key());
              pretty("action value", how, 80, &v, p.action_value());
            }
          }
        }
        Some(Err(_)) => bad("printed", "wrapping fails".into()),
        None => continue,
      },
      3 => match wrap_grammar_with_start(match named(c) {
        Some(g) => g,
        None => continue,
      }) {
        Ok(g) => grammar(o, &g, &named_model(c).wrapped()),
        Err(_) => bad("printed", "wrapping fails".into()),
      },
      _ => {
        // freed of nullability, where that is possible: as its productions are
        let Some(g) = gram::made(c) else { continue };
        if !crate::making::small_enough(c) {
          continue;
        }
        let Ok(n) = transform_to_nonnull(&g) else { continue };
        let leaf = |x: &Sym| (format!("s{}", x.0), text(x.0));
        let rules = n.rules().map(|r| {
          let ps = r.prods().map(|p| {
            let es = p.prod_elements().iter().map(|e| {
              let (nt, x) = match e.elem() {
                Elem::Term(t) => (false, t),
                Elem::NonTerm(t) => (true, t),
              };
              El { name: e.id().map(|n| n.str().to_string()), nt, leaf: leaf(x) }
            });
            es.collect()
          });
          (leaf(r.head()), ps.collect())
        });
        let m = Model { start: leaf(n.start_nt()), rules: rules.collect() };
        grammar(o, &n, &m);
        if o.code == "element" {
          for p in n.prods().skip(o.idx(7, 20)).take(3) {
            let how = How { room: how(o).room % 40, ..how(o) };
            // the original's
            let text = format!("{:?}", p.action_key());
            let Some(k) = c.rules.iter().flatten().map(|x| x.action).find(|a| gram_key(&text, *a)) else { continue };
            pretty("action key", how, 80, &format!("s{}", AK + k), p.action_key());
            pretty("action value", how, 80, &format!("s{}", gram::AV + k), p.action_value());
          }
        }
      }
    }
  }
}

/// Whether a printed key has this action's key in it.
fn gram_key(printed: &str, action: u32) -> bool {
  printed.contains(&format!("{},", text(AK + action)))
}

struct Work(Vec<Vec<Op>>, Vec<Cfg>);
unsafe impl Sync for Work {}

pub fn run(p: &Plan) -> u64 {
  sched::begin_run(p, 400_000_000);
  let n = p.tasks().min(50).clamp(1, 4);
  let cfgs: Vec<Cfg> = (0..p.get("grammars").clamp(0, 4)).filter_map(|g| gram::decode(p, g)).collect();
  let w = Work((0..n).map(|t| p.task_ops(t)).collect(), cfgs);
  sched::run_tasks(n, &|t| {
    let w = &w;
    task(&w.0[t], &w.1)
  });
  sched::mark_nontrivial();
  sched::end_run()
}

pub fn gen(_prop: &str, seed: u64) -> Plan {
  let mut r = Rng::new(seed);
  let mut p = Plan::new("print", seed);
  let (cmp, clone, debug, own) = (1 << CB_CMP, 1 << CB_CLONE, 1 << CB_DEBUG, 1 << CB_ITER);
  faults(&mut r, &mut p, &[debug, debug, own, debug | own, cmp | clone | debug | own]);
  let ng = r.range(1, 3);
  p.set("grammars", ng);
  let large = r.chance(1, 60) || std::env::var_os("SIM_LARGE").is_some();
  for g in 0..ng {
    let o = cfg::GenOpts { max_nts: *r.pick(&[1, 2, 3, 5, 8]), max_prods: r.range(1, 4), max_len: r.range(1, 5), terms: r.range(1, 4) as u32, names: true };
    let c = if large && g == 0 { cfg::large(&mut r).0 } else { gram::gen(&mut r, &o) };
    gram::encode(&mut p, g, &c);
  }
  let tasks = *r.pick(&[1, 1, 1, 2]);
  p.set("fine", (tasks > 1 && r.chance(1, 4)) as i64);
  for t in 0..tasks {
    for _ in 0..*r.pick(&[1, 2, 4, 8]) {
      let room = (*r.pick(&[1 << 20, 0, 1, 5, 20, 60, 200, 1000]) + r.below(40) as i64) * 2 + r.chance(1, 3) as i64;
      let rest = [r.below(ng as u64) as i64, r.below(5) as i64, r.below(4) as i64, room, *r.pick(&[0, 1, 3, 8]), r.below(2) as i64];
      let mut a = rest.to_vec();
      let code = *r.pick(&["string", "pretty", "pretty", "debug", "debug", "rule", "prod", "element", "helper"]);
      if code == "helper" {
        let n = *r.pick(&[0, 1, 2, 3, 5, 20]);
        a.extend((0..n).map(|_| r.below(3000) as i64));
      } else {
        a.extend([r.below(20) as i64, *r.pick(&[0, 1, 10, 40, 80, 80, 199]), r.below(20) as i64]);
      }
      p.push(t, code, a);
    }
  }
  p
}

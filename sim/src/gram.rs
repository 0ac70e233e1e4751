//! Grammars in plans, and building them with the library.
use crate::types::Sym;
use bongo::grammar::{build, Elem, Grammar, GrammarErrors};
use bongo::start_grammar::{StartGrammar, StartNonTerminal};
use simcore::cfg::{self, Cfg, E, P};
use simcore::plan::Plan;
use simcore::rng::Rng;
use simcore::sched;

pub type G = Grammar<Sym, Sym, Sym, Sym>;
pub type SG = StartGrammar<Sym, Sym, Sym, Sym>;
#[allow(dead_code)]
pub type SErr = GrammarErrors<StartNonTerminal<Sym>>;

pub const NT: u32 = 1000;
pub const AK: u32 = 2000;
pub const AV: u32 = 3000;
pub const SETUP: u8 = 100;

/// One operation per production: grammar, head, action, elements.
pub fn encode(p: &mut Plan, g: i64, c: &Cfg) {
  for (h, ps) in c.rules.iter().enumerate() {
    for x in ps {
      let mut a = vec![g, h as i64, x.action as i64];
      for (i, e) in x.elems.iter().enumerate() {
        let named = x.named[i] as i64;
        a.push(match e {
          E::T(t) => *t as i64 * 4 + named,
          E::N(n) => *n as i64 * 4 + 2 + named,
        });
      }
      p.push(SETUP, "prod", a);
    }
  }
}

/// Grammar g of the plan, if what is there is one.
pub fn decode(p: &Plan, g: i64) -> Option<Cfg> {
  decode_any(p, g).filter(Cfg::well_formed)
}

/// Whatever rules the plan has for grammar g.
pub fn decode_any(p: &Plan, g: i64) -> Option<Cfg> {
  let mut rules: Vec<Vec<P>> = vec![];
  for o in &p.ops {
    if o.code != "prod" || o.arg(0) != g {
      continue;
    }
    let h = o.arg(1).unsigned_abs() as usize;
    if h > 400 {
      return None;
    }
    if rules.len() <= h {
      rules.resize(h + 1, vec![]);
    }
    let es = o.a.get(3..).unwrap_or(&[]);
    let elems = es
      .iter()
      .map(|e| {
        let x = (e.unsigned_abs() / 4) as u32;
        if e.unsigned_abs() & 2 == 2 {
          E::N(x)
        } else {
          E::T(x)
        }
      })
      .collect();
    let named = es.iter().map(|e| e.unsigned_abs() & 1 == 1).collect();
    rules[h].push(P { action: o.arg(2).unsigned_abs() as u32, elems, named });
  }
  let c = Cfg { rules };
  Some(c)
}

/// Names are unique in a production; some are used in others, too.
pub fn name_of(prod: &P, i: usize) -> String {
  match (prod.action % 6, i) {
    (1 | 4, _) => format!("n{}", i),
    (5, 0) => "start".into(),
    (3, 0) => String::new(),
    (3, _) => format!("\u{e9}\"{}", i),
    _ => format!("n{}_{}", prod.action, i),
  }
}

/// Builds the grammar with the library's builder; `late` puts rules in reverse order.
pub fn make(c: &Cfg, late: bool) -> Result<G, GrammarErrors<Sym>> {
  build(Sym(NT), |gb| {
    let order: Vec<usize> = if late { (0..c.rules.len()).rev().collect() } else { (0..c.rules.len()).collect() };
    for h in order {
      gb.add_rule(Sym(NT + h as u32), |rb| {
        for p in &c.rules[h] {
          rb.add_prod(Sym(AK + p.action), Sym(AV + p.action), |pb| {
            for (i, e) in p.elems.iter().enumerate() {
              match (e, p.named[i]) {
                (E::T(t), false) => pb.add_term(Sym(*t)),
                (E::T(t), true) => pb.add_named_term(name_of(p, i).as_str(), Sym(*t)),
                (E::N(n), false) => pb.add_nonterm(Sym(NT + n)),
                (E::N(n), true) => pb.add_named_nonterm(name_of(p, i).as_str(), Sym(NT + n)),
              };
            }
          });
        }
      });
    }
  })
}

/// As an operation of the library, again as often as it is interrupted.
pub fn made(c: &Cfg) -> Option<G> {
  retried(|| make(c, false))
}

pub fn retried<X, E: std::fmt::Debug>(f: impl Fn() -> Result<X, E>) -> Option<X> {
  for _ in 0..40 {
    match sched::lib(&f) {
      Ok(Ok(g)) => return Some(g),
      Ok(Err(e)) => sched::violate("contents", &format!("a grammar is refused: {:?}", e)),
      Err(sched::Panic::Injected(_)) => sched::probe("interrupted"),
      Err(sched::Panic::Other(m)) => sched::violate("unexpected-panic", &format!("making a grammar panicked: {}", m)),
    }
  }
  None
}

#[allow(dead_code)]
pub fn elem_of(e: &Elem<Sym, Sym>) -> E {
  match e {
    Elem::Term(t) => E::T(t.0),
    Elem::NonTerm(n) => E::N(n.0 - NT),
  }
}

/// A random grammar, sometimes a classic one; action numbers sometimes repeat
/// across rules.
pub fn gen(r: &mut Rng, o: &cfg::GenOpts) -> Cfg {
  let mut c = if r.chance(1, 4) { cfg::classic(r.below(14) as usize) } else { cfg::random_cfg(r, o) };
  if r.chance(1, 4) {
    for ps in &mut c.rules {
      for (i, p) in ps.iter_mut().enumerate() {
        p.action = i as u32;
      }
    }
  }
  if o.names {
    for ps in &mut c.rules {
      for p in ps {
        for n in &mut p.named {
          *n = r.chance(1, 2);
        }
      }
    }
  }
  c
}

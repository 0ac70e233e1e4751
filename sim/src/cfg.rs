//! Reference model of context-free grammars: small, direct, from definitions.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum E {
  T(u32),
  N(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct P {
  pub action: u32,
  pub elems: Vec<E>,
  /// Whether element i carries a name.
  pub named: Vec<bool>,
}

/// Nonterminals are 0..rules.len(), 0 is the start.
#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
  pub rules: Vec<Vec<P>>,
}

impl Cfg {
  /// Would the builder's documented conditions accept it?
  pub fn well_formed(&self) -> bool {
    let n = self.rules.len();
    if n == 0 || self.rules.iter().any(|r| r.is_empty()) {
      return false;
    }
    let mut actions = BTreeSet::new();
    for (nt, r) in self.rules.iter().enumerate() {
      for p in r {
        if !actions.insert((nt, p.action)) {
          return false;
        }
        for e in &p.elems {
          if let E::N(x) = e {
            if *x as usize >= n {
              return false;
            }
          }
        }
      }
    }
    let mut seen = BTreeSet::from([0u32]);
    let mut todo = vec![0u32];
    while let Some(x) = todo.pop() {
      for p in &self.rules[x as usize] {
        for e in &p.elems {
          if let E::N(y) = e {
            if seen.insert(*y) {
              todo.push(*y);
            }
          }
        }
      }
    }
    seen.len() == n
  }

  pub fn terms(&self) -> BTreeSet<u32> {
    self.rules.iter().flatten().flat_map(|p| &p.elems).filter_map(|e| if let E::T(t) = e { Some(*t) } else { None }).collect()
  }

  pub fn nullable(&self) -> Vec<bool> {
    let mut v = vec![false; self.rules.len()];
    loop {
      let mut ch = false;
      for (n, r) in self.rules.iter().enumerate() {
        if !v[n] && r.iter().any(|p| nullable_elems(&v, &p.elems)) {
          v[n] = true;
          ch = true;
        }
      }
      if !ch {
        return v;
      }
    }
  }

  /// Productions of nt that derive the empty sequence.
  pub fn nullable_prods(&self, nt: usize) -> Vec<usize> {
    let v = self.nullable();
    (0..self.rules[nt].len()).filter(|i| nullable_elems(&v, &self.rules[nt][*i].elems)).collect()
  }

  pub fn null_ambiguous(&self) -> bool {
    (0..self.rules.len()).any(|n| self.nullable_prods(n).len() > 1)
  }

  pub fn firsts(&self) -> Vec<BTreeSet<u32>> {
    // A terminal begins something derived only if what precedes it can vanish;
    // what follows must be derivable at all for it to count in a sentence, but
    // first sets are about sentential forms, so it need not be.
    let v = self.nullable();
    let mut f = vec![BTreeSet::new(); self.rules.len()];
    loop {
      let mut ch = false;
      for (n, r) in self.rules.iter().enumerate() {
        for p in r {
          for e in &p.elems {
            match e {
              E::T(t) => {
                ch |= f[n].insert(*t);
                break;
              }
              E::N(m) => {
                let add: Vec<u32> = f[*m as usize].iter().copied().collect();
                for t in add {
                  ch |= f[n].insert(t);
                }
                if !v[*m as usize] {
                  break;
                }
              }
            }
          }
        }
      }
      if !ch {
        return f;
      }
    }
  }

  /// Which nonterminals derive some terminal string.
  pub fn productive(&self) -> Vec<bool> {
    let mut v = vec![false; self.rules.len()];
    loop {
      let mut ch = false;
      for (n, r) in self.rules.iter().enumerate() {
        if !v[n] && r.iter().any(|p| p.elems.iter().all(|e| matches!(e, E::T(_)) || matches!(e, E::N(m) if v[*m as usize]))) {
          v[n] = true;
          ch = true;
        }
      }
      if !ch {
        return v;
      }
    }
  }

  /// Closure of dotted productions: (nt, prod, dot).
  pub fn closure(&self, start: &BTreeSet<(u32, u32, u32)>) -> BTreeSet<(u32, u32, u32)> {
    let mut s = start.clone();
    let mut todo: Vec<_> = s.iter().copied().collect();
    while let Some((n, p, d)) = todo.pop() {
      if let Some(E::N(m)) = self.rules[n as usize][p as usize].elems.get(d as usize) {
        for i in 0..self.rules[*m as usize].len() {
          let it = (*m, i as u32, 0);
          if s.insert(it) {
            todo.push(it);
          }
        }
      }
    }
    s
  }
}

fn nullable_elems(v: &[bool], es: &[E]) -> bool {
  es.iter().all(|e| matches!(e, E::N(m) if v[*m as usize]))
}

// ---- recognition and the truth about a token string ----

pub type Tok = (u32, u32); // kind, value

/// Spans derivable: for each nonterminal and start, the set of ends.
pub struct Chart {
  pub n: usize,
  words: usize,
  der: Vec<Vec<u64>>, // [nt][i*words..]
}

impl Chart {
  pub fn new(g: &Cfg, toks: &[u32]) -> Chart {
    let n = toks.len();
    let words = n / 64 + 1;
    let mut der = vec![vec![0u64; (n + 1) * words]; g.rules.len()];
    // what starts at i depends on what starts at i or later
    for i in (0..=n).rev() {
      let mut back = false;
      loop {
        let mut ch = false;
        back = !back;
        for nt in 0..g.rules.len() {
          let nt = if back { g.rules.len() - 1 - nt } else { nt };
          for p in &g.rules[nt] {
            let at = ends(&der, words, n, toks, &p.elems, i);
            let d = &mut der[nt][i * words..(i + 1) * words];
            for (x, y) in d.iter_mut().zip(at) {
              ch |= y & !*x != 0;
              *x |= y;
            }
          }
        }
        if !ch {
          break;
        }
      }
    }
    Chart { n, words, der }
  }
  pub fn has(&self, nt: u32, i: usize, j: usize) -> bool {
    self.der[nt as usize][i * self.words + j / 64] >> (j % 64) & 1 == 1
  }
  pub fn accepts(&self) -> bool {
    self.has(0, 0, self.n)
  }
}

/// Where the elements can end when they start at i.
fn ends(der: &[Vec<u64>], words: usize, n: usize, toks: &[u32], elems: &[E], i: usize) -> Vec<u64> {
  let mut at = vec![0u64; words];
  at[i / 64] |= 1 << (i % 64);
  for e in elems {
    let mut nx = vec![0u64; words];
    for (w, x) in at.iter().enumerate() {
      let mut x = *x;
      while x != 0 {
        let k = w * 64 + x.trailing_zeros() as usize;
        x &= x - 1;
        match e {
          E::T(t) => {
            if k < n && toks[k] == *t {
              nx[(k + 1) / 64] |= 1 << ((k + 1) % 64);
            }
          }
          E::N(m) => {
            for (a, b) in nx.iter_mut().zip(&der[*m as usize][k * words..(k + 1) * words]) {
              *a |= b;
            }
          }
        }
      }
    }
    at = nx;
    if at.iter().all(|x| *x == 0) {
      break;
    }
  }
  at
}

/// A measure of what an Earley parser that keeps all derivations does: for each
/// position, the square of the number of partly read productions ending there
/// that are predicted from the left. At most about `cap` is told apart.
pub fn cost(g: &Cfg, toks: &[u32], cap: u64) -> u64 {
  let c = Chart::new(g, toks);
  let mut ops = 0u64;
  let n = c.n;
  let mut items = vec![0u64; n + 1];
  let mut pred = vec![vec![false; g.rules.len()]; n + 1];
  pred[0][0] = true;
  for i in 0..=n {
    let mut todo: Vec<usize> = (0..g.rules.len()).filter(|m| pred[i][*m]).collect();
    while let Some(nt) = todo.pop() {
      for p in &g.rules[nt] {
        let mut at = vec![0u64; n + 1];
        at[i] = 1;
        items[i] += 1;
        for e in &p.elems {
          let mut nx = vec![0u64; n + 1];
          for k in i..=n {
            if at[k] == 0 {
              continue;
            }
            match e {
              E::T(t) => {
                if k < n && toks[k] == *t {
                  nx[k + 1] = nx[k + 1].saturating_add(at[k]);
                }
              }
              E::N(m) => {
                if !pred[k][*m as usize] {
                  pred[k][*m as usize] = true;
                  if k == i {
                    todo.push(*m as usize);
                  }
                }
                ops += (n - k) as u64 + 1;
                if ops > 10_000_000 {
                  return u64::MAX;
                }
                for j in k..=n {
                  if c.has(*m, k, j) {
                    nx[j] = nx[j].saturating_add(at[k]);
                  }
                }
              }
            }
          }
          at = nx;
          for k in i..=n {
            items[k] = items[k].saturating_add(at[k]);
            if items[k].saturating_mul(items[k]) > cap {
              return u64::MAX;
            }
          }
        }
      }
    }
  }
  items.iter().fold(0u64, |a, x| a.saturating_add(x.saturating_mul(*x)))
}

/// How many ways there are to read prefixes of productions as parts of the
/// sequence: a measure of how much any parser keeping all derivations must do.
pub fn work(g: &Cfg, toks: &[u32]) -> u64 {
  let c = Chart::new(g, toks);
  let n = c.n;
  let mut total = 0u64;
  for ps in &g.rules {
    for p in ps {
      for i in 0..=n {
        let mut at = vec![0u64; n + 1];
        at[i] = 1;
        for e in &p.elems {
          let mut nx = vec![0u64; n + 1];
          for k in i..=n {
            if at[k] == 0 {
              continue;
            }
            match e {
              E::T(t) => {
                if k < n && toks[k] == *t {
                  nx[k + 1] += at[k];
                }
              }
              E::N(m) => {
                for j in k..=n {
                  if c.has(*m, k, j) {
                    nx[j] = nx[j].saturating_add(at[k]);
                  }
                }
              }
            }
          }
          at = nx;
          total = at.iter().fold(total, |a, b| a.saturating_add(*b));
        }
      }
    }
  }
  total
}

/// What an alternative says.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Label {
  Leaf(u32, u32),
  Branch(u32),
}

/// A forest: each node a list of alternatives; used for both truth and result.
#[derive(Clone, Debug, Default)]
pub struct Forest {
  pub nodes: Vec<Vec<(Label, Vec<usize>)>>,
  pub root: usize,
}

/// The forest of all derivations, one node per (symbol, i, j); None if rejected
/// or larger than `cap` alternatives.
pub fn truth(g: &Cfg, toks: &[Tok], cap: usize) -> Option<Forest> {
  let kinds: Vec<u32> = toks.iter().map(|t| t.0).collect();
  let c = Chart::new(g, &kinds);
  if !c.accepts() {
    return None;
  }
  let mut f = Forest::default();
  let mut ids: BTreeMap<(E, usize, usize), usize> = BTreeMap::new();
  let mut todo = vec![];
  let mut node = |k: (E, usize, usize), f: &mut Forest, todo: &mut Vec<(E, usize, usize)>| {
    *ids.entry(k).or_insert_with(|| {
      f.nodes.push(vec![]);
      todo.push(k);
      f.nodes.len() - 1
    })
  };
  f.root = node((E::N(0), 0, c.n), &mut f, &mut todo);
  let mut total = 0;
  while let Some(k) = todo.pop() {
    let (e, i, j) = k;
    let me = node(k, &mut f, &mut todo);
    match e {
      E::T(_) => f.nodes[me].push((Label::Leaf(toks[i].0, toks[i].1), vec![])),
      E::N(nt) => {
        for p in &g.rules[nt as usize] {
          let mut acc = vec![];
          // rest[x]: where the elements from x on can start to end at j
          let mut rest = vec![vec![false; j + 1 - i]; p.elems.len() + 1];
          rest[p.elems.len()][j - i] = true;
          for (x, e) in p.elems.iter().enumerate().rev() {
            for k in i..=j {
              rest[x][k - i] = match e {
                E::T(t) => k < j && kinds[k] == *t && rest[x + 1][k + 1 - i],
                E::N(m) => (k..=j).any(|l| rest[x + 1][l - i] && c.has(*m, k, l)),
              };
            }
          }
          if rest[0][0] {
            splits(&c, &rest, i, &p.elems, i, j, &mut vec![], &mut acc, cap);
          }
          for sp in acc {
            total += 1;
            if total > cap {
              return None;
            }
            let ch: Vec<usize> = sp.iter().map(|s| node(*s, &mut f, &mut todo)).collect();
            f.nodes[me].push((Label::Branch(p.action), ch));
          }
        }
      }
    }
  }
  Some(f)
}

#[allow(clippy::too_many_arguments)]
fn splits(c: &Chart, rest: &[Vec<bool>], from: usize, es: &[E], i: usize, j: usize, cur: &mut Vec<(E, usize, usize)>, acc: &mut Vec<Vec<(E, usize, usize)>>, cap: usize) {
  if acc.len() > cap {
    return;
  }
  let Some((e, more)) = es.split_first() else {
    acc.push(cur.clone());
    return;
  };
  let (lo, hi) = match e {
    E::T(_) => (i + 1, i + 1),
    E::N(_) => (i, j),
  };
  for k in lo..=hi {
    let ok = rest[cur.len() + 1][k - from] && if let E::N(m) = e { c.has(*m, i, k) } else { true };
    if ok {
      cur.push((*e, i, k));
      splits(c, rest, from, more, k, j, cur, acc, cap);
      cur.pop();
    }
  }
}

// ---- random grammars and sentences ----

pub struct GenOpts {
  pub max_nts: i64,
  pub max_prods: i64,
  pub max_len: i64,
  pub terms: u32,
  pub names: bool,
}

pub fn random_cfg(r: &mut Rng, o: &GenOpts) -> Cfg {
  loop {
    let n = r.range(1, o.max_nts) as usize;
    let eps = *r.pick(&[0u64, 1, 2, 4]);
    let ntp = *r.pick(&[2u64, 4, 5, 6]);
    let mut action = 0;
    let mut rules: Vec<Vec<P>> = vec![];
    for nt in 0..n {
      let k = r.range(1, o.max_prods);
      let mut ps: Vec<P> = vec![];
      for _ in 0..k {
        let len = if r.chance(eps, 10) { 0 } else { r.weighted(&[0, 5, 5, 3, 1][..=(o.max_len as usize).min(4)]) };
        let elems: Vec<E> = (0..len)
          .map(|_| {
            if r.chance(ntp, 10) {
              // lean towards self and neighbours so everything is reachable
              let m = if r.chance(1, 4) { nt } else if r.chance(1, 2) { (nt + 1) % n } else { r.below(n as u64) as usize };
              E::N(m as u32)
            } else {
              E::T(r.below(o.terms as u64) as u32)
            }
          })
          .collect();
        if ps.iter().any(|p| p.elems == elems) && !r.chance(1, 6) {
          continue;
        }
        let named = elems.iter().map(|_| o.names && r.chance(1, 2)).collect();
        ps.push(P { action, elems, named });
        action += 1;
      }
      rules.push(ps);
    }
    let g = Cfg { rules };
    if g.well_formed() {
      return g;
    }
  }
}

/// Classic shapes, chosen by index.
pub fn classic(k: usize) -> Cfg {
  use E::*;
  let mk = |rules: &[&[&[E]]]| {
    let mut a = 0;
    Cfg {
      rules: rules
        .iter()
        .map(|r| {
          r.iter()
            .map(|p| {
              a += 1;
              P { action: a - 1, elems: p.to_vec(), named: vec![false; p.len()] }
            })
            .collect()
        })
        .collect(),
    }
  };
  match k % 14 {
    0 => mk(&[&[&[N(0), T(1), N(0)], &[T(0)]]]),                     // E -> E + E | n
    1 => mk(&[&[&[N(0), N(0)], &[T(0)]]]),                           // S -> S S | a
    2 => mk(&[&[&[N(0), N(0)], &[T(0)], &[]]]),                      // S -> S S | a | eps
    3 => mk(&[&[&[N(0), T(0)], &[]]]),                               // left recursion
    4 => mk(&[&[&[T(0), N(0)], &[]]]),                               // right recursion
    5 => mk(&[&[&[N(1)], &[T(0)]], &[&[N(0)], &[T(1)]]]),            // cycle A <-> B
    6 => mk(&[&[&[N(0)], &[T(0)]]]),                                 // S -> S | a
    7 => mk(&[&[&[N(1), N(1)]], &[&[T(0)], &[]]]),                   // S -> A A, A -> a | eps
    8 => mk(&[&[&[N(1), N(2)], &[N(2), N(1)]], &[&[T(0)], &[]], &[&[T(0)], &[T(1), N(0)]]]),
    9 => mk(&[&[&[N(0), N(0), N(0)], &[T(0)]]]),
    10 => mk(&[&[&[T(0), N(0), T(0)], &[T(0)], &[]]]),               // palindromes
    11 => mk(&[&[&[N(1)]], &[&[N(1), T(1), N(2)], &[N(2)]], &[&[N(2), T(2), N(3)], &[N(3)]], &[&[T(0)], &[T(3), N(1), T(4)]]]),
    12 => mk(&[&[&[N(1), N(0)], &[]], &[&[T(0)], &[N(0), T(1)]]]),
    _ => mk(&[&[&[N(1), T(0), N(1), T(0)], &[N(1)]], &[&[N(0), N(0)], &[], &[T(1)]]]),
  }
}

/// A random sentence of g of length at most `max`, or None.
pub fn sentence(r: &mut Rng, g: &Cfg, max: usize) -> Option<Vec<u32>> {
  let prod = g.productive();
  if !prod[0] {
    return None;
  }
  // shortest yields, to be able to finish
  let n = g.rules.len();
  let mut short: Vec<usize> = vec![usize::MAX / 4; n];
  for _ in 0..=n * 2 {
    for nt in 0..n {
      for p in &g.rules[nt] {
        let l: usize = p.elems.iter().map(|e| if let E::N(m) = e { short[*m as usize] } else { 1 }).fold(0, |a: usize, b| a.saturating_add(b).min(usize::MAX / 4));
        short[nt] = short[nt].min(l);
      }
    }
  }
  if short[0] > max {
    return None;
  }
  'retry: for _ in 0..8 {
    let mut form: Vec<E> = vec![E::N(0)];
    for step in 0..200 {
      let Some(pos) = form.iter().position(|e| matches!(e, E::N(_))) else {
        let out: Vec<u32> = form.iter().map(|e| if let E::T(t) = e { *t } else { 0 }).collect();
        return Some(out);
      };
      let E::N(nt) = form[pos] else { unreachable!() };
      let min_total = |f: &[E]| f.iter().map(|e| if let E::N(m) = e { short[*m as usize] } else { 1 }).fold(0usize, |a, b| a.saturating_add(b));
      let cands: Vec<&P> = g.rules[nt as usize]
        .iter()
        .filter(|p| {
          let rest = min_total(&form) - short[nt as usize];
          rest + min_total(&p.elems) <= max
        })
        .collect();
      if cands.is_empty() {
        continue 'retry;
      }
      let p = if step > 60 { *cands.iter().min_by_key(|p| min_total(&p.elems) * 10 + p.elems.len()).unwrap() } else { *r.pick(&cands) };
      form.splice(pos..=pos, p.elems.iter().copied());
    }
  }
  None
}

/// A token string for g: usually a sentence, often a damaged one.
pub fn tokens_for(r: &mut Rng, g: &Cfg, max: usize) -> Vec<u32> {
  let terms: Vec<u32> = g.terms().into_iter().collect();
  let any = |r: &mut Rng| if terms.is_empty() || r.chance(1, 12) { 90 } else { *r.pick(&terms) };
  let mut s = match if r.chance(5, 6) { sentence(r, g, max) } else { None } {
    Some(s) => s,
    None => {
      let n = r.below(max as u64 + 1);
      (0..n).map(|_| any(r)).collect()
    }
  };
  if r.chance(1, 4) {
    match r.below(4) {
      0 if !s.is_empty() => {
        let i = r.below(s.len() as u64) as usize;
        s[i] = any(r);
      }
      1 if !s.is_empty() => {
        let i = r.below(s.len() as u64) as usize;
        s.remove(i);
      }
      2 if !s.is_empty() => s.truncate(r.below(s.len() as u64) as usize),
      _ if s.len() < max => {
        let i = r.below(s.len() as u64 + 1) as usize;
        let t = any(r);
        s.insert(i, t);
      }
      _ => {}
    }
  }
  s
}

// ---- large grammars ----

struct Mk {
  rules: Vec<Vec<P>>,
  action: u32,
}

impl Mk {
  fn nt(&mut self) -> u32 {
    self.rules.push(vec![]);
    self.rules.len() as u32 - 1
  }
  fn prod(&mut self, nt: u32, elems: Vec<E>) {
    let named = vec![false; elems.len()];
    self.rules[nt as usize].push(P { action: self.action, elems, named });
    self.action += 1;
  }
  /// A copy of another grammar; its start symbol.
  fn embed(&mut self, g: &Cfg) -> u32 {
    let off = self.rules.len() as u32;
    for _ in &g.rules {
      self.nt();
    }
    for (h, ps) in g.rules.iter().enumerate() {
      for p in ps {
        let elems = p.elems.iter().map(|e| if let E::N(m) = e { E::N(m + off) } else { *e }).collect();
        self.prod(off + h as u32, elems);
      }
    }
    off
  }
}

/// A grammar that is large in some way, and about how many tokens its interesting
/// sentences have.
pub fn large(r: &mut Rng) -> (Cfg, usize) {
  use E::*;
  let sizes = [5i64, 9, 17, 33, 63, 64, 65, 66, 70, 127, 128, 129, 130, 255, 256, 257, 260, 300];
  let mut m = Mk { rules: vec![], action: 0 };
  let s = m.nt();
  let max = match r.below(11) {
    // long lists of every kind of recursion
    0 | 1 => {
      let sep = r.chance(1, 2);
      let item = if r.chance(1, 2) { T(0) } else { N(m.nt()) };
      match (r.below(4), sep) {
        (0, false) => m.prod(s, vec![N(s), item]),
        (0, true) => m.prod(s, vec![N(s), T(1), item]),
        (1, false) => m.prod(s, vec![item, N(s)]),
        (1, true) => m.prod(s, vec![item, T(1), N(s)]),
        (2, _) => m.prod(s, vec![T(1), N(s), T(2)]),
        (_, _) => m.prod(s, vec![T(1), N(s), T(1)]),
      }
      m.prod(s, if r.chance(1, 2) { vec![item] } else { vec![] });
      if let N(i) = item {
        m.prod(i, vec![T(0)]);
        if r.chance(1, 2) {
          m.prod(i, vec![T(2)]);
        }
        if r.chance(1, 3) {
          m.prod(i, vec![T(3), N(s), T(4)]);
        }
      }
      *r.pick(&sizes) as usize
    }
    // one wide production
    2 => {
      let w = *r.pick(&sizes);
      let a = if r.chance(2, 3) { Some(m.nt()) } else { None };
      let every = r.range(1, 9);
      let elems: Vec<E> = (0..w).map(|i| if a.is_some() && i % every == 0 { N(a.unwrap()) } else { T(r.below(3) as u32) }).collect();
      m.prod(s, elems);
      if let Some(a) = a {
        m.prod(a, vec![T(5)]);
        match r.below(3) {
          0 => m.prod(a, vec![]),
          1 => m.prod(a, vec![T(5), T(6)]),
          _ => {}
        }
      }
      w as usize * 2
    }
    // many productions of one head
    3 => {
      let k = *r.pick(&sizes);
      let two = r.chance(1, 2);
      let b = if r.chance(1, 2) { Some(m.nt()) } else { None };
      for i in 0..k as u32 {
        let mut es = vec![T(i % 18), T(i / 18)];
        if two {
          es.push(T(i % 7));
        }
        if let Some(b) = b {
          es.push(N(b));
        }
        m.prod(s, es);
      }
      if let Some(b) = b {
        m.prod(b, vec![]);
        m.prod(b, vec![N(s)]);
      }
      *r.pick(&[3, 4, 8, 20])
    }
    // a long chain of rules
    4 => {
      let k = *r.pick(&sizes);
      let mut at = s;
      let wide = r.chance(1, 3);
      for i in 0..k {
        let nx = m.nt();
        if wide && i % 5 == 0 {
          m.prod(at, vec![N(nx), T(1)]);
        } else {
          m.prod(at, vec![N(nx)]);
        }
        if r.chance(1, 12) {
          m.prod(at, vec![T(2 + r.below(6) as u32)]);
        }
        at = nx;
      }
      m.prod(at, vec![T(0)]);
      if r.chance(1, 4) {
        m.prod(at, vec![N(s)]);
      }
      if r.chance(1, 3) {
        m.prod(at, vec![]);
      }
      60
    }
    // many rules side by side
    5 => {
      let k = *r.pick(&[10, 30, 64, 65, 66, 130, 257]);
      let seq = r.chance(1, 2);
      let subs: Vec<u32> = (0..k).map(|_| m.nt()).collect();
      if seq {
        m.prod(s, subs.iter().map(|x| N(*x)).collect());
      } else {
        for x in &subs {
          m.prod(s, vec![N(*x)]);
        }
      }
      for (i, x) in subs.iter().enumerate() {
        let t = vec![T(i as u32 % 20), T(i as u32 / 20)];
        m.prod(*x, t);
        if seq && r.chance(1, 4) {
          m.prod(*x, vec![]);
        }
      }
      if seq { 2 * k as usize } else { 2 }
    }
    // small grammars put together
    6 | 7 => {
      let k = r.range(2, 8);
      let mut parts = vec![];
      for _ in 0..k {
        let o = GenOpts { max_nts: r.range(1, 3), max_prods: r.range(1, 3), max_len: r.range(1, 3), terms: r.range(1, 4) as u32, names: false };
        let g = if r.chance(1, 3) { classic(r.below(14) as usize) } else { random_cfg(r, &o) };
        parts.push(m.embed(&g));
      }
      if r.chance(1, 2) {
        let mut es = vec![];
        for x in &parts {
          es.push(N(*x));
          if r.chance(1, 2) {
            es.push(T(7));
          }
        }
        m.prod(s, es);
      } else {
        for x in &parts {
          m.prod(s, vec![N(*x), T(8)]);
          m.prod(s, vec![N(*x), N(s)]);
        }
      }
      *r.pick(&[6, 10, 20])
    }
    // sequences that can be split at many places
    8 | 9 => {
      let k = *r.pick(&[2, 2, 2, 3]);
      let mut es = vec![];
      let mut last = None;
      for _ in 0..k {
        let a = match last {
          Some(a) if r.chance(1, 2) => a,
          _ => {
            let a = m.nt();
            let t = if r.chance(1, 4) { T(1) } else { T(0) };
            m.prod(a, if r.chance(1, 2) { vec![t, N(a)] } else { vec![N(a), t] });
            m.prod(a, if r.chance(1, 3) { vec![] } else { vec![t] });
            if r.chance(1, 4) {
              m.prod(a, vec![T(2)]);
            }
            last = Some(a);
            a
          }
        };
        es.push(N(a));
      }
      if r.chance(1, 3) {
        es.push(T(3));
      }
      m.prod(s, es);
      if r.chance(1, 4) {
        m.prod(s, vec![T(0), N(s)]);
      }
      if k == 2 { *r.pick(&[20, 33, 40, 45, 66, 80]) } else { *r.pick(&[8, 12, 16, 20]) }
    }
    // expressions with many levels
    _ => {
      let k = *r.pick(&[3, 6, 10, 15]);
      let mut at = s;
      for i in 0..k {
        let nx = m.nt();
        match r.below(4) {
          0 => m.prod(at, vec![N(at), T(10 + i), N(nx)]),
          1 => m.prod(at, vec![N(nx), T(10 + i), N(at)]),
          2 => m.prod(at, vec![T(10 + i), N(at)]),
          _ => m.prod(at, vec![N(nx), T(10 + i), N(nx)]),
        }
        m.prod(at, vec![N(nx)]);
        at = nx;
      }
      m.prod(at, vec![T(0)]);
      m.prod(at, vec![T(1), N(s), T(2)]);
      *r.pick(&[10, 20, 40])
    }
  };
  let mut c = Cfg { rules: m.rules };
  if r.chance(1, 8) {
    for ps in &mut c.rules {
      for (i, p) in ps.iter_mut().enumerate() {
        p.action = i as u32;
      }
    }
  }
  (c, max)
}

/// A sentence of about `max` tokens, for grammars where it can be long.
pub fn long_tokens(r: &mut Rng, g: &Cfg, max: usize) -> Vec<u32> {
  let mut best: Vec<u32> = vec![];
  for _ in 0..4 {
    let s = expand(r, g, max);
    if s.len() > best.len() || best.is_empty() {
      best = s;
    }
  }
  let terms: Vec<u32> = g.terms().into_iter().collect();
  if r.chance(1, 5) && !best.is_empty() {
    let i = if r.chance(1, 2) { best.len() - 1 } else { r.below(best.len() as u64) as usize };
    match r.below(3) {
      0 => {
        best.remove(i);
      }
      1 => best[i] = if terms.is_empty() || r.chance(1, 4) { 90 } else { *r.pick(&terms) },
      _ => best.insert(i + 1, best[i]),
    }
  }
  best
}

/// Expands leftmost, choosing longer productions while there is room.
fn expand(r: &mut Rng, g: &Cfg, max: usize) -> Vec<u32> {
  let n = g.rules.len();
  let far = usize::MAX / 4;
  let mut short = vec![far; n];
  loop {
    let mut ch = false;
    for nt in 0..n {
      for p in &g.rules[nt] {
        let l = yield_len(&short, &p.elems);
        if l < short[nt] {
          short[nt] = l;
          ch = true;
        }
      }
    }
    if !ch {
      break;
    }
  }
  // fewest expansions to finish with the shortest yield, so that cycles end
  let mut steps = vec![far; n];
  loop {
    let mut ch = false;
    for nt in 0..n {
      for p in g.rules[nt].iter().filter(|p| yield_len(&short, &p.elems) == short[nt]) {
        let l = p.elems.iter().fold(1usize, |a, e| if let E::N(m) = e { (a + steps[*m as usize]).min(far) } else { a });
        if l < steps[nt] {
          steps[nt] = l;
          ch = true;
        }
      }
    }
    if !ch {
      break;
    }
  }
  if steps[0] >= far {
    return vec![];
  }
  let mut out = vec![];
  let mut form = vec![E::N(0)];
  let mut need = short[0];
  let mut fuel = 4 * max + 100;
  while let Some(e) = form.pop() {
    match e {
      E::T(t) => {
        out.push(t);
        need -= 1;
      }
      E::N(nt) => {
        need -= short[nt as usize];
        let room = max.saturating_sub(out.len());
        let ps = &g.rules[nt as usize];
        let fits: Vec<&P> = ps.iter().filter(|p| need + yield_len(&short, &p.elems) <= room && p.elems.iter().all(|e| if let E::N(m) = e { steps[*m as usize] < far } else { true })).collect();
        let p = if fuel > 0 && !fits.is_empty() {
          fuel -= 1;
          let rec: Vec<&&P> = fits.iter().filter(|p| p.elems.iter().any(|e| matches!(e, E::N(_)))).collect();
          if !rec.is_empty() && r.chance(15, 16) {
            **r.pick(&rec)
          } else {
            *r.pick(&fits)
          }
        } else {
          ps.iter().filter(|p| yield_len(&short, &p.elems) == short[nt as usize]).min_by_key(|p| p.elems.iter().fold(1usize, |a, e| if let E::N(m) = e { (a + steps[*m as usize]).min(far) } else { a })).unwrap()
        };
        need += yield_len(&short, &p.elems);
        form.extend(p.elems.iter().rev());
      }
    }
  }
  out
}

fn yield_len(short: &[usize], es: &[E]) -> usize {
  es.iter().fold(0usize, |a, e| (a + if let E::N(m) = e { short[*m as usize] } else { 1 }).min(usize::MAX / 4))
}

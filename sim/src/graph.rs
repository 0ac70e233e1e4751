//! Exact comparison of shared forests (as tree automata) and of DOT pictures.
use crate::cfg::{Forest, Label};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Debug, PartialEq)]
pub enum Cmp {
  Equal,
  /// A tree in exactly one of the two: (in the first, rendering).
  Differ(bool, String),
  TooBig,
}

/// Do the two forests represent the same set of finite trees?
/// Bottom-up determinisation of the union automaton.
pub fn same_trees(a: &Forest, b: &Forest, cap: usize) -> Cmp {
  let na = a.nodes.len();
  // transitions grouped by (label, arity)
  let mut trans: BTreeMap<(Label, usize), Vec<(usize, Vec<usize>)>> = BTreeMap::new();
  for (off, f) in [(0, a), (na, b)] {
    for (i, alts) in f.nodes.iter().enumerate() {
      for (l, ch) in alts {
        trans.entry((*l, ch.len())).or_default().push((i + off, ch.iter().map(|c| c + off).collect()));
      }
    }
  }
  let (ra, rb) = (a.root, b.root + na);
  let mut states: Vec<BTreeSet<usize>> = vec![];
  let mut trees: Vec<String> = vec![];
  let mut index: BTreeMap<BTreeSet<usize>, usize> = BTreeMap::new();
  let mut work = 0usize;
  let mut known = 0; // states before this index have been combined with each other
  let mut first = true;
  loop {
    let upto = states.len();
    if !first && known == upto {
      return Cmp::Equal;
    }
    let mut found: Vec<(BTreeSet<usize>, String)> = vec![];
    for ((label, arity), ts) in &trans {
      if *arity == 0 {
        if first {
          found.push((ts.iter().map(|t| t.0).collect(), label_text(label)));
        }
        continue;
      }
      // depth-first over tuples with at least one state >= known
      let mut stack: Vec<(usize, Vec<usize>, bool, Vec<usize>)> = vec![(0, (0..ts.len()).collect(), false, vec![])];
      while let Some((j, live, fresh, picked)) = stack.pop() {
        if j == *arity {
          if fresh {
            let set = live.iter().map(|t| ts[*t].0).collect();
            let txt = format!("{}({})", label_text(label), picked.iter().map(|p| trees[*p].as_str()).collect::<Vec<_>>().join(" "));
            found.push((set, txt));
          }
          continue;
        }
        for s in 0..upto {
          work += live.len();
          if work > cap {
            return Cmp::TooBig;
          }
          let nl: Vec<usize> = live.iter().copied().filter(|t| states[s].contains(&ts[*t].1[j])).collect();
          if !nl.is_empty() {
            let mut p = picked.clone();
            p.push(s);
            stack.push((j + 1, nl, fresh || s >= known, p));
          }
        }
      }
    }
    first = false;
    known = upto;
    for (set, txt) in found {
      if index.contains_key(&set) {
        continue;
      }
      let (ia, ib) = (set.contains(&ra), set.contains(&rb));
      if ia != ib {
        return Cmp::Differ(ia, txt);
      }
      index.insert(set.clone(), states.len());
      states.push(set);
      trees.push(if txt.len() > 400 { format!("{}...", &txt[..txt.char_indices().take(397).last().map_or(0, |x| x.0)]) } else { txt });
      if states.len() > 3000 {
        return Cmp::TooBig;
      }
    }
  }
}

pub fn label_text(l: &Label) -> String {
  match l {
    Label::Leaf(k, v) => format!("t{}:{}", k, v),
    Label::Branch(a) => format!("act{}", a),
  }
}

/// Shape of a forest up to renumbering, by discovery order (exact snapshot).
pub fn snapshot(f: &Forest) -> String {
  // Alternatives are sorted by label first, so renumbered equal forests mostly agree;
  // used only as a fast path for "unchanged".
  format!("{:?} {}", f.nodes, f.root)
}

// ---- DOT ----

#[derive(Debug, Default)]
pub struct Dot {
  pub verts: Vec<(String, Option<String>, Option<String>)>, // id, label, shape
  pub edges: Vec<(String, String)>,
}

/// Parses the subset of DOT a digraph printer emits: vertex and edge
/// statements with attribute lists.
pub fn parse_dot(text: &str) -> Result<Dot, String> {
  let mut t = Lexer { s: text.as_bytes(), i: 0 };
  t.expect_word("digraph")?;
  t.word()?;
  t.expect(b'{')?;
  let mut d = Dot::default();
  loop {
    t.ws();
    if t.peek() == Some(b'}') {
      t.i += 1;
      t.ws();
      return if t.peek().is_none() { Ok(d) } else { Err("text after the graph".into()) };
    }
    if t.peek() == Some(b';') {
      t.i += 1;
      continue;
    }
    let a = t.word()?;
    t.ws();
    let mut target = None;
    if t.s[t.i..].starts_with(b"->") {
      t.i += 2;
      target = Some(t.word()?);
    }
    let mut attrs: Vec<(String, String)> = vec![];
    t.ws();
    while t.peek() == Some(b'[') {
      t.i += 1;
      loop {
        t.ws();
        match t.peek() {
          Some(b']') => {
            t.i += 1;
            break;
          }
          Some(b',') | Some(b';') => t.i += 1,
          _ => {
            let k = t.word()?;
            t.expect(b'=')?;
            let v = t.word()?;
            attrs.push((k, v));
          }
        }
      }
      t.ws();
    }
    match target {
      Some(b) => d.edges.push((a, b)),
      None => {
        if ["node", "edge", "graph"].contains(&a.as_str()) {
          continue;
        }
        let get = |n: &str| attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.clone());
        d.verts.push((a, get("label"), get("shape")));
      }
    }
  }
}

struct Lexer<'a> {
  s: &'a [u8],
  i: usize,
}
impl Lexer<'_> {
  fn peek(&self) -> Option<u8> {
    self.s.get(self.i).copied()
  }
  fn ws(&mut self) {
    while matches!(self.peek(), Some(c) if c.is_ascii_whitespace()) {
      self.i += 1;
    }
  }
  fn expect(&mut self, c: u8) -> Result<(), String> {
    self.ws();
    if self.peek() == Some(c) {
      self.i += 1;
      Ok(())
    } else {
      Err(format!("expected {:?} at byte {}", c as char, self.i))
    }
  }
  fn expect_word(&mut self, w: &str) -> Result<(), String> {
    if self.word()? == w {
      Ok(())
    } else {
      Err(format!("expected {}", w))
    }
  }
  fn word(&mut self) -> Result<String, String> {
    self.ws();
    if self.peek() == Some(b'"') {
      self.i += 1;
      let mut out = vec![];
      loop {
        match self.peek() {
          None => return Err("unterminated string".into()),
          Some(b'"') => {
            self.i += 1;
            return unescape(&String::from_utf8_lossy(&out));
          }
          Some(b'\\') => {
            out.push(b'\\');
            self.i += 1;
            if let Some(c) = self.peek() {
              out.push(c);
              self.i += 1;
            }
          }
          Some(c) => {
            out.push(c);
            self.i += 1;
          }
        }
      }
    }
    let st = self.i;
    while matches!(self.peek(), Some(c) if c.is_ascii_alphanumeric() || c == b'_' || c == b'.') {
      self.i += 1;
    }
    if st == self.i {
      return Err(format!("expected a word at byte {}", st));
    }
    Ok(String::from_utf8_lossy(&self.s[st..self.i]).to_string())
  }
}

fn unescape(s: &str) -> Result<String, String> {
  let mut out = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      out.push(c);
      continue;
    }
    match it.next() {
      Some('n') => out.push('\n'),
      Some('t') => out.push('\t'),
      Some('r') => out.push('\r'),
      Some('u') => {
        let mut h = String::new();
        for c in it.by_ref() {
          if c == '}' {
            break;
          }
          if c != '{' {
            h.push(c);
          }
        }
        out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
      }
      Some(c) => out.push(c),
      None => return Err("dangling escape".into()),
    }
  }
  Ok(out)
}

/// Canonical text of a picture whose alternatives all have different labels:
/// nodes are told apart by the labels around them.
pub struct Picture {
  pub alts: BTreeSet<String>,
  /// per node: labels of its alternatives, labels of alternatives it is a child of
  pub nodes: Vec<(Vec<String>, Vec<String>)>,
}
impl Picture {
  pub fn canon(mut self) -> String {
    self.nodes.sort();
    format!("{:?} {:?}", self.alts, self.nodes)
  }
}

/// Checks well-formedness and turns a DOT graph into a picture.
pub fn picture(d: &Dot) -> Result<Picture, String> {
  let mut vert: BTreeMap<&str, (bool, String)> = BTreeMap::new();
  for (id, label, shape) in &d.verts {
    let is_alt = match shape.as_deref() {
      Some("box") => true,
      Some("point") => false,
      s => return Err(format!("vertex {} has shape {:?}", id, s)),
    };
    if vert.insert(id, (is_alt, label.clone().unwrap_or_default())).is_some() {
      return Err(format!("vertex {} is declared twice", id));
    }
  }
  let mut alts = BTreeSet::new();
  for (id, (is_alt, l)) in &vert {
    if *is_alt && !alts.insert(l.clone()) {
      return Err(format!("two alternatives are labelled {:?} (second: {})", l, id));
    }
  }
  let mut nodes: BTreeMap<&str, (Vec<String>, Vec<String>)> = vert.iter().filter(|(_, v)| !v.0).map(|(k, _)| (*k, (vec![], vec![]))).collect();
  for (a, b) in &d.edges {
    let (Some(x), Some(y)) = (vert.get(a.as_str()), vert.get(b.as_str())) else {
      return Err(format!("edge {} -> {} names an undeclared vertex", a, b));
    };
    match (x.0, y.0) {
      (false, true) => nodes.get_mut(a.as_str()).unwrap().0.push(y.1.clone()),
      (true, false) => nodes.get_mut(b.as_str()).unwrap().1.push(x.1.clone()),
      _ => return Err(format!("edge {} -> {} joins two of a kind", a, b)),
    }
  }
  let mut nodes: Vec<_> = nodes.into_values().collect();
  for n in &mut nodes {
    n.0.sort();
    n.1.sort();
  }
  Ok(Picture { alts, nodes })
}

/// Whether the two roots are bisimilar, which means they represent the same trees.
pub fn bisimilar(a: &Forest, b: &Forest) -> bool {
  let na = a.nodes.len();
  let total = na + b.nodes.len();
  let alts = |i: usize| -> (&Vec<(Label, Vec<usize>)>, usize) {
    if i < na { (&a.nodes[i], 0) } else { (&b.nodes[i - na], na) }
  };
  let mut class = vec![0usize; total];
  let mut count = 1;
  loop {
    let mut index: BTreeMap<BTreeSet<(Label, Vec<usize>)>, usize> = BTreeMap::new();
    let mut next = vec![0; total];
    for i in 0..total {
      let (al, off) = alts(i);
      let sig = al.iter().map(|(l, ch)| (*l, ch.iter().map(|c| class[c + off]).collect::<Vec<_>>())).collect();
      let n = index.len();
      next[i] = *index.entry(sig).or_insert(n);
    }
    class = next;
    if class[a.root] != class[b.root + na] {
      return false;
    }
    if index.len() == count {
      return true;
    }
    count = index.len();
  }
}

/// One tree of the forest as one chosen alternative per node, without cycles;
/// None if the forest represents no tree.
fn choose(f: &Forest, r: &mut crate::rng::Rng) -> Option<Vec<Option<usize>>> {
  let n = f.nodes.len();
  let mut pick: Vec<Option<usize>> = vec![None; n];
  loop {
    let mut ch = false;
    let mut order: Vec<usize> = (0..n).filter(|i| pick[*i].is_none()).collect();
    for i in (1..order.len()).rev() {
      order.swap(i, r.below(i as u64 + 1) as usize);
    }
    for i in order {
      let ok: Vec<usize> = (0..f.nodes[i].len()).filter(|a| f.nodes[i][*a].1.iter().all(|c| pick[*c].is_some())).collect();
      if !ok.is_empty() {
        pick[i] = Some(*r.pick(&ok));
        ch = true;
      }
    }
    if !ch {
      return if pick[f.root].is_some() { Some(pick) } else { None };
    }
  }
}

/// Random trees of each forest are looked up in the other; finds a difference or not.
pub fn sample_trees(a: &Forest, b: &Forest, rounds: u64) -> Option<(bool, String)> {
  let mut r = crate::rng::Rng::new((a.nodes.len() * 1000 + b.nodes.len()) as u64);
  for round in 0..rounds {
    let in_a = round % 2 == 0;
    let (x, y) = if in_a { (a, b) } else { (b, a) };
    let Some(pick) = choose(x, &mut r) else {
      if choose(y, &mut r).is_some() {
        return Some((!in_a, "(any tree)".into()));
      }
      return None;
    };
    // nodes of y that represent the tree chosen at each node of x, children first
    let mut by: BTreeMap<(Label, usize), Vec<(usize, &Vec<usize>)>> = BTreeMap::new();
    for (i, al) in y.nodes.iter().enumerate() {
      for (l, ch) in al {
        by.entry((*l, ch.len())).or_default().push((i, ch));
      }
    }
    let mut sets: Vec<Option<BTreeSet<usize>>> = vec![None; x.nodes.len()];
    let mut stack = vec![x.root];
    while let Some(i) = stack.last().copied() {
      if sets[i].is_some() {
        stack.pop();
        continue;
      }
      let (l, ch) = &x.nodes[i][pick[i].unwrap()];
      let open: Vec<usize> = ch.iter().copied().filter(|c| sets[*c].is_none()).collect();
      if !open.is_empty() {
        stack.extend(open);
        continue;
      }
      let set = by.get(&(*l, ch.len())).map_or(BTreeSet::new(), |v| v.iter().filter(|(_, yc)| yc.iter().zip(ch).all(|(p, q)| sets[*q].as_ref().unwrap().contains(p))).map(|(i, _)| *i).collect());
      sets[i] = Some(set);
      stack.pop();
    }
    if !sets[x.root].as_ref().unwrap().contains(&y.root) {
      let mut text = String::new();
      render(x, &pick, x.root, &mut text);
      return Some((in_a, text));
    }
  }
  None
}

fn render(f: &Forest, pick: &[Option<usize>], i: usize, out: &mut String) {
  // iterative: trees can be deep
  let mut stack = vec![Ok(i)];
  while let Some(x) = stack.pop() {
    if out.len() > 1500 {
      out.push_str("...");
      return;
    }
    match x {
      Err(s) => out.push_str(s),
      Ok(n) => {
        let (l, ch) = &f.nodes[n][pick[n].unwrap()];
        out.push_str(&label_text(l));
        if !ch.is_empty() {
          out.push('(');
          stack.push(Err(")"));
          for (k, c) in ch.iter().enumerate().rev() {
            stack.push(Ok(*c));
            if k > 0 {
              stack.push(Err(" "));
            }
          }
        }
      }
    }
  }
}

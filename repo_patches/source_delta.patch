From 177dbc3c000da72c731e976f9e811ddb0ccb24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 01/13] fix: never hold a tree's lock while taking another one
 or running a caller's iterator

Node::add_alt, Node::add_all and TreeHandle::make_branch_alt took a read lock
while already holding one, which deadlocks when another thread waits to write
in between, and make_branch_alt evaluated the caller's child iterator with the
lock held, so an iterator that creates nodes blocked on itself.
---
 src/parsers/tree.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 85963f7..7f4427e 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -177,10 +177,6 @@ where
     let node_data = self.get_node_mut(node_index);
     WasChanged::from_changed(node_data.alternatives.insert(alt_index))
   }
-
-  pub fn is_same(&self, other: &Self) -> bool {
-    std::ptr::eq(self, other)
-  }
 }
 
 /// The owning object of an AST tree.
@@ -327,16 +323,16 @@ where
     action: AK,
     nodes: impl IntoIterator<Item = Node<'a, T, AK, V>>,
   ) -> Alternative<T, AK, V> {
-    let node_indexes = self.with(|inner| {
-      nodes
-        .into_iter()
-        .inspect(|n| {
-          // Check that all nodes are coming from the same inner instance.
-          assert!(n.inner.with(|n_inner| { inner.is_same(n_inner) }));
-        })
-        .map(|n| n.index)
-        .collect()
-    });
+    // The caller's iterator may itself use this tree, so no lock may be held
+    // while it is evaluated.
+    let node_indexes = nodes
+      .into_iter()
+      .inspect(|n| {
+        // Check that all nodes are coming from the same inner instance.
+        assert!(self.is_same(&n.inner));
+      })
+      .map(|n| n.index)
+      .collect();
 
     self.make_alt(NodeContentInner::Branch(BranchData {
       action,
@@ -345,9 +341,9 @@ where
   }
 
   pub fn is_same(&self, other: &Self) -> bool {
-    self.with(|self_inner| {
-      other.with(|other_inner| self_inner.is_same(other_inner))
-    })
+    // Compares the trees themselves without locking them: taking two locks at
+    // once can deadlock against a waiting writer.
+    std::ptr::eq(self.0, other.0)
   }
 }
 
-- 
2.43.0


From cd02ecb0d2e7ca08f697bf83df22740632b0f3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 02/13] fix: render a node's graph from one consistent view
 that includes the node itself

Node::to_dot did not declare the rendered node unless it was part of a cycle,
although edges start at it, and read the tree in many separate steps, so that
a concurrent change could leave edges to undeclared vertices.
---
 src/parsers/tree.rs | 91 +++++++++++++++++++++++----------------------
 1 file changed, 46 insertions(+), 45 deletions(-)

diff --git a/src/parsers/tree.rs b/src/parsers/tree.rs
index 7f4427e..2588c60 100644
--- a/src/parsers/tree.rs
+++ b/src/parsers/tree.rs
@@ -578,33 +578,29 @@ enum DotNode {
   Alt(usize),
 }
 
-fn collect_nodes_and_alts<T, AK, V: Ord>(
-  node: &Node<T, AK, V>,
-) -> (Vec<usize>, Vec<usize>)
-where
-  T: Ord,
-  AK: Ord,
-{
-  let handle = node.handle();
-
+fn collect_nodes_and_alts<T, AK, V>(
+  inner: &Inner<T, AK, V>,
+  root: usize,
+) -> (Vec<usize>, Vec<usize>) {
   let mut seen = BTreeSet::new();
   let mut curr = BTreeSet::new();
   let mut next = BTreeSet::new();
 
-  curr.insert(DotNode::Node(node.index));
+  seen.insert(DotNode::Node(root));
+  curr.insert(DotNode::Node(root));
 
   while !curr.is_empty() {
     for curr_item in &curr {
       match curr_item {
-        DotNode::Node(node_id) => handle.with(|inner| {
+        DotNode::Node(node_id) => {
           let node_data = inner.get_node(*node_id);
           for alt_id in &node_data.alternatives {
             if seen.insert(DotNode::Alt(*alt_id)) {
               next.insert(DotNode::Alt(*alt_id));
             }
           }
-        }),
-        DotNode::Alt(alt_id) => handle.with(|inner| {
+        }
+        DotNode::Alt(alt_id) => {
           if let NodeContentInner::Branch(branch_data) = inner.get_alt(*alt_id)
           {
             for node_id in &branch_data.nodes {
@@ -613,7 +609,7 @@ where
               }
             }
           }
-        }),
+        }
       }
     }
 
@@ -633,11 +629,37 @@ where
   (nodes, alts)
 }
 
+fn collect_edges<T, AK, V>(
+  inner: &Inner<T, AK, V>,
+  nodes: &[usize],
+  alts: &[usize],
+) -> Vec<DotEdge> {
+  let node_edges = nodes.iter().copied().flat_map(|node_id| {
+    inner
+      .get_node(node_id)
+      .alternatives
+      .iter()
+      .copied()
+      .map(move |alt_id| (DotNode::Node(node_id), DotNode::Alt(alt_id)))
+  });
+
+  let alt_edges = alts.iter().copied().flat_map(|alt_id| {
+    inner
+      .get_alt(alt_id)
+      .as_branch()
+      .into_iter()
+      .flat_map(|branch_data| branch_data.nodes.iter().copied())
+      .map(move |node_id| (DotNode::Alt(alt_id), DotNode::Node(node_id)))
+  });
+
+  node_edges.chain(alt_edges).collect()
+}
+
 struct DotPrinter<'a, T, AK, V> {
   handle: TreeHandle<'a, T, AK, V>,
   nodes: Vec<usize>,
   alts: Vec<usize>,
-  root_node: usize,
+  edges: Vec<DotEdge>,
 }
 
 impl<'a, T, AK, V> DotPrinter<'a, T, AK, V>
@@ -647,13 +669,18 @@ where
   V: Ord,
 {
   pub fn new(node: &Node<'a, T, AK, V>) -> Self {
-    let handle = node.handle().clone();
-    let (nodes, alts) = collect_nodes_and_alts(node);
+    let handle = node.handle();
+    // Everything is read at once, as other threads may be changing the tree.
+    let (nodes, alts, edges) = handle.with(|inner| {
+      let (nodes, alts) = collect_nodes_and_alts(inner, node.index);
+      let edges = collect_edges(inner, &nodes, &alts);
+      (nodes, alts, edges)
+    });
     DotPrinter {
       handle,
       nodes,
       alts,
-      root_node: node.index,
+      edges,
     }
   }
 }
@@ -678,33 +705,7 @@ where
   }
 
   fn edges(&'a self) -> dot::Edges<'a, DotEdge> {
-    let node_edges = self.nodes.iter().copied().flat_map(|node_id| {
-      self.handle.with(|i| {
-        i.get_node(node_id)
-          .alternatives
-          .iter()
-          .copied()
-          .map(|alt_id| (DotNode::Node(node_id), DotNode::Alt(alt_id)))
-          .collect::<Vec<_>>()
-      })
-    });
-
-    let alt_edges = self.alts.iter().copied().flat_map(|alt_id| {
-      self.handle.with(|i| {
-        if let NodeContentInner::Branch(branch_data) = i.get_alt(alt_id) {
-          branch_data
-            .nodes
-            .iter()
-            .copied()
-            .map(|node_id| (DotNode::Alt(alt_id), DotNode::Node(node_id)))
-            .collect::<Vec<_>>()
-        } else {
-          Vec::new()
-        }
-      })
-    });
-
-    node_edges.chain(alt_edges).collect()
+    self.edges.iter().copied().collect()
   }
 
   fn source(&'a self, edge: &DotEdge) -> DotNode {
-- 
2.43.0


From 3247cc256ed0d689252e9071f8dcf142c852ca82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 03/13] fix: compare production states by their position too

Two states of one production at different positions compared equal, so sets of
states kept only one of them: closures and successor sets lost states, and the
Earley parser mixed up items, rejecting sentences or failing an assertion.
---
 src/state.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/state.rs b/src/state.rs
index 514d43d..9f495cb 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -50,7 +50,10 @@ where
   NT: Ord,
 {
   fn cmp(&self, other: &Self) -> std::cmp::Ordering {
-    self.prod.cmp(&other.prod)
+    self
+      .prod
+      .cmp(&other.prod)
+      .then_with(|| self.index.cmp(&other.index))
   }
 }
 
@@ -68,7 +71,7 @@ where
   NT: Ord,
 {
   fn eq(&self, other: &Self) -> bool {
-    self.prod == other.prod
+    self.prod == other.prod && self.index == other.index
   }
 }
 
-- 
2.43.0


From 42c6e8dbfca76998cb89c14e5ea4a36e75140574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:03 +0000
Subject: [PATCH 04/13] fix: return None from the Earley parser for a token no
 state accepts

Closing the resulting empty state set failed an assertion instead.
---
 src/parsers/earley.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index c7a1fa2..0c6c081 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -78,6 +78,11 @@ where
   for token in tokens {
     let mut new_state = states.last().unwrap().shift(tree_handle, &token);
 
+    if new_state.is_empty() {
+      // No state accepts this token, so the tokens aren't in the language.
+      return None;
+    }
+
     close_state(grammar, tree_handle, &states, &mut new_state);
 
     states.push(new_state);
-- 
2.43.0


From cb9e0c519ddc8f9cc7c182fbf2666d7824a304b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 05/13] fix: keep every derivation of ambiguous input, and only
 those, in the Earley parser

Derivations that split the tokens differently between the elements of a
production were merged element by element, so the returned tree represented
combinations that are no derivation, and lacked others where a node was merged
after it had already been used. States now keep each sequence of nodes apart,
and each nonterminal over the same tokens has one node.
---
 src/parsers/earley.rs       | 10 ++++-
 src/parsers/earley/state.rs | 90 +++++++++++++++++++++----------------
 2 files changed, 59 insertions(+), 41 deletions(-)

diff --git a/src/parsers/earley.rs b/src/parsers/earley.rs
index 0c6c081..abb2fc7 100644
--- a/src/parsers/earley.rs
+++ b/src/parsers/earley.rs
@@ -28,7 +28,7 @@ use {
     start_grammar::StartGrammar,
     utils::{change_iter, change_loop},
   },
-  state::EarleyStateSet,
+  state::{CompletedNodes, EarleyStateSet},
 };
 
 pub fn close_state<'a, T, NT, AK, AV, V>(
@@ -43,13 +43,19 @@ pub fn close_state<'a, T, NT, AK, AV, V>(
   V: Ord + Clone,
 {
   assert!(!new_state.is_empty());
+  let mut completed_nodes = CompletedNodes::new();
   change_loop(|| {
     let closure = new_state
       .states()
       .flat_map(|state| {
         std::iter::empty()
           .chain(state.predict(grammar, prev_states).into_iter())
-          .chain(state.complete(tree_handle, prev_states, new_state))
+          .chain(state.complete(
+            tree_handle,
+            prev_states,
+            new_state,
+            &mut completed_nodes,
+          ))
       })
       .collect::<Vec<_>>();
 
diff --git a/src/parsers/earley/state.rs b/src/parsers/earley/state.rs
index b6e6a5d..805eb14 100644
--- a/src/parsers/earley/state.rs
+++ b/src/parsers/earley/state.rs
@@ -15,12 +15,18 @@ use {
     },
     start_grammar::{StartGrammar, StreamTerminal},
     state::ProdState,
-    utils::{change_iter, WasChanged},
+    utils::{take_only, WasChanged},
   },
   im::Vector,
-  std::collections::{btree_map, BTreeMap},
+  std::collections::{BTreeMap, BTreeSet},
 };
 
+/// The nodes of the nonterminals that are completed within one state set, by
+/// nonterminal and origin. Every way to derive the same nonterminal from the
+/// same tokens is an alternative of the same node.
+pub type CompletedNodes<'a, T, NT, AK, V> =
+  BTreeMap<(&'a StartNonTerminal<NT>, usize), Node<'a, T, AK, V>>;
+
 #[derive(Derivative)]
 #[derivative(
   Clone(bound = ""),
@@ -118,8 +124,8 @@ where
 {
   pub fn scan(
     &self,
-    tree_handle: &TreeHandle<'a, T, AK, V>,
     next_token: &Token<T, V>,
+    token_node: impl FnOnce() -> Node<'a, T, AK, V>,
   ) -> Option<EarleyState<'a, T, NT, AK, AV, V>> {
     self
       .prod_state()
@@ -131,10 +137,7 @@ where
           prod_state: ps,
           origin_index: self.key.origin_index,
         },
-        value: self.create_next_value(
-          tree_handle
-            .make_leaf_node(next_token.kind.clone(), next_token.value.clone()),
-        ),
+        value: self.create_next_value(token_node()),
       })
   }
 }
@@ -173,9 +176,18 @@ where
     tree_handle: &TreeHandle<'a, T, AK, V>,
     prev_states: &[EarleyStateSet<'a, T, NT, AK, AV, V>],
     curr_state: &EarleyStateSet<'a, T, NT, AK, AV, V>,
+    completed_nodes: &mut CompletedNodes<'a, T, NT, AK, V>,
   ) -> Vec<EarleyState<'a, T, NT, AK, AV, V>> {
     if self.prod_state().is_complete() {
       log::trace!("Completing prod state {:?}.", self.prod_state());
+      let node = completed_nodes
+        .entry((self.prod_state().prod().head(), self.key.origin_index))
+        .or_insert_with(|| tree_handle.make_node());
+      node.add_alt(&tree_handle.make_branch_alt(
+        self.prod_state().action_key().as_base().unwrap().clone(),
+        self.value.iter().cloned(),
+      ));
+
       let origin_state = if self.key.origin_index == prev_states.len() {
         curr_state
       } else {
@@ -198,10 +210,7 @@ where
             prod_state: ps,
             origin_index: st.key.origin_index,
           },
-          value: st.create_next_value(tree_handle.make_branch_node(
-            self.prod_state().action_key().as_base().unwrap().clone(),
-            self.value.iter().cloned(),
-          )),
+          value: st.create_next_value(node.clone()),
         })
         .collect()
     } else {
@@ -225,8 +234,12 @@ where
 }
 
 pub struct EarleyStateSet<'a, T, NT, AK, AV, V> {
-  states:
-    BTreeMap<EarleyStateKey<'a, T, NT, AK, AV>, Vector<Node<'a, T, AK, V>>>,
+  /// The states, each with every sequence of nodes that the matched part of its
+  /// production can be derived as.
+  states: BTreeMap<
+    EarleyStateKey<'a, T, NT, AK, AV>,
+    BTreeSet<Vector<Node<'a, T, AK, V>>>,
+  >,
 }
 
 impl<T, NT, AK, AV, V> Default for EarleyStateSet<'_, T, NT, AK, AV, V> {
@@ -250,9 +263,11 @@ impl<'a, T, NT, AK, AV, V> EarleyStateSet<'a, T, NT, AK, AV, V> {
   pub fn states<'b>(
     &'b self,
   ) -> impl Iterator<Item = EarleyState<'a, T, NT, AK, AV, V>> + 'b {
-    self.states.iter().map(|(key, value)| EarleyState {
-      key: key.clone(),
-      value: value.clone(),
+    self.states.iter().flat_map(|(key, values)| {
+      values.iter().map(move |value| EarleyState {
+        key: key.clone(),
+        value: value.clone(),
+      })
     })
   }
 }
@@ -289,21 +304,13 @@ where
     &mut self,
     state: &EarleyState<'a, T, NT, AK, AV, V>,
   ) -> WasChanged {
-    match self.states.entry(state.key.clone()) {
-      btree_map::Entry::Vacant(vac) => {
-        vac.insert(state.value.clone());
-        WasChanged::Changed
-      }
-      btree_map::Entry::Occupied(mut occ) => {
-        let existing_nodes = occ.get_mut();
-        let new_nodes = &state.value;
-        assert_eq!(existing_nodes.len(), new_nodes.len());
-        change_iter(
-          existing_nodes.iter_mut().zip(new_nodes),
-          |(existing_node, new_node)| existing_node.add_all(new_node),
-        )
-      }
-    }
+    WasChanged::from_changed(
+      self
+        .states
+        .entry(state.key.clone())
+        .or_insert_with(BTreeSet::new)
+        .insert(state.value.clone()),
+    )
   }
 
   pub fn shift(
@@ -311,19 +318,24 @@ where
     tree_handle: &TreeHandle<'a, T, AK, V>,
     token: &Token<T, V>,
   ) -> Self {
-    EarleyStateSet::from_states(
-      self
-        .states()
-        .into_iter()
-        .filter_map(|state| state.scan(tree_handle, token)),
-    )
+    let mut token_node = None;
+    EarleyStateSet::from_states(self.states().into_iter().filter_map(|state| {
+      state.scan(token, || {
+        token_node
+          .get_or_insert_with(|| {
+            tree_handle.make_leaf_node(token.kind.clone(), token.value.clone())
+          })
+          .clone()
+      })
+    }))
   }
 
   pub fn get_final(&self) -> Option<&Node<'a, T, AK, V>> {
     for (k, v) in &self.states {
       if k.is_final_key() {
-        assert_eq!(v.len(), 1);
-        return Some(v.get(0).unwrap());
+        let value = take_only(v.iter()).unwrap();
+        assert_eq!(value.len(), 1);
+        return Some(value.get(0).unwrap());
       }
     }
 
-- 
2.43.0


From 3fc285a56692dfcbb8e6afed4f4516ba0cadba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 06/13] fix: unmark an analysis that failed or panicked so it
 can be requested again

---
 src/grammar/passes/mod.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/grammar/passes/mod.rs b/src/grammar/passes/mod.rs
index 3b49a86..bea6da4 100644
--- a/src/grammar/passes/mod.rs
+++ b/src/grammar/passes/mod.rs
@@ -49,6 +49,30 @@ where
 /// This helps us avoid accidental infinite recursion in the case where a pass depends on itself (directly or indirectly).
 struct NoCurrentValue;
 
+type PassMap = RefCell<BTreeMap<TypeId, Rc<dyn Any + 'static>>>;
+
+/// Marks a pass as in process for as long as it lives. The mark goes away however
+/// the pass ends, so one that fails or panics can be requested again.
+struct InProcess<'a> {
+  passes: &'a PassMap,
+  pass_type: TypeId,
+}
+
+impl<'a> InProcess<'a> {
+  fn mark(passes: &'a PassMap, pass_type: TypeId) -> Self {
+    passes
+      .borrow_mut()
+      .insert(pass_type, Rc::new(NoCurrentValue));
+    InProcess { passes, pass_type }
+  }
+}
+
+impl Drop for InProcess<'_> {
+  fn drop(&mut self) {
+    self.passes.borrow_mut().remove(&self.pass_type);
+  }
+}
+
 /// A
 pub trait Pass<T, NT, AK, AV>: Any + Sized + 'static {
   type Error: std::error::Error + 'static;
@@ -61,7 +85,7 @@ pub trait Pass<T, NT, AK, AV>: Any + Sized + 'static {
 /// A map from passes to their associated results.
 pub struct PassContext<'a, T, NT, AK, AV> {
   grammar: &'a Grammar<T, NT, AK, AV>,
-  passes: RefCell<BTreeMap<TypeId, Rc<dyn Any + 'static>>>,
+  passes: PassMap,
 }
 
 impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
@@ -103,13 +127,12 @@ impl<'a, T, NT, AK, AV> PassContext<'a, T, NT, AK, AV> {
     };
 
     if !contains_key {
-      {
+      let value = {
         // Insert a NoCurrentRef as the current value to mark it as in process. This
         // helps us avoid infinite recursion.
-        let mut guard = self.passes.borrow_mut();
-        guard.insert(pass_type, Rc::new(NoCurrentValue));
-      }
-      let value = P::run_pass(self)?;
+        let _in_process = InProcess::mark(&self.passes, pass_type);
+        P::run_pass(self)?
+      };
       let mut guard = self.passes.borrow_mut();
       guard.insert(pass_type, Rc::new(value));
     };
-- 
2.43.0


From 0553fd24db3bc94eea247040c1734f49b913bdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:33 +0000
Subject: [PATCH 07/13] fix: treat a nonterminal without a first set as having
 an empty one in the follow-set analysis

---
 src/grammar/passes/follows.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/grammar/passes/follows.rs b/src/grammar/passes/follows.rs
index d560aca..92d44f2 100644
--- a/src/grammar/passes/follows.rs
+++ b/src/grammar/passes/follows.rs
@@ -39,10 +39,10 @@ where
           if let Elem::NonTerm(first_nt) = elem_pair[0] {
             match elem_pair[1] {
               Elem::Term(t) => changed.merge(follows.insert(first_nt, t)),
-              Elem::NonTerm(second_nt) => changed.merge(
-                follows
-                  .insert_iter(first_nt, firsts.get(second_nt).unwrap().iter()),
-              ),
+              Elem::NonTerm(second_nt) => changed.merge(follows.insert_iter(
+                first_nt,
+                firsts.get(second_nt).into_iter().flatten(),
+              )),
             }
           }
         }
-- 
2.43.0


From f4323fabe8c002353b14b6e6d86f8d6edd1cd081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 08/13] fix: read a token stream's tokens instead of panicking
 on the first one

---
 src/parsers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/mod.rs b/src/parsers/mod.rs
index 38b95f5..a72b8ed 100644
--- a/src/parsers/mod.rs
+++ b/src/parsers/mod.rs
@@ -58,7 +58,7 @@ where
   T: Clone,
 {
   fn next(&self) -> Option<(Token<K, T>, Self)> {
-    if self.tokens.len() < self.position {
+    if self.position < self.tokens.len() {
       Some((
         self.tokens[self.position].clone(),
         VecTokenStream {
-- 
2.43.0


From 8475355ea6e7fe163f2cf88bf93c1d0056743f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 09/13] fix: keep a key's set when copying another key's values
 into it panics

---
 src/utils.rs | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3d8c999..80b0857 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -334,22 +334,17 @@ where
       return WasChanged::Unchanged;
     }
 
-    let (key, mut value) = match self.0.entry(key) {
-      btree_map::Entry::Occupied(occ) => occ.remove_entry(),
-      btree_map::Entry::Vacant(vac) => (vac.into_key(), BTreeSet::new()),
-    };
-
-    let changed_result = if let Some(src_set) = self.0.get(&src_key) {
-      change_iter(src_set.iter(), |src_value| {
-        WasChanged::from_changed(value.insert(src_value.clone()))
-      })
-    } else {
-      WasChanged::Unchanged
-    };
-
-    self.0.insert(key, value);
-
-    changed_result
+    // Copy the values before touching the target, which must not lose its own
+    // values if copying or comparing them panics.
+    let src_values = self
+      .0
+      .get(&src_key)
+      .map_or_else(Vec::new, |src_set| src_set.iter().cloned().collect());
+
+    let set = self.0.entry(key).or_default();
+    change_iter(src_values, |src_value| {
+      WasChanged::from_changed(set.insert(src_value))
+    })
   }
 
   pub fn iter(&self) -> impl Iterator<Item = (&K, &BTreeSet<V>)> {
-- 
2.43.0


From 3604177276d3705380a5fa111df109db752a681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:12 +0000
Subject: [PATCH 10/13] fix: end a fixed-point computation when a round changes
 nothing

---
 src/utils.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 80b0857..5a0b155 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -367,10 +367,10 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
 ) where
   K: Clone + Ord,
 {
-  let currs = target.keys().cloned().collect::<BTreeSet<_>>();
-  let mut nexts = BTreeSet::new();
+  let mut currs = target.keys().cloned().collect::<BTreeSet<_>>();
 
   while !currs.is_empty() {
+    let mut nexts = BTreeSet::new();
     for curr in &currs {
       let curr_val = target
         .get(curr)
@@ -390,5 +390,6 @@ pub fn apply_fixed_point<K, V, P: FixedPointProcessor<K, V>>(
         }
       }
     }
+    currs = nexts;
   }
 }
-- 
2.43.0


From 9d135ff42402618d63cd8a81d05eeb3d89910a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 11/13] fix: report nonterminals without a rule instead of
 panicking

Building a grammar in which the start symbol or a used nonterminal has no
rule panicked in the search for reachable nonterminals before the error
that names it could be made.
---
 src/grammar/base.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index f299357..ee19dea 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -422,8 +422,8 @@ where
   }
 
   fn nonterminals_without_rules(&self) -> BTreeSet<&NT> {
-    self
-      .get_nonterminals()
+    std::iter::once(&self.start_symbol)
+      .chain(self.get_nonterminals())
       .filter(move |nt| !self.rule_set.contains_key(nt))
       .collect()
   }
@@ -440,8 +440,9 @@ where
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
     breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
       self
-        .get_rule(nt)
-        .prods()
+        .try_get_rule(nt)
+        .into_iter()
+        .flat_map(|r| r.prods())
         .flat_map(|p| p.elements())
         .filter_map(|e| e.as_nonterm())
         .collect::<BTreeSet<_>>()
-- 
2.43.0


From 6b40636718a8f12064b73649c54e9dfa112a1024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 12/13] fix: the start symbol is reachable

A grammar was refused with its start symbol as unreachable if only rules
that cannot be reached themselves use it.
---
 src/grammar/base.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/grammar/base.rs b/src/grammar/base.rs
index ee19dea..0dfd99a 100644
--- a/src/grammar/base.rs
+++ b/src/grammar/base.rs
@@ -438,15 +438,18 @@ where
   }
 
   fn reachable_nonterms(&self) -> BTreeSet<&NT> {
-    breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
-      self
-        .try_get_rule(nt)
-        .into_iter()
-        .flat_map(|r| r.prods())
-        .flat_map(|p| p.elements())
-        .filter_map(|e| e.as_nonterm())
-        .collect::<BTreeSet<_>>()
-    })
+    let mut reachable =
+      breadth_first_search(std::iter::once(&self.start_symbol), |nt| {
+        self
+          .try_get_rule(nt)
+          .into_iter()
+          .flat_map(|r| r.prods())
+          .flat_map(|p| p.elements())
+          .filter_map(|e| e.as_nonterm())
+          .collect::<BTreeSet<_>>()
+      });
+    reachable.insert(&self.start_symbol);
+    reachable
   }
 
   fn unreachable_nonterms(&self) -> BTreeSet<&NT> {
-- 
2.43.0


From 1a909fc132a14319b2435aedcbbe30493228ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:20 +0000
Subject: [PATCH 13/13] fix: keep the non-empty forms of nullable productions

Removing nullability left out every production that can derive the empty
sequence, instead of only its empty form, so sequences derived through it
were lost or the grammar did not build.
---
 src/grammar/transform/nonnull.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar/transform/nonnull.rs b/src/grammar/transform/nonnull.rs
index cb2a15b..0ab1391 100644
--- a/src/grammar/transform/nonnull.rs
+++ b/src/grammar/transform/nonnull.rs
@@ -123,10 +123,6 @@ where
     for (nt, rule) in g.rule_set() {
       g_builder.add_rule(nt.clone(), |r_builder| {
         for prod in rule.prods() {
-          if nullable.is_prod_nullable(&prod) {
-            continue;
-          }
-
           build_nonnull_prods(nullable.get_nullable_info(), &prod, r_builder);
         }
       });
@@ -202,6 +198,11 @@ fn build_nonnull_prods<T, NT, AK, AV>(
   }
 
   for curr_build_state in curr_build_states {
+    // Productions that end up empty are left out.
+    if curr_build_state.elems.is_empty() {
+      continue;
+    }
+
     let prev_action_value = prod.action_value();
 
     let new_action_key = ActionKey {
-- 
2.43.0


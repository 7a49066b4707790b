From db9a6270b81d4a267a9f5faa7833413d7ab4ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 01/19] fix: make the tree module public so that VMs can be
 implemented outside the crate

The signature of VM::execute_instruction names Tree and NodeId; with the
module private no user of the crate could implement the documented trait
(the doc example of vms::VM did not compile).
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From 3bc9af1ead1f9bcacae52fdbe93413ddf993b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:36 +0000
Subject: [PATCH 02/19] fix: report the same error in every run

The list of expected characters, the conflict that is reported and the rule
that is looked at first followed the random iteration order of hash maps.
---
 src/parser_data.rs   |  4 ++--
 src/script_parser.rs | 17 ++++++++++-------
 src/sets.rs          |  2 +-
 src/steuer_map.rs    |  4 +++-
 4 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/parser_data.rs b/src/parser_data.rs
index 0a43943..bba5b46 100644
--- a/src/parser_data.rs
+++ b/src/parser_data.rs
@@ -6,7 +6,7 @@
 
 use crate::peekables::{ParseProcess, PeekableWrapper};
 use crate::vms::VM;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 use std::rc::Rc;
 use std::str::Chars;
@@ -188,7 +188,7 @@ where
     }
 }
 
-pub type RuleMap<T> = HashMap<ElementIndex, NonTerminalRules<T>>;
+pub type RuleMap<T> = BTreeMap<ElementIndex, NonTerminalRules<T>>;
 
 pub type Ppp<'pp> = ParseProcess<'pp, PeekableWrapper<Chars<'pp>>>;
 
diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..9e0225e 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -229,17 +229,20 @@ where
             .ok_or(MissingProduction { index: el_index })?;
         let fitting_production: Option<&Rc<Production>> = nt_rule.steuermap.get(cur);
         match fitting_production {
-            None => Err(UnexpectedCharError {
-                chr: *to_parse.peek().unwrap_or(&'#'),
-                pos: to_parse.cur_pos(),
-                expected: nt_rule
+            None => {
+                let mut expected = nt_rule
                     .steuermap
                     .keys()
                     .cloned()
                     .map(|x| x.into())
-                    .collect::<Vec<String>>()
-                    .join(";"),
-            }),
+                    .collect::<Vec<String>>();
+                expected.sort();
+                Err(UnexpectedCharError {
+                    chr: *to_parse.peek().unwrap_or(&'#'),
+                    pos: to_parse.cur_pos(),
+                    expected: expected.join(";"),
+                })
+            }
             Some(fp) => Ok(fp),
         }
     }
diff --git a/src/sets.rs b/src/sets.rs
index 25fd4e2..0bc690e 100644
--- a/src/sets.rs
+++ b/src/sets.rs
@@ -40,7 +40,7 @@ impl Into<String> for SetMemberWithEmpty {
     }
 }
 
-#[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
+#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Copy, Clone, Debug)]
 pub enum SetMember {
     Char(char),
     Terminate,
diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..46651d8 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -118,7 +118,9 @@ fn fill_with_steuer_set(
     prod: &Rc<Production>,
     cur_rule_name: ElementIndex,
 ) -> Result<(), GrammarError> {
-    for follow_char in set_no_empty {
+    let mut members = set_no_empty.iter().collect::<Vec<_>>();
+    members.sort();
+    for follow_char in members {
         let old_key = steuer_map.insert(*follow_char, Rc::clone(&prod));
         if old_key.is_some() {
             return Err(SteuerSetsNotDistinct {
-- 
2.43.0


From 055972402d093169308b628031a0ba83ef39779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:23 +0000
Subject: [PATCH 03/19] fix: keep tree handles truthful when nodes are removed

The free list was searched for the handle's key instead of its slot, a removed
branch was put on the free list twice (so two later nodes shared a slot), a
refused add_node lost a free slot, and the children of a removed node could
still be listed.
---
 src/tree.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..016462f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
@@ -139,7 +141,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let Ok(node) = self.get_node(node_id) else {
+            return children;
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
@@ -196,7 +200,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +226,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -241,7 +245,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From d0feb3d7066f4c7ae4ff5b0e9adf84e6d37878ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 04/19] fix: make peeking at a delimited section free of side
 effects

Peeking changed the escape state, so that peek and next disagreed on whether an
escaped stop character belongs to the section; peek_mut ignored the stop
character, and so did every call when no escape character was set.
---
 src/peekables.rs | 42 +++++++++++++++++-------------------------
 1 file changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..0260b53 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,10 +135,7 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 }
 
@@ -154,6 +151,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,10 +161,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 
     fn next_if_eq(&mut self, expected: &char) -> Option<char> {
@@ -172,10 +169,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.consumed(res)
     }
 }
 
@@ -184,19 +178,17 @@ where
     T: TPeekable<Item = char>,
 {
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
-                return false;
-            } else {
-                self.escape = false;
-            }
+        match (self.to_parse.peek(), self.stop_on) {
+            (Some(&c), Some(stop_char)) => c != stop_char || self.escape,
+            _ => true,
         }
-        true
     }
-}
 
+    fn consumed(&mut self, chr: Option<char>) -> Option<char> {
+        if chr.is_some() {
+            self.current_position += 1;
+            self.escape = chr == self.escape_char;
+        }
+        chr
+    }
+}
-- 
2.43.0


From bf169b7c59ea8b685b1cf34292650e21df1bb7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 05/19] fix: refuse scripts that go on after the start
 production

Left over characters after a complete derivation were silently ignored.
---
 src/script_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 9e0225e..08161f4 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -214,6 +214,14 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        let pos = to_parse.cur_pos();
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos,
+                expected: SetMember::Terminate.into(),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From baf5d6d12fe272e64878961598e17c59e80c6fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 06/19] fix: start parsing at the given start production

new_from_parser_data ignored its start index when parsing and always looked for
a production named start.
---
 src/script_parser.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 08161f4..20c55c6 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -60,6 +60,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the start production; the production named "start" if not set
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -113,6 +115,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -141,7 +144,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
@@ -167,6 +171,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -204,13 +209,14 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = self.start_index.unwrap_or_else(|| {
+            self.elements
+                .iter()
+                .position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
+                .unwrap()
+        });
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 0a50beea8a549c87915c6144876d9014699f62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 07/19] fix: choose alternatives by what the whole alternative
 can start with

An alternative that starts with a production that can be empty was entered
under everything that follows that production anywhere in the grammar, which
refused LL(1) grammars as conflicting; an empty terminal crashed the process.
---
 src/steuer_map.rs | 69 ++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 46651d8..a1c3d31 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -3,16 +3,18 @@
 //! A steuer map links a lookahead symbol to a specific production. This module
 //! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
 use std::collections::{HashMap, HashSet};
+use std::convert::TryFrom;
+use std::mem;
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ElementType, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -34,20 +36,20 @@ pub fn get_steuermaps<T>(
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
+    let mut parser_data = parser_data;
+    let rules = mem::take(&mut parser_data.parse_rules.rules);
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    for (rule_name, productions) in rules.into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,41 +64,52 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
             let first = el[0];
-            let et = el_types
-                .get(first)
+            let element = parser_data
+                .get_element_verbose(first)
                 .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
+            let name = element.name;
+            match (element.et, name.chars().next()) {
+                (ElementType::Terminal, Some(chr)) => {
+                    let old_key = steuer_map.insert(SetMember::Char(chr), prod_ref);
                     if old_key.is_some() {
                         return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
+                            steuer_terminal: name,
+                            steuer_char: chr,
                             rule_name: cur_rule_name.to_string(),
                         });
                     }
                 }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
+                _ => {
+                    // what follows the rule only matters if the whole production can be empty
+                    let first_set = first_set_of_partial(el, first_sets, parser_data)?;
+                    let mut steuer_menge = first_set
+                        .iter()
+                        .filter_map(|x| SetMember::try_from(*x).ok())
+                        .collect::<HashSet<_>>();
+                    if first_set.contains(&SetMemberWithEmpty::Empty) {
+                        steuer_menge.extend(follow_sets.get(&cur_rule_name).ok_or(
+                            MissingFollowSet {
+                                index: cur_rule_name,
+                            },
+                        )?);
+                    }
+                    fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
                 }
             }
             Ok(())
-- 
2.43.0


From 01e587ad7f2374bcda21dd102a8847286bc25c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:36 +0000
Subject: [PATCH 08/19] fix: refuse left recursive rules instead of overflowing
 the stack

---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 23 ++++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..78aba07 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -95,6 +95,9 @@ pub enum GrammarError {
     MissingProduction {
         index: ElementIndex,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     SteuerSetsNotDistinct {
         steuer_terminal: String,
         steuer_char: char,
@@ -133,6 +136,9 @@ impl fmt::Display for GrammarError {
             GrammarError::MissingProduction { index } => {
                 write!(f, " \"{index}\" not in productions")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..64b6c2d 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,7 +47,7 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, &mut vec![], parser_data)?;
     }
     Ok(first_sets)
 }
@@ -55,6 +55,7 @@ where
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
+    in_progress: &mut Vec<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -67,10 +68,16 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            if in_progress.contains(&el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
+            in_progress.push(el_ix);
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                 set.extend(&rus);
             }
+            in_progress.pop();
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -105,6 +112,7 @@ where
 fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
+    in_progress: &mut Vec<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -113,11 +121,16 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                in_progress,
+                parser_data,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set =
+                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index 20c55c6..28ed0d4 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From acf42226be36e589df0aea7ac7ec39bd542d8fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 09/19] fix: read the $IGNORE directive

The documented directive was rejected as an unexpected character.
---
 src/rule_parsing.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..f2a5c81 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -12,7 +12,7 @@ use std::str::Chars;
 
 use crate::errors::GrammarError::UnexpectedElementError;
 use crate::errors::ParserError;
-use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError};
+use crate::errors::ParserError::{EndOfCharsError, UnexpectedCharError, UnknownSpecialOperation};
 use crate::parse_funcs::{parse_symbol, parse_var_name, parse_whitespace};
 use crate::parser_data::{
     ElementIndex, ElementType, ElementVerbose, NonTerminalRules, ParseRules, ParserData,
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_special_operation()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -62,6 +66,23 @@ where
         Ok(&self.parser_data.parse_rules)
     }
 
+    fn parse_special_operation(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let name = parse_var_name(&mut self.parse_process)?;
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        let ignore = self.parser_data.get_or_add_non_terminal(&name);
+        self.parser_data.parse_rules.ignore = Some(ignore);
+        Ok(())
+    }
+
     fn edit_rules(&mut self) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
-- 
2.43.0


From a970dae3d29ca49d5416743c1a90d1f7b5658023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 10/19] fix: set the error indicator when a result is out of
 range

Subtraction below zero, overflows and negative or huge exponents crashed the
process (or wrapped silently in release builds).
---
 src/vms/simple_stack_vm.rs | 32 +++++++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 33 ++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..d365a0e 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -10,6 +10,16 @@ pub struct SimpleStackVmState {
     pub error: usize,
 }
 
+impl SimpleStackVmState {
+    fn push_result(&mut self, res: Option<usize>) {
+        if let Some(res) = res {
+            self.stack.push(res);
+        } else {
+            self.error = 3; // Result out of range
+        }
+    }
+}
+
 pub enum Instruction {
     Add,
     RegAddConst(usize),
@@ -74,16 +84,16 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    let res = state.reg.checked_add(var);
+                    state.push_result(res);
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    let res = var.checked_sub(state.reg);
+                    state.push_result(res);
                 } else {
                     state.error = 1
                 }
@@ -143,8 +153,12 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|power| val.checked_mul(power))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    state.push_result(res);
                 } else {
                     state.error = 1
                 }
@@ -152,7 +166,11 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Result out of range
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..6801398 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -32,6 +32,16 @@ pub struct StackVmState {
     pub instruction_counter: usize,
     pub instructions: Vec<Instruction>,
 }
+impl StackVmState {
+    fn push_result(&mut self, res: Option<isize>) {
+        if let Some(res) = res {
+            self.stack.push(res);
+        } else {
+            self.error = 3; // Result out of range
+        }
+    }
+}
+
 pub struct StackVm {}
 
 impl VM for StackVm {
@@ -98,16 +108,16 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    let res = state.reg.checked_add(var);
+                    state.push_result(res);
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    let res = var.checked_sub(state.reg);
+                    state.push_result(res);
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +177,13 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exp| base.checked_pow(exp))
+                        .and_then(|power| isize::try_from(power).ok())
+                        .and_then(|power| val.checked_mul(power))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    state.push_result(res);
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +191,11 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Result out of range
+                }
             }
         }
     }
-- 
2.43.0


From 88bf7cbd4b4d74c0cce78737a59d5eaf01d47f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:29 +0000
Subject: [PATCH 11/19] fix: refuse constants outside the stack machine's
 number range

They were wrapped to negative numbers.
---
 src/vms/stack_vm.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 6801398..d26742d 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -1,4 +1,5 @@
 use crate::errors::ParserError;
+use crate::errors::ParserError::Impossible;
 use crate::parse_funcs::{parse_var_name, parse_whitespace};
 use crate::peekables::{ParseProcess, TPeekable};
 use crate::tree::{NodeId, Tree};
@@ -66,8 +67,8 @@ impl VM for StackVm {
                 "Add" => instructions.push(Instruction::Add),
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    let val = isize::try_from(parse_usize(to_parse)?).map_err(|_| Impossible)?;
+                    instructions.push(Instruction::RegAddConst(val));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -76,8 +77,8 @@ impl VM for StackVm {
                 "PopDiscard" => instructions.push(Instruction::PopDiscard),
                 "PushConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    let val = isize::try_from(parse_usize(to_parse)?).map_err(|_| Impossible)?;
+                    instructions.push(Instruction::PushConst(val));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From f26ce6af72a55f283f6a3481df21072f233e9c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 12/19] fix: refuse brace sections the VM did not read to the
 end

A VM that stopped in front of an escaped closing brace had the rest of its
section read as grammar text.
---
 src/rule_parsing.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index f2a5c81..f7e12a0 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -255,6 +255,13 @@ where
         let mut g =
             ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\'), cur_pos);
         let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
+        if let Some(&chr) = g.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: g.cur_pos(),
+                expected: String::from('}'),
+            });
+        }
         self.parse_symbol('}')?;
         Ok(instruction)
     }
-- 
2.43.0


From 7329b6563cd4acaed3347f3d0d7f4328bf90c2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:42 +0000
Subject: [PATCH 13/19] fix: parse deeply nested scripts without overflowing
 the call stack

---
 src/script_parser.rs | 90 ++++++++++++++++++++++++++++++--------------
 1 file changed, 61 insertions(+), 29 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 28ed0d4..f43ee3d 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -62,6 +62,18 @@ where
     start_index: Option<ElementIndex>,
 }
 
+/// A production whose parsing has begun
+struct OpenProduction<'p, T>
+where
+    T: VM,
+{
+    /// Node of the production in the parse tree
+    id: NodeId,
+    /// Elements of the production that are not parsed yet
+    remaining: std::slice::Iter<'p, ElementIndex>,
+    instructions: &'p Vec<T::Tinstrution>,
+}
+
 impl<'a, T> Parser<'a, T>
 where
     T: VM + 'a,
@@ -266,6 +278,47 @@ where
         tree: &mut Tree<String>,
         current_node: Option<NodeId>,
     ) -> Result<(), ParserError> {
+        // Productions that are not complete yet, the innermost one last. They are kept here and not
+        // on the call stack because scripts can be nested arbitrarily deep.
+        let mut open = vec![self.begin_production(to_parse, el_index, tree, current_node)?];
+        while let Some(production) = open.last_mut() {
+            let id = production.id;
+            let Some(next_element_index) = production.remaining.next() else {
+                let instructions = production.instructions;
+                open.pop();
+                self.run_instructions(tree, id, instructions, state);
+                continue;
+            };
+            let element_next = self.elements.get(*next_element_index).unwrap().clone();
+
+            match element_next.et {
+                ElementType::Terminal => {
+                    let _ = tree.add_node(
+                        self.parse_terminal(to_parse, element_next.name.as_str())?,
+                        Some(id),
+                    );
+                }
+                ElementType::NonTerminal => {
+                    open.push(self.begin_production(
+                        to_parse,
+                        *next_element_index,
+                        tree,
+                        Some(id),
+                    )?);
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    fn begin_production(
+        &self,
+        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
+        el_index: ElementIndex,
+        tree: &mut Tree<String>,
+        current_node: Option<NodeId>,
+    ) -> Result<OpenProduction<'_, T>, ParserError> {
         let cur = SetMember::from(to_parse.peek());
         let nt_rule = self
             .rules_with_steuermaps
@@ -277,36 +330,15 @@ where
         let id = tree.add_node(String::from(""), current_node)?;
 
         let prod = &**fitting_production;
-        match prod {
-            Production::NotEmpty(prod_not_empty) => {
-                for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
-
-                    match element_next.et {
-                        ElementType::Terminal => {
-                            let _ = tree.add_node(
-                                self.parse_terminal(to_parse, element_next.name.as_str())?,
-                                Some(id),
-                            );
-                        }
-                        ElementType::NonTerminal => {
-                            self.parse_production(
-                                to_parse,
-                                *next_element_index,
-                                state,
-                                tree,
-                                Some(id),
-                            )?;
-                        }
-                    }
-                }
-            }
-            Production::Empty => {}
+        let elements: &[ElementIndex] = match prod {
+            Production::NotEmpty(prod_not_empty) => prod_not_empty,
+            Production::Empty => &[],
         };
-
-        self.run_instructions(tree, id, &nt_rule.instruction, state);
-
-        Ok(())
+        Ok(OpenProduction {
+            id,
+            remaining: elements.iter(),
+            instructions: &nt_rule.instruction,
+        })
     }
 
     fn run_instructions(
-- 
2.43.0


From 9b0b465b95877e8545e02f7020d9aa5a4db8a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 14/19] fix: remove deep branches without overflowing the call
 stack

---
 src/tree.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 016462f..3cb7f79 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -130,11 +130,11 @@ impl<T> Tree<T> {
 
     pub fn get_descendants(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut descendants = vec![];
-        let children = self.get_children(node_id);
-        descendants.extend(&children);
-        for child in children {
-            let child_descendants = self.get_descendants(child);
-            descendants.extend(child_descendants);
+        let mut open = vec![node_id];
+        while let Some(node) = open.pop() {
+            let children = self.get_children(node);
+            descendants.extend(&children);
+            open.extend(children.into_iter().rev());
         }
         descendants
     }
-- 
2.43.0


From d2cccb92d5f51fec03fe4708fbf196ccc0272d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 15/19] fix: long chains of rules overflowed the call stack
 when first sets were computed

---
 src/first_sets.rs | 129 +++++++++++++++++++++++++---------------------
 1 file changed, 71 insertions(+), 58 deletions(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index 64b6c2d..c23c6d7 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -5,6 +5,8 @@
 use crate::errors::GrammarError;
 use crate::parser_data::{ElementIndex, ElementType, ParserData, Production};
 use std::collections::{HashMap, HashSet};
+use std::mem;
+use std::rc::Rc;
 
 use crate::sets::{NamedSets, SetMemberWithEmpty};
 use crate::vms::VM;
@@ -41,49 +43,95 @@ where
     Ok(set)
 }
 
+/// A rule whose first set is being computed
+struct OpenRule<'p> {
+    index: ElementIndex,
+    first_set: HashSet<SetMemberWithEmpty>,
+    /// Productions that are not finished yet
+    productions: std::slice::Iter<'p, Rc<Production>>,
+    /// Elements of the current production that were not looked at yet
+    elements: &'p [ElementIndex],
+}
+
 pub fn get_first_sets<T>(parser_data: &ParserData<T>) -> Result<NamedSets, GrammarError>
 where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, &mut vec![], parser_data)?;
+        if !first_sets.contains_key(&el_ix) {
+            set_first_set_of_rule(el_ix, &mut first_sets, parser_data)?;
+        }
     }
     Ok(first_sets)
 }
 
-fn get_set_first_set_of_element<T>(
+fn set_first_set_of_rule<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
-    in_progress: &mut Vec<ElementIndex>,
     parser_data: &ParserData<T>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
+) -> Result<(), GrammarError>
 where
     T: VM,
 {
-    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
-    let res = match set_maybe {
-        None => {
-            let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
-            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
-                    return Err(GrammarError::MissingProduction { index: el_ix });
-                };
-            if in_progress.contains(&el_ix) {
-                return Err(GrammarError::LeftRecursion { index: el_ix });
+    // Rules whose first sets are not complete yet, each waiting for the one behind it. They are kept
+    // here and not on the call stack because rules can depend on one another over any length.
+    let mut in_progress = HashSet::from([el_ix]);
+    let mut open = vec![open_rule(el_ix, parser_data)?];
+    while let Some(rule) = open.last_mut() {
+        let Some(&element) = rule.elements.first() else {
+            match rule.productions.next().map(|production| &**production) {
+                None => {
+                    in_progress.remove(&rule.index);
+                    first_sets.insert(rule.index, mem::take(&mut rule.first_set));
+                    open.pop();
+                }
+                Some(Production::Empty) => {
+                    rule.first_set.insert(SetMemberWithEmpty::Empty);
+                }
+                Some(Production::NotEmpty(el_ixs)) => rule.elements = el_ixs,
+            }
+            continue;
+        };
+        match get_first_set_of_element(element, first_sets, parser_data)? {
+            None => {
+                let next = open_rule(element, parser_data)?;
+                if !in_progress.insert(element) {
+                    return Err(GrammarError::LeftRecursion { index: element });
+                }
+                open.push(next);
             }
-            in_progress.push(el_ix);
-            for production in &productions.possible_productions {
-                let rus =
-                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
-                set.extend(&rus);
+            Some(mut first_set) => {
+                let has_empty = first_set.remove(&SetMemberWithEmpty::Empty);
+                rule.first_set.extend(first_set);
+                rule.elements = &rule.elements[1..];
+                if !has_empty {
+                    rule.elements = &[];
+                } else if rule.elements.is_empty() {
+                    rule.first_set.insert(SetMemberWithEmpty::Empty);
+                }
             }
-            in_progress.pop();
-            first_sets.insert(el_ix, set.clone());
-            Ok(set)
         }
-        Some(x) => Ok(x),
+    }
+    Ok(())
+}
+
+fn open_rule<T>(
+    index: ElementIndex,
+    parser_data: &ParserData<T>,
+) -> Result<OpenRule<'_>, GrammarError>
+where
+    T: VM,
+{
+    let Some(rule) = parser_data.parse_rules.rules.get(&index) else {
+        return Err(GrammarError::MissingProduction { index });
     };
-    res
+    Ok(OpenRule {
+        index,
+        first_set: HashSet::new(),
+        productions: rule.possible_productions.iter(),
+        elements: &[],
+    })
 }
 
 fn get_first_set_of_element<T>(
@@ -109,41 +157,6 @@ where
     Ok(res)
 }
 
-fn get_first_set_of_production<T>(
-    production: &Production,
-    first_sets: &mut NamedSets,
-    in_progress: &mut Vec<ElementIndex>,
-    parser_data: &ParserData<T>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
-where
-    T: VM,
-{
-    match production {
-        Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
-        Production::NotEmpty(el_ixs) => {
-            let mut first_menge = get_set_first_set_of_element(
-                *el_ixs.first().unwrap(),
-                first_sets,
-                in_progress,
-                parser_data,
-            )?;
-            if first_menge.contains(&SetMemberWithEmpty::Empty) {
-                for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set =
-                        get_set_first_set_of_element(*el_ix, first_sets, in_progress, parser_data)?;
-                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
-                    first_menge.extend(cur_set);
-                    if !has_empty {
-                        first_menge.remove(&SetMemberWithEmpty::Empty);
-                        break;
-                    }
-                }
-            }
-            Ok(first_menge)
-        }
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use crate::parser_data::ElementVerbose;
-- 
2.43.0


From 97d6c7b271d3027bda7c136cb24df5975af9999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 16/19] fix: long chains of rules overflowed the call stack
 when ignored text was woven in

---
 src/rule_parsing.rs | 78 +++++++++++++++------------------------------
 1 file changed, 26 insertions(+), 52 deletions(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index f7e12a0..b0bf4c0 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -394,61 +394,35 @@ fn check_is_derivative<T>(
 where
     T: VM,
 {
-    _check_is_derivative(element_types, parse_rules, left, right, &mut HashSet::new())
-}
-
-fn _check_is_derivative<T>(
-    element_types: &Vec<ElementType>,
-    parse_rules: &ParseRules<T>,
-    left: ElementIndex,
-    right: ElementIndex,
-    visited: &mut HashSet<ElementIndex>,
-) -> Result<bool, ParserError>
-where
-    T: VM,
-{
-    if let ElementType::Terminal = element_types.get(left).unwrap() {
-        return Ok(false);
-    }
-    let prods = &parse_rules
-        .rules
-        .get(&left)
-        .ok_or(ParserError::InternalError {
-            message: format!("could not find production for index {left}"),
-        })?
-        .possible_productions;
-
-    if left == right {
-        return Ok(true);
-    }
-    if visited.contains(&left) {
-        return Ok(false);
-    }
-    visited.insert(left.clone());
-
-    let mut is_der = false;
-    for prod in prods {
-        match &**prod {
-            Production::NotEmpty(prod_ne, ..) => {
-                for el in prod_ne {
-                    if *el == right {
-                        return Ok(true);
-                    } else {
-                        is_der = is_der
-                            || _check_is_derivative(
-                                element_types,
-                                parse_rules,
-                                *el,
-                                right,
-                                visited,
-                            )?;
-                    }
-                }
+    // Elements still to be looked at, the next one last. They are kept here and not on the call stack
+    // because rules can depend on one another over any length.
+    let mut visited = HashSet::new();
+    let mut open = vec![left];
+    while let Some(element) = open.pop() {
+        if let ElementType::Terminal = element_types.get(element).unwrap() {
+            continue;
+        }
+        let prods = &parse_rules
+            .rules
+            .get(&element)
+            .ok_or(ParserError::InternalError {
+                message: format!("could not find production for index {element}"),
+            })?
+            .possible_productions;
+
+        if element == right {
+            return Ok(true);
+        }
+        if !visited.insert(element) {
+            continue;
+        }
+        for prod in prods.iter().rev() {
+            if let Production::NotEmpty(prod_ne) = &**prod {
+                open.extend(prod_ne.iter().rev());
             }
-            Production::Empty => {}
         }
     }
-    Ok(is_der)
+    Ok(false)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7fea11e922591b31b6ac467fd2f3be65deb31a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 17/19] fix: looking up a node by index in an empty graph
 panicked

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From fd7b2d222e92b333087d4506de46d229e9fe41a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:11 +0000
Subject: [PATCH 18/19] fix: adding an edge beside one with the highest id
 overflowed

---
 src/simple_graph.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/simple_graph.rs b/src/simple_graph.rs
index 1631c0c..9982a4f 100644
--- a/src/simple_graph.rs
+++ b/src/simple_graph.rs
@@ -60,7 +60,15 @@ impl<T> Graph<T> {
         let last_edge_index = node_data.first_outgoing_edge;
         let new_edge_id = match last_edge_index {
             None => 0,
-            Some(index) => self.edges.get(index).unwrap().id + 1,
+            Some(index) => match self.edges.get(index).unwrap().id.checked_add(1) {
+                Some(id) => id,
+                None => {
+                    // the highest id of all is taken, so this edge gets the lowest that is free
+                    let id = self.lowest_free_edge_id(source);
+                    self.try_add_edge_with_id(source, target, id);
+                    return;
+                }
+            },
         };
         self.edges.push(EdgeData {
             target,
@@ -70,6 +78,22 @@ impl<T> Graph<T> {
         node_data.first_outgoing_edge = Some(edge_index);
     }
 
+    fn lowest_free_edge_id(&self, source: NodeIndex) -> EdgeId {
+        let ids: Vec<EdgeId> = self
+            .connected_edges(source)
+            .map(|edge_index| self.edges[edge_index].id)
+            .collect();
+        // the edges of a node are kept with the highest id first
+        let mut free = 0;
+        for id in ids.into_iter().rev() {
+            if id != free {
+                break;
+            }
+            free += 1;
+        }
+        free
+    }
+
     pub fn try_add_edge_with_id(
         &mut self,
         source: NodeIndex,
-- 
2.43.0


From f8e671214dd1ed5561ab2fcda9b68b913a1a64e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 19/19] fix: file names that are not UTF-8 made the tool panic

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8093720..e8bd3c8 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,7 +15,7 @@ use std::{env, fs};
 /// It parses the script according to the grammar rules and returns the parse tree.
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<std::ffi::OsString> = env::args_os().collect();
     let rule_path = &args[1];
     let script_path = &args[2];
     let rules = fs::read_to_string(rule_path).expect("Unable to read rule file");
-- 
2.43.0


From 4a4a1d961ad32aae59c9ee5409fc9ae1efcbf79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 01/12] fix: a loop over the empty language with lower bound 0
 denotes epsilon

---
 src/regular_expressions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 02a5b4f..4092a31 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1355,7 +1355,9 @@ impl ReManager {
             e
         } else {
             match &e.expr {
-                // empty ^ [i, j] --> empty
+                // empty ^ [0, j] --> epsilon
+                BaseRegLan::Empty if range.start() == 0 => self.epsilon,
+                // empty ^ [i, j] --> empty if i > 0
                 BaseRegLan::Empty => self.empty,
                 // epsilon ^ [i, j] --> epsilon
                 BaseRegLan::Epsilon => self.epsilon,
-- 
2.43.0


From bfa27c7c211c8bfd697e3b743706fb025c238fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 02/12] fix: str_indexof finds the empty string at the end of
 its first argument

---
 src/smt_strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 988370b..db8f83e 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -779,7 +779,7 @@ pub fn str_contains(s1: &SmtString, s2: &SmtString) -> bool {
 /// ```
 ///
 pub fn str_indexof(s1: &SmtString, s2: &SmtString, i: i32) -> i32 {
-    if i < 0 || i >= s1.len() as i32 {
+    if i < 0 || i > s1.len() as i32 {
         -1
     } else {
         match find_sub_vector(&s2.s, &s1.s, i as usize) {
-- 
2.43.0


From 03ed27f2486e403a02c8ae7d723dc1b5970cec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:16 +0000
Subject: [PATCH 03/12] fix: SmtString's Display escapes a backslash that would
 start an escape sequence

---
 src/smt_strings.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index db8f83e..8b53f08 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -387,12 +387,16 @@ pub fn smt_char_as_string(x: u32) -> String {
 // Convert to an ASCII string in the SMT syntax
 // - use escape sequences for non-printable ASCII characters and non-ASCII characters
 // - convert "  to ""
+// - escape a backslash followed by 'u' so that the two characters are not read
+//   back as the start of an escape sequence
 impl fmt::Display for SmtString {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "\"")?;
-        for &x in self.s.iter() {
+        for (i, &x) in self.s.iter().enumerate() {
             if x == '"' as u32 {
                 write!(f, "\"\"")?;
+            } else if x == '\\' as u32 && self.s.get(i + 1) == Some(&('u' as u32)) {
+                write!(f, "\\u{{5c}}")?;
             } else if x >= 32 && x < 127 {
                 write!(f, "{}", char::from_u32(x).unwrap())?;
             } else if x < 32 || x == 127 {
-- 
2.43.0


From 4b69fa529dcf3a2d3625bcc8a3a7f5d912ccd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:18 +0000
Subject: [PATCH 04/12] fix: str_to_int detects overflow reliably and returns
 -1 for any non-digit string

---
 src/smt_strings.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 8b53f08..384cb6b 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -948,17 +948,16 @@ pub fn str_to_int(s: &SmtString) -> i32 {
         return -1;
     }
 
+    if !s.s.iter().all(|&d| char_is_digit(d)) {
+        return -1;
+    }
+
     let mut x: i32 = 0;
     for &d in &s.s {
-        if char_is_digit(d) {
-            let y = 10 * x + (d as i32 - '0' as i32);
-            if y < x {
-                panic!("Arithmetic overflow in str_to_int");
-            }
-            x = y;
-        } else {
-            return -1;
-        }
+        x = x
+            .checked_mul(10)
+            .and_then(|y| y.checked_add(d as i32 - '0' as i32))
+            .expect("Arithmetic overflow in str_to_int");
     }
     x
 }
-- 
2.43.0


From 1e099ae874c11c99a601b6ae9de670a2748298d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:21 +0000
Subject: [PATCH 05/12] fix: interval_cover compares with the start of the next
 interval

---
 src/character_sets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/character_sets.rs b/src/character_sets.rs
index d7093f0..67801b1 100644
--- a/src/character_sets.rs
+++ b/src/character_sets.rs
@@ -935,7 +935,7 @@ impl CharPartition {
             }
         } else {
             // note: we know i < p.len() <= MAX_CHAR so i+1 can't overflow here
-            let next_ai = self.end(i + 1);
+            let next_ai = self.start(i + 1);
             if b < next_ai {
                 // a_i <= b_i < a <= b < a_{i+1}
                 CoverResult::DisjointFromAll
-- 
2.43.0


From 4189f3f706d6aac8bd434e89029a805d686088af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:23 +0000
Subject: [PATCH 06/12] fix: right_mul_is_exact doesn't panic when its gap
 criterion exceeds u32::MAX

---
 src/loop_ranges.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/loop_ranges.rs b/src/loop_ranges.rs
index 697ab1e..0dc6ae4 100644
--- a/src/loop_ranges.rs
+++ b/src/loop_ranges.rs
@@ -354,7 +354,9 @@ impl LoopRange {
                 // c = other.start()
                 // b = self.end()
                 // a = self.start()
-                mul32(other.start(), self.end() - self.start()) >= self.start().saturating_sub(1)
+                // the left-hand side may exceed u32::MAX: saturate (the right-hand side can't)
+                other.start().saturating_mul(self.end() - self.start())
+                    >= self.start().saturating_sub(1)
             }
     }
 
-- 
2.43.0


From 07c98eb8acffd5daa5fbc54df26e81df3d4239cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 07/12] fix: strings built from Rust strings, chars, or
 literals contain only SMT characters

---
 src/smt_strings.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/smt_strings.rs b/src/smt_strings.rs
index 384cb6b..b13f3a6 100644
--- a/src/smt_strings.rs
+++ b/src/smt_strings.rs
@@ -100,6 +100,15 @@ impl SmtString {
     }
 }
 
+// Convert an integer to a valid SMT character: replace x by 0xfffd if it's more than MAX_CHAR
+fn smt_char(x: u32) -> u32 {
+    if x <= MAX_CHAR {
+        x
+    } else {
+        REPLACEMENT_CHAR
+    }
+}
+
 impl AsRef<[u32]> for SmtString {
     fn as_ref(&self) -> &[u32] {
         self.s.as_ref()
@@ -109,6 +118,8 @@ impl AsRef<[u32]> for SmtString {
 ///
 /// Construct an SmtString from a UTF8 string x
 ///
+/// Any character of x that's not in the range [0, 0x2ffff] is replaced by 0xfffd.
+///
 /// # Example
 /// ```
 /// use aws_smt_strings::smt_strings::*;
@@ -118,7 +129,7 @@ impl AsRef<[u32]> for SmtString {
 /// ```
 impl From<&str> for SmtString {
     fn from(x: &str) -> Self {
-        SmtString::make(x.chars().map(|c| c as u32).collect())
+        SmtString::make(x.chars().map(|c| smt_char(c as u32)).collect())
     }
 }
 
@@ -143,7 +154,7 @@ impl From<&[u32]> for SmtString {
     fn from(a: &[u32]) -> Self {
         SmtString::make(
             a.iter()
-                .map(|&x| if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR })
+                .map(|&x| smt_char(x))
                 .collect(),
         )
     }
@@ -172,17 +183,18 @@ impl From<Vec<u32>> for SmtString {
 ///
 impl From<u32> for SmtString {
     fn from(x: u32) -> Self {
-        let x = if x <= MAX_CHAR { x } else { REPLACEMENT_CHAR };
-        SmtString::make(vec![x])
+        SmtString::make(vec![smt_char(x)])
     }
 }
 
 ///
 /// Construct a single-character string from character x.
 ///
+/// Convert x to 0xfffd if it's not a valid SMT character (i.e., if x is not in the range [0, 0x2ffff])
+///
 impl From<char> for SmtString {
     fn from(x: char) -> SmtString {
-        SmtString::make(vec![x as u32])
+        SmtString::make(vec![smt_char(x as u32)])
     }
 }
 
@@ -222,14 +234,14 @@ fn new_automaton() -> ParsingAutomaton {
 impl ParsingAutomaton {
     // add char x to the string so far
     fn push(&mut self, x: char) {
-        self.string_so_far.push(x as u32);
+        self.string_so_far.push(smt_char(x as u32));
     }
 
     // add char x to the pending array
     fn pending(&mut self, x: char) {
         let i = self.pending_idx;
         assert!(i < 9);
-        self.pending[i] = x as u32;
+        self.pending[i] = smt_char(x as u32);
         self.pending_idx += 1;
     }
 
-- 
2.43.0


From af59af5505a6346d334bc5cffc3cde0c36a9a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:28 +0000
Subject: [PATCH 08/12] fix: start_char is exact for concatenations and
 intersections

---
 src/regular_expressions.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/regular_expressions.rs b/src/regular_expressions.rs
index 4092a31..de8c499 100644
--- a/src/regular_expressions.rs
+++ b/src/regular_expressions.rs
@@ -1869,14 +1869,11 @@ impl ReManager {
             BaseRegLan::Empty => false,
             BaseRegLan::Epsilon => false,
             BaseRegLan::Range(set) => set.contains(c),
-            BaseRegLan::Concat(e1, e2) => {
-                self.start_char(e1, c) || e1.nullable && self.start_char(e2, c)
-            }
             BaseRegLan::Loop(e, _) => self.start_char(e, c),
-            BaseRegLan::Inter(args) => args.iter().all(|x| self.start_char(x, c)),
             BaseRegLan::Union(args) => args.iter().any(|x| self.start_char(x, c)),
-            BaseRegLan::Complement(_) => {
-                // expensive case
+            BaseRegLan::Concat(..) | BaseRegLan::Inter(_) | BaseRegLan::Complement(_) => {
+                // expensive case: the operands may start with c even if e doesn't
+                // (e.g., an operand of the concatenation may be empty).
                 let d = self.deriv(e, c);
                 !self.is_empty_re(d)
             }
-- 
2.43.0


From 3ceef32864fc6ff929eda68ed18f3fe6c062430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:55 +0000
Subject: [PATCH 09/12] fix: AutomatonBuilder::build validates the caller's
 transitions before simplifying them

---
 src/automata.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index b22341d..aede810 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -539,7 +539,7 @@ impl<'a> Iterator for FinalStateIterator<'a> {
     }
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 struct StateInConstruction {
     is_final: bool,
     default_successor: Option<usize>,
@@ -716,8 +716,9 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let n = self.size;
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
-        for (i, s) in self.states.iter_mut().enumerate() {
-            s.cleanup();
+        for (i, s) in self.states.iter().enumerate() {
+            // check the transitions as given by the caller: cleanup may add a default
+            // successor and it removes transitions.
             let p = s.make_partition()?;
             if s.default_successor.is_some() && p.empty_complement() {
                 return Err(Error::EmptyComplementaryClass);
@@ -725,6 +726,10 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
             if s.default_successor.is_none() && !p.empty_complement() {
                 return Err(Error::MissingDefaultSuccessor);
             }
+            // cleanup a copy so that build doesn't change the specification
+            let mut s = s.clone();
+            s.cleanup();
+            let p = s.make_partition()?;
             let successor = s.make_successor(&p);
             if s.is_final {
                 num_final_states += 1;
-- 
2.43.0


From d5c3425ba3e0dc69173753ed4132415b489c7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 10/12] fix: AutomatonBuilder::build accepts overlapping labels
 that have the same successor

---
 src/automata.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/automata.rs b/src/automata.rs
index aede810..a960e68 100644
--- a/src/automata.rs
+++ b/src/automata.rs
@@ -615,6 +615,24 @@ impl StateInConstruction {
         self.remove_transitions_to_default();
     }
 
+    // merge overlapping transitions that have the same successor
+    fn merge_transitions(&mut self) {
+        let mut merged: Vec<(CharSet, usize)> = Vec::new();
+        for &(label, next) in &self.transitions {
+            let mut set = label;
+            merged.retain(|(x, y)| {
+                let overlap = *y == next && x.inter(&label).is_some();
+                if overlap {
+                    // the union of overlapping sets is never None
+                    set = set.union(x).unwrap();
+                }
+                !overlap
+            });
+            merged.push((set, next));
+        }
+        self.transitions = merged;
+    }
+
     fn make_partition(&self) -> Result<CharPartition, Error> {
         CharPartition::try_from_iter(self.transitions.iter().map(|x| x.0))
     }
@@ -706,7 +724,8 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
     ///
     /// Construct an automaton
     /// - fails if a state `s` has non-deterministic transitions,
-    ///   i.e., if two distinct transitions from s have non-disjoint labels (i.e., character sets).
+    ///   i.e., if two transitions from s to distinct successors have non-disjoint labels
+    ///   (i.e., character sets).
     /// - fails if a state `s` has a default successor but its transitions
     ///   already cover the full alphabet.
     /// - fails if a state `s` doesn't have a default successor but its
@@ -717,6 +736,9 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
         let mut num_final_states = 0;
         let mut state_array = Vec::with_capacity(n);
         for (i, s) in self.states.iter().enumerate() {
+            // work on a copy so that build doesn't change the specification
+            let mut s = s.clone();
+            s.merge_transitions();
             // check the transitions as given by the caller: cleanup may add a default
             // successor and it removes transitions.
             let p = s.make_partition()?;
@@ -726,8 +748,6 @@ impl<T: Eq + Hash + Clone> AutomatonBuilder<T> {
             if s.default_successor.is_none() && !p.empty_complement() {
                 return Err(Error::MissingDefaultSuccessor);
             }
-            // cleanup a copy so that build doesn't change the specification
-            let mut s = s.clone();
             s.cleanup();
             let p = s.make_partition()?;
             let successor = s.make_successor(&p);
-- 
2.43.0


From 30da0d743dad97ac9988a2efe61b4343fe75a6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/12] fix: the re_*_list wrappers accept iterators that build
 regular expressions lazily

---
 src/smt_regular_expressions.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/smt_regular_expressions.rs b/src/smt_regular_expressions.rs
index 930f31f..f29b2df 100644
--- a/src/smt_regular_expressions.rs
+++ b/src/smt_regular_expressions.rs
@@ -109,6 +109,8 @@ pub fn re_concat(r1: RegLan, r2: RegLan) -> RegLan {
 /// assert!(str_in_re(&"abcXY".into(), c));
 /// ```
 pub fn re_concat_list(a: impl IntoIterator<Item = RegLan>) -> RegLan {
+    // a may call functions that use the manager: evaluate it first
+    let a: Vec<RegLan> = a.into_iter().collect();
     MANAGER.with(|m| m.borrow_mut().concat_list(a))
 }
 
@@ -146,6 +148,8 @@ pub fn re_union(r1: RegLan, r2: RegLan) -> RegLan {
 /// assert!(str_in_re(&"cccc".into(), u));
 /// ```
 pub fn re_union_list(a: impl IntoIterator<Item = RegLan>) -> RegLan {
+    // a may call functions that use the manager: evaluate it first
+    let a: Vec<RegLan> = a.into_iter().collect();
     MANAGER.with(|m| m.borrow_mut().union_list(a))
 }
 
@@ -182,6 +186,8 @@ pub fn re_inter(r1: RegLan, r2: RegLan) -> RegLan {
 /// assert!(str_in_re(&"aaaabb".into(), r));
 /// ```
 pub fn re_inter_list(a: impl IntoIterator<Item = RegLan>) -> RegLan {
+    // a may call functions that use the manager: evaluate it first
+    let a: Vec<RegLan> = a.into_iter().collect();
     MANAGER.with(|m| m.borrow_mut().inter_list(a))
 }
 
@@ -241,6 +247,8 @@ pub fn re_diff(r1: RegLan, r2: RegLan) -> RegLan {
 /// `re_diff_list(r, a)` is the same as `re_diff(r, re_inter_list(a))`
 ///
 pub fn re_diff_list(r: RegLan, a: impl IntoIterator<Item = RegLan>) -> RegLan {
+    // a may call functions that use the manager: evaluate it first
+    let a: Vec<RegLan> = a.into_iter().collect();
     MANAGER.with(|m| m.borrow_mut().diff_list(r, a))
 }
 
-- 
2.43.0


From 2bdbafeb6f2875dcb056b0760e1836a1e3bbfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 12/12] fix: minimize doesn't panic when a block without
 predecessors is split

A block that contains only states without predecessors has no splitters, so
the splitter set may have no list for it.
---
 src/minimizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/minimizer.rs b/src/minimizer.rs
index 8c287cb..d293ac4 100644
--- a/src/minimizer.rs
+++ b/src/minimizer.rs
@@ -218,8 +218,12 @@ impl SplitterSet {
         }
     }
 
+    // Blocks without predecessors have no splitters. There may be no list for them.
     fn take_list(&mut self, b: u32) -> SplitterList {
-        std::mem::take(&mut self.list[b as usize])
+        self.list
+            .get_mut(b as usize)
+            .map(std::mem::take)
+            .unwrap_or_default()
     }
 
     fn add_splitter(&mut self, s: &Splitter) {
-- 
2.43.0


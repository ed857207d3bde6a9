From e2b8dec9340c7b6529e6d23877894d9a82842406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:09 +0000
Subject: [PATCH 01/30] fix: keep the component's place for an empty quotient
 side in TransitionID::get_leaves

Quotient ids with an empty side (which the quotient itself creates) made
get_leaves panic with an index out of bounds, or lose the component of the
empty side.
---
 src/TransitionSystems/transition_id.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/TransitionSystems/transition_id.rs b/src/TransitionSystems/transition_id.rs
index eb8ad89..05d6d12 100644
--- a/src/TransitionSystems/transition_id.rs
+++ b/src/TransitionSystems/transition_id.rs
@@ -45,22 +45,29 @@ impl TransitionID {
                 for t in l {
                     index_left = t.get_leaves_helper(current_leaves, index);
                 }
-                let mut index_right = index_left;
+                // A side without transitions still takes up the place of its component
+                Self::reserve_leaves(current_leaves, index_left + 1);
+                let mut index_right = index_left + 1;
                 for s in r {
                     index_right = s.get_leaves_helper(current_leaves, index_left + 1);
                 }
                 index_right
             }
             TransitionID::Simple(_) | TransitionID::None => {
-                if current_leaves.len() <= index {
-                    current_leaves.push(Vec::new());
-                }
+                Self::reserve_leaves(current_leaves, index);
                 current_leaves[index].push(self.clone());
                 index
             }
         }
     }
 
+    /// Makes sure that there is a (possibly empty) vector at `index`
+    fn reserve_leaves(current_leaves: &mut Vec<Vec<TransitionID>>, index: usize) {
+        while current_leaves.len() <= index {
+            current_leaves.push(Vec::new());
+        }
+    }
+
     /// Takes a path of TransitionIDs, and splits them into seperate paths for each component
     /// For example
     /// ```
-- 
2.43.0


From aba9d4bba1b6cde31844934834ab9b04a9aa717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 02/30] fix: check that the right side's initial invariant does
 not cut the left side's delays

---
 src/System/refine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/System/refine.rs b/src/System/refine.rs
index 5258000..c99b4d3 100644
--- a/src/System/refine.rs
+++ b/src/System/refine.rs
@@ -143,9 +143,16 @@ pub fn check_refinement(sys1: TransitionSystemPtr, sys2: TransitionSystemPtr) ->
         initial_locations_2.clone(),
     );
 
+    let s_invariant = initial_locations_1.apply_invariants(initial_pair.ref_zone().clone());
+
     if !prepare_init_state(&mut initial_pair, initial_locations_1, initial_locations_2) {
         return RefinementFailure::empty_initial(sys1.as_ref(), sys2.as_ref());
     }
+
+    // Check if the initial invariant of T (right) cuts delay solutions from S (left); no action leads there
+    if !s_invariant.subset_eq(&initial_pair.ref_zone().clone().down()) {
+        return RefinementFailure::cuts_delays(sys1.as_ref(), sys2.as_ref(), "", &initial_pair);
+    }
     initial_pair.extrapolate_max_bounds(context.sys1, context.sys2);
 
     debug!("Initial {}", initial_pair);
-- 
2.43.0


From 1b933e47124851981401f68ea651fd260f3b015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:13 +0000
Subject: [PATCH 03/30] fix: let time pass in the start state of a reachability
 query

---
 src/System/reachability.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/System/reachability.rs b/src/System/reachability.rs
index 7497f9b..825e1e1 100644
--- a/src/System/reachability.rs
+++ b/src/System/reachability.rs
@@ -100,9 +100,11 @@ fn reachability_search(
     end_state: &State,
     system: &TransitionSystemPtr,
 ) -> Result<Path, PathFailure> {
-    // Apply the invariant of the start state to the start state
+    // Apply the invariant of the start state to the start state and let time pass in it
     let mut start_state = start_state.clone();
     start_state.apply_invariants();
+    start_state.update_zone(|zone| zone.up());
+    start_state.apply_invariants();
 
     // hashmap linking every location to all its current zones
     let mut visited_states: HashMap<LocationID, Vec<OwnedFederation>> = HashMap::new();
-- 
2.43.0


From a2925a09c944d2418b05fea548ab821e44a35ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:58 +0000
Subject: [PATCH 04/30] fix: forget the states passed on the way to a
 consistency failure

---
 src/System/local_consistency.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 0cb42d7..06c1f86 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -114,9 +114,12 @@ pub fn consistency_least_helper(
             let mut new_state = state.clone();
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
+                let passed = passed_list.len();
                 if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
                     return Ok(());
                 }
+                // The states passed on the way to a failure are not known to be consistent
+                passed_list.truncate(passed);
             }
         }
     }
-- 
2.43.0


From ce796684b1060e7890fc34c3827f9033c041e72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 05/30] fix: name a quotient's new input like none of the
 operands' actions

In A // (B // C) the inner quotient's new input is an output of the outer one,
and the outer one took the same name for its own new input.
---
 src/TransitionSystems/quotient.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TransitionSystems/quotient.rs b/src/TransitionSystems/quotient.rs
index e80cd49..85b11c6 100644
--- a/src/TransitionSystems/quotient.rs
+++ b/src/TransitionSystems/quotient.rs
@@ -58,7 +58,7 @@ impl Quotient {
         let mut i = 0;
         let new_input_name = loop {
             let test = format!("quotient_new_input{}", i);
-            if !inputs.contains(&test) {
+            if !T.get_actions().contains(&test) && !S.get_actions().contains(&test) {
                 break test;
             }
             i += 1;
-- 
2.43.0


From 9ee561b8788695160753ef66375935bf3ef889aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 06/30] fix: evaluate comparisons without clocks in guards and
 invariants

---
 src/EdgeEval/constraint_applyer.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index c7a294e..e120ad8 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -20,6 +20,9 @@ fn apply_constraints_to_state_helper(
     if fed.is_empty() {
         return Ok(fed);
     }
+    if let Some(holds) = constant_comparison(guard, decls)? {
+        return Ok(if holds { fed } else { fed.set_empty() });
+    }
     use Inequality::*;
     match guard {
         BoolExpression::AndOp(left, right) => {
@@ -68,6 +71,32 @@ fn apply_constraints_to_state_helper(
     }
 }
 
+/// The value of a comparison that does not depend on any clock, `None` for every other guard.
+fn constant_comparison(
+    guard: &BoolExpression,
+    decls: &Declarations,
+) -> Result<Option<bool>, String> {
+    let (left, right) = match guard {
+        BoolExpression::LessEQ(l, r)
+        | BoolExpression::GreatEQ(l, r)
+        | BoolExpression::EQ(l, r)
+        | BoolExpression::LessT(l, r)
+        | BoolExpression::GreatT(l, r) => (replace_vars(l, decls)?, replace_vars(r, decls)?),
+        _ => return Ok(None),
+    };
+    if left.clock_var_count() + right.clock_var_count() > 0 {
+        return Ok(None);
+    }
+    let (left, right) = (get_const(&left, decls), get_const(&right, decls));
+    Ok(Some(match guard {
+        BoolExpression::LessEQ(_, _) => left <= right,
+        BoolExpression::GreatEQ(_, _) => left >= right,
+        BoolExpression::LessT(_, _) => left < right,
+        BoolExpression::GreatT(_, _) => left > right,
+        _ => left == right,
+    }))
+}
+
 /// Assumes that the constraint is of the form left <?= right
 fn get_indices(
     left: &ArithExpression,
-- 
2.43.0


From 886bc7f8897c870aed0f41f37f6fe84f9ffdbdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 07/30] fix: keep the guards and invariants that mention a
 removed redundant clock

---
 .../Expressions/arith_expression.rs           | 20 +++++++++++++++++++
 .../Expressions/bool_expression.rs            | 19 ++++++++++++++++++
 src/ModelObjects/component.rs                 | 17 ++++++----------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index 242849c..cae5563 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -429,6 +429,26 @@ impl ArithExpression {
         }
     }
 
+    /// Replaces all occurrences of `ArithExpression::VarName(name)` with the number `value`
+    pub fn assign_varname(&mut self, name: &String, value: i32) {
+        match self {
+            ArithExpression::Difference(a1, a2)
+            | ArithExpression::Addition(a1, a2)
+            | ArithExpression::Multiplication(a1, a2)
+            | ArithExpression::Division(a1, a2)
+            | ArithExpression::Modulo(a1, a2) => {
+                a1.assign_varname(name, value);
+                a2.assign_varname(name, value);
+            }
+            ArithExpression::Clock(_) | ArithExpression::Int(_) => (),
+            ArithExpression::VarName(n) => {
+                if n == name {
+                    *self = ArithExpression::Int(value);
+                }
+            }
+        }
+    }
+
     pub fn clock_var_count(&self) -> u32 {
         match self {
             ArithExpression::Clock(_) => 1,
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index d02e9ea..2fbed95 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -434,6 +434,25 @@ impl BoolExpression {
         }
     }
 
+    /// Replaces all occurrences of `ArithExpression::VarName(name)` with the number `value`
+    pub fn assign_varname(&mut self, name: &String, value: i32) {
+        match self {
+            BoolExpression::AndOp(e1, e2) | BoolExpression::OrOp(e1, e2) => {
+                e1.assign_varname(name, value);
+                e2.assign_varname(name, value);
+            }
+            BoolExpression::LessEQ(e1, e2)
+            | BoolExpression::GreatEQ(e1, e2)
+            | BoolExpression::LessT(e1, e2)
+            | BoolExpression::GreatT(e1, e2)
+            | BoolExpression::EQ(e1, e2) => {
+                e1.assign_varname(name, value);
+                e2.assign_varname(name, value);
+            }
+            BoolExpression::Bool(_) => (),
+        }
+    }
+
     pub fn BLessEQ(left: ArithExpression, right: ArithExpression) -> BoolExpression {
         BoolExpression::LessEQ(Box::new(left), Box::new(right))
     }
diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 2b8759a..8d07638 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -3,7 +3,6 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
 
-use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
 use log::info;
@@ -124,11 +123,10 @@ impl Component {
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                // The guard is overwritten to `false`. This can be done since we assume
-                // that all edges with guards involving the given clock is not reachable
-                // in some composite system.
-                if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    *guard = BoolExpression::Bool(false);
+                // The clock is redundant, so that the guard holds for the same values of the
+                // other clocks whatever the value of this one.
+                if let Some(guard) = e.guard.as_mut() {
+                    guard.assign_varname(&name, 0);
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -136,14 +134,11 @@ impl Component {
             });
 
         // Removes from from location invariants
-        // The invariants containing the clock are overwritten to `false`.
-        // This can be done since we assume that all locations with invariants involving
-        // the given clock is not reachable in some composite system.
+        // (these hold independently of the clock in the same way as the guards)
         self.locations
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
-            .filter(|i| i.has_varname(&name))
-            .for_each(|i| *i = BoolExpression::Bool(false));
+            .for_each(|i| i.assign_varname(&name, 0));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
-- 
2.43.0


From 61f930ffc1e57834502ee0c0be04e411f75003aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 08/30] fix: keep guards and invariants that only mention a
 removed redundant clock, and no other

---
 src/ModelObjects/component.rs | 42 ++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 8d07638..442dd73 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -2,7 +2,10 @@ use crate::DataReader::serialization::{decode_declarations, DummyComponent};
 
 use edbm::util::bounds::Bounds;
 use edbm::util::constraints::ClockIndex;
+use edbm::zones::OwnedFederation;
 
+use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
+use crate::ModelObjects::Expressions::BoolExpression;
 use crate::ModelObjects::{Edge, Location, SyncType};
 use itertools::Itertools;
 use log::info;
@@ -116,6 +119,7 @@ impl Component {
             .get_clock_name_by_index(index)
             .expect("Couldn't find clock with index")
             .to_owned();
+        let declarations = self.declarations.clone();
         self.declarations.clocks.remove(&name);
 
         // Removes from from updates and guards
@@ -123,10 +127,8 @@ impl Component {
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                // The clock is redundant, so that the guard holds for the same values of the
-                // other clocks whatever the value of this one.
-                if let Some(guard) = e.guard.as_mut() {
-                    guard.assign_varname(&name, 0);
+                if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
+                    remove_clock_from_constraint(guard, &name, index, &declarations);
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -134,11 +136,11 @@ impl Component {
             });
 
         // Removes from from location invariants
-        // (these hold independently of the clock in the same way as the guards)
         self.locations
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
-            .for_each(|i| i.assign_varname(&name, 0));
+            .filter(|i| i.has_varname(&name))
+            .for_each(|i| remove_clock_from_constraint(i, &name, index, &declarations));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
@@ -172,6 +174,34 @@ impl Component {
     }
 }
 
+/// Rewrites a guard or invariant for the removal of a redundant clock: a constraint that holds
+/// whatever the value of the clock no longer mentions it. Every other one is overwritten to
+/// `false`, since it belongs to an edge or a location that is not reachable in the composite system.
+fn remove_clock_from_constraint(
+    constraint: &mut BoolExpression,
+    name: &String,
+    index: ClockIndex,
+    declarations: &Declarations,
+) {
+    let dim = 1 + declarations.clocks.values().max().copied().unwrap_or(0);
+    let zone = OwnedFederation::universe(dim);
+    let is_independent = apply_constraints_to_state(constraint, declarations, zone)
+        .map(|zone| {
+            zone.minimal_constraints()
+                .conjunctions
+                .iter()
+                .flat_map(|conjunction| conjunction.iter())
+                .all(|c| c.i != index && c.j != index)
+        })
+        .unwrap_or(false);
+
+    if is_independent {
+        constraint.assign_varname(name, 0);
+    } else {
+        *constraint = BoolExpression::Bool(false);
+    }
+}
+
 pub trait DeclarationProvider {
     fn get_declarations(&self) -> &Declarations;
 }
-- 
2.43.0


From 2fc20dc59b9a905bea6c6959f8f4329e4884e332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 09/30] fix: let the last of several assignments to a clock win
 when undoing an edge's updates

---
 src/ModelObjects/transition.rs | 5 ++---
 src/System/input_enabler.rs    | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ModelObjects/transition.rs b/src/ModelObjects/transition.rs
index ddd14b0..d67a700 100644
--- a/src/ModelObjects/transition.rs
+++ b/src/ModelObjects/transition.rs
@@ -125,10 +125,9 @@ impl Transition {
     }
 
     pub fn inverse_apply_updates(&self, mut fed: OwnedFederation) -> OwnedFederation {
-        for update in &self.updates {
+        // The updates are undone last first, as a later update of a clock overwrites an earlier one
+        for update in self.updates.iter().rev() {
             fed = update.apply_as_guard(fed);
-        }
-        for update in &self.updates {
             fed = update.apply_as_free(fed);
         }
 
diff --git a/src/System/input_enabler.rs b/src/System/input_enabler.rs
index c5ddd44..e05b5f1 100644
--- a/src/System/input_enabler.rs
+++ b/src/System/input_enabler.rs
@@ -50,7 +50,7 @@ pub fn make_input_enabled(component: &mut Component, inputs: &[String]) {
                 }
 
                 if let Some(updates) = &edge.update {
-                    for update in updates {
+                    for update in updates.iter().rev() {
                         let cu = update.compiled(component.get_declarations());
                         guard_zone = cu.apply_as_guard(guard_zone);
                         guard_zone = cu.apply_as_free(guard_zone);
-- 
2.43.0


From c8e87bd9cd7cf0f537d9c0f2f383a50002fc01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 10/30] fix: read comparisons with nested sums and differences
 as written

---
 src/EdgeEval/constraint_applyer.rs | 61 +++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/EdgeEval/constraint_applyer.rs b/src/EdgeEval/constraint_applyer.rs
index e120ad8..ba81893 100644
--- a/src/EdgeEval/constraint_applyer.rs
+++ b/src/EdgeEval/constraint_applyer.rs
@@ -36,29 +36,29 @@ fn apply_constraints_to_state_helper(
             Ok(fed1 + fed2)
         }
         BoolExpression::LessEQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = get_difference(left, right, decls)?;
             // i-j<=c
             Ok(fed.constrain(i, j, LE(c)))
         }
         BoolExpression::GreatEQ(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
+            let (i, j, c) = get_difference(right, left, decls)?;
             // j-i <= -c -> c <= i-j
             Ok(fed.constrain(i, j, LE(c)))
         }
         BoolExpression::EQ(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = get_difference(left, right, decls)?;
             // i-j <= c && j-i <= -c -> c <= i-j
 
             // TODO: maybe use fed.constrain_many(...)
             Ok(fed.constrain(i, j, LE(c)).constrain(j, i, LE(-c)))
         }
         BoolExpression::LessT(left, right) => {
-            let (i, j, c) = get_indices(left, right, decls)?;
+            let (i, j, c) = get_difference(left, right, decls)?;
             // i-j < c
             Ok(fed.constrain(i, j, LS(c)))
         }
         BoolExpression::GreatT(left, right) => {
-            let (i, j, c) = get_indices(right, left, decls)?;
+            let (i, j, c) = get_difference(right, left, decls)?;
             // j-i < -c -> c < i-j
             Ok(fed.constrain(i, j, LS(c)))
         }
@@ -97,6 +97,57 @@ fn constant_comparison(
     }))
 }
 
+/// Reads `left <?= right` as `i - j <?= c`, wherever the clocks and numbers stand in it
+fn get_difference(
+    left: &ArithExpression,
+    right: &ArithExpression,
+    decls: &Declarations,
+) -> Result<(ClockIndex, ClockIndex, i32), String> {
+    let (mut added, mut subtracted, mut constant) = (vec![], vec![], 0);
+    let is_sum = collect_terms(
+        &replace_vars(left, decls)?,
+        decls,
+        (&mut added, &mut subtracted, &mut constant),
+        1,
+    ) && collect_terms(
+        &replace_vars(right, decls)?,
+        decls,
+        (&mut subtracted, &mut added, &mut constant),
+        -1,
+    );
+    match (is_sum, added.as_slice(), subtracted.as_slice()) {
+        (true, [i], []) => Ok((*i, 0, -constant)),
+        (true, [], [j]) => Ok((0, *j, -constant)),
+        (true, [i], [j]) => Ok((*i, *j, -constant)),
+        _ => Err(get_indices(left, right, decls)
+            .err()
+            .unwrap_or_else(|| String::from("Not a difference of clocks"))),
+    }
+}
+
+/// Collects the clocks `expr` adds and subtracts, and its constant times `sign`; whether it is such a sum.
+fn collect_terms(
+    expr: &ArithExpression,
+    decls: &Declarations,
+    (added, subtracted, constant): (&mut Vec<ClockIndex>, &mut Vec<ClockIndex>, &mut i32),
+    sign: i32,
+) -> bool {
+    match expr {
+        ArithExpression::Clock(clock) => added.push(*clock),
+        ArithExpression::Addition(l, r) => {
+            return collect_terms(l, decls, (added, subtracted, constant), sign)
+                && collect_terms(r, decls, (added, subtracted, constant), sign)
+        }
+        ArithExpression::Difference(l, r) => {
+            return collect_terms(l, decls, (added, subtracted, constant), sign)
+                && collect_terms(r, decls, (subtracted, added, constant), -sign)
+        }
+        _ if expr.clock_var_count() == 0 => *constant += sign * get_const(expr, decls),
+        _ => return false,
+    }
+    true
+}
+
 /// Assumes that the constraint is of the form left <?= right
 fn get_indices(
     left: &ArithExpression,
-- 
2.43.0


From 0bfda2c5b218325717226e62fa6b8421be7b5702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 11/30] fix: understand a guard of nothing but blanks as true

---
 src/DataReader/parse_edge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 168da37..ad82664 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -84,8 +84,8 @@ pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
 
     // Check if there are any constraints
     let result = match guard.into_inner().next() {
-        Some(bool_expr) => parse_bool_expr(bool_expr),
-        None => BoolExpression::Bool(true),
+        Some(bool_expr) if bool_expr.as_rule() == Rule::boolExpr => parse_bool_expr(bool_expr),
+        _ => BoolExpression::Bool(true),
     };
 
     Ok(result)
-- 
2.43.0


From bc6ed056118ed26cd45e84b764fa02afb2c25165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 12/30] fix: write the brackets of guards, invariants and
 updates

---
 .../Expressions/arith_expression.rs           | 54 ++++++++++++++-----
 .../Expressions/bool_expression.rs            | 12 ++++-
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/ModelObjects/Expressions/arith_expression.rs b/src/ModelObjects/Expressions/arith_expression.rs
index cae5563..bca2a2d 100644
--- a/src/ModelObjects/Expressions/arith_expression.rs
+++ b/src/ModelObjects/Expressions/arith_expression.rs
@@ -57,27 +57,57 @@ impl ArithExpression {
 
     pub fn encode_expr(&self) -> String {
         match self {
-            ArithExpression::Difference(left, right) => {
-                [left.encode_expr(), String::from("-"), right.encode_expr()].concat()
-            }
+            ArithExpression::Difference(left, right) => [
+                left.encode_expr(),
+                String::from("-"),
+                right.encode_operand(right.is_sum()),
+            ]
+            .concat(),
             ArithExpression::Addition(left, right) => {
                 [left.encode_expr(), String::from("+"), right.encode_expr()].concat()
             }
-            ArithExpression::Multiplication(left, right) => {
-                [left.encode_expr(), String::from("*"), right.encode_expr()].concat()
-            }
-            ArithExpression::Division(left, right) => {
-                [left.encode_expr(), String::from("/"), right.encode_expr()].concat()
-            }
-            ArithExpression::Modulo(left, right) => {
-                [left.encode_expr(), String::from("%"), right.encode_expr()].concat()
-            }
+            ArithExpression::Multiplication(left, right) => Self::encode_factors(left, "*", right),
+            ArithExpression::Division(left, right) => Self::encode_factors(left, "/", right),
+            ArithExpression::Modulo(left, right) => Self::encode_factors(left, "%", right),
             ArithExpression::Clock(_) => [String::from("??")].concat(),
             ArithExpression::VarName(var) => var.clone(),
             ArithExpression::Int(num) => num.to_string(),
         }
     }
 
+    fn encode_factors(left: &Self, operator: &str, right: &Self) -> String {
+        [
+            left.encode_operand(left.is_sum()),
+            operator.to_string(),
+            right.encode_operand(right.is_sum() || right.is_product()),
+        ]
+        .concat()
+    }
+
+    fn encode_operand(&self, in_brackets: bool) -> String {
+        if in_brackets {
+            format!("({})", self.encode_expr())
+        } else {
+            self.encode_expr()
+        }
+    }
+
+    fn is_sum(&self) -> bool {
+        matches!(
+            self,
+            ArithExpression::Difference(_, _) | ArithExpression::Addition(_, _)
+        )
+    }
+
+    fn is_product(&self) -> bool {
+        matches!(
+            self,
+            ArithExpression::Multiplication(_, _)
+                | ArithExpression::Division(_, _)
+                | ArithExpression::Modulo(_, _)
+        )
+    }
+
     pub fn get_max_constant(&self, clock: ClockIndex, clock_name: &str) -> i32 {
         let mut new_constraint = 0;
 
diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 2fbed95..710cc0e 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -69,9 +69,9 @@ impl BoolExpression {
             ]
             .concat(),
             BoolExpression::OrOp(left, right) => [
-                left.encode_expr(),
+                left.encode_or_operand(),
                 String::from(" || "),
-                right.encode_expr(),
+                right.encode_or_operand(),
             ]
             .concat(),
             BoolExpression::LessEQ(left, right) => {
@@ -93,6 +93,14 @@ impl BoolExpression {
         }
     }
 
+    /// Encodes an operand of `||`, which binds tighter than `&&`
+    fn encode_or_operand(&self) -> String {
+        match self {
+            BoolExpression::AndOp(_, _) => format!("({})", self.encode_expr()),
+            _ => self.encode_expr(),
+        }
+    }
+
     pub fn from_disjunction(
         disjunction: &Disjunction,
         naming: &HashMap<String, ClockIndex>,
-- 
2.43.0


From d3b4531f9dc422ee1435c41c1555ffd49e4acee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 13/30] fix: write a component's integer variables

---
 src/DataReader/serialization.rs | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 9e2d3e0..37056ec 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -214,7 +214,9 @@ where
                         let comma_split: Vec<String> =
                             split_str.split(',').map(|s| s.into()).collect();
                         for var in comma_split {
-                            ints.insert(var, 0);
+                            if !var.is_empty() {
+                                ints.insert(var, 0);
+                            }
                         }
                     }
                 } else {
@@ -350,19 +352,22 @@ pub fn encode_declarations<S>(decls: &Declarations, serializer: S) -> Result<S::
 where
     S: Serializer,
 {
-    let mut output = String::from("clock ");
-    let mut it = decls.clocks.iter();
-    if let Some((first_clock, _)) = it.next() {
-        output = output.add(first_clock);
-
-        for (clock, _) in it {
-            output = output.add(&format!(", {}", clock));
+    let mut output = String::new();
+    for (variable_type, variables) in [
+        ("clock", decls.clocks.keys().collect::<Vec<_>>()),
+        ("int", decls.ints.keys().collect::<Vec<_>>()),
+    ] {
+        let mut it = variables.into_iter();
+        if let Some(first) = it.next() {
+            output = output.add(&format!("{} {}", variable_type, first));
+
+            for variable in it {
+                output = output.add(&format!(", {}", variable));
+            }
+            output = output.add(";");
         }
-        output = output.add(";");
-
-        return serializer.serialize_str(&output);
     }
-    serializer.serialize_str("")
+    serializer.serialize_str(&output)
 }
 
 pub fn encode_opt_boolexpr<S>(
-- 
2.43.0


From ec078b13596ff70c6ef7286dd5df9164b6c7cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:29 +0000
Subject: [PATCH 14/30] fix: read declarations with blanks between them

---
 src/DataReader/serialization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DataReader/serialization.rs b/src/DataReader/serialization.rs
index 37056ec..7fc7129 100644
--- a/src/DataReader/serialization.rs
+++ b/src/DataReader/serialization.rs
@@ -194,6 +194,7 @@ where
         let sub_decls: Vec<String> = string.split(';').map(|s| s.into()).collect();
 
         for sub_decl in sub_decls {
+            let sub_decl = sub_decl.trim();
             if !sub_decl.is_empty() {
                 let split_string: Vec<String> = sub_decl.split(' ').map(|s| s.into()).collect();
                 let variable_type = split_string[0].as_str();
-- 
2.43.0


From 17c75eb0567e4848fe15b6f8cb4e81018462f191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 15/30] fix: read a component name that starts with 'not' in a
 state

---
 src/DataReader/grammars/query_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DataReader/grammars/query_grammar.pest b/src/DataReader/grammars/query_grammar.pest
index 2571891..8fe30ba 100644
--- a/src/DataReader/grammars/query_grammar.pest
+++ b/src/DataReader/grammars/query_grammar.pest
@@ -54,7 +54,7 @@ andExpr = { orExpr ~ (("&&" | "and") ~ orExpr)* }
 
 orExpr = { subExpr ~ (("||" | "or") ~ subExpr)* }
 
-subExpr = _{parenthesizedSubExp | notExpr | compExpr | locExpr | bool_true | bool_false}
+subExpr = _{parenthesizedSubExp | compExpr | locExpr | notExpr | bool_true | bool_false}
 
 locExpr = { variable }
 
-- 
2.43.0


From fcb2f065043fffd6baa38d67798c3f339eb37861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 16/30] fix: refuse numbers that are too large in guards,
 updates and queries

---
 src/DataReader/parse_edge.rs    | 14 ++++++++++++++
 src/DataReader/parse_queries.rs | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index ad82664..191ec38 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -73,12 +73,25 @@ impl Update {
     }
 }
 
+/// Checks that all numbers fit the type they are stored in
+fn check_numbers(pairs: &pest::iterators::Pairs<Rule>) -> Result<(), String> {
+    match pairs
+        .clone()
+        .flatten()
+        .find(|pair| pair.as_rule() == Rule::int && pair.as_str().parse::<i32>().is_err())
+    {
+        Some(pair) => Err(format!("The number {} is too large", pair.as_str())),
+        None => Ok(()),
+    }
+}
+
 /// Parses a guard string `input` into a BoolExpression
 pub fn parse_guard(input: &str) -> Result<BoolExpression, String> {
     let mut pairs = match EdgeParser::parse(Rule::guard, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
+    check_numbers(&pairs)?;
 
     let guard = pairs.next().unwrap();
 
@@ -97,6 +110,7 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
+    check_numbers(&pairs)?;
 
     let update = pairs.next().unwrap();
 
diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 1a1f889..8875ccf 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -230,11 +230,24 @@ pub fn parse_to_query(input: &str) -> Vec<Query> {
         .collect()
 }
 
+/// Checks that all numbers fit the type they are stored in
+fn check_numbers(pairs: &pest::iterators::Pairs<Rule>) -> Result<(), String> {
+    match pairs
+        .clone()
+        .flatten()
+        .find(|pair| pair.as_rule() == Rule::int && pair.as_str().parse::<i32>().is_err())
+    {
+        Some(pair) => Err(format!("The number {} is too large", pair.as_str())),
+        None => Ok(()),
+    }
+}
+
 pub fn parse_to_expression_tree(input: &str) -> Result<Vec<QueryExpression>, String> {
     let mut pairs = match QueryParser::parse(Rule::queries, input) {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
+    check_numbers(&pairs)?;
 
     let result = parse_queries(pairs.next().unwrap());
 
@@ -257,6 +270,7 @@ pub fn parse_to_state_expr(input: &str) -> Result<StateExpression, String> {
         Ok(pairs) => pairs,
         Err(e) => return Err(format!("Could not parse as rule with error: {}", e)),
     };
+    check_numbers(&pairs)?;
 
     let result = parse_state(pairs.next().unwrap());
 
-- 
2.43.0


From 146e4cc6fb2f317ea13ba02e9267fccb706610d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 17/30] fix: refuse an update whose value cannot be computed

---
 src/DataReader/parse_edge.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DataReader/parse_edge.rs b/src/DataReader/parse_edge.rs
index 191ec38..e33b325 100644
--- a/src/DataReader/parse_edge.rs
+++ b/src/DataReader/parse_edge.rs
@@ -119,7 +119,7 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
         let mut updates = Vec::new();
         for assignment in assignments.into_inner() {
             match assignment.as_rule() {
-                Rule::assignment => updates.push(parse_update(assignment)),
+                Rule::assignment => updates.push(parse_update(assignment)?),
                 _ => unreachable!("Unable to match: {:?} as rule, updates", assignment),
             }
         }
@@ -129,17 +129,17 @@ pub fn parse_updates(input: &str) -> Result<Vec<Update>, String> {
     }
 }
 
-fn parse_update(pair: pest::iterators::Pair<Rule>) -> Update {
+fn parse_update(pair: pest::iterators::Pair<Rule>) -> Result<Update, String> {
     let mut inner_pairs = pair.into_inner();
     let variable = inner_pairs.next().unwrap().as_str().to_string();
     let expression = parse_arith_expr(inner_pairs.next().unwrap())
         .simplify()
-        .expect("Error simplifying update");
+        .map_err(|e| format!("Error simplifying update: {}", e))?;
 
-    Update {
+    Ok(Update {
         variable,
         expression,
-    }
+    })
 }
 
 fn parse_bool_expr(pair: pest::iterators::Pair<Rule>) -> BoolExpression {
-- 
2.43.0


From 9d64b33a771e689b390f7655b9824dc2b05375df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:34 +0000
Subject: [PATCH 18/30] fix: read alternatives and negations in the states of a
 query

---
 src/DataReader/parse_queries.rs | 81 ++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 41 deletions(-)

diff --git a/src/DataReader/parse_queries.rs b/src/DataReader/parse_queries.rs
index 8875ccf..afb99cc 100644
--- a/src/DataReader/parse_queries.rs
+++ b/src/DataReader/parse_queries.rs
@@ -80,50 +80,49 @@ pub fn parse_operand(pair: pest::iterators::Pair<Rule>) -> OperandExpression {
 }
 
 fn parse_state(pair: pest::iterators::Pair<Rule>) -> StateExpression {
-    PRATT
-        .map_primary(|pair| match pair.as_rule() {
-            Rule::andExpr | Rule::orExpr => {
-                let rule = pair.as_rule();
-
-                let mut inner = pair.into_inner();
-                let len = inner.clone().count();
-                if len == 1 {
-                    return parse_state(inner.next().unwrap());
-                }
-                match rule {
-                    Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
-                    Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
-                    _ => unreachable!(),
-                }
+    match pair.as_rule() {
+        Rule::state => parse_state(pair.into_inner().next().unwrap()),
+        Rule::andExpr | Rule::orExpr => {
+            let rule = pair.as_rule();
+
+            let mut inner = pair.into_inner();
+            let len = inner.clone().count();
+            if len == 1 {
+                return parse_state(inner.next().unwrap());
             }
-            Rule::notExpr => {
-                StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+            match rule {
+                Rule::andExpr => StateExpression::AND(inner.map(parse_state).collect()),
+                Rule::orExpr => StateExpression::OR(inner.map(parse_state).collect()),
+                _ => unreachable!(),
             }
-            Rule::compExpr => {
-                let mut pairs = pair.into_inner();
-                let first = pairs.next().unwrap();
-                let op = pairs.next().unwrap();
-                let second = pairs.next().unwrap();
-
-                let first = parse_operand(first);
-                let second = parse_operand(second);
-                match op.as_rule() {
-                    Rule::leq_op => StateExpression::LEQ(first, second),
-                    Rule::geq_op => StateExpression::GEQ(first, second),
-                    Rule::eq_op => StateExpression::EQ(first, second),
-                    Rule::lt_op => StateExpression::LT(first, second),
-                    Rule::gt_op => StateExpression::GT(first, second),
-                    _ => unreachable!(),
-                }
+        }
+        Rule::notExpr => {
+            StateExpression::NOT(Box::new(parse_state(pair.into_inner().next().unwrap())))
+        }
+        Rule::compExpr => {
+            let mut pairs = pair.into_inner();
+            let first = pairs.next().unwrap();
+            let op = pairs.next().unwrap();
+            let second = pairs.next().unwrap();
+
+            let first = parse_operand(first);
+            let second = parse_operand(second);
+            match op.as_rule() {
+                Rule::leq_op => StateExpression::LEQ(first, second),
+                Rule::geq_op => StateExpression::GEQ(first, second),
+                Rule::eq_op => StateExpression::EQ(first, second),
+                Rule::lt_op => StateExpression::LT(first, second),
+                Rule::gt_op => StateExpression::GT(first, second),
+                _ => unreachable!(),
             }
-            Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
-                pair.into_inner().next().unwrap(),
-            )),
-            Rule::bool_true => StateExpression::Bool(true),
-            Rule::bool_false => StateExpression::Bool(false),
-            _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
-        })
-        .parse(pair.into_inner())
+        }
+        Rule::locExpr => StateExpression::Location(comp_var_from_variable_pair(
+            pair.into_inner().next().unwrap(),
+        )),
+        Rule::bool_true => StateExpression::Bool(true),
+        Rule::bool_false => StateExpression::Bool(false),
+        _ => unreachable!("Unexpected rule: {:?}", pair.as_rule()),
+    }
 }
 
 fn comp_var_from_variable_pair(pair: pest::iterators::Pair<Rule>) -> ComponentVariable {
-- 
2.43.0


From 1d8df86c0d22a187993d294a32e9675f67899a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 19/30] fix: answer for targets with alternative clock
 constraints, refuse a location as an alternative

---
 src/System/extract_state.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/System/extract_state.rs b/src/System/extract_state.rs
index 3de219f..d8c28a2 100644
--- a/src/System/extract_state.rs
+++ b/src/System/extract_state.rs
@@ -74,9 +74,9 @@ fn get_locations(expr: &StateExpression) -> Result<Vec<ComponentVariable>, Strin
             for expr in exprs {
                 res.append(&mut get_locations(expr)?);
             }
-            if res.len() != 1 {
+            if !res.is_empty() {
                 return Err(format!(
-                    "We do not support disjunctions with more than one location: {:?}",
+                    "We do not support disjunctions with locations: {:?}",
                     expr
                 ));
             }
-- 
2.43.0


From 4dd4807dfc6a206a78e61ca616ec65d3b92d08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 20/30] fix: answer a query with a negated constraint with an
 error instead of a crash

---
 src/ModelObjects/Expressions/state_expression.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ModelObjects/Expressions/state_expression.rs b/src/ModelObjects/Expressions/state_expression.rs
index 4d3bbf4..12e2e6a 100644
--- a/src/ModelObjects/Expressions/state_expression.rs
+++ b/src/ModelObjects/Expressions/state_expression.rs
@@ -141,9 +141,7 @@ impl StateExpression {
                     BoolExpression::OrOp(Box::new(acc), Box::new(e))
                 }))
             }
-            StateExpression::NOT(_expr) => {
-                unimplemented!("NOT expressions are not supported yet")
-            }
+            StateExpression::NOT(_expr) => Err("NOT expressions are not supported yet".to_string()),
             StateExpression::Location(_) => {
                 // Locations here should just be ignored
                 Ok(BoolExpression::Bool(true))
-- 
2.43.0


From d1d8828189413ea5fd9a6756897b40138ba62966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 21/30] fix: resolve a simulation decision whose action has
 several edges

---
 src/Simulation/decision.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/Simulation/decision.rs b/src/Simulation/decision.rs
index 2b18f4c..74df1c6 100644
--- a/src/Simulation/decision.rs
+++ b/src/Simulation/decision.rs
@@ -12,9 +12,10 @@ pub struct Decision {
 
 impl Decision {
     /// Resolves a [`Decision`]: use the `action` in the `state` and return a [`Vec`] of the possible [`Decision`]s from the destination [`State`].
+    /// If the `action` can lead to several states, the decision is for `next_state`.
     ///
     /// # Panics
-    /// Panics if the [`Decision`] leads to no new states or is ambiguous (leads to multiple new states)
+    /// Panics if the [`Decision`] leads to no new states or if none of several new states is `next_state`
     pub fn resolve(&self, system: &TransitionSystemPtr) -> Vec<Decision> {
         let transitions = system.next_transitions(&self.state.decorated_locations, &self.action);
         let mut next_states: Vec<_> = transitions
@@ -23,11 +24,17 @@ impl Decision {
             .collect();
 
         assert_ne!(next_states.len(), 0, "Decision leads to no new states");
-        assert_eq!(
-            next_states.len(),
-            1,
-            "Ambiguous decision leads to multiple new states"
-        );
+        if next_states.len() > 1 {
+            next_states.retain(|state| {
+                state.decorated_locations == self.next_state.decorated_locations
+                    && state.zone_ref().equals(self.next_state.zone_ref())
+            });
+            assert_ne!(
+                next_states.len(),
+                0,
+                "Ambiguous decision leads to multiple new states, but not to its destination"
+            );
+        }
 
         let next_state = next_states.pop().unwrap();
 
-- 
2.43.0


From b197a2826aa75f8db014e77e71f4ba8926acb7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 22/30] fix: refuse a request with a component that cannot be
 parsed

---
 .../ecdar_requests/request_util.rs            | 32 ++++++++++++-------
 .../ecdar_requests/send_query.rs              |  2 +-
 .../ecdar_requests/simulation_requests.rs     |  4 +--
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/ProtobufServer/ecdar_requests/request_util.rs b/src/ProtobufServer/ecdar_requests/request_util.rs
index 80e6c37..d40eb33 100644
--- a/src/ProtobufServer/ecdar_requests/request_util.rs
+++ b/src/ProtobufServer/ecdar_requests/request_util.rs
@@ -1,6 +1,7 @@
 use std::{collections::HashMap, sync::Arc};
 
 use log::trace;
+use tonic::Status;
 
 use crate::{
     DataReader::component_loader::{parse_components_if_some, ComponentContainer, ModelCache},
@@ -12,22 +13,25 @@ use crate::{
     },
 };
 
+/// Returns the model in the cache, or parses and caches the `proto_components`.
+///
+/// # Errors
+/// If one of the `proto_components` cannot be parsed. Nothing is cached then.
 pub fn get_or_insert_model(
     model_cache: &mut ModelCache,
     user_id: i32,
     components_hash: u32,
     proto_components: &[ProtoComponent],
-) -> ComponentContainer {
+) -> Result<ComponentContainer, Status> {
     match model_cache.get_model(user_id, components_hash) {
-        Some(model) => model,
+        Some(model) => Ok(model),
         None => {
-            let parsed_components: Vec<Component> = proto_components
-                .iter()
-                .flat_map(parse_components_if_some)
-                .flatten()
-                .collect::<Vec<Component>>();
+            let mut parsed_components: Vec<Component> = vec![];
+            for proto_component in proto_components {
+                parsed_components.append(&mut parse_components_if_some(proto_component)?);
+            }
             let components = constrtuct_componentsmap(parsed_components);
-            model_cache.insert_model(user_id, components_hash, Arc::new(components))
+            Ok(model_cache.insert_model(user_id, components_hash, Arc::new(components)))
         }
     }
 }
@@ -48,6 +52,9 @@ fn constrtuct_componentsmap(
 
 /// Borrows a [`SimulationInfo`] and returns the corresponding [`TransitionsSystemPtr`].
 ///
+/// # Errors
+/// If one of the components cannot be parsed.
+///
 /// # Panics
 /// If:
 /// - `simulation_info.components_info` is `None`.
@@ -55,13 +62,16 @@ fn constrtuct_componentsmap(
 pub fn simulation_info_to_transition_system(
     simulation_info: &SimulationInfo,
     model_cache: &mut ModelCache,
-) -> TransitionSystemPtr {
+) -> Result<TransitionSystemPtr, Status> {
     let composition = simulation_info.component_composition.to_owned();
     let info = simulation_info.components_info.as_ref().unwrap();
     let user_id = simulation_info.user_id;
 
     let mut component_container =
-        get_or_insert_model(model_cache, user_id, info.components_hash, &info.components);
+        get_or_insert_model(model_cache, user_id, info.components_hash, &info.components)?;
 
-    component_loader_to_transition_system(&mut component_container, &composition)
+    Ok(component_loader_to_transition_system(
+        &mut component_container,
+        &composition,
+    ))
 }
diff --git a/src/ProtobufServer/ecdar_requests/send_query.rs b/src/ProtobufServer/ecdar_requests/send_query.rs
index ccf52a0..46fa6cb 100644
--- a/src/ProtobufServer/ecdar_requests/send_query.rs
+++ b/src/ProtobufServer/ecdar_requests/send_query.rs
@@ -44,7 +44,7 @@ impl ConcreteEcdarBackend {
             user_id,
             components_info.components_hash,
             proto_components,
-        );
+        )?;
         component_container.set_settings(query_request.settings.unwrap_or(crate::DEFAULT_SETTINGS));
 
         let out =
diff --git a/src/ProtobufServer/ecdar_requests/simulation_requests.rs b/src/ProtobufServer/ecdar_requests/simulation_requests.rs
index 2de3017..681848f 100644
--- a/src/ProtobufServer/ecdar_requests/simulation_requests.rs
+++ b/src/ProtobufServer/ecdar_requests/simulation_requests.rs
@@ -20,7 +20,7 @@ impl ConcreteEcdarBackend {
     ) -> Result<SimulationStepResponse, Status> {
         let simulation_info = request.simulation_info.unwrap();
 
-        let transition_system = simulation_info_to_transition_system(&simulation_info, &mut cache);
+        let transition_system = simulation_info_to_transition_system(&simulation_info, &mut cache)?;
 
         // Get the decisions from the initial state and convert them to proto
         let decisions = Decision::get_initial_decisions(&transition_system)
@@ -48,7 +48,7 @@ impl ConcreteEcdarBackend {
         let request_message = request;
         let simulation_info = request_message.simulation_info.unwrap();
 
-        let system = simulation_info_to_transition_system(&simulation_info, &mut cache);
+        let system = simulation_info_to_transition_system(&simulation_info, &mut cache)?;
 
         let chosen_decision = request_message.chosen_decision.unwrap();
 
-- 
2.43.0


From e476bda581bfaa9e95808f2f17a08baf384d8b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:18 +0000
Subject: [PATCH 23/30] fix: give every clock of a saved component its own name

---
 src/System/save_component.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 2817ac0..1e457c6 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -79,11 +79,14 @@ pub fn get_clock_map(sysrep: &TransitionSystemPtr) -> HashMap<String, ClockIndex
     }
     for (comp_id, decl) in decls.into_iter().enumerate() {
         for (k, v) in &decl.clocks {
-            if clocks.contains_key(k) {
-                clocks.insert(format!("{}{}", k, comp_id), *v);
-            } else {
-                clocks.insert(k.clone(), *v);
+            let mut name = k.clone();
+            let mut suffix = comp_id;
+            // The name must not be that of another clock
+            while clocks.contains_key(&name) {
+                name = format!("{}{}", k, suffix);
+                suffix += 1;
             }
+            clocks.insert(name, *v);
         }
     }
 
-- 
2.43.0


From 0454bab59da401320860d57d2f04e7b20782c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 24/30] fix: write differences with a negative bound so that
 they can be read again

---
 src/ModelObjects/Expressions/bool_expression.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ModelObjects/Expressions/bool_expression.rs b/src/ModelObjects/Expressions/bool_expression.rs
index 710cc0e..778862c 100644
--- a/src/ModelObjects/Expressions/bool_expression.rs
+++ b/src/ModelObjects/Expressions/bool_expression.rs
@@ -206,6 +206,18 @@ impl BoolExpression {
                             var_from_naming(naming, j),
                         ),
                     }
+                } else if bound < 0 {
+                    // i-j<=-c -> j-i>=c, as there are no negative numbers in guards
+                    match is_strict {
+                        true => BoolExpression::GreatT(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                        false => BoolExpression::GreatEQ(
+                            var_diff_from_naming(naming, j, i),
+                            arith_from_int(-bound),
+                        ),
+                    }
                 } else {
                     match is_strict {
                         true => BoolExpression::LessT(
-- 
2.43.0


From 3b950ba63113803cb34351c8972eabca6d384c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:07 +0000
Subject: [PATCH 25/30] fix: keep the bounds of the clocks in inconsistent
 locations

---
 src/TransitionSystems/compiled_component.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TransitionSystems/compiled_component.rs b/src/TransitionSystems/compiled_component.rs
index 2bad9ee..b502975 100644
--- a/src/TransitionSystems/compiled_component.rs
+++ b/src/TransitionSystems/compiled_component.rs
@@ -113,7 +113,7 @@ impl CompiledComponent {
 
 impl TransitionSystem for CompiledComponent {
     fn get_local_max_bounds(&self, loc: &LocationTree) -> Bounds {
-        if loc.is_universal() || loc.is_inconsistent() {
+        if loc.is_universal() && loc.get_invariants().is_none() {
             Bounds::new(self.get_dim())
         } else {
             self.comp_info.max_bounds.clone()
-- 
2.43.0


From afd9eeb8cc35308ccc9b69d22fa1f242e372fade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 26/30] fix: keep the universal and inconsistent locations of a
 saved system what they are

---
 src/System/save_component.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/System/save_component.rs b/src/System/save_component.rs
index 1e457c6..d39fa7b 100644
--- a/src/System/save_component.rs
+++ b/src/System/save_component.rs
@@ -56,6 +56,10 @@ pub fn get_locations_from_trees(
 
             let location_type = if loc_vec.is_initial() {
                 LocationType::Initial
+            } else if loc_vec.is_universal() {
+                LocationType::Universal
+            } else if loc_vec.is_inconsistent() {
+                LocationType::Inconsistent
             } else {
                 LocationType::Normal
             };
-- 
2.43.0


From 7967970e44a11272ab1032846e8faeb0acdfc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 27/30] fix: prune exactly the states from which an
 inconsistent location cannot be avoided

Pruning a system with clocks always crashed, an inconsistent system was
answered by a crash, and the states to remove were computed from the
wrong location, one output at a time, and not for the initial state.
---
 src/System/extract_system_rep.rs |   2 +-
 src/System/pruning.rs            | 519 +++++++++----------------------
 2 files changed, 155 insertions(+), 366 deletions(-)

diff --git a/src/System/extract_system_rep.rs b/src/System/extract_system_rep.rs
index 65619df..938b391 100644
--- a/src/System/extract_system_rep.rs
+++ b/src/System/extract_system_rep.rs
@@ -158,7 +158,7 @@ pub fn create_executable_query<'a>(
                 }
 
                 Ok(Box::new(GetComponentExecutor {
-                    system: pruning::prune_system(recipe.compile(dim)?, dim),
+                    system: pruning::prune_system(recipe.compile(dim)?, dim + 1)?,
                     comp_name: name.clone().unwrap_or("Unnamed".to_string()),
                     component_loader,
                 }))
diff --git a/src/System/pruning.rs b/src/System/pruning.rs
index a234060..41fc9ad 100644
--- a/src/System/pruning.rs
+++ b/src/System/pruning.rs
@@ -12,31 +12,37 @@ use std::collections::{HashMap, HashSet};
 
 use super::save_component::PruningStrategy;
 
-pub fn prune_system(ts: TransitionSystemPtr, dim: ClockIndex) -> TransitionSystemPtr {
+/// Removes the states of the system from which an inconsistent location cannot be avoided.
+pub fn prune_system(
+    ts: TransitionSystemPtr,
+    dim: ClockIndex,
+) -> Result<TransitionSystemPtr, String> {
     ts.precheck_sys_rep()
-        .expect("Cannot prune transitions system which is not least consistent");
+        .map_err(|failure| format!("Cannot prune an inconsistent system: {}", failure))?;
 
     let inputs = ts.get_input_actions();
     let outputs = ts.get_output_actions();
     let comp = combine_components(&ts, PruningStrategy::NoPruning);
 
-    let mut input_map: HashMap<String, Vec<String>> = HashMap::new();
-    input_map.insert(comp.name.clone(), inputs.iter().cloned().collect());
-
-    let result = prune(&comp, dim, inputs, outputs);
-
-    result.unwrap()
+    let pruned: TransitionSystemPtr = prune(&comp, dim, inputs, outputs)?;
+    let start = (1..dim).fold(OwnedFederation::universe(dim), |fed, clock| {
+        fed.update_clock_val(clock, 0)
+    });
+    match pruned.get_initial_location() {
+        Some(loc) if !loc.apply_invariants(start).is_empty() => Ok(pruned),
+        _ => Err("Pruning failed: an inconsistent location cannot be avoided".to_string()),
+    }
 }
 
-struct PruneContext {
-    comp: Component,
-    inconsistent_locs: Vec<String>,
+struct PruneContext<'a> {
+    comp: &'a Component,
+    /// Locations whose inconsistent part has grown since the edges leading to them were considered
+    changed_locs: Vec<String>,
     inconsistent_parts: HashMap<String, OwnedFederation>,
-    passed_pairs: Vec<(String, OwnedFederation)>,
     dim: ClockIndex,
 }
 
-impl PruneContext {
+impl PruneContext<'_> {
     fn decl(&self) -> &Declarations {
         self.comp.get_declarations()
     }
@@ -45,39 +51,102 @@ impl PruneContext {
         self.comp.get_location_by_name(name)
     }
 
-    fn try_get_incons(&self, name: &str) -> Option<&OwnedFederation> {
-        self.inconsistent_parts.get(name)
+    /// The part of `fed` which satisfies the constraint, if there is one
+    fn constrain(
+        &self,
+        fed: OwnedFederation,
+        constraint: &Option<BoolExpression>,
+    ) -> OwnedFederation {
+        match constraint {
+            Some(expr) => apply_constraints_to_state(expr, self.decl(), fed).unwrap(),
+            None => fed,
+        }
     }
 
-    fn get_incons(&self, name: &str) -> &OwnedFederation {
-        self.inconsistent_parts.get(name).unwrap()
+    fn invariant(&self, location: &str) -> OwnedFederation {
+        self.constrain(
+            OwnedFederation::universe(self.dim),
+            &self.get_loc(location).invariant,
+        )
     }
 
-    fn remove_edge(&mut self, edge: &Edge) {
-        if let Some(index) = self.comp.edges.iter().position(|e| *e == *edge) {
-            trace!("Removing {}", edge);
-            self.comp.edges.remove(index);
+    fn inconsistent_part(&self, location: &str) -> OwnedFederation {
+        match self.inconsistent_parts.get(location) {
+            Some(part) => part.clone().intersection(&self.invariant(location)),
+            None => OwnedFederation::empty(self.dim),
         }
     }
 
-    fn update_edge_guard(&mut self, edge: &Edge, guard_fed: &OwnedFederation) {
-        if let Some(index) = self.comp.edges.iter().position(|e| *e == *edge) {
-            let guard = BoolExpression::from_disjunction(
-                &guard_fed.minimal_constraints(),
-                &self.decl().clocks,
-            );
+    fn consistent_part(&self, location: &str) -> OwnedFederation {
+        let invariant = self.invariant(location);
+        match self.inconsistent_parts.get(location) {
+            Some(part) => invariant.subtraction(part),
+            None => invariant,
+        }
+    }
 
-            trace!(
-                "Updating {} with guard {}",
-                edge,
-                guard.as_ref().unwrap_or(&BoolExpression::Bool(true))
-            );
-            self.comp.edges.get_mut(index).unwrap().guard = guard;
+    /// The valuations in which the updates and the guard of the edge lead to `part` of its target
+    fn before_edge(&self, edge: &Edge, mut part: OwnedFederation) -> OwnedFederation {
+        for update in edge.update.iter().flatten().rev() {
+            let update = update.compiled(self.decl());
+            part = update.apply_as_guard(part);
+            if part.is_empty() {
+                return part;
+            }
+            part = update.apply_as_free(part);
         }
+        self.constrain(part, &edge.guard)
     }
 
-    fn finish(self) -> (Component, HashMap<String, OwnedFederation>) {
-        (self.comp, self.inconsistent_parts)
+    /// The states of the source from which the edge can be taken to `part` of its target
+    fn predecessors(&self, edge: &Edge, part: OwnedFederation) -> OwnedFederation {
+        self.before_edge(edge, part)
+            .intersection(&self.invariant(&edge.source_location))
+    }
+
+    /// Recomputes the inconsistent part of a location from those of its successors
+    fn update_location(&mut self, location: &str) {
+        let invariant = self.invariant(location);
+
+        // An input cannot be prevented, so these states are inconsistent themselves
+        let mut losing = OwnedFederation::empty(self.dim);
+        // An output to the consistent part of a location keeps the system consistent
+        let mut saving = OwnedFederation::empty(self.dim);
+        for edge in self
+            .comp
+            .edges
+            .iter()
+            .filter(|e| e.source_location == location)
+        {
+            let target = &edge.target_location;
+            match edge.sync_type {
+                SyncType::Input => {
+                    losing += self.predecessors(edge, self.inconsistent_part(target))
+                }
+                SyncType::Output => {
+                    saving += self.predecessors(edge, self.consistent_part(target))
+                }
+            }
+        }
+        let saving = saving.subtraction(&losing);
+        let outside = OwnedFederation::universe(self.dim).subtraction(&invariant);
+
+        let part = if invariant.can_delay_indefinitely() {
+            // Only the states that cannot avoid an inconsistent input by an earlier output
+            let avoided = saving + outside;
+            losing.predt(&avoided) + losing
+        } else {
+            // Time cannot pass forever, so there must be an output before it ends
+            let avoided = losing + outside;
+            invariant.subtraction(&saving.predt(&avoided))
+        };
+
+        let old_part = self.inconsistent_part(location);
+        if !part.subset_eq(&old_part) {
+            self.inconsistent_parts
+                .insert(location.to_string(), part + old_part);
+            self.changed_locs.push(location.to_string());
+        }
     }
 }
 
@@ -87,8 +156,7 @@ pub fn prune(
     inputs: HashSet<String>,
     outputs: HashSet<String>,
 ) -> Result<Box<CompiledComponent>, String> {
-    let new_comp = comp.clone();
-    let inconsistent_locs: Vec<_> = new_comp
+    let inconsistent_locs: Vec<_> = comp
         .locations
         .iter()
         .filter(|l| is_immediately_inconsistent(l, comp, dim))
@@ -102,26 +170,21 @@ pub fn prune(
     trace!("Inconsistent locs: {:?}", inconsistent_locs);
 
     let mut context = PruneContext {
-        comp: new_comp,
-        inconsistent_locs,
+        comp,
+        changed_locs: inconsistent_locs,
         inconsistent_parts,
-        passed_pairs: vec![],
         dim,
     };
 
-    while let Some(target_loc) = context.inconsistent_locs.pop() {
-        // TODO: If is initial
-
-        //Handle edges
-        for edge in comp
+    while let Some(target_loc) = context.changed_locs.pop() {
+        let sources: HashSet<_> = comp
             .edges
             .iter()
             .filter(|e| e.target_location == target_loc)
-        {
-            if edge.sync_type == SyncType::Input {
-                handle_input(edge, &mut context);
-            }
-            handle_output(edge, &mut context);
+            .map(|e| &e.source_location)
+            .collect();
+        for source_loc in sources {
+            context.update_location(source_loc);
         }
 
         trace!(
@@ -134,8 +197,14 @@ pub fn prune(
                 .join(", ")
         );
     }
-    let (mut new_comp, incons_parts) = context.finish();
-    add_inconsistent_parts_to_invariants(&mut new_comp, incons_parts, dim);
+
+    let mut new_comp = comp.clone();
+    new_comp.edges = comp
+        .edges
+        .iter()
+        .filter_map(|edge| prune_edge(edge, &context))
+        .collect();
+    add_inconsistent_parts_to_invariants(&mut new_comp, context.inconsistent_parts, dim);
 
     debug!(
         "Pruned component from {} edges to {} edges",
@@ -147,6 +216,39 @@ pub fn prune(
         .map_err(|e| format!("Pruning failed: {}", e))
 }
 
+/// The edge restricted to consistent states, if anything is left of it
+fn prune_edge(edge: &Edge, context: &PruneContext) -> Option<Edge> {
+    let target_part = context.inconsistent_part(&edge.target_location);
+    let target_changed = !target_part.is_empty();
+    let source_changed = context
+        .inconsistent_parts
+        .contains_key(&edge.source_location);
+    if !target_changed && !source_changed {
+        return Some(edge.clone());
+    }
+
+    let remaining = context
+        .before_edge(edge, context.consistent_part(&edge.target_location))
+        .intersection(&context.consistent_part(&edge.source_location));
+    if remaining.is_empty() {
+        trace!("Removing {}", edge);
+        return None;
+    }
+
+    let mut new_edge = edge.clone();
+    if target_changed && edge.sync_type == SyncType::Output {
+        let guard_fed = context
+            .constrain(OwnedFederation::universe(context.dim), &edge.guard)
+            .subtraction(&context.before_edge(edge, target_part));
+        new_edge.guard = BoolExpression::from_disjunction(
+            &guard_fed.minimal_constraints(),
+            &context.decl().clocks,
+        );
+        trace!("Updating {} to {}", edge, new_edge);
+    }
+    Some(new_edge)
+}
+
 fn add_inconsistent_parts_to_invariants(
     comp: &mut Component,
     incons_parts: HashMap<String, OwnedFederation>,
@@ -171,319 +273,6 @@ fn add_inconsistent_parts_to_invariants(
     }
 }
 
-fn handle_input(edge: &Edge, context: &mut PruneContext) {
-    let target_loc = context.get_loc(&edge.target_location).clone();
-    let mut inconsistent_part = context.get_incons(&target_loc.id).clone();
-
-    // apply target invariant
-    if let Some(inv) = &target_loc.invariant {
-        inconsistent_part =
-            apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
-    }
-    // apply updates as guard
-    if let Some(updates) = &edge.update {
-        for update in updates {
-            inconsistent_part = update
-                .compiled(context.decl())
-                .apply_as_guard(inconsistent_part);
-        }
-    }
-
-    if inconsistent_part.is_empty() {
-        return;
-    }
-
-    let inconsistent_part = back_exploration_on_transition(edge, inconsistent_part, context);
-
-    if !inconsistent_part.is_empty() {
-        // in the next step, we need to check whether there is output transitions that could lead us away from the inconsistent state
-        // such a transition needs to
-        // a) have the same source as e
-        // b) not be a selfloop
-        // c) be an output
-        // d) not lead to the inconsistent part of a state itself
-        let copy = inconsistent_part.clone();
-        let mut inconsistent_part = predt_of_all_outputs(&target_loc, inconsistent_part, context);
-
-        if copy.equals(&inconsistent_part) {
-            inconsistent_part = inconsistent_part.down();
-            // apply source invariant
-
-            let source_loc = context.get_loc(&edge.source_location);
-            if let Some(inv) = &source_loc.invariant {
-                inconsistent_part =
-                    apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
-            }
-        }
-
-        process_source_location(&edge.source_location, inconsistent_part, context);
-    }
-
-    remove_transition_if_unsat(edge, context);
-}
-
-fn remove_transition_if_unsat(edge: &Edge, context: &mut PruneContext) {
-    let mut edge_fed = OwnedFederation::universe(context.dim);
-    // apply target invariant
-    let target_loc = context.get_loc(&edge.target_location);
-    if let Some(inv) = &target_loc.invariant {
-        edge_fed = apply_constraints_to_state(inv, context.decl(), edge_fed).unwrap();
-    }
-
-    // Subtract target inconsistent part
-    if let Some(incons) = context.try_get_incons(&edge.target_location) {
-        edge_fed = edge_fed.subtraction(incons);
-    }
-
-    if let Some(updates) = &edge.update {
-        // apply updates as guard
-        for update in updates {
-            edge_fed = update.compiled(context.decl()).apply_as_guard(edge_fed);
-        }
-
-        // apply updates as free
-        if !edge_fed.is_empty() {
-            for update in updates {
-                edge_fed = update.compiled(context.decl()).apply_as_free(edge_fed);
-            }
-        }
-    }
-
-    // Apply guards
-    if let Some(guard) = &edge.guard {
-        edge_fed = apply_constraints_to_state(guard, context.decl(), edge_fed).unwrap();
-    }
-
-    // Apply source invariant
-    let source_loc = context.get_loc(&edge.source_location);
-    if let Some(inv) = &source_loc.invariant {
-        edge_fed = apply_constraints_to_state(inv, context.decl(), edge_fed).unwrap();
-    }
-
-    // Subtract source inconsistent part
-    if let Some(incons) = context.try_get_incons(&edge.source_location) {
-        edge_fed = edge_fed.subtraction(incons);
-    }
-
-    if edge_fed.is_empty() {
-        context.remove_edge(edge);
-    }
-}
-
-fn process_source_location(
-    source_loc: &String,
-    mut inconsistent_part: OwnedFederation,
-    context: &mut PruneContext,
-) {
-    if !inconsistent_part.is_empty() {
-        if let Some(part) = context.inconsistent_parts.get(source_loc) {
-            inconsistent_part = inconsistent_part.union(part);
-        };
-
-        context
-            .inconsistent_parts
-            .insert(source_loc.clone(), inconsistent_part.clone());
-
-        if !context
-            .passed_pairs
-            .iter()
-            .any(|(id, fed)| *id == *source_loc && fed.equals(&inconsistent_part))
-        // Can this be fed.subset_eq(...) instead? it would be ~twice as fast
-        {
-            context
-                .passed_pairs
-                .push((source_loc.clone(), inconsistent_part));
-            context.inconsistent_locs.push(source_loc.clone());
-        }
-    }
-}
-
-fn predt_of_all_outputs(
-    source_loc: &Location,
-    inconsistent_part: OwnedFederation,
-    context: &mut PruneContext,
-) -> OwnedFederation {
-    let mut incons_fed = inconsistent_part;
-    for other_edge in context
-        .comp
-        .edges
-        .iter()
-        .filter(|e| e.source_location == source_loc.id && e.sync_type == SyncType::Output)
-    {
-        let target_loc = context.get_loc(&other_edge.target_location);
-
-        let mut saving_fed = OwnedFederation::universe(context.dim);
-        // apply target invariant
-        if let Some(inv) = &target_loc.invariant {
-            saving_fed = apply_constraints_to_state(inv, context.decl(), saving_fed).unwrap();
-        }
-
-        // remove the parts of the target transition that are inconsistent.
-        if context
-            .inconsistent_locs
-            .iter()
-            .any(|id| *id == target_loc.id)
-        {
-            saving_fed = saving_fed.subtraction(context.get_incons(&other_edge.target_location))
-        }
-
-        // apply updates via free
-        if !saving_fed.is_empty() {
-            if let Some(updates) = &other_edge.update {
-                for update in updates {
-                    saving_fed = update.compiled(context.decl()).apply_as_free(saving_fed);
-                }
-            }
-        }
-
-        // apply edge guard
-        if let Some(guard) = &other_edge.guard {
-            saving_fed = apply_constraints_to_state(guard, context.decl(), saving_fed).unwrap();
-        }
-
-        // apply source invariant
-        if let Some(inv) = &source_loc.invariant {
-            saving_fed = apply_constraints_to_state(inv, context.decl(), saving_fed).unwrap();
-        }
-
-        // do temporal predecessor avoiding saving fed
-        let predt_fed = incons_fed.predt(&saving_fed);
-
-        incons_fed += predt_fed;
-    }
-
-    incons_fed
-}
-
-fn back_exploration_on_transition(
-    edge: &Edge,
-    mut inconsistent_part: OwnedFederation,
-    context: &mut PruneContext,
-) -> OwnedFederation {
-    // apply updates via free
-    if let Some(updates) = &edge.update {
-        for update in updates {
-            inconsistent_part = update
-                .compiled(context.decl())
-                .apply_as_free(inconsistent_part);
-        }
-    }
-
-    // apply edge guard
-    if let Some(guard) = &edge.guard {
-        inconsistent_part =
-            apply_constraints_to_state(guard, context.decl(), inconsistent_part).unwrap();
-    }
-
-    // apply source invariant
-    let source = context.get_loc(&edge.source_location);
-    if let Some(inv) = &source.invariant {
-        inconsistent_part =
-            apply_constraints_to_state(inv, context.decl(), inconsistent_part).unwrap();
-    }
-
-    inconsistent_part
-}
-
-fn handle_output(edge: &Edge, context: &mut PruneContext) {
-    let target_incons = context.get_incons(&edge.target_location);
-    if target_incons.is_universe() {
-        // Fully inconsistent target
-        context.remove_edge(edge);
-    } else {
-        // Partially inconsistent target
-        let mut incons_after_reset = target_incons.clone();
-        if let Some(updates) = &edge.update {
-            // TODO: this is different from J-ecdar
-            // apply updates as guard
-            for update in updates {
-                incons_after_reset = update
-                    .compiled(context.decl())
-                    .apply_as_guard(incons_after_reset);
-            }
-
-            // apply updates as free
-            if !incons_after_reset.is_empty() {
-                for update in updates {
-                    incons_after_reset = update
-                        .compiled(context.decl())
-                        .apply_as_free(incons_after_reset);
-                }
-            }
-        }
-        let mut guard_fed = OwnedFederation::universe(context.dim);
-        // Apply guards
-        if let Some(guard) = &edge.guard {
-            guard_fed = apply_constraints_to_state(guard, context.decl(), guard_fed).unwrap();
-        }
-        guard_fed = guard_fed.subtraction(&incons_after_reset);
-
-        if guard_fed.is_empty() {
-            context.remove_edge(edge);
-        } else {
-            context.update_edge_guard(edge, &guard_fed);
-        }
-    }
-
-    // get source invariant
-    let mut source_invariant = OwnedFederation::universe(context.dim);
-    let source_loc = context.get_loc(&edge.source_location);
-    if let Some(inv) = &source_loc.invariant {
-        source_invariant =
-            apply_constraints_to_state(inv, context.decl(), source_invariant).unwrap();
-    }
-
-    if source_invariant.can_delay_indefinitely() {
-        // Source is not inconsistent, nothing more to do
-    } else {
-        let mut fed_that_saves_us = OwnedFederation::empty(context.dim);
-        for other_edge in context.comp.edges.iter().filter(|e| {
-            e.source_location == edge.source_location && e.sync_type == SyncType::Output
-        }) {
-            // calculate and backtrack the part that is NOT inconsistent
-
-            // get target invariant
-            let mut good_part = OwnedFederation::universe(context.dim);
-            let target_loc = context.get_loc(&other_edge.target_location);
-            if let Some(inv) = &target_loc.invariant {
-                good_part = apply_constraints_to_state(inv, context.decl(), good_part).unwrap();
-            }
-
-            // If target is inconsistent we must avoid that part
-            if let Some(incons) = context.try_get_incons(&other_edge.target_location) {
-                good_part = good_part.subtraction(incons);
-            }
-
-            if let Some(updates) = &other_edge.update {
-                // TODO: this is different from J-ecdar
-                // apply updates as guard
-                for update in updates {
-                    good_part = update.compiled(context.decl()).apply_as_guard(good_part);
-                }
-
-                // apply updates as free
-                if !good_part.is_empty() {
-                    for update in updates {
-                        good_part = update.compiled(context.decl()).apply_as_free(good_part);
-                    }
-                }
-            }
-
-            // Apply guards
-            if let Some(guard) = &other_edge.guard {
-                good_part = apply_constraints_to_state(guard, context.decl(), good_part).unwrap();
-            }
-            // We are allowed to delay into outputs
-            good_part = good_part.down().intersection(&source_invariant);
-
-            fed_that_saves_us += good_part;
-        }
-
-        let new_incon_part = source_invariant.subtraction(&fed_that_saves_us);
-        process_source_location(&edge.source_location, new_incon_part, context)
-    }
-}
-
 fn is_immediately_inconsistent(
     location: &Location,
     comp: &Component,
-- 
2.43.0


From 3d1d34664cd13eb4d78e51e472fdd17156f3ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:14 +0000
Subject: [PATCH 28/30] fix: remember the states that consistency has failed
 for, not to try them again and again

---
 src/System/local_consistency.rs | 34 ++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/System/local_consistency.rs b/src/System/local_consistency.rs
index 06c1f86..b24498e 100644
--- a/src/System/local_consistency.rs
+++ b/src/System/local_consistency.rs
@@ -12,7 +12,7 @@ pub fn is_least_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
     if let Some(mut state) = system.get_initial_state() {
         let mut passed = vec![];
         state.extrapolate_max_bounds(system);
-        consistency_least_helper(state, &mut passed, system)
+        consistency_least_helper(state, &mut passed, &mut vec![], system)
     } else {
         warn!("Empty initial state");
         ConsistencyFailure::no_initial_state(system)
@@ -77,19 +77,41 @@ pub fn is_fully_consistent(system: &dyn TransitionSystem) -> ConsistencyResult {
     consistency_fully_helper(state.unwrap(), &mut passed, system)
 }
 
+/// The states on `passed_list` are taken to be consistent, those on `failed_list` are known not to be
 pub fn consistency_least_helper(
     state: State,
     passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<(State, ConsistencyFailure)>,
     system: &dyn TransitionSystem,
 ) -> ConsistencyResult {
     if state.is_contained_in_list(passed_list) {
         return Ok(());
     }
+    if let Some((_, failure)) = failed_list
+        .iter()
+        .find(|(failed, _)| state.is_subset_of(failed) && failed.is_subset_of(&state))
+    {
+        return Err(failure.clone());
+    }
+
+    let result = consistency_least_step(&state, passed_list, failed_list, system);
+    if let Err(failure) = &result {
+        failed_list.push((state, failure.clone()));
+    }
+    result
+}
+
+fn consistency_least_step(
+    state: &State,
+    passed_list: &mut Vec<State>,
+    failed_list: &mut Vec<(State, ConsistencyFailure)>,
+    system: &dyn TransitionSystem,
+) -> ConsistencyResult {
     if state.decorated_locations.is_universal() {
         return Ok(());
     }
     if state.decorated_locations.is_inconsistent() {
-        return ConsistencyFailure::inconsistent(system, &state);
+        return ConsistencyFailure::inconsistent(system, state);
     }
 
     passed_list.push(state.clone());
@@ -100,7 +122,7 @@ pub fn consistency_least_helper(
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
 
-                consistency_least_helper(new_state, passed_list, system)?;
+                consistency_least_helper(new_state, passed_list, failed_list, system)?;
             }
         }
     }
@@ -115,7 +137,9 @@ pub fn consistency_least_helper(
             if transition.use_transition(&mut new_state) {
                 new_state.extrapolate_max_bounds(system);
                 let passed = passed_list.len();
-                if let Ok(()) = consistency_least_helper(new_state, passed_list, system) {
+                if let Ok(()) =
+                    consistency_least_helper(new_state, passed_list, failed_list, system)
+                {
                     return Ok(());
                 }
                 // The states passed on the way to a failure are not known to be consistent
@@ -124,7 +148,7 @@ pub fn consistency_least_helper(
         }
     }
     warn!("No saving outputs from {}", state.decorated_locations.id);
-    ConsistencyFailure::inconsistent_from(system, &state)
+    ConsistencyFailure::inconsistent_from(system, state)
 }
 
 fn consistency_fully_helper(
-- 
2.43.0


From 8f629c4472c39d1136c234584bc56b647b7be000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:31 +0000
Subject: [PATCH 29/30] fix: keep the guards that a redundant clock matters to
 only beyond the invariants

---
 src/ModelObjects/component.rs | 74 ++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index 442dd73..cc1f595 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -6,7 +6,8 @@ use edbm::zones::OwnedFederation;
 
 use crate::EdgeEval::constraint_applyer::apply_constraints_to_state;
 use crate::ModelObjects::Expressions::BoolExpression;
-use crate::ModelObjects::{Edge, Location, SyncType};
+use crate::ModelObjects::{Edge, Location, SyncType, Transition};
+use crate::TransitionSystems::LocationTree;
 use itertools::Itertools;
 use log::info;
 use serde::{Deserialize, Serialize};
@@ -119,7 +120,8 @@ impl Component {
             .get_clock_name_by_index(index)
             .expect("Couldn't find clock with index")
             .to_owned();
-        let declarations = self.declarations.clone();
+        let component = self.clone();
+        let declarations = &component.declarations;
         self.declarations.clocks.remove(&name);
 
         // Removes from from updates and guards
@@ -127,8 +129,17 @@ impl Component {
             .iter_mut()
             .filter(|e| e.update.is_some() || e.guard.is_some())
             .for_each(|e| {
-                if let Some(guard) = e.guard.as_mut().filter(|g| g.has_varname(&name)) {
-                    remove_clock_from_constraint(guard, &name, index, &declarations);
+                if e.guard.as_ref().is_some_and(|g| g.has_varname(&name)) {
+                    let enabled = component.get_enabled_federation(e);
+                    if let Some(guard) = e.guard.as_mut() {
+                        remove_clock_from_constraint(
+                            guard,
+                            &name,
+                            index,
+                            declarations,
+                            Some(enabled),
+                        );
+                    }
                 }
                 if let Some(inv) = e.update.as_mut() {
                     inv.retain(|u| u.variable != name);
@@ -140,7 +151,7 @@ impl Component {
             .iter_mut()
             .filter_map(|l| l.invariant.as_mut())
             .filter(|i| i.has_varname(&name))
-            .for_each(|i| remove_clock_from_constraint(i, &name, index, &declarations));
+            .for_each(|i| remove_clock_from_constraint(i, &name, index, declarations, None));
 
         info!(
             "Removed Clock '{name}' (index {index}) has been removed from component {}",
@@ -148,6 +159,15 @@ impl Component {
         ); // Should be changed in the future to be the information logger
     }
 
+    /// The clock valuations from which the edge can be taken, with the invariants of its locations
+    fn get_enabled_federation(&self, edge: &Edge) -> OwnedFederation {
+        let dim = self.declarations.get_dim();
+        let source = self.get_location_by_name(&edge.source_location);
+        LocationTree::simple(source, &self.declarations, dim).apply_invariants(
+            Transition::from_component_and_edge(self, edge, dim).get_allowed_federation(),
+        )
+    }
+
     /// Replaces duplicate clock with a new
     /// # Arguments
     /// `global_index`: The index of the global clock\n
@@ -175,30 +195,35 @@ impl Component {
 }
 
 /// Rewrites a guard or invariant for the removal of a redundant clock: a constraint that holds
-/// whatever the value of the clock no longer mentions it. Every other one is overwritten to
-/// `false`, since it belongs to an edge or a location that is not reachable in the composite system.
+/// whatever the value of the clock no longer mentions it, nor does the guard of an edge that is
+/// `enabled` whatever the value of the clock. Every other one is overwritten to `false`, since it
+/// belongs to an edge or a location that is not reachable in the composite system.
 fn remove_clock_from_constraint(
     constraint: &mut BoolExpression,
     name: &String,
     index: ClockIndex,
     declarations: &Declarations,
+    enabled: Option<OwnedFederation>,
 ) {
-    let dim = 1 + declarations.clocks.values().max().copied().unwrap_or(0);
-    let zone = OwnedFederation::universe(dim);
-    let is_independent = apply_constraints_to_state(constraint, declarations, zone)
-        .map(|zone| {
-            zone.minimal_constraints()
-                .conjunctions
-                .iter()
-                .flat_map(|conjunction| conjunction.iter())
-                .all(|c| c.i != index && c.j != index)
-        })
-        .unwrap_or(false);
+    let is_independent = |zone: &OwnedFederation| {
+        zone.minimal_constraints()
+            .conjunctions
+            .iter()
+            .flat_map(|conjunction| conjunction.iter())
+            .all(|c| c.i != index && c.j != index)
+    };
+    let zone = OwnedFederation::universe(declarations.get_dim());
 
-    if is_independent {
-        constraint.assign_varname(name, 0);
-    } else {
-        *constraint = BoolExpression::Bool(false);
+    match apply_constraints_to_state(constraint, declarations, zone) {
+        Ok(zone) if is_independent(&zone) => constraint.assign_varname(name, 0),
+        Ok(zone) if enabled.as_ref().is_some_and(is_independent) => {
+            *constraint = BoolExpression::from_disjunction(
+                &zone.free_clock(index).minimal_constraints(),
+                &declarations.clocks,
+            )
+            .unwrap_or(BoolExpression::Bool(true))
+        }
+        _ => *constraint = BoolExpression::Bool(false),
     }
 }
 
@@ -225,6 +250,11 @@ impl Declarations {
         self.clocks.len()
     }
 
+    /// The dimension of a zone that has all the clocks
+    fn get_dim(&self) -> ClockIndex {
+        1 + self.clocks.values().max().copied().unwrap_or(0)
+    }
+
     pub fn set_clock_indices(&mut self, start_index: ClockIndex) {
         for (_, v) in self.clocks.iter_mut() {
             *v += start_index
-- 
2.43.0


From 96d992dc0eb85b7bb772f71030a5fb961be0535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:03 +0000
Subject: [PATCH 30/30] fix: extrapolate by every constant a clock is compared
 with, however the comparison is written

---
 src/ModelObjects/component.rs | 48 +++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/ModelObjects/component.rs b/src/ModelObjects/component.rs
index cc1f595..675e828 100644
--- a/src/ModelObjects/component.rs
+++ b/src/ModelObjects/component.rs
@@ -78,25 +78,35 @@ impl Component {
 
     pub fn get_max_bounds(&self, dimensions: ClockIndex) -> Bounds {
         let mut max_bounds = Bounds::new(dimensions);
-        for (clock_name, clock_id) in &self.declarations.clocks {
-            let max_bound = i32::max(
-                self.edges
-                    .iter()
-                    .filter_map(|e| e.guard.clone())
-                    .map(|g| g.get_max_constant(*clock_id, clock_name))
-                    .max()
-                    .unwrap_or_default(),
-                self.locations
-                    .iter()
-                    .filter_map(|l| l.invariant.clone())
-                    .map(|i| i.get_max_constant(*clock_id, clock_name))
-                    .max()
-                    .unwrap_or_default(),
-            );
-
-            // TODO: find more precise upper and lower bounds for clocks
-            max_bounds.add_lower(*clock_id, max_bound);
-            max_bounds.add_upper(*clock_id, max_bound);
+        // TODO: find more precise upper and lower bounds for clocks
+        let mut add_bound = |clock_id: ClockIndex, bound: i32| {
+            if clock_id != 0 {
+                max_bounds.add_lower(clock_id, bound);
+                max_bounds.add_upper(clock_id, bound);
+            }
+        };
+        for clock_id in self.declarations.clocks.values() {
+            add_bound(*clock_id, 0);
+        }
+
+        let guards = self.edges.iter().filter_map(|e| e.guard.as_ref());
+        let invariants = self.locations.iter().filter_map(|l| l.invariant.as_ref());
+        for constraint in guards.chain(invariants) {
+            constraint.iterate_constraints(&mut |left, right| {
+                // The clocks that are compared and what with, whichever way it is written
+                let comparison =
+                    BoolExpression::LessEQ(Box::new(left.clone()), Box::new(right.clone()));
+                let zone = OwnedFederation::universe(dimensions);
+                if let Ok(zone) = apply_constraints_to_state(&comparison, &self.declarations, zone)
+                {
+                    let conjunctions = zone.minimal_constraints().conjunctions;
+                    for constraint in conjunctions.iter().flat_map(|c| c.iter()) {
+                        let bound = constraint.ineq().bound().abs();
+                        add_bound(constraint.i, bound);
+                        add_bound(constraint.j, bound);
+                    }
+                }
+            });
         }
 
         max_bounds
-- 
2.43.0


From 7d614421414710f6974ee822636845226a218953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 01/14] fix: report proof write errors in the CLI instead of
 losing them on drop

---
 varisat-cli/src/check.rs | 36 ++++++++++++++++++++++++------------
 varisat-cli/src/main.rs  | 29 +++++++++++++++++++++++------
 2 files changed, 47 insertions(+), 18 deletions(-)

diff --git a/varisat-cli/src/check.rs b/varisat-cli/src/check.rs
index ce5a45e..32778dd 100644
--- a/varisat-cli/src/check.rs
+++ b/varisat-cli/src/check.rs
@@ -24,6 +24,11 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
     init_logging();
     banner();
 
+    let mut transcript = transcript::Transcript::default();
+
+    let mut lrat_processor = None;
+    let mut clrat_processor = None;
+
     let mut checker = Checker::default();
 
     let stdin = io::stdin();
@@ -44,22 +49,16 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
         }
     };
 
-    let mut transcript = transcript::Transcript::default();
-
     checker.add_transcript(&mut transcript);
 
-    let mut lrat_processor;
-
     if let Some(lrat_path) = matches.value_of("lrat-file") {
-        lrat_processor = WriteLrat::new(fs::File::create(lrat_path)?, false);
-        checker.add_processor(&mut lrat_processor);
+        let lrat_file = fs::File::create(lrat_path)?;
+        checker.add_processor(lrat_processor.get_or_insert(WriteLrat::new(lrat_file, false)));
     }
 
-    let mut clrat_processor;
-
     if let Some(clrat_path) = matches.value_of("clrat-file") {
-        clrat_processor = WriteLrat::new(fs::File::create(clrat_path)?, true);
-        checker.add_processor(&mut clrat_processor);
+        let clrat_file = fs::File::create(clrat_path)?;
+        checker.add_processor(clrat_processor.get_or_insert(WriteLrat::new(clrat_file, true)));
     }
 
     checker.add_dimacs_cnf(file)?;
@@ -68,8 +67,21 @@ pub fn check_main(matches: &ArgMatches) -> Result<i32, Error> {
 
     log::info!("Checking proof file '{}'", path);
 
-    match checker.check_proof(fs::File::open(path)?) {
-        Ok(()) => println!("s VERIFIED"),
+    let result = checker.check_proof(fs::File::open(path)?);
+    drop(checker);
+
+    match result {
+        Ok(()) => {
+            // Finish writing all converted proofs before announcing success, so that IO errors are
+            // not lost.
+            if let Some(lrat_processor) = &mut lrat_processor {
+                lrat_processor.flush()?;
+            }
+            if let Some(clrat_processor) = &mut clrat_processor {
+                clrat_processor.flush()?;
+            }
+            println!("s VERIFIED")
+        }
         Err(err) => {
             log::error!("{}", err);
             if let CheckerError::CheckFailed { debug_step, .. } = err {
diff --git a/varisat-cli/src/main.rs b/varisat-cli/src/main.rs
index 8791121..f87c392 100644
--- a/varisat-cli/src/main.rs
+++ b/varisat-cli/src/main.rs
@@ -119,7 +119,7 @@ fn main_with_err() -> Result<i32, Error> {
         config_update.merge(toml::from_str(&config_option)?);
     }
 
-    let mut lrat_processor;
+    let mut lrat_processor = None;
 
     let mut solver = Solver::new();
 
@@ -154,9 +154,11 @@ fn main_with_err() -> Result<i32, Error> {
             "binary-drat" => Some(ProofFormat::BinaryDrat),
             "varisat" => Some(ProofFormat::Varisat),
             "lrat" | "clrat" => {
-                lrat_processor =
-                    WriteLrat::new(fs::File::create(path)?, proof_format_str == "clrat");
-                solver.add_proof_processor(&mut lrat_processor);
+                let lrat_processor = lrat_processor.get_or_insert(WriteLrat::new(
+                    fs::File::create(path)?,
+                    proof_format_str == "clrat",
+                ));
+                solver.add_proof_processor(lrat_processor);
                 None
             }
             _ => unreachable!(),
@@ -175,11 +177,26 @@ fn main_with_err() -> Result<i32, Error> {
 
     solver.add_dimacs_cnf(file)?;
 
-    match solver.solve() {
+    // Finish writing all proofs before announcing a result, so that IO errors are not lost.
+    let result = match solver.solve() {
+        Ok(satisfiable) => solver.close_proof().map(|()| satisfiable),
+        Err(err) => Err(err),
+    };
+
+    let model = solver.model();
+    drop(solver);
+
+    if result.is_ok() {
+        if let Some(lrat_processor) = &mut lrat_processor {
+            lrat_processor.flush()?;
+        }
+    }
+
+    match result {
         Ok(true) => {
             println!("s SATISFIABLE");
             print!("v");
-            for l in solver.model().unwrap() {
+            for l in model.unwrap() {
                 print!(" {}", l);
             }
             println!(" 0");
-- 
2.43.0


From ff8e1c4f2f1a00dc4b20b6d3cef393898c5c2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 02/14] fix: reset temporary flags of removed units after
 assumption conflicts

---
 varisat/src/assumptions.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index c21d8cb..8103858 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -233,6 +233,13 @@ fn analyze_assumption_conflict<'a>(
         }
     }
 
+    if flag_count > 0 {
+        // Units that were already proven are not on the trail anymore.
+        for flag in flags.iter_mut() {
+            *flag = false;
+        }
+    }
+
     assumptions.failed_propagation_hashes.reverse();
 
     assumptions.user_failed_core.clear();
-- 
2.43.0


From a8529d7e71075e5964d420086bcda17cd76d71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:23 +0000
Subject: [PATCH 03/14] fix: don't panic in model() when variables were added
 after solving

---
 varisat/src/solver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varisat/src/solver.rs b/varisat/src/solver.rs
index b46bcf8..192a9b8 100644
--- a/varisat/src/solver.rs
+++ b/varisat/src/solver.rs
@@ -196,7 +196,11 @@ impl<'a> Solver<'a> {
                             .global_from_user()
                             .get(user_var)
                             .expect("no existing global var for user var");
-                        ctx.part(ModelP).assignment()[global_var.index()]
+                        // Variables added after the last solve call have no value
+                        ctx.part(ModelP)
+                            .assignment()
+                            .get(global_var.index())
+                            .and_then(|&value| value)
                             .map(|value| user_var.lit(value))
                     })
                     .collect(),
-- 
2.43.0


From 0b0cd2c466f155d11a5e809e9163efe1db3fb7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 04/14] fix: clear the assumed flag of implied assumptions

---
 varisat/src/assumptions.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/varisat/src/assumptions.rs b/varisat/src/assumptions.rs
index 8103858..44c9f75 100644
--- a/varisat/src/assumptions.rs
+++ b/varisat/src/assumptions.rs
@@ -17,6 +17,8 @@ use crate::{
 #[derive(Default)]
 pub struct Assumptions {
     assumptions: Vec<Lit>,
+    /// Assumptions that were dropped as they are implied by other assumptions.
+    implied_assumptions: Vec<Lit>,
     failed_core: Vec<Lit>,
     user_failed_core: Vec<Lit>,
     assumption_levels: usize,
@@ -89,13 +91,19 @@ pub fn set_assumptions<'a>(
 
     let (assumptions, mut ctx_2) = ctx.split_part_mut(AssumptionsP);
 
-    for lit in assumptions.assumptions.iter() {
+    for lit in assumptions
+        .assumptions
+        .iter()
+        .chain(assumptions.implied_assumptions.iter())
+    {
         ctx_2
             .part_mut(VariablesP)
             .var_data_solver_mut(lit.var())
             .assumed = false;
     }
 
+    assumptions.implied_assumptions.clear();
+
     variables::solver_from_user_lits(
         ctx_2.borrow(),
         &mut assumptions.assumptions,
@@ -152,6 +160,7 @@ pub fn enqueue_assumption<'a>(
                 let level = ctx.part(TrailP).current_level();
                 let assumptions = ctx.part_mut(AssumptionsP);
                 assumptions.assumptions.swap_remove(level);
+                assumptions.implied_assumptions.push(assumption);
             }
             None => {
                 ctx.part_mut(TrailP).new_decision_level();
-- 
2.43.0


From e7ff798a64e3aa5086a672594545bec5d82b0141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 05/14] fix: reject DIMACS CNF input ending in a minus without
 a literal

---
 varisat-dimacs/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varisat-dimacs/src/lib.rs b/varisat-dimacs/src/lib.rs
index dc56230..7f1d76d 100644
--- a/varisat-dimacs/src/lib.rs
+++ b/varisat-dimacs/src/lib.rs
@@ -244,7 +244,9 @@ impl DimacsParser {
 
         self.finish_literal();
 
-        if !self.partial_clause.is_empty() {
+        let dangling_minus = self.negate_next_lit && !self.in_lit;
+
+        if dangling_minus || !self.partial_clause.is_empty() {
             return Err(ParserError::UnterminatedClause {
                 line: self.line_number,
             });
-- 
2.43.0


From 7197dd1d7efacd810fd1031b4a02b2783b9a3c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:24 +0000
Subject: [PATCH 06/14] fix: refuse to start generating a proof after variables
 were used

---
 varisat/src/variables.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varisat/src/variables.rs b/varisat/src/variables.rs
index ec99743..98dbcf3 100644
--- a/varisat/src/variables.rs
+++ b/varisat/src/variables.rs
@@ -255,6 +255,9 @@ pub fn global_from_user<'a>(
             variables.global_freelist.remove(&global);
             variables.user_freelist.remove(&user);
 
+            // From here on it is too late to start generating a proof.
+            ctx.part_mut(SolverStateP).formula_is_empty = false;
+
             proof::add_step(
                 ctx.borrow(),
                 false,
-- 
2.43.0


From 1041ba937dd67f66924ed60dd48d3e4b28bf0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:08 +0000
Subject: [PATCH 07/14] fix: undo temporary assignments when a RUP check refers
 to a missing clause

---
 varisat-checker/src/rup.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/rup.rs b/varisat-checker/src/rup.rs
index e6f2b9f..3ab4be3 100644
--- a/varisat-checker/src/rup.rs
+++ b/varisat-checker/src/rup.rs
@@ -60,6 +60,7 @@ pub fn check_clause_with_hashes<'a>(
     rup.trace_edges.clear();
 
     let mut rup_is_unsat = false;
+    let mut missing_hash = None;
 
     assert!(rup.trail.is_empty());
 
@@ -95,10 +96,8 @@ pub fn check_clause_with_hashes<'a>(
         let candidates = match clauses.clauses.get(&hash) {
             Some(candidates) if !candidates.is_empty() => candidates,
             _ => {
-                return Err(CheckerError::check_failed(
-                    ctx.part(CheckerStateP).step,
-                    format!("no clause found for hash {:x}", hash),
-                ))
+                missing_hash = Some(hash);
+                break 'hashes;
             }
         };
 
@@ -192,7 +191,12 @@ pub fn check_clause_with_hashes<'a>(
         clauses.unit_clauses[lit.index()] = value;
     }
 
-    if rup_is_unsat {
+    if let Some(hash) = missing_hash {
+        Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            format!("no clause found for hash {:x}", hash),
+        ))
+    } else if rup_is_unsat {
         Ok(())
     } else {
         Err(CheckerError::check_failed(
-- 
2.43.0


From 7bbee7eb7b0cfe85213f1cd17b32bf2001c22309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 08/14] fix: reject out of range values when parsing native
 proofs instead of panicking

---
 varisat-internal-proof/src/binary_format.rs | 51 ++++++++++++++-------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/varisat-internal-proof/src/binary_format.rs b/varisat-internal-proof/src/binary_format.rs
index e296468..83331a0 100644
--- a/varisat-internal-proof/src/binary_format.rs
+++ b/varisat-internal-proof/src/binary_format.rs
@@ -168,32 +168,32 @@ impl Parser {
         let code = read_u64(&mut *source)?;
         match code {
             CODE_SOLVER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let solver = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let solver = Some(read_var(&mut *source)?);
                 Ok(ProofStep::SolverVarName { global, solver })
             }
             CODE_SOLVER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::SolverVarName {
                     global,
                     solver: None,
                 })
             }
             CODE_USER_VAR_NAME_UPDATE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
-                let user = Some(Var::from_index(read_u64(&mut *source)? as usize));
+                let global = read_var(&mut *source)?;
+                let user = Some(read_var(&mut *source)?);
                 Ok(ProofStep::UserVarName { global, user })
             }
             CODE_USER_VAR_NAME_REMOVE => {
-                let global = Var::from_index(read_u64(&mut *source)? as usize);
+                let global = read_var(&mut *source)?;
                 Ok(ProofStep::UserVarName { global, user: None })
             }
             CODE_DELETE_VAR => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::DeleteVar { var })
             }
             CODE_CHANGE_SAMPLING_MODE_SAMPLE | CODE_CHANGE_SAMPLING_MODE_WITNESS => {
-                let var = Var::from_index(read_u64(&mut *source)? as usize);
+                let var = read_var(&mut *source)?;
                 Ok(ProofStep::ChangeSamplingMode {
                     var,
                     sample: code == CODE_CHANGE_SAMPLING_MODE_SAMPLE,
@@ -236,7 +236,11 @@ impl Parser {
                 })
             }
             CODE_CHANGE_HASH_BITS => {
-                let bits = read_u64(&mut *source)? as u32;
+                let bits = read_u64(&mut *source)?;
+                if bits == 0 || bits > ClauseHash::max_value().count_ones() as u64 {
+                    anyhow::bail!("parse error");
+                }
+                let bits = bits as u32;
                 Ok(ProofStep::ChangeHashBits { bits })
             }
             CODE_MODEL => {
@@ -265,6 +269,24 @@ impl Parser {
     }
 }
 
+/// Read a variable from a varisat proof
+fn read_var(source: &mut impl BufRead) -> Result<Var, Error> {
+    let index = read_u64(&mut *source)?;
+    if index > Var::max_var().index() as u64 {
+        anyhow::bail!("variable out of range");
+    }
+    Ok(Var::from_index(index as usize))
+}
+
+/// Read a literal from a varisat proof
+fn read_lit(source: &mut impl BufRead) -> Result<Lit, Error> {
+    let code = read_u64(&mut *source)?;
+    if code > Var::max_var().negative().code() as u64 {
+        anyhow::bail!("literal out of range");
+    }
+    Ok(Lit::from_code(code as usize))
+}
+
 /// Writes a slice of literals for a varisat proof
 fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
     write_u64(&mut *target, literals.len() as u64)?;
@@ -275,12 +297,11 @@ fn write_literals(target: &mut impl Write, literals: &[Lit]) -> io::Result<()> {
 }
 
 /// Read a slice of literals from a varisat proof
-fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), io::Error> {
+fn read_literals(source: &mut impl BufRead, literals: &mut Vec<Lit>) -> Result<(), Error> {
     literals.clear();
     let len = read_u64(&mut *source)? as usize;
-    literals.reserve(len);
     for _ in 0..len {
-        literals.push(Lit::from_code(read_u64(&mut *source)? as usize));
+        literals.push(read_lit(&mut *source)?);
     }
     Ok(())
 }
@@ -298,7 +319,6 @@ fn write_hashes(target: &mut impl Write, hashes: &[ClauseHash]) -> io::Result<()
 fn read_hashes(source: &mut impl BufRead, hashes: &mut Vec<ClauseHash>) -> Result<(), io::Error> {
     hashes.clear();
     let len = read_u64(&mut *source)? as usize;
-    hashes.reserve(len);
     for _ in 0..len {
         hashes.push(read_u64(&mut *source)? as ClauseHash);
     }
@@ -319,12 +339,11 @@ fn write_unit_clauses(target: &mut impl Write, units: &[(Lit, ClauseHash)]) -> i
 fn read_unit_clauses(
     source: &mut impl BufRead,
     units: &mut Vec<(Lit, ClauseHash)>,
-) -> Result<(), io::Error> {
+) -> Result<(), Error> {
     units.clear();
     let len = read_u64(&mut *source)? as usize;
-    units.reserve(len);
     for _ in 0..len {
-        let lit = Lit::from_code(read_u64(&mut *source)? as usize);
+        let lit = read_lit(&mut *source)?;
         let hash = read_u64(&mut *source)? as ClauseHash;
         units.push((lit, hash));
     }
-- 
2.43.0


From bac7d5489129abca71afd98d152a454a8beeb250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 09/14] fix: don't panic when a checked step refers to an
 unknown variable

---
 varisat-checker/src/clauses.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 06f99f4..1b1055f 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -144,7 +144,9 @@ pub struct Clauses {
 impl Clauses {
     /// Value of a literal if known from unit clauses.
     pub fn lit_value(&self, lit: Lit) -> Option<(bool, UnitClause)> {
-        self.unit_clauses[lit.index()]
+        self.unit_clauses
+            .get(lit.index())
+            .and_then(|&unit_clause| unit_clause)
             .map(|unit_clause| (unit_clause.value ^ lit.is_negative(), unit_clause))
     }
 }
-- 
2.43.0


From dd4bdade7945abc39a2fda3bcfa83bf17fc6e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 10/14] fix: reject models of formulas already known to be
 unsatisfiable

---
 varisat-checker/src/state.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7f3e747..b645c57 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -477,6 +477,14 @@ fn check_model_step<'a>(
 ) -> Result<(), CheckerError> {
     let mut assignments = HashSet::default();
 
+    // Conflicting units and clauses added after a conflict are not stored.
+    if ctx.part(CheckerStateP).unsat {
+        return Err(CheckerError::check_failed(
+            ctx.part(CheckerStateP).step,
+            "model for an unsatisfiable formula".to_string(),
+        ));
+    }
+
     for &lit in model.iter() {
         if let Some((false, _)) = ctx.part(ClausesP).lit_value(lit) {
             return Err(CheckerError::check_failed(
-- 
2.43.0


From 42533d3d12552c4fc441b6f9b49ff5a368a81436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:09 +0000
Subject: [PATCH 11/14] fix: write buffered LRAT deletions on flush and drop

---
 varisat-lrat/src/lib.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/varisat-lrat/src/lib.rs b/varisat-lrat/src/lib.rs
index faad23e..d348d00 100644
--- a/varisat-lrat/src/lib.rs
+++ b/varisat-lrat/src/lib.rs
@@ -23,13 +23,7 @@ impl<'a> ProofProcessor for WriteLrat<'a> {
         match step {
             CheckedProofStep::AddClause { .. } => (),
             CheckedProofStep::DuplicatedClause { .. } => (),
-            _ => {
-                if !self.buffered_deletes.is_empty() {
-                    let buffered_deletes = replace(&mut self.buffered_deletes, vec![]);
-                    self.open_delete()?;
-                    self.write_ids(&buffered_deletes)?;
-                }
-            }
+            _ => self.write_buffered_deletes()?,
         }
 
         match step {
@@ -114,11 +108,22 @@ impl<'a> WriteLrat<'a> {
     /// This is automatically called when this proof processor is dropped. Calling this explicitly
     /// is recommended to handle possible IO errors.
     pub fn flush(&mut self) -> Result<(), Error> {
+        self.write_buffered_deletes()?;
         self.close_delete()?;
         self.target.flush()?;
         Ok(())
     }
 
+    /// Write out delete steps that were waiting for a known id.
+    fn write_buffered_deletes(&mut self) -> Result<(), Error> {
+        if !self.buffered_deletes.is_empty() {
+            let buffered_deletes = replace(&mut self.buffered_deletes, vec![]);
+            self.open_delete()?;
+            self.write_ids(&buffered_deletes)?;
+        }
+        Ok(())
+    }
+
     /// If necessary begin a batched delete step.
     fn open_delete(&mut self) -> Result<(), Error> {
         if !self.delete_open {
@@ -211,7 +216,9 @@ impl<'a> WriteLrat<'a> {
 
 impl<'a> Drop for WriteLrat<'a> {
     fn drop(&mut self) {
-        let _ignore_errors = self.close_delete();
+        let _ignore_errors = self
+            .write_buffered_deletes()
+            .and_then(|_| self.close_delete());
     }
 }
 
-- 
2.43.0


From eab874b04c9832db0b85b056891917a09c2a1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 12/14] fix: do not crash on tautological clauses with new
 variables

---
 varisat-checker/src/clauses.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/varisat-checker/src/clauses.rs b/varisat-checker/src/clauses.rs
index 1b1055f..7868080 100644
--- a/varisat-checker/src/clauses.rs
+++ b/varisat-checker/src/clauses.rs
@@ -162,7 +162,13 @@ pub fn add_clause<'a>(
 
     let (tmp_data, mut ctx) = ctx.split_part_mut(TmpDataP);
 
-    if copy_canonical(&mut tmp_data.tmp, clause) {
+    let tautology = copy_canonical(&mut tmp_data.tmp, clause);
+
+    for &lit in tmp_data.tmp.iter() {
+        ensure_sampling_var(ctx.borrow(), lit.var())?;
+    }
+
+    if tautology {
         let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
         process_step(
             ctx.borrow(),
@@ -175,10 +181,6 @@ pub fn add_clause<'a>(
         return Ok(());
     }
 
-    for &lit in tmp_data.tmp.iter() {
-        ensure_sampling_var(ctx.borrow(), lit.var())?;
-    }
-
     let (id, added) = store_clause(ctx.borrow(), &tmp_data.tmp, false);
 
     let (clauses, mut ctx) = ctx.split_part_mut(ClausesP);
-- 
2.43.0


From f82d03092d675860da3da5cd7afb1f94651ec519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 13/14] fix: forget the previous clause when a variable's unit
 clause is deleted

---
 varisat-checker/src/state.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index b645c57..7d149b9 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -150,10 +150,10 @@ pub fn check_step<'a>(
 fn check_delete_var_step<'a>(
     mut ctx: partial!(
         Context<'a>,
+        mut CheckerStateP,
         mut ClausesP,
         mut ProcessingP<'a>,
         mut VariablesP,
-        CheckerStateP,
     ),
     var: Var,
 ) -> Result<(), CheckerError> {
@@ -196,6 +196,13 @@ fn check_delete_var_step<'a>(
             },
         )?;
         ctx.part_mut(ClausesP).unit_clauses[var.index()] = None;
+
+        // A deleted clause does not justify further deletions
+        let state = ctx.part_mut(CheckerStateP);
+        if state.previous_irred_clause_id == Some(id) {
+            state.previous_irred_clause_id = None;
+            state.previous_irred_clause_lits.clear();
+        }
     }
 
     ctx.part_mut(VariablesP).var_data[var.index()] = VarData::default();
-- 
2.43.0


From 70027a7c6fc59a18bb07b66200049e21e1c9120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:34 +0000
Subject: [PATCH 14/14] fix: reject failed assumptions over hidden variables

---
 varisat-checker/src/state.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/varisat-checker/src/state.rs b/varisat-checker/src/state.rs
index 7d149b9..488b558 100644
--- a/varisat-checker/src/state.rs
+++ b/varisat-checker/src/state.rs
@@ -16,7 +16,8 @@ use crate::{
     context::{parts::*, Context},
     hash::rehash,
     processing::{
-        process_step, CheckedProofStep, CheckedSamplingMode, CheckedUserVar, ResolutionPropagations,
+        process_step, CheckedProofStep, CheckedSamplingMode, CheckedUserVar, CheckerData,
+        ResolutionPropagations,
     },
     rup::check_clause_with_hashes,
     sorted_lits::{copy_canonical, is_subset},
@@ -560,6 +561,19 @@ fn check_failed_assumptions_step<'a>(
         ));
     }
 
+    for &lit in tmp.iter() {
+        // The variable may have been hidden after it was assumed
+        if CheckerData(ctx.borrow())
+            .user_from_proof_var(lit.var())
+            .is_none()
+        {
+            return Err(CheckerError::check_failed(
+                ctx.part(CheckerStateP).step,
+                format!("failed core contains hidden variable {:?}", lit.var()),
+            ));
+        }
+    }
+
     if direct_conflict {
         // we have x and not x among the assumptions, no need to check
         ctx.part_mut(RupCheckP).trace_ids.clear();
-- 
2.43.0


From a3fea860b3203c86d515a8443b420409da736a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:22 +0000
Subject: [PATCH 01/34] fix: order versions with extra tokens transitively

1 == 1.0.0 and 1.0.0 < 1.0.1 held together with 1.0.1 < 1: extra tokens
after the shared prefix always made the longer version smaller.  Compare
them with the implicit zero tokens of the shorter version instead.
---
 crates/rez-next-version/src/version.rs | 66 +++++++-------------------
 1 file changed, 17 insertions(+), 49 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index dd7095f..3adc7b4 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -410,10 +410,10 @@ impl Version {
 
     /// Compare token arrays using rez-compatible rules.
     /// In rez, trailing zeros are implicit: 1.0 == 1.0.0 == 1.0.0.0
-    /// Rez epoch semantics: shorter version = higher epoch
-    /// - If extra tokens are all zeros → equal (trailing zeros implicit)
-    /// - If extra tokens start with non-zero numeric → shorter is greater (higher epoch)
-    /// - If extra tokens start with alpha → shorter is LESS (pre-release, so longer is greater)
+    /// so an extra token is compared with an implicit zero token:
+    /// - extra tokens that are all zero → equal
+    /// - first other extra token is numeric → longer is greater (1.0.1 > 1.0)
+    /// - first other extra token is alphabetic → longer is less (1.0.alpha < 1.0)
     fn compare_token_strings(tokens1: &[String], tokens2: &[String]) -> Ordering {
         for (t1, t2) in tokens1.iter().zip(tokens2.iter()) {
             let cmp = Self::compare_single_token(t1, t2);
@@ -422,54 +422,22 @@ impl Version {
             }
         }
 
-        // If all compared tokens are equal, check extra tokens
-        // Rez semantics: trailing zeros are implicit
-        // - 2 == 2.0.0 (extra tokens are all "0")
-        // - 1.0.1 > 1.0 (shorter has implicit Z+ which is > any digit)
-        // - 1.0 > 1.0.alpha (release > pre-release)
-        if tokens1.len() < tokens2.len() {
-            // tokens1 is shorter, tokens2 has extra tokens
-            let extra_tokens = &tokens2[tokens1.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens2[tokens1.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // Shorter has implicit Z+ which is > any digit
-                    Ordering::Greater
-                } else {
-                    // Extra token is alpha → tokens2 is pre-release
-                    // Release (tokens1) > pre-release (tokens2)
-                    Ordering::Greater
-                }
+        // All shared tokens are equal: the shorter version continues with implicit
+        // zero tokens, so the first extra token that differs from zero decides.
+        let shared = tokens1.len().min(tokens2.len());
+        for extra in &tokens1[shared..] {
+            let cmp = Self::compare_single_token(extra, "0");
+            if cmp != Ordering::Equal {
+                return cmp;
             }
-        } else if tokens2.len() < tokens1.len() {
-            // tokens2 is shorter, tokens1 has extra tokens
-            let extra_tokens = &tokens1[tokens2.len()..];
-            if extra_tokens.iter().all(|t| t == "0") {
-                // Trailing zeros implicit → equal
-                Ordering::Equal
-            } else {
-                // Check first extra token
-                let first_extra = &tokens1[tokens2.len()];
-                if first_extra.chars().all(|c| c.is_ascii_digit()) {
-                    // Extra token is numeric and non-zero
-                    // tokens2 has implicit Z+ which is > any digit
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                } else {
-                    // Extra token is alpha → tokens1 is pre-release
-                    // tokens2 is release, Release > pre-release
-                    // So tokens2 > tokens1, meaning tokens1 < tokens2
-                    Ordering::Less
-                }
+        }
+        for extra in &tokens2[shared..] {
+            let cmp = Self::compare_single_token("0", extra);
+            if cmp != Ordering::Equal {
+                return cmp;
             }
-        } else {
-            Ordering::Equal
         }
+        Ordering::Equal
     }
 }
 
-- 
2.43.0


From fcf58326cabb3a0da8de0261fcf45c5f559c9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:42 +0000
Subject: [PATCH 02/34] fix: compare version numbers beyond 64 bits as numbers

A digit run that does not fit u64 was compared as text, so
99999999999999999999 sorted before 1 and the order had cycles
(a1 < b < 99999999999999999999 < a1).
---
 crates/rez-next-version/src/version.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 3adc7b4..67e5df1 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -362,14 +362,10 @@ impl Version {
         let seg2 = Self::split_token_segments(t2);
 
         for (s1, s2) in seg1.iter().zip(seg2.iter()) {
-            let s1_is_num = s1.parse::<u64>().is_ok();
-            let s2_is_num = s2.parse::<u64>().is_ok();
+            let s1_is_num = s1.starts_with(|c: char| c.is_ascii_digit());
+            let s2_is_num = s2.starts_with(|c: char| c.is_ascii_digit());
             let cmp = match (s1_is_num, s2_is_num) {
-                (true, true) => {
-                    let n1: u64 = s1.parse().unwrap();
-                    let n2: u64 = s2.parse().unwrap();
-                    n1.cmp(&n2)
-                }
+                (true, true) => Self::compare_digit_runs(s1, s2),
                 (false, false) => s1.as_str().cmp(s2.as_str()),
                 (false, true) => Ordering::Less, // alpha segment < numeric segment
                 (true, false) => Ordering::Greater, // numeric segment > alpha segment
@@ -381,6 +377,13 @@ impl Version {
         seg1.len().cmp(&seg2.len())
     }
 
+    /// Compare two runs of digits by value, whatever their length.
+    fn compare_digit_runs(d1: &str, d2: &str) -> Ordering {
+        let d1 = d1.trim_start_matches('0');
+        let d2 = d2.trim_start_matches('0');
+        d1.len().cmp(&d2.len()).then_with(|| d1.cmp(d2))
+    }
+
     /// Split a token into alternating alpha/numeric segments.
     /// E.g. "alpha10" → ["alpha", "10"], "rc2" → ["rc", "2"]
     fn split_token_segments(s: &str) -> Vec<String> {
-- 
2.43.0


From 39905e0b11a42f01b8fc702dbdad46c07ebc070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:43 +0000
Subject: [PATCH 03/34] fix: hash equal versions alike

Version equality ignores trailing zero tokens and leading zeros while the
hash used the text, so a HashSet<Version> kept 1.0 and 1.0.0 apart.
---
 crates/rez-next-version/src/version.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/version.rs b/crates/rez-next-version/src/version.rs
index 67e5df1..b9c5805 100644
--- a/crates/rez-next-version/src/version.rs
+++ b/crates/rez-next-version/src/version.rs
@@ -466,7 +466,25 @@ impl PartialOrd for Version {
 
 impl Hash for Version {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.string_repr.hash(state);
+        // Equal versions must hash alike: trailing zero tokens and leading zeros of a
+        // number do not count (1 == 1.0, 1.07 == 1.7).
+        self.is_inf().hash(state);
+        self.is_empty().hash(state);
+        let significant = self
+            .tokens
+            .iter()
+            .rposition(|t| Self::compare_single_token(t, "0") != Ordering::Equal)
+            .map_or(0, |last| last + 1);
+        for token in &self.tokens[..significant] {
+            for segment in Self::split_token_segments(token) {
+                if segment.starts_with(|c: char| c.is_ascii_digit()) {
+                    ('0', segment.trim_start_matches('0')).hash(state);
+                } else {
+                    ('a', segment.as_str()).hash(state);
+                }
+            }
+            '.'.hash(state);
+        }
     }
 }
 
-- 
2.43.0


From 496ec90b60936e490f5c5de768b76a78d7e7e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:04 +0000
Subject: [PATCH 04/34] fix: a range with subtracted versions is not the any
 range

---
 crates/rez-next-version/src/range/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 3e7c139..4c3ecb4 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -209,10 +209,11 @@ impl VersionRange {
         if s.is_empty() || s == "*" {
             return true;
         }
-        // Check if all bound sets are Any
-        self.bound_sets
-            .iter()
-            .all(|bs| bs.bounds.is_empty() || bs.bounds.iter().all(|b| matches!(b, Bound::Any)))
+        // Check if all bound sets are Any and nothing was subtracted
+        self.subtract_from.is_empty()
+            && self.bound_sets.iter().all(|bs| {
+                bs.bounds.is_empty() || bs.bounds.iter().all(|b| matches!(b, Bound::Any))
+            })
     }
 
     /// Check if this range is a subset of another range
-- 
2.43.0


From 0555696af3fbeeefcbbe44e52a13ef95def97121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:04 +0000
Subject: [PATCH 05/34] fix: compatible-release bounds near the 64-bit limit do
 not overflow

---
 crates/rez-next-version/src/range/types.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-version/src/range/types.rs b/crates/rez-next-version/src/range/types.rs
index 4423ba0..d455f73 100644
--- a/crates/rez-next-version/src/range/types.rs
+++ b/crates/rez-next-version/src/range/types.rs
@@ -78,15 +78,15 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
             // Calculate upper bound
             let upper_str = if parts.len() == 2 {
                 // X.Y -> (X+1).0
-                if let Ok(x) = parts[0].parse::<u64>() {
-                    format!("{}.0", x + 1)
+                if let Some(x) = next_number(parts[0]) {
+                    format!("{x}.0")
                 } else {
                     return true;
                 }
             } else {
                 // X.Y.Z... -> X.(Y+1).0
-                if let Ok(y) = parts[1].parse::<u64>() {
-                    format!("{}.{}.0", parts[0], y + 1)
+                if let Some(y) = next_number(parts[1]) {
+                    format!("{}.{y}.0", parts[0])
                 } else {
                     return true;
                 }
@@ -100,3 +100,8 @@ pub(super) fn bound_matches(bound: &Bound, version: &Version) -> bool {
         }
     }
 }
+
+/// The number after `part`, if `part` is a number and the next one still fits.
+fn next_number(part: &str) -> Option<u64> {
+    part.parse::<u64>().ok().and_then(|n| n.checked_add(1))
+}
-- 
2.43.0


From 3f0eed3c79a22c4cee0aebf40ea9e989ffc181f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:21 +0000
Subject: [PATCH 06/34] fix: union of ranges keeps subtracted versions out

---
 crates/rez-next-version/src/range/mod.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-version/src/range/mod.rs b/crates/rez-next-version/src/range/mod.rs
index 4c3ecb4..6203e89 100644
--- a/crates/rez-next-version/src/range/mod.rs
+++ b/crates/rez-next-version/src/range/mod.rs
@@ -167,11 +167,31 @@ impl VersionRange {
         let new_str = format!("{}|{}", self.range_str, other.range_str);
         let mut sets = self.bound_sets.clone();
         sets.extend(other.bound_sets.clone());
+        // What one side subtracted stays out unless the other side contains it
+        let mut subtracts = Vec::new();
+        for sub in &self.subtract_from {
+            subtracts.push(sub.without(other));
+        }
+        for sub in &other.subtract_from {
+            subtracts.push(sub.without(self));
+        }
         VersionRange {
             range_str: new_str,
             bound_sets: sets,
             is_parsed: true,
-            subtract_from: Vec::new(),
+            subtract_from: subtracts,
+        }
+    }
+
+    /// `self` with `other` excluded
+    fn without(&self, other: &VersionRange) -> VersionRange {
+        let mut subtracts = self.subtract_from.clone();
+        subtracts.push(other.clone());
+        VersionRange {
+            range_str: format!("({})-({})", self.range_str, other.range_str),
+            bound_sets: self.bound_sets.clone(),
+            is_parsed: true,
+            subtract_from: subtracts,
         }
     }
 
-- 
2.43.0


From e0e249fd580f0387fcc93778262459394e9b406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:54 +0000
Subject: [PATCH 07/34] fix: requirement bounds follow the version order at the
 bound's depth

---
 .../rez-next-package/src/requirement/types.rs | 29 +++----------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/types.rs b/crates/rez-next-package/src/requirement/types.rs
index 90c1d2f..53e632b 100644
--- a/crates/rez-next-package/src/requirement/types.rs
+++ b/crates/rez-next-package/src/requirement/types.rs
@@ -326,32 +326,11 @@ impl VersionConstraint {
     /// Rez semantics: constraints with fewer tokens are compared only at the token depth
     /// of the constraint.
     pub fn cmp_at_depth(version: &Version, constraint_ver: &Version) -> std::cmp::Ordering {
-        let ver_str = version.as_str();
-        let con_str = constraint_ver.as_str();
-
-        let ver_parts: Vec<&str> = ver_str.split('.').collect();
-        let con_parts: Vec<&str> = con_str.split('.').collect();
-
-        let depth = con_parts.len();
-
-        for (v_tok, c_tok) in ver_parts.iter().zip(con_parts.iter()).take(depth) {
-            let v_tok = *v_tok;
-            let c_tok = *c_tok;
-
-            if let (Ok(vn), Ok(cn)) = (v_tok.parse::<u64>(), c_tok.parse::<u64>()) {
-                match vn.cmp(&cn) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            } else {
-                match v_tok.cmp(c_tok) {
-                    std::cmp::Ordering::Equal => continue,
-                    ord => return ord,
-                }
-            }
+        if !constraint_ver.is_empty() && !constraint_ver.is_inf() && version.has_prefix(constraint_ver) {
+            std::cmp::Ordering::Equal
+        } else {
+            version.cmp(constraint_ver)
         }
-
-        std::cmp::Ordering::Equal
     }
 
     /// Combine two constraints with AND logic
-- 
2.43.0


From aaabddf0c930c6c3ec514700677b0ba1e775089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:04 +0000
Subject: [PATCH 08/34] fix: platform conditions keep the architecture they
 name

---
 .../src/requirement/parser.rs                 | 22 +++++--------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index c32b5e0..8075da4 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -106,22 +106,12 @@ impl RequirementParser {
             let platform =
                 condition[platform_start + 1..platform_start + 1 + platform_end].to_string();
 
-            let arch = if condition.contains("arch") {
-                if let Some(arch_start) = condition.rfind('\'') {
-                    if arch_start > platform_start + 1 + platform_end {
-                        condition[arch_start + 1..].find('\'').map(|arch_end| {
-                            condition[arch_start + 1..arch_start + 1 + arch_end].to_string()
-                        })
-                    } else {
-                        None
-                    }
-                } else {
-                    None
-                }
-            } else {
-                None
-            };
-
+            let rest = &condition[platform_start + 1 + platform_end + 1..];
+            let arch = rest.find("arch").and_then(|arch_pos| {
+                let mut quoted = rest[arch_pos..].split('\'').skip(1);
+                let arch = quoted.next()?;
+                quoted.next().map(|_| arch.to_string())
+            });
             return Ok(PlatformCondition {
                 platform,
                 arch,
-- 
2.43.0


From e1a5b3b604261873ac3a6f280b4e76d357455e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:52 +0000
Subject: [PATCH 09/34] fix: environment conditions split at their first
 operator

---
 crates/rez-next-package/src/requirement/parser.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-package/src/requirement/parser.rs b/crates/rez-next-package/src/requirement/parser.rs
index 8075da4..3b34515 100644
--- a/crates/rez-next-package/src/requirement/parser.rs
+++ b/crates/rez-next-package/src/requirement/parser.rs
@@ -124,12 +124,15 @@ impl RequirementParser {
 
     /// Parse environment condition
     fn parse_env_condition(&self, condition: &str) -> Result<EnvCondition, String> {
-        let negate = condition.contains("!=");
-
         if let Some(var_start) = condition.find("env.") {
             let var_part = &condition[var_start + 4..];
 
-            if let Some(op_pos) = var_part.find("==").or_else(|| var_part.find("!=")) {
+            // The first operator counts; the value may contain the other one
+            let op = [("==", false), ("!=", true)]
+                .iter()
+                .filter_map(|(op, negate)| var_part.find(op).map(|pos| (pos, *negate)))
+                .min();
+            if let Some((op_pos, negate)) = op {
                 let var_name = var_part[..op_pos].to_string();
                 let value_part = &var_part[op_pos + 2..];
 
@@ -154,7 +157,7 @@ impl RequirementParser {
                 return Ok(EnvCondition {
                     var_name: var_part.to_string(),
                     expected_value: None,
-                    negate,
+                    negate: false,
                 });
             }
         }
-- 
2.43.0


From 5c973903df3ad8a4cae4ae45544fd106a4cf5330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:11 +0000
Subject: [PATCH 10/34] fix: a negated existence condition keeps its negation
 when printed

---
 crates/rez-next-package/src/requirement/display.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rez-next-package/src/requirement/display.rs b/crates/rez-next-package/src/requirement/display.rs
index 9b41d13..d4931b7 100644
--- a/crates/rez-next-package/src/requirement/display.rs
+++ b/crates/rez-next-package/src/requirement/display.rs
@@ -48,6 +48,7 @@ impl fmt::Display for EnvCondition {
         let op = if self.negate { "!=" } else { "==" };
         match &self.expected_value {
             Some(value) => write!(f, "env.{}{}'{}'", self.var_name, op, value),
+            None if self.negate => write!(f, "env.{}!=None", self.var_name),
             None => write!(f, "env.{}", self.var_name),
         }
     }
-- 
2.43.0


From 2025ded44b0237308caee09f3ef726f61b40500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 11/34] fix: a selected package that a later conflict excludes
 is replaced or reported

---
 crates/rez-next-solver/src/resolution_state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 638fda0..df4d1db 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -310,6 +310,7 @@ impl ResolutionState {
                     .version
                     .as_ref()
                     .is_none_or(|v| requirement.is_satisfied_by(v))
+                && self.check_explicit_conflicts(&pkg.package).is_none()
         })
     }
 
-- 
2.43.0


From 3804277babae6cfd8b001792c5dbd1af36eab97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 12/34] fix: conflicts whose bounds compare equal are all
 enforced

---
 crates/rez-next-solver/src/resolution_state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index df4d1db..72eaec9 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -221,10 +221,10 @@ impl ResolutionState {
             }
         }
 
+        // Bounds that compare equal (`!foo-1`, `!foo-1.0`) still exclude different
+        // versions, so every conflict is kept.
         for conflict in self.package_conflict_requirements.values().flatten() {
-            if !self.conflict_requirements.contains(conflict) {
-                self.conflict_requirements.push(conflict.clone());
-            }
+            self.conflict_requirements.push(conflict.clone());
         }
     }
 
-- 
2.43.0


From 8f58300f43453b21f091a187a4d9d3aae6ad28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 13/34] fix: a conflict requirement with leading blanks stays a
 conflict

---
 crates/rez-next-solver/src/dependency_resolver.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 9bb4007..49baa61 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -616,6 +616,7 @@ impl DependencyResolver {
 
     fn parse_variant_requirement(raw: &str) -> Result<(bool, Requirement), String> {
         let (conflict, requirement) = raw
+            .trim_start()
             .strip_prefix('!')
             .map_or((false, raw), |requirement| (true, requirement));
         requirement
-- 
2.43.0


From bfdf79f2e9f7a92bef6a87b469b2fe254126cdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:05 +0000
Subject: [PATCH 14/34] fix: a solve in which packages keep displacing each
 other ends

---
 crates/rez-next-solver/src/dependency_resolver.rs | 10 +++++++++-
 crates/rez-next-solver/src/resolution_state.rs    |  4 ++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 49baa61..fb90c18 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -215,7 +215,11 @@ impl DependencyResolver {
                 .iter()
                 .any(|resolved| resolved.package.name == requirement.name);
 
-            if candidates.is_empty() {
+            // Packages that keep displacing each other would never settle
+            let attempts_exhausted =
+                has_resolved_package && state.replacements >= self.config.max_attempts;
+
+            if candidates.is_empty() || attempts_exhausted {
                 state.failed_requirements.push(requirement.clone());
                 continue;
             }
@@ -265,6 +269,10 @@ impl DependencyResolver {
                 resolved = true;
             }
 
+            if resolved && has_resolved_package {
+                state.replacements += 1;
+            }
+
             if !resolved
                 && self.config.strict_mode
                 && self
diff --git a/crates/rez-next-solver/src/resolution_state.rs b/crates/rez-next-solver/src/resolution_state.rs
index 72eaec9..3494509 100644
--- a/crates/rez-next-solver/src/resolution_state.rs
+++ b/crates/rez-next-solver/src/resolution_state.rs
@@ -51,6 +51,9 @@ pub(crate) struct ResolutionState {
     pub(crate) packages_considered: usize,
     pub(crate) variants_evaluated: usize,
     pub(crate) backtrack_steps: usize,
+
+    /// Number of times a selected package was replaced by another version
+    pub(crate) replacements: usize,
 }
 
 impl ResolutionState {
@@ -78,6 +81,7 @@ impl ResolutionState {
             packages_considered: 0,
             variants_evaluated: 0,
             backtrack_steps: 0,
+            replacements: 0,
         };
         state.rebuild_constraints();
         state
-- 
2.43.0


From eafac44c943826cef1df4dff67f581509870e581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:38 +0000
Subject: [PATCH 15/34] fix: the solver honours a request's constraints and
 exclusions

---
 crates/rez-next-solver/src/solver.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 020c9d2..2fc357b 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -208,17 +208,31 @@ impl DependencySolver {
                 .map_err(|e| RezCoreError::Solver(format!("Failed to create runtime: {}", e)))?;
 
             // Convert PackageRequirement -> Requirement via string parsing
-            let requirements: Vec<Requirement> = request
+            let to_requirement = |pr: PackageRequirement| {
+                let req_str = pr.to_string();
+                req_str
+                    .parse::<Requirement>()
+                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+            };
+            let mut requirements: Vec<Requirement> = request
                 .requirements
                 .into_iter()
-                .map(|pr| {
-                    let req_str = pr.to_string();
-                    req_str
-                        .parse::<Requirement>()
-                        .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
-                })
+                .map(to_requirement)
                 .collect();
 
+            // Constraints restrict packages that are part of the solve without
+            // requesting them; excluded packages must not be part of it.
+            requirements.extend(request.constraints.into_iter().map(|constraint| {
+                let mut requirement = to_requirement(constraint);
+                requirement.weak = !requirement.conflict;
+                requirement
+            }));
+            requirements.extend(request.excludes.into_iter().map(|name| {
+                let mut requirement = Requirement::new(name);
+                requirement.conflict = true;
+                requirement
+            }));
+
             let mut resolver =
                 DependencyResolver::new(Arc::clone(repo_manager), self.config.clone());
 
-- 
2.43.0


From 54ef05bff3c34554fb843e8598289a8610a51c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:32 +0000
Subject: [PATCH 16/34] fix: requirements with operators survive printing and
 parsing

---
 crates/rez-next-package/src/package/requirement.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package/requirement.rs b/crates/rez-next-package/src/package/requirement.rs
index cdb92cd..806638b 100644
--- a/crates/rez-next-package/src/package/requirement.rs
+++ b/crates/rez-next-package/src/package/requirement.rs
@@ -22,7 +22,13 @@ pub struct PackageRequirement {
 impl std::fmt::Display for PackageRequirement {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         let base = if let Some(ref version) = self.version_spec {
-            format!("{}-{}", self.name, version)
+            // Operators follow the name directly; only versions and ranges take a dash
+            let separator = if version.trim_start().starts_with(['<', '>', '=', '!', '~']) {
+                ""
+            } else {
+                "-"
+            };
+            format!("{}{}{}", self.name, separator, version)
         } else {
             self.name.clone()
         };
-- 
2.43.0


From e930c3a5ddfc6770eff711ca1b1ea73a2f143d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:49 +0000
Subject: [PATCH 17/34] fix: a request with an unreadable requirement is
 refused

---
 crates/rez-next-solver/src/solver.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/crates/rez-next-solver/src/solver.rs b/crates/rez-next-solver/src/solver.rs
index 2fc357b..c97dcbc 100644
--- a/crates/rez-next-solver/src/solver.rs
+++ b/crates/rez-next-solver/src/solver.rs
@@ -210,23 +210,26 @@ impl DependencySolver {
             // Convert PackageRequirement -> Requirement via string parsing
             let to_requirement = |pr: PackageRequirement| {
                 let req_str = pr.to_string();
-                req_str
-                    .parse::<Requirement>()
-                    .unwrap_or_else(|_| Requirement::new(pr.name.clone()))
+                req_str.parse::<Requirement>().map_err(|e| {
+                    RezCoreError::RequirementParse(format!(
+                        "Invalid requirement '{}': {}",
+                        req_str, e
+                    ))
+                })
             };
             let mut requirements: Vec<Requirement> = request
                 .requirements
                 .into_iter()
                 .map(to_requirement)
-                .collect();
+                .collect::<Result<_, _>>()?;
 
             // Constraints restrict packages that are part of the solve without
             // requesting them; excluded packages must not be part of it.
-            requirements.extend(request.constraints.into_iter().map(|constraint| {
-                let mut requirement = to_requirement(constraint);
+            for constraint in request.constraints {
+                let mut requirement = to_requirement(constraint)?;
                 requirement.weak = !requirement.conflict;
-                requirement
-            }));
+                requirements.push(requirement);
+            }
             requirements.extend(request.excludes.into_iter().map(|name| {
                 let mut requirement = Requirement::new(name);
                 requirement.conflict = true;
-- 
2.43.0


From 346d17b9d557b1c06fc669c313369a12d2342ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:37 +0000
Subject: [PATCH 18/34] fix: preferring the latest version ranks unversioned
 packages last

The arms for a missing version were copied from the ascending comparison
although the operands are swapped, so an unversioned package was chosen
before every versioned one.
---
 crates/rez-next-solver/src/dependency_resolver.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index fb90c18..1504785 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -442,8 +442,8 @@ impl DependencyResolver {
         if self.config.prefer_latest {
             candidates.sort_by(|a, b| match (&b.version, &a.version) {
                 (Some(bv), Some(av)) => bv.cmp(av),
-                (Some(_), None) => std::cmp::Ordering::Less,
-                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (Some(_), None) => std::cmp::Ordering::Greater,
+                (None, Some(_)) => std::cmp::Ordering::Less,
                 (None, None) => std::cmp::Ordering::Equal,
             });
         } else {
-- 
2.43.0


From c9388a4da435ed184748fa707e19b1f790646429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:07 +0000
Subject: [PATCH 19/34] fix: a weak requirement on an unselected package is not
 a failure

A weak requirement that failed while its package was selected stayed in
the failed list after the package was pruned, so a strict solve was
refused although its answer met every requirement.
---
 crates/rez-next-solver/src/dependency_resolver.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-solver/src/dependency_resolver.rs b/crates/rez-next-solver/src/dependency_resolver.rs
index 1504785..0918e12 100644
--- a/crates/rez-next-solver/src/dependency_resolver.rs
+++ b/crates/rez-next-solver/src/dependency_resolver.rs
@@ -158,7 +158,13 @@ impl DependencyResolver {
         let failed: Vec<_> = failed_requirements
             .into_iter()
             .filter(|requirement| {
-                resolution_state.is_requirement_active(requirement)
+                // A weak requirement asks nothing of a package that is not selected
+                let applies = !requirement.weak
+                    || result
+                        .iter()
+                        .any(|resolved| resolved.package.name == requirement.name);
+                applies
+                    && resolution_state.is_requirement_active(requirement)
                     && resolution_state
                         .find_satisfying_package(requirement)
                         .is_none()
-- 
2.43.0


From 659c6e683231cd6f96c8d44bdf42a30be61778a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:18 +0000
Subject: [PATCH 20/34] fix: expand rex references in one pass

The references of a value were replaced variable by variable in the order of a
HashMap, so the result could differ from run to run: a value containing another
reference was expanded again or not, and $APP also rewrote $APP_HOME.
---
 crates/rez-next-rex/src/executor.rs | 50 +++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 37db3bf..6f84144 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -88,15 +88,7 @@ impl RexExecutor {
 
     /// Expand {variable} references in action values
     fn expand_action_vars(&self, action: RexAction) -> RexAction {
-        let expand = |s: &str| -> String {
-            let mut result = s.to_string();
-            for (key, value) in &self.context_vars {
-                result = result.replace(&format!("{{{}}}", key), value);
-                // Also support $NAME style
-                result = result.replace(&format!("${}", key.to_uppercase()), value);
-            }
-            result
-        };
+        let expand = |s: &str| -> String { expand_vars(s, &self.context_vars) };
 
         let new_action_type = match action.action_type {
             RexActionType::Setenv { name, value } => RexActionType::Setenv {
@@ -152,6 +144,46 @@ impl RexExecutor {
     }
 }
 
+/// Replace every `{name}` and `$NAME` reference in `text` by the value of that variable.
+///
+/// The text is read once, from left to right: values are copied verbatim, so the
+/// result does not depend on the order in which the variables are stored.
+fn expand_vars(text: &str, vars: &HashMap<String, String>) -> String {
+    let mut result = String::with_capacity(text.len());
+    let mut rest = text;
+    while let Some(c) = rest.chars().next() {
+        if let Some((value, length)) = reference_at(rest, vars) {
+            result.push_str(value);
+            rest = &rest[length..];
+        } else {
+            result.push(c);
+            rest = &rest[c.len_utf8()..];
+        }
+    }
+    result
+}
+
+/// The value and the length of the longest reference at the start of `text`, if any.
+/// A `$NAME` reference ends at a word boundary: `$NAME` is not part of `$NAMES`.
+fn reference_at<'a>(text: &str, vars: &'a HashMap<String, String>) -> Option<(&'a str, usize)> {
+    if !text.starts_with(['{', '$']) {
+        return None;
+    }
+    vars.iter()
+        .filter_map(|(key, value)| {
+            let braced = format!("{{{key}}}");
+            if text.starts_with(&braced) {
+                return Some((value.as_str(), braced.len(), key));
+            }
+            let dollar = format!("${}", key.to_uppercase());
+            let tail = text.strip_prefix(&dollar)?;
+            let in_word = tail.starts_with(|c: char| c.is_alphanumeric() || c == '_');
+            (!in_word).then_some((value.as_str(), dollar.len(), key))
+        })
+        .max_by(|a, b| a.1.cmp(&b.1).then_with(|| b.2.cmp(a.2)))
+        .map(|(value, length, _)| (value, length))
+}
+
 impl Default for RexExecutor {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From 5de908da10a3d5cd09a7e33b5393886a926a4a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:18 +0000
Subject: [PATCH 21/34] fix: drop version components of the previously executed
 package

An executor that ran a package 1.2.3 and then one with version 1.2 expanded
{this.version.patch} in the second package to 3.
---
 crates/rez-next-rex/src/executor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-rex/src/executor.rs b/crates/rez-next-rex/src/executor.rs
index 6f84144..5d6419c 100644
--- a/crates/rez-next-rex/src/executor.rs
+++ b/crates/rez-next-rex/src/executor.rs
@@ -49,9 +49,12 @@ impl RexExecutor {
                 .insert("this.version".to_string(), version.to_string());
             let mut components = version.split('.');
             for component in ["major", "minor", "patch"] {
+                let key = format!("this.version.{component}");
                 if let Some(value) = components.next() {
-                    self.context_vars
-                        .insert(format!("this.version.{component}"), value.to_string());
+                    self.context_vars.insert(key, value.to_string());
+                } else {
+                    // not a component of this version: drop the previous package's
+                    self.context_vars.remove(&key);
                 }
             }
         }
-- 
2.43.0


From 223ef6642565943fb621d812c8f4a90fc694e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:18 +0000
Subject: [PATCH 22/34] fix: apply resetenv where it stands in a package's
 commands

resetenv was kept with the aliases and startup commands, which are applied after
all variables: a variable set after its resetenv was removed again.
---
 crates/rez-next-context/src/environment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index a7719b2..b626261 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -228,7 +228,9 @@ impl EnvironmentManager {
                 RexActionType::Setenv { name, value } => {
                     Some((name.clone(), EnvOperation::Set(value.clone())))
                 }
-                RexActionType::Unsetenv { name } => Some((name.clone(), EnvOperation::Unset)),
+                RexActionType::Unsetenv { name } | RexActionType::Resetenv { name } => {
+                    Some((name.clone(), EnvOperation::Unset))
+                }
                 RexActionType::PrependPath {
                     name,
                     value,
-- 
2.43.0


From 42ee14e63a7d44553380c4bd4a032483fcedf0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:22 +0000
Subject: [PATCH 23/34] fix: stop() ends a context's activation for variables
 as for aliases

The variables set by actions after a stop() were still applied, although
RexEnvironment::apply stops there and the aliases and commands after it were
dropped.
---
 crates/rez-next-context/src/environment.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index b626261..c42d4d7 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -124,12 +124,15 @@ impl EnvironmentManager {
             |package| package.commands.as_deref(),
             |package| package.post_commands.as_deref(),
         ];
-        for commands_for in command_phases {
+        'phases: for commands_for in command_phases {
             for package in packages {
                 if let Some(commands) = commands_for(package) {
                     let (definitions, actions) = self.rex_effects(package, commands, priority)?;
                     env_definitions.extend(definitions);
                     shell_actions.extend(actions);
+                    if shell_actions.last().is_some_and(is_stop) {
+                        break 'phases;
+                    }
                 }
                 priority += 1;
             }
@@ -260,6 +263,9 @@ impl EnvironmentManager {
             };
             let Some((name, operation)) = definition else {
                 shell_actions.push(action.clone());
+                if is_stop(action) {
+                    break;
+                }
                 continue;
             };
             definitions.push(EnvVarDefinition {
@@ -536,6 +542,11 @@ impl EnvDiff {
     }
 }
 
+/// stop() ends the activation: no action after it is applied
+fn is_stop(action: &RexAction) -> bool {
+    matches!(action.action_type, RexActionType::Stop { .. })
+}
+
 /// Get platform-appropriate path separator
 fn get_path_separator() -> String {
     if cfg!(windows) {
-- 
2.43.0


From a60e6b4a7ca8de8961103b3922f4d57d1b912813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:25 +0000
Subject: [PATCH 24/34] fix: normalize PATH itself when Path is also set

With PATH and a variable that differs only in case both set, which of the two
had its duplicates removed depended on the iteration order of a HashMap.
---
 crates/rez-next-context/src/environment.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index c42d4d7..7aa9e80 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -569,10 +569,14 @@ fn environment_key(name: &str) -> String {
 /// This also keeps Windows command environments below `cmd.exe`'s practical
 /// PATH-length limit when nested tool managers repeat their own search paths.
 pub fn normalize_environment_paths(env_vars: &mut HashMap<String, String>) {
-    let path_key = env_vars
-        .keys()
-        .find(|name| name.eq_ignore_ascii_case("PATH"))
-        .cloned()
+    let path_key = Some(environment_key("PATH"))
+        .filter(|name| env_vars.contains_key(name))
+        .or_else(|| {
+            env_vars
+                .keys()
+                .find(|name| name.eq_ignore_ascii_case("PATH"))
+                .cloned()
+        })
         .unwrap_or_else(|| environment_key("PATH"));
     let Some(path) = env_vars.get_mut(&path_key) else {
         return;
-- 
2.43.0


From c22399833738c3bb46c39903be4581ba77f82f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:53 +0000
Subject: [PATCH 25/34] fix: add a dependency edge on both sides or not at all

---
 crates/rez-next-solver/src/graph.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index dc6cc1e..ecdc09e 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -198,6 +198,14 @@ impl DependencyGraph {
         from_key: &str,
         to_key: &str,
     ) -> Result<(), RezCoreError> {
+        // Check both ends first: an edge is added on both sides or not at all
+        if !self.nodes.contains_key(to_key) {
+            return Err(RezCoreError::Solver(format!(
+                "Package {} not found in graph",
+                to_key
+            )));
+        }
+
         // Add dependency to the from node
         if let Some(from_node) = self.nodes.get_mut(from_key) {
             from_node.add_dependency(to_key.to_string());
-- 
2.43.0


From db89fff9f332de219823ba2cc045fc704bdb40e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:53 +0000
Subject: [PATCH 26/34] fix: a package added to the graph again keeps its edges

---
 crates/rez-next-solver/src/graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-solver/src/graph.rs b/crates/rez-next-solver/src/graph.rs
index ecdc09e..e68a521 100644
--- a/crates/rez-next-solver/src/graph.rs
+++ b/crates/rez-next-solver/src/graph.rs
@@ -164,8 +164,12 @@ impl DependencyGraph {
             )));
         }
 
-        let node = GraphNode::new(package);
-        self.nodes.insert(key, node);
+        // A package that is added again keeps its edges
+        if let Some(node) = self.nodes.get_mut(&key) {
+            node.package = package;
+        } else {
+            self.nodes.insert(key, GraphNode::new(package));
+        }
 
         Ok(())
     }
-- 
2.43.0


From eacc4b01d94161661e4be28f828ee1cfc6a85cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:32 +0000
Subject: [PATCH 27/34] fix: escape the escape character itself in activation
 scripts

---
 crates/rez-next-context/src/environment.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-context/src/environment.rs b/crates/rez-next-context/src/environment.rs
index 7aa9e80..573e36f 100644
--- a/crates/rez-next-context/src/environment.rs
+++ b/crates/rez-next-context/src/environment.rs
@@ -469,6 +469,7 @@ impl EnvironmentManager {
     /// Escape a value for bash/zsh
     fn escape_bash_value(&self, value: &str) -> String {
         value
+            .replace("\\", "\\\\")
             .replace("\"", "\\\"")
             .replace("$", "\\$")
             .replace("`", "\\`")
@@ -476,12 +477,18 @@ impl EnvironmentManager {
 
     /// Escape a value for PowerShell
     fn escape_powershell_value(&self, value: &str) -> String {
-        value.replace("\"", "`\"").replace("$", "`$")
+        value
+            .replace("`", "``")
+            .replace("\"", "`\"")
+            .replace("$", "`$")
     }
 
     /// Escape a value for fish shell
     fn escape_fish_value(&self, value: &str) -> String {
-        value.replace("\"", "\\\"").replace("$", "\\$")
+        value
+            .replace("\\", "\\\\")
+            .replace("\"", "\\\"")
+            .replace("$", "\\$")
     }
 
     /// Get environment variable differences from base environment
-- 
2.43.0


From 9d2ec1a5b46a0b5907003fe4db61e8be05237c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:21 +0000
Subject: [PATCH 28/34] fix: quote aliases, sourced paths and messages in
 activation scripts

---
 crates/rez-next-rex/src/shell.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/rez-next-rex/src/shell.rs b/crates/rez-next-rex/src/shell.rs
index 97321a1..51479e1 100644
--- a/crates/rez-next-rex/src/shell.rs
+++ b/crates/rez-next-rex/src/shell.rs
@@ -87,7 +87,7 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Sourced scripts".to_string());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = script.replace('\\', "\\\\").replace('"', "\\\"");
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -97,7 +97,8 @@ fn generate_bash_script(env: &RexEnvironment) -> String {
         lines.push(String::new());
         lines.push("# Info messages".to_string());
         for msg in &env.info_messages {
-            let escaped = msg.replace('\'', "'\\''");
+            // Every line of the message stays a comment
+            let escaped = msg.replace('\'', "'\\''").replace('\n', "\n# ");
             lines.push(format!("# [info] {}", escaped));
         }
     }
@@ -125,7 +126,8 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("alias {} \"{}\"", name, cmd));
+        let escaped = cmd.replace('\\', "\\\\").replace('"', "\\\"");
+        lines.push(format!("alias {} \"{}\"", name, escaped));
     }
 
     if !env.startup_commands.is_empty() {
@@ -139,7 +141,7 @@ fn generate_fish_script(env: &RexEnvironment) -> String {
     if !env.sourced_scripts.is_empty() {
         lines.push(String::new());
         for script in &env.sourced_scripts {
-            let escaped = script.replace('"', "\\\"");
+            let escaped = script.replace('\\', "\\\\").replace('"', "\\\"");
             lines.push(format!("source \"{}\"", escaped));
         }
     }
@@ -216,7 +218,11 @@ fn generate_powershell_script(env: &RexEnvironment) -> String {
     let mut aliases: Vec<_> = env.aliases.iter().collect();
     aliases.sort_by_key(|(k, _)| k.as_str());
     for (name, cmd) in &aliases {
-        lines.push(format!("Set-Alias -Name {} -Value \"{}\"", name, cmd));
+        let escaped = cmd.replace('`', "``").replace('"', "`\"");
+        lines.push(format!(
+            "Set-Alias -Name {} -Value \"{}\"",
+            name, escaped
+        ));
     }
 
     if !env.startup_commands.is_empty() {
-- 
2.43.0


From e4c3a4736c3f432bd2caae5c95f4946fd16acbea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:18 +0000
Subject: [PATCH 29/34] fix: a prefixed tool never replaces another tool of the
 suite

In Prefix mode a tool renamed to <context>_<tool> silently replaced a tool that
already had that name. It is now prefixed once more while the name is taken.
---
 crates/rez-next-suites/src/suite.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/rez-next-suites/src/suite.rs b/crates/rez-next-suites/src/suite.rs
index 67887cb..e0dea8a 100644
--- a/crates/rez-next-suites/src/suite.rs
+++ b/crates/rez-next-suites/src/suite.rs
@@ -211,8 +211,11 @@ impl Suite {
                             tools.insert(tool.name.clone(), tool);
                         }
                         ToolConflictMode::Prefix => {
-                            // Rename with context prefix
-                            let prefixed_name = format!("{}_{}", ctx.name, alias);
+                            // Rename with context prefix, once more while that name is taken too
+                            let mut prefixed_name = format!("{}_{}", ctx.name, alias);
+                            while tools.contains_key(&prefixed_name) {
+                                prefixed_name = format!("{}_{}", ctx.name, prefixed_name);
+                            }
                             let prefixed_tool = SuiteTool::new(
                                 prefixed_name.clone(),
                                 original.clone(),
-- 
2.43.0


From 89d5e2f303505a44418ea421d9d98f69049ee704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:22 +0000
Subject: [PATCH 30/34] fix: refuse to copy or move a package onto or into
 itself

---
 crates/rez-next-package/src/package_copy.rs | 31 +++++++++++++++++++++
 src/cli/commands/cp.rs                      | 10 +++++++
 src/cli/commands/mv.rs                      | 10 +++++++
 3 files changed, 51 insertions(+)

diff --git a/crates/rez-next-package/src/package_copy.rs b/crates/rez-next-package/src/package_copy.rs
index e678e7e..e745771 100644
--- a/crates/rez-next-package/src/package_copy.rs
+++ b/crates/rez-next-package/src/package_copy.rs
@@ -98,6 +98,15 @@ pub fn copy_package(
 
     let dest = dest_base.join(name).join(version);
 
+    // Overwriting a destination that overlaps the source would delete the source
+    if paths_overlap(&src, &dest) {
+        return Err(PackageCopyError::Other(format!(
+            "Source and destination overlap: {} and {}",
+            src.display(),
+            dest.display()
+        )));
+    }
+
     // Check destination
     if dest.exists() {
         if config.force {
@@ -159,6 +168,28 @@ fn normalize_path(path: &Path) -> PathBuf {
     dunce::canonicalize(path).unwrap_or_else(|_| path.to_path_buf())
 }
 
+/// Whether two paths name the same directory or one lies inside the other.
+///
+/// Links are resolved; a path that does not exist yet is taken relative to its nearest
+/// existing ancestor.
+pub fn paths_overlap(a: &Path, b: &Path) -> bool {
+    let (a, b) = (resolve_path(a), resolve_path(b));
+    a.starts_with(&b) || b.starts_with(&a)
+}
+
+fn resolve_path(path: &Path) -> PathBuf {
+    let absolute = std::path::absolute(path).unwrap_or_else(|_| path.to_path_buf());
+    for ancestor in absolute.ancestors() {
+        if let Ok(resolved) = dunce::canonicalize(ancestor) {
+            return match absolute.strip_prefix(ancestor) {
+                Ok(rest) => resolved.join(rest),
+                Err(_) => resolved,
+            };
+        }
+    }
+    absolute
+}
+
 #[derive(Debug, Default)]
 struct CopyStats {
     files: usize,
diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index 5b54749..f973beb 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_copy::paths_overlap;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -262,6 +263,15 @@ async fn copy_package_directory(
     source_package: &Package,
     args: &CpArgs,
 ) -> RezCoreResult<CopyResult> {
+    // Overwriting a destination that overlaps the source would delete the source
+    if paths_overlap(source_root, dest_root) {
+        return Err(RezCoreError::RequirementParse(format!(
+            "Source and destination overlap: {} and {}",
+            source_root.display(),
+            dest_root.display()
+        )));
+    }
+
     // Remove existing destination if force
     if args.force && dest_root.exists() {
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index dd78a5d..73a1c23 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -6,6 +6,7 @@ use crate::cli::utils::expand_home_path;
 use clap::Args;
 use rez_next_common::{RezCoreError, error::RezCoreResult};
 use rez_next_package::Package;
+use rez_next_package::package_copy::paths_overlap;
 use rez_next_repository::simple_repository::{RepositoryManager, SimpleRepository};
 use std::path::PathBuf;
 
@@ -282,6 +283,15 @@ async fn move_package_directory(
     dest_root: &PathBuf,
     args: &MvArgs,
 ) -> RezCoreResult<MoveResult> {
+    // Overwriting a destination that overlaps the source would delete the source
+    if paths_overlap(source_path, dest_root) {
+        return Err(RezCoreError::RequirementParse(format!(
+            "Source and destination overlap: {} and {}",
+            source_path.display(),
+            dest_root.display()
+        )));
+    }
+
     // Remove existing destination if force
     if args.force && dest_root.exists() {
         std::fs::remove_dir_all(dest_root).map_err(RezCoreError::Io)?;
-- 
2.43.0


From 06835acfad8e5e2f6b697c91cf0346da002ce8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:22 +0000
Subject: [PATCH 31/34] fix: cp and mv without a version take the latest one

---
 src/cli/commands/cp.rs | 7 +------
 src/cli/commands/mv.rs | 7 +------
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/cli/commands/cp.rs b/src/cli/commands/cp.rs
index f973beb..cc6cc21 100644
--- a/src/cli/commands/cp.rs
+++ b/src/cli/commands/cp.rs
@@ -222,12 +222,7 @@ async fn find_source_package_with_path(
     } else {
         // Latest version
         let mut sorted = packages;
-        sorted.sort_by(|a, b| {
-            b.version
-                .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        sorted.sort_by(|a, b| b.version.cmp(&a.version));
         sorted.into_iter().next().unwrap()
     };
 
diff --git a/src/cli/commands/mv.rs b/src/cli/commands/mv.rs
index 73a1c23..2f1e2af 100644
--- a/src/cli/commands/mv.rs
+++ b/src/cli/commands/mv.rs
@@ -245,12 +245,7 @@ async fn find_source_package_with_path(
             })?
     } else {
         let mut sorted = packages;
-        sorted.sort_by(|a, b| {
-            b.version
-                .as_ref()
-                .and_then(|bv| a.version.as_ref().map(|av| av.cmp(bv)))
-                .unwrap_or(std::cmp::Ordering::Equal)
-        });
+        sorted.sort_by(|a, b| b.version.cmp(&a.version));
         sorted.into_iter().next().unwrap()
     };
 
-- 
2.43.0


From 7a149b9213cad5606f4085c982a806a2af015e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:54 +0000
Subject: [PATCH 32/34] fix: rm --ignored-since removes only versions that are
 ignored

---
 src/cli/commands/rm.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/cli/commands/rm.rs b/src/cli/commands/rm.rs
index bb177c0..69e2ab4 100644
--- a/src/cli/commands/rm.rs
+++ b/src/cli/commands/rm.rs
@@ -289,27 +289,33 @@ async fn remove_ignored_since(args: &RmArgs) -> RezCoreResult<()> {
         let packages = repo_manager.find_packages(name).await?;
         for pkg_arc in packages {
             let pkg = (*pkg_arc).clone();
-            // Retrieve install dir by walking the configured repo paths
-            let pkg_path = {
+            // Retrieve the ignore marker by walking the configured repo paths
+            let marker_path = {
                 let ver_str = pkg
                     .version
                     .as_ref()
                     .map(|v| v.as_str())
                     .unwrap_or("unknown");
-                // Construct candidate paths: <repo>/<name>/<version>/package.py
+                // <repo>/<name>/.ignore<version> of the version that would be removed
                 let mut found_path = std::path::PathBuf::new();
                 for path in &args.paths {
-                    let candidate = path.join(&pkg.name).join(ver_str).join("package.py");
-                    if candidate.exists() {
-                        found_path = candidate;
+                    let family = path.join(&pkg.name);
+                    if family.join(ver_str).exists() {
+                        found_path = family.join(format!(".ignore{ver_str}"));
                         break;
                     }
                 }
                 found_path
             };
 
-            if !pkg_path.as_os_str().is_empty()
-                && let Ok(metadata) = std::fs::metadata(&pkg_path)
+            // The same version in another repository is not the one that is ignored
+            let listed = removal_candidates
+                .iter()
+                .any(|c| c.name == pkg.name && c.version == pkg.version);
+
+            if !listed
+                && marker_path.is_file()
+                && let Ok(metadata) = std::fs::metadata(&marker_path)
                 && let Ok(modified) = metadata.modified()
                 && let Ok(dur) = modified.duration_since(std::time::UNIX_EPOCH)
                 && dur.as_secs() < cutoff_timestamp
-- 
2.43.0


From d0a8070afffc4776d1e9b156a4addd7061ef3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:33 +0000
Subject: [PATCH 33/34] fix: moving a package removes only the copy that was
 moved

---
 crates/rez-next-package/src/package_move.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/rez-next-package/src/package_move.rs b/crates/rez-next-package/src/package_move.rs
index 130f8f5..122f651 100644
--- a/crates/rez-next-package/src/package_move.rs
+++ b/crates/rez-next-package/src/package_move.rs
@@ -13,7 +13,7 @@ use std::path::{Path, PathBuf};
 use thiserror::Error;
 
 use crate::package_copy::{self, PackageCopyConfig, PackageCopyError};
-use crate::package_remove::{self, PackageRemoveConfig, PackageRemoveError};
+use crate::package_remove::PackageRemoveError;
 
 /// Errors that can occur during package move operations.
 #[derive(Debug, Error)]
@@ -84,15 +84,6 @@ impl PackageMoveConfig {
             normalize_paths: self.normalize_paths,
         }
     }
-
-    /// Create a PackageRemoveConfig from this move config.
-    fn to_remove_config(&self) -> PackageRemoveConfig {
-        PackageRemoveConfig {
-            packages_path: self.packages_path.clone(),
-            force: true, // We always force remove during move
-            prune_empty_families: true,
-        }
-    }
 }
 
 /// Move a package from one location to another.
@@ -141,7 +132,13 @@ pub fn move_package(
 
     // Phase 2: Remove source (unless keep_source)
     let source_removed = if !config.keep_source {
-        package_remove::remove_package_version(name, version, &config.to_remove_config())?;
+        // Only what was copied: the destination, or another repository that holds the same
+        // version, may be on the search path too
+        std::fs::remove_dir_all(&copy_result.source)?;
+        if let Some(family) = copy_result.source.parent() {
+            // Prune the family directory; this fails unless it is empty
+            let _ = std::fs::remove_dir(family);
+        }
         true
     } else {
         false
-- 
2.43.0


From bae70df317126377bee874ed765b4a161f302988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:33 +0000
Subject: [PATCH 34/34] fix: removing a package refuses names that reach beyond
 one directory

---
 crates/rez-next-package/src/package_remove.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/crates/rez-next-package/src/package_remove.rs b/crates/rez-next-package/src/package_remove.rs
index 51c79bb..818149b 100644
--- a/crates/rez-next-package/src/package_remove.rs
+++ b/crates/rez-next-package/src/package_remove.rs
@@ -9,7 +9,7 @@
 //! - **Dry-run support**: Always provide a way to preview what will be removed.
 
 use std::fs;
-use std::path::PathBuf;
+use std::path::{Component, Path, PathBuf};
 
 use thiserror::Error;
 
@@ -64,6 +64,17 @@ impl Default for PackageRemoveConfig {
     }
 }
 
+/// A family or version names one directory: an empty name, `..` or a path would remove more.
+fn require_component(value: &str) -> Result<(), PackageRemoveError> {
+    let mut components = Path::new(value).components();
+    if matches!(components.next(), Some(Component::Normal(_))) && components.next().is_none() {
+        return Ok(());
+    }
+    Err(PackageRemoveError::Other(format!(
+        "Not a package name or version: {value:?}"
+    )))
+}
+
 /// Remove a specific version of a package.
 ///
 /// # Example
@@ -81,6 +92,9 @@ pub fn remove_package_version(
     version: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    require_component(name)?;
+    require_component(version)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
@@ -132,6 +146,8 @@ pub fn remove_package_family(
     name: &str,
     config: &PackageRemoveConfig,
 ) -> Result<PackageRemoveResult, PackageRemoveError> {
+    require_component(name)?;
+
     let mut removed_paths = Vec::new();
     let mut bytes_freed = 0u64;
 
-- 
2.43.0


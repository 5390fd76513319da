From d895d0f37770c257ef428523dd6db5f59e96cc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 01/39] fix: keep components out of the dimension they do not
 belong to
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A component that is not multiplied with a number, as in
`Weight::from_parts(x.into(), 0)` or `(x as Weight).saturating_add(…)`,
was counted in both dimensions.
---
 core/src/parse/pallet.rs | 23 +++++++++++++++++++++--
 core/src/term.rs         | 24 ++++++++++++++++++++----
 2 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..7d86d77 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -291,7 +291,12 @@ pub(crate) fn parse_expression(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
 		Expr::Paren(expr) => parse_expression(&expr.expr),
 		// TODO check cast
-		Expr::Cast(cast) => parse_expression(&cast.expr),
+		Expr::Cast(cast) => match parse_expression(&cast.expr)? {
+			// Only one-dimensional weights can be the result of a cast; these are reference time.
+			ChromaticTerm::Var(v) if is_weight_type(&cast.ty) =>
+				Ok(SimpleTerm::Var(v).into_chromatic(Dimension::Time)),
+			term => Ok(term),
+		},
 		Expr::MethodCall(call) => parse_method_call(call),
 		//Expr::Lit(lit) => Ok(ChromaticTerm::Value(lit_to_value(&lit.lit))),
 		Expr::Path(p) => {
@@ -464,7 +469,7 @@ pub(crate) fn parse_method_call(call: &ExprMethodCall) -> Result<ChromaticTerm>
 		)),
 		"saturating_mul" => Ok(ChromaticTerm::Mul(
 			parse_expression(&call.receiver)?.into(),
-			parse_args(&call.args)?.into(),
+			parse_factor(extract_arg(&call.args)?)?.into(),
 		)),
 		"into" => parse_expression(&call.receiver),
 		_ => Err(format!("Unknown function: {}", name)),
@@ -518,6 +523,20 @@ fn parse_args(args: &Punctuated<Expr, Token![,]>) -> Result<ChromaticTerm> {
 	parse_expression(arg)
 }
 
+/// The factor that a weight is multiplied with. Unlike a summand, it has no dimension.
+fn parse_factor(expr: &Expr) -> Result<ChromaticTerm> {
+	match expr {
+		Expr::Paren(expr) => parse_factor(&expr.expr),
+		Expr::Cast(cast) => parse_factor(&cast.expr),
+		Expr::MethodCall(call) if call.method == "into" => parse_factor(&call.receiver),
+		expr => parse_expression(expr),
+	}
+}
+
+fn is_weight_type(ty: &Type) -> bool {
+	matches!(ty, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Weight"))
+}
+
 fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	let arg = extract_arg(args)?;
 	parse_scalar_expression(arg)
diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..00b784f 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -148,6 +148,7 @@ impl SimpleTerm {
 		}
 	}
 
+	/// Converts the term into one that has its value in the given dimension and zero in the other.
 	pub fn into_chromatic(self, unit: crate::Dimension) -> ChromaticTerm {
 		match self {
 			Self::Value(x) | Self::Scalar(x) =>
@@ -156,11 +157,26 @@ impl SimpleTerm {
 				Box::new(x.into_chromatic(unit)),
 				Box::new(y.into_chromatic(unit)),
 			),
-			Self::Mul(x, y) => ChromaticTerm::Mul(
-				Box::new(x.into_chromatic(unit)),
-				Box::new(y.into_chromatic(unit)),
+			// One factor being zero in the other dimension suffices, so variables stay as they are.
+			Self::Mul(x, y) => match (*x, *y) {
+				(x, Self::Var(y)) => ChromaticTerm::Mul(
+					Box::new(x.into_chromatic(unit)),
+					Box::new(ChromaticTerm::Var(y)),
+				),
+				(Self::Var(x), y) => ChromaticTerm::Mul(
+					Box::new(ChromaticTerm::Var(x)),
+					Box::new(y.into_chromatic(unit)),
+				),
+				(x, y) => ChromaticTerm::Mul(
+					Box::new(x.into_chromatic(unit)),
+					Box::new(y.into_chromatic(unit)),
+				),
+			},
+			// A lone variable would otherwise count in both dimensions.
+			Self::Var(x) => ChromaticTerm::Mul(
+				Box::new(ChromaticTerm::Value(Self::scalar_into_term(1, unit))),
+				Box::new(ChromaticTerm::Var(x)),
 			),
-			Self::Var(x) => ChromaticTerm::Var(x),
 		}
 	}
 
-- 
2.43.0


From c160bf269a2f487865eda37a8a2478e98e9aaf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 02/39] fix: report unparseable literals and statements instead
 of panicking

A float, string or oversized literal, or a single non-expression statement in a
weight function ended the process (or poisoned the cache of the web service)
even with --ignore-errors.
---
 core/src/parse/pallet.rs  | 12 ++++++------
 core/src/parse/storage.rs |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 7d86d77..9a3f8bf 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err("Expected the weight function to be an expression".into()),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
@@ -312,7 +312,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -432,7 +432,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -542,10 +542,10 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i.base10_digits().parse().map_err(|e| format!("Invalid integer {}: {}", i, e)),
+		_ => Err(format!("Expected integer but got: {}", lit.to_token_stream())),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From 9168a25077b59a1913b8f76bc07206470a27ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 03/39] fix: accept the positional arguments of `parse files`

clap rejects a positional argument with a long name; debug builds panicked on
every `subweight parse files` call.
---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..7f11029 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -97,7 +97,7 @@ struct CompareCommitsCmd {
 #[derive(Debug, Parser)]
 struct ParseFilesCmd {
 	/// The files to parse.
-	#[clap(long, index = 1, required(true), num_args = 0..1000)]
+	#[clap(index = 1, required(true), num_args = 0..1000)]
 	pub files: Vec<PathBuf>,
 }
 
-- 
2.43.0


From 677df128488ea36762888764441f0d013313f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 04/39] fix: saturate weights that are too large instead of
 overflowing

---
 core/src/term.rs   | 10 +++++-----
 core/src/traits.rs |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 00b784f..7998234 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -137,8 +137,8 @@ impl SimpleTerm {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => Ok(x.eval(ctx)?.saturating_add(y.eval(ctx)?)),
+			Self::Mul(x, y) => Ok(x.eval(ctx)?.saturating_mul(y.eval(ctx)?)),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
@@ -387,16 +387,16 @@ impl ChromaticTerm {
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
 				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				Ok((a.saturating_add(m), b.saturating_add(n)).into())
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
 				(Self::Scalar(x), y) => {
 					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
+					Ok((x.saturating_mul(a), x.saturating_mul(b)).into())
 				},
 				(x, Self::Scalar(y)) => {
 					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
+					Ok((y.saturating_mul(a), y.saturating_mul(b)).into())
 				},
 				(Self::Var(x), y) => match ctx.get(x) {
 					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
diff --git a/core/src/traits.rs b/core/src/traits.rs
index e9af584..02171cd 100644
--- a/core/src/traits.rs
+++ b/core/src/traits.rs
@@ -80,6 +80,9 @@ impl core::fmt::Display for Weight {
 
 impl Weight {
 	pub fn mul_scalar(&self, other: u128) -> Self {
-		Self { time: self.time * other, proof: self.proof * other }
+		Self {
+			time: self.time.saturating_mul(other),
+			proof: self.proof.saturating_mul(other),
+		}
 	}
 }
-- 
2.43.0


From a6259a9bf687ff1a4738397fb00f98371787086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 05/39] fix: apply range annotations to components with
 underscores

---
 core/src/lib.rs | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..fe2a945 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -9,7 +9,7 @@ use lazy_static::lazy_static;
 
 use std::{
 	cmp::Ordering,
-	collections::{BTreeSet, HashMap, HashSet},
+	collections::{BTreeMap, BTreeSet, HashMap},
 	path::{Path, PathBuf},
 	process::Command,
 };
@@ -577,35 +577,45 @@ pub(crate) fn extend_scoped_components(
 ) -> Result<Vec<SimpleScope>, String> {
 	let free_a = a.map(|e| e.term.free_vars(scope)).unwrap_or_default();
 	let free_b = b.map(|e| e.term.free_vars(scope)).unwrap_or_default();
-	let frees = free_a.union(&free_b).cloned().collect::<HashSet<_>>();
+	let frees = free_a.union(&free_b).cloned().collect::<BTreeSet<_>>();
 
 	let ra = a.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 	let rb = b.map(|ext| ext.clone().comp_ranges.unwrap_or_default());
 
 	let (pallet, extrinsic) = a.or(b).map(|e| (e.pallet.clone(), e.name.clone())).unwrap();
 
-	if frees.len() > 16 {
+	// Names that only differ in underscores denote the same component.
+	let mut components = BTreeMap::<String, Vec<String>>::new();
+	for free in frees {
+		components.entry(free.replace('_', "")).or_default().push(free);
+	}
+	let components = components.into_values().collect::<Vec<_>>();
+
+	if components.len() > 16 {
 		return Err(format!(
 			"Too many components to compare: {}::{} has {} components - limit is 16",
 			pallet,
 			extrinsic,
-			frees.len()
+			components.len()
 		))
 	}
 	// Combine the maximum and minimum of each component with combinatorics.
 	let (mut lowest, mut highest) = (Vec::new(), Vec::new());
-	for free in frees.iter() {
+	for names in components.iter() {
+		let free = &names[0];
 		lowest.push(instance_component(free, &ra, &rb, method.min(), &pallet, &extrinsic)?);
 		highest.push(instance_component(free, &ra, &rb, method.max(), &pallet, &extrinsic)?);
 	}
 
 	// cartesian product of lowest and highest
 	let mut scopes = BTreeSet::new();
-	for i in 0..(1 << frees.len()) {
+	for i in 0..(1 << components.len()) {
 		let mut scope = scope.clone();
-		for (c, component) in frees.iter().enumerate() {
+		for (c, names) in components.iter().enumerate() {
 			let value = if i & (1 << c) == 0 { lowest[c] } else { highest[c] };
-			scope.put_var(component, SimpleTerm::Scalar(value as u128));
+			for name in names {
+				scope.put_var(name, SimpleTerm::Scalar(value as u128));
+			}
 		}
 		if !scope.is_empty() {
 			scopes.insert(scope);
@@ -624,7 +634,13 @@ fn instance_component(
 ) -> Result<u32, String> {
 	use MinOrMax::*;
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	// Annotations may name the component with other underscores than the function does.
+	let range = |r: &Option<HashMap<String, ComponentRange>>| {
+		r.as_ref()
+			.and_then(|r| r.iter().find(|(n, _)| n.replace('_', "") == component.replace('_', "")))
+			.map(|(_, r)| *r)
+	};
+	match (range(ra), range(rb)) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From 54e14e8a9f1335ee603fef36fc2639f1c61b87a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 06/39] fix: report the change from zero to zero as 0% instead
 of NaN

---
 core/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index fe2a945..c486b63 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -848,6 +848,9 @@ impl RelativeChange {
 }
 
 pub fn percent(old: u128, new: u128) -> Percent {
+	if old == 0 && new == 0 {
+		return 0.0
+	}
 	100.0 * (new as f64 / old as f64) - 100.0
 }
 
-- 
2.43.0


From d510401f25f4a0707e7ffbb60658292cb1e858ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:50 +0000
Subject: [PATCH 07/39] fix: compare two failed entries as equal when sorting

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index c486b63..7aac0bf 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -786,6 +786,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From 8d402945fc6af3d113e872d1489cacc7a98ef85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 08/39] fix: warn about many storage accesses in every spelling
 of the count

---
 core/src/parse/pallet.rs | 10 ++++------
 core/src/term.rs         |  6 ++++++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 9a3f8bf..0a9b159 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -431,12 +431,10 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 }
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
-	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
-		expr => {
-			// Substrates Reads/Writes only consider ref time.
-			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
-		},
+	match parse_scalar_expression(expr)? {
+		Term::Scalar(count) => Ok(ChromaticTerm::Scalar(count)),
+		// Substrates Reads/Writes only consider ref time.
+		term => Ok(term.into_chromatic(crate::Dimension::Time)),
 	}
 }
 
diff --git a/core/src/term.rs b/core/src/term.rs
index 7998234..33c5561 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -159,6 +159,12 @@ impl SimpleTerm {
 			),
 			// One factor being zero in the other dimension suffices, so variables stay as they are.
 			Self::Mul(x, y) => match (*x, *y) {
+				// The number of storage accesses is a scalar, as in the two-dimensional syntax.
+				(Self::Scalar(n), Self::Var(y)) if y.0 == "READ" || y.0 == "WRITE" =>
+					ChromaticTerm::Mul(
+						Box::new(ChromaticTerm::Scalar(n)),
+						Box::new(ChromaticTerm::Var(y)),
+					),
 				(x, Self::Var(y)) => ChromaticTerm::Mul(
 					Box::new(x.into_chromatic(unit)),
 					Box::new(ChromaticTerm::Var(y)),
-- 
2.43.0


From a16fec201655e621cc6991e4a775b7d8ee0fd0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 09/39] fix: keep the value of a term when printing it without
 zeros

---
 core/src/term.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 33c5561..c8e9b54 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -295,9 +295,8 @@ where
 				} else {
 					match (l.maybe_fmt_with_bracket(false), r.maybe_fmt_with_bracket(false)) {
 						(Some(l), Some(r)) => Some(format!("{} * {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
+						// One factor is zero.
+						_ => None,
 					}
 				}
 			},
@@ -319,8 +318,9 @@ where
 				} else {
 					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
 						(Some(l), Some(r)) => Some(format!("({} + {})", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
+						// The remaining summand still needs its brackets.
+						(Some(_), None) => l.maybe_fmt_with_bracket(false),
+						(None, Some(_)) => r.maybe_fmt_with_bracket(false),
 						(None, None) => None,
 					}
 				}
-- 
2.43.0


From 24516485a9b65ea06b2a51edb6c5f36dc0f0e1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:44 +0000
Subject: [PATCH 10/39] fix: separate and quote all fields of the CSV report

---
 cli/src/main.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7f11029..61238ec 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -270,7 +270,7 @@ fn print_changes_csv(
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = format!(
 			"{},{},{},{},{}",
-			info.file.clone(),
+			csv_field(&info.file),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
@@ -280,15 +280,15 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{}",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
 				row,
-				"{},",
+				",{}",
 				change.new.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
-			row.push_str(&format!("{:?}", &change.scope).replace(',', " "));
+			write!(row, ",{}", csv_field(&format!("{:?}", &change.scope).replace(',', " ")))?;
 		}
 		row.push('\n');
 		output.push_str(&row);
@@ -297,6 +297,15 @@ fn print_changes_csv(
 	Ok(output)
 }
 
+/// Quotes a CSV field if needed.
+fn csv_field(field: &str) -> String {
+	if field.contains(|c| matches!(c, ',' | '"' | '\n' | '\r')) {
+		format!("\"{}\"", field.replace('"', "\"\""))
+	} else {
+		field.into()
+	}
+}
+
 fn print_changes_human(
 	per_extrinsic: TotalDiff,
 	verbose: bool,
-- 
2.43.0


From 9a3405f7aa26ebd0d159870acb79fe7290dbee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 11/39] fix: keep bars in paths out of the markdown table

---
 cli/src/main.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 61238ec..88b1335 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -329,10 +329,20 @@ fn print_changes_human(
 	}
 	table.set_header(header);
 
+	// A bar in a path would start another cell.
+	let path = |file: &str| {
+		let path = format.filter_path(file.into());
+		if markdown {
+			path.replace('|', "\\|")
+		} else {
+			path
+		}
+	};
+
 	// Print all errors
 	for (info, _change) in per_extrinsic.iter().filter_map(|p| p.error().map(|t| (p, t))) {
 		let row = vec![
-			format.filter_path(info.file.clone()),
+			path(&info.file),
 			info.name.clone(),
 			"-".into(),
 			"-".into(),
@@ -343,7 +353,7 @@ fn print_changes_human(
 
 	for (info, change) in per_extrinsic.iter().filter_map(|p| p.term().map(|t| (p, t))) {
 		let mut row = vec![
-			format.filter_path(info.file.clone()),
+			path(&info.file),
 			info.name.clone(),
 			change.old_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
 			change.new_v.map(|v| unit.fmt_value(v)).unwrap_or_default(),
-- 
2.43.0


From 79150ee4d544cfca53ece638e046445ca912d61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:23 +0000
Subject: [PATCH 12/39] fix: resolve both revisions before switching to the
 first

---
 core/src/lib.rs | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 7aac0bf..7bfa035 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -181,8 +181,12 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// Resolve both before switching, since that can change what they refer to.
+	let (pull, force) = (params.should_pull(), params.git_force);
+	let old = git_resolve(repo, old, pull, force).map_err(|err| format!("{:?}", err))?;
+	let new = git_resolve(repo, new, pull, force).map_err(|err| format!("{:?}", err))?;
 	// Parse the old files.
-	if let Err(err) = git_checkout(repo, old, params.should_pull(), params.git_force) {
+	if let Err(err) = git_checkout(repo, &old, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
 	let paths = list_files(repo, path_pattern, max_files)?;
@@ -195,7 +199,7 @@ pub fn compare_commits(
 	};
 
 	// Parse the new files.
-	if let Err(err) = git_checkout(repo, new, params.should_pull(), params.git_force) {
+	if let Err(err) = git_checkout(repo, &new, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
 	let paths = list_files(repo, path_pattern, max_files)?;
@@ -209,6 +213,34 @@ pub fn compare_commits(
 	compare_files(olds, news, params, filter)
 }
 
+/// Returns the hash of the commit that a revision refers to.
+///
+/// Optionally fetches it first. With `force` the revision of the remote is preferred.
+pub fn git_resolve(path: &Path, refname: &str, pull: bool, force: bool) -> Result<String, String> {
+	if pull {
+		git_pull(path, refname)?;
+	}
+
+	let mut names = vec![refname.to_string()];
+	// Names like `@{-1}` or `main@{1}` are about the local history.
+	if !refname.contains("@{") {
+		names.insert(if force { 0 } else { 1 }, format!("origin/{}", refname));
+	}
+	for name in names {
+		let output = Command::new("git")
+			.args(["rev-parse", "--verify", "--quiet"])
+			.arg(format!("{}^{{commit}}", name))
+			.current_dir(path)
+			.output()
+			.map_err(|e| format!("Failed to resolve revision: {:?}", e))?;
+		if output.status.success() {
+			return Ok(String::from_utf8_lossy(&output.stdout).trim().into())
+		}
+	}
+
+	Err(format!("Failed to resolve revision: {}", refname))
+}
+
 pub fn git_checkout(
 	path: &Path,
 	refname: &str,
-- 
2.43.0


From 7088621bd312d327e18349ad606702e78900a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:36 +0000
Subject: [PATCH 13/39] fix: compare what was pulled instead of a stale local
 branch

---
 core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 7bfa035..ab4fc25 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -221,9 +221,11 @@ pub fn git_resolve(path: &Path, refname: &str, pull: bool, force: bool) -> Resul
 		git_pull(path, refname)?;
 	}
 
-	let mut names = vec![refname.to_string()];
+	// What was just fetched is newer than any local branch. `HEAD` is the local one, though.
+	let fetched = pull && (force || !matches!(refname, "HEAD" | "@"));
+	let mut names = vec![if fetched { "FETCH_HEAD".into() } else { refname.to_string() }];
 	// Names like `@{-1}` or `main@{1}` are about the local history.
-	if !refname.contains("@{") {
+	if !fetched && !refname.contains("@{") {
 		names.insert(if force { 0 } else { 1 }, format!("origin/{}", refname));
 	}
 	for name in names {
-- 
2.43.0


From 0c453e9b0679859d6a430ad40d6114f4c3683685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:49 +0000
Subject: [PATCH 14/39] fix: do not move the checked out branch when forcing a
 checkout

---
 core/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index ab4fc25..985d99f 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -304,8 +304,7 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	// try to reset with remote...
 	log::info!("Resetting to origin/{}", refname);
 	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
+		.args(["checkout", "--force", "--detach"])
 		.arg(format!("origin/{}", refname))
 		.current_dir(path)
 		.output();
@@ -322,8 +321,7 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	// Try resetting without remote.
 	log::info!("Fallback: Resetting to {}", refname);
 	let output = Command::new("git")
-		.arg("reset")
-		.arg("--hard")
+		.args(["checkout", "--force", "--detach"])
 		.arg(refname)
 		.current_dir(path)
 		.output()
-- 
2.43.0


From 2d7f128fa0c175acdaecaa7934450e38bac7d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:39 +0000
Subject: [PATCH 15/39] fix: tell missing revisions from failures to resolve
 them

---
 core/src/lib.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 985d99f..5794ff3 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -10,8 +10,9 @@ use lazy_static::lazy_static;
 use std::{
 	cmp::Ordering,
 	collections::{BTreeMap, BTreeSet, HashMap},
+	io::Write,
 	path::{Path, PathBuf},
-	process::Command,
+	process::{Command, Stdio},
 };
 use syn::{Expr, Item, Type};
 
@@ -228,15 +229,30 @@ pub fn git_resolve(path: &Path, refname: &str, pull: bool, force: bool) -> Resul
 	if !fetched && !refname.contains("@{") {
 		names.insert(if force { 0 } else { 1 }, format!("origin/{}", refname));
 	}
-	for name in names {
-		let output = Command::new("git")
-			.args(["rev-parse", "--verify", "--quiet"])
-			.arg(format!("{}^{{commit}}", name))
-			.current_dir(path)
-			.output()
-			.map_err(|e| format!("Failed to resolve revision: {:?}", e))?;
-		if output.status.success() {
-			return Ok(String::from_utf8_lossy(&output.stdout).trim().into())
+	// This reports missing names on stdout, so that they can be told apart from failures.
+	let mut child = Command::new("git")
+		.args(["cat-file", "--batch-check"])
+		.current_dir(path)
+		.stdin(Stdio::piped())
+		.stdout(Stdio::piped())
+		.stderr(Stdio::piped())
+		.spawn()
+		.map_err(|e| format!("Failed to resolve revision: {:?}", e))?;
+	let input = names.iter().map(|name| format!("{}^{{commit}}\n", name)).collect::<String>();
+	// It may end without reading anything, which its status tells.
+	let _ = child.stdin.take().expect("Stdin is piped; qed").write_all(input.as_bytes());
+	let output = child
+		.wait_with_output()
+		.map_err(|e| format!("Failed to resolve revision: {:?}", e))?;
+	if !output.status.success() {
+		return Err(format!(
+			"Failed to resolve revision: {}",
+			String::from_utf8_lossy(&output.stderr)
+		))
+	}
+	for line in String::from_utf8_lossy(&output.stdout).lines() {
+		if let [hash, "commit", _] = line.split(' ').collect::<Vec<_>>()[..] {
+			return Ok(hash.into())
 		}
 	}
 
-- 
2.43.0


From a8e40f767559fd4f49303953414aa8521dcdcad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 16/39] fix: refuse texts that git would not take for a
 revision

---
 core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 5794ff3..4235ea4 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -218,6 +218,15 @@ pub fn compare_commits(
 ///
 /// Optionally fetches it first. With `force` the revision of the remote is preferred.
 pub fn git_resolve(path: &Path, refname: &str, pull: bool, force: bool) -> Result<String, String> {
+	// Git would take these for options, several revisions or something to be fetched elsewhere.
+	let fetch_spec = |c: char| c.is_whitespace() || matches!(c, ':' | '*' | '?' | '[');
+	if refname.is_empty() ||
+		refname.starts_with(['-', '+', '^']) ||
+		refname.contains(char::is_control) ||
+		(pull && refname.contains(fetch_spec))
+	{
+		return Err(format!("Invalid revision: {:?}", refname))
+	}
 	if pull {
 		git_pull(path, refname)?;
 	}
-- 
2.43.0


From 34952e436c6e740ebad63c7828df3828165cdc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 17/39] fix: keep path patterns inside the repository

---
 core/src/lib.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 4235ea4..342ccda 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -11,7 +11,7 @@ use std::{
 	cmp::Ordering,
 	collections::{BTreeMap, BTreeSet, HashMap},
 	io::Write,
-	path::{Path, PathBuf},
+	path::{Component, Path, PathBuf},
 	process::{Command, Stdio},
 };
 use syn::{Expr, Item, Type};
@@ -182,6 +182,10 @@ pub fn compare_commits(
 	if path_pattern.contains("..") {
 		return Err("Path pattern cannot contain '..'".into())
 	}
+	// Relative locations would not be a prefix of what they match.
+	let repo = &repo
+		.canonicalize()
+		.map_err(|err| format!("Failed to find repository {}: {}", repo.display(), err))?;
 	// Resolve both before switching, since that can change what they refer to.
 	let (pull, force) = (params.should_pull(), params.git_force);
 	let old = git_resolve(repo, old, pull, force).map_err(|err| format!("{:?}", err))?;
@@ -367,13 +371,18 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		let base = glob::Pattern::escape(&base_path.to_string_lossy());
+		let regex = format!("{}/{}", base, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files.iter().filter(|f| !f.ends_with("mod.rs")).cloned().collect();
+		let files: Vec<_> = files
+			.iter()
+			.filter(|f| !f.ends_with("mod.rs") && is_repo_file(base_path, f))
+			.cloned()
+			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
 			return Err(
@@ -386,6 +395,19 @@ fn list_files(
 	Ok(paths)
 }
 
+/// Whether a path is a file in the given repository, and not one of git itself.
+///
+/// Patterns and links can lead out of it. Expects the base to be canonical.
+fn is_repo_file(base_path: &Path, file: &Path) -> bool {
+	let inside = |path: &Path| {
+		path.strip_prefix(base_path).map_or(false, |path| {
+			path.components()
+				.all(|c| matches!(c, Component::Normal(name) if name != ".git"))
+		})
+	};
+	inside(file) && file.is_file() && file.canonicalize().map_or(false, |path| inside(&path))
+}
+
 #[derive(serde::Deserialize, clap::ValueEnum, PartialEq, Eq, Hash, Clone, Copy, Debug)]
 #[serde(rename_all = "kebab-case")]
 pub enum CompareMethod {
-- 
2.43.0


From bdedf05ac2fec04acbb6772a13eb88d691b9d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:59 +0000
Subject: [PATCH 18/39] fix: escape all data in the web pages

---
 web/src/html.rs                   | 12 ++++++++++++
 web/src/main.rs                   |  1 +
 web/templates/compare.stpl        | 10 +++++-----
 web/templates/merge_requests.stpl |  2 +-
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..14ecb81 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -93,7 +93,19 @@ pub(crate) fn readme_link(name: &str) -> String {
 	format!("{} <a href=\"https://github.com/ggwpez/substrate-weight-compare/#{}\" target=\"_blank\"><sup><small>HELP</small></sup></a>", name, anchor)
 }
 
+/// Percent-encodes everything that has a meaning in an URL or in HTML, except for slashes.
+fn encode_url(part: &str) -> String {
+	part.bytes()
+		.map(|b| match b {
+			b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'/' | b'-' | b'_' | b'.' | b'~' =>
+				(b as char).to_string(),
+			_ => format!("%{:02X}", b),
+		})
+		.collect()
+}
+
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
+	let [repo_name, org, name, file, rev] = [repo_name, org, name, file, rev].map(encode_url);
 	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, rev, file, name)
 }
 
diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..256ba4c 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -348,6 +348,7 @@ async fn version(web::Query(args): web::Query<VersionArgs>) -> HttpResponse {
 		if current == version || current.replace('+', " ") == version {
 			http_200("Version check passed")
 		} else {
+			let version = html_escape::encode_safe(&version);
 			http_500(format!("Version check failed: '{}' vs '{}'", current, version))
 		}
 	} else {
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 1f02044..a34c7d8 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -32,7 +32,7 @@
 				<td>
 					<select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= repo %> <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
+							<option value="<%= repo %>" <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
 						<% } %>
 					</select>
 				</td>
@@ -114,7 +114,7 @@
 		<div class="collapse" id="collapseErrors">
 			<div class="card card-body text-dark bg-light">
 				<% for err in errors { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -129,7 +129,7 @@
 		<div class="collapse" id="collapseWarns">
 			<div class="card card-body text-dark bg-light">
 				<% for err in warnings { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -153,7 +153,7 @@
 	</thead>
 	<tbody>
 		<% for (info, change) in diff.iter().filter_map(|c| c.term().map(|t| (c, t))) { %>
-			<tr id=<%- format!("\"{}.{}\"", &info.file, &info.name) %>>
+			<tr id="<%= info.file %>.<%= info.name %>">
 				<td>
 					<%= info.file %>
 				</td>
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href=<%- format!("\"#{}.{}\"", &info.file, &info.name) %>>🔗</a>
+						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
 					</sup>
 				</td>
 
diff --git a/web/templates/merge_requests.stpl b/web/templates/merge_requests.stpl
index 9e14d9a..39176a4 100644
--- a/web/templates/merge_requests.stpl
+++ b/web/templates/merge_requests.stpl
@@ -48,7 +48,7 @@
 				<div class="col">
 					Repo: <select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= format!("{}:{}", &repo.organization, &repo.name) %>><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
+							<option value="<%= format!("{}:{}", &repo.organization, &repo.name) %>"><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
 						<% } %>
 					</select>
 				</div>
-- 
2.43.0


From a8cc7013756398a08d19ff59cb36c9d98195e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 19/39] fix: show differences of very large values with the
 right sign

---
 web/src/html.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 14ecb81..fe0a39c 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -130,11 +130,12 @@ pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
 pub(crate) fn html_color_abs(change: &TermChange, unit: Dimension) -> String {
 	match change.change {
 		RelativeChange::Changed => {
-			let diff = change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128;
-			if diff < 0 {
-				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff.unsigned_abs()))
-			} else if diff > 0 {
-				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff.unsigned_abs()))
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			let diff = new.abs_diff(old);
+			if new < old {
+				format!("<p style='color:green'>-{}</p>", unit.fmt_value(diff))
+			} else if new > old {
+				format!("<p style='color:red'>+{}</p>", unit.fmt_value(diff))
 			} else {
 				// 0 or NaN
 				format!("{:.0?}", diff)
@@ -165,7 +166,16 @@ fn order_percent(change: &TermChange) -> i128 {
 
 fn order_abs(change: &TermChange) -> i128 {
 	match change.change {
-		RelativeChange::Changed => change.new_v.unwrap() as i128 - change.old_v.unwrap() as i128,
+		RelativeChange::Changed => {
+			let (old, new) = (change.old_v.unwrap(), change.new_v.unwrap());
+			// Differences that are too large saturate, but still rank below 'Added'.
+			let diff = i128::try_from(new.abs_diff(old)).unwrap_or(i128::MAX).min(i128::MAX - 1);
+			if new < old {
+				-diff
+			} else {
+				diff
+			}
+		},
 		RelativeChange::Unchanged => 0,
 		RelativeChange::Added => i128::MAX,
 		RelativeChange::Removed => i128::MIN,
-- 
2.43.0


From 787cf28f6c2b5bc838864f334916c2697fe140a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 20/39] fix: answer when git fails with an error that is not
 UTF-8

---
 web/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 256ba4c..6e8aea6 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -236,7 +236,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 				)
 			})?;
 		if !output.status.success() {
-			let err = String::from_utf8(output.stderr).unwrap();
+			let err = String::from_utf8_lossy(&output.stderr);
 			log::error!("Failed to fetch branches: '{}'", &err);
 
 			return Err(std::io::Error::new(
@@ -253,7 +253,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-		let err = String::from_utf8(output.stderr).unwrap();
+		let err = String::from_utf8_lossy(&output.stderr);
 		log::error!("Failed to list branches: {}", &err);
 		return Err(std::io::Error::new(
 			std::io::ErrorKind::Other,
-- 
2.43.0


From 6c4703336fc90d3d02c3621a9730b6e195239510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 21/39] fix: list branches and tags under their unmodified
 names

---
 web/src/main.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 6e8aea6..922a04d 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -267,13 +267,12 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
-		// Split at whitespace and use the first part as the branch name
-		// and the second as commit hash.
-		.map(|l| {
-			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+		// The first part is the commit hash and the second the branch name.
+		.filter_map(|l| l.split_once('\t'))
+		.map(|(hash, name)| {
+			let short =
+				name.strip_prefix("refs/heads/").or_else(|| name.strip_prefix("refs/tags/"));
+			(short.unwrap_or(name).to_string(), hash[..12].to_string())
 		})
 		.collect::<Vec<(String, String)>>();
 
-- 
2.43.0


From 8052738c3cc1c7f8b99c382641923c5883cff758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 22/39] fix: list the branches of origin whatever is checked
 out

---
 web/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 922a04d..1d7eeb6 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -249,7 +249,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 
 	// Spawn a git command and return all branches
 	let output = Command::new("git")
-		.args(["ls-remote", "--tags", "--heads"])
+		.args(["ls-remote", "--tags", "--heads", "origin"])
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-- 
2.43.0


From 934274cdb6d284f4718567791a3c27699b3b123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 23/39] fix: offer repositories under their own names

The front page asked for them in lower case, so that those with other
letters were unknown to the service.
---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From 211006d100883ef9863605afc61bd0474f4b4f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:38 +0000
Subject: [PATCH 24/39] fix: encode names in the requests of the web pages

Branches can contain characters that mean something else in a query.
---
 web/static/merge_requests.js |  4 ++--
 web/static/root.js           | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 46f21f1..6782319 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -90,9 +90,9 @@ $(document).ready(function () {
 				$(row).dblclick(function() {
 					loading(true);
 					let params = new URLSearchParams(default_params(repo));
-					let url = "/compare?" + params.toString() + `&old=${mr.base.ref}&new=${mr.head.ref}`;
+					let url = "/compare?" + params.toString() + `&old=${encodeURIComponent(mr.base.ref)}&new=${encodeURIComponent(mr.head.ref)}`;
 					console.log("Opening: " + url);
-					$.getJSON("/branches?repo=" + repo + "&fetch=true", function (d) {
+					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
 						loading(false);
 						window.location.href = url;
 					}).done(function () {
diff --git a/web/static/root.js b/web/static/root.js
index 01b4834..2bf3687 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -63,7 +63,7 @@ function load_branches(repo, fetch) {
     if (!(repo in branches) || fetch) {
         loading(true);
         console.log("Loading branches for " + repo);
-        $.getJSON("/branches?repo=" + repo + "&fetch=" + (fetch ? "true" : "false"), function (d) {
+        $.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=" + (fetch ? "true" : "false"), function (d) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
@@ -148,12 +148,12 @@ $(document).ready(function () {
         const repo = $('#repoSelect').val();
 
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
-        url += "&repo=" + repo;
-        url += "&old=" + $('#firstSelect').val();
-        url += "&new=" + $('#secondSelect').val();
+        url += "&repo=" + encodeURIComponent(repo);
+        url += "&old=" + encodeURIComponent($('#firstSelect').val());
+        url += "&new=" + encodeURIComponent($('#secondSelect').val());
 
         if (repo in path_pattern_presets) {
-            url += "&path_pattern=" + path_pattern_presets[repo];
+            url += "&path_pattern=" + encodeURIComponent(path_pattern_presets[repo]);
         } else {
             // Show an alert
             alert("No path pattern for '" + repo + "'");
-- 
2.43.0


From 69282acb6ca91d46982cbc850b6b784ef9fe835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 25/39] fix: only list the branches of the selected repository

The answer for one that was selected before can arrive later.
---
 web/static/root.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/static/root.js b/web/static/root.js
index 2bf3687..729c07e 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -67,7 +67,9 @@ function load_branches(repo, fetch) {
             let data = d['branch'];
             branches[repo] = data;
         }).done(function () {
-            populate_branches(branches[repo]);
+            // Another repo could have been selected in the meantime.
+            if ($('#repoSelect').val() === repo)
+                populate_branches(branches[repo]);
             loading(false);
         });
     } else {
-- 
2.43.0


From bc8af4e4cfc62679afeba21c09d2574e3f8e2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:21 +0000
Subject: [PATCH 26/39] fix: stop the loading animation when a request fails

---
 web/static/merge_requests.js | 11 +++++------
 web/static/root.js           |  1 +
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index 6782319..a0dfea2 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -88,17 +88,15 @@ $(document).ready(function () {
 			// Create a double-click handler for the row:
 			let click_compare = (function (mr) {
 				$(row).dblclick(function() {
-					loading(true);
 					let params = new URLSearchParams(default_params(repo));
+					loading(true);
 					let url = "/compare?" + params.toString() + `&old=${encodeURIComponent(mr.base.ref)}&new=${encodeURIComponent(mr.head.ref)}`;
 					console.log("Opening: " + url);
 					$.getJSON("/branches?repo=" + encodeURIComponent(repo) + "&fetch=true", function (d) {
-						loading(false);
 						window.location.href = url;
-					}).done(function () {
-						populate_branches(branches[repo]);
+					}).always(function () {
 						loading(false);
-					});					
+					});
 				});
 				/*$(row).click(function() {
 					window.location.href = mr.html_url;
@@ -124,6 +122,7 @@ $(document).ready(function () {
 
 		// Set the 'highlighted' variable.
 		$('#highlighted').text(highlighted);
+	}).always(function () {
 		loading(false);
-	}).await;
+	});
 });
diff --git a/web/static/root.js b/web/static/root.js
index 729c07e..7d48435 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -70,6 +70,7 @@ function load_branches(repo, fetch) {
             // Another repo could have been selected in the meantime.
             if ($('#repoSelect').val() === repo)
                 populate_branches(branches[repo]);
+        }).always(function () {
             loading(false);
         });
     } else {
-- 
2.43.0


From acb669258f5645a1ef5d54529a1f242bdf9b4302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 27/39] fix: keep the selected commits when the branches are
 loaded again

They are pairs of a name and a commit, so the names were never found.
---
 web/static/root.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 7d48435..d1f9a76 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -40,7 +40,7 @@ function populate_branches(branches) {
 
     // Load the selected branch from local storage or master.
     var selected_first = localStorage.getItem(lsk_selected_first);
-    if (selected_first != null && branches.includes(selected_first)) {
+    if (selected_first != null && branches.some(b => b[0] === selected_first)) {
         console.debug("Setting first branch to " + selected_first);
         $('#firstSelect').val(selected_first).trigger('change');
     } else {
@@ -49,7 +49,7 @@ function populate_branches(branches) {
     }
 
     var selected_second = localStorage.getItem(lsk_selected_second);
-    if (selected_second != null && branches.includes(selected_second)) {
+    if (selected_second != null && branches.some(b => b[0] === selected_second)) {
         console.debug("Setting second branch to " + selected_second);
         $('#secondSelect').val(selected_second).trigger('change');
     } else {
-- 
2.43.0


From 3d78152fb3d2e8c93c79ea227a9e5e7ff266cbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 28/39] fix: only compare what the last step of the form shows

It kept showing commits that were not selected anymore, and asked for
the revision `null` instead.
---
 web/static/root.js | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index d1f9a76..759584c 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -150,6 +150,11 @@ $(document).ready(function () {
     $("#bthPost").click(function () {
         const repo = $('#repoSelect').val();
 
+        if (!repo || !$('#firstSelect').val() || !$('#secondSelect').val()) {
+            alert("Please select a repository and two commits");
+            return;
+        }
+
         var url = "/compare?unit=weight&ignore_errors=true&threshold=10&method=asymptotic";
         url += "&repo=" + encodeURIComponent(repo);
         url += "&old=" + encodeURIComponent($('#firstSelect').val());
@@ -178,18 +183,18 @@ $(document).ready(function () {
         load_branches(repo, false);
     });
     $('#firstSelect').change(function () {
+        $('#selectedFirst').val($(this).val());
         if (!$(this).val())
             return;
 
-        $('#selectedFirst').val($(this).val());
         localStorage.setItem(lsk_selected_first, $(this).val());
         console.debug("Storing first branch as " + $(this).val());
     });
     $('#secondSelect').change(function () {
+        $('#selectedSecond').val($(this).val());
         if (!$(this).val())
             return;
-        
-        $('#selectedSecond').val($(this).val());
+
         localStorage.setItem(lsk_selected_second, $(this).val());
         console.debug("Storing second branch as " + $(this).val());
     });
-- 
2.43.0


From ba240ddb5661ed010d8587ef0f1a819484032ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 29/39] fix: make the second fetch button work

---
 web/static/root.js      | 2 +-
 web/templates/root.stpl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/static/root.js b/web/static/root.js
index 759584c..49ecbde 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -199,7 +199,7 @@ $(document).ready(function () {
         console.debug("Storing second branch as " + $(this).val());
     });
 
-    $('#fetch').click(function () {
+    $('.fetch').click(function () {
         const repo = $('#repoSelect').val();
         if (repo === null)
             return;
diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index e95058e..c27cdef 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -53,7 +53,7 @@
 								<fieldset>
 									<div class="form-card">
 										<h2 class="fs-title">First commit</h2>
-										<p>Please select the first commit hash, tag or branch that you would like to use as <i>baseline</i> for your comparison. You can <button type="button" class="btn btn-link" id="fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
+										<p>Please select the first commit hash, tag or branch that you would like to use as <i>baseline</i> for your comparison. You can <button type="button" class="btn btn-link fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
 										<select class="form-control js-example-basic-single" id="firstSelect" style="width: 100%;">
 										</select>
 									</div>
@@ -65,7 +65,7 @@
 								<fieldset>
 									<div class="form-card">
 										<h2 class="fs-title">Second Commit</h2>
-										<p>Please select the second branch that you would like to compare with. You can <button type="button" class="btn btn-link" id="fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
+										<p>Please select the second branch that you would like to compare with. You can <button type="button" class="btn btn-link fetch">fetch</button> if you think that your branch is missing from this list. There are <var class="branchCount">?</var> available.</p>
 										<select class="form-control js-example-basic-single" id="secondSelect" style="width: 100%;">
 										</select>
 									</div>
-- 
2.43.0


From 52084daff49c34ffcc7280be63b25bc44a97deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 30/39] fix: show merge requests as text

---
 web/static/merge_requests.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index a0dfea2..d8c0296 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -53,7 +53,9 @@ $(document).ready(function () {
 		fixedColumns:   {
             heightMatch: 'none'
         },
-		aaSorting: [[ 4, "desc" ]]
+		aaSorting: [[ 4, "desc" ]],
+		// Titles and names are text and not HTML.
+		columnDefs: [{ targets: '_all', render: $.fn.dataTable.render.text() }]
 	});
 
 	var owner = $.param('owner', 'paritytech');
-- 
2.43.0


From fceeebce94cbb4987b38fd216f26120f69b704c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 31/39] fix: list merge requests of deleted forks

---
 web/static/merge_requests.js | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/web/static/merge_requests.js b/web/static/merge_requests.js
index d8c0296..1819ebc 100644
--- a/web/static/merge_requests.js
+++ b/web/static/merge_requests.js
@@ -104,13 +104,15 @@ $(document).ready(function () {
 					window.location.href = mr.html_url;
 				});*/
 			});
+			// The fork could have been deleted.
+			let remote = mr['head']['repo'] && mr['head']['repo']['owner']['login'];
 			let disable = (function (mr) {
 				// Disable the row.
 				$(row).css('color', 'gray');
-				$(row).attr('title', 'Forks are unsupported. Remote: ' + mr['head']['repo']['owner']['login'] + ' != ' + owner);
+				$(row).attr('title', 'Forks are unsupported. Remote: ' + remote + ' != ' + owner);
 			});
 
-			if (mr['head']['repo']['owner']['login'] != owner) {
+			if (remote != owner) {
 				$(row).css('color', 'gray');
 				disable(mr);
 			} else {
-- 
2.43.0


From 15075a28a3b26b9b196265612bce263171ce8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:16 +0000
Subject: [PATCH 32/39] fix: do not drop entries when a filter expression
 cannot be evaluated

---
 core/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 342ccda..15b14df 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -801,11 +801,11 @@ pub fn compare_files(
 	log::trace!("Comparing {} terms", olds.len());
 
 	for (pallet, extrinsic) in names {
-		if !pallet_regex.as_ref().map_or(true, |r| r.is_match(&pallet).unwrap_or_default()) {
+		if !pallet_regex.as_ref().map_or(Ok(true), |r| r.is_match(&pallet))? {
 			// TODO add "skipped" or "ignored" result type.
 			continue
 		}
-		if !ext_regex.as_ref().map_or(true, |r| r.is_match(&extrinsic).unwrap_or_default()) {
+		if !ext_regex.as_ref().map_or(Ok(true), |r| r.is_match(&extrinsic))? {
 			continue
 		}
 
-- 
2.43.0


From 13423a06a4bd9480e1879bf16ebc6bac30f53bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 33/39] fix: do not start with a certificate that does not
 belong to the key

---
 web/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/src/main.rs b/web/src/main.rs
index 1d7eeb6..2e78f50 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -165,6 +165,7 @@ async fn main() -> std::io::Result<()> {
 			.set_private_key_file(cmd.key.expect("Checked by clap"), SslFiletype::PEM)
 			.unwrap();
 		builder.set_certificate_chain_file(cert).unwrap();
+		builder.check_private_key().unwrap();
 		server.bind_openssl(endpoint, builder)
 	} else {
 		server.bind(endpoint)
-- 
2.43.0


From a9dd078d5590ec8e3452657145ca9fb135aaeaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 34/39] fix: select the row of a link whatever characters its
 file name has

---
 web/static/table.js        | 1 +
 web/templates/compare.stpl | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/static/table.js b/web/static/table.js
index 45237bc..a07f8c5 100644
--- a/web/static/table.js
+++ b/web/static/table.js
@@ -51,6 +51,7 @@ $(document).ready(function () {
 	if (anchor) {
 		console.info("Selecting row: " + anchor);
 		try {
+			anchor = decodeURIComponent(anchor);
 			var row = table.row(`#${anchor}`);
 			row.select();
 			document.getElementById(anchor).scrollIntoView();
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index a34c7d8..64b74eb 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
+						<a href="#<%= encode_url(&format!("{}.{}", info.file, info.name)) %>">🔗</a>
 					</sup>
 				</td>
 
-- 
2.43.0


From 1f2bba513c464a4d71078f6c536e037304bf89ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 35/39] fix: only compare files that belong to the revisions

Files that are not part of a revision stay where they are when it is checked
out, for example those that an interrupted checkout left behind. They showed up
in every comparison from then on, even with --git-force.
---
 core/src/lib.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 15b14df..e1a7a88 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -9,7 +9,7 @@ use lazy_static::lazy_static;
 
 use std::{
 	cmp::Ordering,
-	collections::{BTreeMap, BTreeSet, HashMap},
+	collections::{BTreeMap, BTreeSet, HashMap, HashSet},
 	io::Write,
 	path::{Component, Path, PathBuf},
 	process::{Command, Stdio},
@@ -194,7 +194,7 @@ pub fn compare_commits(
 	if let Err(err) = git_checkout(repo, &old, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
-	let paths = list_files(repo, path_pattern, max_files)?;
+	let paths = list_committed_files(repo, &old, path_pattern, max_files)?;
 	// Ignore any parsing errors.
 	let olds = if params.ignore_errors {
 		try_parse_files_in_repo(repo, &paths)
@@ -207,7 +207,7 @@ pub fn compare_commits(
 	if let Err(err) = git_checkout(repo, &new, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
-	let paths = list_files(repo, path_pattern, max_files)?;
+	let paths = list_committed_files(repo, &new, path_pattern, max_files)?;
 	// Ignore any parsing errors.
 	let news = if params.ignore_errors {
 		try_parse_files_in_repo(repo, &paths)
@@ -362,6 +362,42 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+/// Lists the matching files of a commit that is checked out.
+///
+/// There can be others, for example if checking out something else was interrupted.
+fn list_committed_files(
+	repo: &Path,
+	commit: &str,
+	pattern: &str,
+	max_files: usize,
+) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
+	let mut paths = list_files(repo, pattern, max_files)?;
+	let committed = git_paths(repo, &["ls-tree", "-r", "-z", "--name-only", commit])?;
+	// Links and submodules are listed instead of what they contain.
+	let is_committed = |path: &Path| {
+		let path = path.strip_prefix(repo).map(|path| path.to_string_lossy());
+		path.map_or(false, |path| Path::new(&*path).ancestors().any(|p| committed.contains(p)))
+	};
+	paths.retain(|path| {
+		is_committed(path) && path.canonicalize().map_or(false, |path| is_committed(&path))
+	});
+	Ok(paths)
+}
+
+/// The paths, relative to the repository, that a git command reports.
+fn git_paths(repo: &Path, args: &[&str]) -> Result<HashSet<PathBuf>, String> {
+	let output = Command::new("git")
+		.args(args)
+		.current_dir(repo)
+		.output()
+		.map_err(|e| format!("Failed to list files: {:?}", e))?;
+	if !output.status.success() {
+		return Err(format!("Failed to list files: {}", String::from_utf8_lossy(&output.stderr)))
+	}
+	let paths = output.stdout.split(|b| *b == 0).filter(|path| !path.is_empty());
+	Ok(paths.map(|path| String::from_utf8_lossy(path).into_owned().into()).collect())
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
-- 
2.43.0


From 585e9ef84cb38fe1e9c3335d0f4fb2a1903df722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:26 +0000
Subject: [PATCH 36/39] fix: refuse to compare revisions with uncommitted
 changes in their files

Without --git-force, git keeps uncommitted changes when switching revisions.
They were compared as if they belonged to both revisions.
---
 core/src/lib.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index e1a7a88..19d325e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -194,7 +194,7 @@ pub fn compare_commits(
 	if let Err(err) = git_checkout(repo, &old, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
-	let paths = list_committed_files(repo, &old, path_pattern, max_files)?;
+	let paths = list_committed_files(repo, &old, path_pattern, max_files, force)?;
 	// Ignore any parsing errors.
 	let olds = if params.ignore_errors {
 		try_parse_files_in_repo(repo, &paths)
@@ -207,7 +207,7 @@ pub fn compare_commits(
 	if let Err(err) = git_checkout(repo, &new, false, force) {
 		return Err(format!("{:?}", err).into())
 	}
-	let paths = list_committed_files(repo, &new, path_pattern, max_files)?;
+	let paths = list_committed_files(repo, &new, path_pattern, max_files, force)?;
 	// Ignore any parsing errors.
 	let news = if params.ignore_errors {
 		try_parse_files_in_repo(repo, &paths)
@@ -370,6 +370,7 @@ fn list_committed_files(
 	commit: &str,
 	pattern: &str,
 	max_files: usize,
+	force: bool,
 ) -> Result<Vec<PathBuf>, Box<dyn std::error::Error>> {
 	let mut paths = list_files(repo, pattern, max_files)?;
 	let committed = git_paths(repo, &["ls-tree", "-r", "-z", "--name-only", commit])?;
@@ -381,9 +382,32 @@ fn list_committed_files(
 	paths.retain(|path| {
 		is_committed(path) && path.canonicalize().map_or(false, |path| is_committed(&path))
 	});
+	// Without force, uncommitted changes are still there.
+	if !force {
+		let args = ["diff", "--name-only", "-z", "--no-renames", "--relative", commit, "--"];
+		let changed = git_paths(repo, &args)?;
+		if let Some(path) = changed.iter().find(|path| {
+			let gone = !repo.join(path).exists();
+			paths.contains(&repo.join(path)) || (gone && matches_pattern(path, pattern))
+		}) {
+			return Err(format!("There are uncommitted changes: {}", path.display()).into())
+		}
+	}
 	Ok(paths)
 }
 
+/// Whether [`list_files`] would list that path if it existed.
+fn matches_pattern(path: &Path, pattern: &str) -> bool {
+	let options =
+		glob::MatchOptions { require_literal_separator: true, ..glob::MatchOptions::new() };
+	!path.ends_with("mod.rs") &&
+		pattern.split(',').any(|pattern| {
+			let pattern = Path::new(pattern).components().collect::<PathBuf>();
+			glob::Pattern::new(&pattern.to_string_lossy())
+				.map_or(false, |pattern| pattern.matches_path_with(path, options))
+		})
+}
+
 /// The paths, relative to the repository, that a git command reports.
 fn git_paths(repo: &Path, args: &[&str]) -> Result<HashSet<PathBuf>, String> {
 	let output = Command::new("git")
-- 
2.43.0


From 6333723812d695799de22e6858580e3017386ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:03 +0000
Subject: [PATCH 37/39] fix: report the number of parsed files, not of their
 extrinsics

---
 cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 88b1335..4d6abee 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -222,8 +222,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 		},
 		SubCommand::Parse(ParseCmd::Files(ParseFilesCmd { files })) => {
 			print(format!("Trying to parse {} files...", files.len()), cmd.verbose);
-			let parsed = parse_files(&files)?;
-			print(format!("Parsed {} files successfully", parsed.len()), cmd.verbose);
+			parse_files(&files)?;
+			print(format!("Parsed {} files successfully", files.len()), cmd.verbose);
 		},
 	}
 
-- 
2.43.0


From 4ead2f04c0561af1854e265d318ada94519447cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:38 +0000
Subject: [PATCH 38/39] fix: accept nested sums and products in overhead
 weights

---
 core/src/term.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index c8e9b54..248dd11 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -4,7 +4,7 @@ use crate::traits::{One, Zero};
 use lazy_static::__Deref;
 use serde::{Deserialize, Serialize};
 use std::{collections::BTreeSet as Set, fmt};
-use syn::{BinOp, ExprBinary};
+use syn::{BinOp, Expr, ExprBinary};
 
 use crate::{scope::Scope, traits::*};
 
@@ -487,8 +487,12 @@ impl TryInto<SimpleTerm> for &ExprBinary {
 	type Error = String;
 
 	fn try_into(self) -> Result<SimpleTerm, Self::Error> {
-		let left = crate::parse::pallet::parse_scalar_expression(&self.left)?.into();
-		let right = crate::parse::pallet::parse_scalar_expression(&self.right)?.into();
+		let operand = |expr: &Expr| match expr {
+			Expr::Binary(bin) => bin.try_into(),
+			expr => crate::parse::pallet::parse_scalar_expression(expr),
+		};
+		let left = operand(&self.left)?.into();
+		let right = operand(&self.right)?.into();
 
 		let term = match self.op {
 			BinOp::Mul(_) => SimpleTerm::Mul(left, right),
-- 
2.43.0


From 5b5275a932be43d77c28ea55b6768bde2117df68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:40 +0000
Subject: [PATCH 39/39] fix: handle repositories named like object members on
 the web pages

---
 web/static/common.js | 2 ++
 web/static/root.js   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/static/common.js b/web/static/common.js
index 9560a39..e6d9c2a 100644
--- a/web/static/common.js
+++ b/web/static/common.js
@@ -10,6 +10,8 @@ export function loading(yes) {
 }
 
 export const path_pattern_presets = {
+	// A repository can have any name, for example `constructor`.
+	__proto__: null,
 	"polkadot-sdk": "substrate/frame/**/src/weights.rs,polkadot/runtime/*/src/weights/**/*.rs,polkadot/bridges/modules/*/src/weights.rs,cumulus/**/weights/*.rs,cumulus/**/weights/xcm/*.rs,cumulus/**/src/weights.rs",
 };
 
diff --git a/web/static/root.js b/web/static/root.js
index 49ecbde..e02b2b5 100644
--- a/web/static/root.js
+++ b/web/static/root.js
@@ -6,7 +6,7 @@ const lsk_selected_first = "selected-second";
 const lsk_selected_second = "selected-first";
 
 // Maps repos to their branches.
-var branches = {};
+var branches = Object.create(null);
 
 function loading(yes) {
     console.debug("Loading: " + yes);
-- 
2.43.0


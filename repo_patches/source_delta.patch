From cfb0dce005249ccdc82d2b11508b3ae2025c60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:42 +0000
Subject: [PATCH 01/23] fix: report overflows and non-weights when evaluating a
 term as errors

---
 core/src/term.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 8aab611..0ac0481 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -131,14 +131,29 @@ macro_rules! cmul {
 	};
 }
 
+fn checked_add(a: u128, b: u128) -> Result<u128, String> {
+	a.checked_add(b).ok_or_else(|| format!("Overflow when evaluating {} + {}", a, b))
+}
+
+fn checked_mul(a: u128, b: u128) -> Result<u128, String> {
+	a.checked_mul(b).ok_or_else(|| format!("Overflow when evaluating {} * {}", a, b))
+}
+
+fn checked_scale(weight: Weight, scalar: u128) -> Result<Weight, String> {
+	let (time, proof) = weight.into();
+	Ok((checked_mul(time, scalar)?, checked_mul(proof, scalar)?).into())
+}
+
 impl SimpleTerm {
 	/// Evaluates the term within the given scope to a concrete value.
+	///
+	/// Returns an error if a variable is unbound or if the value does not fit into an `u128`.
 	pub fn eval(&self, ctx: &crate::scope::SimpleScope) -> Result<u128, String> {
 		match self {
 			Self::Value(x) => Ok(*x),
 			Self::Scalar(x) => Ok(*x),
-			Self::Add(x, y) => Ok(x.eval(ctx)? + y.eval(ctx)?),
-			Self::Mul(x, y) => Ok(x.eval(ctx)? * y.eval(ctx)?),
+			Self::Add(x, y) => checked_add(x.eval(ctx)?, y.eval(ctx)?),
+			Self::Mul(x, y) => checked_mul(x.eval(ctx)?, y.eval(ctx)?),
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
 					var.eval(ctx)
@@ -367,32 +382,26 @@ impl ChromaticTerm {
 	pub fn eval(&self, ctx: &crate::scope::ChromaticScope) -> Result<Weight, String> {
 		match self {
 			Self::Value(x) => Ok(x.clone()),
-			Self::Scalar(_) => unreachable!("Scalars cannot be evaluated; qed"),
+			Self::Scalar(_) => Err("A scalar is not a weight".into()),
 			Self::Add(x, y) => {
 				let (a, b) = x.eval(ctx)?.into();
 				let (m, n) = y.eval(ctx)?.into();
-				Ok((a + m, b + n).into())
+				Ok((checked_add(a, m)?, checked_add(b, n)?).into())
 			},
 			Self::Mul(x, y) => match (x.as_ref(), y.as_ref()) {
-				(Self::Scalar(x), y) => {
-					let (a, b) = y.eval(ctx)?.into();
-					Ok((*x * a, *x * b).into())
-				},
-				(x, Self::Scalar(y)) => {
-					let (a, b) = x.eval(ctx)?.into();
-					Ok((*y * a, *y * b).into())
-				},
+				(Self::Scalar(x), y) => checked_scale(y.eval(ctx)?, *x),
+				(x, Self::Scalar(y)) => checked_scale(x.eval(ctx)?, *y),
 				(Self::Var(x), y) => match ctx.get(x) {
-					Some(Self::Scalar(x)) => Ok(y.eval(ctx)?.mul_scalar(x)),
+					Some(Self::Scalar(x)) => checked_scale(y.eval(ctx)?, x),
 					Some(_) => Err(format!("Variable '{}' is not a scalar", x.deref())),
 					None => Err(format!("Variable '{}' not found", x.deref())),
 				},
 				(x, Self::Var(y)) => match ctx.get(y) {
-					Some(Self::Scalar(y)) => Ok(x.eval(ctx)?.mul_scalar(y)),
+					Some(Self::Scalar(y)) => checked_scale(x.eval(ctx)?, y),
 					Some(_) => Err(format!("Variable '{}' is not a scalar", y.deref())),
 					None => Err(format!("Variable '{}' not found", y.deref())),
 				},
-				_ => unreachable!("Cannot multiply two terms; qed"),
+				_ => Err("Cannot multiply two weights".into()),
 			},
 			Self::Var(x) =>
 				if let Some(var) = ctx.get(x) {
-- 
2.43.0


From f912fef055f6985d12c304caa22aa2c66cc6a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 02/23] fix: lift a plain variable into one dimension only

---
 core/src/term.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index 0ac0481..e5768b4 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -163,6 +163,7 @@ impl SimpleTerm {
 		}
 	}
 
+	/// Lifts the term into the given dimension; its value in the other dimension is zero.
 	pub fn into_chromatic(self, unit: crate::Dimension) -> ChromaticTerm {
 		match self {
 			Self::Value(x) | Self::Scalar(x) =>
@@ -171,11 +172,21 @@ impl SimpleTerm {
 				Box::new(x.into_chromatic(unit)),
 				Box::new(y.into_chromatic(unit)),
 			),
-			Self::Mul(x, y) => ChromaticTerm::Mul(
-				Box::new(x.into_chromatic(unit)),
-				Box::new(y.into_chromatic(unit)),
+			// A variable that scales the other factor must not be lifted a second time.
+			Self::Mul(x, y) => match (*x, *y) {
+				(x, Self::Var(y)) =>
+					ChromaticTerm::Mul(x.into_chromatic(unit).into(), ChromaticTerm::Var(y).into()),
+				(Self::Var(x), y) =>
+					ChromaticTerm::Mul(ChromaticTerm::Var(x).into(), y.into_chromatic(unit).into()),
+				(x, y) => ChromaticTerm::Mul(
+					x.into_chromatic(unit).into(),
+					y.into_chromatic(unit).into(),
+				),
+			},
+			Self::Var(x) => ChromaticTerm::Mul(
+				ChromaticTerm::Value(Self::scalar_into_term(1, unit)).into(),
+				ChromaticTerm::Var(x).into(),
 			),
-			Self::Var(x) => ChromaticTerm::Var(x),
 		}
 	}
 
-- 
2.43.0


From a61a11f30b933061699a8a3a16d26dadcabdfb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 03/23] fix: report unsupported literals and statements as
 parse errors

---
 core/src/parse/pallet.rs  | 15 +++++++++------
 core/src/parse/storage.rs |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 4a675c6..897c51a 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -272,7 +272,7 @@ fn handle_method(
 
 	let expr = match stmt {
 		Stmt::Expr(expr, _) => expr,
-		_ => unreachable!("Expected expression"),
+		_ => return Err(format!("Expected an expression in fn: {}", name)),
 	};
 	let weight = match parse_expression(expr) {
 		Ok(w) => w,
@@ -307,7 +307,7 @@ pub(crate) fn parse_scalar_expression(expr: &Expr) -> Result<Term<u128>> {
 	match expr {
 		Expr::Cast(cast) => parse_scalar_expression(&cast.expr),
 		Expr::Paren(expr) => parse_scalar_expression(&expr.expr),
-		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(lit_to_value(&lit.lit)?)),
 		Expr::MethodCall(call) => parse_scalar_method_call(call),
 		Expr::Path(p) => {
 			let ident = path_to_string(&p.path, Some("::"));
@@ -427,7 +427,7 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
 	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
 		expr => {
 			// Substrates Reads/Writes only consider ref time.
 			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
@@ -523,10 +523,13 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 	parse_scalar_expression(arg)
 }
 
-pub(crate) fn lit_to_value(lit: &Lit) -> u128 {
+pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i.base10_digits().parse().expect("Lit must be a valid int; qed"),
-		_ => unreachable!(),
+		Lit::Int(i) => i
+			.base10_digits()
+			.parse()
+			.map_err(|e| format!("Invalid integer literal {}: {}", i, e)),
+		_ => Err(format!("Expected an integer literal but got: {:?}", lit.into_token_stream())),
 	}
 }
 
diff --git a/core/src/parse/storage.rs b/core/src/parse/storage.rs
index 21e5146..23d3055 100644
--- a/core/src/parse/storage.rs
+++ b/core/src/parse/storage.rs
@@ -169,7 +169,7 @@ fn parse_expression(expr: &Expr) -> Result<Term, String> {
 			};
 			Ok(term)
 		},
-		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit))),
+		Expr::Lit(lit) => Ok(Term::Scalar(super::pallet::lit_to_value(&lit.lit)?)),
 		Expr::Path(p) => Ok(Term::Var(crate::term::VarValue(path_to_string(&p.path, Some("::"))))),
 		_ => Err("Unexpected expression storage expr".into()),
 	}
-- 
2.43.0


From 767b3b93488ca6c8a4025af13edff44e67211d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:24 +0000
Subject: [PATCH 04/23] fix: treat failed comparisons as equal when sorting

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index d0b519d..79c7489 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -770,6 +770,7 @@ pub fn sort_changes(diff: &mut TotalDiff) {
 impl TermDiff {
 	fn cmp(&self, other: &Self) -> Ordering {
 		match (&self, &other) {
+			(TermDiff::Failed(_), TermDiff::Failed(_)) => Ordering::Equal,
 			(TermDiff::Failed(_), _) => Ordering::Less,
 			(_, TermDiff::Failed(_)) => Ordering::Greater,
 			(TermDiff::Warning(a, _), TermDiff::Changed(b)) => a.cmp(b),
-- 
2.43.0


From 4ddb43facd970dd43bb8bf00b3780c3008913ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 05/23] fix: reject refnames that git would parse as an option

---
 core/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 79c7489..6be01e4 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -218,6 +218,7 @@ pub fn git_checkout(
 	if force {
 		return git_reset(path, refname, should_pull)
 	}
+	check_refname(refname)?;
 
 	log::info!("Checking out {}", refname);
 	if should_pull {
@@ -243,7 +244,16 @@ pub fn git_checkout(
 	Ok(())
 }
 
+/// Git would interpret a refname with a leading dash as command line option.
+fn check_refname(refname: &str) -> Result<(), String> {
+	if refname.starts_with('-') {
+		return Err(format!("Invalid refname: {}", refname))
+	}
+	Ok(())
+}
+
 pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
+	check_refname(refname)?;
 	log::info!("Fetching branch {}", refname);
 
 	let output = Command::new("git")
@@ -262,6 +272,7 @@ pub fn git_pull(path: &Path, refname: &str) -> Result<(), String> {
 }
 
 pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
+	check_refname(refname)?;
 	if pull {
 		git_pull(path, refname)?;
 	} else {
-- 
2.43.0


From ea91e1aac0838fbf53f2a7af418ed948d9d9723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 06/23] fix: do not follow wildcards out of the repository

---
 core/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 6be01e4..731e01a 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -10,7 +10,7 @@ use lazy_static::lazy_static;
 use std::{
 	cmp::Ordering,
 	collections::{BTreeSet, HashMap, HashSet},
-	path::{Path, PathBuf},
+	path::{Component, Path, PathBuf},
 	process::Command,
 };
 use syn::{Expr, Item, Type};
@@ -312,6 +312,10 @@ pub fn git_reset(path: &Path, refname: &str, pull: bool) -> Result<(), String> {
 	Ok(())
 }
 
+fn count_parent_dirs(path: &Path) -> usize {
+	path.components().filter(|c| matches!(c, Component::ParentDir)).count()
+}
+
 fn list_files(
 	base_path: &Path,
 	regex: &str,
@@ -327,7 +331,13 @@ fn list_files(
 		let files = files
 			.collect::<Result<Vec<_>, _>>()
 			.map_err(|e| format!("Path pattern error: {:?}", e))?;
-		let files: Vec<_> = files.iter().filter(|f| !f.ends_with("mod.rs")).cloned().collect();
+		let files: Vec<_> = files
+			.iter()
+			.filter(|f| !f.ends_with("mod.rs"))
+			// A wildcard like `.*` also matches the parent directory.
+			.filter(|f| count_parent_dirs(f) == count_parent_dirs(base_path))
+			.cloned()
+			.collect();
 		paths.extend(files);
 		if paths.len() > max_files {
 			return Err(
-- 
2.43.0


From 67d7954cf9dcb2409c332b292959bb3eff1ac432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:56 +0000
Subject: [PATCH 07/23] fix: do not interpret the repository path as a pattern

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 731e01a..a9ed29e 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -325,7 +325,9 @@ fn list_files(
 
 	let mut paths = Vec::new();
 	for regex in regex {
-		let regex = format!("{}/{}", base_path.display(), regex);
+		// Only the pattern may contain wildcards, not the path of the repository.
+		let base = glob::Pattern::escape(&base_path.display().to_string());
+		let regex = format!("{}/{}", base, regex);
 		log::info!("Listing files matching: {:?}", &regex);
 		let files = glob::glob(&regex).map_err(|e| format!("Invalid path pattern: {:?}", e))?;
 		let files = files
-- 
2.43.0


From a73d726546be51177cf4e52d4042d3c55d677a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 08/23] fix: identify files relative to the repository for
 relative repository paths

---
 core/src/parse/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/core/src/parse/mod.rs b/core/src/parse/mod.rs
index f55ef2a..c3d451c 100644
--- a/core/src/parse/mod.rs
+++ b/core/src/parse/mod.rs
@@ -12,7 +12,10 @@ pub mod overhead;
 pub mod pallet;
 pub mod storage;
 
-use std::{io::Read, path::Path};
+use std::{
+	io::Read,
+	path::{Component, Path, PathBuf},
+};
 
 pub enum ParsedFile {
 	Pallet(Vec<pallet::ChromaticExtrinsic>),
@@ -41,13 +44,20 @@ pub enum PathStripping {
 	RepoRelative,
 }
 
+/// Removes all `.` components; `glob` yields `repo/lib.rs` for `./repo/*.rs`.
+fn without_cur_dir(path: &Path) -> PathBuf {
+	path.components().filter(|c| !matches!(c, Component::CurDir)).collect()
+}
+
 impl PathStripping {
 	pub fn strip(&self, repo: &Path, path: &Path) -> String {
 		match self {
-			Self::FileName => path.file_name().unwrap().to_string_lossy(),
-			Self::RepoRelative => path.strip_prefix(repo).unwrap_or(path).to_string_lossy(),
+			Self::FileName => path.file_name().unwrap().to_string_lossy().into_owned(),
+			Self::RepoRelative => {
+				let (repo, path) = (without_cur_dir(repo), without_cur_dir(path));
+				path.strip_prefix(&repo).unwrap_or(&path).to_string_lossy().into_owned()
+			},
 		}
-		.into_owned()
 	}
 
 	pub fn variants() -> Vec<&'static str> {
-- 
2.43.0


From bcc6a577f1e3b41aec589adee5a007e041079e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:08 +0000
Subject: [PATCH 09/23] fix: use the annotated range of components with
 underscores

---
 core/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index a9ed29e..6ac6039 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -646,8 +646,10 @@ fn instance_component(
 	extrinsic: &str,
 ) -> Result<u32, String> {
 	use MinOrMax::*;
+	// The parser strips underscores from the names of annotated components.
+	let key = component.replace('_', "");
 
-	match (ra.as_ref().and_then(|r| r.get(component)), rb.as_ref().and_then(|r| r.get(component))) {
+	match (ra.as_ref().and_then(|r| r.get(&key)), rb.as_ref().and_then(|r| r.get(&key))) {
 		// Only one extrinsic has a component range? Good
 		(Some(r), None) | (None, Some(r)) => Ok(match strategy.min_or_max {
 			Min => r.min,
-- 
2.43.0


From 39fac46526dadbbac10758feb0b3c8c926852a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 10/23] fix: compute whole percentages exactly and none for
 equal values

---
 core/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 6ac6039..696460b 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -858,7 +858,11 @@ impl RelativeChange {
 }
 
 pub fn percent(old: u128, new: u128) -> Percent {
-	100.0 * (new as f64 / old as f64) - 100.0
+	if new == old {
+		return 0.0
+	}
+	// Divides last, to be exact for whole percentages.
+	100.0 * new as f64 / old as f64 - 100.0
 }
 
 impl Dimension {
-- 
2.43.0


From 6696765e3beef1f9fe98eb0859fcc4e16d499e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 11/23] fix: print vanishing products and their neighbours
 correctly

---
 core/src/term.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/core/src/term.rs b/core/src/term.rs
index e5768b4..18204d3 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -297,12 +297,9 @@ where
 				} else if r.is_const_zero() || l.is_const_zero() {
 					None
 				} else {
-					match (l.maybe_fmt_with_bracket(false), r.maybe_fmt_with_bracket(false)) {
-						(Some(l), Some(r)) => Some(format!("{} * {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
-					}
+					// A product with a vanishing factor also vanishes.
+					let (l, r) = (l.maybe_fmt_with_bracket(false)?, r.maybe_fmt_with_bracket(false)?);
+					Some(format!("{} * {}", l, r))
 				}
 			},
 			Self::Add(l, r) => {
@@ -313,19 +310,12 @@ where
 					r.maybe_fmt_with_bracket(has_bracket)
 				} else if r.is_const_zero() {
 					l.maybe_fmt_with_bracket(has_bracket)
-				} else if has_bracket {
-					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
-						(Some(l), Some(r)) => Some(format!("{} + {}", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
-					}
 				} else {
 					match (l.maybe_fmt_with_bracket(true), r.maybe_fmt_with_bracket(true)) {
+						(Some(l), Some(r)) if has_bracket => Some(format!("{} + {}", l, r)),
 						(Some(l), Some(r)) => Some(format!("({} + {})", l, r)),
-						(Some(l), None) => Some(l),
-						(None, Some(r)) => Some(r),
-						(None, None) => None,
+						(Some(_), None) => l.maybe_fmt_with_bracket(has_bracket),
+						(None, _) => r.maybe_fmt_with_bracket(has_bracket),
 					}
 				}
 			},
-- 
2.43.0


From f2de913217dffd7f46a5665de624a5dc893b7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 12/23] fix: escape request and repository text in the result
 page

---
 web/src/html.rs            |  6 +++++-
 web/templates/compare.stpl | 14 +++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/web/src/html.rs b/web/src/html.rs
index 364064d..2d4b1a0 100644
--- a/web/src/html.rs
+++ b/web/src/html.rs
@@ -94,7 +94,11 @@ pub(crate) fn readme_link(name: &str) -> String {
 }
 
 pub(crate) fn code_link(repo_name: &str, org: &str, name: &str, file: &str, rev: &str) -> String {
-	format!("<a href=\"https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}\" target=\"_blank\"><sup><small>CODE</small></sup></a>", &org, &repo_name, rev, file, name)
+	let url = format!("https://github.com/{}/{}/tree/{}/{}#:~:text=fn {}", org, repo_name, rev, file, name);
+	format!(
+		"<a href=\"{}\" target=\"_blank\"><sup><small>CODE</small></sup></a>",
+		html_escape::encode_double_quoted_attribute(&url)
+	)
 }
 
 pub(crate) fn html_color_percent(p: Percent, change: RelativeChange) -> String {
diff --git a/web/templates/compare.stpl b/web/templates/compare.stpl
index 1f02044..148208e 100644
--- a/web/templates/compare.stpl
+++ b/web/templates/compare.stpl
@@ -32,7 +32,7 @@
 				<td>
 					<select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= repo %> <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
+							<option value="<%= repo %>" <%- if &args.repo == repo { "selected" } else { "" } %>><%= repo %></option>
 						<% } %>
 					</select>
 				</td>
@@ -114,7 +114,7 @@
 		<div class="collapse" id="collapseErrors">
 			<div class="card card-body text-dark bg-light">
 				<% for err in errors { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -129,7 +129,7 @@
 		<div class="collapse" id="collapseWarns">
 			<div class="card card-body text-dark bg-light">
 				<% for err in warnings { %>
-					<%- format!("{}", err) %><br>
+					<%= err %><br>
 				<% } %>
 			</div>
 		</div>
@@ -153,7 +153,7 @@
 	</thead>
 	<tbody>
 		<% for (info, change) in diff.iter().filter_map(|c| c.term().map(|t| (c, t))) { %>
-			<tr id=<%- format!("\"{}.{}\"", &info.file, &info.name) %>>
+			<tr id="<%= info.file %>.<%= info.name %>">
 				<td>
 					<%= info.file %>
 				</td>
@@ -164,7 +164,7 @@
 				<% } %>
 					<%= info.name %>
 					<sup>
-						<a href=<%- format!("\"#{}.{}\"", &info.file, &info.name) %>>🔗</a>
+						<a href="#<%= info.file %>.<%= info.name %>">🔗</a>
 					</sup>
 				</td>
 
@@ -182,10 +182,10 @@
 				</td>
 
 				<td>
-					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.old.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.old), html_escape::encode_text(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
-					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), t)).unwrap_or_else(|| "-".into()) %>
+					<%- change.new.as_ref().map(|t| format!("{} {}", code_link(&args.repo, &organization, &info.name, &info.file, &args.new), html_escape::encode_text(&t.to_string()))).unwrap_or_else(|| "-".into()) %>
 				</td>
 				<td>
 					<%= format!("{}", &change.scope) %>
-- 
2.43.0


From 29ac56e5502032ad1441a7f4584de0f61bc3daed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 13/23] fix: escape the requested version in the response

---
 web/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/src/main.rs b/web/src/main.rs
index 28b9420..bee5914 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -348,6 +348,7 @@ async fn version(web::Query(args): web::Query<VersionArgs>) -> HttpResponse {
 		if current == version || current.replace('+', " ") == version {
 			http_200("Version check passed")
 		} else {
+			let version = html_escape::encode_text(&version);
 			http_500(format!("Version check failed: '{}' vs '{}'", current, version))
 		}
 	} else {
-- 
2.43.0


From b8ac4533db3c5dc2142a9b36758f5a7fc707def3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 14/23] fix: count storage operations that are cast, bracketed
 or in the old syntax

---
 core/src/parse/pallet.rs | 10 ++++-----
 core/src/term.rs         | 46 +++++++++++++++++++++++-----------------
 2 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 897c51a..5319387 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -426,12 +426,10 @@ pub(crate) fn parse_rw_args(expr: &Punctuated<Expr, Token![,]>) -> Result<Chroma
 }
 
 pub(crate) fn parse_rw(expr: &Expr) -> Result<ChromaticTerm> {
-	match expr {
-		Expr::Lit(lit) => Ok(ChromaticTerm::Scalar(lit_to_value(&lit.lit)?)),
-		expr => {
-			// Substrates Reads/Writes only consider ref time.
-			parse_scalar_expression(expr).map(|t| t.into_chromatic(crate::Dimension::Time))
-		},
+	match parse_scalar_expression(expr)? {
+		Term::Scalar(count) => Ok(ChromaticTerm::Scalar(count)),
+		// Substrates Reads/Writes only consider ref time.
+		t => Ok(t.into_chromatic(crate::Dimension::Time)),
 	}
 }
 
diff --git a/core/src/term.rs b/core/src/term.rs
index 18204d3..7c01fad 100644
--- a/core/src/term.rs
+++ b/core/src/term.rs
@@ -145,6 +145,33 @@ fn checked_scale(weight: Weight, scalar: u128) -> Result<Weight, String> {
 }
 
 impl SimpleTerm {
+	/// Returns the largest pre-factor of the variable in the term.
+	pub fn find_largest_factor(&self, var: &str) -> Option<u128> {
+		self.visit::<_, Option<u128>>(&mut |t| {
+			if let Self::Mul(l, r) = t {
+				if r.as_var() == Some(var) && l.as_const().is_some() {
+					return Ok(l.as_const())
+				}
+				if l.as_var() == Some(var) && r.as_const().is_some() {
+					return Ok(r.as_const())
+				}
+			}
+			Ok(None)
+		})
+		.unwrap()
+		.into_iter()
+		.flatten()
+		.max()
+	}
+
+	/// Returns the constant; a scalar becomes a value when it is lifted into a dimension.
+	pub fn as_const(&self) -> Option<u128> {
+		match self {
+			Self::Value(val) | Self::Scalar(val) => Some(*val),
+			_ => None,
+		}
+	}
+
 	/// Evaluates the term within the given scope to a concrete value.
 	///
 	/// Returns an error if a variable is unbound or if the value does not fit into an `u128`.
@@ -344,25 +371,6 @@ where
 		}
 	}
 
-	/// Returns the largest pre-factor of the variable in the term.
-	pub fn find_largest_factor(&self, var: &str) -> Option<u128> {
-		self.visit::<_, Option<u128>>(&mut |t| {
-			if let Term::<T>::Mul(l, r) = t {
-				if r.as_var() == Some(var) && l.as_scalar().is_some() {
-					return Ok(Some(l.as_scalar().unwrap()))
-				}
-				if l.as_var() == Some(var) && r.as_scalar().is_some() {
-					return Ok(Some(r.as_scalar().unwrap()))
-				}
-			}
-			Ok(None)
-		})
-		.unwrap()
-		.into_iter()
-		.flatten()
-		.max()
-	}
-
 	pub fn as_scalar(&self) -> Option<u128> {
 		match self {
 			Self::Scalar(val) => Some(*val),
-- 
2.43.0


From 0a3bd1f3b88b998aadc069c17f0a2d9e5743edd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 15/23] fix: reject literals with a suffix that is not an
 integer type

---
 core/src/parse/pallet.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/core/src/parse/pallet.rs b/core/src/parse/pallet.rs
index 5319387..19aab2a 100644
--- a/core/src/parse/pallet.rs
+++ b/core/src/parse/pallet.rs
@@ -523,10 +523,22 @@ fn parse_scalar_args(args: &Punctuated<Expr, Token![,]>) -> Result<Term<u128>> {
 
 pub(crate) fn lit_to_value(lit: &Lit) -> Result<u128> {
 	match lit {
-		Lit::Int(i) => i
-			.base10_digits()
-			.parse()
-			.map_err(|e| format!("Invalid integer literal {}: {}", i, e)),
+		Lit::Int(i) => {
+			// The parser also accepts other suffixes, like in `10f64`.
+			if !matches!(
+				i.suffix(),
+				"" | "u8" |
+					"u16" | "u32" | "u64" |
+					"u128" | "usize" |
+					"i8" | "i16" | "i32" |
+					"i64" | "i128" | "isize"
+			) {
+				return Err(format!("Invalid integer literal {}: unexpected suffix", i))
+			}
+			i.base10_digits()
+				.parse()
+				.map_err(|e| format!("Invalid integer literal {}: {}", i, e))
+		},
 		_ => Err(format!("Expected an integer literal but got: {:?}", lit.into_token_stream())),
 	}
 }
-- 
2.43.0


From e1c00beeac2a95e8c5931ba8a67679921516d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:59 +0000
Subject: [PATCH 16/23] fix: a revision name is never taken for a path by git
 checkout

---
 core/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 696460b..277d151 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -230,6 +230,8 @@ pub fn git_checkout(
 	let output = Command::new("git")
 		.arg("checkout")
 		.arg(refname)
+		// Otherwise git restores the files at a path of that name, if there is one.
+		.arg("--")
 		.current_dir(path)
 		.output()
 		.map_err(|e| format!("Failed to checkout branch: {:?}", e))?;
-- 
2.43.0


From 100175e982cd61937080cb965dd4a8bd27c8493e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:14 +0000
Subject: [PATCH 17/23] fix: the CSV rows with weight terms have as many cells
 as the header

---
 cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 290f3e4..8dc715b 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -280,7 +280,7 @@ fn print_changes_csv(
 		if format.print_terms {
 			write!(
 				row,
-				"{},",
+				",{},",
 				change.old.as_ref().map(|t| format!("{}", t)).unwrap_or_else(|| "-".into())
 			)?;
 			write!(
-- 
2.43.0


From 137b6adf0dfeb91d06479d64c5b907a1a3a6c503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:35 +0000
Subject: [PATCH 18/23] fix: the start page offers every repository under its
 own name

---
 web/templates/root.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/root.stpl b/web/templates/root.stpl
index b28a510..e95058e 100644
--- a/web/templates/root.stpl
+++ b/web/templates/root.stpl
@@ -43,7 +43,7 @@
 										<p>Please select a repository. There are <var><%= repos.len() %></var> available.</p>
 										<select class="form-control js-example-basic-single" id="repoSelect" style="width: 100%;">
 											<% for repo in repos { %>
-												<option value="<%= repo.to_lowercase() %>"><%= repo %></option>
+												<option value="<%= repo %>"><%= repo %></option>
 											<% } %>
 										</select>
 									</div>
-- 
2.43.0


From 6f0b20d47660eae5de969ceb0c4ea2a253d38a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:59 +0000
Subject: [PATCH 19/23] fix: the command line accepts the documented alias of
 the time dimension

---
 core/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/lib.rs b/core/src/lib.rs
index 277d151..7a88de0 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -434,6 +434,7 @@ impl core::fmt::Display for MinOrMax {
 pub enum Dimension {
 	/// Reference time. Alias to `weight` for backwards compatibility.
 	#[serde(alias = "weight")]
+	#[clap(alias = "weight")]
 	Time,
 
 	/// Proof-of-validity (PoV) size.
-- 
2.43.0


From 4277be92d17e40d853408af3d1d230b9f0e0cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:41 +0000
Subject: [PATCH 20/23] fix: report the number of parsed files and not of their
 extrinsics

---
 cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 8dc715b..3fa53c2 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -222,8 +222,8 @@ fn main() -> Result<(), Box<dyn std::error::Error>> {
 		},
 		SubCommand::Parse(ParseCmd::Files(ParseFilesCmd { files })) => {
 			print(format!("Trying to parse {} files...", files.len()), cmd.verbose);
-			let parsed = parse_files(&files)?;
-			print(format!("Parsed {} files successfully", parsed.len()), cmd.verbose);
+			parse_files(&files)?;
+			print(format!("Parsed {} files successfully", files.len()), cmd.verbose);
 		},
 	}
 
-- 
2.43.0


From 4c12a272eda00b4bd673928b6334ee2229bbc9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 21/23] fix: answer a failing git with an error, whatever it
 reports

The output of git need not be UTF-8; /branches panicked then.
---
 web/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index bee5914..1c36db2 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -236,7 +236,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 				)
 			})?;
 		if !output.status.success() {
-			let err = String::from_utf8(output.stderr).unwrap();
+			let err = String::from_utf8_lossy(&output.stderr);
 			log::error!("Failed to fetch branches: '{}'", &err);
 
 			return Err(std::io::Error::new(
@@ -253,7 +253,7 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.current_dir(repo.path.deref())
 		.output()?;
 	if !output.status.success() {
-		let err = String::from_utf8(output.stderr).unwrap();
+		let err = String::from_utf8_lossy(&output.stderr);
 		log::error!("Failed to list branches: {}", &err);
 		return Err(std::io::Error::new(
 			std::io::ErrorKind::Other,
-- 
2.43.0


From 88827dccedc5ed2498b739ad29c1f92cd0c98905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 22/23] fix: list references under the names they have

The namespace was removed wherever it occurs in a name, not only at its start.
---
 web/src/main.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/web/src/main.rs b/web/src/main.rs
index 1c36db2..c76b69e 100644
--- a/web/src/main.rs
+++ b/web/src/main.rs
@@ -267,13 +267,15 @@ async fn branches(req: HttpRequest) -> Result<impl Responder> {
 		.lines()
 		// Some tags contain weird stuff like {} or ^, let's filter those out.
 		.filter(|l| !l.contains('{') && !l.contains('^'))
-		.map(|l| l.replace("refs/heads/", ""))
-		.map(|l| l.replace("refs/tags/", ""))
-		// Split at whitespace and use the first part as the branch name
-		// and the second as commit hash.
+		// Split at whitespace and use the first part as the commit hash
+		// and the second as branch name, without its leading namespace.
 		.map(|l| {
 			let splits = l.split_whitespace().collect::<Vec<&str>>();
-			(splits[1].to_string(), splits[0][..12].to_string())
+			let name = splits[1]
+				.strip_prefix("refs/heads/")
+				.or_else(|| splits[1].strip_prefix("refs/tags/"))
+				.unwrap_or(splits[1]);
+			(name.to_string(), splits[0][..12].to_string())
 		})
 		.collect::<Vec<(String, String)>>();
 
-- 
2.43.0


From 836b88f9c5c8f416e6cd2813365fc08a13f05c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:53 +0000
Subject: [PATCH 23/23] fix: quote the value of a repository on the page of
 merge requests

---
 web/templates/merge_requests.stpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/templates/merge_requests.stpl b/web/templates/merge_requests.stpl
index 9e14d9a..39176a4 100644
--- a/web/templates/merge_requests.stpl
+++ b/web/templates/merge_requests.stpl
@@ -48,7 +48,7 @@
 				<div class="col">
 					Repo: <select id="select_repo">
 						<% for repo in repos.iter() { %>
-							<option value=<%= format!("{}:{}", &repo.organization, &repo.name) %>><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
+							<option value="<%= format!("{}:{}", &repo.organization, &repo.name) %>"><%= format!("{}:{}", &repo.organization, &repo.name) %></option>
 						<% } %>
 					</select>
 				</div>
-- 
2.43.0


From a057e9035f2f16c232cf6b4855fdee24d21db7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:09 +0000
Subject: [PATCH 01/30] fix: report errors writing outcomes.json and
 mutants.json

The BufWriter was dropped without flushing, so write errors such as a full
disk were silently ignored, leaving a truncated file and a normal exit
status.
---
 src/output.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8caae46..29b5c8f 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -202,11 +202,11 @@ impl OutputDir {
     ///
     /// Called multiple times as the lab runs.
     fn write_lab_outcome(&self) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("outcomes.json"))?),
-            &self.lab_outcome,
-        )
-        .context("write outcomes.json")
+        let mut writer = BufWriter::new(File::create(self.path.join("outcomes.json"))?);
+        serde_json::to_writer_pretty(&mut writer, &self.lab_outcome)
+            .context("write outcomes.json")?;
+        // Flush explicitly, because errors are lost if it's flushed by being dropped.
+        writer.flush().context("write outcomes.json")
     }
 
     /// Add the result of testing one scenario.
@@ -237,11 +237,9 @@ impl OutputDir {
     }
 
     pub fn write_mutants_list(&self, mutants: &[Mutant]) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("mutants.json"))?),
-            mutants,
-        )
-        .context("write mutants.json")
+        let mut writer = BufWriter::new(File::create(self.path.join("mutants.json"))?);
+        serde_json::to_writer_pretty(&mut writer, mutants).context("write mutants.json")?;
+        writer.flush().context("write mutants.json")
     }
 
     pub fn take_lab_outcome(self) -> LabOutcome {
-- 
2.43.0


From c976a6e7ec9ebdea9b0a0f4f27bd543d42f9eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:58 +0000
Subject: [PATCH 02/30] fix: don't write through symlinks that lead out of the
 copied tree

A source file (or Cargo.toml, or .cargo/config.toml) that is an absolute
symlink is copied as a symlink, so mutating or fixing it in the copy
overwrote the user's original file.
---
 src/build_dir.rs | 28 +++++++++++++++++++++++++++-
 src/manifest.rs  |  5 +++++
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..59d7867 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -32,6 +32,8 @@ pub struct BuildDir {
     /// object is dropped. If None, there's nothing to clean up.
     #[allow(dead_code)]
     temp_dir: Option<TempDir>,
+    /// True if this is the original source directory rather than a copy.
+    in_place: bool,
 }
 
 impl BuildDir {
@@ -72,7 +74,11 @@ impl BuildDir {
         } else {
             Some(temp_dir)
         };
-        let build_dir = BuildDir { path, temp_dir };
+        let build_dir = BuildDir {
+            path,
+            temp_dir,
+            in_place: false,
+        };
         Ok(build_dir)
     }
 
@@ -80,6 +86,7 @@ impl BuildDir {
     pub fn in_place(source_path: &Utf8Path) -> Result<BuildDir> {
         Ok(BuildDir {
             temp_dir: None,
+            in_place: true,
             path: source_path
                 .canonicalize_utf8()
                 .context("canonicalize source path")?,
@@ -94,11 +101,30 @@ impl BuildDir {
         let full_path = self.path.join(relative_path);
         // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
+        if !self.in_place {
+            ensure_inside(&full_path, &self.path)?;
+        }
         write(&full_path, code.as_bytes())
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
 }
 
+/// Check that a file in a copied tree isn't reached through a symlink leading out of the copy,
+/// because writing to it would change a file outside of the copy, perhaps in the original tree.
+pub fn ensure_inside(file: &Utf8Path, copy: &Utf8Path) -> Result<()> {
+    let real_file = file
+        .canonicalize_utf8()
+        .with_context(|| format!("canonicalize {file:?}"))?;
+    let real_copy = copy
+        .canonicalize_utf8()
+        .with_context(|| format!("canonicalize {copy:?}"))?;
+    ensure!(
+        real_file.starts_with(&real_copy),
+        "Not writing to {file:?} because it is a symlink to {real_file:?} outside of the copied tree"
+    );
+    Ok(())
+}
+
 #[cfg(test)]
 mod test {
     use crate::test_util::copy_of_testdata;
diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..c839790 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -11,6 +11,7 @@ use anyhow::Context;
 use camino::Utf8Path;
 use tracing::debug;
 
+use crate::build_dir::ensure_inside;
 use crate::path::ascent;
 use crate::Result;
 
@@ -26,6 +27,9 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
+        if let Some(build_path) = manifest_scratch_path.parent() {
+            ensure_inside(manifest_scratch_path, build_path)?;
+        }
         write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
             format!("Failed to write fixed manifest to {manifest_scratch_path}")
         })?;
@@ -108,6 +112,7 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
+            ensure_inside(&config_path, build_path)?;
             write(build_path.join(&config_path), changed_toml.as_bytes())
                 .context("write .cargo/config.toml")?;
         }
-- 
2.43.0


From 8877b4decc28ff24c6fbc8fa77a3906405546c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:05 +0000
Subject: [PATCH 03/30] fix: restore source files to their exact original bytes
 after each mutant

Revert wrote the in-memory source, which has CRLF normalized to LF, so
--in-place left files with CRLF line endings changed. And if writing the
mutated file failed part-way it was left truncated.
---
 src/build_dir.rs | 13 +++++++++----
 src/lab.rs       |  7 ++++---
 src/mutant.rs    | 23 ++++++++++++++++-------
 3 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 59d7867..ee60e37 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::write;
+use std::fs::{read, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -97,15 +97,20 @@ impl BuildDir {
         self.path.as_path()
     }
 
-    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
+    /// Read the bytes of a file within the build dir.
+    pub fn read_file(&self, relative_path: &Utf8Path) -> Result<Vec<u8>> {
+        let full_path = self.path.join(relative_path);
+        read(&full_path).with_context(|| format!("failed to read {full_path:?}"))
+    }
+
+    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &[u8]) -> Result<()> {
         let full_path = self.path.join(relative_path);
         // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
         if !self.in_place {
             ensure_inside(&full_path, &self.path)?;
         }
-        write(&full_path, code.as_bytes())
-            .with_context(|| format!("failed to write code to {full_path:?}"))
+        write(&full_path, code).with_context(|| format!("failed to write code to {full_path:?}"))
     }
 }
 
diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..dab44c9 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -266,11 +266,12 @@ impl Worker<'_> {
             .scenario_started(dir, scenario, scenario_output.open_log_read()?);
         debug!(?test_packages);
 
+        let mut original_code = Vec::new();
         if let Some(mutant) = scenario.mutant() {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
-            mutant.apply(self.build_dir, &mutated_code)?;
+            original_code = mutant.apply(self.build_dir, &mutated_code)?;
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
@@ -302,14 +303,14 @@ impl Worker<'_> {
                     error!(?err, ?phase, "scenario execution internal error");
                     // Some unexpected internal error that stops the program.
                     if let Some(mutant) = scenario.mutant() {
-                        mutant.revert(self.build_dir)?;
+                        mutant.revert(self.build_dir, &original_code)?;
                     }
                     return Err(err);
                 }
             }
         }
         if let Some(mutant) = scenario.mutant() {
-            mutant.revert(self.build_dir)?;
+            mutant.revert(self.build_dir, &original_code)?;
         }
         self.output_mutex
             .lock()
diff --git a/src/mutant.rs b/src/mutant.rs
index 3c6486a..3a5391a 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -202,17 +202,26 @@ impl Mutant {
     }
 
     /// Apply this mutant to the relevant file within a `BuildDir`.
-    pub fn apply(&self, build_dir: &BuildDir, mutated_code: &str) -> Result<()> {
+    ///
+    /// Returns the previous bytes of the file, from which [`Mutant::revert`] restores it.
+    /// (They can differ from the source code held in memory, which has normalized line endings.)
+    pub fn apply(&self, build_dir: &BuildDir, mutated_code: &str) -> Result<Vec<u8>> {
         trace!(?self, "Apply mutant");
-        build_dir.overwrite_file(&self.source_file.tree_relative_path, mutated_code)
+        let original = build_dir.read_file(&self.source_file.tree_relative_path)?;
+        if let Err(err) = build_dir.overwrite_file(
+            &self.source_file.tree_relative_path,
+            mutated_code.as_bytes(),
+        ) {
+            // The file might be truncated or partly written.
+            self.revert(build_dir, &original)?;
+            return Err(err);
+        }
+        Ok(original)
     }
 
-    pub fn revert(&self, build_dir: &BuildDir) -> Result<()> {
+    pub fn revert(&self, build_dir: &BuildDir, original: &[u8]) -> Result<()> {
         trace!(?self, "Revert mutant");
-        build_dir.overwrite_file(
-            &self.source_file.tree_relative_path,
-            self.source_file.code(),
-        )
+        build_dir.overwrite_file(&self.source_file.tree_relative_path, original)
     }
 
     /// Return a string describing this mutant that's suitable for building a log file name,
-- 
2.43.0


From 170e3a269be40cbf6e0a3c4b968551a14eb768e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:14 +0000
Subject: [PATCH 04/30] fix: stop cargo and restore the source file if a worker
 panics

In 'cargo mutants --in-place 2>&1 | tee log', ctrl-c also stops tee, so
that printing "interrupted" panics: the mutated file and the running
cargo process were left behind.
---
 src/lab.rs     | 23 +++++++++++++++++++++++
 src/process.rs | 10 +++++++++-
 2 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index dab44c9..d118d7e 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -267,11 +267,17 @@ impl Worker<'_> {
         debug!(?test_packages);
 
         let mut original_code = Vec::new();
+        let mut revert_on_panic = None;
         if let Some(mutant) = scenario.mutant() {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
             original_code = mutant.apply(self.build_dir, &mutated_code)?;
+            revert_on_panic = Some(RevertOnPanic {
+                mutant,
+                build_dir: self.build_dir,
+                original_code: original_code.clone(),
+            });
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
@@ -312,6 +318,7 @@ impl Worker<'_> {
         if let Some(mutant) = scenario.mutant() {
             mutant.revert(self.build_dir, &original_code)?;
         }
+        drop(revert_on_panic);
         self.output_mutex
             .lock()
             .expect("lock output dir to add outcome")
@@ -324,6 +331,22 @@ impl Worker<'_> {
     }
 }
 
+/// Restores the mutated file if testing the mutant panics, for example because of writing messages
+/// to a pipe that was closed by the same ctrl-c.
+struct RevertOnPanic<'a> {
+    mutant: &'a Mutant,
+    build_dir: &'a BuildDir,
+    original_code: Vec<u8>,
+}
+
+impl Drop for RevertOnPanic<'_> {
+    fn drop(&mut self) {
+        if thread::panicking() {
+            let _ = self.mutant.revert(self.build_dir, &self.original_code);
+        }
+    }
+}
+
 /// Which packages to test
 #[derive(Debug, Clone, PartialEq, Eq)]
 pub enum TestsForMutant {
diff --git a/src/process.rs b/src/process.rs
index 439c1f6..2c454c8 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -10,7 +10,7 @@
 
 use std::ffi::OsStr;
 use std::process::{Child, Command, Stdio};
-use std::thread::sleep;
+use std::thread::{panicking, sleep};
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -139,6 +139,14 @@ impl Process {
     }
 }
 
+impl Drop for Process {
+    fn drop(&mut self) {
+        if panicking() {
+            let _ = self.terminate();
+        }
+    }
+}
+
 /// The result of running a single child process.
 #[derive(Copy, Clone, Debug, PartialEq, Eq, Serialize)]
 pub enum Exit {
-- 
2.43.0


From 47298ed5299443846b8af89d09555ba3c5c15993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:03 +0000
Subject: [PATCH 05/30] fix: accept git diffs with header-only sections or
 missing newlines in --in-diff

A diff ending in a binary file, pure rename or mode change, or adding a missing
newline at the end of a file, made the patch crate panic or fail.
---
 src/in_diff.rs | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..6b9e05a 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -17,13 +17,38 @@ use crate::mutant::Mutant;
 use crate::source::SourceFile;
 use crate::Result;
 
+/// Prefixes of lines outside of hunks that describe files that are binary, or are renamed or change mode
+/// without changing any text, and of the "No newline at end of file" marker that can occur within hunks.
+///
+/// Lines of text within hunks can't match these because they start with a space, plus or minus.
+static IGNORED_LINE_PREFIXES: &[&str] = &[
+    "Binary files ",
+    "\\ ",
+    "diff ",
+    "index ",
+    "old mode ",
+    "new mode ",
+    "deleted file mode ",
+    "new file mode ",
+    "copy from ",
+    "copy to ",
+    "rename from ",
+    "rename to ",
+    "similarity index ",
+    "dissimilarity index ",
+];
+
 /// Return only mutants to functions whose source was touched by this diff.
 pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>> {
-    // Strip any "Binary files .. differ" lines because `patch` doesn't understand them at
-    // the moment; this could be removed if it's fixed in that crate.
+    // Strip lines that `patch` doesn't understand, or only in some positions, and that don't affect
+    // which lines have changed; this could be removed if it's fixed in that crate.
     let fixed_diff = diff_text
         .lines()
-        .filter(|line| !(line.starts_with("Binary files ")))
+        .filter(|line| {
+            !IGNORED_LINE_PREFIXES
+                .iter()
+                .any(|prefix| line.starts_with(prefix))
+        })
         .chain(once(""))
         .join("\n");
 
-- 
2.43.0


From e0b3a600b61466dacb2f79b03ee83ed3f03d38c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:03 +0000
Subject: [PATCH 06/30] fix: handle deletions in diffs without context in
 --in-diff

In a hunk with no new lines, the range gives the line before the deletion, so
mutants next to a deletion in a -U0 diff were missed and others selected.
---
 src/in_diff.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 6b9e05a..9df4c48 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -159,6 +159,12 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        // A hunk with no lines in the new file, in a diff made without context, gives the
+        // number of the line before the deletion.
+        let only_removals = hunk.new_range.count == 0;
+        if only_removals {
+            lineno += 1;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
@@ -200,6 +206,10 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
                 }
             }
         }
+        if only_removals && prev_removed {
+            // The line after the deletion isn't shown in this hunk.
+            affected_lines.push(lineno);
+        }
     }
     debug_assert!(
         affected_lines.iter().tuple_windows().all(|(a, b)| a < b),
-- 
2.43.0


From fd708d1d9bd6678e03473a81ae3e9e64b676f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:09 +0000
Subject: [PATCH 07/30] fix: find mutants::skip in cfg_attr after a condition
 with arguments

---
 src/visit.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..a87a686 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -14,7 +14,7 @@ use std::sync::Arc;
 use std::vec;
 
 use camino::{Utf8Path, Utf8PathBuf};
-use proc_macro2::{Ident, TokenStream};
+use proc_macro2::{Ident, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
 use syn::spanned::Spanned;
@@ -819,6 +819,11 @@ fn attr_is_mutants_skip(attr: &Attribute) -> bool {
         if path_is(&meta.path, &["mutants", "skip"]) {
             skip = true;
         }
+        // Step over the value or arguments of conditions like `feature = "x"` and `any(a, b)`,
+        // and of other attributes, to see what comes after them.
+        while !meta.input.is_empty() && !meta.input.peek(syn::Token![,]) {
+            meta.input.parse::<TokenTree>()?;
+        }
         Ok(())
     }) {
         debug!(
-- 
2.43.0


From 9d182eb1ff9e25727af041d0c1bae77ec60d51a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:30 +0000
Subject: [PATCH 08/30] fix: skip code under cfg(all(test, ...))

---
 src/visit.rs | 44 +++++++++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index a87a686..99bdb63 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -17,9 +17,12 @@ use camino::{Utf8Path, Utf8PathBuf};
 use proc_macro2::{Ident, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use syn::ext::IdentExt;
+use syn::punctuated::Punctuated;
 use syn::spanned::Spanned;
 use syn::visit::Visit;
-use syn::{Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, ReturnType, Signature, UnOp};
+use syn::{
+    Attribute, BinOp, Block, Expr, ExprPath, File, ItemFn, Meta, ReturnType, Signature, Token, UnOp,
+};
 use tracing::{debug, debug_span, error, info, trace, trace_span, warn};
 
 use crate::console::WalkProgress;
@@ -761,27 +764,34 @@ fn block_is_empty(block: &syn::Block) -> bool {
     block.stmts.is_empty()
 }
 
-/// True if the attribute looks like `#[cfg(test)]`, or has "test"
-/// anywhere in it.
+/// True if the attribute is `#[cfg(test)]`, or a combination that is only true in tests, like
+/// `#[cfg(all(test, unix))]`.
 fn attr_is_cfg_test(attr: &Attribute) -> bool {
     if !path_is(attr.path(), &["cfg"]) {
         return false;
     }
-    let mut contains_test = false;
-    if let Err(err) = attr.parse_nested_meta(|meta| {
-        if meta.path.is_ident("test") {
-            contains_test = true;
+    match attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated) {
+        Ok(metas) => metas.iter().any(cfg_requires_test),
+        Err(err) => {
+            debug!(
+                ?err,
+                attr = attr.to_pretty_string(),
+                "Attribute is in an unrecognized form so skipped",
+            );
+            false
         }
-        Ok(())
-    }) {
-        debug!(
-            ?err,
-            attr = attr.to_pretty_string(),
-            "Attribute is in an unrecognized form so skipped",
-        );
-        return false;
     }
-    contains_test
+}
+
+/// True if a `cfg` condition is `test`, or an `all(...)` that includes it.
+fn cfg_requires_test(meta: &Meta) -> bool {
+    match meta {
+        Meta::Path(path) => path.is_ident("test"),
+        Meta::List(list) if list.path.is_ident("all") => list
+            .parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)
+            .is_ok_and(|metas| metas.iter().any(cfg_requires_test)),
+        _ => false,
+    }
 }
 
 /// True if the attribute is `#[test]`.
@@ -821,7 +831,7 @@ fn attr_is_mutants_skip(attr: &Attribute) -> bool {
         }
         // Step over the value or arguments of conditions like `feature = "x"` and `any(a, b)`,
         // and of other attributes, to see what comes after them.
-        while !meta.input.is_empty() && !meta.input.peek(syn::Token![,]) {
+        while !meta.input.is_empty() && !meta.input.peek(Token![,]) {
             meta.input.parse::<TokenTree>()?;
         }
         Ok(())
-- 
2.43.0


From 578f5b0fbe435007e1e5591ce777d12c415259f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:52 +0000
Subject: [PATCH 09/30] fix: count carriage returns within a line when
 replacing and diffing text

---
 src/mutant.rs |  7 ++++++-
 src/span.rs   | 10 ++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 3a5391a..87cbe43 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -194,7 +194,12 @@ impl Mutant {
         let old_label = self.source_file.tree_relative_slashes();
         // There shouldn't be any newlines, but just in case...
         let new_label = self.describe_change().replace('\n', " ");
-        TextDiff::from_lines(self.source_file.code(), mutated_code)
+        // Split only at newlines: a carriage return can occur within a line.
+        let old_lines: Vec<&str> = self.source_file.code().split_inclusive('\n').collect();
+        let new_lines: Vec<&str> = mutated_code.split_inclusive('\n').collect();
+        TextDiff::configure()
+            .newline_terminated(true)
+            .diff_slices(&old_lines, &new_lines)
             .unified_diff()
             .context_radius(8)
             .header(&old_label, &new_label)
diff --git a/src/span.rs b/src/span.rs
index 6f12fe0..40083f2 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -71,7 +71,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                 && (line_no < end.line || (line_no == end.line && col_no < end.column))
             {
@@ -83,7 +84,7 @@ impl Span {
                     break;
                 }
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
@@ -105,7 +106,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if line_no == start.line && col_no == start.column {
                 r.push_str(replacement);
             }
@@ -119,7 +121,7 @@ impl Span {
             if c == '\n' {
                 line_no += 1;
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
-- 
2.43.0


From a21cd3c55a774c4a2090803e0b82374cb3adc354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:54 +0000
Subject: [PATCH 10/30] fix: accept source files that start with a shebang line

---
 src/visit.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 99bdb63..94d854c 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -141,7 +141,13 @@ fn walk_file(
 ) -> Result<(Vec<Mutant>, Vec<ExternalModRef>)> {
     let _span = debug_span!("source_file", path = source_file.tree_relative_slashes()).entered();
     debug!("visit source file");
-    let syn_file = syn::parse_str::<syn::File>(source_file.code())
+    let code = source_file.code();
+    let parsed = if code.starts_with("#!") {
+        syn::parse_file(code) // skips a shebang line
+    } else {
+        syn::parse_str::<syn::File>(code)
+    };
+    let syn_file = parsed
         .with_context(|| format!("failed to parse {}", source_file.tree_relative_slashes()))?;
     let mut visitor = DiscoveryVisitor {
         error_exprs,
-- 
2.43.0


From 4991ac1b19cc5ed2b8a0d655a78d76431abac686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:16 +0000
Subject: [PATCH 11/30] fix: visit a source file once even if several targets
 include it

---
 src/visit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 94d854c..3720a45 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -9,7 +9,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use std::vec;
 
@@ -95,7 +95,14 @@ fn walk_package(
     let mut files = Vec::new();
     let mut filename_queue =
         VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));
+    let mut visited = HashSet::new();
     while let Some((path, package_top)) = filename_queue.pop_front() {
+        // The same file can be a module of several targets, such as `lib.rs` and `main.rs`.
+        let full_path = workspace_dir.join(&path);
+        if !visited.insert(full_path.canonicalize_utf8().unwrap_or(full_path)) {
+            debug!(?path, "already visited");
+            continue;
+        }
         let Some(source_file) = SourceFile::load(workspace_dir, &path, package, package_top)?
         else {
             info!("Skipping source file outside of tree: {path:?}");
-- 
2.43.0


From 2d71b4c9b86edcdedec0310127e0dbdf66a262cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:04 +0000
Subject: [PATCH 12/30] fix: resolve submodules of files and inline modules
 with path attributes as rustc does

---
 src/visit.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/visit.rs b/src/visit.rs
index 3720a45..4e7073b 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -125,7 +125,13 @@ fn walk_package(
         // `--list-files`.
         for mod_namespace in &external_mods {
             if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
-                filename_queue.push_back((mod_path, false));
+                // Submodules of a file named by a path attribute are next to it, as they are for
+                // a top file.
+                let has_path_attribute = mod_namespace
+                    .parts
+                    .last()
+                    .is_some_and(|m| m.path_attribute.is_some());
+                filename_queue.push_back((mod_path, has_path_attribute));
             }
         }
         if !options.allows_source_file_path(&source_file.tree_relative_path) {
@@ -715,9 +721,9 @@ fn find_mod_source(
     let parent_path = &parent.tree_relative_path;
     let mut search_dir = if parent.is_top
         || parent_path.ends_with("mod.rs")
-        // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
+        // NOTE: Path attribute on a top-level `mod foo;` or `mod foo { ... }` (no enclosing block)
         //       ignores the parent module path
-        || (mod_child.path_attribute.is_some() && mod_parents.is_empty())
+        || mod_namespace.parts[0].path_attribute.is_some()
     {
         parent_path
             .parent()
-- 
2.43.0


From ebbca7e9a24b6e61605fe8e6e6ef309ec0123ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:24 +0000
Subject: [PATCH 13/30] fix: error values given twice gave duplicate mutants

---
 src/options.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 87821f4..b2fdd0c 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -17,6 +17,7 @@ use std::time::Duration;
 
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
+use itertools::Itertools;
 use regex::RegexSet;
 use serde::Deserialize;
 use strum::{Display, EnumString};
@@ -367,12 +368,15 @@ impl Options {
     /// Return the syn ASTs for the error values, which should be inserted as return values
     /// from functions returning `Result`.
     pub(crate) fn parsed_error_exprs(&self) -> Result<Vec<Expr>> {
+        // The same value might be given several times, for example both in the config and as
+        // an option.
         self.error_values
             .iter()
             .map(|e| {
                 syn::parse_str(e).with_context(|| format!("Failed to parse error value {e:?}"))
             })
-            .collect()
+            .collect::<Result<Vec<Expr>>>()
+            .map(|exprs| exprs.into_iter().unique().collect())
     }
 
     /// True if the options allow mutants to be generated from the given path.
-- 
2.43.0


From e4ca345cf6e4734fda49c70ce779e0a10f28ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:24 +0000
Subject: [PATCH 14/30] fix: --check with nextest passed --cargo-profile to
 cargo check

---
 src/cargo.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..82d49a0 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -125,11 +125,12 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
         }
     }
     if let Some(profile) = &options.profile {
-        match options.test_tool {
-            TestTool::Cargo => {
+        match (phase, options.test_tool) {
+            // `cargo check` is used for checking even if the tests would be run by nextest.
+            (Phase::Check, _) | (_, TestTool::Cargo) => {
                 cargo_args.push(format!("--profile={profile}"));
             }
-            TestTool::Nextest => {
+            (_, TestTool::Nextest) => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
         }
-- 
2.43.0


From 2c4d449473da6f63630f8d6d846b744f14cb7a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:24 +0000
Subject: [PATCH 15/30] fix: the baseline did not run the tests chosen by
 --test-workspace or --test-package

---
 src/lab.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lab.rs b/src/lab.rs
index d118d7e..ea0d56c 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -174,15 +174,22 @@ impl Lab<'_> {
     ///
     /// If it succeeds, return the timeouts to be used for the other scenarios.
     fn run_baseline(&self, build_dir: &BuildDir, mutants: &[Mutant]) -> Result<ScenarioOutcome> {
-        let all_mutated_packages: Vec<Arc<Package>> = mutants
-            .iter()
-            .map(|m| Arc::clone(&m.source_file.package))
-            .sorted_by_key(|p| p.name.clone())
-            .unique()
-            .collect_vec();
+        // Everything that will be tested for the mutants must first pass unmutated.
+        let test_packages = match &self.tests_for_mutant {
+            TestsForMutant::Workspace => PackageSelection::All,
+            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
+            TestsForMutant::Mutated => PackageSelection::Explicit(
+                mutants
+                    .iter()
+                    .map(|m| Arc::clone(&m.source_file.package))
+                    .sorted_by_key(|p| p.name.clone())
+                    .unique()
+                    .collect_vec(),
+            ),
+        };
         self.make_worker(build_dir).run_one_scenario(
             &Scenario::Baseline,
-            &PackageSelection::Explicit(all_mutated_packages),
+            &test_packages,
             Timeouts::for_baseline(self.options),
         )
     }
-- 
2.43.0


From e32189887bafa217134cb275276be7f4d6a58eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:25 +0000
Subject: [PATCH 16/30] fix: --package did not accept comma-separated lists

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..a501387 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -469,7 +469,7 @@ fn main() -> Result<()> {
     let options = Options::new(&args, &config)?;
     debug!(?options);
     let package_filter = if !args.mutate_packages.is_empty() {
-        PackageFilter::explicit(&args.mutate_packages)
+        PackageFilter::explicit(args.mutate_packages.iter().flat_map(|s| s.split(',')))
     } else if args.workspace {
         PackageFilter::All
     } else {
-- 
2.43.0


From cb94cdc4f8b421fc613ccdfdd6a1ae1bb6724570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:51 +0000
Subject: [PATCH 17/30] fix: naming a package twice gave its mutants twice

---
 src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workspace.rs b/src/workspace.rs
index 97872dc..304f5e3 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -117,6 +117,7 @@ impl Workspace {
             .iter()
             .map(AsRef::as_ref)
             .sorted()
+            .dedup()
             .filter_map(|name| {
                 if let Some(p) = self.packages.iter().find(|p| p.name == name) {
                     Some(Arc::clone(p))
-- 
2.43.0


From b8c64237c0daf0450c500ab2b92af2c317c5c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:33 +0000
Subject: [PATCH 18/30] fix: relative paths of dev-, build-, target-specific
 and workspace dependencies were not made absolute in the copy

---
 src/manifest.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index c839790..943e943 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -47,7 +47,20 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
+        fix_dependency_sections(top_table, manifest_source_dir);
+        if let Some(targets) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            // The keys are target triples or `cfg` expressions; the values have
+            // dependency sections like those at the top level.
+            for (_target, target_value) in targets {
+                if let Some(target_table) = target_value.as_table_mut() {
+                    fix_dependency_sections(target_table, manifest_source_dir);
+                }
+            }
+        }
+        if let Some(dependencies) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.get_mut("dependencies"))
+        {
             fix_dependency_table(dependencies, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
@@ -73,6 +86,21 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in all the kinds of dependencies that a package, or one target of it, can have.
+fn fix_dependency_sections(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for section in [
+        "dependencies",
+        "dev-dependencies",
+        "dev_dependencies",
+        "build-dependencies",
+        "build_dependencies",
+    ] {
+        if let Some(dependencies) = table.get_mut(section) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From ce8dc3d29d6e8c4cd28a2045049297bb5a8f993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:35 +0000
Subject: [PATCH 19/30] fix: relative paths in the patch section of
 .cargo/config.toml were not made absolute in the copy

---
 src/manifest.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/manifest.rs b/src/manifest.rs
index 943e943..b963a5f 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -166,6 +166,14 @@ fn fix_cargo_config_toml(config_toml: &str, source_dir: &Utf8Path) -> Result<Opt
             }
         }
     }
+    // Config files can have a `patch` section too, like the one in manifests.
+    if let Some(patch_table) = value.get_mut("patch").and_then(|p| p.as_table_mut()) {
+        let orig_patch = patch_table.clone();
+        for (_name, dependencies) in patch_table.iter_mut() {
+            fix_dependency_table(dependencies, source_dir);
+        }
+        changed |= *patch_table != orig_patch;
+    }
     if changed {
         Ok(Some(toml::to_string_pretty(&value)?))
     } else {
-- 
2.43.0


From 4f340e77f36d34cc371155388bf55f2d0cadc9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:33 +0000
Subject: [PATCH 20/30] fix: a cargo process that ignores SIGTERM was never
 killed when over its limit

Wait for a while after asking, as the comment on Process::terminate already says, then kill its process group.
---
 src/process.rs         | 16 ++++++++++++++--
 src/process/unix.rs    | 16 ++++++++++++++--
 src/process/windows.rs |  5 +++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2c454c8..16d2caa 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -26,15 +26,18 @@ use crate::Result;
 /// How frequently to check if a subprocess finished.
 const WAIT_POLL_INTERVAL: Duration = Duration::from_millis(50);
 
+/// How long to wait for a subprocess to end after asking it to, before killing it.
+const TERMINATE_GRACE: Duration = Duration::from_secs(10);
+
 #[cfg(windows)]
 mod windows;
 #[cfg(windows)]
-use windows::{configure_command, terminate_child};
+use windows::{configure_command, kill_child, terminate_child};
 
 #[cfg(unix)]
 mod unix;
 #[cfg(unix)]
-use unix::{configure_command, terminate_child};
+use unix::{configure_command, kill_child, terminate_child};
 
 pub struct Process {
     child: Child,
@@ -131,6 +134,15 @@ impl Process {
         debug!("terminating child process");
         terminate_child(&mut self.child)?;
         trace!("wait for child after termination");
+        let asked = Instant::now();
+        while matches!(self.child.try_wait(), Ok(None)) {
+            if asked.elapsed() > TERMINATE_GRACE {
+                debug!("child process is still running, killing it");
+                kill_child(&mut self.child)?;
+                break;
+            }
+            sleep(WAIT_POLL_INTERVAL);
+        }
         match self.child.wait() {
             Err(err) => debug!(?err, "Failed to wait for child after termination"),
             Ok(exit) => debug!("terminated child exit status {exit:?}"),
diff --git a/src/process/unix.rs b/src/process/unix.rs
index d5f52aa..e2284c0 100644
--- a/src/process/unix.rs
+++ b/src/process/unix.rs
@@ -12,10 +12,22 @@ use crate::Result;
 use super::Exit;
 
 #[allow(unknown_lints, clippy::needless_pass_by_ref_mut)] // To match Windows
-#[mutants::skip] // hard to exercise the ESRCH edge case
+#[mutants::skip]
 pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
+    signal_group(child, Signal::SIGTERM)
+}
+
+/// Kill a child's process group that did not end after [`terminate_child`].
+#[allow(unknown_lints, clippy::needless_pass_by_ref_mut)] // To match Windows
+#[mutants::skip] // hard to exercise
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    signal_group(child, Signal::SIGKILL)
+}
+
+#[mutants::skip] // hard to exercise the ESRCH edge case
+fn signal_group(child: &Child, signal: Signal) -> Result<()> {
     let pid = Pid::from_raw(child.id().try_into().unwrap());
-    match killpg(pid, Signal::SIGTERM) {
+    match killpg(pid, signal) {
         Ok(()) => Ok(()),
         Err(Errno::ESRCH) => {
             Ok(()) // Probably already gone
diff --git a/src/process/windows.rs b/src/process/windows.rs
index c37950f..66596b4 100644
--- a/src/process/windows.rs
+++ b/src/process/windows.rs
@@ -11,6 +11,11 @@ pub(super) fn terminate_child(child: &mut Child) -> Result<()> {
     child.kill().context("Kill child")
 }
 
+#[mutants::skip]
+pub(super) fn kill_child(child: &mut Child) -> Result<()> {
+    terminate_child(child)
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(_command: &mut Command) {}
 
-- 
2.43.0


From 8a56bd41e0cfdeb9b093bc1f6bc8be7c8ada245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:23 +0000
Subject: [PATCH 21/30] fix: --in-diff missed mutants in files reached through
 a path attribute with '..'

---
 src/in_diff.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 9df4c48..4b9a45e 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -7,7 +7,7 @@ use std::collections::HashMap;
 use std::iter::once;
 
 use anyhow::{anyhow, bail};
-use camino::Utf8Path;
+use camino::{Utf8Component, Utf8Path, Utf8PathBuf};
 use indoc::formatdoc;
 use itertools::Itertools;
 use patch::{Line, Patch};
@@ -77,8 +77,8 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     }
     let mut matched: Vec<Mutant> = Vec::with_capacity(mutants.len());
     'mutant: for mutant in mutants {
-        let path = mutant.source_file.path();
-        if let Some(lines_changed) = lines_changed_by_path.get(path) {
+        let path = clean_path(mutant.source_file.path());
+        if let Some(lines_changed) = lines_changed_by_path.get(path.as_path()) {
             // We could do be smarter about searching for an intersection of ranges, rather
             // than probing one line at a time... But, the numbers are likely to be small
             // enough that this is tolerable...
@@ -105,15 +105,15 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
 
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
-    let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
+    let mut source_by_name: HashMap<Utf8PathBuf, &SourceFile> = HashMap::new();
     for mutant in mutants {
         source_by_name
-            .entry(mutant.source_file.path())
+            .entry(clean_path(mutant.source_file.path()))
             .or_insert_with(|| &mutant.source_file);
     }
     for patch in patches {
         let path = strip_patch_path(&patch.new.path);
-        if let Some(source_file) = source_by_name.get(&path) {
+        if let Some(source_file) = source_by_name.get(path) {
             let reconstructed = partial_new_file(patch);
             let lines = source_file.code().lines().collect_vec();
             for (lineno, diff_content) in reconstructed {
@@ -145,6 +145,21 @@ fn strip_patch_path(path: &str) -> &Utf8Path {
     path.strip_prefix("b").unwrap_or(path)
 }
 
+/// Remove `..` components, which can occur in the path of a file included by a path attribute, but
+/// don't occur in a diff.
+fn clean_path(path: &Utf8Path) -> Utf8PathBuf {
+    let mut clean = Utf8PathBuf::new();
+    for component in path.components() {
+        match component {
+            Utf8Component::ParentDir => {
+                clean.pop();
+            }
+            _ => clean.push(component),
+        }
+    }
+    clean
+}
+
 /// Given a diff, return the ranges of actually-changed lines, ignoring context lines.
 ///
 /// Code that's only included as context doesn't need to be tested.
-- 
2.43.0


From 78ad2976115b8735fc863bcf73c047b73062744e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:53 +0000
Subject: [PATCH 22/30] fix: testing failed for files with paths too long to be
 used as the name of a log file

---
 src/mutant.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 87cbe43..1eb7f97 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -18,6 +18,9 @@ use crate::source::SourceFile;
 use crate::span::Span;
 use crate::MUTATION_MARKER_COMMENT;
 
+/// The maximum length in bytes of the names of log and diff files, before any suffixes are added.
+const MAX_LOG_FILE_NAME_BASE: usize = 200;
+
 /// Various broad categories of mutants.
 #[derive(Clone, Eq, PartialEq, Debug, Serialize)]
 pub enum Genre {
@@ -234,12 +237,17 @@ impl Mutant {
     pub fn log_file_name_base(&self) -> String {
         // TODO: Also include a unique number so that they can't collide, even
         // with similar mutants on the same line?
-        format!(
+        let base = format!(
             "{filename}_line_{line}_col_{col}",
             filename = clean_filename(&self.source_file.tree_relative_slashes()),
             line = self.span.start.line,
             col = self.span.start.column,
-        )
+        );
+        // Most filesystems don't allow names over 255 bytes: keep the end, which is the most specific.
+        let start = (0..base.len())
+            .find(|&i| base.is_char_boundary(i) && base.len() - i <= MAX_LOG_FILE_NAME_BASE)
+            .unwrap_or_default();
+        base[start..].to_owned()
     }
 }
 
-- 
2.43.0


From 030c6ffa0f05f1fe077cc02aadbebbcd7490c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:35 +0000
Subject: [PATCH 23/30] fix: processes started by cargo survived if they
 ignored SIGTERM

When a timeout or interrupt ended cargo itself, anything else in its process group
that ignores or is slow to obey SIGTERM was left running, because only cargo was
waited for. Now the whole group is, and what is left after the grace period is killed.
---
 src/process.rs         |  9 +++++----
 src/process/unix.rs    | 24 ++++++++++++++++++++++--
 src/process/windows.rs |  5 +++++
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 16d2caa..f6886e4 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -32,12 +32,12 @@ const TERMINATE_GRACE: Duration = Duration::from_secs(10);
 #[cfg(windows)]
 mod windows;
 #[cfg(windows)]
-use windows::{configure_command, kill_child, terminate_child};
+use windows::{configure_command, is_running, kill_child, terminate_child};
 
 #[cfg(unix)]
 mod unix;
 #[cfg(unix)]
-use unix::{configure_command, kill_child, terminate_child};
+use unix::{configure_command, is_running, kill_child, terminate_child};
 
 pub struct Process {
     child: Child,
@@ -135,9 +135,10 @@ impl Process {
         terminate_child(&mut self.child)?;
         trace!("wait for child after termination");
         let asked = Instant::now();
-        while matches!(self.child.try_wait(), Ok(None)) {
+        // The child can end before the processes that it started, such as the tests.
+        while is_running(&mut self.child) {
             if asked.elapsed() > TERMINATE_GRACE {
-                debug!("child process is still running, killing it");
+                debug!("child processes are still running, killing them");
                 kill_child(&mut self.child)?;
                 break;
             }
diff --git a/src/process/unix.rs b/src/process/unix.rs
index e2284c0..3f89ed7 100644
--- a/src/process/unix.rs
+++ b/src/process/unix.rs
@@ -4,6 +4,7 @@ use std::process::{Child, Command, ExitStatus};
 use anyhow::bail;
 use nix::errno::Errno;
 use nix::sys::signal::{killpg, Signal};
+use nix::sys::wait::{waitpid, WaitPidFlag, WaitStatus};
 use nix::unistd::Pid;
 use tracing::warn;
 
@@ -24,10 +25,29 @@ pub(super) fn kill_child(child: &mut Child) -> Result<()> {
     signal_group(child, Signal::SIGKILL)
 }
 
+/// True if the child, or anything else in its process group, is still running.
+#[mutants::skip] // hard to exercise
+pub(super) fn is_running(child: &mut Child) -> bool {
+    if matches!(child.try_wait(), Ok(None)) {
+        return true;
+    }
+    let group = group(child);
+    // If we're the init process of a container then orphans become our children, and exist until
+    // we collect them.
+    let orphans = Pid::from_raw(-group.as_raw());
+    while waitpid(orphans, Some(WaitPidFlag::WNOHANG))
+        .is_ok_and(|status| status != WaitStatus::StillAlive)
+    {}
+    killpg(group, None).is_ok()
+}
+
+fn group(child: &Child) -> Pid {
+    Pid::from_raw(child.id().try_into().unwrap())
+}
+
 #[mutants::skip] // hard to exercise the ESRCH edge case
 fn signal_group(child: &Child, signal: Signal) -> Result<()> {
-    let pid = Pid::from_raw(child.id().try_into().unwrap());
-    match killpg(pid, signal) {
+    match killpg(group(child), signal) {
         Ok(()) => Ok(()),
         Err(Errno::ESRCH) => {
             Ok(()) // Probably already gone
diff --git a/src/process/windows.rs b/src/process/windows.rs
index 66596b4..8823b97 100644
--- a/src/process/windows.rs
+++ b/src/process/windows.rs
@@ -16,6 +16,11 @@ pub(super) fn kill_child(child: &mut Child) -> Result<()> {
     terminate_child(child)
 }
 
+#[mutants::skip]
+pub(super) fn is_running(child: &mut Child) -> bool {
+    matches!(child.try_wait(), Ok(None))
+}
+
 #[mutants::skip]
 pub(super) fn configure_command(_command: &mut Command) {}
 
-- 
2.43.0


From 2dc20a8bbdbde42494917c57249090f4517c0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:04 +0000
Subject: [PATCH 24/30] fix: a run was cut off by a panic when showing a log
 that is not UTF-8

Cargo and the tests it runs can print any bytes. Such a log was shown for
a failing baseline, and with --all-logs, by reading it as UTF-8 or
panicking, so the run ended with status 101 and no results.
---
 src/outcome.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..0b5bef5 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,10 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // The output of cargo and of the tests may contain any bytes, not only UTF-8.
+        read(self.output_dir.join(&self.log_path))
+            .map(|bytes| String::from_utf8_lossy(&bytes).into_owned())
+            .context("read log file")
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0


From e562267b2c0a8acb30fcc355ad9783cfec5b4eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:38 +0000
Subject: [PATCH 25/30] fix: a diff with extra empty lines after the end of a
 source file was not seen to be out of date

---
 src/in_diff.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 4b9a45e..3d00027 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -117,8 +117,9 @@ fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<
             let reconstructed = partial_new_file(patch);
             let lines = source_file.code().lines().collect_vec();
             for (lineno, diff_content) in reconstructed {
-                let source_content = lines.get(lineno - 1).unwrap_or(&"");
-                if diff_content != *source_content {
+                let source_line = lines.get(lineno - 1);
+                if source_line != Some(&diff_content) {
+                    let source_content = source_line.unwrap_or(&"");
                     warn!(
                         ?path,
                         lineno,
-- 
2.43.0


From d2e1c0564f8410e10a44f979e930b4fd0b556665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:49 +0000
Subject: [PATCH 26/30] fix: a run was cut off by a panic when a timeout or
 multiplier was negative or too large

---
 src/options.rs  | 41 +++++++++++++++++++++++++++++++++++------
 src/timeouts.rs |  9 +++++++--
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index b2fdd0c..dbba15d 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -15,6 +15,7 @@ use std::env;
 use std::ffi::OsString;
 use std::time::Duration;
 
+use anyhow::ensure;
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
 use itertools::Itertools;
@@ -236,11 +237,12 @@ impl Options {
             warn!("--no-copy-target is deprecated and has no effect; target/ is never copied");
         }
 
-        let minimum_test_timeout = Duration::from_secs_f64(
+        let minimum_test_timeout = duration_from_secs(
+            "minimum test timeout",
             args.minimum_test_timeout
                 .or(config.minimum_test_timeout)
                 .unwrap_or(20f64),
-        );
+        )?;
 
         // If either command line argument is set, it overrides the config.
         let test_package = if args.test_workspace == Some(true) {
@@ -283,10 +285,15 @@ impl Options {
                 &config.additional_cargo_test_args,
             ),
             baseline: args.baseline,
-            build_timeout: args.build_timeout.map(Duration::from_secs_f64),
+            build_timeout: args
+                .build_timeout
+                .map(|secs| duration_from_secs("build timeout", secs))
+                .transpose()?,
             build_timeout_multiplier: args
                 .build_timeout_multiplier
-                .or(config.build_timeout_multiplier),
+                .or(config.build_timeout_multiplier)
+                .map(|m| check_multiplier("build timeout multiplier", m))
+                .transpose()?,
             cap_lints: args.cap_lints.unwrap_or(config.cap_lints),
             check_only: args.check,
             colors: args.colors,
@@ -318,8 +325,15 @@ impl Options {
             show_all_logs: args.all_logs,
             skip_calls,
             test_package,
-            test_timeout: args.timeout.map(Duration::from_secs_f64),
-            test_timeout_multiplier: args.timeout_multiplier.or(config.timeout_multiplier),
+            test_timeout: args
+                .timeout
+                .map(|secs| duration_from_secs("timeout", secs))
+                .transpose()?,
+            test_timeout_multiplier: args
+                .timeout_multiplier
+                .or(config.timeout_multiplier)
+                .map(|m| check_multiplier("timeout multiplier", m))
+                .transpose()?,
             test_tool: args.test_tool.or(config.test_tool).unwrap_or_default(),
         };
         if let Some(jobs) = options.jobs {
@@ -411,6 +425,21 @@ fn or_slices<'a: 'c, 'b: 'c, 'c, T>(a: &'a [T], b: &'b [T]) -> &'c [T] {
     }
 }
 
+/// Convert a number of seconds from the command line or configuration, which might be negative, too
+/// large, or not a number.
+fn duration_from_secs(name: &str, secs: f64) -> Result<Duration> {
+    Duration::try_from_secs_f64(secs).with_context(|| format!("invalid {name}: {secs} seconds"))
+}
+
+/// Check a multiplier for the baseline time from the command line or configuration.
+fn check_multiplier(name: &str, multiplier: f64) -> Result<f64> {
+    ensure!(
+        multiplier.is_finite() && multiplier >= 0.0,
+        "invalid {name}: {multiplier}"
+    );
+    Ok(multiplier)
+}
+
 #[cfg(test)]
 mod test {
     use std::io::Write;
diff --git a/src/timeouts.rs b/src/timeouts.rs
index 2d19144..69b4f57 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -57,7 +57,7 @@ fn test_timeout(baseline_duration: Option<Duration>, options: &Options) -> Durat
     } else if let Some(baseline_duration) = baseline_duration {
         let timeout = max(
             options.minimum_test_timeout,
-            Duration::from_secs_f64(
+            duration_or_max(
                 (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                     .ceil(),
             ),
@@ -83,7 +83,7 @@ fn build_timeout(baseline_duration: Option<Duration>, options: &Options) -> Opti
         Some(t)
     } else if let Some(baseline) = baseline_duration {
         if let Some(multiplier) = options.build_timeout_multiplier {
-            let timeout = Duration::from_secs_f64(baseline.as_secs_f64() * multiplier);
+            let timeout = duration_or_max(baseline.as_secs_f64() * multiplier);
             if options.show_times {
                 info!(
                     "Auto-set build timeout to {}",
@@ -99,6 +99,11 @@ fn build_timeout(baseline_duration: Option<Duration>, options: &Options) -> Opti
     }
 }
 
+/// The duration of a positive number of seconds, or the longest possible duration if it's too large.
+fn duration_or_max(secs: f64) -> Duration {
+    Duration::try_from_secs_f64(secs).unwrap_or(Duration::MAX)
+}
+
 #[cfg(test)]
 mod test {
     use std::str::FromStr;
-- 
2.43.0


From 4e458813fcd489b14054e116f1a11df20a32723b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 27/30] fix: --build-timeout-multiplier had no effect with
 --check

---
 src/timeouts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timeouts.rs b/src/timeouts.rs
index 69b4f57..3847efb 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -28,7 +28,11 @@ impl Timeouts {
     pub fn from_baseline(baseline: &ScenarioOutcome, options: &Options) -> Timeouts {
         Timeouts {
             build: build_timeout(
-                baseline.phase_result(Phase::Build).map(|pr| pr.duration),
+                // With `--check` there's only a check phase.
+                baseline
+                    .phase_result(Phase::Build)
+                    .or_else(|| baseline.phase_result(Phase::Check))
+                    .map(|pr| pr.duration),
                 options,
             ),
             test: Some(test_timeout(
-- 
2.43.0


From 1c80d1260618afcd37303784810044461ed936fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:11 +0000
Subject: [PATCH 28/30] fix: replacements of functions returning tuples of one
 element were no tuples

---
 src/fnvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnvalue.rs b/src/fnvalue.rs
index 3e2d691..31d401e 100644
--- a/src/fnvalue.rs
+++ b/src/fnvalue.rs
@@ -209,7 +209,9 @@ fn type_replacements(type_: &Type, error_exprs: &[Expr]) -> impl Iterator<Item =
                 .map(|elem| type_replacements(elem, error_exprs).collect_vec())
                 .multi_cartesian_product()
                 .map(|reps| {
-                    quote! { ( #( #reps ),* ) }
+                    // A tuple with one element needs a comma after it.
+                    let comma = (reps.len() == 1).then(|| quote! { , });
+                    quote! { ( #( #reps ),* #comma ) }
                 })
                 .collect_vec()
         }
-- 
2.43.0


From 8c359762f0d7a618a98e62e12f9d67ac88f31cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:03 +0000
Subject: [PATCH 29/30] fix: a diff touching any file that is not UTF-8 was
 rejected

---
 src/main.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index a501387..dc5cff7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -41,7 +41,7 @@ mod visit;
 mod workspace;
 
 use std::env;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::io;
 use std::process::exit;
 
@@ -502,10 +502,9 @@ fn main() -> Result<()> {
     }
     let mut mutants = discovered.mutants;
     if let Some(in_diff) = &args.in_diff {
-        mutants = diff_filter(
-            mutants,
-            &read_to_string(in_diff).context("Failed to read filter diff")?,
-        )?;
+        // Other files touched by the diff might not be in UTF-8.
+        let diff_bytes = read(in_diff).context("Failed to read filter diff")?;
+        mutants = diff_filter(mutants, &String::from_utf8_lossy(&diff_bytes))?;
     }
     if let Some(shard) = &args.shard {
         mutants = shard.select(mutants);
-- 
2.43.0


From d0345ec5c08726de78008e28250ad682b5c025c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:51 +0000
Subject: [PATCH 30/30] fix: report malformed hunk line numbers in --in-diff
 rather than panicking

A hunk with more or fewer lines than its header says, hunks out of order,
and line numbers of 0 or near the top of the integer range, all led to a
panic or to wrong line numbers.
---
 src/in_diff.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 3d00027..7f3c529 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -60,6 +60,9 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
 
     let patches =
         Patch::from_multiple(&fixed_diff).map_err(|err| anyhow!("Failed to parse diff: {err}"))?;
+    for patch in &patches {
+        check_hunk_ranges(patch)?;
+    }
     check_diff_new_text_matches(&patches, &mutants)?;
     let mut lines_changed_by_path: HashMap<&Utf8Path, Vec<usize>> = HashMap::new();
     for patch in &patches {
@@ -103,6 +106,42 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     Ok(matched)
 }
 
+/// Error if the hunks aren't in order, or don't have as many lines in the new file as their header says.
+///
+/// The line numbers calculated from them would be wrong.
+fn check_hunk_ranges(patch: &Patch) -> Result<()> {
+    // The first line, in the new file, that the next hunk can affect.
+    let mut next_line = 1;
+    for hunk in &patch.hunks {
+        let range = &hunk.new_range;
+        let n_lines = hunk
+            .lines
+            .iter()
+            .filter(|line| !matches!(line, Line::Remove(_)))
+            .count();
+        let (start, count) = if range.count == 0 {
+            // The hunk only removes lines, before the line after this one.
+            (range.start.checked_add(1), 1)
+        } else {
+            (Some(range.start), range.count)
+        };
+        match (start, start.and_then(|s| s.checked_add(count))) {
+            (Some(start), Some(end))
+                if start >= next_line && usize::try_from(range.count) == Ok(n_lines) =>
+            {
+                next_line = end;
+            }
+            _ => bail!(
+                "Failed to parse diff: wrong line numbers in hunk of {path}: @@ {old} {new} @@",
+                path = patch.new.path,
+                old = hunk.old_range,
+                new = hunk.new_range
+            ),
+        }
+    }
+    Ok(())
+}
+
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
     let mut source_by_name: HashMap<Utf8PathBuf, &SourceFile> = HashMap::new();
-- 
2.43.0


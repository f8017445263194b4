From 1484d4ae698f9a5db6ded4e50ec69bb8204bc435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:08 +0000
Subject: [PATCH 01/10] fix: --in-diff with zero-context deletions marks the
 lines around the deletion

---
 src/in_diff.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..23ecbe9 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -134,6 +134,10 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        if hunk.new_range.count == 0 {
+            // A hunk with no lines in the new file names the line before the deletion.
+            lineno += 1;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
@@ -175,6 +179,10 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
                 }
             }
         }
+        if prev_removed && hunk.new_range.count == 0 {
+            // There is no context to show the line after the deletion, but it's also affected.
+            affected_lines.push(lineno);
+        }
     }
     debug_assert!(
         affected_lines.iter().tuple_windows().all(|(a, b)| a < b),
-- 
2.43.0


From ffe59dd1853122b380039de3713efeb3094df1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:37 +0000
Subject: [PATCH 02/10] fix: restore the source file if writing a mutation to
 it fails

---
 src/lab.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..02aade2 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -270,7 +270,11 @@ impl Worker<'_> {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
-            mutant.apply(self.build_dir, &mutated_code)?;
+            if let Err(err) = mutant.apply(self.build_dir, &mutated_code) {
+                // The file might be partly written.
+                mutant.revert(self.build_dir)?;
+                return Err(err);
+            }
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
-- 
2.43.0


From 930b7ddcf358dbd376f5b62f6789c14b51031a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:06 +0000
Subject: [PATCH 03/10] fix: --in-place restores files with DOS line endings
 byte for byte

---
 src/build_dir.rs | 11 ++++++++---
 src/lab.rs       |  9 ++++++---
 src/mutant.rs    | 19 +++++++++++++------
 3 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..564af14 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::write;
+use std::fs::{read, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -90,11 +90,16 @@ impl BuildDir {
         self.path.as_path()
     }
 
-    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
+    pub fn read_file(&self, relative_path: &Utf8Path) -> Result<Vec<u8>> {
+        let full_path = self.path.join(relative_path);
+        read(&full_path).with_context(|| format!("failed to read {full_path:?}"))
+    }
+
+    pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &[u8]) -> Result<()> {
         let full_path = self.path.join(relative_path);
         // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
-        write(&full_path, code.as_bytes())
+        write(&full_path, code)
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
 }
diff --git a/src/lab.rs b/src/lab.rs
index 02aade2..b6d1e35 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -266,13 +266,16 @@ impl Worker<'_> {
             .scenario_started(dir, scenario, scenario_output.open_log_read()?);
         debug!(?test_packages);
 
+        // The exact content of the file to be mutated, including its line endings.
+        let mut original = Vec::new();
         if let Some(mutant) = scenario.mutant() {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
+            original = mutant.read_original(self.build_dir)?;
             if let Err(err) = mutant.apply(self.build_dir, &mutated_code) {
                 // The file might be partly written.
-                mutant.revert(self.build_dir)?;
+                mutant.revert(self.build_dir, &original)?;
                 return Err(err);
             }
         }
@@ -306,14 +309,14 @@ impl Worker<'_> {
                     error!(?err, ?phase, "scenario execution internal error");
                     // Some unexpected internal error that stops the program.
                     if let Some(mutant) = scenario.mutant() {
-                        mutant.revert(self.build_dir)?;
+                        mutant.revert(self.build_dir, &original)?;
                     }
                     return Err(err);
                 }
             }
         }
         if let Some(mutant) = scenario.mutant() {
-            mutant.revert(self.build_dir)?;
+            mutant.revert(self.build_dir, &original)?;
         }
         self.output_mutex
             .lock()
diff --git a/src/mutant.rs b/src/mutant.rs
index 3c6486a..f876ad1 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -204,17 +204,24 @@ impl Mutant {
     /// Apply this mutant to the relevant file within a `BuildDir`.
     pub fn apply(&self, build_dir: &BuildDir, mutated_code: &str) -> Result<()> {
         trace!(?self, "Apply mutant");
-        build_dir.overwrite_file(&self.source_file.tree_relative_path, mutated_code)
-    }
-
-    pub fn revert(&self, build_dir: &BuildDir) -> Result<()> {
-        trace!(?self, "Revert mutant");
         build_dir.overwrite_file(
             &self.source_file.tree_relative_path,
-            self.source_file.code(),
+            mutated_code.as_bytes(),
         )
     }
 
+    /// Read the content of the file before it's mutated, to later pass to `revert`.
+    ///
+    /// This may differ from the code of the source file in having DOS line endings.
+    pub fn read_original(&self, build_dir: &BuildDir) -> Result<Vec<u8>> {
+        build_dir.read_file(&self.source_file.tree_relative_path)
+    }
+
+    pub fn revert(&self, build_dir: &BuildDir, original: &[u8]) -> Result<()> {
+        trace!(?self, "Revert mutant");
+        build_dir.overwrite_file(&self.source_file.tree_relative_path, original)
+    }
+
     /// Return a string describing this mutant that's suitable for building a log file name,
     /// but can contain slashes.
     pub fn log_file_name_base(&self) -> String {
-- 
2.43.0


From 62c23cd584b5060bea6becf4d27c30324f5c66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 04/10] fix: count a carriage return that is not part of a line
 ending as a column

Spans from proc_macro2 count it, so Span::replace put mutations after a bare
carriage return in the wrong place and tested a corrupted file.
---
 src/span.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/span.rs b/src/span.rs
index 6f12fe0..40083f2 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -71,7 +71,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                 && (line_no < end.line || (line_no == end.line && col_no < end.column))
             {
@@ -83,7 +84,7 @@ impl Span {
                     break;
                 }
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
@@ -105,7 +106,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if line_no == start.line && col_no == start.column {
                 r.push_str(replacement);
             }
@@ -119,7 +121,7 @@ impl Span {
             if c == '\n' {
                 line_no += 1;
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
-- 
2.43.0


From 6e5b2177ede5953b735757feb14718e8d142d12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 05/10] fix: accept --manifest-path with just a file name

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..490c545 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -450,9 +450,14 @@ fn main() -> Result<()> {
 
     let start_dir: &Utf8Path = if let Some(manifest_path) = &args.manifest_path {
         ensure!(manifest_path.is_file(), "Manifest path is not a file");
-        manifest_path
+        let parent = manifest_path
             .parent()
-            .ok_or(anyhow!("Manifest path has no parent"))?
+            .ok_or(anyhow!("Manifest path has no parent"))?;
+        if parent.as_str().is_empty() {
+            Utf8Path::new(".") // just a file name
+        } else {
+            parent
+        }
     } else if let Some(dir) = &args.dir {
         dir
     } else {
-- 
2.43.0


From 5470b0458707b37325c9913a8d608819f0179da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 06/10] fix: replace bodies of functions returning a
 one-element tuple with a tuple

---
 src/fnvalue.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fnvalue.rs b/src/fnvalue.rs
index 3e2d691..3a18c57 100644
--- a/src/fnvalue.rs
+++ b/src/fnvalue.rs
@@ -208,8 +208,9 @@ fn type_replacements(type_: &Type, error_exprs: &[Expr]) -> impl Iterator<Item =
                 .iter()
                 .map(|elem| type_replacements(elem, error_exprs).collect_vec())
                 .multi_cartesian_product()
-                .map(|reps| {
-                    quote! { ( #( #reps ),* ) }
+                .map(|reps| match reps.as_slice() {
+                    [rep] => quote! { ( #rep, ) }, // not just a parenthesized expression
+                    _ => quote! { ( #( #reps ),* ) },
                 })
                 .collect_vec()
         }
-- 
2.43.0


From 12ce09241e654c6ddc1abf14b6d74df10bfebf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 07/10] fix: run the baseline on the packages that
 --test-workspace or --test-package select

---
 src/lab.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lab.rs b/src/lab.rs
index b6d1e35..96e9b54 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -174,15 +174,21 @@ impl Lab<'_> {
     ///
     /// If it succeeds, return the timeouts to be used for the other scenarios.
     fn run_baseline(&self, build_dir: &BuildDir, mutants: &[Mutant]) -> Result<ScenarioOutcome> {
-        let all_mutated_packages: Vec<Arc<Package>> = mutants
-            .iter()
-            .map(|m| Arc::clone(&m.source_file.package))
-            .sorted_by_key(|p| p.name.clone())
-            .unique()
-            .collect_vec();
+        let test_packages = match &self.tests_for_mutant {
+            TestsForMutant::Workspace => PackageSelection::All,
+            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
+            TestsForMutant::Mutated => PackageSelection::Explicit(
+                mutants
+                    .iter()
+                    .map(|m| Arc::clone(&m.source_file.package))
+                    .sorted_by_key(|p| p.name.clone())
+                    .unique()
+                    .collect_vec(),
+            ),
+        };
         self.make_worker(build_dir).run_one_scenario(
             &Scenario::Baseline,
-            &PackageSelection::Explicit(all_mutated_packages),
+            &test_packages,
             Timeouts::for_baseline(self.options),
         )
     }
-- 
2.43.0


From cfb6b4b8c9cea35acab0a6a813917e81f726f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 08/10] fix: never write through symlinks from a copied tree to
 the original files

---
 src/build_dir.rs | 34 +++++++++++++++++++++++++++++-----
 src/manifest.rs  | 15 +++++++++++----
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 564af14..8bfd37d 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -4,7 +4,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::fs::{read, write};
+use std::fs::{read, remove_file, write};
 
 use anyhow::{ensure, Context};
 use camino::{Utf8Path, Utf8PathBuf};
@@ -28,6 +28,8 @@ use crate::{
 pub struct BuildDir {
     /// The path of the root of the build directory.
     path: Utf8PathBuf,
+    /// True if this is the source directory itself.
+    in_place: bool,
     /// Holds a reference to the temporary directory, so that it will be deleted when this
     /// object is dropped. If None, there's nothing to clean up.
     #[allow(dead_code)]
@@ -72,7 +74,11 @@ impl BuildDir {
         } else {
             Some(temp_dir)
         };
-        let build_dir = BuildDir { path, temp_dir };
+        let build_dir = BuildDir {
+            path,
+            in_place: false,
+            temp_dir,
+        };
         Ok(build_dir)
     }
 
@@ -80,6 +86,7 @@ impl BuildDir {
     pub fn in_place(source_path: &Utf8Path) -> Result<BuildDir> {
         Ok(BuildDir {
             temp_dir: None,
+            in_place: true,
             path: source_path
                 .canonicalize_utf8()
                 .context("canonicalize source path")?,
@@ -95,12 +102,29 @@ impl BuildDir {
         read(&full_path).with_context(|| format!("failed to read {full_path:?}"))
     }
 
+    /// True if a file, after following any symlinks, is inside this directory.
+    fn contains(&self, path: &Utf8Path) -> Result<bool> {
+        let root = self.path.canonicalize_utf8();
+        let path = path.canonicalize_utf8();
+        Ok(path
+            .context("resolve symlinks")?
+            .starts_with(root.context("resolve symlinks")?))
+    }
+
     pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &[u8]) -> Result<()> {
         let full_path = self.path.join(relative_path);
-        // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
-        write(&full_path, code)
-            .with_context(|| format!("failed to write code to {full_path:?}"))
+        // for safety, don't follow symlinks out of a copied tree
+        if !self.in_place && !self.contains(&full_path)? {
+            let dir = full_path.parent().context("file has no parent")?;
+            ensure!(
+                full_path.is_symlink() && self.contains(dir)?,
+                "{full_path:?} is outside of the build directory"
+            );
+            remove_file(&full_path)
+                .with_context(|| format!("failed to remove symlink {full_path:?}"))?;
+        }
+        write(&full_path, code).with_context(|| format!("failed to write code to {full_path:?}"))
     }
 }
 
diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..8ba67f1 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -5,7 +5,7 @@
 //! In particular, when the tree is copied we have to fix up relative paths, so
 //! that they still work from the new location of the scratch directory.
 
-use std::fs::{read_to_string, write};
+use std::fs::{read_to_string, remove_file, write};
 
 use anyhow::Context;
 use camino::Utf8Path;
@@ -26,7 +26,7 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
-        write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
+        replace_file(manifest_scratch_path, &toml_str).with_context(|| {
             format!("Failed to write fixed manifest to {manifest_scratch_path}")
         })?;
     }
@@ -108,13 +108,20 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
-            write(build_path.join(&config_path), changed_toml.as_bytes())
-                .context("write .cargo/config.toml")?;
+            replace_file(&config_path, &changed_toml).context("write .cargo/config.toml")?;
         }
     }
     Ok(())
 }
 
+/// Write a file in the build directory, without following a symlink back to the source tree.
+fn replace_file(path: &Utf8Path, text: &str) -> std::io::Result<()> {
+    if path.is_symlink() {
+        remove_file(path)?;
+    }
+    write(path, text)
+}
+
 /// Replace any relative paths in a config file with absolute paths.
 ///
 /// Returns None if no changes are needed.
-- 
2.43.0


From 19390b037a7a2feb4b1eb6d678110da0cd1c627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 09/10] fix: fix paths of dev, build, target and workspace
 dependencies in the copied manifest

---
 src/manifest.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 8ba67f1..0281326 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -43,8 +43,19 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
-            fix_dependency_table(dependencies, manifest_source_dir);
+        fix_dependency_tables(top_table, manifest_source_dir);
+        if let Some(workspace) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.as_table_mut())
+        {
+            fix_dependency_tables(workspace, manifest_source_dir);
+        }
+        if let Some(targets) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            for (_platform, target) in targets {
+                if let Some(target) = target.as_table_mut() {
+                    fix_dependency_tables(target, manifest_source_dir);
+                }
+            }
         }
         if let Some(replace) = top_table.get_mut("replace") {
             // The replace section is a table from package name/version to a
@@ -69,6 +80,15 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix the tables of normal, dev and build dependencies within a table.
+fn fix_dependency_tables(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for key in ["dependencies", "dev-dependencies", "build-dependencies"] {
+        if let Some(dependencies) = table.get_mut(key) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From 4cd41c0968d167c3b6c24ee907a970e57ad2fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:43 +0000
Subject: [PATCH 10/10] fix: report negative or impossible times as errors
 rather than panicking

---
 src/options.rs | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 87821f4..3f376c6 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -15,6 +15,7 @@ use std::env;
 use std::ffi::OsString;
 use std::time::Duration;
 
+use anyhow::ensure;
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
 use regex::RegexSet;
@@ -235,11 +236,11 @@ impl Options {
             warn!("--no-copy-target is deprecated and has no effect; target/ is never copied");
         }
 
-        let minimum_test_timeout = Duration::from_secs_f64(
-            args.minimum_test_timeout
-                .or(config.minimum_test_timeout)
-                .unwrap_or(20f64),
-        );
+        let minimum_test_timeout = duration_option(
+            "minimum_test_timeout",
+            args.minimum_test_timeout.or(config.minimum_test_timeout),
+        )?
+        .unwrap_or(Duration::from_secs(20));
 
         // If either command line argument is set, it overrides the config.
         let test_package = if args.test_workspace == Some(true) {
@@ -282,10 +283,12 @@ impl Options {
                 &config.additional_cargo_test_args,
             ),
             baseline: args.baseline,
-            build_timeout: args.build_timeout.map(Duration::from_secs_f64),
-            build_timeout_multiplier: args
-                .build_timeout_multiplier
-                .or(config.build_timeout_multiplier),
+            build_timeout: duration_option("build_timeout", args.build_timeout)?,
+            build_timeout_multiplier: multiplier_option(
+                "build_timeout_multiplier",
+                args.build_timeout_multiplier
+                    .or(config.build_timeout_multiplier),
+            )?,
             cap_lints: args.cap_lints.unwrap_or(config.cap_lints),
             check_only: args.check,
             colors: args.colors,
@@ -317,8 +320,11 @@ impl Options {
             show_all_logs: args.all_logs,
             skip_calls,
             test_package,
-            test_timeout: args.timeout.map(Duration::from_secs_f64),
-            test_timeout_multiplier: args.timeout_multiplier.or(config.timeout_multiplier),
+            test_timeout: duration_option("timeout", args.timeout)?,
+            test_timeout_multiplier: multiplier_option(
+                "timeout_multiplier",
+                args.timeout_multiplier.or(config.timeout_multiplier),
+            )?,
             test_tool: args.test_tool.or(config.test_tool).unwrap_or_default(),
         };
         if let Some(jobs) = options.jobs {
@@ -398,6 +404,23 @@ impl Options {
     }
 }
 
+/// Convert an option in seconds to a duration, if it is a possible duration.
+fn duration_option(name: &str, seconds: Option<f64>) -> Result<Option<Duration>> {
+    seconds
+        .map(|s| {
+            Duration::try_from_secs_f64(s).with_context(|| format!("Invalid value {s} for {name}"))
+        })
+        .transpose()
+}
+
+/// Check that the multiplier of a duration makes sense.
+fn multiplier_option(name: &str, multiplier: Option<f64>) -> Result<Option<f64>> {
+    if let Some(m) = multiplier {
+        ensure!(m.is_finite() && m >= 0.0, "Invalid value {m} for {name}");
+    }
+    Ok(multiplier)
+}
+
 /// If the first slices is non-empty, return that, otherwise the second.
 fn or_slices<'a: 'c, 'b: 'c, 'c, T>(a: &'a [T], b: &'b [T]) -> &'c [T] {
     if a.is_empty() {
-- 
2.43.0


From 5fe66260a72c999df03171a75de52e8a7a818a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 01/13] fix: exit with 1 when errors were reported but no file
 could be scanned

---
 crates/ludtwig/src/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..69a8c6f 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,8 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    // also without any scanned file, e.g. if the given path doesn't exist
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From f730b1333698a7d9bb4c6b3360207d14facbf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:19 +0000
Subject: [PATCH 02/13] fix: create-config never overwrites an existing
 configuration file

---
 crates/ludtwig/src/config.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..608d145 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -1,5 +1,7 @@
 use std::env;
 use std::fmt::{Display, Formatter};
+use std::fs::File;
+use std::io::{self, Write};
 use std::path::{Path, PathBuf};
 
 use figment::Figment;
@@ -167,17 +169,29 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
         .unwrap_or_else(|| PathBuf::from(DEFAULT_CONFIG_PATH));
 
     if opts.create_config {
-        if Path::exists(config_path.as_ref()) {
-            eprintln!(
-                "The configuration file already exists at the location {}. \
+        let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
+        // only ever create a new file, so an existing one can't be overwritten (not even if it
+        // couldn't be inspected or just appeared)
+        let result = File::create_new(&config_path)
+            .and_then(|mut file| file.write_all(config_raw.as_bytes()));
+        match result {
+            Ok(()) => {}
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
+                eprintln!(
+                    "The configuration file already exists at the location {}. \
             Try choosing a different location with '-c my-path' or make a backup of your current config file (rename it).",
-                config_path.display()
-            );
-            std::process::exit(1);
+                    config_path.display()
+                );
+                std::process::exit(1);
+            }
+            Err(e) => {
+                eprintln!(
+                    "Error: can't write default config to {}: {e}",
+                    config_path.display()
+                );
+                std::process::exit(1);
+            }
         }
-
-        let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
-        std::fs::write(&config_path, config_raw).expect("can't write default config");
         println!(
             "Default config was written to {}",
             config_path.to_string_lossy()
-- 
2.43.0


From 866ec120cb7d75a0b9a65e92d903717f6ca99270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 03/13] fix: report a configuration file that can't be
 inspected or read instead of using other settings

---
 crates/ludtwig/src/config.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 608d145..2c26fcb 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -143,13 +143,21 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
+        let path = path.as_ref();
+        let user_config = match path.try_exists() {
+            // not at this path, but relative ones might be found in a parent directory
+            Ok(false) => Toml::file(path),
+            // it exists or can't be inspected, so it must be usable and isn't silently ignored
+            Ok(true) | Err(_) => Toml::file_exact(path),
+        };
+
         let config: Config = Figment::new()
             // first read the raw config from memory (for default values)
             .merge(Toml::string(
                 &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
             ))
             // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
+            .merge(user_config)
             // last read from the environment
             .merge(
                 Env::prefixed("LUDTWIG_")
-- 
2.43.0


From 8293a3db161fda735e5c9cca9fa75583233b1043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 04/13] fix: replace the content of fixed files atomically

---
 crates/ludtwig/src/process.rs | 67 +++++++++++++++++++++++++++++++++--
 1 file changed, 64 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..40fe647 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,6 +1,8 @@
 use std::collections::HashSet;
-use std::fs;
-use std::path::PathBuf;
+use std::fs::{self, File, OpenOptions};
+use std::io::{self, Write};
+use std::path::{Path, PathBuf};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use codespan_reporting::term::termcolor::{BufferWriter, ColorChoice};
 
@@ -84,7 +86,7 @@ fn run_analysis(
         let (file_context, rule_result_context, dirty, iterations) =
             iteratively_apply_suggestions(file_context, rule_result_context)?;
         if dirty {
-            match fs::write(&file_context.file_path, &file_context.source_code) {
+            match replace_file_content(&file_context.file_path, &file_context.source_code) {
                 Ok(()) => {}
                 Err(e) => {
                     return Err(FileProcessingError::FileWrite {
@@ -114,6 +116,65 @@ fn run_analysis(
     Ok(())
 }
 
+/// Replace the content of an existing file, either completely or not at all (atomically).
+/// So the original content isn't lost if writing fails or the program is stopped in between and
+/// nobody else ever sees partial content.
+fn replace_file_content(path: &Path, content: &str) -> io::Result<()> {
+    // the file itself should be replaced, not symbolic links to it
+    let path = fs::canonicalize(path)?;
+
+    // opened only to respect write protection
+    let mut original = OpenOptions::new().write(true).open(&path)?;
+    let metadata = original.metadata()?;
+    if !metadata.is_file() {
+        return original.write_all(content.as_bytes());
+    }
+    drop(original);
+
+    let (temp_path, mut temp_file) = create_temp_file_next_to(&path)?;
+    keep_ownership(&metadata, &temp_file);
+    let result = temp_file
+        .set_permissions(metadata.permissions())
+        .and_then(|()| temp_file.write_all(content.as_bytes()))
+        .and_then(|()| temp_file.sync_all())
+        .and_then(|()| fs::rename(&temp_path, &path));
+    if result.is_err() {
+        let _ = fs::remove_file(&temp_path);
+    }
+    result
+}
+
+/// Create a new file in the same directory, which is never picked up as a template.
+fn create_temp_file_next_to(path: &Path) -> io::Result<(PathBuf, File)> {
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    loop {
+        let temp_path = path.with_file_name(format!(
+            ".ludtwig-{}-{}.tmp",
+            std::process::id(),
+            COUNTER.fetch_add(1, Ordering::Relaxed)
+        ));
+        match File::create_new(&temp_path) {
+            Ok(file) => return Ok((temp_path, file)),
+            // left behind by a stopped run
+            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {}
+            Err(e) => return Err(e),
+        }
+    }
+}
+
+/// Keep owner and group as far as possible.
+#[cfg(unix)]
+fn keep_ownership(metadata: &fs::Metadata, file: &File) {
+    use std::os::unix::fs::{MetadataExt, fchown};
+
+    let _ = fchown(file, None, Some(metadata.gid()));
+    let _ = fchown(file, Some(metadata.uid()), None);
+}
+
+#[cfg(not(unix))]
+fn keep_ownership(_metadata: &fs::Metadata, _file: &File) {}
+
 pub fn iteratively_apply_suggestions(
     file_context: FileContext,
     check_results: Vec<CheckResult>,
-- 
2.43.0


From d46e7badf9fb2e839fbd100cf66045c6294974fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:50 +0000
Subject: [PATCH 05/13] fix: don't panic inside the directory walker, it would
 never end

---
 crates/ludtwig/src/main.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..98d2f97 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -179,9 +179,13 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
                 let entry = match entry {
                     Ok(e) => e,
                     Err(e) => {
-                        eprintln!("Error: walking over the file path: {e}");
-                        cli_context
-                            .send_processing_output(ProcessingEvent::Report(Severity::Error));
+                        // reported from the thread pool, because a panic in here (stderr might be
+                        // closed) would leave the other walker threads waiting forever
+                        let clone = cli_context.clone();
+                        s.spawn(move |_s1| {
+                            eprintln!("Error: walking over the file path: {e}");
+                            clone.send_processing_output(ProcessingEvent::Report(Severity::Error));
+                        });
                         return WalkState::Continue;
                     }
                 };
-- 
2.43.0


From fe37f99c03883aff9e3133d393b6a86535c6f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 06/13] fix: report unreadable ignore files instead of passing
 over them silently

---
 crates/ludtwig/src/main.rs | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 98d2f97..fa770ab 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -17,7 +17,7 @@ use ignore::{WalkBuilder, WalkState};
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
 use std::sync::{Arc, mpsc};
-use std::thread;
+use std::{fs, io, thread};
 
 mod check;
 mod config;
@@ -141,6 +141,24 @@ fn app(opts: Opts, config: Config) -> i32 {
         .expect("Error: can't join output_handler thread")
 }
 
+/// Every ignore file of a directory must either not exist or be readable.
+fn check_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io::Error)> {
+    for name in [".ludtwig-ignore", ".ignore", ".gitignore"] {
+        let path = directory.join(name);
+        match fs::read_to_string(&path) {
+            Ok(_) => {}
+            Err(e)
+                if matches!(
+                    e.kind(),
+                    io::ErrorKind::NotFound | io::ErrorKind::IsADirectory
+                ) => {}
+            Err(e) => return Err((path, e)),
+        }
+    }
+
+    Ok(())
+}
+
 /// Process a directory path.
 fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     let types = TypesBuilder::new()
@@ -162,7 +180,7 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
 
     // maybe consider .ludtwig-ignore in cwd (current working directory) just like the ludtwig-config.toml
     let cwd_ignore_path = Path::new("./.ludtwig-ignore");
-    if cwd_ignore_path.exists() {
+    if !matches!(cwd_ignore_path.try_exists(), Ok(false)) {
         if let Some(e) = walker.add_ignore(cwd_ignore_path) {
             eprintln!("Error: can't use ./.ludtwig-ignore: {e}");
             std::process::exit(1);
@@ -192,6 +210,16 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
 
                 // filter out directories
                 if entry.file_type().is_none_or(|t| t.is_dir()) {
+                    // unreadable ignore files are skipped by the walker, but without knowing what is
+                    // ignored this directory can't be processed
+                    if let Err((path, e)) = check_ignore_files_are_readable(entry.path()) {
+                        let clone = cli_context.clone();
+                        s.spawn(move |_s1| {
+                            eprintln!("Error: ignore file {} can't be read: {e}", path.display());
+                            clone.send_processing_output(ProcessingEvent::Report(Severity::Error));
+                        });
+                        return WalkState::Skip;
+                    }
                     return WalkState::Continue;
                 }
 
-- 
2.43.0


From e07de1182b0461b8a58bf49a83d7221ab642dd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 07/13] fix: apply ignore files of parent directories correctly
 for several input directories

---
 crates/ludtwig/src/main.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index fa770ab..1bd5cfc 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -131,7 +131,7 @@ fn app(opts: Opts, config: Config) -> i32 {
     let output_handler = thread::spawn(move || output::handle_processing_output(&rx));
 
     // work on each user specified file / directory path concurrently
-    handle_input_paths(opts.files, cli_context.clone());
+    handle_input_paths(opts.files, &cli_context);
 
     drop(cli_context); // drop this tx channel
 
@@ -159,8 +159,23 @@ fn check_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io:
     Ok(())
 }
 
-/// Process a directory path.
-fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
+/// Process all user specified file / directory paths.
+fn handle_input_paths(paths: Vec<PathBuf>, cli_context: &CliContext) {
+    let (directories, files): (Vec<_>, Vec<_>) = paths.into_iter().partition(|p| p.is_dir());
+
+    if !files.is_empty() {
+        walk_input_paths(files, cli_context.clone());
+    }
+
+    // every directory gets its own walker, because a walker over several directories mixes up which
+    // of them the ignore files in their common parent directories are relative to
+    for directory in directories {
+        walk_input_paths(vec![directory], cli_context.clone());
+    }
+}
+
+/// Process file paths or a directory path.
+fn walk_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
     let types = TypesBuilder::new()
         .add_defaults()
         .select("twig")
-- 
2.43.0


From 63cbc6c606bf17bd333025b8286f9f960f5734c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:19 +0000
Subject: [PATCH 08/13] fix: report unreadable ignore files of parent
 directories as well

---
 crates/ludtwig/src/main.rs | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 1bd5cfc..05962b9 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -143,14 +143,29 @@ fn app(opts: Opts, config: Config) -> i32 {
 
 /// Every ignore file of a directory must either not exist or be readable.
 fn check_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io::Error)> {
-    for name in [".ludtwig-ignore", ".ignore", ".gitignore"] {
+    // decide whether the .gitignore files are used
+    for name in [".git", ".jj"] {
+        let path = directory.join(name);
+        if let Err(e) = path.try_exists() {
+            return Err((path, e));
+        }
+    }
+
+    for name in [
+        ".ludtwig-ignore",
+        ".ignore",
+        ".gitignore",
+        ".git/info/exclude",
+    ] {
         let path = directory.join(name);
         match fs::read_to_string(&path) {
             Ok(_) => {}
             Err(e)
                 if matches!(
                     e.kind(),
-                    io::ErrorKind::NotFound | io::ErrorKind::IsADirectory
+                    io::ErrorKind::NotFound
+                        | io::ErrorKind::IsADirectory
+                        | io::ErrorKind::NotADirectory
                 ) => {}
             Err(e) => return Err((path, e)),
         }
@@ -159,6 +174,16 @@ fn check_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io:
     Ok(())
 }
 
+/// The ignore files of parent directories are used as well.
+fn check_parent_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io::Error)> {
+    let directory = fs::canonicalize(directory).map_err(|e| (directory.to_path_buf(), e))?;
+
+    directory
+        .ancestors()
+        .skip(1)
+        .try_for_each(check_ignore_files_are_readable)
+}
+
 /// Process all user specified file / directory paths.
 fn handle_input_paths(paths: Vec<PathBuf>, cli_context: &CliContext) {
     let (directories, files): (Vec<_>, Vec<_>) = paths.into_iter().partition(|p| p.is_dir());
@@ -170,6 +195,12 @@ fn handle_input_paths(paths: Vec<PathBuf>, cli_context: &CliContext) {
     // every directory gets its own walker, because a walker over several directories mixes up which
     // of them the ignore files in their common parent directories are relative to
     for directory in directories {
+        if let Err((path, e)) = check_parent_ignore_files_are_readable(&directory) {
+            eprintln!("Error: ignore file {} can't be read: {e}", path.display());
+            cli_context.send_processing_output(ProcessingEvent::Report(Severity::Error));
+            continue;
+        }
+
         walk_input_paths(vec![directory], cli_context.clone());
     }
 }
-- 
2.43.0


From b6d9646577a820ddc0b066d4a2c25eae085e28d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:05 +0000
Subject: [PATCH 09/13] fix: report ignore files that can't be inspected as
 well

---
 crates/ludtwig/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index 05962b9..581deb6 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -158,7 +158,7 @@ fn check_ignore_files_are_readable(directory: &Path) -> Result<(), (PathBuf, io:
         ".git/info/exclude",
     ] {
         let path = directory.join(name);
-        match fs::read_to_string(&path) {
+        match fs::metadata(&path).and_then(|_| fs::read_to_string(&path)) {
             Ok(_) => {}
             Err(e)
                 if matches!(
-- 
2.43.0


From cf42548d67154dfddfc64fbe0ff2bf37a8e810f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 10/13] fix: report a configuration file of a parent directory
 that can't be inspected as well

---
 crates/ludtwig/src/config.rs | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 2c26fcb..4499508 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -143,12 +143,9 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let path = path.as_ref();
-        let user_config = match path.try_exists() {
-            // not at this path, but relative ones might be found in a parent directory
-            Ok(false) => Toml::file(path),
-            // it exists or can't be inspected, so it must be usable and isn't silently ignored
-            Ok(true) | Err(_) => Toml::file_exact(path),
+        let user_config = match find_config_file(path.as_ref()) {
+            Some(path) => Toml::file_exact(path),
+            None => Toml::string(""),
         };
 
         let config: Config = Figment::new()
@@ -170,6 +167,28 @@ impl Config {
     }
 }
 
+/// Find the config file at this path or (if it is relative) in one of the parent directories.
+/// Everything that exists or can't be inspected is returned, because it isn't silently ignored and
+/// so must be usable.
+fn find_config_file(path: &Path) -> Option<PathBuf> {
+    if !matches!(path.try_exists(), Ok(false)) {
+        return Some(path.to_path_buf());
+    }
+
+    env::current_dir()
+        .ok()?
+        .ancestors()
+        .skip(1)
+        .map(|directory| directory.join(path))
+        .find(|path| match path.metadata() {
+            Ok(metadata) => metadata.is_file(),
+            Err(e) => !matches!(
+                e.kind(),
+                io::ErrorKind::NotFound | io::ErrorKind::NotADirectory
+            ),
+        })
+}
+
 pub fn handle_config_or_exit(opts: &Opts) -> Config {
     let config_path = opts
         .config_path
-- 
2.43.0


From b956ec6316211dfeb139757c02bab0eb9f5cf3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 11/13] fix: don't panic on an incomplete twig tag at the end
 of raw text

---
 crates/ludtwig-parser/src/grammar/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..bb629e0 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,7 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +135,7 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && !p.at_end() {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From b1e11852741c995ead6862f6b7a3db172e5fd1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:40 +0000
Subject: [PATCH 12/13] fix: don't panic on an incomplete arrow function at the
 end of a template

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..3e3dce4 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -439,12 +439,10 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    // the arrow may be missing after an argument list in parentheses
+    parser.expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET);
 
     // parse closure expression
     if parse_twig_expression(parser).is_none() {
-- 
2.43.0


From 8ba304ceb8724c71d5d128d2b0a82ce577e3bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 13/13] fix: never apply overlapping suggestions of different
 rules in the same iteration

---
 crates/ludtwig/src/process.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 40fe647..a4d0684 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -191,13 +191,15 @@ pub fn iteratively_apply_suggestions(
         }
 
         // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
+        suggestions.sort_by_key(|(_, sug)| (sug.syntax_range.start(), sug.syntax_range.end()));
 
         // filter out overlapping suggestions
         let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
+        // the one before which isn't filtered out, it may overlap with more than the next one
+        let mut previous = &suggestions[0];
+        for current in &suggestions[1..] {
+            let (rule_a, sug_a) = previous;
+            let (rule_b, sug_b) = current;
             if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
                 if rule_a == rule_b {
                     return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
@@ -206,6 +208,8 @@ pub fn iteratively_apply_suggestions(
                 }
 
                 overlapping_rules.insert(*rule_b);
+            } else {
+                previous = current;
             }
         }
         let suggestions = suggestions
-- 
2.43.0


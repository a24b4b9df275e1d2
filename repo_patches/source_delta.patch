From ac35f734ead14f6b1d4a8e07da214230500357a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 01/13] fix: report errors met while listing or scanning a
 folder

read_dir entries that failed were dropped, so a listing cut short by an
I/O error looked like a complete, shorter one.
---
 src/funcs/folder.rs    | 13 +++++++------
 src/funcs/free_file.rs | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..8797734 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -20,8 +20,8 @@ pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
-    for r in std::fs::read_dir(p)?.filter_map(|s| s.ok()) {
-        let p = r.path();
+    for r in std::fs::read_dir(p)? {
+        let p = r?.path();
         let fname = p.file_name().e_str("No filename")?;
         let fname = fname.to_str().e_str("Not OS String")?;
         res.push(TData::String(String::from(fname)));
@@ -140,10 +140,11 @@ fn do_scan_dir(
     res_list: &mut Vec<TData>,
     reg: Option<&regex::Regex>,
 ) -> anyhow::Result<()> {
-    for item in std::fs::read_dir(full)?
-        .filter_map(|s| s.ok())
-        .filter(|v| !v.file_name().to_string_lossy().starts_with("_"))
-    {
+    for item in std::fs::read_dir(full)? {
+        let item = item?;
+        if item.file_name().to_string_lossy().starts_with("_") {
+            continue;
+        }
         let ftype = item.file_type()?;
         if ftype.is_file() {
             let mut idata = HashMap::new();
diff --git a/src/funcs/free_file.rs b/src/funcs/free_file.rs
index f0ee71e..3b64b3a 100644
--- a/src/funcs/free_file.rs
+++ b/src/funcs/free_file.rs
@@ -12,8 +12,8 @@ use tparam::*;
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
-    for r in std::fs::read_dir(p)?.filter_map(|s| s.ok()) {
-        let p = r.path();
+    for r in std::fs::read_dir(p)? {
+        let p = r?.path();
         let fname = p.file_name().e_str("No filename")?;
         let fname = fname.to_str().e_str("Not OS String")?;
         res.push(TData::String(String::from(fname)));
@@ -118,10 +118,11 @@ fn do_scan_dir(
     res_list: &mut Vec<TData>,
     reg: Option<&regex::Regex>,
 ) -> anyhow::Result<()> {
-    for item in std::fs::read_dir(full)?
-        .filter_map(|s| s.ok())
-        .filter(|v| !v.file_name().to_string_lossy().starts_with("_"))
-    {
+    for item in std::fs::read_dir(full)? {
+        let item = item?;
+        if item.file_name().to_string_lossy().starts_with("_") {
+            continue;
+        }
         let ftype = item.file_type()?;
         if ftype.is_file() {
             let mut idata = HashMap::new();
-- 
2.43.0


From 3a2642ce56bf2b636473fd6b1088acac67884dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:44 +0000
Subject: [PATCH 02/13] fix: scan_dir ignores the part of a file read before an
 error

A read error in the middle of a file left the part already read in the
buffer, and its front matter was reported as the file's.
---
 src/funcs/folder.rs    | 4 +++-
 src/funcs/free_file.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 8797734..742833b 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -170,7 +170,9 @@ fn do_scan_dir(
                 Ok(r) => r,
                 Err(_) => continue,
             };
-            f.read_to_string(&mut s).ok();
+            if f.read_to_string(&mut s).is_err() {
+                s.clear();
+            }
             if let Ok(tree) = TreeTemplate::from_str(&s) {
                 let ex = tree.front_matter(fm);
                 for (k, v) in ex {
diff --git a/src/funcs/free_file.rs b/src/funcs/free_file.rs
index 3b64b3a..60b0647 100644
--- a/src/funcs/free_file.rs
+++ b/src/funcs/free_file.rs
@@ -148,7 +148,9 @@ fn do_scan_dir(
                 Ok(r) => r,
                 Err(_) => continue,
             };
-            f.read_to_string(&mut s).ok();
+            if f.read_to_string(&mut s).is_err() {
+                s.clear();
+            }
             if let Ok(tree) = TreeTemplate::from_str(&s) {
                 let ex = tree.front_matter(fm);
                 for (k, v) in ex {
-- 
2.43.0


From 29a21077635ee9fea8531a704060d91d5ef627a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 03/13] fix: diagnostics no longer panic when a standard stream
 fails

println! and eprintln! panic if the stream is closed, full or broken, which
took the whole render down. Errors of the diagnostic output are ignored.
---
 src/funcs/folder.rs    | 4 ++--
 src/funcs/free_file.rs | 2 +-
 src/funcs/strings.rs   | 4 +++-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 742833b..bf237eb 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -4,7 +4,7 @@ use err_tools::*;
 use func_man::*;
 use image::GenericImageView;
 use std::collections::HashMap;
-use std::io::Read;
+use std::io::{Read, Write};
 use std::ops::Deref;
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
@@ -151,7 +151,7 @@ fn do_scan_dir(
             let full_path = item.path().display().to_string();
             if let Some(rv) = reg.clone() {
                 if !rv.is_match(&full_path) {
-                    println!("Regex No Match '{}'", full_path);
+                    writeln!(std::io::stdout(), "Regex No Match '{}'", full_path).ok();
                     continue;
                 }
             }
diff --git a/src/funcs/free_file.rs b/src/funcs/free_file.rs
index 60b0647..b716b81 100644
--- a/src/funcs/free_file.rs
+++ b/src/funcs/free_file.rs
@@ -129,7 +129,7 @@ fn do_scan_dir(
             let full_path = item.path().display().to_string();
             if let Some(rv) = reg.clone() {
                 if !rv.is_match(&full_path) {
-                    println!("Regex No Match '{}'", full_path);
+                    writeln!(std::io::stdout(), "Regex No Match '{}'", full_path).ok();
                     continue;
                 }
             }
diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..01a74bf 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::io::Write;
 use std::ops::Deref;
 use tparam::*;
 
@@ -188,7 +189,8 @@ pub fn word_wrap<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
 pub fn debug<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     for a in l {
-        eprintln!("{}", a);
+        //Diagnostics must not fail the render when stderr is closed or full
+        writeln!(std::io::stderr(), "{}", a).ok();
     }
     b_ok(TData::String(String::new()))
 }
-- 
2.43.0


From 4ebfc3f1e58e571229a4f89a00ff67ab3afa28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 04/13] fix: keep folder locked functions inside their folder

safe_path compared the joined path with the folder by its leading
components only, so ".." led out of the folder, as did any absolute path
when the folder was given as "". Parent components are now resolved by name
and a path that climbs out is refused.
---
 src/funcs/folder.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index bf237eb..c53d9ae 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,38 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::{Read, Write};
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
+    //What is asked for within the folder, None if the path is absolute and elsewhere
+    let rel = pres.strip_prefix(p).ok()?;
+    if rel.components().all(|c| match c {
+        Component::Normal(_) | Component::CurDir => true,
+        _ => false,
+    }) {
         return Some(pres);
     }
-    None
+    //Resolve ".." by name, it must not climb out of the folder
+    let mut inner = PathBuf::new();
+    for c in rel.components() {
+        match c {
+            Component::Normal(n) => inner.push(n),
+            Component::CurDir => {}
+            Component::ParentDir => {
+                if !inner.pop() {
+                    return None;
+                }
+            }
+            _ => return None,
+        }
+    }
+    if inner.as_os_str().is_empty() {
+        inner.push(".");
+    }
+    Some(p.join(inner))
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From 5c2b49a8b78fd674d40194bcbac461852a9fe43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 05/13] fix: an 'as' block that does not match closes its scope

Names bound after it, and captures of the failed pattern, ended up in a
scope that was never closed, so they leaked out of or were lost from the
enclosing block, and later exports and lets were misplaced.
---
 src/template.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..f23b354 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,14 +262,15 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
-                if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
-                    scope.pop();
-                    return Ok(r);
-                }
-                return Ok(String::new());
+                scope.push();
+                let r = if pat.match_data(&val, scope, tm, fm) {
+                    run_block(block, scope, tm, fm)
+                } else {
+                    Ok(String::new())
+                };
+                scope.pop();
+                return r;
             }
         }
     }
-- 
2.43.0


From 6d9bb6b48490c650fd4ec29b7ec016dd4e6da41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 06/13] fix: a failing export block leaves nothing behind in
 the front matter

front_matter goes on after a failing @export block, but the block's scope
stayed open and what it had exported was kept, so later exports saw names
that are not theirs.
---
 src/scope.rs    |  7 +++++++
 src/template.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 3a6b919..bdb7178 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -65,6 +65,13 @@ impl<'a> Scope<'a> {
         self.maps[0].insert(k.into(), v);
     }
 
+    pub fn save(&self) -> Vec<HashMap<String, TData>> {
+        self.maps.clone()
+    }
+    pub fn restore(&mut self, maps: Vec<HashMap<String, TData>>) {
+        self.maps = maps;
+    }
+
     pub fn push(&mut self) {
         self.maps.push(HashMap::new());
     }
diff --git a/src/template.rs b/src/template.rs
index f23b354..11612c8 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -99,7 +99,13 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     let mut res = String::new();
     scope.push();
     for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
+        match item.run(scope, tm, fm) {
+            Ok(s) => res.push_str(&s),
+            Err(e) => {
+                scope.pop();
+                return Err(e);
+            }
+        }
     }
     scope.pop();
     Ok(res)
@@ -308,9 +314,10 @@ impl TreeTemplate {
         while let Some(item) = it.next() {
             match item {
                 TreeItem::AtExport(name, block) => {
+                    let before = scope.save();
                     match run_block(block, &mut scope, &mut NoTemplates, fm) {
                         Ok(val) => scope.set_root(name, TData::String(val)),
-                        Err(_) => {}
+                        Err(_) => scope.restore(before),
                     }
                 }
                 TreeItem::Export(vec) => {
-- 
2.43.0


From d7cc6d0a40baa66602075a892e770ffa7492c9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:40 +0000
Subject: [PATCH 07/13] fix: 'run' without a template value neither panics nor
 evaluates twice

Without arguments it panicked, and with a first argument that is not a
template every argument was evaluated a second time for the ordinary call.
---
 src/expr.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..773fcf6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -66,13 +66,13 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         for p in args {
             tds.push(p.run(scope, tm, fm)?);
         }
-        //Convert TParams to pointers to call the Template
-        let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
-            v.push(p);
-        }
         if let Some(tp) = tds.get(0) {
             if let TData::Template(t) = tp.deref() {
+                //Convert TParams to pointers to call the Template
+                let mut v: Vec<&dyn TParam> = Vec::new();
+                for p in &tds[1..] {
+                    v.push(p);
+                }
                 let (s, mut mp) = t.run_exp(&v, tm, fm)?;
                 if let Some(v) = mp.remove("return") {
                     return Ok(TCow::Owned(v));
@@ -80,6 +80,8 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        //Not a template value : an ordinary call, the arguments are already evaluated
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From dfd875fe5284f960f151e81952ef265a2d975784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 08/13] fix: 'select' with an index one past the values is an
 error, not a panic

---
 src/expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.rs b/src/expr.rs
index 773fcf6..1a67f55 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -106,7 +106,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 39828e4cf117f3e327d43b9d90abbe4a0e15ab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:53 +0000
Subject: [PATCH 09/13] fix: loop over, print and serialise maps in key order,
 not in hash order

---
 src/tdata.rs    | 33 +++++++++++++++++++++++++++++----
 src/template.rs |  5 +++--
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..76e7ed1 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -2,11 +2,11 @@ use crate::funcs::math;
 use gobble::traits::*;
 use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
 use std::cmp::Ordering;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::fmt;
 
 use crate::template::TreeTemplate;
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub enum TData {
     Bool(bool),
     String(String),
@@ -59,6 +59,31 @@ impl PartialEq for TData {
         }
     }
 }
+
+/// HashMap order is random, so anything that shows a map goes by key order
+fn by_key(m: &HashMap<String, TData>) -> BTreeMap<&String, &TData> {
+    m.iter().collect()
+}
+
+impl fmt::Debug for TData {
+    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
+        use TData::*;
+        match self {
+            Bool(v) => f.debug_tuple("Bool").field(v).finish(),
+            String(v) => f.debug_tuple("String").field(v).finish(),
+            Int(v) => f.debug_tuple("Int").field(v).finish(),
+            UInt(v) => f.debug_tuple("UInt").field(v).finish(),
+            Float(v) => f.debug_tuple("Float").field(v).finish(),
+            List(v) => f.debug_tuple("List").field(v).finish(),
+            Map(v) => f.debug_tuple("Map").field(&by_key(v)).finish(),
+            Template(v) => f.debug_tuple("Template").field(v).finish(),
+            Null => f.write_str("Null"),
+            Date(v) => f.debug_tuple("Date").field(v).finish(),
+            Bytes(v) => f.debug_tuple("Bytes").field(v).finish(),
+        }
+    }
+}
+
 impl fmt::Display for TData {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         use TData::*;
@@ -77,7 +102,7 @@ impl fmt::Display for TData {
                 }
                 write!(f, "]")
             }
-            Map(m) => write!(f, "{:?}", m),
+            Map(m) => write!(f, "{:?}", by_key(m)),
             Null => write!(f, "NULL"),
             Template(_t) => write!(f, "TEMPLATE"),
             Date(d) => write!(f, "{}", d.format("%d/%m/%Y")),
@@ -106,7 +131,7 @@ impl Serialize for TData {
             }
             TData::Map(m) => {
                 let mut map = ss.serialize_map(Some(m.len()))?;
-                for (k, v) in m {
+                for (k, v) in by_key(m) {
                     map.serialize_entry(k, v)?;
                 }
                 map.end()
diff --git a/src/template.rs b/src/template.rs
index 11612c8..193f417 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -5,7 +5,7 @@ use func_man::FuncManager;
 use gobble::Parser;
 use parse::template::TFile;
 use scope::Scope;
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 use std::io::Read;
 use std::path::Path;
 use std::str::FromStr;
@@ -162,7 +162,8 @@ impl TreeItem {
                 let mut res = String::new();
                 match looper {
                     TData::Map(m) => {
-                        for (mapk, mapv) in m {
+                        //HashMap order is random, so loop in key order
+                        for (mapk, mapv) in m.into_iter().collect::<BTreeMap<_, _>>() {
                             scope.set(k, TData::String(mapk.to_string()));
                             scope.set(v, mapv.clone());
                             res.push_str(&run_block(&b, scope, tm, fm)?);
-- 
2.43.0


From 92c7786db435a7b4dc7dd3efb57aed2424b1908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 10/13] fix: piping text into a command no longer deadlocks or
 fails when it stops reading

---
 src/funcs/exec.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/funcs/exec.rs b/src/funcs/exec.rs
index 3366e27..c05e330 100644
--- a/src/funcs/exec.rs
+++ b/src/funcs/exec.rs
@@ -1,6 +1,6 @@
 use crate::*;
 use err_tools::*;
-use std::io::Write;
+use std::io::{ErrorKind, Write};
 use std::process::{Command, Stdio};
 use tparam::*;
 
@@ -20,19 +20,36 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         e_str("Must have something to exec and an arg for stdin")?;
     }
 
+    let text = args[1].to_string();
     let mut c = Command::new(args[0].to_string())
         .args(args[2..].into_iter().map(|v| v.to_string()))
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()?;
-    match c.stdin {
-        Some(ref mut i) => {
-            write!(i, "{}", args[1])?;
-            i.flush()?;
+    //Feed the input while the output is being read, if both pipes fill up neither side could go on
+    let mut cin = c.stdin.take();
+    let feed = std::thread::Builder::new().spawn(move || match cin {
+        Some(ref mut i) => i.write_all(text.as_bytes()),
+        None => Ok(()),
+    });
+    let feed = match feed {
+        Ok(f) => f,
+        Err(e) => {
+            c.kill().ok();
+            c.wait().ok();
+            return Err(e.into());
         }
-        None => return e_str("Stdin not available"),
+    };
+    let op = c.wait_with_output();
+    let fed = feed.join();
+    let op = op?;
+    match fed {
+        Ok(Ok(())) => {}
+        //The command is free to stop reading before the end
+        Ok(Err(e)) if e.kind() == ErrorKind::BrokenPipe => {}
+        Ok(Err(e)) => return Err(e.into()),
+        Err(_) => return e_str("Could not write to stdin"),
     }
-    let op = c.wait_with_output()?;
 
     b_ok(TData::String(String::from_utf8(op.stdout)?))
 }
-- 
2.43.0


From 9941b23260c318f99aee46259914ff05c639ea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:19 +0000
Subject: [PATCH 11/13] fix: a random draw from an empty or endless range is an
 error, not a panic

---
 src/funcs/random.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..f9cebe4 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -13,17 +13,22 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) if a < b => b_ok(TData::Int(rg.gen_range(a, b))),
+            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a < b && a.is_finite() && b.is_finite() => {
+                b_ok(TData::Float(rg.gen_range(a, b)))
+            }
+            //Covers empty and endless ranges
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
-        TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
+        TData::Int(n) if *n > 0 => b_ok(TData::Int(rg.gen_range(0, n))),
+        TData::UInt(n) if *n > 0 => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Float(n) if *n > 0. && n.is_finite() => {
+            b_ok(TData::Float(rg.gen_range(0., n)))
+        }
         TData::List(l) => {
             if l.len() == 0 {
                 e_str("Could not select random from empty list")
-- 
2.43.0


From e4e51291fcd400f86d75f3229d421981b4ad1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 12/13] fix: locked image dimensions go by what the file holds,
 not by its name

---
 src/funcs/folder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index c53d9ae..2eb0d81 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -127,7 +127,10 @@ pub fn file_img_dimensions(pb: PathBuf) -> Box<TFunc> {
     Box::new(move |l| {
         if let TData::String(d) = l.get(0).e_str("file_img_dimensions needs path")?.deref() {
             let sp = safe_path(&pb, &d.to_string()).e_str("Broken File path")?;
-            let img = image::open(sp)?;
+            //What the file holds counts, not what it is called
+            let img = image::io::Reader::open(sp)?
+                .with_guessed_format()?
+                .decode()?;
             let mut map = HashMap::new();
             map.insert("w".to_string(), TData::UInt(img.width() as usize));
             map.insert("h".to_string(), TData::UInt(img.height() as usize));
-- 
2.43.0


From 58c16253e208263373ae9882eb1125f963110e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 13/13] fix: free image dimensions of a bitmap stored from the
 top down

---
 src/funcs/free_file.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/funcs/free_file.rs b/src/funcs/free_file.rs
index b716b81..57e26b1 100644
--- a/src/funcs/free_file.rs
+++ b/src/funcs/free_file.rs
@@ -83,7 +83,9 @@ pub fn file_img_dimensions<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         let img = imagesize::size(d.to_string())?;
         let mut map = HashMap::new();
         map.insert("w".to_string(), TData::UInt(img.width));
-        map.insert("h".to_string(), TData::UInt(img.height));
+        //A bitmap stored from the top down has its height as a negative number
+        let h = (img.height as u32 as i32).unsigned_abs();
+        map.insert("h".to_string(), TData::UInt(h as usize));
         return b_ok(TData::Map(map));
     }
     e_str("file_img_dimensions path should be string")
-- 
2.43.0


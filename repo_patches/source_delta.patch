From b7769b58ff06dcad6b4f13382cab346e6b6e3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 1/4] fix: report exact size bounds from the category set
 iterator

Iter implements ExactSizeIterator but kept the default size_hint of (0, None),
so adaptors that rely on the contract panic, e.g. set.iter().peekable().len().
---
 crates/unicode-intervals/src/categories.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/unicode-intervals/src/categories.rs b/crates/unicode-intervals/src/categories.rs
index feac6d0..48555ca 100644
--- a/crates/unicode-intervals/src/categories.rs
+++ b/crates/unicode-intervals/src/categories.rs
@@ -498,6 +498,13 @@ impl Iterator for Iter {
         self.data.unset(index);
         Some(category)
     }
+
+    // `ExactSizeIterator` requires exact bounds
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.data.len();
+        (len, Some(len))
+    }
 }
 
 impl ExactSizeIterator for Iter {
-- 
2.43.0


From 4204e509202e54bbb36c2f24712178a361b5dd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:18 +0000
Subject: [PATCH 2/4] fix: accept any iterable of category names in the Python
 binding

The type stub declares Iterable[str], but sets, generators and dict views
were rejected with TypeError because extraction required a Sequence.
---
 crates/unicode-intervals-py/src/lib.rs | 36 +++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index a5d00ee..3559509 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -1,4 +1,9 @@
-use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
+use pyo3::{
+    exceptions::{PyTypeError, PyValueError},
+    prelude::*,
+    types::{PyString, PyTuple},
+    wrap_pyfunction,
+};
 use std::sync::OnceLock;
 use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};
 
@@ -90,10 +95,27 @@ impl PyUnicodeVersion {
     }
 }
 
-fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>> {
+/// Category names from any iterable of strings, except for a string itself.
+struct CategoryNames(Vec<String>);
+
+impl<'py> FromPyObject<'_, 'py> for CategoryNames {
+    type Error = PyErr;
+
+    fn extract(obj: Borrowed<'_, 'py, PyAny>) -> PyResult<Self> {
+        if obj.is_instance_of::<PyString>() {
+            return Err(PyTypeError::new_err(
+                "expected an iterable of category names, got `str`",
+            ));
+        }
+        let names = obj.try_iter()?.map(|name| name?.extract::<String>());
+        Ok(CategoryNames(names.collect::<PyResult<_>>()?))
+    }
+}
+
+fn parse_categories(names: Option<CategoryNames>) -> PyResult<Option<UnicodeCategorySet>> {
     match names {
         None => Ok(None),
-        Some(list) => {
+        Some(CategoryNames(list)) => {
             let mut set = UnicodeCategorySet::new();
             for name in list {
                 let category: UnicodeCategory = name
@@ -118,8 +140,8 @@ fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCatego
 #[allow(clippy::too_many_arguments)]
 fn query(
     py: Python<'_>,
-    categories: Option<Vec<String>>,
-    exclude_categories: Option<Vec<String>>,
+    categories: Option<CategoryNames>,
+    exclude_categories: Option<CategoryNames>,
     min_codepoint: Option<u32>,
     max_codepoint: Option<u32>,
     include_characters: &str,
@@ -170,11 +192,11 @@ fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<
 #[pyo3(signature = (categories, version=None))]
 fn as_general_categories(
     py: Python<'_>,
-    categories: Vec<String>,
+    categories: CategoryNames,
     version: Option<PyUnicodeVersion>,
 ) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let expanded = unicode_intervals_core::as_general_categories(&categories, core_version)
+    let expanded = unicode_intervals_core::as_general_categories(&categories.0, core_version)
         .map_err(|e| PyValueError::new_err(e.to_string()))?;
     let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
     Ok(PyTuple::new(py, names)?.into())
-- 
2.43.0


From 4a9aaec93bc17622300ce713496128f22912d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 3/4] fix: pass the directory to ucd-generate without a shell

---
 generate_tables.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generate_tables.py b/generate_tables.py
index 94e6f5c..4fdc8f0 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -61,12 +61,13 @@ def transform_code(code: bytes) -> bytes:
 def ucd_generate(directory: str) -> bytes:
     result = subprocess.run(
         [
-            f"ucd-generate general-category {directory} "
+            "ucd-generate",
+            "general-category",
+            directory,
             # Exclude groups that include other groups
-            f"--exclude=Separator,Symbol,Cased_Letter,Letter,Mark,Number,Other,Punctuation",
+            "--exclude=Separator,Symbol,Cased_Letter,Letter,Mark,Number,Other,Punctuation",
         ],
         capture_output=True,
-        shell=True,
         check=True,
     )
     return result.stdout
-- 
2.43.0


From c3a3aa83633eeeafe069b4d4698d87ece664aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:12 +0000
Subject: [PATCH 4/4] fix: look for category names in the list of tables only

---
 generate_tables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generate_tables.py b/generate_tables.py
index 4fdc8f0..44afe80 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -53,7 +53,7 @@ def transform_code(code: bytes) -> bytes:
     )
     lines = code.splitlines()
     for category in CATEGORIES:
-        idx = next((i for i, line in enumerate(lines) if category.encode() in line), None)
+        idx = next((i for i, line in enumerate(lines) if f"(\"{category}\", ".encode() in line), None)
         lines[idx] = lines[idx].replace(f"(\"{category}\", ".encode(), b"").replace(b"),", b",")
     return b"\n".join(lines)
 
-- 
2.43.0


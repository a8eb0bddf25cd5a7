From 9f499b053ed8e220ca7d2d7beb3b102323b40a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:15 +0000
Subject: [PATCH 1/3] fix: do not lex a lifetime's name as the prefix of a
 string literal
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'r"s" is the lifetime 'r followed by the string "s" in every edition, but
was parsed as an apostrophe followed by the raw string r"s" (likewise for
'b"", 'br"", 'c"" and 'cr""), rejecting some valid inputs such as
'b"é" and accepting invalid ones such as 'b"\xff".
---
 src/parse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parse.rs b/src/parse.rs
index 7de0a5c..de3ba5a 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -171,6 +171,7 @@ const ERROR: &str = "(/*ERROR*/)";
 pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
     let mut tokens = TokenStreamBuilder::new();
     let mut stack = Vec::new();
+    let mut in_lifetime = false;
 
     loop {
         input = skip_whitespace(input);
@@ -233,10 +234,20 @@ pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
             tokens = outer;
             tokens.push_token_from_parser(TokenTree::Group(crate::Group::_new_fallback(g)));
         } else {
-            let (rest, mut tt) = match leaf_token(input) {
+            let leaf = if in_lifetime {
+                // A lifetime's name is never the prefix of a literal, as in 'r"".
+                ident_any(input).map(|(rest, ident)| (rest, TokenTree::Ident(ident)))
+            } else {
+                leaf_token(input)
+            };
+            let (rest, mut tt) = match leaf {
                 Ok((rest, tt)) => (rest, tt),
                 Err(Reject) => return Err(lex_error(input)),
             };
+            in_lifetime = match &tt {
+                TokenTree::Punct(punct) => punct.as_char() == '\'',
+                _ => false,
+            };
             tt.set_span(crate::Span::_new_fallback(Span {
                 #[cfg(span_locations)]
                 lo,
-- 
2.43.0


From 247d58a1d31fa602261bfa3e5844dbf761500cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:33 +0000
Subject: [PATCH 2/3] fix: do not let a concurrent first use undo force()

Backend detection on first use loads, queries and stores without
synchronizing with force_fallback, so fallback::force() could return and
then be overwritten by a first use already in progress on another thread.
---
 src/detection.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/detection.rs b/src/detection.rs
index beba7b2..6c0bf77 100644
--- a/src/detection.rs
+++ b/src/detection.rs
@@ -16,6 +16,9 @@ pub(crate) fn inside_proc_macro() -> bool {
 }
 
 pub(crate) fn force_fallback() {
+    // Let any detection in progress on another thread finish first; it would
+    // otherwise overwrite the value stored here.
+    INIT.call_once(initialize);
     WORKS.store(1, Ordering::Relaxed);
 }
 
-- 
2.43.0


From f82f0601fb67505313604db5437d68cc4e0ed358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:52 +0000
Subject: [PATCH 3/3] fix: keep a leading #! when converting a self-contained
 stream to the compiler's

The compiler parses the printed text as a source file, where a leading `#!`
that is not followed by `[` begins a shebang line. A stream such as `#!7u8`
created under fallback::force() lost its first line on conversion to
proc_macro::TokenStream.
---
 src/fallback.rs | 3 ++-
 src/wrapper.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fallback.rs b/src/fallback.rs
index 61dc21d..8be6d61 100644
--- a/src/fallback.rs
+++ b/src/fallback.rs
@@ -262,7 +262,8 @@ impl From<proc_macro::TokenStream> for TokenStream {
 #[cfg(feature = "proc-macro")]
 impl From<TokenStream> for proc_macro::TokenStream {
     fn from(inner: TokenStream) -> Self {
-        proc_macro::TokenStream::from_str_unchecked(&inner.to_string())
+        // The space keeps the compiler from taking a leading `#!` for a shebang.
+        proc_macro::TokenStream::from_str_unchecked(&alloc::format!(" {}", inner))
     }
 }
 
diff --git a/src/wrapper.rs b/src/wrapper.rs
index 6043c16..66b4d59 100644
--- a/src/wrapper.rs
+++ b/src/wrapper.rs
@@ -149,7 +149,8 @@ impl From<TokenStream> for proc_macro::TokenStream {
         match inner {
             TokenStream::Compiler(inner) => inner.into_token_stream(),
             TokenStream::Fallback(inner) => {
-                proc_macro::TokenStream::from_str_unchecked(&inner.to_string())
+                // The space keeps the compiler from taking a leading `#!` for a shebang.
+                proc_macro::TokenStream::from_str_unchecked(&alloc::format!(" {}", inner))
             }
         }
     }
-- 
2.43.0


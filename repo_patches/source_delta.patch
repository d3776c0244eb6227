From 5346078a0ea0e412a078a93a3a27e9e68ea50ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 01/31] fix: collapse spaces separated by items which render to
 nothing

Two spaces separated by a registered item or an empty literal were rendered
as two spaces, while spacings in sequence are documented to collapse.
---
 src/fmt/formatter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..09da64a 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -129,8 +129,11 @@ impl<'a> Formatter<'a> {
     }
 
     /// Push a space.
+    ///
+    /// Spaces are collapsed, even if they are separated by items which do not
+    /// render to anything.
     fn space(&mut self) {
-        self.spaces += 1;
+        self.spaces = 1;
     }
 
     /// Increase indentation level.
-- 
2.43.0


From 5bb294789f8e843be3458b3444c185675a846a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 02/31] fix: drop pending spaces on push and line regardless of
 position

A space followed by a line change was only dropped if the line change had an
effect, or if nothing was registered in between. So a line change at the start
of the output, or registering an import, could introduce stray leading
whitespace.
---
 src/fmt/formatter.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 09da64a..1f7deab 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -109,23 +109,25 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        // NB: a space before a line change is never rendered, even if the
+        // change itself has no effect.
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From c323e21b4bee4b154096fc8a873adffe9bddad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 03/31] fix: an indentation of zero has no effect

It's documented to have no effect, but discarded preceding whitespace, which
caused the tokens surrounding it to be glued together.
---
 src/tokens/tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..401892b 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -643,6 +643,11 @@ where
 
     /// Internal function to modify the indentation of the token stream.
     fn indentation(&mut self, mut n: i16) {
+        // NB: An indentation of 0 has no effect.
+        if n == 0 {
+            return;
+        }
+
         let item = loop {
             // flush all whitespace preceeding the indentation change.
             match self.items.pop() {
-- 
2.43.0


From 1d7e9ccf8adf82caab659deb8436642bc6225e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 04/31] fix: don't reserve the upper bound of a size hint

The upper bound of a size hint can be arbitrarily loose, so extending or
collecting tokens from perfectly legal iterators such as
(0..usize::MAX).take_while(..) would panic with a capacity overflow.
---
 src/tokens/tokens.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 401892b..7649bbf 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,9 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        // NB: the upper bound can be arbitrarily loose.
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1006,8 +1007,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1019,8 +1020,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From b33fed48da7e393fd859a582a97836615a35afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 05/31] fix: escape backspace, form feed and vertical tab
 rather than other control characters

---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..cf2d765 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..a4e195a 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..182a5ca 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From c00b358ef6b5fa445019f02219152cea95eef69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 06/31] fix: don't use variable length or reserved escapes in C
 strings

---
 src/lang/c.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 15e0b7d..1880162 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -20,7 +20,26 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            for c in input.chars() {
+                match c {
+                    '\u{0007}'..='\r' => (),
+                    // Note: `\x` is followed by any number of digits, and there
+                    // are no universal character names for control characters.
+                    // Octal escapes have at most three digits.
+                    c if c.is_control() => {
+                        for b in c.encode_utf8(&mut [0; 4]).bytes() {
+                            write!(out, "\\{:03o}", b)?;
+                        }
+
+                        continue;
+                    }
+                    _ => (),
+                }
+
+                super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?;
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From b76539c070a8644740b5513f9df9f49e1977b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 07/31] fix: don't use variable length escapes in front of
 digits in C# strings

---
 src/lang/csharp/mod.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..f9b5d38 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -45,7 +45,26 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://csharpindepth.com/articles/Strings
-            super::c_family_write_quoted(out, input)
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                let digit_follows = it.peek().map_or(true, |c| c.is_ascii_hexdigit());
+
+                match c {
+                    '\u{0007}'..='\r' => (),
+                    // Note: `\x` is followed by one to four digits, so it can't
+                    // be used if something which looks like a digit follows.
+                    c if c.is_ascii_control() && digit_follows => {
+                        write!(out, "\\u{:04x}", c as u32)?;
+                        continue;
+                    }
+                    _ => (),
+                }
+
+                super::c_family_write_quoted(out, c.encode_utf8(&mut [0; 4]))?;
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From eff0f30b5557ffeaebca85d5929498a15a85e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 08/31] fix: don't escape single quotes in Go strings

---
 src/lang/go.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lang/go.rs b/src/lang/go.rs
index 82c38db..fc946a4 100644
--- a/src/lang/go.rs
+++ b/src/lang/go.rs
@@ -66,7 +66,16 @@ impl_lang! {
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // From: https://golang.org/src/strconv/quote.go
-            super::c_family_write_quoted(out, input)
+            // Note: escaping a single quote is not permitted in a string.
+            for (i, part) in input.split('\'').enumerate() {
+                if i > 0 {
+                    out.write_char('\'')?;
+                }
+
+                super::c_family_write_quoted(out, part)?;
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 6db28a615b9d54adb2f357ef206d2edf546d7117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 09/31] fix: use the escapes of Nix in Nix strings

---
 src/lang/nix.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..2471caa 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -21,7 +21,23 @@ impl_lang! {
         type Item = Import;
 
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
-            super::c_family_write_quoted(out, input)
+            // From: https://nix.dev/manual/nix/latest/language/string-literals
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
+                match c {
+                    '\n' => out.write_str("\\n")?,
+                    '\r' => out.write_str("\\r")?,
+                    '\t' => out.write_str("\\t")?,
+                    '"' => out.write_str("\\\"")?,
+                    '\\' => out.write_str("\\\\")?,
+                    // antiquotation
+                    '$' if matches!(it.peek(), Some('{') | None) => out.write_str("\\$")?,
+                    c => out.write_char(c)?,
+                }
+            }
+
+            Ok(())
         }
 
         fn format_file(
-- 
2.43.0


From 970e7658ab08d758ee70cd5f47fea0e10244c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 10/31] fix: don't use an escape which can't be followed by
 digits for null characters in JavaScript

---
 src/lang/js.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 182a5ca..05cac5d 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -138,8 +138,8 @@ impl_lang! {
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
                     '\u{000b}' => out.write_str("\\v")?,
-                    // null character.
-                    '\0' => out.write_str("\\0")?,
+                    // Note: `\0` can't be used for the null character since it must
+                    // not be followed by a digit.
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
-- 
2.43.0


From c997b06823c66ac553fb19289b002ce9df677547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 11/31] fix: escape backticks and interpolation in JavaScript
 strings

---
 src/lang/js.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 05cac5d..3b5c311 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -124,8 +124,15 @@ impl_lang! {
         fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
             // Reference: https://mathiasbynens.be/notes/javascript-escapes
 
-            for c in input.chars() {
+            let mut it = input.chars().peekable();
+
+            while let Some(c) = it.next() {
                 match c {
+                    // Note: these are special in template literals, which are
+                    // used for interpolated strings. The escapes are valid in
+                    // regular strings as well.
+                    '`' => out.write_str("\\`")?,
+                    '$' if matches!(it.peek(), Some('{') | None) => out.write_str("\\$")?,
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-- 
2.43.0


From 6ec730e2ba5f6cd89850b07bd67105a3870a990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 12/31] fix: use braces for Dart interpolations unless they are
 an identifier which ends there

---
 src/fmt/cursor.rs    | 18 ++++++++++++++++++
 src/fmt/formatter.rs |  5 ++++-
 src/lang/dart/mod.rs | 10 +++++++++-
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/fmt/cursor.rs b/src/fmt/cursor.rs
index 5dfc8dc..82ccf9d 100644
--- a/src/fmt/cursor.rs
+++ b/src/fmt/cursor.rs
@@ -109,6 +109,24 @@ where
         }
     }
 
+    /// Test if the items starting at `n` might render to something which
+    /// continues a word that is right in front of it.
+    pub(super) fn word_follows(&self, n: usize) -> bool {
+        for item in self.items.iter().skip(n) {
+            match item {
+                Item::Register(..) | Item::Indentation(0) => (),
+                Item::Literal(s) if s.is_empty() => (),
+                Item::Literal(s) => {
+                    return s.starts_with(|c: char| c.is_alphanumeric() || c == '_');
+                }
+                Item::Lang(..) => return true,
+                _ => return false,
+            }
+        }
+
+        false
+    }
+
     #[inline]
     pub(super) fn parse<P>(&mut self) -> fmt::Result<&P::Output>
     where
diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 1f7deab..4c604cb 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -217,7 +217,10 @@ impl<'a> Formatter<'a> {
                     self.indentation(*n);
                 }
                 Item::OpenEval if *in_quote => {
-                    if cursor.peek::<cursor::Literal>() && cursor.peek1::<cursor::CloseEval>() {
+                    if cursor.peek::<cursor::Literal>()
+                        && cursor.peek1::<cursor::CloseEval>()
+                        && !cursor.word_follows(2)
+                    {
                         let literal = cursor.parse::<cursor::Literal>()?;
                         L::string_eval_literal(self, config, format, literal)?;
                         cursor.parse::<cursor::CloseEval>()?;
diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index cf2d765..6e8849d 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -67,7 +67,15 @@ impl_lang! {
             _format: &Self::Format,
             literal: &str,
         ) -> fmt::Result {
-            write!(out, "${}", literal)?;
+            // Note: only identifiers can be used without braces.
+            if literal.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+                && literal.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
+            {
+                write!(out, "${}", literal)?;
+            } else {
+                write!(out, "${{{}}}", literal)?;
+            }
+
             Ok(())
         }
 
-- 
2.43.0


From 0e303394a3bce491745a52d5656d3674f9576394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 13/31] fix: escape the content of quotes inside of quotes at
 both levels

---
 src/fmt/formatter.rs | 46 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 4c604cb..d828589 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -160,7 +160,11 @@ impl<'a> Formatter<'a> {
         let mut buf = String::new();
         let mut stack = smallvec::SmallVec::<[Frame; 4]>::new();
 
-        stack.push(Frame::default());
+        stack.push(Frame {
+            // NB: we are inside of a nested quote.
+            in_quote: end_on_close_quote,
+            ..Frame::default()
+        });
 
         while let (Some(item), Some(head)) = (cursor.next(), stack.last_mut()) {
             let Frame {
@@ -173,7 +177,9 @@ impl<'a> Formatter<'a> {
                 Item::Register(..) => (),
                 Item::Indentation(0) => (),
                 Item::Literal(literal) => {
-                    if *in_quote {
+                    if end_on_close_quote {
+                        self.write_nested_quoted::<L>(literal)?;
+                    } else if *in_quote {
                         L::write_quoted(self, literal)?;
                     } else {
                         self.write_str(literal)?;
@@ -190,7 +196,13 @@ impl<'a> Formatter<'a> {
                 // Evaluating quotes are not supported.
                 Item::OpenQuote(false) if *in_quote => {
                     self.quoted_quote(cursor, &mut buf, config, format)?;
-                    L::write_quoted(self, &buf)?;
+
+                    if end_on_close_quote {
+                        self.write_nested_quoted::<L>(&buf)?;
+                    } else {
+                        L::write_quoted(self, &buf)?;
+                    }
+
                     buf.clear();
                 }
                 Item::CloseQuote if end_on_close_quote => {
@@ -216,7 +228,7 @@ impl<'a> Formatter<'a> {
                 Item::Indentation(n) => {
                     self.indentation(*n);
                 }
-                Item::OpenEval if *in_quote => {
+                Item::OpenEval if *in_quote && !end_on_close_quote => {
                     if cursor.peek::<cursor::Literal>()
                         && cursor.peek1::<cursor::CloseEval>()
                         && !cursor.word_follows(2)
@@ -277,6 +289,32 @@ impl<'a> Formatter<'a> {
         Ok(())
     }
 
+    /// Write the content of a quote which is inside of another quote.
+    ///
+    /// Anything that can be part of a string as it is only has to be escaped
+    /// once, which is done by the outermost quote.
+    fn write_nested_quoted<L>(&mut self, mut input: &str) -> fmt::Result
+    where
+        L: Lang,
+    {
+        fn is_plain(c: char) -> bool {
+            let special = matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}');
+            !c.is_ascii() && !c.is_control() && !special
+        }
+
+        while !input.is_empty() {
+            let (escape, rest) = input.split_at(input.find(is_plain).unwrap_or(input.len()));
+            L::write_quoted(self, escape)?;
+
+            let end = rest.find(|c| !is_plain(c)).unwrap_or(rest.len());
+            let (plain, rest) = rest.split_at(end);
+            self.write_str(plain)?;
+            input = rest;
+        }
+
+        Ok(())
+    }
+
     // Realize any pending whitespace just prior to writing a non-whitespace
     // item.
     fn flush_whitespace(&mut self) -> fmt::Result {
-- 
2.43.0


From f1e4d9e948eeab2470cfd904f2f444c619db6a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:15 +0000
Subject: [PATCH 14/31] fix: compare ItemStr by content

A boxed and a static string with the same content used to be distinct, which
produced duplicate imports for one and the same symbol.
---
 src/tokens/item_str.rs | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..5de0d98 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,10 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+///
+/// Strings are compared, ordered and hashed by their content, regardless of how
+/// they are stored.
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +25,32 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (**self).cmp(&**other)
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 8fc54d3c41893d08a9ea9a812563203f0c5a7872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 15/31] fix: java names in scope without an import are not
 shadowed

A reference to java.lang or to the package of the file was always rendered by
its simple name, even though a conflicting import made that name mean something
else.
---
 src/lang/java/mod.rs | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index a4e195a..a1fe900 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -87,10 +87,15 @@ impl_lang! {
     Import {
         fn format(&self, out: &mut fmt::Formatter<'_>, config: &Config, format: &Format) -> fmt::Result {
             let file_package = config.package.as_ref().map(|p| p.as_ref());
-            let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
-            let pkg = Some(self.package.as_ref());
+            let package = self.package.as_ref();
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            let qualified = match format.imported.get(self.name.as_ref()) {
+                // The simple name refers to whichever package provides it.
+                Some(imported) => imported != package,
+                None => package != JAVA_LANG && Some(package) != file_package,
+            };
+
+            if qualified {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -107,7 +112,7 @@ const SEP: &str = ".";
 /// Formtat state for Java.
 #[derive(Debug, Default)]
 pub struct Format {
-    /// Types which has been imported into the local namespace.
+    /// The package which each simple name in the local namespace refers to.
     imported: BTreeMap<String, String>,
 }
 
@@ -188,16 +193,19 @@ impl Java {
             return;
         }
 
-        for (package, name) in modules {
-            if imported.contains_key(&*name) {
-                continue;
-            }
-
-            if &*package == JAVA_LANG {
-                continue;
+        // Names in the package of the file are visible without an import, and
+        // shadow the ones in `java.lang`. Nothing else may be imported under
+        // the same name.
+        for implicit in file_package.into_iter().chain([JAVA_LANG]) {
+            for (package, name) in &modules {
+                if &**package == implicit && !imported.contains_key(&**name) {
+                    imported.insert(name.to_string(), package.to_string());
+                }
             }
+        }
 
-            if Some(&*package) == file_package {
+        for (package, name) in modules {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-- 
2.43.0


From 57a5aaa19c6af0a50f553ec96a3f7699577bfbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 16/31] fix: csharp names in scope without a using, and
 ambiguous names

Names in the namespace of the file or one enclosing it were rendered short even
if they belong to another namespace, and a name provided by two used namespaces
was rendered short although it is ambiguous.
---
 src/lang/csharp/mod.rs | 81 +++++++++++++++++++++++++-----------------
 1 file changed, 48 insertions(+), 33 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index f9b5d38..c7ed545 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -96,9 +96,9 @@ impl_lang! {
     }
 
     Import {
-        fn format(&self, out: &mut fmt::Formatter<'_>, config: &Config, format: &Format) -> fmt::Result {
+        fn format(&self, out: &mut fmt::Formatter<'_>, _: &Config, format: &Format) -> fmt::Result {
             {
-                let qualified = self.qualified || is_qualified(config, format, &self.namespace, &self.name);
+                let qualified = self.qualified || is_qualified(format, &self.namespace, &self.name);
 
                 if qualified {
                     out.write_str(&self.namespace)?;
@@ -110,22 +110,14 @@ impl_lang! {
 
             return Ok(());
 
-            fn is_qualified(config: &Config, format: &Format, namespace: &str, name: &str) -> bool {
-                // Name is in current namespace. No need to qualify.
-                if let Some(config) = &config.namespace {
-                    if &**config == namespace {
-                        return false;
-                    }
+            fn is_qualified(format: &Format, namespace: &str, name: &str) -> bool {
+                match format.imported_names.get(name) {
+                    // Name refers to something in the given namespace.
+                    Some(Some(imported)) => imported != namespace,
+                    // Name is ambiguous.
+                    Some(None) => true,
+                    None => false,
                 }
-
-                if let Some(imported) = format.imported_names.get(name) {
-                    // a conflicting name is in the namespace.
-                    if imported != namespace {
-                        return true;
-                    }
-                }
-
-                false
             }
         }
     }
@@ -137,11 +129,12 @@ const SEP: &str = ".";
 /// State using during formatting of C# language items.
 #[derive(Debug, Default)]
 pub struct Format {
-    /// Keeping track of names which have been imported, do determine whether
-    /// their use has to be qualified or not.
+    /// Keeping track of the namespace each name refers to, do determine whether
+    /// its use has to be qualified or not.
     ///
-    /// A missing name means that it has to be used in a qualified manner.
-    imported_names: BTreeMap<String, String>,
+    /// `None` means that the name is ambiguous, so that it always has to be used
+    /// in a qualified manner.
+    imported_names: BTreeMap<String, Option<String>>,
 }
 
 /// Config data for Csharp formatting.
@@ -192,7 +185,7 @@ impl Csharp {
         out: &mut Tokens,
         tokens: &Tokens,
         config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
+        imported_names: &mut BTreeMap<String, Option<String>>,
     ) {
         let mut modules = BTreeSet::new();
 
@@ -204,19 +197,26 @@ impl Csharp {
             return;
         }
 
-        let mut imported = BTreeSet::new();
+        // Names in the namespace of the file, or in one that encloses it, are
+        // visible without an import and shadow anything which is imported.
+        let mut enclosing = config.namespace.as_deref();
 
-        for (namespace, name) in modules {
-            if Some(namespace) == config.namespace.as_deref() {
-                continue;
+        while let Some(current) = enclosing {
+            for &(namespace, name) in &modules {
+                if namespace == current && !imported_names.contains_key(name) {
+                    imported_names.insert(name.to_string(), Some(namespace.to_string()));
+                }
             }
 
-            match imported_names.get(name) {
-                // already imported...
-                Some(existing) if existing == namespace => continue,
-                // already imported, as something else...
-                Some(_) => continue,
-                _ => {}
+            enclosing = current.rsplit_once(SEP).map(|(parent, _)| parent);
+        }
+
+        let mut imported = BTreeSet::new();
+
+        for &(namespace, name) in &modules {
+            // already imported...
+            if imported_names.contains_key(name) {
+                continue;
             }
 
             if !imported.contains(namespace) {
@@ -225,7 +225,22 @@ impl Csharp {
                 imported.insert(namespace);
             }
 
-            imported_names.insert(name.to_string(), namespace.to_string());
+            imported_names.insert(name.to_string(), Some(namespace.to_string()));
+        }
+
+        // A name which more than one of the imported namespaces provides is
+        // ambiguous.
+        for (namespace, name) in modules {
+            if let Some(owner) = imported_names.get_mut(name) {
+                if let Some(existing) = owner.as_deref() {
+                    if existing != namespace
+                        && imported.contains(existing)
+                        && imported.contains(namespace)
+                    {
+                        *owner = None;
+                    }
+                }
+            }
         }
 
         out.line();
-- 
2.43.0


From 59706e408a60133bdbd8c094c89595498504234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/31] fix: dart:core is imported when referenced through an
 alias

---
 src/lang/dart/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 6e8849d..5ef0895 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -202,7 +202,13 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                // NB: any explicit import of the core library disables the
+                // implicit one.
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From 8be2fff32349cfa791794bf621c4d55e8f981e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 18/31] fix: all default imports of a javascript module are
 imported

---
 src/lang/js.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 3b5c311..b9e8e82 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -439,7 +439,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.defaults.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -458,11 +458,19 @@ impl JavaScript {
             }
         }
 
-        for (name, module) in modules {
+        for (name, mut module) in modules {
+            let default_import = module.defaults.pop_first();
+
+            // Only one default import fits in front of the braces, the rest are
+            // equivalent to named imports of `default`.
+            module
+                .set
+                .extend(module.defaults.into_iter().map(ImportedElement::Default));
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -478,6 +486,9 @@ impl JavaScript {
 
                         while let Some(el) = it.next() {
                             match *el {
+                                ImportedElement::Default(name) => {
+                                    quote_in!(*tokens => default as $name);
+                                }
                                 ImportedElement::Plain(name) => {
                                     tokens.append(name);
                                 },
@@ -502,12 +513,13 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            defaults: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
         #[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
         enum ImportedElement<'a> {
+            Default(&'a ItemStr),
             Plain(&'a ItemStr),
             Aliased(&'a ItemStr, &'a ItemStr),
         }
-- 
2.43.0


From ee174bc28d74b76eb191ec2d80ed50593b181e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 19/31] fix: qualified python imports don't use an alias
 nothing binds

---
 src/lang/python.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..e781527 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -58,14 +58,15 @@ impl_lang! {
 
     Import {
         fn format(&self, out: &mut fmt::Formatter<'_>, _: &Config, _: &Format) -> fmt::Result {
-            if let TypeModule::Qualified { module, alias }  = &self.module {
-                out.write_str(alias.as_ref().unwrap_or(module))?;
-                out.write_str(SEP)?;
-            }
-
-            let name = match &self.alias {
-                Some(alias) => alias,
-                None => &self.name,
+            let name = match &self.module {
+                TypeModule::Qualified { module, alias } => {
+                    out.write_str(alias.as_ref().unwrap_or(module))?;
+                    out.write_str(SEP)?;
+                    // NB: only the module is imported, so there is nothing that
+                    // binds the alias of the name.
+                    &self.name
+                }
+                TypeModule::Unqualified { .. } => self.alias.as_ref().unwrap_or(&self.name),
             };
 
             out.write_str(name)?;
-- 
2.43.0


From 811c26f7ca89a2f5b948838cadd67c50fc74991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:14 +0000
Subject: [PATCH 20/31] fix: nix imports in the value of a variable are hoisted

Only inherits and arguments used directly in the value were, which left with
statements, variables and anything nested deeper unbound.
---
 src/lang/nix.rs | 90 +++++++++++++++++++++----------------------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 2471caa..54a70a9 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -133,46 +133,40 @@ impl Config {
     }
 }
 
+/// Walk over all imports, including the ones which are used in the value of a
+/// variable.
+fn walk<'a>(tokens: &'a Tokens, visit: &mut dyn FnMut(&'a Import)) {
+    for import in tokens.walk_imports() {
+        visit(import);
+
+        if let Import::Variable(variable) = import {
+            walk(&variable.value, visit);
+        }
+    }
+}
+
 impl Nix {
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            match imports {
-                Import::Argument(argument) => {
-                    arguments.insert(argument.0.to_string());
-                }
-                Import::Inherit(inherit) => {
-                    let argument = inherit.path.split('.').next();
-                    if let Some(a) = argument {
-                        arguments.insert(a.to_string());
-                    }
-                }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
+        walk(tokens, &mut |import| match import {
+            Import::Argument(argument) => {
+                arguments.insert(argument.0.to_string());
+            }
+            Import::Inherit(inherit) => {
+                let argument = inherit.path.split('.').next();
+                if let Some(a) = argument {
+                    arguments.insert(a.to_string());
                 }
-                Import::With(with) => {
-                    let argument = with.argument.split('.').next();
-                    if let Some(a) = argument {
-                        arguments.insert(a.to_string());
-                    }
+            }
+            Import::With(with) => {
+                let argument = with.argument.split('.').next();
+                if let Some(a) = argument {
+                    arguments.insert(a.to_string());
                 }
             }
-        }
+            Import::Variable(_) => (),
+        });
 
         out.append("{");
         out.push();
@@ -196,11 +190,11 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            if let Import::With(with) = imports {
+        walk(tokens, &mut |import| {
+            if let Import::With(with) = import {
                 withs.insert(&with.argument);
             }
-        }
+        });
 
         if withs.is_empty() {
             return;
@@ -218,23 +212,15 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
-            match imports {
-                Import::Inherit(inherit) => {
-                    inherits.insert((&inherit.path, &inherit.name));
-                }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
-                    variables.insert((&variable.name, &variable.value));
-                }
-                _ => (),
+        walk(tokens, &mut |import| match import {
+            Import::Inherit(inherit) => {
+                inherits.insert((&inherit.path, &inherit.name));
             }
-        }
+            Import::Variable(variable) => {
+                variables.insert((&variable.name, &variable.value));
+            }
+            _ => (),
+        });
 
         if inherits.is_empty() && variables.is_empty() {
             return;
-- 
2.43.0


From 230784e2785fab2d68453ec90903e7aaa4580bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 21/31] fix: keep the whitespace around the content of a string
 interpolation

The span of the content (its first token) was used in place of the span of
the parenthesis, so $(foo ) lost its space and content with line breaks
tripped an assertion.
---
 genco-macros/src/string_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 5f7dc52..01585a9 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -288,7 +288,7 @@ impl<'a> StringParser<'a> {
                     let end = syn::parenthesized!(content in input).span;
 
                     let (req, stream) = crate::quote::Quote::new(self.cx)
-                        .with_span(content.span())?
+                        .with_span(end.span())?
                         .parse(&content)?;
                     requirements.merge_with(req);
                     let start = self.buf.cursor(start.span())?;
-- 
2.43.0


From c6034d3b97e07afe71cec288046a02eae97c1446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 22/31] fix: handle groups inside of template strings

Delimited groups were stringified as a whole, which lost their whitespace
and rendered the interpolations and escapes in them literally.
---
 genco-macros/src/string_parser.rs | 44 +++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/genco-macros/src/string_parser.rs b/genco-macros/src/string_parser.rs
index 01585a9..ed19280 100644
--- a/genco-macros/src/string_parser.rs
+++ b/genco-macros/src/string_parser.rs
@@ -235,6 +235,18 @@ impl<'a> StringParser<'a> {
         let mut requirements = Requirements::default();
         let encoder = Encoder::new(self.cx, self.start, self.span);
 
+        self.parse_inner(&encoder, &mut requirements, input)?;
+
+        let (options, stream) = encoder.finalize(self.end)?;
+        Ok((options, requirements, stream))
+    }
+
+    fn parse_inner(
+        &self,
+        encoder: &Encoder<'_>,
+        requirements: &mut Requirements,
+        input: ParseStream,
+    ) -> Result<()> {
         while !input.is_empty() {
             if input.peek(syn::Token![$]) && input.peek2(syn::Token![$]) {
                 let start = input.parse::<syn::Token![$]>()?;
@@ -299,13 +311,35 @@ impl<'a> StringParser<'a> {
                 continue;
             }
 
-            let tt = input.parse::<TokenTree>()?;
-            let cursor = self.buf.cursor(tt.span())?;
-            encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+            // Recurse into groups, since they might contain interpolations.
+            let content;
+
+            let (open, close, span) = if input.peek(token::Paren) {
+                let group = syn::parenthesized!(content in input);
+                ('(', ')', group.span)
+            } else if input.peek(token::Brace) {
+                let group = syn::braced!(content in input);
+                ('{', '}', group.span)
+            } else if input.peek(token::Bracket) {
+                let group = syn::bracketed!(content in input);
+                ('[', ']', group.span)
+            } else {
+                let tt = input.parse::<TokenTree>()?;
+                let cursor = self.buf.cursor(tt.span())?;
+                encoder.extend_tt(&tt, cursor.start, Some(cursor.end))?;
+                continue;
+            };
+
+            let cursor = self.buf.cursor(span.span())?;
+            let first = cursor.first_character();
+            let last = cursor.last_character();
+
+            encoder.encode_char(open, first.start, first.end)?;
+            self.parse_inner(encoder, requirements, &content)?;
+            encoder.encode_char(close, last.start, last.end)?;
         }
 
-        let (options, stream) = encoder.finalize(self.end)?;
-        Ok((options, requirements, stream))
+        Ok(())
     }
 }
 
-- 
2.43.0


From 81851324437cf3a7221f70d9f359ba83e08952b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 23/31] fix: parse the attributes of match arms from the body
 of the match

---
 genco-macros/src/quote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genco-macros/src/quote.rs b/genco-macros/src/quote.rs
index 82c4fd2..835d7ae 100644
--- a/genco-macros/src/quote.rs
+++ b/genco-macros/src/quote.rs
@@ -196,7 +196,7 @@ impl<'a> Quote<'a> {
         let mut arms = Vec::new();
 
         while !body.is_empty() {
-            let attr = input.call(syn::Attribute::parse_outer)?;
+            let attr = body.call(syn::Attribute::parse_outer)?;
             let pattern = syn::Pat::parse_multi_with_leading_vert(&body)?;
 
             let condition = if body.peek(Token![if]) {
-- 
2.43.0


From 7ee67896c5c8db236622a5abcdbedde57f00911e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:24 +0000
Subject: [PATCH 24/31] fix: reject rows which are shallower than the first row

They matched no known indentation level, but instead of being an error they
were joined to the preceding row.
---
 genco-macros/src/encoder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..4fcff4e 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -415,6 +415,11 @@ impl<'a> Encoder<'a> {
                     self.output.extend(q::quote!(#r.line();));
                 }
             } else if last_start_column > to.column {
+                // A row which is shallower than every known row.
+                if self.indents.is_empty() && to_span.is_some() && self.last.is_some() {
+                    return Err(indentation_error(to.column, last_start_column, to_span));
+                }
+
                 while let Some((column, _)) = self.indents.pop() {
                     if column > to.column && !self.indents.is_empty() {
                         self.output.extend(q::quote!(#r.unindent();));
-- 
2.43.0


From 55b254d72226cc85507c46069357c019f61f9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 25/31] fix: keep temporaries of the iterated expression alive
 when a loop has a join

---
 genco-macros/src/encoder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 4fcff4e..19801e2 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -245,10 +245,10 @@ impl<'a> Encoder<'a> {
 
         if let Some(join) = join {
             self.output.extend(q::quote! {
-                {
-                    let mut __it = IntoIterator::into_iter(#expr).peekable();
-
-                    while let Some(#pattern) = __it.next() {
+                // NB: a match keeps temporaries in the expression alive for the
+                // duration of the loop, as they are in a regular for loop.
+                match IntoIterator::into_iter(#expr).peekable() {
+                    mut __it => while let Some(#pattern) = __it.next() {
                         #stream
 
                         if __it.peek().is_some() {
-- 
2.43.0


From aa94632859d1ad095ba7395bceb3ec1aba46d5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 26/31] fix: Rust headers import each name only once

An alias equal to the name, or a module imported by name from its parent as
well as for its own items, used to be imported twice under the same name, which
rustc rejects (E0252, E0430).
---
 src/lang/rust.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/lang/rust.rs b/src/lang/rust.rs
index 439e1ea..8c216ec 100644
--- a/src/lang/rust.rs
+++ b/src/lang/rust.rs
@@ -387,6 +387,11 @@ impl Import {
         }
     }
 
+    /// The alias to import the type under, unless it's the name of the type.
+    fn item_alias(&self) -> Option<&ItemStr> {
+        self.alias.as_ref().filter(|alias| **alias != self.name)
+    }
+
     /// Write the direct name of the type.
     fn write_direct(&self, out: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(alias) = &self.alias {
@@ -430,7 +435,7 @@ impl Rust {
                     import: Some(ImportMode::Direct),
                 } => {
                     let module = modules.entry(module).or_default();
-                    module.names.insert((&import.name, import.alias.as_ref()));
+                    module.names.insert((&import.name, import.item_alias()));
                 }
                 Module::Module {
                     module,
@@ -445,7 +450,7 @@ impl Rust {
                 } => match config.default_import {
                     ImportMode::Direct => {
                         let module = modules.entry(module).or_default();
-                        module.names.insert((&import.name, import.alias.as_ref()));
+                        module.names.insert((&import.name, import.item_alias()));
                     }
                     ImportMode::Qualified => {
                         let module = modules.entry(module).or_default();
@@ -453,12 +458,43 @@ impl Rust {
                     }
                 },
                 Module::Aliased { module, alias } => {
+                    // The name of a module that isn't at the top level is not
+                    // an alias.
+                    let is_name = matches!(
+                        module.rsplit_once(SEP),
+                        Some((_, name)) if *name == **alias
+                    );
+
                     let module = modules.entry(module).or_default();
-                    module.self_aliases.insert(alias);
+
+                    if is_name {
+                        module.self_import = true;
+                    } else {
+                        module.self_aliases.insert(alias);
+                    }
                 }
             }
         }
 
+        // A module might also be imported by name from its parent. Each name can
+        // only be imported once.
+        let mut by_name = BTreeSet::<(&str, &str, Option<&str>)>::new();
+
+        for (m, module) in &modules {
+            for (name, alias) in &module.names {
+                by_name.insert((m, name, alias.map(|alias| &**alias)));
+            }
+        }
+
+        for (m, module) in &mut modules {
+            if let Some((parent, name)) = m.rsplit_once(SEP) {
+                module.self_import &= !by_name.contains(&(parent, name, None));
+                module
+                    .self_aliases
+                    .retain(|alias| !by_name.contains(&(parent, name, Some(alias))));
+            }
+        }
+
         let mut has_any = false;
 
         for (m, module) in modules {
-- 
2.43.0


From 6bbd2df5b1959a7a293b70220dd9280f8c1a068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 27/31] fix: JavaScript headers bind each local name only once

The default import under the same name as an alias of `default`, and an alias
equal to the name, were imported twice, which is a SyntaxError.
---
 src/lang/js.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index b9e8e82..4d0b107 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -433,8 +433,10 @@ impl JavaScript {
                     let module = modules.entry(&import.module).or_default();
 
                     module.set.insert(match &import.alias {
-                        None => ImportedElement::Plain(&import.name),
-                        Some(alias) => ImportedElement::Aliased(&import.name, alias),
+                        Some(alias) if *alias != import.name => {
+                            ImportedElement::Aliased(&import.name, alias)
+                        }
+                        _ => ImportedElement::Plain(&import.name),
                     });
                 }
                 ImportKind::Default => {
@@ -459,6 +461,17 @@ impl JavaScript {
         }
 
         for (name, mut module) in modules {
+            // The default import can also be named, and each local name can only
+            // be bound once.
+            let defaults = &module.defaults;
+
+            module.set.retain(|el| match *el {
+                ImportedElement::Aliased(name, alias) => {
+                    **name != *"default" || !defaults.contains(alias)
+                }
+                _ => true,
+            });
+
             let default_import = module.defaults.pop_first();
 
             // Only one default import fits in front of the braces, the rest are
-- 
2.43.0


From a81991e69cc5e0cf21960010d301f63d0452aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:46 +0000
Subject: [PATCH 28/31] fix: C header names are not string literals

---
 src/lang/c.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lang/c.rs b/src/lang/c.rs
index 1880162..deed9a8 100644
--- a/src/lang/c.rs
+++ b/src/lang/c.rs
@@ -7,7 +7,7 @@ use alloc::collections::BTreeSet;
 use crate as genco;
 use crate::fmt;
 use crate::quote_in;
-use crate::tokens::{quoted, ItemStr};
+use crate::tokens::ItemStr;
 
 /// Tokens container specialization for C.
 pub type Tokens = crate::Tokens<C>;
@@ -103,7 +103,8 @@ impl C {
             if system_header {
                 quote_in!(*out => #include <$(file)>);
             } else {
-                quote_in!(*out => #include $(quoted(file)));
+                // NB: a header name is not a string literal, nothing in it is escaped.
+                quote_in!(*out => #include $("\"")$(file)$("\""));
             }
             out.push();
         }
-- 
2.43.0


From f5103f4fce1a6ab285b83a818597c9ccae863d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 29/31] fix: an evaluation can not be closed inside of a string
 which is still open

---
 src/fmt/formatter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index d828589..a804623 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -247,7 +247,7 @@ impl<'a> Formatter<'a> {
                     }
                 }
                 // Eval are only allowed within quotes.
-                Item::CloseEval if *end_on_eval => {
+                Item::CloseEval if *end_on_eval && !*in_quote => {
                     L::end_string_eval(self, config, format)?;
                     stack.pop();
                 }
-- 
2.43.0


From 8cbce6b0e1f269d4af0179b96c90b79cefebe9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:08 +0000
Subject: [PATCH 30/31] fix: a loop with a join does not stop at an item its
 pattern does not match

---
 genco-macros/src/encoder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 19801e2..1a50268 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -248,7 +248,9 @@ impl<'a> Encoder<'a> {
                 // NB: a match keeps temporaries in the expression alive for the
                 // duration of the loop, as they are in a regular for loop.
                 match IntoIterator::into_iter(#expr).peekable() {
-                    mut __it => while let Some(#pattern) = __it.next() {
+                    mut __it => while let Some(__item) = __it.next() {
+                        let #pattern = __item;
+
                         #stream
 
                         if __it.peek().is_some() {
-- 
2.43.0


From 01d966730945e71e3c8eab3f601967db00cdfe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:23 +0000
Subject: [PATCH 31/31] fix: a template left from a scope without a binding has
 written what came before it

The literal right before `$(ref _ => ..)` was still buffered while the scope
ran, so that it was lost when the scope left the template early.
---
 genco-macros/src/encoder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 1a50268..a22ee56 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -202,9 +202,7 @@ impl<'a> Encoder<'a> {
     pub(crate) fn encode_scope(&mut self, binding: Option<syn::Ident>, content: TokenStream) {
         let Ctxt { receiver, .. } = self.cx;
 
-        if binding.is_some() {
-            self.item_buffer.flush(&mut self.output);
-        }
+        self.item_buffer.flush(&mut self.output);
 
         let binding = binding.map(|b| q::quote_spanned!(b.span() => let #b = &mut *#receiver;));
 
-- 
2.43.0


From c9387e911ddbe80241d4799163e85619a74ede5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 1/5] fix: repeating a pattern that matches the empty string no
 longer loops forever

---
 src/parsers/repeat.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/parsers/repeat.rs b/src/parsers/repeat.rs
index 236d1c9..82e64f1 100644
--- a/src/parsers/repeat.rs
+++ b/src/parsers/repeat.rs
@@ -100,6 +100,18 @@ where
         }
     }
 
+    /// True if the previous pattern and separator together matched the empty
+    /// string, and no further matches are required. Going around again would
+    /// only match the same nothing at the same place, forever.
+    fn is_stuck(&self) -> bool {
+        let start_of_previous = match self.sep_iters.len() {
+            0 => return false,
+            1 => self.start,
+            n => self.sep_iters[n - 2].match_end(),
+        };
+        self.end() == start_of_previous && self.pattern_iters.len() >= self.params.min
+    }
+
     /// Precondition: Either there are no iters or we just successfully
     /// backtracked the foremost iter.
     ///
@@ -113,6 +125,9 @@ where
             assert_eq!(self.sep_iters.len(), self.num_matches() / 2);
 
             if self.is_pattern_next() {
+                if self.is_stuck() {
+                    return Err(Reported);
+                }
                 let start = self.end();
                 let iter = self.params.pattern.parse_iter(context, start)?;
                 self.pattern_iters.push(iter);
-- 
2.43.0


From da534b10205d37a9c66b23aab0b724375b7b7b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 2/5] fix: a section with no nonblank lines ends at the blank
 line it starts with

---
 src/parsers/lines.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsers/lines.rs b/src/parsers/lines.rs
index bc20a83..1cde71a 100644
--- a/src/parsers/lines.rs
+++ b/src/parsers/lines.rs
@@ -84,6 +84,10 @@ impl Region for Section {
         // section at end of input. presumably not repeat forever. (why does
         // this not always hang forever if you try to use `sections`?)
         let source = context.source();
+        if source[start..].starts_with('\n') {
+            // no nonblank lines at all; the blank line is right here
+            return Ok((start, start + 1));
+        }
         match source[start..].find("\n\n") {
             // ending at a blank line
             Some(index) => Ok((start + index + 1, start + index + 2)),
-- 
2.43.0


From c4c8714abd9c966540133489732c65c348680bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 3/5] fix: digit_bin reports that it expected a binary digit

---
 src/parsers/chars.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/chars.rs b/src/parsers/chars.rs
index f2b50ef..7bd9d75 100644
--- a/src/parsers/chars.rs
+++ b/src/parsers/chars.rs
@@ -130,7 +130,7 @@ pub const digit: MapParser<CharParser, fn(char) -> usize> = MapParser {
 #[allow(non_upper_case_globals)]
 pub const digit_bin: MapParser<CharParser, fn(char) -> usize> = MapParser {
     inner: CharParser {
-        noun: "hexadecimal digit",
+        noun: "binary digit",
         predicate: |c| c.is_digit(2),
     },
     mapper: |c| c.to_digit(2).unwrap() as usize,
-- 
2.43.0


From e22d46a96961c714b21152e5e2163688b73e7331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 4/5] fix: empty alternation is reported as such, not as a
 missing function

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index c1e7fe8..8ea3859 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -422,7 +422,7 @@ macro_rules! aoc_parse_helper {
     // completely empty alternation; could technically be understood as never matching,
     // but it's not a useful thing to express, so reject.
     (@list [ ] [ ] [ ]) => {
-        ::core::compile_error("no arms in alternation")
+        ::core::compile_error!("no arms in alternation")
     };
 
     // end of alternation after comma
-- 
2.43.0


From 056565b2eb71056e4d3b40c2f3026f5f11bf2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 5/5] fix: conversions in arms and arguments may contain commas

The formal syntax allows any Rust expression after `=>`, but the arms of
an alternation and the arguments of a call were split at every comma, so
`HashMap::<u8, char>::new()` or `|x, y| x + y` was rejected there.
---
 src/macros.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/macros.rs b/src/macros.rs
index 8ea3859..2598b19 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -364,6 +364,17 @@ macro_rules! aoc_parse_helper {
         )
     };
 
+    // a conversion in an argument; let Rust find where it ends, as it can contain commas
+    (@args ( $f:expr ) [ => $mapper:expr $( , $($tail:tt)* )? ] [ $($seq:tt)* ] ( $( $out:expr , )* )) => {
+        $crate::aoc_parse_helper!(
+            @args
+            ( $f )
+            [ , $( $( $tail )* )? ]
+            [ $( $seq )* => $mapper ]
+            ( $( $out , )* )
+        )
+    };
+
     // not the end of an arg; just move a token from the input to the holding area
     (@args ( $f:expr ) [ $next:tt $($tail:tt)* ] [ $($seq:tt)* ] ( $( $out:expr , )* )) => {
         $crate::aoc_parse_helper!(
@@ -409,6 +420,16 @@ macro_rules! aoc_parse_helper {
         )
     };
 
+    // a conversion in an arm; let Rust find where it ends, as it can contain commas
+    (@list [ => $mapper:expr $( , $($tail:tt)* )? ] [ $($seq:tt)* ] [ $($out:expr)? ]) => {
+        $crate::aoc_parse_helper!(
+            @list
+            [ , $( $( $tail )* )? ]
+            [ $( $seq )* => $mapper ]
+            [ $( $out )? ]
+        )
+    };
+
     // not the end of an arm; just move a token from the input to the holding area
     (@list [ $next:tt $($tail:tt)* ] [ $($seq:tt)* ] [ $($out:expr)? ]) => {
         $crate::aoc_parse_helper!(
-- 
2.43.0


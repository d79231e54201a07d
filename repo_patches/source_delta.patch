From 805962e94efa3c72524d5a721b3d8f52e29dff79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 01/26] fix: compute the offset of an opening parenthesis
 without underflow

The offset was computed as remaining length minus total length, which
underflows (and panics in debug builds) for any group that is not at the
start of the expression, e.g. "a(b)".
---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index e76e898..e048b2d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -98,7 +98,7 @@ impl<'p> Context<'p> {
         self.group_index += 1;
         mem::swap(&mut self.current_seq, &mut seq);
         self.sequences
-            .push(ExprState::new(seq, ts.len() - self.ptr.len(), self.mode));
+            .push(ExprState::new(seq, self.ptr.len() - ts.len(), self.mode));
     }
 
     fn pop_sequence(&mut self) -> Result<(), CompileError> {
-- 
2.43.0


From 1f581a76661534b21cc900147bbdf015d1edb9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 02/26] fix: reject a non-ASCII character with an error instead
 of panicking

compile() documents that an invalid expression is an error; a non-ASCII
character in the expression hit an assertion instead.
---
 src/parser.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e048b2d..958d3bb 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -138,8 +138,15 @@ impl<'p> Context<'p> {
             self.p = p;
         } else if let Ok((p, c)) = take_any(ts) {
             // TODO: Support UTF-8 literals
-            assert!(c.is_ascii());
-            if let Err(mut e) = add_literal(&mut self.current_seq, c, self.mode) {
+            let added = if c.is_ascii() {
+                add_literal(&mut self.current_seq, c, self.mode)
+            } else {
+                Err(CompileError::new(
+                    ErrorKind::LocatedParse,
+                    "Non-ASCII character is not supported",
+                ))
+            };
+            if let Err(mut e) = added {
                 e.reason
                     .push_str(&format!(" at index {}", self.ptr.len() - self.p.len()));
                 return Err(e);
-- 
2.43.0


From 0d691bfeb79c01940b471fcd2c0dafa0b75d7f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:35 +0000
Subject: [PATCH 03/26] fix: report the location of an unmatched close
 parenthesis

The error is a LocatedParse one, but it carried no location.
---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 958d3bb..7bc52e4 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -107,7 +107,10 @@ impl<'p> Context<'p> {
         } else {
             return Err(CompileError::new(
                 ErrorKind::LocatedParse,
-                "Unmatched parentheses",
+                format!(
+                    "Unmatched parentheses at index {}",
+                    self.ptr.len() - self.p.len()
+                ),
             ));
         };
         mem::swap(&mut self.current_seq, &mut seq);
-- 
2.43.0


From 238ba996b51cb6a440a972bc71c1cda536df2fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 04/26] fix: reject expressions, flags and ids of different
 lengths

The three slices were zipped, so that the expressions past the end of
the shortest slice were silently left out of the database (and never
validated).
---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 98f5b0b..f906983 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,13 @@ fn compile_multi_int(
         ));
     }
 
+    if flags.len() != expressions.len() || ids.len() != expressions.len() {
+        return Err(CompileError::new(
+            ErrorKind::Other,
+            "Invalid parameter: expressions, flags, and ids differ in length",
+        ));
+    }
+
     if expressions.len() > g.limit_pattern_count {
         return Err(CompileError::new(
             ErrorKind::Other,
-- 
2.43.0


From 3d0b96f758426f58113373942271ab3efcf892fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:36 +0000
Subject: [PATCH 05/26] fix: do not panic on conflicting SINGLEMATCH flags

The report manager already attaches the expression index to this error,
so that setting it again while unwinding compile_multi() tripped an
assertion in debug builds instead of returning the error.
---
 src/util/compile_error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 58c840b..fa18681 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -43,7 +43,7 @@ impl CompileError {
     }
 
     pub(crate) fn set_expression_index(&mut self, index: u32) {
-        debug_assert!(self.index.is_none());
+        debug_assert!(self.index.map_or(true, |i| i == index));
         self.index = Some(index);
     }
 }
-- 
2.43.0


From 38c4350c6fe2f814dac95613f4fe1cb7fb0b0e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 06/26] fix: validate SINGLEMATCH for expressions that are not
 literals

Expressions that share a match ID must agree on SINGLEMATCH, but only
literal ones were registered, so that a conflict that involves any other
expression went unnoticed.
---
 src/compiler.rs    |  6 ++----
 src/nfagraph/ng.rs | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index ed34d55..4127323 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -92,10 +92,8 @@ pub(crate) fn add_expression(
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
             .get_unchecked_mut()
-            .add_graph(&build_expr.expr, &build_expr.g);
-    };
-
-    Ok(())
+            .add_graph(&build_expr.expr, &build_expr.g)
+    }
 }
 
 fn generate_rose_engine(ng: &Ng) -> RoseEngine {
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 2bc9778..30c82b1 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -58,10 +58,25 @@ impl<'a> Ng<'a> {
         boxed
     }
 
-    pub(crate) fn add_graph(&mut self, expr: &ExpressionInfo, _g: &NgHolder) {
+    pub(crate) fn add_graph(
+        &mut self,
+        expr: &ExpressionInfo,
+        _g: &NgHolder,
+    ) -> Result<(), CompileError> {
+        // Register external report and validate highlander constraints.
+        self.rm.register_ext_report(
+            expr.report,
+            ExternalReportInfo::new(
+                expr.highlander,
+                expr.index.try_into().expect("too many expressions"),
+            ),
+        )?;
+
         if expr.som != SomType::None {
             self.rose.has_som = true;
         }
+
+        Ok(())
     }
 
     pub(crate) fn add_literal(
-- 
2.43.0


From 6fb342e1efbaa85d0ac2c92b9e0da77d6f9b7e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 07/26] fix: take case sensitivity into account when comparing
 literals

Equality ignored the case sensitivity of the characters whereas the
ordering did not, so that literals could be equal and ordered at once.
---
 src/util/ue2string.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index f13bf3e..bdba568 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -72,7 +72,7 @@ impl<'a> IntoIterator for &'a Ue2Literal {
 impl PartialEq for Ue2Literal {
     #[must_use]
     fn eq(&self, other: &Self) -> bool {
-        self.s == other.s
+        self.s == other.s && self.nocase == other.nocase
     }
 }
 
-- 
2.43.0


From 9a8c1830691238b72835b789bbc1971d8894dca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 08/26] fix: set the right bit in fill_bitvector

The bit within a byte is the low three bits of the character.
---
 src/util/charreach.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/charreach.rs b/src/util/charreach.rs
index 481475f..ccbf61d 100644
--- a/src/util/charreach.rs
+++ b/src/util/charreach.rs
@@ -335,7 +335,7 @@ pub(crate) fn fill_bitvector(cr: &CharReach, bits: &mut [u8]) {
     }
     let mut next = cr.find_first();
     while let Some(pos) = next {
-        bits[(pos / 8) as usize] |= 1 << (pos & 8);
+        bits[(pos / 8) as usize] |= 1 << (pos & 7);
         next = cr.find_next(pos);
     }
 }
-- 
2.43.0


From 8cd40ca1c1c3eeca22e7c9afc9984ceaeaf6df09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 09/26] fix: keep the high bits when aligning to a boundary

The mask was computed as an 8-bit value and then widened, which cleared
every bit above the lowest eight of the aligned value.
---
 src/util/ue2common.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/util/ue2common.rs b/src/util/ue2common.rs
index f57473e..426e955 100644
--- a/src/util/ue2common.rs
+++ b/src/util/ue2common.rs
@@ -1,4 +1,4 @@
-use std::ops::{Add, BitAnd};
+use std::ops::{Add, BitAnd, Not};
 
 pub type S64a = i64;
 
@@ -12,11 +12,12 @@ pub type ReportId = u32;
 #[inline]
 pub fn round_up_16<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0xf_u8.into()).into() & (!0xf_u8).into()).into()
+    ((a + 0xf_u8.into()).into() & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the previous 16-byte boundary.
@@ -24,21 +25,23 @@ where
 #[inline]
 pub fn round_down_16<T>(a: T) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!0xf_u8).into()).into()
+    (a & (!T::from(0xf)).into()).into()
 }
 
 /// Aligns to the next n-byte boundary.
 #[inline]
 pub fn round_up_n<T>(a: T, n: u8) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + (n - 1).into()).into() & (!(n - 1)).into()).into()
+    ((a + (n - 1).into()).into() & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to the previous n-byte boundary.
@@ -46,10 +49,11 @@ where
 #[inline]
 pub fn round_down_n<T>(a: T, n: u8) -> T
 where
-    T: BitAnd + From<u8>,
+    T: BitAnd + Not + From<u8>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    (a & (!(n - 1)).into()).into()
+    (a & (!T::from(n - 1)).into()).into()
 }
 
 /// Aligns to a cache line.
@@ -57,9 +61,10 @@ where
 #[inline]
 pub fn round_up_cache_line<T>(a: T) -> T
 where
-    T: Add + BitAnd + From<u8>,
+    T: Add + BitAnd + Not + From<u8>,
     <T as Add>::Output: Into<T>,
     <T as BitAnd>::Output: Into<T>,
+    <T as Not>::Output: Into<T>,
 {
-    ((a + 0x3f_u8.into()).into() & (!0x3f_u8).into()).into()
+    ((a + 0x3f_u8.into()).into() & (!T::from(0x3f)).into()).into()
 }
-- 
2.43.0


From a84ac74e776e0836920a069e443dddcafe751058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:01 +0000
Subject: [PATCH 10/26] fix: tell apart the reports of different match IDs

A report held nothing of what it was made from, so that all reports were
equal and the report manager gave them all the same internal ID: literals
with different match IDs could not be told apart once added.
---
 src/util/report.rs | 62 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 51 insertions(+), 11 deletions(-)

diff --git a/src/util/report.rs b/src/util/report.rs
index 66c2386..b5effb5 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -1,22 +1,62 @@
+/// The kind of action taken when a report is raised.
+#[derive(Clone, Copy, Hash, PartialEq, Eq)]
+enum ReportType {
+    /// Deliver the match to the user.
+    ExternalCallback,
+    /// Deliver the match to the user, with the start of match at a fixed
+    /// distance from the current offset.
+    ExternalCallbackSomRel,
+}
+
 #[derive(Clone, Hash, PartialEq, Eq)]
 pub(crate) struct Report {
+    /// What to do when this report is raised.
+    ty: ReportType,
+
+    /// Match ID to deliver to the user.
+    on_match: u32,
+
+    /// Adjustment to add to the match offset when we report a match.
+    offset_adjust: i32,
+
+    /// Exhaustion key, if this report can be raised only once.
+    ekey: Option<u32>,
+
+    /// Quiet on match.
+    quiet: bool,
+
+    /// Distance from the start of match to the current offset.
+    som_distance: u64,
+
     /// Minimum match length (start of match to current offset).
     pub(crate) min_length: u64,
 }
 
 pub(crate) fn make_e_callback(
-    _report: u32,
-    _offset_adjust: i32,
-    _ekey: Option<u32>,
-    _quiet: bool,
+    report: u32,
+    offset_adjust: i32,
+    ekey: Option<u32>,
+    quiet: bool,
 ) -> Report {
-    Report { min_length: 0 }
+    Report {
+        ty: ReportType::ExternalCallback,
+        on_match: report,
+        offset_adjust,
+        ekey,
+        quiet,
+        som_distance: 0,
+        min_length: 0,
+    }
 }
 
-pub(crate) fn make_som_relative_callback(
-    _report: u32,
-    _offset_adjust: i32,
-    _distance: u64,
-) -> Report {
-    Report { min_length: 0 }
+pub(crate) fn make_som_relative_callback(report: u32, offset_adjust: i32, distance: u64) -> Report {
+    Report {
+        ty: ReportType::ExternalCallbackSomRel,
+        on_match: report,
+        offset_adjust,
+        ekey: None,
+        quiet: false,
+        som_distance: distance,
+        min_length: 0,
+    }
 }
-- 
2.43.0


From 425445579468f10fd4c8a9ae8828644a1b46376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 11/26] fix: keep only caret flavored epsilons when connecting
 from start

The filter did the opposite of what its comment says: it removed the
caret flavored epsilons and kept the others.
---
 src/parser/build_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index ed4297f..a71a308 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -87,7 +87,9 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
     } else if from.pos == bs.start_state {
         // If we're connecting from start, we should remove any epsilons that
         // aren't caret flavored.
-        tolist.retain(|e| e.pos != GlushkovBuildState::pos_epsilon() || e.flags.is_empty());
+        tolist.retain(|e| {
+            e.pos != GlushkovBuildState::pos_epsilon() || e.flags.contains(PosFlags::NOFLOAT)
+        });
         tolist.retain(|e| !e.flags.contains(PosFlags::MUST_FLOAT | PosFlags::NOFLOAT));
     }
 
-- 
2.43.0


From cc18fb4371daeb6a6a0133dccc143f27aaa4bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 12/26] fix: describe every character of a character class

The last range of a class was left out unless it ended at 0xff, a short
range that ended at 0xff overflowed, and a character code below 0x10 was
written with a space in it.
---
 src/util/dump_charclass.rs | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/util/dump_charclass.rs b/src/util/dump_charclass.rs
index e0fa5f4..c20ee3e 100644
--- a/src/util/dump_charclass.rs
+++ b/src/util/dump_charclass.rs
@@ -42,7 +42,7 @@ fn describe_char<W: Write>(f: &mut W, c: u8, out_type: CcOutput) -> Result<(), E
         f.write_str(backslash)?;
         f.write_char('r')
     } else {
-        f.write_str(&format!("{}x{:2x}", backslash, c))
+        f.write_str(&format!("{}x{:02x}", backslash, c))
     }
 }
 
@@ -56,13 +56,8 @@ fn describe_range<W: Write>(f: &mut W, c1: u8, c2: u8, out_type: CcOutput) -> Re
         describe_char(f, c1, out_type)
     } else if c2 - c1 < 4 {
         // Render as individual chars.
-        let mut c1 = c1;
-        loop {
-            describe_char(f, c1, out_type)?;
-            c1 += 1;
-            if c1 > c2 {
-                break;
-            }
+        for c in c1..=c2 {
+            describe_char(f, c, out_type)?;
         }
         Ok(())
     } else {
@@ -175,10 +170,8 @@ fn describe_class_int<W: Write>(
             }
             c_last = c;
         }
-        if c_last == 0xff {
-            describe_range(f, c_start, c_last, out_type)?;
-            i += 1;
-        }
+        describe_range(f, c_start, c_last, out_type)?;
+        i += 1;
     }
     Ok(i)
 }
-- 
2.43.0


From 809187792214f9f8ae775823c021bb9a083bbb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:45 +0000
Subject: [PATCH 13/26] hooks: observe compilations and expose building blocks
 (--cfg rescan_verif)

Compiled only with --cfg rescan_verif, for external verification
harnesses.
---
 src/compiler.rs                    |   6 +
 src/compiler/expression_info.rs    |  16 +
 src/lib.rs                         |   7 +
 src/nfagraph.rs                    |   5 +
 src/nfagraph/ng.rs                 |  12 +
 src/nfagraph/ng_builder.rs         |  14 +
 src/nfagraph/ng_holder.rs          |  70 +++
 src/parser.rs                      |   4 +-
 src/parser/build_state.rs          |  14 +
 src/parser/component_sequence.rs   |   2 +-
 src/parser/verif.rs                | 127 ++++++
 src/rose.rs                        |   6 +
 src/rose/rose_build.rs             |   3 +
 src/rose/rose_build_bytecode.rs    |  52 +++
 src/rose/rose_internal.rs          |  10 +
 src/smallwrite.rs                  |   5 +
 src/smallwrite/smallwrite_build.rs |  54 +++
 src/util.rs                        |  16 +-
 src/util/compile_error.rs          |   7 +
 src/util/depth.rs                  |  11 +
 src/util/report.rs                 |  26 ++
 src/util/report_manager.rs         |  20 +
 src/util/ue2string.rs              |   7 +
 src/verif.rs                       | 700 +++++++++++++++++++++++++++++
 24 files changed, 1190 insertions(+), 4 deletions(-)
 create mode 100644 src/parser/verif.rs
 create mode 100644 src/verif.rs

diff --git a/src/compiler.rs b/src/compiler.rs
index 4127323..0c412f6 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -46,6 +46,9 @@ impl ParsedExpression {
 
         let component = parse(expression, &mut mode)?;
 
+        #[cfg(rescan_verif)]
+        crate::verif::on_parsed(&component, &mode);
+
         expr.utf8 = mode.utf8; // utf8 may be set by parse()
 
         Ok(Self { expr, component })
@@ -88,6 +91,9 @@ pub(crate) fn add_expression(
 
     let build_expr = build_graph(&mut pe);
 
+    #[cfg(rescan_verif)]
+    crate::verif::on_graph(&build_expr.g);
+
     unsafe {
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 32fc987..eb3f2e5 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -34,3 +34,19 @@ pub(crate) struct ExpressionInfo {
     /// Quiet on match.
     pub(crate) quiet: bool,
 }
+
+#[cfg(rescan_verif)]
+impl ExpressionInfo {
+    pub(crate) fn verif_new() -> Self {
+        Self {
+            index: 0,
+            report: 0,
+            allow_vacuous: false,
+            highlander: false,
+            utf8: false,
+            prefilter: false,
+            som: SomType::None,
+            quiet: false,
+        }
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index f906983..030702a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)]
+
 mod compiler;
 mod database;
 mod grey;
@@ -9,6 +11,8 @@ mod scratch;
 mod smallwrite;
 mod som;
 mod util;
+#[cfg(rescan_verif)]
+pub mod verif;
 
 use bitflags::bitflags;
 use compiler::{add_expression, build};
@@ -135,6 +139,9 @@ fn compile_multi_int(
         }
     }
 
+    #[cfg(rescan_verif)]
+    verif::on_build(&ng);
+
     Ok(build(&ng))
 }
 
diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index f8b94b7..54a12b2 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -5,3 +5,8 @@ mod ng_holder;
 pub(crate) use ng::Ng;
 pub(crate) use ng_builder::{make_nfa_builder, NfaBuilder};
 pub(crate) use ng_holder::{NfaVertex, NgHolder};
+
+#[cfg(rescan_verif)]
+pub(crate) mod verif {
+    pub use super::ng_holder::{graph_query, GraphObs};
+}
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 30c82b1..4290ca1 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -144,3 +144,15 @@ impl<'a> Ng<'a> {
         Ok(true)
     }
 }
+
+#[cfg(rescan_verif)]
+impl<'a> Ng<'a> {
+    pub(crate) fn verif_obs(&self) -> crate::verif::NgObs {
+        crate::verif::NgObs {
+            min_width: self.min_width.verif_value(),
+            has_som: self.rose.has_som,
+            reports: self.rm.verif_obs(),
+            small_write: self.smwr.verif_obs(),
+        }
+    }
+}
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 09ed15b..f2fa6c1 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -65,3 +65,17 @@ impl NfaBuilder {
 pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
+
+#[cfg(rescan_verif)]
+impl NfaBuilder {
+    pub(crate) fn verif_new() -> Self {
+        Self {
+            graph: NgHolder::new(),
+            expr: ExpressionInfo::verif_new(),
+        }
+    }
+
+    pub(crate) fn verif_assert_flags(&mut self, pos: Position, flags: PosFlags) {
+        self.graph[pos].assert_flags = flags;
+    }
+}
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 40dabe5..34a145b 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -117,3 +117,73 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     let v = NfaGraphVertexProps::default();
     g.add_node(v)
 }
+
+/// A graph. The vertices are numbered from zero.
+#[cfg(rescan_verif)]
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct GraphObs {
+    pub start: usize,
+    pub start_ds: usize,
+    pub accept: usize,
+    pub accept_eod: usize,
+    /// The characters of each vertex.
+    pub vertices: Vec<Vec<u8>>,
+    pub edges: Vec<(usize, usize)>,
+    pub vacuous: bool,
+    pub reports: Vec<ReportId>,
+}
+
+#[cfg(rescan_verif)]
+impl NgHolder {
+    pub(crate) fn verif_obs(&self) -> GraphObs {
+        let mut edges: Vec<_> = self
+            .inner
+            .raw_edges()
+            .iter()
+            .map(|e| (e.source().index(), e.target().index()))
+            .collect();
+        edges.sort_unstable();
+        let mut reports: Vec<_> = self.all_reports().into_iter().collect();
+        reports.sort_unstable();
+        GraphObs {
+            start: self.start.index(),
+            start_ds: self.start_ds.index(),
+            accept: self.accept.index(),
+            accept_eod: self.accept_eod.index(),
+            vertices: self
+                .inner
+                .node_indices()
+                .map(|v| (0..=255).filter(|&c| self[v].char_reach.test(c)).collect())
+                .collect(),
+            edges,
+            vacuous: self.is_vacuous(),
+            reports,
+        }
+    }
+}
+
+/// Makes a graph with the given number of ordinary vertices, and with the
+/// given edges and reports in addition to those of a new graph. The vertices
+/// 0 to 3 stand for start, start-dotstar, accept, and accept at end of data.
+#[cfg(rescan_verif)]
+#[must_use]
+pub fn graph_query(
+    num_vertices: usize,
+    edges: &[(usize, usize)],
+    reports: &[(usize, ReportId)],
+) -> GraphObs {
+    let mut g = NgHolder::new();
+    let mut v = vec![g.start, g.start_ds, g.accept, g.accept_eod];
+    for _ in 0..num_vertices {
+        let u = g.add_vertex();
+        v.push(u);
+    }
+    for &(from, to) in edges {
+        g.inner
+            .update_edge(v[from], v[to], NfaGraphEdgeProps::default());
+    }
+    for &(u, r) in reports {
+        g[v[u]].reports.insert(r);
+    }
+    g.verif_obs()
+}
diff --git a/src/parser.rs b/src/parser.rs
index 7bc52e4..01c99e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -6,13 +6,15 @@ mod component_class;
 mod component_sequence;
 mod const_component_visitor;
 mod control_verbs;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 mod dump;
 mod parser_util;
 mod position;
 mod position_info;
 mod prefilter;
 mod shortcut_literal;
+#[cfg(rescan_verif)]
+pub(crate) mod verif;
 
 pub(crate) use build_state::make_glushkov_build_state;
 pub(crate) use component::Component;
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index a71a308..400327c 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -113,3 +113,17 @@ fn filter_edges(bs: &GlushkovBuildState, from: PositionInfo, tolist: &mut Vec<Po
 pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildState {
     GlushkovBuildState::new(b)
 }
+
+#[cfg(rescan_verif)]
+impl<'a> GlushkovBuildState<'a> {
+    pub(in crate::parser) fn verif_epsilon(&self) -> Position {
+        Self::pos_epsilon()
+    }
+
+    pub(in crate::parser) fn verif_successors(&self) -> Vec<(Position, Vec<PositionInfo>)> {
+        self.successors
+            .iter()
+            .map(|(from, to)| (*from, to.iter().copied().collect()))
+            .collect()
+    }
+}
diff --git a/src/parser/component_sequence.rs b/src/parser/component_sequence.rs
index 26517a5..d1f89fb 100644
--- a/src/parser/component_sequence.rs
+++ b/src/parser/component_sequence.rs
@@ -45,7 +45,7 @@ impl ComponentSequence {
         }
     }
 
-    #[cfg(test)]
+    #[cfg(any(test, rescan_verif))]
     pub(super) fn children(&self) -> &Vec<Component> {
         &self.children
     }
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
new file mode 100644
index 0000000..6211179
--- /dev/null
+++ b/src/parser/verif.rs
@@ -0,0 +1,127 @@
+use super::ascii_component_class::AsciiComponentClass;
+use super::{
+    make_glushkov_build_state, walk_component, Component, ComponentAlternation, ComponentSequence,
+    ConstComponentVisitor, PosFlags, Position, PositionInfo,
+};
+use crate::nfagraph::NfaBuilder;
+use std::fmt;
+
+/// A step of a walk over a parse tree.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub enum TreeEvent {
+    EnterSequence(Option<u32>),
+    LeaveSequence,
+    EnterAlternation,
+    LeaveAlternation,
+    Class(Vec<u8>),
+}
+
+struct EventVisitor {
+    events: Vec<TreeEvent>,
+}
+
+impl ConstComponentVisitor for EventVisitor {
+    type Error = ();
+
+    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+        let chars = (0..=255).filter(|&b| c.cr.test(b)).collect();
+        self.events.push(TreeEvent::Class(chars));
+        Ok(())
+    }
+
+    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+        self.events.push(TreeEvent::EnterAlternation);
+        Ok(())
+    }
+
+    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
+        self.events.push(TreeEvent::EnterSequence(c.capture_index));
+        Ok(())
+    }
+
+    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
+    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
+    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+
+    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
+
+    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+        self.events.push(TreeEvent::LeaveAlternation);
+    }
+
+    fn post_component_sequence(&mut self, _c: &ComponentSequence) {
+        self.events.push(TreeEvent::LeaveSequence);
+    }
+}
+
+pub(crate) fn tree_events(component: &Component) -> Vec<TreeEvent> {
+    let mut v = EventVisitor { events: Vec::new() };
+    walk_component(&mut v, component).expect("infallible");
+    v.events
+}
+
+pub(crate) fn dump(out: &mut String, component: &Component) -> Result<(), fmt::Error> {
+    super::dump::dump_tree(out, component)
+}
+
+/// An end of an edge between positions: 's' (start), 'd' (start-dotstar),
+/// 'a' (accept), 'e' (accept at end of data), 'n' (epsilon), 'p' (an ordinary
+/// position), or 'm' (a position with a multiline start assertion); and the
+/// flags: 1 (no float), 2 (must float), 4 (multiline start).
+pub type Edge = (char, u8);
+
+/// Connects the positions with each other, and returns the edges from the
+/// positions in `lasts` that result. An 'x' is a position that did not exist.
+#[must_use]
+pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
+    let mut builder = NfaBuilder::verif_new();
+    let plain = builder.make_position();
+    let multiline = builder.make_position();
+    builder.verif_assert_flags(multiline, PosFlags::MULTILINE_START);
+    let mut named: Vec<(char, Position)> = vec![
+        ('s', builder.get_start()),
+        ('d', builder.get_start_dot_star()),
+        ('a', builder.get_accept()),
+        ('e', builder.get_accept_eod()),
+        ('p', plain),
+        ('m', multiline),
+    ];
+    let mut bs = make_glushkov_build_state(&mut builder);
+    named.push(('n', bs.verif_epsilon()));
+    let to_info = |e: &Edge| {
+        let mut info: PositionInfo = named.iter().find(|n| n.0 == e.0).expect("known").1.into();
+        if e.1 & 1 != 0 {
+            info.flags |= PosFlags::NOFLOAT;
+        }
+        if e.1 & 2 != 0 {
+            info.flags |= PosFlags::MUST_FLOAT;
+        }
+        if e.1 & 4 != 0 {
+            info.flags |= PosFlags::MULTILINE_START;
+        }
+        info
+    };
+    let lasts: Vec<_> = lasts.iter().map(to_info).collect();
+    let firsts: Vec<_> = firsts.iter().map(to_info).collect();
+    bs.connect_regions(&lasts, &firsts);
+    let name = |pos: Position| named.iter().find(|n| n.1 == pos).map_or('x', |n| n.0);
+    let mut edges: Vec<(char, Vec<Edge>)> = bs
+        .verif_successors()
+        .into_iter()
+        .map(|(from, to)| {
+            let mut to: Vec<Edge> = to
+                .into_iter()
+                .map(|i| {
+                    let flags = u8::from(i.flags.contains(PosFlags::NOFLOAT))
+                        + 2 * u8::from(i.flags.contains(PosFlags::MUST_FLOAT))
+                        + 4 * u8::from(i.flags.contains(PosFlags::MULTILINE_START));
+                    (name(i.pos), flags)
+                })
+                .collect();
+            to.sort_unstable();
+            (name(from), to)
+        })
+        .collect();
+    edges.sort();
+    edges
+}
diff --git a/src/rose.rs b/src/rose.rs
index 2c639b9..b7024a2 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -9,3 +9,9 @@ pub(crate) use rose_build::RoseBuild;
 use rose_build_bytecode::DerivedBoundaryReports;
 use rose_build_resources::RoseResources;
 pub(crate) use rose_internal::{RoseEngine, RoseRuntimeImpl};
+
+#[cfg(rescan_verif)]
+pub(crate) mod verif {
+    pub use super::rose_build_bytecode::{pick_runtime, Resources};
+    pub(crate) use super::rose_internal::mode;
+}
diff --git a/src/rose/rose_build.rs b/src/rose/rose_build.rs
index 88855ca..20c6c94 100644
--- a/src/rose/rose_build.rs
+++ b/src/rose/rose_build.rs
@@ -18,6 +18,9 @@ impl<'a> RoseBuild<'a> {
         _lit: &Ue2Literal,
         _reports: &HashSet<ReportId>,
     ) {
+        #[cfg(rescan_verif)]
+        crate::verif::on_rose_literal(_lit, _reports);
+
         if self.cc.grey.flood_as_puffette {
             return;
         }
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index f7c256b..3d21cfc 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -60,3 +60,55 @@ pub(super) fn pick_runtime_impl(build: &RoseBuild, resources: &RoseResources) ->
 }
 
 pub(super) struct DerivedBoundaryReports {}
+
+/// The resources in use.
+#[cfg(rescan_verif)]
+#[allow(clippy::struct_excessive_bools)]
+#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
+pub struct Resources {
+    pub has_outfixes: bool,
+    pub has_suffixes: bool,
+    pub has_leftfixes: bool,
+    pub has_literals: bool,
+    pub has_states: bool,
+    pub checks_groups: bool,
+    pub has_lit_delay: bool,
+    pub has_lit_check: bool,
+    pub has_anchored: bool,
+    pub has_anchored_multiple: bool,
+    pub has_anchored_large: bool,
+    pub has_floating: bool,
+    pub has_eod: bool,
+}
+
+/// Returns the runtime implementation for the given resources: 'f' (full),
+/// 'p' (pure literal), or 'o' (single outfix).
+#[cfg(rescan_verif)]
+#[must_use]
+pub fn pick_runtime(r: &Resources, streaming: bool, vectored: bool) -> char {
+    let cc = CompileContext::new(streaming, vectored, &crate::Grey::default());
+    let build = RoseBuild {
+        cc: &cc,
+        has_som: false,
+    };
+    let resources = RoseResources {
+        has_outfixes: r.has_outfixes,
+        has_suffixes: r.has_suffixes,
+        has_leftfixes: r.has_leftfixes,
+        has_literals: r.has_literals,
+        has_states: r.has_states,
+        checks_groups: r.checks_groups,
+        has_lit_delay: r.has_lit_delay,
+        has_lit_check: r.has_lit_check,
+        has_anchored: r.has_anchored,
+        has_anchored_multiple: r.has_anchored_multiple,
+        has_anchored_large: r.has_anchored_large,
+        has_floating: r.has_floating,
+        has_eod: r.has_eod,
+    };
+    match pick_runtime_impl(&build, &resources) {
+        RoseRuntimeImpl::FullRose => 'f',
+        RoseRuntimeImpl::PureLiteral => 'p',
+        RoseRuntimeImpl::SingleOutfix => 'o',
+    }
+}
diff --git a/src/rose/rose_internal.rs b/src/rose/rose_internal.rs
index 057005c..086ee23 100644
--- a/src/rose/rose_internal.rs
+++ b/src/rose/rose_internal.rs
@@ -14,3 +14,13 @@ pub(crate) struct RoseEngine {
     #[allow(dead_code)]
     pub(super) mode: Mode,
 }
+
+/// Returns the scanning mode of the engine: 'b', 's', or 'v'.
+#[cfg(rescan_verif)]
+pub(crate) fn mode(rose: &RoseEngine) -> char {
+    match rose.mode {
+        Mode::Block => 'b',
+        Mode::Stream(_) => 's',
+        Mode::Vectored => 'v',
+    }
+}
diff --git a/src/smallwrite.rs b/src/smallwrite.rs
index 76fad48..4ce1f07 100644
--- a/src/smallwrite.rs
+++ b/src/smallwrite.rs
@@ -1,3 +1,8 @@
 mod smallwrite_build;
 
 pub(crate) use smallwrite_build::SmallWriteBuild;
+
+#[cfg(rescan_verif)]
+pub(crate) mod verif {
+    pub use super::smallwrite_build::{SmallWriteObs, TrieObs};
+}
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 0d5e401..7379ab3 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -176,3 +176,57 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
+
+/// A trie. The vertices are numbered from zero.
+#[cfg(rescan_verif)]
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct TrieObs {
+    pub root: usize,
+    /// The character and the reports of each vertex.
+    pub vertices: Vec<(u8, Vec<ReportId>)>,
+    pub edges: Vec<(usize, usize)>,
+}
+
+/// The state of a small-write builder.
+#[cfg(rescan_verif)]
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct SmallWriteObs {
+    pub poisoned: bool,
+    pub cased: TrieObs,
+    pub caseless: TrieObs,
+}
+
+#[cfg(rescan_verif)]
+impl LitTrie {
+    fn verif_obs(&self) -> TrieObs {
+        TrieObs {
+            root: self.root.index(),
+            vertices: self
+                .inner
+                .node_indices()
+                .map(|v| {
+                    let mut reports: Vec<_> = self.inner[v].reports.iter().copied().collect();
+                    reports.sort_unstable();
+                    (self.inner[v].c, reports)
+                })
+                .collect(),
+            edges: self
+                .inner
+                .raw_edges()
+                .iter()
+                .map(|e| (e.source().index(), e.target().index()))
+                .collect(),
+        }
+    }
+}
+
+#[cfg(rescan_verif)]
+impl<'a> SmallWriteBuild<'a> {
+    pub(crate) fn verif_obs(&self) -> SmallWriteObs {
+        SmallWriteObs {
+            poisoned: self.poisoned,
+            cased: self.lit_trie.verif_obs(),
+            caseless: self.lit_trie_nocase.verif_obs(),
+        }
+    }
+}
diff --git a/src/util.rs b/src/util.rs
index 23f5a3e..4b19576 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -5,7 +5,7 @@ mod compare;
 mod compile_context;
 pub(crate) mod compile_error;
 pub(crate) mod depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 mod dump_charclass;
 mod report;
 mod report_manager;
@@ -17,9 +17,21 @@ pub(crate) use boundary_reports::BoundaryReports;
 pub(crate) use charreach::{make_caseless, CharReach};
 pub(crate) use compile_context::CompileContext;
 pub(crate) use depth::Depth;
-#[cfg(test)]
+#[cfg(any(test, rescan_verif))]
 pub(crate) use dump_charclass::{describe_class, CcOutput};
 pub(crate) use report::{make_e_callback, make_som_relative_callback, Report};
 pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
+
+#[cfg(rescan_verif)]
+pub(crate) use charreach::{fill_bitvector, make_and_cmp_mask};
+
+#[cfg(rescan_verif)]
+pub(crate) mod verif {
+    pub use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+    pub use super::report::ReportObs;
+    pub use super::ue2common::{
+        round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
+    };
+}
diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index fa18681..55ec00f 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -56,3 +56,10 @@ impl fmt::Display for CompileError {
         }
     }
 }
+
+#[cfg(rescan_verif)]
+impl CompileError {
+    pub(crate) fn verif_parts(&self) -> (&ErrorKind, &str, Option<u32>) {
+        (&self.kind, &self.reason, self.index)
+    }
+}
diff --git a/src/util/depth.rs b/src/util/depth.rs
index f581eae..5ad845c 100644
--- a/src/util/depth.rs
+++ b/src/util/depth.rs
@@ -63,3 +63,14 @@ impl PartialOrd for Depth {
         Some(self.cmp(other))
     }
 }
+
+#[cfg(rescan_verif)]
+impl Depth {
+    pub(crate) fn verif_value(self) -> Option<u32> {
+        if self == Self::infinity() {
+            None
+        } else {
+            Some(self.val)
+        }
+    }
+}
diff --git a/src/util/report.rs b/src/util/report.rs
index b5effb5..f999044 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -60,3 +60,29 @@ pub(crate) fn make_som_relative_callback(report: u32, offset_adjust: i32, distan
         min_length: 0,
     }
 }
+
+/// What a report stands for.
+#[cfg(rescan_verif)]
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct ReportObs {
+    pub som_relative: bool,
+    pub on_match: u32,
+    pub offset_adjust: i32,
+    pub ekey: Option<u32>,
+    pub quiet: bool,
+    pub som_distance: u64,
+}
+
+#[cfg(rescan_verif)]
+impl Report {
+    pub(crate) fn verif_obs(&self) -> ReportObs {
+        ReportObs {
+            som_relative: self.ty == ReportType::ExternalCallbackSomRel,
+            on_match: self.on_match,
+            offset_adjust: self.offset_adjust,
+            ekey: self.ekey,
+            quiet: self.quiet,
+            som_distance: self.som_distance,
+        }
+    }
+}
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index ffad6df..4ce1399 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -145,3 +145,23 @@ impl<'a> ReportManager<'a> {
         *self.to_exhaustible_key_map.entry(a.into()).or_insert(size)
     }
 }
+
+#[cfg(rescan_verif)]
+impl<'a> ReportManager<'a> {
+    pub(crate) fn verif_obs(&self) -> crate::verif::ReportsObs {
+        crate::verif::ReportsObs {
+            reports: self.report_ids.iter().map(Report::verif_obs).collect(),
+            external: self
+                .external_id_map
+                .iter()
+                .map(|(&id, e)| (id, (e.highlander, e.first_pattern_index)))
+                .collect(),
+            ekeys: self
+                .to_exhaustible_key_map
+                .iter()
+                .map(|(&a, &k)| (a, k))
+                .collect(),
+            global_exhaust: self.global_exhaust,
+        }
+    }
+}
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index bdba568..832ebb5 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -117,6 +117,13 @@ where
     cs && nc
 }
 
+#[cfg(rescan_verif)]
+impl Ue2LiteralElem {
+    pub(crate) fn verif_nocase(&self) -> bool {
+        self.nocase
+    }
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..bc1cd66
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,700 @@
+//! Hooks for external verification harnesses.
+//!
+//! Compiled only with `--cfg rescan_verif`; nothing in the library depends on
+//! it. The hooks observe what a compilation does (see [`start`] and [`take`])
+//! and give access to the internal building blocks.
+
+use crate::nfagraph::{Ng, NgHolder};
+use crate::parser::{Component, ParseMode};
+use crate::util::{
+    make_and_cmp_mask, make_caseless, CharReach, CompileContext, Depth, ExternalReportInfo,
+    ReportManager, Ue2Literal,
+};
+use crate::{CompileError, Database, ErrorKind, Flags, Grey, Mode, Scratch, SomType};
+use std::cell::RefCell;
+use std::cmp::Ordering;
+use std::collections::BTreeMap;
+use std::convert::TryFrom;
+
+pub use crate::nfagraph::verif::{graph_query, GraphObs};
+pub use crate::parser::verif::{connect, Edge, TreeEvent};
+pub use crate::rose::verif::{pick_runtime, Resources};
+pub use crate::smallwrite::verif::{SmallWriteObs, TrieObs};
+pub use crate::util::verif::ReportObs;
+
+// Observation of compilations.
+
+/// A literal as a list of characters with their case insensitivity.
+pub type Lit = Vec<(u8, bool)>;
+
+/// What happened to an expression.
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct ExprObs {
+    pub tree: Vec<TreeEvent>,
+    pub caseless: bool,
+    pub dotall: bool,
+    pub ignore_space: bool,
+    pub multiline: bool,
+    pub ucp: bool,
+    pub utf8: bool,
+    pub literals: Vec<(Lit, Vec<u32>)>,
+    pub graphs: Vec<GraphObs>,
+}
+
+/// What the expressions were turned into.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct NgObs {
+    pub min_width: Option<u32>,
+    pub has_som: bool,
+    pub reports: ReportsObs,
+    pub small_write: SmallWriteObs,
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct ReportsObs {
+    pub reports: Vec<ReportObs>,
+    pub external: BTreeMap<u32, (bool, u32)>,
+    pub ekeys: BTreeMap<i64, u32>,
+    pub global_exhaust: bool,
+}
+
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct Trace {
+    pub expressions: Vec<ExprObs>,
+    pub ng: Option<NgObs>,
+}
+
+thread_local! {
+    static TRACE: RefCell<Option<Trace>> = RefCell::new(None);
+}
+
+/// Starts observing the compilations of this thread.
+pub fn start() {
+    TRACE.with(|t| *t.borrow_mut() = Some(Trace::default()));
+}
+
+/// Stops observing and returns what has been observed.
+pub fn take() -> Trace {
+    TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
+}
+
+fn observe<F: FnOnce(&mut Trace)>(f: F) {
+    TRACE.with(|t| {
+        if let Some(t) = t.borrow_mut().as_mut() {
+            f(t);
+        }
+    });
+}
+
+pub(crate) fn on_parsed(component: &Component, mode: &ParseMode) {
+    observe(|t| {
+        t.expressions.push(ExprObs {
+            tree: crate::parser::verif::tree_events(component),
+            caseless: mode.caseless,
+            dotall: mode.dotall,
+            ignore_space: mode.ignore_space,
+            multiline: mode.multiline,
+            ucp: mode.ucp,
+            utf8: mode.utf8,
+            literals: Vec::new(),
+            graphs: Vec::new(),
+        });
+    });
+}
+
+pub(crate) fn on_rose_literal(lit: &Ue2Literal, reports: &std::collections::HashSet<u32>) {
+    observe(|t| {
+        let mut reports: Vec<_> = reports.iter().copied().collect();
+        reports.sort_unstable();
+        if t.expressions.is_empty() {
+            t.expressions.push(ExprObs::default());
+        }
+        let e = t.expressions.last_mut().expect("not empty");
+        e.literals.push((lit_elems(lit), reports));
+    });
+}
+
+pub(crate) fn on_graph(g: &NgHolder) {
+    observe(|t| {
+        if let Some(e) = t.expressions.last_mut() {
+            e.graphs.push(g.verif_obs());
+        }
+    });
+}
+
+pub(crate) fn on_build(ng: &Ng) {
+    observe(|t| t.ng = Some(ng.verif_obs()));
+}
+
+fn lit_elems(lit: &Ue2Literal) -> Lit {
+    lit.iter().map(|e| (e.c, e.verif_nocase())).collect()
+}
+
+// Compilation with explicit settings.
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct Limits {
+    pub allow_literal: bool,
+    pub shortcut_literals: bool,
+    pub allow_small_write: bool,
+    pub small_write_largest_buffer: usize,
+    pub small_write_max_patterns: usize,
+    pub small_write_max_literals: usize,
+    pub pattern_count: usize,
+    pub pattern_length: usize,
+    pub report_count: usize,
+}
+
+impl Default for Limits {
+    fn default() -> Self {
+        let g = Grey::default();
+        Self {
+            allow_literal: g.allow_literal,
+            shortcut_literals: g.shortcut_literals,
+            allow_small_write: g.allow_small_write,
+            small_write_largest_buffer: g.small_write_largest_buffer,
+            small_write_max_patterns: g.small_write_max_patterns,
+            small_write_max_literals: g.small_write_max_literals,
+            pattern_count: g.limit_pattern_count,
+            pattern_length: g.limit_pattern_length,
+            report_count: g.limit_report_count,
+        }
+    }
+}
+
+impl Limits {
+    fn grey(&self) -> Grey {
+        Grey {
+            allow_literal: self.allow_literal,
+            shortcut_literals: self.shortcut_literals,
+            allow_small_write: self.allow_small_write,
+            small_write_largest_buffer: self.small_write_largest_buffer,
+            small_write_max_patterns: self.small_write_max_patterns,
+            small_write_max_literals: self.small_write_max_literals,
+            limit_pattern_count: self.pattern_count,
+            limit_pattern_length: self.pattern_length,
+            limit_report_count: self.report_count,
+            ..Grey::default()
+        }
+    }
+}
+
+/// Compiles expressions with the given limits.
+///
+/// # Errors
+///
+/// Returns an error if any expression is invalid.
+pub fn compile_with(
+    expressions: &[&str],
+    flags: &[Flags],
+    ids: &[u32],
+    mode: &Mode,
+    limits: &Limits,
+) -> Result<Database, CompileError> {
+    crate::compile_multi_int(expressions, flags, ids, mode, &limits.grey())
+}
+
+/// Returns the category, the reason, and the expression index of an error.
+#[must_use]
+pub fn error_parts(e: &CompileError) -> (&ErrorKind, &str, Option<u32>) {
+    e.verif_parts()
+}
+
+/// Returns the scanning mode of a database: 'b', 's', or 'v'.
+#[must_use]
+pub fn database_mode(db: &Database) -> char {
+    crate::rose::verif::mode(crate::database::get_bytecode(db))
+}
+
+/// Returns the number of bytes of SOM precision of a mode.
+#[must_use]
+pub fn som_precision(mode: &Mode) -> usize {
+    mode.som_precision()
+}
+
+#[must_use]
+pub fn new_scratch() -> Scratch {
+    Scratch {
+        core_info: crate::scratch::CoreInfo {
+            state: std::ptr::null_mut(),
+        },
+    }
+}
+
+// Literals.
+
+#[derive(Default)]
+pub struct Literal(Ue2Literal);
+
+impl Literal {
+    #[must_use]
+    pub fn new(elems: &[(u8, bool)]) -> Self {
+        let mut lit = Ue2Literal::default();
+        for &(c, nocase) in elems {
+            lit.push(c, nocase);
+        }
+        Self(lit)
+    }
+
+    pub fn push(&mut self, c: u8, nocase: bool) {
+        self.0.push(c, nocase);
+    }
+
+    #[must_use]
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
+    #[must_use]
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+
+    #[must_use]
+    pub fn any_nocase(&self) -> bool {
+        self.0.any_nocase()
+    }
+
+    #[must_use]
+    pub fn elems(&self) -> Lit {
+        lit_elems(&self.0)
+    }
+
+    #[must_use]
+    pub fn elems_by_ref(&self) -> Lit {
+        let mut v = Lit::new();
+        for e in &self.0 {
+            v.push((e.c, e.verif_nocase()));
+        }
+        v
+    }
+
+    #[must_use]
+    pub fn mixed_sensitivity(&self) -> bool {
+        crate::util::mixed_sensitivity(&self.0)
+    }
+
+    #[must_use]
+    pub fn equal(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+
+    #[must_use]
+    pub fn compare(&self, other: &Self) -> Ordering {
+        self.0.cmp(&other.0)
+    }
+
+    #[must_use]
+    pub fn partial_compare(&self, other: &Self) -> Option<Ordering> {
+        self.0.partial_cmp(&other.0)
+    }
+}
+
+/// An operation on a small-write builder.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct AddLiteral {
+    pub lit: Lit,
+    pub report: u32,
+}
+
+/// Adds the literals to a new small-write builder.
+#[must_use]
+pub fn small_write(num_patterns: usize, limits: &Limits, ops: &[AddLiteral]) -> SmallWriteObs {
+    let cc = CompileContext::new(false, false, &limits.grey());
+    let mut b = crate::SmallWriteBuild::new(num_patterns, &cc);
+    for op in ops {
+        b.add_literal(&Literal::new(&op.lit).0, op.report);
+    }
+    b.verif_obs()
+}
+
+/// A literal to be added to the set of expressions being compiled.
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct NgLiteral {
+    pub lit: Lit,
+    pub index: u32,
+    pub id: u32,
+    pub highlander: bool,
+    pub som: bool,
+    pub quiet: bool,
+}
+
+/// Adds the literals to a new `Ng`; returns what each call returned, and the
+/// resulting state.
+#[must_use]
+pub fn ng_literals(
+    num_patterns: usize,
+    limits: &Limits,
+    ops: &[NgLiteral],
+) -> (Vec<Result<bool, CompileError>>, NgObs) {
+    let cc = CompileContext::new(false, false, &limits.grey());
+    let mut ng = Ng::new(&cc, num_patterns, 0);
+    let res = ops
+        .iter()
+        .map(|op| {
+            let lit = Literal::new(&op.lit).0;
+            let som = if op.som { SomType::Left } else { SomType::None };
+            unsafe {
+                ng.as_mut().get_unchecked_mut().add_literal(
+                    &lit,
+                    op.index,
+                    op.id,
+                    op.highlander,
+                    som,
+                    op.quiet,
+                )
+            }
+        })
+        .collect();
+    (res, ng.verif_obs())
+}
+
+// Reports.
+
+/// An operation on a report manager.
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub enum ReportOp {
+    Callback(u32, i32, Option<u32>, bool),
+    SomCallback(u32, i32, u64),
+    Register(u32, bool, u32),
+    ExhaustibleKey(u32),
+}
+
+/// What an operation on a report manager returned.
+#[derive(Debug)]
+pub enum ReportResult {
+    Id(Result<u32, CompileError>),
+    Registered(Result<(), CompileError>),
+    Key(u32),
+}
+
+/// Runs the operations on a new report manager. After each operation, the
+/// reports of all the internal IDs handed out so far are looked up again.
+#[must_use]
+pub fn report_manager(
+    report_limit: usize,
+    ops: &[ReportOp],
+) -> (Vec<(ReportResult, Vec<ReportObs>)>, ReportsObs) {
+    let grey = Grey {
+        limit_report_count: report_limit,
+        ..Grey::default()
+    };
+    let mut rm = ReportManager::new(&grey);
+    let mut ids: Vec<u32> = Vec::new();
+    let mut res = Vec::new();
+    for op in ops {
+        let r = match *op {
+            ReportOp::Callback(id, adj, ekey, quiet) => {
+                let r = crate::util::make_e_callback(id, adj, ekey, quiet);
+                ReportResult::Id(rm.get_internal_id(&r))
+            }
+            ReportOp::SomCallback(id, adj, distance) => {
+                let r = crate::util::make_som_relative_callback(id, adj, distance);
+                ReportResult::Id(rm.get_internal_id(&r))
+            }
+            ReportOp::Register(id, highlander, index) => ReportResult::Registered(
+                rm.register_ext_report(id, ExternalReportInfo::new(highlander, index)),
+            ),
+            ReportOp::ExhaustibleKey(a) => ReportResult::Key(rm.get_exhaustible_key(a)),
+        };
+        if let ReportResult::Id(Ok(id)) = r {
+            ids.push(id);
+        }
+        let reports = ids
+            .iter()
+            .map(|&id| rm.get_report(id).verif_obs())
+            .collect();
+        res.push((r, reports));
+    }
+    (res, rm.verif_obs())
+}
+
+// Character classes.
+
+#[derive(Clone, Copy, Debug, Default, Eq, Hash, Ord, PartialEq, PartialOrd)]
+pub struct Class(CharReach);
+
+#[allow(clippy::missing_panics_doc)]
+impl Class {
+    #[must_use]
+    pub fn from_char(c: u8) -> Self {
+        Self(CharReach::from_char(c))
+    }
+
+    #[must_use]
+    pub fn from_range(from: u8, to: u8) -> Self {
+        Self(CharReach::from_range(from, to))
+    }
+
+    #[must_use]
+    pub fn from_bytes(bytes: &[u8]) -> Self {
+        Self(CharReach::from_bytes(bytes))
+    }
+
+    #[must_use]
+    pub fn dot() -> Self {
+        Self(CharReach::dot())
+    }
+
+    #[inline]
+    pub fn reset_all(&mut self) {
+        self.0.reset_all();
+    }
+
+    #[inline]
+    pub fn set_all(&mut self) {
+        self.0.set_all();
+    }
+
+    #[inline]
+    pub fn reset(&mut self, c: u8) {
+        self.0.reset(c);
+    }
+
+    #[inline]
+    pub fn set(&mut self, c: u8) {
+        self.0.set(c);
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn test(&self, c: u8) -> bool {
+        self.0.test(c)
+    }
+
+    #[inline]
+    pub fn flip_all(&mut self) {
+        self.0.flip_all();
+    }
+
+    #[inline]
+    pub fn flip(&mut self, c: u8) {
+        self.0.flip(c);
+    }
+
+    #[inline]
+    pub fn set_range(&mut self, from: u8, to: u8) {
+        self.0.set_range(from, to);
+    }
+
+    #[inline]
+    pub fn set_bytes(&mut self, bytes: &[u8]) {
+        self.0.set_bytes(bytes);
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn count(&self) -> u32 {
+        self.0.count()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn none(&self) -> bool {
+        self.0.none()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn any(&self) -> bool {
+        self.0.any()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn all(&self) -> bool {
+        self.0.all()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn find_first(&self) -> Option<u8> {
+        self.0.find_first()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn find_last(&self) -> Option<u8> {
+        self.0.find_last()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn find_next(&self, last: u8) -> Option<u8> {
+        self.0.find_next(last)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn find_nth(&self, n: u8) -> Option<u8> {
+        self.0.find_nth(n)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_alphabetic(&self) -> bool {
+        self.0.is_alphabetic()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_caseless_char(&self) -> bool {
+        self.0.is_caseless_char()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_bit5_insensitive(&self) -> bool {
+        self.0.is_bit5_insensitive()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_subset_of(&self, rhs: &Self) -> bool {
+        self.0.is_subset_of(&rhs.0)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn overlaps(&self, rhs: &Self) -> bool {
+        self.0.overlaps(&rhs.0)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_ascii(&self) -> bool {
+        self.0.is_ascii()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn is_utf8_start(&self) -> bool {
+        self.0.is_utf8_start()
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn and(self, rhs: Self) -> Self {
+        Self(self.0 & rhs.0)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn or(self, rhs: Self) -> Self {
+        Self(self.0 | rhs.0)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn xor(self, rhs: Self) -> Self {
+        Self(self.0 ^ rhs.0)
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn complement(self) -> Self {
+        Self(!self.0)
+    }
+
+    #[inline]
+    pub fn and_assign(&mut self, rhs: Self) {
+        self.0 &= rhs.0;
+    }
+
+    #[inline]
+    pub fn or_assign(&mut self, rhs: Self) {
+        self.0 |= rhs.0;
+    }
+
+    #[inline]
+    pub fn xor_assign(&mut self, rhs: Self) {
+        self.0 ^= rhs.0;
+    }
+
+    #[inline]
+    pub fn make_caseless(&mut self) {
+        make_caseless(&mut self.0);
+    }
+
+    #[inline]
+    pub fn fill_bitvector(&self, bits: &mut [u8]) {
+        crate::util::fill_bitvector(&self.0, bits);
+    }
+
+    #[inline]
+    #[must_use]
+    pub fn and_cmp_mask(&self) -> (u8, u8) {
+        make_and_cmp_mask(&self.0)
+    }
+
+    /// Describes the class, as text or (if `dot`) as a DOT label.
+    #[must_use]
+    pub fn describe(&self, dot: bool) -> String {
+        let out_type = if dot {
+            crate::util::CcOutput::Dot
+        } else {
+            crate::util::CcOutput::Text
+        };
+        let mut s = String::new();
+        crate::util::describe_class(&mut s, &self.0, 256, out_type).expect("infallible");
+        s
+    }
+}
+
+impl std::fmt::Display for Class {
+    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+/// Parses the expression and describes the parse tree.
+///
+/// # Errors
+///
+/// Returns an error if the expression is invalid.
+#[allow(clippy::missing_panics_doc)]
+pub fn dump_expression(expression: &str, flags: Flags) -> Result<String, CompileError> {
+    let mut mode = ParseMode::new(flags);
+    let component = crate::parser::parse(expression, &mut mode)?;
+    let mut s = String::new();
+    crate::parser::verif::dump(&mut s, &component).expect("infallible");
+    Ok(s)
+}
+
+// ASCII characters.
+
+pub use crate::util::verif::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+
+// Alignment.
+
+pub use crate::util::verif::{
+    round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
+};
+
+// Depths.
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd)]
+pub struct DepthValue(Depth);
+
+impl DepthValue {
+    #[must_use]
+    pub fn infinity() -> Self {
+        Self(Depth::infinity())
+    }
+
+    #[must_use]
+    pub fn from_u32(v: u32) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+
+    #[must_use]
+    pub fn from_usize(v: usize) -> Option<Self> {
+        Depth::try_from(v).ok().map(Self)
+    }
+
+    /// Returns the count; `None` means infinity.
+    #[must_use]
+    pub fn value(&self) -> Option<u32> {
+        self.0.verif_value()
+    }
+}
-- 
2.43.0


From 8607e0f85d419be1d2cdf3cf3ec80c27f66d9558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:36 +0000
Subject: [PATCH 14/26] hooks: hashable observations, optional lookups

---
 src/nfagraph/ng_holder.rs          |  2 +-
 src/parser/verif.rs                |  2 +-
 src/smallwrite/smallwrite_build.rs |  4 ++--
 src/util/report.rs                 |  2 +-
 src/verif.rs                       | 22 ++++++++++++----------
 5 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 34a145b..79d5fbf 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -120,7 +120,7 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
 
 /// A graph. The vertices are numbered from zero.
 #[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct GraphObs {
     pub start: usize,
     pub start_ds: usize,
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index 6211179..9c31401 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -7,7 +7,7 @@ use crate::nfagraph::NfaBuilder;
 use std::fmt;
 
 /// A step of a walk over a parse tree.
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub enum TreeEvent {
     EnterSequence(Option<u32>),
     LeaveSequence,
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index 7379ab3..bb8d248 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -179,7 +179,7 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
 
 /// A trie. The vertices are numbered from zero.
 #[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct TrieObs {
     pub root: usize,
     /// The character and the reports of each vertex.
@@ -189,7 +189,7 @@ pub struct TrieObs {
 
 /// The state of a small-write builder.
 #[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct SmallWriteObs {
     pub poisoned: bool,
     pub cased: TrieObs,
diff --git a/src/util/report.rs b/src/util/report.rs
index f999044..bfff916 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -63,7 +63,7 @@ pub(crate) fn make_som_relative_callback(report: u32, offset_adjust: i32, distan
 
 /// What a report stands for.
 #[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct ReportObs {
     pub som_relative: bool,
     pub on_match: u32,
diff --git a/src/verif.rs b/src/verif.rs
index bc1cd66..8ecf353 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -28,7 +28,7 @@ pub use crate::util::verif::ReportObs;
 pub type Lit = Vec<(u8, bool)>;
 
 /// What happened to an expression.
-#[derive(Clone, Debug, Default, Eq, PartialEq)]
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
 pub struct ExprObs {
     pub tree: Vec<TreeEvent>,
     pub caseless: bool,
@@ -42,7 +42,7 @@ pub struct ExprObs {
 }
 
 /// What the expressions were turned into.
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct NgObs {
     pub min_width: Option<u32>,
     pub has_som: bool,
@@ -50,7 +50,7 @@ pub struct NgObs {
     pub small_write: SmallWriteObs,
 }
 
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct ReportsObs {
     pub reports: Vec<ReportObs>,
     pub external: BTreeMap<u32, (bool, u32)>,
@@ -58,7 +58,7 @@ pub struct ReportsObs {
     pub global_exhaust: bool,
 }
 
-#[derive(Clone, Debug, Default, Eq, PartialEq)]
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
 pub struct Trace {
     pub expressions: Vec<ExprObs>,
     pub ng: Option<NgObs>,
@@ -132,7 +132,7 @@ fn lit_elems(lit: &Ue2Literal) -> Lit {
 
 // Compilation with explicit settings.
 
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct Limits {
     pub allow_literal: bool,
     pub shortcut_literals: bool,
@@ -291,7 +291,7 @@ impl Literal {
 }
 
 /// An operation on a small-write builder.
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct AddLiteral {
     pub lit: Lit,
     pub report: u32,
@@ -309,7 +309,7 @@ pub fn small_write(num_patterns: usize, limits: &Limits, ops: &[AddLiteral]) ->
 }
 
 /// A literal to be added to the set of expressions being compiled.
-#[derive(Clone, Debug, Eq, PartialEq)]
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
 pub struct NgLiteral {
     pub lit: Lit,
     pub index: u32,
@@ -368,12 +368,14 @@ pub enum ReportResult {
     Key(u32),
 }
 
-/// Runs the operations on a new report manager. After each operation, the
-/// reports of all the internal IDs handed out so far are looked up again.
+/// Runs the operations on a new report manager. After each operation (or, if
+/// not `each`, the last one), the reports of all the internal IDs handed out so
+/// far are looked up again.
 #[must_use]
 pub fn report_manager(
     report_limit: usize,
     ops: &[ReportOp],
+    each: bool,
 ) -> (Vec<(ReportResult, Vec<ReportObs>)>, ReportsObs) {
     let grey = Grey {
         limit_report_count: report_limit,
@@ -382,7 +384,7 @@ pub fn report_manager(
     let mut rm = ReportManager::new(&grey);
     let mut ids: Vec<u32> = Vec::new();
     let mut res = Vec::new();
-    for op in ops {
+    for (i, op) in ops.iter().enumerate() {
         let r = match *op {
             ReportOp::Callback(id, adj, ekey, quiet) => {
                 let r = crate::util::make_e_callback(id, adj, ekey, quiet);
-- 
2.43.0


From 87133980b878fcaaf952713d807529d012a64928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 15/26] hooks: complete optional lookups

---
 src/verif.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index 8ecf353..c6653db 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -352,7 +352,7 @@ pub fn ng_literals(
 // Reports.
 
 /// An operation on a report manager.
-#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
 pub enum ReportOp {
     Callback(u32, i32, Option<u32>, bool),
     SomCallback(u32, i32, u64),
@@ -402,10 +402,10 @@ pub fn report_manager(
         if let ReportResult::Id(Ok(id)) = r {
             ids.push(id);
         }
-        let reports = ids
-            .iter()
-            .map(|&id| rm.get_report(id).verif_obs())
-            .collect();
+        let mut reports = Vec::new();
+        if each || i + 1 == ops.len() {
+            reports.extend(ids.iter().map(|&id| rm.get_report(id).verif_obs()));
+        }
         res.push((r, reports));
     }
     (res, rm.verif_obs())
-- 
2.43.0


From 2a4b3cef3db93ea2827093b9f21a3adba360a599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 16/26] hooks: let a harness delay a thread within a
 compilation

---
 src/compiler.rs                |  9 +++++++++
 src/lib.rs                     |  6 ++++++
 src/nfagraph/ng.rs             |  6 ++++++
 src/parser.rs                  |  5 +++++
 src/parser/shortcut_literal.rs |  3 +++
 src/verif.rs                   | 18 ++++++++++++++++++
 6 files changed, 47 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 0c412f6..aa3c68e 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -78,6 +78,9 @@ pub(crate) fn add_expression(
 
     let mut pe = ParsedExpression::new(index, expression, flags, id)?;
 
+    #[cfg(rescan_verif)]
+    crate::verif::step("parsed");
+
     // Apply prefiltering transformations if desired.
     if pe.expr.prefilter {
         prefilter_tree(&pe.component);
@@ -91,6 +94,9 @@ pub(crate) fn add_expression(
 
     let build_expr = build_graph(&mut pe);
 
+    #[cfg(rescan_verif)]
+    crate::verif::step("graph");
+
     #[cfg(rescan_verif)]
     crate::verif::on_graph(&build_expr.g);
 
@@ -121,6 +127,9 @@ pub(crate) fn build_graph(pe: &mut ParsedExpression) -> BuiltExpression {
 
     let mut bs = make_glushkov_build_state(&mut builder);
 
+    #[cfg(rescan_verif)]
+    crate::verif::step("positions");
+
     // Map position IDs to characters/components.
     pe.component.note_positions(&mut bs);
 
diff --git a/src/lib.rs b/src/lib.rs
index 030702a..c6b1686 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -133,6 +133,9 @@ fn compile_multi_int(
     let mut ng = Ng::new(&cc, expressions.len(), som_precision);
 
     for (i, (exp, &fl, &id)) in izip!(expressions, flags, ids).enumerate() {
+        #[cfg(rescan_verif)]
+        verif::step("expression");
+
         if let Err(mut e) = add_expression(&mut ng, i, exp, fl, id) {
             e.set_expression_index(i.try_into().unwrap());
             return Err(e);
@@ -142,6 +145,9 @@ fn compile_multi_int(
     #[cfg(rescan_verif)]
     verif::on_build(&ng);
 
+    #[cfg(rescan_verif)]
+    verif::step("build");
+
     Ok(build(&ng))
 }
 
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 4290ca1..6a189a4 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -128,6 +128,9 @@ impl<'a> Ng<'a> {
             id
         }?;
 
+        #[cfg(rescan_verif)]
+        crate::verif::step("reported");
+
         self.rose.add(false, false, literal, &hashset! {id});
 
         self.min_width = min(
@@ -138,6 +141,9 @@ impl<'a> Ng<'a> {
                 .map_err(|_| CompileError::new(ErrorKind::Other, "depth overflow"))?,
         );
 
+        #[cfg(rescan_verif)]
+        crate::verif::step("added");
+
         // Inform small write handler about this literal.
         self.smwr.add_literal(literal, id);
 
diff --git a/src/parser.rs b/src/parser.rs
index 01c99e5..2b050e5 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -163,6 +163,8 @@ impl<'p> Context<'p> {
 
     fn parse(mut self) -> Result<ComponentSequence, CompileError> {
         while !self.p.is_empty() {
+            #[cfg(rescan_verif)]
+            crate::verif::step("character");
             self.main(self.p)?;
         }
 
@@ -186,6 +188,9 @@ impl<'p> Context<'p> {
 pub(crate) fn parse(ptr: &str, global_mode: &mut ParseMode) -> Result<Component, CompileError> {
     let p = read_control_verbs(ptr, 0, global_mode)?;
 
+    #[cfg(rescan_verif)]
+    crate::verif::step("verbs");
+
     let root_seq = Context::new(ptr, p, *global_mode).parse()?;
 
     Ok(Component::Sequence(root_seq))
diff --git a/src/parser/shortcut_literal.rs b/src/parser/shortcut_literal.rs
index ed7bb9d..fe1826b 100644
--- a/src/parser/shortcut_literal.rs
+++ b/src/parser/shortcut_literal.rs
@@ -73,6 +73,9 @@ pub(crate) fn shortcut_literal(
         return Ok(false);
     }
 
+    #[cfg(rescan_verif)]
+    crate::verif::step("literal");
+
     unsafe {
         ng.as_mut().get_unchecked_mut().add_literal(
             lit,
diff --git a/src/verif.rs b/src/verif.rs
index c6653db..80097a0 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -78,6 +78,24 @@ pub fn take() -> Trace {
     TRACE.with(|t| t.borrow_mut().take()).unwrap_or_default()
 }
 
+thread_local! {
+    static STEP: RefCell<Option<Box<dyn Fn(&'static str)>>> = RefCell::new(None);
+}
+
+/// Sets what this thread does at each step of a compilation.
+pub fn on_step(f: Option<Box<dyn Fn(&'static str)>>) {
+    STEP.with(|s| *s.borrow_mut() = f);
+}
+
+/// A point at which the thread can be delayed.
+pub(crate) fn step(what: &'static str) {
+    STEP.with(|s| {
+        if let Some(f) = s.borrow().as_ref() {
+            f(what);
+        }
+    });
+}
+
 fn observe<F: FnOnce(&mut Trace)>(f: F) {
     TRACE.with(|t| {
         if let Some(t) = t.borrow_mut().as_mut() {
-- 
2.43.0


From 1874791c053831fbd3adc6203b40ad3773bf3e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:04 +0000
Subject: [PATCH 17/26] hooks: small-write builder with automata

---
 src/nfagraph.rs                    |  1 +
 src/nfagraph/ng.rs                 | 23 ++++++++++++++++++
 src/nfagraph/ng_holder.rs          | 18 ++++++++++----
 src/smallwrite/smallwrite_build.rs |  6 +++++
 src/verif.rs                       | 38 ++++++++++++++++++++++++++++++
 5 files changed, 82 insertions(+), 4 deletions(-)

diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index 54a12b2..ca13bfe 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -8,5 +8,6 @@ pub(crate) use ng_holder::{NfaVertex, NgHolder};
 
 #[cfg(rescan_verif)]
 pub(crate) mod verif {
+    pub(crate) use super::ng_holder::make_graph;
     pub use super::ng_holder::{graph_query, GraphObs};
 }
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 6a189a4..efeb389 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -161,4 +161,27 @@ impl<'a> Ng<'a> {
             small_write: self.smwr.verif_obs(),
         }
     }
+
+    pub(crate) fn verif_small_write_literal(&mut self, literal: &Ue2Literal, r: u32) {
+        self.smwr.add_literal(literal, r);
+    }
+
+    /// Hands a graph to the small-write builder. The given reports, with their
+    /// minimum lengths, get the internal IDs from zero on.
+    pub(crate) fn verif_small_write(
+        &mut self,
+        g: &NgHolder,
+        som: SomType,
+        min_lengths: &[u64],
+    ) -> Result<(), CompileError> {
+        for (i, &min_length) in (0..).zip(min_lengths) {
+            let mut r = make_e_callback(i, 0, None, false);
+            r.min_length = min_length;
+            self.rm.get_internal_id(&r)?;
+        }
+        let mut expr = ExpressionInfo::verif_new();
+        expr.som = som;
+        self.smwr.add_expression(g, &expr);
+        Ok(())
+    }
 }
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 79d5fbf..6d1b0be 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -162,9 +162,7 @@ impl NgHolder {
     }
 }
 
-/// Makes a graph with the given number of ordinary vertices, and with the
-/// given edges and reports in addition to those of a new graph. The vertices
-/// 0 to 3 stand for start, start-dotstar, accept, and accept at end of data.
+/// Observes a graph, see [`make_graph`].
 #[cfg(rescan_verif)]
 #[must_use]
 pub fn graph_query(
@@ -172,6 +170,18 @@ pub fn graph_query(
     edges: &[(usize, usize)],
     reports: &[(usize, ReportId)],
 ) -> GraphObs {
+    make_graph(num_vertices, edges, reports).verif_obs()
+}
+
+/// Makes a graph with the given number of ordinary vertices, and with the
+/// given edges and reports in addition to those of a new graph. The vertices
+/// 0 to 3 stand for start, start-dotstar, accept, and accept at end of data.
+#[cfg(rescan_verif)]
+pub(crate) fn make_graph(
+    num_vertices: usize,
+    edges: &[(usize, usize)],
+    reports: &[(usize, ReportId)],
+) -> NgHolder {
     let mut g = NgHolder::new();
     let mut v = vec![g.start, g.start_ds, g.accept, g.accept_eod];
     for _ in 0..num_vertices {
@@ -185,5 +195,5 @@ pub fn graph_query(
     for &(u, r) in reports {
         g[v[u]].reports.insert(r);
     }
-    g.verif_obs()
+    g
 }
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index bb8d248..b029f14 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -185,6 +185,8 @@ pub struct TrieObs {
     /// The character and the reports of each vertex.
     pub vertices: Vec<(u8, Vec<ReportId>)>,
     pub edges: Vec<(usize, usize)>,
+    pub empty: bool,
+    pub all_reports: Vec<ReportId>,
 }
 
 /// The state of a small-write builder.
@@ -199,6 +201,8 @@ pub struct SmallWriteObs {
 #[cfg(rescan_verif)]
 impl LitTrie {
     fn verif_obs(&self) -> TrieObs {
+        let mut all_reports: Vec<_> = self.all_reports().into_iter().collect();
+        all_reports.sort_unstable();
         TrieObs {
             root: self.root.index(),
             vertices: self
@@ -216,6 +220,8 @@ impl LitTrie {
                 .iter()
                 .map(|e| (e.source().index(), e.target().index()))
                 .collect(),
+            empty: self.is_empty(),
+            all_reports,
         }
     }
 }
diff --git a/src/verif.rs b/src/verif.rs
index 80097a0..7e96936 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -367,6 +367,44 @@ pub fn ng_literals(
     (res, ng.verif_obs())
 }
 
+/// An automaton for a small-write builder.
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+pub struct SmallWriteGraph {
+    pub num_vertices: usize,
+    pub edges: Vec<(usize, usize)>,
+    pub reports: Vec<(usize, u32)>,
+    pub som: bool,
+    /// The minimum lengths of the reports.
+    pub min_lengths: Vec<u64>,
+}
+
+/// Adds the literals and then the automaton to a new `Ng`; returns the state
+/// before and after, and whether the automaton was handled.
+#[must_use]
+pub fn small_write_graph(
+    num_patterns: usize,
+    limits: &Limits,
+    ops: &[AddLiteral],
+    graph: &SmallWriteGraph,
+) -> (SmallWriteObs, SmallWriteObs, bool) {
+    let cc = CompileContext::new(false, false, &limits.grey());
+    let mut ng = Ng::new(&cc, num_patterns, 0);
+    for op in ops {
+        let lit = Literal::new(&op.lit).0;
+        unsafe { ng.as_mut().get_unchecked_mut() }.verif_small_write_literal(&lit, op.report);
+    }
+    let before = ng.verif_obs().small_write;
+    let g = crate::nfagraph::verif::make_graph(graph.num_vertices, &graph.edges, &graph.reports);
+    let som = if graph.som { SomType::Left } else { SomType::None };
+    let handled = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+        unsafe { ng.as_mut().get_unchecked_mut() }
+            .verif_small_write(&g, som, &graph.min_lengths)
+            .is_ok()
+    }));
+    let after = ng.verif_obs().small_write;
+    (before, after, handled.unwrap_or(false))
+}
+
 // Reports.
 
 /// An operation on a report manager.
-- 
2.43.0


From ac3cbbc291e81839ebf70c9b412146b16c7e1ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:47 +0000
Subject: [PATCH 18/26] hooks: where a literal may match

---
 src/rose/rose_build.rs |  2 +-
 src/verif.rs           | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/rose/rose_build.rs b/src/rose/rose_build.rs
index 20c6c94..6fb2576 100644
--- a/src/rose/rose_build.rs
+++ b/src/rose/rose_build.rs
@@ -19,7 +19,7 @@ impl<'a> RoseBuild<'a> {
         _reports: &HashSet<ReportId>,
     ) {
         #[cfg(rescan_verif)]
-        crate::verif::on_rose_literal(_lit, _reports);
+        crate::verif::on_rose_literal(_anchored, _eod, _lit, _reports);
 
         if self.cc.grey.flood_as_puffette {
             return;
diff --git a/src/verif.rs b/src/verif.rs
index 7e96936..c5c4baa 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -38,6 +38,9 @@ pub struct ExprObs {
     pub ucp: bool,
     pub utf8: bool,
     pub literals: Vec<(Lit, Vec<u32>)>,
+    /// Whether each literal was handed over as anchored, and as bound to the end
+    /// of the data.
+    pub bounds: Vec<(bool, bool)>,
     pub graphs: Vec<GraphObs>,
 }
 
@@ -115,12 +118,18 @@ pub(crate) fn on_parsed(component: &Component, mode: &ParseMode) {
             ucp: mode.ucp,
             utf8: mode.utf8,
             literals: Vec::new(),
+            bounds: Vec::new(),
             graphs: Vec::new(),
         });
     });
 }
 
-pub(crate) fn on_rose_literal(lit: &Ue2Literal, reports: &std::collections::HashSet<u32>) {
+pub(crate) fn on_rose_literal(
+    anchored: bool,
+    eod: bool,
+    lit: &Ue2Literal,
+    reports: &std::collections::HashSet<u32>,
+) {
     observe(|t| {
         let mut reports: Vec<_> = reports.iter().copied().collect();
         reports.sort_unstable();
@@ -129,6 +138,7 @@ pub(crate) fn on_rose_literal(lit: &Ue2Literal, reports: &std::collections::Hash
         }
         let e = t.expressions.last_mut().expect("not empty");
         e.literals.push((lit_elems(lit), reports));
+        e.bounds.push((anchored, eod));
     });
 }
 
-- 
2.43.0


From c0249fc635059af5626f73dcd3821a43b7fa2dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:40 +0000
Subject: [PATCH 19/26] hooks: make values as the compiler does

---
 src/compiler.rs                 | 11 +++++++++++
 src/compiler/expression_info.rs | 16 ----------------
 src/nfagraph/ng.rs              |  2 +-
 src/nfagraph/ng_builder.rs      |  5 +----
 src/rose/rose_build_bytecode.rs |  9 ++++-----
 5 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index aa3c68e..6527884 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -55,6 +55,17 @@ impl ParsedExpression {
     }
 }
 
+#[cfg(rescan_verif)]
+impl ParsedExpression {
+    /// The empty expression, without flags.
+    pub(crate) fn verif_empty() -> Self {
+        match Self::new(0, "", Flags::empty(), 0) {
+            Ok(pe) => pe,
+            Err(_) => panic!("the empty expression is rejected"),
+        }
+    }
+}
+
 pub(crate) struct BuiltExpression {
     pub(crate) expr: ExpressionInfo,
     pub(crate) g: NgHolder,
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index eb3f2e5..32fc987 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -34,19 +34,3 @@ pub(crate) struct ExpressionInfo {
     /// Quiet on match.
     pub(crate) quiet: bool,
 }
-
-#[cfg(rescan_verif)]
-impl ExpressionInfo {
-    pub(crate) fn verif_new() -> Self {
-        Self {
-            index: 0,
-            report: 0,
-            allow_vacuous: false,
-            highlander: false,
-            utf8: false,
-            prefilter: false,
-            som: SomType::None,
-            quiet: false,
-        }
-    }
-}
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index efeb389..1ef9828 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -179,7 +179,7 @@ impl<'a> Ng<'a> {
             r.min_length = min_length;
             self.rm.get_internal_id(&r)?;
         }
-        let mut expr = ExpressionInfo::verif_new();
+        let mut expr = crate::compiler::ParsedExpression::verif_empty().expr;
         expr.som = som;
         self.smwr.add_expression(g, &expr);
         Ok(())
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index f2fa6c1..72bd43d 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -69,10 +69,7 @@ pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
 #[cfg(rescan_verif)]
 impl NfaBuilder {
     pub(crate) fn verif_new() -> Self {
-        Self {
-            graph: NgHolder::new(),
-            expr: ExpressionInfo::verif_new(),
-        }
+        Self::new(&ParsedExpression::verif_empty())
     }
 
     pub(crate) fn verif_assert_flags(&mut self, pos: Position, flags: PosFlags) {
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index 3d21cfc..5588582 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -87,10 +87,8 @@ pub struct Resources {
 #[must_use]
 pub fn pick_runtime(r: &Resources, streaming: bool, vectored: bool) -> char {
     let cc = CompileContext::new(streaming, vectored, &crate::Grey::default());
-    let build = RoseBuild {
-        cc: &cc,
-        has_som: false,
-    };
+    let ng = crate::nfagraph::Ng::new(&cc, 1, 0);
+    #[allow(clippy::needless_update)]
     let resources = RoseResources {
         has_outfixes: r.has_outfixes,
         has_suffixes: r.has_suffixes,
@@ -105,8 +103,9 @@ pub fn pick_runtime(r: &Resources, streaming: bool, vectored: bool) -> char {
         has_anchored_large: r.has_anchored_large,
         has_floating: r.has_floating,
         has_eod: r.has_eod,
+        ..RoseResources::default()
     };
-    match pick_runtime_impl(&build, &resources) {
+    match pick_runtime_impl(&ng.rose, &resources) {
         RoseRuntimeImpl::FullRose => 'f',
         RoseRuntimeImpl::PureLiteral => 'p',
         RoseRuntimeImpl::SingleOutfix => 'o',
-- 
2.43.0


From 3d056d506a6fc29a80bf59084b477e4c70c63714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:39 +0000
Subject: [PATCH 20/26] hooks: groups that can be left out

---
 src/compiler.rs                    |   6 +-
 src/lib.rs                         |   2 +-
 src/nfagraph.rs                    |   5 +-
 src/nfagraph/ng.rs                 |  17 +-
 src/nfagraph/ng_builder.rs         |   8 +-
 src/nfagraph/ng_holder.rs          |  27 +-
 src/parser/build_state.rs          |   2 +-
 src/parser/verif.rs                | 221 +++++-----
 src/rose.rs                        |   4 +-
 src/rose/rose_build.rs             |   2 +-
 src/rose/rose_build_bytecode.rs    |  24 +-
 src/rose/rose_internal.rs          |   2 +-
 src/smallwrite.rs                  |   5 -
 src/smallwrite/smallwrite_build.rs |  33 +-
 src/util.rs                        |   5 +-
 src/util/compile_error.rs          |   2 +-
 src/util/depth.rs                  |   2 +-
 src/util/report.rs                 |  18 +-
 src/util/report_manager.rs         |   2 +-
 src/util/ue2string.rs              |   2 +-
 src/verif.rs                       | 637 ++++++++++++++++++++---------
 21 files changed, 620 insertions(+), 406 deletions(-)

diff --git a/src/compiler.rs b/src/compiler.rs
index 6527884..69d9484 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -46,7 +46,7 @@ impl ParsedExpression {
 
         let component = parse(expression, &mut mode)?;
 
-        #[cfg(rescan_verif)]
+        #[cfg(all(rescan_verif, not(rescan_verif_without = "parsed-call")))]
         crate::verif::on_parsed(&component, &mode);
 
         expr.utf8 = mode.utf8; // utf8 may be set by parse()
@@ -55,7 +55,7 @@ impl ParsedExpression {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "expressions")))]
 impl ParsedExpression {
     /// The empty expression, without flags.
     pub(crate) fn verif_empty() -> Self {
@@ -108,7 +108,7 @@ pub(crate) fn add_expression(
     #[cfg(rescan_verif)]
     crate::verif::step("graph");
 
-    #[cfg(rescan_verif)]
+    #[cfg(all(rescan_verif, not(rescan_verif_without = "graph-call")))]
     crate::verif::on_graph(&build_expr.g);
 
     unsafe {
diff --git a/src/lib.rs b/src/lib.rs
index c6b1686..2c6af93 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -142,7 +142,7 @@ fn compile_multi_int(
         }
     }
 
-    #[cfg(rescan_verif)]
+    #[cfg(all(rescan_verif, not(rescan_verif_without = "build-call")))]
     verif::on_build(&ng);
 
     #[cfg(rescan_verif)]
diff --git a/src/nfagraph.rs b/src/nfagraph.rs
index ca13bfe..35140f5 100644
--- a/src/nfagraph.rs
+++ b/src/nfagraph.rs
@@ -6,8 +6,7 @@ pub(crate) use ng::Ng;
 pub(crate) use ng_builder::{make_nfa_builder, NfaBuilder};
 pub(crate) use ng_holder::{NfaVertex, NgHolder};
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "graphs")))]
 pub(crate) mod verif {
-    pub(crate) use super::ng_holder::make_graph;
-    pub use super::ng_holder::{graph_query, GraphObs};
+    pub(crate) use super::ng_holder::{graph_query, make_graph};
 }
diff --git a/src/nfagraph/ng.rs b/src/nfagraph/ng.rs
index 1ef9828..e5bfb00 100644
--- a/src/nfagraph/ng.rs
+++ b/src/nfagraph/ng.rs
@@ -151,17 +151,26 @@ impl<'a> Ng<'a> {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "sets")))]
 impl<'a> Ng<'a> {
     pub(crate) fn verif_obs(&self) -> crate::verif::NgObs {
         crate::verif::NgObs {
-            min_width: self.min_width.verif_value(),
+            min_width: crate::verif::depth_value(self.min_width),
             has_som: self.rose.has_som,
-            reports: self.rm.verif_obs(),
-            small_write: self.smwr.verif_obs(),
+            reports: crate::verif::reports_obs(&self.rm),
+            small_write: crate::verif::small_write_obs(&self.smwr),
         }
     }
+}
 
+#[cfg(all(
+    rescan_verif,
+    not(any(
+        rescan_verif_without = "small-write-graphs",
+        rescan_verif_without = "expressions"
+    ))
+))]
+impl<'a> Ng<'a> {
     pub(crate) fn verif_small_write_literal(&mut self, literal: &Ue2Literal, r: u32) {
         self.smwr.add_literal(literal, r);
     }
diff --git a/src/nfagraph/ng_builder.rs b/src/nfagraph/ng_builder.rs
index 72bd43d..ac4f89d 100644
--- a/src/nfagraph/ng_builder.rs
+++ b/src/nfagraph/ng_builder.rs
@@ -66,7 +66,13 @@ pub(crate) fn make_nfa_builder(expr: &ParsedExpression) -> NfaBuilder {
     NfaBuilder::new(expr)
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(
+    rescan_verif,
+    not(any(
+        rescan_verif_without = "positions",
+        rescan_verif_without = "expressions"
+    ))
+))]
 impl NfaBuilder {
     pub(crate) fn verif_new() -> Self {
         Self::new(&ParsedExpression::verif_empty())
diff --git a/src/nfagraph/ng_holder.rs b/src/nfagraph/ng_holder.rs
index 6d1b0be..d7950f3 100644
--- a/src/nfagraph/ng_holder.rs
+++ b/src/nfagraph/ng_holder.rs
@@ -118,24 +118,9 @@ fn add_special_vertex(g: &mut Graph<NfaGraphVertexProps, NfaGraphEdgeProps>) ->
     g.add_node(v)
 }
 
-/// A graph. The vertices are numbered from zero.
-#[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
-pub struct GraphObs {
-    pub start: usize,
-    pub start_ds: usize,
-    pub accept: usize,
-    pub accept_eod: usize,
-    /// The characters of each vertex.
-    pub vertices: Vec<Vec<u8>>,
-    pub edges: Vec<(usize, usize)>,
-    pub vacuous: bool,
-    pub reports: Vec<ReportId>,
-}
-
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "graphs")))]
 impl NgHolder {
-    pub(crate) fn verif_obs(&self) -> GraphObs {
+    pub(crate) fn verif_obs(&self) -> crate::verif::GraphObs {
         let mut edges: Vec<_> = self
             .inner
             .raw_edges()
@@ -145,7 +130,7 @@ impl NgHolder {
         edges.sort_unstable();
         let mut reports: Vec<_> = self.all_reports().into_iter().collect();
         reports.sort_unstable();
-        GraphObs {
+        crate::verif::GraphObs {
             start: self.start.index(),
             start_ds: self.start_ds.index(),
             accept: self.accept.index(),
@@ -163,20 +148,20 @@ impl NgHolder {
 }
 
 /// Observes a graph, see [`make_graph`].
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "graphs")))]
 #[must_use]
 pub fn graph_query(
     num_vertices: usize,
     edges: &[(usize, usize)],
     reports: &[(usize, ReportId)],
-) -> GraphObs {
+) -> crate::verif::GraphObs {
     make_graph(num_vertices, edges, reports).verif_obs()
 }
 
 /// Makes a graph with the given number of ordinary vertices, and with the
 /// given edges and reports in addition to those of a new graph. The vertices
 /// 0 to 3 stand for start, start-dotstar, accept, and accept at end of data.
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "graphs")))]
 pub(crate) fn make_graph(
     num_vertices: usize,
     edges: &[(usize, usize)],
diff --git a/src/parser/build_state.rs b/src/parser/build_state.rs
index 400327c..46a62fe 100644
--- a/src/parser/build_state.rs
+++ b/src/parser/build_state.rs
@@ -114,7 +114,7 @@ pub(crate) fn make_glushkov_build_state(b: &mut NfaBuilder) -> GlushkovBuildStat
     GlushkovBuildState::new(b)
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "positions")))]
 impl<'a> GlushkovBuildState<'a> {
     pub(in crate::parser) fn verif_epsilon(&self) -> Position {
         Self::pos_epsilon()
diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index 9c31401..c6fa6e2 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -1,127 +1,132 @@
-use super::ascii_component_class::AsciiComponentClass;
-use super::{
-    make_glushkov_build_state, walk_component, Component, ComponentAlternation, ComponentSequence,
-    ConstComponentVisitor, PosFlags, Position, PositionInfo,
-};
-use crate::nfagraph::NfaBuilder;
-use std::fmt;
+#[cfg(not(rescan_verif_without = "trees"))]
+pub(crate) use trees::tree_events;
 
-/// A step of a walk over a parse tree.
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
-pub enum TreeEvent {
-    EnterSequence(Option<u32>),
-    LeaveSequence,
-    EnterAlternation,
-    LeaveAlternation,
-    Class(Vec<u8>),
-}
+#[cfg(not(rescan_verif_without = "trees"))]
+mod trees {
+    use crate::parser::ascii_component_class::AsciiComponentClass;
+    use crate::parser::{
+        walk_component, Component, ComponentAlternation, ComponentSequence, ConstComponentVisitor,
+    };
+    use crate::verif::TreeEvent;
 
-struct EventVisitor {
-    events: Vec<TreeEvent>,
-}
+    struct EventVisitor {
+        events: Vec<TreeEvent>,
+    }
 
-impl ConstComponentVisitor for EventVisitor {
-    type Error = ();
+    impl ConstComponentVisitor for EventVisitor {
+        type Error = ();
 
-    fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
-        let chars = (0..=255).filter(|&b| c.cr.test(b)).collect();
-        self.events.push(TreeEvent::Class(chars));
-        Ok(())
-    }
+        fn pre_ascii_component_class(&mut self, c: &AsciiComponentClass) -> Result<(), ()> {
+            let chars = (0..=255).filter(|&b| c.cr.test(b)).collect();
+            self.events.push(TreeEvent::Class(chars));
+            Ok(())
+        }
 
-    fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
-        self.events.push(TreeEvent::EnterAlternation);
-        Ok(())
-    }
+        fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), ()> {
+            self.events.push(TreeEvent::EnterAlternation);
+            Ok(())
+        }
 
-    fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
-        self.events.push(TreeEvent::EnterSequence(c.capture_index));
-        Ok(())
-    }
+        fn pre_component_sequence(&mut self, c: &ComponentSequence) -> Result<(), ()> {
+            self.events.push(TreeEvent::EnterSequence(c.capture_index));
+            Ok(())
+        }
 
-    fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
-    fn during_component_alternation(&self, _c: &ComponentAlternation) {}
-    fn during_component_sequence(&self, _c: &ComponentSequence) {}
+        fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {}
+        fn during_component_alternation(&self, _c: &ComponentAlternation) {}
+        fn during_component_sequence(&self, _c: &ComponentSequence) {}
 
-    fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
+        fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {}
 
-    fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
-        self.events.push(TreeEvent::LeaveAlternation);
-    }
+        fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+            self.events.push(TreeEvent::LeaveAlternation);
+        }
 
-    fn post_component_sequence(&mut self, _c: &ComponentSequence) {
-        self.events.push(TreeEvent::LeaveSequence);
+        fn post_component_sequence(&mut self, _c: &ComponentSequence) {
+            self.events.push(TreeEvent::LeaveSequence);
+        }
     }
-}
 
-pub(crate) fn tree_events(component: &Component) -> Vec<TreeEvent> {
-    let mut v = EventVisitor { events: Vec::new() };
-    walk_component(&mut v, component).expect("infallible");
-    v.events
+    pub(crate) fn tree_events(component: &Component) -> Vec<TreeEvent> {
+        let mut v = EventVisitor { events: Vec::new() };
+        walk_component(&mut v, component).expect("infallible");
+        v.events
+    }
 }
 
-pub(crate) fn dump(out: &mut String, component: &Component) -> Result<(), fmt::Error> {
+#[cfg(not(rescan_verif_without = "dumps"))]
+pub(crate) fn dump(out: &mut String, component: &super::Component) -> Result<(), std::fmt::Error> {
     super::dump::dump_tree(out, component)
 }
 
-/// An end of an edge between positions: 's' (start), 'd' (start-dotstar),
-/// 'a' (accept), 'e' (accept at end of data), 'n' (epsilon), 'p' (an ordinary
-/// position), or 'm' (a position with a multiline start assertion); and the
-/// flags: 1 (no float), 2 (must float), 4 (multiline start).
-pub type Edge = (char, u8);
+#[cfg(not(any(
+    rescan_verif_without = "positions",
+    rescan_verif_without = "expressions"
+)))]
+pub use positions::connect;
 
-/// Connects the positions with each other, and returns the edges from the
-/// positions in `lasts` that result. An 'x' is a position that did not exist.
-#[must_use]
-pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
-    let mut builder = NfaBuilder::verif_new();
-    let plain = builder.make_position();
-    let multiline = builder.make_position();
-    builder.verif_assert_flags(multiline, PosFlags::MULTILINE_START);
-    let mut named: Vec<(char, Position)> = vec![
-        ('s', builder.get_start()),
-        ('d', builder.get_start_dot_star()),
-        ('a', builder.get_accept()),
-        ('e', builder.get_accept_eod()),
-        ('p', plain),
-        ('m', multiline),
-    ];
-    let mut bs = make_glushkov_build_state(&mut builder);
-    named.push(('n', bs.verif_epsilon()));
-    let to_info = |e: &Edge| {
-        let mut info: PositionInfo = named.iter().find(|n| n.0 == e.0).expect("known").1.into();
-        if e.1 & 1 != 0 {
-            info.flags |= PosFlags::NOFLOAT;
-        }
-        if e.1 & 2 != 0 {
-            info.flags |= PosFlags::MUST_FLOAT;
-        }
-        if e.1 & 4 != 0 {
-            info.flags |= PosFlags::MULTILINE_START;
-        }
-        info
-    };
-    let lasts: Vec<_> = lasts.iter().map(to_info).collect();
-    let firsts: Vec<_> = firsts.iter().map(to_info).collect();
-    bs.connect_regions(&lasts, &firsts);
-    let name = |pos: Position| named.iter().find(|n| n.1 == pos).map_or('x', |n| n.0);
-    let mut edges: Vec<(char, Vec<Edge>)> = bs
-        .verif_successors()
-        .into_iter()
-        .map(|(from, to)| {
-            let mut to: Vec<Edge> = to
-                .into_iter()
-                .map(|i| {
-                    let flags = u8::from(i.flags.contains(PosFlags::NOFLOAT))
-                        + 2 * u8::from(i.flags.contains(PosFlags::MUST_FLOAT))
-                        + 4 * u8::from(i.flags.contains(PosFlags::MULTILINE_START));
-                    (name(i.pos), flags)
-                })
-                .collect();
-            to.sort_unstable();
-            (name(from), to)
-        })
-        .collect();
-    edges.sort();
-    edges
+#[cfg(not(any(
+    rescan_verif_without = "positions",
+    rescan_verif_without = "expressions"
+)))]
+mod positions {
+    use crate::nfagraph::NfaBuilder;
+    use crate::parser::{make_glushkov_build_state, PosFlags, Position, PositionInfo};
+    use crate::verif::Edge;
+
+    /// Connects the positions with each other, and returns the edges from the
+    /// positions in `lasts` that result. An 'x' is a position that did not exist.
+    #[must_use]
+    pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
+        let mut builder = NfaBuilder::verif_new();
+        let plain = builder.make_position();
+        let multiline = builder.make_position();
+        builder.verif_assert_flags(multiline, PosFlags::MULTILINE_START);
+        let mut named: Vec<(char, Position)> = vec![
+            ('s', builder.get_start()),
+            ('d', builder.get_start_dot_star()),
+            ('a', builder.get_accept()),
+            ('e', builder.get_accept_eod()),
+            ('p', plain),
+            ('m', multiline),
+        ];
+        let mut bs = make_glushkov_build_state(&mut builder);
+        named.push(('n', bs.verif_epsilon()));
+        let to_info = |e: &Edge| {
+            let mut info: PositionInfo = named.iter().find(|n| n.0 == e.0).expect("known").1.into();
+            if e.1 & 1 != 0 {
+                info.flags |= PosFlags::NOFLOAT;
+            }
+            if e.1 & 2 != 0 {
+                info.flags |= PosFlags::MUST_FLOAT;
+            }
+            if e.1 & 4 != 0 {
+                info.flags |= PosFlags::MULTILINE_START;
+            }
+            info
+        };
+        let lasts: Vec<_> = lasts.iter().map(to_info).collect();
+        let firsts: Vec<_> = firsts.iter().map(to_info).collect();
+        bs.connect_regions(&lasts, &firsts);
+        let name = |pos: Position| named.iter().find(|n| n.1 == pos).map_or('x', |n| n.0);
+        let mut edges: Vec<(char, Vec<Edge>)> = bs
+            .verif_successors()
+            .into_iter()
+            .map(|(from, to)| {
+                let mut to: Vec<Edge> = to
+                    .into_iter()
+                    .map(|i| {
+                        let flags = u8::from(i.flags.contains(PosFlags::NOFLOAT))
+                            + 2 * u8::from(i.flags.contains(PosFlags::MUST_FLOAT))
+                            + 4 * u8::from(i.flags.contains(PosFlags::MULTILINE_START));
+                        (name(i.pos), flags)
+                    })
+                    .collect();
+                to.sort_unstable();
+                (name(from), to)
+            })
+            .collect();
+        edges.sort();
+        edges
+    }
 }
diff --git a/src/rose.rs b/src/rose.rs
index b7024a2..1537330 100644
--- a/src/rose.rs
+++ b/src/rose.rs
@@ -12,6 +12,8 @@ pub(crate) use rose_internal::{RoseEngine, RoseRuntimeImpl};
 
 #[cfg(rescan_verif)]
 pub(crate) mod verif {
-    pub use super::rose_build_bytecode::{pick_runtime, Resources};
+    #[cfg(not(rescan_verif_without = "runtime"))]
+    pub use super::rose_build_bytecode::pick_runtime;
+    #[cfg(not(rescan_verif_without = "mode"))]
     pub(crate) use super::rose_internal::mode;
 }
diff --git a/src/rose/rose_build.rs b/src/rose/rose_build.rs
index 6fb2576..73c3fdc 100644
--- a/src/rose/rose_build.rs
+++ b/src/rose/rose_build.rs
@@ -18,7 +18,7 @@ impl<'a> RoseBuild<'a> {
         _lit: &Ue2Literal,
         _reports: &HashSet<ReportId>,
     ) {
-        #[cfg(rescan_verif)]
+        #[cfg(all(rescan_verif, not(rescan_verif_without = "literal-call")))]
         crate::verif::on_rose_literal(_anchored, _eod, _lit, _reports);
 
         if self.cc.grey.flood_as_puffette {
diff --git a/src/rose/rose_build_bytecode.rs b/src/rose/rose_build_bytecode.rs
index 5588582..b088475 100644
--- a/src/rose/rose_build_bytecode.rs
+++ b/src/rose/rose_build_bytecode.rs
@@ -61,31 +61,11 @@ pub(super) fn pick_runtime_impl(build: &RoseBuild, resources: &RoseResources) ->
 
 pub(super) struct DerivedBoundaryReports {}
 
-/// The resources in use.
-#[cfg(rescan_verif)]
-#[allow(clippy::struct_excessive_bools)]
-#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
-pub struct Resources {
-    pub has_outfixes: bool,
-    pub has_suffixes: bool,
-    pub has_leftfixes: bool,
-    pub has_literals: bool,
-    pub has_states: bool,
-    pub checks_groups: bool,
-    pub has_lit_delay: bool,
-    pub has_lit_check: bool,
-    pub has_anchored: bool,
-    pub has_anchored_multiple: bool,
-    pub has_anchored_large: bool,
-    pub has_floating: bool,
-    pub has_eod: bool,
-}
-
 /// Returns the runtime implementation for the given resources: 'f' (full),
 /// 'p' (pure literal), or 'o' (single outfix).
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "runtime")))]
 #[must_use]
-pub fn pick_runtime(r: &Resources, streaming: bool, vectored: bool) -> char {
+pub fn pick_runtime(r: &crate::verif::Resources, streaming: bool, vectored: bool) -> char {
     let cc = CompileContext::new(streaming, vectored, &crate::Grey::default());
     let ng = crate::nfagraph::Ng::new(&cc, 1, 0);
     #[allow(clippy::needless_update)]
diff --git a/src/rose/rose_internal.rs b/src/rose/rose_internal.rs
index 086ee23..51d5960 100644
--- a/src/rose/rose_internal.rs
+++ b/src/rose/rose_internal.rs
@@ -16,7 +16,7 @@ pub(crate) struct RoseEngine {
 }
 
 /// Returns the scanning mode of the engine: 'b', 's', or 'v'.
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "mode")))]
 pub(crate) fn mode(rose: &RoseEngine) -> char {
     match rose.mode {
         Mode::Block => 'b',
diff --git a/src/smallwrite.rs b/src/smallwrite.rs
index 4ce1f07..76fad48 100644
--- a/src/smallwrite.rs
+++ b/src/smallwrite.rs
@@ -1,8 +1,3 @@
 mod smallwrite_build;
 
 pub(crate) use smallwrite_build::SmallWriteBuild;
-
-#[cfg(rescan_verif)]
-pub(crate) mod verif {
-    pub use super::smallwrite_build::{SmallWriteObs, TrieObs};
-}
diff --git a/src/smallwrite/smallwrite_build.rs b/src/smallwrite/smallwrite_build.rs
index b029f14..e3d9792 100644
--- a/src/smallwrite/smallwrite_build.rs
+++ b/src/smallwrite/smallwrite_build.rs
@@ -177,33 +177,12 @@ fn add_to_trie(literal: &Ue2Literal, report: ReportId, trie: &mut LitTrie) -> bo
     trie.inner.node_count() <= MAX_TRIE_VERTICES
 }
 
-/// A trie. The vertices are numbered from zero.
-#[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
-pub struct TrieObs {
-    pub root: usize,
-    /// The character and the reports of each vertex.
-    pub vertices: Vec<(u8, Vec<ReportId>)>,
-    pub edges: Vec<(usize, usize)>,
-    pub empty: bool,
-    pub all_reports: Vec<ReportId>,
-}
-
-/// The state of a small-write builder.
-#[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
-pub struct SmallWriteObs {
-    pub poisoned: bool,
-    pub cased: TrieObs,
-    pub caseless: TrieObs,
-}
-
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "tries")))]
 impl LitTrie {
-    fn verif_obs(&self) -> TrieObs {
+    fn verif_obs(&self) -> crate::verif::TrieObs {
         let mut all_reports: Vec<_> = self.all_reports().into_iter().collect();
         all_reports.sort_unstable();
-        TrieObs {
+        crate::verif::TrieObs {
             root: self.root.index(),
             vertices: self
                 .inner
@@ -226,10 +205,10 @@ impl LitTrie {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "tries")))]
 impl<'a> SmallWriteBuild<'a> {
-    pub(crate) fn verif_obs(&self) -> SmallWriteObs {
-        SmallWriteObs {
+    pub(crate) fn verif_obs(&self) -> crate::verif::SmallWriteObs {
+        crate::verif::SmallWriteObs {
             poisoned: self.poisoned,
             cased: self.lit_trie.verif_obs(),
             caseless: self.lit_trie_nocase.verif_obs(),
diff --git a/src/util.rs b/src/util.rs
index 4b19576..9c64874 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -24,13 +24,14 @@ pub(crate) use report_manager::{ExternalReportInfo, ReportManager};
 pub(crate) use ue2common::{ReportId, S64a};
 pub(crate) use ue2string::{mixed_sensitivity, Ue2Literal};
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "masks")))]
 pub(crate) use charreach::{fill_bitvector, make_and_cmp_mask};
 
 #[cfg(rescan_verif)]
 pub(crate) mod verif {
+    #[cfg(not(rescan_verif_without = "chars"))]
     pub use super::compare::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
-    pub use super::report::ReportObs;
+    #[cfg(not(rescan_verif_without = "alignment"))]
     pub use super::ue2common::{
         round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
     };
diff --git a/src/util/compile_error.rs b/src/util/compile_error.rs
index 55ec00f..53ade8c 100644
--- a/src/util/compile_error.rs
+++ b/src/util/compile_error.rs
@@ -57,7 +57,7 @@ impl fmt::Display for CompileError {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "errors")))]
 impl CompileError {
     pub(crate) fn verif_parts(&self) -> (&ErrorKind, &str, Option<u32>) {
         (&self.kind, &self.reason, self.index)
diff --git a/src/util/depth.rs b/src/util/depth.rs
index 5ad845c..11b7c38 100644
--- a/src/util/depth.rs
+++ b/src/util/depth.rs
@@ -64,7 +64,7 @@ impl PartialOrd for Depth {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "depths")))]
 impl Depth {
     pub(crate) fn verif_value(self) -> Option<u32> {
         if self == Self::infinity() {
diff --git a/src/util/report.rs b/src/util/report.rs
index bfff916..a7efecd 100644
--- a/src/util/report.rs
+++ b/src/util/report.rs
@@ -61,22 +61,10 @@ pub(crate) fn make_som_relative_callback(report: u32, offset_adjust: i32, distan
     }
 }
 
-/// What a report stands for.
-#[cfg(rescan_verif)]
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
-pub struct ReportObs {
-    pub som_relative: bool,
-    pub on_match: u32,
-    pub offset_adjust: i32,
-    pub ekey: Option<u32>,
-    pub quiet: bool,
-    pub som_distance: u64,
-}
-
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "reports")))]
 impl Report {
-    pub(crate) fn verif_obs(&self) -> ReportObs {
-        ReportObs {
+    pub(crate) fn verif_obs(&self) -> crate::verif::ReportObs {
+        crate::verif::ReportObs {
             som_relative: self.ty == ReportType::ExternalCallbackSomRel,
             on_match: self.on_match,
             offset_adjust: self.offset_adjust,
diff --git a/src/util/report_manager.rs b/src/util/report_manager.rs
index 4ce1399..12e29ea 100644
--- a/src/util/report_manager.rs
+++ b/src/util/report_manager.rs
@@ -146,7 +146,7 @@ impl<'a> ReportManager<'a> {
     }
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "reports")))]
 impl<'a> ReportManager<'a> {
     pub(crate) fn verif_obs(&self) -> crate::verif::ReportsObs {
         crate::verif::ReportsObs {
diff --git a/src/util/ue2string.rs b/src/util/ue2string.rs
index 832ebb5..05ff7c8 100644
--- a/src/util/ue2string.rs
+++ b/src/util/ue2string.rs
@@ -117,7 +117,7 @@ where
     cs && nc
 }
 
-#[cfg(rescan_verif)]
+#[cfg(all(rescan_verif, not(rescan_verif_without = "literals")))]
 impl Ue2LiteralElem {
     pub(crate) fn verif_nocase(&self) -> bool {
         self.nocase
diff --git a/src/verif.rs b/src/verif.rs
index c5c4baa..2f1c1da 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -3,24 +3,122 @@
 //! Compiled only with `--cfg rescan_verif`; nothing in the library depends on
 //! it. The hooks observe what a compilation does (see [`start`] and [`take`])
 //! and give access to the internal building blocks.
+//!
+//! They come in groups, each of which can be left out by
+//! `--cfg rescan_verif_without="group"`, should it not fit the library. What it
+//! offers then panics, or is empty where it is a part of something observed.
 
 use crate::nfagraph::{Ng, NgHolder};
 use crate::parser::{Component, ParseMode};
-use crate::util::{
-    make_and_cmp_mask, make_caseless, CharReach, CompileContext, Depth, ExternalReportInfo,
-    ReportManager, Ue2Literal,
+use crate::util::{CharReach, CompileContext, Depth, ReportManager, Ue2Literal};
+use crate::{
+    CompileError, Database, ErrorKind, Flags, Grey, Mode, Scratch, SmallWriteBuild, SomType,
 };
-use crate::{CompileError, Database, ErrorKind, Flags, Grey, Mode, Scratch, SomType};
 use std::cell::RefCell;
 use std::cmp::Ordering;
 use std::collections::BTreeMap;
 use std::convert::TryFrom;
 
-pub use crate::nfagraph::verif::{graph_query, GraphObs};
-pub use crate::parser::verif::{connect, Edge, TreeEvent};
-pub use crate::rose::verif::{pick_runtime, Resources};
-pub use crate::smallwrite::verif::{SmallWriteObs, TrieObs};
-pub use crate::util::verif::ReportObs;
+type ReportId = u32;
+
+/// Evaluates the expression if the group of hooks is there, and the
+/// alternative (or a panic) otherwise.
+macro_rules! have {
+    ($group:tt, $e:expr) => {
+        have!($group, $e, panic!("not available"))
+    };
+    ($group:tt, $e:expr, $otherwise:expr) => {{
+        #[cfg(not(rescan_verif_without = $group))]
+        {
+            $e
+        }
+        #[cfg(rescan_verif_without = $group)]
+        {
+            $otherwise
+        }
+    }};
+}
+
+// Types.
+
+/// What a report stands for.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct ReportObs {
+    pub som_relative: bool,
+    pub on_match: u32,
+    pub offset_adjust: i32,
+    pub ekey: Option<u32>,
+    pub quiet: bool,
+    pub som_distance: u64,
+}
+
+/// A trie. The vertices are numbered from zero.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct TrieObs {
+    pub root: usize,
+    /// The character and the reports of each vertex.
+    pub vertices: Vec<(u8, Vec<ReportId>)>,
+    pub edges: Vec<(usize, usize)>,
+    pub empty: bool,
+    pub all_reports: Vec<ReportId>,
+}
+
+/// The state of a small-write builder.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct SmallWriteObs {
+    pub poisoned: bool,
+    pub cased: TrieObs,
+    pub caseless: TrieObs,
+}
+
+/// A graph. The vertices are numbered from zero.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct GraphObs {
+    pub start: usize,
+    pub start_ds: usize,
+    pub accept: usize,
+    pub accept_eod: usize,
+    /// The characters of each vertex.
+    pub vertices: Vec<Vec<u8>>,
+    pub edges: Vec<(usize, usize)>,
+    pub vacuous: bool,
+    pub reports: Vec<ReportId>,
+}
+
+/// The resources in use.
+#[allow(clippy::struct_excessive_bools)]
+#[derive(Clone, Copy, Debug, Default, Eq, PartialEq)]
+pub struct Resources {
+    pub has_outfixes: bool,
+    pub has_suffixes: bool,
+    pub has_leftfixes: bool,
+    pub has_literals: bool,
+    pub has_states: bool,
+    pub checks_groups: bool,
+    pub has_lit_delay: bool,
+    pub has_lit_check: bool,
+    pub has_anchored: bool,
+    pub has_anchored_multiple: bool,
+    pub has_anchored_large: bool,
+    pub has_floating: bool,
+    pub has_eod: bool,
+}
+
+/// A step of a walk over a parse tree.
+#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+pub enum TreeEvent {
+    EnterSequence(Option<u32>),
+    LeaveSequence,
+    EnterAlternation,
+    LeaveAlternation,
+    Class(Vec<u8>),
+}
+
+/// An end of an edge between positions: 's' (start), 'd' (start-dotstar),
+/// 'a' (accept), 'e' (accept at end of data), 'n' (epsilon), 'p' (an ordinary
+/// position), or 'm' (a position with a multiline start assertion); and the
+/// flags: 1 (no float), 2 (must float), 4 (multiline start).
+pub type Edge = (char, u8);
 
 // Observation of compilations.
 
@@ -45,7 +143,7 @@ pub struct ExprObs {
 }
 
 /// What the expressions were turned into.
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
 pub struct NgObs {
     pub min_width: Option<u32>,
     pub has_som: bool,
@@ -53,7 +151,7 @@ pub struct NgObs {
     pub small_write: SmallWriteObs,
 }
 
-#[derive(Clone, Debug, Eq, Hash, PartialEq)]
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
 pub struct ReportsObs {
     pub reports: Vec<ReportObs>,
     pub external: BTreeMap<u32, (bool, u32)>,
@@ -109,18 +207,25 @@ fn observe<F: FnOnce(&mut Trace)>(f: F) {
 
 pub(crate) fn on_parsed(component: &Component, mode: &ParseMode) {
     observe(|t| {
-        t.expressions.push(ExprObs {
-            tree: crate::parser::verif::tree_events(component),
-            caseless: mode.caseless,
-            dotall: mode.dotall,
-            ignore_space: mode.ignore_space,
-            multiline: mode.multiline,
-            ucp: mode.ucp,
-            utf8: mode.utf8,
-            literals: Vec::new(),
-            bounds: Vec::new(),
-            graphs: Vec::new(),
-        });
+        let mut e = ExprObs::default();
+        have!(
+            "trees",
+            e.tree = crate::parser::verif::tree_events(component),
+            ()
+        );
+        have!(
+            "modes",
+            {
+                e.caseless = mode.caseless;
+                e.dotall = mode.dotall;
+                e.ignore_space = mode.ignore_space;
+                e.multiline = mode.multiline;
+                e.ucp = mode.ucp;
+                e.utf8 = mode.utf8;
+            },
+            ()
+        );
+        t.expressions.push(e);
     });
 }
 
@@ -145,17 +250,37 @@ pub(crate) fn on_rose_literal(
 pub(crate) fn on_graph(g: &NgHolder) {
     observe(|t| {
         if let Some(e) = t.expressions.last_mut() {
-            e.graphs.push(g.verif_obs());
+            have!("graphs", e.graphs.push(g.verif_obs()), ());
         }
     });
 }
 
 pub(crate) fn on_build(ng: &Ng) {
-    observe(|t| t.ng = Some(ng.verif_obs()));
+    observe(|t| t.ng = Some(set_obs(ng)));
+}
+
+fn set_obs(ng: &Ng) -> NgObs {
+    have!("sets", ng.verif_obs(), NgObs::default())
+}
+
+pub(crate) fn depth_value(depth: Depth) -> Option<u32> {
+    have!("depths", depth.verif_value(), None)
+}
+
+pub(crate) fn reports_obs(rm: &ReportManager) -> ReportsObs {
+    have!("reports", rm.verif_obs(), ReportsObs::default())
+}
+
+pub(crate) fn small_write_obs(b: &SmallWriteBuild) -> SmallWriteObs {
+    have!("tries", b.verif_obs(), SmallWriteObs::default())
 }
 
 fn lit_elems(lit: &Ue2Literal) -> Lit {
-    lit.iter().map(|e| (e.c, e.verif_nocase())).collect()
+    have!(
+        "literals",
+        lit.iter().map(|e| (e.c, e.verif_nocase())).collect(),
+        Lit::default()
+    )
 }
 
 // Compilation with explicit settings.
@@ -175,7 +300,13 @@ pub struct Limits {
 
 impl Default for Limits {
     fn default() -> Self {
-        let g = Grey::default();
+        have!("limits", Self::of(&Grey::default()))
+    }
+}
+
+#[cfg(not(rescan_verif_without = "limits"))]
+impl Limits {
+    fn of(g: &Grey) -> Self {
         Self {
             allow_literal: g.allow_literal,
             shortcut_literals: g.shortcut_literals,
@@ -188,9 +319,7 @@ impl Default for Limits {
             report_count: g.limit_report_count,
         }
     }
-}
 
-impl Limits {
     fn grey(&self) -> Grey {
         Grey {
             allow_literal: self.allow_literal,
@@ -207,6 +336,10 @@ impl Limits {
     }
 }
 
+fn grey(limits: &Limits) -> Grey {
+    have!("limits", limits.grey())
+}
+
 /// Compiles expressions with the given limits.
 ///
 /// # Errors
@@ -219,34 +352,80 @@ pub fn compile_with(
     mode: &Mode,
     limits: &Limits,
 ) -> Result<Database, CompileError> {
-    crate::compile_multi_int(expressions, flags, ids, mode, &limits.grey())
+    have!(
+        "limits",
+        crate::compile_multi_int(expressions, flags, ids, mode, &grey(limits))
+    )
 }
 
 /// Returns the category, the reason, and the expression index of an error.
 #[must_use]
 pub fn error_parts(e: &CompileError) -> (&ErrorKind, &str, Option<u32>) {
-    e.verif_parts()
+    have!("errors", e.verif_parts())
 }
 
 /// Returns the scanning mode of a database: 'b', 's', or 'v'.
 #[must_use]
 pub fn database_mode(db: &Database) -> char {
-    crate::rose::verif::mode(crate::database::get_bytecode(db))
+    have!(
+        "mode",
+        crate::rose::verif::mode(crate::database::get_bytecode(db))
+    )
 }
 
 /// Returns the number of bytes of SOM precision of a mode.
 #[must_use]
 pub fn som_precision(mode: &Mode) -> usize {
-    mode.som_precision()
+    have!("precision", mode.som_precision())
 }
 
 #[must_use]
 pub fn new_scratch() -> Scratch {
-    Scratch {
-        core_info: crate::scratch::CoreInfo {
-            state: std::ptr::null_mut(),
-        },
-    }
+    have!(
+        "scratch",
+        Scratch {
+            core_info: crate::scratch::CoreInfo {
+                state: std::ptr::null_mut(),
+            },
+        }
+    )
+}
+
+// Building blocks.
+
+/// Observes a graph with the given number of ordinary vertices, and with the
+/// given edges and reports in addition to those of a new graph. The vertices
+/// 0 to 3 stand for start, start-dotstar, accept, and accept at end of data.
+#[must_use]
+pub fn graph_query(
+    num_vertices: usize,
+    edges: &[(usize, usize)],
+    reports: &[(usize, ReportId)],
+) -> GraphObs {
+    have!(
+        "graphs",
+        crate::nfagraph::verif::graph_query(num_vertices, edges, reports)
+    )
+}
+
+/// Connects the positions with each other, and returns the edges from the
+/// positions in `lasts` that result. An 'x' is a position that did not exist.
+#[must_use]
+pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
+    have!(
+        "positions",
+        have!("expressions", crate::parser::verif::connect(lasts, firsts))
+    )
+}
+
+/// Returns the runtime implementation for the given resources: 'f' (full),
+/// 'p' (pure literal), or 'o' (single outfix).
+#[must_use]
+pub fn pick_runtime(r: &Resources, streaming: bool, vectored: bool) -> char {
+    have!(
+        "runtime",
+        crate::rose::verif::pick_runtime(r, streaming, vectored)
+    )
 }
 
 // Literals.
@@ -257,64 +436,68 @@ pub struct Literal(Ue2Literal);
 impl Literal {
     #[must_use]
     pub fn new(elems: &[(u8, bool)]) -> Self {
-        let mut lit = Ue2Literal::default();
-        for &(c, nocase) in elems {
-            lit.push(c, nocase);
-        }
-        Self(lit)
+        have!("literals", {
+            let mut lit = Ue2Literal::default();
+            for &(c, nocase) in elems {
+                lit.push(c, nocase);
+            }
+            Self(lit)
+        })
     }
 
     pub fn push(&mut self, c: u8, nocase: bool) {
-        self.0.push(c, nocase);
+        have!("literals", self.0.push(c, nocase))
     }
 
     #[must_use]
     pub fn len(&self) -> usize {
-        self.0.len()
+        have!("literals", self.0.len())
     }
 
     #[must_use]
     pub fn is_empty(&self) -> bool {
-        self.0.is_empty()
+        have!("literals", self.0.is_empty())
     }
 
     #[must_use]
     pub fn any_nocase(&self) -> bool {
-        self.0.any_nocase()
+        have!("literals", self.0.any_nocase())
     }
 
     #[must_use]
     pub fn elems(&self) -> Lit {
-        lit_elems(&self.0)
+        have!("literals", lit_elems(&self.0))
     }
 
     #[must_use]
     pub fn elems_by_ref(&self) -> Lit {
-        let mut v = Lit::new();
-        for e in &self.0 {
-            v.push((e.c, e.verif_nocase()));
-        }
-        v
+        have!("literals", {
+            let mut v = Lit::new();
+            for e in &self.0 {
+                v.push((e.c, e.verif_nocase()));
+            }
+            v
+        })
     }
 
     #[must_use]
     pub fn mixed_sensitivity(&self) -> bool {
-        crate::util::mixed_sensitivity(&self.0)
+        have!("literals", crate::util::mixed_sensitivity(&self.0))
     }
 
     #[must_use]
     pub fn equal(&self, other: &Self) -> bool {
-        self.0 == other.0
+        have!("literals", self.0 == other.0)
     }
 
     #[must_use]
     pub fn compare(&self, other: &Self) -> Ordering {
-        self.0.cmp(&other.0)
+        have!("literals", self.0.cmp(&other.0))
     }
 
     #[must_use]
     pub fn partial_compare(&self, other: &Self) -> Option<Ordering> {
-        self.0.partial_cmp(&other.0)
+        have!("literals", self.0.partial_cmp(&other.0))
     }
 }
 
@@ -328,12 +511,14 @@ pub struct AddLiteral {
 /// Adds the literals to a new small-write builder.
 #[must_use]
 pub fn small_write(num_patterns: usize, limits: &Limits, ops: &[AddLiteral]) -> SmallWriteObs {
-    let cc = CompileContext::new(false, false, &limits.grey());
-    let mut b = crate::SmallWriteBuild::new(num_patterns, &cc);
-    for op in ops {
-        b.add_literal(&Literal::new(&op.lit).0, op.report);
-    }
-    b.verif_obs()
+    have!("small-write", {
+        let cc = CompileContext::new(false, false, &grey(limits));
+        let mut b = SmallWriteBuild::new(num_patterns, &cc);
+        for op in ops {
+            b.add_literal(&Literal::new(&op.lit).0, op.report);
+        }
+        small_write_obs(&b)
+    })
 }
 
 /// A literal to be added to the set of expressions being compiled.
@@ -355,26 +540,28 @@ pub fn ng_literals(
     limits: &Limits,
     ops: &[NgLiteral],
 ) -> (Vec<Result<bool, CompileError>>, NgObs) {
-    let cc = CompileContext::new(false, false, &limits.grey());
-    let mut ng = Ng::new(&cc, num_patterns, 0);
-    let res = ops
-        .iter()
-        .map(|op| {
-            let lit = Literal::new(&op.lit).0;
-            let som = if op.som { SomType::Left } else { SomType::None };
-            unsafe {
-                ng.as_mut().get_unchecked_mut().add_literal(
-                    &lit,
-                    op.index,
-                    op.id,
-                    op.highlander,
-                    som,
-                    op.quiet,
-                )
-            }
-        })
-        .collect();
-    (res, ng.verif_obs())
+    have!("ng-literals", {
+        let cc = CompileContext::new(false, false, &grey(limits));
+        let mut ng = Ng::new(&cc, num_patterns, 0);
+        let res = ops
+            .iter()
+            .map(|op| {
+                let lit = Literal::new(&op.lit).0;
+                let som = if op.som { SomType::Left } else { SomType::None };
+                unsafe {
+                    ng.as_mut().get_unchecked_mut().add_literal(
+                        &lit,
+                        op.index,
+                        op.id,
+                        op.highlander,
+                        som,
+                        op.quiet,
+                    )
+                }
+            })
+            .collect();
+        (res, set_obs(&ng))
+    })
 }
 
 /// An automaton for a small-write builder.
@@ -397,22 +584,37 @@ pub fn small_write_graph(
     ops: &[AddLiteral],
     graph: &SmallWriteGraph,
 ) -> (SmallWriteObs, SmallWriteObs, bool) {
-    let cc = CompileContext::new(false, false, &limits.grey());
-    let mut ng = Ng::new(&cc, num_patterns, 0);
-    for op in ops {
-        let lit = Literal::new(&op.lit).0;
-        unsafe { ng.as_mut().get_unchecked_mut() }.verif_small_write_literal(&lit, op.report);
-    }
-    let before = ng.verif_obs().small_write;
-    let g = crate::nfagraph::verif::make_graph(graph.num_vertices, &graph.edges, &graph.reports);
-    let som = if graph.som { SomType::Left } else { SomType::None };
-    let handled = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
-        unsafe { ng.as_mut().get_unchecked_mut() }
-            .verif_small_write(&g, som, &graph.min_lengths)
-            .is_ok()
-    }));
-    let after = ng.verif_obs().small_write;
-    (before, after, handled.unwrap_or(false))
+    have!("small-write-graphs", {
+        have!("expressions", {
+            have!("graphs", {
+                let cc = CompileContext::new(false, false, &grey(limits));
+                let mut ng = Ng::new(&cc, num_patterns, 0);
+                for op in ops {
+                    let lit = Literal::new(&op.lit).0;
+                    unsafe { ng.as_mut().get_unchecked_mut() }
+                        .verif_small_write_literal(&lit, op.report);
+                }
+                let before = set_obs(&ng).small_write;
+                let g = crate::nfagraph::verif::make_graph(
+                    graph.num_vertices,
+                    &graph.edges,
+                    &graph.reports,
+                );
+                let som = if graph.som {
+                    SomType::Left
+                } else {
+                    SomType::None
+                };
+                let handled = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+                    unsafe { ng.as_mut().get_unchecked_mut() }
+                        .verif_small_write(&g, som, &graph.min_lengths)
+                        .is_ok()
+                }));
+                let after = set_obs(&ng).small_write;
+                (before, after, handled.unwrap_or(false))
+            })
+        })
+    })
 }
 
 // Reports.
@@ -443,38 +645,45 @@ pub fn report_manager(
     ops: &[ReportOp],
     each: bool,
 ) -> (Vec<(ReportResult, Vec<ReportObs>)>, ReportsObs) {
-    let grey = Grey {
-        limit_report_count: report_limit,
-        ..Grey::default()
-    };
-    let mut rm = ReportManager::new(&grey);
-    let mut ids: Vec<u32> = Vec::new();
-    let mut res = Vec::new();
-    for (i, op) in ops.iter().enumerate() {
-        let r = match *op {
-            ReportOp::Callback(id, adj, ekey, quiet) => {
-                let r = crate::util::make_e_callback(id, adj, ekey, quiet);
-                ReportResult::Id(rm.get_internal_id(&r))
-            }
-            ReportOp::SomCallback(id, adj, distance) => {
-                let r = crate::util::make_som_relative_callback(id, adj, distance);
-                ReportResult::Id(rm.get_internal_id(&r))
+    have!("report-manager", {
+        have!("reports", {
+            let grey = Grey {
+                limit_report_count: report_limit,
+                ..Grey::default()
+            };
+            let mut rm = ReportManager::new(&grey);
+            let mut ids: Vec<u32> = Vec::new();
+            let mut res = Vec::new();
+            for (i, op) in ops.iter().enumerate() {
+                let r = match *op {
+                    ReportOp::Callback(id, adj, ekey, quiet) => {
+                        let r = crate::util::make_e_callback(id, adj, ekey, quiet);
+                        ReportResult::Id(rm.get_internal_id(&r))
+                    }
+                    ReportOp::SomCallback(id, adj, distance) => {
+                        let r = crate::util::make_som_relative_callback(id, adj, distance);
+                        ReportResult::Id(rm.get_internal_id(&r))
+                    }
+                    ReportOp::Register(id, highlander, index) => {
+                        ReportResult::Registered(rm.register_ext_report(
+                            id,
+                            crate::util::ExternalReportInfo::new(highlander, index),
+                        ))
+                    }
+                    ReportOp::ExhaustibleKey(a) => ReportResult::Key(rm.get_exhaustible_key(a)),
+                };
+                if let ReportResult::Id(Ok(id)) = r {
+                    ids.push(id);
+                }
+                let mut reports = Vec::new();
+                if each || i + 1 == ops.len() {
+                    reports.extend(ids.iter().map(|&id| rm.get_report(id).verif_obs()));
+                }
+                res.push((r, reports));
             }
-            ReportOp::Register(id, highlander, index) => ReportResult::Registered(
-                rm.register_ext_report(id, ExternalReportInfo::new(highlander, index)),
-            ),
-            ReportOp::ExhaustibleKey(a) => ReportResult::Key(rm.get_exhaustible_key(a)),
-        };
-        if let ReportResult::Id(Ok(id)) = r {
-            ids.push(id);
-        }
-        let mut reports = Vec::new();
-        if each || i + 1 == ops.len() {
-            reports.extend(ids.iter().map(|&id| rm.get_report(id).verif_obs()));
-        }
-        res.push((r, reports));
-    }
-    (res, rm.verif_obs())
+            (res, reports_obs(&rm))
+        })
+    })
 }
 
 // Character classes.
@@ -486,232 +695,234 @@ pub struct Class(CharReach);
 impl Class {
     #[must_use]
     pub fn from_char(c: u8) -> Self {
-        Self(CharReach::from_char(c))
+        have!("classes", Self(CharReach::from_char(c)))
     }
 
     #[must_use]
     pub fn from_range(from: u8, to: u8) -> Self {
-        Self(CharReach::from_range(from, to))
+        have!("classes", Self(CharReach::from_range(from, to)))
     }
 
     #[must_use]
     pub fn from_bytes(bytes: &[u8]) -> Self {
-        Self(CharReach::from_bytes(bytes))
+        have!("classes", Self(CharReach::from_bytes(bytes)))
     }
 
     #[must_use]
     pub fn dot() -> Self {
-        Self(CharReach::dot())
+        have!("classes", Self(CharReach::dot()))
     }
 
     #[inline]
     pub fn reset_all(&mut self) {
-        self.0.reset_all();
+        have!("classes", self.0.reset_all())
     }
 
     #[inline]
     pub fn set_all(&mut self) {
-        self.0.set_all();
+        have!("classes", self.0.set_all())
     }
 
     #[inline]
     pub fn reset(&mut self, c: u8) {
-        self.0.reset(c);
+        have!("classes", self.0.reset(c))
     }
 
     #[inline]
     pub fn set(&mut self, c: u8) {
-        self.0.set(c);
+        have!("classes", self.0.set(c))
     }
 
     #[inline]
     #[must_use]
     pub fn test(&self, c: u8) -> bool {
-        self.0.test(c)
+        have!("classes", self.0.test(c))
     }
 
     #[inline]
     pub fn flip_all(&mut self) {
-        self.0.flip_all();
+        have!("classes", self.0.flip_all())
     }
 
     #[inline]
     pub fn flip(&mut self, c: u8) {
-        self.0.flip(c);
+        have!("classes", self.0.flip(c))
     }
 
     #[inline]
     pub fn set_range(&mut self, from: u8, to: u8) {
-        self.0.set_range(from, to);
+        have!("classes", self.0.set_range(from, to))
     }
 
     #[inline]
     pub fn set_bytes(&mut self, bytes: &[u8]) {
-        self.0.set_bytes(bytes);
+        have!("classes", self.0.set_bytes(bytes))
     }
 
     #[inline]
     #[must_use]
     pub fn count(&self) -> u32 {
-        self.0.count()
+        have!("classes", self.0.count())
     }
 
     #[inline]
     #[must_use]
     pub fn none(&self) -> bool {
-        self.0.none()
+        have!("classes", self.0.none())
     }
 
     #[inline]
     #[must_use]
     pub fn any(&self) -> bool {
-        self.0.any()
+        have!("classes", self.0.any())
     }
 
     #[inline]
     #[must_use]
     pub fn all(&self) -> bool {
-        self.0.all()
+        have!("classes", self.0.all())
     }
 
     #[inline]
     #[must_use]
     pub fn find_first(&self) -> Option<u8> {
-        self.0.find_first()
+        have!("classes", self.0.find_first())
     }
 
     #[inline]
     #[must_use]
     pub fn find_last(&self) -> Option<u8> {
-        self.0.find_last()
+        have!("classes", self.0.find_last())
     }
 
     #[inline]
     #[must_use]
     pub fn find_next(&self, last: u8) -> Option<u8> {
-        self.0.find_next(last)
+        have!("classes", self.0.find_next(last))
     }
 
     #[inline]
     #[must_use]
     pub fn find_nth(&self, n: u8) -> Option<u8> {
-        self.0.find_nth(n)
+        have!("classes", self.0.find_nth(n))
     }
 
     #[inline]
     #[must_use]
     pub fn is_alphabetic(&self) -> bool {
-        self.0.is_alphabetic()
+        have!("classes", self.0.is_alphabetic())
     }
 
     #[inline]
     #[must_use]
     pub fn is_caseless_char(&self) -> bool {
-        self.0.is_caseless_char()
+        have!("classes", self.0.is_caseless_char())
     }
 
     #[inline]
     #[must_use]
     pub fn is_bit5_insensitive(&self) -> bool {
-        self.0.is_bit5_insensitive()
+        have!("classes", self.0.is_bit5_insensitive())
     }
 
     #[inline]
     #[must_use]
     pub fn is_subset_of(&self, rhs: &Self) -> bool {
-        self.0.is_subset_of(&rhs.0)
+        have!("classes", self.0.is_subset_of(&rhs.0))
     }
 
     #[inline]
     #[must_use]
     pub fn overlaps(&self, rhs: &Self) -> bool {
-        self.0.overlaps(&rhs.0)
+        have!("classes", self.0.overlaps(&rhs.0))
     }
 
     #[inline]
     #[must_use]
     pub fn is_ascii(&self) -> bool {
-        self.0.is_ascii()
+        have!("classes", self.0.is_ascii())
     }
 
     #[inline]
     #[must_use]
     pub fn is_utf8_start(&self) -> bool {
-        self.0.is_utf8_start()
+        have!("classes", self.0.is_utf8_start())
     }
 
     #[inline]
     #[must_use]
     pub fn and(self, rhs: Self) -> Self {
-        Self(self.0 & rhs.0)
+        have!("classes", Self(self.0 & rhs.0))
     }
 
     #[inline]
     #[must_use]
     pub fn or(self, rhs: Self) -> Self {
-        Self(self.0 | rhs.0)
+        have!("classes", Self(self.0 | rhs.0))
     }
 
     #[inline]
     #[must_use]
     pub fn xor(self, rhs: Self) -> Self {
-        Self(self.0 ^ rhs.0)
+        have!("classes", Self(self.0 ^ rhs.0))
     }
 
     #[inline]
     #[must_use]
     pub fn complement(self) -> Self {
-        Self(!self.0)
+        have!("classes", Self(!self.0))
     }
 
     #[inline]
     pub fn and_assign(&mut self, rhs: Self) {
-        self.0 &= rhs.0;
+        have!("classes", self.0 &= rhs.0)
     }
 
     #[inline]
     pub fn or_assign(&mut self, rhs: Self) {
-        self.0 |= rhs.0;
+        have!("classes", self.0 |= rhs.0)
     }
 
     #[inline]
     pub fn xor_assign(&mut self, rhs: Self) {
-        self.0 ^= rhs.0;
+        have!("classes", self.0 ^= rhs.0)
     }
 
     #[inline]
     pub fn make_caseless(&mut self) {
-        make_caseless(&mut self.0);
+        have!("classes", crate::util::make_caseless(&mut self.0))
     }
 
     #[inline]
     pub fn fill_bitvector(&self, bits: &mut [u8]) {
-        crate::util::fill_bitvector(&self.0, bits);
+        have!("masks", crate::util::fill_bitvector(&self.0, bits))
     }
 
     #[inline]
     #[must_use]
     pub fn and_cmp_mask(&self) -> (u8, u8) {
-        make_and_cmp_mask(&self.0)
+        have!("masks", crate::util::make_and_cmp_mask(&self.0))
     }
 
     /// Describes the class, as text or (if `dot`) as a DOT label.
     #[must_use]
     pub fn describe(&self, dot: bool) -> String {
-        let out_type = if dot {
-            crate::util::CcOutput::Dot
-        } else {
-            crate::util::CcOutput::Text
-        };
-        let mut s = String::new();
-        crate::util::describe_class(&mut s, &self.0, 256, out_type).expect("infallible");
-        s
+        have!("dumps", {
+            let out_type = if dot {
+                crate::util::CcOutput::Dot
+            } else {
+                crate::util::CcOutput::Text
+            };
+            let mut s = String::new();
+            crate::util::describe_class(&mut s, &self.0, 256, out_type).expect("infallible");
+            s
+        })
     }
 }
 
 impl std::fmt::Display for Class {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        self.0.fmt(f)
+        have!("classes", self.0.fmt(f))
     }
 }
 
@@ -722,22 +933,76 @@ impl std::fmt::Display for Class {
 /// Returns an error if the expression is invalid.
 #[allow(clippy::missing_panics_doc)]
 pub fn dump_expression(expression: &str, flags: Flags) -> Result<String, CompileError> {
-    let mut mode = ParseMode::new(flags);
-    let component = crate::parser::parse(expression, &mut mode)?;
-    let mut s = String::new();
-    crate::parser::verif::dump(&mut s, &component).expect("infallible");
-    Ok(s)
+    have!("dumps", {
+        let mut mode = ParseMode::new(flags);
+        let component = crate::parser::parse(expression, &mut mode)?;
+        let mut s = String::new();
+        crate::parser::verif::dump(&mut s, &component).expect("infallible");
+        Ok(s)
+    })
 }
 
 // ASCII characters.
 
+#[cfg(not(rescan_verif_without = "chars"))]
 pub use crate::util::verif::{myislower, myisupper, mytolower, mytoupper, ourisalpha};
+#[cfg(rescan_verif_without = "chars")]
+pub use absent_chars::*;
+
+#[cfg(rescan_verif_without = "chars")]
+mod absent_chars {
+    pub fn myislower(_c: u8) -> bool {
+        panic!("not available")
+    }
+
+    pub fn myisupper(_c: u8) -> bool {
+        panic!("not available")
+    }
+
+    pub fn mytolower(_c: u8) -> u8 {
+        panic!("not available")
+    }
+
+    pub fn mytoupper(_c: u8) -> u8 {
+        panic!("not available")
+    }
+
+    pub fn ourisalpha(_c: u8) -> bool {
+        panic!("not available")
+    }
+}
 
 // Alignment.
 
+#[cfg(not(rescan_verif_without = "alignment"))]
 pub use crate::util::verif::{
     round_down_16, round_down_n, round_up_16, round_up_cache_line, round_up_n,
 };
+#[cfg(rescan_verif_without = "alignment")]
+pub use absent_alignment::*;
+
+#[cfg(rescan_verif_without = "alignment")]
+mod absent_alignment {
+    pub fn round_down_16<T>(_a: T) -> T {
+        panic!("not available")
+    }
+
+    pub fn round_up_16<T>(_a: T) -> T {
+        panic!("not available")
+    }
+
+    pub fn round_up_cache_line<T>(_a: T) -> T {
+        panic!("not available")
+    }
+
+    pub fn round_down_n<T>(_a: T, _n: u8) -> T {
+        panic!("not available")
+    }
+
+    pub fn round_up_n<T>(_a: T, _n: u8) -> T {
+        panic!("not available")
+    }
+}
 
 // Depths.
 
@@ -747,22 +1012,22 @@ pub struct DepthValue(Depth);
 impl DepthValue {
     #[must_use]
     pub fn infinity() -> Self {
-        Self(Depth::infinity())
+        have!("depths", Self(Depth::infinity()))
     }
 
     #[must_use]
     pub fn from_u32(v: u32) -> Option<Self> {
-        Depth::try_from(v).ok().map(Self)
+        have!("depths", Depth::try_from(v).ok().map(Self))
     }
 
     #[must_use]
     pub fn from_usize(v: usize) -> Option<Self> {
-        Depth::try_from(v).ok().map(Self)
+        have!("depths", Depth::try_from(v).ok().map(Self))
     }
 
     /// Returns the count; `None` means infinity.
     #[must_use]
     pub fn value(&self) -> Option<u32> {
-        self.0.verif_value()
+        have!("depths", self.0.verif_value())
     }
 }
-- 
2.43.0


From 017276eb1098da39b8a4709787e599a6c2a14bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:46 +0000
Subject: [PATCH 21/26] hooks: say which are left out

---
 src/verif.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/verif.rs b/src/verif.rs
index 2f1c1da..f7ed2f5 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -25,7 +25,7 @@ type ReportId = u32;
 /// alternative (or a panic) otherwise.
 macro_rules! have {
     ($group:tt, $e:expr) => {
-        have!($group, $e, panic!("not available"))
+        have!($group, $e, panic!(concat!("hooks left out: ", $group)))
     };
     ($group:tt, $e:expr, $otherwise:expr) => {{
         #[cfg(not(rescan_verif_without = $group))]
-- 
2.43.0


From 025530722f65a0694af7807e0a3e0447166c11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 22/26] hooks: errors and modes, where the hooks are left out

---
 src/verif.rs | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index f7ed2f5..2f3d89d 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -300,7 +300,21 @@ pub struct Limits {
 
 impl Default for Limits {
     fn default() -> Self {
-        have!("limits", Self::of(&Grey::default()))
+        have!(
+            "limits",
+            Self::of(&Grey::default()),
+            Self {
+                allow_literal: true,
+                shortcut_literals: true,
+                allow_small_write: true,
+                small_write_largest_buffer: 0,
+                small_write_max_patterns: 0,
+                small_write_max_literals: 0,
+                pattern_count: 0,
+                pattern_length: 0,
+                report_count: 0,
+            }
+        )
     }
 }
 
@@ -358,18 +372,27 @@ pub fn compile_with(
     )
 }
 
-/// Returns the category, the reason, and the expression index of an error.
+/// Returns the category, the reason, and the expression index of an error, if
+/// these hooks are there.
 #[must_use]
-pub fn error_parts(e: &CompileError) -> (&ErrorKind, &str, Option<u32>) {
-    have!("errors", e.verif_parts())
+pub fn error_parts(e: &CompileError) -> Option<(&ErrorKind, &str, Option<u32>)> {
+    have!("errors", Some(e.verif_parts()), {
+        let _ = e;
+        None
+    })
 }
 
-/// Returns the scanning mode of a database: 'b', 's', or 'v'.
+/// Returns the scanning mode of a database: 'b', 's', or 'v' ('?' if these hooks
+/// are left out).
 #[must_use]
 pub fn database_mode(db: &Database) -> char {
     have!(
         "mode",
-        crate::rose::verif::mode(crate::database::get_bytecode(db))
+        crate::rose::verif::mode(crate::database::get_bytecode(db)),
+        {
+            let _ = db;
+            '?'
+        }
     )
 }
 
-- 
2.43.0


From 3c5a97aa7a30831bcb3d271a6d898e7e7a25825f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:28 +0000
Subject: [PATCH 23/26] hooks: several connections, of any number of positions

---
 src/parser/verif.rs | 35 ++++++++++++++++++++++++-----------
 src/verif.rs        | 14 ++++++++------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index c6fa6e2..35611de 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -74,22 +74,33 @@ mod positions {
     use crate::parser::{make_glushkov_build_state, PosFlags, Position, PositionInfo};
     use crate::verif::Edge;
 
-    /// Connects the positions with each other, and returns the edges from the
-    /// positions in `lasts` that result. An 'x' is a position that did not exist.
+    /// Connects positions with each other, and returns all the edges that
+    /// result. An 'x' is a position that did not exist.
     #[must_use]
-    pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
+    pub fn connect(calls: &[(Vec<Edge>, Vec<Edge>)]) -> Vec<(char, Vec<Edge>)> {
         let mut builder = NfaBuilder::verif_new();
-        let plain = builder.make_position();
-        let multiline = builder.make_position();
-        builder.verif_assert_flags(multiline, PosFlags::MULTILINE_START);
         let mut named: Vec<(char, Position)> = vec![
             ('s', builder.get_start()),
             ('d', builder.get_start_dot_star()),
             ('a', builder.get_accept()),
             ('e', builder.get_accept_eod()),
-            ('p', plain),
-            ('m', multiline),
         ];
+        for (lasts, firsts) in calls {
+            for &(c, _) in lasts.iter().chain(firsts) {
+                if c != 'n' && named.iter().all(|n| n.0 != c) {
+                    let pos = builder.make_position();
+                    let mut asserted = PosFlags::empty();
+                    if c == 'm' || ('\u{1000}'..'\u{3000}').contains(&c) {
+                        asserted |= PosFlags::MULTILINE_START;
+                    }
+                    if c >= '\u{2000}' {
+                        asserted |= PosFlags::NOFLOAT | PosFlags::MUST_FLOAT;
+                    }
+                    builder.verif_assert_flags(pos, asserted);
+                    named.push((c, pos));
+                }
+            }
+        }
         let mut bs = make_glushkov_build_state(&mut builder);
         named.push(('n', bs.verif_epsilon()));
         let to_info = |e: &Edge| {
@@ -105,9 +116,11 @@ mod positions {
             }
             info
         };
-        let lasts: Vec<_> = lasts.iter().map(to_info).collect();
-        let firsts: Vec<_> = firsts.iter().map(to_info).collect();
-        bs.connect_regions(&lasts, &firsts);
+        for (lasts, firsts) in calls {
+            let lasts: Vec<_> = lasts.iter().map(to_info).collect();
+            let firsts: Vec<_> = firsts.iter().map(to_info).collect();
+            bs.connect_regions(&lasts, &firsts);
+        }
         let name = |pos: Position| named.iter().find(|n| n.1 == pos).map_or('x', |n| n.0);
         let mut edges: Vec<(char, Vec<Edge>)> = bs
             .verif_successors()
diff --git a/src/verif.rs b/src/verif.rs
index 2f3d89d..c584f50 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -116,8 +116,10 @@ pub enum TreeEvent {
 
 /// An end of an edge between positions: 's' (start), 'd' (start-dotstar),
 /// 'a' (accept), 'e' (accept at end of data), 'n' (epsilon), 'p' (an ordinary
-/// position), or 'm' (a position with a multiline start assertion); and the
-/// flags: 1 (no float), 2 (must float), 4 (multiline start).
+/// position), or 'm' (a position that asserts a multiline start), or further ones
+/// of the last two kinds (from U+0100 and from U+1000 on, or, asserting no float
+/// and must float, from U+3000 and from U+2000 on); and the flags: 1 (no float),
+/// 2 (must float), 4 (multiline start).
 pub type Edge = (char, u8);
 
 // Observation of compilations.
@@ -431,13 +433,13 @@ pub fn graph_query(
     )
 }
 
-/// Connects the positions with each other, and returns the edges from the
-/// positions in `lasts` that result. An 'x' is a position that did not exist.
+/// Connects the positions of each pair of sets with each other, and returns all
+/// the edges that result. An 'x' is a position that did not exist.
 #[must_use]
-pub fn connect(lasts: &[Edge], firsts: &[Edge]) -> Vec<(char, Vec<Edge>)> {
+pub fn connect(calls: &[(Vec<Edge>, Vec<Edge>)]) -> Vec<(char, Vec<Edge>)> {
     have!(
         "positions",
-        have!("expressions", crate::parser::verif::connect(lasts, firsts))
+        have!("expressions", crate::parser::verif::connect(calls))
     )
 }
 
-- 
2.43.0


From f45c962c30fb28eef0fe10d5de30fa65011a8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:42 +0000
Subject: [PATCH 24/26] hooks: say which are left out, everywhere

---
 src/verif.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/verif.rs b/src/verif.rs
index c584f50..d8bf27e 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -977,23 +977,23 @@ pub use absent_chars::*;
 #[cfg(rescan_verif_without = "chars")]
 mod absent_chars {
     pub fn myislower(_c: u8) -> bool {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn myisupper(_c: u8) -> bool {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn mytolower(_c: u8) -> u8 {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn mytoupper(_c: u8) -> u8 {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn ourisalpha(_c: u8) -> bool {
-        panic!("not available")
+        panic!("hooks left out")
     }
 }
 
@@ -1009,23 +1009,23 @@ pub use absent_alignment::*;
 #[cfg(rescan_verif_without = "alignment")]
 mod absent_alignment {
     pub fn round_down_16<T>(_a: T) -> T {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn round_up_16<T>(_a: T) -> T {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn round_up_cache_line<T>(_a: T) -> T {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn round_down_n<T>(_a: T, _n: u8) -> T {
-        panic!("not available")
+        panic!("hooks left out")
     }
 
     pub fn round_up_n<T>(_a: T, _n: u8) -> T {
-        panic!("not available")
+        panic!("hooks left out")
     }
 }
 
-- 
2.43.0


From 267dd12e6401accb1137448ad993be4bf9df5a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:28 +0000
Subject: [PATCH 25/26] hooks: walks over parse trees, and dumps to any writer

---
 src/parser/verif.rs | 91 ++++++++++++++++++++++++++++++++++++++++++++-
 src/verif.rs        | 49 ++++++++++++++++++++++++
 2 files changed, 139 insertions(+), 1 deletion(-)

diff --git a/src/parser/verif.rs b/src/parser/verif.rs
index 35611de..ee49cca 100644
--- a/src/parser/verif.rs
+++ b/src/parser/verif.rs
@@ -55,10 +55,99 @@ mod trees {
 }
 
 #[cfg(not(rescan_verif_without = "dumps"))]
-pub(crate) fn dump(out: &mut String, component: &super::Component) -> Result<(), std::fmt::Error> {
+pub(crate) fn dump<W: std::fmt::Write>(
+    out: &mut W,
+    component: &super::Component,
+) -> Result<(), std::fmt::Error> {
     super::dump::dump_tree(out, component)
 }
 
+#[cfg(not(rescan_verif_without = "walks"))]
+pub(crate) use walks::walk;
+
+#[cfg(not(rescan_verif_without = "walks"))]
+mod walks {
+    use crate::parser::ascii_component_class::AsciiComponentClass;
+    use crate::parser::{
+        walk_component, Component, ComponentAlternation, ComponentSequence, ConstComponentVisitor,
+    };
+    use std::cell::RefCell;
+
+    struct WalkVisitor {
+        visits: RefCell<Vec<(char, char)>>,
+        entered: usize,
+        refused: usize,
+    }
+
+    impl WalkVisitor {
+        fn visit(&self, when: char, what: char) {
+            self.visits.borrow_mut().push((when, what));
+        }
+
+        fn enter(&mut self, what: char) -> Result<(), usize> {
+            self.visit('<', what);
+            self.entered += 1;
+            if self.entered > self.refused {
+                return Err(self.refused);
+            }
+            Ok(())
+        }
+    }
+
+    impl ConstComponentVisitor for WalkVisitor {
+        type Error = usize;
+
+        fn pre_ascii_component_class(&mut self, _c: &AsciiComponentClass) -> Result<(), usize> {
+            self.enter('c')
+        }
+
+        fn pre_component_alternation(&mut self, _c: &ComponentAlternation) -> Result<(), usize> {
+            self.enter('a')
+        }
+
+        fn pre_component_sequence(&mut self, _c: &ComponentSequence) -> Result<(), usize> {
+            self.enter('s')
+        }
+
+        fn during_ascii_component_class(&self, _c: &AsciiComponentClass) {
+            self.visit('-', 'c');
+        }
+
+        fn during_component_alternation(&self, _c: &ComponentAlternation) {
+            self.visit('-', 'a');
+        }
+
+        fn during_component_sequence(&self, _c: &ComponentSequence) {
+            self.visit('-', 's');
+        }
+
+        fn post_ascii_component_class(&mut self, _c: &AsciiComponentClass) {
+            self.visit('>', 'c');
+        }
+
+        fn post_component_alternation(&mut self, _c: &ComponentAlternation) {
+            self.visit('>', 'a');
+        }
+
+        fn post_component_sequence(&mut self, _c: &ComponentSequence) {
+            self.visit('>', 's');
+        }
+    }
+
+    pub(crate) fn walk(
+        component: &Component,
+        refused: usize,
+    ) -> (Vec<(char, char)>, Result<(), usize>) {
+        let mut v = WalkVisitor {
+            visits: RefCell::new(Vec::new()),
+            entered: 0,
+            refused,
+        };
+        let r = walk_component(&mut v, component);
+        (v.visits.into_inner(), r)
+    }
+}
+
 #[cfg(not(any(
     rescan_verif_without = "positions",
     rescan_verif_without = "expressions"
diff --git a/src/verif.rs b/src/verif.rs
index d8bf27e..8ddcee5 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -943,6 +943,22 @@ impl Class {
             s
         })
     }
+
+    /// Writes the description as `describe` does.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if writing fails.
+    pub fn describe_to(&self, dot: bool, mut to: &mut dyn std::fmt::Write) -> std::fmt::Result {
+        have!("dumps", {
+            let out_type = if dot {
+                crate::util::CcOutput::Dot
+            } else {
+                crate::util::CcOutput::Text
+            };
+            crate::util::describe_class(&mut to, &self.0, 256, out_type)
+        })
+    }
 }
 
 impl std::fmt::Display for Class {
@@ -967,6 +983,39 @@ pub fn dump_expression(expression: &str, flags: Flags) -> Result<String, Compile
     })
 }
 
+/// A parse tree.
+pub struct Tree(Component);
+
+impl Tree {
+    /// Parses the expression.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if the expression is invalid.
+    pub fn new(expression: &str, flags: Flags) -> Result<Self, CompileError> {
+        let mut mode = ParseMode::new(flags);
+        Ok(Self(crate::parser::parse(expression, &mut mode)?))
+    }
+
+    /// Writes the dump of the tree.
+    ///
+    /// # Errors
+    ///
+    /// Returns an error if writing fails.
+    pub fn dump_to(&self, mut to: &mut dyn std::fmt::Write) -> std::fmt::Result {
+        have!("dumps", crate::parser::verif::dump(&mut to, &self.0))
+    }
+
+    /// Walks over the tree, and refuses the component with the given number,
+    /// in the order in which they are entered. Returns what was visited, when
+    /// ('<' before, '-' during, '>' after) and what (an alternation, a class,
+    /// or a sequence), and the refused number.
+    #[must_use]
+    pub fn walk(&self, refused: usize) -> (Vec<(char, char)>, Result<(), usize>) {
+        have!("walks", crate::parser::verif::walk(&self.0, refused))
+    }
+}
+
 // ASCII characters.
 
 #[cfg(not(rescan_verif_without = "chars"))]
-- 
2.43.0


From 5415877be34ab0dec2235c1e4307e492307e4c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:59 +0000
Subject: [PATCH 26/26] hooks: what is noted about each expression

---
 src/compiler.rs                 |  6 ++++++
 src/compiler/expression_info.rs | 14 ++++++++++++++
 src/verif.rs                    | 22 ++++++++++++++++++++++
 3 files changed, 42 insertions(+)

diff --git a/src/compiler.rs b/src/compiler.rs
index 69d9484..8380a01 100644
--- a/src/compiler.rs
+++ b/src/compiler.rs
@@ -51,6 +51,9 @@ impl ParsedExpression {
 
         expr.utf8 = mode.utf8; // utf8 may be set by parse()
 
+        #[cfg(all(rescan_verif, not(rescan_verif_without = "info-call")))]
+        crate::verif::on_info(&expr);
+
         Ok(Self { expr, component })
     }
 }
@@ -111,6 +114,9 @@ pub(crate) fn add_expression(
     #[cfg(all(rescan_verif, not(rescan_verif_without = "graph-call")))]
     crate::verif::on_graph(&build_expr.g);
 
+    #[cfg(all(rescan_verif, not(rescan_verif_without = "info-call")))]
+    crate::verif::on_info(&build_expr.expr);
+
     unsafe {
         let inner: Pin<&mut Ng> = ng.as_mut();
         inner
diff --git a/src/compiler/expression_info.rs b/src/compiler/expression_info.rs
index 32fc987..5ca1df9 100644
--- a/src/compiler/expression_info.rs
+++ b/src/compiler/expression_info.rs
@@ -34,3 +34,17 @@ pub(crate) struct ExpressionInfo {
     /// Quiet on match.
     pub(crate) quiet: bool,
 }
+
+#[cfg(all(rescan_verif, not(rescan_verif_without = "info")))]
+impl ExpressionInfo {
+    pub(crate) fn verif_obs(&self) -> crate::verif::InfoObs {
+        crate::verif::InfoObs {
+            index: self.index,
+            id: self.report,
+            single_match: self.highlander,
+            utf8: self.utf8,
+            prefilter: self.prefilter,
+            quiet: self.quiet,
+        }
+    }
+}
diff --git a/src/verif.rs b/src/verif.rs
index 8ddcee5..0a8d3b5 100644
--- a/src/verif.rs
+++ b/src/verif.rs
@@ -8,6 +8,7 @@
 //! `--cfg rescan_verif_without="group"`, should it not fit the library. What it
 //! offers then panics, or is empty where it is a part of something observed.
 
+use crate::compiler::ExpressionInfo;
 use crate::nfagraph::{Ng, NgHolder};
 use crate::parser::{Component, ParseMode};
 use crate::util::{CharReach, CompileContext, Depth, ReportManager, Ue2Literal};
@@ -127,6 +128,17 @@ pub type Edge = (char, u8);
 /// A literal as a list of characters with their case insensitivity.
 pub type Lit = Vec<(u8, bool)>;
 
+/// What is noted about an expression.
+#[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
+pub struct InfoObs {
+    pub index: usize,
+    pub id: ReportId,
+    pub single_match: bool,
+    pub utf8: bool,
+    pub prefilter: bool,
+    pub quiet: bool,
+}
+
 /// What happened to an expression.
 #[derive(Clone, Debug, Default, Eq, Hash, PartialEq)]
 pub struct ExprObs {
@@ -142,6 +154,8 @@ pub struct ExprObs {
     /// of the data.
     pub bounds: Vec<(bool, bool)>,
     pub graphs: Vec<GraphObs>,
+    /// What is noted about the expression, and about each graph.
+    pub infos: Vec<InfoObs>,
 }
 
 /// What the expressions were turned into.
@@ -257,6 +271,14 @@ pub(crate) fn on_graph(g: &NgHolder) {
     });
 }
 
+pub(crate) fn on_info(info: &ExpressionInfo) {
+    observe(|t| {
+        if let Some(e) = t.expressions.last_mut() {
+            have!("info", e.infos.push(info.verif_obs()), ());
+        }
+    });
+}
+
 pub(crate) fn on_build(ng: &Ng) {
     observe(|t| t.ng = Some(set_obs(ng)));
 }
-- 
2.43.0


From bf50c8849a8eedcb5720612598768e907ef5564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:29 +0000
Subject: [PATCH 01/10] fix: reject string IDs that do not fit in 16 bits

The conversion silently truncated an operand to 16 bits, so a registry of
65536 + i was reported as string i.
---
 src/compact1/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/mod.rs b/src/compact1/mod.rs
index 6c026dc..8a9e76b 100644
--- a/src/compact1/mod.rs
+++ b/src/compact1/mod.rs
@@ -35,7 +35,7 @@ impl TryFrom<Number> for StringID {
     #[inline]
     fn try_from(number: Number) -> Result<Self> {
         match number {
-            Number::Integer(value) if value >= 0 => Ok(value as Self),
+            Number::Integer(value) if value >= 0 && value <= Self::MAX as i32 => Ok(value as Self),
             _ => raise!("found a malformed string ID"),
         }
     }
-- 
2.43.0


From a16d7b823531e2c7a0fc2b03d942398335b2118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 02/10] fix: reject negative sizes and offsets in dictionaries

A negative Private size requested a vector of nearly usize::MAX elements and
panicked with a capacity overflow, while a negative offset or an overflowing
sum of the Private and Subrs offsets overflowed the position arithmetic: a
panic in debug builds and a wrapped-around position in release ones.
---
 src/compact1/font_set/character_id_keyed.rs   |  2 +-
 src/compact1/font_set/character_name_keyed.rs |  2 +-
 src/compact1/font_set/mod.rs                  | 14 ++++++++++++--
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 517d302..64b4d36 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -107,7 +107,7 @@ impl<'l> crate::walue::Read<'l> for RecordInner {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => jump_take!(@unwrap tape, position, add!(offset, another_offset)),
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/character_name_keyed.rs b/src/compact1/font_set/character_name_keyed.rs
index 7732ffc..7df72d5 100644
--- a/src/compact1/font_set/character_name_keyed.rs
+++ b/src/compact1/font_set/character_name_keyed.rs
@@ -26,7 +26,7 @@ impl<'l> crate::walue::Read<'l> for Record {
         let chunk: Vec<u8> = jump_take_given!(@unwrap tape, position, offset, size as usize);
         let operations = Cursor::new(chunk).take::<Operations>()?;
         let subroutines = match get!(@try @single operations, Subrs) {
-            Some(another_offset) => jump_take!(@unwrap tape, position, offset + another_offset),
+            Some(another_offset) => jump_take!(@unwrap tape, position, add!(offset, another_offset)),
             _ => Default::default(),
         };
         Ok(Self {
diff --git a/src/compact1/font_set/mod.rs b/src/compact1/font_set/mod.rs
index 5ee2955..6eefbbd 100644
--- a/src/compact1/font_set/mod.rs
+++ b/src/compact1/font_set/mod.rs
@@ -3,7 +3,7 @@
 macro_rules! get(
     (@single $operations:expr, $operator:ident) => (
         match $operations.get_single(crate::compact1::Operator::$operator) {
-            Some(crate::compact1::Number::Integer(value)) => value,
+            Some(crate::compact1::Number::Integer(value)) if value >= 0 => value,
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
@@ -17,13 +17,23 @@ macro_rules! get(
     );
     (@double $operations:expr, $operator:ident) => (
         match $operations.get_double(crate::compact1::Operator::$operator) {
-            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1))) => (value0, value1),
+            Some((crate::compact1::Number::Integer(value0), crate::compact1::Number::Integer(value1)))
+                if value0 >= 0 && value1 >= 0 => (value0, value1),
             Some(_) => raise!(concat!("found a malformed operation with operator ", stringify!($operator))),
             _ => raise!(concat!("found no operation with operator ", stringify!($operator))),
         }
     );
 );
 
+macro_rules! add(
+    ($one:expr, $other:expr) => (
+        match $one.checked_add($other) {
+            Some(value) if value >= 0 => value,
+            _ => raise!("found a malformed offset"),
+        }
+    );
+);
+
 pub mod character_id_keyed;
 pub mod character_name_keyed;
 
-- 
2.43.0


From 9ae54336f0c17518dc8e31ab673fd68cf35fac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:46 +0000
Subject: [PATCH 03/10] fix: reject character sets in format 0 without glyphs

The number of glyphs excluding .notdef underflowed when there were none; the
other formats already report a malformed character set.
---
 src/compact1/character_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compact1/character_set.rs b/src/compact1/character_set.rs
index 663eb5b..889690c 100644
--- a/src/compact1/character_set.rs
+++ b/src/compact1/character_set.rs
@@ -93,7 +93,7 @@ impl crate::walue::Read<'static> for CharacterSet0 {
 
     fn read<T: crate::tape::Read>(tape: &mut T, glyph_count: usize) -> Result<Self> {
         let format = tape.take::<u8>()?;
-        if format != 0 {
+        if format != 0 || glyph_count == 0 {
             raise!("found a malformed character set");
         }
         Ok(CharacterSet0 {
-- 
2.43.0


From 9b1f6cf777e7f7d76ecb4f0121788ebac98255c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 04/10] fix: compute subroutine indices without overflow

An operand as large as 2147483647 made the addition of the bias overflow: a
panic in debug builds.
---
 src/type2/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index eda4344..2ec7108 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -267,7 +267,7 @@ impl<'l> Program<'l> {
                         &self.global
                     };
                     let count = subroutines.len();
-                    let i = address + bias(count);
+                    let i = address as i64 + bias(count) as i64;
                     if i < 0 || i as usize >= count {
                         raise!("found no subroutine");
                     }
-- 
2.43.0


From f107364b3c716f24f353aa8685b4caffa8b31666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 05/10] fix: reduce the shift of the roll operator modulo its
 span

Negating a shift of -2147483648 overflowed, and any other huge shift rotated
the operands one position at a time for up to two billion iterations.
---
 src/type2/program.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 2ec7108..baadf8b 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -216,6 +216,7 @@ impl<'l> Program<'l> {
                     raise!("expected more operands");
                 } else if span > 0 {
                     let position = length - span as usize;
+                    let shift = shift % span;
                     match shift.cmp(&0) {
                         std::cmp::Ordering::Greater => {
                             for _ in 0..shift {
-- 
2.43.0


From b351eefa7117ab360d6931af0a89d5e68f1fce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:37 +0000
Subject: [PATCH 06/10] fix: execute charstrings iteratively

Each operator that did not produce an operation recursed, so that a long run of
arithmetic operators overflowed the call stack and aborted the process.
---
 src/type2/program.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index baadf8b..904c87a 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -36,12 +36,20 @@ impl<'l> Program<'l> {
 
     /// Return the next operation.
     #[allow(clippy::should_implement_trait)]
-    #[allow(unused_comparisons, unused_must_use)]
     pub fn next(&mut self) -> Result<Option<Operation>> {
+        loop {
+            if let Some(result) = self.step()? {
+                return Ok(result);
+            }
+        }
+    }
+
+    #[allow(unused_comparisons, unused_must_use)]
+    fn step(&mut self) -> Result<Option<Option<Operation>>> {
         use crate::type2::Operator::*;
 
         if self.routine.done()? {
-            return Ok(None);
+            return Ok(Some(None));
         }
 
         macro_rules! pop(
@@ -132,7 +140,7 @@ impl<'l> Program<'l> {
                 if min > 0 && self.width.is_none() {
                     self.width = Some(stack[min - 1]);
                 }
-                return Ok(Some((operator, operands)));
+                return Ok(Some(Some((operator, operands))));
             });
         );
 
@@ -167,7 +175,7 @@ impl<'l> Program<'l> {
                 if length > 0 && self.width.is_none() {
                     self.width = Some(self.stack[length - 1]);
                 }
-                return Ok(None);
+                return Ok(Some(None));
             }
 
             // Hint operators
@@ -287,7 +295,7 @@ impl<'l> Program<'l> {
 
             operator => raise!("found an unknown operator ({operator:?})"),
         };
-        self.next()
+        Ok(None)
     }
 
     /// Return the width difference with respect to the nominal width.
-- 
2.43.0


From ffe55dc31e6a516d07fbc914e743330a836bce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 07/10] fix: limit the nesting of subroutines

A subroutine that called itself never returned: the chain of callers grew until
the process ran out of memory or stack.
---
 src/type2/program.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 904c87a..9b6f185 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -4,6 +4,9 @@ use crate::tape::Read;
 use crate::type2::{number, Operand, Operation, Operator};
 use crate::Result;
 
+// The specification allows ten levels; however, existing fonts go beyond that.
+const MAXIMUM_DEPTH: usize = 16;
+
 /// A program.
 pub struct Program<'l> {
     routine: Routine<'l>,
@@ -17,6 +20,7 @@ pub struct Program<'l> {
 struct Routine<'l> {
     tape: Cursor<&'l [u8]>,
     size: usize,
+    depth: usize,
     caller: Option<Box<Routine<'l>>>,
 }
 
@@ -269,6 +273,9 @@ impl<'l> Program<'l> {
             // Subroutine operators
             CallSubr | CallGSubr => {
                 let address = pop!(i32);
+                if self.routine.depth >= MAXIMUM_DEPTH {
+                    raise!("found too many nested subroutines");
+                }
                 let mut routine = {
                     let subroutines = if operator == CallSubr {
                         &self.local
@@ -283,6 +290,7 @@ impl<'l> Program<'l> {
                     Routine::new(&subroutines[i as usize])
                 };
                 std::mem::swap(&mut self.routine, &mut routine);
+                self.routine.depth = routine.depth + 1;
                 self.routine.caller = Some(Box::new(routine));
             }
             Return => {
@@ -311,6 +319,7 @@ impl<'l> Routine<'l> {
         Routine {
             tape: Cursor::new(code),
             size: code.len(),
+            depth: 0,
             caller: None,
         }
     }
-- 
2.43.0


From 4883f43870f3ec924694457fa1fb7e6cb4d95793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 08/10] fix: take the width from the first stack-clearing
 operator only

The last operand of an implicit vertical hint before hintmask or cntrmask and
the last operand of a four-operand endchar were reported as the width, as was
any surplus operand of a later operator.
---
 src/type2/program.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 9b6f185..1e13413 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -15,6 +15,7 @@ pub struct Program<'l> {
     stack: Vec<Operand>,
     stems: usize,
     width: Option<Operand>,
+    cleared: bool,
 }
 
 struct Routine<'l> {
@@ -35,6 +36,7 @@ impl<'l> Program<'l> {
             stack: vec![],
             stems: 0,
             width: None,
+            cleared: false,
         }
     }
 
@@ -141,9 +143,10 @@ impl<'l> Program<'l> {
                 }
                 let mut stack = std::mem::take(&mut self.stack);
                 let operands = stack.drain(min..).collect();
-                if min > 0 && self.width.is_none() {
+                if min > 0 && !self.cleared {
                     self.width = Some(stack[min - 1]);
                 }
+                self.cleared = true;
                 return Ok(Some(Some((operator, operands))));
             });
         );
@@ -176,9 +179,11 @@ impl<'l> Program<'l> {
                     std::mem::replace(&mut self.routine, *caller);
                 }
                 let length = self.stack.len();
-                if length > 0 && self.width.is_none() {
-                    self.width = Some(self.stack[length - 1]);
+                let count = if length >= 4 { 4 } else { 0 };
+                if length > count && !self.cleared {
+                    self.width = Some(self.stack[length - count - 1]);
                 }
+                self.cleared = true;
                 return Ok(Some(None));
             }
 
@@ -190,6 +195,11 @@ impl<'l> Program<'l> {
             HintMask | CntrMask => {
                 self.stems += self.stack.len() >> 1;
                 let _ = self.routine.take_given::<Vec<u8>>((self.stems + 7) >> 3)?;
+                if self.stack.len() % 2 == 1 && !self.cleared {
+                    self.width = Some(self.stack[0]);
+                }
+                self.cleared = true;
+                self.stack.clear();
                 clear!([equal(0)]);
             }
 
-- 
2.43.0


From 6ba1b5d447b99acded400592e74c02484c0d513c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 09/10] fix: produce nothing after the end operator

Data following the end operator in the outermost routine were executed by
subsequent calls.
---
 src/type2/program.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/type2/program.rs b/src/type2/program.rs
index 1e13413..ee642a4 100644
--- a/src/type2/program.rs
+++ b/src/type2/program.rs
@@ -178,6 +178,8 @@ impl<'l> Program<'l> {
                     }
                     std::mem::replace(&mut self.routine, *caller);
                 }
+                let size = self.routine.size as u64;
+                self.routine.jump(size)?;
                 let length = self.stack.len();
                 let count = if length >= 4 { 4 } else { 0 };
                 if length > count && !self.cleared {
-- 
2.43.0


From 490e5a4658f4a8f224a32230c2a8db3a2157a6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 10/10] fix: reject glyph-to-dictionary encodings in format 0
 with another format

---
 src/compact1/font_set/character_id_keyed.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compact1/font_set/character_id_keyed.rs b/src/compact1/font_set/character_id_keyed.rs
index 64b4d36..70670b9 100644
--- a/src/compact1/font_set/character_id_keyed.rs
+++ b/src/compact1/font_set/character_id_keyed.rs
@@ -141,8 +141,10 @@ impl<'l> crate::walue::Read<'l> for Encoding0 {
         tape: &mut T,
         character_strings: Self::Parameter,
     ) -> Result<Self> {
-        let format = tape.take()?;
-        debug_assert_eq!(format, 0);
+        let format = tape.take::<u8>()?;
+        if format != 0 {
+            raise!("found a malformed glyph-to-dictionary encoding");
+        }
         Ok(Self {
             format,
             dictionary_ids: tape.take_given(character_strings.count as usize)?,
-- 
2.43.0


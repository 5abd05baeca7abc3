From cdccefba7da24f7f1dba9b3d696b28ebce5b4ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 01/10] fix: remove the stray trailing space from the
 upper-case Armenian 1

---
 src/additive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/additive.rs b/src/additive.rs
index 175f076..1bbb0cb 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -242,7 +242,7 @@ where
             ("Դ", 4),
             ("Գ", 3),
             ("Բ", 2),
-            ("Ա ", 1),
+            ("Ա", 1),
         ])
         .try_format_nominal(nominal)
     }
-- 
2.43.0


From fe0f9df89bc2ad95568b108854f2e8b9b57dab47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 02/10] fix: write a zero for groups skipped inside Chinese
 numerals

---
 src/chinese.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/chinese.rs b/src/chinese.rs
index bb07b80..07c8fd1 100644
--- a/src/chinese.rs
+++ b/src/chinese.rs
@@ -343,10 +343,26 @@ impl ChineseScale {
             }
         }
         let mut formatted = if rank_value.is_zero() {
-            NominalString::new()
+            let mut formatted = NominalString::new();
+            // A skipped group between two written groups is marked by a single
+            // zero, even if the next written group begins with its thousands.
+            if !no_prefix && !*last_char_is_zero && !remaining.is_zero() {
+                formatted.try_push(characters[0])?;
+                *last_char_is_zero = true;
+            }
+            formatted
         } else {
+            // Ranks that this rank's value can never reach are not skipped
+            // groups.
+            let mut value_rank = rank;
+            if let Some(previous_scale) = scales.get(rank + 1).copied().flatten() {
+                let factor = previous_scale / scale;
+                while value_rank > 0 && scales[value_rank - 1].expect("rank is valid") >= factor {
+                    value_rank -= 1;
+                }
+            }
             let mut rank_formatted = Self::format_next_scaled_rank::<T, FORMAL, N>(
-                rank,
+                value_rank,
                 scales,
                 characters,
                 large_characters,
-- 
2.43.0


From e0ab65a207782d2b11376517897e8a981e88bd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 03/10] fix: honor one-based counting when a digit set is
 larger than the nominal type

---
 src/digital.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 38cba9c..b4c1436 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -560,7 +560,14 @@ where
 {
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         let Ok(mut count) = T::try_from(self.len()) else {
-            return Ok(NominalString::from(self.digit(nominal.as_usize())));
+            let index = if self.has_zero_digit() || self.zero_based() {
+                nominal.as_usize()
+            } else if nominal.is_zero() {
+                return Err(Error::NoZeroSymbol);
+            } else {
+                nominal.as_usize() - 1
+            };
+            return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
             && (if self.zero_based() {
-- 
2.43.0


From 9fbfd2fa49de9c1242e8d61f16e8f6328269957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 04/10] fix: report nominals as out of bounds when a digit set
 cannot express them

---
 src/digital.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/digital.rs b/src/digital.rs
index b4c1436..48241d7 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -583,6 +583,10 @@ where
                 fallback.try_format_nominal(nominal)
             };
         }
+        if self.is_empty() || (self.len() == 1 && self.has_zero_digit() && !nominal.is_zero()) {
+            // There is no digit, or no digit other than zero, to format with.
+            return Err(Error::OutOfBounds(nominal));
+        }
 
         let one = T::from(1_u8);
         let mut formatted = NominalString::new_reverse();
-- 
2.43.0


From feaee6261d9f96d93bad488909267ae27c932d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 05/10] fix: keep fixed digit collections fixed when one-based
 or restricted

---
 src/digital.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index 48241d7..a0ded0e 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -75,6 +75,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -486,6 +490,10 @@ where
 {
     type Fallback = T::Fallback;
 
+    fn fixed(&self) -> bool {
+        self.0.fixed()
+    }
+
     fn has_zero_digit(&self) -> bool {
         self.0.has_zero_digit()
     }
@@ -570,7 +578,7 @@ where
             return Ok(NominalString::from(self.digit(index)));
         };
         if self.fixed()
-            && (if self.zero_based() {
+            && (if self.has_zero_digit() || self.zero_based() {
                 nominal >= count
             } else {
                 nominal > count
-- 
2.43.0


From 4e16a7ad889e9d80e9fd3a10c0963ee817c67cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 06/10] fix: never report more digits than a restricted
 collection has

---
 src/digital.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digital.rs b/src/digital.rs
index a0ded0e..af8eadf 100644
--- a/src/digital.rs
+++ b/src/digital.rs
@@ -503,7 +503,7 @@ where
     }
 
     fn len(&self) -> usize {
-        self.1
+        self.1.min(self.0.len())
     }
 
     fn digit(&self, index: usize) -> char {
-- 
2.43.0


From 510693d9cecbc7d6fab6753e7521a4cac4873cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 07/10] fix: report nominals that an additive set cannot
 express as out of bounds

---
 src/additive.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/additive.rs b/src/additive.rs
index 1bbb0cb..3a99cf8 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -61,6 +61,10 @@ where
             }
         }
 
+        if !remaining.is_zero() {
+            return Err(Error::OutOfBounds(nominal));
+        }
+
         Ok(formatted)
     }
 }
-- 
2.43.0


From 194a59f78f3b296fb343df4bad7ccbe262adc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 08/10] fix: return an error instead of panicking when a symbol
 does not fit without alloc

---
 src/additive.rs   | 3 ++-
 src/enumerated.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 3a99cf8..368fb79 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -41,7 +41,8 @@ where
         let mut remaining = nominal;
         if remaining.is_zero() {
             return if let Some(zero) = self.zero {
-                Ok(NominalString::from(zero))
+                formatted.try_push_str(zero).with_nominal(nominal)?;
+                Ok(formatted)
             } else {
                 Err(Error::NoZeroSymbol)
             };
diff --git a/src/enumerated.rs b/src/enumerated.rs
index c638bb3..2c11fd5 100644
--- a/src/enumerated.rs
+++ b/src/enumerated.rs
@@ -1,4 +1,4 @@
-use crate::{Error, Nominal, NominalString, NominalSystem};
+use crate::{Error, Nominal, NominalString, NominalSystem, WithNominal};
 
 /// A set of enumerated symbols that form a [`NominalSystem`].
 pub struct EnumeratedSet<const N: usize, const HAS_ZERO: bool> {
@@ -35,7 +35,9 @@ where
         if !HAS_ZERO && nominal.is_zero() {
             Err(Error::NoZeroSymbol)
         } else if let Some(&symbol) = self.symbols.get(n - usize::from(!HAS_ZERO)) {
-            Ok(symbol.into())
+            let mut formatted = NominalString::new();
+            formatted.try_push_str(symbol).with_nominal(nominal)?;
+            Ok(formatted)
         } else {
             Err(Error::OutOfBounds(nominal))
         }
-- 
2.43.0


From e5278f96a708f3734f76cd602d97c9e4ed03a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:10 +0000
Subject: [PATCH 09/10] fix: never expose uninitialized bytes when pushing to
 the front of a nominal string

---
 src/nominalstring.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/nominalstring.rs b/src/nominalstring.rs
index 0324111..4ace28a 100644
--- a/src/nominalstring.rs
+++ b/src/nominalstring.rs
@@ -391,10 +391,9 @@ impl InlineString {
     }
 
     fn push_front(&mut self, ch: char, char_len: u8, inline_len: u8, new_length: u8) {
+        let mut utf8_bytes = [0; 4];
+        ch.encode_utf8(&mut utf8_bytes);
         if self.is_reverse() {
-            let mut utf8_bytes = [0; 4];
-            ch.encode_utf8(&mut utf8_bytes);
-
             let start = MaybeInline::INLINE_CAPACITY - new_length;
             let end = MaybeInline::INLINE_CAPACITY - inline_len;
             for (dest, src) in self.bytes[usize::from(start)..usize::from(end)]
@@ -403,14 +402,18 @@ impl InlineString {
             {
                 dest.write(*src);
             }
-            self.set_length(new_length);
         } else {
             self.bytes
                 .copy_within(0..usize::from(inline_len), usize::from(char_len));
-            self.set_length(new_length);
 
-            ch.encode_utf8(self.as_bytes_mut());
+            for (dest, src) in self.bytes[0..usize::from(char_len)]
+                .iter_mut()
+                .zip(&utf8_bytes[0..usize::from(char_len)])
+            {
+                dest.write(*src);
+            }
         }
+        self.set_length(new_length);
     }
 }
 
-- 
2.43.0


From a68a78766632553d51c19488acc5b7a5969803ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:46 +0000
Subject: [PATCH 10/10] fix: write 90,000 and 900,000 in Roman numerals as ten
 and hundred thousand less

---
 src/additive.rs            | 8 ++++----
 src/previews/RomanLower.md | 2 +-
 src/previews/RomanUpper.md | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/additive.rs b/src/additive.rs
index 368fb79..00eb559 100644
--- a/src/additive.rs
+++ b/src/additive.rs
@@ -92,11 +92,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("m̅", 1_000_000),
-            ("d̅m̅", 900_000),
+            ("c̅m̅", 900_000),
             ("d̅", 500_000),
             ("c̅d̅", 400_000),
             ("c̅", 100_000),
-            ("l̅c̅", 90_000),
+            ("x̅c̅", 90_000),
             ("l̅", 50_000),
             ("x̅l̅", 40_000),
             ("x̅", 10_000),
@@ -144,11 +144,11 @@ where
     fn try_format_nominal(&self, nominal: T) -> Result<NominalString, Error<T>> {
         AdditiveSet::new([
             ("M̅", 1_000_000),
-            ("D̅M̅", 900_000),
+            ("C̅M̅", 900_000),
             ("D̅", 500_000),
             ("C̅D̅", 400_000),
             ("C̅", 100_000),
-            ("L̅C̅", 90_000),
+            ("X̅C̅", 90_000),
             ("L̅", 50_000),
             ("X̅L̅", 40_000),
             ("X̅", 10_000),
diff --git a/src/previews/RomanLower.md b/src/previews/RomanLower.md
index 5a2d439..a933ab8 100644
--- a/src/previews/RomanLower.md
+++ b/src/previews/RomanLower.md
@@ -17,6 +17,6 @@
 | 4000    | i̅v̅           |
 | 4001    | i̅v̅i          |
 | …       | …            |
-| 999999  | d̅m̅l̅c̅i̅x̅cmxcix |
+| 999999  | c̅m̅x̅c̅i̅x̅cmxcix |
 | 1000000 | m̅            |
 | 1000001 | m̅i           |
diff --git a/src/previews/RomanUpper.md b/src/previews/RomanUpper.md
index 78f1f66..70be120 100644
--- a/src/previews/RomanUpper.md
+++ b/src/previews/RomanUpper.md
@@ -17,6 +17,6 @@
 | 4000    | I̅V̅           |
 | 4001    | I̅V̅I          |
 | …       | …            |
-| 999999  | D̅M̅L̅C̅I̅X̅CMXCIX |
+| 999999  | C̅M̅X̅C̅I̅X̅CMXCIX |
 | 1000000 | M̅            |
 | 1000001 | M̅I           |
-- 
2.43.0


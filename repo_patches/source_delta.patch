From fc06de37933b2b7c6ade004b0ba690d4d9366f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 01/24] fix: refuse oversized consume and set_fit requests
 without arithmetic overflow

---
 src/internal/offset.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 3ce1ddc..15b4eac 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -40,7 +40,7 @@ impl Index {
     #[inline]
     pub fn increment_checked(&mut self, n: usize, lim: usize) -> (usize, bool) {
         let ret = self.0;
-        let is_valid = self.0 + n <= lim;
+        let is_valid = matches!(ret.checked_add(n), Some(end) if end <= lim);
         if is_valid {
             self.0 += n;
         }
@@ -291,16 +291,15 @@ impl ContextOffset {
     /// of the stack, assuming it is non-empty.
     pub fn set_fit(&mut self, winsize: usize) -> ParseResult<()> {
         let cur: usize = self.index();
-        let new_tgt: usize = cur + winsize;
-        if new_tgt > self.abs {
-            let bytes_left = self.abs - winsize;
+        let bytes_left: usize = self.abs - cur;
+        if winsize > bytes_left {
             let request = winsize;
             Err(ParseError::Window(WindowError::OpenWouldExceedBuffer {
                 bytes_left,
                 request,
             }))
         } else {
-            self.frames.push_frame(new_tgt)
+            self.frames.push_frame(cur + winsize)
         }
     }
 
-- 
2.43.0


From 3a7df21ef207a931b290b7b3c7f2843a9866af66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:16 +0000
Subject: [PATCH 02/24] fix: keep the context window open when enforce_target
 is refused

---
 src/internal/offset.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 15b4eac..7aaba93 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -352,10 +352,13 @@ impl ContextOffset {
     pub fn enforce_target(&mut self) -> crate::parse::error::ParseResult<()> {
         let cur: usize = self.index();
 
-        match self.frames.pop() {
+        match self.frames.peek() {
             None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
             Some(tgt) => match tgt.cmp(&cur) {
-                std::cmp::Ordering::Equal => Ok(()),
+                std::cmp::Ordering::Equal => {
+                    self.frames.pop();
+                    Ok(())
+                }
                 std::cmp::Ordering::Greater => {
                     Err(ParseError::Window(WindowError::CloseWithResidue {
                         residual: tgt - cur,
-- 
2.43.0


From 2ae90e2a4cab063696fae0c8523316851fbf1e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:26 +0000
Subject: [PATCH 03/24] fix: SliceParser no longer treats its whole buffer as a
 closable context window

---
 src/internal/view.rs |  8 ++++++++
 src/parse/mod.rs     | 25 ++++++++++++-------------
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/internal/view.rs b/src/internal/view.rs
index 8c0b0f2..db2b553 100644
--- a/src/internal/view.rs
+++ b/src/internal/view.rs
@@ -71,6 +71,14 @@ pub use smallvec_viewstack::ViewStack;
 #[cfg(not(feature = "smallvec_viewstack"))]
 pub use vec_viewstack::ViewStack;
 
+impl<'a> ViewStack<'a> {
+    /// Returns the number of slices on the stack, including the original buffer at its bottom
+    #[inline]
+    pub(crate) fn depth(&self) -> usize {
+        self.0.len()
+    }
+}
+
 impl<'a> std::fmt::Debug for ViewStack<'a> {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{:?}", &self.0)
diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index baf3226..61b9f7d 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1167,22 +1167,21 @@ pub mod sliceparser {
 
         #[inline]
         fn test_target(&mut self) -> ParseResult<bool> {
-            if let Some(t) = self.view_stack.peek() {
-                Ok(t.is_empty())
-            } else {
-                Ok(false)
-            }
+            Ok(self.view_stack.depth() > 1 && self.view_len() == 0)
         }
 
         fn enforce_target(&mut self) -> ParseResult<()> {
-            match self.view_stack.pop() {
-                None => Err(ParseError::Window(WindowError::CloseWithoutWindow)),
-                Some(_frame) => match _frame.len() {
-                    0 => Ok(()),
-                    residual => Err(ParseError::Window(WindowError::CloseWithResidue {
-                        residual,
-                    })),
-                },
+            if self.view_stack.depth() <= 1 {
+                return Err(ParseError::Window(WindowError::CloseWithoutWindow));
+            }
+            match self.view_len() {
+                0 => {
+                    self.view_stack.pop();
+                    Ok(())
+                }
+                residual => Err(ParseError::Window(WindowError::CloseWithResidue {
+                    residual,
+                })),
             }
         }
 
-- 
2.43.0


From 876103a9ed3565c5e5781f692f52c58c1974329d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 04/24] fix: a leftover state without any bytes is empty even
 if windows were open

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 61b9f7d..700e7b3 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -596,7 +596,7 @@ pub mod cleanup {
             match self {
                 LeftoverState::Empty => true,
                 /* NOTE: the following two cases are not expected to ever arise, but are handled for completeness */
-                LeftoverState::Windowed(sbuf) => sbuf.is_empty(),
+                LeftoverState::Windowed(sbuf) => sbuf.len() == 0,
                 LeftoverState::Windowless(buf) => buf.is_empty(),
             }
         }
-- 
2.43.0


From 1069cf635da08a501de1375f636f31a4cfdacd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 05/24] fix: LeftoverState::append empties its argument in
 every case

---
 src/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 700e7b3..e40ca5f 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -518,7 +518,7 @@ pub mod cleanup {
         pub fn append(&mut self, other: &mut Vec<u8>) {
             match self {
                 LeftoverState::Empty => {
-                    *self = Self::Windowless(other.clone());
+                    *self = Self::Windowless(std::mem::take(other));
                 }
                 LeftoverState::Windowless(buf) => buf.append(other),
                 LeftoverState::Windowed(sbuf) => sbuf.append_current(other),
-- 
2.43.0


From 5073a4e9b66d9f1d54ad07e1556839b54aad9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 06/24] fix: MemoParser records the bytes consumed by
 skip_exactly

---
 src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index e40ca5f..2d0c4d6 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -1023,6 +1023,7 @@ pub mod memoparser {
         fn skip_exactly(&mut self, nbytes: usize) -> ParseResult<()> {
             let (ix, adv) = self.offset.advance(nbytes);
             if adv {
+                self.munches.push(nbytes);
                 Ok(())
             } else {
                 let offset = ix;
-- 
2.43.0


From 1bcc2108590c9ee816cd5adb0474dc0460747dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 07/24] fix: VecBuffer::get_byte checks its bound before the
 unchecked read

---
 src/parse/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 96eab54..812afc0 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -216,7 +216,7 @@ impl VecBuffer {
     ///
     /// Will panic if the `ix` is out-of-bounds
     pub fn get_byte(&self, ix: usize) -> u8 {
-        assert!(ix <= self.len());
+        assert!(ix < self.len());
         unsafe { self.get_byte_unchecked(ix) }
     }
 }
-- 
2.43.0


From 0faee80dd56e3eb64de508be237d4233113dee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 08/24] fix: an out-of-range u30 length prefix is an error, not
 a panic

---
 src/dynamic.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index e6470ce..7ce9213 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -267,7 +267,7 @@ where
 {
     fn parse_as_usize<P: Parser + ?Sized>(p: &mut P) -> ParseResult<usize> {
         let raw_bytes = p.consume(Self::LEN)?;
-        unsafe { Ok(Self::marshall_usize(raw_bytes)) }
+        unsafe { Self::marshall_usize(raw_bytes) }
     }
 
     /// Returns a `uX`-style name for LenPref, as is common for writing
@@ -281,33 +281,34 @@ where
     fn max_len() -> usize;
 }
 mod private {
+    use crate::parse::ParseResult;
+
     pub trait Sealed {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize;
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize>;
     }
 
     impl Sealed for u8 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 1]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for u16 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 2]>::try_from(bytes).unwrap_unchecked();
             let raw = Self::from_be_bytes(bytes);
-            raw as usize
+            Ok(raw as usize)
         }
     }
 
     impl Sealed for crate::int::u30 {
-        unsafe fn marshall_usize(bytes: &[u8]) -> usize {
+        unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
             let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)
-                .expect("Inherent conversion from i32->u30 failed");
-            raw as usize
+            let _ = crate::int::u30::try_from_i32(raw)?;
+            Ok(raw as usize)
         }
     }
 }
-- 
2.43.0


From 325809159823f6745f852e3bb8fef4839c56fda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 09/24] fix: VPadded reports an error when fewer bytes remain
 than it reserves

---
 src/dynamic.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index 7ce9213..b6c329e 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -59,6 +59,7 @@
 use crate::conv::len::{Estimable, FixedLength};
 use crate::conv::{Decode, Encode, EncodeLength};
 use crate::int::u30;
+use crate::parse::error::{ParseError, WindowError};
 use crate::parse::{ParseResult, Parser};
 use std::borrow::Borrow;
 use std::convert::TryFrom;
@@ -466,16 +467,15 @@ impl<T: Decode, const N: usize> Decode for VPadded<T, N> {
     where
         Self: Sized,
     {
-        let _rem = p.remainder();
-        debug_assert!(
-            _rem >= N,
-            "Cannot parse VPadded<{}, {}> with {} (< {}) bytes remaining",
-            std::any::type_name::<T>(),
-            N,
-            _rem,
-            N
-        );
-        p.set_fit(_rem - N)?;
+        let rem = p.remainder();
+        let fit = rem.checked_sub(N).ok_or_else(|| {
+            ParseError::Window(WindowError::ConsumeWouldExceedLimit {
+                offset: p.offset(),
+                requested: N,
+                limit: p.view_len(),
+            })
+        })?;
+        p.set_fit(fit)?;
         let ret = T::parse(p)?;
         p.enforce_target()?;
         Ok(Self(ret))
-- 
2.43.0


From 3611a1f50d0e375a14585e386eca1324b5456f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 10/24] fix: the natural number zero occupies one byte, not
 none

---
 src/zarith.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zarith.rs b/src/zarith.rs
index 125b43f..25229f9 100644
--- a/src/zarith.rs
+++ b/src/zarith.rs
@@ -106,7 +106,7 @@ pub mod n {
 
         fn unknown(&self) -> usize {
             let n: usize = self.0.bits() as usize;
-            Integer::div_ceil(&n, &7)
+            Integer::div_ceil(&n.max(1), &7)
         }
     }
 
-- 
2.43.0


From e5791c02fbb406bbf2daa51efa69387dbc145437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/24] fix: extending or collecting into FixSeq and LimSeq
 keeps the elements

---
 src/seq/fix.rs | 12 ++++++------
 src/seq/lim.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index cafd45b..0f82ddc 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -165,11 +165,11 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -185,11 +185,11 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let items: Vec<T> = i.by_ref().take(N).collect();
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::from_iter(max_iter);
+        let ret = inner::internalize::<T, N>(items);
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 171e7b9..98b24c3 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -199,11 +199,11 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
         let mut i = iter.into_iter();
-        if i.by_ref().nth(rem).is_some() {
+        let items: Vec<T> = i.by_ref().take(rem).collect();
+        if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(rem);
-        self.0.extend(max_iter);
+        self.0.extend(items);
         debug_assert!(self.0.len() <= N);
     }
 }
@@ -219,11 +219,11 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
         let mut i = iter.into_iter();
-        if i.by_ref().nth(N).is_some() {
+        let items: Vec<T> = i.by_ref().take(N).collect();
+        if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
         }
-        let max_iter = i.take(N);
-        let ret = inner::Inner::<T, N>::from_iter(max_iter);
+        let ret = items.into_iter().collect::<inner::Inner<T, N>>();
         debug_assert!(ret.len() <= N);
         Self(ret)
     }
-- 
2.43.0


From c0197833a0c4cdf63695f8ab246bde75841bec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 12/24] fix: reject non-ASCII text and signs in hexadecimal
 text instead of panicking or accepting them

---
 src/hexstring.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/hexstring.rs b/src/hexstring.rs
index e1bc353..bab9e18 100644
--- a/src/hexstring.rs
+++ b/src/hexstring.rs
@@ -106,6 +106,15 @@ pub(crate) mod util {
 
     pub(crate) use write_hex;
 
+    /// Reads the `ix`-th pair of hexadecimal digits of an ASCII string
+    ///
+    /// Returns `None` if either character of the pair is not a hexadecimal digit.
+    fn byte_of_hex_pair(src: &[u8], ix: usize) -> Option<u8> {
+        let hi = char::from(src[ix * 2]).to_digit(16)?;
+        let lo = char::from(src[ix * 2 + 1]).to_digit(16)?;
+        Some((hi << 4 | lo) as u8)
+    }
+
     /// Attempt to parse a hexadecimally encoded string-like type, returning either
     /// a `Vec<u8>` holding the decoded bytes or an error containing the invalid
     /// string.
@@ -141,9 +150,9 @@ pub(crate) mod util {
         let mut dst = Vec::with_capacity(bytes_len);
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(word) => dst.push(word),
-                Err(_) => return Err(HexConvError::NonHex(src.to_string())),
+            match byte_of_hex_pair(src.as_bytes(), ix) {
+                Some(word) => dst.push(word),
+                None => return Err(HexConvError::NonHex(src.to_string())),
             }
         }
         Ok(dst)
@@ -171,8 +180,8 @@ pub(crate) mod util {
         }
 
         for ix in 0..bytes_len {
-            match u8::from_str_radix(&src[(ix * 2)..(ix * 2) + 2], 16) {
-                Ok(byte) if byte == tgt[ix] => continue,
+            match byte_of_hex_pair(src.as_bytes(), ix) {
+                Some(byte) if byte == tgt[ix] => continue,
                 _ => return false,
             }
         }
-- 
2.43.0


From 2e2e9161854c2af66baa4c48794dd5a7bf3c626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 13/24] fix: decoding a sequence of zero-width elements is an
 error instead of an endless loop

---
 src/seq/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/seq/mod.rs b/src/seq/mod.rs
index 1985488..5d9ed9c 100644
--- a/src/seq/mod.rs
+++ b/src/seq/mod.rs
@@ -48,6 +48,7 @@
 //! variable in length.
 
 use crate::conv::{len::Estimable, target::Target, Decode, Encode};
+use crate::parse::error::{ExternalError, ParseError};
 use crate::parse::{ParseResult, Parser};
 
 use std::fmt::Debug;
@@ -228,8 +229,18 @@ impl<T: Decode> Decode for Sequence<T> {
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
         let mut seq: Vec<T> = Vec::new();
 
-        while p.remainder() != 0 {
+        loop {
+            let rem = p.remainder();
+            if rem == 0 {
+                break;
+            }
             seq.push(T::parse(p)?);
+            if p.remainder() == rem {
+                // An element that occupies no bytes would recur forever
+                return Err(ParseError::External(ExternalError::GenericError(
+                    "sequence elements of zero width cannot be counted".into(),
+                )));
+            }
         }
 
         Ok(Self(seq))
-- 
2.43.0


From 58f45e01849491b9669e637b9592c995a2420ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 14/24] fix: refuse to encode an under-saturated FixSeq, as
 documented

---
 src/seq/fix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 0f82ddc..57ec9d4 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -269,6 +269,12 @@ impl<T: Estimable, const N: usize> Estimable for FixSeq<T, N> {
 
 impl<T: Encode, const N: usize> Encode for FixSeq<T, N> {
     fn write_to<U: Target>(&self, buf: &mut U) -> usize {
+        assert_eq!(
+            self.len(),
+            N,
+            "cannot encode FixSeq without exactly {} elements",
+            N
+        );
         self.iter().map(|item| item.write_to(buf)).sum::<usize>() + buf.resolve_zero()
     }
 }
-- 
2.43.0


From c65b63ab5f50ed1cf719863db5e9564c091c0f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 15/24] fix: extending FixSeq and LimSeq does not poll a source
 again after its end

---
 src/seq/fix.rs | 4 ++--
 src/seq/lim.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 57ec9d4..50fa4c2 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -164,7 +164,7 @@ impl<T, const N: usize> std::iter::Extend<T> for FixSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated FixSeq"))
         };
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(rem).collect();
         if i.next().is_some() {
             panic!("attempted extend operation would overflow FixSeq capacity");
@@ -184,7 +184,7 @@ impl<T, const N: usize> FromIterator<T> for FixSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(N).collect();
         if i.next().is_some() {
             panic!("attempted from_iter operation would overflow FixSeq capacity");
diff --git a/src/seq/lim.rs b/src/seq/lim.rs
index 98b24c3..a981dac 100644
--- a/src/seq/lim.rs
+++ b/src/seq/lim.rs
@@ -198,7 +198,7 @@ impl<T, const N: usize> std::iter::Extend<T> for LimSeq<T, N> {
             N.checked_sub(self.len())
                 .unwrap_or_else(|| panic!("cannot extend already-oversaturated LimSeq"))
         };
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(rem).collect();
         if i.next().is_some() {
             panic!("attempted extend operation would overflow LimSeq capacity");
@@ -218,7 +218,7 @@ impl<T, const N: usize> FromIterator<T> for LimSeq<T, N> {
     ///
     /// Panics if the number of elements in the iterator exceeds the capacity `N`
     fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
-        let mut i = iter.into_iter();
+        let mut i = iter.into_iter().fuse();
         let items: Vec<T> = i.by_ref().take(N).collect();
         if i.next().is_some() {
             panic!("attempted from_iter operation would overflow LimSeq capacity");
-- 
2.43.0


From 1008cdd28ac2454a665464c33e20778c0f5d64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:52 +0000
Subject: [PATCH 16/24] fix: converting machine integers into RangedInt treats
 them as numbers, not offsets, when MIN > 0

---
 src/int.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index e8f8fa4..3462f70 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -460,10 +460,9 @@ pub mod ranged_int_impls {
                 type Error = BoundsError<i128>;
 
                 fn try_from(val: $src) -> Result<Self, Self::Error> {
-                    match BoundsError::restrict(val, MIN, MAX) {
-                        Ok(x) => unsafe { Ok(Self::from_numeric_unchecked(x)) }
-                        Err(e) => Err(e)
-                    }
+                    // When `MIN > 0`, the stored value is the offset from `MIN`
+                    let underlying = BoundsError::restrict(val as i128 - MIN.max(0) as i128, MIN, MAX)?;
+                    Ok(Self(<$backer>::try_from(underlying)?))
                 }
             }
             )+
-- 
2.43.0


From 5fe0e36a867236e181b90f311cf3e7ef1b5dd3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:53 +0000
Subject: [PATCH 17/24] fix: default, min_val and max_val of RangedInt store
 the offset when MIN > 0

---
 src/int.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index 3462f70..8988ba6 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -378,8 +378,8 @@ pub mod ranged_int_impls {
                 /// Returns the value in the range [MIN..MAX] that is closest to the
                 /// value of `Default::default()` for the backing type.
                 fn default() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self((<$t>::default() as i32).clamp(MIN, MAX) as $t)
+                    // When `MIN > 0`, the stored value is the offset from `MIN`
+                    Self(((<$t>::default() as i32).clamp(MIN, MAX) - MIN.max(0)) as $t)
                 }
             }
         };
@@ -404,15 +404,15 @@ pub mod ranged_int_impls {
                 /// Returns the minimum legal value of `Self`
                 #[inline]
                 pub const fn min_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MIN)
+                    // When `MIN > 0`, the stored value is the offset from `MIN`
+                    Self(if MIN_I32 > 0 { 0 } else { Self::MIN })
                 }
 
                 /// Returns the maximum legal value of `Self`
                 #[inline]
                 pub const fn max_val() -> Self {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    Self(Self::MAX)
+                    // When `MIN > 0`, the stored value is the offset from `MIN`
+                    Self(if MIN_I32 > 0 { (MAX_I32 - MIN_I32) as $t } else { Self::MAX })
                 }
             }
         };
-- 
2.43.0


From 8a7efa8536a27911c9b8f42f6d60b6c2086ed761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:54 +0000
Subject: [PATCH 18/24] fix: RangedInt::try_from_i32 does not overflow for very
 negative arguments

---
 src/int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int.rs b/src/int.rs
index 8988ba6..f24ed4a 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -268,7 +268,7 @@ where
             MAX
         );
 
-        let underlying: i64 = if MIN <= 0 { x } else { x - MIN } as i64;
+        let underlying: i64 = x as i64 - MIN.max(0) as i64;
         match I::try_from(BoundsError::<i64>::restrict(underlying, MIN, MAX)?) {
             Ok(val) => Ok(Self(val)),
             Err(e) => Err(BoundsError::Failed(e.into())),
-- 
2.43.0


From 146a151caef82bde285bc54e352dc13559569567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:55 +0000
Subject: [PATCH 19/24] fix: conversions out of RangedInt yield the denoted
 number, not the offset, when MIN > 0

---
 src/int.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/int.rs b/src/int.rs
index f24ed4a..fcac7d1 100644
--- a/src/int.rs
+++ b/src/int.rs
@@ -429,9 +429,16 @@ pub mod ranged_int_impls {
     ( $backer:ty => $( $dest:ty ),+ ) => {
         $(
             impl<const MIN: i32, const MAX: i32> From<RangedInt<$backer, MIN, MAX>> for $dest {
-                // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
+                /// Returns the numeric value of `val`.
+                ///
+                /// # Panics
+                ///
+                /// Panics if the numeric value is not representable by the target type,
+                /// which is only possible when `MAX` exceeds the range of the backer type.
                 fn from(val: RangedInt<$backer, MIN, MAX>) -> Self {
-                    val.0 as $dest
+                    (val.0 as i64 + MIN.max(0) as i64)
+                        .try_into()
+                        .expect("numeric value of RangedInt out of range for target type")
                 }
             }
         )+
@@ -445,8 +452,8 @@ pub mod ranged_int_impls {
                 type Error = <$backer as TryInto<$dest>>::Error;
 
                 fn try_from(val: RangedInt<$backer, MIN, MAX>) -> Result<Self, Self::Error> {
-                    // FIXME: fix bug when MIN > 0 (and edit documentation appropriately)
-                    val.0.try_into()
+                    // When `MIN > 0`, the stored value is the offset from `MIN`
+                    (val.0 as i64 + MIN.max(0) as i64).try_into()
                 }
             }
         )+
-- 
2.43.0


From 6dc6373bb31d48be0750edec5985c81891916583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 20/24] fix: a refused context window reports its width and the
 room left, not absolute offsets

---
 src/internal/offset.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/internal/offset.rs b/src/internal/offset.rs
index 7aaba93..93a9710 100644
--- a/src/internal/offset.rs
+++ b/src/internal/offset.rs
@@ -298,6 +298,13 @@ impl ContextOffset {
                 bytes_left,
                 request,
             }))
+        } else if winsize > self.rem() {
+            let limit = self.rem();
+            let request = winsize;
+            Err(ParseError::Window(WindowError::OpenWouldExceedWindow {
+                limit,
+                request,
+            }))
         } else {
             self.frames.push_frame(cur + winsize)
         }
-- 
2.43.0


From a6e015c7d834e1b99428e66aa3e12eb3adfcbf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:33 +0000
Subject: [PATCH 21/24] fix: an out-of-range u30 length prefix is reported as
 the unsigned number it is

---
 src/dynamic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic.rs b/src/dynamic.rs
index b6c329e..1361c44 100644
--- a/src/dynamic.rs
+++ b/src/dynamic.rs
@@ -307,8 +307,8 @@ mod private {
     impl Sealed for crate::int::u30 {
         unsafe fn marshall_usize(bytes: &[u8]) -> ParseResult<usize> {
             let bytes = <[u8; 4]>::try_from(bytes).unwrap_unchecked();
-            let raw = i32::from_be_bytes(bytes);
-            let _ = crate::int::u30::try_from_i32(raw)?;
+            let raw = u32::from_be_bytes(bytes);
+            let _ = crate::int::u30::try_from_underlying(raw)?;
             Ok(raw as usize)
         }
     }
-- 
2.43.0


From d74d276d8c96b0da18f905fc50887e24c35ff110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:02 +0000
Subject: [PATCH 22/24] fix: a finalized MemoBuilder displays its segments, not
 single bytes

---
 src/builder/memo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/builder/memo.rs b/src/builder/memo.rs
index 0860090..62e6ca2 100644
--- a/src/builder/memo.rs
+++ b/src/builder/memo.rs
@@ -117,8 +117,9 @@ impl std::fmt::Display for MemoBuffer {
         let mut ix: usize = 0;
         for l in self.lens.iter() {
             for &byte in &buf[ix..ix + l] {
-                write!(f, "{byte:02x}|")?
+                write!(f, "{byte:02x}")?;
             }
+            write!(f, "|")?;
             ix += l;
         }
         write!(f, "]")
-- 
2.43.0


From 96b16de2b3dc76d14df7416f8d766d43ee43221a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 23/24] fix: VecBuffer::get_slice refuses a range whose end
 overflows usize

---
 src/parse/buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/buffer.rs b/src/parse/buffer.rs
index 812afc0..e9a2ce5 100644
--- a/src/parse/buffer.rs
+++ b/src/parse/buffer.rs
@@ -194,7 +194,7 @@ impl VecBuffer {
     ///
     /// Will panic if `ix + len` is out-of-bounds
     pub fn get_slice(&self, ix: usize, len: usize) -> &[u8] {
-        assert!(ix + len <= self.len());
+        assert!(len <= self.len() && ix <= self.len() - len);
         unsafe { self.get_slice_unchecked(ix, len) }
     }
 
-- 
2.43.0


From 90e7f9c5873b272f9bf71b63d4063c01c67843cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:48 +0000
Subject: [PATCH 24/24] fix: decoding a FixSeq of zero-width elements at the
 end of the view no longer fails

---
 src/seq/fix.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/seq/fix.rs b/src/seq/fix.rs
index 50fa4c2..20966b6 100644
--- a/src/seq/fix.rs
+++ b/src/seq/fix.rs
@@ -286,8 +286,14 @@ where
     fn parse<P: Parser>(p: &mut P) -> ParseResult<Self> {
         let mut seq = Self::new();
 
-        while p.remainder() != 0 && seq.len() < N {
-            seq.try_push(T::parse(p)?)?;
+        while seq.len() < N {
+            let exhausted = p.remainder() == 0;
+            match T::parse(p) {
+                // Elements that occupy no bytes are legal even if no bytes are left
+                Ok(item) => seq.try_push(item)?,
+                Err(_) if exhausted => break,
+                Err(err) => return Err(err),
+            }
         }
 
         if seq.len() == N {
-- 
2.43.0


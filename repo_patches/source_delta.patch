From 54cf164e1cf9638a13f500fbdb7336d621ba9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 1/6] fix: LowerBoundedSet intersection dropped points of
 self's unbounded part

The intersection of two LowerBoundedSets never intersected the unbounded
part of self with the bounded ranges of other, so for instance
(0..).to_set().intersection((0..20).union(30..)) lost 0..20.
---
 src/implementations/intersection/lower_bounded_set.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/implementations/intersection/lower_bounded_set.rs b/src/implementations/intersection/lower_bounded_set.rs
index 4a4b4bc..b7454f9 100644
--- a/src/implementations/intersection/lower_bounded_set.rs
+++ b/src/implementations/intersection/lower_bounded_set.rs
@@ -51,11 +51,9 @@ where
 {
     type Output = LowerBoundedSet<T>;
     fn intersection(self, other: R) -> Self::Output {
-        let mut set = RangeIntersection::intersection(
-            self.clone(),
-            other.clone().to_inner().lower_bounded_range,
-        );
-        set.add_set(RangeIntersection::intersection(self.ranges, other));
+        let other = other.to_inner();
+        let mut set = RangeIntersection::intersection(self.clone(), other.lower_bounded_range);
+        set.add_set(RangeIntersection::intersection(self, other.ranges));
         set
     }
 }
-- 
2.43.0


From 12f6cfc3126664fb8bf5ec343381a9d7e70b86c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:07 +0000
Subject: [PATCH 2/6] fix: treat an exhausted RangeInclusive as empty

An exhausted std::ops::RangeInclusive contains nothing, but converting it to
a BoundedRange (and so every set operation on it) kept its last element, and
Rangetools::is_empty reported it as non-empty.
---
 src/bounded_range.rs                              | 12 +++++++++++-
 src/implementations/rangetools/range_inclusive.rs |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index ea68456..5a6f0dc 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -40,10 +40,20 @@ impl<T> From<std::ops::Range<T>> for BoundedRange<T> {
 
 impl<T> From<std::ops::RangeInclusive<T>> for BoundedRange<T> {
     fn from(r: std::ops::RangeInclusive<T>) -> Self {
+        // A `RangeInclusive` that has been iterated to exhaustion is empty, which shows only in
+        // its (then exclusive) end bound.
+        let exhausted = matches!(
+            std::ops::RangeBounds::end_bound(&r),
+            std::ops::Bound::Excluded(_)
+        );
         let (start, end) = r.into_inner();
         Self {
             start: LowerBound::included(start),
-            end: UpperBound::included(end),
+            end: if exhausted {
+                UpperBound::excluded(end)
+            } else {
+                UpperBound::included(end)
+            },
         }
     }
 }
diff --git a/src/implementations/rangetools/range_inclusive.rs b/src/implementations/rangetools/range_inclusive.rs
index c66249c..15b10f5 100644
--- a/src/implementations/rangetools/range_inclusive.rs
+++ b/src/implementations/rangetools/range_inclusive.rs
@@ -2,7 +2,7 @@ use crate::{BoundedRange, BoundedSet, Rangetools};
 
 impl<T: Copy + Ord> Rangetools for std::ops::RangeInclusive<T> {
     fn is_empty(&self) -> bool {
-        self.start() > self.end()
+        std::ops::RangeInclusive::is_empty(self)
     }
 
     type Inner = BoundedRange<T>;
-- 
2.43.0


From 0dab242868b11d13fd6c699b53048e4f562ca882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:58 +0000
Subject: [PATCH 3/6] fix: iterate bounded ranges at the extremes of the
 element type

Stepping eagerly past either end overflowed for ranges touching the minimum or
maximum value (0..=255u8, 0..0u8, nth past the end), and a length that does not
fit in usize was reported as 0.
---
 src/bounded_range.rs | 67 ++++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 30 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 5a6f0dc..7594c7f 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -100,14 +100,16 @@ where
     type Item = T;
     fn into_iter(self) -> Self::IntoIter {
         let current = match self.start {
-            LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-            LowerBound(Bound::Included(t)) => t,
+            LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+            LowerBound(Bound::Included(t)) => Some(t),
         };
         let last = match self.end {
-            UpperBound(Bound::Excluded(t)) => Step::backward(t, 1),
-            UpperBound(Bound::Included(t)) => t,
+            UpperBound(Bound::Excluded(t)) => Step::backward_checked(t, 1),
+            UpperBound(Bound::Included(t)) => Some(t),
         };
-        BoundedRangeIter { current, last }
+        BoundedRangeIter {
+            remaining: current.zip(last).filter(|(current, last)| current <= last),
+        }
     }
 }
 
@@ -175,8 +177,8 @@ impl<T: Copy + Ord> BoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct BoundedRangeIter<T> {
-    current: T,
-    last: T,
+    /// The first and the last value still to be yielded, if there are any.
+    remaining: Option<(T, T)>,
 }
 
 impl<T> Iterator for BoundedRangeIter<T>
@@ -186,20 +188,23 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((Step::forward(current, 1), last))
         } else {
-            let t = self.current;
-            self.current = Step::forward(self.current, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(current)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = Step::steps_between(&self.current, &self.last)
-            .map(|steps| steps + 1)
-            .unwrap_or_default();
-        (size, Some(size))
+        match self.remaining {
+            Some((current, last)) => {
+                let size = Step::steps_between(&current, &last).and_then(|n| n.checked_add(1));
+                (size.unwrap_or(usize::MAX), size)
+            }
+            None => (0, Some(0)),
+        }
     }
 
     fn count(self) -> usize {
@@ -210,15 +215,14 @@ where
     where
         Self: Sized,
     {
-        if self.current > self.last {
-            None
-        } else {
-            Some(self.last)
-        }
+        self.remaining.map(|(_, last)| last)
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::forward_checked(current, n)
+            .filter(|current| *current <= last)
+            .map(|current| (current, last));
         self.next()
     }
 
@@ -236,17 +240,20 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        if self.current > self.last {
-            None
+        let (current, last) = self.remaining?;
+        self.remaining = if current < last {
+            Some((current, Step::backward(last, 1)))
         } else {
-            let t = self.last;
-            self.last = Step::backward(self.last, 1);
-            Some(t)
-        }
+            None
+        };
+        Some(last)
     }
 
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        self.last = Step::backward(self.last, n);
+        let (current, last) = self.remaining?;
+        self.remaining = Step::backward_checked(last, n)
+            .filter(|last| current <= *last)
+            .map(|last| (current, last));
         self.next_back()
     }
 }
-- 
2.43.0


From ebf7b01896778845deadb05ff699b106df6df08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:00 +0000
Subject: [PATCH 4/6] fix: iterate sets whose length does not fit in usize

The set iterators asked their pieces for an exact length to find out whether they
are exhausted, which panics (or skipped the piece) when the length overflows.
---
 src/bounded_set.rs       | 71 ++++++++++++++++++----------------------
 src/lower_bounded_set.rs |  4 +--
 2 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/src/bounded_set.rs b/src/bounded_set.rs
index 21cd260..79240d0 100644
--- a/src/bounded_set.rs
+++ b/src/bounded_set.rs
@@ -121,20 +121,21 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        while self
-            .range_iters
-            .front()
-            .map(|i| i.len() == 0)
-            .unwrap_or(false)
-        {
+        while let Some(iter) = self.range_iters.front_mut() {
+            if let Some(t) = iter.next() {
+                return Some(t);
+            }
             self.range_iters.pop_front();
         }
-        self.range_iters.front_mut().map(|i| i.next()).flatten()
+        None
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let size = self.range_iters.iter().map(|i| i.len()).sum();
-        (size, Some(size))
+        let size = self
+            .range_iters
+            .iter()
+            .try_fold(0usize, |size, i| size.checked_add(i.size_hint().1?));
+        (size.unwrap_or(usize::MAX), size)
     }
 
     fn count(self) -> usize
@@ -148,27 +149,20 @@ where
     where
         Self: Sized,
     {
-        while self
-            .range_iters
-            .back()
-            .map(|i| i.len() == 0)
-            .unwrap_or(false)
-        {
-            self.range_iters.pop_back();
-        }
-        self.range_iters.back_mut().map(|i| i.last()).flatten()
+        self.next_back()
     }
 
     fn nth(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.front().map(|i| i.len()) {
-            if len <= n {
-                n -= len;
-                self.range_iters.remove(0);
-            } else {
-                break;
+        while let Some(iter) = self.range_iters.front_mut() {
+            match iter.size_hint().1 {
+                Some(len) if len <= n => {
+                    n -= len;
+                    self.range_iters.pop_front();
+                }
+                _ => return iter.nth(n),
             }
         }
-        self.range_iters.front_mut().map(|i| i.nth(n)).flatten()
+        None
     }
 
     fn min(mut self) -> Option<Self::Item> {
@@ -185,27 +179,26 @@ where
     T: Copy + Ord + Step,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
-        while self
-            .range_iters
-            .back()
-            .map(|i| i.len() == 0)
-            .unwrap_or(false)
-        {
+        while let Some(iter) = self.range_iters.back_mut() {
+            if let Some(t) = iter.next_back() {
+                return Some(t);
+            }
             self.range_iters.pop_back();
         }
-        self.range_iters.back_mut().map(|i| i.next_back()).flatten()
+        None
     }
 
     fn nth_back(&mut self, mut n: usize) -> Option<Self::Item> {
-        while let Some(len) = self.range_iters.back_mut().map(|i| i.len()) {
-            if len <= n {
-                n -= len;
-                self.range_iters.pop_back();
-            } else {
-                break;
+        while let Some(iter) = self.range_iters.back_mut() {
+            match iter.size_hint().1 {
+                Some(len) if len <= n => {
+                    n -= len;
+                    self.range_iters.pop_back();
+                }
+                _ => return iter.nth_back(n),
             }
         }
-        self.range_iters.back_mut().map(|i| i.nth_back(n)).flatten()
+        None
     }
 }
 
diff --git a/src/lower_bounded_set.rs b/src/lower_bounded_set.rs
index 0485aa5..fa150fb 100644
--- a/src/lower_bounded_set.rs
+++ b/src/lower_bounded_set.rs
@@ -127,10 +127,10 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        let bounded_size = self.set_iter.len();
+        let bounded_size = self.set_iter.size_hint().1;
         self.set_iter
             .nth(n)
-            .or_else(|| self.range_iter.nth(n - bounded_size))
+            .or_else(|| self.range_iter.nth(n - bounded_size?))
     }
 
     fn min(mut self) -> Option<Self::Item> {
-- 
2.43.0


From d4239e29a660760509fa0971dde347d9b5ea5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:01 +0000
Subject: [PATCH 5/6] fix: convert empty ranges at the extremes of the element
 type

Converting an empty range with an excluded maximum as start or an excluded
minimum as end (any EmptyRange of an unsigned type, 0..0u8) to a standard range
overflowed.
---
 src/bounded_range.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/bounded_range.rs b/src/bounded_range.rs
index 7594c7f..2f69124 100644
--- a/src/bounded_range.rs
+++ b/src/bounded_range.rs
@@ -64,7 +64,11 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There is nothing above `t`, so the range is empty.
+                None => return t..t,
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
@@ -81,11 +85,19 @@ where
 {
     fn from(r: BoundedRange<T>) -> Self {
         let start = match r.start.to_bound() {
-            Bound::Excluded(t) => Step::forward(t, 1),
+            Bound::Excluded(t) => match Step::forward_checked(t, 1) {
+                Some(start) => start,
+                // There is nothing above `t`, so the range is empty.
+                None => return t..=Step::backward(t, 1),
+            },
             Bound::Included(t) => t,
         };
         let end = match r.end.to_bound() {
-            Bound::Excluded(t) => Step::backward(t, 1),
+            Bound::Excluded(t) => match Step::backward_checked(t, 1) {
+                Some(end) => end,
+                // There is nothing below `t`, so the range is empty.
+                None => return Step::forward(t, 1)..=t,
+            },
             Bound::Included(t) => t,
         };
         start..=end
-- 
2.43.0


From 73ed22e3bc18a31330cf29e89c0a3ec96416d5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:00 +0000
Subject: [PATCH 6/6] fix: do not step past the maximum before a value beyond
 it is asked for

A LowerBoundedRangeIter overflowed when yielding the maximum of the element type,
and a set with an empty unbounded part ((..=MAX).complement() and its unions)
could not be iterated at all.
---
 src/lower_bounded_range.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lower_bounded_range.rs b/src/lower_bounded_range.rs
index 1c7fb91..fc0c749 100644
--- a/src/lower_bounded_range.rs
+++ b/src/lower_bounded_range.rs
@@ -51,8 +51,8 @@ where
     fn into_iter(self) -> Self::IntoIter {
         LowerBoundedRangeIter {
             current: match self.start {
-                LowerBound(Bound::Excluded(t)) => Step::forward(t, 1),
-                LowerBound(Bound::Included(t)) => t,
+                LowerBound(Bound::Excluded(t)) => Step::forward_checked(t, 1),
+                LowerBound(Bound::Included(t)) => Some(t),
             },
         }
     }
@@ -103,7 +103,8 @@ impl<T: Copy + Ord> LowerBoundedRange<T> {
 /// ```
 #[derive(Clone, Debug)]
 pub struct LowerBoundedRangeIter<T> {
-    current: T,
+    /// The next value, or `None` past the last value of the type.
+    current: Option<T>,
 }
 
 impl<T> Iterator for LowerBoundedRangeIter<T>
@@ -113,8 +114,10 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let t = self.current;
-        self.current = Step::forward(self.current, 1);
+        let t = self
+            .current
+            .expect("Overflow in `LowerBoundedRangeIter::next`");
+        self.current = Step::forward_checked(t, 1);
         Some(t)
     }
 
@@ -123,7 +126,7 @@ where
     }
 
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.current = Step::forward(self.current, n);
+        self.current = self.current.and_then(|t| Step::forward_checked(t, n));
         self.next()
     }
 
-- 
2.43.0


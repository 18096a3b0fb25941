From 156ee87e9d4cbfc3ee088e7e43dd41d1829f7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 01/41] fix: ScopePtr::alloc dropped the uninitialized memory
 it had just allocated

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 02be650..1bf4d6b 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -179,8 +179,10 @@ impl<T> ScopePtr<T> {
     /// Allocate the given value on the heap of the current scope. Given query will be used
     /// to select appropriate allocator.
     pub fn alloc(value: T, selector: AllocSelector) -> Result<Self, AllocError> {
-        let mut ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
-        *ptr = value;
+        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;
+        // SAFETY: freshly allocated memory is valid for writes. It is uninitialized so nothing
+        // should be dropped there by an assignment.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value) };
         Ok(ptr)
     }
 
-- 
2.43.0


From b7554a42d842b3540a28ee56decafa53c871d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 02/41] fix: ScopePtr::into_inner dropped the moved out value
 and deallocated twice

---
 src/ptr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ptr.rs b/src/ptr.rs
index 1bf4d6b..4bbf906 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -205,6 +205,8 @@ impl<T> ScopePtr<T> {
         unsafe {
             let v = ptr::read(self.ptr.as_ptr());
             self.dealloc();
+            // The value is moved out and memory is deallocated so prevent Drop.
+            mem::forget(self);
             v
         }
     }
-- 
2.43.0


From 1737307349dc5c2fad043db50d66c8bf28e90f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 03/41] fix: allocators were asked for, and given back,
 zero-sized memory

---
 src/ptr.rs | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 4bbf906..5d3f120 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -190,7 +190,12 @@ impl<T> ScopePtr<T> {
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
         trace!("alloc with {:?}", &layout);
-        let mem = unsafe { alloc.alloc(layout) as *mut T };
+        let mem = if layout.size() == 0 {
+            // Nothing to store so do not bother allocator, it does not accept zero sizes.
+            NonNull::dangling().as_ptr()
+        } else {
+            unsafe { alloc.alloc(layout) as *mut T }
+        };
         if let Some(ptr) = NonNull::new(mem) {
             // SAFETY: all parameters are guaranteed to be correct in the code above.
             let alloc = unsafe { ScopePtr::new(ptr, alloc, selector.marker()) };
@@ -244,8 +249,11 @@ impl<T: ?Sized> ScopePtr<T> {
     /// Memory should not be accessed and Drop execution should be prevented.
     pub unsafe fn dealloc(&mut self) {
         trace!("dealloc ScopeAccess {:#?}", self.ptr.as_ptr());
-        self.alloc
-            .dealloc(self.ptr.as_ptr() as _, Layout::for_value(self.ptr.as_ref()));
+        let layout = Layout::for_value(self.ptr.as_ref());
+        // Zero-sized values never were allocated.
+        if layout.size() != 0 {
+            self.alloc.dealloc(self.ptr.as_ptr() as _, layout);
+        }
     }
 }
 
@@ -273,12 +281,16 @@ impl<T> ScopePtr<[T]> {
     pub unsafe fn realloc_array(&mut self, new_capacity: usize) -> Result<(), ArrayAllocError> {
         use ArrayAllocError::*;
         trace!("realloc array");
-        let ptr = self.alloc.realloc(
-            self.ptr.as_ptr() as _,
-            // SAFETY: we already constructed such Layout before to allocate - it will not fail.
-            Layout::array::<T>(self.len()).unwrap_unchecked(),
-            new_capacity * size_of::<T>(),
-        );
+        // SAFETY: we already constructed such Layout before to allocate - it will not fail.
+        let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
+        let new_size = new_capacity * size_of::<T>();
+        // Allocators do not accept zero sizes, arrays of zero size are never allocated.
+        let ptr = if new_size == 0 {
+            self.dealloc();
+            NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else {
+            self.alloc.realloc(self.ptr.as_ptr() as _, layout, new_size)
+        };
         if ptr.is_null() {
             Err(AllocError(super::AllocError))
         } else {
-- 
2.43.0


From 1dfad880c54c4b43a94e3ddc90071b604455ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 04/41] fix: realloc_array computed the new size with overflow

---
 src/ptr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 5d3f120..be7eabd 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -3,7 +3,7 @@ use crate::scope::{AllocMarker, AllocSelector};
 use crate::test_log::trace;
 use core::alloc::{GlobalAlloc, Layout};
 use core::marker::PhantomData;
-use core::mem::{self, size_of, transmute};
+use core::mem::{self, transmute};
 use core::ops::{Deref, DerefMut};
 use core::ptr::NonNull;
 use core::{ptr, slice};
@@ -283,7 +283,9 @@ impl<T> ScopePtr<[T]> {
         trace!("realloc array");
         // SAFETY: we already constructed such Layout before to allocate - it will not fail.
         let layout = Layout::array::<T>(self.len()).unwrap_unchecked();
-        let new_size = new_capacity * size_of::<T>();
+        let new_size = Layout::array::<T>(new_capacity)
+            .map_err(|_| CapacityOverflow)?
+            .size();
         // Allocators do not accept zero sizes, arrays of zero size are never allocated.
         let ptr = if new_size == 0 {
             self.dealloc();
-- 
2.43.0


From f2e65f457e6ae159232e5dba29f3afd231367866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 05/41] fix: Vec without capacity lost its allocator marker

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index a8c6a0c..90fa36a 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -40,7 +40,7 @@ impl<T: 'static> Vec<T> {
         //
         // Note: we cannot create dangling ScopeAccess to unsized items yet, so no [T] here
         // but we can cast later to ScopeAccess<[T]>.
-        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, Default::default()) };
+        let ptr = unsafe { ScopePtr::<T>::dangling(alloc, marker) };
         Vec {
             ptr: unsafe { ManuallyDrop::new(ptr.cast_to_slice(0)) },
             len: 0,
-- 
2.43.0


From a053fa06e3a702a271110421a0c52698009924c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:51 +0000
Subject: [PATCH 06/41] fix: first growth of a Vec used the allocator of the
 current scope instead of its own

---
 src/ptr.rs | 2 ++
 src/vec.rs | 7 +------
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index be7eabd..472b0fe 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -290,6 +290,8 @@ impl<T> ScopePtr<[T]> {
         let ptr = if new_size == 0 {
             self.dealloc();
             NonNull::<T>::dangling().as_ptr() as *mut u8
+        } else if layout.size() == 0 {
+            self.alloc.alloc(Layout::array::<T>(new_capacity).unwrap_unchecked())
         } else {
             self.alloc.realloc(self.ptr.as_ptr() as _, layout, new_size)
         };
diff --git a/src/vec.rs b/src/vec.rs
index 90fa36a..6dadee7 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -231,12 +231,7 @@ impl<T: 'static> Vec<T> {
         debug_assert!(self.capacity() < new_capacity);
 
         trace!("grow from {} to {}", self.capacity(), new_capacity);
-        if self.capacity() == 0 {
-            *self = Vec::try_with_capacity_and_marker(new_capacity, self.ptr.marker())?;
-            Ok(())
-        } else {
-            unsafe { self.ptr.realloc_array(new_capacity) }
-        }
+        unsafe { self.ptr.realloc_array(new_capacity) }
     }
 
     #[cold]
-- 
2.43.0


From aa3dce146642a78897695a009470aada81059c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 07/41] fix: Vec::leak dropped the elements and memory it
 leaked

---
 src/vec.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 6dadee7..93e750c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -306,10 +306,12 @@ impl<T: 'static> Vec<T> {
     }
 
     #[inline]
-    pub fn leak(mut self) -> &'static mut [T] {
+    pub fn leak(self) -> &'static mut [T] {
+        // Avoid normal Drop of Vec.
+        let mut this = ManuallyDrop::new(self);
         // SAFETY: Vec is used in some scope and slice is 'static in it as it will not be
         // ever deallocated when leaked within the scope lifetime.
-        unsafe { impose_lifetime_mut(&mut self) }
+        unsafe { impose_lifetime_mut(this.as_mut_slice()) }
     }
 
     /// Deallocate Vec without running Drop for the elements.
-- 
2.43.0


From eaf9983812651c1561090d59623706c2c968e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 08/41] fix: Vec::dealloc_without_drop dropped elements and
 deallocated twice

---
 src/vec.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vec.rs b/src/vec.rs
index 93e750c..9f77441 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -318,6 +318,8 @@ impl<T: 'static> Vec<T> {
     #[inline]
     pub fn dealloc_without_drop(mut self) {
         unsafe { self.ptr.dealloc() };
+        // Avoid normal Drop of Vec, which would drop the elements and deallocate again.
+        mem::forget(self);
     }
 
     #[inline]
-- 
2.43.0


From 77faf87415d855b841dbc260da1bae5ee3845505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 09/41] fix: swap_remove of the last element copied overlapping
 memory as non-overlapping

---
 src/small_vec.rs | 2 +-
 src/vec.rs       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 89d6df6..879ae45 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -269,7 +269,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
 
             // Copy last element in place of removed one.
             let last = self.get_unchecked(self.len() - 1);
-            ptr::copy_nonoverlapping(last, remove, 1);
+            ptr::copy(last, remove, 1);
 
             // We have removed the element so reduce len.
             self.set_len(self.len() - 1);
diff --git a/src/vec.rs b/src/vec.rs
index 9f77441..6c1a098 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -369,10 +369,10 @@ impl<T: 'static> Vec<T> {
             // SAFETY: index is within array range and does not underflow as len is positive.
             let last = self.len() - 1;
             let last_ptr: *mut T = unsafe { self.get_unchecked_mut(last) };
-            // SAFETY: pointers are valid and non-overlapping.
+            // SAFETY: pointers are valid. They are the same when last element is removed.
             unsafe {
                 let val = ptr::read(elem_ptr);
-                copy_nonoverlapping(last_ptr, elem_ptr, 1);
+                ptr::copy(last_ptr, elem_ptr, 1);
                 self.set_len(self.len() - 1);
                 val
             }
-- 
2.43.0


From 7cc417d33b64c49550e71a0f2893f5e98e9b4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 10/41] fix: Vec::into_boxed_slice lost all elements of
 zero-sized types

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 6c1a098..3d48158 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -386,7 +386,8 @@ impl<T: 'static> Vec<T> {
         // capacity.
         self.shrink_to_fit();
 
-        let access = unsafe { self.ptr.clone() };
+        // Zero-sized types have no actual capacity so the length should be set explicitly.
+        let access = unsafe { self.ptr.clone().cast::<T>().cast_to_slice(self.len()) };
         // Avoid normal Drop of Vec.
         mem::forget(self);
 
-- 
2.43.0


From 5a39054c3518afdc117bd555564d4e8d9724c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:59 +0000
Subject: [PATCH 11/41] fix: Vec::split_off left the elements in both vectors'
 memory and returned an empty one

---
 src/vec.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 3d48158..f9f3d0d 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -405,7 +405,12 @@ impl<T: 'static> Vec<T> {
             // SAFETY: we checked above that `at` is within array range.
             let at_ptr = unsafe { self.get_unchecked(at) };
 
-            unsafe { copy_nonoverlapping(at_ptr, vec_ptr, count) };
+            unsafe {
+                copy_nonoverlapping(at_ptr, vec_ptr, count);
+                // Elements are moved to the other Vec.
+                self.set_len(at);
+                vec.set_len(count);
+            }
             vec
         }
     }
-- 
2.43.0


From b66eb0f401574dc2675fe2199fd59b07892199b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 12/41] fix: retain and dedup lost the second element if the
 first was kept

---
 src/vec.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index f9f3d0d..2f93e0c 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -735,7 +735,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
             unsafe { vec.set_len(1) };
             RetainIter {
                 write: 1,
-                read: 2,
+                read: 1,
                 vec,
                 initial_len,
             }
@@ -772,11 +772,10 @@ impl<'a, T: 'static> RetainIter<'a, T> {
     /// Care should be taken to forget the element in `read` and only use one stored
     /// in `write` after copying.
     unsafe fn copy(&mut self) {
-        debug_assert_ne!(self.read, self.write);
-
         let read: *const T = self.get_unchecked(self.read);
         let write: *mut T = self.get_unchecked_mut(self.write);
-        ptr::copy_nonoverlapping(read, write, 1);
+        // These are the same place until first element gets discarded.
+        ptr::copy(read, write, 1);
     }
 
     /// Increment `len` in controlled `vec` to indicate processed element.
-- 
2.43.0


From 86bc7a0b105453c9682e0fc9f2899bb42c2b4c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 13/41] fix: dedup_by passed a moved out copy as the last kept
 element

---
 src/vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 2f93e0c..e78b0be 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -824,7 +824,8 @@ impl<'a, T: 'static> RetainIter<'a, T> {
                 iter.discard_next();
             } else {
                 iter.keep_next();
-                keeped = tested;
+                // The element could be moved so refer to the place where it is now.
+                keeped = unsafe { iter.get_unchecked_mut(iter.write - 1) };
             }
         }
     }
-- 
2.43.0


From 3d72b4f60c29dc9406d5dcf3815851a2618b60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 14/41] fix: drain panicked on non-empty ranges and corrupted
 the tail of the vector

---
 src/vec.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index e78b0be..9ca7443 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -537,13 +537,16 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
         let start = match range.start_bound() {
             Unbounded => 0,
             Included(&v) => v,
-            Excluded(&v) => v + 1,
+            Excluded(&v) => v.overflow_guarded_add(1),
         };
         let end = match range.end_bound() {
             Unbounded => vec.len(),
-            Included(&v) => v + 1,
+            Included(&v) => v.overflow_guarded_add(1),
             Excluded(&v) => v,
         };
+        let original_len = vec.len();
+        // Get the slice before length is decreased. Panics if range is out of bounds.
+        let slice: *const [T] = &vec.as_slice()[start..end];
         // Decrease length so Vec does not overlap with drained slice.
         // In case Drop panics or Drain gets leaked
         // this will leave only valid values in the Vec though those elements
@@ -554,8 +557,8 @@ impl<'vec, T: 'static, V: Vecx<T>> DrainInner<'vec, T, V> {
             vec_ptr: vec,
             start,
             end,
-            slice: &vec.as_slice()[start..end],
-            original_len: vec.len(),
+            slice: unsafe { &*slice },
+            original_len,
         }
     }
 
@@ -575,10 +578,11 @@ impl<'vec, T: 'static, V: Vecx<T>> Drop for DrainInner<'vec, T, V> {
 
         unsafe {
             // Remove gap in `vec` where `slice` has been.
-            let slice_start: *mut T = vec.get_unchecked_mut(self.start);
-            let slice_end = vec.get_unchecked(self.end);
+            // Elements in the gap and after it are out of the current `vec` length.
+            let slice_start: *mut T = vec.as_mut_ptr().add(self.start);
+            let slice_end: *const T = vec.as_ptr().add(self.end);
             let count = self.end - self.start;
-            ptr::copy(slice_end, slice_start, count);
+            ptr::copy(slice_end, slice_start, self.original_len - self.end);
 
             // Restore valid length of Vec.
             vec.set_len(self.original_len - count);
@@ -612,7 +616,7 @@ impl<'vec, T: 'static, V: Vecx<T>> DoubleEndedIterator for DrainInner<'vec, T, V
         if let Some(ptr) = self.slice.last().map(|v| v as *const T) {
             unsafe {
                 let value = ptr::read(ptr);
-                self.slice = slice::from_raw_parts(ptr, self.slice.len() - 1);
+                self.slice = slice::from_raw_parts(self.slice.as_ptr(), self.slice.len() - 1);
                 Some(value)
             }
         } else {
-- 
2.43.0


From 306c0cee59d8544befa38ac4798c2b9bb3efb9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 15/41] fix: creating Vec or String from a non-empty slice
 panicked

---
 src/vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vec.rs b/src/vec.rs
index 9ca7443..3d20937 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1001,7 +1001,7 @@ impl<T: 'static> Drop for Vec<T> {
 impl<T: Clone> From<&[T]> for Vec<T> {
     fn from(slice: &[T]) -> Self {
         let mut vec = Vec::new();
-        vec.clone_from_slice(slice);
+        vec.extend_from_slice(slice);
         vec
     }
 }
-- 
2.43.0


From c2da70dbb389cc9f7cdc6cb74cd8bc0f396ae679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 16/41] fix: Vec::into_iter yielded moved out elements from the
 back and reported wrong length

---
 src/vec.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 3d20937..425d3c5 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -1104,13 +1104,19 @@ impl<T> Iterator for IntoIter<T> {
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        (self.vec.len(), Some(self.vec.len()))
+        let len = self.vec.len() - self.index;
+        (len, Some(len))
     }
 }
 
 impl<T> DoubleEndedIterator for IntoIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
-        self.vec.pop()
+        // Elements before the index are already moved out.
+        if self.index < self.vec.len() {
+            self.vec.pop()
+        } else {
+            None
+        }
     }
 }
 
@@ -1142,7 +1148,7 @@ impl<T> Drop for IntoIter<T> {
 impl<T> IntoIter<T> {
     pub fn as_slice(&self) -> &[T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_ptr().add(self.index);
             slice::from_raw_parts(data, len)
         }
@@ -1150,7 +1156,7 @@ impl<T> IntoIter<T> {
 
     pub fn as_slice_mut(&mut self) -> &mut [T] {
         unsafe {
-            let len = self.len() - self.index;
+            let len = self.len();
             let data = self.vec.as_mut_ptr().add(self.index);
             slice::from_raw_parts_mut(data, len)
         }
-- 
2.43.0


From 8f95290085b850c4e114dc08ee30244aa1b13eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 17/41] fix: Vec::clear left dropped elements accessible if a
 destructor panicked

---
 src/vec.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 425d3c5..873f529 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -263,15 +263,12 @@ impl<T: 'static> Vec<T> {
 
     #[inline]
     pub fn clear(&mut self) {
-        for i in 0..self.len() {
-            // SAFETY: we iterate in the initialized range bound by length parameter and
-            // so the values are correct.
-            let ptr = unsafe { self.get_unchecked_mut(i) };
-            // SAFETY: value in the array is valid to be dropped at this point.
-            unsafe { drop_in_place(ptr) };
-        }
+        let elements: *mut [T] = self.as_mut_slice();
+        // Set length first so that dropped elements are not accessible if Drop panics.
         // SAFETY: length is for sure less than or equal to the capacity here.
         unsafe { self.set_len(0) };
+        // SAFETY: the values were in the initialized range bound by length so they are correct.
+        unsafe { drop_in_place(elements) };
     }
 
     #[inline]
-- 
2.43.0


From 010ea7d5e292d8154b993a0bad5997300208589b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:02 +0000
Subject: [PATCH 18/41] fix: truncate of an inline SmallVec never dropped the
 elements

---
 src/small_vec.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 879ae45..a52b3cf 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -250,11 +250,9 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
             // Reduce len in case Drop panics so that dropped data does not
             // get potentially accessed.
             unsafe { self.set_len(len) };
-            for to_drop in old_len..len {
-                unsafe {
-                    let to_drop = self.get_unchecked_mut(to_drop);
-                    drop_in_place(to_drop);
-                }
+            unsafe {
+                let to_drop: *mut [T] = &mut self.as_slice_with_len_mut(old_len)[len..];
+                drop_in_place(to_drop);
             }
         }
     }
-- 
2.43.0


From 8169817aac610518b3b6eda3c6b19af66242ac78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 19/41] fix: insert into an inline SmallVec wrote out of bounds
 for bad index, aborted for last one

---
 src/small_vec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index a52b3cf..57196c9 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -196,7 +196,8 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
     pub unsafe fn unchecked_insert(&mut self, index: usize, value: T) {
         debug_assert!(self.len() >= index);
 
-        let write: *mut T = self.get_unchecked_mut(index);
+        // Index may be right after the last element.
+        let write: *mut T = self.as_mut_ptr().add(index);
         // Shift everything over to make space. (Duplicating the
         // `index`th element into two consecutive places.)
         ptr::copy(write, write.add(1), self.len() - index);
@@ -576,6 +577,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn insert(&mut self, index: usize, value: T) {
+        assert!(index <= self.len());
+
         // Ensure we can store one more element. This will move to heap if stack is full.
         self.reserve(1);
 
-- 
2.43.0


From 46fbb291189d71783d364cec82a32a689cae83ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 20/41] fix: remove from an inline SmallVec read past the last
 element

---
 src/small_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 57196c9..54d12f2 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -220,7 +220,7 @@ impl<T: 'static, const N: usize> StackVec<T, N> {
         let value = ptr::read(read);
 
         // Move elements to fill read-out gap.
-        let count = self.len() - index;
+        let count = self.len() - index - 1;
         ptr::copy(
             self.as_ptr().add(index + 1),
             self.as_mut_ptr().add(index),
-- 
2.43.0


From 8667e94d4cf290fe0b062d9825fbe934989ab2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 21/41] fix: inline SmallVec created from an array was empty

---
 src/small_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 54d12f2..6cc1aca 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -943,7 +943,8 @@ impl<T: 'static, const N: usize, const L: usize> From<[T; L]> for SmallVec<T, N>
                     &slice as *const MaybeUninit<T>,
                     &mut vec.slice as *mut MaybeUninit<T>,
                     L,
-                )
+                );
+                vec.set_len(L);
             };
             SmallVec {
                 storage: Storage::Stack(vec),
-- 
2.43.0


From 6200d0f919994d99ed4fef3e05a281c0dad0e1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 22/41] fix: SmallVec moved to heap, and overflowed for
 zero-sized types, having enough space

---
 src/small_vec.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 6cc1aca..f2d3c2d 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -479,6 +479,11 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
     #[inline]
     pub fn try_reserve(&mut self, additional: usize) -> Result<(), TryReserveError> {
+        if self.len().overflow_guarded_add(additional) <= self.capacity() {
+            // There is enough space already.
+            return Ok(());
+        }
+
         let new_capacity = self.capacity().overflow_guarded_add(additional);
         let new_capacity = usize::max(Vec::<T>::MIN_NON_ZERO_CAP, new_capacity);
 
-- 
2.43.0


From 8934e13869cc0e3dda651a57928961bc740614ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:04 +0000
Subject: [PATCH 23/41] fix: resizing an inline SmallVec beyond inline capacity
 panicked

---
 src/small_vec.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index f2d3c2d..7b6df1c 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -373,7 +373,6 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         pub fn truncate(&mut self, len: usize);
         pub fn swap_remove(&mut self, index: usize) -> T;
         pub fn dedup_by(&mut self, same_bucket: impl FnMut(&mut T, &mut T) -> bool);
-        pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T);
         pub fn retain(&mut self, retain: impl FnMut(&T) -> bool);
     }
 
@@ -403,10 +402,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     where
         T: Clone,
     {
-        if len > N {
-            // Move to heap to be able to store all new elements.
-            self.reserve(len - N);
-        }
+        // Moves to heap if there is not enough space to store all new elements.
+        self.reserve_exact(len.saturating_sub(self.len()));
 
         use Storage::*;
         match &mut self.storage {
@@ -415,6 +412,18 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         }
     }
 
+    #[inline]
+    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {
+        // Moves to heap if there is not enough space to store all new elements.
+        self.reserve_exact(len.saturating_sub(self.len()));
+
+        use Storage::*;
+        match &mut self.storage {
+            Stack(vec) => vec.resize_with(len, f),
+            Heap(vec) => vec.resize_with(len, f),
+        }
+    }
+
     #[inline]
     pub fn is_heap(&self) -> bool {
         use Storage::*;
-- 
2.43.0


From de280bd4d474628a4df7d02e9391998cedcdb41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 24/41] fix: SmallVec::try_move_to_heap_and_reserve_exact
 overflowed and panicked instead of failing

---
 src/small_vec.rs | 5 +++--
 src/vec.rs       | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 7b6df1c..5f9429a 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -451,7 +451,8 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
         match &mut self.storage {
             Stack(vec) => {
                 let old_vec = vec;
-                let reserve = usize::max(old_vec.len() + additional, Vec::<T>::MIN_NON_ZERO_CAP);
+                let reserve = old_vec.len().overflow_guarded_add(additional);
+                let reserve = usize::max(reserve, Vec::<T>::MIN_NON_ZERO_CAP);
                 let mut new_vec = Vec::try_with_capacity_and_marker(reserve, self.marker)?;
 
                 unsafe {
@@ -466,7 +467,7 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
 
                 self.storage = Heap(new_vec);
             }
-            Heap(vec) => vec.reserve_exact(additional),
+            Heap(vec) => vec.try_reserve_exact(additional).map_err(|e| e.0)?,
         }
         Ok(())
     }
diff --git a/src/vec.rs b/src/vec.rs
index 873f529..dc57026 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -873,7 +873,7 @@ impl<'a, T: 'static> RetainIter<'a, T> {
 }
 
 #[derive(Debug, Clone, PartialEq, Eq)]
-pub struct TryReserveError(ArrayAllocError);
+pub struct TryReserveError(pub(crate) ArrayAllocError);
 
 impl From<ArrayAllocError> for TryReserveError {
     fn from(e: ArrayAllocError) -> Self {
-- 
2.43.0


From 153fb21ad96a0902adb1959f5aefa4176c24f0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 25/41] fix: SmallVec::split_off at the end panicked, unlike
 for Vec and String

---
 src/small_vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/small_vec.rs b/src/small_vec.rs
index 5f9429a..3906bdc 100644
--- a/src/small_vec.rs
+++ b/src/small_vec.rs
@@ -642,6 +642,10 @@ impl<T: 'static, const N: usize> SmallVec<T, N> {
     }
 
     pub fn split_off_into<const LEN: usize>(&mut self, at: usize) -> SmallVec<T, LEN> {
+        if self.len() <= at {
+            return SmallVec::new();
+        }
+
         let slice = &mut self[at] as *mut T;
         let count = self.len() - at;
         let mut into = SmallVec::with_capacity(count);
-- 
2.43.0


From 16b5145eb8a708fd0035934a5c04d4bc5e842bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 26/41] fix: Rc never dropped its value and never released
 memory

---
 src/rc.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index f18dda8..bccf518 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -160,16 +160,18 @@ impl Rc<dyn core::any::Any + 'static> {
 
 impl<T: ?Sized> Drop for Rc<T> {
     fn drop(&mut self) {
-        if Rc::strong_count(self) == 1 {
-            // This was the last `Rc` so drop the value.
-            unsafe { drop_in_place(&mut self.inner_mut().val) }
-        } else {
-            self.inner().dec_strong();
+        if self.inner().dec_strong() != 1 {
+            return;
         }
 
-        if Rc::strong_count(self) == 0 && Rc::weak_count(self) == 0 {
+        // This was the last `Rc` so drop the value. It may own `Weak`s that refer to this RcBox,
+        // so do not let the last of them release RcBox from under the value.
+        self.inner().inc_weak();
+        unsafe { drop_in_place(self.as_mut()) }
+
+        if self.inner().dec_weak() == 1 {
             // Nothing refers to RcBox now so drop it.
-            unsafe { drop_in_place(&mut self.0) }
+            unsafe { ManuallyDrop::drop(&mut self.0) }
         }
     }
 }
@@ -343,11 +345,11 @@ impl<T: ?Sized> Default for Weak<T> {
 
 impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
-        if let Some(v) = self.inner() {
+        if let Some(v) = &mut self.0 {
             let weak = v.dec_weak();
-            if weak == 0 && self.strong_count() == 0 {
+            if weak == 1 && v.is_dealloc() {
                 unsafe {
-                    drop_in_place(&mut self.0);
+                    ManuallyDrop::drop(v);
                 }
             }
         }
-- 
2.43.0


From 1fb159772dd830cd91d6d662869deda08ea6e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:59 +0000
Subject: [PATCH 27/41] fix: Rc::try_unwrap dropped the value it returned

---
 src/rc.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/rc.rs b/src/rc.rs
index bccf518..e07ef29 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -8,7 +8,7 @@ use core::fmt::Formatter;
 use core::hash::{Hash, Hasher};
 use core::mem::ManuallyDrop;
 use core::ptr::drop_in_place;
-use core::{fmt, ptr};
+use core::{fmt, mem, ptr};
 
 /// Internal allocated holder for value and counters of Rc.
 struct RcBox<T: ?Sized> {
@@ -118,9 +118,15 @@ impl<T: 'static> Rc<T> {
         ))
     }
 
-    pub fn try_unwrap(this: Rc<T>) -> Result<T, Self> {
+    pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
         if Rc::strong_count(&this) == 1 {
             let val = unsafe { ptr::read(&this.0.val) };
+            // RcBox does not own the value no more. Release it if nothing refers to it.
+            this.inner().set_zero_strong();
+            if Rc::weak_count(&this) == 0 {
+                unsafe { ManuallyDrop::drop(&mut this.0) }
+            }
+            mem::forget(this);
             Ok(unsafe { MaybeDropped::into_inner(val) })
         } else {
             Err(this)
-- 
2.43.0


From b354ac5a1e7483bf3a5e8ee01ac97082718b560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 28/41] fix: Rc::make_mut dropped the moved out value if there
 were Weaks

---
 src/ptr.rs | 12 ++++++++++++
 src/rc.rs  | 10 ++++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ptr.rs b/src/ptr.rs
index 472b0fe..99cc00b 100644
--- a/src/ptr.rs
+++ b/src/ptr.rs
@@ -186,6 +186,18 @@ impl<T> ScopePtr<T> {
         Ok(ptr)
     }
 
+    /// Allocate memory on the heap of the current scope and only then get the value to put there.
+    /// The function to get the value is not called if allocation failed, and it must not panic.
+    pub(crate) fn alloc_with(
+        selector: AllocSelector,
+        value: impl FnOnce() -> T,
+    ) -> Result<Self, AllocError> {
+        let ptr = Self::alloc_layout(Layout::new::<T>(), selector)?;
+        // SAFETY: the same as for `alloc`.
+        unsafe { ptr::write(ptr.ptr.as_ptr(), value()) };
+        Ok(ptr)
+    }
+
     /// Allocate memory using given `Layout` and `AllocQuery`.
     fn alloc_layout(layout: Layout, selector: AllocSelector) -> Result<Self, AllocError> {
         let alloc = crate::scope::current(&()).alloc_for(selector);
diff --git a/src/rc.rs b/src/rc.rs
index e07ef29..9f939b3 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -140,11 +140,17 @@ impl<T: 'static> Rc<T> {
         if Rc::strong_count(this) == 1 {
             if Rc::weak_count(this) != 0 {
                 // Disassociate weak pointers from the data.
-                let data = unsafe { ptr::read(this.as_ref()) };
+                let new = ScopePtr::alloc_with(AllocSelector::new::<T>(), || RcBox {
+                    strong: Cell::new(1),
+                    weak: Cell::new(0),
+                    val: unsafe { ptr::read(&this.0.val) },
+                })
+                .unwrap();
                 // Set strong to zero to indicate this RcBox does not own any data no more.
                 this.inner_mut().set_zero_strong();
 
-                *this = Rc::new(data);
+                // The data was moved out of the old RcBox, so it should not get dropped.
+                unsafe { ptr::write(this, Rc(ManuallyDrop::new(new))) };
             }
         } else {
             let clone = this.as_ref().clone();
-- 
2.43.0


From 62b83c1f41a44f5b43567ab6c83856296572ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 29/41] fix: Rc::downcast released the reference it returned

---
 src/rc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rc.rs b/src/rc.rs
index 9f939b3..1742ac3 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -163,7 +163,9 @@ impl<T: 'static> Rc<T> {
 impl Rc<dyn core::any::Any + 'static> {
     pub fn downcast<T: core::any::Any>(self) -> Result<Rc<T>, Self> {
         if (*self).is::<T>() {
-            unsafe { Ok(Rc(ManuallyDrop::new(self.0.clone().cast()))) }
+            let ptr = unsafe { self.0.clone().cast() };
+            mem::forget(self);
+            Ok(Rc(ManuallyDrop::new(ptr)))
         } else {
             Err(self)
         }
-- 
2.43.0


From fbe7e4f3f36767d64b4096bf7aff6b3c7b63a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 30/41] fix: Arc never released memory if there were Weaks, and
 make_mut dropped the moved out value

---
 src/arc.rs | 67 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index c4bd62e..a1a8fae 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -18,6 +18,8 @@ struct ArcInner<T: ?Sized> {
     // If `strong` is equal to usize::MAX mean a locked value. This should
     // prevent changes to `ArcInner` or `Drop` execution until unlocked.
     strong: AtomicUsize,
+    // All strong references together hold one weak reference, which is released after the data
+    // is dropped. So who releases the last weak reference also releases `ArcInner`.
     weak: AtomicUsize,
     data: MaybeDropped<T>,
 }
@@ -105,7 +107,7 @@ impl<'a> AtomicCounter<'a> {
     pub(crate) fn try_set_zero(&mut self, order: Ordering) -> Result<usize, usize> {
         debug_assert!(self.val > 0);
         self.inner
-            .compare_exchange_weak(self.val, 0, order, Relaxed)
+            .compare_exchange(self.val, 0, order, Relaxed)
     }
 
     /// Whether the counter was locked when last read.
@@ -140,7 +142,7 @@ impl<T: 'static> Arc<T> {
     pub fn try_new(data: T) -> Result<Self, AllocError> {
         let inner = ArcInner {
             strong: AtomicUsize::new(1),
-            weak: AtomicUsize::new(0),
+            weak: AtomicUsize::new(1),
             data: data.into(),
         };
         Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
@@ -174,32 +176,32 @@ impl<T: 'static> Arc<T> {
         T: Clone,
     {
         let mut strong = this.inner().load_strong(Acquire);
-        let mut weak = this.inner().load_weak(Acquire);
+        let weak = this.inner().load_weak(Acquire);
 
         if strong == 1 {
-            if weak == 0 {
+            if weak == 1 {
                 // No weaks and only one strong. We own the data and no other thread
                 // cannot possibly Clone the data. We can safely return a mutable reference
                 // to current Arc's data.
             } else {
                 // Disassociate present weak pointers from the data.
 
-                // Create new Weak to prevent ArcInner from deallocating while we use it here.
-                // This binding also will automatically clean resources afterwards.
-                //
-                // The deallocation is possible because we will set `strong` to zero and
-                // if all Weaks will be Dropped in the other threads, the last Weak will
-                // deallocate ArcInner.
-                weak.increment(Release);
-                let _weak_struct = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
+                // Create a new ArcInner and move the data there. It is not dropped automatically
+                // so it still can be forgotten.
+                let new = ScopePtr::alloc_with(AllocSelector::new::<T>(), || ArcInner {
+                    strong: AtomicUsize::new(1),
+                    weak: AtomicUsize::new(1),
+                    data: unsafe { ptr::read(&this.0.data) },
+                })
+                .unwrap();
 
                 // Set strong to zero to indicate ArcInner does not own any data no more.
                 match strong.try_set_zero(Acquire) {
                     Ok(_) => {
-                        // Move out the data.
-                        let data = unsafe { ptr::read(this.as_ref()) };
-                        // Create a new Arc and store the data there.
-                        *this = Arc::new(data);
+                        // Release the weak reference that was held by the strong one.
+                        let _weak = unsafe { Weak(ManuallyDrop::new(this.0.clone())) };
+                        // The data was moved out of the old ArcInner so forget it.
+                        unsafe { ptr::write(this, Arc(ManuallyDrop::new(new))) };
                     }
                     Err(_) => {
                         // Probably, `Arc` was cloned before we have disassociated.
@@ -221,7 +223,7 @@ impl<T: 'static> Arc<T> {
 }
 
 impl<T> Arc<T> {
-    pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+    pub fn try_unwrap(this: Self) -> Result<T, Self> {
         if this
             .inner()
             .strong
@@ -236,10 +238,8 @@ impl<T> Arc<T> {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.0.data));
 
-            // If nothing refers to the ArcInner no more then release it.
-            if this.inner().weak.load(Acquire) == 0 {
-                ManuallyDrop::drop(&mut this.0);
-            }
+            // Release the weak reference that was held by the strong one.
+            let _weak = Weak(ManuallyDrop::new(this.0.clone()));
 
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
@@ -271,7 +271,7 @@ impl<T: ?Sized> Arc<T> {
         let cnt = this.inner().load_weak(SeqCst);
         // If the weak count is currently locked, the value of the
         // count was 0 just before taking the lock.
-        cnt.get().unwrap_or(0)
+        cnt.get().map_or(0, |cnt| cnt - 1)
     }
 
     #[inline]
@@ -321,7 +321,7 @@ impl<T: ?Sized> Arc<T> {
         if self
             .inner()
             .weak
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
+            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
             .is_ok()
         {
             // This needs to be an `Acquire` to synchronize with the decrement of the `strong`
@@ -332,7 +332,7 @@ impl<T: ?Sized> Arc<T> {
             // The release write here synchronizes with a read in `downgrade`,
             // effectively preventing the above read of `strong` from happening
             // after the write.
-            self.inner().weak.store(0, Release); // release the lock.
+            self.inner().weak.store(1, Release); // release the lock.
             unique
         } else {
             false
@@ -349,12 +349,9 @@ impl<T: ?Sized> Arc<T> {
     unsafe fn drop_slow(&mut self) {
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
+        // They are released together with the weak reference held by all strong references.
+        let _weak = Weak(ManuallyDrop::new(self.0.clone()));
         drop_in_place(Self::get_mut_unchecked(self));
-
-        // Release the data if Weaks are not alive.
-        if self.inner().load_weak(Acquire) == 0 {
-            ManuallyDrop::drop(&mut self.0);
-        }
     }
 }
 
@@ -540,6 +537,18 @@ impl<T: ?Sized> Drop for Arc<T> {
     }
 }
 
+impl<T: ?Sized> Drop for Weak<T> {
+    fn drop(&mut self) {
+        // See `Drop` of `Arc` on the orderings here.
+        if self.0.weak.fetch_sub(1, Release) == 1 {
+            core::sync::atomic::fence(Acquire);
+
+            // SAFETY: nothing refers to the ArcInner no more. The data is dropped already.
+            unsafe { ManuallyDrop::drop(&mut self.0) }
+        }
+    }
+}
+
 impl<'env, T: ?Sized + 'env> Envelop<'env> for Arc<T> {
     type Send = Arc<T>;
 
-- 
2.43.0


From 3a9d29c24b0267714a7a646ddefde7ad8cd3a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:02 +0000
Subject: [PATCH 31/41] fix: Arc::downgrade could spin forever if weak counter
 was changed by the other thread

---
 src/arc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index a1a8fae..319e998 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -260,8 +260,9 @@ impl<T: ?Sized> Arc<T> {
         let mut weak = this.inner().load_weak(Relaxed);
         loop {
             weak.sync_lock();
-            if weak.try_increment(Acquire).is_ok() {
-                return Weak(ManuallyDrop::new(unsafe { this.0.clone() }));
+            match weak.try_increment(Acquire) {
+                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
+                Err(val) => weak.val = val,
             }
         }
     }
-- 
2.43.0


From fdbf79125414e9b6162b66f85804d661f1f22484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:09 +0000
Subject: [PATCH 32/41] fix: Urc never dropped its data nor released memory,
 and moved the data out under other references

---
 src/urc.rs | 255 +++++++++++++++++++++++++----------------------------
 1 file changed, 122 insertions(+), 133 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index b8167ff..e8c80f0 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -10,7 +10,6 @@
 //! if it is referred to by more than one thread since one thread does not have any means to
 //! synchronize such data with each another.
 
-use crate::arc::AtomicCounter;
 use crate::marker::{MaybeDropped, Scoped, UnsafeFrom, UnsafeInto};
 use crate::scope::{AllocSelector, Envelope, ScopeRecv, Envelop};
 use crate::{AllocError, ScopePtr};
@@ -41,6 +40,17 @@ pub struct Fence<T: ?Sized> {
     master: ManuallyDrop<ScopePtr<Master<T>>>,
 }
 
+impl<T: ?Sized> Drop for Fence<T> {
+    fn drop(&mut self) {
+        let master = unsafe { self.master.clone() };
+        if self.is_strong() {
+            unsafe { Master::release_strong(master) }
+        } else {
+            unsafe { Master::release_weak(master) }
+        }
+    }
+}
+
 unsafe impl<T: ?Sized> Send for Fence<T> {}
 
 impl<T: ?Sized> Fence<T> {
@@ -109,6 +119,8 @@ struct Master<T: ?Sized> {
     strong_fence: AtomicUsize,
 
     /// Count of `Fence` that has no strong references but has at least one weak reference.
+    /// All strong fences together also count as one, which is released after the data is dropped.
+    /// So who releases the last weak fence also releases `Master`.
     weak_fence: AtomicUsize,
 
     /// Actual data to which the `Urc`s are referring to.
@@ -116,6 +128,40 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+impl<T: ?Sized> Master<T> {
+    /// Release the share of one strong fence.
+    ///
+    /// # Safety
+    /// The share is given up so neither data nor `Master` should be accessed by this fence.
+    unsafe fn release_strong(mut this: ScopePtr<Self>) {
+        if this.strong_fence.fetch_sub(1, Release) != 1 {
+            this.forget();
+            return;
+        }
+        trace!("Will drop the data as this was the only strong Fence");
+        core::sync::atomic::fence(Acquire);
+
+        // Destroy the data at this time, even though we must not free the box
+        // allocation itself (there might still be weak pointers lying around).
+        drop_in_place(MaybeDropped::as_mut(&mut this.data));
+        Self::release_weak(this);
+    }
+
+    /// Release the share of one weak fence.
+    ///
+    /// # Safety
+    /// The share is given up so `Master` should not be accessed by this fence.
+    unsafe fn release_weak(this: ScopePtr<Self>) {
+        if this.weak_fence.fetch_sub(1, Release) != 1 {
+            this.forget();
+            return;
+        }
+        trace!("Will drop Master as this was the only Fence");
+        core::sync::atomic::fence(Acquire);
+        drop(this);
+    }
+}
+
 pub struct Urc<T: ?Sized + 'static> {
     /// A fence of this Urc.
     fence: ManuallyDrop<ScopePtr<Fence<T>>>,
@@ -125,10 +171,7 @@ pub struct Urc<T: ?Sized + 'static> {
 }
 
 pub struct Weak<T: ?Sized + 'static> {
-    fence: Scoped<Fence<T>>,
-
-    /// Master reference shortcut to prevent multiple dereferences and speed up access.
-    master: Scoped<Master<T>>,
+    fence: ManuallyDrop<ScopePtr<Fence<T>>>,
 }
 
 impl<T: ?Sized> Urc<T> {
@@ -166,8 +209,7 @@ impl<T: ?Sized> Urc<T> {
         this.fence().inc_weak();
         unsafe {
             Weak {
-                fence: Scoped::unsafe_from(this.fence()),
-                master: Scoped::unsafe_from(this.master()),
+                fence: ManuallyDrop::new(this.fence.clone()),
             }
         }
     }
@@ -187,11 +229,6 @@ impl<T: ?Sized> Urc<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn fence_mut(&mut self) -> &mut Fence<T> {
-        &mut self.fence
-    }
-
     #[inline]
     pub fn try_into_fence(mut this: Self) -> Result<ScopePtr<Fence<T>>, Self> {
         if this.fence().strong_count() == 1 && this.fence().weak_count() == 0 {
@@ -216,23 +253,47 @@ impl<T> Urc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let master = Master {
+        Self::try_new_with(|| data)
+    }
+
+    /// Allocate all the memory and only then get the data to put there.
+    /// The function to get the data must not panic.
+    fn try_new_with(data: impl FnOnce() -> T) -> Result<Self, AllocError> {
+        // Place for the fence, nothing in it is dropped if the allocation of the master fails.
+        let fence = ScopePtr::alloc(MaybeUninit::<Fence<T>>::uninit(), AllocSelector::new::<T>())?;
+        let master = ScopePtr::alloc_with(AllocSelector::new::<Master<T>>(), || Master {
             strong_fence: 1.into(),
-            weak_fence: 0.into(),
-            data: data.into(),
-        };
-        let fence = Fence {
-            strong: 1.into(),
-            weak: 0.into(),
-            master: ManuallyDrop::new(ScopePtr::alloc(master, AllocSelector::new::<Master<T>>())?),
+            weak_fence: 1.into(),
+            data: data().into(),
+        })?;
+        let data = unsafe { Scoped::unsafe_from(&master.data).unsafe_into() };
+        let fence = unsafe {
+            let mut fence = fence;
+            fence.write(Fence {
+                strong: 1.into(),
+                weak: 0.into(),
+                master: ManuallyDrop::new(master),
+            });
+            fence.cast::<Fence<T>>()
         };
-        let data = unsafe { Scoped::unsafe_from(&fence.master.data).unsafe_into() };
-        let urc = Urc {
-            fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>())?),
+
+        Ok(Urc {
+            fence: ManuallyDrop::new(fence),
             data,
-        };
+        })
+    }
 
-        Ok(urc)
+    /// Turn the fence of the only `Urc` into a weak one after the data was moved out of it.
+    /// The fence takes over the weak fence count which was held by the strong fences.
+    ///
+    /// # Safety
+    /// Master should have no strong fences already and this `Urc` should be forgotten after this.
+    unsafe fn detach(&mut self) {
+        self.fence().strong.set(0);
+        // If nothing refers to the Fence no more then release it.
+        if self.fence().weak_count() == 0 {
+            ManuallyDrop::drop(&mut self.fence);
+        }
     }
 
     #[inline]
@@ -256,6 +317,11 @@ impl<T> Urc<T> {
     }
 
     pub fn try_unwrap(mut this: Self) -> Result<T, Self> {
+        if this.fence().strong_count() != 1 {
+            // Exactly one strong reference is required but several strong references exist.
+            return Err(this);
+        }
+
         if this
             .master()
             .strong_fence
@@ -267,26 +333,11 @@ impl<T> Urc<T> {
             return Err(this);
         }
 
-        if this.fence().strong_count() != 1 {
-            // Exactly one strong reference is required but several strong references exist.
-            return Err(this);
-        }
-
         unsafe {
             // Move out the data.
             let elem = ptr::read(MaybeDropped::as_ref(&this.master().data));
 
-            // If nothing refers to the Fence no more then release it.
-            if this.fence().weak_count() == 0 {
-                let master: &mut ManuallyDrop<ScopePtr<Master<T>>> =
-                    &mut *(&mut this.fence_mut().master as *mut _);
-                ManuallyDrop::drop(&mut this.fence);
-                // If nothing refers to the master no more then release it.
-                if master.weak_fence.load(Acquire) == 0 {
-                    ManuallyDrop::drop(&mut *master);
-                }
-            }
-
+            this.detach();
             // Prevent normal Drop execution - we already managed resources here.
             mem::forget(this);
 
@@ -309,59 +360,28 @@ impl<T> Urc<T> {
         // Move out the data to another completely new Master.
         macro_rules! move_out(
             () => {{
-                let data = unsafe { ptr::read(this.as_ref()) };
-                // Set strong to zero to indicate this Fence/Master
-                // does not own any data no more.
-                this.fence_mut().strong.set(0);
-                this.master_mut().strong_fence.store(0, Release);
-
-                *this = Self::new(data);
-                unsafe { Urc::get_mut_unchecked(this) }
+                let new = Self::try_new_with(|| unsafe { ptr::read(this.as_ref()) }).unwrap();
+                // This Fence/Master does not own any data no more.
+                this.master().strong_fence.store(0, Relaxed);
+                unsafe {
+                    this.detach();
+                    // The data was moved out so there is nothing to drop in the old Urc.
+                    ptr::write(this, new);
+                    Urc::get_mut_unchecked(this)
+                }
             }};
         );
 
         if this.master().strong_fence.load(Acquire) == 1 {
             // This is the only thread that has strong references.
 
-            if this.fence().weak_count() != 0 {
-                if this.master().weak_fence.load(Acquire) == 1 {
-                    // This is the only thread that has weak references.
-                    //
-                    // Since this is the only thread holding the data
-                    // (strong and weak fences == 1)
-                    // we are safe to proceed without synchronization.
-
-                    if this.fence().strong_count() == 1 {
-                        // Disassociate weak pointers from the data.
-                        move_out!()
-                    } else {
-                        clone!()
-                    }
-                } else {
-                    // This is _not_ the only thread that has weak references.
-                    // We need to keep synchronization for data access.
-
-                    // Move out the data to a new Urc.
-                    // Since this thread still holds some Weaks, we have no fear
-                    // the Master not the Fence will get deallocated by other thread
-                    // during this process.
-                    move_out!()
-                }
+            if this.fence().strong_count() != 1 {
+                clone!()
+            } else if this.is_unique() {
+                // This is the only reference at all so just use the data in place.
+                unsafe { Urc::get_mut_unchecked(this) }
             } else {
-                // The other thread still owns Weaks.
-                // Create a new Weak in this thread to prevent Master from deallocation
-                // during the data move here. It will also clean any resources at the end
-                // if needed by its Drop implementation.
-
-                let mut weak_fence = AtomicCounter::new(&this.master().weak_fence, Acquire);
-                weak_fence.increment(Release);
-                let _ = unsafe {
-                    Weak {
-                        fence: Scoped::unsafe_from(this.fence()),
-                        master: Scoped::unsafe_from(this.master()),
-                    }
-                };
-
+                // Disassociate weak pointers from the data.
                 move_out!()
             }
         } else {
@@ -397,21 +417,14 @@ impl<T> Urc<T> {
     fn is_unique(&self) -> bool {
         // See 'Arc' impl of the same function for more details.
 
-        if self
-            .master()
-            .weak_fence
-            .compare_exchange(0, usize::MAX, Acquire, Relaxed)
-            .is_ok()
-        {
-            let unique_fence = self.master().strong_fence.load(Acquire) == 1;
-            if unique_fence {
-                self.master().weak_fence.store(0, Release);
-                // Since there is only one Fence then only this thread owns the data
-                // so it is safe to proceed without synchronization.
-                self.fence().strong_count() == 1 && self.fence().weak_count() == 0
-            } else {
-                false
-            }
+        // Strong fences are created only by strong references. So if this is the only strong fence
+        // then nobody else can create a new one or turn it into a weak one, and there is no need
+        // to lock. The other fences that have become weak are visible after this load.
+        let unique_fence = self.master().strong_fence.load(Acquire) == 1;
+        if unique_fence && self.master().weak_fence.load(Acquire) == 1 {
+            // Since there is only one Fence then only this thread owns the data
+            // so it is safe to proceed without synchronization.
+            self.fence().strong_count() == 1 && self.fence().weak_count() == 0
         } else {
             false
         }
@@ -443,11 +456,6 @@ impl<T: ?Sized> Weak<T> {
         &self.fence
     }
 
-    #[inline(always)]
-    fn master(&self) -> &Master<T> {
-        &self.master
-    }
-
     #[inline(always)]
     fn fence_weak_count(&self) -> usize {
         self.fence().weak_count()
@@ -499,24 +507,14 @@ impl<T: ?Sized> Drop for Urc<T> {
         if Urc::fence_strong_count(self) == 1 && Urc::fence_weak_count(self) == 0 {
             // The fence is no more referenced so drop it.
             trace!("Will drop Fence as it is the only Urc for it");
-            let master = unsafe { &mut *(self.master_mut() as *mut Master<T>) };
             unsafe { ManuallyDrop::drop(&mut self.fence) };
-
-            if master.strong_fence.fetch_sub(1, Release) == 1 {
-                trace!("Will drop Master as this also was the only Fence");
-                core::sync::atomic::fence(Acquire);
-
-                // Destroy the data at this time, even though we must not free the box
-                // allocation itself (there might still be weak pointers lying around).
-                unsafe { drop_in_place(&mut master.data) };
-
-                // Release the Master if Weaks are not alive.
-                if master.weak_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master) };
-                }
-            }
+        } else if Urc::fence_strong_count(self) == 1 {
+            // There are only weak references left, so this Fence becomes a weak one.
+            self.fence().dec_strong();
+            self.master().weak_fence.fetch_add(1, Relaxed);
+            unsafe { Master::release_strong(self.fence.master.clone()) }
         } else {
-            // There are still either other strong or some weak references.
+            // There are still other strong references.
             // Just decrement the counter and keep the Fence.
             self.fence().dec_strong()
         }
@@ -527,16 +525,7 @@ impl<T: ?Sized> Drop for Weak<T> {
     fn drop(&mut self) {
         if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
             // The fence is no more referenced so drop it.
-            let master = self.master();
-            unsafe { drop_in_place(self.fence() as *const _ as *mut Fence<T>) };
-
-            if master.weak_fence.fetch_sub(1, Release) == 1 {
-                core::sync::atomic::fence(Acquire);
-                // Release the Master if Strongs are not alive.
-                if master.strong_fence.load(Acquire) == 0 {
-                    unsafe { drop_in_place(master as *const _ as *mut Master<T>) };
-                }
-            }
+            unsafe { ManuallyDrop::drop(&mut self.fence) };
         } else {
             // There are still either some strong or other weak references.
             // Just decrement the counter and keep the Fence.
-- 
2.43.0


From 814f0d7f1e58c0e257381a82d17ea72d2fb4de86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 33/41] fix: spawned scope was set as current by its contents
 instead of its reference

---
 src/scope.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 5c76e34..70efab1 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -1,6 +1,6 @@
 use crate::marker::{impose_lifetime_mut, ScopedMut, UnsafeInto};
 use core::alloc::GlobalAlloc;
-use core::mem::transmute_copy;
+use core::mem::{transmute, transmute_copy};
 use std::any::type_name;
 use std::hash::Hash;
 use std::marker::PhantomData;
@@ -138,7 +138,8 @@ impl Env {
             let prev: &mut dyn Scope = impose_lifetime_mut(self.cur.as_mut());
             let mut new_scope = scope_init(&*prev);
             // SAFETY: new scope will survive scope execution by definition.
-            self.cur = ScopedMut::unsafe_from(transmute_copy::<_, &mut dyn Scope>(&new_scope));
+            let cur: &mut dyn Scope = &mut new_scope;
+            self.cur = ScopedMut::unsafe_from(transmute::<_, &mut (dyn Scope + 'static)>(cur));
 
             let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
-- 
2.43.0


From 86479313906d25b8b8d92a2a1114631c4573dbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 34/41] fix: previous scope was not restored if the function
 unwinds

---
 src/scope.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 70efab1..6b4bfb7 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -141,11 +141,13 @@ impl Env {
             let cur: &mut dyn Scope = &mut new_scope;
             self.cur = ScopedMut::unsafe_from(transmute::<_, &mut (dyn Scope + 'static)>(cur));
 
-            let t = f(&mut new_scope);
             // SAFETY: we will give up execution to previous scope so restore previous
             // scope's lifetime by unsafe_into.
-            self.cur = prev.unsafe_into();
-            t
+            let _restore = RestoreScope {
+                cur: &mut self.cur,
+                prev: Some(prev.unsafe_into()),
+            };
+            f(&mut new_scope)
         }
     }
 
@@ -159,6 +161,20 @@ impl Env {
     }
 }
 
+/// Makes the previous scope current again when dropped, on unwinding too.
+struct RestoreScope<'a> {
+    cur: &'a mut ScopedMut<dyn Scope>,
+    prev: Option<ScopedMut<dyn Scope>>,
+}
+
+impl Drop for RestoreScope<'_> {
+    fn drop(&mut self) {
+        if let Some(prev) = self.prev.take() {
+            *self.cur = prev;
+        }
+    }
+}
+
 #[inline]
 fn env() -> &'static Env {
     unsafe { ENV.unwrap()() }
-- 
2.43.0


From 7e619c1a768478e9a68d6c6a0f6bf1649e71a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 35/41] fix: extending an unallocated String with Strings
 replaced its marker

---
 src/string.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/string.rs b/src/string.rs
index 14cf0d3..c568e92 100644
--- a/src/string.rs
+++ b/src/string.rs
@@ -502,10 +502,14 @@ impl Extend<String> for String {
     fn extend<T: IntoIterator<Item = String>>(&mut self, iter: T) {
         let mut iter = iter.into_iter();
 
-        // Use already allocated String if current one is not.
+        // Use already allocated String if current one is not. Marker must be kept.
         if self.capacity() == 0 {
             if let Some(s) = iter.next() {
-                self.vec = s.vec;
+                if s.vec.marker() == self.vec.marker() {
+                    self.vec = s.vec;
+                } else {
+                    self.push_str(&s);
+                }
             }
         }
 
-- 
2.43.0


From cbf1dab75c1788699bb87a93067f8dc08338bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 36/41] fix: Urc asked for the allocator of a private type to
 hold its data

---
 src/urc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urc.rs b/src/urc.rs
index e8c80f0..8c31e66 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -261,7 +261,7 @@ impl<T> Urc<T> {
     fn try_new_with(data: impl FnOnce() -> T) -> Result<Self, AllocError> {
         // Place for the fence, nothing in it is dropped if the allocation of the master fails.
         let fence = ScopePtr::alloc(MaybeUninit::<Fence<T>>::uninit(), AllocSelector::new::<T>())?;
-        let master = ScopePtr::alloc_with(AllocSelector::new::<Master<T>>(), || Master {
+        let master = ScopePtr::alloc_with(AllocSelector::new::<T>(), || Master {
             strong_fence: 1.into(),
             weak_fence: 1.into(),
             data: data().into(),
-- 
2.43.0


From 5ee3fb15903ef04eefc45d824d67386c407f378b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 37/41] fix: value given to Rc and Arc was leaked if the
 allocation failed

---
 src/arc.rs | 10 ++++------
 src/rc.rs  |  9 ++++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/arc.rs b/src/arc.rs
index 319e998..efd3df9 100644
--- a/src/arc.rs
+++ b/src/arc.rs
@@ -140,15 +140,13 @@ impl<T: 'static> Arc<T> {
 
     #[inline]
     pub fn try_new(data: T) -> Result<Self, AllocError> {
-        let inner = ArcInner {
+        // ArcInner does not drop the data, so move it there only after the memory is allocated.
+        let inner = ScopePtr::alloc_with(AllocSelector::new::<T>(), || ArcInner {
             strong: AtomicUsize::new(1),
             weak: AtomicUsize::new(1),
             data: data.into(),
-        };
-        Ok(Arc(ManuallyDrop::new(ScopePtr::alloc(
-            inner,
-            AllocSelector::new::<T>(),
-        )?)))
+        })?;
+        Ok(Arc(ManuallyDrop::new(inner)))
     }
 
     #[inline]
diff --git a/src/rc.rs b/src/rc.rs
index 1742ac3..0250f6e 100644
--- a/src/rc.rs
+++ b/src/rc.rs
@@ -108,14 +108,13 @@ impl<T: ?Sized> Rc<T> {
 
 impl<T: 'static> Rc<T> {
     pub fn new(val: T) -> Self {
-        let b = RcBox {
+        // RcBox does not drop the value, so move it there only after the memory is allocated.
+        let b = ScopePtr::alloc_with(AllocSelector::new::<T>(), || RcBox {
             strong: Cell::new(1),
             weak: Cell::new(0),
             val: val.into(),
-        };
-        Rc(ManuallyDrop::new(
-            ScopePtr::alloc(b, AllocSelector::new::<T>()).unwrap(),
-        ))
+        });
+        Rc(ManuallyDrop::new(b.unwrap()))
     }
 
     pub fn try_unwrap(mut this: Rc<T>) -> Result<T, Self> {
-- 
2.43.0


From 47e7bd4b9181c9acc2d6bce2cf660d767e549d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:15 +0000
Subject: [PATCH 38/41] fix: Urc released its memory from under weak handles if
 the destructor of the value panicked

---
 src/urc.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/urc.rs b/src/urc.rs
index 8c31e66..26e7a30 100644
--- a/src/urc.rs
+++ b/src/urc.rs
@@ -128,12 +128,22 @@ struct Master<T: ?Sized> {
     data: MaybeDropped<T>,
 }
 
+/// Releases the share of one weak fence when dropped.
+struct ReleaseWeak<T: ?Sized>(ManuallyDrop<ScopePtr<Master<T>>>);
+
+impl<T: ?Sized> Drop for ReleaseWeak<T> {
+    fn drop(&mut self) {
+        // SAFETY: the share is given up by the owner of this guard.
+        unsafe { Master::release_weak(ManuallyDrop::take(&mut self.0)) }
+    }
+}
+
 impl<T: ?Sized> Master<T> {
     /// Release the share of one strong fence.
     ///
     /// # Safety
     /// The share is given up so neither data nor `Master` should be accessed by this fence.
-    unsafe fn release_strong(mut this: ScopePtr<Self>) {
+    unsafe fn release_strong(this: ScopePtr<Self>) {
         if this.strong_fence.fetch_sub(1, Release) != 1 {
             this.forget();
             return;
@@ -143,8 +153,9 @@ impl<T: ?Sized> Master<T> {
 
         // Destroy the data at this time, even though we must not free the box
         // allocation itself (there might still be weak pointers lying around).
-        drop_in_place(MaybeDropped::as_mut(&mut this.data));
-        Self::release_weak(this);
+        // It is only the guard who releases it, also if the destructor of the data panics.
+        let mut this = ReleaseWeak(ManuallyDrop::new(this));
+        drop_in_place(MaybeDropped::as_mut(&mut this.0.data));
     }
 
     /// Release the share of one weak fence.
-- 
2.43.0


From e7e49db6ea64dab94d91996dd14f5cbdbcbc8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:31 +0000
Subject: [PATCH 39/41] fix: markers and selectors of the same type could
 differ depending on where they were made

---
 src/scope.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 6b4bfb7..17c9e3f 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -27,8 +27,8 @@ pub enum AllocMarker {
     // Note that earlier versions of this crate used `TypeId` directly as a marker. This was
     // changed because TypeId required types to not have any references to the local
     // values which limits usability. Though not sure how reliable this is.
-    // The strings themselves are not compared, but instead the address that they point to,
-    // as this is faster.
+    // The strings themselves are compared and not the addresses that they point to, as the name
+    // of the same type may have several addresses in different codegen units.
     Type(&'static str),
 }
 
@@ -36,7 +36,7 @@ impl PartialEq for AllocMarker {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
             (AllocMarker::None, AllocMarker::None) => true,
-            (AllocMarker::Type(a), AllocMarker::Type(b)) => a.as_ptr() == b.as_ptr(),
+            (AllocMarker::Type(a), AllocMarker::Type(b)) => a == b,
             _ => false,
         }
     }
@@ -46,7 +46,7 @@ impl Hash for AllocMarker {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         match self {
             AllocMarker::None => {}
-            AllocMarker::Type(ty) => ty.as_ptr().hash(state),
+            AllocMarker::Type(ty) => ty.hash(state),
         }
     }
 }
@@ -69,14 +69,14 @@ pub struct AllocSelector {
 
 impl PartialEq for AllocSelector {
     fn eq(&self, other: &Self) -> bool {
-        self.marker == other.marker && self.ty.as_ptr() == other.ty.as_ptr()
+        self.marker == other.marker && self.ty == other.ty
     }
 }
 
 impl Hash for AllocSelector {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
         self.marker.hash(state);
-        self.ty.as_ptr().hash(state);
+        self.ty.hash(state);
     }
 }
 
-- 
2.43.0


From 2d9cd4d8ebaf550068d65eb1b50e6a59e3297b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:26 +0000
Subject: [PATCH 40/41] Let a verification build replace core and std (cfg
 lokky_verif)

---
 src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index be0678e..45580f9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,8 +1,16 @@
 #![no_std]
+#![allow(unexpected_cfgs)]
 
-#[cfg(not(feature = "no_std"))]
+#[cfg(all(not(feature = "no_std"), not(lokky_verif)))]
 extern crate std;
 
+// The verification build puts a crate in place of both `core` and `std` which re-exports them except
+// for atomics and cells, these are replaced with the instrumented ones.
+#[cfg(lokky_verif)]
+extern crate lokky_verif_shim as core;
+#[cfg(lokky_verif)]
+extern crate lokky_verif_shim as std;
+
 mod test_log;
 
 mod ptr;
-- 
2.43.0


From e7f57040af770550bd5682af70acd73800891bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:34 +0000
Subject: [PATCH 41/41] fix: Env was taken for exclusively referenced while the
 spawned function uses it

spawn keeps its exclusive reference to the environment for the time of the call, and the
spawned function reads the same environment through ENV. An optimized build could leave out
setting the new scope if it saw that the function always unwinds.
---
 src/scope.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scope.rs b/src/scope.rs
index 17c9e3f..d338f79 100644
--- a/src/scope.rs
+++ b/src/scope.rs
@@ -3,7 +3,7 @@ use core::alloc::GlobalAlloc;
 use core::mem::{transmute, transmute_copy};
 use std::any::type_name;
 use std::hash::Hash;
-use std::marker::PhantomData;
+use std::marker::{PhantomData, PhantomPinned};
 
 /// Function to resolve Env for current application. It should be initialized before using
 /// scopes and types that rely on scope information.
@@ -12,6 +12,10 @@ pub static mut ENV: Option<fn() -> &'static mut Env> = None;
 /// Environment of scopes. Provides types information about current variables and allocators.
 pub struct Env {
     cur: ScopedMut<dyn Scope>,
+
+    // The function that runs in the spawned scope gets to this environment through `ENV` too, so
+    // the reference `spawn` was called with is not exclusive and must not be treated as such.
+    _shared: PhantomPinned,
 }
 
 /// Allocator Marker provides information to indicate which allocator to select for given
@@ -120,6 +124,7 @@ impl Env {
     pub fn new(scope: &mut (dyn Scope + 'static)) -> Self {
         Env {
             cur: unsafe { scope.unsafe_into() },
+            _shared: PhantomPinned,
         }
     }
 
@@ -144,7 +149,7 @@ impl Env {
             // SAFETY: we will give up execution to previous scope so restore previous
             // scope's lifetime by unsafe_into.
             let _restore = RestoreScope {
-                cur: &mut self.cur,
+                env: self,
                 prev: Some(prev.unsafe_into()),
             };
             f(&mut new_scope)
@@ -163,14 +168,14 @@ impl Env {
 
 /// Makes the previous scope current again when dropped, on unwinding too.
 struct RestoreScope<'a> {
-    cur: &'a mut ScopedMut<dyn Scope>,
+    env: &'a mut Env,
     prev: Option<ScopedMut<dyn Scope>>,
 }
 
 impl Drop for RestoreScope<'_> {
     fn drop(&mut self) {
         if let Some(prev) = self.prev.take() {
-            *self.cur = prev;
+            self.env.cur = prev;
         }
     }
 }
-- 
2.43.0


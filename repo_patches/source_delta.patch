From 5a6edb49d158adf675973d44039f1bb27114f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 01/15] fix: exit-stack: keep dropping pinned values after one
 destructor panics

The unwind flag had given up its chain while a destructor was running, so a
panic in it left all values pinned earlier undropped although their memory is
reused.
---
 exit-stack/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index 63de5c3..ecf57d1 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -205,9 +205,10 @@ impl<Mem> ExitStack<Mem> {
         while let Some(exit_handle) = flag.chain.take() {
             // SAFETY: we only store pointers to the same stack here, which is still valid.
             let slot = unsafe { &mut *exit_handle.as_ptr() };
+            // Hand the remaining chain to the flag first, it takes over if this drop panics.
+            flag.chain = slot.link;
             // This is also uniquely dropped as it was owned by `flag.chain` before.
             unsafe { core::ptr::drop_in_place(&mut slot.value) };
-            flag.chain = slot.link;
         }
 
         // No more values are present, feel free to move anything.
-- 
2.43.0


From 5d669192e1ba22ae695f4a9d7fc104b41be9fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 02/15] fix: exit-stack: ExitStack must not be Unpin

It stores the pinned values inline. Being Unpin allowed safe code to move the
stack, and thus the values pinned in it, after pinning.
---
 exit-stack/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exit-stack/src/lib.rs b/exit-stack/src/lib.rs
index ecf57d1..174cc5d 100644
--- a/exit-stack/src/lib.rs
+++ b/exit-stack/src/lib.rs
@@ -46,6 +46,7 @@
 //! ```
 #![no_std]
 use core::cell::Cell;
+use core::marker::PhantomPinned;
 use core::mem::MaybeUninit;
 use core::pin::Pin;
 use core::ptr::NonNull;
@@ -64,6 +65,8 @@ pub struct ExitStack<Mem> {
     memory: Bump<PinSlot<Mem>>,
     /// The exit handler to the last filled slot of the exit stack.
     top: Cell<Option<ExitHandle>>,
+    /// Values are pinned within `memory`, so we must never move after having been pinned.
+    _pinned: PhantomPinned,
 }
 
 type ExitHandle = NonNull<PinSlot<dyn Drop>>;
@@ -99,6 +102,7 @@ impl<Mem> ExitStack<Mem> {
         ExitStack {
             memory: Bump::uninit(),
             top: Cell::new(None),
+            _pinned: PhantomPinned,
         }
     }
 
-- 
2.43.0


From 4c718a72a9e5d185a672a17098650a5b76cad2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 03/15] fix: without-alloc: split uninit memory at byte offsets

UninitView::split_at_byte advanced the pointer in units of T: not at all for
T=(), making the tail alias the head, and past the end for larger types.
split_layout could for the same reason never skip to an aligned address.
---
 without-alloc/src/uninit.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 1b01549..680140e 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -559,7 +559,8 @@ impl UninitView<'_, ()> {
     ///
     /// [`Uninit::split_layout`]: ./struct.Uninit.html#method.split_layout
     pub fn split_layout(&mut self, layout: Layout) -> Option<Self> {
-        let align = self.ptr.as_ptr()
+        // Determine the offset in bytes, for pointers to ZSTs no other offset would be available.
+        let align = (self.ptr.as_ptr() as *mut u8)
             .align_offset(layout.align());
         let aligned_len = self.len
             .checked_sub(align)
@@ -626,7 +627,8 @@ impl<'a, T> UninitView<'a, T> {
             return None;
         }
 
-        let base = self.ptr.as_ptr();
+        // Offset in bytes, not in units of `T`.
+        let base = self.ptr.as_ptr() as *mut u8;
         // SAFETY: by `from_memory`, all offsets `< len` are within the allocation.
         // In particular, no pointer within or one-past-the-end is null.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(at)) };
-- 
2.43.0


From d0eca73a593103f0d4fbf0cb6f03cadf5e6d35eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 04/15] fix: without-alloc: shorten the slice pointer when
 splitting an Uninit<[T]>

Otherwise the head's pointer, and references derived from it, still cover the
memory of the tail.
---
 without-alloc/src/uninit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/without-alloc/src/uninit.rs b/without-alloc/src/uninit.rs
index 680140e..69b7cd6 100644
--- a/without-alloc/src/uninit.rs
+++ b/without-alloc/src/uninit.rs
@@ -832,6 +832,9 @@ impl<'a, T> UninitView<'a, [T]> {
         self.len = bytes;
 
         let base = self.ptr.as_ptr() as *mut u8;
+        // The slice pointer must not cover the part that was split off.
+        let head = ptr::slice_from_raw_parts_mut(base as *mut T, at);
+        self.ptr = ptr::NonNull::new(head).unwrap();
         // SAFETY: was previously in bounds.
         let next_base = unsafe { ptr::NonNull::new_unchecked(base.add(bytes)) };
 
-- 
2.43.0


From 5a9e0c23b466129501bcc7cf824f3e4d22db9b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 05/15] fix: without-alloc: Rc keeps its weak reference while
 dropping the value

A value owning a Weak to itself could otherwise take the memory in its own
destructor, that is while it is still alive within it.
---
 without-alloc/src/rc.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/without-alloc/src/rc.rs b/without-alloc/src/rc.rs
index a64887a..2b63024 100644
--- a/without-alloc/src/rc.rs
+++ b/without-alloc/src/rc.rs
@@ -340,11 +340,6 @@ impl<T> Rc<'_, T> {
         let val = Self::weak_count(self) + 1;
         self.inner().weak.set(val);
     }
-
-    fn dec_weak(&self) {
-        let val = Self::weak_count(self) - 1;
-        self.inner().weak.set(val);
-    }
 }
 
 impl<'a, T> Weak<'a, T> {
@@ -521,7 +516,9 @@ impl<T> Drop for Rc<'_, T> {
         self.dec_strong();
         // weak count doesn't actually do anything.
         if Rc::strong_count(self) == 0 {
-            self.dec_weak();
+            // All strong references together hold one weak reference. It must only be given up,
+            // by dropping this, after the value has been dropped as the memory is ours until then.
+            let _weak = Weak { inner: self.inner };
 
             unsafe {
                 ptr::drop_in_place(self.as_mut_ptr())
-- 
2.43.0


From 2663ef2b1ee6e8394d58af53649a6c70bc4d134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 06/15] fix: without-alloc: copy_slice returns as many elements
 as it copied

It returned as many as fit the memory: none at all for zero-sized elements, and
uninitialized ones if the allocator provided more memory than requested.
---
 without-alloc/src/alloc.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8187a86..8c18f81 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -155,8 +155,9 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
         }
 
         Some(unsafe {
-            // SAFETY: this is a copy of `slice` which is initialized.
-            uninit.into_mut()
+            // SAFETY: this is a copy of `slice` which is initialized. The memory itself might be
+            // larger, or without any length of its own if the slice is zero-sized.
+            core::slice::from_raw_parts_mut(uninit.as_begin_ptr(), slice.len())
         })
     }
 
-- 
2.43.0


From bf0859404b367b49cc7aa5a124efb8e47c348611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 07/15] fix: without-alloc: align the pointer of an empty value
 in copy_dst

A zero-sized value with an alignment larger than one was returned as a
misaligned reference.
---
 without-alloc/src/alloc.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/without-alloc/src/alloc.rs b/without-alloc/src/alloc.rs
index 8c18f81..ce76893 100644
--- a/without-alloc/src/alloc.rs
+++ b/without-alloc/src/alloc.rs
@@ -225,7 +225,10 @@ pub trait LocalAllocLeakExt<'alloc>: LocalAlloc<'alloc> {
     unsafe fn copy_dst<T: ?Sized>(&'alloc self, val: &core::mem::ManuallyDrop<T>) -> Option<&'alloc mut T> {
         let layout = alloc::Layout::for_value(val);
         let uninit = match NonZeroLayout::from_layout(layout.into()) {
-            None => Uninit::invent_for_zst(),
+            // The dangling pointer for an empty value must have its alignment, too.
+            None => unsafe {
+                Uninit::from_memory(core::ptr::NonNull::new_unchecked(layout.align() as *mut u8), 0)
+            },
             Some(layout) => self.alloc_layout(layout)?.uninit,
         };
 
-- 
2.43.0


From 5077c0c8b6113ed43092392ef0ffb9704918fa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:03 +0000
Subject: [PATCH 08/15] fix: static-alloc: initialize the level of a heap
 allocated MemBump

The memory returned by the global allocator is not initialized.
---
 static-alloc/src/unsync/bump.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 0bd0def..bc4e405 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -128,6 +128,8 @@ impl MemBump {
         let layout = Self::layout_from_size(capacity).expect("Bad layout");
         let ptr = NonNull::new(unsafe { alloc::alloc::alloc(layout) })
             .unwrap_or_else(|| alloc::alloc::handle_alloc_error(layout));
+        // Only the index needs to be initialized, at the start of the header.
+        unsafe { ptr.cast::<Cell<usize>>().as_ptr().write(Cell::new(0)) };
         let ptr = ptr::slice_from_raw_parts_mut(ptr.as_ptr(), capacity);
         unsafe { alloc::boxed::Box::from_raw(ptr as *mut MemBump) }
     }
-- 
2.43.0


From 9305b6906c13edfd0835436fa49c827715df2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 09/15] fix: fill: do not pull more items than the container of
 a Result can take

Each item was pulled first and then offered to the container. When that was full
then all further items were dropped, never returning for an infinite iterator.
---
 fill/src/fill.rs | 41 ++++++++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/fill/src/fill.rs b/fill/src/fill.rs
index fe69adb..ec4b166 100644
--- a/fill/src/fill.rs
+++ b/fill/src/fill.rs
@@ -172,24 +172,43 @@ impl<C, E, T> Fill<Result<T, E>> for Result<C, E>
     fn fill<I>(&mut self, iter: I)
         where I: IntoIterator<Item=Result<T, E>>
     {
-        let mut iter = iter.into_iter();
+        /// Yields the items of `iter` until its first error, or its end.
+        struct UntilErr<'a, I, E> {
+            iter: Option<I>,
+            error: &'a mut Option<E>,
+        }
+
+        impl<I, T, E> Iterator for UntilErr<'_, I, E>
+            where I: Iterator<Item=Result<T, E>>
+        {
+            type Item = T;
+            fn next(&mut self) -> Option<T> {
+                match self.iter.as_mut()?.next() {
+                    Some(Ok(ok)) => return Some(ok),
+                    Some(Err(err)) => *self.error = Some(err),
+                    None => {},
+                }
+
+                self.iter = None;
+                None
+            }
+        }
 
         let container = match self {
             Ok(container) => container,
             Err(_) => return,
         };
 
-        let err = loop {
-            match iter.next() {
-                None => return,
-                Some(Err(err)) => break err,
-                Some(Ok(ok)) => {
-                    container.fill(core::iter::once(ok));
-                },
-            };
-        };
+        // Leave to the container how many items are taken from the iterator.
+        let mut error = None;
+        container.fill(UntilErr {
+            iter: Some(iter.into_iter()),
+            error: &mut error,
+        });
 
-        *self = Err(err);
+        if let Some(err) = error {
+            *self = Err(err);
+        }
     }
 }
 
-- 
2.43.0


From 18d405b6d117773fc394180440f055089c0ddd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 10/15] fix: static-alloc: zero-sized values and arrays in the
 unsync MemBump

They hit the assertion for non-empty layouts, also from Alloca::run, while the
synchronized Bump supports them.
---
 static-alloc/src/unsync/bump.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index bc4e405..28fae57 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -320,6 +320,10 @@ impl MemBump {
     ///
     /// FIXME(breaking): this could well be a `Result<_, Failure>`.
     pub fn get<V>(&self) -> Option<Allocation<V>> {
+        if mem::size_of::<V>() == 0 {
+            return Some(Allocation::for_zst(self.level()));
+        }
+
         let alloc = self.try_alloc(Layout::new::<V>())?;
         Some(Allocation {
             lifetime: alloc.lifetime,
@@ -335,6 +339,14 @@ impl MemBump {
     ///
     /// [`get`]: #method.get
     pub fn get_at<V>(&self, level: Level) -> Result<Allocation<V>, Failure> {
+        if mem::size_of::<V>() == 0 {
+            let observed = self.level();
+            if observed != level {
+                return Err(Failure::Mismatch { observed });
+            }
+            return Ok(Allocation::for_zst(observed));
+        }
+
         let alloc = self.try_alloc_at(Layout::new::<V>(), level.0)?;
         Ok(Allocation {
             lifetime: alloc.lifetime,
@@ -458,7 +470,11 @@ impl MemBump {
         n: usize,
     ) -> Result<LeakBox<'bump, [MaybeUninit<T>]>, Failure> {
         let layout = Layout::array::<T>(n).map_err(|_| Failure::Exhausted)?;
-        let raw = self.alloc(layout).ok_or(Failure::Exhausted)?;
+        let raw = match layout.size() {
+            // No memory is required for it.
+            0 => NonNull::<T>::dangling().cast(),
+            _ => self.alloc(layout).ok_or(Failure::Exhausted)?,
+        };
         let slice = ptr::slice_from_raw_parts_mut(raw.cast().as_ptr(), n);
         let uninit = unsafe { &mut *slice };
         Ok(uninit.into())
-- 
2.43.0


From e8cf34d4400d5b71e1ebcaa6efd5e81991b2d907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:26 +0000
Subject: [PATCH 11/15] fix: static-alloc: Alloca::new rejects a length of
 usize::MAX

Accounting for padding overflowed, accepting the length in release builds.
---
 static-alloc/src/leaked.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-alloc/src/leaked.rs b/static-alloc/src/leaked.rs
index 91ded7a..d492c36 100644
--- a/static-alloc/src/leaked.rs
+++ b/static-alloc/src/leaked.rs
@@ -30,7 +30,7 @@ impl<T> Alloca<T> {
     pub fn new(len: usize) -> Option<Self> {
         // Check that it's okay to create the padded layout. This is pure so it will again work
         // when we try during `run`.
-        let _padded_layout = Layout::array::<T>(len + 1).ok()?;
+        let _padded_layout = Layout::array::<T>(len.checked_add(1)?).ok()?;
         Some(Alloca {
             marker: PhantomData,
             len,
-- 
2.43.0


From 741bee7b39c352f65833b8dda54f077990729e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:06 +0000
Subject: [PATCH 12/15] fix: static-alloc: unsync Bump of types with a larger
 alignment than its header

The padding in front of the data was not considered when viewing it as a
MemBump: a debug assertion failed, or not even one such value could be
allocated which ExitStack::set relies on.
---
 static-alloc/src/unsync/bump.rs | 43 +++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 28fae57..be93300 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -64,10 +64,18 @@ use crate::leaked::LeakBox;
 /// ```
 #[repr(C)]
 pub struct Bump<T> {
+    /// A single cell since the data of the `MemBump` starts right behind its index, which includes
+    /// the padding here if `T` has a larger alignment.
+    _inner: UnsafeCell<MaybeUninit<Inner<T>>>,
+}
+
+/// The initial layout of a `Bump`.
+#[repr(C)]
+struct Inner<T> {
     /// The index used in allocation.
     _index: Cell<usize>,
     /// The backing storage for raw allocated data.
-    _data: UnsafeCell<MaybeUninit<T>>,
+    _data: MaybeUninit<T>,
     // Warning: when changing the data layout, you must change `MemBump` as well.
 }
 
@@ -105,8 +113,10 @@ impl<T> Bump<T> {
     /// All allocations coming from the allocator will need to be initialized manually.
     pub fn uninit() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::uninit()),
+            _inner: UnsafeCell::new(MaybeUninit::new(Inner {
+                _index: Cell::new(0),
+                _data: MaybeUninit::uninit(),
+            })),
         }
     }
 
@@ -115,10 +125,19 @@ impl<T> Bump<T> {
     /// The caller can rely on all allocations to be zeroed.
     pub fn zeroed() -> Self {
         Bump {
-            _index: Cell::new(0),
-            _data: UnsafeCell::new(MaybeUninit::zeroed()),
+            // An index of zero is also the initial one.
+            _inner: UnsafeCell::new(MaybeUninit::zeroed()),
         }
     }
+
+    /// The size of the data slice when viewed as a `MemBump`.
+    ///
+    /// This is the size of `T` itself, plus padding between the header and an overaligned `T`.
+    fn mem_bump_size() -> usize {
+        let header = mem::size_of::<Cell<usize>>();
+        let padding = mem::align_of::<T>().saturating_sub(header);
+        padding + mem::size_of::<T>()
+    }
 }
 
 #[cfg(feature = "alloc")]
@@ -582,30 +601,28 @@ impl MemBump {
 impl<T> ops::Deref for Bump<T> {
     type Target = MemBump;
     fn deref(&self) -> &MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *const Self as *const MaybeUninit<u8>;
-        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, data_layout.size());
+        let mem: *const [MaybeUninit<u8>] = ptr::slice_from_raw_parts(ptr, Self::mem_bump_size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &*(mem as *const MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
 
 impl<T> ops::DerefMut for Bump<T> {
     fn deref_mut(&mut self) -> &mut MemBump {
-        let from_layout = Layout::for_value(self);
-        let data_layout = Layout::new::<MaybeUninit<T>>();
+        let from_size = mem::size_of_val(self);
         // Construct a point with the meta data of a slice to `data`, but pointing to the whole
         // struct instead. This meta data is later copied to the meta data of `bump` when cast.
         let ptr = self as *mut Self as *mut MaybeUninit<u8>;
-        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, data_layout.size());
+        let mem: *mut [MaybeUninit<u8>] = ptr::slice_from_raw_parts_mut(ptr, Self::mem_bump_size());
         // Now we have a pointer to MemBump with length meta data of the data slice.
         let bump = unsafe { &mut *(mem as *mut MemBump) };
-        debug_assert_eq!(from_layout, Layout::for_value(bump));
+        debug_assert_eq!(from_size, mem::size_of_val(bump));
         bump
     }
 }
-- 
2.43.0


From 208e888991c0b45bb0146fbded825d7c0fcd6e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 13/15] fix: static-alloc: MemBump::get_unchecked skips the
 padding in front of the allocation

---
 static-alloc/src/unsync/bump.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index be93300..3fe5ae6 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -426,7 +426,9 @@ impl MemBump {
         debug_assert!(level.0 < self.capacity());
         let ptr = self.data_ptr().as_ptr();
         // Safety: guaranteed by the caller.
-        let alloc = ptr.offset(level.0 as isize) as *mut V;
+        let alloc = ptr.offset(level.0 as isize);
+        // The allocation itself begins after the padding that was required at its level.
+        let alloc = alloc.wrapping_add(alloc.align_offset(mem::align_of::<V>())) as *mut V;
 
         Allocation {
             level,
-- 
2.43.0


From d6d7a781c7b3b4ac9ca41304f6659c3e758d3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:14 +0000
Subject: [PATCH 14/15] fix: static-alloc: reacquire zero-sized values of a
 full MemBump

---
 static-alloc/src/unsync/bump.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/static-alloc/src/unsync/bump.rs b/static-alloc/src/unsync/bump.rs
index 3fe5ae6..0ad88f4 100644
--- a/static-alloc/src/unsync/bump.rs
+++ b/static-alloc/src/unsync/bump.rs
@@ -423,7 +423,8 @@ impl MemBump {
     /// # Ok::<_, static_alloc::bump::Failure>(())
     /// ```
     pub unsafe fn get_unchecked<V>(&self, level: Level) -> Allocation<V> {
-        debug_assert!(level.0 < self.capacity());
+        // A zero-sized allocation may also be at the very end.
+        debug_assert!(level.0 <= self.capacity());
         let ptr = self.data_ptr().as_ptr();
         // Safety: guaranteed by the caller.
         let alloc = ptr.offset(level.0 as isize);
-- 
2.43.0


From f5391f9ff2e118bc1b40d29696b8c6fbd253b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:06 +0000
Subject: [PATCH 15/15] fix: FixedVec::drain panics if a bound of the range
 overflows

In builds without overflow checks the range 0..=usize::MAX drained no elements, and a range that starts
after usize::MAX drained them all.
---
 without-alloc/src/fixed_vec.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/without-alloc/src/fixed_vec.rs b/without-alloc/src/fixed_vec.rs
index 13349c4..dfdbd34 100644
--- a/without-alloc/src/fixed_vec.rs
+++ b/without-alloc/src/fixed_vec.rs
@@ -372,11 +372,11 @@ impl<T> FixedVec<'_, T> {
         let len = self.len();
         let start = match range.start_bound() {
             ops::Bound::Included(&n) => n,
-            ops::Bound::Excluded(&n) => n + 1,
+            ops::Bound::Excluded(&n) => n.checked_add(1).expect("start of range overflows"),
             ops::Bound::Unbounded    => 0,
         };
         let end = match range.end_bound() {
-            ops::Bound::Included(&n) => n + 1,
+            ops::Bound::Included(&n) => n.checked_add(1).expect("end of range overflows"),
             ops::Bound::Excluded(&n) => n,
             ops::Bound::Unbounded    => len,
         };
-- 
2.43.0


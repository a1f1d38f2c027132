From 8f1f895a7fc9ab971fb789002ec781daa4498a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:14 +0000
Subject: [PATCH 01/43] fix: destroy the constructed value when a ctor_then
 continuation fails

If the continuation returned an error or panicked, the value that had already
been constructed was leaked: the caller considers the destination
uninitialized. Destroy it before reporting the failure.
---
 support/ctor.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index fac28d9..05f1c43 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -311,11 +311,27 @@ unsafe impl<C: Ctor, F: FnOnce(Pin<&mut C::Output>) -> Result<(), C::Error>> Cto
     type Output = C::Output;
     type Error = C::Error;
     unsafe fn ctor(self, dest: *mut Self::Output) -> Result<(), Self::Error> {
+        /// Destroys the constructed value, unless forgotten.
+        struct DropGuard<T: ?Sized>(*mut T);
+        impl<T: ?Sized> Drop for DropGuard<T> {
+            fn drop(&mut self) {
+                // SAFETY: the guard only exists after the value was constructed, and nobody else
+                // will access it, because `ctor` does not return `Ok`.
+                unsafe { core::ptr::drop_in_place(self.0) };
+            }
+        }
+
         unsafe {
             self.ctor.ctor(dest)?;
         }
-        let dest = unsafe { Pin::new_unchecked(&mut *dest) };
-        (self.f)(dest)
+        // If `f` panics or returns an error, then the caller considers `dest` uninitialized, so
+        // the value must be destroyed here.
+        let guard = DropGuard(dest);
+        let result = (self.f)(unsafe { Pin::new_unchecked(&mut *dest) });
+        if result.is_ok() {
+            core::mem::forget(guard);
+        }
+        result
     }
 }
 
-- 
2.43.0


From e82ded99c1dec941feccbaea8d1613a443abbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 02/43] fix: mark a ctor Slot empty before destroying its value

If the destructor panicked, the slot still considered itself initialized: the
dead value could be read, and was destroyed a second time.
---
 support/ctor.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index 05f1c43..ee812c4 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1123,10 +1123,11 @@ impl<T> Slot<T> {
     pub fn clear(self: Pin<&mut Self>) {
         if self.is_initialized {
             let Self { is_initialized, maybe_uninit } = unsafe { Pin::into_inner_unchecked(self) };
+            // Cleared before the destructor runs: if it panics, the value must not be used again.
+            *is_initialized = false;
             unsafe {
                 core::ptr::drop_in_place(maybe_uninit.as_mut_ptr());
             }
-            *is_initialized = false;
         }
     }
 
-- 
2.43.0


From 47e5c876416430fbf3d26d57f43d71127e6c8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:10 +0000
Subject: [PATCH 03/43] fix: abort when reconstruct's destructor unwinds

reconstruct() destroyed the old value outside of the abort guard. A panicking
destructor unwound into the caller, which then destroyed the value again.
---
 support/ctor.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/support/ctor.rs b/support/ctor.rs
index ee812c4..4e38149 100644
--- a/support/ctor.rs
+++ b/support/ctor.rs
@@ -1610,7 +1610,7 @@ macro_rules! internal_hlist {
 /// If the object cannot be destroyed/reconstructed in place (e.g. it is a base
 /// class subobject), the behavior is undefined.
 ///
-/// If `ctor` unwinds, the process will crash.
+/// If `ctor` or the destructor of the old value unwinds, the process will crash.
 ///
 /// This is a bit more fragile than, and a lot less common than, `operator=`,
 /// but allows for taking advantage of copy/move elision more aggressively,
@@ -1636,11 +1636,10 @@ macro_rules! internal_hlist {
 /// is just the in-place Ctor version of the existing method `Pin<T>::set(T)`.)
 pub unsafe fn reconstruct<T>(p: Pin<&mut T>, ctor: impl Ctor<Output = T, Error = Infallible>) {
     let raw_ptr = unsafe { Pin::into_inner_unchecked(p) } as *mut _;
-    unsafe {
+    // Also covers the destructor: if it unwound, the caller would destroy `*p` a second time.
+    abort_on_unwind(move || unsafe {
         core::ptr::drop_in_place(raw_ptr);
-    }
-    abort_on_unwind(move || {
-        unsafe { ctor.ctor(raw_ptr) }.unwrap();
+        ctor.ctor(raw_ptr).unwrap();
     });
 }
 
-- 
2.43.0


From b372756c4bf61710335086a64c57ac7c773bd01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 04/43] fix: keep the vector consistent when an operation on it
 unwinds

---
 support/cc_std_impl/vector.rs | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/support/cc_std_impl/vector.rs b/support/cc_std_impl/vector.rs
index 89047e9..db980cf 100644
--- a/support/cc_std_impl/vector.rs
+++ b/support/cc_std_impl/vector.rs
@@ -297,18 +297,26 @@ impl<T: Unpin> vector<T> {
     where
         F: FnOnce(&mut Vec<T, cpp_std_allocator::StdAllocator>) -> R,
     {
-        unsafe {
-            self.asan_unpoison_tail();
-            let mut v = ManuallyDrop::new(create_vec_from_raw_parts(
-                self.begin as *mut _,
-                self.len(),
-                self.capacity(),
-            ));
-            let result = mutate_self(v.deref_mut());
-            self.set_begin_len_capacity(v.as_mut_ptr(), v.len(), v.capacity());
-            self.asan_poison_tail();
-            result
+        /// Stores the buffer of `vec` in `vector` when dropped, so that `vector` refers to the live
+        /// buffer and elements even if `mutate_self` unwinds.
+        struct WriteBack<'a, T> {
+            vector: &'a mut vector<T>,
+            vec: ManuallyDrop<Vec<T, cpp_std_allocator::StdAllocator>>,
+        }
+        impl<T> Drop for WriteBack<'_, T> {
+            fn drop(&mut self) {
+                let (begin, len, capacity) =
+                    (self.vec.as_mut_ptr(), self.vec.len(), self.vec.capacity());
+                unsafe { self.vector.set_begin_len_capacity(begin, len, capacity) };
+                self.vector.asan_poison_tail();
+            }
         }
+        self.asan_unpoison_tail();
+        let vec = ManuallyDrop::new(unsafe {
+            create_vec_from_raw_parts(self.begin as *mut _, self.len(), self.capacity())
+        });
+        let mut write_back = WriteBack { vector: self, vec };
+        mutate_self(&mut write_back.vec)
     }
 
     // Methods for changing the capacity of the vector.
-- 
2.43.0


From 0febd25f8ecfbb31ff67b7bb2b226bf808f29c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 05/43] fix: release shared_ptr when a projection panics,
 accept null with a deleter

---
 support/cc_std_impl/shared_ptr.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/support/cc_std_impl/shared_ptr.rs b/support/cc_std_impl/shared_ptr.rs
index 27b726a..44c74be 100644
--- a/support/cc_std_impl/shared_ptr.rs
+++ b/support/cc_std_impl/shared_ptr.rs
@@ -137,13 +137,14 @@ impl<T: Sized> shared_ptr<T> {
         this: Self,
         f: impl for<'a> FnOnce(&'a T) -> &'a U,
     ) -> shared_ptr<U> {
-        let (ptr, cntrl) = shared_ptr::into_raw_parts(this);
-
-        // SAFETY: `ptr` is either null or points to a live `T` owned by `cntrl`.
+        // SAFETY: `this.ptr` is either null or points to a live `T` owned by `this.cntrl`.
         // If non-null, `f` is called with `&T`, returning a reference `&U` that borrows
         // from `T`. Because `T: 'static`, `U` will remain at this memory address for as
         // long as `cntrl` keeps `T` alive.
-        let ptr = unsafe { ptr.as_ref() }.map_or(core::ptr::null(), |r| f(r) as *const U);
+        let ptr = unsafe { this.ptr.as_ref() }.map_or(core::ptr::null(), |r| f(r) as *const U);
+
+        // Ownership is only given up once `f` has returned, so that `this` is released if it panics.
+        let (_, cntrl) = shared_ptr::into_raw_parts(this);
         shared_ptr { ptr, cntrl }
     }
 
@@ -221,8 +222,10 @@ impl<T: Sized> shared_ptr<T> {
         let delete_on_drop =
             shared_ptr::new(DeleteOnDrop { ptr, deleter: MaybeUninit::new(deleter) });
 
-        // SAFETY: We only project away the deleter FnOnce object, which we guaranteed was 'static.
-        unsafe { shared_ptr::project_unchecked(delete_on_drop, |d| &*d.ptr) }
+        // Note: `ptr` may be null, so this can't go through `project_unchecked`, which projects to a
+        // reference.
+        let (_, cntrl) = shared_ptr::into_raw_parts(delete_on_drop);
+        shared_ptr { ptr, cntrl }
     }
 
     /// Creates a `shared_ptr` from a raw pointer and a control block pointer.
-- 
2.43.0


From 0de16e711982d728f4644d585835733ccc9e15e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 06/43] fix: free unique_ptr memory when the destructor of the
 pointee unwinds

---
 support/cc_std_impl/unique_ptr.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/support/cc_std_impl/unique_ptr.rs b/support/cc_std_impl/unique_ptr.rs
index eee9cf5..29b7232 100644
--- a/support/cc_std_impl/unique_ptr.rs
+++ b/support/cc_std_impl/unique_ptr.rs
@@ -114,18 +114,28 @@ impl<T: Sized> unique_ptr<T> {
 
 impl<T> Drop for unique_ptr<T> {
     fn drop(&mut self) {
-        if !self.ptr.is_null() {
-            unsafe {
-                // SAFETY: a non-null `self.ptr` is a pointer to a `T` allocated with C++ `new`,
-                // which should be satisfied by the constructor.
-                core::ptr::drop_in_place(self.ptr);
-                std_allocator::cpp_delete(
-                    self.ptr as _,
-                    core::mem::size_of::<T>(),
-                    core::mem::align_of::<T>(),
-                );
+        /// Frees the memory of the pointee when dropped, like `Box` does, even if the destructor of
+        /// the pointee unwinds.
+        struct Deallocate<T>(*mut T);
+        impl<T> Drop for Deallocate<T> {
+            fn drop(&mut self) {
+                // SAFETY: `self.0` was allocated with C++ `new` for a `T`.
+                unsafe {
+                    std_allocator::cpp_delete(
+                        self.0 as _,
+                        core::mem::size_of::<T>(),
+                        core::mem::align_of::<T>(),
+                    );
+                }
             }
         }
+
+        if !self.ptr.is_null() {
+            let _deallocate = Deallocate(self.ptr);
+            // SAFETY: a non-null `self.ptr` is a pointer to a `T` allocated with C++ `new`,
+            // which should be satisfied by the constructor.
+            unsafe { core::ptr::drop_in_place(self.ptr) };
+        }
     }
 }
 
-- 
2.43.0


From 93b54a26113a8fe70883806a0b9f063a00f55ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 07/43] fix: memoized: a query that panics is no longer left in
 the active set

A panic in a query left its arguments marked as active and the count of
cycles being unwound raised, so that any later request for it reported a
cycle that does not exist, and no later answer was cached.
---
 common/memoized.rs | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 9860ebf..5467bdf 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -393,6 +393,36 @@ pub mod internal {
         active: RefCell<HashMap<Args, FoundCycle>>,
     }
 
+    /// Removes a call from the active set when it finishes, whether it returns or panics.
+    struct ActiveCall<'a, Args>
+    where
+        Args: Eq + Hash,
+    {
+        active: &'a RefCell<HashMap<Args, FoundCycle>>,
+        args: &'a Args,
+        unwinding_cycles: &'a Cell<u32>,
+    }
+
+    impl<Args> Drop for ActiveCall<'_, Args>
+    where
+        Args: Eq + Hash,
+    {
+        fn drop(&mut self) {
+            let found_cycle = self.active.borrow_mut().remove(self.args);
+            if found_cycle == Some(FoundCycle::Yes) {
+                // We did hit outselves in a cycle but now we've broken out of it.
+                // If we hit ourselves multiple times, we were careful to only increment this
+                // count once.
+                self.unwinding_cycles.set(self.unwinding_cycles.get() - 1);
+            }
+            assert!(
+                found_cycle.is_some() || std::thread::panicking(),
+                "Internal error: currently-active cycle detection args not found. \
+                      Most likely this is because of a buggy Clone/Eq/Hash impl.",
+            );
+        }
+    }
+
     // Separate `impl` instead of `#[derive(Default)]` because the `derive` would
     // needlessly require that `Args` and `Return` also implement `Default`.
     impl<Args, Return> Default for MemoizationTable<Args, Return>
@@ -432,18 +462,10 @@ pub mod internal {
                 return None;
             }
             self.active.borrow_mut().insert(args.clone(), FoundCycle::No);
+            let active_call = ActiveCall { active: &self.active, args: &args, unwinding_cycles };
             let return_value = f(args.clone());
-            let found_cycle = self.active.borrow_mut().remove(&args).expect(
-                "Internal error: currently-active cycle detection args not found. \
-                      Most likely this is because of a buggy Clone/Eq/Hash impl.",
-            );
+            drop(active_call);
 
-            if found_cycle == FoundCycle::Yes {
-                // We did hit outselves in a cycle but now we've broken out of it.
-                // If we hit ourselves multiple times, we were careful to only increment this
-                // count once.
-                unwinding_cycles.set(unwinding_cycles.get() - 1);
-            }
             if unwinding_cycles.get() == 0 {
                 // No cycles, we can safely cache the result knowing that we haven't depended on
                 // any cycle default values.
-- 
2.43.0


From 8d454ae2fd5aa516232dc22dcc532a36b4079b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 08/43] fix: memoized: databases never share a table of
 memoized! answers

The index of a database was an 8-bit counter that wrapped around, so that
the 257th database of a process was given the answers that the first one
had memoized on that thread. The vector of tables was also borrowed while
a query ran, so that a query which reached a new database panicked.
---
 common/memoized.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/common/memoized.rs b/common/memoized.rs
index 5467bdf..7cb10c7 100644
--- a/common/memoized.rs
+++ b/common/memoized.rs
@@ -205,7 +205,7 @@ macro_rules! query_group {
     // The database struct, which contains the lookup tables.
     $vis struct $database_struct $(<$($type_param),*>)? {
       pub __unwinding_cycles: ::core::cell::Cell<u32>,
-      pub __db_index: u8,
+      pub __db_index: u64,
       $(
         $input_function: $input_type,
       )*
@@ -341,16 +341,13 @@ macro_rules! memoized {
         // and might add a lot more code than it saves. The real benefit isn't simplicity,
         // but removing the double layer of RefCell / the fringe risk of crashes if memoization
         // tables cross-reference each other.
-        pub static TABLES: ::std::cell::RefCell<::std::vec::Vec<$crate::internal::MemoizationTable<($($arg_type,)*), $return_type>>> = ::std::cell::RefCell::new(vec![Default::default()]);
+        pub static TABLES: ::std::cell::RefCell<::std::collections::HashMap<u64, ::std::rc::Rc<$crate::internal::MemoizationTable<($($arg_type,)*), $return_type>>>> = Default::default();
       }
     }
     $vis fn $memoized_ident(db: $db_type, $($arg: $arg_type),*) -> $return_type {
       $memoized_ident::TABLES.with(|tables| {
-        let db_index = db.__db_index as usize;
-        if tables.borrow().len() <= db_index {
-          tables.borrow_mut().resize_with(db_index + 1, Default::default);
-        }
-        let table = &tables.borrow()[db_index];
+        // The query itself may need to add the table of another db, so don't keep `tables` borrowed.
+        let table = ::std::rc::Rc::clone(tables.borrow_mut().entry(db.__db_index).or_default());
         table.internal_memoized_call(
           ($($arg,)*),
           |($($arg,)*)| {
@@ -475,8 +472,8 @@ pub mod internal {
         }
     }
 
-    pub fn db_index() -> u8 {
-        static DB_INDEX: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0);
+    pub fn db_index() -> u64 {
+        static DB_INDEX: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
         DB_INDEX.fetch_add(1, std::sync::atomic::Ordering::AcqRel)
     }
 }
-- 
2.43.0


From 42116b2ac91e595696355ad7b4a9be5c487f7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 09/43] fix: errors: unreported errors no longer abort while a
 panic unwinds

Errors and FatalErrors panic when they are dropped with unreported errors in
them. When they were dropped because another panic was unwinding, that second
panic aborted the process and hid the first one.
---
 common/error_report.rs | 3 ++-
 common/errors.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/error_report.rs b/common/error_report.rs
index 89f6b1c..a07c59c 100644
--- a/common/error_report.rs
+++ b/common/error_report.rs
@@ -513,7 +513,8 @@ impl FatalErrors {
 impl Drop for FatalErrors {
     fn drop(&mut self) {
         let errors = self.fatal_errors.borrow();
-        if !errors.is_empty() {
+        // While another panic unwinds, a second one would abort the process.
+        if !errors.is_empty() && !std::thread::panicking() {
             panic!("Fatal errors in binding generation were not reported:{}", errors);
         }
     }
diff --git a/common/errors.rs b/common/errors.rs
index 4d8e673..027797c 100644
--- a/common/errors.rs
+++ b/common/errors.rs
@@ -90,7 +90,8 @@ impl Errors {
 impl Drop for Errors {
     fn drop(&mut self) {
         let errors = self.list.get_mut();
-        if !errors.is_empty() {
+        // While another panic unwinds, a second one would abort the process.
+        if !errors.is_empty() && !std::thread::panicking() {
             panic!(
                 "`Error`s dropped without first calling `consolidate` or `discard`:\n{}",
                 errors.iter().map(|error| error.to_string()).collect::<Vec<_>>().join("\n")
-- 
2.43.0


From 8305f1e4c24794643af0be9fae48def33103edab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 10/43] fix: PairAbi::Decode does not compile

std::pair is no aggregate with designated initialisers, so no pair could be
decoded. Brace initialisation keeps the order of decoding.
---
 support/bridge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 1dd49a3..6e604d1 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -297,8 +297,8 @@ struct PairAbi {
   }
   Value Decode(Decoder& decoder) && {
     return {
-        .first = std::move(abis.first).Decode(decoder),
-        .second = std::move(abis.second).Decode(decoder),
+        std::move(abis.first).Decode(decoder),
+        std::move(abis.second).Decode(decoder),
     };
   }
 
-- 
2.43.0


From f1218dacd06fe13945586ffddea03c073caf8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 11/43] fix: TupleAbi::Encode copies the elements instead of
 moving them

The elements were passed on as lvalues: a tuple with a move-only element could
not be encoded, and copyable elements were copied and the original destroyed.
---
 support/bridge.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/bridge.h b/support/bridge.h
index 6e604d1..49dc263 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -267,7 +267,9 @@ struct TupleAbi {
         [&](auto&&... args) {
           return std::apply(
               [&](auto&&... abis) {
-                (std::move(abis).Encode(args, encoder), ...);
+                (std::move(abis).Encode(std::forward<decltype(args)>(args),
+                                        encoder),
+                 ...);
               },
               std::move(abis));
         },
-- 
2.43.0


From ab62f25512d785ce48dbe91639e3c82f6f93e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 12/43] fix: TransmuteAbi::Decode leaks what is left of a
 moved-from value

The object in the local buffer was moved from but never destroyed, which leaks
whatever it still owns: for a type without a move constructor that is the whole
value.
---
 support/bridge.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/support/bridge.h b/support/bridge.h
index 49dc263..b06373d 100644
--- a/support/bridge.h
+++ b/support/bridge.h
@@ -12,6 +12,7 @@
 #include <concepts>
 #include <cstddef>
 #include <cstring>
+#include <memory>
 #include <optional>
 #include <tuple>
 #include <utility>
@@ -252,8 +253,13 @@ struct TransmuteAbi {
     alignas(Value) char buf[kSize];
     // Copy the value from the decoder buffer into the intermediate buffer.
     std::memcpy(buf, decoder.Next(kSize), kSize);
-    // Move-construct the value from the buffer.
-    return std::move(*reinterpret_cast<Value*>(buf));
+    // Move-construct the value from the buffer, then end the lifetime of the
+    // moved-from object: unlike in `Encode`, nothing else owns what is left of
+    // it.
+    Value* in_buf = reinterpret_cast<Value*>(buf);
+    Value value(std::move(*in_buf));
+    std::destroy_at(in_buf);
+    return value;
   }
 };
 
-- 
2.43.0


From 41f5b2520048c1a2e5e2591d100e990011242d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 13/43] fix: new_string never runs the destructor of its
 std::string

new_string implemented PinnedDrop, but nothing calls pinned_drop unless the
type is #[recursively_pinned(PinnedDrop)], so every in-place string leaked.
---
 support/cc_std_impl/string.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/support/cc_std_impl/string.rs b/support/cc_std_impl/string.rs
index 9939040..862294b 100644
--- a/support/cc_std_impl/string.rs
+++ b/support/cc_std_impl/string.rs
@@ -372,6 +372,7 @@ pub unsafe extern "C" fn cpp_string_to_rust_string(input: *mut c_void, output: *
 #[cfg_attr(target_pointer_width = "64", repr(C, align(8)))]
 #[cfg_attr(target_pointer_width = "32", repr(C, align(4)))]
 #[allow(non_camel_case_types)]
+#[ctor::recursively_pinned(PinnedDrop, ?Unpin)]
 pub struct new_string {
     _opaque: core::cfg_select! {
         any(target_arch = "x86_64", target_arch = "aarch64") => [u8; 24],
-- 
2.43.0


From fd4015bc295d025eb00becebb7e02b602dfeaf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 14/43] fix: self-move of a DynCallable relocates a disposed
 target onto itself

---
 support/rs_std/dyn_callable.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index 8ae7d89..baa319c 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -57,8 +57,10 @@ class ManagedCallable {
   }
 
   ManagedCallable& operator=(ManagedCallable&& other) {
-    // Dispose this.
+    // Dispose this. From here on there is no state to manage, which also makes
+    // self-move leave an empty callable.
     manager_(FunctionToCall::dispose, &this->storage_, &this->storage_);
+    manager_ = EmptyManager;
 
     // Move other into this.
     other.manager_(FunctionToCall::relocate_from_to, /*from=*/&other.storage_,
-- 
2.43.0


From b45bc565dfcbaa61da5964abff6743fdd77c854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:59 +0000
Subject: [PATCH 15/43] fix: a consumed DynCallable claims to hold its target

---
 support/rs_std/dyn_callable.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/support/rs_std/dyn_callable.h b/support/rs_std/dyn_callable.h
index baa319c..d71b5ff 100644
--- a/support/rs_std/dyn_callable.h
+++ b/support/rs_std/dyn_callable.h
@@ -135,7 +135,11 @@ inline ReturnType InvokedAfterMove(TypeErasedState*,
       }                                                                        \
     }                                                                          \
                                                                                \
-    bool HasValue() const { return invoker_ != nullptr; }                      \
+    /* A consumed callable has no target, it only knows how to fail. */        \
+    bool HasValue() const {                                                    \
+      return invoker_ != nullptr &&                                            \
+             invoker_ != InvokedAfterMove<ReturnType, P...>;                   \
+    }                                                                          \
                                                                                \
    protected:                                                                  \
     InvokerType* invoker_ = nullptr;                                           \
@@ -268,7 +272,7 @@ class DynCallable : private internal_dyn_callable::Impl<Sig> {
   // NOLINTNEXTLINE(google-explicit-constructor)
   operator absl::AnyInvocable<Sig>() && {
     auto* manager = this->manager_;
-    auto* invoker = this->invoker_;
+    auto* invoker = this->HasValue() ? this->invoker_ : nullptr;
     this->manager_ = internal_dyn_callable::EmptyManager;
     this->invoker_ = nullptr;
     return absl::AnyInvocable<Sig>(&this->storage_, manager, invoker);
-- 
2.43.0


From 7f11ca294b0932e73efa30da43ac5015c66135fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 16/43] fix: refresh the final header when it differs from the
 current configuration's

cargo-cpp_api_from_rust kept whatever header was at its final location when
cargo reported a crate as fresh. After switching features, profile flags or
--out-dir back and forth, or after a run that was interrupted while copying,
that header belonged to another configuration or was cut off.
---
 cc_bindings_from_rs/cargo-cpp_api_from_rust.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
index d7db913..e774a0a 100644
--- a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
+++ b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
@@ -394,7 +394,9 @@ impl BindingGenerationContext {
 
         if info.fresh && intermediate_h.exists() && intermediate_rs.exists() {
             pkg_to_header.insert(info.pkg_id_repr.to_string(), final_h_filename);
-            if !final_h.exists() {
+            // The final header may be missing, come from another build configuration, or be left
+            // over from an interrupted run.
+            if fs::read(&final_h).ok() != Some(fs::read(&intermediate_h)?) {
                 fs::copy(&intermediate_h, &final_h)?;
             }
             return Ok(());
-- 
2.43.0


From d62848c4eb11f1ad9174961651455082c0903591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 17/43] fix: reuse intermediate bindings only if they were
 completely written from the current inputs

cargo-cpp_api_from_rust reused the intermediate .h and .rs files of a crate
whenever cargo reported the crate as fresh and the files existed. They could
be stale or cut off: when a run was killed or failed after cargo had rebuilt
the crate but before its bindings were (completely) generated, when the
generator failed between the two files, and for the standard library, which
always counted as fresh, after any change of the toolchain. A stamp file with
the arguments and the identity of the input files now decides; it is written
after both outputs and removed before they are touched.
---
 .../cargo-cpp_api_from_rust.rs                | 77 +++++++++++++++----
 1 file changed, 60 insertions(+), 17 deletions(-)

diff --git a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
index e774a0a..0e71c3c 100644
--- a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
+++ b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
@@ -392,16 +392,6 @@ impl BindingGenerationContext {
         lib_rs_content
             .push_str(&format!("#[path = {:?}]\nmod r#{};\n", intermediate_rs, info.rs_crate_name));
 
-        if info.fresh && intermediate_h.exists() && intermediate_rs.exists() {
-            pkg_to_header.insert(info.pkg_id_repr.to_string(), final_h_filename);
-            // The final header may be missing, come from another build configuration, or be left
-            // over from an interrupted run.
-            if fs::read(&final_h).ok() != Some(fs::read(&intermediate_h)?) {
-                fs::copy(&intermediate_h, &final_h)?;
-            }
-            return Ok(());
-        }
-
         let mut current_args = vec![
             "cpp_api_from_rust".to_string(),
             "--crubit-support-path-format=<support/{header}>".to_string(),
@@ -411,6 +401,7 @@ impl BindingGenerationContext {
             format!("--rs-out={}", intermediate_rs),
             format!("--extern={}={}", info.crate_name, info.artifact_path),
         ];
+        let mut input_paths = vec![info.artifact_path.to_owned()];
 
         if !self.dep_dirs.contains(deps_dir) && deps_dir.exists() {
             current_args.push(format!("-Ldependency={}", deps_dir));
@@ -430,6 +421,7 @@ impl BindingGenerationContext {
         // Pass preceding stdlib dependencies to the current crate
         for (prev_name, prev_path) in info.stdlib_externs {
             current_args.push(format!("--extern={}={}", prev_name, prev_path));
+            input_paths.push(prev_path.clone());
             if let Some(prev_header) = pkg_to_header.get(prev_name.as_str()) {
                 current_args.push(format!("--crate-header={}={}", prev_name, prev_header));
                 current_args.push(format!("--crate-namespace={}=rs::{}", prev_name, prev_name));
@@ -448,6 +440,7 @@ impl BindingGenerationContext {
                     // TODO: Handle overlapping crate names better here.
                     current_args
                         .push(format!("--extern={}={}", dep_artifact.name, dep_artifact.path));
+                    input_paths.push(dep_artifact.path.clone());
                     if let Some(dep_header) = pkg_to_header.get(&dep_pkg_id.repr) {
                         current_args
                             .push(format!("--crate-header={}={}", dep_artifact.name, dep_header));
@@ -456,7 +449,53 @@ impl BindingGenerationContext {
             }
         }
 
-        let cmdline = Cmdline::new(&current_args).map_err(|err| {
+        // The intermediate files are reused only if they were completely written by this very tool,
+        // from the inputs it would be given now. Cargo's notion of a fresh crate is not enough for
+        // that: the crate may have been built by a run which was interrupted before (or while) its
+        // bindings were generated, and the standard library isn't built by Cargo at all.
+        let stamp_path = deps_dir.join(format!("{}{}.crubit-stamp", info.crate_name, hash_suffix));
+        let stamp = Self::bindings_stamp(&current_args, &input_paths)?;
+        let reusable = info.fresh
+            && intermediate_h.exists()
+            && intermediate_rs.exists()
+            && fs::read(&stamp_path).is_ok_and(|old_stamp| old_stamp == stamp.as_bytes());
+        if !reusable {
+            remove_file_if_exists(&stamp_path)?;
+            Self::run_generator(&current_args)?;
+            fs::write(&stamp_path, &stamp)?;
+        }
+        pkg_to_header.insert(info.pkg_id_repr.to_string(), final_h_filename);
+
+        // Final outputs: copy/rename from deps/ to their final locations. The final header may be
+        // missing, come from another build configuration, or be left over from an interrupted run.
+        if fs::read(&final_h).ok() != Some(fs::read(&intermediate_h)?) {
+            fs::copy(&intermediate_h, &final_h)?;
+        }
+        Ok(())
+    }
+
+    /// Describes everything that the bindings of a crate are generated from: the arguments, and the
+    /// identity of the files they refer to (and of this tool).
+    fn bindings_stamp(args: &[String], input_paths: &[Utf8PathBuf]) -> Result<String> {
+        let mut stamp = String::new();
+        for arg in args {
+            stamp.push_str(&format!("arg {arg:?}\n"));
+        }
+        let exe_path = env::current_exe()?;
+        for path in input_paths.iter().map(|p| p.as_std_path()).chain([exe_path.as_path()]) {
+            let metadata = fs::metadata(path)
+                .map_err(|err| anyhow!("Failed to read '{}': {err}", path.display()))?;
+            stamp.push_str(&format!(
+                "file {path:?} {} {:?}\n",
+                metadata.len(),
+                metadata.modified()?
+            ));
+        }
+        Ok(stamp)
+    }
+
+    fn run_generator(args: &[String]) -> Result<()> {
+        let cmdline = Cmdline::new(args).map_err(|err| {
             match err.downcast_ref::<clap::Error>() {
                 // Explicitly call `clap::Error::exit`, because 1) it results in *colored* output and
                 // 2) it uses a zero exit code for specific "errors" (e.g. for `--help` output).
@@ -469,12 +508,7 @@ impl BindingGenerationContext {
                 None => err,
             }
         })?;
-        cpp_api_from_rust_lib::run_with_cmdline_args(&cmdline)?;
-        pkg_to_header.insert(info.pkg_id_repr.to_string(), final_h_filename);
-
-        // Final outputs: copy/rename from deps/ to their final locations.
-        fs::copy(&intermediate_h, &final_h)?;
-        Ok(())
+        cpp_api_from_rust_lib::run_with_cmdline_args(&cmdline)
     }
 
     fn generate_bindings(&self) -> Result<String> {
@@ -663,6 +697,15 @@ bridge_rust = {{ package = "crubit_bridge_rust", version = "0.0.1" }}
     }
 }
 
+fn remove_file_if_exists(path: &Utf8Path) -> Result<()> {
+    match fs::remove_file(path) {
+        Err(err) if err.kind() != std::io::ErrorKind::NotFound => {
+            Err(anyhow!("Failed to remove '{path}': {err}"))
+        }
+        _ => Ok(()),
+    }
+}
+
 fn cargo_bin() -> &'static ffi::OsStr {
     static CARGO_BIN: std::sync::OnceLock<ffi::OsString> = std::sync::OnceLock::new();
     CARGO_BIN.get_or_init(|| env::var_os("CARGO").unwrap_or_else(|| "cargo".into()))
-- 
2.43.0


From 6d78561cf018120b1cce564ce041aac3e3188403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 18/43] fix: generate bindings from the target's build of a
 crate that is also built for the host

A package that is also used by a proc macro (or build script) is compiled a
second time for the host, under --target or in release mode. Whichever
artifact cargo happened to report last was used, so that its bindings came
from the wrong build, or were missing altogether.
---
 .../cargo-cpp_api_from_rust.rs                | 47 ++++++++++++++-----
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
index 0e71c3c..034572f 100644
--- a/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
+++ b/cc_bindings_from_rs/cargo-cpp_api_from_rust.rs
@@ -23,7 +23,7 @@
 
 use arc_anyhow::{anyhow, bail, Result};
 use cargo_metadata::camino::{Utf8Path, Utf8PathBuf};
-use cargo_metadata::{Artifact, Message, Metadata, Package, PackageId, Resolve};
+use cargo_metadata::{Artifact, ArtifactProfile, Message, Metadata, Package, PackageId, Resolve};
 use clap::Parser;
 use cmdline::Cmdline;
 
@@ -95,7 +95,7 @@ fn main() -> Result<()> {
     }
     build_args.extend(cli.build_args.clone());
 
-    let build_artifacts = build_crate_and_stream_artifacts(&build_args)?;
+    let build_artifacts = build_crate_and_stream_artifacts(&build_args, root)?;
     let target_libdir = get_target_libdir(&build_args)?;
 
     let ctx = BindingGenerationContext::new(
@@ -155,7 +155,10 @@ struct BuildArtifacts {
     dep_dirs: Vec<Utf8PathBuf>,
 }
 
-fn build_crate_and_stream_artifacts(build_args: &[String]) -> Result<BuildArtifacts> {
+fn build_crate_and_stream_artifacts(
+    build_args: &[String],
+    root: &Package,
+) -> Result<BuildArtifacts> {
     let mut args = vec!["rustc".to_string(), "--message-format=json".to_string()];
     args.extend(build_args.iter().cloned());
     // We rely on filename to extract the metadata hash cargo used for our current build.
@@ -169,7 +172,8 @@ fn build_crate_and_stream_artifacts(build_args: &[String]) -> Result<BuildArtifa
         args.extend(["--".to_string(), "--emit=metadata,link".to_string()]);
     }
 
-    let mut pkg_to_artifact = HashMap::new();
+    let mut pkg_to_artifacts: HashMap<String, Vec<(ArtifactInfo, ArtifactProfile)>> =
+        HashMap::new();
     let mut dep_dirs = BTreeSet::new();
     let (command, stream) = stream_cargo_build(&args)?;
     for artifact in stream {
@@ -188,15 +192,13 @@ fn build_crate_and_stream_artifacts(build_args: &[String]) -> Result<BuildArtifa
         };
         let hash =
             filename.file_stem().and_then(|s| s.rsplitn(2, '-').next()).unwrap_or("").to_string();
-        pkg_to_artifact.insert(
-            artifact.package_id.repr.clone(),
-            ArtifactInfo {
-                path: filename.clone(),
-                name: artifact.target.name.clone(),
-                hash,
-                fresh: artifact.fresh,
-            },
-        );
+        let info = ArtifactInfo {
+            path: filename.clone(),
+            name: artifact.target.name.clone(),
+            hash,
+            fresh: artifact.fresh,
+        };
+        pkg_to_artifacts.entry(artifact.package_id.repr).or_default().push((info, artifact.profile));
     }
 
     let cargo_output =
@@ -206,6 +208,25 @@ fn build_crate_and_stream_artifacts(build_args: &[String]) -> Result<BuildArtifa
         bail!("Exiting early due to cargo build failure");
     }
 
+    // A package which is also used by a proc macro or a build script may have been compiled twice,
+    // for the target and for the host, in any order. The root package needs the former: the one in
+    // the root package's own directory, with the root package's profile.
+    let root_key = pkg_to_artifacts
+        .get(&root.id.repr)
+        .and_then(|artifacts| artifacts.last())
+        .map(|(info, profile)| (info.path.parent().map(Utf8Path::to_owned), profile.clone()));
+    let pkg_to_artifact = pkg_to_artifacts
+        .into_iter()
+        .filter_map(|(pkg, artifacts)| {
+            let (info, _) = artifacts.into_iter().max_by_key(|(info, profile)| {
+                root_key.as_ref().map(|(root_dir, root_profile)| {
+                    (info.path.parent() == root_dir.as_deref(), profile == root_profile)
+                })
+            })?;
+            Some((pkg, info))
+        })
+        .collect();
+
     Ok(BuildArtifacts { pkg_to_artifact, dep_dirs: dep_dirs.into_iter().collect() })
 }
 
-- 
2.43.0


From 726de0634c464034620840bf081c4ac65080f40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 19/43] fix: report formatter output that isn't valid UTF-8
 instead of altering it

pipe_string_through_process replaced invalid bytes of the formatter's output
with U+FFFD and returned the altered source text as a success.
---
 common/token_stream_printer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/token_stream_printer.rs b/common/token_stream_printer.rs
index 5b77ddd..7d8dc9e 100644
--- a/common/token_stream_printer.rs
+++ b/common/token_stream_printer.rs
@@ -556,7 +556,8 @@ fn pipe_string_through_process<'a>(
         bail!("{exe_name} reported an error: {}", String::from_utf8_lossy(&output.stderr));
     }
 
-    Ok(String::from_utf8_lossy(&output.stdout).to_string())
+    String::from_utf8(output.stdout)
+        .with_context(|| format!("{exe_name} produced output which isn't valid UTF-8"))
 }
 
 fn rustfmt(input: String, config: &RustfmtConfig) -> Result<String> {
-- 
2.43.0


From 61bb55684b10ce6f1864547cd522cda6adea5cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:43 +0000
Subject: [PATCH 20/43] fix: errors in variants and impls no longer panic the
 generator when an error report is requested

---
 cc_bindings_from_rs/generate_bindings/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 3a4fa85..294a17c 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -1985,7 +1985,8 @@ pub(crate) fn generate_unsupported_def<'tcx>(
     def_id: DefId,
     err: Error,
 ) -> CcSnippet<'tcx> {
-    db.errors().assert_in_item(item_name_for_error_report(db, def_id));
+    // `def_id` may be a part of the current item, such as a variant or an impl.
+    error_scope!(db, def_id);
     db.errors().report(&err);
     let msg = format!(
         "Error generating bindings for {}",
-- 
2.43.0


From 6cde414e3f6d772eee3f18bc0c52b6427209e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 21/43] fix: use C++ type specializations in a stable order

The first alias that specializes a type is the one used, and the aliases
were visited in the order of a hash map.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 294a17c..401a314 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -197,7 +197,10 @@ fn specializations<'tcx>(db: &crate::BindingsGenerator<'tcx>) -> Rc<[CppTypeSpec
     let mut specializations = Vec::new();
 
     let all_public_paths = db.all_public_paths_by_def_id();
-    for (adt_or_alias_def_id, paths) in all_public_paths {
+    // The first matching specialization is used, so the order must not depend on the hash map.
+    for (adt_or_alias_def_id, paths) in
+        all_public_paths.into_iter().sorted_by_def_with(tcx, |(def_id, _)| *def_id)
+    {
         specializations.extend(
             std::iter::once(adt_or_alias_def_id)
                 .chain(
-- 
2.43.0


From da156ab994136ec105eb1becd05b1ddff52a6f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 22/43] fix: generate items in a stable order

Items were generated in the order of a hash map and sorted afterwards,
so fatal errors came out in another order on every run.
---
 cc_bindings_from_rs/generate_bindings/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cc_bindings_from_rs/generate_bindings/lib.rs b/cc_bindings_from_rs/generate_bindings/lib.rs
index 401a314..fd0f09c 100644
--- a/cc_bindings_from_rs/generate_bindings/lib.rs
+++ b/cc_bindings_from_rs/generate_bindings/lib.rs
@@ -2177,6 +2177,8 @@ fn formatted_items_in_crate<'tcx>(
     let defs_in_crate = db.public_paths_by_def_id(db.source_crate_num());
     defs_in_crate
         .into_iter()
+        // Generating an item can report errors, so items must be visited in a stable order.
+        .sorted_by_def_with(tcx, |(def_id, _)| *def_id)
         .filter_map(|(def_id, paths)| {
             if !crate::should_receive_bindings(db, def_id) {
                 return None;
@@ -2204,7 +2206,8 @@ fn formatted_items_in_crate<'tcx>(
             };
             Some(FormattedItem { def_id, snippets, aliases })
         })
-        .sorted_by_def_with(tcx, |item| item.def_id)
+        .collect_vec()
+        .into_iter()
 }
 
 /// Key used to sort template specializations.
-- 
2.43.0


From 698577903681aa2f1eb3395e874a5247af501012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 23/43] fix: construct layout-compatible values in place in
 generated constructors

The thunk of the copy constructor of rs_std::Option<T> and the like wrote
the value with its bridge encoding into the object itself.
---
 .../generate_bindings/generate_function_thunk.rs              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
index a8d14b3..00b6668 100644
--- a/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
+++ b/cc_bindings_from_rs/generate_bindings/generate_function_thunk.rs
@@ -446,6 +446,10 @@ fn write_rs_value_to_c_abi_ptr<'tcx>(
     let write_directly = || -> Result<TokenStream> {
         Ok(quote! { ::core::ptr::write(#c_ptr as *mut _, #rs_value); })
     };
+    if is_constructor && is_bridged_layout_compat_type(db, rs_type) {
+        // The value is constructed in place, as the layout-compatible type.
+        return write_directly();
+    }
     Ok(if let Some(bridged_type) = is_bridged_type(db, rs_type)? {
         match bridged_type {
             BridgedType::Legacy { conversion_info, .. } => match conversion_info {
-- 
2.43.0


From 8cc547e997807e9379b2e49cd00376e9bfe0f428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 24/43] fix: construct rather than assign the uninitialized
 value of a Slot

Slot's move constructor assigned to storage without a value, and the slot
for arrays copied the bytes of elements which were then destroyed with the
array as well.
---
 support/internal/slot.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/support/internal/slot.h b/support/internal/slot.h
index 0d219d8..0366bc9 100644
--- a/support/internal/slot.h
+++ b/support/internal/slot.h
@@ -10,6 +10,7 @@
 #include <array>
 #include <cstddef>
 #include <memory>
+#include <type_traits>
 #include <utility>
 
 namespace crubit {
@@ -105,7 +106,9 @@ class Slot {
 
   // SAFETY REQUIREMENTS: The value contained in `other` must be initialized
   // (but may be moved-from).
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    std::construct_at(&value_, std::move(other.value_));
+  }
 
   // Does not destroy the contained value.
   //
@@ -146,10 +149,12 @@ class Slot<std::array<UT, S>> {
   using T = std::array<UT, S>;
   Slot() {}
   explicit constexpr Slot(T&& x) {
-    if constexpr (requires(UT t) { UT(UnsafeRelocateTag{}, std::move(t)); }) {
-      memcpy(value_.data(), x.data(), sizeof(UT) * S);
+    // `x` remains the caller's to destroy, so it must be left moved-from
+    // whenever its elements have such a state.
+    if constexpr (std::is_move_constructible_v<T>) {
+      std::construct_at(&value_, std::move(x));
     } else {
-      value_ = std::move(x);
+      memcpy(value_.data(), x.data(), sizeof(UT) * S);
     }
   }
   T* Get() { return &value_; }
@@ -163,7 +168,9 @@ class Slot<std::array<UT, S>> {
       return return_value;
     }
   }
-  Slot(Slot&& other) { value_ = std::move(other.value_); }
+  Slot(Slot&& other) {
+    std::construct_at(&value_, std::move(other.value_));
+  }
   ~Slot() {}
 
   Slot(const Slot&) = delete;
-- 
2.43.0


From c6bce99a721d579a629b0df17292dde927a85c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 25/43] fix: read a formatter's output while writing its input

rust_with_cpp_fmt wrote all of the text to rustfmt or clang-format before it
read any output. A formatter that writes output before having read all of its
input blocks once the pipe is full, and both wait for each other forever.
---
 .../rust_with_cpp_fmt.rs                      | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
index 59e6b25..c943c7e 100644
--- a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
+++ b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
@@ -75,14 +75,18 @@ fn pipe_through_process<'a>(
         .spawn()
         .with_context(|| format!("Failed to spawn {exe_name} at {exe_path:?}"))?;
 
-    if let Some(mut stdin) = child.stdin.take() {
-        stdin
-            .write_all(input.as_bytes())
-            .with_context(|| format!("Failed to write to {exe_name} stdin"))?;
-    }
-
-    let output =
-        child.wait_with_output().with_context(|| format!("Failed to read {exe_name} output"))?;
+    let stdin = child.stdin.take();
+    // Write from another thread: the process may write output before it has read all of its input,
+    // and would block forever (as would we) if nobody was reading that output.
+    let (write_result, output) = std::thread::scope(|scope| {
+        let writer = scope.spawn(move || match stdin {
+            Some(mut stdin) => stdin.write_all(input.as_bytes()),
+            None => Ok(()),
+        });
+        let output = child.wait_with_output();
+        (writer.join().expect("the writer does not panic"), output)
+    });
+    let output = output.with_context(|| format!("Failed to read {exe_name} output"))?;
 
     if !output.status.success() {
         bail!(
@@ -92,6 +96,8 @@ fn pipe_through_process<'a>(
         );
     }
 
+    write_result.with_context(|| format!("Failed to write to {exe_name} stdin"))?;
+
     Ok(String::from_utf8_lossy(&output.stdout).to_string())
 }
 
-- 
2.43.0


From 123018d243504b03c38cdee35f019af43421621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 26/43] fix: reject formatter output that isn't valid UTF-8

rust_with_cpp_fmt replaced invalid bytes in the output of rustfmt and
clang-format with U+FFFD, and wrote the altered text over the source file.
---
 support/extract_cpp_from_rust/rust_with_cpp_fmt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
index c943c7e..7e7df98 100644
--- a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
+++ b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
@@ -98,7 +98,8 @@ fn pipe_through_process<'a>(
 
     write_result.with_context(|| format!("Failed to write to {exe_name} stdin"))?;
 
-    Ok(String::from_utf8_lossy(&output.stdout).to_string())
+    String::from_utf8(output.stdout)
+        .with_context(|| format!("{exe_name} produced output which isn't valid UTF-8"))
 }
 
 /// Runs `rustfmt` on the source string.
-- 
2.43.0


From d0f02359c5673baaab3847db4a3429956c816dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 27/43] fix: report a failure to write the end of the formatted
 text

Standard output is line-buffered: text after the last newline was only written
at exit, where errors are ignored, and lost with a status of success.
---
 support/extract_cpp_from_rust/rust_with_cpp_fmt.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
index 7e7df98..f3edc51 100644
--- a/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
+++ b/support/extract_cpp_from_rust/rust_with_cpp_fmt.rs
@@ -271,6 +271,8 @@ fn format_file_or_stdin(args: &Args) -> Result<()> {
             &args.clang_format_args,
         )?;
         io::stdout().write_all(formatted.as_bytes()).context("Failed to write to stdout")?;
+        // What follows the last newline is still buffered, and errors at exit are ignored.
+        io::stdout().flush().context("Failed to write to stdout")?;
         return Ok(());
     }
 
@@ -295,6 +297,7 @@ fn format_file_or_stdin(args: &Args) -> Result<()> {
                 .with_context(|| format!("Failed to write file {}", file.display()))?;
         } else {
             io::stdout().write_all(formatted.as_bytes()).context("Failed to write to stdout")?;
+            io::stdout().flush().context("Failed to write to stdout")?;
         }
     }
 
-- 
2.43.0


From 55b6f01c4744e6c546a5907e5109d77349bde0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:37 +0000
Subject: [PATCH 28/43] fix: extract embedded C++ when a comment comes before
 the macro's `!` or `{`

Such a macro invocation is valid Rust, but the extractor and the formatter
skipped it silently, and its C++ was missing from the generated header.
---
 .../parse_inline_cpp_macros.rs                 | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/support/extract_cpp_from_rust/parse_inline_cpp_macros.rs b/support/extract_cpp_from_rust/parse_inline_cpp_macros.rs
index 0d86d7b..884c1aa 100644
--- a/support/extract_cpp_from_rust/parse_inline_cpp_macros.rs
+++ b/support/extract_cpp_from_rust/parse_inline_cpp_macros.rs
@@ -62,6 +62,14 @@ impl SpannedToken {
     }
 }
 
+/// Whether `kind` may appear between any two tokens of a macro invocation.
+fn is_whitespace_or_comment(kind: TokenKind) -> bool {
+    matches!(
+        kind,
+        TokenKind::Whitespace | TokenKind::LineComment { .. } | TokenKind::BlockComment { .. }
+    )
+}
+
 /// Token-level parser that traverses Rust source text to identify and extract macro bodies.
 pub struct MacroParser<'s, 'f> {
     source: &'s str,
@@ -116,9 +124,9 @@ impl<'s, 'f> MacroParser<'s, 'f> {
         }
     }
 
-    fn eat_whitespace(&mut self) {
+    fn eat_whitespace_and_comments(&mut self) {
         while let Some(t) = self.peek()
-            && t.kind == TokenKind::Whitespace
+            && is_whitespace_or_comment(t.kind)
         {
             self.advance();
         }
@@ -186,9 +194,9 @@ impl<'s, 'f> MacroParser<'s, 'f> {
 
         let kind = matched_kind?;
 
-        // Skip optional whitespace before `!`
+        // Skip optional whitespace and comments before `!`
         let mut bang_idx = idx;
-        while bang_idx < self.tokens.len() && self.tokens[bang_idx].kind == TokenKind::Whitespace {
+        while bang_idx < self.tokens.len() && is_whitespace_or_comment(self.tokens[bang_idx].kind) {
             bang_idx += 1;
         }
 
@@ -216,7 +224,7 @@ impl<'s, 'f> MacroParser<'s, 'f> {
             for _ in 0..macro_tokens_count {
                 self.advance();
             }
-            self.eat_whitespace();
+            self.eat_whitespace_and_comments();
 
             // Expect `{`
             if !self.try_eat(TokenKind::OpenBrace) {
-- 
2.43.0


From 363eea6e18ff16710f1565a7209743791ce4fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 29/43] fix: keep doxygen's input files inside of the request's
 directory

Names of input files are chosen by the client. An absolute name, or one
with `..`, had its contents written outside of the temporary directory.
---
 crubit_explorer/src/doxygen.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crubit_explorer/src/doxygen.rs b/crubit_explorer/src/doxygen.rs
index 4a3ff9e..d371a72 100644
--- a/crubit_explorer/src/doxygen.rs
+++ b/crubit_explorer/src/doxygen.rs
@@ -10,7 +10,7 @@ use serde::{Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
 use std::io::Write;
-use std::path::Path;
+use std::path::{Component, Path};
 use std::process::{Command, Stdio};
 use std::str::{self, FromStr};
 use tempfile::Builder;
@@ -160,6 +160,15 @@ fn execute_doxygen(payload: DoxygenRequest) -> Result<DoxygenResponse, ErrorDeta
 
     // Write input files to temp directory
     for file in payload.input.files {
+        let is_inside = Path::new(&file.name)
+            .components()
+            .all(|c| matches!(c, Component::Normal(_) | Component::CurDir));
+        if !is_inside {
+            return Err(ErrorDetails::new(
+                "Invalid file name",
+                format!("`{}` is not a path inside of the source directory", file.name),
+            ));
+        }
         let file_path = temp_dir.path().join(&file.name);
         if let Some(parent) = file_path.parent() {
             fs::create_dir_all(parent).map_err(|e| {
-- 
2.43.0


From 27eeddaa2ccf49b225f255fbf51609f7a7f29a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:30 +0000
Subject: [PATCH 30/43] fix: report XML files of doxygen that cannot be read

They were left out of an answer that claimed success.
---
 crubit_explorer/src/doxygen.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/crubit_explorer/src/doxygen.rs b/crubit_explorer/src/doxygen.rs
index d371a72..4ef43e9 100644
--- a/crubit_explorer/src/doxygen.rs
+++ b/crubit_explorer/src/doxygen.rs
@@ -306,18 +306,20 @@ fn collect_xml_files(
     let entries = fs::read_dir(current_dir)
         .map_err(|e| ErrorDetails::new("Failed to read XML directory", e.to_string()))?;
 
-    for entry in entries.flatten() {
-        let path = entry.path();
+    for entry in entries {
+        let path = entry
+            .map_err(|e| ErrorDetails::new("Failed to read XML directory", e.to_string()))?
+            .path();
         if path.is_dir() {
             collect_xml_files(base_dir, &path, output_files)?;
         } else if path.is_file() && path.extension().and_then(|s| s.to_str()) == Some("xml") {
-            if let Ok(bytes) = fs::read(&path) {
-                if let Ok(rel_path) = path.strip_prefix(base_dir) {
-                    output_files.push(File {
-                        name: rel_path.to_string_lossy().to_string(),
-                        contents_b64: BASE64_STANDARD.encode(&bytes),
-                    });
-                }
+            let bytes = fs::read(&path)
+                .map_err(|e| ErrorDetails::new("Failed to read XML file", e.to_string()))?;
+            if let Ok(rel_path) = path.strip_prefix(base_dir) {
+                output_files.push(File {
+                    name: rel_path.to_string_lossy().to_string(),
+                    contents_b64: BASE64_STANDARD.encode(&bytes),
+                });
             }
         }
     }
-- 
2.43.0


From 4a7a2207d4e7db2d8656d45bc278f28dd8b1ac41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 31/43] fix: do not treat an empty interned str or slice as
 equal to its neighbour

---
 common/interner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/common/interner.rs b/common/interner.rs
index 0ad052c..d8e5506 100644
--- a/common/interner.rs
+++ b/common/interner.rs
@@ -29,9 +29,11 @@ impl<'arena, T: ?Sized + 'arena> Interned<'arena, T> {
         self.0
     }
 
+    /// The pointer to the value, including the length of a slice or a `str`: an empty one occupies
+    /// no memory, so that it may share its address with another value.
     #[inline(always)]
-    fn ptr(&self) -> *const () {
-        self.0 as *const T as *const ()
+    fn ptr(&self) -> *const T {
+        self.0
     }
 }
 
@@ -50,7 +52,7 @@ impl<'arena, T: ?Sized + 'arena> std::ops::Deref for Interned<'arena, T> {
 
 impl<T: ?Sized> PartialEq for Interned<'_, T> {
     fn eq(&self, other: &Self) -> bool {
-        self.ptr() == other.ptr()
+        std::ptr::eq(self.ptr(), other.ptr())
     }
 }
 
-- 
2.43.0


From a3b4146efe941f2981796447ed6eb4b50170133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:20 +0000
Subject: [PATCH 32/43] fix: rs_bindings_from_cc: name the trait in an error
 without its debug form

The debug form of the trait holds the whole IR of the parameter type, with the
addresses of declarations, which differ from run to run; the message becomes
part of the generated Rust.
---
 rs_bindings_from_cc/generate_bindings/generate_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index b6676a6..3327c8b 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -1466,7 +1466,7 @@ fn adjust_param_types_for_trait_impl<'a>(
             };
             if !is_record_clonable(db, param_record.clone()) {
                 errors.add(anyhow!(
-                    "Argument {i} of Rust trait `{trait_name:?}` requires a const reference, but the C++ implementation takes non-cloneable record `{}` by value",
+                    "Argument {i} of Rust trait `{trait_name}` requires a const reference, but the C++ implementation takes non-cloneable record `{}` by value",
                     param_type.display(db),
                 ));
                 return Default::default();
-- 
2.43.0


From fa8b456b22060541d30b3f5befff448dbb5a56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:21 +0000
Subject: [PATCH 33/43] fix: rs_bindings_from_cc: no panic on an operator that
 takes a non-cloneable record by value

The error is recorded, but the parameter stayed by value, and generating the
signature of the trait method panics on a non-Unpin parameter by value.
---
 rs_bindings_from_cc/generate_bindings/generate_function.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 3327c8b..0e00895 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -1469,7 +1469,6 @@ fn adjust_param_types_for_trait_impl<'a>(
                     "Argument {i} of Rust trait `{trait_name}` requires a const reference, but the C++ implementation takes non-cloneable record `{}` by value",
                     param_type.display(db),
                 ));
-                return Default::default();
             }
             *param_type = RsTypeKind::Reference {
                 referent: Rc::new(param_type.clone()),
-- 
2.43.0


From dc934a7d92f7ab2c2f79acab5f560e0b339c1741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 34/43] fix: rs_bindings_from_cc: no panic on a compound
 assignment to an enum by value

C++ allows the operator for any operand of a class or enumeration type.
---
 rs_bindings_from_cc/generate_bindings/generate_function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 0e00895..b4612dd 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -759,7 +759,10 @@ fn record_type_of_compound_assignment<'a, 'b>(
             fix_mutability(mutability);
             expect_possibly_incomplete_record(db, pointee, "compound assignment first parameter", errors)?
         }
-        _ => panic!("Compound assignment operator defined, but first parameter is not a record or reference: {lhs_str}"),
+        _ => bail_to_errors!(
+            errors,
+            "Compound assignment is only supported if the left-hand side is a record or reference, found {lhs_str}"
+        ),
     };
     if !lhs_record_type.is_unpin() {
         // Note: we bail here to avoid generating an impl with `self: Pin<&mut Self>`
-- 
2.43.0


From e8a4768c5d5ce729a3f5d0abc3ddea09651f802d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:31 +0000
Subject: [PATCH 35/43] fix: rs_bindings_from_cc: a [[no_unique_address]] field
 of an unsupported type is no fatal error

It stopped the generation of bindings for the whole target; now the field has no
accessor.
---
 .../generate_bindings/generate_struct_and_union.rs          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs b/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
index cf5eaa1..6067a23 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_struct_and_union.rs
@@ -1037,9 +1037,9 @@ fn cc_struct_no_unique_address_impl(
         // Can't use `get_field_rs_type_kind_for_layout` here, because we want to dig
         // into no_unique_address fields, despite laying them out as opaque
         // blobs of bytes.
-        let type_ident = db.rs_type_kind(field.type_().clone()).with_context(|| {
-            format!("Failed to format type for field {field:?} on record {record:?}")
-        })?;
+        //
+        // A type that is not supported has no accessor, like the opaque blobs of other fields.
+        let Ok(type_ident) = db.rs_type_kind(field.type_().clone()) else { continue };
         no_unique_address_accessors.push(NoUniqueAddressAccessor {
             doc_comment: if field.size() == 0 {
                 // These fields are not generated at all, so they need to be documented here.
-- 
2.43.0


From cc67639b6476c9c3e44c2283054372fb7386b39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:03 +0000
Subject: [PATCH 36/43] fix: rs_bindings_from_cc: no panic on operator[] that
 takes a non-Unpin index by value

---
 .../generate_bindings/generate_function.rs                | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index b4612dd..4ca8a69 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -401,6 +401,14 @@ fn api_func_shape_for_operator_index<'a>(
         }
     };
 
+    if !index_type.is_unpin() {
+        bail_to_errors!(
+            errors,
+            "operator[] with a non-Unpin index by value is not yet supported, found {}",
+            index_type.display(db)
+        );
+    }
+
     let index_type_rc = Rc::new(index_type.clone());
     if return_val_is_const && method_is_const {
         generate_cc_operator_index_nonmut_impls(
-- 
2.43.0


From f5b3892344e676830496232c42828aa7db9b770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:03 +0000
Subject: [PATCH 37/43] fix: rs_bindings_from_cc: no panic on a static
 operator[], which C++23 allows

---
 rs_bindings_from_cc/generate_bindings/generate_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 4ca8a69..073367c 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -369,7 +369,7 @@ fn api_func_shape_for_operator_index<'a>(
     let return_val_is_const = pointee.pointee_type().is_const();
 
     let Some(instance_method_metadata) = func.instance_method_metadata() else {
-        panic!("cannot tell whether operator[] is const or not, shouldn't happen")
+        bail_to_errors!(errors, "static operator[] is not supported")
     };
     let method_is_const = instance_method_metadata.is_const();
 
-- 
2.43.0


From 8d27ac3ce3f57c351c6c053f87a6d24048b406a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:25 +0000
Subject: [PATCH 38/43] fix: error_report: the order of entries does not depend
 on item IDs

The IDs of C++ items are addresses of AST nodes, so the same headers gave
reports whose entries were in a different order from run to run.
---
 common/error_report.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/common/error_report.rs b/common/error_report.rs
index a07c59c..abf4b84 100644
--- a/common/error_report.rs
+++ b/common/error_report.rs
@@ -337,7 +337,18 @@ impl ErrorReport {
     }
 
     pub fn to_json_string(&self) -> String {
-        serde_json::to_string_pretty(&SerializeIterator(self.map.borrow().values()))
+        let map = self.map.borrow();
+        // The ID of an item may be the address of an AST node, which differs from run to run, so
+        // it must not decide the order.
+        let mut entries: Vec<_> = map.values().collect();
+        entries.sort_by(|a, b| {
+            (&a.unique_name, &a.name, &a.defining_target).cmp(&(
+                &b.unique_name,
+                &b.name,
+                &b.defining_target,
+            ))
+        });
+        serde_json::to_string_pretty(&SerializeIterator(entries.into_iter()))
             .expect("ErrorReporting serialization to JSON failed unexpectedly")
     }
 
-- 
2.43.0


From e60264154e2c3d861159b3bd0249969b4ad6dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:13 +0000
Subject: [PATCH 39/43] fix: rs_bindings_from_cc: spell out an elided lifetime
 in CRef, CMut and RvalueReference

---
 .../generate_bindings/database/rs_snippet.rs               | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/database/rs_snippet.rs b/rs_bindings_from_cc/generate_bindings/database/rs_snippet.rs
index a43e0ca..add0d34 100644
--- a/rs_bindings_from_cc/generate_bindings/database/rs_snippet.rs
+++ b/rs_bindings_from_cc/generate_bindings/database/rs_snippet.rs
@@ -1630,7 +1630,6 @@ impl<'a> RsTypeKind<'a> {
                 }
             }
             RsTypeKind::RvalueReference { referent: _, lifetime, mutability } => {
-                let lifetime = lifetime.format_for_reference();
                 match mutability {
                     Mutability::Mut => Ok(RsSnippet {
                         tokens: quote! {self: ::ctor::RvalueReference<#lifetime, Self>},
@@ -1875,14 +1874,15 @@ impl<'a> RsTypeKind<'a> {
             }
             RsTypeKind::Reference { referent, mutability, lifetime, is_cref } => {
                 let mut_ = mutability.format_for_reference();
-                let lifetime = lifetime.format_for_reference();
                 let referent_ = referent.to_token_stream_replacing_by_self(db, self_type);
                 let mut tokens = if *is_cref {
+                    // A generic argument, unlike `&`, needs even an elided lifetime spelled out.
                     match mutability {
                         Mutability::Mut => quote! { ::cref::CMut<#lifetime, #referent_> },
                         Mutability::Const => quote! { ::cref::CRef<#lifetime, #referent_> },
                     }
                 } else {
+                    let lifetime = lifetime.format_for_reference();
                     quote! {& #lifetime #mut_ #referent_ }
                 };
                 if mutability == &Mutability::Mut && !referent.is_unpin() && !is_cref {
@@ -2364,14 +2364,15 @@ impl<'a> RsTypeKind<'a> {
                 }
             }
             RsTypeKind::Reference { referent, mutability, lifetime, is_cref } => {
-                let lifetime = lifetime.format_for_reference();
                 let referent_tokens = referent.to_token_stream(db);
                 let mut tokens = if *is_cref {
+                    // A generic argument, unlike `&`, needs even an elided lifetime spelled out.
                     match mutability {
                         Mutability::Mut => quote! { ::cref::CMut<#lifetime, #referent_tokens> },
                         Mutability::Const => quote! { ::cref::CRef<#lifetime, #referent_tokens> },
                     }
                 } else {
+                    let lifetime = lifetime.format_for_reference();
                     let mut_ = mutability.format_for_reference();
                     quote! {& #lifetime #mut_ #referent_tokens}
                 };
-- 
2.43.0


From 0edf80c5d3c7e5688b45de0d91375416cde9980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 40/43] fix: rs_bindings_from_cc: functions that fail get
 distinct names of their errors, which are identifiers

---
 .../generate_bindings/generate_function.rs             |  4 ++--
 .../generate_bindings/generate_function_thunk.rs       | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 073367c..70cb251 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -20,7 +20,7 @@ use flagset::FlagSet;
 use generate_comment::{generate_doc_comment, parse_extended_source_loc};
 use generate_function_thunk::{
     generate_function_assertion, generate_function_thunk, generate_function_thunk_impl,
-    generate_inline_cpp_call, thunk_ident,
+    generate_inline_cpp_call, thunk_ident, unique_ident_fragment,
 };
 use ir::*;
 use itertools::Itertools;
@@ -2123,7 +2123,7 @@ pub fn generate_function<'a>(
     let ErrorsAsUnsatisfiedTraitBound { unsatisfied_where_clause, unimplemented_trait_def } =
         errors_as_unsatisfied_trait_bound(
             &reportable_status,
-            &format!("{sep}{derived_class_prefix}{sep}{}", func.mangled_name()),
+            &format!("{sep}{derived_class_prefix}{sep}{}", unique_ident_fragment(db, &func)),
         );
 
     let create_func_body = || -> Result<TokenStream> {
diff --git a/rs_bindings_from_cc/generate_bindings/generate_function_thunk.rs b/rs_bindings_from_cc/generate_bindings/generate_function_thunk.rs
index 2af9213..be7a86c 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function_thunk.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function_thunk.rs
@@ -285,6 +285,16 @@ fn compute_disambiguator_hash(func: &Func) -> String {
     format!("{:08x}_", hash.0 as u32)
 }
 
+/// Returns a fragment of an identifier that no other function of the bindings shares.
+pub fn unique_ident_fragment<'a>(db: &BindingsGenerator<'a>, func: &Func<'a>) -> String {
+    let disambiguator = if db.has_conflicting_mangled_name(func) {
+        compute_disambiguator_hash(func)
+    } else {
+        "".to_string()
+    };
+    format!("{disambiguator}{}", ident_fragment_from_mangled_name(func.mangled_name()))
+}
+
 pub fn thunk_ident<'a>(db: &BindingsGenerator<'a>, func: &Func<'a>) -> Ident {
     let disambiguator = {
         let need_disambiguation = db.has_conflicting_mangled_name(func)
-- 
2.43.0


From 069282d33a905b977bcac514a70f6fec9188680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:50 +0000
Subject: [PATCH 41/43] fix: rs_bindings_from_cc: check by-value parameters
 before the shape of the function changes them

---
 .../generate_bindings/generate_function.rs             | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs_bindings_from_cc/generate_bindings/generate_function.rs b/rs_bindings_from_cc/generate_bindings/generate_function.rs
index 70cb251..90fa11e 100644
--- a/rs_bindings_from_cc/generate_bindings/generate_function.rs
+++ b/rs_bindings_from_cc/generate_bindings/generate_function.rs
@@ -1979,6 +1979,10 @@ pub fn generate_function<'a>(
     let (mut param_types, mut return_type) = rs_type_kinds_for_func(db, &func)?;
 
     let errors = Errors::new();
+    // The shape of the function may turn parameters that C++ takes by value into references, so
+    // these errors must be collected first.
+    let by_value_errors =
+        param_types.iter().filter_map(|t| t.check_by_value().err()).collect_vec();
     let (func_name, impl_kind) =
         if let Some(values) = api_func_shape(db, &func, &mut param_types, &return_type, &errors) {
             values
@@ -1997,6 +2001,9 @@ pub fn generate_function<'a>(
         errors.add(err);
         errors.consolidate()?;
     }
+    for err in by_value_errors {
+        errors.add(err);
+    }
     let param_idents =
         func.params().iter().map(|p| make_rs_ident(p.identifier().as_str())).collect_vec();
 
@@ -2904,9 +2911,6 @@ fn function_signature<'a>(
         // One exception is the first parameter, as it points to the derived
         // record.
         let should_replace_by_self = derived_record.is_none() || i == 0;
-        if let Err(err) = type_.check_by_value() {
-            errors.add(err);
-        }
         let quoted_type_or_self =
             if let (Some(self_type), true) = (self_type.as_ref(), should_replace_by_self) {
                 type_.to_token_stream_replacing_by_self(db, Some(self_type))
-- 
2.43.0


From 9f8f73e803c82e8c34778afb7170826d3dfa5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:53 +0000
Subject: [PATCH 42/43] fix: rs_bindings_from_cc: report constants whose value
 has no Rust spelling

---
 rs_bindings_from_cc/generate_bindings/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rs_bindings_from_cc/generate_bindings/lib.rs b/rs_bindings_from_cc/generate_bindings/lib.rs
index b96a675..8112f10 100644
--- a/rs_bindings_from_cc/generate_bindings/lib.rs
+++ b/rs_bindings_from_cc/generate_bindings/lib.rs
@@ -215,6 +215,13 @@ fn generate_constant<'a>(
     let value = match integer_constant_to_token_stream(db, constant.value(), &type_) {
         Ok(value) => value,
         Err(e) => {
+            db.errors().report(&e);
+            if constant.must_bind() {
+                db.fatal_errors().report(&format!(
+                    "error: constant `{}` could not be bound\n  {e:#}",
+                    constant.cc_name().as_str()
+                ));
+            }
             return Ok(ApiSnippets {
                 generated_items: HashMap::from([(
                     constant.id(),
-- 
2.43.0


From c2faaa185efd642678112ee6affe964f7daa39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:42 +0000
Subject: [PATCH 43/43] fix: rs_bindings_from_cc: validate the calling
 convention of a function when its message is read

---
 rs_bindings_from_cc/ir.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs_bindings_from_cc/ir.rs b/rs_bindings_from_cc/ir.rs
index 16b36aa..07213b6 100644
--- a/rs_bindings_from_cc/ir.rs
+++ b/rs_bindings_from_cc/ir.rs
@@ -1294,6 +1294,7 @@ impl<'pb> ProtoToIr for FuncView<'pb> {
         self.deprecated_opt().into_option().validate()?;
         self.unknown_attr_opt().into_option().validate()?;
         self.safety_annotation().validate()?;
+        self.call_conv().validate()?;
         self.source_loc().validate()?;
         for s in self.lifetime_inputs().iter() {
             s.validate()?;
-- 
2.43.0


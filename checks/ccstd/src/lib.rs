#![feature(allocator_api, cfg_sanitize)]
#![allow(non_camel_case_types, non_snake_case, dead_code, unused, unsafe_op_in_unsafe_fn)]
//! The real smart pointers, vector and allocator of `cc_std`, over the real `std_allocator.h`.

pub mod crubit_cc_std_internal {
    pub mod std_allocator {
        pub use crate::cpp_std_allocator_impl::StdAllocator;
        use core::ffi::c_void;
        use core::mem::MaybeUninit;

        extern "C" {
            fn h_cpp_new(n: usize, a: usize) -> *mut c_void;
            fn h_cpp_delete(p: *mut c_void, n: usize, a: usize);
            fn h_ref(c: *mut shared_weak_count);
            fn h_unref(c: *mut shared_weak_count);
            fn h_use_count(c: *const shared_weak_count) -> usize;
            fn h_emplace(p: *mut DynControlBlock, d: Option<Deleter>) -> *mut shared_weak_count;
            fn h_dcb_drop(p: *mut DynControlBlock);
        }
        pub unsafe fn cpp_new(n: usize, a: usize) -> *mut c_void {
            if crate::env::alloc_fails() {
                return core::ptr::null_mut();
            }
            h_cpp_new(n, a)
        }
        pub unsafe fn cpp_delete(p: *mut c_void, n: usize, a: usize) {
            h_cpp_delete(p, n, a)
        }
        pub unsafe fn shared_ptr_ref(c: *mut shared_weak_count) {
            h_ref(c)
        }
        pub unsafe fn shared_ptr_unref(c: *mut shared_weak_count) {
            h_unref(c)
        }
        pub unsafe fn shared_ptr_use_count(c: *const shared_weak_count) -> usize {
            h_use_count(c)
        }
        #[repr(C)]
        pub struct shared_weak_count {
            _opaque: [u64; 3],
        }
        #[repr(u8)]
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub enum FunctionToCall {
            kDestroyValue = 0,
            kDeleteControlBlock = 1,
        }
        type Deleter = unsafe extern "C" fn(FunctionToCall, *mut DynControlBlock);
        #[repr(C)]
        pub struct DynControlBlock {
            _base: [MaybeUninit<u64>; 3],
            pub deleter: Option<Deleter>,
        }
        impl DynControlBlock {
            pub unsafe fn Emplace(p: *mut DynControlBlock, d: Option<Deleter>) -> *mut shared_weak_count {
                h_emplace(p, d)
            }
        }
        impl Drop for DynControlBlock {
            fn drop(&mut self) {
                unsafe { h_dcb_drop(self) }
            }
        }
    }
}
#[path = "/repo/support/cc_std_impl/cpp_std_allocator.rs"]
mod cpp_std_allocator_impl;
#[path = "/repo/support/cc_std_impl/vector.rs"]
mod vector_impl;
#[path = "/repo/support/cc_std_impl/shared_ptr.rs"]
mod shared_ptr_impl;
#[path = "/repo/support/cc_std_impl/unique_ptr.rs"]
mod unique_ptr_impl;
#[path = "/repo/support/cc_std_impl/vector_partial_eq.rs"]
mod vector_partial_eq_impl;
pub mod std {
    pub use crate::shared_ptr_impl::shared_ptr;
    pub use crate::unique_ptr_impl::{unique_ptr, virtual_unique_ptr};
    pub use crate::vector_impl::vector;
}
pub mod env;

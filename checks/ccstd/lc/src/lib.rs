#![feature(allocator_api, cfg_sanitize)]
#![allow(non_camel_case_types, non_snake_case, dead_code, unused, unsafe_op_in_unsafe_fn)]
//! The vector in its other layout (pointer, length, capacity).
pub mod crubit_cc_std_internal {
    pub mod std_allocator {
        use core::alloc::{AllocError, Allocator, Layout};
        use core::ptr::NonNull;
        extern "Rust" {
            fn lc_new(n: usize, a: usize) -> *mut u8;
            fn lc_delete(p: *mut u8, n: usize, a: usize);
        }
        #[derive(Clone)]
        pub struct StdAllocator {}
        unsafe impl Allocator for StdAllocator {
            fn allocate(&self, l: Layout) -> Result<NonNull<[u8]>, AllocError> {
                let p = unsafe { lc_new(l.size(), l.align()) };
                Ok(NonNull::slice_from_raw_parts(NonNull::new(p).ok_or(AllocError)?, l.size()))
            }
            unsafe fn deallocate(&self, p: NonNull<u8>, l: Layout) {
                lc_delete(p.as_ptr(), l.size(), l.align())
            }
        }
    }
}
#[path = "/repo/support/cc_std_impl/vector.rs"]
mod vector_impl;
pub use vector_impl::vector;
#[path = "/repo/support/cc_std_impl/vector_partial_eq.rs"]
mod vector_partial_eq_impl;
pub mod std {
    pub use crate::vector_impl::vector;
}

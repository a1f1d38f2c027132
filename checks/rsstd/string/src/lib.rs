#![feature(impl_trait_in_assoc_type, type_alias_impl_trait, cfg_select, allocator_api)]
#![allow(non_camel_case_types, non_snake_case, dead_code, unused, unsafe_op_in_unsafe_fn, deprecated, stable_features)]
//! The real strings of `cc_std`, over the real `conversion_function_helpers.h` (whose `std::string`
//! is a stand-in with libc++'s size, see `cpp/simstring.h`).

pub mod crubit_cc_std_internal {
    pub mod conversion_function_helpers {
        use core::ffi::c_void;
        unsafe extern "C" {
            fn s_size(s: *const c_void) -> usize;
            fn s_data(s: *const c_void) -> *const i8;
            fn s_mut_data(s: *mut c_void) -> *mut i8;
            fn s_create_in_place(d: *mut c_void, s: *mut c_void);
            fn s_create(b: *const i8, n: usize) -> *mut c_void;
            fn s_move_owned(s: *mut c_void) -> *mut c_void;
            fn s_copy_owned(s: *mut c_void) -> *mut c_void;
            fn s_equal(a: *const c_void, b: *const c_void) -> bool;
            fn s_delete(s: *mut c_void);
            fn s_default_in_place(d: *mut c_void);
            fn s_buffer_in_place(d: *mut c_void, b: *const i8, n: usize);
            fn s_copy_in_place(d: *mut c_void, s: *const c_void);
            fn s_destroy_in_place(s: *mut c_void);
        }
        pub unsafe fn StringGetSize(s: *const c_void) -> usize {
            s_size(s)
        }
        pub unsafe fn StringGetData(s: *const c_void) -> *const i8 {
            s_data(s)
        }
        pub unsafe fn StringGetMutData(s: *mut c_void) -> *mut i8 {
            s_mut_data(s)
        }
        pub unsafe fn StringCreateInPlace(d: *mut c_void, s: *mut c_void) {
            s_create_in_place(d, s)
        }
        pub unsafe fn StringCreateFromBuffer(b: *const i8, n: usize) -> *mut c_void {
            s_create(b, n)
        }
        pub unsafe fn StringMoveOwnedPtr(s: *mut c_void) -> *mut c_void {
            s_move_owned(s)
        }
        pub unsafe fn StringCopyOwnedPtr(s: *mut c_void) -> *mut c_void {
            s_copy_owned(s)
        }
        pub unsafe fn StringEqual(a: *const c_void, b: *const c_void) -> bool {
            s_equal(a, b)
        }
        pub unsafe fn StringDelete(s: *mut c_void) {
            s_delete(s)
        }
        pub unsafe fn StringCreateDefaultInPlace(d: *mut c_void) {
            s_default_in_place(d)
        }
        pub unsafe fn StringCreateFromBufferInPlace(d: *mut c_void, b: *const i8, n: usize) {
            s_buffer_in_place(d, b, n)
        }
        pub unsafe fn StringCreateCopyInPlace(d: *mut c_void, s: *const c_void) {
            s_copy_in_place(d, s)
        }
        pub unsafe fn StringDestroyInPlace(s: *mut c_void) {
            s_destroy_in_place(s)
        }
    }
}

#[path = "/repo/support/cc_std_impl/lossy_utf8.rs"]
mod lossy_utf8_impl;
pub use lossy_utf8_impl::lossy_utf8;
#[path = "/repo/support/cc_std_impl/slice_ptr.rs"]
mod slice_ptr_impl;
pub use slice_ptr_impl::slice_ptr;
#[path = "/repo/support/cc_std_impl/string.rs"]
pub mod string_impl;
#[path = "/repo/support/cc_std_impl/string_view.rs"]
pub mod string_view_impl;

pub mod std {
    pub use crate::string_impl::{new_string, string_wrapper, BoxedCppStringAbi};
    pub use crate::string_view_impl::string_view;
    /// What the generator makes of libc++'s `std::string_view`.
    #[repr(C)]
    #[derive(Clone, Copy)]
    pub struct raw_string_view {
        pub __data_: *const i8,
        pub __size_: usize,
    }
    impl raw_string_view {
        pub fn data(s: &Self) -> *const i8 {
            s.__data_
        }
        pub fn begin(s: &Self) -> *const i8 {
            s.__data_
        }
        pub fn end(s: &Self) -> *const i8 {
            s.__data_.wrapping_add(s.__size_)
        }
    }
}

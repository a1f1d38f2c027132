//! What the generated bindings of cpp_waker.h offer to dyn_future.rs.
pub mod rs_std {
    #[repr(C)]
    pub struct CppWaker {
        _opaque: [u8; 0],
    }
}

#![no_std]
#[derive(Clone, Copy, Default)] pub struct Raw { pub a: u32 }
pub fn raw(r: Raw) -> u32 { r.a }
pub fn zz_last_function() {}

//! A crate with one of most things.
#![allow(dead_code)]
use std::collections::HashMap;
/// A struct with private state.
#[derive(Clone, Default, Debug)]
pub struct Owner { pub x: i32, name: String }
impl Owner {
    pub fn new(x: i32) -> Self { Owner { x, name: String::new() } }
    pub fn len(&self) -> usize { self.name.len() }
    pub fn push(&mut self, c: char) { self.name.push(c) }
    pub fn consume(self) -> i32 { self.x }
    #[must_use] pub fn by_ref<'a>(&'a self, other: &'a Owner) -> &'a i32 { if other.x > 0 { &self.x } else { &other.x } }
    pub const LIMIT: u32 = 17;
}
impl Drop for Loud { fn drop(&mut self) {} }
pub struct Loud(pub u8, pub u16);
#[derive(Clone, Copy)] pub enum Plain { A = 3, B = 9, C }
pub enum Fancy { A(i32), B { s: u8 }, C }
#[repr(C)] pub union Both { pub a: u32, pub b: f32 }
#[repr(C)] #[derive(Copy, Clone)] pub struct Point { pub x: f64, pub y: f64 }
pub trait Shape { fn area(&self) -> f64; fn scale(&mut self, by: f64); }
impl Shape for Point { fn area(&self) -> f64 { self.x * self.y } fn scale(&mut self, by: f64) { self.x *= by } }
pub const ANSWER: i32 = 42;
pub const NAME: &str = "rich";
pub type Alias = Owner;
pub mod inner {
    pub mod deeper { pub fn deep_fn(p: super::super::Point) -> super::super::Point { p } pub struct Deep { pub d: u64 } }
    pub struct Borrow<'a>(pub &'a i32);
    pub fn borrow_fn(t: Borrow<'_>) -> i32 { *t.0 }
    pub use super::Owner as ReExported;
}
pub fn maybe(x: i32, s: Owner) -> Option<Owner> { if x > 0 { Some(s) } else { None } }
pub fn maybe_int(x: i32) -> Option<i32> { Some(x) }
pub fn fallible(x: i32) -> Result<i32, u8> { if x > 0 { Ok(x) } else { Err(1) } }
pub fn pair(x: i32) -> (i32, f64) { (x, 0.5) }
pub fn slice_sum(s: &[i32]) -> i32 { s.iter().sum() }
pub fn text(s: &str) -> usize { s.len() }
pub fn pointer(p: *const Point, q: *mut i32) -> bool { p.is_null() && q.is_null() }
pub fn callback(f: extern "C" fn(i32) -> i32) -> i32 { f(1) }
pub fn unsupported_map() -> HashMap<i32, Vec<u8>> { HashMap::new() }
pub fn unsupported_generic<T: Clone>(t: T) -> T { t }
pub fn unsupported_impl(x: impl Fn(i32)) { x(1) }
pub async fn unsupported_async() {}
#[deprecated] pub fn old_fn() {}
pub unsafe fn danger(p: *const i32) -> i32 { unsafe { *p } }
pub fn array(a: [i32; 4]) -> [i32; 4] { a }
pub fn r#match(r#type: i32) -> i32 { r#type }
pub fn zz_last_function() {}

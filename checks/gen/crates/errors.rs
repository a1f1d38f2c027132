//! Nearly everything here cannot be bound.
use std::collections::{BTreeMap, HashMap, HashSet};
pub struct Gen<T>(pub T);
pub fn e1() -> Gen<HashMap<u8, u8>> { Gen(HashMap::new()) }
pub fn e2(_: HashSet<i8>) {}
pub fn e3(_: BTreeMap<i8, Box<dyn Fn()>>) {}
pub fn e4<const N: usize>(_: [u8; N]) {}
pub fn e5(_: &dyn std::fmt::Debug) {}
pub enum V { P { a: u8 }, Q { b: Vec<u8> }, R(HashMap<u8, u8>), S }
pub struct Into3(pub i32);
pub struct Many(Vec<u8>);
pub trait HasGeneric { fn g<T>(&self, t: T); type Assoc; }
impl HasGeneric for Into3 { fn g<T>(&self, _: T) {} type Assoc = HashMap<u8, u8>; }
pub trait WithConst { const K: u8; fn id(self) -> Self; }
impl WithConst for Into3 { const K: u8 = 3; fn id(self) -> Self { self } }
pub static GLOBAL: i32 = 3;
pub const BAD: &[Option<u8>] = &[None];
pub type BadAlias = HashMap<u8, Gen<u8>>;
#[macro_export] macro_rules! exported { () => {} }
pub mod a { pub struct Same; pub fn f(_: super::Gen<Same>) {} }
pub mod b { pub struct Same; pub fn f(_: super::Gen<Same>) {} }
pub fn zz_last_function() {}

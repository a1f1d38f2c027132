#[derive(Clone, Default)] pub struct FromDep { pub v: i64, hidden: Vec<u8> }
#[repr(C)] #[derive(Clone, Copy)] pub struct PodDep { pub a: u8, pub b: u32 }
pub enum DepEnum { X, Y(i32) }
impl FromDep { pub fn make(v: i64) -> Self { FromDep { v, hidden: vec![] } } }
pub mod nested { pub struct InDep { pub q: u16 } pub trait DepTrait { fn t(&self) -> i32; } }

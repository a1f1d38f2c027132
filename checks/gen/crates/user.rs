extern crate dep;
pub use dep::nested::InDep as Renamed;
pub struct Holder { pub f: dep::PodDep, g: dep::FromDep }
impl Holder { pub fn get(&self) -> &dep::FromDep { &self.g } pub fn put(&mut self, d: dep::FromDep) { self.g = d } }
pub fn take(d: dep::FromDep, p: dep::PodDep) -> i64 { d.v + p.b as i64 }
pub fn some(d: dep::DepEnum) -> Option<dep::FromDep> { match d { dep::DepEnum::X => None, _ => Some(Default::default()) } }
impl dep::nested::DepTrait for Holder { fn t(&self) -> i32 { 3 } }
pub fn zz_last_function() {}

//! What the standard library's traits become, if they can.
#[derive(Clone, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Owner { pub x: i32, name: String }
impl std::fmt::Display for Owner { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.x) } }
impl From<i32> for Owner { fn from(x: i32) -> Self { Owner { x, name: String::new() } } }
impl From<Owner> for i64 { fn from(o: Owner) -> i64 { o.x as i64 } }
#[derive(Clone, Copy, PartialEq, PartialOrd)] pub struct Num(pub f64);
impl std::ops::Add for Num { type Output = Num; fn add(self, o: Num) -> Num { Num(self.0 + o.0) } }
impl std::ops::Add<i32> for Num { type Output = Num; fn add(self, o: i32) -> Num { Num(self.0 + o as f64) } }
impl std::ops::SubAssign for Num { fn sub_assign(&mut self, o: Num) { self.0 -= o.0 } }
impl std::ops::Neg for Num { type Output = Num; fn neg(self) -> Num { Num(-self.0) } }
pub struct Gen<T>(pub T);
pub struct Into3(pub i32);
pub struct Many(Vec<u8>);
impl From<Into3> for i32 { fn from(i: Into3) -> i32 { i.0 } }
impl From<Into3> for char { fn from(_: Into3) -> char { 'a' } }
impl From<u8> for Into3 { fn from(i: u8) -> Self { Into3(i as i32) } }
impl From<char> for Into3 { fn from(_: char) -> Self { Into3(0) } }
impl From<u32> for Into3 { fn from(_: u32) -> Self { Into3(0) } }
impl std::ops::Add<Gen<u8>> for Into3 { type Output = Gen<u8>; fn add(self, g: Gen<u8>) -> Gen<u8> { g } }
impl PartialEq<Gen<u8>> for Into3 { fn eq(&self, _: &Gen<u8>) -> bool { true } }
impl PartialOrd<Gen<u8>> for Into3 { fn partial_cmp(&self, _: &Gen<u8>) -> Option<std::cmp::Ordering> { None } }
impl IntoIterator for Many { type Item = u8; type IntoIter = std::vec::IntoIter<u8>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a> IntoIterator for &'a Many { type Item = &'a u8; type IntoIter = std::slice::Iter<'a, u8>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
pub fn zz_last_function() {}

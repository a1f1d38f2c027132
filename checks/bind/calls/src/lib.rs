//! Every way for C++ to get into Rust, each of which says so.
#![allow(clippy::all)]

extern "C-unwind" {
    fn sim_enter(what: i64);
}
fn enter(what: i64) {
    unsafe { sim_enter(what) }
}

pub struct Obj {
    pub v: i64,
}
impl Default for Obj {
    fn default() -> Obj { enter(1); Obj { v: 1 } }
}
impl Clone for Obj {
    fn clone(&self) -> Obj { enter(2); Obj { v: self.v } }
    fn clone_from(&mut self, o: &Obj) { enter(3); self.v = o.v }
}
impl Drop for Obj {
    fn drop(&mut self) { enter(4) }
}
impl PartialEq for Obj {
    fn eq(&self, o: &Obj) -> bool { enter(5); self.v == o.v }
}
impl Eq for Obj {}
impl PartialOrd for Obj {
    fn partial_cmp(&self, o: &Obj) -> Option<std::cmp::Ordering> { enter(6); Some(self.v.cmp(&o.v)) }
}
impl Ord for Obj {
    fn cmp(&self, o: &Obj) -> std::cmp::Ordering { enter(7); self.v.cmp(&o.v) }
}
/// Ordered in part, and with other types.
pub struct Half { pub v: f64 }
impl Half { pub fn new(v: i64) -> Half { enter(70); Half { v: if v % 7 == 0 { f64::NAN } else { (v % 5) as f64 } } } }
impl PartialEq for Half {
    fn eq(&self, o: &Half) -> bool { enter(71); self.v == o.v }
}
impl PartialOrd for Half {
    fn partial_cmp(&self, o: &Half) -> Option<std::cmp::Ordering> { enter(72); self.v.partial_cmp(&o.v) }
}
impl PartialEq<Obj> for Half {
    fn eq(&self, o: &Obj) -> bool { enter(73); self.v == o.v as f64 }
}
impl PartialOrd<Obj> for Half {
    fn partial_cmp(&self, o: &Obj) -> Option<std::cmp::Ordering> { enter(74); self.v.partial_cmp(&(o.v as f64)) }
}
impl From<Obj> for i64 {
    fn from(o: Obj) -> i64 { enter(8); o.v }
}
impl From<i32> for Obj {
    fn from(v: i32) -> Obj { enter(9); Obj { v: v as i64 } }
}
impl std::fmt::Display for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { enter(10); write!(f, "obj {}", self.v)?; enter(10); f.write_str("!") }
}
impl std::fmt::Debug for Obj {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { enter(11); write!(f, "Obj {}", self.v) }
}
pub struct Iter { left: i64 }
impl Default for Iter { fn default() -> Iter { enter(12); Iter { left: 0 } } }
impl Drop for Iter { fn drop(&mut self) { enter(13) } }
impl Iterator for Iter {
    type Item = i64;
    fn next(&mut self) -> Option<i64> { enter(14); if self.left == 0 { None } else { self.left -= 1; Some(self.left) } }
}
impl IntoIterator for Obj {
    type Item = i64;
    type IntoIter = Iter;
    fn into_iter(self) -> Iter { enter(15); Iter { left: 2 } }
}
impl<'a> IntoIterator for &'a Obj {
    type Item = i64;
    type IntoIter = Iter;
    fn into_iter(self) -> Iter { enter(16); Iter { left: 2 } }
}
impl Obj {
    pub fn make(v: i64) -> Obj { enter(20); Obj { v } }
    pub fn get(&self) -> i64 { enter(21); self.v }
    pub fn set(&mut self, v: i64) { enter(22); self.v = v }
    pub fn take(self) -> i64 { enter(23); self.v }
    pub fn same(&self) -> &Obj { enter(24); self }
    pub fn pair(self, o: Obj) -> (Obj, Obj) { enter(25); (o, self) }
    pub fn arr(o: [Obj; 2]) -> [Obj; 2] { enter(26); o }
    pub fn opt(o: Option<Obj>) -> Option<Obj> { enter(27); o }
    pub fn res(o: Result<Obj, Obj>) -> Result<Obj, Obj> { enter(28); o }
    pub fn many(n: i64) -> Vec<Obj> { enter(29); (0..n).map(|v| Obj { v }).collect() }
    pub extern "C" fn c_get(&self) -> i64 { enter(30); self.v }
    pub unsafe fn raw(o: *const Obj) -> i64 { enter(31); (*o).v }
    pub fn text(s: &str) -> i64 { enter(32); s.len() as i64 }
    pub fn slice(s: &[i64]) -> i64 { enter(33); s.iter().sum() }
}
pub fn free(v: i64) -> i64 { enter(40); v + 1 }
pub extern "C" fn free_c(v: i64) -> i64 { enter(41); v + 2 }
#[unsafe(no_mangle)]
pub extern "C" fn calls_free_plain(v: i64) -> i64 { enter(42); v + 3 }
pub fn never() -> ! { enter(43); std::process::exit(77) }
pub mod inner { pub fn free(v: i64) -> i64 { super::enter(44); v + 4 } }
pub fn giver() -> extern "C" fn(i64) -> i64 { enter(45); free_c }
pub async fn later(v: i64) -> i64 { enter(46); v + 5 }
pub async fn later_obj(v: i64) -> Obj { enter(47); let o = Obj::make(v); Twice(0).await; enter(48); o }
/// Pending once.
struct Twice(i32);
impl std::future::Future for Twice {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, c: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        enter(49);
        self.0 += 1;
        if self.0 > 1 { return std::task::Poll::Ready(()); }
        let w = c.waker().clone();
        w.wake_by_ref();
        w.wake();
        std::task::Poll::Pending
    }
}

pub trait Tr {
    fn by_ref(&self, v: i64) -> i64;
    fn by_mut(&mut self, v: i64) -> i64;
    fn by_value(self) -> Obj;
    fn none(v: i64) -> i64;
    fn given(&self) -> i64 { enter(54); 54 }
}
impl Tr for Obj {
    fn by_ref(&self, v: i64) -> i64 { enter(50); self.v + v }
    fn by_mut(&mut self, v: i64) -> i64 { enter(51); self.v += v; self.v }
    fn by_value(self) -> Obj { enter(52); self }
    fn none(v: i64) -> i64 { enter(53); v }
}
#[derive(Clone, Default)]
pub enum En { A(Obj), B { x: i64, o: Obj }, #[default] C }
impl En {
    pub fn make(v: i64) -> En { enter(60); match v % 3 { 0 => En::A(Obj { v }), 1 => En::B { x: v, o: Obj { v } }, _ => En::C } }
    pub fn look(&self) -> i64 { enter(61); match self { En::A(o) => o.v, En::B { x, o } => *x + o.v, En::C => 0 } }
}
pub union Un { pub a: i64, pub b: f64 }
impl Un { pub fn new(v: i64) -> Un { enter(62); Un { a: v } } }
pub static ST: i64 = 5;

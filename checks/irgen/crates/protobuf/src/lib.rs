//! The part of the protobuf runtime that Crubit's code uses, without the wire format.
use std::fmt;

/// A string as it comes in a message: bytes, which need not be UTF-8.
#[derive(Clone, PartialEq, Eq, Default, PartialOrd, Ord, Hash)]
pub struct ProtoString(pub Vec<u8>);
impl ProtoString {
    pub fn as_view(&self) -> &ProtoStr {
        ProtoStr::new(&self.0)
    }
}
impl fmt::Debug for ProtoString {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        String::from_utf8_lossy(&self.0).fmt(f)
    }
}
impl From<&str> for ProtoString {
    fn from(s: &str) -> Self {
        ProtoString(s.as_bytes().to_vec())
    }
}
impl From<String> for ProtoString {
    fn from(s: String) -> Self {
        ProtoString(s.into_bytes())
    }
}

#[repr(transparent)]
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ProtoStr([u8]);
impl ProtoStr {
    fn new(b: &[u8]) -> &ProtoStr {
        // SAFETY: a transparent wrapper.
        unsafe { &*(b as *const [u8] as *const ProtoStr) }
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn to_str(&self) -> Result<&str, std::str::Utf8Error> {
        std::str::from_utf8(&self.0)
    }
}
impl Default for &ProtoStr {
    fn default() -> Self {
        ProtoStr::new(&[])
    }
}
impl fmt::Debug for ProtoStr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        String::from_utf8_lossy(&self.0).fmt(f)
    }
}
impl fmt::Display for ProtoStr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        String::from_utf8_lossy(&self.0).fmt(f)
    }
}

pub trait Proxied {
    type View<'msg>
    where
        Self: 'msg;
    fn view(&self) -> Self::View<'_>;
}
macro_rules! scalars {
    ($($t:ty),*) => {$(
        impl Proxied for $t {
            type View<'msg> = $t;
            fn view(&self) -> $t {
                *self
            }
        }
    )*};
}
scalars!(i32, i64, u64, bool);
impl Proxied for ProtoString {
    type View<'msg> = &'msg ProtoStr;
    fn view(&self) -> &ProtoStr {
        self.as_view()
    }
}

#[derive(Debug)]
pub struct RepeatedView<'msg, T>(pub &'msg [T]);
impl<T> Clone for RepeatedView<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for RepeatedView<'_, T> {}
impl<'msg, T: Proxied> RepeatedView<'msg, T> {
    pub fn iter(&self) -> RepeatedIter<'msg, T> {
        RepeatedIter(self.0.iter())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn get(&self, i: usize) -> Option<T::View<'msg>> {
        self.0.get(i).map(T::view)
    }
}
impl<'msg, T: Proxied> IntoIterator for RepeatedView<'msg, T> {
    type Item = T::View<'msg>;
    type IntoIter = RepeatedIter<'msg, T>;
    fn into_iter(self) -> RepeatedIter<'msg, T> {
        self.iter()
    }
}
pub struct RepeatedIter<'msg, T>(std::slice::Iter<'msg, T>);
impl<'msg, T: Proxied> Iterator for RepeatedIter<'msg, T> {
    type Item = T::View<'msg>;
    fn next(&mut self) -> Option<T::View<'msg>> {
        self.0.next().map(T::view)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T: Proxied> ExactSizeIterator for RepeatedIter<'_, T> {}

/// The entries of a map, in the order in which the hash table would have them.
#[derive(Debug)]
pub struct MapView<'msg, K, V>(pub &'msg [(K, V)]);
impl<K, V> Clone for MapView<'_, K, V> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K, V> Copy for MapView<'_, K, V> {}
impl<'msg, K: Proxied, V: Proxied> MapView<'msg, K, V> {
    pub fn iter(&self) -> impl Iterator<Item = (K::View<'msg>, V::View<'msg>)> + use<'msg, K, V> {
        self.0.iter().map(|(k, v)| (k.view(), v.view()))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

pub trait TakeFrom<F> {
    fn take_from(&mut self, from: F);
}

/// Messages in which one thing can be made wrong.
pub trait Damage {
    fn damage(&mut self, v: &mut Damager);
}

/// Counts the things in a message that can be wrong, and makes the one with the number `at` wrong.
pub struct Damager {
    pub at: u64,
    pub how: u64,
    pub seen: u64,
    /// What was done, and to which field.
    pub done: Option<(&'static str, &'static str)>,
}
impl Damager {
    pub fn new(at: u64, how: u64) -> Self {
        Damager { at, how, seen: 0, done: None }
    }
    fn here(&mut self) -> bool {
        self.seen += 1;
        self.seen - 1 == self.at && self.done.is_none()
    }
    pub fn message<T: Default>(&mut self, what: &'static str, x: &mut Option<Box<T>>) {
        if self.here() {
            self.done = Some((if x.is_some() { "message-missing" } else { "message-empty" }, what));
            *x = if x.is_some() { None } else { Some(Default::default()) };
        }
    }
    pub fn oneof<T>(&mut self, what: &'static str, x: &mut Option<T>) {
        if x.is_some() && self.here() {
            self.done = Some(("oneof-not-set", what));
            *x = None;
        }
    }
    pub fn string(&mut self, what: &'static str, x: &mut ProtoString) {
        if self.here() {
            let at = x.0.len() / 2;
            match self.how % 3 {
                0 => {
                    self.done = Some(("string-not-utf8", what));
                    x.0.insert(at, 0xff);
                }
                1 => {
                    self.done = Some(("string-empty", what));
                    x.0.clear();
                }
                _ => {
                    self.done = Some(("string-cut", what));
                    x.0.truncate(at);
                }
            }
        }
    }
    pub fn number(&mut self, what: &'static str, x: &mut i32) {
        if self.here() {
            self.done = Some((if self.how % 2 == 0 { "enum-unspecified" } else { "enum-unknown" }, what));
            *x = if self.how % 2 == 0 { 0 } else { 99 };
        }
    }
    /// A field that has its default, and could have text that is none.
    pub fn no_string(&mut self, what: &'static str, x: &mut Option<ProtoString>) {
        if self.here() {
            self.done = Some(("string-not-utf8", what));
            *x = Some(ProtoString(b"a\xffb".to_vec()));
        }
    }
    pub fn no_number<T: Default>(&mut self, what: &'static str, x: &mut Option<T>, set: impl FnOnce(&mut T, i32)) {
        if self.here() {
            self.done = Some(("enum-unknown", what));
            set(x.get_or_insert_default(), 99);
        }
    }
    pub fn more<T: Wrong>(&mut self, what: &'static str, x: &mut Vec<T>) {
        if self.here() {
            self.done = Some((T::KIND, what));
            let at = self.how as usize % (x.len() + 1);
            x.insert(at, T::wrong());
        }
    }
}

/// An element that does not belong in a list.
pub trait Wrong {
    const KIND: &'static str;
    fn wrong() -> Self;
}
impl Wrong for ProtoString {
    const KIND: &'static str = "string-not-utf8";
    fn wrong() -> Self {
        ProtoString(b"a\xffb".to_vec())
    }
}
impl<T: Damage + Default> Wrong for T {
    const KIND: &'static str = "element-empty";
    fn wrong() -> Self {
        T::default()
    }
}

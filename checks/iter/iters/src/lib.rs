//! Rust collections and iterators for C++ to go through.
#![allow(clippy::all)]

extern "C-unwind" {
    fn sim_tok_new(value: i64) -> u64;
    fn sim_tok_clone(id: u64) -> u64;
    fn sim_tok_drop(id: u64);
    fn sim_tok_get(id: u64) -> i64;
    fn sim_tok_set(id: u64, value: i64);
    fn sim_next(v: i64);
}

/// What is counted.
struct Tok {
    id: u64,
}
impl Tok {
    fn new(v: i64) -> Tok {
        Tok { id: unsafe { sim_tok_new(v) } }
    }
    fn get(&self) -> i64 {
        unsafe { sim_tok_get(self.id) }
    }
    fn set(&mut self, v: i64) {
        unsafe { sim_tok_set(self.id, v) }
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        Tok { id: unsafe { sim_tok_clone(self.id) } }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        unsafe { sim_tok_drop(self.id) }
    }
}

/// An item that can be copied.
#[derive(Clone)]
pub struct Cln {
    tok: Tok,
}
/// An item that cannot be copied.
pub struct Mov {
    tok: Tok,
}
macro_rules! item {
    ($t:ident) => {
        impl Default for $t {
            fn default() -> $t {
                $t::make(0)
            }
        }
        impl $t {
            pub fn make(v: i64) -> $t {
                $t { tok: Tok::new(v) }
            }
            pub fn get(&self) -> i64 {
                self.tok.get()
            }
            pub fn set(&mut self, v: i64) {
                self.tok.set(v)
            }
        }
    };
}
item!(Cln);
item!(Mov);

/// Iterators that own their items; one with nothing has the value 0.
macro_rules! owner {
    ($it:ident, $item:ident, $bag:ident, $refs:ident, $muts:ident $(, $clone:ident)?) => {
        $(#[derive($clone)])?
        pub struct $it {
            tok: Tok,
            /// Those to come, last first.
            items: Vec<$item>,
        }
        impl Default for $it {
            fn default() -> $it {
                $it { tok: Tok::new(0), items: vec![] }
            }
        }
        impl $it {
            /// Items `v`, `v` + 1, ...
            pub fn make(v: i64, n: i64) -> $it {
                $it { tok: Tok::new(v), items: (0..n).rev().map(|i| $item::make(v + i)).collect() }
            }
            pub fn left(&self) -> i64 {
                self.items.len() as i64
            }
            pub fn id(&self) -> i64 {
                self.tok.get()
            }
        }
        impl Iterator for $it {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                unsafe { sim_next(self.tok.get()) };
                self.items.pop()
            }
        }
        $(#[derive($clone)])?
        pub struct $bag {
            tok: Tok,
            items: Vec<$item>,
        }
        impl Default for $bag {
            fn default() -> $bag {
                $bag { tok: Tok::new(0), items: vec![] }
            }
        }
        impl $bag {
            pub fn make(v: i64, n: i64) -> $bag {
                $bag { tok: Tok::new(v), items: (0..n).map(|i| $item::make(v + i)).collect() }
            }
            pub fn len(&self) -> i64 {
                self.items.len() as i64
            }
            pub fn at(&self, i: i64) -> i64 {
                self.items[i as usize].get()
            }
        }
        impl IntoIterator for $bag {
            type Item = $item;
            type IntoIter = $it;
            fn into_iter(self) -> $it {
                let mut items = self.items;
                items.reverse();
                $it { tok: self.tok, items }
            }
        }
        pub struct $refs<'a> {
            tok: Tok,
            left: &'a [$item],
        }
        impl<'a> Iterator for $refs<'a> {
            type Item = &'a $item;
            fn next(&mut self) -> Option<&'a $item> {
                unsafe { sim_next(self.tok.get()) };
                self.left.split_off_first()
            }
        }
        impl<'a> Default for $refs<'a> {
            fn default() -> $refs<'a> {
                $refs { tok: Tok::new(0), left: &[] }
            }
        }
        impl<'a> IntoIterator for &'a $bag {
            type Item = &'a $item;
            type IntoIter = $refs<'a>;
            fn into_iter(self) -> $refs<'a> {
                $refs { tok: Tok::new(self.tok.get()), left: &self.items }
            }
        }
        pub struct $muts<'a> {
            tok: Tok,
            left: &'a mut [$item],
        }
        impl<'a> Iterator for $muts<'a> {
            type Item = &'a mut $item;
            fn next(&mut self) -> Option<&'a mut $item> {
                unsafe { sim_next(self.tok.get()) };
                self.left.split_off_first_mut()
            }
        }
        impl<'a> Default for $muts<'a> {
            fn default() -> $muts<'a> {
                $muts { tok: Tok::new(0), left: &mut [] }
            }
        }
        impl<'a> IntoIterator for &'a mut $bag {
            type Item = &'a mut $item;
            type IntoIter = $muts<'a>;
            fn into_iter(self) -> $muts<'a> {
                $muts { tok: Tok::new(self.tok.get()), left: &mut self.items }
            }
        }
    };
}
owner!(ItC, Cln, BagC, RefsC, MutsC, Clone);
owner!(ItM, Mov, BagM, RefsM, MutsM);

/// An iterator over plain numbers, without a destructor.
#[derive(Clone, Copy)]
pub struct Num {
    pub now: i64,
    pub stop: i64,
}
impl Num {
    pub fn make(v: i64, n: i64) -> Num {
        Num { now: v, stop: v + n }
    }
}
impl Iterator for Num {
    type Item = i64;
    fn next(&mut self) -> Option<i64> {
        unsafe { sim_next(self.now) };
        if self.now < self.stop {
            self.now += 1;
            Some(self.now - 1)
        } else {
            None
        }
    }
}

/// Cannot be moved by C++.
pub struct Fix {
    tok: Tok,
    items: Vec<Cln>,
}
impl Fix {
    pub fn make(v: i64, n: i64) -> Fix {
        Fix { tok: Tok::new(v), items: (0..n).rev().map(|i| Cln::make(v + i)).collect() }
    }
}
impl Iterator for Fix {
    type Item = Cln;
    fn next(&mut self) -> Option<Cln> {
        unsafe { sim_next(self.tok.get()) };
        self.items.pop()
    }
}

/// Gives an iterator that belongs to someone else.
pub struct Lend<'a> {
    pub to: &'a mut ItC,
}
impl<'a> IntoIterator for Lend<'a> {
    type Item = Cln;
    type IntoIter = &'a mut ItC;
    fn into_iter(self) -> &'a mut ItC {
        self.to
    }
}
pub fn lend<'a>(to: &'a mut ItC) -> Lend<'a> {
    Lend { to }
}

/// Rust goes on with what C++ began.
pub fn rest_c(it: ItC) -> i64 {
    it.map(|c| c.get()).fold(7, |h: i64, v| h.wrapping_mul(31).wrapping_add(v))
}
pub fn rest_m(it: ItM) -> i64 {
    it.map(|c| c.get()).fold(7, |h: i64, v| h.wrapping_mul(31).wrapping_add(v))
}

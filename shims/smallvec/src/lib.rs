//! Bounded-capacity stand-in for `smallvec::SmallVec`, used only when the real code is handed to
//! Kani (the real crate's inline/heap union is a union of pointers the bit-level back end cannot
//! digest).  Same observable sequence semantics for `Copy` items; a push past `CAP` panics, so the
//! stand-in can only cause an alarm, never hide one.  Part of the trusted base.
use std::ops::{Deref, DerefMut};

pub const CAP: usize = 16;

pub trait Array {
    type Item: Copy + Default;
    const N: usize;
}
impl<T: Copy + Default, const M: usize> Array for [T; M] {
    type Item = T;
    const N: usize = M;
}

pub struct SmallVec<A: Array> {
    buf: [A::Item; CAP],
    len: usize,
}

impl<A: Array> SmallVec<A> {
    pub fn new() -> Self {
        Self { buf: [A::Item::default(); CAP], len: 0 }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    pub fn push(&mut self, v: A::Item) {
        assert!(self.len < CAP, "smallvec stand-in capacity");
        self.buf[self.len] = v;
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<A::Item> {
        if self.len == 0 {
            None
        } else {
            self.len -= 1;
            Some(self.buf[self.len])
        }
    }
    pub fn from_slice(s: &[A::Item]) -> Self {
        let mut r = Self::new();
        r.extend_from_slice(s);
        r
    }
    pub fn from_vec(s: Vec<A::Item>) -> Self {
        Self::from_slice(&s)
    }
    pub fn extend_from_slice(&mut self, s: &[A::Item]) {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i]);
            i += 1;
        }
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n;
        }
    }
    pub fn clear(&mut self) {
        self.len = 0;
    }
    pub fn resize(&mut self, n: usize, v: A::Item) {
        while self.len < n {
            self.push(v);
        }
        self.truncate(n);
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn as_slice(&self) -> &[A::Item] {
        &self.buf[..self.len]
    }
    pub fn as_mut_slice(&mut self) -> &mut [A::Item] {
        &mut self.buf[..self.len]
    }
    pub fn to_vec(&self) -> Vec<A::Item> {
        self.as_slice().to_vec()
    }
    pub fn into_vec(self) -> Vec<A::Item> {
        self.as_slice().to_vec()
    }
}
impl<A: Array> Default for SmallVec<A> {
    fn default() -> Self {
        Self::new()
    }
}
impl<A: Array> Clone for SmallVec<A> {
    fn clone(&self) -> Self {
        Self { buf: self.buf, len: self.len }
    }
}
impl<A: Array> Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] {
        self.as_slice()
    }
}
impl<A: Array> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] {
        self.as_mut_slice()
    }
}
impl<A: Array> AsRef<[A::Item]> for SmallVec<A> {
    fn as_ref(&self) -> &[A::Item] {
        self.as_slice()
    }
}
impl<A: Array> std::fmt::Debug for SmallVec<A>
where
    A::Item: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.as_slice().iter()).finish()
    }
}
impl<A: Array, B: Array<Item = A::Item>> PartialEq<SmallVec<B>> for SmallVec<A>
where
    A::Item: PartialEq,
{
    fn eq(&self, o: &SmallVec<B>) -> bool {
        self.as_slice() == o.as_slice()
    }
}
impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}
impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, it: I) {
        for x in it {
            self.push(x);
        }
    }
}
impl<A: Array> FromIterator<A::Item> for SmallVec<A> {
    fn from_iter<I: IntoIterator<Item = A::Item>>(it: I) -> Self {
        let mut r = Self::new();
        r.extend(it);
        r
    }
}
impl<A: Array> From<&[A::Item]> for SmallVec<A> {
    fn from(s: &[A::Item]) -> Self {
        Self::from_slice(s)
    }
}
impl<A: Array> From<Vec<A::Item>> for SmallVec<A> {
    fn from(s: Vec<A::Item>) -> Self {
        Self::from_slice(&s)
    }
}
pub struct IntoIter<A: Array> {
    v: SmallVec<A>,
    i: usize,
}
impl<A: Array> Iterator for IntoIter<A> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if self.i < self.v.len {
            self.i += 1;
            Some(self.v.buf[self.i - 1])
        } else {
            None
        }
    }
}
impl<A: Array> IntoIterator for SmallVec<A> {
    type Item = A::Item;
    type IntoIter = IntoIter<A>;
    fn into_iter(self) -> IntoIter<A> {
        IntoIter { v: self, i: 0 }
    }
}
impl<'a, A: Array> IntoIterator for &'a SmallVec<A> {
    type Item = &'a A::Item;
    type IntoIter = std::slice::Iter<'a, A::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.as_slice().iter()
    }
}
#[macro_export]
macro_rules! smallvec {
    ($($x:expr),* $(,)?) => {{ #[allow(unused_mut)] let mut v = $crate::SmallVec::new(); $( v.push($x); )* v }};
    ($x:expr; $n:expr) => {{ let mut v = $crate::SmallVec::new(); for _ in 0..$n { v.push($x); } v }};
}

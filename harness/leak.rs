//! `Vec` and `Box` without destructors, for recursive data types under the verifier: same
//! operations, memory is never freed (the drop glue of recursive enums is what makes their symbolic
//! execution explode).  Contents and order are those of std; nothing is abstracted.
#![allow(dead_code, clippy::all)]
use std::ops::{Deref, DerefMut};

/// capacity of every vector; exceeding it aborts the proof
pub const CAP: usize = 8;
pub struct Vec<T> {
    ptr: *mut T,
    len: usize,
}
impl<T> Vec<T> {
    pub fn new() -> Self {
        let b: std::boxed::Box<[std::mem::MaybeUninit<T>; CAP]> = std::boxed::Box::new([const { std::mem::MaybeUninit::uninit() }; CAP]);
        Self { ptr: std::boxed::Box::into_raw(b) as *mut T, len: 0 }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn push(&mut self, x: T) {
        assert!(self.len < CAP, "VERIF-LIMIT vector capacity");
        unsafe { self.ptr.add(self.len).write(x) };
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.len == 0 {
            return None;
        }
        self.len -= 1;
        Some(unsafe { self.ptr.add(self.len).read() })
    }
    pub fn extend_from_slice(&mut self, s: &[T])
    where
        T: Clone,
    {
        let mut i = 0;
        while i < s.len() {
            self.push(s[i].clone());
            i += 1;
        }
    }
    pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.push(x)
        }
    }
    pub fn append(&mut self, o: &mut Self) {
        while o.len > 0 {
            let x = unsafe { o.ptr.read() };
            self.push(x);
            o.len -= 1;
            o.ptr = unsafe { o.ptr.add(1) };
        }
    }
    pub fn clear(&mut self) {
        self.len = 0;
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n;
        }
    }
    pub fn reserve(&mut self, _: usize) {}
    pub const fn len(&self) -> usize {
        self.len
    }
    pub const fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn as_slice(&self) -> &[T] {
        self
    }
}
impl<T> Deref for Vec<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.ptr, self.len) }
    }
}
impl<T> DerefMut for Vec<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) }
    }
}
pub struct IntoIter<T> {
    v: Vec<T>,
    i: usize,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i == self.v.len {
            return None;
        }
        self.i += 1;
        Some(unsafe { self.v.ptr.add(self.i - 1).read() })
    }
}
impl<T> Default for Vec<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        let mut v = Self::with_capacity(self.len());
        v.extend_from_slice(self);
        v
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Vec<T> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.deref().iter()
    }
}
impl<'a, T> IntoIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    type IntoIter = std::slice::IterMut<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.deref_mut().iter_mut()
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        IntoIter { v: self, i: 0 }
    }
}
impl<T, const N: usize> From<[T; N]> for Vec<T> {
    fn from(a: [T; N]) -> Self {
        let mut v = Self::new();
        v.extend(a);
        v
    }
}
impl<T> From<std::vec::Vec<T>> for Vec<T> {
    fn from(a: std::vec::Vec<T>) -> Self {
        let mut v = Self::new();
        v.extend(a);
        v
    }
}

pub struct Box<T>(*const T);
impl<T> Box<T> {
    pub fn new(x: T) -> Self {
        Self(std::boxed::Box::into_raw(std::boxed::Box::new(x)))
    }
}
impl<T> Deref for Box<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0 }
    }
}
impl<T> AsRef<T> for Box<T> {
    fn as_ref(&self) -> &T {
        unsafe { &*self.0 }
    }
}
impl<T> Clone for Box<T> {
    fn clone(&self) -> Self {
        Self(self.0)
    }
}
impl<T> std::fmt::Debug for Box<T> {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<T: PartialEq> PartialEq for Box<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: Eq> Eq for Box<T> {}

macro_rules! noserde {
    ($t:ident) => {
        impl<T> serde::Serialize for $t<T> {
            fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
                panic!("VERIF-LIMIT serialisation")
            }
        }
        impl<'de, T> serde::Deserialize<'de> for $t<T> {
            fn deserialize<D: serde::Deserializer<'de>>(_: D) -> Result<Self, D::Error> {
                panic!("VERIF-LIMIT deserialisation")
            }
        }
    };
}
noserde!(Vec);
noserde!(Box);
#[macro_export]
macro_rules! leak_vec {
    () => { $crate::leak::Vec::new() };
    ($x:expr; $n:expr) => { $crate::leak::Vec::from(std::vec![$x; $n]) };
    ($($x:expr),+ $(,)?) => { $crate::leak::Vec::from([$($x),+]) };
}
pub use leak_vec as vec;

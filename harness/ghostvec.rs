//! Contract model of `std::vec::Vec<T>` for the deductive obligations: an *unbounded* sequence
//! (any length, any content) kept as `len` plus a log of the cells touched so far.  Cells of the
//! initial sequence that have not been touched are unconstrained (memoised on first touch), so one
//! loop-free run covers every length and every content.  Injected into a staged module with
//! `use crate::ghostvec::{Vec, vec};`, which shadows the prelude names: the module's own text is
//! unchanged.  Trusted: this file is the assumed contract of `Vec` (get/index/resize/push/...).
#![allow(dead_code, clippy::all)]
use std::cell::UnsafeCell;
use std::ops::{Index, IndexMut};

pub const CELLS: usize = 10;
pub const FILLS: usize = 5;

pub trait Arb: Clone {
    fn arb() -> Self;
    const DUMMY: Self;
    /// room for cells touched, and for bulk fills
    type Cells: std::ops::IndexMut<usize, Output = Self> + Clone;
    const CAP: usize;
    const NO_CELLS: Self::Cells;
    type Fills: std::ops::IndexMut<usize, Output = Self> + Clone;
    const NO_FILLS: Self::Fills;
}
macro_rules! store {
    ($n:expr, $f:expr) => {
        type Cells = [Self; $n];
        const CAP: usize = $n;
        const NO_CELLS: Self::Cells = [const { Self::DUMMY }; $n];
        type Fills = [Self; $f];
        const NO_FILLS: Self::Fills = [const { Self::DUMMY }; $f];
    };
}

struct Log<T: Arb> {
    base_len: usize,
    n: usize,
    idx: [u32; CELLS],
    val: T::Cells,
    nf: usize,
    ffrom: [u32; FILLS],
    fval: T::Fills,
}

pub struct Vec<T: Arb> {
    len: usize,
    full: bool,
    sink: bool,
    log: UnsafeCell<Log<T>>,
}

impl<T: Arb> Vec<T> {
    pub const fn new() -> Self {
        Self {
            len: 0,
            full: false,
            sink: false,
            log: UnsafeCell::new(Log {
                base_len: 0,
                n: 0,
                idx: [0; CELLS],
                val: T::NO_CELLS,
                nf: 0,
                ffrom: [0; FILLS],
                fval: T::NO_FILLS,
            }),
        }
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::new()
    }
    /// Any sequence of length `len`.
    pub fn symbolic(len: usize) -> Self {
        kani::assume(len <= (1usize << 31)); // indices are kept in 32 bits
        let mut v = Self::new();
        v.len = len;
        v.log.get_mut().base_len = len;
        v
    }
    /// Any sequence of the fixed length `len`; the proof aborts if its length would change.
    pub fn fixed(len: usize) -> Self {
        let mut v = Self::symbolic(len);
        v.full = true;
        v
    }
    /// A write-only sequence: pushes are accepted and forgotten, reading aborts the proof.
    pub fn sink() -> Self {
        let mut v = Self::new();
        v.sink = true;
        v
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn capacity(&self) -> usize {
        self.len
    }
    pub fn reserve(&mut self, _n: usize) {}
    /// slot of cell `i` (i < len), materialising it if untouched
    fn slot(&self, i: usize) -> usize {
        assert!(!self.sink, "VERIF-LIMIT write-only ghost vector read");
        let log = unsafe { &mut *self.log.get() };
        let mut k = 0;
        while k < CELLS {
            if k < log.n && log.idx[k] == i as u32 {
                return k;
            }
            k += 1;
        }
        // untouched: value of the latest fill covering i, else initial content
        let mut v = T::arb();
        let mut f = 0;
        while f < FILLS {
            if f < log.nf && log.ffrom[f] <= i as u32 {
                v = log.fval[f].clone();
            }
            f += 1;
        }
        assert!(log.n < T::CAP, "VERIF-LIMIT ghost vector cells");
        let k = log.n;
        log.idx[k] = i as u32;
        log.val[k] = v;
        log.n = k + 1;
        k
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        if i < self.len {
            let k = self.slot(i);
            Some(unsafe { &(&(*self.log.get()).val)[k] })
        } else {
            None
        }
    }
    pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
        if i < self.len {
            let k = self.slot(i);
            Some(&mut self.log.get_mut().val[k])
        } else {
            None
        }
    }
    pub fn first(&self) -> Option<&T> {
        self.get(0)
    }
    pub fn last(&self) -> Option<&T> {
        if self.len == 0 { None } else { self.get(self.len - 1) }
    }
    pub fn push(&mut self, v: T) {
        if self.sink {
            return;
        }
        let i = self.len;
        assert!(i < (1usize << 31) && !self.full, "VERIF-LIMIT ghost vector length");
        self.len = i + 1;
        let k = {
            let log = self.log.get_mut();
            assert!(log.n < T::CAP, "VERIF-LIMIT ghost vector cells");
            let k = log.n;
            log.idx[k] = i as u32;
            log.n = k + 1;
            k
        };
        self.log.get_mut().val[k] = v;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.len == 0 {
            return None;
        }
        let v = self[self.len - 1].clone();
        self.truncate(self.len - 1);
        Some(v)
    }
    pub fn truncate(&mut self, n: usize) {
        if n >= self.len {
            return;
        }
        self.len = n;
        let log = self.log.get_mut();
        let mut k = 0;
        while k < CELLS {
            if k < log.n && log.idx[k] >= n as u32 {
                log.idx[k] = u32::MAX - k as u32;
            }
            k += 1;
        }
        let mut f = 0;
        while f < FILLS {
            if f < log.nf && log.ffrom[f] > n as u32 {
                log.ffrom[f] = u32::MAX;
            }
            f += 1;
        }
        if log.base_len > n {
            log.base_len = n;
        }
    }
    pub fn clear(&mut self) {
        self.truncate(0);
    }
    pub fn resize(&mut self, n: usize, v: T) {
        if self.full {
            assert!(n == self.len, "VERIF-LIMIT fixed-length ghost vector resized");
            kani::assume(false);
        }
        if n <= self.len {
            self.truncate(n);
            return;
        }
        assert!(n <= (1usize << 31), "VERIF-LIMIT ghost vector length");
        let from = self.len;
        self.len = n;
        let log = self.log.get_mut();
        assert!(log.nf < FILLS, "VERIF-LIMIT ghost vector fills");
        let k = log.nf;
        log.ffrom[k] = from as u32;
        log.fval[k] = v;
        log.nf = k + 1;
    }
    pub fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.push(x);
        }
    }
    pub fn extend_from_slice(&mut self, s: &[T]) {
        for x in s {
            self.push(x.clone());
        }
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        let (x, y) = (self[a].clone(), self[b].clone());
        self[a] = y;
        self[b] = x;
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { v: self, i: 0 }
    }
    /// ghost reads that leave the specification's view untouched
    pub fn at(&self, i: usize) -> T {
        self.get(i).unwrap().clone()
    }
}
impl<T: Arb> Index<usize> for Vec<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        match self.get(i) {
            Some(x) => x,
            None => panic!("index out of bounds"),
        }
    }
}
impl<T: Arb> IndexMut<usize> for Vec<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        match self.get_mut(i) {
            Some(x) => x,
            None => panic!("index out of bounds"),
        }
    }
}
/// Slice-only operations are outside the model: typechecks, and aborts the proof if reached.
impl<T: Arb> std::ops::Deref for Vec<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        panic!("VERIF-LIMIT slice view of a ghost vector")
    }
}
impl<T: Arb> std::ops::DerefMut for Vec<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        panic!("VERIF-LIMIT slice view of a ghost vector")
    }
}
impl<T: Arb> Default for Vec<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Arb> Clone for Vec<T> {
    fn clone(&self) -> Self {
        // materialised cells are copied; untouched initial cells of the two copies are
        // not correlated (over-approximation), unless touched before the clone.
        Self { len: self.len, full: self.full, sink: self.sink, log: UnsafeCell::new(unsafe { std::ptr::read(self.log.get()) }) }
    }
}
impl<T: Arb> std::fmt::Debug for Vec<T> {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl<T: Arb> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}
pub struct Iter<'a, T: Arb> {
    v: &'a Vec<T>,
    i: usize,
}
impl<'a, T: Arb> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        let r = self.v.get(self.i);
        self.i += 1;
        r
    }
}
impl<'a, T: Arb> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct IntoIter<T: Arb> {
    v: Vec<T>,
    i: usize,
}
impl<T: Arb> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let r = self.v.get(self.i).cloned();
        self.i += 1;
        r
    }
}
impl<T: Arb> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { v: self, i: 0 }
    }
}
#[macro_export]
macro_rules! ghost_vec {
    () => { $crate::ghostvec::Vec::new() };
    ($x:expr; $n:expr) => {{ let mut v = $crate::ghostvec::Vec::new(); v.resize($n, $x); v }};
    ($($x:expr),+ $(,)?) => {{ let mut v = $crate::ghostvec::Vec::new(); $( v.push($x); )+ v }};
}
pub use ghost_vec as vec;

// ---- domain instances -------------------------------------------------------------------
use crate::state::{MemoryEntry, State};
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;
pub const P: u32 = 2147483647;
pub fn any_m31() -> M31 {
    let x: u32 = kani::any();
    kani::assume(x < P);
    M31(x)
}
impl Arb for M31 {
    fn arb() -> Self {
        any_m31()
    }
    store!(CELLS, FILLS);
    const DUMMY: Self = M31(0);
}
impl Arb for QM31 {
    fn arb() -> Self {
        QM31::from_m31_array([any_m31(), any_m31(), any_m31(), any_m31()])
    }
    store!(CELLS, FILLS);
    const DUMMY: Self = QM31::from_u32_unchecked(0, 0, 0, 0);
}
impl Arb for MemoryEntry {
    fn arb() -> Self {
        MemoryEntry { addr: any_m31(), value: QM31::arb() }
    }
    store!(CELLS, FILLS);
    const DUMMY: Self = MemoryEntry { addr: M31(0), value: QM31::DUMMY };
}

impl Arb for State {
    fn arb() -> Self {
        State { pc: any_m31(), fp: any_m31() }
    }
    store!(CELLS, FILLS);
    const DUMMY: Self = State { pc: M31(0), fp: M31(0) };
}
impl Arb for u8 {
    fn arb() -> Self {
        kani::any()
    }
    store!(CELLS, FILLS);
    const DUMMY: Self = 0;
}

impl Arb for crate::execution::Segment {
    fn arb() -> Self {
        panic!("VERIF-LIMIT unknown segment")
    }
    store!(1, 1);
    const DUMMY: Self = crate::execution::Segment {
        initial_memory: crate::ghostmap::HashMap::new(),
        memory_trace: std::cell::RefCell::new(Vec::new()),
        trace: Vec::new(),
    };
}

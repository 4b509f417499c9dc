//! Contracts standing for the expensive field operations of the (trusted) `stwo-prover` dependency.
//! `fmul` is an uninterpreted commutative function; `inverse` diverges on zero and is otherwise an
//! uninterpreted function.  Proofs using them hold for the real product in particular.
#![allow(dead_code, static_mut_refs)]
use stwo_prover::core::fields::m31::M31;
const P: u32 = 2147483647;
const N: usize = 6;
static mut MUL: [(u32, u32, u32); N] = [(0, 0, 0); N];
static mut MUL_N: usize = 0;
static mut INV: [(u32, u32); N] = [(0, 0); N];
static mut INV_N: usize = 0;
fn fresh() -> u32 {
    let x: u32 = kani::any();
    kani::assume(x < P);
    x
}
pub fn uf_fmul(a: M31, b: M31) -> M31 {
    let (x, y) = if a.0 <= b.0 { (a.0, b.0) } else { (b.0, a.0) };
    unsafe {
        let mut i = 0;
        while i < N {
            if i < MUL_N && MUL[i].0 == x && MUL[i].1 == y {
                return M31(MUL[i].2);
            }
            i += 1;
        }
        assert!(MUL_N < N, "VERIF-LIMIT field products");
        let r = fresh();
        // laws of the product the code may rely on
        if x == 0 {
            kani::assume(r == 0);
        }
        if x == 1 {
            kani::assume(r == y);
        }
        MUL[MUL_N] = (x, y, r);
        MUL_N += 1;
        M31(r)
    }
}
pub fn uf_inverse(v: &M31) -> M31 {
    // the real function panics on zero: that execution ends here
    kani::assume(v.0 != 0);
    unsafe {
        let mut i = 0;
        while i < N {
            if i < INV_N && INV[i].0 == v.0 {
                return M31(INV[i].1);
            }
            i += 1;
        }
        assert!(INV_N < N, "VERIF-LIMIT field inverses");
        let r = fresh();
        kani::assume(r != 0);
        if v.0 == 1 {
            kani::assume(r == 1);
        }
        INV[INV_N] = (v.0, r);
        INV_N += 1;
        M31(r)
    }
}

/// false: integer products and divisions are uninterpreted; true: the machine operations
pub static mut EXACT: bool = false;
static mut DIV: [(u32, u32, u32, u32); 2] = [(0, 0, 0, 0); 2];
static mut DIV_N: usize = 0;
static mut UMUL: [(u32, u32, u32); 2] = [(0, 0, 0); 2];
static mut UMUL_N: usize = 0;
fn divrem(a: u32, b: u32) -> (u32, u32) {
    assert!(b != 0, "attempt to divide by zero");
    unsafe {
        if EXACT {
            return (a / b, a % b);
        }
        let mut i = 0;
        while i < 2 {
            if i < DIV_N && DIV[i].0 == a && DIV[i].1 == b {
                return (DIV[i].2, DIV[i].3);
            }
            i += 1;
        }
        assert!(DIV_N < 2, "VERIF-LIMIT integer divisions");
        let (q, r): (u32, u32) = (kani::any(), kani::any());
        kani::assume(q <= a && r < b && r <= a);
        DIV[DIV_N] = (a, b, q, r);
        DIV_N += 1;
        (q, r)
    }
}
pub trait Uf: Sized {
    fn uf_div(self, o: Self) -> Self;
    fn uf_rem(self, o: Self) -> Self;
    fn uf_wrapping_mul(self, o: Self) -> Self;
}
impl Uf for u32 {
    fn uf_div(self, o: Self) -> Self {
        divrem(self, o).0
    }
    fn uf_rem(self, o: Self) -> Self {
        divrem(self, o).1
    }
    fn uf_wrapping_mul(self, o: Self) -> Self {
        unsafe {
            if EXACT {
                return self.wrapping_mul(o);
            }
            let (x, y) = if self <= o { (self, o) } else { (o, self) };
            let mut i = 0;
            while i < 2 {
                if i < UMUL_N && UMUL[i].0 == x && UMUL[i].1 == y {
                    return UMUL[i].2;
                }
                i += 1;
            }
            assert!(UMUL_N < 2, "VERIF-LIMIT integer products");
            let r: u32 = kani::any();
            kani::assume(x != 0 || r == 0);
            kani::assume(x != 1 || r == y);
            UMUL[UMUL_N] = (x, y, r);
            UMUL_N += 1;
            r
        }
    }
}
impl Uf for M31 {
    fn uf_div(self, o: Self) -> Self {
        self / o
    }
    fn uf_rem(self, _: Self) -> Self {
        panic!("no remainder in a field")
    }
    fn uf_wrapping_mul(self, _: Self) -> Self {
        panic!("no wrapping product in a field")
    }
}

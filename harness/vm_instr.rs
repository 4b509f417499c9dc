//! Contracts of the VM instruction handlers (C02, C04): one obligation per opcode.
//! The reference semantics below is written from the instruction definitions (wire format: opcode
//! followed by operands in order), not from the handlers.
#![allow(dead_code, static_mut_refs)]
use crate::memory::{MAX_ADDRESS, Memory};
use crate::vm::instructions::instruction_to_fn;
use cairo_m_common::ghostvec::{P, Vec, any_m31};
use cairo_m_common::instruction::INSTRUCTION_MAX_SIZE;
use cairo_m_common::{Instruction, State};
use crate::verif_uf::{EXACT, Uf};
use smallvec::SmallVec;

use std::cell::RefCell;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

use crate::PROP;

// ---- abstract state ---------------------------------------------------------------------
fn any_memory() -> Memory {
    Memory { locals: Vec::fixed(MAX_ADDRESS + 1), heap: Vec::new(), trace: RefCell::new(if PROP == 2 { Vec::sink() } else { Vec::new() }) }
}
fn add(a: u32, b: u32) -> u32 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
fn sub(a: u32, b: u32) -> u32 {
    if a >= b { a - b } else { a + P - b }
}
fn raw(m: &Memory, a: u32) -> QM31 {
    m.locals.at(a as usize)
}

// ---- reference semantics ------------------------------------------------------------------
#[derive(Clone, Copy)]
struct Acc {
    addr: u32,
    val: u32,
}
struct Spec {
    acc: [Acc; 10], // accesses in order (reads then writes)
    n: usize,
    w: [Acc; 4], // writes in order
    nw: usize,
    err: bool,
}
impl Spec {
    fn new() -> Self {
        Self { acc: [Acc { addr: 0, val: 0 }; 10], n: 0, w: [Acc { addr: 0, val: 0 }; 4], nw: 0, err: false }
    }
    fn rd(&mut self, m: &Memory, a: u32) -> u32 {
        if self.err {
            return 0;
        }
        if a > MAX_ADDRESS as u32 {
            self.err = true;
            return 0;
        }
        let q = raw(m, a);
        if q.0.1.0 != 0 || q.1.0.0 != 0 || q.1.1.0 != 0 {
            self.err = true;
            return 0;
        }
        self.acc[self.n] = Acc { addr: a, val: q.0.0.0 };
        self.n += 1;
        q.0.0.0
    }
    fn rd32(&mut self, m: &Memory, a: u32) -> u32 {
        let lo = self.rd(m, a);
        let hi = self.rd(m, add(a, 1));
        if self.err {
            return 0;
        }
        if lo > 0xffff || hi > 0xffff {
            self.err = true;
            return 0;
        }
        (hi << 16) | lo
    }
    fn wr(&mut self, a: u32, v: u32) {
        if self.err {
            return;
        }
        if a > MAX_ADDRESS as u32 {
            self.err = true;
            return;
        }
        self.acc[self.n] = Acc { addr: a, val: v };
        self.n += 1;
        self.w[self.nw] = Acc { addr: a, val: v };
        self.nw += 1;
    }
    fn wr32(&mut self, a: u32, v: u32) {
        self.wr(a, v & 0xffff);
        self.wr(add(a, 1), v >> 16);
    }
    fn imm32(&mut self, lo: u32, hi: u32) -> u32 {
        if lo > 0xffff || hi > 0xffff {
            self.err = true;
            return 0;
        }
        (hi << 16) | lo
    }
}
fn fmul(a: u32, b: u32) -> u32 {
    (M31(a) * M31(b)).0
}
fn finv(a: u32) -> u32 {
    M31(a).inverse().0
}

/// (accesses, next pc, next fp) of opcode `op` with operands `o`
fn reference(op: u32, o: &[u32; 5], m: &Memory, pc: u32, fp: u32) -> (Spec, u32, u32) {
    let mut s = Spec::new();
    let at = |x: u32| add(fp, x);
    let words = if nops(op) + 1 > 4 { 2 } else { 1 };
    let (mut npc, mut nfp) = (add(pc, words), fp);
    match op {
        0 | 1 | 2 | 3 => {
            let a = s.rd(m, at(o[0]));
            let b = s.rd(m, at(o[1]));
            if op == 3 && b == 0 {
                s.err = true;
            }
            if !s.err {
                let v = match op {
                    0 => add(a, b),
                    1 => sub(a, b),
                    2 => fmul(a, b),
                    _ => fmul(a, finv(b)),
                };
                s.wr(at(o[2]), v);
            }
        }
        4 | 6 | 48 => {
            let a = s.rd(m, at(o[0]));
            if !s.err {
                let v = match op {
                    4 => add(a, o[1]),
                    6 => fmul(a, o[1]),
                    _ => (a <= o[1]) as u32,
                };
                s.wr(at(o[2]), v);
            }
        }
        50 => {
            let a = s.rd(m, at(o[0]));
            if a != o[1] {
                s.err = true;
            }
        }
        8 => {
            let b = s.rd(m, at(o[0]));
            let v = s.rd(m, add(b, o[1]));
            s.wr(at(o[2]), v);
        }
        42 => {
            let b = s.rd(m, at(o[0]));
            let i = s.rd(m, at(o[1]));
            let v = s.rd(m, add(b, i));
            s.wr(at(o[2]), v);
        }
        44 => {
            let b = s.rd(m, at(o[0]));
            let v = s.rd(m, at(o[2]));
            s.wr(add(b, o[1]), v);
        }
        45 => {
            let b = s.rd(m, at(o[0]));
            let i = s.rd(m, at(o[1]));
            let v = s.rd(m, at(o[2]));
            s.wr(add(b, i), v);
        }
        9 => s.wr(at(o[1]), o[0]),
        43 => s.wr(at(o[1]), add(fp, o[0])),
        10 => {
            s.wr(at(o[0]), fp);
            s.wr(add(at(o[0]), 1), npc);
            npc = o[1];
            nfp = add(at(o[0]), 2);
        }
        11 => {
            npc = s.rd(m, sub(fp, 1));
            nfp = s.rd(m, sub(fp, 2));
        }
        12 => npc = o[0],
        13 => npc = add(pc, o[0]),
        14 => {
            let c = s.rd(m, at(o[0]));
            if c != 0 {
                npc = add(pc, o[1]);
            }
        }
        15 | 16 | 17 | 24 | 28 | 36 | 37 | 38 => {
            let a = s.rd32(m, at(o[0]));
            let b = s.rd32(m, at(o[1]));
            if !s.err {
                bin32(&mut s, op, a, b, at(o[2]));
            }
        }
        18 => {
            let a = s.rd32(m, at(o[0]));
            let b = s.rd32(m, at(o[1]));
            divrem(&mut s, a, b, at(o[2]), at(o[3]));
        }
        19 | 21 | 30 | 34 | 39 | 40 | 41 => {
            let b = s.imm32(o[1], o[2]);
            let a = s.rd32(m, at(o[0]));
            if !s.err {
                let k = match op {
                    19 => 15,
                    21 => 17,
                    30 => 24,
                    34 => 28,
                    39 => 36,
                    40 => 37,
                    _ => 38,
                };
                bin32(&mut s, k, a, b, at(o[3]));
            }
        }
        22 => {
            let b = s.imm32(o[1], o[2]);
            let a = s.rd32(m, at(o[0]));
            divrem(&mut s, a, b, at(o[3]), at(o[4]));
        }
        23 => {
            let v = s.imm32(o[0], o[1]);
            s.wr32(at(o[2]), v);
        }
        46 => {
            s.rd(m, at(o[0]));
            s.n = 0;
        }
        47 => {
            s.rd32(m, at(o[0]));
            s.n = 0;
        }
        _ => unreachable!(),
    }
    (s, npc, nfp)
}
fn bin32(s: &mut Spec, op: u32, a: u32, b: u32, dst: u32) {
    match op {
        15 => s.wr32(dst, a.wrapping_add(b)),
        16 => s.wr32(dst, a.wrapping_sub(b)),
        17 => s.wr32(dst, a.uf_wrapping_mul(b)),
        24 => s.wr(dst, (a == b) as u32),
        28 => s.wr(dst, (a < b) as u32),
        36 => s.wr32(dst, a & b),
        37 => s.wr32(dst, a | b),
        _ => s.wr32(dst, a ^ b),
    }
}
fn divrem(s: &mut Spec, a: u32, b: u32, d: u32, r: u32) {
    if b == 0 {
        s.err = true;
    }
    if !s.err {
        s.wr32(d, a.uf_div(b));
        s.wr32(r, a.uf_rem(b));
    }
}
/// number of operands on the wire
fn nops(op: u32) -> u32 {
    match op {
        11 => 0,
        12 | 13 | 46 | 47 => 1,
        9 | 10 | 14 | 43 | 50 => 2,
        18 | 19 | 21 | 30 | 34 | 39 | 40 | 41 => 4,
        22 => 5,
        _ => 3,
    }
}
/// data-memory cells accessed according to the definition (prints are debugging aids: none recorded)
fn accesses(op: u32) -> usize {
    match op {
        9 | 14 | 43 | 50 => 1,
        4 | 6 | 48 | 10 | 11 | 23 => 2,
        0 | 1 | 2 | 3 | 8 => 3,
        42 | 44 | 45 => if op == 44 { 3 } else { 4 },
        30 | 34 => 3,
        24 | 28 => 5,
        19 | 21 | 39 | 40 | 41 => 4,
        15 | 16 | 17 | 36 | 37 | 38 => 6,
        22 => 6,
        18 => 8,
        _ => 0,
    }
}
fn build(op: u32, o: &[u32; 5]) -> Instruction {
    let n = nops(op) as usize;
    let mut v: SmallVec<[M31; INSTRUCTION_MAX_SIZE]> = SmallVec::new();
    v.push(M31(op));
    let mut i = 0;
    while i < 5 {
        if i < n {
            v.push(M31(o[i]));
        }
        i += 1;
    }
    match Instruction::try_from(v) {
        Ok(i) => i,
        Err(_) => panic!("defined opcode is not decodable"),
    }
}

fn check(op: u32) {
    let o: [u32; 5] = [any_m31().0, any_m31().0, any_m31().0, any_m31().0, any_m31().0];
    let st = State { pc: any_m31(), fp: any_m31() };
    let mut m = any_memory();
    let w: u32 = any_m31().0; // an arbitrary cell
    kani::assume(w <= MAX_ADDRESS as u32);
    let before = raw(&m, w);
    let ins = build(op, &o);
    let (s, npc, nfp) = reference(op, &o, &m, st.pc.0, st.fp.0);

    let f = match instruction_to_fn(ins) {
        Ok(f) => f,
        Err(_) => panic!("no handler for a defined instruction"),
    };
    let r = f(&mut m, st, &ins);

    match r {
        Ok(t) => {
            if PROP == 2 {
                assert!(!s.err, "error condition not reported");
            } else {
                kani::assume(!s.err); // C02's obligation
            }
            if PROP == 2 {
            assert!(t.pc.0 == npc, "program counter after the step");
            assert!(t.fp.0 == nfp, "frame pointer after the step");
            // C02: the arbitrary cell holds what the definition says
            let mut want = before;
            let mut k = 0;
            while k < 4 {
                if k < s.nw && s.w[k].addr == w {
                    want = QM31::from(M31(s.w[k].val));
                }
                k += 1;
            }
            assert!(raw(&m, w) == want, "memory cell after the step");
            } else {
            // C04: the record lists exactly the accesses, in order
            let t = m.trace.borrow();
            assert!(t.len() == s.n, "number of recorded accesses");
            let k: usize = kani::any();
            if k < s.n {
                let e = t.at(k);
                assert!(e.addr.0 == s.acc[k].addr, "recorded address");
                assert!(e.value == QM31::from(M31(s.acc[k].val)), "recorded value");
            }
            if op != 46 && op != 47 {
                assert!(ins.memory_accesses() == s.n, "declared number of accesses");
            }
            }
            kani::cover!(s.n == 0 || w == s.acc[0].addr, "step completes");
        }
        Err(_) => {
            assert!(PROP != 2 || s.err, "step fails although its definition succeeds");
        }
    }
    std::mem::forget(m);
}

macro_rules! op {
    ($name:ident, $op:expr) => {
        pub(crate) mod $name {
        #[kani::proof]
        #[kani::unwind(13)]
        #[kani::stub(stwo_prover::core::fields::m31::fmul, crate::verif_uf::uf_fmul)]
        #[kani::stub(stwo_prover::core::fields::m31::M31::inverse, crate::verif_uf::uf_inverse)]
        fn contract() {
            super::check($op)
        }
        /// the same with the machine's own products and divisions (used to confirm a failure)
        #[kani::proof]
        #[kani::unwind(33)]
        fn exact() {
            unsafe { super::EXACT = true };
            super::check($op)
        }
        }
    };
}
op!(op00_store_add_fp_fp, 0);
op!(op01_store_sub_fp_fp, 1);
op!(op02_store_mul_fp_fp, 2);
op!(op03_store_div_fp_fp, 3);
op!(op04_store_add_fp_imm, 4);
op!(op06_store_mul_fp_imm, 6);
op!(op08_store_double_deref_fp, 8);
op!(op09_store_imm, 9);
op!(op10_call_abs_imm, 10);
op!(op11_ret, 11);
op!(op12_jmp_abs_imm, 12);
op!(op13_jmp_rel_imm, 13);
op!(op14_jnz_fp_imm, 14);
op!(op15_u32_add_fp_fp, 15);
op!(op16_u32_sub_fp_fp, 16);
op!(op17_u32_mul_fp_fp, 17);
op!(op18_u32_divrem_fp_fp, 18);
op!(op19_u32_add_fp_imm, 19);
op!(op21_u32_mul_fp_imm, 21);
op!(op22_u32_divrem_fp_imm, 22);
op!(op23_u32_store_imm, 23);
op!(op24_u32_eq_fp_fp, 24);
op!(op28_u32_lt_fp_fp, 28);
op!(op30_u32_eq_fp_imm, 30);
op!(op34_u32_lt_fp_imm, 34);
op!(op36_u32_and_fp_fp, 36);
op!(op37_u32_or_fp_fp, 37);
op!(op38_u32_xor_fp_fp, 38);
op!(op39_u32_and_fp_imm, 39);
op!(op40_u32_or_fp_imm, 40);
op!(op41_u32_xor_fp_imm, 41);
op!(op42_store_double_deref_fp_fp, 42);
op!(op43_store_frame_pointer, 43);
op!(op44_store_to_double_deref_fp_imm, 44);
op!(op45_store_to_double_deref_fp_fp, 45);
op!(op46_print_m31, 46);
op!(op47_print_u32, 47);
op!(op48_store_le_fp_imm, 48);
op!(op50_assert_eq_fp_imm, 50);

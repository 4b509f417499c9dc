//! Contracts of the instruction encoding (C01).
use super::*;
use smallvec::SmallVec;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;
const P: u32 = 2147483647;
fn any_m31() -> M31 {
    let x: u32 = kani::any();
    kani::assume(x < P);
    M31(x)
}
type Words = SmallVec<[M31; INSTRUCTION_MAX_SIZE]>;

/// decode: accepts exactly the sequences some instruction encodes to, and gives that instruction
fn decode(n: usize) {
    let mut v: Words = SmallVec::new();
    let mut copy = [M31(0); 16];
    let mut i = 0;
    while i < n {
        let x = any_m31();
        v.push(x);
        copy[i] = x;
        i += 1;
    }
    let size = if n == 0 { None } else { Instruction::size_in_m31s_for_opcode(copy[0].0) };
    match Instruction::try_from(v) {
        Ok(ins) => {
            assert!(n != 0, "empty sequence decoded");
            let e = ins.to_smallvec();
            assert!(e.len() == n, "re-encoding has another length");
            let mut i = 0;
            while i < n {
                assert!(e[i] == copy[i], "re-encoding differs");
                i += 1;
            }
            assert!(size == Some(n), "size by opcode disagrees with an accepted encoding");
        }
        Err(_) => {
            assert!(n == 0 || size != Some(n), "sequence of the declared size rejected");
        }
    }
}
/// encode: declared sizes, words and padding agree, and decoding gives the instruction back
fn encode(ins: Instruction, nfields: usize) {
    let n = nfields + 1;
    let op = ins.opcode_value();
    let e = ins.to_smallvec();
    assert!(e.len() == n, "length of the encoding");
    assert!(e[0].0 == op, "first element is the opcode");
    assert!(ins.size_in_m31s() == n, "declared size");
    assert!(Instruction::size_in_m31s_for_opcode(op) == Some(n), "size by opcode");
    assert!((op as usize) < OPCODE_SIZE_TABLE.len() && OPCODE_SIZE_TABLE[op as usize] == Some(n), "size table");
    assert!(n <= INSTRUCTION_MAX_SIZE, "maximum size");
    let words = (n + 3) / 4;
    assert!(ins.size_in_qm31s() == words as u32, "declared word count");
    assert!(Instruction::size_in_qm31s_for_opcode(op) == Some(words as u32), "word count by opcode");
    let q = ins.to_qm31_vec();
    assert!(q.len() == words, "number of words");
    let mut i = 0;
    while i < words {
        let a = q[i].to_m31_array();
        let mut j = 0;
        while j < 4 {
            let k = 4 * i + j;
            assert!(a[j] == if k < n { e[k] } else { M31(0) }, "word content and zero padding");
            j += 1;
        }
        i += 1;
    }
    let f1: Words = SmallVec::from(ins);
    let f2: Words = SmallVec::from(&ins);
    let mut i = 0;
    while i < n {
        assert!(f1.len() == n && f2.len() == n && f1[i] == e[i] && f2[i] == e[i], "conversions agree");
        i += 1;
    }
    match Instruction::try_from(e) {
        Ok(back) => assert!(back == ins, "decoding the encoding gives another instruction"),
        Err(_) => panic!("an encoding is rejected"),
    }
    kani::cover!(true, "instruction constructed");
    std::mem::forget(q);
}
/// the sizes by opcode and the table agree on every opcode number
#[kani::proof]
fn size_by_opcode() {
    let op: u32 = kani::any();
    let a = Instruction::size_in_m31s_for_opcode(op);
    let t = OPCODE_SIZE_TABLE.get(op as usize).and_then(|x| *x);
    assert!(a == t, "size table disagrees with size by opcode");
    let w = Instruction::size_in_qm31s_for_opcode(op);
    match (a, w) {
        (None, None) => {}
        (Some(n), Some(k)) => {
            assert!(n >= 1 && n <= INSTRUCTION_MAX_SIZE, "size in range");
            assert!(k as usize == (n + 3) / 4, "words for size");
        }
        _ => panic!("size in words defined for other opcodes"),
    }
    kani::cover!(a.is_some());
    kani::cover!(a.is_none());
}
macro_rules! dec {
    ($($name:ident, $n:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(18)]
        fn $name() { decode($n) }
    )* };
}
macro_rules! enc {
    ($($name:ident, $v:ident, $k:expr, [$($f:ident),*];)*) => { $(
        #[kani::proof]
        #[kani::unwind(18)]
        fn $name() { encode(Instruction::$v { $($f: any_m31()),* }, $k) }
    )* };
}

//! Contracts of the ABI encoding and decoding (C06) and of the published ranges (C07).
#![allow(static_mut_refs)]
use super::*;
use cairo_m_common::ghostvec::{P, Vec as GVec, any_m31};
use cairo_m_common::program::EntrypointInfo;
use crate::memory::MemoryError;
use std::convert::TryFrom;
use stwo_prover::core::fields::qm31::QM31;

fn blank_vm() -> VM {
    VM {
        final_pc: M31(0),
        initial_memory_locals: GVec::new(),
        initial_memory_heap: GVec::new(),
        memory: memory::Memory { locals: GVec::fixed(memory::MAX_ADDRESS + 1), heap: GVec::new(), trace: std::cell::RefCell::new(GVec::new()) },
        state: Default::default(),
        program_length: M31(0),
        trace: GVec::new(),
        segments: GVec::new(),
    }
}
fn no_text(_: std::fmt::Arguments<'_>) -> String {
    String::new()
}
/// the residue of an integer modulo the field prime
fn residue(n: i64) -> u32 {
    let r = n % (P as i64);
    (if r < 0 { r + P as i64 } else { r }) as u32
}
/// encode one value, giving the elements pushed
fn enc(vm: &mut VM, cursor: &mut M31, ty: &AbiType, v: &InputValue) -> Result<Vec<M31>> {
    let mut dst = Vec::with_capacity(8);
    encode_value_for_call__top(vm, cursor, ty, v, &mut dst)?;
    Ok(dst)
}
fn dec(vm: &VM, ty: &AbiType, slots: &[M31]) -> Result<(CairoMValue, usize)> {
    let mut reader = |o: usize| -> Result<M31> {
        if o < slots.len() { Ok(slots[o]) } else { Err(AbiCodecError::InsufficientData.into()) }
    };
    decode_value_with_custom_reader__top(ty, vm, &mut reader, 0)
}

// ---- contracts standing for the recursive calls (induction hypothesis) ---------------------------
// Component k (0..3) of an aggregate: encodes to W[k] elements E[k], first materialising A[k] cells of its
// own, or fails; it decodes, from those elements, to the token value U32(k).
const K: usize = 3;
static mut W: [usize; K] = [0; K];
static mut E: [[M31; 2]; K] = [[M31(0); 2]; K];
static mut A: [u32; K] = [0; K];
static mut BAD: [bool; K] = [false; K];
static mut GLUE: bool = false;
static mut SAME_TYPE: bool = false;
static mut ECALLS: usize = 0;
static mut DCALLS: usize = 0;
fn setup(same: bool, w: [usize; K], bad: usize) {
    unsafe {
        STORED = 0;
        SAME_TYPE = same;
        ECALLS = 0;
        DCALLS = 0;
        let mut i = 0;
        while i < K {
            W[i] = if same { w[0] } else { w[i] };
            E[i] = [any_m31(), any_m31()];
            A[i] = kani::any();
            kani::assume(A[i] < 1000);
            BAD[i] = i == bad;
            i += 1;
        }
    }
}
fn tok(i: usize) -> AbiType {
    AbiType::Pointer { element: Box::new(AbiType::Unit), len: Some(i as u32) }
}
fn val(i: usize) -> InputValue {
    InputValue::Number(i as i64)
}
// the VM memory by its contract (C03): a flat store
const MC: usize = 8;
static mut STORE: [(u32, QM31); MC] = [(0, QM31::from_u32_unchecked(0, 0, 0, 0)); MC];
static mut STORED: usize = 0;
fn flat_insert(_: &mut memory::Memory, addr: M31, value: QM31) -> std::result::Result<(), MemoryError> {
    unsafe {
        if addr.0 as usize > memory::MAX_ADDRESS {
            return Err(MemoryError::UninitializedMemoryCell { addr });
        }
        assert!(STORED < MC, "VERIF-LIMIT flat memory");
        STORE[STORED] = (addr.0, value);
        STORED += 1;
        Ok(())
    }
}
fn flat_get(_: &memory::Memory, addr: M31) -> std::result::Result<M31, MemoryError> {
    unsafe {
        if addr.0 as usize > memory::MAX_ADDRESS {
            return Err(MemoryError::UninitializedMemoryCell { addr });
        }
        let mut r = any_m31();
        let mut i = 0;
        while i < MC {
            if i < STORED && STORE[i].0 == addr.0 {
                r = STORE[i].1.0.0;
            }
            i += 1;
        }
        Ok(r)
    }
}
fn token_of(ty: &AbiType) -> usize {
    match ty {
        AbiType::Pointer { len: Some(n), .. } => *n as usize,
        _ => panic!("recursive call on something that is not a component type"),
    }
}
fn encode_ih(_: &mut VM, cursor: &mut M31, ty: &AbiType, v: &InputValue, dst: &mut Vec<M31>) -> Result<()> {
    unsafe {
        let k = ECALLS;
        ECALLS += 1;
        assert!(k < K && matches!(v, InputValue::Number(n) if *n == k as i64), "components are encoded once each, in order");
        assert!(token_of(ty) == if SAME_TYPE { 0 } else { k }, "each component is encoded with its own type");
        if BAD[k] {
            return Err(AbiCodecError::InsufficientData.into());
        }
        *cursor = M31(cursor.0 + A[k]);
        if W[k] > 0 {
            dst.push(E[k][0]);
        }
        if W[k] > 1 {
            dst.push(E[k][1]);
        }
        Ok(())
    }
}
fn decode_ih<F>(ty: &AbiType, _: &VM, read: &mut F, base_off: usize) -> Result<(CairoMValue, usize)>
where
    F: FnMut(usize) -> Result<M31>,
{
    unsafe {
        let k = DCALLS;
        DCALLS += 1;
        assert!(k < K && token_of(ty) == if SAME_TYPE { 0 } else { k }, "components are decoded once each, in order, with their own type");
        if W[k] > 0 {
            let x = read(base_off)?;
            assert!(GLUE || x == E[k][0], "component is decoded from its own first element");
        }
        if W[k] > 1 {
            let x = read(base_off + 1)?;
            assert!(GLUE || x == E[k][1], "component is decoded from its own second element");
        }
        Ok((CairoMValue::U32(k as u32), W[k]))
    }
}
fn slots_ih(ty: &AbiType) -> usize {
    unsafe { W[token_of(ty)] }
}
fn method_slots_ih(ty: &AbiType) -> usize {
    unsafe { W[token_of(ty)] }
}
fn cells_ih(ty: &AbiType, v: &InputValue) -> usize {
    match v {
        InputValue::Number(n) => unsafe {
            assert!(token_of(ty) == if SAME_TYPE { 0 } else { *n as usize }, "each component is measured with its own type");
            A[*n as usize] as usize
        },
        _ => panic!("recursive call on something that is not a component"),
    }
}

// ---- scalars: every value ----------------------------------------------------------------------
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, no_text)]
#[kani::stub(encode_value_for_call, encode_ih)]
#[kani::stub(decode_value_with_custom_reader, decode_ih)]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
fn felt_roundtrip() {
    let n: i64 = kani::any();
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    let c0 = c;
    match enc(vm, &mut c, &AbiType::Felt, &InputValue::Number(n)) {
        Ok(s) => {
            assert!(s.len() == 1, "a felt takes one slot");
            assert!(s[0].0 == residue(n), "integers map to their residue");
            assert!(c == c0, "no array data");
            match dec(vm, &AbiType::Felt, &s) {
                Ok((CairoMValue::Felt(v), 1)) => assert!(v == s[0], "felt decodes to itself"),
                o => { std::mem::forget(o); panic!("felt does not decode") }
            }
            kani::cover!(n < 0);
            std::mem::forget(s);
        }
        Err(e) => {
            std::mem::forget(e);
            panic!("every integer is a felt")
        }
    }
}
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, no_text)]
#[kani::stub(encode_value_for_call, encode_ih)]
#[kani::stub(decode_value_with_custom_reader, decode_ih)]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
fn bool_roundtrip() {
    let n: i64 = kani::any();
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    match enc(vm, &mut c, &AbiType::Bool, &InputValue::Number(n)) {
        Ok(s) => {
            assert!(n == 0 || n == 1, "only 0 and 1 are booleans");
            assert!(s.len() == 1 && s[0].0 == n as u32, "boolean is 0 or 1");
            std::mem::forget(s);
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(n != 0 && n != 1, "0 and 1 are booleans")
        }
    }
    let b: bool = kani::any();
    match enc(vm, &mut c, &AbiType::Bool, &InputValue::Bool(b)) {
        Ok(s) => {
            assert!(s.len() == 1 && s[0].0 == b as u32, "boolean is 0 or 1");
            match dec(vm, &AbiType::Bool, &s) {
                Ok((CairoMValue::Bool(v), 1)) => assert!(v == b, "boolean decodes to itself"),
                o => { std::mem::forget(o); panic!("boolean does not decode") }
            }
            std::mem::forget(s);
        }
        Err(e) => {
            std::mem::forget(e);
            panic!("boolean rejected")
        }
    }
    let x = any_m31();
    let slots = [x];
    match dec(vm, &AbiType::Bool, &slots) {
        Ok((CairoMValue::Bool(v), 1)) => assert!(x.0 <= 1 && v == (x.0 == 1), "decoded boolean"),
        Ok(_) => panic!("boolean decodes to something else"),
        Err(e) => {
            std::mem::forget(e);
            assert!(x.0 > 1, "valid boolean rejected")
        }
    }
}
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, no_text)]
#[kani::stub(encode_value_for_call, encode_ih)]
#[kani::stub(decode_value_with_custom_reader, decode_ih)]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
fn u32_roundtrip() {
    let n: i64 = kani::any();
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    let fits = 0 <= n && n <= u32::MAX as i64;
    match enc(vm, &mut c, &AbiType::U32, &InputValue::Number(n)) {
        Ok(s) => {
            assert!(fits, "integer outside u32 accepted");
            assert!(s.len() == 2, "a u32 takes two slots");
            assert!(s[0].0 == (n & 0xffff) as u32 && s[1].0 == (n >> 16) as u32, "two 16-bit limbs, low first");
            match dec(vm, &AbiType::U32, &s) {
                Ok((CairoMValue::U32(v), 2)) => assert!(v as i64 == n, "u32 decodes to itself"),
                o => { std::mem::forget(o); panic!("u32 does not decode") }
            }
            kani::cover!(n > 70000);
            std::mem::forget(s);
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(!fits, "integer in u32 rejected")
        }
    }
    let (lo, hi) = (any_m31(), any_m31());
    let slots = [lo, hi];
    match dec(vm, &AbiType::U32, &slots) {
        Ok((CairoMValue::U32(v), 2)) => assert!(lo.0 <= 0xffff && hi.0 <= 0xffff && v == lo.0 + 65536 * hi.0, "decoded u32"),
        Ok(_) => panic!("u32 decodes to something else"),
        Err(e) => {
            std::mem::forget(e);
            assert!(lo.0 > 0xffff || hi.0 > 0xffff, "valid limbs rejected")
        }
    }
}
#[kani::proof]
fn m31_from_i64_contract() {
    let n: i64 = kani::any();
    let m = m31_from_i64(n);
    assert!(m.0 == residue(n), "residue modulo 2^31-1");
    kani::cover!(n == i64::MIN);
}
/// a scalar type rejects every value of another kind
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, no_text)]
#[kani::stub(encode_value_for_call, encode_ih)]
#[kani::stub(decode_value_with_custom_reader, decode_ih)]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
fn scalar_kinds() {
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    let b: bool = kani::any();
    let scalars = [AbiType::Felt, AbiType::U32, AbiType::Bool, AbiType::Unit];
    for t in 0..4 {
        kind(vm, &mut c, &scalars[t], &InputValue::List(Vec::new()), false);
        kind(vm, &mut c, &scalars[t], &InputValue::Struct(Vec::new()), false);
        kind(vm, &mut c, &scalars[t], &InputValue::Unit, t == 3);
        kind(vm, &mut c, &scalars[t], &InputValue::Bool(b), t == 2);
    }
}
fn kind(vm: &mut VM, c: &mut M31, ty: &AbiType, v: &InputValue, ok: bool) {
    let r = enc(vm, c, ty, v);
    assert!(r.is_ok() == ok, "value of another kind");
    if let Ok(s) = &r {
        assert!(s.len() == AbiType::call_slot_size__top(ty), "as many elements as declared");
    }
    std::mem::forget(r);
}
/// too few slots never decode
#[kani::proof]
#[kani::unwind(8)]
#[kani::stub(alloc::fmt::format, no_text)]
#[kani::stub(encode_value_for_call, encode_ih)]
#[kani::stub(decode_value_with_custom_reader, decode_ih)]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
fn short_frames_rejected() {
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let x = [any_m31()];
    { let r = dec(vm, &AbiType::Felt, &x[..0]); assert!(r.is_err(), "missing felt"); std::mem::forget(r); }
    { let r = dec(vm, &AbiType::Bool, &x[..0]); assert!(r.is_err(), "missing bool"); std::mem::forget(r); }
    { let r = dec(vm, &AbiType::U32, &x); assert!(r.is_err(), "missing limb"); std::mem::forget(r); }
    match dec(vm, &AbiType::Unit, &x[..0]) {
        Ok((CairoMValue::Unit, 0)) => {}
        o => { std::mem::forget(o); panic!("unit does not decode") }
    }
}

// ---- aggregates: one induction step over the component contracts, up to three components -----------
macro_rules! step {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        $(#[$m])*
        #[kani::proof]
        #[kani::unwind(9)]
        #[kani::stub(alloc::fmt::format, no_text)]
        #[kani::stub(encode_value_for_call, encode_ih)]
        #[kani::stub(decode_value_with_custom_reader, decode_ih)]
        #[kani::stub(AbiType::call_slot_size, slots_ih)]
        #[kani::stub(AbiType::size_in_slots, method_slots_ih)]
        #[kani::stub(calculate_array_materialization_size_with_value, cells_ih)]
        #[kani::stub(memory::Memory::insert, flat_insert)]
        #[kani::stub(memory::Memory::insert_no_trace, flat_insert)]
        #[kani::stub(memory::Memory::get_data, flat_get)]
        #[kani::stub(memory::Memory::get_data_no_trace, flat_get)]
        fn $name() $body
    };
}
fn any_bad(n: usize) -> bool {
    unsafe { (n > 0 && BAD[0]) || (n > 1 && BAD[1]) || (n > 2 && BAD[2]) }
}
fn total_w(n: usize) -> usize {
    unsafe { (if n > 0 { W[0] } else { 0 }) + (if n > 1 { W[1] } else { 0 }) + (if n > 2 { W[2] } else { 0 }) }
}
fn total_a(n: usize) -> u32 {
    unsafe { (if n > 0 { A[0] } else { 0 }) + (if n > 1 { A[1] } else { 0 }) + (if n > 2 { A[2] } else { 0 }) }
}
/// element j of the concatenation of the first n components' elements
fn concat(n: usize, j: usize) -> M31 {
    unsafe {
        let mut k = 0;
        let mut at = 0;
        while k < n {
            if j < at + W[k] {
                return E[k][j - at];
            }
            at += W[k];
            k += 1;
        }
        panic!("no such element")
    }
}
fn types(n: usize) -> Vec<AbiType> {
    let mut v = Vec::with_capacity(4);
    for i in 0..n {
        v.push(tok(i));
    }
    v
}
fn values(n: usize) -> Vec<InputValue> {
    let mut v = Vec::with_capacity(4);
    for i in 0..n {
        v.push(val(i));
    }
    v
}
fn aggregate(n: usize, structure: bool, w: [usize; K], bad: usize) {
    setup(false, w, bad);
    let ty = if structure {
        let mut f = Vec::with_capacity(4);
        for i in 0..n {
            f.push((String::new(), tok(i)));
        }
        AbiType::Struct { name: String::new(), fields: f }
    } else {
        AbiType::Tuple(types(n))
    };
    let value = if structure { InputValue::Struct(values(n)) } else { InputValue::List(values(n)) };
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    kani::assume(c.0 < 1 << 27);
    let c0 = c;
    assert!(AbiType::call_slot_size__top(&ty) == total_w(n), "slots of an aggregate are the sum of its components'");
    assert!(ty.size_in_slots__top() == total_w(n), "size of an aggregate is the sum of its components'");
    assert!(calculate_array_materialization_size_with_value__top(&ty, &value) == total_a(n) as usize, "array cells of an aggregate are the sum of its components'");
    match enc(vm, &mut c, &ty, &value) {
        Ok(s) => {
            assert!(!any_bad(n) && unsafe { ECALLS } == n, "a component that does not fit is rejected");
            assert!(s.len() == total_w(n), "as many elements as declared");
            assert!(c.0 == c0.0 + total_a(n), "array data of the components only");
            for j in 0..s.len() {
                assert!(s[j] == concat(n, j), "components in order");
            }
            match dec(vm, &ty, &s) {
                Ok((CairoMValue::Tuple(v), k)) => {
                    assert!(!structure && v.len() == n && k == s.len(), "tuple decodes to a tuple");
                    for i in 0..n {
                        assert!(matches!(v[i], CairoMValue::U32(x) if x as usize == i), "component value");
                    }
                }
                Ok((CairoMValue::Struct(v), k)) => {
                    assert!(structure && v.len() == n && k == s.len(), "struct decodes to a struct");
                    for i in 0..n {
                        assert!(matches!(v[i].1, CairoMValue::U32(x) if x as usize == i), "component value");
                    }
                }
                o => { std::mem::forget(o); panic!("aggregate does not decode") }
            }
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(any_bad(n), "fitting aggregate rejected")
        }
    }
    std::mem::forget((ty, value));
}
step! { fn tuple_0() { aggregate(0, false, [0; K], 9) } }
step! { fn tuple_3() { aggregate(3, false, [2, 0, 1], 9) } }
step! { fn tuple_3_bad() { aggregate(3, false, [2, 0, 1], 2) } }
step! { fn struct_2() { aggregate(2, true, [1, 2, 1], 9) } }
step! { fn struct_2_bad() { aggregate(2, true, [1, 2, 1], 0) } }
/// arrays: elements at consecutive cells after what the elements materialise, one pointer pushed, read back in order
fn array(n: usize, pointer: bool, w: usize, bad: usize) {
    setup(true, [w; K], bad);
    let ty = if pointer {
        AbiType::Pointer { element: Box::new(tok(0)), len: if kani::any() { Some(n as u32) } else { None } }
    } else {
        AbiType::FixedSizeArray { element: Box::new(tok(0)), size: n as u32 }
    };
    let has_len = !matches!(ty, AbiType::Pointer { len: None, .. });
    let value = InputValue::List(values(n));
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = any_m31();
    kani::assume((c.0 as usize) < memory::MAX_ADDRESS - 4000);
    let c0 = c;
    assert!(AbiType::call_slot_size__top(&ty) == 1, "an array passes one pointer");
    if !pointer {
        assert!(ty.size_in_slots__top() == total_w(n), "an array stores its elements");
    }
    assert!(calculate_array_materialization_size_with_value__top(&ty, &value) == total_w(n) + total_a(n) as usize, "cells reserved for an array");
    match enc(vm, &mut c, &ty, &value) {
        Ok(s) => {
            assert!(!any_bad(n) && unsafe { ECALLS } == n, "an element that does not fit is rejected");
            assert!(s.len() == 1 && s[0].0 == c0.0 + total_a(n), "an array passes one pointer to its first cell");
            assert!(c.0 == s[0].0 + total_w(n) as u32, "cursor after the array");
            for j in 0..total_w(n) {
                match flat_get(&vm.memory, s[0] + M31(j as u32)) {
                    Ok(x) => assert!(x == concat(n, j), "elements at consecutive cells"),
                    Err(e) => {
            std::mem::forget(e);
            panic!("array cell not readable")
        }
                }
            }
            match dec(vm, &ty, &s) {
                Ok((CairoMValue::Array(v), 1)) => {
                    assert!(has_len && v.len() == n, "array length");
                    for i in 0..n {
                        assert!(matches!(v[i], CairoMValue::U32(x) if x as usize == i), "element value");
                    }
                }
                Ok((CairoMValue::Pointer(p), 1)) => assert!(!has_len && p == s[0], "bare pointer"),
                o => { std::mem::forget(o); panic!("array does not decode") }
            }
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(any_bad(n), "fitting array rejected")
        }
    }
    std::mem::forget((ty, value));
}
step! { fn array_0() { array(0, false, 1, 9) } }
step! { fn array_2() { array(2, false, 2, 9) } }
step! { fn array_3() { array(3, false, 1, 9) } }
step! { fn array_2_bad() { array(2, false, 2, 1) } }
step! { fn pointer_2() { array(2, true, 2, 9) } }
step! { fn pointer_2_bad() { array(2, true, 1, 0) } }
step! {
/// a list of the wrong length is reported, never a crash
fn wrong_lengths_rejected() {
    setup(true, [1; K], 9);
    let size: u32 = kani::any();
    kani::assume(size != 1);
    let value = InputValue::List(values(1));
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let mut c = M31(100);
    let ty = AbiType::FixedSizeArray { element: Box::new(tok(0)), size };
    let _ = calculate_array_materialization_size_with_value__top(&ty, &value);
    { let r = enc(vm, &mut c, &ty, &value); assert!(r.is_err(), "array of another length accepted"); std::mem::forget(r); }
    unsafe { ECALLS = 0 };
    let ty2 = AbiType::Pointer { element: Box::new(tok(0)), len: Some(size) };
    let _ = calculate_array_materialization_size_with_value__top(&ty2, &value);
    { let r = enc(vm, &mut c, &ty2, &value); assert!(r.is_err(), "pointer of another length accepted"); std::mem::forget(r); }
    unsafe { ECALLS = 0; SAME_TYPE = false };
    let ty3 = AbiType::Tuple(types(2));
    { let r = enc(vm, &mut c, &ty3, &value); assert!(r.is_err(), "tuple of another length accepted"); std::mem::forget(r); }
    unsafe { ECALLS = 0 };
    let ty4 = AbiType::Struct { name: String::new(), fields: Vec::from([(String::new(), tok(0)), (String::new(), tok(1))]) };
    { let r = enc(vm, &mut c, &ty4, &InputValue::Struct(values(1))); assert!(r.is_err(), "struct of another length accepted"); std::mem::forget(r); }
    unsafe { ECALLS = 0 };
    let ty5 = AbiType::Tuple(types(1));
    { let r = enc(vm, &mut c, &ty5, &InputValue::List(values(2))); assert!(r.is_err(), "longer list accepted as tuple"); std::mem::forget(r); }
    std::mem::forget(value);
}
}
step! {
/// the return frame is consumed exactly: missing or trailing data is reported
fn return_frame() {
    setup(false, [1, 2, 1], 9);
    let specs = [slot(tok(0)), slot(tok(1)), slot(tok(2))];
    let vm: &'static mut VM = std::boxed::Box::leak(std::boxed::Box::new(blank_vm()));
    let len: usize = kani::any();
    kani::assume(len <= 6);
    let t = total_w(3);
    let mut frame = [M31(0); 6];
    for j in 0..6 {
        frame[j] = if j < t { concat(3, j) } else { any_m31() };
    }
    match decode_all_return_values(&specs, &frame[..len], vm) {
        Ok(v) => {
            assert!(len == t, "missing or trailing return data accepted");
            assert!(v.len() == 3, "one value per declared return");
            for i in 0..3 {
                assert!(matches!(v[i], CairoMValue::U32(x) if x as usize == i), "return values in order");
            }
            kani::cover!(true);
        }
        Err(e) => {
            std::mem::forget(e);
            assert!(len != t, "exact return data rejected")
        }
    }
    std::mem::forget(specs);
}
}
/// scalar sizes
#[kani::proof]
#[kani::stub(AbiType::call_slot_size, slots_ih)]
#[kani::stub(AbiType::size_in_slots, method_slots_ih)]
fn slot_sizes() {
    let one = [AbiType::Felt, AbiType::Bool, AbiType::Pointer { element: Box::new(AbiType::Unit), len: None }];
    assert!(one[0].size_in_slots__top() == 1 && one[1].size_in_slots__top() == 1 && one[2].size_in_slots__top() == 1, "one cell");
    assert!(AbiType::call_slot_size__top(&one[0]) == 1 && AbiType::call_slot_size__top(&one[1]) == 1 && AbiType::call_slot_size__top(&one[2]) == 1, "one slot");
    assert!(AbiType::U32.size_in_slots__top() == 2 && AbiType::call_slot_size__top(&AbiType::U32) == 2, "u32 takes two");
    assert!(AbiType::Unit.size_in_slots__top() == 0 && AbiType::call_slot_size__top(&AbiType::Unit) == 0, "unit takes none");
    std::mem::forget(one);
}

// ---- C07 ---------------------------------------------------------------------------------------
#[kani::proof]
fn ranges_contract() {
    let l: u32 = kani::any();
    let (m, k): (usize, usize) = (kani::any(), kani::any());
    // all cells fit the address space
    kani::assume(m < (1 << 28) && k < (1 << 28) && l < (1 << 28));
    let r = PublicAddressRanges::new(l, m, k);
    assert!(r.program.start == 0, "program range starts at zero");
    assert!(r.program.end == l, "program range has the program's length");
    assert!(r.input.start == r.program.end, "input follows program");
    assert!(r.input.end - r.input.start == m as u32, "input range has the input's length");
    assert!(r.output.start == r.input.end, "output follows input");
    assert!(r.output.end - r.output.start == k as u32, "output range has the output's length");
    kani::cover!(m > 0 && k > 0 && l > 0);
}
static mut INFO: Option<EntrypointInfo> = None;
static mut FP_OFFSET: u32 = 0;
static mut ARGC: usize = 0;
static mut RETC: usize = 0;
static mut PC: u32 = 0;
fn the_entrypoint<'a>(_: &'a Program, _: &str) -> Option<&'a EntrypointInfo> {
    unsafe { INFO.as_ref() }
}
fn any_program<'a: 'a>(p: &'a Program) -> std::result::Result<VM, VmError> {
    let _ = p;
    let l = any_m31();
    kani::assume(l.0 < (1 << 20));
    let mut vm = blank_vm();
    vm.final_pc = l;
    vm.program_length = l;
    vm.state.fp = l;
    Ok(vm)
}
fn abstract_run(vm: &mut VM, pc: u32, fp_offset: u32, args: &[M31], k: usize, _: &RunnerOptions) -> std::result::Result<(), VmError> {
    unsafe {
        FP_OFFSET = fp_offset;
        ARGC = args.len();
        RETC = k;
        PC = pc;
    }
    // the entry function returns: the frame pointer it was entered with is restored
    vm.state.fp = vm.state.fp + M31::from(fp_offset);
    Ok(())
}
/// signature glue: the ranges describe the frame the run was started with, and the run is started with
/// exactly the encoded arguments (callees by their contracts; up to three parameters and returns)
fn glue(p: usize, r: usize, w: [usize; K]) {
    setup(false, w, 9);
    unsafe { GLUE = true };
    let pc: usize = kani::any();
    kani::assume(pc < (1 << 20));
    let mut params = Vec::new();
    for i in 0..p {
        params.push(slot(tok(i)));
    }
    let mut returns = Vec::new();
    for i in 0..r {
        returns.push(slot(tok(i)));
    }
    unsafe { INFO = Some(EntrypointInfo { pc, params, returns }) };
    let program = Program { data: Vec::new(), entrypoints: Default::default(), metadata: Default::default() };
    let args = values(p);
    let res = run_cairo_program(&program, "f", &args, RunnerOptions { max_steps: 5 });
    match &res {
        Ok(o) => unsafe {
            let l = o.vm.program_length.0;
            let fp = l + FP_OFFSET;
            let g = &o.public_address_ranges;
            assert!(PC as usize == pc, "starts at the entry point");
            assert!(ECALLS == p && ARGC == total_w(p), "every argument is passed");
            assert!(RETC == total_w(r), "every return slot is reserved");
            assert!(FP_OFFSET as usize == total_a(p) as usize + ARGC + RETC + 2, "entry frame offset");
            assert!(g.program.start == 0 && g.program.end == l, "program range");
            assert!(g.input.start == l && g.output.start == g.input.end, "contiguous");
            assert!(g.input.end - g.input.start == total_a(p) + ARGC as u32, "input area: array data and argument slots");
            assert!(g.output.end - g.output.start == RETC as u32, "output area");
            assert!(g.output.end == fp - 2, "output range ends two cells below the entry frame pointer");
            assert!(o.return_values.len() == r, "one value per declared return");
            kani::cover!(true);
        },
        Err(_) => panic!("run refused"),
    }
    std::mem::forget((res, program, args));
}
fn slot(ty: AbiType) -> AbiSlot {
    AbiSlot { name: String::new(), ty }
}
step! {
    #[kani::stub(Program::get_entrypoint, the_entrypoint)]
    #[kani::stub(<VM as TryFrom<&Program>>::try_from, any_program)]
    #[kani::stub(VM::run_from_entrypoint, abstract_run)]
    fn glue_unit() { glue(0, 0, [0; K]) }
}
step! {
    #[kani::stub(Program::get_entrypoint, the_entrypoint)]
    #[kani::stub(<VM as TryFrom<&Program>>::try_from, any_program)]
    #[kani::stub(VM::run_from_entrypoint, abstract_run)]
    fn glue_1_1() { glue(1, 1, [2; K]) }
}
step! {
    #[kani::stub(Program::get_entrypoint, the_entrypoint)]
    #[kani::stub(<VM as TryFrom<&Program>>::try_from, any_program)]
    #[kani::stub(VM::run_from_entrypoint, abstract_run)]
    fn glue_2_1() { glue(2, 1, [1, 2, 0]) }
}
step! {
    #[kani::stub(Program::get_entrypoint, the_entrypoint)]
    #[kani::stub(<VM as TryFrom<&Program>>::try_from, any_program)]
    #[kani::stub(VM::run_from_entrypoint, abstract_run)]
    fn glue_1_2() { glue(1, 2, [2, 1, 0]) }
}

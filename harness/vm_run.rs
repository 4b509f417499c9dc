//! Contracts of program loading, entry frames, stepping and segment hand-over (C04, C05).
#![allow(static_mut_refs)]
use super::*;
use crate::memory::Memory;
use cairo_m_common::ghostvec::{P, Vec, any_m31};
use cairo_m_common::ghostmap::HashMap as Map;
use cairo_m_common::state::MemoryEntry;
use instructions::{InstructionExecutionError, InstructionFn};
use std::cell::RefCell;

fn any_q() -> QM31 {
    QM31::from_m31_array([any_m31(), any_m31(), any_m31(), any_m31()])
}
fn fixed_memory() -> Memory {
    Memory { locals: Vec::fixed(MAX_ADDRESS + 1), heap: Vec::new(), trace: RefCell::new(Vec::new()) }
}
fn vm_with(memory: Memory, state: State, final_pc: M31) -> VM {
    VM {
        final_pc,
        initial_memory_locals: Vec::new(),
        initial_memory_heap: Vec::new(),
        memory,
        state,
        program_length: final_pc,
        trace: Vec::new(),
        segments: Vec::new(),
    }
}
fn add(a: u32, b: u32) -> u32 {
    let s = a as u64 + b as u64;
    (s % P as u64) as u32
}
fn sub(a: u32, b: u32) -> u32 {
    if a >= b { a - b } else { a + P - b }
}

// ---- step ----------------------------------------------------------------------------------
static mut CALLS: usize = 0;
static mut SEEN: State = State { pc: M31(0), fp: M31(0) };
static mut SEEN_TRACE: usize = 0;
static mut RESULT: State = State { pc: M31(0), fp: M31(0) };
static mut SEEN_INS: Option<Instruction> = None;
static mut DISPATCHED: Option<Instruction> = None;
/// stands for any instruction handler: its behaviour is C02's contract
fn abstract_handler(m: &mut Memory, s: State, i: &Instruction) -> Result<State, InstructionExecutionError> {
    unsafe {
        CALLS += 1;
        SEEN = s;
        SEEN_INS = Some(*i);
        SEEN_TRACE = m.trace.borrow().len();
        if kani::any() {
            return Err(InstructionExecutionError::InvalidOperand(String::new()));
        }
        RESULT = State { pc: any_m31(), fp: any_m31() };
        Ok(RESULT)
    }
}
fn abstract_dispatch(i: Instruction) -> Result<InstructionFn, InstructionError> {
    unsafe { DISPATCHED = Some(i) };
    Ok(abstract_handler)
}
/// a step records its registers once, fetches the words at the program counter first, dispatches
/// the decoded instruction once and takes over the handler's registers
fn step(words: usize) {
    let mut m = fixed_memory();
    let st = State { pc: any_m31(), fp: any_m31() };
    kani::assume((st.pc.0 as usize) < MAX_ADDRESS);
    // an instruction of either word count, with arbitrary operands
    let ins = if words == 1 {
        Instruction::StoreImm { imm: any_m31(), dst_off: any_m31() }
    } else {
        Instruction::U32StoreAddFpImm { src_off: any_m31(), imm_lo: any_m31(), imm_hi: any_m31(), dst_off: any_m31() }
    };
    let q = ins.to_qm31_vec();
    let mut i = 0;
    while i < words {
        m.locals[st.pc.0 as usize + i] = q[i];
        i += 1;
    }
    let mut vm = vm_with(m, st, any_m31());
    let r = vm.step();
    let t = vm.memory.trace.borrow();
    unsafe {
        assert!(CALLS == 1, "the instruction is executed exactly once");
        assert!(DISPATCHED == Some(ins) && SEEN_INS == Some(ins), "the instruction at the program counter is executed");
        assert!(SEEN == st, "the handler sees the current registers");
        assert!(SEEN_TRACE == words, "the instruction words are fetched before the data");
        assert!(t.len() == words, "only the instruction words are recorded by the fetch");
        let mut i = 0;
        while i < words {
            assert!(t.at(i).addr == st.pc + M31(i as u32) && t.at(i).value == q[i], "fetched word recorded");
            i += 1;
        }
        if r.is_ok() {
            assert!(vm.trace.len() == 1 && vm.trace.at(0) == st, "one register pair per step");
            assert!(vm.state == RESULT, "registers after the step");
        }
        kani::cover!(r.is_ok());
    }
    std::mem::forget((t, r, q));
}
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(instructions::instruction_to_fn, abstract_dispatch)]
fn step_one_word() {
    step(1)
}
#[kani::proof]
#[kani::unwind(18)]
#[kani::stub(instructions::instruction_to_fn, abstract_dispatch)]
fn step_two_words() {
    step(2)
}

// ---- execute ---------------------------------------------------------------------------------
static mut STEPS: usize = 0;
fn abstract_step(vm: &mut VM) -> Result<(), VmError> {
    unsafe { STEPS += 1 };
    if kani::any() {
        return Err(VmError::Memory(MemoryError::UninitializedMemoryCell { addr: vm.state.pc }));
    }
    let s = vm.state;
    vm.trace.push(s);
    vm.state = State { pc: any_m31(), fp: any_m31() };
    Ok(())
}
/// bounded: runs of at most three steps
#[kani::proof]
#[kani::unwind(12)]
#[kani::stub(VM::step, abstract_step)]
fn execute_bounded() {
    let st = State { pc: any_m31(), fp: any_m31() };
    let fin = any_m31();
    let mut vm = vm_with(fixed_memory(), st, fin);
    let max: usize = kani::any();
    kani::assume(max <= 3);
    let r = vm.execute(max);
    let steps = unsafe { STEPS };
    match r {
        Ok(s) => {
            if fin.0 == 0 {
                assert!(steps == 0, "empty program runs nothing");
            } else {
                assert!(vm.trace.len() == steps + 1, "one register pair per step and the final one");
                assert!(vm.trace.at(0) == st, "record starts at the initial registers");
                assert!(vm.trace.at(steps) == vm.state, "record ends at the final registers");
                assert!(steps <= max, "step limit respected");
                let done = vm.state.pc == fin;
                assert!(matches!(s, ExecutionStatus::Complete) == done, "complete exactly at the end of the program");
                assert!(done || steps == max, "stops early only when complete");
                let mut k = 0;
                while k < 3 {
                    if k < steps {
                        assert!(vm.trace.at(k).pc != fin, "no step past the end of the program");
                    }
                    k += 1;
                }
            }
            kani::cover!(steps == 3);
            kani::cover!(steps == 2 && vm.state.pc == fin);
        }
        Err(_) => {}
    }
    std::mem::forget(vm);
}

// ---- entry frame -----------------------------------------------------------------------------
static mut AT_EXEC: State = State { pc: M31(0), fp: M31(0) };
static mut EXECS: usize = 0;
static mut FINALIZED: usize = 0;
static mut LAST: bool = false;
fn abstract_execute(vm: &mut VM, _max: usize) -> Result<ExecutionStatus, VmError> {
    unsafe {
        EXECS += 1;
        if EXECS == 1 {
            AT_EXEC = vm.state;
        }
        if EXECS >= 2 || kani::any() { Ok(ExecutionStatus::Complete) } else { Ok(ExecutionStatus::Ongoing) }
    }
}
fn abstract_finalize(_vm: &mut VM, last: bool) {
    unsafe {
        FINALIZED += 1;
        LAST = last;
        assert!(FINALIZED == EXECS, "each run part closes its segment");
    }
}
fn entry(nargs: usize) {
    let fp0 = any_m31();
    let fin = any_m31();
    let args = [any_m31(), any_m31(), any_m31()];
    let k: usize = kani::any();
    kani::assume(k < (1 << 28));
    let (pc, off): (u32, u32) = (any_m31().0, any_m31().0);
    let mut vm = vm_with(fixed_memory(), State { pc: M31(0), fp: fp0 }, fin);
    let w: u32 = kani::any();
    kani::assume(w <= MAX_ADDRESS as u32);
    let old = vm.memory.locals.at(w as usize);
    let r = vm.run_from_entrypoint(pc, off, &args[..nargs], k, &RunnerOptions { max_steps: 10 });
    let fp = add(fp0.0, off);
    if r.is_ok() {
        let mut want = old;
        let mut i = 0;
        while i < nargs {
            // frame pointer - M - K - 2 + i
            if w == sub(fp, (nargs + k + 2 - i) as u32) {
                want = QM31::from(args[i]);
            }
            i += 1;
        }
        if w == sub(fp, 2) {
            want = QM31::from(M31(fp));
        }
        if w == sub(fp, 1) {
            want = QM31::from(fin);
        }
        assert!(vm.memory.locals.at(w as usize) == want, "entry frame contents");
        assert!(vm.initial_memory_locals.len() == vm.memory.locals.len(), "initial memory covers the memory");
        assert!(vm.initial_memory_locals.at(w as usize) == want, "initial memory is the memory before the first step");
        unsafe {
            assert!(AT_EXEC.pc.0 == pc && AT_EXEC.fp.0 == fp, "execution starts at the entry point and frame");
            assert!(LAST && FINALIZED == EXECS, "the last segment is closed as the last");
        }
        assert!(vm.memory.trace.borrow().len() == 0, "set-up is not recorded");
        kani::cover!(nargs == 0 || w == sub(fp, (nargs + k + 2) as u32));
    }
    std::mem::forget((vm, r));
}
macro_rules! entry_h {
    ($($name:ident, $n:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(12)]
        #[kani::stub(VM::execute, abstract_execute)]
        #[kani::stub(VM::finalize_segment, abstract_finalize)]
        fn $name() { entry($n) }
    )* };
}
entry_h! { entry_frame_0, 0; entry_frame_1, 1; entry_frame_2, 2; entry_frame_3, 3; }

// ---- call and return ---------------------------------------------------------------------------
/// returning restores the caller's frame and continues after the call, for every offset and target,
/// whatever the callee did to other cells
#[kani::proof]
#[kani::unwind(18)]
fn call_then_return() {
    let mut m = fixed_memory();
    let s = State { pc: any_m31(), fp: any_m31() };
    let (off, target) = (any_m31(), any_m31());
    let call = Instruction::CallAbsImm { frame_off: off, target };
    let f = instruction_to_fn(call);
    let g = instruction_to_fn(Instruction::Ret {});
    let (f, g) = match (f, g) {
        (Ok(f), Ok(g)) => (f, g),
        _ => panic!("no handler for call or return"),
    };
    if let Ok(s1) = f(&mut m, s, &call) {
        assert!(s1.pc == target, "call continues at its target");
        assert!(s1.fp.0 == add(add(s.fp.0, off.0), 2), "callee frame");
        // the callee writes anywhere except its saved frame pointer and return address
        let (w, v) = (any_m31(), any_m31());
        kani::assume(w.0 != sub(s1.fp.0, 1) && w.0 != sub(s1.fp.0, 2));
        let _ = m.insert(w, v.into());
        let r = g(&mut m, State { pc: any_m31(), fp: s1.fp }, &Instruction::Ret {});
        match r {
            Ok(s2) => {
                assert!(s2.fp == s.fp, "caller's frame restored");
                assert!(s2.pc.0 == add(s.pc.0, call.size_in_qm31s()), "continues after the call");
                kani::cover!(true);
            }
            Err(_) => panic!("return from a call fails"),
        }
    }
    std::mem::forget(m);
}

// ---- program loading -------------------------------------------------------------------------
/// C01's contract of the word encoding, for the instructions used here
fn words_of(i: &Instruction) -> std::vec::Vec<QM31> {
    match *i {
        Instruction::StoreImm { imm, dst_off } => std::vec::Vec::from([QM31::from_m31_array([M31(9), imm, dst_off, M31(0)])]),
        Instruction::U32StoreAddFpImm { src_off, imm_lo, imm_hi, dst_off } => std::vec::Vec::from([
            QM31::from_m31_array([M31(19), src_off, imm_lo, imm_hi]),
            QM31::from_m31_array([dst_off, M31(0), M31(0), M31(0)]),
        ]),
        _ => panic!("VERIF-LIMIT other instruction"),
    }
}
/// bounded: programs of up to three items (value, one-word and two-word instructions)
fn load<const N: usize>(items: [u8; N]) {
    let mut words = [QM31::from_u32_unchecked(0, 0, 0, 0); 6];
    let mut k = 0;
    let mut i = 0;
    let data: [ProgramData; N] = std::array::from_fn(|i| match items[i] {
        0 => {
            let q = any_q();
            words[k] = q;
            k += 1;
            ProgramData::Value(q)
        }
        1 => {
            let (a, b) = (any_m31(), any_m31());
            words[k] = QM31::from_m31_array([M31(9), a, b, M31(0)]);
            k += 1;
            ProgramData::Instruction(Instruction::StoreImm { imm: a, dst_off: b })
        }
        _ => {
            let (a, b, c, d) = (any_m31(), any_m31(), any_m31(), any_m31());
            words[k] = QM31::from_m31_array([M31(19), a, b, c]);
            words[k + 1] = QM31::from_m31_array([d, M31(0), M31(0), M31(0)]);
            k += 2;
            ProgramData::Instruction(Instruction::U32StoreAddFpImm { src_off: a, imm_lo: b, imm_hi: c, dst_off: d })
        }
    });
    let p = Program { data: std::vec::Vec::from(data), entrypoints: Default::default(), metadata: Default::default() };
    match VM::try_from(&p) {
        Ok(vm) => {
            assert!(vm.program_length.0 as usize == k, "program length in words");
            assert!(vm.final_pc.0 as usize == k, "final program counter is the end of the program");
            assert!(vm.state.fp.0 as usize == k && vm.state.pc.0 == 0, "initial registers");
            assert!(vm.memory.locals.len() == k && vm.memory.heap.len() == 0, "memory holds the program");
            let mut j = 0;
            while j < k {
                assert!(vm.memory.locals.at(j) == words[j], "program words at consecutive addresses from zero");
                j += 1;
            }
            kani::cover!(true);
            std::mem::forget(vm);
        }
        Err(_) => panic!("program rejected"),
    }
    std::mem::forget(p);
}
macro_rules! load_h {
    ($($name:ident, $n:expr;)*) => { $(
        #[kani::proof]
        #[kani::unwind(11)]
        #[kani::stub(Instruction::to_qm31_vec, words_of)]
        fn $name() { load($n) }
    )* };
}
load_h! { load_a, [1, 2]; load_b, [0, 2, 1]; load_c, [2, 0, 0]; }

// ---- segment hand-over ------------------------------------------------------------------------
/// bounded: at most two cells per region.  The closed segment owns the record and starts from the
/// memory before its first step; the next segment starts from the current memory.
#[kani::proof]
#[kani::unwind(12)]
fn finalize_bounded() {
    let (a, b, c, d) = (any_q(), any_q(), any_q(), any_q());
    let (e, f, g) = (any_q(), any_q(), any_q());
    let mut vm = vm_with(Memory { locals: Vec::new(), heap: Vec::new(), trace: RefCell::new(Vec::new()) }, State { pc: any_m31(), fp: any_m31() }, any_m31());
    vm.initial_memory_locals.push(a);
    vm.initial_memory_locals.push(b);
    vm.initial_memory_heap.push(c);
    vm.memory.locals.push(d);
    vm.memory.locals.push(e);
    vm.memory.heap.push(f);
    vm.memory.heap.push(g);
    let me = MemoryEntry { addr: any_m31(), value: any_q() };
    vm.memory.trace.borrow_mut().push(me);
    let s0 = State { pc: any_m31(), fp: any_m31() };
    vm.trace.push(s0);
    let last: bool = kani::any();
    vm.finalize_segment(last);
    assert!(vm.segments.len() == 1, "one segment closed");
    let s = vm.segments.get(0).unwrap();
    let im: &Map<M31, (QM31, M31, M31)> = &s.initial_memory;
    let z = M31(0);
    assert!(im.len() == 3, "initial memory of the segment");
    assert!(im.get(&M31(0)) == Some(&(a, z, z)) && im.get(&M31(1)) == Some(&(b, z, z)), "low cells of the initial memory");
    assert!(im.get(&M31(MAX_ADDRESS as u32)) == Some(&(c, z, z)), "high cells of the initial memory");
    assert!(s.trace.len() == 1 && s.trace.at(0) == s0, "registers recorded in the segment");
    assert!(s.memory_trace.borrow().len() == 1 && s.memory_trace.borrow().at(0) == me, "accesses recorded in the segment");
    assert!(vm.trace.len() == 0 && vm.memory.trace.borrow().len() == 0, "the next segment starts with an empty record");
    if !last {
        assert!(vm.initial_memory_locals.len() == 2 && vm.initial_memory_heap.len() == 2, "next initial memory");
        assert!(vm.initial_memory_locals.at(0) == d && vm.initial_memory_locals.at(1) == e, "next segment starts from the current memory");
        assert!(vm.initial_memory_heap.at(0) == f && vm.initial_memory_heap.at(1) == g, "next segment starts from the current memory");
        assert!(vm.memory.locals.len() == 2 && vm.memory.locals.at(1) == e && vm.memory.heap.at(1) == g, "memory kept");
    }
    kani::cover!(last);
    kani::cover!(!last);
    std::mem::forget(vm);
}

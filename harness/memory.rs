//! Contracts of the VM memory (C03) and of the instruction fetch (part of C04), for every length
//! and content of the two regions.
use super::*;
use cairo_m_common::ghostvec::{P, Vec, any_m31};

/// abstraction: the value of cell `a` (a <= MAX_ADDRESS)
fn view(m: &Memory, a: u32) -> QM31 {
    let a = a as usize;
    if a < m.locals.len() {
        m.locals.at(a)
    } else if MAX_ADDRESS - a < m.heap.len() {
        m.heap.at(MAX_ADDRESS - a)
    } else {
        QM31::zero()
    }
}
fn inv(m: &Memory) -> bool {
    m.locals.len() + m.heap.len() <= MAX_ADDRESS + 1
}
fn any_memory() -> Memory {
    let n: usize = kani::any();
    let h: usize = kani::any();
    kani::assume(n <= MAX_ADDRESS + 1 && h <= MAX_ADDRESS + 1 && n + h <= MAX_ADDRESS + 1);
    Memory { locals: Vec::symbolic(n), heap: Vec::symbolic(h), trace: RefCell::new(Vec::new()) }
}
fn any_addr() -> u32 {
    let w: u32 = kani::any();
    kani::assume(w <= MAX_ADDRESS as u32);
    w
}
fn any_q() -> QM31 {
    QM31::from_m31_array([any_m31(), any_m31(), any_m31(), any_m31()])
}
fn base(q: QM31) -> bool {
    q.0.1.0 == 0 && q.1.0.0 == 0 && q.1.1.0 == 0
}
fn next(a: u32) -> u32 {
    if a + 1 >= P { a + 1 - P } else { a + 1 }
}

#[kani::proof]
#[kani::unwind(13)]
fn insert_contract() {
    let mut m = any_memory();
    let (a, v, w) = (any_m31(), any_q(), any_addr());
    let old = view(&m, w);
    let r = m.insert(a, v);
    assert!(inv(&m), "regions stay disjoint");
    assert!(r.is_ok() == (a.0 <= MAX_ADDRESS as u32), "accepted exactly in range");
    let want = if r.is_ok() && w == a.0 { v } else { old };
    assert!(view(&m, w) == want, "write changes that cell only");
    kani::cover!(r.is_ok() && w == a.0);
    kani::cover!(r.is_err());
    kani::cover!(r.is_ok() && w != a.0 && m.heap.len() > 5 && m.locals.len() > 5);
    std::mem::forget((m, r));
}
#[kani::proof]
#[kani::unwind(13)]
fn insert_no_trace_contract() {
    let mut m = any_memory();
    let (a, v, w) = (any_m31(), any_q(), any_addr());
    let old = view(&m, w);
    let r = m.insert_no_trace(a, v);
    assert!(inv(&m), "regions stay disjoint");
    assert!(r.is_ok() == (a.0 <= MAX_ADDRESS as u32), "accepted exactly in range");
    let want = if r.is_ok() && w == a.0 { v } else { old };
    assert!(view(&m, w) == want, "write changes that cell only");
    assert!(m.trace.borrow().len() == 0, "nothing recorded");
    kani::cover!(r.is_ok() && w == a.0);
    std::mem::forget((m, r));
}
fn read_contract(traced: bool) {
    let m = any_memory();
    let (a, w) = (any_m31(), any_addr());
    let old = view(&m, w);
    let (nl, nh) = (m.locals.len(), m.heap.len());
    let in_range = a.0 <= MAX_ADDRESS as u32;
    let want = if in_range { view(&m, a.0) } else { QM31::zero() };
    let r = if traced { m.get_data(a) } else { m.get_data_no_trace(a) };
    match r {
        Ok(v) => {
            assert!(in_range, "out-of-range read accepted");
            assert!(base(want), "value outside the base field read as a felt");
            assert!(v == want.0.0, "read returns the cell");
        }
        Err(_) => assert!(!in_range || !base(want), "valid read rejected"),
    }
    kani::cover!(r.is_ok() && a.0 as usize >= nl && MAX_ADDRESS - a.0 as usize >= nh);
    kani::cover!(r.is_ok() && m.locals.len() == 0 && m.heap.len() == 3);
    assert!(m.locals.len() == nl && m.heap.len() == nh && view(&m, w) == old, "reads change nothing");
    std::mem::forget((m, r));
}
#[kani::proof]
#[kani::unwind(13)]
fn get_data_contract() {
    read_contract(true)
}
#[kani::proof]
#[kani::unwind(13)]
fn get_data_no_trace_contract() {
    read_contract(false)
}
fn read_u32_contract(traced: bool) {
    let m = any_memory();
    let a = any_m31();
    let b = next(a.0);
    let max = MAX_ADDRESS as u32;
    let ok = a.0 <= max && b <= max;
    let (lo, hi) = if ok { (view(&m, a.0), view(&m, b)) } else { (QM31::zero(), QM31::zero()) };
    let fits = ok && base(lo) && base(hi) && lo.0.0.0 <= 0xffff && hi.0.0.0 <= 0xffff;
    let r = if traced { m.get_u32(a) } else { m.get_u32_no_trace(a) };
    match r {
        Ok(v) => {
            assert!(fits, "invalid limbs accepted");
            assert!(v == lo.0.0.0 + 65536 * hi.0.0.0, "low limb first");
        }
        Err(_) => assert!(!fits, "valid limbs rejected"),
    }
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err() && ok);
    std::mem::forget((m, r));
}
#[kani::proof]
#[kani::unwind(13)]
fn get_u32_contract() {
    read_u32_contract(true)
}
#[kani::proof]
#[kani::unwind(13)]
fn get_u32_no_trace_contract() {
    read_u32_contract(false)
}
#[kani::proof]
#[kani::unwind(13)]
fn insert_u32_contract() {
    let mut m = any_memory();
    let (a, w) = (any_m31(), any_addr());
    let v: u32 = kani::any();
    let b = next(a.0);
    let max = MAX_ADDRESS as u32;
    let old = view(&m, w);
    let r = m.insert_u32(a, v);
    assert!(r.is_ok() == (a.0 <= max && b <= max), "accepted exactly in range");
    assert!(inv(&m), "regions stay disjoint");
    let got = view(&m, w);
    if r.is_ok() {
        let want = if w == a.0 {
            QM31::from(M31(v & 0xffff))
        } else if w == b {
            QM31::from(M31(v >> 16))
        } else {
            old
        };
        assert!(got == want, "two limbs, low first, nothing else");
    } else if w != a.0 && w != b {
        assert!(got == old, "failed write changes another cell");
    }
    kani::cover!(r.is_ok() && w == b);
    std::mem::forget((m, r));
}
#[kani::proof]
#[kani::unwind(13)]
fn fresh_memory_is_zero() {
    let m = Memory::default();
    assert!(inv(&m), "regions disjoint");
    let a = any_m31();
    let r = m.get_data(a);
    assert!(r.is_ok() == (a.0 <= MAX_ADDRESS as u32), "range");
    if let Ok(v) = r {
        assert!(v.0 == 0, "uninitialised cells read zero");
    }
    kani::cover!(r.is_ok());
    std::mem::forget((m, r));
}
/// the entry frame's two cells are ordinary writes (low region; no heap exists before a run starts)
#[kani::proof]
#[kani::unwind(13)]
fn insert_entrypoint_call_contract() {
    let mut m = any_memory();
    kani::assume(m.heap.len() == 0);
    let (pc, fp, w) = (any_m31(), any_m31(), any_addr());
    let old = view(&m, w);
    let r = m.insert_entrypoint_call(&pc, &fp);
    let a2 = if fp.0 >= 2 { fp.0 - 2 } else { fp.0 + P - 2 };
    let a1 = if fp.0 >= 1 { fp.0 - 1 } else { fp.0 + P - 1 };
    let max = MAX_ADDRESS as u32;
    assert!(r.is_ok() == (a1 <= max && a2 <= max), "accepted exactly in range");
    if r.is_ok() {
        let want = if w == a2 {
            QM31::from(fp)
        } else if w == a1 {
            QM31::from(pc)
        } else {
            old
        };
        assert!(view(&m, w) == want, "caller frame pointer and final pc below the frame pointer");
        assert!(inv(&m), "regions stay disjoint");
        assert!(m.trace.borrow().len() == 0, "nothing recorded");
    }
    kani::cover!(r.is_ok() && w == a1);
    std::mem::forget((m, r));
}

// ---- instruction fetch ---------------------------------------------------------------------
/// fetch: the words at pc, pc+1, .. cut to the opcode's size, recorded in order
#[kani::proof]
#[kani::unwind(13)]
fn get_instruction_contract() {
    let m = any_memory();
    let pc = any_m31();
    let n = m.locals.len();
    let w0 = if (pc.0 as usize) < n { Some(m.locals.at(pc.0 as usize)) } else { None };
    let pc1 = next(pc.0) as usize;
    let w1 = if pc1 < n { Some(m.locals.at(pc1)) } else { None };
    let r = m.get_instruction(pc);
    let t = m.trace.borrow();
    match r {
        Ok(v) => {
            assert!(w0.is_some(), "fetch of a missing word");
            let w0 = w0.unwrap();
            let a = w0.to_m31_array();
            let size = cairo_m_common::Instruction::size_in_m31s_for_opcode(a[0].0);
            let words = match size {
                Some(s) => (s + 3) / 4,
                None => 1,
            };
            let len = match size {
                Some(s) => s,
                None => 4,
            };
            assert!(v.len() == len, "number of elements fetched");
            assert!(words == 1 || w1.is_some(), "fetch of a missing word");
            let b = match w1 {
                Some(q) => q.to_m31_array(),
                None => [M31(0); 4],
            };
            let k: usize = kani::any();
            kani::assume(k < len);
            assert!(v[k] == if k < 4 { a[k] } else { b[k - 4] }, "element fetched");
            assert!(t.len() == words, "one record per word");
            let e0 = t.at(0);
            assert!(e0.addr == pc && e0.value == w0, "first word recorded");
            if words == 2 {
                let e1 = t.at(1);
                assert!(e1.addr.0 as usize == pc1 && e1.value == w1.unwrap(), "second word recorded");
            }
            kani::cover!(words == 2);
            kani::cover!(words == 1);
        }
        Err(_) => {
            assert!(
                w0.is_none() || (w1.is_none() && matches!(OPCODE_SIZE_TABLE.get(w0.unwrap().0.0.0 as usize), Some(Some(s)) if *s > 4)),
                "present instruction not fetched"
            );
        }
    }
    std::mem::forget((t,));
}
/// data accesses are recorded in order with address and value (the traced accessors)
#[kani::proof]
#[kani::unwind(13)]
fn traced_access_contract() {
    let mut m = any_memory();
    let (a, b, v) = (any_m31(), any_m31(), any_q());
    let before = if a.0 <= MAX_ADDRESS as u32 { view(&m, a.0) } else { QM31::zero() };
    let r1 = m.get_data(a);
    let n1 = m.trace.borrow().len();
    assert!(n1 == r1.is_ok() as usize, "a successful read is recorded once");
    if r1.is_ok() {
        let e = m.trace.borrow().at(0);
        assert!(e.addr == a && e.value == before, "address and value read");
    }
    let r2 = m.insert(b, v);
    let n2 = m.trace.borrow().len();
    assert!(n2 == n1 + r2.is_ok() as usize, "a successful write is recorded once, after");
    if r2.is_ok() {
        let e = m.trace.borrow().at(n2 - 1);
        assert!(e.addr == b && e.value == v, "address and value written");
    }
    kani::cover!(r1.is_ok() && r2.is_ok());
    std::mem::forget((m, r1, r2));
}
#[kani::proof]
#[kani::unwind(13)]
fn untraced_access_contract() {
    let m = any_memory();
    let a = any_m31();
    let r = m.get_data_no_trace(a);
    let r2 = m.get_u32_no_trace(a);
    assert!(m.trace.borrow().len() == 0, "debugging reads leave the record untouched");
    kani::cover!(r.is_ok() && r2.is_ok());
    std::mem::forget((m, r, r2));
}

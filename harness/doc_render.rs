//! C22: contracts of the document renderer, by induction on the document.  Components are opaque documents (an Indent
//! node carrying a number); the recursive calls on them are replaced by their contracts: `measure` by an arbitrary
//! answer, `render_doc` by writing one letter that stands for the component's rendering and recording the mode.
use super::*;
use std::mem::ManuallyDrop;

const K: usize = 4;
static mut MEASURED: [Option<usize>; K] = [None; K];
static mut ASKED: [usize; K] = [0; K];
static mut MODE: [u8; K] = [9; K];
static mut CALLS: usize = 0;
static mut FITS: bool = false;
static mut FITS_WIDTH: usize = 0;

fn part(i: usize) -> Doc {
    Doc::Indent(i as u32, Box::new(Doc::Nil))
}
fn id(d: &Doc) -> usize {
    match d {
        Doc::Indent(i, _) => *i as usize,
        _ => panic!("a component"),
    }
}
fn flat(m: Mode) -> bool {
    matches!(m, Mode::Flat)
}
/// The contract of `measure`: what is left of the width, if the flat form of the component fits; arbitrary here.
fn measure_stub(d: &Doc, width: usize, mode: Mode) -> Option<usize> {
    unsafe {
        ASKED[id(d)] = width;
        MODE[id(d)] = flat(mode) as u8;
        CALLS += 1;
        MEASURED[id(d)]
    }
}
fn render_stub(r: &mut Renderer, d: &Doc, mode: Mode) {
    unsafe {
        MODE[id(d)] = flat(mode) as u8;
        CALLS += 1;
    }
    r.output.push((b'a' + id(d) as u8) as char);
    r.pos += 1;
}
fn fits_stub(_r: &Renderer, _d: &Doc, width: usize) -> bool {
    unsafe {
        FITS_WIDTH = width;
        FITS
    }
}
fn any_mode() -> Mode {
    if kani::any() { Mode::Flat } else { Mode::Break }
}
fn set_measured() -> [Option<usize>; K] {
    let mut m = [None; K];
    for x in m.iter_mut() {
        *x = kani::any();
    }
    unsafe { MEASURED = m };
    m
}
fn renderer(width: usize, pos: usize) -> ManuallyDrop<Renderer> {
    let mut r = Renderer::new(width);
    r.output = String::with_capacity(16);
    r.pos = pos;
    ManuallyDrop::new(r)
}

// ---- measure: the width left after the flat form, for every width and every text length ----
#[kani::proof]
#[kani::stub(Renderer::measure, measure_stub)]
fn measure_text() {
    // only the length of a text matters
    let n: usize = kani::any();
    kani::assume(n <= 64);
    let mut v: Vec<u8> = Vec::with_capacity(64);
    unsafe { v.set_len(n) };
    let d = ManuallyDrop::new(Doc::Text(unsafe { String::from_utf8_unchecked(v) }));
    let w: usize = kani::any();
    let r = Renderer::measure__top(&d, w, any_mode());
    assert!(r == w.checked_sub(n), "a text takes its length");
}
#[kani::proof]
#[kani::stub(Renderer::measure, measure_stub)]
fn measure_leaves() {
    let (w, m): (usize, Mode) = (kani::any(), any_mode());
    assert!(Renderer::measure__top(&Doc::Nil, w, m) == Some(w), "nothing takes no room");
    assert!(Renderer::measure__top(&Doc::Line, w, m).is_none(), "a hard break never fits on a line");
    let s = Renderer::measure__top(&Doc::SoftLine, w, m);
    assert!(s == if flat(m) { w.checked_sub(1) } else { None }, "a soft break takes one column when flat");
}
#[kani::proof]
#[kani::stub(Renderer::measure, measure_stub)]
fn measure_group_and_indent() {
    let k = set_measured();
    let (w, m): (usize, Mode) = (kani::any(), any_mode());
    let g = ManuallyDrop::new(Doc::Group(Box::new(part(0))));
    assert!(Renderer::measure__top(&g, w, m) == k[0], "a group takes what its content takes");
    assert!(unsafe { ASKED[0] == w && MODE[0] == 1 }, "the content of a group is measured flat");
    let i = ManuallyDrop::new(Doc::Indent(kani::any(), Box::new(part(1))));
    assert!(Renderer::measure__top(&i, w, m) == k[1], "an indented part takes what its content takes");
    assert!(unsafe { ASKED[1] == w && MODE[1] == flat(m) as u8 }, "the content of an indented part is measured in the same mode");
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(Renderer::measure, measure_stub)]
fn measure_concat() {
    let k = set_measured();
    let (w, m): (usize, Mode) = (kani::any(), any_mode());
    let mut v = Vec::with_capacity(3);
    v.push(part(0));
    v.push(part(1));
    v.push(part(2));
    let d = ManuallyDrop::new(Doc::Concat(v));
    let r = Renderer::measure__top(&d, w, m);
    let want = if k[0].is_some() && k[1].is_some() { k[2] } else { None };
    assert!(r == want, "a sequence fits exactly when its parts fit one after the other");
    assert!(unsafe { ASKED[0] } == w, "the first part has the whole width");
    if let Some(a) = k[0] {
        assert!(unsafe { ASKED[1] } == a, "each part has what the parts before it left");
        if let Some(b) = k[1] {
            assert!(unsafe { ASKED[2] } == b, "each part has what the parts before it left");
        }
    }
}
#[kani::proof]
#[kani::stub(Renderer::measure, measure_stub)]
fn fits_is_flat_measure() {
    let k = set_measured();
    let r = renderer(kani::any(), kani::any());
    let p = ManuallyDrop::new(part(0));
    let w: usize = kani::any();
    assert!(r.fits(&p, w) == k[0].is_some(), "a document fits exactly when its flat form does");
    assert!(unsafe { ASKED[0] == w && MODE[0] == 1 }, "fitting is asked for the flat form and the width at hand");
}

// ---- render_doc ----
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(Renderer::render_doc, render_stub)]
fn render_leaves() {
    let (p, m): (usize, Mode) = (kani::any(), any_mode());
    kani::assume(p < usize::MAX - 8);
    let mut r = renderer(kani::any(), p);
    r.render_doc__top(&Doc::Nil, m);
    assert!(r.output.is_empty() && r.pos == p, "nothing prints nothing");
    r.render_doc__top(&Doc::SoftLine, m);
    assert!(r.output.as_bytes() == if flat(m) { b" " } else { b"\n" }, "a soft break is a space when flat and a line break otherwise");
    assert!(r.pos == if flat(m) { p + 1 } else { 0 }, "the column follows");
    let t = ManuallyDrop::new(Doc::Text(String::from("xyz")));
    let q = r.pos;
    r.render_doc__top(&t, m);
    assert!(&r.output.as_bytes()[1..] == b"xyz" && r.pos == q + 3, "a text is printed as it is");
    r.render_doc__top(&Doc::Line, m);
    assert!(&r.output.as_bytes()[1..] == b"xyz\n" && r.pos == 0, "a hard break is a line break");
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(Renderer::render_doc, render_stub)]
#[kani::stub(Renderer::fits, fits_stub)]
fn render_group() {
    let (w, p, m): (usize, usize, Mode) = (kani::any(), kani::any(), any_mode());
    kani::assume(p < usize::MAX - 8);
    let f: bool = kani::any();
    unsafe { FITS = f };
    let mut r = renderer(w, p);
    let g = ManuallyDrop::new(Doc::Group(Box::new(part(0))));
    r.render_doc__top(&g, m);
    assert!(r.output.as_bytes() == b"a" && unsafe { CALLS } == 1, "a group prints its content once");
    assert!(unsafe { FITS_WIDTH } == w.saturating_sub(p), "a group may use the rest of the line");
    assert!(unsafe { MODE[0] } == f as u8, "the content is flat exactly when it fits");
}
#[kani::proof]
#[kani::unwind(6)]
#[kani::stub(Renderer::render_doc, render_stub)]
fn render_concat() {
    let (p, m): (usize, Mode) = (kani::any(), any_mode());
    kani::assume(p < usize::MAX - 8);
    let mut r = renderer(kani::any(), p);
    let mut v = Vec::with_capacity(4);
    v.push(part(0));
    v.push(part(1));
    v.push(part(2));
    v.push(part(3));
    let d = ManuallyDrop::new(Doc::Concat(v));
    r.render_doc__top(&d, m);
    assert!(r.output.as_bytes() == b"abcd", "a sequence prints its parts once each, in order");
    for i in 0..K {
        assert!(unsafe { MODE[i] } == flat(m) as u8, "the parts are printed in the mode of the sequence");
    }
}

// ---- an indented part, by what its content prints: up to three characters, spaces, line breaks or letters ----
static mut INNER: [u8; 3] = [0; 3];
static mut INNER_LEN: usize = 0;
fn inner_stub(r: &mut Renderer, _d: &Doc, mode: Mode) {
    unsafe {
        MODE[0] = flat(mode) as u8;
        CALLS += 1;
        r.output = String::with_capacity(4);
        for i in 0..INNER_LEN {
            r.output.push(INNER[i] as char);
        }
    }
}
macro_rules! indent { ($($n:ident => $len:expr);*) => { $(
    #[kani::proof]
    #[kani::unwind(10)]
    #[kani::stub(Renderer::render_doc, inner_stub)]
    fn $n() {
        let (p, m): (usize, Mode) = (kani::any(), any_mode());
        kani::assume(p < 1000);
        let mut t = [0u8; 3];
        for i in 0..$len {
            t[i] = match kani::any::<u8>() % 3 { 0 => b' ', 1 => b'\n', _ => b'x' + i as u8 };
        }
        unsafe {
            INNER = t;
            INNER_LEN = $len;
        }
        let mut r = renderer(80, p);
        let d = ManuallyDrop::new(Doc::Indent(2, Box::new(part(0))));
        r.render_doc__top(&d, m);
        assert!(unsafe { CALLS } == 1 && unsafe { MODE[0] } == flat(m) as u8, "an indented part prints its content once, in its mode");
        // what it prints is the content with two spaces before the first visible character of every line it begins
        let out = r.output.as_bytes();
        let (mut o, mut fresh) = (0, p == 0);
        for i in 0..$len {
            let visible = t[i] != b' ' && t[i] != b'\n';
            if fresh && visible {
                assert!(out.len() >= o + 2 && out[o] == b' ' && out[o + 1] == b' ', "a line begun inside is indented");
                o += 2;
                fresh = false;
            }
            assert!(out.len() > o && out[o] == t[i], "every character of the content is printed, in order");
            o += 1;
            if t[i] == b'\n' {
                fresh = true;
            }
        }
        assert!(out.len() == o, "nothing else is printed");
        let mut col = p;
        for i in 0..8 {
            if i < out.len() {
                col = if out[i] == b'\n' { 0 } else { col + 1 };
            }
        }
        assert!(r.pos == col, "the column follows");
    }
)* } }
indent!(render_indent_0 => 0);

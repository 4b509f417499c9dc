//! Build stand-in: the span type of chumsky (start and end offsets), nothing else.
pub mod span {
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
    pub struct SimpleSpan<T = usize, C = ()> {
        pub start: T,
        pub end: T,
        pub context: C,
    }
    impl<T> From<std::ops::Range<T>> for SimpleSpan<T> {
        fn from(r: std::ops::Range<T>) -> Self {
            SimpleSpan { start: r.start, end: r.end, context: () }
        }
    }
}

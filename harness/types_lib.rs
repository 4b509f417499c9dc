//! Stand-ins for the interned type identifiers of the semantic crate.  TypeData (types.rs) and the functions of
//! type_resolution.rs are the real ones.
#![allow(dead_code, unused, non_snake_case, static_mut_refs)]
pub trait SemanticDb {}
pub struct Db;
impl SemanticDb for Db {}
pub const FELT: u8 = 0;
pub const BOOL: u8 = 1;
pub const U32_: u8 = 2;
pub const UNKNOWN: u8 = 3;
pub const ERROR: u8 = 4;
pub const STRUCT: u8 = 5;
pub const TUPLE: u8 = 6;
pub const POINTER: u8 = 7;
pub const ARRAY: u8 = 8;
pub const FUNCTION: u8 = 9;
pub const KINDS: u8 = 10;
pub const LEFT: u8 = 100;
pub const RIGHT: u8 = 101;
pub const CHILD: u8 = 200;
#[derive(Copy, Clone)]
pub struct Shape {
    pub kind: u8,
    pub len: usize,
    pub size: usize,
    pub comp: [u8; 3],
}
/// The two types under comparison.
pub static mut ARENA: [Shape; 2] = [Shape { kind: 0, len: 0, size: 0, comp: [0; 3] }; 2];
pub mod types {
    use super::*;
    use std::marker::PhantomData;
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
    pub struct TypeId<'db>(pub u8, pub PhantomData<&'db ()>);
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
    pub struct StructTypeId<'db>(pub usize, pub PhantomData<&'db ()>);
    #[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
    pub struct FunctionSignatureId<'db>(pub usize, pub PhantomData<&'db ()>);
    pub const PH: PhantomData<&'static ()> = PhantomData;
    impl<'db> TypeId<'db> {
        /// Primitive types have fixed identities.
        pub fn new(_db: &'db dyn SemanticDb, d: TypeData<'db>) -> Self {
            let k = match &d {
                TypeData::Felt => FELT,
                TypeData::Bool => BOOL,
                TypeData::U32 => U32_,
                TypeData::Unknown => UNKNOWN,
                TypeData::Error => ERROR,
                _ => unimplemented!(),
            };
            std::mem::forget(d);
            TypeId(k, PhantomData)
        }
        pub fn data(&self, _db: &'db dyn SemanticDb) -> TypeData<'db> {
            let s = unsafe { ARENA[if self.0 == LEFT { 0 } else { 1 }] };
            let c = |i: usize| TypeId(CHILD + s.comp[i], PhantomData);
            match s.kind {
                FELT => TypeData::Felt,
                BOOL => TypeData::Bool,
                U32_ => TypeData::U32,
                UNKNOWN => TypeData::Unknown,
                ERROR => TypeData::Error,
                STRUCT => TypeData::Struct(StructTypeId(s.size, PhantomData)),
                POINTER => TypeData::Pointer { element_type: c(0) },
                ARRAY => TypeData::FixedArray { element_type: c(0), size: s.size },
                FUNCTION => TypeData::Function(FunctionSignatureId(s.size, PhantomData)),
                _ => {
                    let mut v = Vec::with_capacity(3);
                    for i in 0..s.len {
                        v.push(c(i));
                    }
                    TypeData::Tuple(v)
                }
            }
        }
    }
    include!("type_data.rs");
}
pub mod type_resolution {
    use super::types::*;
    use super::SemanticDb;
    use cairo_m_compiler_parser::parser::{BinaryOp, UnaryOp};
    include!("rules.rs");
}
#[cfg(kani)]
mod verif_types;

//! Stand-ins for the database and the semantic index of the semantic crate: one file, and an index of one definition
//! with one expression.  The modules declared below are the real sources.
#![allow(dead_code, unused_variables, unused_imports)]
pub mod db {
    pub trait SemanticDb {}
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct Crate;
    pub struct Db;
    impl SemanticDb for Db {}
}
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct File;
pub struct Path;
impl Path {
    #[allow(clippy::inherent_to_string)]
    pub fn to_string(&self) -> String {
        String::new()
    }
}
impl File {
    pub fn file_path(&self, _db: &dyn db::SemanticDb) -> Path {
        Path
    }
}
pub use db::SemanticDb;
pub use definition::{Definition, DefinitionKind};
pub use semantic_index::SemanticIndex;

pub mod definition {
    use crate::semantic_index::ExpressionId;
    use cairo_m_compiler_parser::parser::{Spanned, TypeExpr};
    pub struct FunctionDefRef;
    pub struct ConstDefRef {
        pub value_expr_id: Option<ExpressionId>,
    }
    pub struct LetDefRef {
        pub value_expr_id: Option<ExpressionId>,
        pub explicit_type_ast: Option<Spanned<TypeExpr>>,
        pub destructuring_info: Option<(ExpressionId, Vec<usize>)>,
    }
    pub enum DefinitionKind {
        Function(FunctionDefRef),
        Const(ConstDefRef),
        Let(LetDefRef),
    }
    pub struct Definition {
        pub name: String,
        pub kind: DefinitionKind,
    }
}
pub mod semantic_index {
    use cairo_m_compiler_parser::parser::Expression;
    use chumsky::span::SimpleSpan;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct ExpressionId(pub usize);
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct DefinitionIndex;
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct DefinitionId;
    impl DefinitionId {
        pub fn new(_db: &dyn crate::SemanticDb, _file: crate::File, _i: DefinitionIndex) -> Self {
            DefinitionId
        }
    }
    pub struct ExpressionInfo {
        pub ast_node: Expression,
        pub ast_span: SimpleSpan<usize>,
    }
    pub struct SemanticIndex {
        pub def: crate::Definition,
        pub expr: ExpressionInfo,
    }
    impl SemanticIndex {
        pub fn all_definitions(&self) -> impl Iterator<Item = (DefinitionIndex, &crate::Definition)> {
            std::iter::once((DefinitionIndex, &self.def))
        }
        pub fn expression(&self, id: ExpressionId) -> Option<&ExpressionInfo> {
            if id.0 == 0 { Some(&self.expr) } else { None }
        }
    }
}
pub mod types {
    /// The types a literal can have (the real enumeration has more members).
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub enum TypeData {
        Felt,
        U32,
        Bool,
        Error,
    }
    #[derive(Copy, Clone, PartialEq, Eq, Debug)]
    pub struct TypeId(pub TypeData);
    impl TypeId {
        pub fn data(&self, _db: &dyn crate::SemanticDb) -> TypeData {
            self.0
        }
    }
}
pub mod type_resolution {
    /// Contract: the inferred type of the definition (an arbitrary type here; C20 covers inference).
    pub static mut INFERRED: crate::types::TypeData = crate::types::TypeData::Felt;
    pub fn definition_semantic_type(_db: &dyn crate::SemanticDb, _c: crate::db::Crate, _d: crate::semantic_index::DefinitionId) -> crate::types::TypeId {
        crate::types::TypeId(unsafe { INFERRED })
    }
}
pub mod validation {
    pub trait Validator {
        fn validate(&self, db: &dyn crate::SemanticDb, crate_id: crate::db::Crate, file: crate::File, index: &crate::SemanticIndex, sink: &dyn cairo_m_compiler_diagnostics::DiagnosticSink);
        fn name(&self) -> &'static str;
    }
    pub mod control_flow_validator;
    pub mod literal_validator;
}

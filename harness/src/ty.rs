//! the syntax tree of the code under test
pub use elm_parser::ast::binop::Assoc;
pub use elm_parser::ast::expression::core::{
    Expression, Function, FunctionDefinition, FunctionSignature, LetEntry,
};
pub use elm_parser::ast::type_::core::Type;
pub use elm_parser::ast::{ExportSet, Statement};

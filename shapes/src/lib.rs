//! Shapes the derive macros are verified for: the code they generate for
//! these, with any field types, is extracted and proved.
pub mod values;
pub mod parts;

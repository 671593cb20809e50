//! The repository's C# sources, run against the real native functions.
pub mod ast;
pub mod interp;
pub mod lex;
pub mod native;
pub mod own;
pub mod parse;
pub mod facts;
pub mod hist;
pub mod program;
pub mod demo;
pub mod sites;

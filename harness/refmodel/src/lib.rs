//! Independent model of the shell language as conch-parser intends it: tokens, trees, a reference
//! lexer and parser, and generators of programs with known structure. Uses nothing of the code under test.
pub mod gen;
pub mod lex;
pub mod parse;
pub mod rng;
pub mod tree;

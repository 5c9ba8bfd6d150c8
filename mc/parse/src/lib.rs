//! Checks of the parser, and the synthetic and shipped languages that other
//! checks use too.

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod gram;
pub mod hist;
pub mod lang;
pub mod langs;
pub mod shape;
pub mod spec;
pub mod stretch;
pub mod tokens;
pub mod tree;

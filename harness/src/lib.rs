pub mod engine;
pub mod common;
pub mod mirror;
pub mod prog;
pub mod mockcs;
pub mod gadget;
pub mod smallf;
pub mod tree;
pub mod evil;
pub mod coin;

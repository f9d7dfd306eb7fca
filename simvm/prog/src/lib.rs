//! Programs: written at random, compiled by the real compiler, run by the real virtual machine.
pub mod r#gen;
pub mod lang;
pub mod machine;
pub mod world;
pub mod raw;

pub mod catalog;
pub mod hist;
pub mod obs;
pub mod prog;

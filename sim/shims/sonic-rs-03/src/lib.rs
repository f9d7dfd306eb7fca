//! Offline stand-in for `sonic-rs` 0.3 over `serde_json`.
pub use serde_json::{from_slice, from_str, to_string, to_string_pretty, to_vec, Error, Value};

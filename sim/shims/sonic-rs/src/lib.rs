//! Offline stand-in for `sonic-rs` over `serde_json` (same JSON data model).
pub use serde_json::{from_slice, from_str, to_string, to_string_pretty, to_vec, Error, Value};

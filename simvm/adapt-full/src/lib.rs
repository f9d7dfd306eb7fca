//! The prover's adapter, built from its own files; around it, a cheap hash instead of Poseidon2 and a range
//! check of 20 bits.
#[path = "/repo/crates/prover/src/adapter/mod.rs"]
#[allow(dead_code)]
pub mod adapter;
pub mod preprocessed {
    pub mod range_check {
        pub mod range_check_20 {
            pub const LOG_SIZE_RC_20: u32 = 20;
        }
    }
}
pub mod poseidon2 {
    use crate::adapter::merkle::{MerkleHasher, TREE_HEIGHT};
    use std::sync::OnceLock;
    use stwo_prover::core::fields::m31::M31;
    pub const T: usize = 16;
    #[derive(Clone)]
    pub struct Poseidon2Hash;
    impl MerkleHasher for Poseidon2Hash {
        fn hash(l: M31, r: M31) -> M31 {
            let mut x = (l.0 as u64) << 32 | r.0 as u64;
            x = (x ^ x >> 30).wrapping_add(0x9e3779b97f4a7c15).wrapping_mul(0xbf58476d1ce4e5b9);
            x = (x ^ x >> 27).wrapping_mul(0x94d049bb133111eb);
            M31(((x ^ x >> 31) % 2147483647) as u32)
        }
        fn default_hashes() -> &'static [M31] {
            static D: OnceLock<Vec<M31>> = OnceLock::new();
            D.get_or_init(|| {
                let mut d = vec![M31(0); TREE_HEIGHT as usize + 1];
                for k in (0..TREE_HEIGHT as usize).rev() {
                    d[k] = Self::hash(d[k + 1], d[k + 1]);
                }
                d
            })
        }
    }
}

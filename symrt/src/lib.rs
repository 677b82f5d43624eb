//! Symbolic number runtime: see /verif/DESIGN.md.
#![allow(static_mut_refs, clippy::all)]
pub mod api;
pub mod engine;
pub mod f;
pub mod memfs;
pub mod numtraits;
pub mod poly;
pub mod rugshim;

pub use api::*;
pub use f::{cast, lit, to_f, to_f32, Bits, F};
pub use rugshim as rug;
pub use numtraits as num_traits;
pub type Float = F;

/// std with files kept in memory
pub mod stdlib {
    pub use std::*;
    pub mod fs {
        pub use crate::memfs::{read, read_to_string, remove_file, write, File};
        pub use std::fs::*;
    }
}

/// std::f64 and its constants
pub mod f64mod {
    use super::F;
    pub const EPSILON: F = F::EPSILON;
    pub const INFINITY: F = F::INFINITY;
    pub const NEG_INFINITY: F = F::NEG_INFINITY;
    pub const NAN: F = F::NAN;
    pub const MAX: F = F::MAX;
    pub const MIN: F = F::MIN;
    pub const MIN_POSITIVE: F = F::MIN_POSITIVE;
    pub mod consts {
        use super::F;
        pub const PI: F = F::C(std::f64::consts::PI);
        pub const TAU: F = F::C(std::f64::consts::TAU);
        pub const E: F = F::C(std::f64::consts::E);
        pub const SQRT_2: F = F::C(std::f64::consts::SQRT_2);
        pub const FRAC_PI_2: F = F::C(std::f64::consts::FRAC_PI_2);
        pub const FRAC_1_SQRT_2: F = F::C(std::f64::consts::FRAC_1_SQRT_2);
    }
}

/// Called at the start of every lifted function.
#[inline]
pub fn fnmark(id: u32) {
    if engine::started() {
        engine::sh().fns[id as usize % 8192].store(1, std::sync::atomic::Ordering::Relaxed);
    }
}

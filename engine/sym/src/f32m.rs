//! Stands in for the `std::f32` module (and for `std::f64`).
use crate::F;
pub const NAN: F = F::C(f32::NAN);
pub const INFINITY: F = F::C(f32::INFINITY);
pub const NEG_INFINITY: F = F::C(f32::NEG_INFINITY);
pub const EPSILON: F = F::C(f32::EPSILON);
pub const MAX: F = F::C(f32::MAX);
pub const MIN: F = F::C(f32::MIN);
pub const MIN_POSITIVE: F = F::C(f32::MIN_POSITIVE);
pub mod consts {
    use crate::F;
    pub const PI: F = F::C(std::f32::consts::PI);
    pub const TAU: F = F::C(std::f32::consts::TAU);
    pub const E: F = F::C(std::f32::consts::E);
    pub const FRAC_PI_2: F = F::C(std::f32::consts::FRAC_PI_2);
    pub const FRAC_PI_3: F = F::C(std::f32::consts::FRAC_PI_3);
    pub const FRAC_PI_4: F = F::C(std::f32::consts::FRAC_PI_4);
    pub const FRAC_PI_6: F = F::C(std::f32::consts::FRAC_PI_6);
    pub const FRAC_PI_8: F = F::C(std::f32::consts::FRAC_PI_8);
    pub const FRAC_1_PI: F = F::C(std::f32::consts::FRAC_1_PI);
    pub const FRAC_2_PI: F = F::C(std::f32::consts::FRAC_2_PI);
    pub const FRAC_1_SQRT_2: F = F::C(std::f32::consts::FRAC_1_SQRT_2);
    pub const SQRT_2: F = F::C(std::f32::consts::SQRT_2);
    pub const LN_2: F = F::C(std::f32::consts::LN_2);
    pub const LN_10: F = F::C(std::f32::consts::LN_10);
}

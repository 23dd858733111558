//! Stand-in for bevy: the real bevy_math.
pub mod prelude {
    pub use bevy_math::prelude::*;
    pub use bevy_math::{Affine3A, Isometry3d, Mat3, Quat, Vec3, Vec3A};
}
pub use bevy_math as math;

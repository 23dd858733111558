//! shared by the demonstrations
#![allow(unused)]
pub use avian3d::nalgebra::{Point3, Vector3};
pub use avian3d::parry::math::Isometry;
pub use avian3d::parry::shape::{Compound, SharedShape};
pub use avian3d::prelude::Collider;
/// prints and exits with 1 when `ok` is false
pub fn expect(ok: bool, what: &str) {
    println!("{}: {what}", if ok { "ok" } else { "FAILED" });
    if !ok {
        std::process::exit(1);
    }
}

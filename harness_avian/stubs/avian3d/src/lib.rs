//! Stand-in for avian3d: the real parry3d, and a collider that holds its shape.
pub use parry3d as parry;
pub use nalgebra;
pub mod prelude {
    use parry3d::shape::SharedShape;
    #[derive(Clone)]
    pub struct Collider(pub SharedShape);
    impl Collider {
        pub fn shape(&self) -> &SharedShape {
            &self.0
        }
        pub fn shape_scaled(&self) -> &SharedShape {
            &self.0
        }
    }
}

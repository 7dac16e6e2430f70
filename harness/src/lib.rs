pub mod bridge;
pub mod engine;
pub mod gen;
pub mod refm;
pub mod prelude {
    pub use crate::bridge::*;
    pub use crate::engine::*;
    pub use crate::gen::*;
    pub use crate::refm::*;
    pub use crate::{ensure, note};
    pub use curvo::prelude::*;
    pub use nalgebra::{Const, Point2, Point3, Vector2, Vector3};
}

//! The part of bevy_prototype_lyon that describes shapes; nothing is tessellated.
pub mod entity {
    use crate::draw::DrawMode;
    use bevy::prelude::*;
    /// What is drawn, instead of a mesh
    #[derive(Component, Clone, Debug, PartialEq)]
    pub struct Path {
        pub radius: f32,
    }
    #[derive(Bundle)]
    pub struct ShapeBundle {
        pub path: Path,
        pub mode: DrawMode,
        pub transform: Transform,
        pub global_transform: GlobalTransform,
    }
}
pub mod draw {
    use bevy::prelude::*;
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct FillMode {
        pub color: Color,
    }
    impl FillMode {
        pub fn color(color: Color) -> Self {
            Self { color }
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct StrokeMode {
        pub color: Color,
        pub line_width: f32,
    }
    impl StrokeMode {
        pub fn new(color: Color, line_width: f32) -> Self {
            Self { color, line_width }
        }
        pub fn color(color: Color) -> Self {
            Self { color, line_width: 1.0 }
        }
    }
    #[derive(Component, Clone, Copy, Debug, PartialEq)]
    pub enum DrawMode {
        Fill(FillMode),
        Stroke(StrokeMode),
        Outlined { fill_mode: FillMode, outline_mode: StrokeMode },
    }
}
pub mod geometry {
    use crate::{draw::DrawMode, entity::{Path, ShapeBundle}};
    use bevy::prelude::*;
    pub trait Geometry {
        fn path(&self) -> Path;
    }
    pub struct GeometryBuilder;
    impl GeometryBuilder {
        pub fn build_as(shape: &impl Geometry, mode: DrawMode, transform: Transform) -> ShapeBundle {
            ShapeBundle { path: shape.path(), mode, transform, global_transform: GlobalTransform::default() }
        }
    }
}
pub mod shapes {
    use bevy::prelude::*;
    #[derive(Clone, Copy, Debug)]
    pub struct Circle {
        pub radius: f32,
        pub center: Vec2,
    }
    impl Default for Circle {
        fn default() -> Self {
            Self { radius: 1.0, center: Vec2::ZERO }
        }
    }
    impl crate::geometry::Geometry for Circle {
        fn path(&self) -> crate::entity::Path {
            crate::entity::Path { radius: self.radius }
        }
    }
}
pub mod plugin {
    use bevy::prelude::*;
    pub struct ShapePlugin;
    impl Plugin for ShapePlugin {
        fn build(&self, _app: &mut App) {}
    }
}
pub mod prelude {
    pub use crate::draw::{DrawMode, FillMode, StrokeMode};
    pub use crate::geometry::{Geometry, GeometryBuilder};
    pub use crate::plugin::ShapePlugin;
    pub use crate::shapes;
}

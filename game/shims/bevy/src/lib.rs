//! `bevy` for a machine without a screen: its entities, schedules, time and transforms, and stand-ins
//! with the same shape for what draws.
pub use real::{app, asset, core, ecs, input, log, math, reflect, scene, tasks, transform, utils, window};

pub mod render {
    pub mod color {
        /// `Color::rgba` and the named colours that the game uses
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub enum Color {
            Rgba { red: f32, green: f32, blue: f32, alpha: f32 },
        }
        macro_rules! named { ($($n:ident $r:literal $g:literal $b:literal),+ $(,)?) => { $(pub const $n: Color = Color::rgb($r, $g, $b);)+ } }
        impl Color {
            named!(BLACK 0.0 0.0 0.0, WHITE 1.0 1.0 1.0, RED 1.0 0.0 0.0, GREEN 0.0 1.0 0.0, BLUE 0.0 0.0 1.0, YELLOW 1.0 1.0 0.0, GRAY 0.5 0.5 0.5,
                LIME_GREEN 0.2 0.8 0.2, ORANGE_RED 1.0 0.27 0.0, ORANGE 1.0 0.65 0.0, PURPLE 0.5 0.0 0.5, CYAN 0.0 1.0 1.0, PINK 1.0 0.08 0.58);
            pub const fn rgb(red: f32, green: f32, blue: f32) -> Self {
                Self::rgba(red, green, blue, 1.0)
            }
            pub const fn rgba(red: f32, green: f32, blue: f32, alpha: f32) -> Self {
                Color::Rgba { red, green, blue, alpha }
            }
        }
    }
    pub mod view {
        #[derive(Clone, Copy, Debug)]
        pub struct Msaa {
            pub samples: u32,
        }
    }
    pub mod camera {
        use real::ecs::component::Component;
        use real::transform::components::{GlobalTransform, Transform};
        #[derive(Component, Clone, Copy, Debug, Default)]
        pub struct Camera;
        #[derive(real::ecs::bundle::Bundle, Default)]
        pub struct OrthographicCameraBundle {
            pub camera: Camera,
            pub transform: Transform,
            pub global_transform: GlobalTransform,
        }
        impl OrthographicCameraBundle {
            pub fn new_2d() -> Self {
                Self::default()
            }
            pub fn new_3d() -> Self {
                Self::default()
            }
        }
    }
}

/// The plugins of a program without window: time, tasks and transforms.
pub struct DefaultPlugins;
impl real::app::PluginGroup for DefaultPlugins {
    fn build(&mut self, group: &mut real::app::PluginGroupBuilder) {
        group.add(real::core::CorePlugin).add(real::transform::TransformPlugin);
    }
}
pub use real::MinimalPlugins;

pub mod prelude {
    pub use crate::render::camera::{Camera, OrthographicCameraBundle};
    pub use crate::render::color::Color;
    pub use crate::render::view::Msaa;
    pub use crate::DefaultPlugins;
    pub use real::prelude::*;
}

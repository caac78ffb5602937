//! Type level stand-in for `bevy_core`.
pub struct TaskPoolOptions;
pub struct CorePlugin;
pub mod prelude {
    pub use crate::*;
}

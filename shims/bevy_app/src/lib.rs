//! Type level stand-in for `bevy_app`.
pub struct App;
pub trait Plugin {}
pub trait PluginGroup {}
pub struct AppExit;
pub enum CoreStage { First, PreUpdate, Update, PostUpdate, Last }
pub struct StartupSchedule;
pub mod prelude {
    pub use crate::*;
}

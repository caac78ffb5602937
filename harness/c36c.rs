use super::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
pub static LINEAR: AtomicBool = AtomicBool::new(false);
/// stands for the time between two scale factors
pub fn linear(a0: Dimensionless, a1: Dimensionless) -> Time {
    Time::years(1e8) * (*a1 - *a0)
}
pub fn cosmology(a: f64, h: f64) -> Cosmology {
    LINEAR.store(true, Relaxed);
    Cosmology::Cosmological { a, h, params: Some(CosmologyParams { omega_0: 0.25, omega_lambda: 0.75 }) }
}

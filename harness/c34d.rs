use super::*;
use crate::domain::*;
use crate::simulation_box::SimulationBox;
pub fn unit_box() -> SimulationBox {
    SimulationBox::cube_from_side_length(crate::units::Length::new_unchecked(8.0))
}
/// two processes, one of which has particles in an extent
pub fn with_extents(me: i32, theirs: crate::domain::Extent) -> DecompositionState {
    let mut extents = vec![None, None];
    extents[1 - me as usize] = Some(theirs);
    Decomposition { num_ranks: 2, cuts: vec![], loads: vec![], extents }
}

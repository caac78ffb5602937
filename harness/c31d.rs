use super::*;
use crate::domain::*;
use crate::simulation_box::SimulationBox;
use crate::peano_hilbert::PeanoKey3d;
pub fn unit_box() -> SimulationBox {
    SimulationBox::cube_from_side_length(crate::units::Length::new_unchecked(8.0))
}
/// two processes: the second one has the keys from the given one on
pub fn two(cut: PeanoKey3d) -> DecompositionState {
    Decomposition { num_ranks: 2, cuts: vec![cut, PeanoKey3d(1 << 126)], loads: vec![], extents: vec![] }
}

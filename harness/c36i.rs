use super::*;
pub fn files(l: &[&str]) -> InputParameters {
    InputParameters { paths: l.iter().map(|p| (*p).into()).collect() }
}

//! A fleet whose members take their settings from build features or from arguments.
use super::*;

/// Refinement of single members, agreement of the fleet, or flag codes between members.
pub fn make(types: &'static [TypeEntry], r: &mut Rng) -> Box<dyn Scen> {
    let n = if c13::any() { 5 } else { 4 };
    match r.below(n) {
        0 | 1 => Box::new(c02::S::new(types, r)),
        2 | 3 => Box::new(c11::S::new(types, r)),
        _ => Box::new(c13::S::new(r)),
    }
}

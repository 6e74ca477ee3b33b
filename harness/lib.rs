//! Analysis harness: compiled by the kfacts driver, never run.
pub use knaster_core;
pub use knaster_core_dsp;
pub use knaster_graph;
pub use knaster_primitives;
pub type VSize = knaster_primitives::typenum::U2;
pub type VSize2 = knaster_primitives::typenum::U3;
#[cfg(feature = "cfg_std")]
pub use knaster;
#[cfg(feature = "cfg_std")]
pub use knaster_airwindows;

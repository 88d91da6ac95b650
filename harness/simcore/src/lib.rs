//! Simulator core: seeded scheduler, discrete-event clock, network, libc seams.
pub mod hooks;
pub mod net;
pub mod rng;
pub mod rt;
pub mod time;
pub mod world;

pub use rng::SimRng;
pub use world::*;

//! `tokio` as seen by the code under test inside the simulator.
pub use real_tokio::*;

pub use simcore::rt::spawn;

pub mod task {
    pub use simcore::rt::{
        block_in_place, spawn, spawn_blocking, spawn_local, yield_now, AbortHandle, JoinError,
        JoinHandle, JoinSet,
    };
    pub async fn consume_budget() {}
    pub async fn unconstrained<F: std::future::Future>(f: F) -> F::Output {
        f.await
    }
}

pub mod time {
    pub use simcore::time::*;
}

pub mod net {
    pub use simcore::net::UdpSocket;
}

pub mod runtime {
    pub use simcore::rt::Handle;
}

pub use real_tokio::sync::*;
pub mod mpsc;
pub mod oneshot;

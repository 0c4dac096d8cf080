//! The seam: this crate takes tokio's place for every crate of the simulated program.
//!
//! Channels are tokio's own, wrapped so that every operation is a point where another task can be
//! scheduled; sockets, timers, task spawning and runtime handles are the simulator's; everything
//! else is re-exported from tokio unchanged.

pub use real_tokio::*;

pub mod net;
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

pub mod io {
    pub use real_tokio::io::*;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Interest(pub(crate) u8);
    impl Interest {
        pub const READABLE: Interest = Interest(1);
        pub const WRITABLE: Interest = Interest(2);
        pub const fn add(self, o: Interest) -> Interest {
            Interest(self.0 | o.0)
        }
        pub const fn is_readable(self) -> bool {
            self.0 & 1 != 0
        }
        pub const fn is_writable(self) -> bool {
            self.0 & 2 != 0
        }
    }
    impl std::ops::BitOr for Interest {
        type Output = Interest;
        fn bitor(self, o: Interest) -> Interest {
            self.add(o)
        }
    }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Ready(pub(crate) u8);
    impl Ready {
        pub const EMPTY: Ready = Ready(0);
        pub const READABLE: Ready = Ready(1);
        pub const WRITABLE: Ready = Ready(2);
        pub fn is_empty(self) -> bool {
            self.0 == 0
        }
        pub fn is_readable(self) -> bool {
            self.0 & 1 != 0
        }
        pub fn is_writable(self) -> bool {
            self.0 & 2 != 0
        }
        pub fn is_read_closed(self) -> bool {
            false
        }
        pub fn is_write_closed(self) -> bool {
            false
        }
    }
}

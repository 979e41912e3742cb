//! A simulated `tokio`.
//!
//! Channels, macros and I/O traits are the real tokio (`real-tokio` is an
//! unmodified copy); channels are wrapped with preemption points.  Tasks,
//! sockets and time are provided by the simulator.

pub use real_tokio::{join, pin, task_local, try_join};

pub mod io {
	pub use real_tokio::io::*;

	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Interest(u8);
	impl Interest {
		pub const READABLE: Self = Interest(1);
		pub const WRITABLE: Self = Interest(2);
		pub const fn is_readable(self) -> bool {
			self.0 & 1 != 0
		}
		pub const fn is_writable(self) -> bool {
			self.0 & 2 != 0
		}
		pub const fn add(self, o: Self) -> Self {
			Interest(self.0 | o.0)
		}
	}
	impl std::ops::BitOr for Interest {
		type Output = Self;
		fn bitor(self, o: Self) -> Self {
			self.add(o)
		}
	}
	/// What a socket is ready for.
	#[derive(Clone, Copy, Debug, PartialEq, Eq)]
	pub struct Ready(pub(crate) bool, pub(crate) bool);
	impl Ready {
		pub fn is_readable(self) -> bool {
			self.0
		}
		pub fn is_writable(self) -> bool {
			self.1
		}
		pub fn is_empty(self) -> bool {
			!self.0 && !self.1
		}
	}
}

/// Branch order is fixed (the real macro draws it from a thread-local RNG).
#[macro_export]
macro_rules! select {
	(biased; $($t:tt)*) => { $crate::__real::select!{ biased; $($t)* } };
	($($t:tt)*) => { $crate::__real::select!{ biased; $($t)* } };
}

#[doc(hidden)]
pub use real_tokio as __real;

pub mod net;
pub mod sync;
pub mod task;
pub mod time;

pub use task::spawn;

pub mod runtime {
	//! Only what code that already runs inside a runtime may need.
	#[derive(Clone, Debug)]
	pub struct Handle(());
	impl Handle {
		pub fn current() -> Self {
			Handle(())
		}
		pub fn try_current() -> Result<Self, std::convert::Infallible> {
			Ok(Handle(()))
		}
		#[track_caller]
		pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
		where
			F: std::future::Future + Send + 'static,
			F::Output: Send + 'static,
		{
			crate::task::spawn(f)
		}
	}
}

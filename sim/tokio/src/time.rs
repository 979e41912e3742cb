//! Virtual time.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);

impl Instant {
	pub fn now() -> Self {
		Self(simcore::now())
	}
	pub fn elapsed(&self) -> Duration {
		Duration::from_nanos(simcore::now().saturating_sub(self.0))
	}
	pub fn duration_since(&self, other: Instant) -> Duration {
		Duration::from_nanos(self.0.saturating_sub(other.0))
	}
}
impl std::ops::Add<Duration> for Instant {
	type Output = Instant;
	fn add(self, d: Duration) -> Instant {
		Instant(self.0.saturating_add(d.as_nanos().min(u64::MAX as u128) as u64))
	}
}
impl std::ops::AddAssign<Duration> for Instant {
	fn add_assign(&mut self, d: Duration) {
		*self = *self + d
	}
}
impl std::ops::Sub<Duration> for Instant {
	type Output = Instant;
	fn sub(self, d: Duration) -> Instant {
		Instant(self.0.saturating_sub(d.as_nanos().min(u64::MAX as u128) as u64))
	}
}
impl std::ops::Sub<Instant> for Instant {
	type Output = Duration;
	fn sub(self, o: Instant) -> Duration {
		self.duration_since(o)
	}
}

pub struct Sleep(simcore::exec::Sleep, Instant);
impl Sleep {
	pub fn deadline(&self) -> Instant {
		self.1
	}
	pub fn is_elapsed(&self) -> bool {
		Instant::now() >= self.1
	}
	pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
		*self = sleep_until(t)
	}
}
impl Future for Sleep {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		Pin::new(&mut self.0).poll(cx)
	}
}
pub fn sleep(d: Duration) -> Sleep {
	let ns = d.as_nanos().min(u64::MAX as u128 / 4) as u64;
	Sleep(simcore::sleep(ns), Instant(simcore::now().saturating_add(ns)))
}
pub fn sleep_until(t: Instant) -> Sleep {
	Sleep(simcore::sleep(t.0.saturating_sub(simcore::now())), t)
}
pub fn timeout_at<F: Future>(t: Instant, f: F) -> Timeout<F> {
	Timeout { f: Box::pin(f), s: sleep_until(t) }
}

/// Ticks at a fixed period; missed ticks come in a burst.
#[derive(Debug)]
pub struct Interval {
	next: Instant,
	period: Duration,
}
pub fn interval(period: Duration) -> Interval {
	interval_at(Instant::now(), period)
}
pub fn interval_at(next: Instant, period: Duration) -> Interval {
	assert!(period > Duration::ZERO, "`period` must be non-zero.");
	Interval { next, period }
}
impl Interval {
	pub async fn tick(&mut self) -> Instant {
		sleep_until(self.next).await;
		let t = self.next;
		self.next += self.period;
		t
	}
	pub fn period(&self) -> Duration {
		self.period
	}
	pub fn reset(&mut self) {
		self.next = Instant::now() + self.period
	}
}

pub mod error {
	#[derive(Debug, PartialEq, Eq)]
	pub struct Elapsed(pub(crate) ());
	impl std::fmt::Display for Elapsed {
		fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
			f.write_str("deadline has elapsed")
		}
	}
	impl std::error::Error for Elapsed {}
	impl From<Elapsed> for std::io::Error {
		fn from(_: Elapsed) -> Self {
			std::io::ErrorKind::TimedOut.into()
		}
	}
}

pub struct Timeout<F> {
	f: Pin<Box<F>>,
	s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
	type Output = Result<F::Output, error::Elapsed>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		if let Poll::Ready(x) = self.f.as_mut().poll(cx) {
			return Poll::Ready(Ok(x));
		}
		Pin::new(&mut self.s).poll(cx).map(|()| Err(error::Elapsed(())))
	}
}
pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
	Timeout { f: Box::pin(f), s: sleep(d) }
}

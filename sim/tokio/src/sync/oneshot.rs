use real_tokio::sync::oneshot as real;
use simcore::exec::{coop_yield, preempt_point};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

pub use real::error;

pub struct Sender<T>(real::Sender<T>);
pub struct Receiver<T>(real::Receiver<T>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
	let (a, b) = real::channel();
	(Sender(a), Receiver(b))
}

impl<T: std::fmt::Debug> std::fmt::Debug for Sender<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}
impl<T: std::fmt::Debug> std::fmt::Debug for Receiver<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}

impl<T> Sender<T> {
	pub fn send(self, x: T) -> Result<(), T> {
		preempt_point();
		let r = self.0.send(x);
		preempt_point();
		r
	}
	pub fn is_closed(&self) -> bool {
		preempt_point();
		self.0.is_closed()
	}
	pub async fn closed(&mut self) {
		self.0.closed().await
	}
	pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
		self.0.poll_closed(cx)
	}
}

impl<T> Receiver<T> {
	pub fn close(&mut self) {
		preempt_point();
		self.0.close();
		preempt_point();
	}
	pub fn is_terminated(&self) -> bool {
		self.0.is_terminated()
	}
	pub fn is_empty(&self) -> bool {
		preempt_point();
		self.0.is_empty()
	}
	pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
		preempt_point();
		let r = self.0.try_recv();
		preempt_point();
		r
	}
	pub fn blocking_recv(self) -> Result<T, error::RecvError> {
		self.0.blocking_recv()
	}
}

impl<T> Future for Receiver<T> {
	type Output = Result<T, error::RecvError>;
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		preempt_point();
		if coop_yield(cx) {
			return Poll::Pending;
		}
		Pin::new(&mut self.0).poll(cx)
	}
}

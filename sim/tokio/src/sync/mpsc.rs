use real_tokio::sync::mpsc as real;
use simcore::exec::{coop_yield, preempt_point};
use std::task::{Context, Poll};

pub use real::{channel, error, OwnedPermit, Permit, Receiver, Sender, WeakSender};

pub struct UnboundedSender<T>(real::UnboundedSender<T>);
pub struct UnboundedReceiver<T>(real::UnboundedReceiver<T>);
pub struct WeakUnboundedSender<T>(real::WeakUnboundedSender<T>);

pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
	let (a, b) = real::unbounded_channel();
	(UnboundedSender(a), UnboundedReceiver(b))
}

impl<T> Clone for UnboundedSender<T> {
	fn clone(&self) -> Self {
		Self(self.0.clone())
	}
}
impl<T> std::fmt::Debug for UnboundedSender<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}
impl<T> std::fmt::Debug for UnboundedReceiver<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}

impl<T> UnboundedSender<T> {
	pub fn send(&self, x: T) -> Result<(), error::SendError<T>> {
		preempt_point();
		let r = self.0.send(x);
		preempt_point();
		r
	}
	pub fn same_channel(&self, other: &Self) -> bool {
		self.0.same_channel(&other.0)
	}
	pub fn is_closed(&self) -> bool {
		preempt_point();
		self.0.is_closed()
	}
	pub async fn closed(&self) {
		self.0.closed().await
	}
	pub fn downgrade(&self) -> WeakUnboundedSender<T> {
		WeakUnboundedSender(self.0.downgrade())
	}
	pub fn strong_count(&self) -> usize {
		self.0.strong_count()
	}
	pub fn weak_count(&self) -> usize {
		self.0.weak_count()
	}
}
impl<T> WeakUnboundedSender<T> {
	pub fn upgrade(&self) -> Option<UnboundedSender<T>> {
		self.0.upgrade().map(UnboundedSender)
	}
}
impl<T> Clone for WeakUnboundedSender<T> {
	fn clone(&self) -> Self {
		Self(self.0.clone())
	}
}

impl<T> UnboundedReceiver<T> {
	pub async fn recv(&mut self) -> Option<T> {
		std::future::poll_fn(|cx| self.poll_recv(cx)).await
	}
	pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
		preempt_point();
		if coop_yield(cx) {
			return Poll::Pending;
		}
		let r = self.0.poll_recv(cx);
		if r.is_ready() {
			preempt_point();
		}
		r
	}
	pub async fn recv_many(&mut self, buffer: &mut Vec<T>, limit: usize) -> usize {
		std::future::poll_fn(|cx| self.poll_recv_many(cx, buffer, limit)).await
	}
	pub fn poll_recv_many(&mut self, cx: &mut Context<'_>, buffer: &mut Vec<T>, limit: usize) -> Poll<usize> {
		preempt_point();
		if coop_yield(cx) {
			return Poll::Pending;
		}
		let r = self.0.poll_recv_many(cx, buffer, limit);
		if r.is_ready() {
			preempt_point();
		}
		r
	}
	pub fn sender_strong_count(&self) -> usize {
		self.0.sender_strong_count()
	}
	pub fn sender_weak_count(&self) -> usize {
		self.0.sender_weak_count()
	}
	pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
		preempt_point();
		let r = self.0.try_recv();
		if r.is_ok() {
			preempt_point();
		}
		r
	}
	pub fn close(&mut self) {
		preempt_point();
		self.0.close();
		preempt_point();
	}
	pub fn is_closed(&self) -> bool {
		self.0.is_closed()
	}
	pub fn is_empty(&self) -> bool {
		self.0.is_empty()
	}
	pub fn len(&self) -> usize {
		self.0.len()
	}
}

//! Tasks on the simulator.
use simcore::exec::{self, Origin, TaskId};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

struct Shared<T> {
	out: Option<Result<T, JoinError>>,
	done: bool,
	waker: Option<Waker>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(u64);
impl std::fmt::Display for Id {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.0.fmt(f)
	}
}

/// Like tokio's `SyncWrapper`: shared references give no access to the payload.
struct Payload(Box<dyn std::any::Any + Send>);
// SAFETY: a `&Payload` can not be used for anything.
unsafe impl Sync for Payload {}

pub struct JoinError {
	panic: Option<Payload>,
	id: Id,
}
impl JoinError {
	pub fn is_panic(&self) -> bool {
		self.panic.is_some()
	}
	pub fn is_cancelled(&self) -> bool {
		self.panic.is_none()
	}
	pub fn into_panic(self) -> Box<dyn std::any::Any + Send> {
		self.panic.expect("task was cancelled").0
	}
	pub fn try_into_panic(self) -> Result<Box<dyn std::any::Any + Send>, JoinError> {
		match self {
			JoinError { panic: Some(p), .. } => Ok(p.0),
			e => Err(e),
		}
	}
	pub fn id(&self) -> Id {
		self.id
	}
}
impl std::fmt::Debug for JoinError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
	}
}
impl std::fmt::Display for JoinError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
	}
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
	fn from(e: JoinError) -> Self {
		std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
	}
}

pub struct JoinHandle<T> {
	shared: Arc<Mutex<Shared<T>>>,
	task: TaskId,
}

#[derive(Clone, Debug)]
pub struct AbortHandle(TaskId);
impl AbortHandle {
	pub fn id(&self) -> Id {
		Id(self.0 as u64)
	}
	pub fn abort(&self) {
		exec::abort_task(self.0)
	}
	pub fn is_finished(&self) -> bool {
		exec::task_done(self.0)
	}
}

impl<T> std::fmt::Debug for JoinHandle<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "JoinHandle({})", self.task)
	}
}

impl<T> JoinHandle<T> {
	pub fn abort(&self) {
		exec::abort_task(self.task)
	}
	pub fn abort_handle(&self) -> AbortHandle {
		AbortHandle(self.task)
	}
	pub fn is_finished(&self) -> bool {
		self.shared.lock().unwrap().done
	}
	pub fn id(&self) -> Id {
		Id(self.task as u64)
	}
}

impl<T> Unpin for JoinHandle<T> {}

pub use real_tokio::task::unconstrained;
pub use real_tokio::task_local;

pub async fn consume_budget() {
	std::future::poll_fn(|cx| if exec::coop_yield(cx) { Poll::Pending } else { Poll::Ready(()) }).await
}

/// Runs in a task of its own, at a moment of the scheduler's choosing.
#[track_caller]
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
	F: FnOnce() -> R + Send + 'static,
	R: Send + 'static,
{
	spawn(async move { f() })
}

pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
	f()
}

pub fn try_id() -> Option<Id> {
	exec::current_task().map(|t| Id(t as u64))
}
pub fn id() -> Id {
	try_id().expect("can't get a task id when not inside a task")
}

impl<T> Future for JoinHandle<T> {
	type Output = Result<T, JoinError>;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
		let mut s = self.shared.lock().unwrap();
		if let Some(x) = s.out.take() {
			return Poll::Ready(x);
		}
		s.waker = Some(cx.waker().clone());
		Poll::Pending
	}
}

/// Completes the join handle when the task ends in any way.
struct Finish<T> {
	shared: Arc<Mutex<Shared<T>>>,
	id: u64,
}
impl<T> Finish<T> {
	fn finish(&self, r: Result<T, JoinError>) {
		let w = {
			let mut s = self.shared.lock().unwrap();
			if s.done {
				return;
			}
			s.done = true;
			s.out = Some(r);
			s.waker.take()
		};
		if let Some(w) = w {
			w.wake()
		}
	}
}
impl<T> Drop for Finish<T> {
	fn drop(&mut self) {
		self.finish(Err(JoinError { panic: None, id: Id(self.id) }))
	}
}

#[track_caller]
pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
	F: Future + Send + 'static,
	F::Output: Send + 'static,
{
	let loc = std::panic::Location::caller();
	let origin = if loc.file().contains("/verif/sim/") || loc.file().starts_with("src/") || loc.file().contains("harness") {
		Origin::Harness
	} else {
		Origin::Subject
	};
	let file = loc.file().rsplit('/').next().unwrap_or("?").trim_end_matches(".rs");
	let name = format!("{}{}@n{}", if origin == Origin::Subject { "lib:" } else { "" }, file, exec::current_node());
	spawn_named(name, origin, fut)
}

fn spawn_named<F>(name: String, origin: Origin, fut: F) -> JoinHandle<F::Output>
where
	F: Future + 'static,
	F::Output: 'static,
{
	let shared = Arc::new(Mutex::new(Shared { out: None, done: false, waker: None }));
	let fin = Finish { shared: shared.clone(), id: 0 };
	let wrapped = async move {
		let fin = fin;
		// Field order matters: the future is dropped before the handle is told.
		let mut fut = Box::pin(fut);
		let r = std::future::poll_fn(|cx| {
			match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(cx))) {
				Ok(Poll::Pending) => Poll::Pending,
				Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
				Err(p) => {
					exec::record_panic();
					Poll::Ready(Err(JoinError { panic: Some(Payload(p)), id: Id(0) }))
				},
			}
		})
		.await;
		drop(fut);
		fin.finish(r);
	};
	let task = exec::spawn_raw(name, origin, None, Box::pin(wrapped));
	exec::preempt_point();
	JoinHandle { shared, task }
}

pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
	F: Future + 'static,
	F::Output: 'static,
{
	spawn_named(format!("local@n{}", exec::current_node()), Origin::Harness, fut)
}

/// Named task (harness use).
pub fn spawn_as<F>(name: impl Into<String>, fut: F) -> JoinHandle<F::Output>
where
	F: Future + 'static,
	F::Output: 'static,
{
	spawn_named(name.into(), Origin::Harness, fut)
}

/// Named task with subject origin (harness runs `Peer::run()` itself).
pub fn spawn_subject<F>(name: impl Into<String>, fut: F) -> JoinHandle<F::Output>
where
	F: Future + 'static,
	F::Output: 'static,
{
	spawn_named(name.into(), Origin::Subject, fut)
}

pub async fn yield_now() {
	exec::yield_now().await
}

/// Minimal JoinSet.
pub struct JoinSet<T> {
	handles: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
	fn default() -> Self {
		Self { handles: Vec::new() }
	}
}
impl<T: 'static> JoinSet<T> {
	pub fn new() -> Self {
		Self::default()
	}
	#[track_caller]
	pub fn spawn<F>(&mut self, f: F) -> AbortHandle
	where
		F: Future<Output = T> + Send + 'static,
		T: Send,
	{
		let h = spawn(f);
		let a = h.abort_handle();
		self.handles.push(h);
		a
	}
	pub fn len(&self) -> usize {
		self.handles.len()
	}
	pub fn is_empty(&self) -> bool {
		self.handles.is_empty()
	}
	pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
		if self.handles.is_empty() {
			return Poll::Ready(None);
		}
		for i in 0..self.handles.len() {
			if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
				self.handles.remove(i);
				return Poll::Ready(Some(r));
			}
		}
		Poll::Pending
	}
	pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
		std::future::poll_fn(|cx| self.poll_join_next(cx)).await
	}
	pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
		for i in 0..self.handles.len() {
			if self.handles[i].is_finished() {
				let h = self.handles.remove(i);
				let r = h.shared.lock().unwrap().out.take();
				return r;
			}
		}
		None
	}
	pub fn abort_all(&mut self) {
		for h in &self.handles {
			h.abort()
		}
	}
	#[track_caller]
	pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
	where
		F: FnOnce() -> T + Send + 'static,
		T: Send,
	{
		let h = spawn_blocking(f);
		let a = h.abort_handle();
		self.handles.push(h);
		a
	}
	pub async fn join_next_with_id(&mut self) -> Option<Result<(Id, T), JoinError>> {
		std::future::poll_fn(|cx| {
			if self.handles.is_empty() {
				return Poll::Ready(None);
			}
			for i in 0..self.handles.len() {
				if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
					let h = self.handles.remove(i);
					return Poll::Ready(Some(r.map(|x| (h.id(), x))));
				}
			}
			Poll::Pending
		})
		.await
	}
	pub async fn join_all(mut self) -> Vec<T> {
		let mut out = Vec::new();
		while let Some(r) = self.join_next().await {
			match r {
				Ok(x) => out.push(x),
				Err(e) if e.is_panic() => std::panic::resume_unwind(e.into_panic()),
				Err(e) => panic!("{e}"),
			}
		}
		out
	}
	pub async fn shutdown(&mut self) {
		self.abort_all();
		while self.join_next().await.is_some() {}
	}
	pub fn detach_all(&mut self) {
		self.handles.clear()
	}
}
impl<T> std::fmt::Debug for JoinSet<T> {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		f.debug_struct("JoinSet").field("len", &self.handles.len()).finish()
	}
}
impl<T> Drop for JoinSet<T> {
	fn drop(&mut self) {
		for h in &self.handles {
			h.abort()
		}
	}
}

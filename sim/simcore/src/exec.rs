//! The executor: stackful tasks, a virtual clock, and one scheduler.
//!
//! A task is a future polled on its own stack.  That lets the scheduler switch
//! away *inside* a poll (at channel and socket operations), which is how two
//! worker threads of a real runtime interleave.

use crate::choice::{self, chance, choose, mix, range, Source};
use crate::mem;
use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Origin {
	/// Spawned by the code under test (`tokio::spawn`).
	Subject,
	/// Spawned by the harness.
	Harness,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Policy {
	/// Pick uniformly among runnable tasks.
	Random,
	/// First come, first served (a current-thread runtime).
	Fifo,
	/// Random priorities, with random demotion of the running task.
	Priority,
}

#[derive(Clone, Debug)]
pub struct ExecConfig {
	pub policy: Policy,
	/// Chance (of 1024) to switch tasks at a preemption point inside a poll.
	pub preempt: u32,
	/// Chance (of 1024) that a channel receive / socket op reports Pending once although it could proceed.
	pub coop: u32,
	/// Chance (of 1024) per scheduling step to poll a parked task that nobody woke.
	pub spurious: u32,
	/// Virtual CPU time per scheduling step, in ns.
	pub step_ns: (u64, u64),
	pub max_steps: u64,
}

impl Default for ExecConfig {
	fn default() -> Self {
		Self { policy: Policy::Fifo, preempt: 0, coop: 0, spurious: 0, step_ns: (1000, 1000), max_steps: 400_000 }
	}
}

#[derive(Clone, Debug)]
pub struct PanicRecord {
	pub task: String,
	pub origin: Origin,
	pub message: String,
	pub location: String,
}

#[derive(Clone, Copy)]
enum Why {
	Parked,
	Preempted,
	/// Waits for a lock of the standard library.
	Locked(*const AtomicU32, u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
	Parked,
	Ready,
	Running,
	Preempted,
	Locked,
	Done,
}

type Co = Coroutine<(), Why, (), DefaultStack>;

struct Slot {
	name: String,
	origin: Origin,
	node: u32,
	state: St,
	notified: bool,
	abort: bool,
	prio: u64,
	co: Option<Co>,
	yielder: *const Yielder<(), Why>,
	waiting: Option<&'static str>,
	hash: u64,
}

struct Exec {
	cfg: ExecConfig,
	slots: Vec<Slot>,
	runnable: Vec<TaskId>,
	locked: Vec<(TaskId, *const AtomicU32, u32)>,
	lock_waits: u64,
	current: Option<TaskId>,
	now: u64,
	seq: u64,
	events: BinaryHeap<Reverse<(u64, u64)>>,
	event_fns: std::collections::HashMap<u64, Box<dyn FnOnce()>>,
	event_seq: u64,
	idle: VecDeque<Waker>,
	panics: Vec<PanicRecord>,
	steps: u64,
	progress_at: u64,
	preemptions: u64,
	spurious_polls: u64,
	coop_yields: u64,
	sched_hash: u64,
	ops_in_poll: u64,
	prio_floor: u64,
	trace: Option<Vec<String>>,
}

impl Exec {
	fn new() -> Self {
		Self {
			cfg: ExecConfig::default(),
			slots: Vec::new(),
			runnable: Vec::new(),
			locked: Vec::new(),
			lock_waits: 0,
			current: None,
			now: 0,
			seq: 0,
			events: BinaryHeap::new(),
			event_fns: Default::default(),
			event_seq: 0,
			idle: VecDeque::new(),
			panics: Vec::new(),
			steps: 0,
			progress_at: 0,
			preemptions: 0,
			spurious_polls: 0,
			coop_yields: 0,
			sched_hash: 0,
			ops_in_poll: 0,
			prio_floor: 1 << 40,
			trace: None,
		}
	}
}

thread_local! {
	static EXEC: RefCell<Exec> = RefCell::new(Exec::new());
	static YIELDER: Cell<*const Yielder<(), Why>> = const { Cell::new(std::ptr::null()) };
	static NO_PREEMPT: Cell<u32> = const { Cell::new(0) };
	static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
	static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

const STACK_SIZE: usize = 256 * 1024;
const MAX_OPS_IN_POLL: u64 = 300_000;

fn with<R>(f: impl FnOnce(&mut Exec) -> R) -> R {
	let _p = mem::pause();
	EXEC.with(|e| f(&mut e.borrow_mut()))
}

/// Install a panic hook that records panics instead of printing them.
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		let _p = mem::pause();
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"<non-string panic>".into()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
		if std::env::var_os("SIM_BACKTRACE").is_some() {
			eprintln!("panic: {msg} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
		}
		LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
	}));
}

pub fn last_panic() -> Option<(String, String)> {
	LAST_PANIC.with(|p| p.borrow_mut().take())
}

struct TaskWaker(TaskId, u64);

impl Wake for TaskWaker {
	fn wake(self: Arc<Self>) {
		wake_task(self.0, self.1)
	}
	fn wake_by_ref(self: &Arc<Self>) {
		wake_task(self.0, self.1)
	}
}

thread_local! {
	static GENERATION: Cell<u64> = const { Cell::new(0) };
}

fn wake_task(id: TaskId, generation: u64) {
	if GENERATION.with(|g| g.get()) != generation {
		return;
	}
	with(|e| {
		let slot = &mut e.slots[id];
		match slot.state {
			St::Parked => {
				slot.state = St::Ready;
				e.runnable.push(id);
			},
			St::Running | St::Preempted | St::Locked => slot.notified = true,
			St::Ready | St::Done => (),
		}
	})
}

/// Abort handle semantics: takes effect the next time the task is at a poll boundary.
pub fn abort_task(id: TaskId) {
	with(|e| {
		if e.slots[id].state != St::Done {
			e.slots[id].abort = true;
		}
	});
	wake_task(id, GENERATION.with(|g| g.get()));
}

pub fn task_done(id: TaskId) -> bool {
	with(|e| e.slots[id].state == St::Done)
}

/// Spawn a future on the simulator.
pub fn spawn_raw(name: String, origin: Origin, node: Option<u32>, fut: Pin<Box<dyn Future<Output = ()>>>) -> TaskId {
	let generation = GENERATION.with(|g| g.get());
	let _p = mem::pause();
	let name = name.as_str().to_string();
	let id = with(|e| {
		let node = node.or_else(|| e.current.map(|c| e.slots[c].node)).unwrap_or(0);
		let id = e.slots.len();
		let hash = name.bytes().fold(7u64, |h, b| mix(h ^ b as u64));
		e.slots.push(Slot {
			name,
			origin,
			node,
			state: St::Ready,
			notified: false,
			abort: false,
			prio: 0,
			co: None,
			yielder: std::ptr::null(),
			waiting: None,
			hash,
		});
		e.runnable.push(id);
		id
	});
	let prio = if with(|e| e.cfg.policy == Policy::Priority) { (1 << 41) + choose(1 << 16) as u64 } else { 0 };
	with(|e| e.slots[id].prio = prio);
	let stack = STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK_SIZE).expect("stack"));
	let co = Coroutine::with_stack(stack, move |y: &Yielder<(), Why>, ()| {
		let yp = y as *const _;
		with(|e| e.slots[id].yielder = yp);
		YIELDER.with(|c| c.set(yp));
		let waker: Waker = {
			let _p = mem::pause();
			Arc::new(TaskWaker(id, generation)).into()
		};
		let mut fut = Some(fut);
		loop {
			if with(|e| e.slots[id].abort) {
				let f = fut.take();
				let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
				return;
			}
			let mut cx = Context::from_waker(&waker);
			let f = fut.as_mut().unwrap().as_mut();
			match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.poll(&mut cx))) {
				Ok(Poll::Ready(())) => {
					let f = fut.take();
					let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
					return;
				},
				Ok(Poll::Pending) => y.suspend(Why::Parked),
				Err(_) => {
					let (message, location) = last_panic().unwrap_or_default();
					with(|e| {
						let s = &e.slots[id];
						let rec = PanicRecord { task: s.name.clone(), origin: s.origin, message, location };
						e.panics.push(rec);
					});
					let f = fut.take();
					let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(f)));
					return;
				},
			}
		}
	});
	with(|e| e.slots[id].co = Some(co));
	id
}

/// Record a panic that was caught elsewhere (e.g. by a JoinHandle wrapper).
pub fn record_panic() {
	let (message, location) = last_panic().unwrap_or_default();
	with(|e| {
		let (task, origin) = match e.current {
			Some(c) => (e.slots[c].name.clone(), e.slots[c].origin),
			None => ("<main>".into(), Origin::Harness),
		};
		e.panics.push(PanicRecord { task, origin, message, location });
	});
}

/// Spawn a harness task.
pub fn spawn(name: impl Into<String>, node: u32, fut: impl Future<Output = ()> + 'static) -> TaskId {
	spawn_raw(name.into(), Origin::Harness, Some(node), Box::pin(fut))
}

pub struct Join(TaskId);
impl Future for Join {
	type Output = ();
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if task_done(self.0) {
			return Poll::Ready(());
		}
		let _p = mem::pause();
		JOINERS.with(|j| j.borrow_mut().push((self.0, cx.waker().clone())));
		Poll::Pending
	}
}
thread_local! {
	static JOINERS: RefCell<Vec<(TaskId, Waker)>> = const { RefCell::new(Vec::new()) };
}
pub fn join(id: TaskId) -> Join {
	Join(id)
}

/// A point where the scheduler may switch to another task in the middle of a poll.
pub fn preempt_point() {
	if NO_PREEMPT.with(|n| n.get()) > 0 || std::thread::panicking() {
		return;
	}
	let y = YIELDER.with(|c| c.get());
	if y.is_null() {
		return;
	}
	let (p, ops) = with(|e| {
		e.ops_in_poll += 1;
		(e.cfg.preempt, e.ops_in_poll)
	});
	if ops > MAX_OPS_IN_POLL {
		with(|e| e.ops_in_poll = 0);
		panic!("livelock: a single poll performed more than {MAX_OPS_IN_POLL} channel/socket operations");
	}
	if p == 0 {
		return;
	}
	if with(|e| e.runnable.is_empty()) {
		return;
	}
	if chance(p) {
		// SAFETY: the yielder lives on the stack of the coroutine that is running right now.
		unsafe { (*y).suspend(Why::Preempted) };
	}
}

/// Like tokio's cooperative budget: sometimes report Pending (and wake immediately).
pub fn coop_yield(cx: &mut Context<'_>) -> bool {
	let p = with(|e| e.cfg.coop);
	if p > 0 && NO_PREEMPT.with(|n| n.get()) == 0 && chance(p) {
		with(|e| e.coop_yields += 1);
		cx.waker().wake_by_ref();
		true
	} else {
		false
	}
}

pub struct NoPreempt(());
pub fn no_preempt() -> NoPreempt {
	NO_PREEMPT.with(|n| n.set(n.get() + 1));
	NoPreempt(())
}
impl Drop for NoPreempt {
	fn drop(&mut self) {
		NO_PREEMPT.with(|n| n.set(n.get() - 1));
	}
}

pub fn now() -> u64 {
	with(|e| e.now)
}

/// The next value of the global event counter.
pub fn stamp() -> u64 {
	with(|e| {
		e.seq += 1;
		e.progress_at = e.steps;
		e.seq
	})
}

/// Something observable happened (bytes moved, an operation finished).
pub fn progress() {
	with(|e| e.progress_at = e.steps)
}

/// How many tasks of the code under test have not ended.
pub fn subject_tasks() -> usize {
	with(|e| e.slots.iter().filter(|s| s.origin == Origin::Subject && s.state != St::Done).count())
}

pub fn current_task() -> Option<TaskId> {
	with(|e| e.current)
}

/// Whether the running task was woken since its poll began, so that it will be polled again.
pub fn notified() -> bool {
	with(|e| e.current.map_or(false, |id| e.slots[id].notified))
}
pub fn current_node() -> u32 {
	with(|e| e.current.map(|c| e.slots[c].node).unwrap_or(0))
}

pub fn current_name() -> String {
	with(|e| e.current.map(|c| e.slots[c].name.clone()).unwrap_or_default())
}

/// Note what the current harness task is waiting for (reported if it never finishes).
pub fn waiting(what: Option<&'static str>) {
	with(|e| {
		if let Some(c) = e.current {
			e.slots[c].waiting = what;
		}
	})
}

pub fn at(t: u64, f: impl FnOnce() + 'static) {
	with(|e| {
		e.event_seq += 1;
		let s = e.event_seq;
		e.events.push(Reverse((t.max(e.now), s)));
		e.event_fns.insert(s, Box::new(f));
	})
}

pub fn after(dt: u64, f: impl FnOnce() + 'static) {
	let t = now() + dt;
	at(t, f)
}

pub struct Sleep {
	until: u64,
	armed: bool,
}
impl Future for Sleep {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if now() >= self.until {
			return Poll::Ready(());
		}
		if !self.armed {
			self.armed = true;
			let w = cx.waker().clone();
			at(self.until, move || w.wake());
		}
		Poll::Pending
	}
}
pub fn sleep(ns: u64) -> Sleep {
	Sleep { until: now() + ns, armed: false }
}

/// Resolves when nothing else in the system can make progress.
pub struct Idle(bool);
impl Future for Idle {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 && IDLE_TOKEN.with(|t| t.replace(false)) {
			return Poll::Ready(());
		}
		if !self.0 {
			self.0 = true;
			with(|e| e.idle.push_back(cx.waker().clone()));
		}
		Poll::Pending
	}
}
thread_local! {
	static IDLE_TOKEN: Cell<bool> = const { Cell::new(false) };
}
pub fn idle() -> Idle {
	Idle(false)
}

pub struct YieldNow(bool);
impl Future for YieldNow {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		if self.0 {
			return Poll::Ready(());
		}
		self.0 = true;
		cx.waker().wake_by_ref();
		Poll::Pending
	}
}
pub fn yield_now() -> YieldNow {
	YieldNow(false)
}

pub fn trace_on() -> bool {
	with(|e| e.trace.is_some())
}
pub fn trace(f: impl FnOnce() -> String) {
	if trace_on() {
		let _p = mem::pause();
		let s = f();
		with(|e| {
			let who = e.current.map(|c| e.slots[c].name.clone()).unwrap_or_else(|| "-".into());
			let line = format!("[{:>12} ns] {:<14} {}", e.now, who, s);
			e.trace.as_mut().unwrap().push(line);
		})
	}
}

#[derive(Clone, Debug, Default)]
pub struct Report {
	pub steps: u64,
	pub sim_ns: u64,
	pub preemptions: u64,
	pub spurious_polls: u64,
	pub coop_yields: u64,
	/// Times a task waited for a lock of the standard library.
	pub lock_waits: u64,
	pub sched_hash: u64,
	pub tasks: usize,
	pub step_limit: bool,
	pub panics: Vec<PanicRecord>,
	/// (name, is_subject, waiting for)
	pub blocked: Vec<(String, bool, Option<&'static str>)>,
	pub choices: (u64, u64),
}

/// Reset the simulator for a new run.
pub fn setup(cfg: ExecConfig, source: Source, record: bool, trace: bool) {
	GENERATION.with(|g| g.set(g.get() + 1));
	choice::install(source, record);
	with(|e| {
		assert!(e.slots.is_empty(), "previous run was not torn down");
		*e = Exec::new();
		e.cfg = cfg;
		e.trace = if trace { Some(Vec::new()) } else { None };
	});
	IDLE_TOKEN.with(|t| t.set(false));
	JOINERS.with(|j| j.borrow_mut().clear());
	last_panic();
	crate::net::reset();
}

pub fn take_trace() -> Vec<String> {
	with(|e| e.trace.as_mut().map(std::mem::take).unwrap_or_default())
}

/// Abort every task of a node (process crash).
pub fn kill_node(node: u32) {
	let ids: Vec<TaskId> = with(|e| {
		e.slots.iter().enumerate().filter(|(_, s)| s.node == node && s.state != St::Done).map(|(i, _)| i).collect()
	});
	for id in ids {
		abort_task(id);
	}
}

pub fn blocked_tasks() -> Vec<(String, bool, Option<&'static str>)> {
	with(|e| {
		e.slots
			.iter()
			.filter(|s| s.state != St::Done)
			.map(|s| (s.name.clone(), s.origin == Origin::Subject, s.waiting))
			.collect()
	})
}

fn resume(id: TaskId) {
	let (mut co, y) = with(|e| {
		let s = &mut e.slots[id];
		s.state = St::Running;
		e.current = Some(id);
		e.ops_in_poll = 0;
		(e.slots[id].co.take().expect("task is not resumable"), e.slots[id].yielder)
	});
	YIELDER.with(|c| c.set(y));
	let r = co.resume(());
	YIELDER.with(|c| c.set(std::ptr::null()));
	match r {
		CoroutineResult::Yield(why) => with(|e| {
			e.current = None;
			let s = &mut e.slots[id];
			s.co = Some(co);
			match why {
				Why::Preempted => {
					e.preemptions += 1;
					s.state = St::Preempted;
					e.runnable.push(id);
				},
				Why::Locked(at, value) => {
					s.state = St::Locked;
					e.lock_waits += 1;
					e.locked.push((id, at, value));
				},
				Why::Parked => {
					if s.notified || s.abort {
						s.notified = false;
						s.state = St::Ready;
						e.runnable.push(id);
					} else {
						s.state = St::Parked;
					}
				},
			}
		}),
		CoroutineResult::Return(()) => {
			let stack = co.into_stack();
			let _p = mem::pause();
			STACKS.with(|s| s.borrow_mut().push(stack));
			with(|e| {
				e.current = None;
				e.slots[id].state = St::Done;
			});
			let ws: Vec<Waker> = JOINERS.with(|j| {
				let mut j = j.borrow_mut();
				let mut out = Vec::new();
				let mut i = 0;
				while i < j.len() {
					if j[i].0 == id {
						out.push(j.remove(i).1);
					} else {
						i += 1;
					}
				}
				out
			});
			for w in ws {
				w.wake();
			}
		},
	}
}

/// Tasks whose lock was touched may try again.
fn release_locked() {
	with(|e| {
		let mut i = 0;
		while i < e.locked.len() {
			let (id, at, value) = e.locked[i];
			// SAFETY: the lock is borrowed by the coroutine that waits for it.
			if unsafe { (*at).load(Ordering::SeqCst) } != value {
				e.locked.remove(i);
				e.slots[id].state = St::Preempted;
				e.runnable.push(id);
			} else {
				i += 1;
			}
		}
	});
}

/// Called instead of blocking the only thread, if a task waits for a lock of the standard library
/// that another task holds.  Returns false if there is no task to suspend.
#[cfg(target_arch = "x86_64")]
fn wait_for_lock(at: *const AtomicU32, value: u32) -> bool {
	let Ok(y) = YIELDER.try_with(|c| c.get()) else { return false };
	if y.is_null() || std::thread::panicking() {
		return false;
	}
	// SAFETY: the futex word belongs to the caller; the yielder lives on the stack of the
	// coroutine that is running right now.
	unsafe {
		if (*at).load(Ordering::SeqCst) == value {
			(*y).suspend(Why::Locked(at, value));
		}
	}
	true
}

/// Takes the place of the function of the C library, which the locks of the standard library use to wait.
///
/// # Safety
/// As for the function of the C library.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(nr: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
	const FUTEX: i64 = 202;
	if nr == FUTEX && matches!(b & 0x7f, 0 | 9) && wait_for_lock(a as *const AtomicU32, c as u32) {
		return 0;
	}
	let ret: i64;
	std::arch::asm!(
		"syscall",
		inlateout("rax") nr => ret,
		in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
		lateout("rcx") _, lateout("r11") _,
		options(nostack)
	);
	if (-4095..0).contains(&ret) {
		*libc::__errno_location() = -ret as i32;
		return -1;
	}
	ret
}

fn fire_due() {
	loop {
		let f = with(|e| match e.events.peek() {
			Some(Reverse((t, _))) if *t <= e.now => {
				let Reverse((_, s)) = e.events.pop().unwrap();
				e.event_fns.remove(&s)
			},
			_ => None,
		});
		match f {
			Some(f) => f(),
			None => return,
		}
	}
}

/// Run until nothing can make progress any more (or the step limit).
pub fn run() -> Report {
	let mut step_limit = false;
	loop {
		fire_due();
		release_locked();
		let n = with(|e| e.runnable.len());
		if n == 0 {
			// Jump to the next event, or hand out an idle token.
			let next = with(|e| e.events.peek().map(|Reverse((t, _))| *t));
			if let Some(t) = next {
				with(|e| e.now = e.now.max(t));
				continue;
			}
			if let Some(w) = with(|e| e.idle.pop_front()) {
				IDLE_TOKEN.with(|t| t.set(true));
				w.wake();
				continue;
			}
			break;
		}
		let (policy, spurious, step_ns, max_steps) = with(|e| (e.cfg.policy, e.cfg.spurious, e.cfg.step_ns, e.cfg.max_steps));
		// Nothing but polling for a long time, or far more work than any program needs.
		if with(|e| e.steps - e.progress_at >= max_steps || e.steps >= max_steps.saturating_mul(25)) {
			step_limit = true;
			break;
		}
		let idx = match policy {
			Policy::Fifo => 0,
			Policy::Random => choose(n as u32) as usize,
			Policy::Priority => with(|e| {
				let mut best = 0;
				for i in 1..n {
					if e.slots[e.runnable[i]].prio > e.slots[e.runnable[best]].prio {
						best = i;
					}
				}
				best
			}),
		};
		let dt = range(step_ns.0, step_ns.1);
		let id = with(|e| {
			e.now += dt;
			e.steps += 1;
			let id = e.runnable.remove(idx);
			e.sched_hash = mix(e.sched_hash ^ e.slots[id].hash ^ ((e.slots[id].state == St::Preempted) as u64));
			id
		});
		if policy == Policy::Priority && chance(24) {
			with(|e| {
				e.prio_floor -= 1;
				e.slots[id].prio = e.prio_floor;
			});
		}
		resume(id);
		if spurious > 0 && chance(spurious) {
			let parked: Vec<TaskId> =
				with(|e| e.slots.iter().enumerate().filter(|(_, s)| s.state == St::Parked).map(|(i, _)| i).collect());
			if !parked.is_empty() {
				let id = parked[choose(parked.len() as u32) as usize];
				with(|e| e.spurious_polls += 1);
				wake_task(id, GENERATION.with(|g| g.get()));
			}
		}
	}
	let blocked = blocked_tasks();
	with(|e| Report {
		steps: e.steps,
		sim_ns: e.now,
		preemptions: e.preemptions,
		spurious_polls: e.spurious_polls,
		coop_yields: e.coop_yields,
		lock_waits: e.lock_waits,
		sched_hash: e.sched_hash,
		tasks: e.slots.len(),
		step_limit,
		panics: e.panics.clone(),
		blocked,
		choices: choice::fingerprint(),
	})
}

/// Drop everything that is still alive.
pub fn teardown() {
	let _g = no_preempt();
	with(|e| {
		e.events.clear();
		e.idle.clear();
	});
	let fns = with(|e| std::mem::take(&mut e.event_fns));
	drop(fns);
	loop {
		// Tasks may (in principle) spawn more tasks while being dropped.
		release_locked();
		let next = with(|e| e.slots.iter().position(|s| s.state != St::Done && s.state != St::Locked));
		let Some(id) = next else { break };
		with(|e| {
			e.slots[id].abort = true;
			e.runnable.retain(|x| *x != id);
		});
		resume(id);
	}
	with(|e| {
		// Tasks that lock each other out for good can not be ended.
		for s in &mut e.slots {
			std::mem::forget(s.co.take());
		}
		e.locked.clear();
		e.slots.clear();
		e.runnable.clear();
	});
	JOINERS.with(|j| j.borrow_mut().clear());
	crate::net::reset();
}

//! Scenario "soak": the same rounds over and over, with nothing left open in between.
//!
//! After every phase of rounds the simulation runs until nothing can happen any more.
//! Then the heap must not be bigger than after the phases before, no task of the
//! library may be left over, and no socket may be left open.

use crate::case::{Case, Op, Outcome, Violation};
use crate::duo::{fizyr_sim_hook, kind_of};
use crate::hub::{scratch, AssertSend, Net, Seq, Tcp, Uds};
use crate::util::*;
use crate::world::*;
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::exec;
use simcore::mem;
use simcore::net::{self, Action, Owned, RawStream};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::path::PathBuf;
use std::rc::Rc;
use std::task::{Poll, Waker};

const ECHO: i32 = 1;
const UPDATES: i32 = 2;
const LEAVE: i32 = 3;
const ERROR: i32 = 4;
const LISTEN: i32 = 5;
const WRITER: i32 = 6;
const BIG: i32 = 7;
const DEAF: i32 = 8;
const PANIC: i32 = 9;
const SPLIT: i32 = 10;
const HOLD: i32 = 11;

/// Phases of a run in which nothing seems to grow.
const PHASES: usize = 5;
/// Phases of a run in which something grows now and then, as tables do that double in size.
const LONG: usize = 40;
/// What the sockets' limits are.
const LIMIT: usize = 3000;

/// Room for buffers that are kept for reuse.
const SLACK: i64 = 4096;

#[derive(Clone, Copy, Debug, Default)]
struct Mark {
	live: i64,
	tasks: usize,
	socks: usize,
	fds: usize,
}

#[derive(Default)]
struct St {
	viol: Vec<Violation>,
	stats: BTreeMap<&'static str, u64>,
	marks: Vec<Mark>,
	round: u64,
	/// Handler tasks and drivers that have not finished.
	busy: usize,
	answers: u64,
	end: Option<Mark>,
	start: Mark,
	phased: bool,
	/// What stays open during all rounds.
	attic: Vec<Box<dyn std::any::Any>>,
}

type W = Rc<RefCell<St>>;

fn viol(w: &W, rule: &'static str, detail: String) {
	exec::trace(|| format!("VIOLATION {rule}: {detail}"));
	let mut st = w.borrow_mut();
	if st.viol.len() < 3 {
		st.viol.push(Violation { rule, props: vec!["C21"], detail });
	}
}

fn stat(w: &W, k: &'static str) {
	let _p = mem::pause();
	*w.borrow_mut().stats.entry(k).or_default() += 1;
}

/// An operation that should have worked did not.
fn worn(w: &W, what: &str, detail: impl std::fmt::Debug) {
	let _p = mem::pause();
	let n = w.borrow().round;
	viol(w, "worn_out", format!("in round {n}: {what}: {detail:?}"));
}

fn spawn(w: &W, name: &str, node: u32, f: impl std::future::Future<Output = ()> + 'static) {
	w.borrow_mut().busy += 1;
	let w = w.clone();
	exec::spawn(name, node, async move {
		f.await;
		w.borrow_mut().busy -= 1;
	});
}

fn mark() -> Mark {
	Mark { live: mem::live(), tasks: exec::subject_tasks(), socks: net::open_count(), fds: open_fds() }
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	match (case.profile.as_str(), case.get("kind")) {
		("serve", 0) => go(case, record, trace, serve::<Tcp>),
		("serve", 1) => go(case, record, trace, serve::<Uds>),
		("serve", _) => go(case, record, trace, serve::<Seq>),
		(_, 2) => go(case, record, trace, talk::<UnixBody>),
		_ => go(case, record, trace, talk::<StreamBody>),
	}
}

fn go<F>(case: &Case, record: bool, trace: bool, f: fn(Case, W) -> F) -> Outcome
where
	F: std::future::Future<Output = ()> + 'static,
{
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	let w: W = Rc::default();
	let finished = Rc::new(Cell::new(false));
	let (f2, w2, c2) = (finished.clone(), w.clone(), case.clone());
	mem::start();
	exec::spawn("control", 0, async move {
		f(c2, w2).await;
		f2.set(true);
	});
	let report = exec::run();
	mem::stop();
	let mut out = Outcome::default();
	let mut clean = !report.step_limit && finished.get();
	for p in &report.panics {
		if p.message.contains(crate::hub::PLANNED) {
			stat(&w, "planned_panics");
			continue;
		}
		clean = false;
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			viol(&w, "panic", format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			w.borrow_mut().viol.push(Violation { rule: "harness", props: vec![], detail: format!("harness panic in {}: {} at {}", p.task, p.message, p.location) });
		}
	}
	if clean && w.borrow().viol.is_empty() {
		check(case, &w);
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let st = w.borrow();
		for (k, v) in &st.stats {
			*out.stats.entry(format!("soak.{k}")).or_default() += v;
		}
		*out.stats.entry("soak.rounds".into()).or_default() += st.round;
		*out.stats.entry("soak.answers".into()).or_default() += st.answers;
		*out.stats.entry("soak.finished".into()).or_default() += clean as u64;
		out.sig = mix(st.answers ^ st.round << 32);
		out.trivial = !st.phased;
	}
	if std::env::var_os("SOAK_DEBUG").is_some() {
		println!("finished {} clean {clean} busy {} steps {}\n{:#?}\n{:?}", finished.get(), w.borrow().busy, report.steps, w.borrow().marks, w.borrow().end);
		println!("{:?}", report.blocked);
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	exec::teardown();
	out.violations = std::mem::take(&mut w.borrow_mut().viol);
	out.report = report;
	out
}

fn check(case: &Case, w: &W) {
	let m = w.borrow().marks.clone();
	if !w.borrow().phased {
		return;
	}
	let rounds = case.get("rounds");
	let (first, last) = (m[1], m[m.len() - 1]);
	let steps: Vec<i64> = m.iter().map(|x| x.live).collect();
	if last.tasks > first.tasks {
		viol(w, "tasks_left", format!("{} tasks of the library are alive after {} rounds, {} after {} rounds, with the same things open", last.tasks, m.len() as i64 * rounds, first.tasks, 2 * rounds));
	}
	if last.socks > first.socks {
		viol(w, "sockets_left", format!("{} sockets are open after {} rounds, {} after {} rounds", last.socks, m.len() as i64 * rounds, first.socks, 2 * rounds));
	}
	if last.fds > first.fds {
		viol(w, "fds_left", format!("{} file descriptors are open after {} rounds, {} after {} rounds", last.fds, m.len() as i64 * rounds, first.fds, 2 * rounds));
	}
	// Something is kept per round: it grows all the time.
	if suspicious(&m) && last.live - first.live > SLACK {
		viol(w, "accumulates", format!("the heap grows all the time: {steps:?} bytes in use after each {rounds} rounds, with the same things open"));
	}
	if m.len() >= LONG && risen(&m) > 4 * SLACK && rise(&m, LONG / 2 - PHASES) > SLACK {
		viol(w, "accumulates", format!("the heap keeps growing: {steps:?} bytes in use after each {rounds} rounds, with the same things open"));
	}
	let st = w.borrow();
	let (start, Some(end)) = (st.start, st.end) else { return };
	drop(st);
	if end.tasks > start.tasks || end.socks > start.socks || end.fds > start.fds {
		viol(w, "left_at_end", format!("after everything was closed there are {} tasks, {} sockets, {} file descriptors more than before", end.tasks - start.tasks, end.socks - start.socks, end.fds - start.fds));
	} else if end.live - start.live > 16 * SLACK {
		viol(w, "kept_at_end", format!("after everything was closed {} bytes are still in use", end.live - start.live));
	}
}

/// Run the phases; `start` begins the drivers of one phase.
async fn phases(w: &W, mut start: impl FnMut()) -> bool {
	let debug = std::env::var_os("SOAK_DEBUG").is_some();
	let mut p = 0;
	while p < PHASES || more(&w.borrow().marks) {
		if p == 2 && debug {
			mem::debug();
		}
		start();
		exec::idle().await;
		let busy = w.borrow().busy;
		if busy > 0 {
			// Something hangs, which other properties are about.
			stat(w, "stuck");
			return false;
		}
		let _g = mem::pause();
		let m = mark();
		exec::trace(|| format!("phase {p}: {m:?}"));
		w.borrow_mut().marks.push(m);
		if !w.borrow().viol.is_empty() {
			return false;
		}
		p += 1;
	}
	if debug {
		for (n, c, t) in mem::report().into_iter().take(std::env::var("SOAK_TOP").ok().and_then(|x| x.parse().ok()).unwrap_or(4)) {
			println!("{n} bytes in {c} from\n{t}");
		}
	}
	w.borrow_mut().phased = true;
	true
}

/// Have there been too few phases to tell?
fn more(m: &[Mark]) -> bool {
	let (first, last) = (m[1].live, m[m.len() - 1].live);
	match m.len() {
		n if n < 3 * PHASES => suspicious(m) || last - first > 500,
		n if n < LONG => !suspicious(m) && risen(m) > 1000,
		_ => false,
	}
}

/// By how much the heap is bigger in the last phases than in the first, at least.
fn risen(m: &[Mark]) -> i64 {
	rise(m, 0)
}

fn rise(m: &[Mark], from: usize) -> i64 {
	let early = m[from..from + PHASES].iter().map(|x| x.live).max().unwrap();
	let late = m[m.len() - PHASES..].iter().map(|x| x.live).min().unwrap();
	late - early
}

/// Does the heap grow with every phase (after the first, which fills buffers)?
fn suspicious(m: &[Mark]) -> bool {
	m.windows(2).skip(1).all(|x| x[1].live > x[0].live)
}

// ------------------------------------------------------------------ talk, strays

/// How the application answers.
async fn answer<B: Sys>(w: &W, mut q: ReceivedRequestHandle<B>, b: B) {
	match q.service_id() {
		UPDATES => {
			let n = b.bytes().first().copied().unwrap_or(0) % 8;
			for k in 0..n {
				let _ = q.send_update(k as i32, B::make(vec![k; 10], vec![])).await;
			}
			let _ = q.send_response(UPDATES, b).await;
		},
		ERROR => {
			let _ = q.send_error_response("refused on purpose").await;
		},
		LISTEN => {
			let n = b.bytes().first().copied().unwrap_or(0) % 8;
			for k in 0..n {
				match q.recv_update().await {
					Some(u) if u.body.bytes() != [k; 7] => return worn(w, "an update from the requester", u),
					Some(_) => (),
					// The requester has left.
					None => break,
				}
			}
			let _ = q.send_response(LISTEN, b).await;
		},
		WRITER => {
			let h = q.write_handle();
			let h2 = h.clone();
			drop(q);
			drop(h);
			exec::yield_now().await;
			let _ = h2.send_update(1, B::make(vec![], vec![])).await;
			let _ = h2.send_response(WRITER, b).await;
		},
		BIG => {
			let _ = q.send_update(1, B::make(vec![0; LIMIT + 1], vec![])).await;
			let _ = q.send_response(BIG, B::make(vec![0; LIMIT + 1], vec![])).await;
			let _ = q.send_response(BIG, b).await;
		},
		// Does not look at its updates, and takes its time.
		DEAF => {
			exec::sleep(50_000).await;
			let _ = q.send_response(DEAF, b).await;
		},
		// Runs until the end.
		HOLD => w.borrow_mut().attic.push(Box::new(q)),
		// Updates and the response from different tasks at once.
		SPLIT => {
			let h = q.write_handle();
			spawn(w, "writer", exec::current_node(), async move {
				let _ = h.send_update(3, B::make(vec![5; 20], vec![])).await;
			});
			let _ = q.send_response(SPLIT, b).await;
		},
		s => {
			let _ = q.send_response(s, b).await;
		},
	}
}

async fn app<B: Sys>(w: W, mut rd: PeerReadHandle<B>, node: u32, cancel: i64) {
	let mut k = 0u64;
	loop {
		k += 1;
		// Receives that are given up now and then.
		let c = if cancel > 0 && mix(k) % 3 == 0 && exec::current_task().is_some() { 1 } else { 0 };
		let r = match guard(rd.recv_message(), c, || ()).await {
			None => rd.recv_message().await,
			Some(r) => r,
		};
		match r {
			Ok(ReceivedMessage::Request(q, b)) => {
				let w2 = w.clone();
				spawn(&w, "answer", node, async move { answer(&w2, q, b).await });
			},
			Ok(ReceivedMessage::Stream(_)) => stat(&w, "streams"),
			Err(e) if e.is_connection_aborted() => return,
			Err(_) => stat(&w, "recv_errors"),
		}
	}
}

/// A finished answer to request `svc` with body `b`.
fn verify<B: TB>(w: &W, what: &str, svc: i32, b: &[u8], r: Result<Message<B>, Error>) {
	match r {
		Ok(m) if m.header.service_id == svc && m.body.bytes() == b => w.borrow_mut().answers += 1,
		Ok(m) => worn(w, what, m),
		Err(e) => worn(w, what, e),
	}
}

async fn request<B: Sys>(w: &W, h: &PeerWriteHandle<B>, svc: i32, b: &[u8]) -> Option<SentRequestHandle<B>> {
	match h.send_request(svc, B::make(b.to_vec(), vec![])).await {
		Ok(q) => Some(q),
		Err(e) => {
			worn(w, "sending a request", e);
			None
		},
	}
}

/// The response, whatever updates are in front of it.
async fn final_response<B: Sys>(q: &mut SentRequestHandle<B>) -> Result<Message<B>, Error> {
	while q.recv_update().await.is_some() {}
	q.recv_response().await
}

async fn op<B: Sys>(w: &W, h: &PeerWriteHandle<B>, op: &Op, strays: bool) {
	let n = op.arg(0).clamp(0, LIMIT as i64) as usize;
	let data = vec![n as u8; n];
	exec::trace(|| format!("{} {:?}", op.name, op.args));
	match op.name.as_str() {
		"call" => {
			let Some(mut q) = request(w, h, ECHO, &data).await else { return };
			verify(w, "a call", ECHO, &data, q.recv_response().await);
		},
		"updates" => {
			let Some(mut q) = request(w, h, UPDATES, &data).await else { return };
			let mut k = 0u8;
			while let Some(u) = q.recv_update().await {
				if u.body.bytes() != [k; 10] {
					return worn(w, "an update", u);
				}
				k += 1;
			}
			if data.first().is_some_and(|x| k != x % 8) {
				return worn(w, "the number of updates", k);
			}
			verify(w, "a call with updates", UPDATES, &data, q.recv_response().await);
		},
		// Everything arrives, and nobody looks.
		"unread" => {
			let Some(q) = request(w, h, UPDATES, &data).await else { return };
			exec::sleep(op.arg(1).max(1) as u64).await;
			drop(q);
		},
		// The response is asked for while updates are in front of it.
		"hasty" => {
			let Some(mut q) = request(w, h, UPDATES, &data).await else { return };
			for _ in 0..2 {
				if let Ok(m) = q.recv_response().await {
					return verify(w, "a hasty call", UPDATES, &data, Ok(m));
				}
			}
			if op.arg(1) % 2 == 0 {
				verify(w, "a hasty call", UPDATES, &data, final_response(&mut q).await);
			}
		},
		"forget" => {
			let svc = [ECHO, UPDATES, ERROR, WRITER, BIG, DEAF, SPLIT][(op.arg(1).unsigned_abs() % 7) as usize];
			drop(request(w, h, svc, &data).await);
		},
		"refused" => {
			let Some(mut q) = request(w, h, ERROR, &data).await else { return };
			match q.recv_response().await {
				Ok(m) if m.header.service_id == -1 && m.body.bytes() == b"refused on purpose" => w.borrow_mut().answers += 1,
				r => worn(w, "an error response", r),
			}
		},
		"tell" | "tellall" => {
			let Some(mut q) = request(w, h, if op.name == "tell" { LISTEN } else { DEAF }, &data).await else { return };
			let k = data.first().copied().unwrap_or(0) % 8;
			let wh = q.write_handle();
			for i in 0..k {
				let r = if i % 2 == 0 { q.send_update(i as i32, B::make(vec![i; 7], vec![])).await } else { wh.send_update(i as i32, B::make(vec![i; 7], vec![])).await };
				// The answer may be there already.
				if let Err(e) = r {
					if op.name == "tell" && !strays {
						return worn(w, "sending an update", e);
					}
				}
			}
			let svc = if op.name == "tell" { LISTEN } else { DEAF };
			verify(w, "a call with requester updates", svc, &data, q.recv_response().await);
		},
		// Write handles that outlive the request.
		"late" => {
			let Some(mut q) = request(w, h, ECHO, &data).await else { return };
			let (a, b) = (q.write_handle(), q.write_handle());
			let c = a.clone();
			verify(w, "a call", ECHO, &data, q.recv_response().await);
			let _ = a.send_update(1, B::make(vec![1], vec![])).await;
			drop(q);
			let _ = b.send_update(1, B::make(vec![1], vec![])).await;
			drop(a);
			let _ = c.send_update(1, B::make(vec![1], vec![])).await;
		},
		"writer" | "split" => {
			let svc = if op.name == "writer" { WRITER } else { SPLIT };
			let Some(mut q) = request(w, h, svc, &data).await else { return };
			verify(w, "a call", svc, &data, final_response(&mut q).await);
		},
		"bigger" => {
			let Some(mut q) = request(w, h, BIG, &data).await else { return };
			verify(w, "a call with refused answers", BIG, &data, q.recv_response().await);
		},
		"big" => {
			let b = || B::make(vec![0; LIMIT + 1 + n], vec![]);
			if let Ok(q) = h.send_request(ECHO, b()).await {
				worn(w, "an oversized request", q.request_id());
			}
			let _ = h.send_stream(1, b()).await;
			let Some(mut q) = request(w, h, ECHO, &data).await else { return };
			let _ = q.send_update(1, b()).await;
			verify(w, "a call with a refused update", ECHO, &data, q.recv_response().await);
		},
		"stream" => {
			if let Err(e) = h.send_stream(4, B::make(data, vec![])).await {
				worn(w, "sending a stream message", e);
			}
		},
		"clone" => {
			let a = h.clone();
			let c = a.close_handle();
			let b = a.clone();
			drop(a);
			let Some(mut q) = request(w, &b, ECHO, &data).await else { return };
			let c2 = b.close_handle();
			drop(b);
			verify(w, "a call", ECHO, &data, q.recv_response().await);
			drop((c, c2));
		},
		// Give operations up half way.
		"cancel" => {
			let k = op.arg(1).clamp(1, 6);
			let Some(Ok(mut q)) = guard(h.send_request(UPDATES, B::make(data.clone(), vec![])), k, || ()).await else {
				let _ = guard(h.send_stream(4, B::make(data, vec![])), 1, || ()).await;
				return;
			};
			let _ = guard(q.recv_update(), k, || ()).await;
			let _ = guard(q.send_update(1, B::make(vec![], vec![])), k, || ()).await;
			if guard(q.recv_response(), k, || ()).await.is_none() && op.arg(2) % 2 == 0 {
				let _ = final_response(&mut q).await;
			}
		},
		"fds" => {
			let files: Vec<_> = (0..2).map(|_| memfd()).collect();
			let files = if B::CARRIES { files } else { vec![] };
			let Ok(mut q) = h.send_request(ECHO, B::make(data.clone(), files)).await else { return };
			if op.arg(1) % 2 == 0 {
				verify(w, "a call with descriptors", ECHO, &data, q.recv_response().await);
			}
		},
		"wait" => exec::sleep(op.arg(0).max(1) as u64).await,
		_ => (),
	}
}

async fn driver<B: Sys>(w: W, h: PeerWriteHandle<B>, ops: Rc<Vec<Op>>, rounds: i64, first: usize, strays: bool) {
	for r in 0..rounds as usize {
		let o = &ops[(first + r) % ops.len()];
		w.borrow_mut().round += 1;
		op(&w, &h, o, strays).await;
		if w.borrow().viol.len() > 0 {
			return;
		}
	}
}

async fn talk<B: Sys>(case: Case, w: W) {
	let strays = case.profile == "strays";
	let sock = {
		let (a, b) = net::pair(kind_of(&case));
		net::set_node(a, 1);
		net::set_node(b, 2);
		[a, b]
	};
	// What the simulation itself needs is there now.
	w.borrow_mut().start = Mark { socks: net::open_count() - 2, ..mark() };
	let sides = if strays { 1 } else { 2 };
	let mut writers = Vec::new();
	let mut raw = None;
	for side in 0..2 {
		let scripts: Vec<(usize, Rc<Vec<Op>>)> = case
			.actors
			.iter()
			.filter(|(k, v)| k.starts_with(SIDES[side]) && !v.is_empty())
			.enumerate()
			.map(|(i, (_, v))| (i, Rc::new(v.clone())))
			.collect();
		if side < sides {
			let (_, h) = B::peer(&case, side, sock[side], How::Spawn);
			let (rd, wr) = h.split();
			if case.get(&key(side, "deaf")) == 1 {
				drop(rd);
			} else {
				let w2 = w.clone();
				let cancel = case.get("recvcancel");
				exec::spawn(format!("app{}", SIDES[side]), side as u32 + 1, async move { app(w2, rd, side as u32 + 1, cancel).await });
			}
			writers.push((wr, scripts));
		} else {
			let r = Rc::new(RawSide { raw: RawStream(Owned::new(sock[side])), end: End::from_cfg(case.get("endian")).0, seq: case.get("kind") == 2, next: Cell::new(1), out: Default::default(), waker: Cell::default(), closed: Cell::new(false) });
			let r2 = r.clone();
			exec::spawn("remote", 2, async move { remote(r2).await });
			let r2 = r.clone();
			exec::spawn("sender", 2, async move { sender(r2).await });
			raw = Some((r, scripts));
		}
	}
	let rounds = case.get("rounds").clamp(1, 3000);
	// Requests that are older than everything else, and stay open.
	for _ in 0..case.get("held") {
		for (h, _) in &writers {
			if let Some(q) = request(&w, h, HOLD, b"").await {
				w.borrow_mut().attic.push(Box::new(q));
			}
		}
		if let Some((r, _)) = &raw {
			let id = r.next.get();
			r.next.set(id + 1);
			r.put(REQUEST, id, HOLD, b"").await;
		}
	}
	let ok = phases(&w, || {
		for (side, (wr, scripts)) in writers.iter().enumerate() {
			for (i, s) in scripts {
				spawn(&w, "driver", side as u32 + 1, driver(w.clone(), wr.clone(), s.clone(), rounds, *i, strays));
			}
		}
		if let Some((r, scripts)) = &raw {
			for (i, s) in scripts {
				spawn(&w, "stranger", 2, stranger(w.clone(), r.clone(), s.clone(), rounds, *i));
			}
		}
	})
	.await;
	if let Some((r, _)) = &raw {
		net::shutdown_write(r.raw.id());
	}
	for (h, _) in &writers {
		h.close();
	}
	drop(writers);
	let attic = std::mem::take(&mut w.borrow_mut().attic);
	drop(attic);
	exec::idle().await;
	if let Some((r, _)) = &raw {
		r.closed.set(true);
		if let Some(w) = r.waker.take() {
			w.wake();
		}
	}
	drop(raw);
	exec::idle().await;
	if ok {
		let _g = mem::pause();
		w.borrow_mut().end = Some(mark());
	}
}

// ------------------------------------------------------------------ a remote that does not follow the rules

struct RawSide {
	raw: RawStream,
	end: End,
	seq: bool,
	next: Cell<u32>,
	out: RefCell<VecDeque<Vec<u8>>>,
	waker: Cell<Option<Waker>>,
	closed: Cell<bool>,
}

impl RawSide {
	async fn put(&self, typ: u32, id: u32, svc: i32, body: &[u8]) {
		let _g = mem::pause();
		self.out.borrow_mut().push_back(encode(self.end, !self.seq, typ, id, svc, body));
		if let Some(w) = self.waker.take() {
			w.wake();
		}
	}
}

/// Puts whole frames on the wire, one after the other.
async fn sender(r: Rc<RawSide>) {
	loop {
		let f = std::future::poll_fn(|cx| match r.out.borrow_mut().pop_front() {
			Some(f) => Poll::Ready(Some(f)),
			None if r.closed.get() => Poll::Ready(None),
			None => {
				r.waker.set(Some(cx.waker().clone()));
				Poll::Pending
			},
		})
		.await;
		let Some(f) = f else { return };
		let ok = if r.seq { r.raw.send(&f, &[]).await.is_ok() } else { r.raw.write_all(&f).await.is_ok() };
		if !ok {
			return;
		}
	}
}

/// Reads everything and answers requests by the book.
async fn remote(r: Rc<RawSide>) {
	let mut buf = Vec::new();
	let mut part = vec![0; 8192];
	loop {
		let n = if r.seq {
			match r.raw.recv(&mut part).await {
				Ok((n, _)) => n,
				Err(_) => return,
			}
		} else {
			match r.raw.read(&mut part).await {
				Ok(n) => n,
				Err(_) => return,
			}
		};
		if n == 0 {
			return;
		}
		buf.extend_from_slice(&part[..n]);
		loop {
			let (skip, len) = if r.seq {
				(0, buf.len())
			} else if buf.len() < 4 {
				break;
			} else {
				(4, r.end.u32(&buf) as usize)
			};
			if len < 12 || buf.len() < skip + len {
				break;
			}
			let f: Vec<u8> = buf.drain(..skip + len).skip(skip).collect();
			let (typ, id, svc) = (r.end.u32(&f), r.end.u32(&f[4..]), r.end.u32(&f[8..]) as i32);
			if typ != REQUEST {
				continue;
			}
			let b = &f[12..];
			if svc == UPDATES {
				for k in 0..b.first().copied().unwrap_or(0) % 8 {
					r.put(RUPDATE, id, k as i32, &[k; 10]).await;
				}
			}
			if svc == HOLD {
				continue;
			}
			if svc == ERROR {
				r.put(RESPONSE, id, -1, b"refused on purpose").await;
				continue;
			}
			if svc == SPLIT {
				r.put(RUPDATE, id, 3, &[5; 20]).await;
			}
			r.put(RESPONSE, id, svc, b).await;
			// Again, for a request that is over.
			if id % 3 == 0 {
				r.put(RESPONSE, id, svc, b).await;
			}
			if id % 5 == 0 {
				r.put(RUPDATE, id, svc, b).await;
			}
		}
	}
}

async fn stranger(w: W, r: Rc<RawSide>, ops: Rc<Vec<Op>>, rounds: i64, first: usize) {
	for k in 0..rounds as usize {
		let o = &ops[(first + k) % ops.len()];
		w.borrow_mut().round += 1;
		let n = o.arg(0).clamp(0, 300) as usize;
		let b = vec![n as u8; n];
		let mut fresh = || {
			let id = r.next.get();
			r.next.set(id.wrapping_add(1));
			id
		};
		match o.name.as_str() {
			// Requests of this side, answered in some way.
			"ask" => {
				let svc = [ECHO, UPDATES, ERROR, WRITER, BIG, DEAF, SPLIT][(o.arg(1).unsigned_abs() % 7) as usize];
				r.put(REQUEST, fresh(), svc, &b).await
			},
			"askupd" => {
				let id = fresh();
				r.put(REQUEST, id, LISTEN, &[n as u8]).await;
				for k in 0..n as u8 % 8 {
					r.put(QUPDATE, id, 1, &[k; 7]).await;
				}
			},
			// The same id again, most likely while the request runs.
			"twice" => {
				let id = fresh();
				r.put(REQUEST, id, DEAF, &b).await;
				r.put(REQUEST, id, ECHO, &b).await;
				r.put(QUPDATE, id, 1, &b).await;
			},
			"strayq" => r.put(QUPDATE, fresh(), 1, &b).await,
			"strayr" => r.put(RUPDATE, fresh() ^ 0x4000_0000, 1, &b).await,
			"strayresp" => r.put(RESPONSE, fresh() ^ 0x4000_0000, if n % 2 == 0 { -1 } else { 1 }, &b).await,
			"stream" => r.put(STREAM, 0, 1, &b).await,
			"late" => {
				let id = fresh();
				r.put(REQUEST, id, ECHO, &b).await;
				exec::sleep(200_000).await;
				r.put(QUPDATE, id, 1, &b).await;
			},
			"wait" => exec::sleep(o.arg(0).max(1) as u64).await,
			_ => (),
		}
		if r.closed.get() {
			return;
		}
		exec::sleep(1000).await;
	}
}

// ------------------------------------------------------------------ serve

async fn handler<N: Net>(w: W, mut peer: PeerHandle<N::B>, own: bool) {
	// With `Listener::run` the handlers are tasks of the library, which survives their panics.
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Request(q, b)) => match q.service_id() {
				PANIC if own => return,
				PANIC => panic!("{}", crate::hub::PLANNED),
				LEAVE if b.bytes().len() % 2 == 0 => return,
				_ => {
					stat(&w, "served");
					let _ = q.send_response(q.service_id(), b).await;
				},
			},
			Ok(_) => (),
			Err(e) if e.is_connection_aborted() => return,
			// What a broken client sends is its own problem.
			Err(_) => stat(&w, "client_errors"),
		}
	}
}

async fn client<N: Net>(case: Case, w: W, path: PathBuf, ops: Rc<Vec<Op>>, rounds: i64, first: usize) {
	for k in 0..rounds as usize {
		let o = &ops[(first + k) % ops.len()];
		w.borrow_mut().round += 1;
		let n = o.arg(0).clamp(0, 2000) as usize;
		let data = vec![n as u8; n];
		match o.name.as_str() {
			"visit" => {
				let h = match N::connect(&case, path.clone()).await {
					Ok((h, _)) => h,
					Err(e) => return worn(&w, "connecting", e),
				};
				for _ in 0..o.arg(1).clamp(0, 4) {
					let q = h.send_request(ECHO, N::B::make(data.clone(), vec![])).await;
					let Ok(mut q) = q else { return worn(&w, "a request to the server", q.err()) };
					verify(&w, "a call to the server", ECHO, &data, q.recv_response().await);
				}
				if o.arg(2) % 2 == 0 {
					h.close();
				}
			},
			// Leaves while its request runs, or makes the handler fail.
			"rude" => {
				let Ok((h, _)) = N::connect(&case, path.clone()).await else { continue };
				let svc = if o.arg(1) % 2 == 0 { PANIC } else { LEAVE };
				if let Ok(mut q) = h.send_request(svc, N::B::make(data, vec![])).await {
					if o.arg(2) % 2 == 0 {
						let _ = q.recv_response().await;
					}
				}
			},
			"cancel" => {
				let _ = guard(N::connect(&case, path.clone()), o.arg(0).clamp(1, 4), || ()).await;
			},
			"raw" => {
				let Ok(s) = N::raw(path.clone()).await else { continue };
				let r = RawStream(Owned::new(s));
				let mut b = body(o.arg(1) as i32, n);
				match o.arg(1) % 4 {
					0 => b = encode(End::from_cfg(case.get("endian")).0, !N::SEQ, REQUEST, 7, ECHO, &b[..n.min(200)]),
					1 => b.truncate(10),
					2 => (0..b.len().min(4)).for_each(|i| b[i] = 0xff),
					_ => b.clear(),
				}
				if !b.is_empty() {
					if N::SEQ {
						let _ = r.send(&b, &[]).await;
					} else {
						let _ = guard(r.write_all(&b), -1_000_000, || ()).await;
					}
				}
				match o.arg(2) % 3 {
					0 => net::apply(r.id(), Action::Reset),
					1 => {
						net::shutdown_write(r.id());
						exec::sleep(100_000).await;
					},
					_ => exec::sleep(o.arg(2).clamp(1, 100_000) as u64).await,
				}
			},
			"infoerr" => {
				let Ok(s) = N::raw(path.clone()).await else { continue };
				let r = RawStream(Owned::new(s));
				net::set_info_err(net::sock_info(s).peer, 107);
				exec::sleep(10_000).await;
				drop(r);
			},
			"wait" => exec::sleep(o.arg(0).max(1) as u64).await,
			_ => (),
		}
		if w.borrow().viol.len() > 0 {
			return;
		}
	}
}

async fn serve<N: Net>(case: Case, w: W) {
	let path = scratch().join("soak.sock");
	let _ = std::fs::remove_file(&path);
	w.borrow_mut().start = mark();
	let (c2, p2, w2) = (case.clone(), path.clone(), w.clone());
	let api = case.get("api");
	let server = exec::spawn("server", 1, async move {
		let mut l = match N::bind(&c2, p2).await {
			Ok(l) => l,
			Err(e) => return worn(&w2, "bind", e),
		};
		if api == 0 {
			let w3 = w2.clone();
			let r = l.run(move |peer, _| AssertSend(handler::<N>(w3.clone(), peer, false))).await;
			return worn(&w2, "the listener stopped", r);
		}
		let mut k = 0;
		loop {
			k += 1;
			let c = if api == 2 && mix(k) % 2 == 0 { 1 } else { 0 };
			let r = match guard(l.accept(), c, || ()).await {
				None => l.accept().await,
				Some(r) => r,
			};
			if let Ok((peer, _)) = r {
				// Not counted: it stays as long as its client.
				exec::spawn("handler", 1, handler::<N>(w2.clone(), peer, true));
			}
		}
	});
	exec::idle().await;
	let rounds = case.get("rounds").clamp(1, 3000);
	let scripts: Vec<Rc<Vec<Op>>> = case.actors.values().filter(|v| !v.is_empty()).map(|v| Rc::new(v.clone())).collect();
	// Clients that came before all others, and stay.
	for _ in 0..case.get("held") {
		match N::connect(&case, path.clone()).await {
			Ok((h, _)) => {
				if let Ok(mut q) = h.send_request(ECHO, N::B::make(vec![], vec![])).await {
					verify(&w, "a call to the server", ECHO, b"", q.recv_response().await);
				}
				w.borrow_mut().attic.push(Box::new(h));
			},
			Err(e) => return worn(&w, "connecting", e),
		}
	}
	let ok = phases(&w, || {
		for (i, s) in scripts.iter().enumerate() {
			spawn(&w, "client", 10, client::<N>(case.clone(), w.clone(), path.clone(), s.clone(), rounds, i));
		}
	})
	.await;
	let attic = std::mem::take(&mut w.borrow_mut().attic);
	drop(attic);
	exec::idle().await;
	exec::abort_task(server);
	exec::idle().await;
	let _ = std::fs::remove_file(&path);
	if ok {
		let _g = mem::pause();
		w.borrow_mut().end = Some(mark());
	}
}


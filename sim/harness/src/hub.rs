//! Scenario "hub": one real listener with many clients, good and bad.

use crate::case::{Case, Outcome, Violation};
use crate::duo::fizyr_sim_hook;
use crate::util::*;
use crate::world::{guard, stream_config, unix_config};
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::exec;
use simcore::net::{self, Action, Addr, Kind, Owned, RawStream, SockId};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

const TCP_ADDR: &str = "127.0.0.1:4000";
const ECHO: i32 = 1;
const SLOW: i32 = 2;
const PANIC: i32 = 3;
const HANG: i32 = 4;
const LEAVE: i32 = 5;
const SPIN: i32 = 6;
/// Marks the requests of clients.
const MAGIC: u64 = 0x9e37_79b9_7f4a_0000;
pub const PLANNED: &str = "planned panic of a handler";

/// Handlers run on the simulator's only thread.
pub struct AssertSend<F>(pub F);
unsafe impl<F> Send for AssertSend<F> {}
impl<F: Future> Future for AssertSend<F> {
	type Output = F::Output;
	fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
		// SAFETY: structural pinning of the only field.
		unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
	}
}

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

pub trait Net: 'static {
	type B: TB;
	type Info: Clone + 'static;
	type Sock: ListeningSocket<Body = Self::B, TransportInfo = Self::Info>;
	fn bind(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Sock>>>;
	/// A listener that reaches its socket through pointers.
	type Far: ListeningSocket<Body = Self::B, TransportInfo = Self::Info>;
	fn bind_far(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Far>>>;
	fn connect(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<(PeerHandle<Self::B>, Self::Info)>>;
	fn raw(path: PathBuf) -> BoxFut<std::io::Result<SockId>>;
	/// What identifies the remote end, and whether the local end is what it should be.
	fn remote(info: &Self::Info) -> i64;
	fn local(info: &Self::Info) -> Option<i64>;
	const SEQ: bool;
	const TCP: bool;
}

pub struct Tcp;
impl Net for Tcp {
	type B = StreamBody;
	type Info = transport::TcpStreamInfo;
	type Sock = tokio::net::TcpListener;
	const SEQ: bool = false;
	const TCP: bool = true;
	type Far = Pin<Box<Box<tokio::net::TcpListener>>>;
	fn bind_far(case: &Case, _: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Far>>> {
		let cfg = stream_config(case, 0);
		Box::pin(async move { Ok(Listener::new(Box::pin(Box::new(tokio::net::TcpListener::bind(TCP_ADDR).await?)), cfg)) })
	}
	fn bind(case: &Case, _: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Sock>>> {
		let cfg = stream_config(case, 0);
		if case.get("bindnew") == 1 {
			Box::pin(async move { Ok(Listener::new(tokio::net::TcpListener::bind(TCP_ADDR).await?, cfg)) })
		} else {
			Box::pin(TcpListener::bind(TCP_ADDR, cfg))
		}
	}
	fn connect(case: &Case, _: PathBuf) -> BoxFut<std::io::Result<(PeerHandle<Self::B>, Self::Info)>> {
		Box::pin(TcpPeer::connect(TCP_ADDR, stream_config(case, 1)))
	}
	fn raw(_: PathBuf) -> BoxFut<std::io::Result<SockId>> {
		Box::pin(net::connect_inet(TCP_ADDR.parse().unwrap()))
	}
	fn remote(info: &Self::Info) -> i64 {
		info.remote_address().port() as i64
	}
	fn local(info: &Self::Info) -> Option<i64> {
		Some(info.local_address().port() as i64)
	}
}

pub struct Uds;
impl Net for Uds {
	type B = StreamBody;
	type Info = transport::UnixStreamInfo;
	type Sock = tokio::net::UnixListener;
	const SEQ: bool = false;
	const TCP: bool = false;
	type Far = Pin<Box<Box<tokio::net::UnixListener>>>;
	fn bind_far(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Far>>> {
		let cfg = stream_config(case, 0);
		Box::pin(async move { Ok(Listener::new(Box::pin(Box::new(tokio::net::UnixListener::bind(path)?)), cfg)) })
	}
	fn bind(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Sock>>> {
		let cfg = stream_config(case, 0);
		if case.get("bindnew") == 1 {
			Box::pin(async move { Ok(Listener::new(tokio::net::UnixListener::bind(path)?, cfg)) })
		} else {
			Box::pin(UnixStreamListener::bind(path, cfg))
		}
	}
	fn connect(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<(PeerHandle<Self::B>, Self::Info)>> {
		Box::pin(UnixStreamPeer::connect(path, stream_config(case, 1)))
	}
	fn raw(path: PathBuf) -> BoxFut<std::io::Result<SockId>> {
		Box::pin(async move { net::connect_path(Kind::Unix, &path).await })
	}
	fn remote(info: &Self::Info) -> i64 {
		cred(info.user_id(), info.group_id(), info.process_id())
	}
	fn local(_: &Self::Info) -> Option<i64> {
		None
	}
}

pub struct Seq;
impl Net for Seq {
	type B = UnixBody;
	type Info = transport::UnixSeqpacketInfo;
	type Sock = tokio_seqpacket::UnixSeqpacketListener;
	const SEQ: bool = true;
	const TCP: bool = false;
	type Far = Pin<Box<Box<tokio_seqpacket::UnixSeqpacketListener>>>;
	fn bind_far(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Far>>> {
		let cfg = unix_config(case, 0);
		Box::pin(async move { Ok(Listener::new(Box::pin(Box::new(tokio_seqpacket::UnixSeqpacketListener::bind(path)?)), cfg)) })
	}
	fn bind(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<Listener<Self::Sock>>> {
		let cfg = unix_config(case, 0);
		if case.get("bindnew") == 1 {
			Box::pin(async move { Ok(Listener::new(tokio_seqpacket::UnixSeqpacketListener::bind(path)?, cfg)) })
		} else {
			Box::pin(UnixSeqpacketListener::bind(path, cfg))
		}
	}
	fn connect(case: &Case, path: PathBuf) -> BoxFut<std::io::Result<(PeerHandle<Self::B>, Self::Info)>> {
		Box::pin(UnixSeqpacketPeer::connect(path, unix_config(case, 1)))
	}
	fn raw(path: PathBuf) -> BoxFut<std::io::Result<SockId>> {
		Box::pin(async move { net::connect_path(Kind::Seq, &path).await })
	}
	fn remote(info: &Self::Info) -> i64 {
		cred(info.user_id(), info.group_id(), info.process_id())
	}
	fn local(_: &Self::Info) -> Option<i64> {
		None
	}
}

/// The simulated credentials identify the node (uid 1000+n, gid 2000+n, pid 3000+n).
fn cred(uid: u32, gid: u32, pid: Option<i32>) -> i64 {
	let n = uid as i64 - 1000;
	if gid as i64 != 2000 + n || pid.map(|p| p as i64) != Some(3000 + n) {
		return -1;
	}
	n
}

#[derive(Clone, Debug, Default)]
struct Handler {
	remote: i64,
	local: Option<i64>,
	clients: Vec<u64>,
	calls: u64,
	done: bool,
	planned: Option<i32>,
}

#[derive(Clone, Debug, Default)]
struct Client {
	/// What the server should know it as.
	id: Option<i64>,
	raw: bool,
	sock: Option<SockId>,
	/// It may have been gone, or unidentifiable, when the server accepted it.
	optional: bool,
	/// It made the server's handler fail or stay.
	planned: bool,
	/// It is finished with the connection (closed, reset, or sent garbage).
	left: bool,
	answers: u64,
	doing: String,
	done: bool,
}

#[derive(Default)]
struct St {
	viol: Vec<Violation>,
	handlers: Vec<Handler>,
	clients: BTreeMap<u64, Client>,
	run: Option<String>,
	stats: BTreeMap<&'static str, u64>,
	sig: u64,
	delivered: u64,
	/// Errors of the listening socket itself.
	listener_failed: bool,
	/// What they were.
	fatal: Vec<i32>,
	/// What `run` gave back in the end.
	end: Option<Option<i32>>,
	/// The server does not read bodies longer than this.
	limit: usize,
	/// Handles of clients that stay connected.
	attic: Vec<Box<dyn std::any::Any>>,
}

type W = Rc<RefCell<St>>;

fn viol(w: &W, rule: &'static str, props: &[&'static str], detail: String) {
	exec::trace(|| format!("VIOLATION {rule}: {detail}"));
	w.borrow_mut().viol.push(Violation { rule, props: props.to_vec(), detail });
}

fn stat(w: &W, k: &'static str) {
	*w.borrow_mut().stats.entry(k).or_default() += 1;
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	match case.get("kind") {
		0 => go::<Tcp>(case, record, trace),
		1 => go::<Uds>(case, record, trace),
		_ => go::<Seq>(case, record, trace),
	}
}

/// A directory of this process, for socket files.
pub fn scratch() -> PathBuf {
	let d = match std::env::var_os("SIM_SCRATCH") {
		Some(d) => PathBuf::from(d),
		None => std::env::temp_dir().join(format!("fizyr-sim-{}", std::process::id())),
	};
	std::fs::create_dir_all(&d).unwrap();
	d
}

fn go<N: Net>(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	let w: W = Rc::default();
	w.borrow_mut().limit = case.get_or("limit", i64::MAX) as usize;
	let path = scratch().join("hub.sock");
	let _ = std::fs::remove_file(&path);
	let finished = Rc::new(Cell::new(false));
	let f2 = finished.clone();
	let w2 = w.clone();
	let c2 = case.clone();
	let p2 = path.clone();
	exec::spawn("control", 0, async move {
		control::<N>(c2, w2, p2).await;
		f2.set(true);
	});
	let report = exec::run();
	let mut out = Outcome::default();
	let mut bad = false;
	for p in &report.panics {
		if p.message.contains(PLANNED) {
			stat(&w, "planned_panics");
			continue;
		}
		bad = true;
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			viol(&w, "panic", ALL, format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			viol(&w, "harness", &[], format!("harness panic in {}: {} at {}", p.task, p.message, p.location));
		}
	}
	if report.step_limit {
		viol(&w, "no_progress", &["C16", "C17"], format!("still busy after {} scheduling steps, without any progress", report.steps));
	} else if !bad && !finished.get() {
		viol(&w, "harness", &[], "the script did not finish".into());
	} else if !bad {
		finish::<N>(&w);
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let st = w.borrow();
		for (k, v) in &st.stats {
			*out.stats.entry(format!("hub.{k}")).or_default() += v;
		}
		let mut sig = st.sig;
		for h in &st.handlers {
			sig = mix(sig ^ h.calls ^ (h.done as u64) << 20 ^ h.clients.first().copied().unwrap_or(99) << 24);
		}
		out.sig = sig;
		out.trivial = st.delivered == 0;
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	exec::teardown();
	let _ = std::fs::remove_file(&path);
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		viol(&w, "fd_leak", &["C14"], format!("{} file descriptors are still open after everything was dropped", fds1 - fds0));
	}
	out.violations = std::mem::take(&mut w.borrow_mut().viol);
	out.report = report;
	out
}

async fn control<N: Net>(case: Case, w: W, path: PathBuf) {
	let (w2, c2, p2) = (w.clone(), case.clone(), path.clone());
	let ready = Rc::new(Cell::new(false));
	let r2 = ready.clone();
	let server = exec::spawn("server", 1, async move {
		let far = c2.get("bindnew") == 2;
		let (near, far) = if far {
			(None, Some(N::bind_far(&c2, p2).await))
		} else {
			(Some(N::bind(&c2, p2).await), None)
		};
		let (near, far) = match (near.transpose(), far.transpose()) {
			(Ok(a), Ok(b)) => (a, b),
			(Err(e), _) | (_, Err(e)) => return viol(&w2, "bind_failed", &["C17", "C18"], format!("bind: {e}")),
		};
		r2.set(true);
		let d = c2.get("acceptdelay");
		if d > 0 {
			exec::sleep(d as u64).await;
		}
		if let Some(mut l) = near {
			serve::<N, _>(&c2, &w2, &mut l).await
		} else if let Some(mut l) = far {
			serve::<N, _>(&c2, &w2, &mut l).await
		}
	});
	exec::idle().await;
	if !ready.get() && case.get("acceptdelay") == 0 {
		// Binding needs no time; a violation was reported.
		return;
	}
	let mut tasks = BTreeMap::new();
	for (name, ops) in &case.actors {
		let Some(i) = name.strip_prefix('c').and_then(|x| x.parse::<u64>().ok()) else { continue };
		let (w, case, path, ops) = (w.clone(), case.clone(), path.clone(), ops.clone());
		let task = exec::spawn(name.clone(), 10 + i as u32, async move {
			w.borrow_mut().clients.insert(i, Client::default());
			client::<N>(&case, &w, path, i, &ops).await;
			w.borrow_mut().clients.get_mut(&i).unwrap().done = true;
		});
		tasks.insert(i, task);
	}
	exec::idle().await;
	let running = !exec::task_done(server);
	let st = w.borrow();
	let failed = st.listener_failed;
	let run = st.run.clone().unwrap_or_default();
	drop(st);
	if !running && !failed {
		viol(&w, "listener_stopped", &["C17"], format!("the listener stopped although its socket works: {}", run));
	}
	if failed {
		let (end, fatal) = (w.borrow().end, w.borrow().fatal.clone());
		match end {
			None => viol(&w, "listener_error_hidden", &["C17"], format!("accepting failed with {fatal:?}, but the listener goes on as if nothing was wrong")),
			Some(e) if e.is_some_and(|e| fatal.contains(&e)) => (),
			Some(e) => viol(&w, "listener_error_hidden", &["C17"], format!("accepting failed with {fatal:?}, but the listener stopped with {e:?} ({})", run)),
		}
	}
	{
		let clients = w.borrow().clients.clone();
		for (i, c) in clients {
			let Some(t) = tasks.get(&i) else { continue };
			if !exec::task_done(*t) && (!failed || accepted(&w, i)) {
				viol(&w, "client_not_served", &["C17"], format!("client {i} waits forever: {}", c.doing));
			}
		}
	}
	// The run ends with whatever is still there.
	for t in tasks.into_values() {
		exec::abort_task(t);
	}
	exec::abort_task(server);
	let attic = std::mem::take(&mut w.borrow_mut().attic);
	drop(attic);
	exec::idle().await;
}

async fn serve<N: Net, S>(case: &Case, w: &W, l: &mut Listener<S>)
where
	S: ListeningSocket<Body = N::B, TransportInfo = N::Info>,
{
	let end = match case.get("api") {
		0 => {
			let w2 = w.clone();
			l.run(move |peer, info| AssertSend(handler::<N>(w2.clone(), peer, info))).await
		},
		api => {
			let mut k = 0u64;
			loop {
				k += 1;
				let cancel = if api == 2 {
					match mix(case.sched ^ k) % 4 {
						0 => 1,
						1 => 2,
						2 => -(1 + (mix(k) % 60_000) as i64),
						_ => 0,
					}
				} else {
					0
				};
				// Do not spin for ever on an idle listener.
				let cancel = if k > 300 { 0 } else { cancel };
				match guard(l.accept(), cancel, || ()).await {
					None => stat(w, "accept_cancelled"),
					Some(Ok((peer, info))) => {
						let f = handler::<N>(w.clone(), peer, info);
						exec::spawn("handler", 1, f);
					},
					// Such an error may concern only one connection.
					Some(Err(_)) => stat(w, "accept_errors"),
				}
				exec::yield_now().await;
			}
		},
	};
	let mut st = w.borrow_mut();
	st.run = Some(format!("{end:?}"));
	st.end = Some(end.err().and_then(|e| e.raw_os_error()));
}

async fn handler<N: Net>(w: W, mut peer: PeerHandle<N::B>, info: N::Info) {
	let me = {
		let mut st = w.borrow_mut();
		st.handlers.push(Handler { remote: N::remote(&info), local: N::local(&info), ..Default::default() });
		st.handlers.len() - 1
	};
	exec::trace(|| format!("handler {me} for remote {}", N::remote(&info)));
	let mut errors = 0;
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Request(req, body)) => {
				let b = body.bytes().to_vec();
				let limit = w.borrow().limit;
				if b.len() > limit {
					viol(&w, "over_limit_received", &["C13"], format!("a server that accepts {limit} bytes got a body of {}", b.len()));
				}
				{
					let mut st = w.borrow_mut();
					st.delivered += 1;
					if b.len() >= 8 {
						let c = u64::from_le_bytes(b[..8].try_into().unwrap());
						// Garbage that happens to be a request has no such mark.
						if c & !0xffff == MAGIC {
							st.handlers[me].clients.push(c & 0xffff);
						}
					}
					st.handlers[me].calls += 1;
				}
				let reply: Vec<u8> = b.iter().map(|x| x ^ 0x5a).collect();
				match req.service_id() {
					ECHO => drop(req.send_response(ECHO, N::B::make(reply, vec![])).await),
					SLOW => {
						exec::sleep(3_000_000).await;
						let _ = req.send_update(SLOW, N::B::make(vec![], vec![])).await;
						let _ = req.send_response(SLOW, N::B::make(reply, vec![])).await;
					},
					PANIC => {
						w.borrow_mut().handlers[me].planned = Some(PANIC);
						panic!("{PLANNED}");
					},
					HANG => {
						w.borrow_mut().handlers[me].planned = Some(HANG);
						std::future::pending::<()>().await;
					},
					LEAVE => {
						w.borrow_mut().handlers[me].planned = Some(LEAVE);
						break;
					},
					SPIN => {
						// Busy for long, but giving way to others.
						for _ in 0..40 {
							exec::yield_now().await;
						}
						let _ = req.send_response(SPIN, N::B::make(reply, vec![])).await;
					},
					_ => drop(req.send_error_response("no such service").await),
				}
			},
			Ok(ReceivedMessage::Stream(_)) => (),
			Err(e) => {
				errors += 1;
				if e.is_connection_aborted() || errors > 200 {
					break;
				}
			},
		}
	}
	w.borrow_mut().handlers[me].done = true;
}

fn set<R>(w: &W, i: u64, f: impl FnOnce(&mut Client) -> R) -> R {
	f(w.borrow_mut().clients.get_mut(&i).unwrap())
}

async fn client<N: Net>(case: &Case, w: &W, path: PathBuf, i: u64, ops: &[crate::case::Op]) {
	let mut good: Option<PeerHandle<N::B>> = None;
	let mut raw: Option<RawStream> = None;
	let mut seq = 0u64;
	for op in ops {
		set(w, i, |c| c.doing = format!("{} {:?}", op.name, op.args));
		match op.name.as_str() {
			"wait" => exec::sleep(op.arg(0).max(1) as u64).await,
			"conn" => match N::connect(case, path.clone()).await {
				Ok((h, info)) => {
					// The credentials of the server, or its address.
					let server = N::remote(&info);
					let want = if N::TCP { 4000 } else { 1 };
					if server != want {
						viol(w, "wrong_info", &["C17"], format!("client {i} is told that the server is {server}, expected {want}"));
					}
					let id = N::local(&info).unwrap_or(10 + i as i64);
					set(w, i, |c| c.id = Some(id));
					good = Some(h);
				},
				Err(e) => {
					if w.borrow().run.is_none() {
						viol(w, "connect_failed", &["C17"], format!("client {i} can not connect although the listener runs: {e}"));
					}
					return;
				},
			},
			"call" | "calls" => {
				let Some(h) = &good else { continue };
				let svc = op.arg(0) as i32;
				let n = if op.name == "calls" { op.arg(2).clamp(1, 6) } else { 1 };
				let mut waiting = Vec::new();
				for _ in 0..n {
					seq += 1;
					let len = (op.arg(1).max(16)) as usize;
					let mut b = (MAGIC | i).to_le_bytes().to_vec();
					b.extend(seq.to_le_bytes());
					b.extend(body((seq * 31 + i) as i32, len - 16));
					let want: Vec<u8> = b.iter().map(|x| x ^ 0x5a).collect();
					match h.send_request(svc, N::B::make(b, vec![])).await {
						Ok(q) => waiting.push((q, want)),
						Err(e) => return lost::<N>(w, i, &format!("send_request: {e}")),
					}
				}
				for (mut q, want) in waiting {
					if svc == SLOW {
						while q.recv_update().await.is_some() {}
					}
					match q.recv_response().await {
						Ok(r) => {
							if r.body.bytes() != want {
								viol(w, "wrong_answer", &["C17", "C03"], format!("client {i} got an answer that is not for its request {seq}"));
								return;
							}
							set(w, i, |c| c.answers += 1);
							stat(w, "answers");
						},
						Err(e) => return lost::<N>(w, i, &format!("recv_response: {e}")),
					}
				}
			},
			// Send more than the server takes.
			"over" => {
				let Some(h) = &good else { continue };
				let len = op.arg(0) as usize;
				let may = case.get(&crate::world::key(1, "maxw")) as usize;
				let mut b = (MAGIC | i).to_le_bytes().to_vec();
				b.resize(len, 0);
				match h.send_request(ECHO, N::B::make(b, vec![])).await {
					Ok(mut q) => {
						if len > may {
							viol(w, "over_limit_sent", &["C13"], format!("client {i} may send {may} bytes but sent {len}"));
							return;
						}
						if let Some(Ok(_)) = guard(q.recv_response(), -1_000_000, || ()).await {
							viol(w, "over_limit_received", &["C13"], format!("the server answered a request of {len} bytes, its limit is {}", case.get("limit")));
							return;
						}
						stat(w, "over_limit_sent");
						set(w, i, |c| c.left = true);
						return;
					},
					// The connection remains usable.
					Err(e) if len > may => {
						if e.is_connection_aborted() {
							return lost::<N>(w, i, &format!("send_request: {e}"));
						}
						stat(w, "over_limit_refused");
					},
					// The server may hang up before it has got all of it.
					Err(_) => {
						set(w, i, |c| c.left = true);
						return;
					},
				}
			},
			// Make the handler of this client panic, hang or return.
			"kill" => {
				let Some(h) = &good else { continue };
				let svc = op.arg(0) as i32;
				set(w, i, |c| c.planned = true);
				let mut b = (MAGIC | i).to_le_bytes().to_vec();
				b.extend([0; 8]);
				stat(w, "handlers_killed");
				if let Ok(mut q) = h.send_request(svc, N::B::make(b, vec![])).await {
					if svc != HANG {
						if let Ok(_) = q.recv_response().await {
							viol(w, "wrong_answer", &["C17", "C03"], format!("client {i} got an answer from a handler that is gone"));
						}
					}
				}
				set(w, i, |c| c.left = true);
				return;
			},
			"drop" => {
				good = None;
				set(w, i, |c| c.left = true);
			},
			// ---------------------------------------------------- raw clients
			"rconn" => match N::raw(path.clone()).await {
				Ok(s) => {
					stat(w, "raw_clients");
					let id = match net::sock_info(s).local {
						Addr::Inet(a) => a.port() as i64,
						_ => 10 + i as i64,
					};
					set(w, i, |c| {
						c.raw = true;
						c.id = Some(id);
						c.sock = Some(s);
					});
					raw = Some(RawStream(Owned::new(s)));
				},
				Err(_) => return,
			},
			"infoerr" => {
				if let Some(r) = &raw {
					set(w, i, |c| c.optional = true);
					net::set_info_err(net::sock_info(r.id()).peer, op.arg(0) as i32);
					stat(w, "info_errors");
				}
			},
			"accepterr" => {
				net::inject_accept_error(0, op.arg(0) as i32);
				if op.arg(0) != 103 {
					stat(w, "listener_errors");
					let mut st = w.borrow_mut();
					st.fatal.push(op.arg(0) as i32);
					// An application with a loop of its own goes on.
					st.listener_failed = case.get("api") == 0;
				}
			},
			"garbage" => {
				let Some(r) = &raw else { continue };
				let n = op.arg(0).clamp(1, 3000) as usize;
				let mut b = body(op.arg(1) as i32, n);
				if op.arg(1) % 3 == 0 {
					// A frame that is over every limit.
					for x in b.iter_mut().take(4) {
						*x = 0xff;
					}
				}
				if n >= 16 && !N::SEQ {
					set(w, i, |c| c.left = c.left || op.arg(1) % 3 == 0);
				}
				if N::SEQ {
					let _ = r.send(&b, &[]).await;
				} else {
					let _ = r.write_all(&b).await;
				}
				stat(w, "garbage");
			},
			"eof" => {
				if let Some(r) = &raw {
					net::shutdown_write(r.id());
					set(w, i, |c| c.left = true);
				}
			},
			"rst" => {
				if let Some(r) = &raw {
					net::apply(r.id(), Action::Reset);
					set(w, i, |c| {
						c.left = true;
						c.optional = true;
					});
					stat(w, "resets");
				}
			},
			"rclose" => {
				if raw.take().is_some() {
					set(w, i, |c| c.left = true);
				}
			},
			// Send requests and never read the answers.
			"flood" => {
				let Some(r) = &raw else { continue };
				for k in 0..op.arg(0).clamp(1, 40) {
					let mut b = (MAGIC | i).to_le_bytes().to_vec();
					b.extend([0; 300]);
					let f = encode(End::from_cfg(case.get("endian")).0, !N::SEQ, REQUEST, k as u32, ECHO, &b);
					// Stops when the server stops reading.
					let r = if N::SEQ {
						guard(r.send(&f, &[]), -2_000_000, || ()).await.map(|x| x.is_ok())
					} else {
						guard(r.write_all(&f), -2_000_000, || ()).await.map(|x| x.is_ok())
					};
					if r != Some(true) {
						break;
					}
				}
				stat(w, "floods");
			},
			_ => panic!("harness: unknown operation {}", op.name),
		}
		set(w, i, |c| c.doing = "nothing".into());
	}
	if case.get("stay") == 1 {
		w.borrow_mut().attic.push(Box::new(good));
	}
	// A raw client that is not told to leave stays connected, doing nothing.
	if let Some(r) = raw {
		if !set(w, i, |c| c.left) {
			std::mem::forget(r);
		}
	}
}

/// The server has a handler for this client.
fn accepted(w: &W, i: u64) -> bool {
	let st = w.borrow();
	st.clients.get(&i).and_then(|c| c.id).is_some_and(|id| st.handlers.iter().any(|h| h.remote == id))
}

fn lost<N: Net>(w: &W, i: u64, what: &str) {
	if w.borrow().run.is_none() || accepted(w, i) {
		viol(w, "client_lost", &["C17", "C13"], format!("client {i} lost its connection although it did nothing wrong: {what}"));
	}
}

fn finish<N: Net>(w: &W) {
	let (handlers, clients, failed) = {
		let st = w.borrow();
		(st.handlers.clone(), st.clients.clone(), st.listener_failed)
	};
	let known: BTreeMap<i64, u64> = clients.iter().filter_map(|(i, c)| Some((c.id?, *i))).collect();
	for (n, h) in handlers.iter().enumerate() {
		let who = known.get(&h.remote);
		if who.is_none() {
			viol(w, "wrong_info", &["C17"], format!("handler {n} is told about a client {} that does not exist", h.remote));
			return;
		}
		if h.local.is_some_and(|p| p != 4000) {
			viol(w, "wrong_info", &["C17"], format!("handler {n} is told that it listens on {:?}", h.local));
			return;
		}
		if let Some(c) = h.clients.iter().find(|c| Some(*c) != who) {
			viol(w, "mixed_clients", &["C17"], format!("handler {n} of client {:?} got a request of client {c}", who));
			return;
		}
	}
	if failed {
		return;
	}
	for (i, c) in &clients {
		let Some(id) = c.id else { continue };
		let mine: Vec<&Handler> = handlers.iter().filter(|h| h.remote == id).collect();
		if mine.len() > 1 || (mine.is_empty() && !c.optional) {
			viol(w, "handler_count", &["C17"], format!("client {i} got {} handlers, expected one", mine.len()));
			return;
		}
	}
}

//! Scenario "raw": one real peer (A) and a remote that is driven byte by byte.
//!
//! A script runs in lock-step: after each operation the simulation runs until
//! nothing can happen any more, so an exact reference model of the peer can say
//! what every call must return and what must be on the wire.

use crate::case::{Case, Outcome, Violation};
use crate::duo::{fizyr_sim_hook, kind_of};
use crate::util::*;
use crate::world::*;
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::exec;
use simcore::net::{self, Action, Owned, RawStream, SockId};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::os::fd::AsRawFd;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::task::Poll;

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	if case.get("kind") == 2 {
		go::<UnixBody>(case, record, trace)
	} else {
		go::<StreamBody>(case, record, trace)
	}
}

/// What the next receive of the peer handle must give.
#[derive(Clone, Debug)]
enum Exp {
	Msg(Msg, usize),
	/// An error that is not connection-aborted; `optional` if the specification leaves it open.
	Err { optional: bool, why: &'static str },
	/// Any error at all.
	AnyErr,
}

#[derive(Clone, Debug)]
enum WireExp {
	Msg(Msg),
	/// An automatic error response to this request.
	Auto(u32),
}

struct Sent<B> {
	id: u32,
	svc: i32,
	full: Option<SentRequestHandle<B>>,
	writes: Vec<SentRequestWriteHandle<B>>,
	q: VecDeque<Msg>,
	/// No response received by the peer yet.
	open: bool,
	/// The response was taken by the application.
	consumed: bool,
	/// All handles were dropped before the response.
	abandoned: bool,
	/// An update arrived after that, so the peer may have forgotten the request.
	forgotten: bool,
	/// The handle is being drained by a task.
	drained: bool,
}

struct Recvd<B> {
	id: u32,
	svc: i32,
	full: Option<ReceivedRequestHandle<B>>,
	writes: Vec<ReceivedRequestWriteHandle<B>>,
	/// Still in the queue of the peer handle.
	queued: bool,
	q: VecDeque<Msg>,
	open: bool,
	/// All handles were dropped without a response.
	zombie: bool,
	/// The handle is being drained by a task.
	drained: bool,
}

/// What is waiting to be sent by the remote.
enum Out {
	Good(Msg, Vec<filedesc::FileDesc>),
	Bad(&'static str),
}

struct Item {
	bytes: Vec<u8>,
	done: usize,
	/// Sent as far as this, the item has its effect.
	effective: usize,
	what: Option<Out>,
	fds: Vec<filedesc::FileDesc>,
}

struct M<B: Sys> {
	case: Case,
	viol: Vec<Violation>,
	seq: bool,
	end: End,
	sock: [SockId; 2],
	reader: Option<PeerReadHandle<B>>,
	writers: Vec<PeerWriteHandle<B>>,
	close: Option<PeerCloseHandle<B>>,
	sent: BTreeMap<i64, Sent<B>>,
	recvd: Vec<Recvd<B>>,
	incoming: VecDeque<Exp>,
	wire: Vec<WireExp>,
	out: VecDeque<Item>,
	ended: bool,
	/// The model does not know whether the connection is still up (datagrams).
	msgs: usize,
	delivered: u64,
	stats: BTreeMap<&'static str, u64>,
	sig: u64,
	announced: u64,
	bad_sent: bool,
	/// Bytes sent by A may not be complete (the connection failed during a write).
	cut: bool,
	stop: bool,
	reader_dropped: bool,
	drained: bool,
	/// Errors taken for optional ones since the last message.
	opt_used: u32,
	/// The number of frames before the remote stopped reading.
	wire_fixed: Option<usize>,
}

fn log_sig<B: Sys>(m: &mut M<B>, x: u64) {
	m.sig = mix(m.sig ^ x);
}

type W<B> = Rc<RefCell<M<B>>>;

fn go<B: Sys>(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	crate::MAX_ALLOC.store(0, Ordering::Relaxed);
	let (a, b) = net::pair(kind_of(case));
	net::set_node(a, 1);
	net::set_node(b, 2);
	let m: W<B> = Rc::new(RefCell::new(M {
		case: case.clone(),
		viol: Vec::new(),
		seq: case.get("kind") == 2,
		end: End::from_cfg(case.get("endian")).0,
		sock: [a, b],
		reader: None,
		writers: Vec::new(),
		close: None,
		sent: BTreeMap::new(),
		recvd: Vec::new(),
		incoming: VecDeque::new(),
		wire: Vec::new(),
		out: VecDeque::new(),
		ended: false,
		msgs: 0,
		delivered: 0,
		stats: BTreeMap::new(),
		sig: 0,
		announced: u64::MAX,
		bad_sent: false,
		cut: false,
		stop: false,
		reader_dropped: false,
		drained: false,
		opt_used: 0,
		wire_fixed: None,
	}));
	let finished = Rc::new(Cell::new(false));
	let (m2, f2) = (m.clone(), finished.clone());
	exec::spawn("control", 0, async move {
		control(m2).await;
		f2.set(true);
	});
	let report = exec::run();
	let mut out = Outcome::default();
	let panicked = !report.panics.is_empty();
	for p in &report.panics {
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			viol(&m, "panic", ALL, format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			viol(&m, "harness", &[], format!("harness panic in {}: {} at {}", p.task, p.message, p.location));
		}
	}
	if report.step_limit {
		viol(&m, "no_progress", &["C16", "C07", "C11"], format!("still busy after {} scheduling steps, without any progress", report.steps));
	} else if !finished.get() && !panicked {
		viol(&m, "harness", &[], "the script did not finish".into());
	}
	let biggest = crate::MAX_ALLOC.load(Ordering::Relaxed);
	if m.borrow().announced != u64::MAX && m.borrow().announced >= 4 << 20 && biggest >= m.borrow().announced {
		viol(&m, "huge_allocation", &["C11"], format!("allocated {biggest} bytes, for a message that is over the limit"));
	}
	if !panicked && !report.step_limit {
		check_wire(&m);
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let st = m.borrow();
		for (k, v) in &st.stats {
			*out.stats.entry(format!("raw.{k}")).or_default() += v;
		}
		out.sig = st.sig;
		out.trivial = st.delivered == 0;
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	{
		let _g = exec::no_preempt();
		let mut st = m.borrow_mut();
		st.reader = None;
		st.writers.clear();
		st.close = None;
		st.sent.clear();
		st.recvd.clear();
		st.out.clear();
	}
	exec::teardown();
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		viol(&m, "fd_leak", &["C14"], format!("{} file descriptors are still open after everything was dropped", fds1 - fds0));
	}
	out.violations = std::mem::take(&mut m.borrow_mut().viol);
	out.report = report;
	out
}

fn viol<B: Sys>(m: &W<B>, rule: &'static str, props: &[&'static str], detail: String) {
	exec::trace(|| format!("VIOLATION {rule}: {detail}"));
	let mut m = m.borrow_mut();
	m.stop = true;
	m.viol.push(Violation { rule, props: props.to_vec(), detail });
}

/// Run an operation until it is done or nothing can happen any more; then settle.
async fn step<T>(fut: impl Future<Output = T>) -> Option<T> {
	let mut fut = Box::pin(fut);
	let mut idle = Box::pin(exec::idle());
	let mut res = None;
	let mut fresh = Fresh::default();
	std::future::poll_fn(|cx| {
		if res.is_none() {
			if let Poll::Ready(x) = fresh.poll(cx, |cx| fut.as_mut().poll(cx)) {
				res = Some(x);
			}
		}
		idle.as_mut().poll(cx)
	})
	.await;
	res
}

async fn settle() {
	exec::idle().await
}

impl<B: Sys> M<B> {
	fn stat(&mut self, k: &'static str) {
		*self.stats.entry(k).or_default() += 1;
	}
	fn next_tag(&mut self) -> i32 {
		self.msgs += 1;
		tag(self.msgs - 1)
	}
	fn open_s(&self, id: u32) -> Option<i64> {
		self.sent.iter().find(|(_, s)| s.id == id && s.open).map(|(k, _)| *k)
	}
	fn open_r(&self, id: u32) -> Option<usize> {
		self.recvd.iter().position(|r| r.id == id && r.open)
	}
	fn live_r(&self, n: i64) -> Option<usize> {
		// Requests the application holds something of, newest first.
		let v: Vec<usize> = (0..self.recvd.len()).filter(|i| self.recvd[*i].full.is_some() || !self.recvd[*i].writes.is_empty()).collect();
		if v.is_empty() {
			None
		} else {
			Some(v[v.len() - 1 - (n as usize % v.len())])
		}
	}
	fn listening(&self) -> bool {
		self.reader.is_some() || self.drained
	}
	fn error(&mut self, optional: bool, why: &'static str) {
		if self.listening() && !self.ended {
			self.incoming.push_back(Exp::Err { optional, why });
		}
	}
	/// The model of the peer: a message has arrived.
	fn arrive(&mut self, msg: Msg) {
		if self.ended {
			return;
		}
		log_sig(self, mix(msg.typ as u64 ^ (msg.id as u64) << 8));
		match msg.typ {
			REQUEST => {
				if self.open_r(msg.id).is_some() {
					self.stat("duplicate_request");
					self.error(false, "request with the id of an open request");
				} else if self.listening() {
					self.recvd.push(Recvd {
						id: msg.id,
						svc: msg.svc,
						full: None,
						writes: Vec::new(),
						queued: true,
						q: VecDeque::new(),
						open: true,
						zombie: false,
						drained: false,
					});
					let n = self.recvd.len() - 1;
					self.incoming.push_back(Exp::Msg(msg, n));
				} else {
					self.stat("automatic_response");
					self.wire.push(WireExp::Auto(msg.id));
				}
			},
			RESPONSE => match self.open_s(msg.id) {
				None => {
					self.stat("unknown_response");
					self.error(false, "response for a request that is not open")
				},
				Some(n) => {
					let s = self.sent.get_mut(&n).unwrap();
					s.open = false;
					let (abandoned, forgotten) = (s.abandoned, s.forgotten);
					if s.full.is_some() || s.drained {
						s.q.push_back(msg);
					}
					let _ = forgotten;
					if abandoned {
						self.error(true, "response for an abandoned request");
					}
				},
			},
			QUPDATE => match self.open_r(msg.id) {
				None => {
					self.stat("unknown_update");
					self.error(false, "update for a request that is not open")
				},
				Some(n) => {
					let r = &mut self.recvd[n];
					if r.full.is_some() || r.queued || r.drained {
						r.q.push_back(msg);
					} else if r.zombie {
						// Nothing is left of the request, so it stops being open now at the latest.
						r.open = false;
						r.zombie = false;
						self.stat("zombie_update");
						self.error(true, "update for a request the application dropped");
					} else {
						self.error(true, "update for a request nobody listens to");
					}
				},
			},
			RUPDATE => match self.open_s(msg.id) {
				None => {
					self.stat("unknown_update");
					self.error(false, "update for a request that is not open")
				},
				Some(n) => {
					let s = self.sent.get_mut(&n).unwrap();
					if (s.full.is_some() || s.drained) {
						s.q.push_back(msg);
					} else {
						if s.abandoned {
							s.forgotten = true;
						}
						self.error(true, "update for a request nobody listens to");
					}
				},
			},
			_ => {
				if self.listening() {
					self.incoming.push_back(Exp::Msg(msg, usize::MAX));
				}
			},
		}
	}
	fn end_now(&mut self) {
		self.ended = true;
	}
	fn handles_gone(&mut self) {
		if self.reader.is_none() && self.writers.is_empty() {
			self.end_now();
		}
	}
	fn check_abandoned(&mut self) {
		for s in self.sent.values_mut() {
			if s.open && !s.drained && s.full.is_none() && s.writes.is_empty() {
				s.abandoned = true;
			}
		}
		for r in self.recvd.iter_mut() {
			if r.open && !r.queued && !r.drained && r.full.is_none() && r.writes.is_empty() {
				r.zombie = true;
			}
		}
	}
}

async fn control<B: Sys>(m: W<B>) {
	let (case, sock) = {
		let st = m.borrow();
		(st.case.clone(), st.sock)
	};
	let raw = Rc::new(RawStream(Owned::new(sock[1])));
	let how = if case.get("spawn") == 1 { How::Spawn } else { How::Run };
	let (run, h) = B::peer(&case, 0, sock[0], how);
	{
		let (r, w) = h.split();
		let mut st = m.borrow_mut();
		st.close = Some(w.close_handle());
		st.reader = Some(r);
		st.writers.push(w);
	}
	// The remote reads everything, unless told otherwise.
	let hold = Rc::new(Cell::new(false));
	let seq = m.borrow().seq;
	let rd = {
		let raw = raw.clone();
		exec::spawn("B.reader", 2, async move {
			let mut buf = vec![0u8; if seq { 300_000 } else { 4096 }];
			loop {
				let r = if seq { raw.recv(&mut buf).await.map(|x| x.0) } else { raw.read(&mut buf).await };
				match r {
					Ok(0) | Err(_) => break,
					Ok(_) => (),
				}
			}
		})
	};
	settle().await;

	let ops = case.actors.get("s").cloned().unwrap_or_default();
	for op in &ops {
		if m.borrow().ended || m.borrow().stop {
			break;
		}
		exec::trace(|| format!("-- {} {:?}", op.name, op.args));
		one(&m, &raw, op).await;
		if m.borrow().stop {
			break;
		}
		after(&m);
	}
	if !m.borrow().stop {
		finale(&m, raw, rd, run, &hold).await;
	}
}

/// Checks that hold whenever the simulation is quiet.
fn after<B: Sys>(m: &W<B>) {
	let (ended, sock, bad) = {
		let st = m.borrow();
		(st.ended, st.sock, st.bad_sent)
	};
	let open = net::sock_info(sock[0]).open;
	if ended && open {
		viol(m, "socket_not_closed", if bad { &["C07", "C11"] } else { &["C07"] }, "the connection ended, but its socket is still open".into());
	}
	if !ended && !open {
		viol(m, "connection_lost", &["C12", "C06", "C10", "C09", "C13"], "the connection was closed although nothing was wrong with it".into());
	}
}

fn bodyof<B: Sys>(svc: i32, len: usize, nfds: usize, inodes: &mut Vec<u64>) -> B {
	let fds: Vec<_> = (0..nfds).map(|_| memfd()).collect();
	*inodes = fds.iter().map(|f| net::inode(f.as_raw_fd()).unwrap()).collect();
	B::make(body(svc, len), fds)
}

/// Check the result of a send against the model.  Returns true if it was sent.
fn judge_send<B: Sys>(m: &W<B>, what: &str, msg: Msg, closed: bool, res: Option<Result<(), Error>>) -> bool {
	let (maxw, fdw, ended) = {
		let st = m.borrow();
		(max_write(&st.case, 0), max_fds_write(&st.case, 0), st.ended)
	};
	let over = msg.body.len() > maxw;
	let fds = msg.inodes.len() > fdw;
	let text = format!("{what}: {msg:?}");
	exec::trace(|| format!("A {text} -> {res:?}"));
	match res {
		None => {
			viol(m, "send_stuck", &["C16", "C06", "C07"], format!("{text} never completes although the remote reads everything"));
			false
		},
		Some(Ok(())) => {
			if ended {
				viol(m, "send_after_end", &["C07", "C06"], format!("{text} reported success after the end of the connection"));
			} else if over {
				viol(m, "oversize_sent", &["C13"], format!("{text} was accepted, with a limit of {maxw} bytes"));
			} else if fds {
				viol(m, "too_many_fds_sent", &["C14"], format!("{text} was accepted, with a limit of {fdw} descriptors"));
			} else if closed {
				viol(m, "send_for_closed_request", &["C04"], format!("{text} was accepted, although the request is finished"));
			} else {
				m.borrow_mut().wire.push(WireExp::Msg(msg));
				return true;
			}
			false
		},
		Some(Err(e)) => {
			if !ended {
				if !over && !fds && !closed {
					viol(m, "send_failed", &["C06", "C12", "C13", "C14", "C03", "C16"], format!("{text} failed on a working connection: {e}"));
				} else if e.is_connection_aborted() {
					viol(m, "refused_as_aborted", &["C06"], format!("{text} was refused with a connection-aborted error, but the connection works"));
				}
				m.borrow_mut().stat("refused_send");
			}
			false
		},
	}
}

async fn one<B: Sys>(m: &W<B>, raw: &Rc<RawStream>, op: &crate::case::Op) {
	let seq = m.borrow().seq;
	let nfds = |i: usize| if seq { op.arg(i).max(0) as usize } else { 0 };
	match op.name.as_str() {
		"sleep" => exec::sleep(op.arg(0).max(1) as u64).await,
		// ---------------------------------------------------------- application
		"recv" => {
			let Some(mut h) = m.borrow_mut().reader.take() else { return };
			let r = step(h.recv_message()).await;
			m.borrow_mut().reader = Some(h);
			got_message(m, r);
		},
		"req" => {
			let no = op.arg(0);
			if m.borrow().sent.contains_key(&no) || m.borrow().writers.is_empty() {
				return;
			}
			let svc = m.borrow_mut().next_tag();
			let len = op.arg(1) as usize;
			let mut inodes = Vec::new();
			let b = bodyof::<B>(svc, len, nfds(2), &mut inodes);
			let h = m.borrow().writers[0].clone();
			let res = step(h.send_request(svc, b)).await;
			drop(h);
			settle().await;
			let mut msg = Msg { typ: REQUEST, id: 0, svc, body: body(svc, len), inodes };
			let (ids, taken, maybe) = {
				let st = m.borrow();
				let space = st.case.get("idspace") as usize;
				let taken = st.sent.values().filter(|s| s.open && !s.forgotten).count();
				let maybe = st.sent.values().filter(|s| s.open).count();
				(space, taken, maybe)
			};
			let full = ids > 0 && taken >= ids;
			let maybe_full = ids > 0 && maybe >= ids;
			match res {
				Some(Ok(q)) => {
					msg.id = q.request_id();
					if q.service_id() != svc {
						viol(m, "handle_service_id", &["C03"], format!("send_request({svc}) returned a handle with service id {}", q.service_id()));
						return;
					}
					if m.borrow().sent.values().any(|s| s.open && !s.forgotten && s.id == msg.id) {
						viol(m, "id_in_use", &["C05"], format!("a new request got the id {} of a request that is still open", msg.id));
						return;
					}
					let id = msg.id;
					if judge_send(m, "send_request", msg, false, Some(Ok(()))) {
						let mut st = m.borrow_mut();
						// The new request takes the id over from a forgotten one.
						for s in st.sent.values_mut().filter(|s| s.open && s.id == id) {
							s.open = false;
						}
						st.sent.insert(
							no,
							Sent { id, svc, full: Some(q), writes: Vec::new(), q: VecDeque::new(), open: true, consumed: false, abandoned: false, forgotten: false, drained: false },
						);
					}
				},
				Some(Err(e)) if full || maybe_full => {
					m.borrow_mut().stat("ids_exhausted");
					if e.is_connection_aborted() && !m.borrow().ended {
						viol(m, "refused_as_aborted", &["C06", "C05"], "no free id was reported as connection-aborted".into());
					}
				},
				Some(Err(e)) => {
					judge_send(m, "send_request", msg, false, Some(Err(e)));
				},
				None => {
					judge_send(m, "send_request", msg, false, None);
				},
			}
		},
		"stream" => {
			if m.borrow().writers.is_empty() {
				return;
			}
			let svc = m.borrow_mut().next_tag();
			let len = op.arg(0) as usize;
			let mut inodes = Vec::new();
			let b = bodyof::<B>(svc, len, nfds(1), &mut inodes);
			let h = m.borrow().writers[0].clone();
			let res = step(h.send_stream(svc, b)).await;
			drop(h);
			settle().await;
			judge_send(m, "send_stream", Msg { typ: STREAM, id: 0, svc, body: body(svc, len), inodes }, false, res);
		},
		"qupd" => {
			let no = op.arg(0);
			let h = {
				let st = m.borrow();
				let Some(s) = st.sent.get(&no) else { return };
				match (&s.full, s.writes.first()) {
					(Some(q), _) if op.arg(3) == 0 || s.writes.is_empty() => Some((q.write_handle(), s.id, s.open)),
					(_, Some(w)) => Some((w.clone(), s.id, s.open)),
					_ => None,
				}
			};
			let Some((h, id, open)) = h else { return };
			let svc = m.borrow_mut().next_tag();
			let len = op.arg(1) as usize;
			let mut inodes = Vec::new();
			let b = bodyof::<B>(svc, len, nfds(2), &mut inodes);
			let res = step(h.send_update(svc, b)).await;
			drop(h);
			judge_send(m, "send_update", Msg { typ: QUPDATE, id, svc, body: body(svc, len), inodes }, !open, res);
		},
		"rupd" | "rresp" | "rerr" => {
			let Some(n) = m.borrow().live_r(op.arg(0)) else { return };
			let (h, id, open) = {
				let st = m.borrow();
				let r = &st.recvd[n];
				let h = match (&r.full, r.writes.first()) {
					(Some(q), _) if op.arg(3) == 0 || r.writes.is_empty() => q.write_handle(),
					(_, Some(w)) => w.clone(),
					_ => return,
				};
				(h, r.id, r.open)
			};
			let k = m.borrow().msgs;
			let svc = m.borrow_mut().next_tag();
			let len = op.arg(1) as usize;
			let mut inodes = Vec::new();
			let (res, msg) = if op.name == "rerr" {
				let text = if len == 0 { String::new() } else { err_text(k, len) };
				let res = step(h.send_error_response(&text)).await;
				(res, Msg { typ: RESPONSE, id, svc: -1, body: text.into_bytes(), inodes })
			} else {
				let b = bodyof::<B>(svc, len, nfds(2), &mut inodes);
				if op.name == "rupd" {
					(step(h.send_update(svc, b)).await, Msg { typ: RUPDATE, id, svc, body: body(svc, len), inodes })
				} else {
					(step(h.send_response(svc, b)).await, Msg { typ: RESPONSE, id, svc, body: body(svc, len), inodes })
				}
			};
			drop(h);
			if judge_send(m, &op.name, msg, !open, res) && op.name != "rupd" {
				m.borrow_mut().recvd[n].open = false;
			}
		},
		"qu" | "qr" => {
			let no = op.arg(0);
			let h = m.borrow_mut().sent.get_mut(&no).and_then(|s| s.full.take());
			let Some(mut h) = h else { return };
			let got = if op.name == "qr" { q_response(&mut h).await } else { q_update(&mut h).await };
			m.borrow_mut().sent.get_mut(&no).unwrap().full = Some(h);
			judge_q(m, no, op.name == "qr", got);
		},
		"ru" => {
			let Some(n) = m.borrow().live_r(op.arg(0)) else { return };
			let h = m.borrow_mut().recvd[n].full.take();
			let Some(mut h) = h else { return };
			let r = step(h.recv_update()).await;
			m.borrow_mut().recvd[n].full = Some(h);
			let got = match r {
				None => Got::Cancelled,
				Some(None) => Got::None,
				Some(Some(x)) => Got::Msg(msg_of(&x)),
			};
			judge_r(m, n, got);
		},
		"qclone" => {
			let mut st = m.borrow_mut();
			if let Some(s) = st.sent.get_mut(&op.arg(0)) {
				let w = match (&s.full, s.writes.first()) {
					(Some(q), _) => q.write_handle(),
					(_, Some(w)) => w.clone(),
					_ => return,
				};
				s.writes.push(w);
			}
		},
		"rclone" => {
			let mut st = m.borrow_mut();
			if let Some(n) = st.live_r(op.arg(0)) {
				let r = &mut st.recvd[n];
				let w = match (&r.full, r.writes.first()) {
					(Some(q), _) => q.write_handle(),
					(_, Some(w)) => w.clone(),
					_ => return,
				};
				r.writes.push(w);
			}
		},
		"qdrop" | "qdropw" => {
			let (a, b) = {
				let mut st = m.borrow_mut();
				let Some(s) = st.sent.get_mut(&op.arg(0)) else { return };
				let r = if op.name == "qdrop" {
					s.q.clear();
					(s.full.take(), None)
				} else {
					(None, s.writes.pop())
				};
				st.check_abandoned();
				r
			};
			drop((a, b));
			settle().await;
		},
		"rdrop" | "rdropw" => {
			let (a, b) = {
				let mut st = m.borrow_mut();
				if !st.out.is_empty() {
					return;
				}
				let Some(n) = st.live_r(op.arg(0)) else { return };
				let r = &mut st.recvd[n];
				let x = if op.name == "rdrop" {
					r.q.clear();
					(r.full.take(), None)
				} else {
					(None, r.writes.pop())
				};
				st.check_abandoned();
				x
			};
			drop((a, b));
			settle().await;
		},
		"dropreader" => {
			let r = {
				let mut st = m.borrow_mut();
				if !st.out.is_empty() || st.reader.is_none() {
					return;
				}
				st.reader_dropped = true;
				for e in std::mem::take(&mut st.incoming) {
					if let Exp::Msg(x, n) = e {
						if x.typ == REQUEST {
							st.recvd[n].queued = false;
							st.recvd[n].q.clear();
						}
					}
				}
				st.reader.take()
			};
			drop(r);
			{
				let mut st = m.borrow_mut();
				st.check_abandoned();
				st.handles_gone();
			}
			settle().await;
		},
		"clonew" => {
			let mut st = m.borrow_mut();
			if let Some(w) = st.writers.first() {
				let w = w.clone();
				st.writers.push(w);
			}
		},
		"dropw" => {
			let w = m.borrow_mut().writers.pop();
			drop(w);
			m.borrow_mut().handles_gone();
			settle().await;
		},
		// ---------------------------------------------------------- remote
		"bq" | "bqu" | "bres" | "bru" | "bstream" => {
			let typ = match op.name.as_str() {
				"bq" => REQUEST,
				"bqu" => QUPDATE,
				"bres" => RESPONSE,
				"bru" => RUPDATE,
				_ => STREAM,
			};
			let len = op.arg(1) as usize;
			let id = match typ {
				RESPONSE | RUPDATE => {
					// Number of a request of A; without such a request, an id nobody uses.
					let st = m.borrow();
					match st.sent.get(&op.arg(0)) {
						Some(s) => s.id,
						None => {
							let id = (op.arg(0) as u32).wrapping_add(0x4000_0000);
							if st.open_s(id).is_some() {
								return;
							}
							id
						},
					}
				},
				// Most stream messages have id 0, as the protocol says; others must not hurt.
				STREAM => op.arg(0) as u32,
				_ => op.arg(0) as u32,
			};
			// A request the application abandoned is still open for the remote.
			if typ == REQUEST && m.borrow().recvd.iter().any(|r| r.zombie && r.id == id) {
				return;
			}
			let svc = {
				let mut st = m.borrow_mut();
				let t = st.next_tag();
				if op.arg(3) == 1 && typ == RESPONSE {
					-1
				} else {
					t
				}
			};
			push_good(m, typ, id, svc, len, nfds(2));
		},
		"bbad" => push_bad(m, op.arg(0), op.arg(1), op.arg(2)),
		"flush" => flush(m, raw, op.arg(0)).await,
		"beof" => {
			net::shutdown_write(raw.id());
			let mut st = m.borrow_mut();
			let mid = st.out.front().map(|i| i.done > 0).unwrap_or(false);
			st.out.clear();
			if st.reader.is_some() && mid {
				st.incoming.push_back(Exp::AnyErr);
			}
			st.end_now();
			drop(st);
			settle().await;
		},
		"breset" => {
			net::apply(raw.id(), Action::Reset);
			let mut st = m.borrow_mut();
			st.out.clear();
			if st.reader.is_some() {
				st.incoming.push_back(Exp::AnyErr);
			}
			st.end_now();
			drop(st);
			settle().await;
		},
		"shortage" => {
			if seq {
				let s = m.borrow().sock[0];
				net::set_fd_shortage(s, op.arg(0).max(0) as usize);
			}
		},
		_ => panic!("harness: unknown operation {}", op.name),
	}
}

async fn q_response<B: Sys>(h: &mut SentRequestHandle<B>) -> Got {
	match step(h.recv_response()).await {
		None => Got::Cancelled,
		Some(Ok(x)) => Got::Msg(msg_of(&x)),
		Some(Err(e)) if e.is_unexpected_message_type() => Got::Unexpected,
		Some(Err(e)) if e.is_connection_aborted() => Got::Aborted,
		Some(Err(e)) => Got::Err(e.to_string()),
	}
}

async fn q_update<B: Sys>(h: &mut SentRequestHandle<B>) -> Got {
	match step(h.recv_update()).await {
		None => Got::Cancelled,
		Some(None) => Got::None,
		Some(Some(x)) => Got::Msg(msg_of(&x)),
	}
}

/// Compare a receive on a sent request with the model (and update the model).
fn judge_q<B: Sys>(m: &W<B>, no: i64, resp: bool, got: Got) {
	exec::trace(|| format!("A request {no} {} -> {got:?}", if resp { "recv_response" } else { "recv_update" }));
	let mut st = m.borrow_mut();
	let ended = st.ended;
	let s = st.sent.get_mut(&no).unwrap();
	let what = if resp { "recv_response" } else { "recv_update" };
	let front = s.q.front().cloned();
	let (want, take): (Vec<Got>, bool) = match &front {
		Some(x) if x.typ == RESPONSE && resp => (vec![Got::Msg(x.clone())], true),
		Some(x) if x.typ == RESPONSE => (vec![Got::None], false),
		Some(_) if resp => (vec![Got::Unexpected], false),
		Some(x) => (vec![Got::Msg(x.clone())], true),
		None if s.consumed || !s.open || ended => {
			if resp {
				(vec![Got::Aborted, Got::Err(String::new())], false)
			} else {
				(vec![Got::None], false)
			}
		},
		None => (vec![Got::Cancelled], false),
	};
	let ok = want.iter().any(|w| match (w, &got) {
		(Got::Err(_), Got::Err(_)) => true,
		(a, b) => a == b,
	});
	if take {
		s.q.pop_front();
		if resp {
			s.consumed = true;
		}
	}
	let id = s.id;
	if ok {
		if matches!(got, Got::Msg(_)) {
			st.delivered += 1;
		}
		log_sig(&mut st, 77 + resp as u64);
		return;
	}
	drop(st);
	let detail = format!("request {no} (id {id}): {what} returned {got:?}, expected {:?}", want[0]);
	match (&front, &got) {
		(None, Got::Cancelled) if ended => viol(m, "wait_after_end", &["C07"], detail),
		(None, Got::Cancelled) => viol(m, "wait_after_response", &["C04"], detail),
		(None, Got::Msg(_)) => viol(m, "wrong_request_message", &["C03", "C12", "C20"], detail),
		(Some(_), Got::Msg(_)) => viol(m, "wrong_request_message", &["C03", "C20"], detail),
		(Some(_), _) => viol(m, "request_message_lost", &["C20", "C03", "C12"], detail),
		_ => viol(m, "request_ended_early", &["C12", "C03", "C07"], detail),
	}
}

fn judge_r<B: Sys>(m: &W<B>, n: usize, got: Got) {
	exec::trace(|| format!("A received request #{n} recv_update -> {got:?}"));
	let mut st = m.borrow_mut();
	let ended = st.ended;
	let r = &mut st.recvd[n];
	let front = r.q.pop_front();
	let want = match &front {
		Some(x) => Got::Msg(x.clone()),
		None if !r.open || ended => Got::None,
		None => Got::Cancelled,
	};
	let id = r.id;
	if want == got {
		if matches!(got, Got::Msg(_)) {
			st.delivered += 1;
		}
		return;
	}
	drop(st);
	let detail = format!("received request #{n} (id {id}): recv_update returned {got:?}, expected {want:?}");
	match (&front, &got) {
		(None, Got::Cancelled) if ended => viol(m, "wait_after_end", &["C07"], detail),
		(None, Got::Cancelled) => viol(m, "wait_after_response", &["C04", "C07"], detail),
		(_, Got::Msg(_)) => viol(m, "wrong_request_message", &["C03", "C12"], detail),
		(Some(_), _) => viol(m, "request_message_lost", &["C03", "C12"], detail),
		_ => viol(m, "request_ended_early", &["C12", "C03", "C07", "C06"], detail),
	}
}

/// Compare a receive on the peer handle with the model.  None: still waiting.
fn got_message<B: Sys>(m: &W<B>, r: Option<Result<ReceivedMessage<B>, Error>>) {
	let mut handle = None;
	let got = match r {
		None => Got::Cancelled,
		Some(Ok(ReceivedMessage::Request(h, b))) => {
			let msg = Msg { typ: REQUEST, id: h.request_id(), svc: h.service_id(), body: b.bytes().to_vec(), inodes: b.inodes() };
			handle = Some(h);
			Got::Msg(msg)
		},
		Some(Ok(ReceivedMessage::Stream(x))) => Got::Msg(msg_of(&x)),
		Some(Err(e)) if e.is_connection_aborted() => Got::Aborted,
		Some(Err(e)) => Got::Err(e.to_string()),
	};
	exec::trace(|| format!("A recv_message -> {got:?}"));
	let mut st = m.borrow_mut();
	loop {
		let front = st.incoming.front().cloned();
		match (&front, &got) {
			(Some(Exp::Msg(x, n)), Got::Msg(y)) if x == y => {
				let n = *n;
				st.incoming.pop_front();
				st.opt_used = 0;
				st.delivered += 1;
				log_sig(&mut st, 5);
				if x.typ == REQUEST {
					st.recvd[n].queued = false;
					st.recvd[n].full = handle.take();
				}
				return;
			},
			(Some(Exp::Err { optional, .. }), Got::Err(_)) => {
				st.opt_used += *optional as u32;
				st.incoming.pop_front();
				st.stat("errors_reported");
				log_sig(&mut st, 6);
				return;
			},
			(Some(Exp::AnyErr), Got::Err(_) | Got::Aborted) => {
				st.incoming.pop_front();
				return;
			},
			(Some(Exp::Err { optional: true, .. }), _) => {
				st.incoming.pop_front();
			},
			(Some(Exp::Err { .. }), _) if st.opt_used > 0 => {
				// The error that was taken for an optional one was this one.
				st.opt_used -= 1;
				st.incoming.pop_front();
			},
			(None, Got::Cancelled) if !st.ended => return,
			(None, Got::Aborted) if st.ended => return,
			(f, g) => {
				let (f, g) = (f.clone(), g.clone());
				let (ended, bad) = (st.ended, st.bad_sent);
				drop(st);
				let detail = format!("recv_message returned {g:?}, expected {}", match &f {
					Some(Exp::Msg(x, _)) => format!("{x:?}"),
					Some(Exp::Err { why, .. }) => format!("an error ({why})"),
					Some(Exp::AnyErr) => "an error".into(),
					None if ended => "a connection-aborted error".into(),
					None => "nothing yet".into(),
				});
				match (f, g) {
					(None, Got::Msg(_)) if bad => viol(m, "garbage_delivered", &["C11"], detail),
					(None, Got::Msg(x)) => {
						let limit = max_read(&m.borrow().case, 0);
						let over = x.body.len() > limit;
						viol(m, "unexpected_message", if over { &["C13", "C11"] } else { &["C01", "C03", "C11", "C12"] }, detail)
					},
					(None, Got::Cancelled) => viol(m, "wait_after_end", &["C07", "C08", "C11"], detail),
					(None, _) if ended => viol(m, "end_not_aborted", &["C08", "C11", "C12"], detail),
					(None, _) => viol(m, "unexpected_error", &["C12", "C03", "C13", "C02", "C10"], detail),
					(Some(Exp::Msg(..)), Got::Msg(_)) => viol(m, "wrong_message", &["C01", "C02", "C03", "C11", "C14"], detail),
					(Some(Exp::Msg(x, _)), _) => {
						if x.inodes.is_empty() {
							viol(m, "message_lost", &["C01", "C02", "C03", "C08", "C11", "C12", "C13"], detail)
						} else {
							viol(m, "message_lost", &["C01", "C02", "C03", "C08", "C11", "C12", "C13", "C14"], detail)
						}
					},
					(Some(Exp::Err { why, .. }), _) => {
						let p: &[&'static str] = match why {
							"oversize" => &["C13", "C11"],
							"descriptors" => &["C14"],
							"malformed" => &["C11"],
							_ => &["C12"],
						};
						viol(m, "error_not_reported", p, detail)
					},
					(Some(Exp::AnyErr), _) => viol(m, "error_not_reported", &["C07", "C08"], detail),
				}
				return;
			},
		}
	}
}

// ------------------------------------------------------------------ remote

fn push_good<B: Sys>(m: &W<B>, typ: u32, id: u32, svc: i32, len: usize, nfds: usize) {
	let mut st = m.borrow_mut();
	let stream = !st.seq;
	let limit = max_read(&st.case, 0);
	let fdr = max_fds_read(&st.case, 0);
	let b = body(svc, len);
	let bytes = encode(st.end, stream, typ, id, svc, &b);
	let fds: Vec<_> = (0..nfds).map(|_| memfd()).collect();
	let inodes = fds.iter().map(|f| net::inode(f.as_raw_fd()).unwrap()).collect::<Vec<_>>();
	let msg = Msg { typ, id, svc, body: b, inodes };
	let (what, effective) = if len > limit {
		st.stat("remote_oversize");
		if stream {
			// The length alone is enough to refuse it.
			(Out::Bad("oversize"), 16)
		} else {
			(Out::Bad("oversize"), bytes.len())
		}
	} else if nfds > fdr {
		(Out::Bad("descriptors"), bytes.len())
	} else {
		(Out::Good(msg, Vec::new()), bytes.len())
	};
	st.out.push_back(Item { bytes, done: 0, effective, what: Some(what), fds });
}

fn push_bad<B: Sys>(m: &W<B>, kind: i64, arg: i64, extra: i64) {
	let mut st = m.borrow_mut();
	let (seq, end) = (st.seq, st.end);
	let limit = max_read(&st.case, 0) as u64;
	st.stat("malformed");
	let mut bytes = Vec::new();
	let mut r = mix(arg as u64 ^ 0xbad);
	let mut byte = || {
		r = mix(r);
		r as u8
	};
	if seq {
		match kind {
			// Too short.
			1 => {
				// Often the start of something valid.
				if extra.rem_euclid(3) != 0 {
					bytes = encode(end, false, extra.rem_euclid(5) as u32, extra as u32, arg as i32, &[]);
					bytes.truncate(1 + arg.rem_euclid(11) as usize);
				} else {
					for _ in 0..(1 + arg.rem_euclid(11)) {
						bytes.push(byte());
					}
				}
			},
			_ => {
				let t = bad_type(arg);
				bytes.extend(end.put(t));
				bytes.extend(end.put(extra as u32));
				bytes.extend(end.put(arg as u32));
				for _ in 0..(extra.rem_euclid(20)) {
					bytes.push(byte());
				}
			},
		}
		let n = bytes.len();
		st.out.push_back(Item { bytes, done: 0, effective: n, what: Some(Out::Bad("malformed")), fds: Vec::new() });
		return;
	}
	let mut announced = None;
	match kind {
		1 => {
			// A length that does not even cover the header.
			bytes.extend(end.put(arg.rem_euclid(12) as u32));
			bytes.extend(end.put((extra.rem_euclid(5)) as u32));
			bytes.extend(end.put(arg as u32));
			bytes.extend(end.put(extra as u32));
		},
		2 => {
			let over = limit + 1 + (arg.rem_euclid(40)) as u64;
			bytes.extend(end.put((12 + over) as u32));
			bytes.extend(end.put((extra.rem_euclid(5)) as u32));
			bytes.extend(end.put(arg as u32));
			bytes.extend(end.put(extra as u32));
			announced = Some(over);
		},
		3 => {
			let l = match arg.rem_euclid(6) {
				0 => u32::MAX,
				1 => u32::MAX - 11,
				2 => 0x8000_0000,
				3 => 0x7fff_ffff,
				4 => 0x4000_000c,
				_ => 0xffff_0000,
			};
			bytes.extend(end.put(l));
			bytes.extend(end.put((extra.rem_euclid(5)) as u32));
			bytes.extend(end.put(arg as u32));
			bytes.extend(end.put(extra as u32));
			announced = Some(l as u64 - 12);
		},
		_ => {
			let len = extra.rem_euclid(30) as u64;
			bytes.extend(end.put(12 + len.min(limit) as u32));
			bytes.extend(end.put(bad_type(arg)));
			bytes.extend(end.put(extra as u32));
			bytes.extend(end.put(arg as u32));
		},
	}
	if let Some(a) = announced {
		st.announced = st.announced.min(a);
	}
	for _ in 0..(extra.rem_euclid(40)) {
		bytes.push(byte());
	}
	let what = if announced.is_some() { "oversize" } else { "malformed" };
	st.out.push_back(Item { bytes, done: 0, effective: 16, what: Some(Out::Bad(what)), fds: Vec::new() });
}

fn bad_type(arg: i64) -> u32 {
	match arg.rem_euclid(8) {
		0 => 5,
		1 => 6,
		2 => u32::MAX,
		3 => 0x0100_0000,
		4 => 0x0400_0000,
		5 => 0x8000_0000,
		6 => 256,
		_ => (arg as u32) | 8,
	}
}

/// Send up to n bytes (datagrams) of what is queued; everything if n is 0.
async fn flush<B: Sys>(m: &W<B>, raw: &Rc<RawStream>, n: i64) {
	let seq = m.borrow().seq;
	let mut left = if n <= 0 { usize::MAX } else { n as usize };
	let mut batch: Vec<u8> = Vec::new();
	while left > 0 {
		let mut st = m.borrow_mut();
		let Some(item) = st.out.front_mut() else { break };
		if seq {
			left -= 1;
			let item = st.out.pop_front().unwrap();
			drop(st);
			let fds: Vec<i32> = item.fds.iter().map(|f| f.as_raw_fd()).collect();
			let short = net_shortage(m);
			let before = fds.len();
			let r = step(raw.send(&item.bytes, &fds)).await;
			let what = item.what;
			drop(item.fds);
			match r {
				None => return viol(m, "input_not_read", &["C16", "C11"], "the peer does not read its socket any more".into()),
				Some(Err(_)) if m.borrow().ended => return,
				Some(Err(_)) => return lost(m),
				Some(Ok(_)) => (),
			}
			let starved = matches!(short, Some(k) if k < before);
			match what {
				Some(Out::Good(msg, _)) if !starved => m.borrow_mut().arrive(msg),
				Some(Out::Good(..)) => bad_datagram(m, "descriptors"),
				Some(Out::Bad(why)) => bad_datagram(m, why),
				None => (),
			}
			if m.borrow().ended {
				m.borrow_mut().out.clear();
				break;
			}
			continue;
		}
		let end = item.bytes.len();
		let mut stop = item.done.saturating_add(left).min(end);
		// Whether a malformed header is refused before it is complete is left open.
		if matches!(item.what, Some(Out::Bad(_))) && stop < 16 {
			stop = 16.min(end);
		}
		let moved = stop - item.done;
		batch.extend_from_slice(&item.bytes[item.done..stop]);
		left = left.saturating_sub(moved.max(1));
		item.done = stop;
		let effect = if item.done >= item.effective { item.what.take() } else { None };
		let complete = item.done == end;
		if complete {
			st.out.pop_front();
		}
		match effect {
			Some(Out::Good(msg, _)) => st.arrive(msg),
			Some(Out::Bad(why)) if !st.ended => {
				st.bad_sent = true;
				// An automatic response may still be on its way.
				st.cut = true;
				log_sig(&mut st, hash_str(why));
				st.error(false, why);
				st.end_now();
			},
			_ => (),
		}
		if !complete {
			break;
		}
	}
	if seq || batch.is_empty() {
		settle().await;
		return;
	}
	match step(raw.write_all(&batch)).await {
		None => {
			if !m.borrow().ended {
				viol(m, "input_not_read", &["C16", "C11"], "the peer does not read its socket any more".into());
			}
		},
		Some(Err(_)) => {
			if !m.borrow().ended {
				lost(m)
			}
		},
		Some(Ok(())) => (),
	}
}

fn net_shortage<B: Sys>(m: &W<B>) -> Option<usize> {
	let s = m.borrow().sock[0];
	net::fd_shortage(s)
}

fn lost<B: Sys>(m: &W<B>) {
	viol(m, "connection_lost", &["C12", "C06", "C10", "C09", "C13"], "the connection was closed although nothing was wrong with it".into());
}

/// A datagram the peer must refuse.  It may close the connection or carry on.
fn bad_datagram<B: Sys>(m: &W<B>, why: &'static str) {
	let mut st = m.borrow_mut();
	st.stat("refused_datagram");
	log_sig(&mut st, hash_str(why));
	st.error(false, why);
	let open = net::sock_info(st.sock[0]).open;
	if !open {
		st.bad_sent = true;
		st.cut = true;
		st.end_now();
	}
}

// ------------------------------------------------------------------ the end

/// Every handle is drained and used until the end shows.
#[derive(Default)]
struct Log {
	recv: Vec<Got>,
	done: bool,
}

async fn finale<B: Sys>(m: &W<B>, raw: Rc<RawStream>, rd: exec::TaskId, run: Option<exec::TaskId>, _hold: &Rc<Cell<bool>>) {
	let case = m.borrow().case.clone();
	let mode = if case.get("endmode") == 8 && run.is_none() { 7 } else { case.get("endmode") };
	let early = case.get("early") == 1;
	let stall = case.get("stall") == 1 && matches!(mode, 0 | 1 | 2 | 3 | 4 | 8) && !m.borrow().ended;
	let mut pending: Vec<(String, Rc<Cell<bool>>)> = Vec::new();
	let flag = |name: String, pending: &mut Vec<(String, Rc<Cell<bool>>)>| {
		let f = Rc::new(Cell::new(false));
		pending.push((name, f.clone()));
		f
	};
	let done_before = m.borrow().ended;
	if stall {
		// The remote stops reading; the application keeps sending until nothing moves.
		exec::abort_task(rd);
		let maxw = max_write(&case, 0);
		let len = maxw.min(700);
		let n = if m.borrow().seq { case.get("dcap") as usize + 3 } else { (case.get_or("cap", 65536) as usize / (len + 16)).min(400) + 4 };
		{
			let mut st = m.borrow_mut();
			st.cut = true;
			st.wire_fixed = Some(st.wire.len());
			st.stat("stalled_end");
		}
		let handles: Vec<_> = m.borrow().writers.iter().cloned().collect();
		if let Some(h) = handles.first() {
			for i in 0..n {
				let h = h.clone();
				let f = flag(format!("send_stream {i}"), &mut pending);
				let svc = m.borrow_mut().next_tag();
				let b = B::make(body(svc, len), Vec::new());
				exec::spawn(format!("A.stall{i}"), 1, async move {
					let _ = h.send_stream(svc, b).await;
					f.set(true);
				});
			}
			// It takes an id, which must not be one the remote still sends messages for.
			if case.get("idspace") == 0 {
				let f = flag("send_request".into(), &mut pending);
				let h = h.clone();
				exec::spawn("A.stallreq", 1, async move {
					let _ = h.send_request(1, B::make(Vec::new(), Vec::new())).await;
					f.set(true);
				});
			}
		}
		drop(handles);
		settle().await;
	}
	let logs: Rc<RefCell<BTreeMap<String, Log>>> = Rc::default();
	if early {
		start_drains(m, &logs, mode == 7);
		settle().await;
	}
	// Bring the connection down.
	if !m.borrow().ended {
		match mode {
			0 => {
				flush_rest(m, &raw).await;
				net::shutdown_write(raw.id());
				m.borrow_mut().end_now();
			},
			1 => {
				flush_rest(m, &raw).await;
				// Closing with unread data resets the connection.
				if stall && m.borrow().listening() {
					m.borrow_mut().incoming.push_back(Exp::AnyErr);
				}
				net::close(raw.id());
				m.borrow_mut().end_now();
			},
			2 => {
				// End of stream in the middle of a frame.
				flush_rest(m, &raw).await;
				if !m.borrow().ended {
					if m.borrow().seq {
						net::shutdown_write(raw.id());
					} else {
						let end = m.borrow().end;
						let k = (case.get("cut").rem_euclid(20)) as usize + 1;
						let f = encode(end, true, STREAM, 0, 9, &body(9, 8));
						let lim = max_read(&case, 0);
						let f = if lim < 8 { encode(end, true, STREAM, 0, 9, &[])[..k.min(15)].to_vec() } else { f[..k.min(f.len() - 1)].to_vec() };
						let _ = step(raw.write_all(&f)).await;
						net::shutdown_write(raw.id());
						if m.borrow().listening() {
							m.borrow_mut().incoming.push_back(Exp::AnyErr);
						}
					}
					m.borrow_mut().end_now();
				}
			},
			3 => {
				flush_rest(m, &raw).await;
				if !m.borrow().ended {
					push_bad(m, case.get("badkind"), case.get("cut"), case.get("cut") / 7);
					// Nothing after it may be interpreted.
					push_good(m, STREAM, 0, 77, 0, 0);
					push_good(m, REQUEST, 0x1234, 78, 0, 0);
					flush(m, &raw, 0).await;
					if m.borrow().seq && !m.borrow().ended && !m.borrow().stop {
						net::shutdown_write(raw.id());
						m.borrow_mut().end_now();
					}
				}
			},
			4 => {
				flush_rest(m, &raw).await;
				if m.borrow().listening() && !m.borrow().ended {
					m.borrow_mut().incoming.push_back(Exp::AnyErr);
				}
				net::apply(raw.id(), Action::Reset);
				m.borrow_mut().end_now();
			},
			5 | 6 => {
				let st = m.borrow();
				match (st.writers.first(), &st.close) {
					(Some(w), _) if mode == 5 => w.close(),
					(_, Some(c)) => c.close(),
					_ => (),
				}
				drop(st);
				m.borrow_mut().end_now();
			},
			8 if run.is_some() => {
				exec::abort_task(run.unwrap());
				m.borrow_mut().end_now();
			},
			_ => {
				// Drop every peer handle.
				let (r, w) = {
					let mut st = m.borrow_mut();
					st.incoming.clear();
					st.reader_dropped = true;
					for r in st.recvd.iter_mut() {
						r.queued = false;
					}
					let r = st.reader.take();
					let w = std::mem::take(&mut st.writers);
					(r, w)
				};
				drop(r);
				drop(w);
				m.borrow_mut().end_now();
			},
		}
	}
	settle().await;
	if m.borrow().stop {
		return;
	}
	// A reset may have hit the task before it could write everything it had to.
	if mode == 8 || mode == 4 {
		m.borrow_mut().cut = true;
	}
	let bad = m.borrow().bad_sent;
	let props: &[&'static str] = if bad { &["C07", "C11"] } else { &["C07"] };
	after(m);
	if let Some(t) = run {
		if !exec::task_done(t) {
			viol(m, "task_not_finished", props, "the connection ended, but the background task is still there".into());
		}
	}
	for (name, f) in &pending {
		if !f.get() {
			viol(m, "wait_after_end", props, format!("{name} is still waiting after the end of the connection"));
			return;
		}
	}
	if !early || done_before {
		start_drains(m, &logs, false);
		settle().await;
	}
	for (name, l) in logs.borrow().iter() {
		if !l.done {
			viol(m, "wait_after_end", props, format!("{name} is still waiting after the end of the connection"));
			return;
		}
	}
	// New operations on the peer.
	let w = m.borrow().writers.first().cloned();
	if let Some(w) = w {
		let f = step(w.send_stream(3, B::make(Vec::new(), Vec::new()))).await;
		match f {
			None => viol(m, "wait_after_end", props, "send_stream waits after the end of the connection".into()),
			Some(Ok(())) => viol(m, "send_after_end", &["C07", "C06"], "send_stream reported success after the end of the connection".into()),
			Some(Err(e)) if !e.is_connection_aborted() => viol(m, "end_not_aborted", &["C07"], format!("send_stream after the end of the connection: {e}")),
			_ => (),
		}
		if let Some(Ok(_)) = step(w.send_request(3, B::make(Vec::new(), Vec::new()))).await {
			viol(m, "send_after_end", &["C07", "C06"], "send_request reported success after the end of the connection".into());
		}
	}
	// Compare the logs with the model.
	let logs = logs.borrow();
	for (name, l) in logs.iter() {
		exec::trace(|| format!("{name}: {:?}", l.recv));
		if m.borrow().stop {
			return;
		}
		if name == "recv" {
			for g in &l.recv {
				if m.borrow().stop {
					return;
				}
				compare(m, g.clone());
			}
			if let (Some(Exp::Msg(x, _)), false) = (m.borrow().incoming.front().cloned(), m.borrow().stop) {
				viol(m, "message_lost", &["C01", "C08", "C11", "C12"], format!("{x:?} was never delivered"));
			}
		} else if let Some(n) = name.strip_prefix('q') {
			let no: i64 = n.parse().unwrap();
			drain_check_q(m, no, &l.recv);
		} else if let Some(n) = name.strip_prefix('r') {
			let n: usize = n.parse().unwrap();
			drain_check_r(m, n, &l.recv);
		}
	}
	drop(raw);
}

async fn flush_rest<B: Sys>(m: &W<B>, raw: &Rc<RawStream>) {
	let (stall, mode) = (m.borrow().wire_fixed.is_some(), m.borrow().case.get("endmode"));
	if stall && (mode == 1 || mode == 4) {
		// What arrives while the peer can not write may be lost when the write fails.
		m.borrow_mut().out.clear();
		return;
	}
	if m.borrow().case.get("rest") == 1 {
		// An incomplete message is left over.
		let mut st = m.borrow_mut();
		let started = st.out.front().map(|i| i.done > 0).unwrap_or(false);
		if !started {
			st.out.clear();
			return;
		}
		let first = st.out.pop_front();
		st.out.clear();
		st.out.extend(first);
	}
	if !m.borrow().out.is_empty() {
		flush(m, raw, 0).await;
	}
}

/// Like `got_message`, for a delivery that was recorded earlier.
fn compare<B: Sys>(m: &W<B>, got: Got) {
	let mut st = m.borrow_mut();
	loop {
		let front = st.incoming.front().cloned();
		match (&front, &got) {
			(Some(Exp::Msg(x, _)), Got::Msg(y)) if x == y => {
				st.incoming.pop_front();
				st.opt_used = 0;
				st.delivered += 1;
				return;
			},
			(Some(Exp::Err { optional, .. }), Got::Err(_)) => {
				st.opt_used += *optional as u32;
				st.incoming.pop_front();
				return;
			},
			(Some(Exp::AnyErr), Got::Err(_) | Got::Aborted) => {
				st.incoming.pop_front();
				return;
			},
			(Some(Exp::Err { optional: true, .. }), _) => {
				st.incoming.pop_front();
			},
			(Some(Exp::Err { .. }), _) if st.opt_used > 0 => {
				// The error that was taken for an optional one was this one.
				st.opt_used -= 1;
				st.incoming.pop_front();
			},
			(None, Got::Aborted) => return,
			_ => {
				drop(st);
				// Same report as for a live call.
				let r = match &got {
					Got::Msg(x) => Some(x.clone()),
					_ => None,
				};
				let bad = m.borrow().bad_sent;
				let detail = format!("recv_message returned {got:?}, expected {front:?}");
				match (&front, r) {
					(None, Some(_)) => viol(m, "garbage_delivered", if bad { &["C11"] } else { &["C01", "C03", "C11"] }, detail),
					(None, None) => viol(m, "end_not_aborted", &["C08", "C11", "C12"], detail),
					(Some(Exp::Err { why, .. }), _) => {
						let p: &[&'static str] = match *why {
							"oversize" => &["C13", "C11"],
							"descriptors" => &["C14"],
							"malformed" => &["C11"],
							_ => &["C12"],
						};
						viol(m, "error_not_reported", p, detail)
					},
					_ => viol(m, "message_lost", &["C01", "C03", "C08", "C11", "C12"], detail),
				}
				return;
			},
		}
	}
}

fn start_drains<B: Sys>(m: &W<B>, logs: &Rc<RefCell<BTreeMap<String, Log>>>, keep_peer: bool) {
	let mut st = m.borrow_mut();
	if !keep_peer {
		if let Some(mut h) = st.reader.take() {
			// The model still wants to know that somebody listens.
			st.drained = true;
			let l = logs.clone();
			l.borrow_mut().entry("recv".into()).or_default();
			exec::spawn("A.drain.recv", 1, async move {
				let mut aborted = 0;
				let mut keep = Vec::new();
				for _ in 0..100_000 {
					let r = h.recv_message().await;
					let g = match r {
						Ok(ReceivedMessage::Request(h, b)) => {
							let g = Got::Msg(Msg { typ: REQUEST, id: h.request_id(), svc: h.service_id(), body: b.bytes().to_vec(), inodes: b.inodes() });
							keep.push(h);
							g
						},
						Ok(ReceivedMessage::Stream(x)) => Got::Msg(msg_of(&x)),
						Err(e) if e.is_connection_aborted() => Got::Aborted,
						Err(e) => Got::Err(e.to_string()),
					};
					aborted = if g == Got::Aborted { aborted + 1 } else { 0 };
					l.borrow_mut().get_mut("recv").unwrap().recv.push(g);
					if aborted == 3 {
						break;
					}
				}
				l.borrow_mut().get_mut("recv").unwrap().done = true;
			});
		}
	}
	let nos: Vec<i64> = st.sent.keys().copied().collect();
	for no in nos {
		let Some(mut h) = st.sent.get_mut(&no).unwrap().full.take() else { continue };
		st.sent.get_mut(&no).unwrap().drained = true;
		let l = logs.clone();
		let name = format!("q{no}");
		l.borrow_mut().entry(name.clone()).or_default();
		exec::spawn(format!("A.drain.{name}"), 1, async move {
			let push = |g: Got| l.borrow_mut().get_mut(&name).unwrap().recv.push(g);
			loop {
				match h.recv_update().await {
					Some(x) => push(Got::Msg(msg_of(&x))),
					None => {
						push(Got::None);
						break;
					},
				}
			}
			for _ in 0..2 {
				push(match h.recv_response().await {
					Ok(x) => Got::Msg(msg_of(&x)),
					Err(e) => Got::Err(e.to_string()),
				});
			}
			push(match h.recv_update().await {
				Some(x) => Got::Msg(msg_of(&x)),
				None => Got::None,
			});
			push(match h.send_update(1, B::make(Vec::new(), Vec::new())).await {
				Ok(()) => Got::Unexpected,
				Err(e) => Got::Err(e.to_string()),
			});
			l.borrow_mut().get_mut(&name).unwrap().done = true;
		});
	}
	for n in 0..st.recvd.len() {
		let Some(mut h) = st.recvd[n].full.take() else { continue };
		st.recvd[n].drained = true;
		let l = logs.clone();
		let name = format!("r{n}");
		l.borrow_mut().entry(name.clone()).or_default();
		exec::spawn(format!("A.drain.{name}"), 1, async move {
			let push = |g: Got| l.borrow_mut().get_mut(&name).unwrap().recv.push(g);
			for _ in 0..2 {
				loop {
					match h.recv_update().await {
						Some(x) => push(Got::Msg(msg_of(&x))),
						None => {
							push(Got::None);
							break;
						},
					}
				}
			}
			for i in 0..2 {
				let b = B::make(Vec::new(), Vec::new());
				let r = if i == 0 { h.send_update(1, b).await } else { h.send_response(1, b).await };
				push(match r {
					Ok(()) => Got::Unexpected,
					Err(e) => Got::Err(e.to_string()),
				});
			}
			l.borrow_mut().get_mut(&name).unwrap().done = true;
		});
	}
}

fn same(a: &[Got], b: &[Got]) -> bool {
	a.len() == b.len()
		&& a.iter().zip(b).all(|(x, y)| match (x, y) {
			(Got::Err(_), Got::Err(_)) => true,
			(x, y) => x == y,
		})
}

fn drain_check_q<B: Sys>(m: &W<B>, no: i64, got: &[Got]) {
	let mut st = m.borrow_mut();
	let s = &st.sent[&no];
	let id = s.id;
	let mut want: Vec<Got> = s.q.iter().filter(|x| x.typ == RUPDATE).map(|x| Got::Msg(x.clone())).collect();
	want.push(Got::None);
	let e = || Got::Err(String::new());
	match s.q.iter().find(|x| x.typ == RESPONSE) {
		Some(x) => want.push(Got::Msg(x.clone())),
		None => want.push(e()),
	}
	want.extend([e(), Got::None, e()]);
	st.delivered += s_count(&want);
	if !same(got, &want) {
		drop(st);
		viol(m, "request_end", &["C07", "C08", "C03", "C04"], format!("request {no} (id {id}), updates then responses until the end: {got:?}, expected {want:?}"));
	}
}

fn s_count(w: &[Got]) -> u64 {
	w.iter().filter(|x| matches!(x, Got::Msg(_))).count() as u64
}

fn drain_check_r<B: Sys>(m: &W<B>, n: usize, got: &[Got]) {
	let mut st = m.borrow_mut();
	let r = &st.recvd[n];
	let id = r.id;
	let mut want: Vec<Got> = r.q.iter().map(|x| Got::Msg(x.clone())).collect();
	want.extend([Got::None, Got::None, Got::Err(String::new()), Got::Err(String::new())]);
	st.delivered += s_count(&want);
	if !same(got, &want) {
		drop(st);
		viol(m, "request_end", &["C07", "C08", "C03", "C04"], format!("received request #{n} (id {id}), updates until the end, then sends: {got:?}, expected {want:?}"));
	}
}

// ------------------------------------------------------------------ wire

fn check_wire<B: Sys>(m: &W<B>) {
	let (sock, seq, end, cut, stop) = {
		let st = m.borrow();
		(st.sock[0], st.seq, st.end, st.cut, st.stop)
	};
	if stop {
		return;
	}
	let w = decode_wire(sock, seq, end);
	if let Some(c) = &w.corrupt {
		viol(m, "wire_format", &["C02", "C01"], format!("what the peer wrote is not a sequence of frames: {c}"));
		return;
	}
	if !w.tail.is_empty() && !cut {
		viol(m, "wire_tail", &["C02", "C06"], format!("the peer wrote {} bytes of an incomplete frame", w.tail.len()));
		return;
	}
	let mut want = m.borrow().wire.clone();
	if let Some(n) = m.borrow().wire_fixed {
		want.truncate(n);
	}
	for (i, e) in want.iter().enumerate() {
		let got = w.frames.get(i).map(|f| &f.msg);
		let ok = match (e, got) {
			(WireExp::Msg(a), Some(b)) => a == b,
			(WireExp::Auto(id), Some(b)) => b.typ == RESPONSE && b.id == *id && b.svc == -1 && std::str::from_utf8(&b.body).is_ok(),
			(_, None) => false,
		};
		if !ok {
			match (e, got) {
				(WireExp::Auto(_), None) if cut => return,
				(WireExp::Auto(id), _) => viol(m, "no_automatic_response", &["C10"], format!("frame {i} on the wire is {got:?}, expected an error response for request {id}")),
				(WireExp::Msg(x), Some(g)) if g.typ == RESPONSE && g.svc == -1 && x.svc != -1 => {
					viol(m, "extra_response", &["C10", "C12", "C04"], format!("frame {i} on the wire is {g:?}, expected {x:?}"))
				},
				(WireExp::Msg(x), _) => viol(m, "wire_mismatch", &["C02", "C06", "C01", "C04"], format!("frame {i} on the wire is {got:?}, expected {x:?}")),
			}
			return;
		}
	}
	if m.borrow().wire_fixed.is_none() && w.frames.len() > want.len() {
		let x = &w.frames[want.len()].msg;
		viol(m, "extra_frame", &["C04", "C06", "C10", "C12", "C02"], format!("the peer wrote {x:?}, which nobody sent"));
	}
}

//! Scenario "wire": two real transports without peers. Their halves are used directly,
//! reads and writes are abandoned and taken up again, and halves are made anew between messages.

use crate::case::{Case, Op, Outcome, Violation};
use crate::duo::{install_faults, kind_of};
use crate::util::*;
use crate::world::*;
use fizyr_rpc::transport::{Transport, TransportError, TransportReadHalf, TransportWriteHalf};
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::exec;
use simcore::net;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

#[derive(Clone, Debug, PartialEq)]
enum Res {
	Pending,
	Ok,
	/// An error that is not fatal.
	Refused(String),
	Fatal(String),
	Abandoned,
}

#[derive(Clone, Debug)]
struct Sent {
	msg: Msg,
	res: Res,
	phase: u32,
	resumed: bool,
}

#[derive(Clone, Debug)]
enum Got {
	Msg(Msg),
	Refused(String),
	/// A fatal error, and whether it says that the connection was closed.
	Fatal(String, bool),
}

#[derive(Default)]
struct SideRec {
	sent: Vec<Sent>,
	got: Vec<Got>,
	/// The reading half was given up before the end of the connection.
	stopped: bool,
	writer_done: bool,
	cancelled_reads: u64,
	cancelled_writes: u64,
}

#[derive(Default)]
struct Rec {
	sides: [SideRec; 2],
	viol: Vec<Violation>,
	next: usize,
	late: bool,
	/// The wire end of side 0 was dropped in the middle of things.
	cut: bool,
	splits: u64,
}

#[derive(Clone)]
struct W {
	rec: Rc<RefCell<Rec>>,
	case: Rc<Case>,
	sock: [usize; 2],
	seq: bool,
	end: End,
}

impl W {
	fn viol(&self, rule: &'static str, props: &[&'static str], detail: String) {
		self.rec.borrow_mut().viol.push(Violation { rule, props: props.to_vec(), detail });
	}
}

/// A transport that lives as long as any of its halves.
struct Holder<T>(*mut T);
impl<T> Drop for Holder<T> {
	fn drop(&mut self) {
		// SAFETY: made by Box::into_raw; every half holds a reference to this.
		drop(unsafe { Box::from_raw(self.0) });
	}
}

/// Controls one side without knowing its type of transport.
trait Ctl {
	fn start(&self, w: &W, phase: u32) -> Vec<exec::TaskId>;
	fn write_more(&self, w: &W, n: usize) -> exec::TaskId;
}

struct Side<T>(Rc<Holder<T>>, usize);

impl<B: Sys, T: Transport<Body = B>> Side<T> {
	/// Split the transport.
	#[allow(clippy::type_complexity)]
	fn halves(&self) -> ((T::ReadHalf<'static>, Rc<Holder<T>>), (T::WriteHalf<'static>, Rc<Holder<T>>)) {
		// SAFETY: the box stays in place until the last holder is dropped, which is after the halves,
		// and the halves of an earlier split are gone by now.
		let t: &'static mut T = unsafe { &mut *self.0 .0 };
		let (r, w) = t.split();
		((r, self.0.clone()), (w, self.0.clone()))
	}
}

impl<B: Sys, T: Transport<Body = B>> Ctl for Side<T> {
	fn start(&self, w: &W, phase: u32) -> Vec<exec::TaskId> {
		let side = self.1;
		let ((r, k1), (wr, k2)) = self.halves();
		w.rec.borrow_mut().splits += 1;
		let ops = |n: &str| w.case.actors.get(&format!("{}.{n}{phase}", SIDES[side])).cloned().unwrap_or_default();
		let (rops, wops) = (ops("r"), ops("w"));
		w.rec.borrow_mut().sides[side].writer_done = false;
		w.rec.borrow_mut().sides[side].stopped = false;
		let (w1, w2) = (w.clone(), w.clone());
		// The order of the locals matters: the half goes before its holder.
		let reading = async move {
			let _k = k1;
			let r = r;
			read(w1, side, r, rops).await;
		};
		let writing = async move {
			let _k = k2;
			let wr = wr;
			write::<B, _>(w2, side, phase, wr, wops).await;
		};
		let node = side as u32 + 1;
		if w.case.get(&key(side, "one")) == 1 {
			// Both halves in one task, which is always woken for both.
			let (mut a, mut b) = (Some(Box::pin(reading)), Some(Box::pin(writing)));
			let both = std::future::poll_fn(move |cx| {
				if a.as_mut().is_some_and(|f| f.as_mut().poll(cx).is_ready()) {
					a = None;
				}
				if b.as_mut().is_some_and(|f| f.as_mut().poll(cx).is_ready()) {
					b = None;
				}
				if a.is_none() && b.is_none() {
					return Poll::Ready(());
				}
				Poll::Pending
			});
			vec![exec::spawn(format!("{}.both", SIDES[side]), node, both)]
		} else {
			vec![
				exec::spawn(format!("{}.reader", SIDES[side]), node, reading),
				exec::spawn(format!("{}.writer", SIDES[side]), node, writing),
			]
		}
	}

	fn write_more(&self, w: &W, n: usize) -> exec::TaskId {
		let side = self.1;
		let (_, (wr, k)) = self.halves();
		let w = w.clone();
		let ops = (0..n).map(|i| Op::new("send", &[4, 7, 40 + i as i64])).collect();
		exec::spawn(format!("{}.late", SIDES[side]), side as u32 + 1, async move {
			let _k = k;
			let wr = wr;
			write::<B, _>(w, side, 9, wr, ops).await;
		})
	}
}

fn via<S>(case: &Case, side: usize, sock: S, cfg: <S as util::IntoTransport>::Config, new: impl FnOnce(S, S::Config) -> S::Transport) -> Box<dyn Ctl>
where
	S: util::IntoTransport,
	S::Body: Sys,
	S::Transport: Transport<Body = S::Body>,
{
	fn ctl<B: Sys, T: Transport<Body = B>>(t: T, side: usize) -> Box<dyn Ctl> {
		Box::new(Side(Rc::new(Holder(Box::into_raw(Box::new(t)))), side))
	}
	match case.get(&key(side, "via")) {
		0 => ctl(new(sock, cfg), side),
		1 => ctl(sock.into_transport(cfg), side),
		n => ctl(Wrapped { inner: sock.into_transport(cfg), mode: n }, side),
	}
}

fn side(case: &Case, side: usize, sock: usize) -> Box<dyn Ctl> {
	match case.get("kind") {
		0 => via(case, side, tokio::net::TcpStream::from_sim(sock), stream_config(case, side), TcpTransport::new),
		1 => via(case, side, tokio::net::UnixStream::from_sim(sock), stream_config(case, side), UnixStreamTransport::new),
		_ => via(case, side, tokio_seqpacket::UnixSeqpacket::from_sim(sock), unix_config(case, side), UnixSeqpacketTransport::new),
	}
}

fn header(typ: i64, id: u32, svc: i32) -> MessageHeader {
	match typ {
		0 => MessageHeader::request(id, svc),
		1 if svc == -1 => MessageHeader::error_response(id),
		1 => MessageHeader::response(id, svc),
		2 => MessageHeader::requester_update(id, svc),
		3 => MessageHeader::responder_update(id, svc),
		_ => MessageHeader::stream(id, svc),
	}
}

/// How many descriptors and bytes are too many.
fn refused_at_sender(w: &W, side: usize, len: usize, nfds: usize) -> bool {
	len > can_write(&w.case, side) || w.seq && nfds > max_fds_write(&w.case, side)
}
fn refused_at_receiver(w: &W, to: usize, m: &Msg) -> bool {
	m.body.len() > max_read(&w.case, to) || w.seq && m.inodes.len() > max_fds_read(&w.case, to)
}

/// send <type> <id> <len> <fds> <cancels> <cancel> <pause> <give up>
async fn write<B: Sys, H: TransportWriteHalf<Body = B>>(w: W, side: usize, phase: u32, half: H, ops: Vec<Op>) {
	let mut half = half;
	for op in &ops {
		match op.name.as_str() {
			"wait" => exec::sleep(op.arg(0) as u64).await,
			"send" => {
				let n = {
					let mut r = w.rec.borrow_mut();
					r.next += 1;
					r.next
				};
				let typ = op.arg(0);
				let svc = if typ == 1 && n % 4 == 0 { -1 } else { tag(n) };
				let id = op.arg(1) as u32;
				let head = header(typ, id, svc);
				let len = op.arg(2) as usize;
				let data = body(tag(n), len);
				let nfds = if w.seq { op.arg(3) as usize } else { 0 };
				let mut b = B::make(data.clone(), (0..nfds).map(|_| memfd()).collect());
				let msg = Msg { typ: typ as u32, id, svc, body: data.clone(), inodes: b.inodes() };
				let at = {
					let mut r = w.rec.borrow_mut();
					r.sides[side].sent.push(Sent { msg, res: Res::Pending, phase, resumed: false });
					r.sides[side].sent.len() - 1
				};
				let mut left = op.arg(4);
				let res = loop {
					// The values may move between attempts.
					let h2 = Box::new(head);
					if nfds == 0 {
						b = B::make(data.clone(), Vec::new());
					}
					let b2 = Box::new(b);
					let cancel = if left > 0 { op.arg(5) } else { 0 };
					let r = if cancel == 0 && n % 3 == 0 {
						Some(with_fresh(std::future::poll_fn(|cx| Pin::new(&mut half).poll_write_msg(cx, &h2, &b2))).await)
					} else {
						guard(half.write_msg(&h2, &b2), cancel, || ()).await
					};
					b = *b2;
					match r {
						Some(Ok(())) => break Res::Ok,
						Some(Err(e)) => break failure(e).0,
						None => {
							left -= 1;
							let mut r = w.rec.borrow_mut();
							r.sides[side].cancelled_writes += 1;
							r.sides[side].sent[at].resumed = true;
							drop(r);
							if left <= 0 && op.arg(7) == 1 {
								break Res::Abandoned;
							}
							match op.arg(6) {
								0 => (),
								1 => exec::yield_now().await,
								d => exec::sleep(d as u64).await,
							}
						},
					}
				};
				w.rec.borrow_mut().sides[side].sent[at].res = res.clone();
				wrote(&w, side, at);
				if matches!(res, Res::Abandoned | Res::Fatal(_)) {
					break;
				}
			},
			_ => panic!("harness: unknown operation {}", op.name),
		}
	}
	w.rec.borrow_mut().sides[side].writer_done = true;
}

fn failure(e: TransportError) -> (Res, bool) {
	let t = format!("{e}");
	let fatal = e.is_fatal();
	let text = format!("{t} / {}", e.inner());
	let ab = e.into_inner().is_connection_aborted();
	(if fatal { Res::Fatal(text) } else { Res::Refused(text) }, ab)
}

/// What must hold when a write is over.
fn wrote(w: &W, side: usize, at: usize) {
	let _g = exec::no_preempt();
	let wire = decode_wire(w.sock[side], w.seq, w.end);
	let s = w.rec.borrow().sides[side].sent[at].clone();
	let what = format!("side {}, message {:?}{}", SIDES[side], s.msg, if s.resumed { ", written in several attempts" } else { "" });
	let limit = refused_at_sender(w, side, s.msg.body.len(), s.msg.inodes.len());
	let by_config = s.msg.body.len() > max_write(&w.case, side) || w.seq && s.msg.inodes.len() > max_fds_write(&w.case, side);
	let lp: &[&'static str] = if s.msg.body.len() > can_write(&w.case, side) { &["C22", "C13"] } else { &["C22", "C14"] };
	match &s.res {
		Res::Ok if limit => w.viol("limit_ignored", lp, format!("{what}: written although it is over the limit")),
		Res::Ok => {
			let ok: Vec<Msg> = w.rec.borrow().sides[side].sent.iter().filter(|s| s.res == Res::Ok).map(|s| s.msg.clone()).collect();
			let on: Vec<Msg> = wire.frames.iter().map(|f| f.msg.clone()).collect();
			if let Some(c) = &wire.corrupt {
				w.viol("wire_corrupt", &["C22", "C02"], format!("{what}: {c} on the wire"));
			} else if !wire.tail.is_empty() {
				w.viol("wire_incomplete", &["C22", "C02"], format!("{what}: reported as written, but {} bytes follow the last complete frame", wire.tail.len()));
			} else if ok != on {
				w.viol("wire_differs", &["C22", "C02"], format!("{what}: reported as written; the wire has {on:?} where {ok:?} was written"));
			}
		},
		Res::Refused(e) if !limit => w.viol("refused", &["C22", "C13", "C14"], format!("{what}: refused with a non-fatal error: {e}")),
		Res::Refused(_) => {
			let ok = w.rec.borrow().sides[side].sent.iter().filter(|s| s.res == Res::Ok).count();
			if wire.frames.len() != ok || !wire.tail.is_empty() {
				w.viol("refused_sent", lp, format!("{what}: refused, but something of it is on the wire"));
			}
		},
		// The operating system comes after the limit, and may find the connection gone.
		Res::Fatal(e) if limit && (by_config || net::sock_info(w.sock[side]).last_write_err.is_none()) => w.viol("refusal_fatal", lp, format!("{what}: refusing it was fatal: {e}")),
		Res::Fatal(e) => {
			let i = net::sock_info(w.sock[side]);
			if i.last_write_err.is_none() {
				w.viol("write_failed", &["C22"], format!("{what}: failed though the socket did not: {e}"));
			}
		},
		_ => (),
	}
}

/// take <cancels> <cancel> <pause>
async fn read<B: Sys, H: TransportReadHalf<Body = B>>(w: W, side: usize, half: H, ops: Vec<Op>) {
	let mut half = half;
	for i in 0.. {
		let op = if ops.is_empty() { Op::new("take", &[]) } else { ops[i % ops.len()].clone() };
		if op.name == "stop" {
			w.rec.borrow_mut().sides[side].stopped = true;
			return;
		}
		let mut left = op.arg(0);
		let got = loop {
			let cancel = if left > 0 { op.arg(1) } else { 0 };
			let r = if cancel == 0 && i % 3 == 0 {
				Some(with_fresh(std::future::poll_fn(|cx| Pin::new(&mut half).poll_read_msg(cx))).await)
			} else {
				guard(half.read_msg(), cancel, || ()).await
			};
			match r {
				Some(r) => break r,
				None => {
					left -= 1;
					w.rec.borrow_mut().sides[side].cancelled_reads += 1;
					match op.arg(2) {
						0 => (),
						1 => exec::yield_now().await,
						d => exec::sleep(d as u64).await,
					}
				},
			}
		};
		let got = match got {
			Ok(m) => Got::Msg(msg_of(&m)),
			Err(e) => match failure(e) {
				(Res::Fatal(t), ab) => Got::Fatal(t, ab),
				(Res::Refused(t), _) => Got::Refused(t),
				_ => unreachable!(),
			},
		};
		let fatal = matches!(got, Got::Fatal(..));
		let mut r = w.rec.borrow_mut();
		r.sides[side].got.push(got);
		// A half that never comes to an end shows up in the results.
		if fatal || r.sides[side].got.len() > r.next + 20 {
			return;
		}
	}
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	fresh_wakers(case.get("fresh") == 1);
	net::configure(case.net_config());
	let (a, b) = net::pair(kind_of(case));
	net::set_node(a, 1);
	net::set_node(b, 2);
	let sock = [a, b];
	for side in 0..2 {
		if let Some(c) = case.cfg.get(&key(side, "cap")) {
			net::set_cap(sock[side], *c as usize);
		}
	}
	let w = W { rec: Rc::default(), case: Rc::new(case.clone()), sock, seq: case.get("kind") == 2, end: End::from_cfg(case.get("endian")).0 };
	let w2 = w.clone();
	exec::spawn("control", 0, control(w2));
	let report = exec::run();
	let mut out = Outcome::default();
	for p in &report.panics {
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			w.viol("panic", ALL, format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			w.viol("harness", &[], format!("harness panic in {}: {} at {}", p.task, p.message, p.location));
		}
	}
	if report.step_limit {
		w.viol("no_progress", &["C22", "C16"], format!("still busy after {} scheduling steps, without any progress", report.steps));
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let r = w.rec.borrow();
		let mut sig = 0;
		let mut n = 0;
		for s in &r.sides {
			for g in &s.got {
				n += matches!(g, Got::Msg(_)) as u64;
				sig = mix(sig ^ hash_str(&format!("{g:?}")));
			}
			for x in &s.sent {
				sig = mix(sig ^ hash_str(&format!("{:?}{}", x.res, x.resumed)));
			}
			let mut add = |k: &str, v: u64| *out.stats.entry(format!("wire.{k}")).or_default() += v;
			add("written", s.sent.iter().filter(|s| s.res == Res::Ok).count() as u64);
			add("written_in_parts", s.sent.iter().filter(|s| s.res == Res::Ok && s.resumed).count() as u64);
			add("refused", s.sent.iter().filter(|s| matches!(s.res, Res::Refused(_))).count() as u64);
			add("abandoned", s.sent.iter().filter(|s| s.res == Res::Abandoned).count() as u64);
			add("cancelled_reads", s.cancelled_reads);
			add("cancelled_writes", s.cancelled_writes);
		}
		*out.stats.entry("wire.read".into()).or_default() += n;
		*out.stats.entry("wire.splits".into()).or_default() += r.splits;
		out.sig = sig;
		out.trivial = n == 0;
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	exec::teardown();
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		w.viol("fd_leak", &["C22", "C14"], format!("{} file descriptors are still open after everything was dropped", fds1 - fds0));
	}
	out.violations = std::mem::take(&mut w.rec.borrow_mut().viol);
	out.report = report;
	out
}

/// Whether the faults of this run can end the connection (delays cannot).
fn breaks(case: &Case) -> bool {
	case.faults.iter().any(|f| !matches!(f.name.as_str(), "stall_rx" | "stall_tx" | "partition"))
}

async fn control(w: W) {
	let case = w.case.clone();
	install_faults(&case, &w.sock);
	let mut ctl = [Some(side(&case, 0, w.sock[0])), Some(side(&case, 1, w.sock[1]))];
	let faulty = breaks(&case);
	let mut tasks = [Vec::new(), Vec::new()];
	for phase in 1..=case.get_or("phases", 1) as u32 {
		for s in 0..2 {
			tasks[s] = ctl[s].as_ref().unwrap().start(&w, phase);
		}
		if let Some(t) = case.cfg.get("cut").filter(|_| phase == 1) {
			exec::sleep(*t as u64).await;
			w.rec.borrow_mut().cut = true;
			for t in &tasks[0] {
				exec::abort_task(*t);
			}
			ctl[0] = None;
		}
		exec::idle().await;
		let broken = faulty || w.rec.borrow().cut;
		if !broken {
			progress(&w);
		}
		received(&w, false);
		// The halves are made anew only between messages (some may wait to be read).
		let r = w.rec.borrow();
		let over = broken
			|| !r.viol.is_empty()
			|| r.sides.iter().any(|s| !s.writer_done || s.got.iter().any(|g| matches!(g, Got::Fatal(..))) || s.sent.iter().any(|x| !matches!(x.res, Res::Ok | Res::Refused(_))));
		drop(r);
		if over || phase == case.get_or("phases", 1) as u32 {
			break;
		}
		for s in 0..2 {
			for t in &tasks[s] {
				exec::abort_task(*t);
			}
		}
		exec::yield_now().await;
	}
	if !w.rec.borrow().viol.is_empty() {
		return;
	}
	let quiet = !faulty && !w.rec.borrow().cut;
	w.rec.borrow_mut().late = true;
	if case.get("endmode") == 0 && quiet {
		net::shutdown_write(w.sock[0]);
		net::shutdown_write(w.sock[1]);
		exec::idle().await;
		received(&w, true);
		return;
	}
	// One side goes away altogether.
	for t in &tasks[0] {
		exec::abort_task(*t);
	}
	ctl[0] = None;
	exec::idle().await;
	received(&w, true);
	let idle_writer = {
		let r = w.rec.borrow();
		let s = &r.sides[1];
		s.writer_done && s.sent.iter().all(|x| matches!(x.res, Res::Ok | Res::Refused(_)))
	};
	if quiet && idle_writer {
		for t in &tasks[1] {
			exec::abort_task(*t);
		}
		exec::yield_now().await;
		let before = w.rec.borrow().sides[1].sent.len();
		let t = ctl[1].as_ref().unwrap().write_more(&w, 4);
		exec::idle().await;
		if !exec::task_done(t) {
			w.viol("late_write_blocked", &["C22"], "a write waits though the other side is gone".into());
			return;
		}
		let r = w.rec.borrow();
		let late: Vec<Res> = r.sides[1].sent[before..].iter().map(|s| s.res.clone()).collect();
		drop(r);
		// Nothing that is sent to a closed unix socket is accepted; over TCP the news takes a round trip.
		let ok = late.iter().filter(|r| **r == Res::Ok).count();
		if ok > 0 && case.get("kind") != 0 {
			w.viol("late_write", &["C22"], format!("a write was reported as done though the other side is gone: {late:?}"));
		}
	}
}

/// Nothing may be waiting once the network has come to rest.
fn progress(w: &W) {
	let r = w.rec.borrow();
	let mut bad = Vec::new();
	for s in 0..2 {
		let o = &r.sides[1 - s];
		let reader_gone = o.stopped || o.got.iter().any(|g| matches!(g, Got::Fatal(..)));
		if !r.sides[s].writer_done && !reader_gone {
			if let Some(x) = r.sides[s].sent.iter().find(|x| x.res == Res::Pending) {
				bad.push(format!("side {} waits forever to write {:?}{}", SIDES[s], x.msg, if x.resumed { " in several attempts" } else { "" }));
			} else {
				bad.push(format!("the writer of side {} is not done", SIDES[s]));
			}
		}
	}
	drop(r);
	for b in bad {
		w.viol("write_blocked", &["C22", "C16"], b);
	}
}

/// What the halves returned, against what is on the wire.
fn received(w: &W, ended: bool) {
	let _g = exec::no_preempt();
	let faulty = breaks(&w.case) || w.rec.borrow().cut;
	for to in 0..2 {
		let from = 1 - to;
		// A side that goes away without having read everything resets the connection.
		let faulty = faulty || net::sock_info(w.sock[to]).err_read.is_some();
		let wire = decode_wire(w.sock[from], w.seq, w.end);
		let r = w.rec.borrow();
		let got = r.sides[to].got.clone();
		let stopped = r.sides[to].stopped;
		let parts = r.sides[from].cancelled_writes > 0;
		let readc = r.sides[to].cancelled_reads > 0;
		let ok: Vec<Msg> = r.sides[from].sent.iter().filter(|s| s.res == Res::Ok).map(|s| s.msg.clone()).collect();
		let open: Option<Sent> = r.sides[from].sent.iter().find(|s| !matches!(s.res, Res::Ok | Res::Refused(_))).cloned();
		let viol = !r.viol.is_empty();
		drop(r);
		if viol {
			return;
		}
		if let Some(c) = &wire.corrupt {
			w.viol("wire_corrupt", &["C22", "C02"], format!("side {}: {c}", SIDES[from]));
			return;
		}
		// On the wire: everything that was reported as written, and at most the one that is not done.
		let on: Vec<Msg> = wire.frames.iter().map(|f| f.msg.clone()).collect();
		let mut max = ok.clone();
		max.extend(open.iter().map(|s| s.msg.clone()));
		if on.len() < ok.len() || on.len() > max.len() || on[..] != max[..on.len()] {
			w.viol("wire_differs", &["C22", "C02"], format!("side {}: the wire has {on:?} where {max:?} was written", SIDES[from]));
			return;
		}
		let props: Vec<&'static str> = {
			let mut p = vec!["C22"];
			if !w.seq && !parts {
				p.push("C01");
			}
			if readc && !parts {
				p.push("C15");
			}
			p
		};
		let what = format!(
			"side {}{}",
			SIDES[to],
			if readc { ", reading in several attempts" } else { "" },
		);
		let mut i = 0;
		for m in &on {
			let refuse = refused_at_receiver(w, to, m);
			let lp: &[&'static str] = if m.body.len() > max_read(&w.case, to) { &["C22", "C13"] } else { &["C22", "C14"] };
			match got.get(i) {
				None if stopped || faulty => break,
				None if refuse => {
					w.viol("refusal_missing", lp, format!("{what}: nothing was returned for {m:?}, which is over the limit"));
					return;
				},
				None => {
					w.viol("read_blocked", if readc && !parts { &["C22", "C16", "C15"] } else { &["C22", "C16"] }, format!("{what}: {m:?} was never returned"));
					return;
				},
				Some(Got::Msg(g)) if refuse => {
					w.viol("limit_ignored", lp, format!("{what}: {g:?} was returned for {m:?}, which is over the limit"));
					return;
				},
				Some(Got::Msg(g)) if g != m => {
					w.viol("wrong_message", &props, format!("{what}: {g:?} was returned where {m:?} was sent"));
					return;
				},
				Some(Got::Msg(_)) => (),
				Some(Got::Refused(e)) if !refuse => {
					w.viol("refused", &["C22", "C13", "C14"], format!("{what}: {m:?} was refused: {e}"));
					return;
				},
				Some(Got::Refused(e)) if !w.seq => {
					w.viol("refusal_not_fatal", &["C22"], format!("{what}: the rest of {m:?} is still in the stream, but the error is not fatal: {e}"));
					return;
				},
				Some(Got::Refused(_)) => (),
				Some(Got::Fatal(e, _)) if refuse && w.seq && !faulty => {
					w.viol("refusal_fatal", lp, format!("{what}: refusing {m:?} was fatal: {e}"));
					return;
				},
				// Nothing after this can be read.
				Some(Got::Fatal(_, false)) if refuse && !w.seq => {
					i += 1;
					break;
				},
				Some(Got::Fatal(e, _)) => {
					if !faulty {
						w.viol("read_failed", &props, format!("{what}: failed where {m:?} was to be read: {e}"));
						return;
					}
					i += 1;
					break;
				},
			}
			i += 1;
		}
		let fatal = got[..i.min(got.len())].iter().any(|g| matches!(g, Got::Fatal(..)));
		let rest = &got[i.min(got.len())..];
		// What is left of the results: only the header of a message of which the body never came, or the end.
		let cut_big = !w.seq && wire.tail.len() >= 16 && w.end.u32(&wire.tail) as usize - 12 > max_read(&w.case, to);
		for (k, g) in rest.iter().enumerate() {
			match g {
				Got::Fatal(_, false) if k == 0 && cut_big => (),
				Got::Fatal(e, ab) if k == 0 && !fatal => {
					let clean = ended && !faulty;
					if !ended && !faulty {
						w.viol("read_failed", &["C22"], format!("{what}: reported an error though the connection is fine: {e}"));
						return;
					}
					if clean && !ab && net::sock_info(w.sock[to]).err_read.is_none() {
						w.viol("end_error", &["C22"], format!("{what}: the end of the connection was reported as: {e}"));
						return;
					}
				},
				Got::Refused(e) => {
					w.viol("end_not_fatal", &["C22"], format!("{what}: reported a non-fatal error though nothing was over a limit: {e}"));
					return;
				},
				g => {
					w.viol("extra_message", &props, format!("{what}: returned {g:?} after everything that was sent"));
					return;
				},
			}
		}
		let k = net::sock_info(w.sock[to]);
		if k.err_read.is_some() && !k.eof_read && got.iter().any(|g| matches!(g, Got::Fatal(_, true))) {
			w.viol("failure_as_end", &["C22"], format!("{what}: a failure of the connection (errno {}) was reported as an orderly end", k.err_read.unwrap_or(0)));
			return;
		}
		let alive = !(ended && to == 0 && w.case.get("endmode") != 0) && !(w.rec.borrow().cut && to == 0);
		let any_fatal = got.iter().any(|g| matches!(g, Got::Fatal(..)));
		let i = net::sock_info(w.sock[to]);
		if ended && alive && !stopped && !any_fatal && (!faulty || i.eof_read || i.err_read.is_some()) {
			w.viol("end_missing", &["C22", "C16"], format!("{what}: still waits to read though the connection has ended"));
		}
	}
}

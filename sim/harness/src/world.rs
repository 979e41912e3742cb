//! Handles, the ledger of everything the application did and saw, and the
//! interpreter that runs one actor's operations against real handles.

use crate::case::{Case, Op, Violation};
use crate::util::*;
use fizyr_rpc::*;
use simcore::exec::{self, stamp};
use simcore::net::SockId;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;

/// Body types together with a way to make a real peer on a simulated socket.
pub trait Sys: TB {
	fn peer(case: &Case, side: usize, sock: SockId, how: How) -> (Option<exec::TaskId>, PeerHandle<Self>);
}

#[derive(Clone, Copy, PartialEq)]
pub enum How {
	/// `Peer::new` and `run` in a task the harness can abort.
	Run,
	/// `Peer::spawn`.
	Spawn,
}

pub const SIDES: [&str; 2] = ["A", "B"];

pub fn key(side: usize, k: &str) -> String {
	format!("{k}_{}", SIDES[side])
}

fn run_peer<T>(t: T, side: usize, how: How) -> (Option<exec::TaskId>, PeerHandle<T::Body>)
where
	T: transport::Transport + std::marker::Send + 'static,
{
	match how {
		How::Spawn => (None, Peer::spawn(t)),
		How::Run => {
			let (p, h) = Peer::new(t);
			let id = exec::spawn_raw(format!("{}.run", SIDES[side]), exec::Origin::Subject, Some(side as u32 + 1), Box::pin(with_fresh(p.run())));
			(Some(id), h)
		},
	}
}

pub fn stream_config(case: &Case, side: usize) -> StreamConfig {
	let mut c = StreamConfig::default();
	if let Some(v) = case.cfg.get(&key(side, "maxr")) {
		c.max_body_len_read = *v as u32;
	}
	if let Some(v) = case.cfg.get(&key(side, "maxw")) {
		c.max_body_len_write = *v as u32;
	}
	if case.get("endian") != 3 {
		c.endian = End::from_cfg(case.get("endian")).1;
	}
	c
}

pub fn unix_config(case: &Case, side: usize) -> UnixConfig {
	let mut c = UnixConfig::default();
	if let Some(v) = case.cfg.get(&key(side, "maxr")) {
		c.max_body_len_read = *v as u32;
	}
	if let Some(v) = case.cfg.get(&key(side, "maxw")) {
		c.max_body_len_write = *v as u32;
	}
	if let Some(v) = case.cfg.get(&key(side, "fdr")) {
		c.max_fds_read = *v as u32;
	}
	if let Some(v) = case.cfg.get(&key(side, "fdw")) {
		c.max_fds_write = *v as u32;
	}
	if case.get("endian") != 3 {
		c.endian = End::from_cfg(case.get("endian")).1;
	}
	c
}

/// The ways to a transport for a connected socket.
fn via<S>(case: &Case, side: usize, sock: S, cfg: <S as util::IntoTransport>::Config, new: impl FnOnce(S, S::Config) -> S::Transport, how: How) -> (Option<exec::TaskId>, PeerHandle<S::Body>)
where
	S: util::IntoTransport,
	S::Config: Default,
{
	let plain = case.get("endian") == 3 && ["maxr", "maxw", "fdr", "fdw"].iter().all(|k| !case.cfg.contains_key(&key(side, k)));
	match case.get(&key(side, "via")) {
		1 if plain => run_peer(sock.into_default_transport(), side, how),
		0 => run_peer(new(sock, cfg), side, how),
		1 => run_peer(sock.into_transport(cfg), side, how),
		n => run_peer(Wrapped { inner: sock.into_transport(cfg), mode: n }, side, how),
	}
}

/// A transport of the application's own making, that hands out wrapped halves.
pub struct Wrapped<T> {
	pub inner: T,
	pub mode: i64,
}

impl<T: transport::Transport> transport::Transport for Wrapped<T> {
	type Body = T::Body;
	type Info = T::Info;
	type Config = T::Config;
	type ReadHalf<'a> = Box<std::pin::Pin<Box<Counted<T::ReadHalf<'a>>>>>;
	type WriteHalf<'a> = std::pin::Pin<Box<Box<Counted<T::WriteHalf<'a>>>>>;

	fn split(&mut self) -> (Self::ReadHalf<'_>, Self::WriteHalf<'_>) {
		let (r, w) = self.inner.split();
		let every = if self.mode == 2 { u32::MAX } else { self.mode as u32 };
		(Box::new(Box::pin(Counted(r, 0, every))), Box::pin(Box::new(Counted(w, 0, every))))
	}

	fn info(&self) -> std::io::Result<Self::Info> {
		self.inner.info()
	}
}

/// A half that passes everything on through references and now and then says that it is not ready.
pub struct Counted<H>(H, u32, u32);

impl<H> Counted<H> {
	fn busy(&mut self, cx: &mut std::task::Context) -> bool {
		self.1 += 1;
		if self.1 % self.2 == 0 {
			cx.waker().wake_by_ref();
			return true;
		}
		false
	}
}

impl<H: transport::TransportReadHalf> transport::TransportReadHalf for Counted<H> {
	type Body = H::Body;
	fn poll_read_msg(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context) -> std::task::Poll<Result<Message<H::Body>, transport::TransportError>> {
		if self.busy(cx) {
			return std::task::Poll::Pending;
		}
		let mut half = &mut self.0;
		std::pin::Pin::new(&mut half).poll_read_msg(cx)
	}
}

impl<H: transport::TransportWriteHalf> transport::TransportWriteHalf for Counted<H> {
	type Body = H::Body;
	fn poll_write_msg(
		mut self: std::pin::Pin<&mut Self>,
		cx: &mut std::task::Context,
		header: &MessageHeader,
		body: &H::Body,
	) -> std::task::Poll<Result<(), transport::TransportError>> {
		if self.busy(cx) {
			return std::task::Poll::Pending;
		}
		let mut half = &mut self.0;
		std::pin::Pin::new(&mut half).poll_write_msg(cx, header, body)
	}
}

impl Sys for StreamBody {
	fn peer(case: &Case, side: usize, sock: SockId, how: How) -> (Option<exec::TaskId>, PeerHandle<Self>) {
		let cfg = stream_config(case, side);
		if case.get("kind") == 0 {
			via(case, side, tokio::net::TcpStream::from_sim(sock), cfg, TcpTransport::new, how)
		} else {
			via(case, side, tokio::net::UnixStream::from_sim(sock), cfg, UnixStreamTransport::new, how)
		}
	}
}

impl Sys for UnixBody {
	fn peer(case: &Case, side: usize, sock: SockId, how: How) -> (Option<exec::TaskId>, PeerHandle<Self>) {
		let cfg = unix_config(case, side);
		via(case, side, tokio_seqpacket::UnixSeqpacket::from_sim(sock), cfg, UnixSeqpacketTransport::new, how)
	}
}

/// Limits as the configuration states them (defaults from the documentation).
pub fn max_write(case: &Case, side: usize) -> usize {
	case.get_or(&key(side, "maxw"), if case.get("kind") == 2 { 4096 } else { 8192 }) as usize
}
/// The largest body that the simulated operating system sends.
pub fn os_max(case: &Case) -> usize {
	if case.get("kind") == 2 {
		case.net_config().dgram_max.saturating_sub(12)
	} else {
		usize::MAX
	}
}
/// The largest body that can really be sent.
pub fn can_write(case: &Case, side: usize) -> usize {
	max_write(case, side).min(os_max(case))
}
pub fn max_read(case: &Case, side: usize) -> usize {
	case.get_or(&key(side, "maxr"), if case.get("kind") == 2 { 4096 } else { 8192 }) as usize
}
pub fn max_fds_write(case: &Case, side: usize) -> usize {
	case.get_or(&key(side, "fdw"), 10) as usize
}
pub fn max_fds_read(case: &Case, side: usize) -> usize {
	case.get_or(&key(side, "fdr"), 10) as usize
}

// ------------------------------------------------------------------ ledger

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
	Pending,
	Ok,
	/// A connection-aborted error.
	Aborted,
	/// Any other error.
	Refused,
	Cancelled,
}

#[derive(Clone, Debug)]
pub struct Send {
	pub side: usize,
	pub typ: u32,
	pub svc: i32,
	pub len: usize,
	pub inodes: Vec<u64>,
	/// Program number of the request this belongs to (for requests: the one created).
	pub req: Option<usize>,
	pub is_err: bool,
	pub start: u64,
	/// When the first poll of the operation was over.
	pub polled: u64,
	pub end: u64,
	pub res: Res,
	pub err: String,
	/// For requests: the id the handle reports.
	pub id: Option<u32>,
	pub actor: String,
	pub phase: u32,
}

impl Send {
	pub fn body(&self, n: usize) -> Vec<u8> {
		if self.is_err {
			err_text(n, self.len).into_bytes()
		} else {
			body(self.svc, self.len)
		}
	}
}

#[derive(Clone, Debug, PartialEq)]
pub enum Got {
	Msg(Msg),
	/// `None` from recv_update.
	None,
	Unexpected,
	Aborted,
	Err(String),
	Cancelled,
}

#[derive(Clone, Debug)]
pub struct Ev {
	/// 'm' recv_message, 'u' recv_update, 'r' recv_response
	pub op: char,
	pub start: u64,
	pub end: u64,
	pub got: Got,
	pub phase: u32,
}

#[derive(Clone, Debug, Default)]
pub struct ReqRec {
	pub side: usize,
	pub send: usize,
	pub q: Vec<Ev>,
	pub r: Vec<Ev>,
	pub delivered: bool,
	/// Live handles on the requester / responder side, and when the count last hit zero.
	pub q_live: usize,
	pub q_full: bool,
	pub q_zero: Option<u64>,
	pub q_full_dropped: Option<u64>,
	pub r_live: usize,
	pub r_full: bool,
	pub r_zero: Option<u64>,
	pub r_full_dropped: Option<u64>,
}

#[derive(Clone, Debug)]
pub struct Wait {
	pub op: &'static str,
	pub side: usize,
	pub req: Option<usize>,
	pub send: Option<usize>,
	pub since: u64,
	pub peer_level: bool,
}

#[derive(Default)]
pub struct SideRec {
	pub recv: Vec<Ev>,
	pub readers: i64,
	pub writers: i64,
	/// When the last peer handle went away.
	pub zero_at: Option<u64>,
	pub reader_dropped: Option<u64>,
	/// Like reader_dropped, but after the drop was over.
	pub reader_gone: Option<u64>,
	/// When close() was called first (before the call).
	pub close_at: Option<u64>,
	pub abort_at: Option<u64>,
	pub cancelled_recvs: usize,
}

pub struct World<B: Sys> {
	pub case: Case,
	pub sock: [SockId; 2],
	pub seq: bool,
	pub end: End,
	pub st: RefCell<St<B>>,
}

pub struct St<B: Sys> {
	pub sends: Vec<Send>,
	pub by_tag: BTreeMap<i32, usize>,
	pub sides: [SideRec; 2],
	pub reqs: BTreeMap<usize, ReqRec>,
	pub waits: BTreeMap<String, Wait>,
	pub attic: Vec<(String, Held<B>)>,
	/// Actors that are through with their program, and who waits for one.
	pub finished: BTreeSet<String>,
	pub gates: Vec<std::task::Waker>,
	pub tasks: BTreeMap<String, exec::TaskId>,
	pub run: [Option<exec::TaskId>; 2],
	pub phase: u32,
	pub viol: Vec<Violation>,
	pub same_peer_bad: bool,
	/// An abandoned request's id was used again.
	pub tainted: bool,
	pub p1_end: u64,
}

impl<B: Sys> World<B> {
	pub fn new(case: &Case, sock: [SockId; 2]) -> Rc<Self> {
		Rc::new(World {
			case: case.clone(),
			sock,
			seq: case.get("kind") == 2,
			end: End::from_cfg(case.get("endian")).0,
			st: RefCell::new(St {
				sends: Vec::new(),
				by_tag: BTreeMap::new(),
				sides: Default::default(),
				reqs: BTreeMap::new(),
				waits: BTreeMap::new(),
				attic: Vec::new(),
				finished: Default::default(),
				gates: Vec::new(),
				tasks: BTreeMap::new(),
				run: [None, None],
				phase: 1,
				viol: Vec::new(),
				same_peer_bad: false,
				tainted: false,
				p1_end: u64::MAX,
			}),
		})
	}
	pub fn violation(&self, rule: &'static str, props: &[&'static str], detail: String) {
		self.st.borrow_mut().viol.push(Violation { rule, props: props.to_vec(), detail });
	}
}

// ------------------------------------------------------------------ handles

pub enum H<B> {
	Whole(PeerHandle<B>),
	Read(PeerReadHandle<B>),
	Write(PeerWriteHandle<B>),
	Close(PeerCloseHandle<B>),
	Q(SentRequestHandle<B>),
	Qw(SentRequestWriteHandle<B>),
	R(ReceivedRequestHandle<B>),
	Rw(ReceivedRequestWriteHandle<B>),
	Gone,
}

/// A handle whose lifetime is recorded.
pub struct Held<B: Sys> {
	pub h: H<B>,
	pub side: usize,
	pub req: Option<usize>,
	w: Rc<World<B>>,
}

impl<B: Sys> Held<B> {
	pub fn new(w: &Rc<World<B>>, side: usize, req: Option<usize>, h: H<B>) -> Self {
		let me = Held { h, side, req, w: w.clone() };
		me.account(1);
		me
	}
	fn account(&self, d: i64) {
		let t = stamp();
		let mut st = self.w.st.borrow_mut();
		let side = &mut st.sides[self.side];
		match &self.h {
			H::Whole(_) => {
				side.readers += d;
				side.writers += d;
				if d < 0 {
					side.reader_dropped = Some(t);
				}
			},
			H::Read(_) => {
				side.readers += d;
				if d < 0 {
					side.reader_dropped = Some(t);
				}
			},
			H::Write(_) => side.writers += d,
			_ => (),
		}
		if d < 0 && side.readers == 0 && side.writers == 0 && matches!(self.h, H::Whole(_) | H::Read(_) | H::Write(_)) {
			side.zero_at.get_or_insert(t);
		}
		if let Some(r) = self.req.and_then(|r| st.reqs.get_mut(&r)) {
			match &self.h {
				H::Q(_) | H::Qw(_) => {
					let full = matches!(self.h, H::Q(_));
					r.q_live = (r.q_live as i64 + d) as usize;
					if full {
						r.q_full = d > 0;
						if d < 0 {
							r.q_full_dropped = Some(t);
						}
					}
					if r.q_live == 0 {
						r.q_zero = Some(t);
					}
				},
				H::R(_) | H::Rw(_) => {
					let full = matches!(self.h, H::R(_));
					r.r_live = (r.r_live as i64 + d) as usize;
					if full {
						r.r_full = d > 0;
						if d < 0 {
							r.r_full_dropped = Some(t);
						}
					}
					if r.r_live == 0 {
						r.r_zero = Some(t);
					}
				},
				_ => (),
			}
		}
	}
	/// Split a whole peer handle into its halves.
	pub fn split(mut self) -> (Held<B>, Held<B>) {
		let side = self.side;
		let w = self.w.clone();
		match std::mem::replace(&mut self.h, H::Gone) {
			H::Whole(h) => {
				{
					let mut st = w.st.borrow_mut();
					st.sides[side].readers -= 1;
					st.sides[side].writers -= 1;
				}
				let (r, wr) = h.split();
				(Held::new(&w, side, None, H::Read(r)), Held::new(&w, side, None, H::Write(wr)))
			},
			_ => unreachable!(),
		}
	}
}

impl<B: Sys> Drop for Held<B> {
	fn drop(&mut self) {
		self.account(-1);
	}
}

// ------------------------------------------------------------------ guard

/// Run a future; abandon it after `cancel` pending polls (> 0) or after -`cancel` ns (< 0).
///
/// `first` is called once, after the first poll that left the operation waiting for others
/// (and not just for its own next turn).
pub async fn guard<F: Future>(fut: F, cancel: i64, mut first: impl FnMut()) -> Option<F::Output> {
	let mut fut = Box::pin(fut);
	let mut timer = if cancel < 0 { Some(Box::pin(exec::sleep((-cancel) as u64))) } else { None };
	let mut polls = 0;
	let mut called = false;
	let mut fresh = Fresh::default();
	let r = std::future::poll_fn(|cx| {
		let r = fresh.poll(cx, |cx| fut.as_mut().poll(cx));
		if !called && (r.is_ready() || !exec::notified()) {
			called = true;
			first();
		}
		polls += 1;
		match r {
			Poll::Ready(x) => Poll::Ready(Some(x)),
			Poll::Pending => {
				if cancel > 0 && polls >= cancel {
					return Poll::Ready(None);
				}
				if let Some(t) = timer.as_mut() {
					if t.as_mut().poll(cx).is_ready() {
						return Poll::Ready(None);
					}
				}
				Poll::Pending
			},
		}
	})
	.await;
	drop(fut);
	r
}

// ------------------------------------------------------------------ operations

impl<B: Sys> World<B> {
	fn wait(&self, actor: &str, op: &'static str, side: usize, req: Option<usize>, send: Option<usize>, peer_level: bool) {
		self.st.borrow_mut().waits.insert(actor.into(), Wait { op, side, req, send, since: stamp(), peer_level });
	}
	fn unwait(&self, actor: &str) {
		self.st.borrow_mut().waits.remove(actor);
	}

	/// Book a send and build its body.
	fn begin_send(&self, actor: &str, side: usize, typ: u32, is_err: bool, req: Option<usize>, len: usize, nfds: usize) -> (usize, i32, B) {
		let mut st = self.st.borrow_mut();
		let n = st.sends.len();
		let svc = if is_err { -1 } else { tag(n) };
		let fds: Vec<_> = if self.seq && !is_err { (0..nfds).map(|_| memfd()).collect() } else { Vec::new() };
		let inodes = fds.iter().map(|f| simcore::net::inode(f.as_raw_fd()).unwrap()).collect();
		let b = if is_err { B::make(Vec::new(), Vec::new()) } else { B::make(body(svc, len), fds) };
		let len = if is_err { err_text(n, len).len() } else { len };
		let phase = st.phase;
		st.sends.push(Send {
			side,
			typ,
			svc,
			len,
			inodes,
			req,
			is_err,
			start: stamp(),
			polled: u64::MAX,
			end: u64::MAX,
			res: Res::Pending,
			err: String::new(),
			id: None,
			actor: actor.into(),
			phase,
		});
		if !is_err {
			st.by_tag.insert(svc, n);
		}
		(n, svc, b)
	}

	async fn do_send<T>(&self, actor: &str, side: usize, req: Option<usize>, n: usize, cancel: i64, fut: impl Future<Output = Result<T, Error>>) -> Option<T> {
		self.wait(actor, "send", side, req, Some(n), false);
		let r = guard(fut, cancel, || {
			let t = stamp();
			self.st.borrow_mut().sends[n].polled = t;
		})
		.await;
		self.unwait(actor);
		let t = stamp();
		let mut st = self.st.borrow_mut();
		let s = &mut st.sends[n];
		s.end = t;
		match r {
			Some(Ok(x)) => {
				s.res = Res::Ok;
				Some(x)
			},
			Some(Err(e)) => {
				s.res = if e.is_connection_aborted() { Res::Aborted } else { Res::Refused };
				s.err = e.to_string();
				None
			},
			None => {
				s.res = Res::Cancelled;
				None
			},
		}
	}

	/// Receive at peer level.  Returns false when the end of the connection was reported.
	async fn do_recv(self: &Rc<Self>, actor: &str, side: usize, h: &mut H<B>, cancel: i64) -> bool {
		let start = stamp();
		self.wait(actor, "recv", side, None, None, true);
		let r = match h {
			H::Whole(h) => guard(h.recv_message(), cancel, || ()).await,
			H::Read(h) => guard(h.recv_message(), cancel, || ()).await,
			_ => return false,
		};
		self.unwait(actor);
		let end = stamp();
		let phase = self.st.borrow().phase;
		let mut go = true;
		let got = match r {
			None => {
				self.st.borrow_mut().sides[side].cancelled_recvs += 1;
				Got::Cancelled
			},
			Some(Ok(ReceivedMessage::Stream(m))) => Got::Msg(msg_of(&m)),
			Some(Ok(ReceivedMessage::Request(rh, b))) => {
				let m = Msg { typ: REQUEST, id: rh.request_id(), svc: rh.service_id(), body: b.bytes().to_vec(), inodes: b.inodes() };
				let n = self.st.borrow().by_tag.get(&m.svc).copied();
				let req = n.and_then(|n| {
					let s = &self.st.borrow().sends[n];
					if s.typ == REQUEST { s.req } else { None }
				});
				match req {
					Some(r) => self.start_responder(side, r, rh),
					None => drop(rh),
				}
				Got::Msg(m)
			},
			Some(Err(e)) => {
				if e.is_connection_aborted() {
					go = false;
					Got::Aborted
				} else {
					Got::Err(e.to_string())
				}
			},
		};
		exec::trace(|| format!("{actor}: recv_message -> {got:?}"));
		self.st.borrow_mut().sides[side].recv.push(Ev { op: 'm', start, end, got, phase });
		go
	}

	fn start_responder(self: &Rc<Self>, side: usize, req: usize, h: ReceivedRequestHandle<B>) {
		{
			let mut st = self.st.borrow_mut();
			let Some(r) = st.reqs.get_mut(&req) else { return };
			if r.delivered {
				return; // a duplicate; the history check reports it
			}
			r.delivered = true;
		}
		self.start_request_actors(side, req, "r", H::R(h));
	}

	fn start_request_actors(self: &Rc<Self>, side: usize, req: usize, role: &str, full: H<B>) {
		let base = format!("req{req}.{role}");
		let clones: Vec<String> =
			self.case.actors.keys().filter(|k| k.len() > base.len() && k.starts_with(&base) && k[base.len()..].parse::<u32>().is_ok()).cloned().collect();
		for (i, name) in clones.into_iter().enumerate() {
			let w = match &full {
				H::Q(h) => {
					let w = h.write_handle();
					H::Qw(if i % 2 == 1 { w.clone() } else { w })
				},
				H::R(h) => {
					let w = h.write_handle();
					H::Rw(if i % 2 == 1 { w.clone() } else { w })
				},
				_ => unreachable!(),
			};
			let held = Held::new(self, side, Some(req), w);
			self.start_actor(name, held);
		}
		let held = Held::new(self, side, Some(req), full);
		if self.case.actors.contains_key(&base) {
			self.start_actor(base, held);
		}
	}

	pub fn start_actor(self: &Rc<Self>, name: String, held: Held<B>) {
		let ops = self.case.actors.get(&name).cloned().unwrap_or_default();
		self.start_ops(name, held, ops);
	}

	/// Wake those who wait for something that has happened.
	pub fn open_gates(&self) {
		let gates = std::mem::take(&mut self.st.borrow_mut().gates);
		for g in gates {
			g.wake();
		}
	}

	pub fn start_ops(self: &Rc<Self>, name: String, held: Held<B>, ops: Vec<Op>) {
		let w = self.clone();
		let n = name.clone();
		let node = held.side as u32 + 1;
		let id = exec::spawn(name.clone(), node, async move {
			let mut held = held;
			let mut gone = false;
			for op in &ops {
				if !w.step(&n, &mut held, op).await {
					gone = true;
					break;
				}
			}
			w.st.borrow_mut().finished.insert(n.clone());
			w.open_gates();
			if !gone && !matches!(held.h, H::Gone) {
				w.st.borrow_mut().attic.push((n, held));
			}
		});
		self.st.borrow_mut().tasks.insert(name, id);
	}

	/// One operation.  Returns false when the actor is done (its handle is gone).
	async fn step(self: &Rc<Self>, actor: &str, held: &mut Held<B>, op: &Op) -> bool {
		let side = held.side;
		match op.name.as_str() {
			"sleep" => exec::sleep(op.arg(0).max(0) as u64).await,
			"yield" => exec::yield_now().await,
			// Until the actor of a request has finished, or the connection is brought down.
			"after" => {
				let name = format!("req{}.q", op.arg(0));
				std::future::poll_fn(|cx| {
					let mut st = self.st.borrow_mut();
					if st.phase >= 2 || st.finished.contains(&name) {
						return std::task::Poll::Ready(());
					}
					st.gates.push(cx.waker().clone());
					std::task::Poll::Pending
				})
				.await
			},
			"recv" => {
				self.do_recv(actor, side, &mut held.h, op.arg(0)).await;
			},
			"recvall" => {
				for _ in 0..100_000 {
					if !self.do_recv(actor, side, &mut held.h, op.arg(0)).await {
						break;
					}
				}
			},
			"req" => {
				let (no, len, nfds, cancel) = (op.arg(0) as usize, op.arg(1) as usize, op.arg(2) as usize, op.arg(3));
				let (n, svc, b) = self.begin_send(actor, side, REQUEST, false, Some(no), len, nfds);
				self.st.borrow_mut().reqs.entry(no).or_insert_with(|| ReqRec { side, send: n, ..Default::default() });
				let r = match &held.h {
					H::Whole(h) => self.do_send(actor, side, Some(no), n, cancel, h.send_request(svc, b)).await,
					H::Write(h) => self.do_send(actor, side, Some(no), n, cancel, h.send_request(svc, b)).await,
					_ => None,
				};
				if let Some(q) = r {
					let id = q.request_id();
					let svc2 = q.service_id();
					self.st.borrow_mut().sends[n].id = Some(id);
					if svc2 != svc {
						self.violation("handle_service_id", &["C03"], format!("send_request({svc}) returned a handle with service id {svc2}"));
					}
					self.start_request_actors(side, no, "q", H::Q(q));
				}
			},
			"stream" => {
				let (len, nfds, cancel) = (op.arg(0) as usize, op.arg(1) as usize, op.arg(2));
				let (n, svc, b) = self.begin_send(actor, side, STREAM, false, None, len, nfds);
				match &held.h {
					H::Whole(h) => self.do_send(actor, side, None, n, cancel, h.send_stream(svc, b)).await,
					H::Write(h) => self.do_send(actor, side, None, n, cancel, h.send_stream(svc, b)).await,
					_ => None,
				};
			},
			"reclone" => {
				if let H::Write(h) = &held.h {
					let c = h.clone();
					if !c.same_peer(h) {
						self.st.borrow_mut().same_peer_bad = true;
					}
					let new = Held::new(self, side, None, H::Write(c));
					let old = std::mem::replace(held, new);
					drop(old);
				}
			},
			"close" => {
				let t = stamp();
				self.st.borrow_mut().sides[side].close_at.get_or_insert(t);
				exec::trace(|| format!("{actor}: close"));
				match &held.h {
					H::Read(h) => h.close(),
					H::Write(h) => h.close(),
					H::Close(h) => h.close(),
					H::Whole(_) => {
						held.account(-1);
						if let H::Whole(h) = std::mem::replace(&mut held.h, H::Gone) {
							h.close();
						}
						return false;
					},
					_ => (),
				}
			},
			"closeh" => {
				// Close through a close handle made from this handle.
				let c = match &held.h {
					H::Read(h) => Some(h.close_handle()),
					H::Write(h) => Some(h.close_handle()),
					H::Whole(h) => Some(h.close_handle()),
					_ => None,
				};
				if let Some(c) = c {
					let t = stamp();
					self.st.borrow_mut().sides[side].close_at.get_or_insert(t);
					c.close();
				}
			},
			"drop" => {
				exec::trace(|| format!("{actor}: drop handle"));
				held.account(-1);
				let reader = matches!(held.h, H::Whole(_) | H::Read(_));
				drop(std::mem::replace(&mut held.h, H::Gone));
				if reader {
					let t = stamp();
					self.st.borrow_mut().sides[side].reader_gone = Some(t);
				}
				return false;
			},
			"upd" | "resp" | "err" => {
				let is_resp = op.name != "upd";
				let is_err = op.name == "err";
				let requester = matches!(held.h, H::Q(_) | H::Qw(_));
				if is_resp && requester {
					return true;
				}
				let typ = match (is_resp, requester) {
					(true, _) => RESPONSE,
					(_, true) => QUPDATE,
					_ => RUPDATE,
				};
				let (len, nfds, cancel) = (op.arg(0) as usize, op.arg(1) as usize, op.arg(2));
				let req = held.req;
				let (n, svc, b) = self.begin_send(actor, side, typ, is_err, req, len, nfds);
				let text = err_text(n, len);
				match (&held.h, is_resp, is_err) {
					(H::Q(h), _, _) => self.do_send(actor, side, req, n, cancel, h.send_update(svc, b)).await,
					(H::Qw(h), _, _) => self.do_send(actor, side, req, n, cancel, h.send_update(svc, b)).await,
					(H::R(h), false, _) => self.do_send(actor, side, req, n, cancel, h.send_update(svc, b)).await,
					(H::Rw(h), false, _) => self.do_send(actor, side, req, n, cancel, h.send_update(svc, b)).await,
					(H::R(h), true, false) => self.do_send(actor, side, req, n, cancel, h.send_response(svc, b)).await,
					(H::Rw(h), true, false) => self.do_send(actor, side, req, n, cancel, h.send_response(svc, b)).await,
					(H::R(h), true, true) => self.do_send(actor, side, req, n, cancel, h.send_error_response(&text)).await,
					(H::Rw(h), true, true) => self.do_send(actor, side, req, n, cancel, h.send_error_response(&text)).await,
					_ => None,
				};
			},
			"rupd" | "rupds" | "rresp" => {
				let cancel = op.arg(0);
				for _ in 0..100_000 {
					let go = self.do_req_recv(actor, held, op.name == "rresp", cancel).await;
					if op.name != "rupds" || !go {
						break;
					}
				}
			},
			_ => panic!("harness: unknown operation {}", op.name),
		}
		true
	}

	async fn do_req_recv(&self, actor: &str, held: &mut Held<B>, resp: bool, cancel: i64) -> bool {
		let (side, Some(req)) = (held.side, held.req) else { return false };
		let start = stamp();
		let phase = self.st.borrow().phase;
		let (got, requester) = match &mut held.h {
			H::Q(h) if resp => {
				self.wait(actor, "recv_response", side, Some(req), None, false);
				let r = guard(h.recv_response(), cancel, || ()).await;
				let g = match r {
					None => Got::Cancelled,
					Some(Ok(m)) => Got::Msg(msg_of(&m)),
					Some(Err(e)) if e.is_unexpected_message_type() => Got::Unexpected,
					Some(Err(e)) if e.is_connection_aborted() => Got::Aborted,
					Some(Err(e)) => Got::Err(e.to_string()),
				};
				(g, true)
			},
			H::Q(h) => {
				self.wait(actor, "recv_update", side, Some(req), None, false);
				let r = guard(h.recv_update(), cancel, || ()).await;
				(
					match r {
						None => Got::Cancelled,
						Some(Some(m)) => Got::Msg(msg_of(&m)),
						Some(None) => Got::None,
					},
					true,
				)
			},
			H::R(h) if !resp => {
				self.wait(actor, "recv_update", side, Some(req), None, false);
				let r = guard(h.recv_update(), cancel, || ()).await;
				(
					match r {
						None => Got::Cancelled,
						Some(Some(m)) => Got::Msg(msg_of(&m)),
						Some(None) => Got::None,
					},
					false,
				)
			},
			_ => return false,
		};
		self.unwait(actor);
		exec::trace(|| format!("{actor}: {} -> {got:?}", if resp { "recv_response" } else { "recv_update" }));
		let go = matches!(got, Got::Msg(_));
		let mut st = self.st.borrow_mut();
		let r = st.reqs.get_mut(&req).unwrap();
		let ev = Ev { op: if resp { 'r' } else { 'u' }, start, end: stamp(), got, phase };
		if requester {
			r.q.push(ev)
		} else {
			r.r.push(ev)
		}
		go
	}
}

pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

//! The simulated network: byte-stream and datagram sockets, listeners, faults
//! and a wiretap.  Socket semantics follow Linux (see DESIGN.md, "Fidelity").

use crate::choice::{chance, choose, range};
use crate::exec::{self, at, now, stamp, trace};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::future::Future;
use std::net::SocketAddr;
use std::os::fd::{AsRawFd, OwnedFd};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
	Tcp,
	Unix,
	Seq,
}

#[derive(Clone, Debug)]
pub struct NetConfig {
	/// Bytes that fit in one direction of a stream connection (in flight plus unread).
	pub stream_cap: usize,
	/// Datagrams that fit in one direction of a datagram connection.
	pub dgram_cap: usize,
	/// Largest datagram the socket accepts (EMSGSIZE beyond it).
	pub dgram_max: usize,
	pub latency: (u64, u64),
	/// Chance (of 1024) that a read/write moves fewer bytes than it could.
	pub short_read: u32,
	pub short_write: u32,
}

impl Default for NetConfig {
	fn default() -> Self {
		Self { stream_cap: 64 * 1024, dgram_cap: 16, dgram_max: 200_000, latency: (0, 0), short_read: 0, short_write: 0 }
	}
}

pub type SockId = usize;
pub type PipeId = usize;
pub type ListenerId = usize;

struct Dgram {
	data: Vec<u8>,
	fds: Vec<OwnedFd>,
}

enum Seg {
	Data(Vec<u8>),
	Dgram(Dgram),
	Fin,
	Err(i32),
}

#[derive(Clone, Debug)]
pub struct DgramLog {
	pub stamp: u64,
	pub data: Vec<u8>,
	/// Inode numbers of the attached file descriptors.
	pub inodes: Vec<u64>,
}

#[derive(Default)]
struct Pipe {
	reader: SockId,
	writer: SockId,
	inflight: VecDeque<(u64, Seg)>,
	inflight_bytes: usize,
	buf: VecDeque<u8>,
	dgrams: VecDeque<Dgram>,
	eof: bool,
	err: Option<i32>,
	last_due: u64,
	stalled: bool,
	shut: bool,
	fin_queued: bool,
	log: Vec<u8>,
	marks: Vec<(usize, u64)>,
	dlog: Vec<DgramLog>,
	read_bytes: usize,
	read_dgrams: usize,
}

struct Sock {
	kind: Kind,
	node: u32,
	peer: SockId,
	tx: PipeId,
	rx: PipeId,
	rw: Option<Waker>,
	ww: Option<Waker>,
	open: bool,
	closed_at: Option<u64>,
	read_err: Option<i32>,
	write_err: Option<i32>,
	/// Shut down for reading.
	rd_shut: bool,
	rst: bool,
	info_err: Option<i32>,
	local: Addr,
	remote: Addr,
	io_ops: u64,
	read_calls: u64,
	write_calls: u64,
	last_write_err: Option<(u64, i32)>,
	eof_read: bool,
	err_read: Option<i32>,
	/// When the owner first saw an end of stream or an error.
	ended_at: Option<u64>,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Addr {
	Inet(SocketAddr),
	Path(std::path::PathBuf),
	Unnamed,
}

struct Listener {
	kind: Kind,
	addr: Addr,
	#[allow(dead_code)]
	node: u32,
	backlog: VecDeque<SockId>,
	errs: VecDeque<i32>,
	waker: Option<Waker>,
	open: bool,
	accepted: Vec<SockId>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Trigger {
	/// The n-th read or write call on the socket.
	Io(u64),
	/// Exactly n bytes (or datagrams) have been written on the socket.
	Written(u64),
	/// Exactly n bytes (or datagrams) have been read from the socket.
	Read(u64),
	/// At a virtual time.
	Time(u64),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Action {
	ReadErr(i32),
	WriteErr(i32),
	/// The connection is reset; data that already arrived stays readable.
	Reset,
	/// The connection is reset and everything not yet read is lost.
	ResetDiscard,
	/// Nothing arrives at this socket for a while.
	StallRx(u64),
	/// Nothing leaves this socket for a while.
	StallTx(u64),
	/// Both directions are blocked for a while (partition, then heal).
	Partition(u64),
}

impl Action {
	pub fn name(&self) -> &'static str {
		match self {
			Action::ReadErr(_) => "read_error",
			Action::WriteErr(_) => "write_error",
			Action::Reset => "reset",
			Action::ResetDiscard => "reset_discard",
			Action::StallRx(_) => "stall_rx",
			Action::StallTx(_) => "stall_tx",
			Action::Partition(_) => "partition",
		}
	}
}

#[derive(Clone, Debug)]
pub struct Rule {
	pub sock: SockId,
	pub trigger: Trigger,
	pub action: Action,
	pub fired: Option<u64>,
}

#[derive(Default)]
struct Net {
	cfg: NetConfig,
	socks: Vec<Sock>,
	pipes: Vec<Pipe>,
	listeners: Vec<Listener>,
	paths: HashMap<(u64, u64), ListenerId>,
	rules: Vec<Rule>,
	pending_rules: Vec<(SockId, Trigger, Action)>,
	stats: BTreeMap<&'static str, u64>,
	next_port: u16,
	cap_override: BTreeMap<SockId, usize>,
	hosts: BTreeMap<String, Vec<std::net::IpAddr>>,
	fd_shortage: BTreeMap<SockId, usize>,
}

thread_local! {
	static NET: RefCell<Net> = RefCell::new(Net::default());
}

fn with<R>(f: impl FnOnce(&mut Net) -> R) -> R {
	let _p = crate::mem::pause();
	NET.with(|n| f(&mut n.borrow_mut()))
}

pub fn reset() {
	let old = NET.with(|n| std::mem::take(&mut *n.borrow_mut()));
	drop(old);
	with(|n| n.next_port = 40000);
}

pub fn configure(cfg: NetConfig) {
	with(|n| n.cfg = cfg)
}

pub fn add_host(name: &str, ips: Vec<std::net::IpAddr>) {
	with(|n| n.hosts.insert(name.to_string(), ips));
}

pub fn count(what: &'static str) {
	with(|n| *n.stats.entry(what).or_default() += 1)
}

pub fn stats() -> BTreeMap<&'static str, u64> {
	with(|n| n.stats.clone())
}

pub fn os_err(errno: i32) -> std::io::Error {
	std::io::Error::from_raw_os_error(errno)
}

pub fn inode(fd: i32) -> Option<u64> {
	// SAFETY: plain fstat on a descriptor number.
	unsafe {
		let mut st: libc::stat = std::mem::zeroed();
		if libc::fstat(fd, &mut st) == 0 {
			Some(st.st_ino)
		} else {
			None
		}
	}
}

fn note_end(n: &mut Net, s: SockId) {
	let t = stamp();
	n.socks[s].ended_at.get_or_insert(t);
}

// ---------------------------------------------------------------- creation

fn new_pair(n: &mut Net, kind: Kind, a: (u32, Addr), b: (u32, Addr)) -> (SockId, SockId) {
	let sa = n.socks.len();
	let sb = sa + 1;
	let pa = n.pipes.len(); // a -> b
	let pb = pa + 1; // b -> a
	let mk = |node: u32, peer, tx, rx, local: Addr, remote: Addr| Sock {
		kind,
		node,
		peer,
		tx,
		rx,
		rw: None,
		ww: None,
		open: true,
		closed_at: None,
		read_err: None,
		write_err: None,
		rst: false,
		info_err: None,
		local,
		remote,
		io_ops: 0,
		read_calls: 0,
		write_calls: 0,
		last_write_err: None,
		eof_read: false,
		err_read: None,
		ended_at: None,
		rd_shut: false,
	};
	n.socks.push(mk(a.0, sb, pa, pb, a.1.clone(), b.1.clone()));
	n.socks.push(mk(b.0, sa, pb, pa, b.1, a.1));
	n.pipes.push(Pipe { reader: sb, writer: sa, ..Default::default() });
	n.pipes.push(Pipe { reader: sa, writer: sb, ..Default::default() });
	(sa, sb)
}

/// A connected pair (socketpair), both ends in the current node unless moved with `set_node`.
pub fn pair(kind: Kind) -> (SockId, SockId) {
	let node = exec::current_node();
	let addr = |p: u16| match kind {
		Kind::Tcp => Addr::Inet(SocketAddr::from(([127, 0, 0, 1], p))),
		_ => Addr::Unnamed,
	};
	let (a, b) = with(|n| {
		n.next_port = n.next_port.max(40000) + 2;
		let p = n.next_port;
		new_pair(n, kind, (node, addr(p)), (node, addr(p + 1)))
	});
	arm(a);
	arm(b);
	(a, b)
}

pub fn set_node(s: SockId, node: u32) {
	with(|n| n.socks[s].node = node)
}

pub fn set_cap(s: SockId, cap: usize) {
	with(|n| {
		n.cap_override.insert(s, cap);
	})
}

/// Register a fault rule.  The socket may not exist yet.
pub fn add_rule(sock: SockId, trigger: Trigger, action: Action) {
	let exists = with(|n| sock < n.socks.len());
	if exists {
		install_rule(sock, trigger, action);
	} else {
		with(|n| n.pending_rules.push((sock, trigger, action)));
	}
}

fn arm(s: SockId) {
	let rules: Vec<_> = with(|n| {
		let (mine, rest) = std::mem::take(&mut n.pending_rules).into_iter().partition(|r| r.0 == s);
		n.pending_rules = rest;
		mine
	});
	for (sock, trigger, action) in rules {
		install_rule(sock, trigger, action);
	}
}

fn install_rule(sock: SockId, trigger: Trigger, action: Action) {
	let idx = with(|n| {
		n.rules.push(Rule { sock, trigger, action, fired: None });
		n.rules.len() - 1
	});
	if let Trigger::Time(t) = trigger {
		at(t, move || fire(idx));
	}
}

pub fn fired_rules() -> Vec<Rule> {
	with(|n| n.rules.iter().filter(|r| r.fired.is_some()).cloned().collect())
}

fn fire(idx: usize) {
	let st = stamp();
	let (sock, action) = with(|n| {
		let r = &mut n.rules[idx];
		r.fired = Some(st);
		(r.sock, r.action)
	});
	if with(|n| !n.socks[sock].open) {
		with(|n| n.rules[idx].fired = None);
		return;
	}
	count(action.name());
	trace(|| format!("FAULT {:?} on socket {}", action, sock));
	apply(sock, action);
}

pub fn apply(sock: SockId, action: Action) {
	let peer = with(|n| n.socks[sock].peer);
	match action {
		Action::ReadErr(e) => {
			with(|n| n.socks[sock].read_err = Some(e));
			wake_read(sock);
		},
		Action::WriteErr(e) => {
			with(|n| n.socks[sock].write_err = Some(e));
			wake_write(sock);
		},
		Action::Reset | Action::ResetDiscard => {
			let discard = action == Action::ResetDiscard;
			for s in [sock, peer] {
				reset_sock(s, discard);
			}
		},
		Action::StallRx(d) => stall(with(|n| n.socks[sock].rx), d),
		Action::StallTx(d) => stall(with(|n| n.socks[sock].tx), d),
		Action::Partition(d) => {
			let (rx, tx) = with(|n| (n.socks[sock].rx, n.socks[sock].tx));
			stall(rx, d);
			stall(tx, d);
		},
	}
}

/// Deliver a connection reset to one socket, now.
pub fn reset_sock(s: SockId, discard: bool) {
	let dropped = with(|n| {
		let rx = n.socks[s].rx;
		let tx = n.socks[s].tx;
		let p = &mut n.pipes[rx];
		let mut dropped = Vec::new();
		// Whatever was still in flight towards us is gone.
		while let Some((_, seg)) = p.inflight.pop_front() {
			dropped.push(seg);
		}
		p.inflight_bytes = 0;
		if discard {
			p.buf.clear();
			while let Some(d) = p.dgrams.pop_front() {
				dropped.push(Seg::Dgram(d));
			}
		}
		p.err = Some(libc::ECONNRESET);
		p.eof = true;
		n.pipes[tx].shut = true;
		let k = &mut n.socks[s];
		k.rst = true;
		k.write_err = Some(libc::EPIPE);
		dropped
	});
	drop(dropped);
	wake_read(s);
	wake_write(s);
}

fn stall(p: PipeId, d: u64) {
	with(|n| n.pipes[p].stalled = true);
	at(now() + d, move || {
		with(|n| n.pipes[p].stalled = false);
		deliver(p);
	});
}

/// Freeze / unfreeze delivery in one direction under harness control.
pub fn set_stalled(s: SockId, tx: bool, on: bool) {
	let p = with(|n| if tx { n.socks[s].tx } else { n.socks[s].rx });
	with(|n| n.pipes[p].stalled = on);
	if !on {
		deliver(p);
	}
}

// ---------------------------------------------------------------- wakers

fn wake_read(s: SockId) {
	if let Some(w) = with(|n| n.socks[s].rw.take()) {
		w.wake()
	}
}
fn wake_write(s: SockId) {
	if let Some(w) = with(|n| n.socks[s].ww.take()) {
		w.wake()
	}
}

fn set_rw(s: SockId, cx: &Context<'_>) {
	let w = cx.waker().clone();
	let old = with(|n| n.socks[s].rw.replace(w));
	drop(old);
}
fn set_ww(s: SockId, cx: &Context<'_>) {
	let w = cx.waker().clone();
	let old = with(|n| n.socks[s].ww.replace(w));
	drop(old);
}

// ---------------------------------------------------------------- pipes

fn push_seg(p: PipeId, seg: Seg) {
	let (lo, hi) = with(|n| n.cfg.latency);
	let lat = range(lo, hi);
	let due = with(|n| {
		let pipe = &mut n.pipes[p];
		match &seg {
			Seg::Data(d) => pipe.inflight_bytes += d.len(),
			Seg::Dgram(d) => pipe.inflight_bytes += d.data.len().max(1),
			_ => (),
		}
		let due = pipe.last_due.max(now() + lat);
		pipe.last_due = due;
		pipe.inflight.push_back((due, seg));
		due
	});
	if due <= now() {
		deliver(p);
	} else {
		at(due, move || deliver(p));
	}
}

fn deliver(p: PipeId) {
	loop {
		let seg = with(|n| {
			let pipe = n.pipes.get_mut(p)?;
			if pipe.stalled {
				return None;
			}
			match pipe.inflight.front() {
				Some((due, _)) if *due <= now() => pipe.inflight.pop_front().map(|x| x.1),
				_ => None,
			}
		});
		let Some(seg) = seg else { return };
		let (reader, open) = with(|n| {
			let r = n.pipes[p].reader;
			(r, n.socks[r].open)
		});
		match seg {
			Seg::Data(d) => {
				let rst = with(|n| {
					let pipe = &mut n.pipes[p];
					pipe.inflight_bytes -= d.len();
					if open {
						pipe.buf.extend(d);
						false
					} else {
						n.socks[reader].kind == Kind::Tcp
					}
				});
				if rst {
					// Data for a closed TCP socket: the sender gets a reset.
					let back = with(|n| n.socks[reader].tx);
					push_seg(back, Seg::Err(libc::ECONNRESET));
				}
				wake_read(reader);
			},
			Seg::Dgram(d) => {
				let dropped = with(|n| {
					let pipe = &mut n.pipes[p];
					pipe.inflight_bytes -= d.data.len().max(1);
					if open {
						pipe.dgrams.push_back(d);
						None
					} else {
						Some(d)
					}
				});
				drop(dropped);
				wake_read(reader);
			},
			Seg::Fin => {
				with(|n| n.pipes[p].eof = true);
				wake_read(reader);
			},
			Seg::Err(e) => {
				with(|n| {
					let pipe = &mut n.pipes[p];
					pipe.err = Some(e);
					pipe.eof = true;
					let k = &mut n.socks[reader];
					if k.kind == Kind::Tcp {
						k.rst = true;
					}
					k.write_err = Some(libc::EPIPE);
				});
				wake_read(reader);
				wake_write(reader);
			},
		}
	}
}

/// Check Io-count triggers.
fn io_op(s: SockId, is_read: bool) {
	let due: Vec<usize> = with(|n| {
		let k = &mut n.socks[s];
		k.io_ops += 1;
		if is_read {
			k.read_calls += 1
		} else {
			k.write_calls += 1
		}
		let ops = k.io_ops;
		n.rules
			.iter()
			.enumerate()
			.filter(|(_, r)| r.sock == s && r.fired.is_none() && matches!(r.trigger, Trigger::Io(k) if k <= ops))
			.map(|(i, _)| i)
			.collect()
	});
	for i in due {
		fire(i);
	}
}

/// Fire byte-count triggers that have been reached; returns the limit for the next transfer.
fn byte_limit(s: SockId, is_read: bool) -> u64 {
	let (due, limit) = with(|n| {
		let k = &n.socks[s];
		let p = &n.pipes[if is_read { k.rx } else { k.tx }];
		let total = match (k.kind, is_read) {
			(Kind::Seq, true) => p.read_dgrams as u64,
			(Kind::Seq, false) => p.dlog.len() as u64,
			(_, true) => p.read_bytes as u64,
			(_, false) => p.log.len() as u64,
		};
		let mut due = Vec::new();
		let mut limit = u64::MAX;
		for (i, r) in n.rules.iter().enumerate() {
			if r.sock != s || r.fired.is_some() {
				continue;
			}
			let at = match r.trigger {
				Trigger::Written(x) if !is_read => x,
				Trigger::Read(x) if is_read => x,
				_ => continue,
			};
			if at <= total {
				due.push(i);
			} else {
				limit = limit.min(at - total);
			}
		}
		(due, limit)
	});
	for i in due {
		fire(i);
	}
	limit
}

fn shorten(n: usize, p: u32, what: &'static str) -> usize {
	if n > 1 && chance(p) {
		count(what);
		// Many short transfers are tiny, some cut anywhere.
		let hi = if choose(2) == 0 { (n - 1).min(20) } else { n - 1 };
		range(1, hi as u64) as usize
	} else {
		n
	}
}

pub fn poll_write(s: SockId, cx: &mut Context<'_>, bufs: &[&[u8]]) -> Poll<std::io::Result<usize>> {
	exec::preempt_point();
	if exec::coop_yield(cx) {
		return Poll::Pending;
	}
	let pause = crate::mem::pause();
	io_op(s, false);
	let limit = byte_limit(s, false);
	let total: usize = bufs.iter().map(|b| b.len()).sum();
	let err = with(|n| {
		let k = &n.socks[s];
		if let Some(e) = k.write_err {
			return Some(e);
		}
		if n.pipes[k.tx].shut {
			return Some(libc::EPIPE);
		}
		if k.kind != Kind::Tcp && (!n.socks[k.peer].open || n.socks[k.peer].rd_shut) {
			return Some(libc::EPIPE);
		}
		None
	});
	if let Some(e) = err {
		let st = stamp();
		with(|n| { n.socks[s].last_write_err = Some((st, e)); note_end(n, s) });
		trace(|| format!("write sock {s} -> errno {e}"));
		return Poll::Ready(Err(os_err(e)));
	}
	if total == 0 {
		return Poll::Ready(Ok(0));
	}
	let space = with(|n| {
		let k = &n.socks[s];
		let p = &n.pipes[k.tx];
		let cap = n.cap_override.get(&s).copied().unwrap_or(n.cfg.stream_cap);
		cap.saturating_sub(p.inflight_bytes + p.buf.len())
	});
	if space == 0 {
		set_ww(s, cx);
		return Poll::Pending;
	}
	let n = total.min(space).min(limit.min(usize::MAX as u64) as usize);
	let p = with(|n| n.cfg.short_write);
	let n = shorten(n, p, "short_write");
	exec::progress();
	let mut data = Vec::with_capacity(n);
	for b in bufs {
		let take = (n - data.len()).min(b.len());
		data.extend_from_slice(&b[..take]);
	}
	let st = stamp();
	let tx = with(|w| {
		let tx = w.socks[s].tx;
		let pipe = &mut w.pipes[tx];
		pipe.log.extend_from_slice(&data);
		let end = pipe.log.len();
		pipe.marks.push((end, st));
		tx
	});
	trace(|| format!("write sock {s}: {n} of {total} bytes"));
	push_seg(tx, Seg::Data(data));
	drop(pause);
	exec::preempt_point();
	Poll::Ready(Ok(n))
}

pub fn poll_read(s: SockId, cx: &mut Context<'_>, dst: &mut [u8]) -> Poll<std::io::Result<usize>> {
	exec::preempt_point();
	if exec::coop_yield(cx) {
		return Poll::Pending;
	}
	let _pause = crate::mem::pause();
	io_op(s, true);
	let limit = byte_limit(s, true);
	if let Some(e) = with(|n| n.socks[s].read_err) {
		with(|n| { n.socks[s].err_read = Some(e); note_end(n, s) });
		trace(|| format!("read sock {s} -> errno {e}"));
		return Poll::Ready(Err(os_err(e)));
	}
	let (avail, err, eof) = with(|n| {
		let p = &n.pipes[n.socks[s].rx];
		(p.buf.len(), p.err, p.eof || n.socks[s].rd_shut)
	});
	if avail > 0 && dst.is_empty() {
		return Poll::Ready(Ok(0));
	}
	if avail > 0 {
		let n = avail.min(dst.len()).min(limit.min(usize::MAX as u64) as usize);
		let p = with(|n| n.cfg.short_read);
		let n = shorten(n, p, "short_read");
		exec::progress();
		let writer = with(|w| {
			let rx = w.socks[s].rx;
			let pipe = &mut w.pipes[rx];
			for (d, b) in dst.iter_mut().zip(pipe.buf.drain(..n)) {
				*d = b;
			}
			pipe.read_bytes += n;
			pipe.writer
		});
		trace(|| format!("read sock {s}: {n} bytes"));
		wake_write(writer);
		return Poll::Ready(Ok(n));
	}
	if let Some(e) = err {
		with(|n| {
			let rx = n.socks[s].rx;
			n.pipes[rx].err = None;
			{ n.socks[s].err_read = Some(e); note_end(n, s) };
		});
		trace(|| format!("read sock {s} -> errno {e}"));
		return Poll::Ready(Err(os_err(e)));
	}
	if eof {
		with(|n| { n.socks[s].eof_read = true; note_end(n, s) });
		trace(|| format!("read sock {s} -> EOF"));
		return Poll::Ready(Ok(0));
	}
	set_rw(s, cx);
	Poll::Pending
}

pub fn poll_send(s: SockId, cx: &mut Context<'_>, bufs: &[&[u8]], fds: &[i32]) -> Poll<std::io::Result<usize>> {
	exec::preempt_point();
	if exec::coop_yield(cx) {
		return Poll::Pending;
	}
	let pause = crate::mem::pause();
	io_op(s, false);
	let _ = byte_limit(s, false);
	let data: Vec<u8> = bufs.concat();
	let err = with(|n| {
		let k = &n.socks[s];
		if let Some(e) = k.write_err {
			return Some(e);
		}
		if n.pipes[k.tx].shut || !n.socks[k.peer].open || n.socks[k.peer].rd_shut {
			return Some(libc::EPIPE);
		}
		None
	});
	// The kernel refuses the message itself; the connection is not affected.
	let too_much = with(|n| {
		if fds.len() > 253 {
			Some(libc::EINVAL)
		} else if data.len() > n.cfg.dgram_max {
			Some(libc::EMSGSIZE)
		} else {
			None
		}
	});
	if let (None, Some(e)) = (err, too_much) {
		count("message_refused");
		trace(|| format!("send sock {s} of {} bytes -> errno {e}", data.len()));
		return Poll::Ready(Err(os_err(e)));
	}
	if let Some(e) = err {
		let st = stamp();
		with(|n| { n.socks[s].last_write_err = Some((st, e)); note_end(n, s) });
		trace(|| format!("send sock {s} -> errno {e}"));
		return Poll::Ready(Err(os_err(e)));
	}
	let full = with(|n| {
		let p = &n.pipes[n.socks[s].tx];
		p.inflight.len() + p.dgrams.len() >= n.cap_override.get(&s).copied().unwrap_or(n.cfg.dgram_cap)
	});
	if full {
		set_ww(s, cx);
		return Poll::Pending;
	}
	let mut owned = Vec::new();
	let mut inodes = Vec::new();
	for fd in fds {
		// SAFETY: duplicating a descriptor number; failure is reported like the kernel does.
		let new = unsafe { libc::fcntl(*fd, libc::F_DUPFD_CLOEXEC, 3) };
		if new < 0 {
			return Poll::Ready(Err(os_err(libc::EBADF)));
		}
		inodes.push(inode(new).unwrap_or(0));
		// SAFETY: `new` is a fresh descriptor that we own.
		owned.push(unsafe { <OwnedFd as std::os::fd::FromRawFd>::from_raw_fd(new) });
	}
	let len = data.len();
	let st = stamp();
	let tx = with(|n| {
		let tx = n.socks[s].tx;
		n.pipes[tx].dlog.push(DgramLog { stamp: st, data: data.clone(), inodes });
		tx
	});
	trace(|| format!("send sock {s}: datagram of {len} bytes, {} fds", fds.len()));
	push_seg(tx, Seg::Dgram(Dgram { data, fds: owned }));
	drop(pause);
	exec::preempt_point();
	Poll::Ready(Ok(len))
}

/// Receive one datagram: (bytes copied, descriptors).
pub fn poll_recv(s: SockId, cx: &mut Context<'_>, bufs: &mut [&mut [u8]]) -> Poll<std::io::Result<(usize, Vec<OwnedFd>)>> {
	exec::preempt_point();
	if exec::coop_yield(cx) {
		return Poll::Pending;
	}
	let _pause = crate::mem::pause();
	io_op(s, true);
	let _ = byte_limit(s, true);
	if let Some(e) = with(|n| n.socks[s].read_err) {
		with(|n| { n.socks[s].err_read = Some(e); note_end(n, s) });
		return Poll::Ready(Err(os_err(e)));
	}
	// A pending socket error is reported before queued datagrams.
	let (err, eof) = with(|n| {
		let p = &n.pipes[n.socks[s].rx];
		(p.err, p.eof || n.socks[s].rd_shut)
	});
	if let Some(e) = err {
		with(|n| {
			let rx = n.socks[s].rx;
			n.pipes[rx].err = None;
			{ n.socks[s].err_read = Some(e); note_end(n, s) };
		});
		trace(|| format!("recv sock {s} -> errno {e}"));
		return Poll::Ready(Err(os_err(e)));
	}
	let got = with(|n| {
		let rx = n.socks[s].rx;
		let pipe = &mut n.pipes[rx];
		let d = pipe.dgrams.pop_front()?;
		pipe.read_dgrams += 1;
		Some((d, pipe.writer))
	});
	if let Some((d, writer)) = got {
		wake_write(writer);
		let mut off = 0;
		for b in bufs.iter_mut() {
			let take = (d.data.len() - off).min(b.len());
			b[..take].copy_from_slice(&d.data[off..off + take]);
			off += take;
		}
		trace(|| format!("recv sock {s}: datagram of {} bytes ({off} copied), {} fds", d.data.len(), d.fds.len()));
		return Poll::Ready(Ok((off, d.fds)));
	}
	if eof {
		with(|n| { n.socks[s].eof_read = true; note_end(n, s) });
		trace(|| format!("recv sock {s} -> EOF"));
		return Poll::Ready(Ok((0, Vec::new())));
	}
	set_rw(s, cx);
	Poll::Pending
}

fn queue_fin(p: PipeId) {
	let already = with(|n| std::mem::replace(&mut n.pipes[p].fin_queued, true));
	if !already {
		push_seg(p, Seg::Fin);
	}
}

pub fn shutdown_write(s: SockId) {
	let p = with(|n| {
		let tx = n.socks[s].tx;
		n.pipes[tx].shut = true;
		tx
	});
	trace(|| format!("shutdown(write) sock {s}"));
	queue_fin(p);
}

/// Shut the receiving half down: nothing more than what is queued is read, and a unix peer's writes fail.
pub fn shutdown_read(s: SockId) {
	let (rw, peer) = with(|n| {
		n.socks[s].rd_shut = true;
		(n.socks[s].rw.take(), n.socks[s].peer)
	});
	trace(|| format!("shutdown(read) sock {s}"));
	if let Some(w) = rw {
		w.wake()
	}
	wake_write(peer);
}

/// Whether a read would find something (data, end or error) right now.
pub fn readable(s: SockId) -> bool {
	with(|n| {
		let k = &n.socks[s];
		let p = &n.pipes[k.rx];
		k.read_err.is_some() || k.rd_shut || p.eof || p.err.is_some() || !p.buf.is_empty() || !p.dgrams.is_empty()
	})
}

/// Whether a write would do something (or fail) right now.
pub fn writable(s: SockId) -> bool {
	with(|n| {
		let k = &n.socks[s];
		let p = &n.pipes[k.tx];
		let cap = n.cap_override.get(&s).copied();
		k.write_err.is_some()
			|| p.shut
			|| k.kind != Kind::Tcp && (!n.socks[k.peer].open || n.socks[k.peer].rd_shut)
			|| match k.kind {
				Kind::Seq => p.inflight.len() + p.dgrams.len() < cap.unwrap_or(n.cfg.dgram_cap),
				_ => p.inflight_bytes + p.buf.len() < cap.unwrap_or(n.cfg.stream_cap),
			}
	})
}

/// Wait until `readable` (or `writable`).
pub async fn ready(s: SockId, read: bool, write: bool) {
	std::future::poll_fn(|cx| {
		exec::preempt_point();
		if exec::coop_yield(cx) {
			return Poll::Pending;
		}
		if read && readable(s) || write && writable(s) {
			return Poll::Ready(());
		}
		if read {
			set_rw(s, cx);
		}
		if write {
			set_ww(s, cx);
		}
		Poll::Pending
	})
	.await
}

/// Close a socket.
pub fn close(s: SockId) {
	let Some((kind, peer, tx, unread, dropped)) = with(|n| {
		let k = n.socks.get_mut(s)?;
		if !k.open {
			return None;
		}
		k.open = false;
		let (kind, peer, tx, rx) = (k.kind, k.peer, k.tx, k.rx);
		let wakers = (k.rw.take(), k.ww.take());
		let pipe = &mut n.pipes[rx];
		let unread = !pipe.buf.is_empty() || !pipe.dgrams.is_empty();
		pipe.buf.clear();
		let d = std::mem::take(&mut pipe.dgrams);
		n.pipes[tx].shut = true;
		Some((kind, peer, tx, unread, (d, wakers)))
	}) else {
		return;
	};
	drop(dropped);
	let st = stamp();
	with(|n| n.socks[s].closed_at = Some(st));
	trace(|| format!("close sock {s}{}", if unread { " with unread data" } else { "" }));
	let was_rst = with(|n| n.socks[s].rst);
	if unread && !was_rst {
		count("close_with_unread_data");
		with(|n| n.pipes[tx].fin_queued = true);
		push_seg(tx, Seg::Err(libc::ECONNRESET));
	} else {
		queue_fin(tx);
	}
	// A unix socket's peer notices immediately that writes are pointless.
	if kind != Kind::Tcp {
		wake_write(peer);
	}
}

/// Kill a socket the way SO_LINGER 0 does: the peer sees a reset.
pub fn abort(s: SockId) {
	let Some((tx, dropped)) = with(|n| {
		let k = n.socks.get_mut(s)?;
		if !k.open {
			return None;
		}
		k.open = false;
		let (tx, rx) = (k.tx, k.rx);
		let wakers = (k.rw.take(), k.ww.take());
		n.pipes[rx].buf.clear();
		let d = std::mem::take(&mut n.pipes[rx].dgrams);
		n.pipes[tx].shut = true;
		n.pipes[tx].fin_queued = true;
		Some((tx, (d, wakers)))
	}) else {
		return;
	};
	drop(dropped);
	let st = stamp();
	with(|n| n.socks[s].closed_at = Some(st));
	count("abortive_close");
	trace(|| format!("abortive close sock {s}"));
	push_seg(tx, Seg::Err(libc::ECONNRESET));
}

// ---------------------------------------------------------------- queries

#[derive(Clone, Debug)]
pub struct SockInfo {
	pub id: SockId,
	pub kind: Kind,
	pub node: u32,
	pub peer: SockId,
	pub open: bool,
	pub closed_at: Option<u64>,
	pub local: Addr,
	pub remote: Addr,
	pub eof_read: bool,
	pub err_read: Option<i32>,
	pub last_write_err: Option<(u64, i32)>,
	pub io_ops: u64,
	pub rst: bool,
	pub ended_at: Option<u64>,
	/// Bytes / datagrams written by this socket and read by its peer.
	pub written: usize,
	pub written_read: usize,
}

pub fn sock_info(s: SockId) -> SockInfo {
	with(|n| {
		let k = &n.socks[s];
		let p = &n.pipes[k.tx];
		let seq = k.kind == Kind::Seq;
		SockInfo {
			id: s,
			kind: k.kind,
			node: k.node,
			peer: k.peer,
			open: k.open,
			closed_at: k.closed_at,
			local: k.local.clone(),
			remote: k.remote.clone(),
			eof_read: k.eof_read,
			err_read: k.err_read,
			last_write_err: k.last_write_err,
			io_ops: k.io_ops,
			rst: k.rst,
			ended_at: k.ended_at,
			written: if seq { p.dlog.len() } else { p.log.len() },
			written_read: if seq { p.read_dgrams } else { p.read_bytes },
		}
	})
}

/// How many sockets are open.
pub fn open_count() -> usize {
	with(|n| n.socks.iter().filter(|s| s.open).count())
}

pub fn sock_count() -> usize {
	with(|n| n.socks.len())
}

/// Everything written on the stream socket so far, with (end offset, stamp) marks.
pub fn wire(s: SockId) -> (Vec<u8>, Vec<(usize, u64)>) {
	with(|n| {
		let p = &n.pipes[n.socks[s].tx];
		(p.log.clone(), p.marks.clone())
	})
}

pub fn wire_dgrams(s: SockId) -> Vec<DgramLog> {
	with(|n| n.pipes[n.socks[s].tx].dlog.clone())
}

/// (local, remote) or the error the real socket would report.
pub fn tcp_addrs(s: SockId) -> (std::io::Result<SocketAddr>, std::io::Result<SocketAddr>) {
	with(|n| {
		let k = &n.socks[s];
		let get = |a: &Addr| match a {
			Addr::Inet(x) => Ok(*x),
			_ => Err(os_err(libc::EINVAL)),
		};
		let remote = if let Some(e) = k.info_err {
			Err(os_err(e))
		} else if k.rst {
			Err(os_err(libc::ENOTCONN))
		} else {
			get(&k.remote)
		};
		(get(&k.local), remote)
	})
}

/// The paths the local and the remote end are bound to.
pub fn paths(s: SockId) -> (Option<std::path::PathBuf>, Option<std::path::PathBuf>) {
	with(|n| {
		let k = &n.socks[s];
		let get = |a: &Addr| match a {
			Addr::Path(p) => Some(p.clone()),
			_ => None,
		};
		(get(&k.local), get(&k.remote))
	})
}

/// Credentials of the process at the other end: (uid, gid, pid), derived from its node.
pub fn peer_cred(s: SockId) -> std::io::Result<(u32, u32, i32)> {
	with(|n| {
		let k = &n.socks[s];
		if let Some(e) = k.info_err {
			return Err(os_err(e));
		}
		let node = n.socks[k.peer].node;
		Ok((1000 + node, 2000 + node, 3000 + node as i32))
	})
}

/// The next datagram with descriptors received on this socket gets at most `n` of them
/// (the receiving process ran out of descriptors).
pub fn set_fd_shortage(s: SockId, n: usize) {
	with(|k| k.fd_shortage.insert(s, n));
}

pub fn fd_shortage(s: SockId) -> Option<usize> {
	with(|k| k.fd_shortage.get(&s).copied())
}

pub fn take_fd_shortage(s: SockId) -> Option<usize> {
	let r = with(|k| k.fd_shortage.remove(&s));
	if r.is_some() {
		count("fd_shortage");
	}
	r
}

pub fn set_info_err(s: SockId, errno: i32) {
	with(|n| n.socks[s].info_err = Some(errno))
}

// ---------------------------------------------------------------- listeners

pub fn listen(kind: Kind, addr: Addr, path_key: Option<(u64, u64)>) -> std::io::Result<ListenerId> {
	let node = exec::current_node();
	with(|n| {
		let mut addr = addr;
		if let Addr::Inet(a) = &mut addr {
			if a.port() == 0 {
				n.next_port += 1;
				a.set_port(n.next_port);
			}
			if n.listeners.iter().any(|l| l.open && l.addr == addr) {
				return Err(os_err(libc::EADDRINUSE));
			}
		}
		let id = n.listeners.len();
		n.listeners.push(Listener {
			kind,
			addr,
			node,
			backlog: VecDeque::new(),
			errs: VecDeque::new(),
			waker: None,
			open: true,
			accepted: Vec::new(),
		});
		if let Some(k) = path_key {
			n.paths.insert(k, id);
		}
		Ok(id)
	})
}

pub fn listener_addr(l: ListenerId) -> Addr {
	with(|n| n.listeners[l].addr.clone())
}

pub fn listener_open(l: ListenerId) -> bool {
	with(|n| n.listeners.get(l).map(|l| l.open).unwrap_or(false))
}

pub fn listener_count() -> usize {
	with(|n| n.listeners.len())
}

pub fn accepted(l: ListenerId) -> Vec<SockId> {
	with(|n| n.listeners[l].accepted.clone())
}

pub fn close_listener(l: ListenerId) {
	let (pending, w) = with(|n| {
		let Some(k) = n.listeners.get_mut(l) else { return Default::default() };
		k.open = false;
		(std::mem::take(&mut k.backlog), k.waker.take())
	});
	drop(w);
	for s in pending {
		abort(s);
	}
}

/// Make the next accept call fail.
pub fn inject_accept_error(l: ListenerId, errno: i32) {
	let w = with(|n| {
		let k = n.listeners.get_mut(l)?;
		k.errs.push_back(errno);
		k.waker.take()
	});
	count("accept_error");
	if let Some(w) = w {
		w.wake()
	}
}

pub fn poll_accept(l: ListenerId, cx: &mut Context<'_>) -> Poll<std::io::Result<(SockId, Addr)>> {
	exec::preempt_point();
	if exec::coop_yield(cx) {
		return Poll::Pending;
	}
	let r = with(|n| {
		let k = &mut n.listeners[l];
		if let Some(e) = k.errs.pop_front() {
			return Some(Err(os_err(e)));
		}
		let s = k.backlog.pop_front()?;
		k.accepted.push(s);
		Some(Ok((s, n.socks[s].remote.clone())))
	});
	match r {
		Some(r) => {
			trace(|| format!("accept on listener {l} -> {:?}", r.as_ref().map(|x| x.0).map_err(|e| e.kind())));
			Poll::Ready(r)
		},
		None => {
			let w = cx.waker().clone();
			let old = with(|n| n.listeners[l].waker.replace(w));
			drop(old);
			Poll::Pending
		},
	}
}

fn latency() -> u64 {
	let (lo, hi) = with(|n| n.cfg.latency);
	range(lo, hi)
}

fn establish(l: ListenerId) -> SockId {
	let node = exec::current_node();
	let (c, w) = with(|n| {
		let addr = n.listeners[l].addr.clone();
		let kind = n.listeners[l].kind;
		let lnode = n.listeners[l].node;
		n.next_port += 1;
		let mine = match &addr {
			Addr::Inet(a) => Addr::Inet(SocketAddr::new(a.ip(), n.next_port)),
			_ => Addr::Unnamed,
		};
		let (c, s) = new_pair(n, kind, (node, mine), (lnode, addr));
		n.listeners[l].backlog.push_back(s);
		(c, n.listeners[l].waker.take())
	});
	arm(c);
	arm(c + 1);
	if let Some(w) = w {
		w.wake()
	}
	c
}

pub async fn connect_inet(addr: SocketAddr) -> std::io::Result<SockId> {
	let d = latency();
	if d > 0 {
		exec::sleep(d).await;
	}
	let l = with(|n| {
		n.listeners
			.iter()
			.position(|l| l.open && matches!(&l.addr, Addr::Inet(a) if a.port() == addr.port() && (a.ip() == addr.ip() || a.ip().is_unspecified())))
	});
	let Some(l) = l else {
		return Err(os_err(libc::ECONNREFUSED));
	};
	let s = establish(l);
	trace(|| format!("connect {addr} -> sock {s}"));
	let d = latency();
	if d > 0 {
		let guard = CloseOnDrop(Some(s));
		exec::sleep(d).await;
		let mut guard = guard;
		guard.0 = None;
	}
	Ok(s)
}

struct CloseOnDrop(Option<SockId>);
impl Drop for CloseOnDrop {
	fn drop(&mut self) {
		if let Some(s) = self.0 {
			close(s)
		}
	}
}

pub fn path_key(path: &std::path::Path) -> std::io::Result<(u64, u64)> {
	use std::os::unix::fs::MetadataExt;
	let m = std::fs::metadata(path)?;
	Ok((m.dev(), m.ino()))
}

/// bind(2) on a path: creates the socket file, or fails the way the kernel does.
pub fn bind_path(kind: Kind, path: &std::path::Path) -> std::io::Result<ListenerId> {
	// Let the kernel make the directory entry, so that EADDRINUSE, ENOENT,
	// permissions etc. are real.  The descriptor itself is not needed.
	let l = std::os::unix::net::UnixListener::bind(path)?;
	drop(l);
	let key = path_key(path)?;
	trace(|| "bind unix path".to_string());
	listen(kind, Addr::Path(path.to_path_buf()), Some(key))
}

/// A path now leads to something the simulator does not know (inode numbers are reused).
pub fn forget_path(path: &std::path::Path) {
	if let Ok(key) = path_key(path) {
		with(|n| n.paths.remove(&key));
	}
}

pub async fn connect_path(kind: Kind, path: &std::path::Path) -> std::io::Result<SockId> {
	use std::os::unix::fs::FileTypeExt;
	// The length of sun_path.
	if path.as_os_str().len() >= 108 {
		return Err(std::io::Error::new(std::io::ErrorKind::InvalidInput, "path must be shorter than SUN_LEN"));
	}
	let m = std::fs::metadata(path)?;
	if !m.file_type().is_socket() {
		return Err(os_err(libc::ECONNREFUSED));
	}
	let key = path_key(path)?;
	let l = with(|n| {
		let l = *n.paths.get(&key)?;
		n.listeners[l].open.then_some(l)
	});
	let Some(l) = l else {
		return Err(os_err(libc::ECONNREFUSED));
	};
	if with(|n| n.listeners[l].kind != kind) {
		return Err(os_err(libc::EPROTOTYPE));
	}
	exec::yield_now().await;
	if !listener_open(l) {
		return Err(os_err(libc::ECONNREFUSED));
	}
	Ok(establish(l))
}

/// Name lookup.
pub fn resolve(host: &str, port: u16) -> std::io::Result<Vec<SocketAddr>> {
	if let Ok(ip) = host.parse::<std::net::IpAddr>() {
		return Ok(vec![SocketAddr::new(ip, port)]);
	}
	if host == "localhost" {
		return Ok(vec![SocketAddr::from(([127, 0, 0, 1], port))]);
	}
	with(|n| n.hosts.get(host).cloned())
		.map(|ips| ips.into_iter().map(|ip| SocketAddr::new(ip, port)).collect())
		.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "failed to lookup address information"))
}

// ---------------------------------------------------------------- owned handle

/// An owned simulated socket; closes on drop.
#[derive(Debug)]
pub struct Owned(pub SockId, u64);

thread_local! {
	static LIFE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

impl Owned {
	pub fn new(id: SockId) -> Self {
		Self(id, 0)
	}
	pub fn id(&self) -> SockId {
		self.0
	}
	pub fn release(self) -> SockId {
		let id = self.0;
		std::mem::forget(self);
		id
	}
}

impl Drop for Owned {
	fn drop(&mut self) {
		close(self.0)
	}
}

#[derive(Debug)]
pub struct OwnedListener(pub ListenerId);
impl Drop for OwnedListener {
	fn drop(&mut self) {
		close_listener(self.0)
	}
}

/// Await-style helpers for harness code acting as a raw remote.
pub struct RawStream(pub Owned);

impl RawStream {
	pub fn id(&self) -> SockId {
		self.0 .0
	}
	pub async fn read(&self, buf: &mut [u8]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| poll_read(self.id(), cx, buf)).await
	}
	pub async fn write_all(&self, mut data: &[u8]) -> std::io::Result<()> {
		while !data.is_empty() {
			let n = std::future::poll_fn(|cx| poll_write(self.id(), cx, &[data])).await?;
			data = &data[n..];
		}
		Ok(())
	}
	pub async fn send(&self, data: &[u8], fds: &[i32]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| poll_send(self.id(), cx, &[data], fds)).await
	}
	pub async fn recv(&self, buf: &mut [u8]) -> std::io::Result<(usize, Vec<OwnedFd>)> {
		std::future::poll_fn(|cx| poll_recv(self.id(), cx, &mut [&mut *buf])).await
	}
}

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

pub fn raw_fd(f: &impl AsRawFd) -> i32 {
	f.as_raw_fd()
}

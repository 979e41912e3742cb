//! Message tags, reproducible bodies, and an independent decoder for the wire format.

use fizyr_rpc::{StreamBody, UnixBody};
use simcore::choice::mix;
use simcore::net::{self, SockId};

pub const REQUEST: u32 = 0;
pub const RESPONSE: u32 = 1;
pub const QUPDATE: u32 = 2;
pub const RUPDATE: u32 = 3;
pub const STREAM: u32 = 4;

pub const ALL: &[&str] = &[
	"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

/// Unique service id of message number n (never -1).
pub fn tag(n: usize) -> i32 {
	match n {
		0 => 1,
		3 => 0,
		5 => i32::MAX,
		7 => i32::MIN,
		9 => -2,
		_ => {
			let v = (n as u32).wrapping_mul(0x9E37_79B1) ^ 0x5bd1_e995;
			v as i32
		},
	}
}

/// Body of the message with the given tag.
pub fn body(tag: i32, len: usize) -> Vec<u8> {
	let mut out = Vec::with_capacity(len + 8);
	let mut x = mix(tag as u32 as u64 ^ 0xb0d1);
	while out.len() < len {
		x = mix(x);
		out.extend_from_slice(&x.to_le_bytes());
	}
	out.truncate(len);
	out
}

/// Text of error response number n.
pub fn err_text(n: usize, len: usize) -> String {
	let mut s = format!("E{n}:");
	while s.len() < len {
		s.push('\u{e9}');
	}
	s
}

pub fn err_number(b: &[u8]) -> Option<usize> {
	let s = std::str::from_utf8(b).ok()?;
	let s = s.strip_prefix('E')?;
	let (n, rest) = s.split_once(':')?;
	if !rest.chars().all(|c| c == '\u{e9}') {
		return None;
	}
	n.parse().ok()
}

#[derive(Clone, PartialEq, Eq)]
pub struct Msg {
	pub typ: u32,
	pub id: u32,
	pub svc: i32,
	pub body: Vec<u8>,
	pub inodes: Vec<u64>,
}

impl std::fmt::Debug for Msg {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		let t = ["request", "response", "requester-update", "responder-update", "stream"];
		write!(
			f,
			"{}(id {}, service {}, {} bytes{}{})",
			t.get(self.typ as usize).copied().unwrap_or("?"),
			self.id,
			self.svc,
			self.body.len(),
			if self.body.len() <= 12 { format!(" {:02x?}", self.body) } else { String::new() },
			if self.inodes.is_empty() { String::new() } else { format!(", {} fds", self.inodes.len()) }
		)
	}
}

pub fn typ_num(t: fizyr_rpc::MessageType) -> u32 {
	use fizyr_rpc::MessageType::*;
	let n = match t {
		Request => 0,
		Response => 1,
		RequesterUpdate => 2,
		ResponderUpdate => 3,
		Stream => 4,
	};
	// What the type says about itself must be the same thing.
	let says = [t.is_request(), t.is_response(), t.is_requester_update(), t.is_responder_update(), t.is_stream()];
	if says != [0, 1, 2, 3, 4].map(|x| x == n) {
		return 900 + n;
	}
	n
}

/// Bodies the scenarios can build and inspect.
pub trait TB: fizyr_rpc::Body + From<Vec<u8>> {
	/// Whether file descriptors can be attached.
	const CARRIES: bool;
	fn make(data: Vec<u8>, fds: Vec<filedesc::FileDesc>) -> Self;
	fn bytes(&self) -> &[u8];
	fn inodes(&self) -> Vec<u64>;
}

impl TB for StreamBody {
	const CARRIES: bool = false;
	fn make(data: Vec<u8>, fds: Vec<filedesc::FileDesc>) -> Self {
		assert!(fds.is_empty());
		// All ways to make a body mean the same.
		match data.len() % 5 {
			0 => data.as_slice().into(),
			1 => data.into_boxed_slice().into(),
			2 => StreamBody { data },
			_ => data.into(),
		}
	}
	fn bytes(&self) -> &[u8] {
		&self.data
	}
	fn inodes(&self) -> Vec<u64> {
		Vec::new()
	}
}

impl TB for UnixBody {
	const CARRIES: bool = true;
	fn make(data: Vec<u8>, fds: Vec<filedesc::FileDesc>) -> Self {
		match (fds.len(), data.len() % 5) {
			(0, 0) => data.as_slice().into(),
			(0, 1) => data.into_boxed_slice().into(),
			(0, 2) => data.into(),
			(_, 3) => (data, fds).into(),
			(_, 4) => UnixBody { data, fds },
			_ => UnixBody::new(data, fds),
		}
	}
	fn bytes(&self) -> &[u8] {
		&self.data
	}
	fn inodes(&self) -> Vec<u64> {
		self.fds.iter().map(|f| net::inode(f.as_raw_fd()).unwrap_or(0)).collect()
	}
}

pub fn msg_of<B: TB>(m: &fizyr_rpc::Message<B>) -> Msg {
	Msg {
		typ: typ_num(m.header.message_type),
		id: m.header.request_id,
		svc: m.header.service_id,
		body: m.body.bytes().to_vec(),
		inodes: m.body.inodes(),
	}
}

/// A fresh file, identified by its inode.
pub fn memfd() -> filedesc::FileDesc {
	use std::os::fd::FromRawFd;
	// SAFETY: plain system call; the descriptor is owned by the returned object.
	unsafe {
		let fd = libc::memfd_create(b"sim\0".as_ptr().cast(), libc::MFD_CLOEXEC);
		assert!(fd >= 0, "memfd_create failed");
		filedesc::FileDesc::from_raw_fd(fd)
	}
}

pub fn open_fds() -> usize {
	std::fs::read_dir("/proc/self/fd").map(|d| d.count()).unwrap_or(0)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
	Little,
	Big,
}

impl End {
	pub fn from_cfg(v: i64) -> (End, fizyr_rpc::transport::Endian) {
		use fizyr_rpc::transport::Endian as E;
		match v {
			0 => (End::Little, E::LittleEndian),
			1 => (End::Big, E::BigEndian),
			// What the configuration says by default; the protocol is little endian.
			3 => (End::Little, E::LittleEndian),
			_ => (if cfg!(target_endian = "little") { End::Little } else { End::Big }, E::NativeEndian),
		}
	}
	pub fn u32(self, b: &[u8]) -> u32 {
		let a = [b[0], b[1], b[2], b[3]];
		match self {
			End::Little => (a[3] as u32) << 24 | (a[2] as u32) << 16 | (a[1] as u32) << 8 | a[0] as u32,
			End::Big => (a[0] as u32) << 24 | (a[1] as u32) << 16 | (a[2] as u32) << 8 | a[3] as u32,
		}
	}
	pub fn put(self, v: u32) -> [u8; 4] {
		let le = [v as u8, (v >> 8) as u8, (v >> 16) as u8, (v >> 24) as u8];
		match self {
			End::Little => le,
			End::Big => [le[3], le[2], le[1], le[0]],
		}
	}
}

/// Encode a frame by the protocol document.
pub fn encode(end: End, stream: bool, typ: u32, id: u32, svc: i32, body: &[u8]) -> Vec<u8> {
	let mut v = Vec::new();
	if stream {
		v.extend(end.put(12 + body.len() as u32));
	}
	v.extend(end.put(typ));
	v.extend(end.put(id));
	v.extend(end.put(svc as u32));
	v.extend(body);
	v
}

#[derive(Clone, Debug)]
pub struct Frame {
	pub msg: Msg,
	/// When the first byte and the last byte were handed to the socket.
	pub first: u64,
	pub last: u64,
}

pub struct Wire {
	pub frames: Vec<Frame>,
	/// Bytes after the last complete frame.
	pub tail: Vec<u8>,
	/// Set if the bytes cannot be explained by the protocol.
	pub corrupt: Option<String>,
}

/// Decode everything a socket has written.
pub fn decode_wire(sock: SockId, seq: bool, end: End) -> Wire {
	let mut out = Wire { frames: Vec::new(), tail: Vec::new(), corrupt: None };
	if seq {
		for d in net::wire_dgrams(sock) {
			if d.data.len() < 12 {
				out.corrupt = Some(format!("datagram of {} bytes", d.data.len()));
				break;
			}
			let typ = end.u32(&d.data);
			if typ > 4 {
				out.corrupt = Some(format!("message type {typ}"));
				break;
			}
			out.frames.push(Frame {
				msg: Msg { typ, id: end.u32(&d.data[4..]), svc: end.u32(&d.data[8..]) as i32, body: d.data[12..].to_vec(), inodes: d.inodes },
				first: d.stamp,
				last: d.stamp,
			});
		}
		return out;
	}
	let (bytes, marks) = net::wire(sock);
	let stamp_of = |off: usize| {
		// Stamp of the write that contained byte `off`.
		let i = marks.partition_point(|(e, _)| *e <= off);
		marks.get(i).map(|m| m.1).unwrap_or(0)
	};
	let mut off = 0;
	while bytes.len() - off >= 4 {
		let len = end.u32(&bytes[off..]) as usize;
		if len < 12 {
			out.corrupt = Some(format!("length field {len} at offset {off}"));
			break;
		}
		if bytes.len() - off >= 8 {
			let typ = end.u32(&bytes[off + 4..]);
			if typ > 4 {
				out.corrupt = Some(format!("message type {typ} at offset {off}"));
				break;
			}
		}
		if bytes.len() - off - 4 < len {
			break;
		}
		let f = &bytes[off + 4..off + 4 + len];
		out.frames.push(Frame {
			msg: Msg { typ: end.u32(f), id: end.u32(&f[4..]), svc: end.u32(&f[8..]) as i32, body: f[12..].to_vec(), inodes: Vec::new() },
			first: stamp_of(off),
			last: stamp_of(off + 4 + len - 1),
		});
		off += 4 + len;
	}
	out.tail = bytes[off..].to_vec();
	out
}

pub fn hash_str(s: &str) -> u64 {
	s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| mix(h ^ b as u64))
}

thread_local! {
	static FRESH: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Give every poll of the application's futures a waker of its own; see `Fresh`.
pub fn fresh_wakers(on: bool) {
	FRESH.with(|f| f.set(on));
}

struct OnlyLatest {
	inner: std::task::Waker,
	no: u64,
	latest: std::sync::Arc<std::sync::atomic::AtomicU64>,
}
impl std::task::Wake for OnlyLatest {
	fn wake(self: std::sync::Arc<Self>) {
		self.wake_by_ref();
	}
	fn wake_by_ref(self: &std::sync::Arc<Self>) {
		if self.latest.load(std::sync::atomic::Ordering::SeqCst) == self.no {
			self.inner.wake_by_ref();
		}
	}
}

/// Polls something the way an application does that moves its futures from task to task:
/// each poll comes with another waker, and only that of the last poll still leads anywhere.
#[derive(Default)]
pub struct Fresh(Option<std::sync::Arc<std::sync::atomic::AtomicU64>>);
impl Fresh {
	pub fn poll<R>(&mut self, cx: &mut std::task::Context, f: impl FnOnce(&mut std::task::Context) -> R) -> R {
		if !FRESH.with(|f| f.get()) {
			return f(cx);
		}
		let latest = self.0.get_or_insert_with(Default::default).clone();
		let no = latest.fetch_add(1, std::sync::atomic::Ordering::SeqCst) + 1;
		let waker = std::task::Waker::from(std::sync::Arc::new(OnlyLatest { inner: cx.waker().clone(), no, latest }));
		f(&mut std::task::Context::from_waker(&waker))
	}
}

/// A future under `Fresh` wakers.
pub async fn with_fresh<F: std::future::Future>(fut: F) -> F::Output {
	let mut fut = std::pin::pin!(fut);
	let mut fresh = Fresh::default();
	std::future::poll_fn(|cx| fresh.poll(cx, |cx| fut.as_mut().poll(cx))).await
}

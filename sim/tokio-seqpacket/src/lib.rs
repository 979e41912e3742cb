//! A simulated `tokio-seqpacket`.
//!
//! `ancillary` and `borrow_fd` are the real crate's code.  Sockets are
//! simulated; file descriptors in ancillary data are real descriptors.

use simcore::net::{self, Addr, Kind, Owned, OwnedListener};
use std::io::{IoSlice, IoSliceMut};
use std::os::fd::IntoRawFd;
use std::path::{Path, PathBuf};
use std::task::{Context, Poll};

pub mod ancillary;
pub mod borrow_fd;

use ancillary::{AncillaryMessageReader, AncillaryMessageWriter};

/// Credentials of a process
#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
pub struct UCred {
	uid: u32,
	gid: u32,
	pid: i32,
}
impl UCred {
	pub fn uid(&self) -> u32 {
		self.uid
	}
	pub fn gid(&self) -> u32 {
		self.gid
	}
	pub fn pid(&self) -> Option<i32> {
		if self.pid == 0 {
			None
		} else {
			Some(self.pid)
		}
	}
	pub(crate) fn from_scm_creds(raw: ancillary::RawScmCreds) -> UCred {
		UCred { uid: raw.uid, gid: raw.gid, pid: raw.pid }
	}
	#[allow(dead_code)]
	pub(crate) fn to_scm_creds(self) -> ancillary::RawScmCreds {
		ancillary::RawScmCreds { pid: self.pid, uid: self.uid, gid: self.gid }
	}
}

pub struct UnixSeqpacket {
	sock: Owned,
}

impl std::fmt::Debug for UnixSeqpacket {
	fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
		f.debug_struct("UnixSeqpacket").field("sock", &self.sock_id()).finish()
	}
}

impl UnixSeqpacket {
	/// Wrap an existing simulated socket.
	pub fn from_sim(id: usize) -> Self {
		Self { sock: Owned::new(id) }
	}
	pub fn sock_id(&self) -> usize {
		self.sock.id()
	}
	pub async fn connect<P: AsRef<Path>>(address: P) -> std::io::Result<Self> {
		Ok(Self::from_sim(net::connect_path(Kind::Seq, address.as_ref()).await?))
	}
	pub fn pair() -> std::io::Result<(Self, Self)> {
		let (a, b) = net::pair(Kind::Seq);
		Ok((Self::from_sim(a), Self::from_sim(b)))
	}
	pub fn split(&self) -> (&Self, &Self) {
		(self, self)
	}
	pub fn peer_cred(&self) -> std::io::Result<UCred> {
		let (uid, gid, pid) = net::peer_cred(self.sock_id())?;
		Ok(UCred { uid, gid, pid })
	}
	pub fn take_error(&self) -> std::io::Result<Option<std::io::Error>> {
		Ok(None)
	}
	pub fn shutdown(&self, how: std::net::Shutdown) -> std::io::Result<()> {
		if how != std::net::Shutdown::Write {
			net::shutdown_read(self.sock_id());
		}
		if how != std::net::Shutdown::Read {
			net::shutdown_write(self.sock_id());
		}
		Ok(())
	}

	pub fn poll_send(&self, cx: &mut Context, buffer: &[u8]) -> Poll<std::io::Result<usize>> {
		net::poll_send(self.sock_id(), cx, &[buffer], &[])
	}
	pub fn poll_send_vectored(&self, cx: &mut Context, buffer: &[IoSlice]) -> Poll<std::io::Result<usize>> {
		let bufs: Vec<&[u8]> = buffer.iter().map(|b| &**b).collect();
		net::poll_send(self.sock_id(), cx, &bufs, &[])
	}
	pub fn poll_send_vectored_with_ancillary(
		&self,
		cx: &mut Context,
		buffer: &[IoSlice],
		ancillary: &mut AncillaryMessageWriter,
	) -> Poll<std::io::Result<usize>> {
		let bufs: Vec<&[u8]> = buffer.iter().map(|b| &**b).collect();
		let mut fds: Vec<i32> = Vec::new();
		let length = ancillary.length;
		for data in rights(&ancillary.buffer[..length]) {
			for c in data.chunks_exact(4) {
				fds.push(i32::from_ne_bytes(c.try_into().unwrap()));
			}
		}
		net::poll_send(self.sock_id(), cx, &bufs, &fds)
	}
	pub async fn send(&self, buffer: &[u8]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| self.poll_send(cx, buffer)).await
	}
	pub async fn send_vectored(&self, buffer: &[IoSlice<'_>]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| self.poll_send_vectored(cx, buffer)).await
	}
	pub async fn send_vectored_with_ancillary(
		&self,
		buffer: &[IoSlice<'_>],
		ancillary: &mut AncillaryMessageWriter<'_>,
	) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| self.poll_send_vectored_with_ancillary(cx, buffer, ancillary)).await
	}

	pub fn poll_recv(&self, cx: &mut Context, buffer: &mut [u8]) -> Poll<std::io::Result<usize>> {
		net::poll_recv(self.sock_id(), cx, &mut [buffer]).map(|r| r.map(|x| x.0))
	}
	pub fn poll_recv_vectored(&self, cx: &mut Context, buffer: &mut [IoSliceMut]) -> Poll<std::io::Result<usize>> {
		let mut bufs: Vec<&mut [u8]> = buffer.iter_mut().map(|b| &mut **b).collect();
		net::poll_recv(self.sock_id(), cx, &mut bufs).map(|r| r.map(|x| x.0))
	}
	pub fn poll_recv_vectored_with_ancillary<'a>(
		&self,
		cx: &mut Context,
		buffer: &mut [IoSliceMut],
		ancillary_buffer: &'a mut [u8],
	) -> Poll<std::io::Result<(usize, AncillaryMessageReader<'a>)>> {
		let mut bufs: Vec<&mut [u8]> = buffer.iter_mut().map(|b| &mut **b).collect();
		let (n, fds) = match net::poll_recv(self.sock_id(), cx, &mut bufs) {
			Poll::Pending => return Poll::Pending,
			Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
			Poll::Ready(Ok(x)) => x,
		};
		let (len, truncated) = put_rights(ancillary_buffer, fds, self.sock_id());
		// SAFETY: the buffer holds what the kernel would have put there, and we gave up ownership of the descriptors.
		let reader = unsafe { AncillaryMessageReader::new(&mut ancillary_buffer[..len], truncated) };
		Poll::Ready(Ok((n, reader)))
	}
	pub async fn recv(&self, buffer: &mut [u8]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| self.poll_recv(cx, buffer)).await
	}
	pub async fn recv_vectored(&self, buffer: &mut [IoSliceMut<'_>]) -> std::io::Result<usize> {
		std::future::poll_fn(|cx| self.poll_recv_vectored(cx, buffer)).await
	}
	pub async fn recv_vectored_with_ancillary<'a>(
		&self,
		buffer: &mut [IoSliceMut<'_>],
		ancillary_buffer: &'a mut [u8],
	) -> std::io::Result<(usize, AncillaryMessageReader<'a>)> {
		let (n, fds) = std::future::poll_fn(|cx| {
			let mut bufs: Vec<&mut [u8]> = buffer.iter_mut().map(|b| &mut **b).collect();
			net::poll_recv(self.sock_id(), cx, &mut bufs)
		})
		.await?;
		let (len, truncated) = put_rights(ancillary_buffer, fds, self.sock_id());
		// SAFETY: as above.
		let reader = unsafe { AncillaryMessageReader::new(&mut ancillary_buffer[..len], truncated) };
		Ok((n, reader))
	}
}

/// The SCM_RIGHTS payloads in a control buffer.
fn rights(buf: &[u8]) -> Vec<&[u8]> {
	let mut out = Vec::new();
	let hdr = std::mem::size_of::<libc::cmsghdr>();
	let mut off = 0;
	while off + hdr <= buf.len() {
		// SAFETY: in bounds; unaligned read of plain data.
		let h: libc::cmsghdr = unsafe { std::ptr::read_unaligned(buf[off..].as_ptr().cast()) };
		let len = h.cmsg_len as usize;
		if len < hdr || off + len > buf.len() {
			break;
		}
		if h.cmsg_level == libc::SOL_SOCKET && h.cmsg_type == libc::SCM_RIGHTS {
			out.push(&buf[off + hdr..off + len]);
		}
		off += (len + 7) & !7;
	}
	out
}

/// What Linux does in `scm_detach_fds`: install as many descriptors as fit, drop the rest.
fn put_rights(buf: &mut [u8], fds: Vec<std::os::fd::OwnedFd>, sock: usize) -> (usize, bool) {
	if fds.is_empty() {
		return (0, false);
	}
	let hdr = std::mem::size_of::<libc::cmsghdr>();
	let room = if buf.len() > hdr { (buf.len() - hdr) / 4 } else { 0 };
	// A receiver that ran out of descriptors gets only some of them.
	let room = room.min(net::take_fd_shortage(sock).unwrap_or(usize::MAX));
	let n = fds.len().min(room);
	let truncated = n < fds.len();
	if n == 0 {
		return (0, truncated);
	}
	let len = hdr + 4 * n;
	let h = {
		// SAFETY: plain data.
		let mut h: libc::cmsghdr = unsafe { std::mem::zeroed() };
		h.cmsg_len = len as _;
		h.cmsg_level = libc::SOL_SOCKET;
		h.cmsg_type = libc::SCM_RIGHTS;
		h
	};
	// SAFETY: in bounds (room >= n > 0).
	unsafe { std::ptr::write_unaligned(buf.as_mut_ptr().cast(), h) };
	for (i, fd) in fds.into_iter().enumerate() {
		if i < n {
			buf[hdr + 4 * i..hdr + 4 * i + 4].copy_from_slice(&fd.into_raw_fd().to_ne_bytes());
		} else {
			drop(fd);
		}
	}
	let space = (len + 7) & !7;
	(space.min(buf.len()), truncated)
}

#[derive(Debug)]
pub struct UnixSeqpacketListener {
	l: OwnedListener,
}

impl UnixSeqpacketListener {
	pub fn bind<P: AsRef<Path>>(address: P) -> std::io::Result<Self> {
		Ok(Self { l: OwnedListener(net::bind_path(Kind::Seq, address.as_ref())?) })
	}
	pub fn bind_with_backlog<P: AsRef<Path>>(address: P, _backlog: i32) -> std::io::Result<Self> {
		Self::bind(address)
	}
	pub fn sim_id(&self) -> usize {
		self.l.0
	}
	pub fn local_addr(&self) -> std::io::Result<PathBuf> {
		match net::listener_addr(self.l.0) {
			Addr::Path(p) => Ok(p),
			_ => unreachable!(),
		}
	}
	pub fn take_error(&self) -> std::io::Result<Option<std::io::Error>> {
		Ok(None)
	}
	pub fn poll_accept(&mut self, cx: &mut Context) -> Poll<std::io::Result<UnixSeqpacket>> {
		net::poll_accept(self.l.0, cx).map(|r| r.map(|(s, _)| UnixSeqpacket::from_sim(s)))
	}
	pub async fn accept(&mut self) -> std::io::Result<UnixSeqpacket> {
		std::future::poll_fn(|cx| self.poll_accept(cx)).await
	}
}

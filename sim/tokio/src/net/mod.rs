//! Simulated sockets.
use simcore::net::{self, Addr, Kind, Owned, OwnedListener};
use std::future::Future;
use std::io::{self, IoSlice};
use std::net::SocketAddr;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};

use crate::io::{AsyncRead, AsyncWrite, ReadBuf};

fn do_read(id: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
	let dst = buf.initialize_unfilled();
	match net::poll_read(id, cx, dst) {
		Poll::Ready(Ok(n)) => {
			buf.advance(n);
			Poll::Ready(Ok(()))
		},
		Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
		Poll::Pending => Poll::Pending,
	}
}
fn do_write(id: usize, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
	let v: Vec<&[u8]> = bufs.iter().map(|b| &**b).collect();
	net::poll_write(id, cx, &v)
}

/// Run a poll function as a `try_` function.
fn would_block<R>(ready: bool, f: impl FnOnce(&mut Context<'_>) -> Poll<io::Result<R>>) -> io::Result<R> {
	if ready {
		if let Poll::Ready(r) = f(&mut Context::from_waker(std::task::Waker::noop())) {
			return r;
		}
	}
	Err(io::ErrorKind::WouldBlock.into())
}

macro_rules! io_impl {
	(read $t:ty) => {
		impl AsyncRead for $t {
			fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
				do_read(self.sock_id(), cx, buf)
			}
		}
	};
	(write $t:ty) => {
		impl AsyncWrite for $t {
			fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
				net::poll_write(self.sock_id(), cx, &[buf])
			}
			fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<io::Result<usize>> {
				do_write(self.sock_id(), cx, bufs)
			}
			fn is_write_vectored(&self) -> bool {
				true
			}
			fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
				Poll::Ready(Ok(()))
			}
			fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
				net::shutdown_write(self.sock_id());
				Poll::Ready(Ok(()))
			}
		}
	};
}

macro_rules! stream {
	($stream:ident, $read:ident, $write:ident, $oread:ident, $owrite:ident, $m:ident) => {
		pub struct $stream {
			sock: Owned,
		}
		impl $stream {
			/// Wrap an existing simulated socket.
			pub fn from_sim(id: usize) -> Self {
				Self { sock: Owned::new(id) }
			}
			pub fn sock_id(&self) -> usize {
				self.sock.id()
			}
			pub fn split(&mut self) -> ($m::ReadHalf<'_>, $m::WriteHalf<'_>) {
				($m::ReadHalf { s: self }, $m::WriteHalf { s: self })
			}
			pub fn into_split(self) -> ($m::OwnedReadHalf, $m::OwnedWriteHalf) {
				let s = std::sync::Arc::new(self);
				($m::OwnedReadHalf { s: s.clone() }, $m::OwnedWriteHalf { s })
			}
			pub fn take_error(&self) -> io::Result<Option<io::Error>> {
				Ok(None)
			}
			pub async fn ready(&self, interest: crate::io::Interest) -> io::Result<crate::io::Ready> {
				let (r, w) = (interest.is_readable(), interest.is_writable());
				net::ready(self.sock_id(), r, w).await;
				Ok(crate::io::Ready(r && net::readable(self.sock_id()), w && net::writable(self.sock_id())))
			}
			pub async fn readable(&self) -> io::Result<()> {
				net::ready(self.sock_id(), true, false).await;
				Ok(())
			}
			pub async fn writable(&self) -> io::Result<()> {
				net::ready(self.sock_id(), false, true).await;
				Ok(())
			}
			pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
				std::pin::pin!(self.readable()).poll(cx)
			}
			pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
				std::pin::pin!(self.writable()).poll(cx)
			}
			pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
				would_block(net::readable(self.sock_id()), |cx| net::poll_read(self.sock_id(), cx, buf))
			}
			pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
				would_block(net::writable(self.sock_id()), |cx| net::poll_write(self.sock_id(), cx, &[buf]))
			}
			pub fn try_write_vectored(&self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
				would_block(net::writable(self.sock_id()), |cx| do_write(self.sock_id(), cx, bufs))
			}
		}
		impl std::fmt::Debug for $stream {
			fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
				write!(f, concat!(stringify!($stream), "({})"), self.sock_id())
			}
		}
		io_impl!(read $stream);
		io_impl!(write $stream);
		pub mod $m {
			use super::{do_read, do_write, io, net, AsyncRead, AsyncWrite, Context, IoSlice, Pin, Poll, ReadBuf, $stream};
			#[derive(Debug)]
			pub struct ReadHalf<'a> {
				pub(super) s: &'a $stream,
			}
			#[derive(Debug)]
			pub struct WriteHalf<'a> {
				pub(super) s: &'a $stream,
			}
			#[derive(Debug)]
			pub struct OwnedReadHalf {
				pub(super) s: std::sync::Arc<$stream>,
			}
			#[derive(Debug)]
			pub struct OwnedWriteHalf {
				pub(super) s: std::sync::Arc<$stream>,
			}
			impl ReadHalf<'_> {
				fn sock_id(&self) -> usize {
					self.s.sock_id()
				}
				pub async fn readable(&self) -> io::Result<()> {
					self.s.readable().await
				}
				pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
					self.s.try_read(buf)
				}
			}
			impl WriteHalf<'_> {
				fn sock_id(&self) -> usize {
					self.s.sock_id()
				}
				pub async fn writable(&self) -> io::Result<()> {
					self.s.writable().await
				}
				pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
					self.s.try_write(buf)
				}
			}
			impl OwnedReadHalf {
				fn sock_id(&self) -> usize {
					self.s.sock_id()
				}
				pub async fn readable(&self) -> io::Result<()> {
					self.s.readable().await
				}
				pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
					self.s.try_read(buf)
				}
			}
			impl OwnedWriteHalf {
				fn sock_id(&self) -> usize {
					self.s.sock_id()
				}
				pub async fn writable(&self) -> io::Result<()> {
					self.s.writable().await
				}
				pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
					self.s.try_write(buf)
				}
			}
			impl Drop for OwnedWriteHalf {
				fn drop(&mut self) {
					net::shutdown_write(self.s.sock_id())
				}
			}
			impl AsRef<$stream> for ReadHalf<'_> {
				fn as_ref(&self) -> &$stream {
					self.s
				}
			}
			impl AsRef<$stream> for WriteHalf<'_> {
				fn as_ref(&self) -> &$stream {
					self.s
				}
			}
			io_impl!(read ReadHalf<'_>);
			io_impl!(write WriteHalf<'_>);
			io_impl!(read OwnedReadHalf);
			io_impl!(write OwnedWriteHalf);
			#[allow(unused_imports)]
			pub use super::extra::$m::*;
		}
	};
}

pub(crate) mod extra {
	pub mod tcp {}
	pub mod unix {
		/// Peer credentials.
		#[derive(Clone, Copy, Debug, PartialEq, Eq)]
		pub struct UCred {
			pub(crate) uid: u32,
			pub(crate) gid: u32,
			pub(crate) pid: Option<i32>,
		}
		impl UCred {
			pub fn uid(&self) -> u32 {
				self.uid
			}
			pub fn gid(&self) -> u32 {
				self.gid
			}
			pub fn pid(&self) -> Option<i32> {
				self.pid
			}
		}
		#[derive(Clone, Debug)]
		pub struct SocketAddr(pub(crate) Option<std::path::PathBuf>);
		impl SocketAddr {
			pub fn is_unnamed(&self) -> bool {
				self.0.is_none()
			}
			pub fn as_pathname(&self) -> Option<&std::path::Path> {
				self.0.as_deref()
			}
		}
	}
}

stream!(TcpStream, ReadHalf, WriteHalf, OwnedReadHalf, OwnedWriteHalf, tcp);
stream!(UnixStream, ReadHalf, WriteHalf, OwnedReadHalf, OwnedWriteHalf, unix);

impl TcpStream {
	pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
		let addrs = addr.__resolve()?;
		let mut last = None;
		for a in addrs {
			match net::connect_inet(a).await {
				Ok(s) => return Ok(Self::from_sim(s)),
				Err(e) => last = Some(e),
			}
		}
		Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
	}
	pub fn local_addr(&self) -> io::Result<SocketAddr> {
		net::tcp_addrs(self.sock_id()).0
	}
	pub fn peer_addr(&self) -> io::Result<SocketAddr> {
		net::tcp_addrs(self.sock_id()).1
	}
	pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
		Ok(())
	}
	pub fn nodelay(&self) -> io::Result<bool> {
		Ok(false)
	}
	pub fn set_ttl(&self, _: u32) -> io::Result<()> {
		Ok(())
	}
	pub fn ttl(&self) -> io::Result<u32> {
		Ok(64)
	}
}

impl UnixStream {
	pub async fn connect<P: AsRef<Path>>(path: P) -> io::Result<Self> {
		Ok(Self::from_sim(net::connect_path(Kind::Unix, path.as_ref()).await?))
	}
	pub fn pair() -> io::Result<(Self, Self)> {
		let (a, b) = net::pair(Kind::Unix);
		Ok((Self::from_sim(a), Self::from_sim(b)))
	}
	pub fn local_addr(&self) -> io::Result<unix::SocketAddr> {
		Ok(unix::SocketAddr(net::paths(self.sock_id()).0))
	}
	pub fn peer_addr(&self) -> io::Result<unix::SocketAddr> {
		Ok(unix::SocketAddr(net::paths(self.sock_id()).1))
	}
	pub fn peer_cred(&self) -> io::Result<unix::UCred> {
		let (uid, gid, pid) = net::peer_cred(self.sock_id())?;
		Ok(unix::UCred { uid, gid, pid: Some(pid) })
	}
}

#[derive(Debug)]
pub struct TcpListener {
	l: OwnedListener,
}
impl TcpListener {
	pub async fn bind<A: ToSocketAddrs>(addr: A) -> io::Result<Self> {
		let mut last = None;
		for a in addr.__resolve()? {
			match net::listen(Kind::Tcp, Addr::Inet(a), None) {
				Ok(l) => return Ok(Self { l: OwnedListener(l) }),
				Err(e) => last = Some(e),
			}
		}
		Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
	}
	pub fn sim_id(&self) -> usize {
		self.l.0
	}
	pub fn local_addr(&self) -> io::Result<SocketAddr> {
		match net::listener_addr(self.l.0) {
			Addr::Inet(a) => Ok(a),
			_ => unreachable!(),
		}
	}
	pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
		match net::poll_accept(self.l.0, cx) {
			Poll::Pending => Poll::Pending,
			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
			Poll::Ready(Ok((s, Addr::Inet(a)))) => Poll::Ready(Ok((TcpStream::from_sim(s), a))),
			Poll::Ready(Ok(_)) => unreachable!(),
		}
	}
	pub async fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
		std::future::poll_fn(|cx| self.poll_accept(cx)).await
	}
}

#[derive(Debug)]
pub struct UnixListener {
	l: OwnedListener,
}
impl UnixListener {
	pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<Self> {
		Ok(Self { l: OwnedListener(net::bind_path(Kind::Unix, path.as_ref())?) })
	}
	pub fn sim_id(&self) -> usize {
		self.l.0
	}
	pub fn local_addr(&self) -> io::Result<unix::SocketAddr> {
		match net::listener_addr(self.l.0) {
			Addr::Path(p) => Ok(unix::SocketAddr(Some(p))),
			_ => unreachable!(),
		}
	}
	pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(UnixStream, unix::SocketAddr)>> {
		match net::poll_accept(self.l.0, cx) {
			Poll::Pending => Poll::Pending,
			Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
			Poll::Ready(Ok((s, _))) => Poll::Ready(Ok((UnixStream::from_sim(s), unix::SocketAddr(None)))),
		}
	}
	pub async fn accept(&self) -> io::Result<(UnixStream, unix::SocketAddr)> {
		std::future::poll_fn(|cx| self.poll_accept(cx)).await
	}
}

/// Address resolution (name lookups are simulated).
pub trait ToSocketAddrs {
	#[doc(hidden)]
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>>;
}
fn split_host(s: &str) -> io::Result<(String, u16)> {
	let (h, p) = s
		.rsplit_once(':')
		.ok_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "invalid socket address"))?;
	let p = p.parse().map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "invalid port value"))?;
	Ok((h.trim_start_matches('[').trim_end_matches(']').to_string(), p))
}
impl ToSocketAddrs for SocketAddr {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		Ok(vec![*self])
	}
}
impl ToSocketAddrs for std::net::SocketAddrV4 {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		Ok(vec![SocketAddr::V4(*self)])
	}
}
impl ToSocketAddrs for str {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		if let Ok(a) = self.parse() {
			return Ok(vec![a]);
		}
		let (h, p) = split_host(self)?;
		net::resolve(&h, p)
	}
}
impl ToSocketAddrs for String {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		self.as_str().__resolve()
	}
}
impl ToSocketAddrs for (&str, u16) {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		net::resolve(self.0, self.1)
	}
}
impl ToSocketAddrs for (String, u16) {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		net::resolve(&self.0, self.1)
	}
}
impl ToSocketAddrs for (std::net::IpAddr, u16) {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		Ok(vec![SocketAddr::new(self.0, self.1)])
	}
}
impl ToSocketAddrs for (std::net::Ipv4Addr, u16) {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		Ok(vec![SocketAddr::new(self.0.into(), self.1)])
	}
}
impl ToSocketAddrs for &[SocketAddr] {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		Ok(self.to_vec())
	}
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
	fn __resolve(&self) -> io::Result<Vec<SocketAddr>> {
		(**self).__resolve()
	}
}

//! Little programs on sockets.  Compiled twice: against the kernel's sockets and
//! against the simulated ones.  Both must print the same lines.

use std::io::{IoSlice, IoSliceMut};
use std::os::fd::{AsFd, AsRawFd, OwnedFd};
use std::path::Path;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};
use tokio_seqpacket::ancillary::{AncillaryMessageReader, AncillaryMessageWriter};
use tokio_seqpacket::{UnixSeqpacket, UnixSeqpacketListener};

async fn settle() {
	tokio::time::sleep(Duration::from_millis(10)).await;
}

/// The outcome of an operation, or "waits".
async fn t<T: std::fmt::Debug>(f: impl std::future::Future<Output = std::io::Result<T>>) -> String {
	match tokio::time::timeout(Duration::from_millis(60), f).await {
		Err(_) => "waits".into(),
		Ok(Ok(x)) => format!("{x:?}"),
		Ok(Err(e)) => format!("{:?} {:?}", e.kind(), e.raw_os_error()),
	}
}

fn r<T: std::fmt::Debug>(x: std::io::Result<T>) -> String {
	match x {
		Ok(x) => format!("{x:?}"),
		Err(e) => format!("{:?} {:?}", e.kind(), e.raw_os_error()),
	}
}

/// Write until it would wait; the total is not compared, only whether it ended in an error.
async fn fill<W: AsyncWriteExt + Unpin>(w: &mut W) -> String {
	let b = vec![7u8; 100_000];
	for _ in 0..1000 {
		match tokio::time::timeout(Duration::from_millis(40), w.write(&b)).await {
			Err(_) => return "full".into(),
			Ok(Ok(0)) => return "wrote nothing".into(),
			Ok(Ok(_)) => (),
			Ok(Err(e)) => return format!("{:?} {:?}", e.kind(), e.raw_os_error()),
		}
	}
	"never full".into()
}

macro_rules! streams {
	($out:ident, $name:literal, $pair:expr) => {{
		let mut p = |s: String| $out.push(format!("{}: {s}", $name));
		let mut buf = [0u8; 16];
		{
			let (mut a, mut b) = $pair;
			p(format!("write {}", t(a.write(b"hello")).await));
			settle().await;
			p(format!("short read {}", t(b.read(&mut buf[..2])).await));
			p(format!("rest {} {:?}", t(b.read(&mut buf)).await, &buf[..3]));
			p(format!("nothing there {}", t(b.read(&mut buf)).await));
			p(format!("empty write {}", t(a.write(b"")).await));
			p(format!("empty read {}", t(b.read(&mut buf[..0])).await));
			p(format!("vectored {}", t(a.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b""), IoSlice::new(b"cde")])).await));
			settle().await;
			p(format!("joined {} {:?}", t(b.read(&mut buf)).await, &buf[..5]));
			p(format!("shutdown {}", t(a.shutdown()).await));
			settle().await;
			p(format!("eof {}", t(b.read(&mut buf)).await));
			p(format!("eof again {}", t(b.read(&mut buf)).await));
			p(format!("write after own shutdown {}", t(a.write(b"x")).await));
			p(format!("other direction still open {}", t(b.write(b"yz")).await));
			settle().await;
			p(format!("arrives {}", t(a.read(&mut buf)).await));
			p(format!("second shutdown {}", t(a.shutdown()).await));
		}
		{
			let (mut a, b) = $pair;
			t(a.write(b"unread")).await;
			settle().await;
			drop(b);
			settle().await;
			p(format!("read after close with unread data {}", t(a.read(&mut buf)).await));
			p(format!("again {}", t(a.read(&mut buf)).await));
			p(format!("write after that {}", t(a.write(b"x")).await));
		}
		{
			let (mut a, mut b) = $pair;
			t(b.write(b"last words")).await;
			drop(b);
			settle().await;
			p(format!("data before the end {}", t(a.read(&mut buf)).await));
			p(format!("end {}", t(a.read(&mut buf)).await));
		}
		{
			let (mut a, mut b) = $pair;
			t(b.write(b"last words")).await;
			t(a.write(b"unread")).await;
			settle().await;
			drop(b);
			settle().await;
			// Both kinds of sockets report the reset once; what became of the data is not compared.
			let mut l = Vec::new();
			for _ in 0..4 {
				l.push(t(a.read(&mut buf)).await);
			}
			p(format!("reset seen once {}", l.iter().filter(|x| x.contains("104")).count()));
			p(format!("then the end {}", l[3]));
		}
		{
			let (mut a, b) = $pair;
			p(format!("fill {}", fill(&mut a).await));
			drop(b);
			settle().await;
			let x = fill(&mut a).await;
			p(format!("after the other side is gone it fails {}", x.contains("104") || x.contains("32")));
		}
		{
			let (mut a, mut b) = $pair;
			p(format!("fill {}", fill(&mut a).await));
			let w = a.write(b"more");
			let rd = async {
				let mut big = vec![0u8; 1 << 16];
				for _ in 0..400 {
					match tokio::time::timeout(Duration::from_millis(20), b.read(&mut big)).await {
						Ok(Ok(n)) if n > 0 => (),
						_ => break,
					}
				}
				Ok::<_, std::io::Error>(())
			};
			let (x, _) = tokio::join!(t(w), rd);
			p(format!("a waiting write goes on when the other side reads {}", x));
		}
		{
			let (a, b) = $pair;
			let (mut ar, mut aw) = a.into_split();
			drop(b);
			settle().await;
			p(format!("end on a split half {}", t(ar.read(&mut buf)).await));
			drop(ar);
			p(format!("write half {}", t(aw.write(b"x")).await.split(' ').next().unwrap_or("") != "waits"));
		}
		{
			let (a, mut b) = $pair;
			let (ar, aw) = a.into_split();
			drop(ar);
			settle().await;
			p(format!("one half dropped, other side reads {}", t(b.read(&mut buf)).await));
			drop(aw);
			settle().await;
			p(format!("both halves dropped {}", t(b.read(&mut buf)).await));
		}
		{
			let (a, mut b) = $pair;
			let (mut ar, aw) = a.into_split();
			drop(aw);
			settle().await;
			p(format!("the write half dropped: end {}", t(b.read(&mut buf)).await));
			t(b.write(b"q")).await;
			settle().await;
			p(format!("but not the other direction {}", t(ar.read(&mut buf)).await));
		}
	}};
}

async fn tcp_pair() -> (TcpStream, TcpStream) {
	let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
	let a = l.local_addr().unwrap();
	let (c, s) = tokio::join!(TcpStream::connect(a), l.accept());
	(c.unwrap(), s.unwrap().0)
}

async fn seq_send(a: &UnixSeqpacket, parts: &[&[u8]], fds: &[OwnedFd]) -> String {
	let mut mem = vec![0u8; 4096];
	let mut w = AncillaryMessageWriter::new(&mut mem);
	if !fds.is_empty() && w.add_fds(&fds.iter().map(|f| f.as_fd()).collect::<Vec<_>>()).is_err() {
		return "no room for descriptors".into();
	}
	let io: Vec<IoSlice> = parts.iter().map(|p| IoSlice::new(p)).collect();
	t(a.send_vectored_with_ancillary(&io, &mut w)).await
}

async fn seq_recv(b: &UnixSeqpacket, sizes: &[usize], room: usize) -> String {
	let mut bufs: Vec<Vec<u8>> = sizes.iter().map(|n| vec![0u8; *n]).collect();
	let mut mem = vec![0u8; room];
	let mut io: Vec<IoSliceMut> = bufs.iter_mut().map(|b| IoSliceMut::new(b)).collect();
	let (n, anc): (usize, AncillaryMessageReader) =
		match tokio::time::timeout(Duration::from_millis(60), b.recv_vectored_with_ancillary(&mut io, &mut mem)).await {
			Err(_) => return "waits".into(),
			Ok(Err(e)) => return format!("{:?} {:?}", e.kind(), e.raw_os_error()),
			Ok(Ok(x)) => x,
		};
	let truncated = anc.is_truncated();
	let mut inodes = Vec::new();
	for m in anc.into_messages() {
		if let tokio_seqpacket::ancillary::OwnedAncillaryMessage::FileDescriptors(f) = m {
			for fd in f {
				inodes.push(ino(fd.as_raw_fd()));
			}
		}
	}
	format!("{n} {bufs:?} truncated {truncated} descriptors {}", inodes.len())
}

fn ino(fd: i32) -> u64 {
	use std::os::unix::fs::MetadataExt;
	std::fs::metadata(format!("/proc/self/fd/{fd}")).map(|m| m.ino()).unwrap_or(0)
}

fn null(n: usize) -> Vec<OwnedFd> {
	(0..n).map(|_| std::fs::File::open("/dev/null").unwrap().into()).collect()
}

fn open_fds() -> usize {
	std::fs::read_dir("/proc/self/fd").unwrap().count()
}

async fn seqpacket(out: &mut Vec<String>, fd_size: fn(usize) -> usize) {
	macro_rules! p {
		($($a:tt)*) => { out.push(format!("seqpacket: {}", format!($($a)*))) };
	}
	let mut buf = [0u8; 16];
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		p!("send {}", t(a.send(b"hello")).await);
		p!("send {}", t(a.send(b"you")).await);
		p!("first {}", t(b.recv(&mut buf)).await);
		p!("too short a buffer {} {:?}", t(b.recv(&mut buf[..2])).await, &buf[..2]);
		p!("the rest of it is gone {}", t(b.recv(&mut buf)).await);
		p!("parts {}", seq_send(&a, &[b"ab", b"", b"cde"], &[]).await);
		p!("scattered {}", seq_recv(&b, &[1, 3, 9], 0).await);
		p!("larger than the buffer of the socket {}", t(a.send(&vec![0u8; 1 << 22])).await);
		p!("which changes nothing {}", t(b.recv(&mut buf)).await);
		p!("still usable {}", t(a.send(b"x")).await);
		p!("still usable {}", t(b.recv(&mut buf)).await);
	}
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		t(a.send(b"one")).await;
		t(a.send(b"two")).await;
		drop(a);
		p!("data before the end {}", t(b.recv(&mut buf)).await);
		p!("data before the end {}", t(b.recv(&mut buf)).await);
		p!("end {}", t(b.recv(&mut buf)).await);
		p!("end {}", t(b.recv(&mut buf)).await);
		p!("send to nobody {}", t(b.send(b"x")).await);
	}
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		t(a.send(b"unread")).await;
		drop(b);
		settle().await;
		p!("recv after close with unread data {}", t(a.recv(&mut buf)).await);
		p!("then {}", t(a.recv(&mut buf)).await);
		p!("send {}", t(a.send(b"x")).await);
	}
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		p!("shutdown {}", r(a.shutdown(std::net::Shutdown::Write)));
		p!("end {}", t(b.recv(&mut buf)).await);
		p!("send after own shutdown {}", t(a.send(b"x")).await);
		p!("other direction {}", t(b.send(b"x")).await);
		p!("other direction {}", t(a.recv(&mut buf)).await);
	}
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		let mut n = 0;
		while n < 100_000 && t(a.send(b"fill")).await == "4" {
			n += 1;
		}
		p!("fills up {}", n > 0 && n < 100_000);
		let (x, y) = tokio::join!(t(a.send(b"more")), async {
			let mut k = 0;
			let mut buf = [0u8; 8];
			while k < n {
				if t(b.recv(&mut buf)).await != "4" {
					break;
				}
				k += 1;
			}
			k
		});
		p!("goes on when the other side reads {x} {}", y == n);
	}
	let before = open_fds();
	{
		let (a, b) = UnixSeqpacket::pair().unwrap();
		p!("with descriptors {}", seq_send(&a, &[b"fd"], &null(2)).await);
		p!("with descriptors {}", seq_recv(&b, &[4], fd_size(2)).await);
		p!("room for fewer {}", seq_send(&a, &[b"fd"], &null(3)).await);
		p!("room for fewer {}", seq_recv(&b, &[4], fd_size(2)).await);
		p!("room for none {}", seq_send(&a, &[b"fd"], &null(2)).await);
		p!("room for none {}", seq_recv(&b, &[4], 0).await);
		p!("both cut {}", seq_send(&a, &[b"abcdef"], &null(2)).await);
		p!("both cut {}", seq_recv(&b, &[4], fd_size(0)).await);
		p!("without {}", seq_send(&a, &[b"abcdef"], &[]).await);
		p!("without {}", seq_recv(&b, &[9], fd_size(4)).await);
		p!("never received {}", seq_send(&a, &[b"fd"], &null(2)).await);
		p!("most descriptors {}", seq_send(&a, &[b"fd"], &null(253)).await);
		p!("one too many {}", seq_send(&a, &[b"fd"], &null(254)).await);
	}
	settle().await;
	p!("descriptors left open {}", open_fds() - before);
	{
		// A datagram without any content.
		let (a, b) = UnixSeqpacket::pair().unwrap();
		p!("empty datagram {}", t(a.send(b"")).await);
		p!("empty datagram looks like the end {}", t(b.recv(&mut buf)).await);
		p!("but is not {}", t(a.send(b"x")).await);
		p!("but is not {}", t(b.recv(&mut buf)).await);
	}
}

async fn listeners(out: &mut Vec<String>, dir: &Path) {
	macro_rules! p {
		($($a:tt)*) => { out.push(format!("listeners: {}", format!($($a)*))) };
	}
	let mut buf = [0u8; 16];
	let path = dir.join("s");
	p!("connect to nothing {}", t(UnixStream::connect(&path)).await);
	p!("seq connect to nothing {}", t(UnixSeqpacket::connect(&path)).await.replace("Uncategorized", "NotFound"));
	let l = UnixListener::bind(&path).unwrap();
	p!("bind again {}", r(UnixListener::bind(&path).map(|_| ())));
	p!("nobody there {}", t(l.accept()).await);
	let mut c = UnixStream::connect(&path).await.unwrap();
	p!("connected before accept: write {}", t(c.write(b"early")).await);
	let (mut s, a) = l.accept().await.unwrap();
	p!("unnamed {}", a.is_unnamed());
	p!("read {}", t(s.read(&mut buf)).await);
	p!("client's view of the address {:?}", c.peer_addr().map(|a| a.as_pathname().map(|p| p == path)).unwrap());
	p!("own credentials {}", s.peer_cred().map(|c| c.pid().is_some()).unwrap());
	drop(l);
	p!("listener gone, path still there {}", path.exists());
	p!("connect {}", t(UnixStream::connect(&path)).await);
	p!("bind over it {}", r(UnixListener::bind(&path).map(|_| ())));
	p!("connection goes on {}", t(c.write(b"x")).await);
	p!("connection goes on {}", t(s.read(&mut buf)).await);
	std::fs::remove_file(&path).unwrap();
	let l = UnixListener::bind(&path).unwrap();
	std::fs::rename(&path, dir.join("moved")).unwrap();
	p!("old name {}", t(UnixStream::connect(&path)).await);
	let x = t(async { UnixStream::connect(dir.join("moved")).await.map(|_| ()) }).await;
	p!("new name {x}");
	drop(l);
	std::fs::remove_file(dir.join("moved")).unwrap();
	{
		let l = UnixListener::bind(&path).unwrap();
		let mut c = UnixStream::connect(&path).await.unwrap();
		t(c.write(b"bye")).await;
		drop(c);
		let (mut s, _) = l.accept().await.unwrap();
		p!("closed before accept {}", t(s.read(&mut buf)).await);
		p!("closed before accept {}", t(s.read(&mut buf)).await);
		let mut c = UnixStream::connect(&path).await.unwrap();
		drop(l);
		settle().await;
		p!("never accepted {}", t(c.read(&mut buf)).await);
		std::fs::remove_file(&path).unwrap();
	}
	for (name, link) in [("dangling", true), ("file", false)] {
		if link {
			std::os::unix::fs::symlink(dir.join("nowhere"), &path).unwrap();
		} else {
			std::fs::write(&path, b"content").unwrap();
		}
		p!("bind to a {name} {}", r(UnixListener::bind(&path).map(|_| ())));
		p!("seq bind to a {name} {}", r(UnixSeqpacketListener::bind(&path).map(|_| ())));
		p!("connect to a {name} {}", t(async { UnixStream::connect(&path).await.map(|_| ()) }).await);
		std::fs::remove_file(&path).unwrap();
	}
	p!("no such directory {}", r(UnixListener::bind(dir.join("x/y")).map(|_| ())));
	std::fs::write(dir.join("f"), b"").unwrap();
	p!("below a file {}", r(UnixListener::bind(dir.join("f/y")).map(|_| ())));
	p!("directory {}", r(UnixListener::bind(dir).map(|_| ())));
	p!("connect to a directory {}", t(async { UnixStream::connect(dir).await.map(|_| ()) }).await);
	p!("too long {}", r(UnixListener::bind(dir.join("x".repeat(200))).map(|_| ())).starts_with("InvalidInput"));
	p!("too long {}", t(async { UnixStream::connect(dir.join("x".repeat(200))).await.map(|_| ()) }).await.starts_with("InvalidInput"));
	{
		let mut l = UnixSeqpacketListener::bind(&path).unwrap();
		p!("wrong kind {}", t(async { UnixStream::connect(&path).await.map(|_| ()) }).await);
		let c = UnixSeqpacket::connect(&path).await.unwrap();
		t(c.send(b"early")).await;
		let s = l.accept().await.unwrap();
		p!("early {}", t(s.recv(&mut buf)).await);
		p!("credentials {}", s.peer_cred().map(|c| c.pid().is_some()).unwrap());
		drop(l);
		p!("connect {}", t(async { UnixSeqpacket::connect(&path).await.map(|_| ()) }).await);
		p!("bind over it {}", r(UnixSeqpacketListener::bind(&path).map(|_| ())));
		std::fs::remove_file(&path).unwrap();
		let l = UnixListener::bind(&path).unwrap();
		p!("wrong kind {}", t(async { UnixSeqpacket::connect(&path).await.map(|_| ()) }).await);
		drop(l);
	}
	let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
	let addr = l.local_addr().unwrap();
	p!("port chosen {}", addr.port() != 0);
	p!("bind again {}", r(TcpListener::bind(addr).await.map(|_| ())));
	let mut c = TcpStream::connect(addr).await.unwrap();
	p!("write before accept {}", t(c.write(b"early")).await);
	let (mut s, from) = l.accept().await.unwrap();
	p!("address {}", from == c.local_addr().unwrap() && from == s.peer_addr().unwrap() && addr == c.peer_addr().unwrap());
	p!("read {}", t(s.read(&mut buf)).await);
	drop(l);
	settle().await;
	p!("refused {}", t(async { TcpStream::connect(addr).await.map(|_| ()) }).await);
	t(s.write(b"unread")).await;
	settle().await;
	drop(c);
	settle().await;
	p!("address after a reset {}", r(s.peer_addr().map(|_| ())));
}

pub async fn all(dir: &Path, fd_size: fn(usize) -> usize) -> Vec<String> {
	let mut out = Vec::new();
	streams!(out, "tcp", tcp_pair().await);
	streams!(out, "unix stream", UnixStream::pair().unwrap());
	seqpacket(&mut out, fd_size).await;
	listeners(&mut out, dir).await;
	out
}

//! Helpers for the demonstrations: a hand-driven remote peer and time limits.
#![allow(dead_code)]
use fizyr_rpc::*;
use std::future::Future;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::UnixStream;

pub const REQUEST: u32 = 0;
pub const RESPONSE: u32 = 1;
pub const QUPDATE: u32 = 2;
pub const RUPDATE: u32 = 3;
pub const STREAM: u32 = 4;

pub fn frame(typ: u32, id: u32, svc: i32, body: &[u8]) -> Vec<u8> {
	let mut v = Vec::new();
	v.extend((12 + body.len() as u32).to_le_bytes());
	v.extend(typ.to_le_bytes());
	v.extend(id.to_le_bytes());
	v.extend(svc.to_le_bytes());
	v.extend(body);
	v
}

#[derive(Debug, PartialEq, Clone)]
pub struct Msg {
	pub typ: u32,
	pub id: u32,
	pub svc: i32,
	pub body: Vec<u8>,
}

/// Read one frame; None at end of stream or when it is not a frame.
pub async fn read_frame(s: &mut UnixStream) -> Option<Msg> {
	let mut h = [0u8; 16];
	s.read_exact(&mut h).await.ok()?;
	let g = |i: usize| u32::from_le_bytes(h[i..i + 4].try_into().unwrap());
	let len = g(0);
	if len < 12 || len > 1 << 20 || g(4) > 4 {
		return None;
	}
	let mut body = vec![0; len as usize - 12];
	s.read_exact(&mut body).await.ok()?;
	Some(Msg { typ: g(4), id: g(8), svc: g(12) as i32, body })
}

pub async fn write(s: &mut UnixStream, b: &[u8]) {
	s.write_all(b).await.expect("write to peer");
}

pub fn le() -> StreamConfig {
	let mut c = StreamConfig::default();
	c.endian = transport::Endian::LittleEndian;
	c
}

/// Little endian, with limits for reading and writing.
pub fn limits(read: u32, write: u32) -> StreamConfig {
	let mut c = le();
	c.max_body_len_read = read;
	c.max_body_len_write = write;
	c
}

/// A real peer and the other end of its socket.
pub fn peer(config: StreamConfig) -> (PeerHandle<StreamBody>, UnixStream) {
	let (a, b) = UnixStream::pair().unwrap();
	(UnixStreamPeer::spawn(UnixStreamTransport::new(a, config)), b)
}

/// Panics if the future takes too long.
pub async fn soon<F: Future>(what: &str, f: F) -> F::Output {
	match tokio::time::timeout(Duration::from_secs(5), f).await {
		Ok(x) => x,
		Err(_) => panic!("{what}: still waiting after 5 seconds"),
	}
}

pub async fn pause() {
	tokio::time::sleep(Duration::from_millis(50)).await;
}

//! Scenario "typed": clients and servers generated by `interface!`, over two real peers.

use crate::case::{Case, Op, Outcome, Violation};
use crate::duo::{fizyr_sim_hook, install_faults, kind_of};
use crate::util::*;
use crate::world::{guard, How, Sys};
use fizyr_rpc::format::Format;
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::exec;
use simcore::net;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

// ---------------------------------------------------------------- interface

/// A number that no format can encode.
const POISON: u64 = u64::MAX;

#[derive(Clone, Debug, PartialEq)]
pub struct Num {
	pub n: u64,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Key(pub u64);
#[derive(Clone, Debug, PartialEq)]
pub struct Sum(pub u64);
#[derive(Clone, Debug, PartialEq)]
pub struct Pair(pub u64, pub u64);
#[derive(Clone, Debug, PartialEq)]
pub struct Part {
	pub n: u64,
	pub data: Vec<u8>,
}

pub mod sim {
	use super::{Key, Num, Pair, Part, Sum};
	fizyr_rpc::interface! {
		/// Everything an interface can hold, with colliding numbers and equal types.
		pub interface Sim {
			/// No bodies.
			service 0 ping: () -> (),
			/// No updates.
			service 2147483647 add: Pair -> Sum,
			/// Same types as in other places, different meaning.
			#[hidden]
			service -3 neg: Num -> Num,
			/// Updates of the server only.
			service 1 fetch: Key -> Part {
				response_update 1 part: Part,
				#[hidden]
				response_update -1 progress: Num,
				response_update 0 tick: (),
				response_update -4 total: Num,
			},
			/// Updates of the client only.
			service 2 upload: Num -> Num {
				request_update 1 chunk: Part,
				request_update -2147483648 mark: Num,
				request_update 2 finish: (),
			},
			/// Both, with the same numbers in both directions.
			service 10 chat_room: Num -> Option<String> {
				request_update 1 say: String,
				#[hidden]
				request_update 5 whisper_to: String,
				request_update 6 leave: (),
				request_update -8 mood: Num,
				response_update 1 heard: String,
				response_update 6 joined: Num,
				response_update -5 whispered_by: String,
				response_update 3 pause: (),
			},
			stream 0 beat: (),
			stream 1 note: String,
			#[hidden]
			stream -1 shout: String,
			stream 10 level: Num,
		}
	}
}

type BoxErr = Box<dyn std::error::Error + std::marker::Send>;

/// Bodies carry no type information: a message under the wrong name can decode to a wrong value.
pub trait Val: Sized + Debug {
	fn enc(&self) -> Result<Vec<u8>, String>;
	fn dec(b: &[u8]) -> Result<Self, String>;
}
fn num(b: &[u8]) -> Result<u64, String> {
	Ok(u64::from_le_bytes(b.try_into().map_err(|_| format!("{} bytes", b.len()))?))
}
fn put(n: u64) -> Result<Vec<u8>, String> {
	if n == POISON {
		return Err("poison".into());
	}
	Ok(n.to_le_bytes().to_vec())
}
impl Val for () {
	fn enc(&self) -> Result<Vec<u8>, String> {
		Ok(vec![])
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		if b.is_empty() {
			Ok(())
		} else {
			Err("not empty".into())
		}
	}
}
impl Val for Num {
	fn enc(&self) -> Result<Vec<u8>, String> {
		put(self.n)
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		Ok(Num { n: num(b)? })
	}
}
impl Val for Key {
	fn enc(&self) -> Result<Vec<u8>, String> {
		put(self.0)
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		Ok(Key(num(b)?))
	}
}
impl Val for Sum {
	fn enc(&self) -> Result<Vec<u8>, String> {
		put(self.0)
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		Ok(Sum(num(b)?))
	}
}
impl Val for Pair {
	fn enc(&self) -> Result<Vec<u8>, String> {
		let mut v = put(self.0)?;
		v.extend(put(self.1)?);
		Ok(v)
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		if b.len() != 16 {
			return Err("length".into());
		}
		Ok(Pair(num(&b[..8])?, num(&b[8..])?))
	}
}
impl Val for Part {
	fn enc(&self) -> Result<Vec<u8>, String> {
		let mut v = put(self.n)?;
		v.extend(&self.data);
		Ok(v)
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		if b.len() < 8 {
			return Err("length".into());
		}
		Ok(Part { n: num(&b[..8])?, data: b[8..].to_vec() })
	}
}
impl Val for String {
	fn enc(&self) -> Result<Vec<u8>, String> {
		if self.contains('\0') {
			return Err("poison".into());
		}
		Ok(self.as_bytes().to_vec())
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		String::from_utf8(b.to_vec()).map_err(|e| e.to_string())
	}
}
impl Val for Option<String> {
	fn enc(&self) -> Result<Vec<u8>, String> {
		match self {
			None => Ok(vec![]),
			Some(x) => {
				let mut v = vec![1];
				v.extend(x.enc()?);
				Ok(v)
			},
		}
	}
	fn dec(b: &[u8]) -> Result<Self, String> {
		match b.first() {
			None => Ok(None),
			Some(1) => Ok(Some(String::dec(&b[1..])?)),
			_ => Err("tag".into()),
		}
	}
}

/// What the errors of the format say.
const UNREADABLE: &str = "the format can not read this";
const UNWRITABLE: &str = "the format can not write this";

fn says(e: &Error, what: &str) -> bool {
	format!("{e} {e:?}").contains(what)
}

/// The body could not be decoded.
fn is_bad(e: &Error) -> bool {
	says(e, UNREADABLE) || says(e, "DecodeFailed")
}

/// The format of this scenario, for every kind of body.
pub struct Bin<B>(std::marker::PhantomData<B>);
impl<B: TB> Format for Bin<B> {
	type Body = B;
}
impl<B: TB, T: Val> format::EncodeBody<T> for Bin<B> {
	fn encode_body(v: &T) -> Result<B, BoxErr> {
		let v = v.enc().map_err(|e| Box::new(std::io::Error::other(format!("{UNWRITABLE}: {e}"))) as BoxErr)?;
		Ok(B::make(v, vec![]))
	}
}
impl<B: TB, T: Val> format::DecodeBody<T> for Bin<B> {
	fn decode_body(b: B) -> Result<T, BoxErr> {
		T::dec(b.bytes()).map_err(|e| Box::new(std::io::Error::other(format!("{UNREADABLE}: {e}"))) as BoxErr)
	}
}

type F<B> = Bin<B>;
type Client<B> = sim::Client<F<B>>;
type Server<B> = sim::Server<F<B>>;

// ---------------------------------------------------------------- records

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Stt {
	Ok,
	No,
	Maybe,
}

#[derive(Clone, Debug)]
struct Sent {
	item: String,
	st: Stt,
	lane: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum Resp {
	Ok(String),
	Remote(String),
	/// The body could not be decoded.
	Bad,
	/// The call got an update it has no place for.
	Stray,
	/// The connection is gone.
	Lost,
}

#[derive(Clone, Debug, Default)]
struct Call {
	side: usize,
	svc: &'static str,
	item: String,
	plan: u64,
	served: usize,
	// From client to server.
	cu: Vec<Sent>,
	got_cu: Vec<String>,
	cu_end: bool,
	// From server to client.
	su: Vec<Sent>,
	got_su: Vec<String>,
	su_end: bool,
	replied: bool,
	resp: Option<(Resp, Stt)>,
	got: Option<Resp>,
	stray: bool,
}

#[derive(Default)]
struct St {
	viol: Vec<Violation>,
	next: u64,
	/// By the number in the request.
	calls: BTreeMap<u64, Call>,
	/// Requests and streams, in the order sent: (item, status, lane).
	sent: [Vec<Sent>; 2],
	recvd: [Vec<String>; 2],
	pings: [Vec<Resp>; 2],
	ping_replies: [Vec<(Resp, Stt)>; 2],
	lanes: usize,
	/// Errors that are not about one message may appear on this side.
	sloppy: bool,
	faulty: bool,
	ended: bool,
	waiting: BTreeMap<usize, String>,
	delivered: u64,
	stats: BTreeMap<&'static str, u64>,
	server_end: [Option<String>; 2],
}

#[derive(Clone)]
struct W(Rc<RefCell<St>>, Rc<Case>);

impl W {
	fn viol(&self, rule: &'static str, props: &[&'static str], detail: String) {
		exec::trace(|| format!("VIOLATION {rule}: {detail}"));
		self.0.borrow_mut().viol.push(Violation { rule, props: props.to_vec(), detail });
	}
	fn stat(&self, k: &'static str) {
		*self.0.borrow_mut().stats.entry(k).or_default() += 1;
	}
	fn num(&self) -> u64 {
		let mut st = self.0.borrow_mut();
		st.next += 1;
		st.next
	}
	fn call<R>(&self, n: u64, f: impl FnOnce(&mut Call) -> R) -> R {
		f(self.0.borrow_mut().calls.get_mut(&n).expect("no such call"))
	}
	fn gone(&self) -> bool {
		let st = self.0.borrow();
		st.ended || st.faulty
	}
	/// A send by the local side; returns its place.
	fn begin(&self, side: usize, lane: usize, item: String) -> usize {
		let mut st = self.0.borrow_mut();
		st.sent[side].push(Sent { item, st: Stt::Maybe, lane });
		st.sent[side].len() - 1
	}
	fn end(&self, side: usize, i: usize, st: Stt) {
		self.0.borrow_mut().sent[side][i].st = st;
	}
	/// A failure that nothing explains.
	fn unexpected(&self, what: &str, e: &dyn Debug) {
		if !self.gone() {
			self.viol("unexpected_error", &["C19"], format!("{what}: {e:?}"));
		}
	}
}

fn it(name: &str, v: &dyn Debug) -> String {
	format!("{name} {v:?}")
}
fn unknown(id: i32, b: &[u8]) -> String {
	format!("?{id} {b:02x?}")
}
fn invalid(id: i32) -> String {
	format!("!{id}")
}

/// A small deterministic stream of decisions.
struct Plan(u64);
impl Plan {
	fn next(&mut self, n: u64) -> u64 {
		self.0 = mix(self.0);
		(self.0 >> 11) % n
	}
	fn text(&mut self, n: u64) -> String {
		let mut s = format!("t{n}:");
		for _ in 0..self.next(12) {
			s.push(*[' ', 'a', 'é', '\n', '漢', '0'].get(self.next(6) as usize).unwrap());
		}
		s
	}
	fn data(&mut self) -> Vec<u8> {
		let l = match self.next(8) {
			0 => 0,
			1 => self.next(200),
			_ => self.next(24),
		};
		body(self.0 as i32, l as usize)
	}
	fn cancel(&mut self, p: u64) -> i64 {
		if self.next(1000) >= p {
			return 0;
		}
		match self.next(3) {
			0 => 1,
			1 => 2,
			_ => -(1 + self.next(100_000) as i64),
		}
	}
}

// ---------------------------------------------------------------- sends

/// Record a send of an update and judge its result.
macro_rules! send {
	($w:expr, $n:expr, $list:ident, $lane:expr, $item:expr, $cancel:expr, $may_fail:expr, $fut:expr) => {{
		let i = $w.call($n, |c| {
			c.$list.push(Sent { item: $item, st: Stt::Maybe, lane: $lane });
			c.$list.len() - 1
		});
		match guard($fut, $cancel, || ()).await {
			None => {
				$w.stat("sends_cancelled");
				$w.0.borrow_mut().sloppy = true;
				None
			},
			Some(Ok(())) => {
				$w.call($n, |c| c.$list[i].st = Stt::Ok);
				Some(true)
			},
			Some(Err(e)) => {
				$w.call($n, |c| c.$list[i].st = Stt::No);
				if !$may_fail {
					let item = $w.call($n, |c| c.$list[i].item.clone());
					let e: Error = e;
					$w.unexpected(&format!("send of {item}"), &e);
				}
				Some(false)
			},
		}
	}};
}

/// A send that the format refuses: an error, nothing is sent.
/// A text that is bigger than what may be sent.
fn huge() -> String {
	"x".repeat(LIMIT + 1)
}
const LIMIT: usize = 1000;

macro_rules! refused {
	($w:expr, $what:expr, $fut:expr) => {{
		$w.stat("encode_failures");
		if $fut.await.is_ok() {
			$w.viol("encoded", &["C19"], format!("{}: sending a value that can not be encoded, or is too big, succeeded", $what));
		}
	}};
}

/// What an error says about itself must fit together.
fn check_error(w: &W, e: &Error) {
	let kinds = [e.is_remote_error(), e.is_unexpected_message_type(), e.is_connection_aborted(), is_bad(e)];
	let text = e.to_string();
	if kinds.iter().filter(|x| **x).count() > 1 || e.is_remote_error() != e.as_remote_error().is_some() || text.is_empty() {
		w.viol("error_kind", &["C19"], format!("an error can not tell what it is: {e:?} {kinds:?}"));
	}
	if let Some(m) = e.as_remote_error() {
		if !text.contains(m) {
			w.viol("error_kind", &["C19"], format!("the text of the error {m:?} of the remote is {text:?}"));
		}
	}
}

fn classify<T: Debug>(r: Result<T, Error>) -> Resp {
	match r {
		Ok(v) => Resp::Ok(format!("{v:?}")),
		Err(e) if e.is_unexpected_message_type() => Resp::Stray,
		Err(e) if is_bad(&e) && !e.is_remote_error() => Resp::Bad,
		Err(e) => {
			let text = e.as_remote_error().map(|m| m.to_string());
			match (text, e.into_remote_error()) {
				(None, None) => Resp::Lost,
				(Some(a), Some(b)) if a == b => Resp::Remote(a),
				(a, b) => Resp::Remote(format!("{a:?} or {b:?}")),
			}
		},
	}
}

/// Re-encode a received message of an enum and decode it again.
fn again<B: TB, T>(w: &W, m: &T)
where
	T: Debug + format::ToMessage<F<B>> + format::FromMessage<F<B>>,
{
	let text = format!("{m:?}");
	match F::<B>::encode_message(m) {
		Err(e) => w.viol("message_enum", &["C19"], format!("{text} can not be encoded: {e}")),
		Ok((id, body)) => match F::<B>::decode_message::<T>(Message::stream(0, id, body)) {
			Err(e) => w.viol("message_enum", &["C19"], format!("{text} can not be decoded again: {e}")),
			Ok(x) => {
				if format!("{x:?}") != text {
					w.viol("message_enum", &["C19"], format!("{text} was decoded again as {x:?}"));
				}
			},
		},
	}
}

// ---------------------------------------------------------------- server side

macro_rules! parse_update {
	($w:expr, $r:expr, $conv:expr) => {
		match $r {
			Ok(u) => $conv(u),
			Err(ParseUpdateError::UnknownUpdate(m)) => unknown(m.header.service_id, m.body.bytes()),
			Err(ParseUpdateError::InvalidUpdate(h, _)) => invalid(h.service_id),
		}
	};
}

/// Reply to a request: sometimes with failures first.
macro_rules! reply {
	($w:expr, $n:expr, $p:expr, $h:expr, $svc_id:expr, $poison:expr, $good:expr, $gone:expr) => {{
		let w = $w;
		let bad_body: Option<Vec<u8>> = $poison.1;
		if let (1, Some(v)) = ($p.next(5), $poison.0) {
			refused!(w, "response", $h.send_response(&v));
		}
		let (resp, r) = match $p.next(8) {
			0 => {
				let t = $p.text(w.num());
				record_resp(w, $n, Resp::Remote(t.clone()));
				(Resp::Remote(t.clone()), $h.send_error_response(&t).await)
			},
			1 if bad_body.is_some() => {
				record_resp(w, $n, Resp::Bad);
				(Resp::Bad, $h.inner().send_response($svc_id, B::make(bad_body.unwrap(), vec![])).await)
			},
			2 => {
				// An error whose text is not text.
				record_resp(w, $n, Resp::Bad);
				(Resp::Bad, $h.inner().send_response(-1, B::make(vec![0xff, 0xfe, b'x'], vec![])).await)
			},
			_ => {
				let v = $good;
				let t = format!("{v:?}");
				record_resp(w, $n, Resp::Ok(t.clone()));
				(Resp::Ok(t), $h.send_response(&v).await)
			},
		};
		finish_resp(w, $n, resp, r, $gone);
	}};
}

/// The target of a reply: a numbered call or a ping.
#[derive(Clone, Copy)]
enum To {
	Call(u64),
	Ping(usize, usize),
}

fn record_resp(w: &W, to: To, r: Resp) {
	match to {
		To::Call(n) => {
			let early = w.call(n, |c| {
				c.replied = true;
				c.resp = Some((r, Stt::Maybe));
				!c.cu_end && (c.svc == "upload" || c.svc == "chat_room")
			});
			if early {
				// Updates that are under way now belong to no open request.
				w.0.borrow_mut().sloppy = true;
			}
		},
		To::Ping(side, i) => w.0.borrow_mut().ping_replies[side][i] = (r, Stt::Maybe),
	}
}

fn finish_resp(w: &W, to: To, resp: Resp, r: Result<(), Error>, may_fail: bool) {
	let st = if r.is_ok() { Stt::Ok } else { Stt::No };
	match to {
		To::Call(n) => w.call(n, |c| c.resp = Some((resp, st))),
		To::Ping(side, i) => w.0.borrow_mut().ping_replies[side][i] = (resp, st),
	}
	if let Err(e) = r {
		if !may_fail {
			w.unexpected("send of a response", &e);
		}
	}
}

/// The number of an arriving request; checks that it is a known call.
fn arrived(w: &W, side: usize, svc: &'static str, n: u64, v: &dyn Debug) -> Option<(u64, u64)> {
	let item = it(svc, v);
	let mut st = w.0.borrow_mut();
	st.delivered += 1;
	st.recvd[side].push(format!("request {item}"));
	match st.calls.get_mut(&n) {
		Some(c) if c.item == item && c.side == 1 - side => {
			c.served += 1;
			Some((n, c.plan))
		},
		_ => None,
	}
}

async fn serve<B: Sys>(w: W, side: usize, mut server: Server<B>, reverse: Option<Client<B>>) {
	use sim::ReceivedMessage as M;
	use sim::ReceivedRequestHandle as R;
	let mut pings = 0u64;
	let mut p = Plan(mix(w.1.sched ^ 0x5e ^ side as u64));
	let pc = w.1.get("cancel") as u64;
	let mut errors = 0;
	loop {
		let cancel = p.cancel(pc);
		let Some(r) = guard(server.recv_message(), cancel, || ()).await else {
			w.stat("receives_cancelled");
			continue;
		};
		let (w2, rev) = (w.clone(), reverse.clone());
		match r {
			Ok(M::Stream(m)) => {
				w.0.borrow_mut().delivered += 1;
				again::<B, _>(&w, &m);
				let (is, name) = match &m {
					sim::StreamMessage::Beat(()) => (m.is_beat() && m.as_beat().is_some() && m.as_note().is_none(), it("beat", &())),
					sim::StreamMessage::Note(x) => (m.is_note() && m.as_note() == Some(x) && !m.is_shout(), it("note", x)),
					sim::StreamMessage::Shout(x) => (m.is_shout() && m.as_shout() == Some(x) && !m.is_note(), it("shout", x)),
					sim::StreamMessage::Level(x) => (m.is_level() && m.as_level() == Some(x) && m.as_beat().is_none(), it("level", x)),
				};
				if !is {
					w.viol("message_enum", &["C19"], format!("is/as functions disagree about {m:?}"));
				}
				let ok = match m {
					m @ sim::StreamMessage::Note(_) => m.into_note().is_ok(),
					m @ sim::StreamMessage::Shout(_) => m.into_note().is_err(),
					m => m.into_shout().is_err(),
				};
				if !ok {
					w.viol("message_enum", &["C19"], format!("into function disagrees about {name}"));
				}
				w.0.borrow_mut().recvd[side].push(format!("stream {name}"));
			},
			Ok(M::Request(R::Ping(h, ()))) => {
				let i = {
					let mut st = w.0.borrow_mut();
					st.delivered += 1;
					st.recvd[side].push("request ping ()".into());
					st.ping_replies[side].push((Resp::Lost, Stt::No));
					st.ping_replies[side].len() - 1
				};
				pings += 1;
				let plan = mix(w.1.sched ^ pings << 8);
				exec::spawn(format!("{side}.ping"), side as u32 + 1, async move {
					let mut p = Plan(plan);
					pause(&mut p).await;
					stray(&w2, &mut p, h.inner(), None).await;
					reply!(&w2, To::Ping(side, i), p, h, 0, (None::<()>, Some(vec![1u8])), (), false);
				});
			},
			Ok(M::Request(R::Add(h, v))) => {
				let Some((n, plan)) = arrived(&w, side, "add", v.0, &v) else { continue };
				exec::spawn(format!("{side}.add{n}"), side as u32 + 1, async move {
					let mut p = Plan(plan ^ 1);
					pause(&mut p).await;
					if let (Some(c), 0) = (rev, p.next(3)) {
						// Call back before answering.
						nested(&w2, side, &c, &mut p).await;
					}
					stray(&w2, &mut p, h.inner(), Some(n)).await;
					reply!(&w2, To::Call(n), p, h, i32::MAX, (Some(Sum(POISON)), Some(vec![1u8, 2])), Sum(v.0 + v.1), false);
				});
			},
			Ok(M::Request(R::Neg(h, v))) => {
				let Some((n, plan)) = arrived(&w, side, "neg", v.n, &v) else { continue };
				exec::spawn(format!("{side}.neg{n}"), side as u32 + 1, async move {
					let mut p = Plan(plan ^ 1);
					pause(&mut p).await;
					let h2 = h.write_handle();
					drop(h);
					reply!(&w2, To::Call(n), p, h2, -3, (Some(Num { n: POISON }), Some(Vec::<u8>::new())), Num { n: !v.n ^ 1 << 63 }, false);
				});
			},
			Ok(M::Request(R::Fetch(h, v))) => {
				let Some((n, plan)) = arrived(&w, side, "fetch", v.0, &v) else { continue };
				exec::spawn(format!("{side}.fetch{n}"), side as u32 + 1, serve_fetch::<B>(w2, n, Plan(plan ^ 1), h));
			},
			Ok(M::Request(R::Upload(h, v))) => {
				let Some((n, plan)) = arrived(&w, side, "upload", v.n, &v) else { continue };
				exec::spawn(format!("{side}.upload{n}"), side as u32 + 1, serve_upload::<B>(w2, n, Plan(plan ^ 1), h));
			},
			Ok(M::Request(R::ChatRoom(h, v))) => {
				let Some((n, plan)) = arrived(&w, side, "chat_room", v.n, &v) else { continue };
				exec::spawn(format!("{side}.chat{n}"), side as u32 + 1, serve_chat::<B>(w2, n, Plan(plan ^ 1), h));
			},
			Err(RecvMessageError::UnknownStream(m)) => {
				w.0.borrow_mut().recvd[side].push(format!("stream {}", unknown(m.header.service_id, m.body.bytes())));
			},
			Err(RecvMessageError::InvalidStream(h, _)) => {
				w.0.borrow_mut().recvd[side].push(format!("stream {}", invalid(h.service_id)));
			},
			Err(mut e @ RecvMessageError::UnknownRequest(..)) | Err(mut e @ RecvMessageError::InvalidRequest(..)) => {
				let item = match &e {
					RecvMessageError::UnknownRequest(h, b) => unknown(h.service_id(), b.bytes()),
					RecvMessageError::InvalidRequest(h, _) => invalid(h.service_id()),
					_ => unreachable!(),
				};
				w.0.borrow_mut().recvd[side].push(format!("request {item}"));
				let text = format!("{e} {e:?}");
				if e.is_connection_aborted() || text.is_empty() {
					w.viol("error_kind", &["C19"], format!("an error can not tell what it is: {text}"));
				}
				let id = e.request_handle().map(|h| h.request_id());
				if e.request_handle_mut().map(|h| h.request_id()) != id {
					w.viol("error_kind", &["C19"], format!("the two ways to the request of an error give different handles: {text}"));
				}
				match e.request_handle() {
					None => w.viol("no_handle", &["C19"], format!("no request handle in the error for request {item}")),
					Some(h) => {
						if let Err(e) = h.send_error_response(&item).await {
							w.unexpected("send of an error response to a bad request", &e);
						}
					},
				}
			},
			Err(RecvMessageError::Other(e)) => {
				check_error(&w, &e);
				errors += 1;
				if e.is_connection_aborted() {
					break;
				}
				let st = w.0.borrow();
				let excused = st.sloppy || st.faulty || st.ended;
				drop(st);
				if !excused {
					w.viol("unexpected_error", &["C19"], format!("side {side} is told about an error nobody made: {e:?}"));
				}
				if errors > 500 {
					break;
				}
			},
		}
	}
	w.0.borrow_mut().server_end[side] = Some("aborted".into());
	if w.1.get("keepserver") == 1 {
		// Asking again must not wait.
		if server.recv_message().await.is_ok() {
			w.viol("message_after_end", &["C08"], "a message after the end".into());
		}
	}
}

async fn pause(p: &mut Plan) {
	match p.next(6) {
		0 => exec::sleep(1 + p.next(3_000_000)).await,
		1 => exec::yield_now().await,
		_ => (),
	}
}

/// Sometimes send an update that the definition does not have.
async fn stray<B: Sys>(w: &W, p: &mut Plan, h: &ReceivedRequestHandle<B>, n: Option<u64>) {
	if w.1.get("stray") == 0 || p.next(4) != 0 {
		return;
	}
	{
		let mut st = w.0.borrow_mut();
		st.sloppy = true;
		if let Some(n) = n {
			st.calls.get_mut(&n).unwrap().stray = true;
		}
	}
	w.stat("stray_updates");
	let _ = h.send_update(77, B::make(vec![7], vec![])).await;
}

/// One step of a server that sends updates with a body.
macro_rules! bad_update {
	($w:expr, $n:expr, $p:expr, $h:expr, $list:ident, $known:expr, $gone:expr) => {{
		// Known numbers with the wrong body, or unknown numbers.
		if $p.next(2) == 0 {
			let (id, b) = ([40, 41, -40, -2][$p.next(4) as usize], vec![$p.next(250) as u8]);
			send!($w, $n, $list, 0, unknown(id, &b), 0, $gone, $h.inner().send_update(id, B::make(b.clone(), vec![])));
		} else {
			let (id, b): (i32, Vec<u8>) = $known;
			send!($w, $n, $list, 0, invalid(id), 0, $gone, $h.inner().send_update(id, B::make(b, vec![])));
		}
		$w.stat("bad_updates");
	}};
}

async fn serve_fetch<B: Sys>(w: W, n: u64, mut p: Plan, h: sim::fetch::ReceivedRequestHandle<F<B>>) {
	let pc = w.1.get("cancel") as u64;
	pause(&mut p).await;
	for _ in 0..p.next(7) {
		let k = w.num();
		let cancel = p.cancel(pc);
		match p.next(8) {
			0 | 1 => {
				let v = Part { n: k, data: p.data() };
				send!(w, n, su, 0, it("part", &v), cancel, false, h.send_part_update(&v));
			},
			2 => {
				let v = Num { n: k };
				send!(w, n, su, 0, it("progress", &v), cancel, false, h.send_progress_update(&v));
			},
			3 => {
				let v = Num { n: k };
				let h = h.write_handle();
				send!(w, n, su, 0, it("total", &v), cancel, false, h.send_total_update(&v));
			},
			4 => drop(send!(w, n, su, 0, it("tick", &()), cancel, false, h.send_tick_update())),
			5 => bad_update!(w, n, p, h, su, [(1, vec![1]), (-1, vec![]), (0, vec![9]), (-4, vec![0; 9])][p.next(4) as usize].clone(), false),
			6 if k % 2 == 0 => refused!(w, "update", h.send_total_update(&Num { n: POISON })),
			6 => refused!(w, "update", h.send_part_update(&Part { n: k, data: vec![0; LIMIT] })),
			_ => pause(&mut p).await,
		}
	}
	let good = Part { n: w.num(), data: p.data() };
	reply!(&w, To::Call(n), p, h, 1, (Some(if p.next(2) == 0 { Part { n: POISON, data: vec![] } } else { Part { n: 0, data: vec![0; LIMIT] } }), Some(vec![1u8])), good, false);
	if p.next(3) == 0 {
		// The call is over.
		if h.send_tick_update().await.is_ok() {
			w.viol("update_after_response", &["C19", "C04"], "an update after the response was accepted".into());
		}
	}
}

async fn serve_upload<B: Sys>(w: W, n: u64, mut p: Plan, mut h: sim::upload::ReceivedRequestHandle<F<B>>) {
	use sim::upload::RequestUpdate as U;
	let pc = w.1.get("cancel") as u64;
	pause(&mut p).await;
	let early = p.next(5) == 0;
	let mut left = p.next(4);
	let mut total = 0u64;
	loop {
		if early && left == 0 {
			break;
		}
		left = left.saturating_sub(1);
		let Some(r) = guard(h.recv_update(), p.cancel(pc), || ()).await else {
			w.stat("receives_cancelled");
			continue;
		};
		let Some(r) = r else {
			w.call(n, |c| c.cu_end = true);
			break;
		};
		let mut last = false;
		let item = parse_update!(w, r, |u: U| {
			again::<B, _>(&w, &u);
			match u {
				U::Chunk(v) => {
					total = mix(total ^ v.n);
					it("chunk", &v)
				},
				U::Mark(v) => it("mark", &v),
				U::Finish(()) => {
					last = true;
					it("finish", &())
				},
			}
		});
		w.call(n, |c| c.got_cu.push(item));
		if last {
			w.call(n, |c| c.cu_end = true);
			break;
		}
		pause(&mut p).await;
	}
	stray(&w, &mut p, h.inner(), Some(n)).await;
	reply!(&w, To::Call(n), p, h, 2, (Some(Num { n: POISON }), Some(vec![0u8; 7])), Num { n: total >> 1 }, false);
}

async fn serve_chat<B: Sys>(w: W, n: u64, mut p: Plan, mut h: sim::chat_room::ReceivedRequestHandle<F<B>>) {
	use sim::chat_room::RequestUpdate as U;
	let pc = w.1.get("cancel") as u64;
	let early = p.next(6) == 0;
	// A second writer, at the same time.
	let mut helper = None;
	if p.next(3) == 0 {
		let (w2, h2, mut p2) = (w.clone(), h.write_handle(), Plan(p.next(1 << 40)));
		helper = Some(exec::spawn(format!("helper{n}"), exec::current_node(), async move {
			for _ in 0..p2.next(5) {
				let v = p2.text(w2.num());
				send!(w2, n, su, 1, it("heard", &v), p2.cancel(pc), false, h2.send_heard_update(&v));
				pause(&mut p2).await;
			}
		}));
	}
	let mut left = false;
	for _ in 0..p.next(8) {
		let k = w.num();
		let cancel = p.cancel(pc);
		match p.next(9) {
			0 => {
				let v = p.text(k);
				send!(w, n, su, 0, it("heard", &v), cancel, false, h.send_heard_update(&v));
			},
			1 => {
				let v = p.text(k);
				send!(w, n, su, 0, it("whispered_by", &v), cancel, false, h.send_whispered_by_update(&v));
			},
			2 => {
				let v = Num { n: k };
				send!(w, n, su, 0, it("joined", &v), cancel, false, h.send_joined_update(&v));
			},
			3 => drop(send!(w, n, su, 0, it("pause", &()), cancel, false, h.send_pause_update())),
			4 => bad_update!(w, n, p, h, su, [(1, vec![0xff]), (6, vec![1, 2, 3]), (-5, vec![0xc0, 0x80]), (3, vec![3])][p.next(4) as usize].clone(), false),
			5 if k % 2 == 0 => refused!(w, "update", h.send_heard_update(&"a\0b".to_string())),
			5 => refused!(w, "update", h.send_whispered_by_update(&huge())),
			_ if !left => {
				let Some(r) = guard(h.recv_update(), if cancel == 0 { -1_000_000 } else { cancel }, || ()).await else { continue };
				left = chat_update::<B>(&w, n, r);
			},
			_ => pause(&mut p).await,
		}
	}
	while !left && !early {
		let Some(r) = guard(h.recv_update(), p.cancel(pc), || ()).await else { continue };
		left = chat_update::<B>(&w, n, r);
	}
	if let Some(t) = helper {
		exec::join(t).await;
	}
	let v = if p.next(3) == 0 { None } else { Some(p.text(w.num())) };
	reply!(&w, To::Call(n), p, h, 10, (Some(Some(if p.next(2) == 0 { "\0".to_string() } else { huge() })), Some(vec![2u8, 2])), v, false);

	fn chat_update<B: Sys>(w: &W, n: u64, r: Option<Result<U, ParseUpdateError<B>>>) -> bool {
		let Some(r) = r else {
			w.call(n, |c| c.cu_end = true);
			return true;
		};
		let mut last = false;
		let item = parse_update!(w, r, |u: U| {
			again::<B, _>(w, &u);
			let (ok, t) = match &u {
				U::Say(v) => (u.is_say() && u.as_say() == Some(v) && !u.is_whisper_to(), it("say", v)),
				U::WhisperTo(v) => (u.is_whisper_to() && u.as_whisper_to() == Some(v) && !u.is_say(), it("whisper_to", v)),
				U::Mood(v) => (u.is_mood() && u.as_mood() == Some(v) && u.as_leave().is_none(), it("mood", v)),
				U::Leave(()) => {
					last = true;
					(u.is_leave() && !u.is_mood() && u.as_say().is_none(), it("leave", &()))
				},
			};
			if !ok {
				w.viol("message_enum", &["C19"], format!("is/as functions disagree about {u:?}"));
			}
			t
		});
		w.call(n, |c| c.got_cu.push(item));
		if last {
			w.call(n, |c| c.cu_end = true);
		}
		last
	}
}

// ---------------------------------------------------------------- client side

fn new_call(w: &W, side: usize, lane: usize, svc: &'static str, n: u64, plan: u64, v: &dyn Debug) -> usize {
	let item = it(svc, v);
	let c = Call { side, svc, item: item.clone(), plan, ..Call::default() };
	w.0.borrow_mut().calls.insert(n, c);
	w.begin(side, lane, format!("request {item}"))
}

/// Judge the result of a call without updates, or of starting one with updates.
fn called<T>(w: &W, side: usize, i: usize, n: u64, r: &Result<T, Error>) {
	let st = match r {
		Ok(_) => Stt::Ok,
		Err(e) => {
			check_error(w, e);
			if says(e, "PayloadTooLarge") || says(e, "too large") || says(e, UNWRITABLE) || says(e, "EncodeFailed") {
				Stt::No
			} else if e.is_remote_error() || e.is_unexpected_message_type() || is_bad(e) {
				Stt::Ok
			} else {
				w.unexpected(&format!("call {n}"), e);
				Stt::Maybe
			}
		},
	};
	w.end(side, i, st);
}

async fn nested<B: Sys>(w: &W, side: usize, c: &Client<B>, p: &mut Plan) {
	w.stat("nested_calls");
	let lane = {
		let mut st = w.0.borrow_mut();
		st.lanes += 1;
		st.lanes
	};
	simple::<B>(w, side, lane, c, "neg", p.next(1 << 40), 0).await;
}

/// A call of a service without updates.
async fn simple<B: Sys>(w: &W, side: usize, lane: usize, c: &Client<B>, svc: &'static str, plan: u64, cancel: i64) {
	let n = w.num();
	let got = match svc {
		"ping" => {
			let i = w.begin(side, lane, "request ping ()".into());
			match guard(c.ping(), cancel, || ()).await {
				None => {
					w.0.borrow_mut().sloppy = true;
					w.stat("calls_cancelled");
				},
				Some(r) => {
					called(w, side, i, n, &r);
					let g = classify(r);
					w.0.borrow_mut().pings[side].push(g);
				},
			}
			return;
		},
		"add" => {
			let v = Pair(n, plan >> 8);
			let i = new_call(w, side, lane, svc, n, plan, &v);
			guard(c.add(&v), cancel, || ()).await.map(|r| {
				called(w, side, i, n, &r);
				classify(r)
			})
		},
		_ => {
			let v = Num { n };
			let i = new_call(w, side, lane, svc, n, plan, &v);
			guard(c.neg(&v), cancel, || ()).await.map(|r| {
				called(w, side, i, n, &r);
				classify(r)
			})
		},
	};
	if got.is_none() {
		w.0.borrow_mut().sloppy = true;
		w.stat("calls_cancelled");
	}
	w.call(n, |c| c.got = got);
}

/// Receive everything of a call that has updates of the server.
macro_rules! receive {
	($w:expr, $n:expr, $p:expr, $pc:expr, $h:expr, $conv:expr) => {{
		let mut must_update = false;
		let mut ended = false;
		loop {
			let cancel = $p.cancel($pc);
			// Ask for the response, maybe too early.
			if !must_update && (ended || $p.next(3) == 0) {
				let Some(r) = guard($h.recv_response(), cancel, || ()).await else {
					$w.stat("receives_cancelled");
					continue;
				};
				match classify(r) {
					Resp::Stray if ended => {
						$w.viol("update_after_end", &["C19", "C20"], "an update is waiting although the end was reported".into());
						break;
					},
					Resp::Stray => must_update = true,
					g => {
						$w.call($n, |c| {
							c.got = Some(g);
							c.su_end = true;
						});
						break;
					},
				}
			} else {
				let Some(r) = guard($h.recv_update(), cancel, || ()).await else {
					$w.stat("receives_cancelled");
					continue;
				};
				match r {
					None => {
						if must_update {
							$w.viol("update_lost", &["C19", "C20"], "the response was refused because of an update, but there is none".into());
						}
						ended = true;
					},
					Some(r) => {
						if ended {
							$w.viol("update_after_end", &["C19", "C20"], "an update after the end of the updates".into());
						}
						let item = parse_update!($w, r, $conv);
						$w.call($n, |c| c.got_su.push(item));
					},
				}
				must_update = false;
			}
		}
	}};
}

async fn big_call<B: Sys>(w: &W, side: usize, lane: usize, c: &Client<B>, svc: &'static str, plan: u64, cancel: i64) {
	let n = w.num();
	let mut p = Plan(plan);
	let pc = w.1.get("cancel") as u64;
	macro_rules! start {
		($v:expr, $f:ident) => {{
			let v = $v;
			let i = new_call(w, side, lane, svc, n, plan, &v);
			match guard(c.$f(&v), cancel, || ()).await {
				None => {
					w.0.borrow_mut().sloppy = true;
					w.stat("calls_cancelled");
					return;
				},
				Some(r) => {
					called(w, side, i, n, &r);
					match r {
						Ok(h) => h,
						Err(_) => return,
					}
				},
			}
		}};
	}
	// Once the server has answered, updates may be refused.
	macro_rules! over {
		() => {
			w.call(n, |c| c.replied)
		};
	}
	match svc {
		"fetch" => {
			use sim::fetch::ResponseUpdate as U;
			let mut h = start!(Key(n), fetch);
			pause(&mut p).await;
			receive!(w, n, p, pc, h, |u: U| {
				again::<B, _>(w, &u);
				match u {
					U::Part(v) => it("part", &v),
					U::Progress(v) => it("progress", &v),
					U::Tick(()) => it("tick", &()),
					U::Total(v) => it("total", &v),
				}
			});
		},
		"upload" => {
			let mut h = start!(Num { n }, upload);
			for _ in 0..p.next(6) {
				let k = w.num();
				let cancel = p.cancel(pc);
				match p.next(6) {
					0 | 1 => {
						let v = Part { n: k, data: p.data() };
						send!(w, n, cu, 0, it("chunk", &v), cancel, over!(), h.send_chunk_update(&v));
					},
					2 => {
						let v = Num { n: k };
						let h = h.write_handle();
						send!(w, n, cu, 0, it("mark", &v), cancel, over!(), h.send_mark_update(&v));
					},
					3 => bad_update!(w, n, p, h, cu, [(1, vec![1; 7]), (i32::MIN, vec![]), (2, vec![9])][p.next(3) as usize].clone(), over!()),
					4 if p.next(2) == 0 => refused!(w, "update", h.send_mark_update(&Num { n: POISON })),
					4 => refused!(w, "update", h.send_chunk_update(&Part { n: 0, data: vec![0; LIMIT] })),
					_ => pause(&mut p).await,
				}
			}
			send!(w, n, cu, 0, it("finish", &()), 0, over!(), h.send_finish_update());
			let r = loop {
				if let Some(r) = guard(h.recv_response(), p.cancel(pc), || ()).await {
					break r;
				}
			};
			let mut g = classify(r);
			if g == Resp::Stray {
				if !w.call(n, |c| c.stray) {
					w.viol("stray", &["C19"], "an update nobody sent".into());
				}
				// The definition has no updates to receive, but the call is still usable.
				let mut raw = h.into_inner();
				match raw.recv_update().await {
					Some(m) if m.header.service_id == 77 && m.body.bytes() == [7] => (),
					m => w.unexpected("the stray update", &m.map(|m| m.header)),
				}
				g = match raw.recv_response().await {
					Err(_) => Resp::Lost,
					Ok(r) if r.header.service_id == -1 => match String::from_utf8(r.body.bytes().to_vec()) {
						Ok(t) => Resp::Remote(t),
						Err(_) => Resp::Bad,
					},
					Ok(r) => match Num::dec(r.body.bytes()) {
						Ok(v) => Resp::Ok(format!("{v:?}")),
						Err(_) => Resp::Bad,
					},
				};
			}
			w.call(n, |c| c.got = Some(g));
		},
		_ => {
			use sim::chat_room::ResponseUpdate as U;
			let mut h = start!(Num { n }, chat_room);
			let mut helper = None;
			if p.next(3) == 0 {
				let (w2, h2, mut p2) = (w.clone(), h.write_handle().clone(), Plan(p.next(1 << 40)));
				helper = Some(exec::spawn(format!("helper{n}"), exec::current_node(), async move {
					for _ in 0..p2.next(5) {
						let v = p2.text(w2.num());
						let over = || w2.call(n, |c| c.replied);
						send!(w2, n, cu, 1, it("say", &v), p2.cancel(pc), over(), h2.send_say_update(&v));
						pause(&mut p2).await;
					}
				}));
			}
			for _ in 0..p.next(7) {
				let k = w.num();
				let cancel = p.cancel(pc);
				match p.next(7) {
					0 => {
						let v = p.text(k);
						send!(w, n, cu, 0, it("say", &v), cancel, over!(), h.send_say_update(&v));
					},
					1 => {
						let v = p.text(k);
						send!(w, n, cu, 0, it("whisper_to", &v), cancel, over!(), h.send_whisper_to_update(&v));
					},
					2 => {
						let v = Num { n: k };
						send!(w, n, cu, 0, it("mood", &v), cancel, over!(), h.send_mood_update(&v));
					},
					3 => bad_update!(w, n, p, h, cu, [(1, vec![0xff]), (-8, vec![1, 2, 3]), (5, vec![0xc0, 0x80]), (6, vec![3])][p.next(4) as usize].clone(), over!()),
					4 if p.next(2) == 0 => refused!(w, "update", h.send_whisper_to_update(&"\0".to_string())),
					4 => refused!(w, "update", h.send_say_update(&huge())),
					_ => pause(&mut p).await,
				}
			}
			if let Some(t) = helper {
				exec::join(t).await;
			}
			send!(w, n, cu, 0, it("leave", &()), 0, over!(), h.send_leave_update());
			receive!(w, n, p, pc, h, |u: U| {
				again::<B, _>(w, &u);
				let (ok, t) = match &u {
					U::Heard(v) => (u.is_heard() && u.as_heard() == Some(v) && !u.is_joined(), it("heard", v)),
					U::WhisperedBy(v) => (u.is_whispered_by() && u.as_whispered_by() == Some(v) && !u.is_heard(), it("whispered_by", v)),
					U::Joined(v) => (u.is_joined() && u.as_joined() == Some(v) && u.as_heard().is_none(), it("joined", v)),
					U::Pause(()) => (u.is_pause() && !u.is_joined(), it("pause", &())),
				};
				if !ok {
					w.viol("message_enum", &["C19"], format!("is/as functions disagree about {u:?}"));
				}
				match &u {
					U::Heard(v) => {
						let v = v.clone();
						if u.into_heard().ok() != Some(v) {
							w.viol("message_enum", &["C19"], "into_heard disagrees".into());
						}
					},
					_ => {
						if u.into_heard().is_ok() {
							w.viol("message_enum", &["C19"], "into_heard of another message".into());
						}
					},
				}
				t
			});
		},
	}
}

async fn client<B: Sys>(w: W, side: usize, lane: usize, c: Client<B>, raw: Option<PeerWriteHandle<B>>, ops: Vec<Op>) {
	for op in &ops {
		w.0.borrow_mut().waiting.insert(lane, format!("{} {:?}", op.name, op.args));
		let plan = op.arg(0) as u64;
		let cancel = op.arg(1);
		match op.name.as_str() {
			"wait" => exec::sleep(op.arg(0).max(1) as u64).await,
			"ping" => simple::<B>(&w, side, lane, &c, "ping", plan, cancel).await,
			"add" => simple::<B>(&w, side, lane, &c, "add", plan, cancel).await,
			"neg" => simple::<B>(&w, side, lane, &c, "neg", plan, cancel).await,
			"fetch" => big_call::<B>(&w, side, lane, &c, "fetch", plan, cancel).await,
			"upload" => big_call::<B>(&w, side, lane, &c, "upload", plan, cancel).await,
			"chat" => big_call::<B>(&w, side, lane, &c, "chat_room", plan, cancel).await,
			"stream" => {
				let mut p = Plan(plan);
				let n = w.num();
				let (item, r, i);
				macro_rules! go {
					($item:expr, $f:expr) => {{
						item = format!("stream {}", $item);
						i = w.begin(side, lane, item.clone());
						r = guard($f, cancel, || ()).await;
					}};
				}
				match p.next(4) {
					0 => go!(it("beat", &()), c.send_beat()),
					1 => {
						let v = p.text(n);
						go!(it("note", &v), c.send_note(&v))
					},
					2 => {
						let v = p.text(n);
						go!(it("shout", &v), c.send_shout(&v))
					},
					_ => {
						let v = Num { n };
						go!(it("level", &v), c.send_level(&v))
					},
				}
				match r {
					None => w.stat("sends_cancelled"),
					Some(Ok(())) => w.end(side, i, Stt::Ok),
					Some(Err(e)) => {
						w.end(side, i, Stt::No);
						w.unexpected(&item, &e);
					},
				}
			},
			"poison" => {
				refused!(w, "stream", c.send_shout(&"\0".to_string()));
				refused!(w, "request", c.neg(&Num { n: POISON }));
				refused!(w, "request", c.chat_room(&Num { n: POISON }));
				refused!(w, "stream", c.send_note(&huge()));
			},
			// Messages that do not fit the definition.
			"bad" => {
				let Some(raw) = &raw else { continue };
				w.stat("bad_messages");
				let mut p = Plan(plan);
				let (id, b, known) = match p.next(4) {
					0 => ([50, -2, 3, 11, i32::MIN][p.next(5) as usize], vec![p.next(250) as u8], false),
					1 => ([-3, 1, 2, 10][p.next(4) as usize], vec![1, 2, 3], true),
					2 => (i32::MAX, vec![0; 15], true),
					_ => (0, vec![0], true),
				};
				let req = p.next(2) == 0;
				// Streams have other numbers than services.
				let id = if !req && id == 2 { -1 } else { id };
				let known = if req { known } else { [0, 1, -1, 10].contains(&id) };
				let b = if !req && (id == 1 || id == -1) { vec![0xff] } else { b };
				let item = if known { invalid(id) } else { unknown(id, &b) };
				if req {
					let i = w.begin(side, lane, format!("request {item}"));
					match raw.send_request(id, B::make(b, vec![])).await {
						Err(e) => w.unexpected("send of a bad request", &e),
						Ok(mut q) => {
							w.end(side, i, Stt::Ok);
							match q.recv_response().await {
								Ok(r) => {
									if r.header.service_id != -1 || r.body.as_error().ok() != Some(item.as_str()) {
										w.viol("wrong_answer", &["C19"], format!("a bad request got another answer than was given: {:?}", r.header));
									}
								},
								Err(e) => w.unexpected("response to a bad request", &e),
							}
						},
					}
				} else {
					let i = w.begin(side, lane, format!("stream {item}"));
					match raw.send_stream(id, B::make(b, vec![])).await {
						Ok(()) => w.end(side, i, Stt::Ok),
						Err(e) => w.unexpected("send of a bad stream", &e),
					}
				}
			},
			_ => panic!("harness: unknown operation {}", op.name),
		}
	}
	w.0.borrow_mut().waiting.remove(&lane);
}

// ---------------------------------------------------------------- run

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	if case.get("kind") == 2 {
		go::<UnixBody>(case, record, trace)
	} else {
		go::<StreamBody>(case, record, trace)
	}
}

fn go<B: Sys>(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	let sock = {
		let (a, b) = net::pair(kind_of(case));
		net::set_node(a, 1);
		net::set_node(b, 2);
		[a, b]
	};
	let w = W(Rc::default(), Rc::new(case.clone()));
	let done = Rc::new(Cell::new(false));
	let (w2, d2) = (w.clone(), done.clone());
	exec::spawn("control", 0, async move {
		control::<B>(w2, sock).await;
		d2.set(true);
	});
	let report = exec::run();
	let mut out = Outcome::default();
	let mut bad = false;
	for p in &report.panics {
		bad = true;
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			w.viol("panic", ALL, format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			w.viol("harness", &[], format!("harness panic in {}: {} at {}", p.task, p.message, p.location));
		}
	}
	if report.step_limit {
		w.viol("no_progress", &["C16", "C19"], format!("still busy after {} scheduling steps, without any progress", report.steps));
	} else if !bad && !done.get() {
		w.viol("harness", &[], "the script did not finish".into());
	} else if !bad {
		finish(&w);
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let st = w.0.borrow();
		for (k, v) in &st.stats {
			*out.stats.entry(format!("typed.{k}")).or_default() += v;
		}
		*out.stats.entry("typed.calls".into()).or_default() += st.calls.len() as u64;
		let mut sig = st.delivered;
		for s in 0..2 {
			for r in &st.recvd[s] {
				sig = mix(sig ^ hash_str(r));
			}
		}
		for c in st.calls.values() {
			sig = mix(sig ^ (c.got_su.len() as u64) << 8 ^ (c.got_cu.len() as u64) << 16 ^ hash_str(&format!("{:?}", c.got)));
		}
		out.sig = sig;
		out.trivial = st.delivered == 0;
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	exec::teardown();
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		w.viol("fd_leak", &["C14"], format!("{} file descriptors are still open after everything was dropped", fds1 - fds0));
	}
	out.violations = std::mem::take(&mut w.0.borrow_mut().viol);
	out.report = report;
	out
}

async fn control<B: Sys>(w: W, sock: [usize; 2]) {
	let case = w.1.clone();
	w.0.borrow_mut().faulty = !case.faults.is_empty();
	install_faults(&case, &sock);
	let how = || if case.get("spawn") == 1 { How::Spawn } else { How::Run };
	let mode = case.get("mode");
	let mut clients: [Option<Client<B>>; 2] = [None, None];
	let mut raws: [Option<PeerWriteHandle<B>>; 2] = [None, None];
	let mut servers = Vec::new();
	let mut closers: Vec<PeerCloseHandle<B>> = Vec::new();
	for side in 0..2 {
		let (_, h) = B::peer(&case, side, sock[side], how());
		closers.push(h.close_handle());
		match (mode, side) {
			(0, 0) => clients[0] = Some(h.into()),
			(0, _) => servers.push((side, Server::<B>::from(h), None)),
			(1, 0) => {
				let (_, wr) = h.split();
				raws[0] = Some(wr.clone());
				clients[0] = Some(Client::new(wr));
			},
			(1, _) => {
				let (r, _) = h.split();
				servers.push((side, r.into(), None));
			},
			_ => {
				let (r, wr) = h.split();
				raws[side] = Some(wr.clone());
				let c: Client<B> = wr.into();
				servers.push((side, r.into(), Some(c.clone())));
				clients[side] = Some(c);
			},
		}
	}
	let mut server_tasks = Vec::new();
	let mut server_closer = None;
	for (side, s, rev) in servers {
		if side == 1 {
			server_closer = Some(s.close_handle());
		}
		server_tasks.push(exec::spawn(format!("server{side}"), side as u32 + 1, serve::<B>(w.clone(), side, s, rev)));
	}
	let mut tasks = Vec::new();
	// Nested calls get lanes beyond those of the clients.
	// This loop can be interrupted by the tasks it spawned.
	for (name, _) in &case.actors {
		let lane = name.get(3..).and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
		let mut st = w.0.borrow_mut();
		st.lanes = st.lanes.max(lane * 2 + 1);
	}
	for (name, ops) in &case.actors {
		let (side, lane) = match (name.strip_prefix("A.c"), name.strip_prefix("B.c")) {
			(Some(x), _) => (0, x.parse::<usize>().unwrap_or(0)),
			(_, Some(x)) => (1, x.parse::<usize>().unwrap_or(0)),
			_ => continue,
		};
		let Some(c) = clients[side].clone() else { continue };
		let lane = lane * 2 + side;
		tasks.push((lane, exec::spawn(name.clone(), side as u32 + 1, client::<B>(w.clone(), side, lane, c, raws[side].clone(), ops.clone()))));
	}
	exec::idle().await;
	for (lane, t) in &tasks {
		if !exec::task_done(*t) {
			let what = w.0.borrow().waiting.get(lane).cloned().unwrap_or_default();
			w.viol("call_blocked", &["C19", "C16"], format!("client {lane} waits forever: {what}"));
		}
	}
	w.0.borrow_mut().ended = true;
	// The end of the connection reaches everybody.
	match case.get("endmode") {
		1 => {
			let c = clients[0].take().unwrap();
			c.close();
		},
		2 => clients[0].as_ref().unwrap().close_handle().close(),
		3 => server_closer.unwrap().close(),
		_ => {
			if mode == 2 {
				closers[(case.get("endside") & 1) as usize].close();
			}
			clients = [None, None];
			raws = [None, None];
		},
	}
	exec::idle().await;
	// Those who still have a client are told, whatever they do.
	for c in clients.iter().flatten() {
		w.stat("calls_after_end");
		let mut left = vec!["ping", "neg", "fetch", "note", "beat"];
		let all = async {
			let mut bad = Vec::new();
			let mut ok = |what: &'static str, r: bool| {
				left.retain(|x| *x != what);
				if r {
					bad.push(what);
				}
			};
			ok("ping", c.ping().await.is_ok());
			ok("neg", c.neg(&Num { n: 1 }).await.is_ok());
			ok("fetch", c.fetch(&Key(1)).await.is_ok());
			ok("note", c.send_note(&"late".to_string()).await.is_ok());
			ok("beat", c.send_beat().await.is_ok());
			bad
		};
		match guard(all, -60_000_000, || ()).await {
			Some(bad) if bad.is_empty() => (),
			Some(bad) => w.viol("sent_after_end", &["C19", "C07"], format!("{bad:?} succeeded after the connection was ended")),
			None => w.viol("call_blocked", &["C19", "C07", "C16"], format!("{left:?} wait although the connection was ended")),
		}
	}
	for (i, t) in server_tasks.iter().enumerate() {
		if !exec::task_done(*t) {
			w.viol("not_told", &["C07", "C19"], format!("server {i} still waits after the connection was ended"));
		}
	}
	for (_, t) in tasks {
		exec::abort_task(t);
	}
	exec::idle().await;
	drop((clients, raws, closers));
}

// ---------------------------------------------------------------- checks

/// Whether `got` is what `sent` explains: a subsequence with every `Ok` in it, and no `No`.
/// With `complete` false, `got` may end anywhere.
fn explained(sent: &[&Sent], got: &[&String], complete: bool) -> bool {
	// reach[j]: got[..j] can be explained by sent[..i].
	let m = got.len();
	let mut reach = vec![false; m + 1];
	reach[0] = true;
	let mut anywhere = reach[m];
	for s in sent {
		let mut next = vec![false; m + 1];
		for j in 0..=m {
			if !reach[j] {
				continue;
			}
			if s.st != Stt::Ok {
				next[j] = true;
			}
			if s.st != Stt::No && j < m && *got[j] == s.item {
				next[j + 1] = true;
			}
		}
		reach = next;
		anywhere |= reach[m];
	}
	if complete {
		reach[m]
	} else {
		anywhere
	}
}

fn by_lane(sent: &[Sent], got: &[String], complete: bool) -> Result<(), String> {
	let mut lane_of: BTreeMap<&str, usize> = BTreeMap::new();
	for s in sent {
		lane_of.entry(&s.item).or_insert(s.lane);
	}
	if let Some(g) = got.iter().find(|g| !lane_of.contains_key(g.as_str())) {
		return Err(format!("{g:?} was received but never sent"));
	}
	let mut lanes: Vec<usize> = sent.iter().map(|s| s.lane).collect();
	lanes.sort();
	lanes.dedup();
	for l in lanes {
		let s: Vec<&Sent> = sent.iter().filter(|s| s.lane == l).collect();
		let g: Vec<&String> = got.iter().filter(|g| lane_of[g.as_str()] == l).collect();
		if !explained(&s, &g, complete) {
			let t: Vec<String> = s.iter().map(|s| format!("{} ({:?})", s.item, s.st)).collect();
			return Err(format!("sent {t:?}, received {g:?}"));
		}
	}
	Ok(())
}

fn finish(w: &W) {
	let (calls, sent, recvd, pings, replies, faulty) = {
		let st = w.0.borrow();
		(st.calls.clone(), st.sent.clone(), st.recvd.clone(), st.pings.clone(), st.ping_replies.clone(), st.faulty)
	};
	if !w.0.borrow().viol.is_empty() {
		return;
	}
	// Requests and streams.  Those without a body can not be told apart, so they are counted.
	for side in 0..2 {
		let plain = |x: &str| x == "request ping ()" || x == "stream beat ()" || x.contains(" !") || x.contains(" ?");
		for item in sent[side].iter().map(|s| &s.item).chain(&recvd[1 - side]).filter(|x| plain(x)) {
			let ok = sent[side].iter().filter(|s| &s.item == item && s.st == Stt::Ok).count();
			let maybe = sent[side].iter().filter(|s| &s.item == item && s.st == Stt::Maybe).count();
			let got = recvd[1 - side].iter().filter(|x| *x == item).count();
			if got > ok + maybe || (!faulty && got < ok) {
				return w.viol("count", &["C19"], format!("{item:?} was sent {ok} times (and maybe {maybe}), received {got} times"));
			}
		}
		let s: Vec<Sent> = sent[side].iter().filter(|s| !plain(&s.item)).cloned().collect();
		let g: Vec<String> = recvd[1 - side].iter().filter(|x| !plain(x)).cloned().collect();
		if let Err(e) = by_lane(&s, &g, !faulty) {
			return w.viol("messages", &["C19"], format!("from side {side}: {e}"));
		}
		// The order between two marks of the same kind is checked above; bad ones keep their place among good ones.
		let mut want: Vec<Resp> = replies[side].iter().filter(|r| r.1 != Stt::No).map(|r| r.0.clone()).collect();
		for p in &pings[1 - side] {
			if faulty && *p == Resp::Lost {
				continue;
			}
			if *p == Resp::Stray && w.1.get("stray") == 1 {
				continue;
			}
			match want.iter().position(|x| x == p) {
				Some(i) => drop(want.remove(i)),
				None => return w.viol("wrong_response", &["C19"], format!("a ping got {p:?}, which nobody sent")),
			}
		}
	}
	for (n, c) in &calls {
		let what = format!("call {n} ({})", c.item);
		if c.served > 1 {
			return w.viol("served_twice", &["C19"], format!("{what} was received {} times", c.served));
		}
		if let Err(e) = by_lane(&c.cu, &c.got_cu, c.cu_end && !faulty) {
			return w.viol("updates", &["C19"], format!("request updates of {what}: {e}"));
		}
		if let Err(e) = by_lane(&c.su, &c.got_su, c.su_end && !faulty) {
			return w.viol("updates", &["C19"], format!("response updates of {what}: {e}"));
		}
		match (&c.got, &c.resp) {
			(None, _) => (),
			(Some(Resp::Lost), _) if faulty => (),
			(Some(Resp::Stray), _) if c.stray && c.svc != "upload" => (),
			(Some(Resp::Lost), None) if c.served == 0 => (),
			(Some(g), Some((r, st))) if g == r && *st != Stt::No => (),
			(g, r) => return w.viol("wrong_response", &["C19"], format!("{what} was answered with {r:?}, but the caller got {g:?}")),
		}
	}
}

//! Scenario "duo": two real peers, real handles on both sides, one connection.

use crate::case::{Case, Outcome, Violation};
use crate::util::*;
use crate::world::*;
use fizyr_rpc::{StreamBody, UnixBody};
use simcore::choice::mix;
use simcore::exec;
use simcore::net::{self, Action, Kind, Trigger};
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn kind_of(case: &Case) -> Kind {
	match case.get("kind") {
		0 => Kind::Tcp,
		1 => Kind::Unix,
		_ => Kind::Seq,
	}
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	if case.get("kind") == 2 {
		go::<UnixBody>(case, record, trace)
	} else {
		go::<StreamBody>(case, record, trace)
	}
}

/// fault <side> <trigger 0 io,1 written,2 read,3 time> <n> <arg>
pub fn install_faults(case: &Case, socks: &[usize]) {
	for f in &case.faults {
		let s = socks[(f.arg(0) as usize).min(socks.len() - 1)];
		let n = f.arg(2) as u64;
		let trig = match f.arg(1) {
			0 => Trigger::Io(n),
			1 => Trigger::Written(n),
			2 => Trigger::Read(n),
			_ => Trigger::Time(n),
		};
		let arg = f.arg(3);
		let act = match f.name.as_str() {
			"read_err" => Action::ReadErr(arg as i32),
			"write_err" => Action::WriteErr(arg as i32),
			"reset" => Action::Reset,
			"reset_discard" => Action::ResetDiscard,
			"stall_rx" => Action::StallRx(arg as u64),
			"stall_tx" => Action::StallTx(arg as u64),
			"partition" => Action::Partition(arg as u64),
			_ => continue,
		};
		net::add_rule(s, trig, act);
	}
}

fn go<B: Sys>(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	let sock = {
		let (a, b) = net::pair(kind_of(case));
		net::set_node(a, 1);
		net::set_node(b, 2);
		[a, b]
	};
	for side in 0..2 {
		if let Some(c) = case.cfg.get(&key(side, "cap")) {
			net::set_cap(sock[side], *c as usize);
		}
	}
	let w = World::<B>::new(case, sock);
	let w2 = w.clone();
	exec::spawn("control", 0, async move { control(w2).await });
	let report = exec::run();
	let mut out = Outcome::default();
	check(&w, &report);
	for p in &report.panics {
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		if subject {
			w.violation("panic", ALL, format!("panic in {}: {} at {}", p.task, p.message, p.location));
		} else {
			w.violation("harness", &[], format!("harness panic in {}: {} at {}", p.task, p.message, p.location));
		}
	}
	if report.step_limit {
		w.violation("no_progress", &["C16", "C07", "C11"], format!("still busy after {} scheduling steps, without any progress", report.steps));
	}
	let (sig, delivered) = signature(&w);
	out.sig = sig;
	out.trivial = delivered == 0;
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	stats(&w, &mut out);
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	// Release everything.
	let attic = std::mem::take(&mut w.st.borrow_mut().attic);
	{
		let _g = exec::no_preempt();
		drop(attic);
	}
	exec::teardown();
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		w.violation("fd_leak", &["C14"], format!("{} file descriptors are still open after everything was dropped", fds1 - fds0));
	}
	out.violations = std::mem::take(&mut w.st.borrow_mut().viol);
	out.report = report;
	out
}

pub fn fizyr_sim_hook(case: &Case) {
	fresh_wakers(case.get("fresh") == 1);
	let space = case.get("idspace") as u32;
	if space > 0 {
		// Ids run start, start+1, .. 2^32-1, 0, .. space-1-k, start, ..
		let k = (case.get("idbelow") as u32).min(space);
		let start = 0u32.wrapping_sub(k);
		fizyr_rpc::sim::set_id_jump(Some((space - k, start)));
	} else {
		fizyr_rpc::sim::set_id_jump(None);
	}
}

// ------------------------------------------------------------------ control

async fn control<B: Sys>(w: Rc<World<B>>) {
	let case = w.case.clone();
	install_faults(&case, &w.sock);
	let mut starts = Vec::new();
	for side in 0..2 {
		let how = if case.get("spawn") == 1 { How::Spawn } else { How::Run };
		let (id, h) = B::peer(&case, side, w.sock[side], how);
		w.st.borrow_mut().run[side] = id;
		let whole = Held::new(&w, side, None, H::Whole(h));
		let s = SIDES[side];
		// Close handles are made first and keep nothing alive.
		let names: Vec<String> = case.actors.keys().filter(|k| k.starts_with(&format!("{s}.c"))).cloned().collect();
		for n in names {
			let c = match &whole.h {
				H::Whole(h) => h.close_handle(),
				_ => unreachable!(),
			};
			starts.push((n, Held::new(&w, side, None, H::Close(c))));
		}
		if case.actors.contains_key(&format!("{s}.all")) {
			starts.push((format!("{s}.all"), whole));
			continue;
		}
		let (read, write) = whole.split();
		let names: Vec<String> = case.actors.keys().filter(|k| k.starts_with(&format!("{s}.w"))).cloned().collect();
		let mut first = Some(write);
		for (i, n) in names.iter().enumerate() {
			let hd = if i + 1 == names.len() {
				first.take().unwrap()
			} else {
				match &first.as_ref().unwrap().h {
					H::Write(h) => Held::new(&w, side, None, H::Write(h.clone())),
					_ => unreachable!(),
				}
			};
			starts.push((n.clone(), hd));
		}
		if let Some(f) = first {
			// No writer in the program: keep the handle or drop it.
			if case.get(&key(side, "nowriter")) == 0 {
				w.st.borrow_mut().attic.push((format!("{s}.w"), f));
			} else {
				drop(f);
			}
		}
		starts.push((format!("{s}.recv"), read));
	}
	for (n, h) in starts {
		w.start_actor(n, h);
	}

	exec::idle().await;
	snapshot(&w, 1);
	let t = exec::stamp();
	w.st.borrow_mut().p1_end = t;

	// Bring the connection down.
	w.st.borrow_mut().phase = 2;
	w.open_gates();
	let mode = case.get("endmode");
	let side = (case.get("endside") & 1) as usize;
	end(&w, mode, side);
	exec::idle().await;
	snapshot(&w, 2);

	// Use every surviving handle after the end.
	w.st.borrow_mut().phase = 3;
	let attic = std::mem::take(&mut w.st.borrow_mut().attic);
	for (n, h) in attic {
		use crate::case::Op;
		let ops: Vec<Op> = match &h.h {
			H::Whole(_) => vec![Op::new("recvall", &[]), Op::new("recv", &[]), Op::new("stream", &[3]), Op::new("recv", &[])],
			H::Read(_) => vec![Op::new("recvall", &[]), Op::new("recv", &[]), Op::new("recv", &[])],
			H::Write(_) => vec![Op::new("stream", &[3]), Op::new("stream", &[0]), Op::new("reclone", &[]), Op::new("stream", &[1])],
			H::Close(_) => vec![Op::new("close", &[])],
			H::Q(_) => vec![Op::new("upd", &[2]), Op::new("rupds", &[]), Op::new("rresp", &[]), Op::new("rresp", &[]), Op::new("rupd", &[]), Op::new("upd", &[2])],
			H::Qw(_) => vec![Op::new("upd", &[2])],
			H::R(_) => vec![Op::new("rupds", &[]), Op::new("rupd", &[]), Op::new("upd", &[2]), Op::new("resp", &[2]), Op::new("rupd", &[])],
			H::Rw(_) => vec![Op::new("upd", &[2]), Op::new("resp", &[1])],
			H::Gone => vec![],
		};
		w.start_ops(format!("post.{n}"), h, ops);
	}
	exec::idle().await;
	snapshot(&w, 3);
}

/// End the connection: 0 close handle, 1 drop all peer handles of a side, 2 abort the task, 3 close both.
fn end<B: Sys>(w: &Rc<World<B>>, mode: i64, side: usize) {
	let both = [0, 1];
	let sides: &[usize] = if mode == 3 { &both } else { std::slice::from_ref(&side) };
	let run = w.st.borrow().run[side];
	let mode = if mode == 2 && run.is_none() { 1 } else { mode };
	if mode == 2 {
		let t = exec::stamp();
		w.st.borrow_mut().sides[side].abort_at.get_or_insert(t);
		exec::abort_task(run.unwrap());
		return;
	}
	for &side in sides {
		let mut closed = false;
		if mode != 1 {
			let mut attic = std::mem::take(&mut w.st.borrow_mut().attic);
			for (_, h) in &mut attic {
				if h.side == side && !closed {
					let c = match &h.h {
						H::Read(x) => Some(x.close_handle()),
						H::Write(x) => Some(x.close_handle()),
						H::Whole(x) => Some(x.close_handle()),
						_ => None,
					};
					if let H::Close(c) = &h.h {
						let t = exec::stamp();
						w.st.borrow_mut().sides[side].close_at.get_or_insert(t);
						c.close();
						closed = true;
					}
					if let Some(c) = c {
						let t = exec::stamp();
						w.st.borrow_mut().sides[side].close_at.get_or_insert(t);
						c.close();
						closed = true;
					}
				}
			}
			let mut st = w.st.borrow_mut();
			attic.append(&mut st.attic);
			st.attic = attic;
		}
		if !closed {
			// Drop every peer handle of this side.
			let s = SIDES[side];
			let ids: Vec<_> = {
				let st = w.st.borrow();
				st.tasks.iter().filter(|(n, _)| n.starts_with(&format!("{s}."))).map(|(n, t)| (n.clone(), *t)).collect()
			};
			for (n, t) in ids {
				if !exec::task_done(t) {
					w.st.borrow_mut().waits.remove(&n);
					exec::abort_task(t);
				}
			}
			let attic = std::mem::take(&mut w.st.borrow_mut().attic);
			let (gone, keep): (Vec<_>, Vec<_>) =
				attic.into_iter().partition(|(_, h)| h.side == side && matches!(h.h, H::Whole(_) | H::Read(_) | H::Write(_)));
			w.st.borrow_mut().attic = keep;
			drop(gone);
		}
	}
}

/// Frames the harness can attribute: (frame index) -> send number.
pub struct Attr {
	pub wire: [Wire; 2],
	/// For every frame the send it came from (None: an automatic error response).
	pub from: [Vec<Option<usize>>; 2],
	/// For every send the frames it produced.
	pub frames_of: BTreeMap<usize, Vec<(usize, usize)>>,
	pub unknown: Vec<(usize, usize)>,
}

pub fn attribute<B: Sys>(w: &World<B>) -> Attr {
	let wire = [decode_wire(w.sock[0], w.seq, w.end), decode_wire(w.sock[1], w.seq, w.end)];
	let mut from = [Vec::new(), Vec::new()];
	let mut frames_of: BTreeMap<usize, Vec<(usize, usize)>> = BTreeMap::new();
	let mut unknown = Vec::new();
	let st = w.st.borrow();
	for side in 0..2 {
		for (i, f) in wire[side].frames.iter().enumerate() {
			let n = if f.msg.typ == RESPONSE && f.msg.svc == -1 {
				err_number(&f.msg.body).filter(|n| st.sends.get(*n).is_some_and(|s| s.is_err))
			} else {
				let n = st.by_tag.get(&f.msg.svc).copied();
				if n.is_none() {
					unknown.push((side, i));
				}
				n
			};
			from[side].push(n);
			if let Some(n) = n {
				frames_of.entry(n).or_default().push((side, i));
			}
		}
	}
	Attr { wire, from, frames_of, unknown }
}

/// A frame the receiving side must refuse.
fn undeliverable<B: Sys>(w: &World<B>, to: usize, m: &Msg) -> bool {
	m.body.len() > max_read(&w.case, to) || (w.seq && m.inodes.len() > max_fds_read(&w.case, to))
}

/// Index of the first frame that ends the byte stream for the receiver.
fn poison<B: Sys>(w: &World<B>, wire: &Wire, to: usize) -> Option<usize> {
	if w.seq {
		return None;
	}
	wire.frames.iter().position(|f| f.msg.body.len() > max_read(&w.case, to))
}

/// A partial frame whose header alone already announces too much.
fn poison_tail<B: Sys>(w: &World<B>, wire: &Wire, to: usize) -> bool {
	!w.seq && wire.tail.len() >= 16 && (w.end.u32(&wire.tail) as usize).saturating_sub(12) > max_read(&w.case, to)
}

fn snapshot<B: Sys>(w: &Rc<World<B>>, phase: u32) {
	let a = attribute(w);
	let info = [net::sock_info(w.sock[0]), net::sock_info(w.sock[1])];
	let st = w.st.borrow();
	let mut v: Vec<(&'static str, Vec<&'static str>, String)> = Vec::new();
	let alive = info[0].open && info[1].open;
	let taint = tainted(w, &a, &st);
	if phase >= 2 && (info[0].open || info[1].open) {
		v.push(("socket_open_after_end", vec!["C07", "C09"], format!("after the connection was ended (mode {}, side {}) sockets open: A {} B {}", w.case.get("endmode"), w.case.get("endside"), info[0].open, info[1].open)));
	} else if info[0].open != info[1].open {
		v.push(("half_dead", vec!["C07", "C09"], format!("one side closed its socket but the other never noticed: A open {} B open {}", info[0].open, info[1].open)));
	}
	if phase == 1 && alive {
		for side in 0..2 {
			let s = &st.sides[side];
			let started = w.case.get("spawn") == 1 || st.run[side].is_some();
			if started && s.zero_at.is_some() {
				v.push(("outlives_handles", vec!["C09"], format!("side {} has no peer handles left but the connection is still up", SIDES[side])));
			}
			if s.close_at.is_some() {
				v.push(("close_ignored", vec!["C09", "C07"], format!("side {} called close but the connection is still up", SIDES[side])));
			}
			if info[side].ended_at.is_some() {
				v.push(("end_ignored", vec!["C07"], format!("side {} saw the end of the connection (eof {} errors {:?} {:?}) but did not stop", SIDES[side], info[side].eof_read, info[side].err_read, info[side].last_write_err)));
			}
		}
	}
	if alive && phase == 1 {
		// Everything written must have been taken off the wire.
		for side in 0..2 {
			if info[side].written_read < info[side].written && poison(w, &a.wire[side], 1 - side).is_none() {
				v.push((
					"input_not_read",
					vec!["C16"],
					format!("side {} leaves {} of {} bytes/datagrams unread with nothing else to do", SIDES[1 - side], info[side].written - info[side].written_read, info[side].written),
				));
			}
		}
	}
	for (actor, wt) in &st.waits {
		// Stopped by the harness, in the middle of a poll.
		if st.tasks.get(actor).is_some_and(|t| exec::task_done(*t)) {
			continue;
		}
		let side = wt.side;
		let who = format!("{actor} (side {}) is stuck in {}{}", SIDES[side], wt.op, wt.req.map(|r| format!(" of request {r}")).unwrap_or_default());
		if !info[side].open {
			v.push(("stuck_after_end", vec!["C07"], format!("{who} although the connection has ended")));
			continue;
		}
		if !alive {
			v.push(("stuck_after_end", vec!["C07"], format!("{who} although the other side is gone")));
			continue;
		}
		if phase >= 2 {
			v.push(("stuck_after_end", vec!["C07"], format!("{who} after the connection was told to end")));
			continue;
		}
		let peer_wire = &a.wire[1 - side];
		match wt.op {
			"send" => v.push(("stuck_send", vec!["C16", "C15"], format!("{who} with the network idle"))),
			"recv" => {
				let exp = peer_wire.frames.iter().filter(|f| matches!(f.msg.typ, REQUEST | STREAM) && !undeliverable(w, side, &f.msg)).count();
				let got = st.sides[side].recv.iter().filter(|e| matches!(e.got, Got::Msg(_))).count();
				if poison(w, peer_wire, side).is_some() || poison_tail(w, peer_wire, side) {
					v.push(("malformed_ignored", vec!["C07", "C11", "C13"], format!("{who} although the stream contains an unacceptable frame")));
				} else if got < exp && !taint {
					let mut p = vec!["C16"];
					if st.sides[side].cancelled_recvs > 0 {
						p.push("C15");
					}
					p.push(if w.seq { "C14" } else { "C01" });
					v.push(("undelivered", p, format!("{who} although {exp} messages are on the wire and only {got} were delivered")));
				}
			},
			op => {
				let Some(r) = wt.req.and_then(|r| st.reqs.get(&r)) else { continue };
				let requester = r.side == side;
				let hist = if requester { &r.q } else { &r.r };
				let list = request_frames(&a, &st.sends, wt.req.unwrap(), side);
				let consumed = hist.iter().filter(|e| matches!(e.got, Got::Msg(_))).count();
				let list: Vec<_> = list.into_iter().filter(|i| !undeliverable(w, side, &peer_wire.frames[*i].msg)).collect();
				let done = requester && hist.iter().any(|e| e.op == 'r' && matches!(e.got, Got::Msg(_)));
				// The requester side of a request whose response exists never waits; an own response ends the responder side.
				let responded = !requester && st.sends.iter().enumerate().any(|(n, s)| s.typ == RESPONSE && s.req == wt.req && a.frames_of.contains_key(&n));
				if done {
					v.push(("stuck_after_response", vec!["C04", "C16"], format!("{who} after its response was received")));
				} else if responded {
					v.push(("stuck_after_response", vec!["C04", "C16"], format!("{who} although the response was already sent")));
				} else if !taint && consumed < list.len() && request_open(w, &a, &st, wt.req.unwrap()) {
					let mut p = vec!["C16", "C03"];
					if hist.iter().any(|e| e.got == Got::Cancelled) {
						p.push("C15");
					}
					if hist.iter().any(|e| matches!(e.got, Got::Unexpected | Got::None)) {
						p.push("C20");
					}
					let _ = op;
					v.push(("undelivered", p, format!("{who} although {} messages for it are on the wire and only {consumed} were delivered", list.len())));
				}
			},
		}
	}
	drop(st);
	for (r, p, d) in v {
		w.violation(r, &p, format!("[phase {phase}] {d}"));
	}
}

/// Indices of the frames addressed to the `side` end of request number `req`, in wire order.
fn request_frames(a: &Attr, sends: &[Send], req: usize, side: usize) -> Vec<usize> {
	a.from[1 - side]
		.iter()
		.enumerate()
		.filter(|(_, n)| n.is_some_and(|n| sends[n].req == Some(req) && sends[n].typ != REQUEST))
		.map(|(i, _)| i)
		.collect()
}

/// Whether the receiving end of a request can rely on getting its messages: the request was sent normally
/// and the responder side was not closed by its own response before.
fn request_open<B: Sys>(_w: &World<B>, a: &Attr, st: &St<B>, req: usize) -> bool {
	let r = &st.reqs[&req];
	a.frames_of.get(&r.send).is_some_and(|f| f.len() == 1)
}

// ------------------------------------------------------------------ checks

fn describe(s: &Send, n: usize) -> String {
	let t = ["request", "response", "requester update", "responder update", "stream message"][s.typ as usize];
	format!("{t} #{n} by {} (service {}, {} bytes{}{})", s.actor, s.svc, s.len, if s.inodes.is_empty() { String::new() } else { format!(", {} fds", s.inodes.len()) }, s.req.map(|r| format!(", request {r}")).unwrap_or_default())
}

fn check<B: Sys>(w: &Rc<World<B>>, report: &exec::Report) {
	if report.step_limit {
		return;
	}
	let a = attribute(w);
	let info = [net::sock_info(w.sock[0]), net::sock_info(w.sock[1])];
	let st = w.st.borrow();
	let case = &w.case;
	let mut out: Vec<Violation> = Vec::new();
	let mut bad = |rule: &'static str, props: &[&'static str], detail: String| out.push(Violation { rule, props: props.to_vec(), detail });
	let wireprop: &[&'static str] = if w.seq { &["C02", "C14"] } else { &["C01", "C02"] };
	let any_cancel = st.sends.iter().any(|s| s.res == Res::Cancelled);
	let taint = tainted(w, &a, &st);

	if st.same_peer_bad {
		bad("same_peer", &["C09"], "a cloned write handle does not report the same peer".into());
	}

	// --- the bytes on the wire
	for side in 0..2 {
		let wr = &a.wire[side];
		if let Some(c) = &wr.corrupt {
			let mut p = wireprop.to_vec();
			if any_cancel {
				p.push("C15");
			}
			bad("wire_corrupt", &p, format!("bytes written by {}: {c}", SIDES[side]));
		}
		if !wr.tail.is_empty() && wr.corrupt.is_none() {
			let excused = st.sides[side].abort_at.is_some()
				|| info[side].last_write_err.is_some()
				|| info[side].ended_at.is_some()
				|| poisoned_by_peer(w, &a, 0)
				|| poisoned_by_peer(w, &a, 1);
			if !excused {
				let mut p = wireprop.to_vec();
				if any_cancel {
					p.push("C15");
				}
				p.push("C09");
				bad("wire_partial", &p, format!("{} left an incomplete frame of {} bytes on the wire", SIDES[side], wr.tail.len()));
			}
		}
	}
	for (side, i) in &a.unknown {
		let f = &a.wire[*side].frames[*i];
		bad("wire_unknown", wireprop, format!("{} put a message on the wire that nobody sent: {:?}", SIDES[*side], f.msg));
	}
	for (n, fr) in &a.frames_of {
		let s = &st.sends[*n];
		if fr.len() > 1 {
			bad("wire_duplicate", &["C01", "C06", "C02"], format!("{} is on the wire {} times", describe(s, *n), fr.len()));
		}
		for (side, i) in fr {
			let f = &a.wire[*side].frames[*i];
			let exp_id = if s.typ == STREAM { Some(0) } else if s.typ == REQUEST { s.id } else { s.req.and_then(|r| st.reqs.get(&r)).and_then(|r| frame_id(&a, r.send)) };
			if *side != s.side || f.msg.typ != s.typ || f.msg.svc != s.svc || f.msg.body != s.body(*n) {
				bad("wire_wrong", &["C02", "C01", "C03"], format!("{} appears on the wire of {} as {:?}", describe(s, *n), SIDES[*side], f.msg));
			} else if exp_id.is_some_and(|e| e != f.msg.id) {
				bad("wire_wrong_id", &["C02", "C03", "C05"], format!("{} carries id {} on the wire, expected {}", describe(s, *n), f.msg.id, exp_id.unwrap()));
			}
			if f.msg.inodes != s.inodes {
				bad("wire_fds", &["C14"], format!("{} was sent with {} descriptors, the datagram carries {}", describe(s, *n), s.inodes.len(), f.msg.inodes.len()));
			}
			if f.first < s.start {
				bad("wire_early", &["C01"], format!("{} is on the wire before it was sent", describe(s, *n)));
			}
		}
	}

	// --- results of send operations
	for (n, s) in st.sends.iter().enumerate() {
		let frames = a.frames_of.get(&n).map(|v| v.len()).unwrap_or(0);
		let side = s.side;
		let too_large = s.len > max_write(case, side);
		let too_many = w.seq && s.inodes.len() > max_fds_write(case, side);
		let last = a.frames_of.get(&n).and_then(|v| v.first()).map(|(sd, i)| a.wire[*sd].frames[*i].last);
		if frames > 0 && too_large {
			bad("oversize_sent", &["C13"], format!("{} exceeds the write limit of {} bytes but was sent", describe(s, n), max_write(case, side)));
		}
		if frames > 0 && too_many {
			bad("too_many_fds_sent", &["C14"], format!("{} exceeds the write limit of {} descriptors but was sent", describe(s, n), max_fds_write(case, side)));
		}
		match s.res {
			Res::Ok => {
				if frames == 0 {
					let mut p = vec!["C06"];
					p.push(if w.seq { "C02" } else { "C01" });
					bad("ok_not_sent", &p, format!("{} was reported as sent but is not on the wire", describe(s, n)));
				} else if last.unwrap() > s.end {
					bad("ok_too_early", &["C06"], format!("{} was reported as sent before it was completely written", describe(s, n)));
				}
			},
			Res::Refused => {
				let werr = info[side].last_write_err.is_some();
				if frames > 0 && !werr {
					bad("refused_but_sent", &["C06", "C04"], format!("{} failed with '{}' but is on the wire", describe(s, n), s.err));
				}
				let closed = s.typ != REQUEST && s.typ != STREAM && request_closed_by(&st, &a, n);
				let no_id = s.typ == REQUEST && ids_exhausted(w, &st, &a, n);
				if !(too_large || s.len > os_max(case) || too_many || closed || no_id || werr || taint) {
					let mut p = vec!["C06"];
					if s.len + 1 >= max_write(case, side) {
						p.push("C13");
					}
					if !s.inodes.is_empty() {
						p.push("C14");
					}
					if s.typ == REQUEST {
						p.push("C05");
					}
					if matches!(s.typ, RESPONSE | QUPDATE | RUPDATE) {
						p.push("C03");
					}
					if any_cancel {
						p.push("C15");
					}
					bad("spurious_refusal", &p, format!("{} failed with '{}' for no reason", describe(s, n), s.err));
				}
			},
			Res::Aborted => {
				if info[side].closed_at.is_none() {
					bad("spurious_abort", &["C06", "C09"], format!("{} reported the connection as gone while it is up", describe(s, n)));
				}
				// One of several possible ends; that a complete frame may still be on the wire is fine.
			},
			Res::Cancelled | Res::Pending => (),
		}
		// Sent and accepted: order and close semantics.
		if s.polled != u64::MAX && s.phase == 1 && frames == 0 && matches!(s.res, Res::Aborted | Res::Cancelled | Res::Pending) {
			if let Some(c) = clean_local_end(w, &a, &st, &info, side) {
				let closed_req = s.typ != REQUEST && s.typ != STREAM && request_closed_by(&st, &a, n);
				if s.polled < c && s.len <= can_write(case, side) && !too_many && !closed_req {
					bad("queued_send_lost", if s.res == Res::Cancelled { &["C09", "C15"] } else { &["C09"] }, format!("{} was queued before the connection was closed locally but was never written", describe(s, n)));
				}
			}
		}
	}

	if taint {
		drop(st);
		w.st.borrow_mut().tainted = true;
		w.st.borrow_mut().viol.extend(out);
		return;
	}

	// --- requests: ids and conclusion
	id_checks(w, &a, &st, &mut bad);

	for (no, r) in &st.reqs {
		let resp_side = 1 - r.side;
		let frames: Vec<usize> = request_frames(&a, &st.sends, *no, r.side);
		let wr = &a.wire[resp_side];
		let responses: Vec<usize> = frames.iter().copied().filter(|i| wr.frames[*i].msg.typ == RESPONSE).collect();
		if responses.len() > 1 {
			bad("two_responses", &["C04"], format!("request {no} has {} responses on the wire", responses.len()));
		}
		if let Some(first) = responses.first() {
			for i in frames.iter().filter(|i| **i > *first) {
				if wr.frames[*i].msg.typ == RUPDATE {
					bad("update_after_response", &["C04"], format!("request {no}: {:?} is on the wire after the response", wr.frames[*i].msg));
				}
			}
		}
		// Requester updates after the response was received.
		if let Some(e) = r.q.iter().find(|e| e.op == 'r' && matches!(e.got, Got::Msg(_))) {
			for i in request_frames(&a, &st.sends, *no, resp_side) {
				let f = &a.wire[r.side].frames[i];
				if f.first > e.end {
					bad("update_after_response_received", &["C04"], format!("request {no}: requester update {:?} was written after recv_response() had returned", f.msg));
				}
			}
		}
		check_request_history(w, &a, &st, &info, *no, true, &mut bad);
		check_request_history(w, &a, &st, &info, *no, false, &mut bad);
	}

	// --- peer level delivery
	for side in 0..2 {
		check_recv(w, &a, &st, &info, side, &mut bad);
		check_lifetime(w, &a, &st, &info, side, &mut bad);
	}
	check_auto(w, &a, &st, &info, &mut bad);

	drop(st);
	w.st.borrow_mut().viol.extend(out);
}

fn frame_id(a: &Attr, send: usize) -> Option<u32> {
	let (s, i) = *a.frames_of.get(&send)?.first()?;
	Some(a.wire[s].frames[i].msg.id)
}

/// The remote refused our bytes mid-frame, so we may have been cut off.
fn poisoned_by_peer<B: Sys>(w: &World<B>, a: &Attr, side: usize) -> bool {
	poison(w, &a.wire[side], 1 - side).is_some() || poison_tail(w, &a.wire[side], 1 - side)
}

/// Is there a legitimate reason for send `n` (an update or response) to be refused because the request is closed?
fn request_closed_by<B: Sys>(st: &St<B>, a: &Attr, n: usize) -> bool {
	let s = &st.sends[n];
	// Nobody knows when an abandoned send was refused.
	let end = if matches!(s.res, Res::Cancelled | Res::Pending) { u64::MAX } else { s.end };
	let Some(req) = s.req else { return false };
	let Some(r) = st.reqs.get(&req) else { return true };
	if s.side == r.side {
		// Requester: some response to this request must have been written before we were refused.
		let auto = auto_response_for(st, a, req).is_some_and(|(_, t)| t < end);
		return auto
			|| st.sends.iter().enumerate().any(|(m, x)| {
				x.typ == RESPONSE
					&& x.req == Some(req)
					&& a.frames_of.get(&m).is_some_and(|v| v.iter().any(|(sd, i)| a.wire[*sd].frames[*i].first < end))
			});
	}
	// Responder: another response must have been written before.
	st.sends.iter().enumerate().any(|(m, x)| {
		m != n && x.typ == RESPONSE && x.req == Some(req) && a.frames_of.get(&m).is_some_and(|v| v.iter().any(|(sd, i)| a.wire[*sd].frames[*i].first < end))
	})
}

/// The automatic error response belonging to a request: (frame index, first stamp).
fn auto_response_for<B: Sys>(st: &St<B>, a: &Attr, req: usize) -> Option<(usize, u64)> {
	let r = st.reqs.get(&req)?;
	let (sd, i) = *a.frames_of.get(&r.send)?.first()?;
	let f = &a.wire[sd].frames[i];
	let other = 1 - sd;
	// The first automatic response with this id after the request frame and before the next request with this id.
	let next = a.wire[sd].frames[i + 1..].iter().find(|x| x.msg.typ == REQUEST && x.msg.id == f.msg.id).map(|x| x.first).unwrap_or(u64::MAX);
	a.wire[other]
		.frames
		.iter()
		.enumerate()
		.find(|(k, x)| a.from[other][*k].is_none() && x.msg.typ == RESPONSE && x.msg.svc == -1 && x.msg.id == f.msg.id && x.first > f.first && x.first < next)
		.map(|(k, x)| (k, x.first))
}

/// When the request stopped being open, judged from the wire: the first byte of its response.
fn concluded_at<B: Sys>(st: &St<B>, a: &Attr, req: usize) -> Option<u64> {
	let mut t = auto_response_for(st, a, req).map(|x| x.1);
	for (m, x) in st.sends.iter().enumerate() {
		if x.typ == RESPONSE && x.req == Some(req) {
			if let Some((sd, i)) = a.frames_of.get(&m).and_then(|v| v.first()) {
				let f = a.wire[*sd].frames[*i].first;
				t = Some(t.map_or(f, |t| t.min(f)));
			}
		}
	}
	t
}

fn ids_exhausted<B: Sys>(w: &World<B>, st: &St<B>, a: &Attr, n: usize) -> bool {
	let space = w.case.get("idspace") as usize;
	if space == 0 {
		return false;
	}
	let s = &st.sends[n];
	let open = st
		.sends
		.iter()
		.enumerate()
		.filter(|(m, x)| {
			*m != n
				&& x.typ == REQUEST
				&& x.side == s.side
				&& x.start < s.end
				&& x.res != Res::Refused
				&& x.req.map_or(true, |r| match st.reqs.get(&r).filter(|q| q.send == *m) {
					None => true,
					Some(_) => concluded_at(st, a, r).map_or(true, |t| t > s.start || recently(st, r, s.start)),
				})
		})
		.count();
	open >= space
}

/// The response is on the wire, but nobody has seen it arrive before `t`: the requester may still count the request as open.
fn recently<B: Sys>(st: &St<B>, req: usize, t: u64) -> bool {
	let r = &st.reqs[&req];
	!r.q.iter().any(|e| e.op == 'r' && matches!(e.got, Got::Msg(_)) && e.end < t)
}

fn id_checks<B: Sys>(_w: &World<B>, a: &Attr, st: &St<B>, bad: &mut dyn FnMut(&'static str, &[&'static str], String)) -> usize {
	let mut n = 0;
	for side in 0..2 {
		let mut open: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
		for (i, f) in a.wire[side].frames.iter().enumerate() {
			if f.msg.typ != REQUEST {
				continue;
			}
			let Some(req) = a.from[side][i].and_then(|s| st.sends[s].req) else { continue };
			if let Some((old, _)) = open.get(&f.msg.id) {
				let Some(r) = st.reqs.get(old) else { continue };
				let conc = concluded_at(st, a, *old).is_some_and(|t| t < f.first);
				// Without any handle left on the requesting side the request is abandoned, not open.
				let abandoned = r.q_live == 0 && r.q_zero.map_or(true, |t| t < f.first);
				if !conc && !abandoned {
					bad("id_reused", &["C05", "C03"], format!("request {req} uses id {} while request {old} with the same id is still open", f.msg.id));
				}
				n += 1;
			}
			open.insert(f.msg.id, (req, i));
		}
	}
	n
}

/// A requester that drops its handle gives the id back although the responder still works on the request (documented).
/// What happens when such an id is used again is outside of the properties.
fn tainted<B: Sys>(_w: &World<B>, a: &Attr, st: &St<B>) -> bool {
	for side in 0..2 {
		let mut last: BTreeMap<u32, usize> = BTreeMap::new();
		for (i, f) in a.wire[side].frames.iter().enumerate() {
			if f.msg.typ != REQUEST {
				continue;
			}
			let Some(req) = a.from[side][i].and_then(|s| st.sends[s].req) else { continue };
			if let Some(old) = last.insert(f.msg.id, req) {
				let Some(r) = st.reqs.get(&old) else { continue };
				let abandoned = r.q_live == 0 && r.q_zero.map_or(true, |t| t < f.first);
				// The messages of the old request may still be on their way, unless its requester saw the response.
				let concluded = r.q.iter().any(|e| e.op == 'r' && matches!(e.got, Got::Msg(_)) && e.end < f.first);
				if abandoned && !concluded {
					return true;
				}
			}
		}
	}
	false
}

/// Local end of `side` without any disturbance from elsewhere: the stamp of the local close / last handle drop.
fn clean_local_end<B: Sys>(w: &World<B>, a: &Attr, st: &St<B>, info: &[net::SockInfo; 2], side: usize) -> Option<u64> {
	let s = &st.sides[side];
	let o = &st.sides[1 - side];
	if s.abort_at.is_some() || o.abort_at.is_some() || o.close_at.is_some() || o.zero_at.is_some() {
		return None;
	}
	if !net::fired_rules().iter().all(|r| matches!(r.action, Action::StallRx(_) | Action::StallTx(_) | Action::Partition(_))) {
		return None;
	}
	if info[side].ended_at.is_some() || poisoned_by_peer(w, a, 0) || poisoned_by_peer(w, a, 1) {
		return None;
	}
	// An automatic error response that does not fit the limit ends the connection.
	if can_write(&w.case, side) < 64 {
		return None;
	}
	// Without a receiver, an error that cannot be reported also counts as the end of the receiving handle, ahead of what is queued.
	if s.zero_at.is_some() && a.wire[1 - side].frames.iter().any(|f| !matches!(f.msg.typ, REQUEST | STREAM)) {
		return None;
	}
	match (s.close_at, s.zero_at) {
		(Some(c), Some(z)) => Some(c.min(z)),
		(x, y) => x.or(y),
	}
}

/// Everything the other side wrote was taken in by `side`, which then saw an orderly end or is still up.
fn intake_complete<B: Sys>(w: &World<B>, a: &Attr, st: &St<B>, info: &[net::SockInfo; 2], side: usize) -> bool {
	let other = 1 - side;
	let i = &info[side];
	let s = &st.sides[side];
	if s.abort_at.is_some() || i.err_read.is_some() || i.last_write_err.is_some() {
		return false;
	}
	if poison(w, &a.wire[other], side).is_some() || poison_tail(w, &a.wire[other], side) {
		return false;
	}
	// An automatic error response that does not fit the limit ends the connection.
	if s.reader_dropped.is_some() && can_write(&w.case, side) < 64 {
		return false;
	}
	if info[other].written_read < info[other].written {
		return false;
	}
	if i.open {
		return true;
	}
	// Ended: the end must be the remote's, seen before any local reason to stop.
	let Some(t) = i.ended_at else { return false };
	i.eof_read && s.close_at.map_or(true, |c| c > i.closed_at.unwrap_or(t)) && s.zero_at.map_or(true, |c| c > i.closed_at.unwrap_or(t))
}

fn check_request_history<B: Sys>(
	w: &World<B>,
	a: &Attr,
	st: &St<B>,
	info: &[net::SockInfo; 2],
	no: usize,
	requester: bool,
	bad: &mut dyn FnMut(&'static str, &[&'static str], String),
) {
	let r = &st.reqs[&no];
	let side = if requester { r.side } else { 1 - r.side };
	let hist = if requester { &r.q } else { &r.r };
	if hist.is_empty() {
		return;
	}
	let wr = &a.wire[1 - side];
	let mut list: Vec<Msg> = request_frames(a, &st.sends, no, side).into_iter().map(|i| wr.frames[i].msg.clone()).filter(|m| !undeliverable(w, side, m)).collect();
	if requester {
		if let Some((k, _)) = auto_response_for(st, a, no) {
			if !undeliverable(w, side, &wr.frames[k].msg) {
				list.push(wr.frames[k].msg.clone());
			}
		}
		// Whatever follows a response (reported separately) cannot be delivered.
		if let Some(p) = list.iter().position(|m| m.typ == RESPONSE) {
			list.truncate(p + 1);
		}
	}
	let who = format!("request {no} ({} side {})", if requester { "requester" } else { "responder" }, SIDES[side]);
	let cancelled = hist.iter().any(|e| e.got == Got::Cancelled);
	let peeked = hist.iter().any(|e| e.got == Got::Unexpected || (e.got == Got::None));
	let mut props = vec!["C03"];
	if cancelled {
		props.push("C15");
	}
	if peeked && requester {
		props.push("C20");
	}
	let ended_ok = info[side].closed_at.is_some();
	let orderly = intake_complete(w, a, st, info, side);
	let mut lossprops = props.clone();
	if orderly && !info[side].open {
		lossprops.push("C08");
	}
	let mut pos = 0;
	let mut done = false;
	let mut over = false;
	for e in hist {
		let next = list.get(pos);
		match (&e.got, e.op) {
			(Got::Cancelled, _) => (),
			(Got::Msg(m), op) => {
				if over {
					bad("message_after_end", &lossprops, format!("{who}: received {m:?} after the end was reported"));
				}
				match next {
					Some(x) if x == m => {
						let fit = (op == 'r') == (m.typ == RESPONSE);
						if !fit {
							bad("wrong_type", &["C20", "C03"], format!("{who}: {} returned {m:?}", if op == 'r' { "recv_response" } else { "recv_update" }));
						}
						pos += 1;
						if m.typ == RESPONSE {
							done = true;
						}
					},
					_ => {
						bad("misdelivered", &lossprops, format!("{who}: received {m:?}, but the next message for it is {next:?} (position {pos} of {})", list.len()));
						return;
					},
				}
			},
			(Got::Unexpected, _) => match next {
				Some(x) if x.typ != RESPONSE => (),
				_ => bad("unexpected_unexpected", &["C20"], format!("{who}: recv_response reported an unexpected message type, but next is {next:?}")),
			},
			(Got::None, 'u') | (Got::Aborted, 'r') | (Got::Err(_), 'r') => {
				if done {
					continue;
				}
				match (requester, next) {
					(true, Some(x)) if x.typ == RESPONSE && e.got == Got::None => {
						// The response waits; the call said "no update".
						if over && orderly {
							// fine
						}
						continue;
					},
					_ => (),
				}
				// Otherwise this is the report of the end.
				let responded =
					!requester && st.sends.iter().enumerate().any(|(n, s)| s.typ == RESPONSE && s.req == Some(no) && s.start < e.end && a.frames_of.contains_key(&n));
				if !ended_ok && !responded {
					let mut p = lossprops.clone();
					p.push("C09");
					bad("spurious_end", &p, format!("{who}: the end was reported while the request is open and the connection is up"));
				}
				if let Some(x) = next {
					if orderly && !responded {
						let mut p = lossprops.clone();
						p.push("C08");
						bad("lost_before_end", &p, format!("{who}: the end was reported but {x:?} was sent before and never delivered"));
					}
				}
				if matches!(e.got, Got::Err(_)) && !requester {
					bad("wrong_end", &["C08"], format!("{who}: the end was reported as {:?}", e.got));
				}
				over = true;
			},
			_ => (),
		}
	}
	// A response that was received leaves only the end.
	let mut seen = false;
	for e in hist {
		if seen && !matches!(e.got, Got::None | Got::Aborted | Got::Err(_) | Got::Cancelled) {
			bad("message_after_response", &["C04", "C03"], format!("{who}: {:?} after the response was received", e.got));
		}
		if e.op == 'r' && matches!(e.got, Got::Msg(_)) {
			seen = true;
		}
	}
}

fn check_recv<B: Sys>(
	w: &World<B>,
	a: &Attr,
	st: &St<B>,
	info: &[net::SockInfo; 2],
	side: usize,
	bad: &mut dyn FnMut(&'static str, &[&'static str], String),
) {
	let wr = &a.wire[1 - side];
	let stop = poison(w, wr, side).unwrap_or(wr.frames.len());
	let list: Vec<&Msg> = wr.frames[..stop].iter().map(|f| &f.msg).filter(|m| matches!(m.typ, REQUEST | STREAM) && !undeliverable(w, side, m)).collect();
	let hist = &st.sides[side].recv;
	let who = format!("side {}", SIDES[side]);
	let mut props = vec![if w.seq { "C14" } else { "C01" }, "C03"];
	if st.sides[side].cancelled_recvs > 0 {
		props.push("C15");
	}
	let mut pos = 0;
	let mut over = false;
	let mut errors = 0usize;
	for e in hist {
		match &e.got {
			Got::Msg(m) => {
				if over {
					bad("message_after_end", &["C08"], format!("{who}: received {m:?} after the end of the connection was reported"));
				}
				if m.body.len() > max_read(&w.case, side) {
					bad("oversize_delivered", &["C13"], format!("{who}: received {m:?} although the read limit is {}", max_read(&w.case, side)));
				}
				match list.get(pos) {
					Some(x) if *x == m => pos += 1,
					next => {
						// Say precisely what is wrong with it.
						let mut p = props.clone();
						if let Some(x) = next {
							if x.inodes != m.inodes && x.svc == m.svc {
								p = vec!["C14"];
							} else if x.svc == m.svc && x.body.len() != m.body.len() {
								p.push("C13");
							}
						}
						if wr.frames.iter().any(|f| f.msg.svc == m.svc && undeliverable(w, side, &f.msg)) {
							p = vec!["C13", "C14"];
						}
						bad("misdelivered", &p, format!("{who}: received {m:?}, but the next message on the wire is {next:?} (position {pos} of {})", list.len()));
						return;
					},
				}
			},
			Got::Aborted => {
				if info[side].closed_at.is_none() {
					bad("spurious_end", &["C09", "C08", "C16"], format!("{who}: recv_message reported the end while the connection is up"));
				}
				if pos < list.len() && intake_complete(w, a, st, info, side) && st.sides[side].reader_dropped.map_or(true, |t| t > e.end) {
					bad("lost_before_end", &["C08"], format!("{who}: the end of the connection was reported but only {pos} of {} messages were delivered; next is {:?}", list.len(), list[pos]));
				}
				over = true;
			},
			Got::Err(t) => {
				errors += 1;
				if over {
					bad("wrong_end", &["C08"], format!("{who}: recv_message returned '{t}' after the end was reported"));
				}
			},
			_ => (),
		}
	}
	// Errors need a reason.
	let mut reasons = 0;
	for (i, f) in wr.frames.iter().enumerate() {
		let m = &f.msg;
		if undeliverable(w, side, m) {
			reasons += 1;
			continue;
		}
		if a.from[1 - side][i].is_none() {
			// An automatic response: nobody wants it if the request was abandoned.
			if st.reqs.iter().any(|(no, r)| r.side == side && (!r.q_full || r.q_full_dropped.is_some()) && auto_response_for(st, a, *no).is_some_and(|x| x.0 == i)) {
				reasons += 1;
			}
			continue;
		}
		let Some(req) = a.from[1 - side][i].and_then(|n| st.sends[n].req) else { continue };
		let Some(r) = st.reqs.get(&req) else { continue };
		match m.typ {
			// The responder side is gone (handle dropped or response sent).
			QUPDATE => {
				let resp = st.sends.iter().any(|s| s.typ == RESPONSE && s.req == Some(req));
				if resp || !r.r_full || r.r_full_dropped.is_some() || auto_response_for(st, a, req).is_some() {
					reasons += 1
				}
			},
			RUPDATE | RESPONSE => {
				if !r.q_full || r.q_full_dropped.is_some() {
					reasons += 1
				}
			},
			_ => (),
		}
	}
	if poison(w, wr, side).is_some() || poison_tail(w, wr, side) {
		reasons += 1;
	}
	if info[side].err_read.is_some() {
		reasons += 1;
	}
	if errors > reasons {
		let texts: BTreeSet<_> = hist.iter().filter_map(|e| if let Got::Err(t) = &e.got { Some(t.clone()) } else { None }).collect();
		bad("spurious_error", &["C12", "C03", "C16"], format!("{who}: recv_message reported {errors} errors but only {reasons} messages were undeliverable: {texts:?}"));
	}
}

fn check_lifetime<B: Sys>(
	w: &World<B>,
	a: &Attr,
	st: &St<B>,
	info: &[net::SockInfo; 2],
	side: usize,
	bad: &mut dyn FnMut(&'static str, &[&'static str], String),
) {
	let Some(t) = info[side].closed_at else { return };
	let s = &st.sides[side];
	let cause = [s.close_at, s.zero_at, s.abort_at, info[side].ended_at].into_iter().flatten().any(|c| c < t);
	let poisoned = poison(w, &a.wire[1 - side], side).is_some() || poison_tail(w, &a.wire[1 - side], side);
	let auto_fail = can_write(&w.case, side) < 64;
	if !cause && !poisoned && !auto_fail {
		bad("premature_close", &["C09", "C06", "C12", "C15"], format!("side {} closed the connection although it has handles, nobody closed it and the network was fine", SIDES[side]));
	}
}

/// Requests and streams for a side whose receiving handle is gone.
fn check_auto<B: Sys>(w: &World<B>, a: &Attr, st: &St<B>, info: &[net::SockInfo; 2], bad: &mut dyn FnMut(&'static str, &[&'static str], String)) {
	for side in 0..2 {
		// Automatic responses written by `side`.
		let other = 1 - side;
		let dropped = st.sides[side].reader_dropped;
		let mut owned: BTreeSet<usize> = BTreeSet::new();
		for (no, r) in &st.reqs {
			if r.side != other {
				continue;
			}
			let Some((sd, i)) = a.frames_of.get(&r.send).and_then(|v| v.first()).copied() else { continue };
			let f = &a.wire[sd].frames[i];
			let auto = auto_response_for(st, a, *no);
			if let Some((k, _)) = auto {
				owned.insert(k);
				if r.delivered {
					bad("auto_for_delivered", &["C10", "C04"], format!("request {no} was delivered to the application but also answered automatically"));
				}
				if dropped.map_or(true, |d| d > a.wire[side].frames[k].last) {
					bad("auto_without_reason", &["C10"], format!("request {no} was answered automatically although the receiving handle exists"));
				}
			}
			let must = st.sides[side].reader_gone.is_some_and(|d| f.first > d) && !undeliverable(w, side, &f.msg);
			if must && auto.is_none() && !r.delivered {
				// Only if the connection stayed up long enough: it is judged at the end of phase 1.
				let up = info[side].closed_at.map_or(true, |t| t > st.p1_end) && f.last < st.p1_end;
				let auto_fail = can_write(&w.case, side) < 64;
				if up && !auto_fail && max_read(&w.case, other) >= 64 {
					bad("no_auto_response", &["C10"], format!("request {no} arrived after the receiving handle was dropped and was never answered"));
				}
			}
		}
		for (k, f) in a.wire[side].frames.iter().enumerate() {
			if a.from[side][k].is_none() && f.msg.typ == RESPONSE && f.msg.svc == -1 && !owned.contains(&k) {
				bad("extra_auto_response", &["C10", "C04"], format!("side {} sent an error response nobody asked for: {:?}", SIDES[side], f.msg));
			}
		}
	}
}

// ------------------------------------------------------------------ evidence

fn signature<B: Sys>(w: &World<B>) -> (u64, usize) {
	let st = w.st.borrow();
	let mut h = 0u64;
	let mut delivered = 0;
	for s in &st.sends {
		h = mix(h ^ (s.typ as u64) << 8 ^ (s.side as u64) << 4 ^ s.res as u64 ^ hash_str(&s.actor));
	}
	for side in 0..2 {
		for e in &st.sides[side].recv {
			h = mix(h ^ match &e.got {
				Got::Msg(m) => {
					delivered += 1;
					m.svc as u32 as u64
				},
				Got::Cancelled => 7,
				Got::Aborted => 8,
				_ => 9,
			});
		}
	}
	for (no, r) in &st.reqs {
		for (k, hist) in [&r.q, &r.r].into_iter().enumerate() {
			for e in hist {
				h = mix(h ^ (*no as u64) << 20 ^ (k as u64) << 16 ^ e.op as u64 ^ match &e.got {
					Got::Msg(m) => {
						delivered += 1;
						(m.svc as u32 as u64) << 24
					},
					Got::None => 256,
					Got::Unexpected => 512,
					Got::Aborted => 768,
					Got::Err(_) => 1024,
					Got::Cancelled => 1280,
				});
			}
		}
	}
	(h, delivered)
}

fn stats<B: Sys>(w: &World<B>, out: &mut Outcome) {
	let st = w.st.borrow();
	let mut add = |k: &str, n: u64| *out.stats.entry(k.to_string()).or_default() += n;
	if st.tainted {
		add("abandoned_id_reused", 1);
	}
	for s in &st.sends {
		add(&format!("send.{}", ["ok", "aborted", "refused", "cancelled", "pending"][match s.res {
			Res::Ok => 0,
			Res::Aborted => 1,
			Res::Refused => 2,
			Res::Cancelled => 3,
			Res::Pending => 4,
		}]), 1);
	}
	for side in 0..2 {
		for e in &st.sides[side].recv {
			add(match e.got {
				Got::Msg(_) => "recv.message",
				Got::Cancelled => "recv.cancelled",
				Got::Aborted => "recv.end",
				_ => "recv.error",
			}, 1);
		}
	}
	for r in st.reqs.values() {
		for e in r.q.iter().chain(&r.r) {
			add(match e.got {
				Got::Msg(_) => "request.message",
				Got::None => "request.none",
				Got::Unexpected => "request.wrong_kind",
				Got::Cancelled => "request.cancelled",
				_ => "request.end",
			}, 1);
		}
	}
}

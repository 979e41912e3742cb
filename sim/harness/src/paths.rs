//! Scenario "paths": listeners that are bound to paths over and over, with
//! crashes, leftovers of earlier processes, and things that are not sockets.

use crate::case::{Case, Outcome, Violation};
use crate::duo::fizyr_sim_hook;
use crate::hub::{scratch, AssertSend, BoxFut, Net, Seq, Uds};
use crate::util::*;
use crate::world::guard;
use fizyr_rpc::*;
use simcore::choice::mix;
use simcore::{exec, net};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::os::unix::fs::{FileTypeExt, MetadataExt};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// Paths below the directory of the run.  Cases use the index.
pub const NAMES: &[&str] = &["a.sock", "sub/b.sock", "sub/../c sock", "sub/./\u{fc}d", "gone/e.sock", "a.sock/f", "long", "nul"];

trait Srv: Net {
	fn raw_bind(path: PathBuf) -> BoxFut<std::io::Result<Self::Sock>>;
	fn raw_bind_str(path: String) -> BoxFut<std::io::Result<Self::Sock>>;
	fn config(case: &Case) -> <Self::Sock as ListeningSocket>::Config;
}
impl Srv for Uds {
	fn raw_bind(path: PathBuf) -> BoxFut<std::io::Result<Self::Sock>> {
		<tokio::net::UnixListener as util::Bind<_>>::bind(path)
	}
	fn raw_bind_str(path: String) -> BoxFut<std::io::Result<Self::Sock>> {
		<tokio::net::UnixListener as util::Bind<_>>::bind(path)
	}
	fn config(case: &Case) -> StreamConfig {
		crate::world::stream_config(case, 0)
	}
}
impl Srv for Seq {
	fn raw_bind(path: PathBuf) -> BoxFut<std::io::Result<Self::Sock>> {
		<tokio_seqpacket::UnixSeqpacketListener as util::Bind<_>>::bind(path)
	}
	fn raw_bind_str(path: String) -> BoxFut<std::io::Result<Self::Sock>> {
		<tokio_seqpacket::UnixSeqpacketListener as util::Bind<_>>::bind(path)
	}
	fn config(case: &Case) -> UnixConfig {
		crate::world::unix_config(case, 0)
	}
}

/// One listener.
#[derive(Clone, Debug)]
struct Inc {
	path: usize,
	kind: i64,
	alive: bool,
	/// When it stopped being what the path leads to.
	lost: Option<u64>,
}

#[derive(Clone, Debug, Default)]
struct PathSt {
	owner: Option<usize>,
	/// Changes with everything that happens to the path.
	epoch: u64,
	/// Binds in progress, and how those that overlap ended.
	inflight: usize,
	group: usize,
	ok: usize,
	failed: Vec<String>,
}

#[derive(Default)]
struct St {
	viol: Vec<Violation>,
	incs: Vec<Inc>,
	paths: BTreeMap<usize, PathSt>,
	stats: BTreeMap<&'static str, u64>,
	sig: u64,
	reached: u64,
	/// Things that are not sockets, by path.
	others: BTreeMap<PathBuf, Entry>,
	/// Sockets of somebody else, beside the paths.
	sockets: BTreeMap<PathBuf, (u64, u64)>,
}

type W = Rc<RefCell<St>>;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Entry {
	Missing,
	Socket,
	/// Anything else, with everything that must not change about it.
	Other(String),
}

fn viol(w: &W, rule: &'static str, detail: String) {
	exec::trace(|| format!("VIOLATION {rule}: {detail}"));
	w.borrow_mut().viol.push(Violation { rule, props: vec!["C18"], detail });
}

fn stat(w: &W, k: &'static str) {
	*w.borrow_mut().stats.entry(k).or_default() += 1;
}

fn note(w: &W, what: u64) {
	let mut st = w.borrow_mut();
	st.sig = mix(st.sig ^ what);
}

/// What is at a path now, seen without following a link.
fn entry(p: &Path) -> Entry {
	let Ok(m) = std::fs::symlink_metadata(p) else { return Entry::Missing };
	let t = m.file_type();
	if t.is_socket() {
		return Entry::Socket;
	}
	let id = format!("inode {} mode {:o} owner {}:{}", m.ino(), m.mode(), m.uid(), m.gid());
	Entry::Other(if t.is_file() {
		format!("file {id} modified {}.{} contents {:?}", m.mtime(), m.mtime_nsec(), std::fs::read(p).map(|b| hash_str(&String::from_utf8_lossy(&b))))
	} else if t.is_symlink() {
		let what = std::fs::metadata(p).map(|m| (m.file_type(), m.ino()));
		format!("link {id} to {:?}, which is {what:?}", std::fs::read_link(p))
	} else if t.is_dir() {
		// The contents may include sockets that come and go.
		let mut names: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).filter(|q| entry(q) != Entry::Socket).collect();
		names.sort();
		let inner: Vec<_> = names.iter().map(|q| format!("{:?} {:?}", q.file_name(), entry(q))).collect();
		format!("directory {id} with {inner:?}")
	} else {
		format!("{t:?} {id}")
	})
}

impl Entry {
	/// The same in every replay.
	fn short(&self) -> &str {
		match self {
			Entry::Missing => "missing",
			Entry::Socket => "a socket",
			Entry::Other(t) => t.split(' ').next().unwrap(),
		}
	}
}

fn path_of(root: &Path, i: usize) -> PathBuf {
	match NAMES[i % NAMES.len()] {
		"long" => root.join("x".repeat(120)),
		"nul" => root.join("y\0z"),
		n => root.join(n),
	}
}

/// The path as the application writes it.
fn given(case: &Case, root: &Path, i: usize) -> PathBuf {
	let p = path_of(root, i);
	match case.get("rel") {
		1 => p.strip_prefix(root).unwrap().to_path_buf(),
		2 => Path::new(".").join(p.strip_prefix(root).unwrap()),
		3 => Path::new("../run").join(p.strip_prefix(root).unwrap()),
		_ => p,
	}
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	let cwd = std::env::current_dir().unwrap();
	let r = std::panic::catch_unwind(|| run_here(case, record, trace));
	std::env::set_current_dir(cwd).unwrap();
	r.unwrap_or_else(|e| std::panic::resume_unwind(e))
}

fn run_here(case: &Case, record: bool, trace: bool) -> Outcome {
	let fds0 = open_fds();
	exec::setup(case.exec_config(), case.source(), record, trace);
	net::configure(case.net_config());
	fizyr_sim_hook(case);
	let w: W = Rc::default();
	let outer = scratch().join("paths");
	let root = outer.join("run");
	let _ = std::fs::remove_dir_all(&outer);
	std::fs::create_dir_all(root.join("sub")).unwrap();
	std::fs::write(outer.join("precious"), "do not touch").unwrap();
	if case.get("rel") > 0 {
		std::env::set_current_dir(&root).unwrap();
	}
	let finished = Rc::new(Cell::new(false));
	let (f2, w2, c2, r2) = (finished.clone(), w.clone(), case.clone(), root.clone());
	exec::spawn("control", 0, async move {
		control(c2, w2, r2).await;
		f2.set(true);
	});
	let report = exec::run();
	let mut out = Outcome::default();
	let mut bad = false;
	for p in &report.panics {
		bad = true;
		let subject = p.location.contains("/repo/") || p.origin == exec::Origin::Subject || p.location.contains("tokio");
		let (rule, props): (_, &[&'static str]) = if subject { ("panic", ALL) } else { ("harness", &[]) };
		w.borrow_mut().viol.push(Violation { rule, props: props.to_vec(), detail: format!("panic in {}: {} at {}", p.task, p.message, p.location) });
	}
	if report.step_limit {
		w.borrow_mut().viol.push(Violation {
			rule: "no_progress",
			props: vec!["C16", "C18"],
			detail: format!("still busy after {} scheduling steps, without any progress", report.steps),
		});
	} else if !bad && !finished.get() {
		w.borrow_mut().viol.push(Violation { rule: "harness", props: vec![], detail: "the script did not finish".into() });
	}
	if std::fs::read_to_string(outer.join("precious")).ok().as_deref() != Some("do not touch") {
		viol(&w, "touched", "a file outside of the directories of the sockets was changed".into());
	}
	for (k, v) in net::stats() {
		*out.stats.entry(format!("net.{k}")).or_default() += v;
	}
	{
		let st = w.borrow();
		for (k, v) in &st.stats {
			*out.stats.entry(format!("paths.{k}")).or_default() += v;
		}
		out.sig = st.sig;
		out.trivial = st.reached == 0;
	}
	out.trace = exec::take_trace();
	out.choices = simcore::choice::take_record();
	exec::teardown();
	let _ = std::fs::remove_dir_all(&outer);
	let fds1 = open_fds();
	if fds1 > fds0 && !report.step_limit {
		w.borrow_mut().viol.push(Violation {
			rule: "fd_leak",
			props: vec!["C14"],
			detail: format!("{} file descriptors are still open after everything was dropped", fds1 - fds0),
		});
	}
	out.violations = std::mem::take(&mut w.borrow_mut().viol);
	out.report = report;
	out
}

async fn control(case: Case, w: W, root: PathBuf) {
	let mut clients = Vec::new();
	for (name, ops) in &case.actors {
		let Some(i) = name.strip_prefix('c').and_then(|x| x.parse::<u32>().ok()) else { continue };
		let (w, case, root, ops) = (w.clone(), case.clone(), root.clone(), ops.clone());
		clients.push(exec::spawn(name.clone(), 10 + i, async move {
			for op in ops {
				match op.name.as_str() {
					"wait" => exec::sleep(op.arg(0).max(1) as u64).await,
					"reach" => reach(&case, &w, &root, op.arg(0) as usize, op.arg(1), op.arg(2).clamp(1, 5) as u64).await,
					_ => panic!("harness: unknown operation {}", op.name),
				}
			}
		}));
	}
	for op in case.actors.get("d").cloned().unwrap_or_default() {
		match op.name.as_str() {
			"wait" => exec::sleep(op.arg(0).max(1) as u64).await,
			"rest" => exec::idle().await,
			// path, kind, api, how often to give way before polling, when to give up
			"bind" | "bindbg" => {
				let t = start_bind(&case, &w, &root, &op);
				if op.name == "bind" {
					exec::join(t.0).await;
				} else {
					exec::yield_now().await;
				}
			},
			"crash" => {
				let k = w.borrow().incs.iter().rposition(|i| i.alive && i.path == op.arg(0) as usize % NAMES.len());
				let Some(k) = k else { continue };
				stop(&w, k);
				exec::kill_node(100 + k as u32);
			},
			"killclient" => {
				if !clients.is_empty() {
					exec::abort_task(clients[op.arg(0) as usize % clients.len()]);
				}
			},
			"put" => put(&w, &root, op.arg(0) as usize, op.arg(1)),
			"beside" => beside(&w, &root, op.arg(0) as usize, op.arg(1) as usize, op.arg(2)),
			_ => panic!("harness: unknown operation {}", op.name),
		}
		bystanders(&w);
	}
	exec::idle().await;
	for c in &clients {
		if !exec::task_done(*c) {
			viol(&w, "client_not_served", "a client waits forever for a listener".into());
			exec::abort_task(*c);
		}
	}
	// Whatever happened: the newest listener of every path can be reached.
	let owners: Vec<(usize, i64)> = {
		let st = w.borrow();
		st.paths.iter().filter_map(|(p, s)| s.owner.map(|o| (*p, st.incs[o].kind))).collect()
	};
	for (p, kind) in owners {
		reach(&case, &w, &root, p, kind, 1).await;
	}
	bystanders(&w);
	let n = w.borrow().incs.len();
	for k in 0..n {
		stop(&w, k);
		exec::kill_node(100 + k as u32);
	}
	exec::idle().await;
}

/// Nothing else may have changed.
fn bystanders(w: &W) {
	let others = w.borrow().others.clone();
	for (p, e) in others {
		let now = entry(&p);
		if now != e {
			viol(w, "touched", format!("{:?} was {} and has become {}, changed", p.file_name(), e.short(), now.short()));
			w.borrow_mut().others.remove(&p);
		}
	}
	let sockets = w.borrow().sockets.clone();
	for (p, id) in sockets {
		if socket_id(&p) != Some(id) {
			viol(w, "touched", format!("{:?} was the socket of somebody else and has become {}, changed", p.file_name(), entry(&p).short()));
			w.borrow_mut().sockets.remove(&p);
		}
	}
}

fn socket_id(p: &Path) -> Option<(u64, u64)> {
	let m = std::fs::symlink_metadata(p).ok()?;
	m.file_type().is_socket().then(|| (m.ino(), m.ctime_nsec() as u64))
}

/// A name that somebody could derive from the name of a socket, for something else.
fn neighbour(p: &Path, n: usize) -> PathBuf {
	const AFTER: &[&str] = &[".new", ".tmp", ".lock", ".old", ".bak", "~", ".sock", ".bind", ".pid", ".temp", ".0", ".1", "2", ".swp", ".stale", "-new", "_", ".part", ".socket", "-lock"];
	const BEFORE: &[&str] = &[".", ".#", "tmp-", "new-", "~", "#", "_", "old-", ".tmp-", ".new-"];
	const EXTENSION: &[&str] = &["", "tmp", "new", "lock", "old", "bak", "pid", "socket", "so", "0", "temp"];
	let name = p.file_name().unwrap().to_str().unwrap();
	let n = n % (AFTER.len() + BEFORE.len() + EXTENSION.len() + 1);
	if let Some(x) = AFTER.get(n) {
		return p.with_file_name(format!("{name}{x}"));
	}
	let n = n - AFTER.len();
	if let Some(x) = BEFORE.get(n) {
		return p.with_file_name(format!("{x}{name}"));
	}
	match EXTENSION.get(n - BEFORE.len()) {
		Some(x) => p.with_extension(x),
		None => p.with_file_name(name.to_uppercase()),
	}
}

/// Put something of somebody else beside a path.
fn beside(w: &W, root: &Path, i: usize, n: usize, what: i64) {
	let i = i % NAMES.len();
	if i >= 4 {
		return;
	}
	let p = path_of(root, i);
	let Ok(dir) = std::fs::canonicalize(p.parent().unwrap()) else { return };
	let p = neighbour(&dir.join(p.file_name().unwrap()), n);
	// Not one of the paths themselves.
	let names = ["a.sock", "b.sock", "c sock", "\u{fc}d"];
	if entry(&p) != Entry::Missing || names.iter().any(|n| p.file_name().unwrap() == *n) {
		return;
	}
	match what % 5 {
		0 => std::fs::write(&p, "").unwrap(),
		1 => std::fs::write(&p, "of somebody else").unwrap(),
		2 => std::fs::create_dir(&p).unwrap(),
		3 => std::os::unix::fs::symlink("nowhere", &p).unwrap(),
		_ => {
			drop(std::os::unix::net::UnixDatagram::bind(&p).unwrap());
			net::forget_path(&p);
		},
	}
	exec::trace(|| format!("somebody else has {:?}", p.file_name()));
	stat(w, "neighbours");
	match socket_id(&p) {
		Some(id) => {
			w.borrow_mut().sockets.insert(p, id);
		},
		None => {
			let e = entry(&p);
			w.borrow_mut().others.insert(p, e);
		},
	}
}

fn stop(w: &W, k: usize) {
	let mut st = w.borrow_mut();
	st.incs[k].alive = false;
	let p = st.incs[k].path;
	let ps = st.paths.entry(p).or_default();
	ps.epoch += 1;
	if ps.owner == Some(k) {
		ps.owner = None;
	}
}

/// Put something else at a path, the way another program would.
fn put(w: &W, root: &Path, i: usize, what: i64) {
	let i = i % NAMES.len();
	if i >= 4 {
		return;
	}
	// One of the names is below another.
	let all = if i == 0 { vec![0, 5] } else { vec![i] };
	if all.iter().any(|i| w.borrow().paths.get(i).is_some_and(|p| p.inflight > 0)) {
		return;
	}
	let p = path_of(root, i);
	// Names like "sub/../c" depend on the rest.
	let Ok(dir) = std::fs::canonicalize(p.parent().unwrap()) else { return };
	let p = dir.join(p.file_name().unwrap());
	w.borrow_mut().others.remove(&p);
	match std::fs::symlink_metadata(&p) {
		Ok(m) if m.is_dir() => std::fs::remove_dir_all(&p).unwrap(),
		Ok(_) => std::fs::remove_file(&p).unwrap(),
		Err(_) => (),
	}
	match what % 10 {
		0 => (),
		1 => std::fs::write(&p, "").unwrap(),
		2 => std::fs::write(&p, "important data").unwrap(),
		3 => std::fs::create_dir(&p).unwrap(),
		4 => {
			std::fs::create_dir(&p).unwrap();
			std::fs::write(p.join("inside"), "important").unwrap();
		},
		5 => std::os::unix::fs::symlink("does not exist", &p).unwrap(),
		6 => {
			let target = root.join(format!("target{i}"));
			std::fs::write(&target, "behind a link").unwrap();
			w.borrow_mut().others.insert(target.clone(), entry(&target));
			std::os::unix::fs::symlink(&target, &p).unwrap();
		},
		7 => std::os::unix::fs::symlink(root, &p).unwrap(),
		8 => {
			let c = std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
			assert!(unsafe { libc::mkfifo(c.as_ptr(), 0o640) } == 0);
		},
		// A socket nobody listens on, not even once; or a datagram socket.
		_ => {
			drop(std::os::unix::net::UnixDatagram::bind(&p).unwrap());
			net::forget_path(&p);
		},
	}
	let e = entry(&p);
	if let Entry::Other(text) = &e {
		// The directory of the run has changing contents.
		if what % 10 != 7 {
			exec::trace(|| format!("put {}", text.split(' ').next().unwrap()));
			w.borrow_mut().others.insert(p, e);
		}
	}
	stat(w, "puts");
	let s = exec::stamp();
	let mut st = w.borrow_mut();
	for i in all {
		let ps = st.paths.entry(i).or_default();
		ps.epoch += 1;
		if let Some(o) = ps.owner.take() {
			st.incs[o].lost = Some(s);
		}
	}
}

fn start_bind(case: &Case, w: &W, root: &Path, op: &crate::case::Op) -> (exec::TaskId, usize) {
	let p = op.arg(0) as usize % NAMES.len();
	let kind = op.arg(1) & 1;
	let k = {
		let mut st = w.borrow_mut();
		st.incs.push(Inc { path: p, kind, alive: true, lost: None });
		st.incs.len() - 1
	};
	let done = Rc::new(Cell::new(false));
	let d2 = done.clone();
	let (case, w2, root, op) = (case.clone(), w.clone(), root.to_path_buf(), op.clone());
	exec::spawn(format!("server{k}"), 100 + k as u32, async move {
		if kind == 0 {
			bind::<Uds>(case, w2, root, op, k, d2).await
		} else {
			bind::<Seq>(case, w2, root, op, k, d2).await
		}
	});
	let id = exec::spawn(format!("bound{k}"), 0, async move {
		// A crash may take the server while it binds.
		for _ in 0..400 {
			if done.get() {
				return;
			}
			exec::yield_now().await;
		}
	});
	(id, k)
}

/// Counts a bind as in progress until it is dropped.
struct Flight(W, usize, bool);
impl Flight {
	fn new(w: &W, p: usize) -> Self {
		let mut st = w.borrow_mut();
		let ps = st.paths.entry(p).or_default();
		if ps.inflight == 0 {
			(ps.group, ps.ok) = (0, 0);
			ps.failed.clear();
		}
		ps.inflight += 1;
		ps.group += 1;
		ps.epoch += 1;
		Flight(w.clone(), p, false)
	}
}
impl Drop for Flight {
	fn drop(&mut self) {
		let mut st = self.0.borrow_mut();
		let ps = st.paths.get_mut(&self.1).unwrap();
		ps.inflight -= 1;
		ps.epoch += 1;
		if !self.2 {
			// The socket of an earlier listener may be gone already, or not.
			ps.owner = None;
		}
	}
}

async fn bind<N: Srv>(case: Case, w: W, root: PathBuf, op: crate::case::Op, k: usize, done: Rc<Cell<bool>>) {
	let p = op.arg(0) as usize % NAMES.len();
	let path = path_of(&root, p);
	let written = given(&case, &root, p);
	let before = entry(&path);
	// What a link leads to decides; links to sockets are not part of this.
	let real_dir = path.parent().map(std::fs::canonicalize);
	let mut flight = Flight::new(&w, p);
	let alone = w.borrow().paths[&p].inflight == 1;
	let api = op.arg(2) % 4;
	stat(&w, match before {
		Entry::Missing => "bind_missing",
		Entry::Socket => "bind_socket",
		Entry::Other(_) => "bind_other",
	});
	exec::trace(|| format!("server {k} binds {:?} ({})", NAMES[p], before.short()));
	let text = written.to_str().map(|s| s.to_string());
	let fut: BoxFut<std::io::Result<Listener<N::Sock>>> = match (api, text) {
		(0, _) => N::bind(&case, written),
		(1, Some(s)) => {
			let f = N::raw_bind_str(s);
			let cfg = N::config(&case);
			Box::pin(async move { Ok(Listener::new(f.await?, cfg)) })
		},
		_ => {
			let f = N::raw_bind(written);
			let cfg = N::config(&case);
			Box::pin(async move { Ok(Listener::new(f.await?, cfg)) })
		},
	};
	for _ in 0..op.arg(3).clamp(0, 20) {
		exec::yield_now().await;
	}
	if op.arg(4) == 1 {
		// The process does not get further than this.
		drop(fut);
		stat(&w, "bind_given_up");
		w.borrow_mut().incs[k].alive = false;
		drop(flight);
		done.set(true);
		return;
	}
	let r = fut.await;
	let after = entry(&path);
	let name = NAMES[p];
	let reachable = matches!(real_dir, Some(Ok(ref d)) if d.is_dir()) && p < 6;
	let alone = alone && w.borrow().paths[&p].group == 1;
	note(&w, (p as u64) << 8 | (r.is_ok() as u64) << 1 | alone as u64);
	match (&r, &before) {
		(Ok(_), Entry::Other(_)) => {
			viol(&w, "took_path", format!("{name:?} was {}, and is {} now that a listener was bound there", before.short(), after.short()));
		},
		(Err(e), Entry::Other(_)) => {
			if after != before {
				viol(&w, "touched", format!("{name:?} was {} and is {}, changed, after a failed bind ({e})", before.short(), after.short()));
			}
			stat(&w, "refused");
		},
		(Ok(_), _) if !reachable => viol(&w, "harness_path", format!("bind to {name:?} worked")),
		(Ok(_), _) => {
			if after != Entry::Socket {
				viol(&w, "no_socket", format!("bind to {name:?} reports success, but the path is {}", after.short()));
			}
		},
		(Err(e), _) if reachable => {
			// Of several that bind at once, at least one must get it.
			let mut st = w.borrow_mut();
			let ps = st.paths.get_mut(&p).unwrap();
			let text = format!("server {k} ({} before): {e}", before.short());
			ps.failed.push(text.clone());
			drop(st);
			if alone {
				viol(&w, "bind_failed", format!("bind to {name:?} failed although the path was free or a socket: {text}"));
			}
		},
		(Err(_), _) => {
			if after != Entry::Missing {
				viol(&w, "touched", format!("{name:?} can not exist, and is {}", after.short()));
			}
		},
	}
	let s = exec::stamp();
	{
		let mut st = w.borrow_mut();
		if r.is_ok() {
			let old = {
				let ps = st.paths.get_mut(&p).unwrap();
				ps.ok += 1;
				ps.owner.replace(k)
			};
			if let Some(o) = old {
				st.incs[o].lost = Some(s);
			}
			for i in 0..st.incs.len() {
				if i != k && st.incs[i].path == p && st.incs[i].lost.is_none() {
					st.incs[i].lost = Some(s);
				}
			}
			st.incs[k].lost = None;
		} else {
			st.incs[k].alive = false;
		}
	}
	flight.2 = true;
	drop(flight);
	{
		let ps = w.borrow().paths[&p].clone();
		if ps.inflight == 0 && ps.ok == 0 && !ps.failed.is_empty() && !alone {
			viol(&w, "bind_failed", format!("nobody could bind to {name:?}: {:?}", ps.failed));
		}
	}
	done.set(true);
	let Ok(mut l) = r else { return };
	stat(&w, "bound");
	let w2 = w.clone();
	let end = l.run(move |peer, _info| AssertSend(answer::<N>(w2.clone(), peer, k))).await;
	viol(&w, "listener_stopped", format!("listener {k} stopped: {end:?}"));
}

async fn answer<N: Net>(w: W, mut peer: PeerHandle<N::B>, k: usize) {
	loop {
		match peer.recv_message().await {
			Ok(ReceivedMessage::Request(q, _)) => {
				stat(&w, "answers");
				let _ = q.send_response(1, N::B::make((k as u64).to_le_bytes().to_vec(), vec![])).await;
			},
			Ok(ReceivedMessage::Stream(_)) => (),
			Err(_) => return,
		}
	}
}

async fn reach(case: &Case, w: &W, root: &Path, p: usize, kind: i64, calls: u64) {
	let p = p % NAMES.len();
	if kind & 1 == 0 {
		reach_kind::<Uds>(case, w, given(case, root, p), p, 0, calls).await
	} else {
		reach_kind::<Seq>(case, w, given(case, root, p), p, 1, calls).await
	}
}

async fn reach_kind<N: Net>(case: &Case, w: &W, path: PathBuf, p: usize, kind: i64, calls: u64) {
	let look = || {
		let st = w.borrow();
		let ps = st.paths.get(&p).cloned().unwrap_or_default();
		let owner = ps.owner.filter(|o| st.incs[*o].kind == kind && st.incs[*o].alive);
		(ps.epoch, ps.inflight, owner, exec::stamp())
	};
	let t0 = look();
	let con = N::connect(case, path).await;
	let t1 = look();
	// Nothing happened to the path in the meantime.
	let still = t0.0 == t1.0 && t0.1 == 0 && t1.1 == 0;
	let owner = t0.2.filter(|_| still);
	let h = match con {
		Ok((h, _)) => h,
		Err(e) => {
			stat(w, "connect_refused");
			if let Some(o) = owner {
				viol(w, "unreachable", format!("listener {o} is bound to {:?}, but a client can not connect: {e}", NAMES[p]));
			}
			return;
		},
	};
	for _ in 0..calls {
		let r = async {
			let mut q = h.send_request(1, N::B::make(vec![], vec![])).await.map_err(|e| e.to_string())?;
			let m = q.recv_response().await.map_err(|e| e.to_string())?;
			Ok::<u64, String>(u64::from_le_bytes(m.body.bytes().try_into().map_err(|_| "a strange answer".to_string())?))
		};
		// Requests must not hang either; the script notices.
		match guard(r, 0, || ()).await.unwrap() {
			Ok(k) => {
				let k = k as usize;
				let mut st = w.borrow_mut();
				st.reached += 1;
				st.sig = mix(st.sig ^ k as u64);
				let ok = match owner {
					Some(o) => o == k,
					None => st.incs[k].path == p && st.incs[k].kind == kind && st.incs[k].lost.map_or(true, |l| l > t0.3),
				};
				drop(st);
				if !ok {
					viol(w, "wrong_listener", format!("a client of {:?} reached listener {k}, expected {owner:?}", NAMES[p]));
					return;
				}
			},
			Err(e) => {
				stat(w, "calls_lost");
				if let Some(o) = owner {
					if w.borrow().incs[o].alive {
						viol(w, "call_lost", format!("listener {o} lives, but a client of {:?} failed: {e}", NAMES[p]));
					}
				}
				return;
			},
		}
	}
}

//! Live heap bytes, leaving out what the simulator itself keeps.
//!
//! The harness's global allocator reports every allocation here.  While counting
//! is on, allocations made outside the simulator's own bookkeeping are remembered
//! with their size until they are freed (by whomever).

use std::cell::Cell;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Ptr(u64);
impl Hasher for Ptr {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, _: &[u8]) {
		unreachable!()
	}
	fn write_usize(&mut self, x: usize) {
		self.0 = crate::choice::mix(x as u64);
	}
}

type Table = HashMap<usize, (usize, u64), BuildHasherDefault<Ptr>>;

thread_local! {
	static ON: Cell<bool> = const { Cell::new(false) };
	static PAUSED: Cell<u32> = const { Cell::new(0) };
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static SEQ: Cell<u64> = const { Cell::new(0) };
	// Leaked on purpose: there is nothing to run when the thread ends.
	static TABLE: Cell<*mut Table> = const { Cell::new(std::ptr::null_mut()) };
	static TRACES: Cell<*mut Vec<(u64, String)>> = const { Cell::new(std::ptr::null_mut()) };
}

pub struct Pause(());
/// What is allocated until the guard is dropped is the simulator's own.
pub fn pause() -> Pause {
	PAUSED.with(|p| p.set(p.get() + 1));
	Pause(())
}
impl Drop for Pause {
	fn drop(&mut self) {
		PAUSED.with(|p| p.set(p.get() - 1));
	}
}

/// Start counting from zero.
pub fn start() {
	let t = TABLE.with(|t| {
		if t.get().is_null() {
			t.set(Box::into_raw(Box::default()));
		}
		t.get()
	});
	// SAFETY: only this thread has the pointer, and no reference to it is alive.
	unsafe { (*t).clear() };
	TRACES.with(|t| t.set(std::ptr::null_mut()));
	LIVE.with(|l| l.set(0));
	ON.with(|o| o.set(true));
}

pub fn stop() {
	ON.with(|o| o.set(false));
}

pub fn live() -> i64 {
	LIVE.with(|l| l.get())
}

/// Remember where allocations are made from now on (slow).
pub fn debug() {
	let _p = pause();
	TRACES.with(|t| t.set(Box::into_raw(Box::default())));
}

/// Where the bytes come from that were allocated since `debug` and are still there.
pub fn report() -> Vec<(usize, usize, String)> {
	ON.with(|o| o.set(false));
	let (t, b) = (TABLE.with(|t| t.get()), TRACES.with(|t| t.get()));
	let mut out: HashMap<&str, (usize, usize)> = HashMap::new();
	let mut v = Vec::new();
	if !b.is_null() {
		// SAFETY: as above.
		let (t, b) = unsafe { (&*t, &*b) };
		let live: HashMap<u64, usize> = t.values().map(|(n, s)| (*s, *n)).collect();
		for (s, text) in b {
			if let Some(n) = live.get(s) {
				let e = out.entry(text).or_default();
				e.0 += n;
				e.1 += 1;
			}
		}
		v = out.into_iter().map(|(k, (n, c))| (n, c, k.to_string())).collect();
		v.sort_by(|a, b| b.cmp(a));
	}
	ON.with(|o| o.set(true));
	v
}

/// Called by the global allocator.
pub fn alloc(p: *mut u8, n: usize) {
	if !ON.with(|o| o.get()) || PAUSED.with(|p| p.get()) > 0 || p.is_null() {
		return;
	}
	ON.with(|o| o.set(false));
	let seq = SEQ.with(|s| {
		s.set(s.get() + 1);
		s.get()
	});
	// SAFETY: only this thread has the pointers, and counting is off while they are used.
	unsafe {
		(*TABLE.with(|t| t.get())).insert(p as usize, (n, seq));
		let b = TRACES.with(|t| t.get());
		if !b.is_null() {
			let text = std::backtrace::Backtrace::force_capture().to_string();
			let lines: Vec<&str> = text.lines().map(|l| l.trim()).filter(|l| l.starts_with("at ") && !l.contains("/rustc/") && !l.contains("/toolchains/") && !l.contains("mem.rs")).collect();
			(*b).push((seq, lines[..lines.len().min(14)].join("\n")));
		}
	}
	LIVE.with(|l| l.set(l.get() + n as i64));
	ON.with(|o| o.set(true));
}

pub fn dealloc(p: *mut u8) {
	if !ON.with(|o| o.get()) {
		return;
	}
	ON.with(|o| o.set(false));
	// SAFETY: as above.
	let old = unsafe { (*TABLE.with(|t| t.get())).remove(&(p as usize)) };
	if let Some((n, _)) = old {
		LIVE.with(|l| l.set(l.get() - n as i64));
	}
	ON.with(|o| o.set(true));
}

pub fn realloc(old: *mut u8, new: *mut u8, n: usize) {
	if !ON.with(|o| o.get()) || new.is_null() {
		return;
	}
	ON.with(|o| o.set(false));
	// SAFETY: as above.
	unsafe {
		let t = &mut *TABLE.with(|t| t.get());
		if let Some((m, s)) = t.remove(&(old as usize)) {
			t.insert(new as usize, (n, s));
			LIVE.with(|l| l.set(l.get() - m as i64 + n as i64));
		}
	}
	ON.with(|o| o.set(true));
}

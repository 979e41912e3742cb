//! Random programs for the scenarios.

use crate::case::{Case, Op};
use crate::world::{key, SIDES};
use simcore::choice::{mix, Rng};

#[derive(Clone)]
pub struct Knobs {
	pub kinds: &'static [i64],
	pub reqs: (u64, u64),
	pub streams: (u64, u64),
	pub upds: u64,
	/// Permille values.
	pub cancel: u64,
	pub clones: u64,
	pub drop_q: u64,
	pub drop_r: u64,
	pub no_response: u64,
	pub err_response: u64,
	pub drop_recv: u64,
	pub peek: u64,
	pub faults: u64,
	pub stalls: u64,
	pub midclose: u64,
	pub sizes: u64,
	pub fds: u64,
	pub whole: u64,
	pub idspace: u64,
	pub tiny: u64,
	pub slow_recv: u64,
	/// Concurrent response attempts from clones.
	pub race_resp: u64,
	/// How often a writer pauses between operations.
	pub pauses: u64,
}

pub fn knobs(profile: &str) -> Knobs {
	let base = Knobs {
		kinds: &[0, 1, 2],
		reqs: (0, 4),
		streams: (0, 6),
		upds: 4,
		cancel: 0,
		clones: 150,
		drop_q: 50,
		drop_r: 50,
		no_response: 60,
		err_response: 120,
		drop_recv: 0,
		peek: 200,
		faults: 0,
		stalls: 200,
		midclose: 0,
		sizes: 30,
		fds: 200,
		whole: 80,
		idspace: 0,
		tiny: 0,
		slow_recv: 150,
		race_resp: 100,
		pauses: 200,
	};
	match profile {
		"basic" => base,
		"stream" => Knobs { kinds: &[0, 1], ..base },
		"seq" => Knobs { kinds: &[2], fds: 600, ..base },
		"clones" => Knobs { clones: 900, race_resp: 700, reqs: (1, 4), streams: (0, 1), drop_r: 250, ..base },
		"requests" => Knobs { reqs: (2, 8), streams: (0, 2), upds: 6, peek: 350, drop_q: 20, drop_r: 20, clones: 250, race_resp: 50, sizes: 0, ..base },
		"peek" => Knobs { reqs: (1, 4), streams: (0, 1), upds: 5, peek: 950, cancel: 150, drop_q: 0, drop_r: 0, no_response: 30, sizes: 0, ..base },
		"ids" => Knobs { reqs: (3, 10), streams: (0, 1), upds: 2, idspace: 1000, drop_q: 0, drop_r: 0, no_response: 150, sizes: 0, peek: 50, whole: 0, clones: 50, ..base },
		"sizes" => Knobs { sizes: 1000, reqs: (0, 3), streams: (1, 6), ..base },
		"fds" => Knobs { kinds: &[2], fds: 1000, sizes: 60, reqs: (0, 3), streams: (1, 5), cancel: 100, faults: 150, midclose: 150, ..base },
		"cancel" => Knobs { cancel: 450, clones: 200, slow_recv: 400, reqs: (1, 4), streams: (1, 6), ..base },
		"faults" => Knobs { faults: 1000, midclose: 100, cancel: 80, ..base },
		"close" => Knobs { midclose: 900, faults: 60, slow_recv: 250, ..base },
		"life" => Knobs { midclose: 300, drop_recv: 500, clones: 500, whole: 200, reqs: (0, 3), ..base },
		"dropped" => Knobs { drop_recv: 950, idspace: 500, pauses: 600, reqs: (1, 8), streams: (0, 4), whole: 0, sizes: 0, drop_q: 20, ..base },
		"pressure" => Knobs { tiny: 800, reqs: (1, 5), streams: (4, 14), slow_recv: 500, stalls: 500, ..base },
		"mix" => Knobs {
			cancel: 120, clones: 300, drop_recv: 100, faults: 120, midclose: 200, sizes: 120, fds: 300, stalls: 300, slow_recv: 250, race_resp: 200, ..base
		},
		_ => panic!("unknown duo profile {profile}"),
	}
}

fn cancel_arg(r: &mut Rng, p: u64) -> i64 {
	if r.permille(p) {
		if r.permille(700) {
			r.range(1, 3) as i64
		} else {
			-(r.range(1, 120_000) as i64)
		}
	} else {
		0
	}
}

fn pause(r: &mut Rng) -> Op {
	if r.permille(400) {
		Op::new("yield", &[])
	} else {
		let n = *r.pick(&[500i64, 3000, 20_000, 100_000, 2_000_000]);
		Op::new("sleep", &[n])
	}
}

pub fn duo(profile: &str, seed: u64) -> Case {
	if profile == "bulk" {
		return bulk(seed);
	}
	let mut k = knobs(profile);
	let mut r = Rng::new(mix(seed ^ 0xd00d));
	if profile == "ids" && r.permille(250) {
		// Requests that are only kept open by copies of their write handles.
		(k.clones, k.drop_q, k.no_response) = (600, 300, 400);
	}
	let mut c = Case::new("duo", profile, seed);
	c.env(&mut r);
	let kind = *r.pick(k.kinds);
	c.set("kind", kind);
	let endian = *r.pick(&[0i64, 0, 1, 1, 2, 3]);
	c.set("endian", endian);
	let seq = kind == 2;
	if r.permille(k.tiny) {
		let cap = *r.pick(&[1i64, 7, 16, 17, 64]);
		c.set("cap", cap);
		let d = r.range(1, 2) as i64;
		c.set("dcap", d);
	}
	if r.permille(100) {
		let v = *r.pick(&[1i64, 40, 4096]);
		c.set("cap_A", v);
	}
	let cap = c.get("cap").min(c.get_or("cap_A", i64::MAX));

	// Limits
	let sizes = r.permille(k.sizes);
	let deflim = if seq { 4096 } else { 8192 };
	let mut lim = [deflim, deflim];
	if sizes && r.permille(750) {
		for side in 0..2 {
			let v = *r.pick(&[0i64, 1, 5, 16, 63, 64, 100, 300, 4096, 8192]);
			c.set(&key(side, "maxw"), v);
			lim[side] = v;
		}
		for side in 0..2 {
			let other = lim[1 - side];
			let v = if r.permille(600) {
				other
			} else if r.permille(500) {
				other + *r.pick(&[1i64, 10, 5000])
			} else {
				*r.pick(&[0i64, 1, 15, 63, 64, 100, 4096])
			};
			c.set(&key(side, "maxr"), v);
		}
	} else if k.sizes > 0 && r.permille(60) {
		let v = if !seq && cap >= 4096 && r.permille(120) { 3_000_000 } else { 100_000 };
		for side in 0..2 {
			c.set(&key(side, "maxw"), v);
			c.set(&key(side, "maxr"), v);
			lim[side] = v;
		}
	}
	if !seq && r.permille(80) {
		// As good as no limit.
		let v = *r.pick(&[0xffff_ffffi64, 0xffff_fff4, 0xffff_fff3, 0x8000_0000, 0x7fff_ffff]);
		let side = r.below(2) as usize;
		c.set(&key(side, "maxw"), v);
		lim[side] = 9000;
		if r.permille(700) {
			c.set(&key(1 - side, "maxr"), v);
		}
	}
	let use_fds = seq && r.permille(k.fds);
	let mut fdlim = [10i64, 10];
	if use_fds && r.permille(600) {
		for side in 0..2 {
			let v = many_fds(&mut r).unwrap_or(*r.pick(&[0i64, 1, 2, 3, 5, 10, 20]));
			c.set(&key(side, "fdw"), v);
			fdlim[side] = v;
			let o = *r.pick(&[0i64, 1, 2, 4, 10]);
			c.set(&key(1 - side, "fdr"), if r.permille(700) { v } else { o });
		}
	}
	// The operating system may have a limit of its own for datagrams.
	let mut os = 0i64;
	if seq && sizes && r.permille(350) {
		os = *r.pick(&[20i64, 64, 100, 300, 1000, 3000]);
		c.set("dmax", os + 12);
	}
	let budget = if cap <= 17 { 40u64 } else if cap <= 300 { 400 } else { 5000 };
	let len = |r: &mut Rng, side: usize| -> i64 {
		let m = lim[side] as u64;
		if os > 0 && r.permille(300) {
			return os + *r.pick(&[-1i64, 0, 1, 1, 13, 40]);
		}
		if sizes && r.permille(600) && (m <= 600 || cap >= 300) {
			let d = *r.pick(&[-1i64, 0, 0, 1, 1, 2, 200]);
			return (m as i64 + d).max(0);
		}
		let v = match r.below(10) {
			0 | 1 => 0,
			2 | 3 => r.below(5),
			4 | 5 => *r.pick(&[11u64, 12, 13, 15, 16, 17, 20]),
			6 | 7 => r.below(budget.min(100)),
			8 => r.below(budget),
			_ => {
				if m > 2_000_000 && cap >= 4096 && r.permille(60) {
					r.range((1 << 20) - 2, 2_000_000)
				} else if m >= 8192 && cap >= 4096 && r.permille(400) {
					// Sizes of buffers and pages, of the body or of the whole frame.
					let f = *r.pick(&[1u64 << 10, 1 << 11, 1 << 12, 1 << 13, 3 << 12, 1 << 14, 1 << 15, 1 << 16, 1 << 16, 1 << 20]);
					let f = if f > m || (f > 1 << 16 && !r.permille(100)) { 4096 } else { f };
					f - *r.pick(&[0u64, 0, 0, 1, 12, 16])
				} else if m >= 100_000 && cap >= 4096 {
					r.below(80_000)
				} else {
					r.below(budget)
				}
			},
		};
		v.min(m) as i64
	};
	let fd_budget = std::cell::Cell::new(MANY_FDS);
	let nfd = |r: &mut Rng, side: usize| -> i64 {
		if !use_fds || r.permille(450) {
			return 0;
		}
		let m = fdlim[side];
		if m > 20 {
			return spend_fds(&fd_budget, r, m);
		}
		let v = match r.below(6) {
			0 => m,
			1 => m + 1,
			2 => m + 3,
			_ => r.below(m as u64 + 1) as i64,
		};
		v.min(40)
	};

	// Id space
	let mut reqs = k.reqs;
	if k.idspace > 0 && r.permille(k.idspace) {
		let s = *r.pick(&[1i64, 2, 3, 4, 6]);
		c.set("idspace", s);
		let b = r.range(0, s as u64) as i64;
		c.set("idbelow", b);
	} else if k.idspace == 0 && r.permille(100) {
		c.set("idspace", 40);
		let b = r.range(0, 40) as i64;
		c.set("idbelow", b);
	}
	if profile == "ids" && r.permille(150) {
		reqs = (10, 30);
	}

	if r.permille(250) {
		c.set("spawn", 1);
	}
	let e = r.below(4) as i64;
	c.set("endmode", e);
	let es = r.below(2) as i64;
	c.set("endside", es);

	// Programs
	let mut no = 0;
	for side in 0..2 {
		let s = SIDES[side];
		let whole = r.permille(k.whole);
		let many = if r.permille(k.clones) { 4 } else { 1 };
		let nwriters = if whole { 1 } else { 1 + r.below(many) as usize };
		let nreq = r.range(reqs.0, reqs.1);
		let nstream = r.range(k.streams.0, k.streams.1);
		let mut ops: Vec<Op> = Vec::new();
		for _ in 0..nreq {
			let l = len(&mut r, side);
			let f = nfd(&mut r, side);
			let ca = cancel_arg(&mut r, if k.idspace > 0 { 0 } else { k.cancel });
			ops.push(Op::new("req", &[no, l, f, ca]));
			request(&mut c, &mut r, &k, no as usize, side, &len, &nfd);
			no += 1;
		}
		for _ in 0..nstream {
			let l = len(&mut r, side);
			let f = nfd(&mut r, side);
			let ca = cancel_arg(&mut r, k.cancel);
			ops.push(Op::new("stream", &[l, f, ca]));
		}
		r.shuffle(&mut ops);
		let mut names: Vec<String> = (0..nwriters).map(|i| format!("{s}.w{i}")).collect();
		if whole {
			names = vec![format!("{s}.all")];
		}
		for n in &names {
			c.actors.entry(n.clone()).or_default();
		}
		for op in ops {
			let n = r.pick(&names).clone();
			let v = c.actors.get_mut(&n).unwrap();
			if r.permille(k.pauses) {
				v.push(pause(&mut r));
			}
			if r.permille(40) && !whole {
				v.push(Op::new("reclone", &[]));
			}
			v.push(op);
			if whole && r.permille(400) {
				let ca = cancel_arg(&mut r, 700);
				if ca != 0 {
					v.push(Op::new("recv", &[ca]));
				}
			}
		}
		if whole {
			let n = names[0].clone();
			if !r.permille(k.midclose / 2) {
				c.op(&n, "recvall", &[]);
			} else {
				c.op(&n, *r.pick(&["close", "drop", "closeh"]), &[]);
			}
		} else {
			let n = format!("{s}.recv");
			c.actors.entry(n.clone()).or_default();
			for _ in 0..r.below(4) {
				if r.permille(k.slow_recv) {
					let p = pause(&mut r);
					c.actors.get_mut(&n).unwrap().push(p);
				}
				let ca = cancel_arg(&mut r, k.cancel);
				if ca != 0 || r.permille(300) {
					c.op(&n, "recv", &[ca]);
				}
			}
			if r.permille(k.drop_recv) {
				if r.permille(500) {
					// Drop right away.
					c.actors.insert(n.clone(), Vec::new());
				}
				let p = pause(&mut r);
				c.actors.get_mut(&n).unwrap().push(p);
				c.op(&n, "drop", &[]);
			} else if r.permille(k.midclose / 4) {
				c.op(&n, *r.pick(&["close", "closeh"]), &[]);
				c.op(&n, "recvall", &[]);
			} else {
				c.op(&n, "recvall", &[]);
			}
			for n in names.clone() {
				if r.permille(k.midclose / 3) {
					let p = pause(&mut r);
					c.actors.get_mut(&n).unwrap().push(p);
					c.op(&n, *r.pick(&["close", "drop", "drop", "closeh"]), &[]);
				}
			}
		}
		if r.permille(k.midclose / 2) {
			let n = format!("{s}.c0");
			for _ in 0..r.range(1, 3) {
				let p = pause(&mut r);
				c.actors.entry(n.clone()).or_default().push(p);
			}
			if r.permille(600) {
				c.op(&n, *r.pick(&["close", "closeh"]), &[]);
			} else {
				c.op(&n, "drop", &[]);
			}
		}
	}
	// Faults
	if r.permille(k.stalls) {
		for _ in 0..r.range(1, 2) {
			let side = r.below(2) as i64;
			let name = *r.pick(&["stall_rx", "stall_tx", "partition"]);
			let t = r.below(300_000) as i64;
			let d = *r.pick(&[1000i64, 50_000, 3_000_000]);
			c.faults.push(Op::new(name, &[side, 3, t, d]));
		}
	}
	if r.permille(k.faults) {
		for _ in 0..r.range(1, 2) {
			let side = r.below(2) as i64;
			let (name, errno) = *r.pick(&[
				("read_err", 104i64),
				("read_err", 5),
				("read_err", 110),
				("write_err", 32),
				("write_err", 104),
				("write_err", if seq { 32 } else { 5 }),
				("reset", 0),
				("reset_discard", 0),
			]);
			let (trig, n) = match r.below(4) {
				0 => (0, r.range(1, 40)),
				1 => (1, if seq { r.below(8) } else { r.below(200) }),
				2 => (2, if seq { r.below(8) } else { r.below(200) }),
				_ => (3, r.below(200_000)),
			};
			c.faults.push(Op::new(name, &[side, trig, n as i64, errno]));
		}
	}
	draw_via(&mut c, &mut r);
	c
}

/// File descriptors in large messages, for a whole run.
const MANY_FDS: i64 = 300;

/// Now and then, a large limit of file descriptors; the kernel takes at most 253.
fn many_fds(r: &mut Rng) -> Option<i64> {
	if r.permille(100) {
		Some(*r.pick(&[21i64, 32, 33, 63, 64, 65, 100, 127, 128, 200, 252, 253]))
	} else {
		None
	}
}

fn spend_fds(budget: &std::cell::Cell<i64>, r: &mut Rng, m: i64) -> i64 {
	let n = (m + *r.pick(&[-1i64, 0, 0, 0, 1])).min(253);
	if n > budget.get() || r.permille(400) {
		return r.below(4) as i64;
	}
	budget.set(budget.get() - n);
	n
}

/// How the peers get their transports.
fn draw_via(c: &mut Case, r: &mut Rng) {
	for side in 0..2 {
		let v = *r.pick(&[0i64, 0, 0, 1, 1, 2, 3, 4]);
		c.set(&key(side, "via"), v);
	}
}

/// Large numbers of something.
fn bulk(seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0xb01c));
	let mut c = Case::new("duo", "bulk", seed);
	c.env(&mut r);
	// These runs are long as it is.
	c.set("cap", *r.pick(&[300i64, 4096, 65536]));
	if c.get("lat_hi") > 100_000 {
		c.set("lat_hi", 20_000);
	}
	for k in ["short_read", "short_write", "preempt"] {
		if c.get(k) > 200 {
			c.set(k, 60);
		}
	}
	let kind = r.below(3) as i64;
	c.set("kind", kind);
	c.set("endian", *r.pick(&[0i64, 1, 2, 3]));
	draw_via(&mut c, &mut r);
	if r.permille(250) {
		c.set("spawn", 1);
	}
	c.set("endmode", r.below(4) as i64);
	c.set("endside", r.below(2) as i64);
	let late = *r.pick(&[0i64, 50_000_000, 1_000_000_000]);
	let n = *r.pick(&[70u64, 130, 130, 270, 270, 530]);
	let len = |r: &mut Rng| -> i64 { r.below(12) as i64 };
	for s in SIDES {
		c.actors.insert(format!("{s}.recv"), Vec::new());
		c.actors.insert(format!("{s}.w0"), Vec::new());
	}
	let (a, b) = if r.permille(500) { (0, 1) } else { (1, 0) };
	let (sa, sb) = (SIDES[a], SIDES[b]);
	// The receiver does not look at anything before a request of its own was answered.
	let gate = |c: &mut Case, late: i64, no: i64| {
		c.op(&format!("{sb}.w0"), "sleep", &[late / 2]);
		c.op(&format!("{sb}.w0"), "req", &[no, 3]);
		c.op(&format!("req{no}.r"), "resp", &[5]);
		c.op(&format!("req{no}.q"), "rresp", &[]);
		c.op(&format!("{sb}.recv"), "after", &[no]);
	};
	let shape = r.below(5);
	let n = if shape < 3 && r.permille(120) { *r.pick(&[1100u64, 1100, 2200]) } else { n };
	match shape {
		// Stream messages that are received late.
		0 => {
			for _ in 0..n {
				let l = len(&mut r);
				c.op(&format!("{sa}.w0"), "stream", &[l]);
			}
			if r.permille(500) {
				c.op(&format!("{sb}.recv"), "sleep", &[late]);
			} else {
				gate(&mut c, late, 0);
			}
		},
		// Updates, read late, in both directions.
		1 | 2 => {
			c.op(&format!("{sa}.w0"), "req", &[0, 3]);
			if r.permille(500) {
				// Something else has to get through meanwhile.
				c.op(&format!("{sa}.w0"), "req", &[1, 3]);
				c.op("req1.q", "rresp", &[]);
				c.op("req1.r", "sleep", &[late / 2]);
				c.op("req1.r", "resp", &[5]);
			}
			let (nq, nr) = *r.pick(&[(n, 0), (0, n), (n, n / 2)]);
			for _ in 0..nq {
				let l = len(&mut r);
				c.op("req0.q", "upd", &[l]);
			}
			for _ in 0..nr {
				let l = len(&mut r);
				c.op("req0.r", "upd", &[l]);
			}
			c.op("req0.q", "sleep", &[late]);
			c.op("req0.r", "sleep", &[late]);
			for _ in 0..nq {
				c.op("req0.r", "rupd", &[]);
			}
			c.op("req0.r", "resp", &[9]);
			c.op("req0.q", "rupds", &[]);
			c.op("req0.q", "rresp", &[]);
		},
		// Requests that are open all at once.
		3 => {
			for i in 0..n.min(270) {
				c.op(&format!("{sa}.w0"), "req", &[i as i64, i as i64 % 9]);
				let (q, p) = (format!("req{i}.q"), format!("req{i}.r"));
				if r.permille(200) {
					c.op(&q, "upd", &[4]);
				}
				c.op(&q, "rupds", &[]);
				c.op(&q, "rresp", &[]);
				c.op(&p, "sleep", &[late]);
				if r.permille(200) {
					c.op(&p, "upd", &[4]);
				}
				c.op(&p, "resp", &[i as i64 % 11]);
			}
			if r.permille(300) {
				gate(&mut c, late, 1000);
			}
		},
		// Many write handles.
		_ => {
			let step = *r.pick(&[0i64, 1000, 100_000]);
			for i in 0..n.min(300) {
				let l = len(&mut r);
				c.op(&format!("{sa}.w{i}"), "sleep", &[late / 100 + step * (i as i64 % 17)]);
				if r.permille(50) {
					c.op(&format!("{sa}.w{i}"), "reclone", &[]);
				}
				c.op(&format!("{sa}.w{i}"), "stream", &[l]);
			}
			c.op(&format!("{sb}.recv"), "sleep", &[late / 2]);
			// The write handles alone keep the connection.
			if r.permille(600) {
				c.op(&format!("{sa}.recv"), "sleep", &[late / 200]);
				c.op(&format!("{sa}.recv"), "drop", &[]);
			}
		},
	}
	for s in SIDES {
		let n = format!("{s}.recv");
		if c.actors[&n].last().map_or(true, |o| o.name != "drop") {
			c.op(&n, "recvall", &[]);
		}
	}
	c
}

/// The programs of the two ends of one request.
fn request(
	c: &mut Case,
	r: &mut Rng,
	k: &Knobs,
	no: usize,
	side: usize,
	len: &dyn Fn(&mut Rng, usize) -> i64,
	nfd: &dyn Fn(&mut Rng, usize) -> i64,
) {
	let other = 1 - side;
	let q = format!("req{no}.q");
	let p = format!("req{no}.r");
	// Requester
	let mut ops = Vec::new();
	for _ in 0..r.below(k.upds + 1) {
		let (l, f) = (len(r, side), nfd(r, side));
		ops.push(Op::new("upd", &[l, f, cancel_arg(r, k.cancel)]));
	}
	let peek = r.permille(k.peek);
	for _ in 0..r.below(if peek { 6 } else { 3 }) {
		let n = if peek && r.permille(500) { "rresp" } else { "rupd" };
		ops.push(Op::new(n, &[cancel_arg(r, k.cancel)]));
	}
	if r.permille(300) {
		ops.push(pause(r));
	}
	r.shuffle(&mut ops);
	if r.permille(k.drop_q) {
		ops.push(Op::new("drop", &[]));
	} else {
		match r.below(8) {
			0 => (),
			1 => ops.push(Op::new("rresp", &[])),
			_ => {
				ops.push(Op::new("rupds", &[]));
				ops.push(Op::new("rresp", &[]));
				if r.permille(400) {
					let n = *r.pick(&["upd", "rresp", "rupd"]);
					ops.push(Op::new(n, &[1, 0, 0]));
					ops.push(Op::new(*r.pick(&["upd", "rresp", "rupd"]), &[1, 0, 0]));
				}
			},
		}
	}
	c.actors.insert(q.clone(), ops);
	// Responder
	let mut ops = Vec::new();
	for _ in 0..r.below(k.upds + 1) {
		let (l, f) = (len(r, other), nfd(r, other));
		ops.push(Op::new("upd", &[l, f, cancel_arg(r, k.cancel)]));
	}
	for _ in 0..r.below(3) {
		ops.push(Op::new("rupd", &[cancel_arg(r, k.cancel.max(300))]));
	}
	if r.permille(300) {
		ops.push(pause(r));
	}
	r.shuffle(&mut ops);
	// A receive that is not abandoned waits for the requester; only sometimes.
	for o in ops.iter_mut() {
		if o.name == "rupd" && o.arg(0) == 0 && r.permille(600) {
			o.args = vec![1];
		}
	}
	if r.permille(k.drop_r) {
		ops.push(Op::new("drop", &[]));
	} else if !r.permille(k.no_response) {
		if r.permille(k.err_response) {
			let l = len(r, other);
			ops.push(Op::new("err", &[l]));
		} else {
			let (l, f) = (len(r, other), nfd(r, other));
			ops.push(Op::new("resp", &[l, f, cancel_arg(r, k.cancel)]));
		}
		// A response may be refused (size): then a small one must still work.
		if r.permille(400) {
			ops.push(Op::new("resp", &[0]));
		}
		if r.permille(300) {
			ops.push(Op::new(*r.pick(&["upd", "resp", "rupd", "err"]), &[1, 0, 0]));
			ops.push(Op::new("rupds", &[]));
		}
	} else if r.permille(500) {
		ops.push(Op::new("rupds", &[]));
	}
	c.actors.insert(p.clone(), ops);
	// Clones
	if r.permille(k.clones) {
		for i in 1..=r.range(1, 2) {
			let mut ops = Vec::new();
			for _ in 0..r.range(1, 3) {
				let l = len(r, side);
				ops.push(Op::new("upd", &[l, 0, cancel_arg(r, k.cancel)]));
			}
			if r.permille(300) {
				ops.insert(0, pause(r));
			}
			if r.permille(300) {
				ops.push(Op::new("drop", &[]));
			}
			c.actors.insert(format!("{q}{i}"), ops);
		}
	}
	if r.permille(k.clones) || r.permille(k.race_resp) {
		for i in 1..=r.range(1, 3) {
			let mut ops = Vec::new();
			for _ in 0..r.below(3) {
				let l = len(r, other);
				ops.push(Op::new("upd", &[l, 0, cancel_arg(r, k.cancel)]));
			}
			if r.permille(400) {
				ops.push(pause(r));
			}
			if r.permille(k.race_resp) {
				let l = len(r, other);
				ops.push(if r.permille(200) { Op::new("err", &[l]) } else { Op::new("resp", &[l, 0, cancel_arg(r, k.cancel)]) });
				if r.permille(300) {
					ops.push(Op::new(*r.pick(&["upd", "resp"]), &[2]));
				}
			}
			if r.permille(300) {
				ops.push(Op::new("drop", &[]));
			}
			c.actors.insert(format!("{p}{i}"), ops);
		}
	}
}

/// Lock-step scripts for one peer against a remote driven byte by byte.
pub fn raw(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x7a77));
	let mut c = Case::new("raw", profile, seed);
	c.env(&mut r);
	let kind = match profile {
		"fds" => 2,
		"hostile" => *r.pick(&[0i64, 0, 1, 2]),
		_ => *r.pick(&[0i64, 1, 2]),
	};
	let seq = kind == 2;
	c.set("kind", kind);
	let e = *r.pick(&[0i64, 0, 1, 1, 2, 3]);
	c.set("endian", e);
	if r.permille(250) {
		c.set("spawn", 1);
	}
	let stall = profile == "stall" || (profile == "mix" && r.permille(100));
	if stall {
		c.set("stall", 1);
		let v = *r.pick(&[1i64, 16, 64, 300, 4096]);
		c.set("cap", v);
		let v = r.range(1, 3) as i64;
		c.set("dcap", v);
	}
	let mut maxr = if seq { 4096i64 } else { 8192 };
	let mut maxw = maxr;
	if profile == "limits" || r.permille(150) {
		maxr = *r.pick(&[0i64, 1, 5, 12, 63, 64, 100, 300, 4096, 8192]);
		maxw = *r.pick(&[64i64, 64, 65, 100, 300, 4096, 8192]);
		c.set("maxr_A", maxr);
		c.set("maxw_A", maxw);
	}
	let mut fdr = 10i64;
	let mut fdw = 10i64;
	let use_fds = seq && (profile == "fds" || r.permille(200));
	if use_fds && r.permille(700) {
		fdr = many_fds(&mut r).unwrap_or(*r.pick(&[0i64, 1, 2, 3, 5, 10, 20]));
		fdw = many_fds(&mut r).unwrap_or(*r.pick(&[0i64, 1, 2, 3, 5, 10, 20]));
		c.set("fdr_A", fdr);
		c.set("fdw_A", fdw);
	}
	let cap = c.get("cap");
	let budget = if cap <= 17 { 40u64 } else if cap <= 300 { 400 } else { 5000 };
	let len = |r: &mut Rng, m: i64| -> i64 {
		let near = profile == "limits" || r.permille(60);
		if near && r.permille(500) && (m <= 600 || cap >= 300) {
			let d = *r.pick(&[-1i64, 0, 0, 1, 1, 2, 17]);
			return (m + d).max(0);
		}
		let v = match r.below(8) {
			0 | 1 => 0,
			2 | 3 => r.below(5),
			4 => *r.pick(&[11u64, 12, 13, 15, 16, 17, 20]),
			5 | 6 => r.below(budget.min(100)),
			_ => r.below(budget),
		};
		(v as i64).min(m)
	};
	// Oversize frames end a stream connection, so the remote mostly keeps to the limit.
	let rlen = |r: &mut Rng| -> i64 {
		let l = len(r, maxr);
		if l > maxr && !r.permille(if profile == "limits" || profile == "hostile" { 500 } else { 30 }) {
			maxr
		} else {
			l
		}
	};
	let fd_budget = std::cell::Cell::new(MANY_FDS);
	let nfd = |r: &mut Rng, m: i64| -> i64 {
		if !use_fds || r.permille(400) {
			return 0;
		}
		if m > 20 {
			return spend_fds(&fd_budget, r, m);
		}
		match r.below(6) {
			0 => m,
			1 => m + 1,
			2 => (m + 3).min(40),
			_ => r.below(m as u64 + 1) as i64,
		}
	};
	if profile == "autoerr" || r.permille(if profile == "parts" { 400 } else { 150 }) {
		let s = *r.pick(&[1i64, 2, 3, 4, 6]);
		c.set("idspace", s);
		let b = r.range(0, s as u64) as i64;
		c.set("idbelow", b);
	}
	let mode = match profile {
		"hostile" => *r.pick(&[2i64, 3, 3, 3, 0]),
		"stall" => *r.pick(&[0i64, 1, 2, 3, 4, 8]),
		_ => r.below(9) as i64,
	};
	c.set("endmode", mode);
	let v = r.below(2) as i64;
	c.set("early", v);
	let v = r.permille(200) as i64;
	c.set("rest", v);
	let v = r.below(4000) as i64;
	c.set("cut", v);
	let v = r.below(5) as i64;
	c.set("badkind", v);

	// The weights of the operations.
	let mut w: Vec<(&str, u64)> = vec![
		("recv", 10), ("req", 6), ("stream", 3), ("qupd", 4), ("rupd", 5), ("rresp", 5), ("rerr", 2),
		("qu", 5), ("qr", 5), ("ru", 5), ("qclone", 1), ("rclone", 1), ("qdrop", 1), ("qdropw", 1),
		("rdrop", 1), ("rdropw", 1), ("clonew", 1), ("sleep", 1),
		("bq", 8), ("bqu", 6), ("bres", 5), ("bru", 6), ("bstream", 4), ("flush", 12),
	];
	match profile {
		"proto" => w.extend([("dup", 4), ("stray", 6), ("late", 4)]),
		"hostile" => w.extend([("bbad", 1), ("stray", 1)]),
		"autoerr" => w.extend([("dropreader", 3), ("bq", 14), ("dup", 2), ("dropw", 1), ("clonew", 1)]),
		"peek" => w.extend([("qu", 20), ("qr", 20), ("bru", 12), ("bres", 6), ("req", 4), ("late", 1)]),
		"fds" => w.extend([("shortage", 2), ("stray", 1), ("rupd", 5), ("stream", 5), ("bstream", 6)]),
		"limits" => w.extend([("stream", 6), ("rupd", 4), ("bstream", 6), ("bq", 4)]),
		"parts" => w.extend([("rpart", 12), ("qpart", 12), ("bq", 4), ("dup", 2), ("req", 2), ("rclone", 2), ("qclone", 2), ("rdrop", 2), ("qdrop", 2)]),
		_ => w.extend([("dup", 1), ("stray", 1), ("late", 1), ("dropreader", 1), ("dropw", 1), ("shortage", 1), ("rpart", 1), ("qpart", 1)]),
	}
	let total: u64 = w.iter().map(|x| x.1).sum();
	let n = match r.below(4) {
		0 => r.range(2, 8),
		1 | 2 => r.range(8, 30),
		_ => r.range(30, 80),
	};
	let ids = *r.pick(&[1u64, 3, 3, 6]);
	// Few of the peer's own requests at a time, so that operations meet.
	let base = *r.pick(&[0i64, 0, 5, -1, i32::MAX as i64, u32::MAX as i64 - 1]);
	let mut nreq = 0i64;
	let bid = |r: &mut Rng| -> i64 { (base as u32).wrapping_add(r.below(ids) as u32) as i64 };
	let mut open: Vec<i64> = Vec::new();
	for _ in 0..n {
		let mut k = r.below(total);
		let mut name = "";
		for (a, b) in &w {
			if k < *b {
				name = a;
				break;
			}
			k -= b;
		}
		// Bias to recent requests.
		let my = |r: &mut Rng| -> i64 {
			if nreq == 0 {
				0
			} else if r.permille(700) {
				nreq - 1 - (r.below(3) as i64).min(nreq - 1)
			} else {
				r.below(nreq as u64) as i64
			}
		};
		let idx = r.below(3) as i64;
		let cl = r.permille(250) as i64;
		match name {
			"req" => {
				let (l, f) = (len(&mut r, maxw), nfd(&mut r, fdw));
				c.op("s", "req", &[nreq, l, f]);
				nreq += 1;
			},
			"stream" => {
				let (l, f) = (len(&mut r, maxw), nfd(&mut r, fdw));
				c.op("s", "stream", &[l, f]);
			},
			"qupd" => {
				let (a, l, f) = (my(&mut r), len(&mut r, maxw), nfd(&mut r, fdw));
				c.op("s", "qupd", &[a, l, f, cl]);
			},
			"rupd" | "rresp" => {
				let (l, f) = (len(&mut r, maxw), nfd(&mut r, fdw));
				c.op("s", name, &[idx, l, f, cl]);
			},
			"rerr" => {
				let l = len(&mut r, maxw);
				c.op("s", name, &[idx, l, 0, cl]);
			},
			"qu" | "qr" | "qclone" | "qdrop" | "qdropw" => {
				let a = my(&mut r);
				c.op("s", name, &[a]);
			},
			"ru" | "rclone" | "rdrop" | "rdropw" => c.op("s", name, &[idx]),
			"sleep" => {
				let d = *r.pick(&[1000i64, 100_000, 5_000_000]);
				c.op("s", name, &[d]);
			},
			"bq" => {
				let (i, l, f) = (bid(&mut r), rlen(&mut r), nfd(&mut r, fdr));
				open.push(i);
				c.op("s", name, &[i, l, f]);
			},
			"dup" => {
				let i = if open.is_empty() { bid(&mut r) } else { *r.pick(&open) };
				let (l, f) = (rlen(&mut r), nfd(&mut r, fdr));
				c.op("s", "bq", &[i, l, f]);
			},
			"bqu" | "bstream" => {
				let i = if name == "bstream" && r.permille(700) { 0 } else { bid(&mut r) };
				let (l, f) = (rlen(&mut r), nfd(&mut r, fdr));
				c.op("s", name, &[i, l, f]);
			},
			"bres" | "bru" => {
				let (i, l, f) = (my(&mut r), rlen(&mut r), nfd(&mut r, fdr));
				let err = r.permille(200) as i64;
				c.op("s", name, &[i, l, f, err]);
			},
			// Messages for requests nobody ever made.
			"stray" => {
				let n = *r.pick(&["bqu", "bres", "bru"]);
				let (l, f) = (rlen(&mut r), nfd(&mut r, fdr));
				let i = 1_000_000 + r.below(5) as i64;
				c.op("s", n, &[i, l, f, 0]);
			},
			// Only a write handle of a request is left, and the other side goes on.
			"rpart" | "qpart" => {
				let q = name == "qpart";
				let who = if q { my(&mut r) } else { idx };
				c.op("s", if q { "qclone" } else { "rclone" }, &[who]);
				c.op("s", if q { "qdrop" } else { "rdrop" }, &[who]);
				for _ in 0..r.range(1, 4) {
					let l = rlen(&mut r);
					let i = if q { my(&mut r) } else { bid(&mut r) };
					let err = r.permille(200) as i64;
					let n = match r.below(8) {
						0 if q => "bres",
						_ if q => "bru",
						0 | 1 => "bq",
						_ => "bqu",
					};
					c.op("s", n, &[i, l, 0, err]);
					if r.permille(500) {
						c.op("s", "flush", &[0]);
					}
				}
				for _ in 0..r.below(3) {
					let l = len(&mut r, maxw);
					let n = if q { "qupd" } else { *r.pick(&["rupd", "rupd", "rresp"]) };
					c.op("s", n, &[who, l, 0, 1]);
				}
			},
			// A second response, or an update after it.
			"late" => {
				let i = my(&mut r);
				let (l, f) = (rlen(&mut r), nfd(&mut r, fdr));
				c.op("s", "bres", &[i, l, f, 0]);
				let n = *r.pick(&["bres", "bru"]);
				let l = rlen(&mut r);
				c.op("s", n, &[i, l, 0, 0]);
			},
			"bbad" => {
				let (a, b, d) = (r.range(1, 4) as i64, r.below(100_000) as i64, r.below(100_000) as i64);
				c.op("s", "bbad", &[a, b, d]);
			},
			"flush" => {
				let v = match r.below(4) {
					0 | 1 => 0,
					2 => r.range(1, 20) as i64,
					_ => {
						if seq {
							r.range(1, 3) as i64
						} else {
							r.range(1, 200) as i64
						}
					},
				};
				c.op("s", "flush", &[v]);
			},
			"shortage" => {
				let v = r.below(4) as i64;
				c.op("s", "shortage", &[v]);
			},
			_ => c.op("s", name, &[]),
		}
	}
	if !c.actors.contains_key("s") {
		c.actors.insert("s".into(), Vec::new());
	}
	if r.permille(60) && profile != "stall" {
		let n = *r.pick(&["beof", "breset"]);
		c.op("s", n, &[]);
	}
	draw_via(&mut c, &mut r);
	c
}

/// A listener with good and bad clients.
pub fn hub(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x4b));
	let mut c = Case::new("hub", profile, seed);
	c.env(&mut r);
	let kind = *r.pick(&[0i64, 0, 1, 2]);
	c.set("kind", kind);
	let e = *r.pick(&[0i64, 0, 1, 1, 2, 3]);
	c.set("endian", e);
	let api = if profile == "cancel" { 2 } else { *r.pick(&[0i64, 0, 0, 0, 1, 2]) };
	c.set("api", api);
	if r.permille(400) {
		let v = *r.pick(&[1i64, 1, 2]);
		c.set("bindnew", v);
	}
	if r.permille(250) {
		let d = *r.pick(&[1000i64, 100_000, 5_000_000]);
		c.set("acceptdelay", d);
	}
	let big = profile != "crowd" && r.permille(200) && c.get("cap") >= 300;
	let mut limit = 0i64;
	if big {
		for s in 0..2 {
			c.set(&key(s, "maxr"), 20_000);
			c.set(&key(s, "maxw"), 20_000);
		}
	} else if profile == "limits" || profile != "crowd" && r.permille(150) {
		// The server's limit; clients may be allowed to send more.
		limit = *r.pick(&[64i64, 64, 300, 300, 5000]);
		if c.get("cap") < 300 {
			limit = limit.min(300);
		}
		c.set("limit", limit);
		c.set(&key(0, "maxr"), limit);
		c.set(&key(0, "maxw"), limit);
		c.set(&key(1, "maxr"), limit);
		let d = *r.pick(&[0i64, 1, 20_000]);
		c.set(&key(1, "maxw"), limit + d);
	}
	if profile == "crowd" || r.permille(400) {
		c.set("stay", 1);
	}
	if profile == "crowd" {
		return crowd(c, r);
	}
	let n = match r.below(4) {
		0 => r.range(1, 3),
		1 | 2 => r.range(2, 8),
		_ => r.range(6, 20),
	};
	let mut budget = if c.get("cap") <= 17 { 60u64 } else { 400 };
	if limit > 0 {
		budget = budget.min(limit as u64);
	}
	let pause = |r: &mut Rng| *r.pick(&[1i64, 500, 5000, 40_000, 400_000, 4_000_000]);
	for i in 0..n {
		let a = format!("c{i}");
		c.actors.insert(a.clone(), Vec::new());
		if r.permille(500) {
			let d = pause(&mut r);
			c.op(&a, "wait", &[d]);
		}
		let kind = if i == 0 { 0 } else { r.below(10) };
		match kind {
			0..=4 => {
				c.op(&a, "conn", &[]);
				for _ in 0..r.range(1, 4) {
					if r.permille(300) {
						let d = pause(&mut r);
						c.op(&a, "wait", &[d]);
					}
					let svc = *r.pick(&[1i64, 1, 1, 2, 6]);
					let l = match () {
						_ if big => r.range(9_000, 19_000) as i64,
						_ if limit > 0 && r.permille(400) => limit,
						_ => r.below(budget) as i64,
					};
					if r.permille(300) {
						let k = r.range(2, 5) as i64;
						c.op(&a, "calls", &[svc, l, k]);
					} else {
						c.op(&a, "call", &[svc, l]);
					}
				}
				if limit > 0 && r.permille(700) {
					let d = *r.pick(&[1i64, 1, 40, 900]);
					c.op(&a, "over", &[limit + d]);
				}
				match r.below(4) {
					0 => c.op(&a, "drop", &[]),
					1 => {
						let k = r.range(3, 5) as i64;
						c.op(&a, "kill", &[k]);
					},
					_ => (),
				}
			},
			5 => {
				c.op(&a, "conn", &[]);
				let k = r.range(3, 5) as i64;
				c.op(&a, "kill", &[k]);
			},
			_ => {
				c.op(&a, "rconn", &[]);
				for _ in 0..r.below(4) {
					match r.below(6) {
						0 | 1 => {
							let (x, y) = (r.range(1, 300) as i64, r.below(9999) as i64);
							c.op(&a, "garbage", &[x, y]);
						},
						2 => {
							let x = r.range(1, 30) as i64;
							c.op(&a, "flood", &[x]);
						},
						3 => {
							let d = pause(&mut r);
							c.op(&a, "wait", &[d]);
						},
						4 if profile != "calm" => {
							let x = *r.pick(&[107i64, 5, 105]);
							c.op(&a, "infoerr", &[x]);
						},
						5 if profile != "calm" && r.permille(if profile == "broken" { 800 } else { 300 }) => {
							let e = if profile == "broken" && r.permille(700) { *r.pick(&[24i64, 24, 23, 12, 105, 22, 9]) } else { 103 };
							c.op(&a, "accepterr", &[e])
						},
						_ => (),
					}
				}
				let n = *r.pick(&["eof", "rst", "rst", "rclose", "stay"]);
				if n != "stay" {
					c.op(&a, n, &[]);
				}
			},
		}
	}
	c
}

/// More clients at once than anyone would think of, all of them well-behaved.
fn crowd(mut c: Case, mut r: Rng) -> Case {
	for k in ["short_read", "short_write", "preempt"] {
		if c.get(k) > 200 {
			c.set(k, 60);
		}
	}
	if c.get("cap") < 300 {
		c.set("cap", 300);
	}
	if c.get("lat_hi") > 100_000 {
		c.set("lat_hi", 20_000);
	}
	let n = *r.pick(&[70u64, 110, 110, 140, 140, 270]);
	for i in 0..n {
		let a = format!("c{i}");
		if r.permille(300) {
			c.op(&a, "wait", &[r.range(1, 50_000) as i64]);
		}
		c.op(&a, "conn", &[]);
		c.op(&a, "call", &[1, 8]);
		if r.permille(100) {
			c.op(&a, "wait", &[5_000_000]);
			c.op(&a, "call", &[1, 8]);
		}
		match r.below(10) {
			0 => c.op(&a, "drop", &[]),
			1 => c.op(&a, "kill", &[r.range(3, 5) as i64]),
			_ => (),
		}
	}
	c
}

// ------------------------------------------------------------------ typed

pub fn typed(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x7e));
	let mut c = Case::new("typed", profile, seed);
	c.env(&mut r);
	for s in 0..2 {
		c.set(&key(s, "maxr"), 1000);
		c.set(&key(s, "maxw"), 1000);
	}
	let kind = *r.pick(&[0i64, 1, 2]);
	c.set("kind", kind);
	let e = *r.pick(&[0i64, 0, 1, 2, 3]);
	c.set("endian", e);
	let mode = r.below(3) as i64;
	c.set("mode", mode);
	if r.permille(400) {
		c.set("spawn", 1);
	}
	if r.permille(300) {
		c.set("stray", 1);
	}
	if r.permille(300) {
		c.set("keepserver", 1);
	}
	let end = r.below(4) as i64;
	c.set("endmode", end);
	let side = r.below(2) as i64;
	c.set("endside", side);
	let pc = if profile == "cancel" { *r.pick(&[100i64, 400, 700]) } else { 0 };
	c.set("cancel", pc);
	let lanes = match profile {
		"busy" => r.range(4, 12),
		_ => r.range(1, 4),
	};
	let len = match profile {
		"busy" => 2..4u64,
		_ => 1..7,
	};
	for side in 0..2 {
		if side == 1 && mode != 2 {
			break;
		}
		for l in 0..lanes {
			let a = format!("{}.c{l}", ["A", "B"][side]);
			c.actors.insert(a.clone(), Vec::new());
			for _ in 0..r.range(len.start, len.end) {
				let plan = (r.next() >> 20) as i64;
				let cancel = if pc > 0 { cancel_arg(&mut r, 300) } else { 0 };
				let name = *r.pick(&["ping", "add", "neg", "fetch", "fetch", "upload", "upload", "chat", "chat", "chat", "stream", "stream", "stream", "bad", "bad", "poison", "wait"]);
				match name {
					"wait" => {
						let d = *r.pick(&[1i64, 5000, 100_000, 3_000_000]);
						c.op(&a, "wait", &[d])
					},
					_ => c.op(&a, name, &[plan, cancel]),
				}
			}
		}
	}
	if profile == "cut" {
		let side = r.below(2) as i64;
		let (t, n) = match r.below(4) {
			0 => (0i64, r.below(60) as i64),
			1 => (1, r.below(1500) as i64),
			2 => (2, r.below(1500) as i64),
			_ => (3, r.below(5_000_000) as i64),
		};
		let (name, arg) = *r.pick(&[("reset", 0i64), ("reset_discard", 0), ("read_err", 104), ("write_err", 32), ("write_err", 104)]);
		c.faults.push(Op::new(name, &[side, t, n, arg]));
	}
	c
}

pub fn paths(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x9a7));
	let mut c = Case::new("paths", profile, seed);
	c.env(&mut r);
	let e = *r.pick(&[0i64, 0, 1, 1, 2, 3]);
	c.set("endian", e);
	let pause = |r: &mut Rng| *r.pick(&[1i64, 500, 5000, 40_000, 400_000, 4_000_000]);
	let rel = *r.pick(&[0i64, 0, 0, 1, 2, 3]);
	c.set("rel", rel);
	let np = r.range(1, 3);
	let mine: Vec<i64> = (0..np).map(|_| if r.permille(880) { r.below(4) as i64 } else { r.range(4, 7) as i64 }).collect();
	// Some users only ever use one kind of socket.
	let kinds = r.below(4);
	let kind = |r: &mut Rng| match kinds {
		0 => 0,
		1 => 1,
		_ => r.below(2) as i64,
	};
	c.actors.insert("d".into(), Vec::new());
	if r.permille(500) {
		for _ in 0..r.range(1, 12) {
			let p = *r.pick(&mine);
			let n = r.below(42) as i64;
			let what = r.below(5) as i64;
			c.op("d", "beside", &[p, n, what]);
		}
	}
	for _ in 0..r.range(2, if profile == "race" { 16 } else { 12 }) {
		let p = *r.pick(&mine);
		if r.permille(350) {
			let d = pause(&mut r);
			c.op("d", "wait", &[d]);
		}
		let k = kind(&mut r);
		match r.below(12) {
			0..=5 => {
				let bg = r.permille(if profile == "race" { 700 } else { 200 });
				let slow = if r.permille(if profile == "race" { 700 } else { 300 }) { r.below(12) as i64 } else { 0 };
				let give_up = r.permille(150) as i64;
				let api = r.below(4) as i64;
				c.op("d", if bg { "bindbg" } else { "bind" }, &[p, k, api, slow, give_up]);
			},
			6..=8 => c.op("d", "crash", &[p]),
			9 | 10 if profile != "race" => {
				let what = r.below(10) as i64;
				c.op("d", "put", &[p, what]);
			},
			9 | 10 => {
				let what = *r.pick(&[0i64, 9]);
				c.op("d", "put", &[p, what]);
			},
			_ if r.permille(500) => c.op("d", "rest", &[]),
			_ => {
				let x = r.below(9) as i64;
				c.op("d", "killclient", &[x]);
			},
		}
	}
	let p = *r.pick(&mine);
	let k = kind(&mut r);
	let api = r.below(4) as i64;
	c.op("d", "bind", &[p, k, api, 0, 0]);
	for i in 0..r.below(5) {
		let a = format!("c{i}");
		c.actors.insert(a.clone(), Vec::new());
		for _ in 0..r.range(1, 8) {
			if r.permille(700) {
				let d = pause(&mut r);
				c.op(&a, "wait", &[d]);
			}
			let p = *r.pick(&mine);
			let k = kind(&mut r);
			let n = r.range(1, 3) as i64;
			c.op(&a, "reach", &[p, k, n]);
		}
	}
	c
}

// ------------------------------------------------------------------ soak

pub fn soak(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x50a4));
	let mut c = Case::new("soak", profile, seed);
	c.env(&mut r);
	c.set("fresh", 0);
	// The same thing many times: keep single steps cheap.
	let cap = *r.pick(&[300i64, 4096, 65536, 65536]);
	c.set("cap", cap);
	let sr = *r.pick(&[0i64, 0, 0, 200]);
	c.set("short_read", sr);
	c.set("short_write", sr);
	let preempt = *r.pick(&[0i64, 0, 60, 200]);
	c.set("preempt", preempt);
	let kind = *r.pick(&[0i64, 1, 2]);
	c.set("kind", kind);
	let e = *r.pick(&[0i64, 1, 2, 3]);
	c.set("endian", e);
	for s in 0..2 {
		c.set(&key(s, "maxr"), 6500);
		c.set(&key(s, "maxw"), 3000);
		c.set(&key(s, "fdr"), 10);
		c.set(&key(s, "fdw"), 10);
	}
	let len = |r: &mut Rng| if r.permille(100) { r.range(500, 2000) as i64 } else { r.below(40) as i64 };
	// Few kinds of rounds per run, so that a leak in one of them is most of what happens.
	let kinds = *r.pick(&[1u64, 1, 2, 3, 6]);
	let rounds = *r.pick(&[120i64, 200, 300]);
	c.set("rounds", rounds);
	let held = *r.pick(&[0i64, 1, 1, 3]);
	c.set("held", held);
	let deadline = |r: &mut Rng| *r.pick(&[1i64, 1000, 30_000, 400_000]);
	match profile {
		"serve" => {
			let api = *r.pick(&[0i64, 0, 1, 2]);
			c.set("api", api);
			let n = r.range(1, 3);
			c.set("rounds", rounds / 2 / n as i64);
			for i in 0..n {
				let a = format!("c{i}");
				for _ in 0..kinds {
					let l = len(&mut r);
					match r.below(10) {
						0..=3 => {
							let k = r.below(4) as i64;
							c.op(&a, "visit", &[l, k, r.below(2) as i64]);
						},
						4 | 5 => c.op(&a, "rude", &[l, r.below(2) as i64, r.below(2) as i64]),
						6 => c.op(&a, "cancel", &[r.range(1, 4) as i64]),
						7 | 8 => {
							let d = deadline(&mut r) + r.below(3) as i64;
							c.op(&a, "raw", &[l, r.below(1000) as i64, d]);
						},
						_ => c.op(&a, "infoerr", &[]),
					}
				}
			}
		},
		"strays" => {
			if r.permille(300) {
				c.set("deaf_A", 1);
			}
			if r.permille(600) {
				talker(&mut c, &mut r, "A0", kinds, &len, &deadline);
			}
			for i in 0..r.range(1, 2) {
				let a = format!("B{i}");
				for _ in 0..kinds {
					let l = len(&mut r).min(300);
					match r.below(8) {
						0 | 1 => c.op(&a, "ask", &[l, r.below(7) as i64]),
						2 => c.op(&a, "askupd", &[l]),
						3 => c.op(&a, "twice", &[l]),
						4 => c.op(&a, *r.pick(&["strayq", "strayr", "strayresp"]), &[l]),
						5 => c.op(&a, "stream", &[l]),
						6 => c.op(&a, "late", &[l]),
						_ => c.op(&a, *r.pick(&["strayresp", "ask"]), &[l, 1]),
					}
				}
			}
		},
		_ => {
			if r.permille(300) {
				// Ids come round again and again.
				let space = 1000;
				c.set("idspace", space);
				c.set("idbelow", space / 2);
			}
			if r.permille(300) {
				c.set("recvcancel", 1);
			}
			for s in SIDES {
				let n = if s == "A" { r.range(1, 2) } else { r.below(3) };
				for i in 0..n {
					talker(&mut c, &mut r, &format!("{s}{i}"), kinds, &len, &deadline);
				}
			}
		},
	}
	c
}

fn talker(c: &mut Case, r: &mut Rng, a: &str, kinds: u64, len: &dyn Fn(&mut Rng) -> i64, deadline: &dyn Fn(&mut Rng) -> i64) {
	let all = [
		"call", "updates", "unread", "hasty", "forget", "forget", "refused", "tell", "tellall", "late", "writer", "split", "bigger", "big", "stream", "clone",
		"cancel", "cancel", "fds",
	];
	for _ in 0..kinds {
		let n = *r.pick(&all);
		let l = len(r);
		match n {
			"unread" => {
				let d = deadline(r);
				c.op(a, n, &[l, d])
			},
			_ => c.op(a, n, &[l, r.below(18) as i64, r.below(2) as i64]),
		}
	}
}

pub fn wire(profile: &str, seed: u64) -> Case {
	let mut r = Rng::new(mix(seed ^ 0x31e));
	let mut c = Case::new("wire", profile, seed);
	c.env(&mut r);
	let kind = *r.pick(&[0i64, 1, 2]);
	c.set("kind", kind);
	let e = *r.pick(&[0i64, 0, 1, 2, 3]);
	c.set("endian", e);
	let seq = kind == 2;
	let mut fd_budget = MANY_FDS;
	let limits = profile == "limits" || r.permille(250);
	for s in 0..2 {
		let via = *r.pick(&[0i64, 0, 1, 2, 3, 5]);
		c.set(&key(s, "via"), via);
		if r.permille(250) {
			c.set(&key(s, "one"), 1);
		}
		if limits {
			let m = *r.pick(&[0i64, 1, 5, 40, 300, 1000]);
			c.set(&key(s, "maxr"), m);
			let m = *r.pick(&[0i64, 1, 5, 40, 300, 1000, 2000]);
			c.set(&key(s, "maxw"), m);
			if seq {
				let m = many_fds(&mut r).unwrap_or(*r.pick(&[0i64, 1, 2, 3, 5]));
				c.set(&key(s, "fdr"), m);
				let m = many_fds(&mut r).unwrap_or(*r.pick(&[0i64, 1, 2, 3, 5, 9]));
				c.set(&key(s, "fdw"), m);
			}
		}
		if r.permille(150) {
			let cap = if seq { r.range(1, 3) as i64 } else { *r.pick(&[1i64, 15, 16, 17, 50]) };
			c.set(&key(s, "cap"), cap);
		}
	}
	let mut os = 0i64;
	if seq && r.permille(200) {
		os = *r.pick(&[20i64, 100, 500]);
		c.set("dmax", os + 12);
	}
	let phases = *r.pick(&[1i64, 1, 2, 3]);
	c.set("phases", phases);
	let end = r.below(2) as i64;
	c.set("endmode", end);
	let pc = match profile {
		"write" => *r.pick(&[200u64, 500, 900]),
		"read" => 0,
		_ => *r.pick(&[0u64, 0, 200, 500]),
	};
	let pr = match profile {
		"read" => *r.pick(&[300u64, 700, 1000]),
		_ => *r.pick(&[0u64, 0, 300, 700]),
	};
	for phase in 1..=phases {
		for s in 0..2usize {
			let a = format!("{}.w{phase}", SIDES[s]);
			c.actors.insert(a.clone(), Vec::new());
			let n = r.below(9);
			for i in 0..n {
				if r.permille(150) {
					let d = *r.pick(&[1i64, 5000, 100_000, 3_000_000]);
					c.op(&a, "wait", &[d]);
				}
				let maxw = c.get_or(&key(s, "maxw"), if seq { 4096 } else { 8192 });
				let maxr = c.get_or(&key(1 - s, "maxr"), if seq { 4096 } else { 8192 });
				let mut len = match r.below(10) {
					0 => 0,
					1 | 2 => r.range(1, 20) as i64,
					3 | 4 => r.range(1, 300) as i64,
					5 => r.range(300, 5000) as i64,
					_ => r.range(0, 60) as i64,
				};
				if r.permille(40) {
					len = *r.pick(&[maxw, maxw + 1, (maxw - 1).max(0), maxr]);
				}
				if limits {
					len = match r.below(12) {
						0..=5 => len.min(maxw).min(maxr),
						6 => maxw,
						7 => maxw + 1,
						8 => maxw.min(maxr),
						9 if seq || i + 1 == n => maxr + 1,
						_ => (maxr - r.below(3) as i64).max(0),
					};
					// Only few messages that end a byte stream.
					if !seq && len > maxr && len <= maxw && !r.permille(150) {
						len = maxr;
					}
				}
				if os > 0 && r.permille(300) {
					len = os + *r.pick(&[-1i64, 0, 1, 1, 13]);
				}
				// Tiny buffers would take very many steps.
				if c.get("cap").min(c.get_or(&key(s, "cap"), 1 << 20)) < 20 && !seq {
					len = len.min(maxw.min(400) + 1);
				}
				let nfds = if seq && r.permille(300) {
					let fw = c.get_or(&key(s, "fdw"), 10);
					let fr = c.get_or(&key(1 - s, "fdr"), 10);
					let f = *r.pick(&[1i64, 2, 3, fw, fw + 1, fr, fr + 1, fr + 2]);
					// The process can not have any number of them open.
					if f > 20 && f > fd_budget {
						3
					} else {
						if f > 20 {
							fd_budget -= f;
						}
						f.min(253)
					}
				} else {
					0
				};
				let id = *r.pick(&[0i64, 1, 7, 255, 256, 65_536, 0x0102_0304, 0x8000_0000, 0xFFFF_FFFF]);
				let typ = r.below(5) as i64;
				let cancels = if r.permille(pc) { r.range(1, 5) as i64 } else { 0 };
				let cancel = cancel_arg(&mut r, 1000);
				let pause = *r.pick(&[0i64, 1, 1, 2000, 60_000]);
				let give_up = (i + 1 == n && phase == phases && r.permille(300)) as i64;
				c.op(&a, "send", &[typ, id, len, nfds, cancels, cancel, pause, give_up]);
			}
			let a = format!("{}.r{phase}", SIDES[s]);
			c.actors.insert(a.clone(), Vec::new());
			for _ in 0..r.below(5) {
				let cancels = if r.permille(pr) { r.range(1, 6) as i64 } else { 0 };
				let cancel = cancel_arg(&mut r, 1000);
				let pause = *r.pick(&[0i64, 1, 1, 2000, 60_000, 1_000_000]);
				c.op(&a, "take", &[cancels, cancel, pause]);
			}
			if r.permille(if phase == phases { 80 } else { 250 }) {
				c.op(&a, "stop", &[]);
			}
		}
	}
	if profile == "cut" {
		if r.permille(300) {
			let t = r.below(3_000_000) as i64;
			c.set("cut", t);
		} else {
			let side = r.below(2) as i64;
			let (t, n) = match r.below(4) {
				0 => (0i64, r.below(60) as i64),
				1 => (1, r.below(900) as i64),
				2 => (2, r.below(900) as i64),
				_ => (3, r.below(2_000_000) as i64),
			};
			let (name, arg) = *r.pick(&[("reset", 0i64), ("reset_discard", 0), ("read_err", 104), ("write_err", 32), ("write_err", 104)]);
			c.faults.push(Op::new(name, &[side, t, n, arg]));
		}
	} else if r.permille(200) {
		let side = r.below(2) as i64;
		let t = r.below(300_000) as i64;
		let d = r.range(1000, 3_000_000) as i64;
		let name = *r.pick(&["stall_rx", "stall_tx", "partition"]);
		c.faults.push(Op::new(name, &[side, 3, t, d]));
	}
	c
}

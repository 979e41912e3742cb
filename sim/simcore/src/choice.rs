use std::cell::RefCell;

/// SplitMix64 seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng {
	s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		let mut x = seed;
		let mut s = [0; 4];
		for v in &mut s {
			x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
			*v = mix(x);
		}
		Self { s }
	}
	pub fn next(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}
	/// Uniform in `0..n` (0 if n is 0).
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			return 0;
		}
		((self.next() as u128 * n as u128) >> 64) as u64
	}
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi.saturating_sub(lo) + 1)
	}
	/// True with probability p/1000.
	pub fn permille(&mut self, p: u64) -> bool {
		self.below(1000) < p
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len() as u64) as usize]
	}
	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			let j = self.below(i as u64 + 1) as usize;
			xs.swap(i, j);
		}
	}
}

/// Where the choices of a run come from.
pub enum Source {
	/// Drawn from a PRNG.
	Seed(u64),
	/// Explicit list; zero after its end.
	List(Vec<u32>),
}

struct State {
	rng: Option<Rng>,
	list: Vec<u32>,
	pos: usize,
	record: Option<Vec<u32>>,
	count: u64,
	hash: u64,
}

thread_local! {
	static STATE: RefCell<State> = const { RefCell::new(State { rng: None, list: Vec::new(), pos: 0, record: None, count: 0, hash: 0 }) };
}

pub fn install(source: Source, record: bool) {
	STATE.with(|s| {
		let mut s = s.borrow_mut();
		match source {
			Source::Seed(x) => {
				s.rng = Some(Rng::new(x));
				s.list = Vec::new();
			},
			Source::List(l) => {
				s.rng = None;
				s.list = l;
			},
		}
		s.pos = 0;
		s.count = 0;
		s.hash = 0x1234_5678;
		s.record = if record { Some(Vec::new()) } else { None };
	})
}

pub fn take_record() -> Vec<u32> {
	STATE.with(|s| s.borrow_mut().record.take().unwrap_or_default())
}

/// (number of choices made, hash over all of them)
pub fn fingerprint() -> (u64, u64) {
	STATE.with(|s| {
		let s = s.borrow();
		(s.count, s.hash)
	})
}

/// Choose a value in `0..n`.  Zero is always the most ordinary choice.
pub fn choose(n: u32) -> u32 {
	if n <= 1 {
		return 0;
	}
	let _p = crate::mem::pause();
	STATE.with(|s| {
		let mut s = s.borrow_mut();
		let v = if let Some(r) = &mut s.rng {
			r.below(n as u64) as u32
		} else {
			let p = s.pos;
			s.pos += 1;
			let v = s.list.get(p).copied().unwrap_or(0);
			v % n
		};
		s.count += 1;
		s.hash = mix(s.hash ^ ((v as u64) << 32 | n as u64));
		if let Some(r) = &mut s.record {
			r.push(v);
		}
		v
	})
}

/// True with probability p/1024.  A zero choice is always `false` unless p >= 1024.
pub fn chance(p: u32) -> bool {
	if p == 0 {
		return false;
	}
	choose(1024) >= 1024u32.saturating_sub(p)
}

/// Uniform in `lo..=hi`; zero choice gives `lo`.
pub fn range(lo: u64, hi: u64) -> u64 {
	if hi <= lo {
		return lo;
	}
	let span = (hi - lo).min(u32::MAX as u64 - 1) as u32;
	lo + choose(span + 1) as u64
}

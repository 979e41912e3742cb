//! A case is one simulated run: an explicit program plus the source of scheduling choices.

use simcore::choice::{mix, Rng, Source};
use simcore::exec::{ExecConfig, Policy};
use simcore::net::NetConfig;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
	pub name: String,
	pub args: Vec<i64>,
}

impl Op {
	pub fn new(name: &str, args: &[i64]) -> Self {
		Self { name: name.into(), args: args.to_vec() }
	}
	pub fn arg(&self, i: usize) -> i64 {
		self.args.get(i).copied().unwrap_or(0)
	}
}

#[derive(Clone, Debug, Default)]
pub struct Case {
	pub scenario: String,
	pub profile: String,
	pub cfg: BTreeMap<String, i64>,
	pub actors: BTreeMap<String, Vec<Op>>,
	pub faults: Vec<Op>,
	pub sched: u64,
	pub choices: Option<Vec<u32>>,
}

impl Case {
	pub fn new(scenario: &str, profile: &str, seed: u64) -> Self {
		Self { scenario: scenario.into(), profile: profile.into(), sched: mix(seed ^ 0x5eed), ..Default::default() }
	}
	pub fn get(&self, k: &str) -> i64 {
		self.cfg.get(k).copied().unwrap_or(0)
	}
	pub fn get_or(&self, k: &str, d: i64) -> i64 {
		self.cfg.get(k).copied().unwrap_or(d)
	}
	pub fn set(&mut self, k: &str, v: i64) {
		self.cfg.insert(k.into(), v);
	}
	pub fn op(&mut self, actor: &str, name: &str, args: &[i64]) {
		self.actors.entry(actor.into()).or_default().push(Op::new(name, args));
	}
	pub fn source(&self) -> Source {
		match &self.choices {
			Some(l) => Source::List(l.clone()),
			None => Source::Seed(self.sched),
		}
	}
	pub fn exec_config(&self) -> ExecConfig {
		ExecConfig {
			policy: match self.get("policy") {
				0 => Policy::Random,
				1 => Policy::Fifo,
				_ => Policy::Priority,
			},
			preempt: self.get("preempt") as u32,
			coop: self.get("coop") as u32,
			spurious: self.get("spurious") as u32,
			step_ns: (500, self.get_or("step", 500) as u64),
			max_steps: self.get_or("max_steps", 80_000) as u64,
		}
	}
	pub fn net_config(&self) -> NetConfig {
		NetConfig {
			stream_cap: self.get_or("cap", 65536) as usize,
			dgram_cap: self.get_or("dcap", 16) as usize,
			dgram_max: self.get_or("dmax", 200_000) as usize,
			latency: (self.get("lat_lo") as u64, self.get("lat_hi") as u64),
			short_read: self.get("short_read") as u32,
			short_write: self.get("short_write") as u32,
		}
	}

	/// Swarm-style environment configuration: every knob is drawn per run.
	pub fn env(&mut self, r: &mut Rng) {
		let policy = *r.pick(&[0i64, 0, 0, 1, 2, 2]);
		self.set("policy", policy);
		let preempt = *r.pick(&[0i64, 0, 60, 200, 400, 700]);
		self.set("preempt", preempt);
		let coop = *r.pick(&[0i64, 0, 0, 30, 200]);
		self.set("coop", coop);
		// Spurious polls can mask missing wake-ups, so most runs have none.
		let spurious = *r.pick(&[0i64, 0, 0, 0, 30, 200]);
		self.set("spurious", spurious);
		let step = *r.pick(&[500i64, 500, 2000, 50_000]);
		self.set("step", step);
		let cap = *r.pick(&[1i64, 7, 16, 17, 64, 300, 4096, 65536, 65536]);
		self.set("cap", cap);
		let dcap = *r.pick(&[1i64, 1, 2, 4, 16]);
		self.set("dcap", dcap);
		let (lo, hi) = *r.pick(&[(0i64, 0i64), (0, 0), (0, 20_000), (1000, 1000), (0, 2_000_000), (40_000, 90_000)]);
		self.set("lat_lo", lo);
		self.set("lat_hi", hi);
		let sr = *r.pick(&[0i64, 0, 200, 600, 1000]);
		self.set("short_read", sr);
		let sw = *r.pick(&[0i64, 0, 200, 600, 1000]);
		self.set("short_write", sw);
		let fresh = r.permille(250) as i64;
		self.set("fresh", fresh);
	}

	pub fn to_text(&self) -> String {
		let mut s = String::new();
		s += "fizyr-rpc-sim replay 1\n";
		s += &format!("scenario {}\nprofile {}\n", self.scenario, self.profile);
		for (k, v) in &self.cfg {
			s += &format!("cfg {k} {v}\n");
		}
		let op = |o: &Op| {
			let mut t = o.name.clone();
			for a in &o.args {
				t += &format!(" {a}");
			}
			t
		};
		for (k, ops) in &self.actors {
			s += &format!("actor {k}\n");
			for o in ops {
				s += &format!("  op {}\n", op(o));
			}
		}
		for f in &self.faults {
			s += &format!("fault {}\n", op(f));
		}
		s += &format!("sched {}\n", self.sched);
		if let Some(c) = &self.choices {
			// Run-length encoded.
			s += "choices";
			let mut i = 0;
			while i < c.len() {
				let mut j = i;
				while j < c.len() && c[j] == c[i] {
					j += 1;
				}
				if j - i > 1 {
					s += &format!(" {}x{}", c[i], j - i);
				} else {
					s += &format!(" {}", c[i]);
				}
				i = j;
			}
			s += "\n";
		}
		s
	}

	pub fn from_text(text: &str) -> Result<Case, String> {
		let mut lines = text.lines();
		if lines.next() != Some("fizyr-rpc-sim replay 1") {
			return Err("not a replay file".into());
		}
		let mut c = Case::default();
		let mut cur = String::new();
		for l in lines {
			let l = l.trim();
			if l.is_empty() || l.starts_with('#') {
				continue;
			}
			let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
			let num = |s: &str| s.parse::<i64>().map_err(|e| format!("{s}: {e}"));
			let op = |s: &str| -> Result<Op, String> {
				let mut it = s.split_whitespace();
				let name = it.next().ok_or("empty op")?.to_string();
				let args = it.map(num).collect::<Result<_, _>>()?;
				Ok(Op { name, args })
			};
			match k {
				"scenario" => c.scenario = rest.into(),
				"profile" => c.profile = rest.into(),
				"cfg" => {
					let (a, b) = rest.split_once(' ').ok_or("bad cfg")?;
					c.cfg.insert(a.into(), num(b)?);
				},
				"actor" => {
					cur = rest.into();
					c.actors.entry(cur.clone()).or_default();
				},
				"op" => c.actors.entry(cur.clone()).or_default().push(op(rest)?),
				"fault" => c.faults.push(op(rest)?),
				"sched" => c.sched = rest.parse().map_err(|e| format!("{e}"))?,
				"choices" => {
					let mut v = Vec::new();
					for t in rest.split_whitespace() {
						match t.split_once('x') {
							Some((a, n)) => {
								let a: u32 = a.parse().map_err(|e| format!("{e}"))?;
								let n: usize = n.parse().map_err(|e| format!("{e}"))?;
								v.extend(std::iter::repeat(a).take(n));
							},
							None => v.push(t.parse().map_err(|e| format!("{e}"))?),
						}
					}
					c.choices = Some(v);
				},
				"expect" => (),
				_ => return Err(format!("unknown line: {l}")),
			}
		}
		Ok(c)
	}
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
	/// Short stable name of the rule that was broken.
	pub rule: &'static str,
	/// The properties this contradicts.
	pub props: Vec<&'static str>,
	pub detail: String,
}

#[derive(Default)]
pub struct Outcome {
	pub violations: Vec<Violation>,
	pub report: simcore::exec::Report,
	/// Counters for the evidence file.
	pub stats: BTreeMap<String, u64>,
	/// Abstract signature of what happened (for counting distinct histories).
	pub sig: u64,
	pub trivial: bool,
	pub trace: Vec<String>,
	pub choices: Vec<u32>,
}

impl Outcome {
	pub fn fingerprint(&self) -> (u64, u64, u64, u64, Vec<&'static str>) {
		(
			self.report.choices.0,
			self.report.choices.1,
			self.report.sched_hash,
			self.sig,
			self.violations.iter().map(|v| v.rule).collect(),
		)
	}
}

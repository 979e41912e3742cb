mod case;
mod duo;
mod gen;
mod hub;
mod mini;
mod paths;
mod plan;
mod raw;
mod soak;
mod typed;
mod util;
mod wire;
mod world;

use case::Case;
use simcore::choice::mix;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// Remembers the largest allocation of a run.
struct Alloc;
pub static MAX_ALLOC: AtomicU64 = AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Alloc {
	unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
		MAX_ALLOC.fetch_max(l.size() as u64, Ordering::Relaxed);
		let p = std::alloc::System.alloc(l);
		simcore::mem::alloc(p, l.size());
		p
	}
	unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
		MAX_ALLOC.fetch_max(l.size() as u64, Ordering::Relaxed);
		let p = std::alloc::System.alloc_zeroed(l);
		simcore::mem::alloc(p, l.size());
		p
	}
	unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
		MAX_ALLOC.fetch_max(n as u64, Ordering::Relaxed);
		let q = std::alloc::System.realloc(p, l, n);
		simcore::mem::realloc(p, q, n);
		q
	}
	unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
		simcore::mem::dealloc(p);
		std::alloc::System.dealloc(p, l)
	}
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// What the worker is doing right now, for the watchdog.
static CURRENT: Mutex<Option<(&'static str, &'static str, u64)>> = Mutex::new(None);
static RUNS: AtomicU64 = AtomicU64::new(0);

fn watchdog(prop: String, dir: String) {
	let mut last = u64::MAX;
	let mut since = Instant::now();
	loop {
		std::thread::sleep(Duration::from_millis(500));
		let n = RUNS.load(Ordering::Relaxed);
		if n != last {
			last = n;
			since = Instant::now();
			continue;
		}
		if since.elapsed() > Duration::from_secs(30) {
			if let Some((s, p, seed)) = *CURRENT.lock().unwrap() {
				let mut c = plan::generate(s, p, seed);
				c.choices = None;
				let path = format!("{dir}/{prop}-hang-{seed:016x}.txt");
				let _ = std::fs::write(&path, format!("{}# violation hang\n", c.to_text()));
				println!("VIOL hang {path} the run never finished: some poll never returns");
				std::io::stdout().flush().ok();
			}
			std::process::exit(1);
		}
	}
}

fn sched(prop: &str) -> Vec<(&'static str, &'static str)> {
	let mut v = Vec::new();
	let p = plan::plan(prop);
	let max = p.iter().map(|x| x.2).max().unwrap_or(0);
	// Interleave so that a short budget still covers everything.
	for round in 0..max {
		for (s, q, n) in p {
			if round < *n {
				v.push((*s, *q));
			}
		}
	}
	v
}

fn main() {
	// Messages may carry many file descriptors.
	unsafe {
		let mut l: libc::rlimit = std::mem::zeroed();
		if libc::getrlimit(libc::RLIMIT_NOFILE, &mut l) == 0 {
			l.rlim_cur = l.rlim_max.min(65_536);
			libc::setrlimit(libc::RLIMIT_NOFILE, &l);
		}
	}
	let args: Vec<String> = std::env::args().skip(1).collect();
	let arg = |i: usize| args.get(i).cloned().unwrap_or_default();
	simcore::exec::install_panic_hook();
	match arg(0).as_str() {
		// worker <prop> <base seed> <index> <workers> <seconds> <replay dir> <hash file> <state file>
		"worker" => worker(&arg(1), arg(2).parse().unwrap(), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap(), &arg(6), &arg(7), &arg(8)),
		// gen <scenario> <profile> <seed>: print the case
		"gen" => print!("{}", plan::generate(&arg(1), &arg(2), arg(3).parse().unwrap()).to_text()),
		// meta <prop>: static part of the evidence
		"meta" => println!("{}", plan::meta(&arg(1))),
		// replay <file> [trace]
		"replay" => {
			let text = std::fs::read_to_string(arg(1)).expect("cannot read the replay file");
			let c = Case::from_text(&text).expect("bad replay file");
			let out = plan::run(&c, false, arg(2) == "trace");
			for l in &out.trace {
				println!("{l}");
			}
			for v in &out.violations {
				println!("VIOL {} [{}] {}", v.rule, v.props.join(","), v.detail);
			}
			println!("steps {} choices {:?} schedule {:016x} history {:016x}", out.report.steps, out.report.choices, out.report.sched_hash, out.sig);
		},
		// one <scenario> <profile> <seed> [trace]
		"one" => {
			let seed = arg(3).parse().unwrap();
			let c = plan::generate(&arg(1), &arg(2), seed);
			print!("{}", c.to_text());
			let out = plan::run(&c, false, arg(4) == "trace");
			for l in &out.trace {
				println!("{l}");
			}
			for v in &out.violations {
				println!("VIOL {} [{}] {}", v.rule, v.props.join(","), v.detail);
			}
			println!("{:?}", out.report);
			println!("{:?}", out.stats);
		},
		// survey <scenario> <profile> <seconds> [base]: all rules, first seed each
		"survey" => survey(&arg(1), &arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap_or(1)),
		// hashes <scenario> <profile> <runs> <base>: the hashes of that many runs
		"hashes" => {
			let (n, base): (u64, u64) = (arg(3).parse().unwrap(), arg(4).parse().unwrap_or(1));
			for i in 0..n {
				let seed = mix(base ^ mix(i));
				let out = plan::run(&plan::generate(&arg(1), &arg(2), seed), false, false);
				println!("{} {} {seed} {:?} {} violations", arg(1), arg(2), out.fingerprint(), out.violations.len());
			}
		},
		// count <hash files>
		"count" => {
			for k in 0..2 {
				let mut set: Vec<u64> = Vec::new();
				for f in &args[1..] {
					let Ok(b) = std::fs::read(format!("{f}.{k}")) else { continue };
					set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
				}
				set.sort_unstable();
				set.dedup();
				println!("{}", set.len());
			}
		},
		_ => {
			eprintln!("usage: harness worker|replay|one|gen|survey|hashes|count ...");
			std::process::exit(2);
		},
	}
}

fn survey(scenario: &str, profile: &str, secs: u64, base: u64) {
	let t0 = Instant::now();
	let mut seen: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
	let mut n = 0u64;
	let mut steps = 0u64;
	let mut nontrivial = 0;
	let mut maxsteps = 0;
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	while t0.elapsed() < Duration::from_secs(secs) {
		let seed = mix(base ^ mix(n));
		if std::env::var("SURVEY_PRINT").is_ok() {
			println!("seed {seed}");
		}
		let c = plan::generate(scenario, profile, seed);
		let out = plan::run(&c, false, false);
		n += 1;
		steps += out.report.steps;
		if out.report.steps > maxsteps {
			maxsteps = out.report.steps;
		}
		nontrivial += !out.trivial as u64;
		for (k, v) in out.stats {
			*stats.entry(k).or_default() += v;
		}
		for v in out.violations {
			let e = seen.entry(format!("{} [{}]", v.rule, v.props.join(","))).or_insert((0, seed, v.detail));
			e.0 += 1;
		}
	}
	println!("{n} runs, {nontrivial} non-trivial, {} steps/run, max {maxsteps}", steps / n);
	println!("{stats:?}");
	for (k, (c, seed, d)) in seen {
		println!("{c:>6}x {k}\n        seed {seed}: {d}");
	}
}

fn worker(prop: &str, base: u64, index: u64, workers: u64, secs: f64, dir: &str, hashes: &str, state: &str) {
	{
		let (p, d) = (prop.to_string(), dir.to_string());
		std::thread::spawn(move || watchdog(p, d));
	}
	let order = sched(prop);
	let state = if state.is_empty() { None } else { std::fs::File::create(state).ok() };
	assert!(!order.is_empty(), "no plan for {prop}");
	let t0 = Instant::now();
	let mut n = 0u64;
	let mut stats: BTreeMap<String, u64> = BTreeMap::new();
	let mut sched_set: HashSet<u64> = HashSet::new();
	let mut hist_set: HashSet<u64> = HashSet::new();
	let mut found: BTreeMap<&'static str, u64> = BTreeMap::new();
	let mut nondet = 0u64;
	let mut harness = 0u64;
	let mut add = |k: &str, v: u64| *stats.entry(k.to_string()).or_default() += v;
	let mut samples: Vec<String> = Vec::new();
	let pbase = mix(base ^ util::hash_str(prop));
	while t0.elapsed().as_secs_f64() < secs && found.len() < 3 {
		let idx = n * workers + index;
		let (scenario, profile) = order[(idx % order.len() as u64) as usize];
		let seed = mix(pbase ^ mix(idx));
		*CURRENT.lock().unwrap() = Some((scenario, profile, seed));
		RUNS.fetch_add(1, Ordering::Relaxed);
		if let Some(f) = &state {
			use std::os::unix::fs::FileExt;
			let _ = f.write_all_at(format!("{scenario} {profile} {seed:<20} \n").as_bytes(), 0);
			// A longer line may have been there before; everything after the third word is ignored.
		}
		let c = plan::generate(scenario, profile, seed);
		let out = plan::run(&c, false, false);
		n += 1;
		add("runs", 1);
		add(&format!("runs.{scenario}.{profile}"), 1);
		add("steps", out.report.steps);
		add("sim_ns", out.report.sim_ns);
		add("preemptions", out.report.preemptions);
		add("spurious_polls", out.report.spurious_polls);
		add("coop_yields", out.report.coop_yields);
		add("lock_waits", out.report.lock_waits);
		add("choices", out.report.choices.0);
		for (k, v) in &out.stats {
			add(k, *v);
		}
		if !out.trivial {
			add("nontrivial", 1);
			sched_set.insert(out.report.sched_hash ^ mix(out.sig));
			hist_set.insert(mix(out.sig ^ util::hash_str(profile)));
		}
		if samples.len() < 3 && !out.trivial {
			let text: String = c.to_text().lines().skip(1).map(|l| l.trim()).collect::<Vec<_>>().join("; ").chars().take(1200).collect();
			samples.push(format!("seed {seed}: {} steps, {} choices, schedule {:016x}, history {:016x}: {text}", out.report.steps, out.report.choices.0, out.report.sched_hash, out.sig));
		}
		if n % 50 == 1 {
			// The same seed must give the same execution.
			add("determinism_reruns", 1);
			let again = plan::run(&c, false, false);
			if again.fingerprint() != out.fingerprint() {
				nondet += 1;
				if nondet == 1 {
					println!("NONDET {scenario} {profile} {seed}");
				}
			}
		}
		for v in out.violations.iter().filter(|v| v.rule == "harness") {
			if harness < 3 {
				println!("HARNESS {scenario} {profile} {seed}: {}", v.detail.replace('\n', " "));
			}
			harness += 1;
		}
		for v in out.violations.iter().filter(|v| v.props.contains(&prop)) {
			if found.contains_key(v.rule) {
				continue;
			}
			found.insert(v.rule, seed);
			*CURRENT.lock().unwrap() = None;
			let m = mini::minimise(&c, v.rule, prop, Duration::from_secs(25));
			let fin = plan::run(&m, false, true);
			let fv = fin.violations.iter().find(|x| x.rule == v.rule && x.props.contains(&prop));
			let path = format!("{dir}/{prop}-{}-{seed:016x}.txt", v.rule);
			let mut text = String::new();
			text += &m.to_text();
			text += &format!("# found with: {scenario} {profile} seed {seed}\n");
			text += &format!("# violation {}\n", v.rule);
			text += &format!("# detail {}\n", fv.map(|x| x.detail.as_str()).unwrap_or(&v.detail).replace('\n', " "));
			for l in fin.trace.iter().take(400) {
				text += &format!("# {}\n", l.replace('\n', " "));
			}
			std::fs::write(&path, text).ok();
			println!("VIOL {} {path} {}", v.rule, fv.map(|x| x.detail.as_str()).unwrap_or(&v.detail).replace('\n', " "));
			std::io::stdout().flush().ok();
		}
	}
	*CURRENT.lock().unwrap() = None;
	for (k, set) in [sched_set, hist_set].into_iter().enumerate() {
		let mut b = Vec::with_capacity(set.len() * 8);
		for x in set {
			b.extend_from_slice(&x.to_le_bytes());
		}
		std::fs::write(format!("{hashes}.{k}"), b).ok();
	}
	add("nondeterministic", nondet);
	for (k, v) in &stats {
		println!("STAT {k} {v}");
	}
	for s in samples {
		println!("SAMPLE {s}");
	}
	println!("DONE");
}

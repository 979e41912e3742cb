//! Which scenarios decide which property.

use crate::case::{Case, Outcome};
use crate::{duo, gen, hub, paths, raw, soak, typed, wire};

pub fn plan(prop: &str) -> &'static [(&'static str, &'static str, u32)] {
	match prop {
		"C01" => &[("duo", "stream", 5), ("duo", "cancel", 2), ("duo", "faults", 1), ("duo", "pressure", 2), ("duo", "bulk", 1), ("raw", "mix", 1)],
		"C02" => &[("duo", "basic", 4), ("duo", "mix", 2), ("duo", "sizes", 1), ("raw", "mix", 2), ("raw", "limits", 1)],
		"C03" => &[("duo", "requests", 5), ("duo", "bulk", 1), ("duo", "clones", 2), ("duo", "ids", 1), ("duo", "mix", 1), ("raw", "mix", 1), ("raw", "peek", 1), ("raw", "proto", 1), ("raw", "parts", 1)],
		"C04" => &[("duo", "clones", 6), ("duo", "requests", 1), ("raw", "mix", 1), ("raw", "proto", 1), ("raw", "parts", 1)],
		"C05" => &[("duo", "ids", 6), ("duo", "mix", 1), ("duo", "bulk", 1), ("raw", "autoerr", 1), ("raw", "parts", 2)],
		"C06" => &[("duo", "sizes", 2), ("duo", "fds", 1), ("duo", "mix", 2), ("duo", "clones", 1), ("duo", "faults", 1), ("raw", "mix", 1), ("raw", "limits", 1), ("raw", "parts", 1)],
		"C07" => &[("duo", "faults", 4), ("duo", "close", 3), ("duo", "life", 2), ("duo", "bulk", 1), ("raw", "stall", 3), ("raw", "mix", 2), ("raw", "hostile", 1)],
		"C08" => &[("duo", "close", 5), ("duo", "bulk", 1), ("duo", "basic", 1), ("duo", "life", 1), ("raw", "mix", 2), ("raw", "stall", 1)],
		"C09" => &[("duo", "life", 5), ("duo", "close", 3), ("duo", "bulk", 2)],
		"C10" => &[("duo", "dropped", 6), ("raw", "autoerr", 3)],
		"C11" => &[("raw", "hostile", 6), ("raw", "mix", 1), ("raw", "limits", 1), ("raw", "stall", 1), ("duo", "faults", 1)],
		"C12" => &[("raw", "proto", 6), ("raw", "parts", 2), ("raw", "mix", 1), ("raw", "autoerr", 1)],
		"C13" => &[("duo", "sizes", 5), ("raw", "limits", 4), ("hub", "limits", 1)],
		"C14" => &[("duo", "fds", 6), ("duo", "seq", 2), ("raw", "fds", 4)],
		"C15" => &[("duo", "cancel", 6), ("duo", "peek", 1), ("hub", "cancel", 1), ("wire", "read", 1)],
		"C16" => &[("duo", "pressure", 5), ("duo", "bulk", 2), ("duo", "mix", 2), ("duo", "requests", 1)],
		"C17" => &[("hub", "mix", 6), ("hub", "crowd", 1), ("hub", "limits", 1), ("hub", "calm", 1), ("hub", "cancel", 1), ("hub", "broken", 1)],
		"C18" => &[("paths", "mix", 4), ("paths", "race", 2)],
		"C19" => &[("typed", "mix", 4), ("typed", "busy", 2), ("typed", "cancel", 1), ("typed", "cut", 1)],
		"C20" => &[("duo", "peek", 6), ("raw", "peek", 3)],
		"C21" => &[("soak", "talk", 3), ("soak", "strays", 2), ("soak", "serve", 3)],
		"C22" => &[("wire", "mix", 3), ("wire", "read", 1), ("wire", "write", 2), ("wire", "limits", 2), ("wire", "cut", 1)],
		_ => &[],
	}
}

pub fn generate(scenario: &str, profile: &str, seed: u64) -> Case {
	match scenario {
		"duo" => gen::duo(profile, seed),
		"raw" => gen::raw(profile, seed),
		"hub" => gen::hub(profile, seed),
		"typed" => gen::typed(profile, seed),
		"paths" => gen::paths(profile, seed),
		"soak" => gen::soak(profile, seed),
		"wire" => gen::wire(profile, seed),
		_ => panic!("unknown scenario {scenario}"),
	}
}

pub fn run(case: &Case, record: bool, trace: bool) -> Outcome {
	let r = std::panic::catch_unwind(|| match case.scenario.as_str() {
		"duo" => duo::run(case, record, trace),
		"raw" => raw::run(case, record, trace),
		"hub" => hub::run(case, record, trace),
		"typed" => typed::run(case, record, trace),
		"paths" => paths::run(case, record, trace),
		"soak" => soak::run(case, record, trace),
		"wire" => wire::run(case, record, trace),
		s => panic!("unknown scenario {s}"),
	});
	r.unwrap_or_else(|_| {
		// The harness itself failed; never let that take the whole worker down.
		let mut out = Outcome::default();
		let (m, l) = simcore::exec::last_panic().unwrap_or_default();
		out.trivial = true;
		out.violations.push(crate::case::Violation { rule: "harness", props: vec![], detail: format!("{m} at {l}") });
		simcore::exec::teardown();
		out
	})
}

/// The static part of the evidence, as JSON.
pub fn meta(prop: &str) -> String {
	let list = |v: &[&str]| v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", ");
	let _ = prop;
	let real = [
		"all of fizyr-rpc (peer, handles, request tracker, transports, message codec, listener, macros)",
		"tokio's channels (mpsc, oneshot) and their wake-up protocol",
		"assert2/filedesc/byteorder and the other dependencies",
		"the kernel for file descriptors (memfd inodes, reference counts)",
	];
	let stubs = [
		"task scheduler and tokio::spawn (seeded; may switch tasks at every channel and socket operation)",
		"clock and timers (discrete events)",
		"TCP, Unix stream and Unix seqpacket sockets and listeners (in-process network with faults)",
	];
	let assumptions = [
		"the simulated sockets behave like Linux sockets (DESIGN.md, Fidelity)",
		"tasks switch only at channel, socket, timer and spawn operations (the code shares nothing else between tasks)",
		"a clean batch of sampled executions is evidence, not proof",
	];
	format!(
		"{{\"nontrivial\": \"at least one message reached an application-level receive call (or the scenario's equivalent).\", \"real\": [{}], \"stubs\": [{}], \"assumptions\": [{}]}}",
		list(&real),
		list(&stubs),
		list(&assumptions)
	)
}

//! Reduce a failing case.

use crate::case::{Case, Violation};
use crate::plan;
use std::time::{Duration, Instant};

fn fails(case: &Case, rule: &str, prop: &str) -> Option<(Violation, Vec<u32>)> {
	let out = plan::run(case, true, false);
	out.violations.into_iter().find(|v| v.rule == rule && v.props.contains(&prop)).map(|v| (v, out.choices))
}

/// Try a structurally different case under a few schedules.
fn fails_any(case: &Case, rule: &str, prop: &str) -> Option<Case> {
	for k in 0..4u64 {
		let mut c = case.clone();
		if k > 0 {
			c.sched = simcore::choice::mix(case.sched ^ k);
		}
		if fails(&c, rule, prop).is_some() {
			return Some(c);
		}
	}
	None
}

pub fn minimise(case: &Case, rule: &str, prop: &str, budget: Duration) -> Case {
	let t0 = Instant::now();
	let over = || t0.elapsed() > budget;
	let mut best = case.clone();
	best.choices = None;
	let mut changed = true;
	while changed && !over() {
		changed = false;
		// Whole actors.
		for name in best.actors.keys().cloned().collect::<Vec<_>>() {
			if over() {
				break;
			}
			let mut c = best.clone();
			c.actors.remove(&name);
			if let Some(c) = fails_any(&c, rule, prop) {
				best = c;
				changed = true;
			}
		}
		// Faults.
		let mut i = 0;
		while i < best.faults.len() && !over() {
			let mut c = best.clone();
			c.faults.remove(i);
			match fails_any(&c, rule, prop) {
				Some(c) => {
					best = c;
					changed = true;
				},
				None => i += 1,
			}
		}
		// Runs of operations, then single ones.
		for chunk in [8usize, 3, 1] {
			for name in best.actors.keys().cloned().collect::<Vec<_>>() {
				let mut i = 0;
				while i < best.actors[&name].len() && !over() {
					let mut c = best.clone();
					let v = c.actors.get_mut(&name).unwrap();
					let hi = (i + chunk).min(v.len());
					v.drain(i..hi);
					match fails_any(&c, rule, prop) {
						Some(c) => {
							best = c;
							changed = true;
						},
						None => i += chunk,
					}
				}
			}
		}
		// Environment.
		for (k, v) in [
			("spurious", 0),
			("coop", 0),
			("preempt", 0),
			("short_read", 0),
			("short_write", 0),
			("lat_lo", 0),
			("lat_hi", 0),
			("step", 500),
			("cap", 65536),
			("dcap", 16),
			("policy", 1),
			("policy", 0),
		] {
			if over() {
				break;
			}
			if best.get(k) != v && !(k == "policy" && best.get(k) == 1) {
				let mut c = best.clone();
				c.set(k, v);
				if let Some(c) = fails_any(&c, rule, prop) {
					best = c;
				}
			}
		}
	}
	// Now the schedule itself.
	let Some((_, mut list)) = fails(&best, rule, prop) else { return case.clone() };
	let check = |l: &Vec<u32>| {
		let mut c = best.clone();
		c.choices = Some(l.clone());
		fails(&c, rule, prop).is_some()
	};
	if !check(&list) {
		return best;
	}
	let mut size = (list.len() / 2).max(1);
	while size >= 1 && !over() {
		let mut i = 0;
		while i < list.len() && !over() {
			let hi = (i + size).min(list.len());
			if list[i..hi].iter().any(|x| *x != 0) {
				let mut l = list.clone();
				l[i..hi].iter_mut().for_each(|x| *x = 0);
				if check(&l) {
					list = l;
				}
			}
			i = hi;
		}
		if size == 1 {
			break;
		}
		size /= 2;
	}
	while list.last() == Some(&0) {
		list.pop();
	}
	if check(&list) {
		best.choices = Some(list);
	}
	best
}

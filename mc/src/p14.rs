//! P14: printed amounts.
use crate::{report::Ctx, util::*};
use std::collections::BTreeSet;
use subweight_core::Dimension;

type Table = &'static [(&'static str, u128)];
pub const TIME: Table = &[("ps", 1), ("ns", 1_000), ("us", 1_000_000), ("ms", 1_000_000_000), ("s", 1_000_000_000_000)];
pub const PROOF: Table = &[("B", 1), ("KiB", 1 << 10), ("MiB", 1 << 20), ("GiB", 1 << 30)];
pub const SCALAR: Table = &[("", 1), ("K", 1_000), ("M", 1_000_000), ("G", 1_000_000_000), ("T", 1_000_000_000_000)];

/// Reads `123.45unit`: hundredths of the unit, whether it had decimals, and the unit.
fn read(s: &str) -> Option<(u128, bool, &str)> {
	let n = s.find(|c: char| !c.is_ascii_digit() && c != '.').unwrap_or(s.len());
	let (num, unit) = s.split_at(n);
	let (int, frac) = num.split_once('.').map_or((num, None), |(i, f)| (i, Some(f)));
	let int: u128 = int.parse().ok()?;
	Some(match frac {
		None => (int.checked_mul(100)?, false, unit),
		Some(f) if f.len() == 2 => (int.checked_mul(100)?.checked_add(f.parse().ok()?)?, true, unit),
		_ => return None,
	})
}

/// The printed amount times 100, or what is wrong with it.
fn check(v: u128, got: &str, t: Table) -> Result<u128, String> {
	let (unit, size) = *t.iter().rev().find(|u| u.1 <= v).unwrap_or(&t[0]);
	// beyond, hundredths do not fit
	let (h, _, u) = match read(got) {
		Some(r) => r,
		None if v / size >= u128::MAX / 100 => return Ok(u128::MAX),
		None => return Err(format!("unreadable: {got:?}")),
	};
	if u != unit {
		return Err(format!("printed as {got:?}, expected the unit {unit:?}"));
	}
	if size == 1 {
		// below the first unit: exact
		return if h == v * 100 { Ok(h) } else { Err(format!("printed as {got:?}")) };
	}
	// |h/100 * size - v| <= size/200, plus the error of a double
	let Some(printed) = h.checked_mul(size) else { return Ok(u128::MAX) };
	let Some(exact) = v.checked_mul(100) else { return Ok(u128::MAX) };
	if printed.abs_diff(exact) > size / 2 + 1 + (exact >> 50) {
		return Err(format!("printed as {got:?}"));
	}
	Ok(printed)
}

pub fn run(ctx: &Ctx) {
	let fmts: [(&str, Table, fn(u128) -> String); 5] = [
		("time", TIME, Dimension::fmt_time),
		("proof", PROOF, Dimension::fmt_proof),
		("scalar", SCALAR, Dimension::fmt_scalar),
		("value of time", TIME, |v| Dimension::Time.fmt_value(v)),
		("value of proof", PROOF, |v| Dimension::Proof.fmt_value(v)),
	];
	// runs of consecutive values, and single ones
	let mut runs: BTreeSet<(u128, u128)> = BTreeSet::new();
	let dense = ctx.by_tier(2_000_000u128, 200_000_000);
	let step = 20_000;
	for i in 0..dense / step {
		runs.insert((i * step, i * step + step));
	}
	let width = ctx.by_tier(1_500u128, 60_000);
	let mut around = |c: u128| {
		runs.insert((c.saturating_sub(width), c.saturating_add(width)));
	};
	for k in 0..39u32 {
		for d in 1..10 {
			if let Some(c) = 10u128.checked_pow(k).and_then(|p| p.checked_mul(d)) {
				around(c);
			}
		}
	}
	for k in 0..128 {
		around(1 << k);
		around((1 << k) / 2 * 3);
	}
	// rounding boundaries: halves of the printed hundredths
	for t in [TIME, PROOF, SCALAR] {
		for (_, size) in &t[1..] {
			for whole in (0..1100u128).step_by(7) {
				for h in (1..200u128).step_by(2).take(ctx.by_tier(10, 100)) {
					let c = whole * size + h * size / 200;
					runs.insert((c.saturating_sub(2), c + 3));
				}
			}
		}
	}
	let runs: Vec<_> = runs.into_iter().collect();
	for (name, table, f) in fmts {
		let ends: Vec<std::sync::Mutex<Option<(u128, u128, u128, u128)>>> = runs.iter().map(|_| Default::default()).collect();
		par(ctx, runs.len(), |i| {
			if ctx.enough() {
				return;
			}
			let (lo, hi) = runs[i];
			let mut last = None;
			let mut first = None;
			for v in lo..hi {
				let case = || format!("{name} of {v}");
				if !ctx.want(case) {
					continue;
				}
				ctx.state();
				match guard(|| f(v)).and_then(|s| {
					if v == 1_234_567 {
						ctx.sample(|| format!("{name} of {v}: {s}"));
					}
					check(v, &s, table)
				}) {
					Err(e) => return ctx.violation(&case(), e),
					Ok(p) => {
						if last.is_some_and(|l| l > p) {
							return ctx.violation(&case(), "printed as a smaller amount than its predecessor".into());
						}
						first = first.or(Some(p));
						last = Some(p);
					},
				}
			}
			ctx.steps((hi - lo) as u64);
			ctx.traces.fetch_add((hi - lo) as u64, std::sync::atomic::Ordering::Relaxed);
			if let (Some(f), Some(l)) = (first, last) {
				*ends[i].lock().unwrap() = Some((lo, f, hi - 1, l));
			}
		});
		// across the runs: any two amounts a < b in different runs print in order
		let mut pts: Vec<(u128, u128)> = ends.iter().filter_map(|e| *e.lock().unwrap()).flat_map(|(a, p, b, q)| [(a, p), (b, q)]).collect();
		pts.sort();
		for w in pts.windows(2) {
			ctx.steps(1);
			if w[0].1 > w[1].1 && ctx.want(|| format!("{name} of {}", w[0].0)) {
				ctx.violation(&format!("{name} of {}", w[0].0), format!("printed as a larger amount than {}", w[1].0));
			}
		}
	}
	ctx.bound(format!("all values below {dense}; all within {width} of d * 10^k, 2^k and 3 * 2^k up to 2^128; rounding boundaries of every unit; each as time, proof size and number"));
}

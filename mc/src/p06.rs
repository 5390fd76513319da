//! P06: the worst case methods dominate every assignment.
use crate::{model::*, report::Ctx, util::*};
use subweight_core::{compare_extrinsics, parse::pallet::SimpleExtrinsic, term::SimpleTerm, CompareMethod, Dimension};

/// All points of the box: every integer of small ranges, and ends, quarters and neighbours of large ones.
fn points(lo: u32, hi: u32) -> Vec<u32> {
	if hi - lo <= 8 {
		return (lo..=hi).collect();
	}
	let d = hi - lo;
	let mut v = vec![lo, lo + 1, lo + d / 4, lo + d / 2, lo + d / 4 * 3, hi - 1, hi];
	v.dedup();
	v
}

/// Compares the reported change with that at every grid point.
fn check(ctx: &Ctx, case: &dyn Fn() -> String, old: &SimpleExtrinsic, new: &SimpleExtrinsic, b: &Ranges, m: CompareMethod, unit: Dimension) {
	ctx.state();
	ctx.trace();
	let got = match guard(|| compare_extrinsics(Some(old.clone()), Some(new.clone()), &params(m, unit))) {
		Ok(Ok(g)) => g,
		Ok(Err(e)) => return ctx.violation(&case(), format!("refused: {e}")),
		Err(e) => return ctx.violation(&case(), format!("crashed: {e}")),
	};
	let dims: Vec<(&String, Vec<u32>)> = b.iter().map(|(c, r)| (c, points(r.0, r.1))).collect();
	let n: usize = dims.iter().map(|d| d.1.len()).product();
	ctx.steps(n as u64);
	let mut best = f64::NEG_INFINITY;
	for i in 0..n {
		let mut d = Digits(i);
		let a: Assign = dims.iter().map(|(c, v)| ((*c).clone(), *d.pick(v) as u128)).collect();
		let p = percent(eval(&old.term, &a, unit), eval(&new.term, &a, unit));
		best = best.max(p);
		if p > got.percent + 0.0011 + 1e-9 * p.abs() || got.percent.is_nan() {
			return ctx.violation(&case(), format!("reported {}%, but {a:?} has {p}%", got.percent));
		}
	}
	// and it is attained (the grid contains the corners)
	if got.percent > best + 1e-6 + 1e-9 * best.abs() {
		ctx.violation(&case(), format!("reported {}%, but no assignment has more than {best}%", got.percent));
	}
}

pub fn run(ctx: &Ctx) {
	small(ctx);
	multilinear(ctx);
	many(ctx);
	limit(ctx);
	spelled(ctx);
	crate::scale::components(ctx);
}

/// Linear functions of up to three components.
fn small(ctx: &Ctx) {
	let coef = [0u128, 1, 7, 1000];
	let base = [0u128, 1, 500];
	let ranges = [[(0, 3), (0, 3), (0, 1)], [(1, 2), (0, 100), (3, 3)], [(2, 9), (1, 5), (0, 1000)], [(0, u32::MAX), (5, 5), (1, 2)]];
	let names = ["a", "b", "c"];
	for n in 1..=3usize {
		let one = coef.len().pow(n as u32) * base.len();
		let nr = if n == 3 { ctx.by_tier(2, ranges.len()) } else { ranges.len() };
		par(ctx, one * one * nr, |i| {
			if ctx.enough() {
				return;
			}
			let mut d = Digits(i);
			let mut f = || {
				let t = val(*d.pick(&base));
				(0..n).fold(t, |t, k| match *d.pick(&coef) {
					0 => t,
					c => add(t, mul(val(c), var(names[k]))),
				})
			};
			let (o, w) = (f(), f());
			let r = d.pick(&ranges);
			let all: Vec<_> = (0..n).map(|k| (names[k].to_string(), r[k])).collect();
			let mut used = vec![];
			vars(&o, &mut used);
			vars(&w, &mut used);
			let b: Ranges = all.iter().filter(|(c, _)| used.contains(c)).cloned().collect();
			let (old, new) = (ext("f", "p", o, &all), ext("f", "p", w, &all));
			for m in [CompareMethod::ExactWorst, CompareMethod::GuessWorst] {
				let case = || format!("{m:?}: {} -> {}", show_ext(&Some(old.clone())), show_ext(&Some(new.clone())));
				if i == 4321 {
					ctx.sample(case);
				}
				if ctx.want(case) {
					check(ctx, &case, &old, &new, &b, m, Dimension::Time);
				}
			}
		});
		ctx.bound(format!("{n} components: all linear functions with coefficients {coef:?} and constants {base:?}, {nr} boxes, every grid point"));
	}
	// ranges that are absent or differ are guessed and united
	let rs: [Option<(u32, u32)>; 4] = [None, Some((2, 9)), Some((1, 4)), Some((5, 500))];
	let fs = |x: &str, y: &str| [
		add(val(10), mul(val(3), var(x))),
		add(val(3), mul(val(10), var(y))),
		add(mul(val(2), var(x)), add(val(50), mul(val(9), var(y)))),
		add(mul(s(3), var("READ")), mul(var(x), add(s(1), var("WRITE")))),
		add(val(100), mul(mul(var("READ"), var(y)), val(2))),
	];
	let fs = fs("a", "b");
	par(ctx, fs.len() * fs.len() * rs.len().pow(4) * 2, |i| {
		let mut d = Digits(i);
		let (o, w) = (d.pick(&fs).clone(), d.pick(&fs).clone());
		let (oa, ob, na, nb) = (*d.pick(&rs), *d.pick(&rs), *d.pick(&rs), *d.pick(&rs));
		let unit = UNITS[d.take(2)];
		let mk = |t, a: Option<_>, b: Option<_>| ext("f", "p", t, &[("a", a), ("b", b)].iter().filter_map(|(c, r)| r.map(|r| (c.to_string(), r))).collect::<Vec<_>>());
		let (old, new) = (mk(o, oa, ob), mk(w, na, nb));
		let b = crate::p05::model_bounds(&Some(old.clone()), &Some(new.clone()), CompareMethod::GuessWorst).unwrap();
		let case = || format!("GuessWorst {unit:?}: {} -> {}", show_ext(&Some(old.clone())), show_ext(&Some(new.clone())));
		if ctx.want(case) {
			check(ctx, &case, &old, &new, &b, CompareMethod::GuessWorst, unit);
		}
	});
	ctx.bound("5 x 5 functions of two components with all absent, equal and different ranges");
}

/// Products of different components.
fn multilinear(ctx: &Ctx) {
	let coef = [0u128, 3, 50];
	let mono: Vec<fn() -> SimpleTerm> = vec![|| var("a"), || var("b"), || mul(var("a"), var("b")), || mul(mul(var("a"), var("c")), s(2)), || mul(var("c"), add(var("b"), s(1)))];
	let per = coef.len().pow(mono.len() as u32);
	let k = ctx.by_tier(1, 3);
	let boxes = [[(0, 3), (1, 4), (0, 2)], [(2, 3), (0, 30), (1, 8)], [(0, 0), (0, 1), (5, 9)]];
	par(ctx, per * per * k, |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let mut f = || mono.iter().fold(val(1), |t, m| match *d.pick(&coef) {
			0 => t,
			c => add(t, mul(val(c), m())),
		});
		let (o, w) = (f(), f());
		let r = boxes[d.take(k)];
		let all: Vec<_> = ["a", "b", "c"].iter().zip(r).map(|(c, r)| (c.to_string(), r)).collect();
		let mut used = vec![];
		vars(&o, &mut used);
		vars(&w, &mut used);
		let b: Ranges = all.iter().filter(|(c, _)| used.contains(c)).cloned().collect();
		let (old, new) = (ext("f", "p", o, &all), ext("f", "p", w, &all));
		let case = || format!("ExactWorst: {} -> {}", show_ext(&Some(old.clone())), show_ext(&Some(new.clone())));
		if ctx.want(case) {
			check(ctx, &case, &old, &new, &b, CompareMethod::ExactWorst, Dimension::Proof);
		}
	});
	ctx.bound("all functions multilinear in three components with coefficients 0, 3 and 50 of five monomials");
}

/// Up to 16 components: the worst corner is any given one.
fn many(ctx: &Ctx) {
	let all_up_to = ctx.by_tier(8, 11);
	for n in 4..=16usize {
		// sets of components that must be at their minimum
		let sets: Vec<u32> = if n <= all_up_to {
			(0..1u32 << n).collect()
		} else {
			let full = (1u32 << n) - 1;
			let mut v = vec![0, full, 0x5555 & full, 0xaaaa & full, 0xff & full];
			for i in 0..n {
				v.push(1 << i);
				v.push(full & !(1 << i));
			}
			if n > 13 && !ctx.thorough() {
				v.truncate(if n == 16 { 5 } else { 9 });
			}
			v
		};
		par(ctx, sets.len() * 2, |i| {
			if ctx.enough() {
				return;
			}
			let mut d = Digits(i);
			let (m, set) = (d.take(2), *d.pick(&sets));
			let m = [CompareMethod::ExactWorst, CompareMethod::GuessWorst][m];
			let names: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
			let rs: Vec<_> = names.iter().enumerate().map(|(i, c)| (c.clone(), (i as u32 % 3, 10 + i as u32))).collect();
			let side = |on: bool| (0..n).filter(|i| (set >> i & 1 == 1) == on).fold(val(1000), |t, i| add(t, mul(val(100 + i as u128), var(&names[i]))));
			// old grows with the set, new with the rest
			let (old, new) = (ext("f", "p", side(true), &rs), ext("f", "p", side(false), &rs));
			let case = format!("{m:?} {n} components, at their minimum {set:#b}");
			if !ctx.case(&case) {
				return;
			}
			ctx.state();
			ctx.trace();
			ctx.steps(1 << n);
			let a: Assign = rs.iter().enumerate().map(|(i, (c, r))| (c.clone(), if set >> i & 1 == 1 { r.0 } else { r.1 } as u128)).collect();
			let (ov, nv) = (eval(&old.term, &a, Dimension::Time), eval(&new.term, &a, Dimension::Time));
			match guard(|| compare_extrinsics(Some(old.clone()), Some(new.clone()), &params(m, Dimension::Time))) {
				Ok(Ok(g)) if g.old_v == Some(ov) && g.new_v == Some(nv) && close(g.percent, percent(ov, nv)) => {},
				Ok(Ok(g)) => ctx.violation(&case, format!("reported {:?} -> {:?} ({}%), but the worst case is {ov} -> {nv} ({}%)", g.old_v, g.new_v, g.percent, percent(ov, nv))),
				o => ctx.violation(&case, format!("no result: {:?}", o.map(|o| o.err()))),
			}
		});
	}
	ctx.bound(format!("4 to 16 components: worst corner at every vertex up to {all_up_to} components, at up to 5 + 2n vertices beyond"));
}

/// Components of which some are spelled differently in the two versions: up to 16 components, not spellings.
fn spelled(ctx: &Ctx) {
	let cases: Vec<(usize, usize)> = (1..=18).flat_map(|n| (0..=n).map(move |k| (n, k))).collect();
	par(ctx, cases.len(), |i| {
		let (n, k) = cases[i];
		if ctx.enough() || (n > ctx.by_tier(10, 14) && n <= 16 && k != n && k != 17 - n.min(17)) {
			return;
		}
		let name = |i: usize, new: bool| if i < k && new { format!("c_{i}") } else { format!("c{i}") };
		let side = |new: bool| {
			let rs: Vec<_> = (0..n).map(|i| (name(i, new), (1, 2))).collect();
			ext("f", "p", (0..n).fold(val(1), |t, i| add(t, mul(val(1 + new as u128), var(&name(i, new))))), &rs)
		};
		for m in [CompareMethod::ExactWorst, CompareMethod::GuessWorst] {
			let case = format!("{m:?}: {n} components, {k} of which are spelled differently in the new version");
			if !ctx.case(&case) {
				continue;
			}
			ctx.state();
			ctx.trace();
			ctx.steps(1 << n.min(16));
			match guard(|| compare_extrinsics(Some(side(false)), Some(side(true)), &params(m, Dimension::Time))) {
				Ok(Ok(g)) if n <= 16 => {
					let want = percent(1 + 2 * n as u128, 1 + 4 * n as u128);
					if (g.percent - want).abs() > 0.0011 {
						ctx.violation(&case, format!("reported {}%, expected {want}%", g.percent));
					}
				},
				Ok(Err(_)) if n > 16 => {},
				r => ctx.violation(&case, format!("{:?}", r.map(|r| r.map(|g| g.percent)))),
			}
		}
	});
	ctx.bound("up to 18 components, some or all spelled differently in the two versions");
}

/// More than 16 components are an error.
fn limit(ctx: &Ctx) {
	let cases: Vec<(usize, usize, usize)> = (0..=20).flat_map(|o| (0..=20).flat_map(move |n| (0..=20usize).map(move |both| (o, n, both)))).filter(|(o, n, b)| *b <= *o.min(n)).collect();
	par(ctx, cases.len(), |i| {
		if ctx.enough() {
			return;
		}
		let (o, n, both) = cases[i];
		let total = o + n - both;
		// the enumeration of the corners is exponential; the tier decides how often it is done
		if total > 16 + 4 || (total > ctx.by_tier(10, 13) && total <= 16 && !(both == 0 && o % 5 == 0)) {
			return;
		}
		let name = |i: usize| format!("c{i}");
		let rs: Vec<_> = (0..total).map(|i| (name(i), (1, 2))).collect();
		let term = |r: std::ops::Range<usize>| r.fold(val(1), |t, i| add(t, var(&name(i))));
		let (old, new) = (ext("f", "p", term(0..o), &rs), ext("f", "p", term(o - both..total), &rs));
		for m in [CompareMethod::ExactWorst, CompareMethod::GuessWorst] {
			let case = format!("{m:?}: {o} components in the old, {n} in the new version, {both} in both");
			if !ctx.case(&case) {
				continue;
			}
			ctx.state();
			ctx.trace();
			ctx.steps(1 << total.min(16));
			match guard(|| compare_extrinsics(Some(old.clone()), Some(new.clone()), &params(m, Dimension::Time))) {
				Ok(Ok(g)) if total <= 16 => {
					// all only in `new` at maximum, all only in `old` at minimum; the shared ones at either end
					let v: Vec<f64> = [1u128, 2].iter().map(|s| {
						let (ov, nv) = (1 + (o - both) as u128 + s * both as u128, 1 + 2 * (n - both) as u128 + s * both as u128);
						percent(ov, nv)
					}).collect();
					let want = v[0].max(v[1]);
					if (g.percent - want).abs() > 0.0011 {
						ctx.violation(&case, format!("reported {}%, expected {want}%", g.percent));
					}
				},
				Ok(Err(_)) if total > 16 => {},
				r => ctx.violation(&case, format!("{total} components: {:?}", r.map(|r| r.map(|g| g.percent)))),
			}
		}
	});
	ctx.bound("all splits of up to 20 components between the old, the new and both versions");
}

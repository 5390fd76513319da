//! P05: evaluation methods.
use crate::{model::*, report::Ctx, util::*};
use subweight_core::{
	compare_extrinsics, compare_files,
	parse::pallet::{parse_content, SimpleExtrinsic},
	term::SimpleTerm,
	CompareMethod, Dimension, FilterParams, RelativeChange,
};

pub const NO_FILTER: FilterParams = FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None };

fn terms(ctx: &Ctx) -> Vec<SimpleTerm> {
	let (a, b) = (|| var("a"), || var("b"));
	let max = u128::MAX;
	let mut v = vec![
		s(0),
		val(1),
		val(1_000_003),
		a(),
		mul(s(3), a()),
		mul(a(), val(3)),
		add(val(1000), mul(s(7), a())),
		add(mul(val(5), a()), add(val(11), mul(b(), val(13)))),
		add(mul(b(), s(1_000)), val(1)),
		add(add(val(100), mul(s(2), var("READ"))), mul(a(), var("READ"))),
		add(mul(var("WRITE"), s(3)), mul(var("READ"), add(s(1), b()))),
		mul(mul(a(), b()), val(3)),
		mul(add(a(), val(1)), add(b(), val(2))),
		// saturation
		val(max),
		add(val(max), val(1)),
		add(val(max), a()),
		mul(val(max), a()),
		mul(val(max / 2), add(b(), s(2))),
		mul(mul(val(max), s(2)), mul(a(), s(0))),
		mul(add(val(max), val(max)), add(val(max), a())),
		// values that do not fit 64 bits, or a double
		val((1 << 64) - 1),
		add(val((1 << 64) + 1), mul(s(1 << 60), a())),
		add(val((1 << 90) + 1), b()),
	];
	if ctx.thorough() {
		v.extend([
			b(),
			mul(val(17), b()),
			mul(mul(mul(a(), a()), a()), mul(a(), a())),
			add(mul(a(), a()), mul(b(), b())),
			mul(add(a(), b()), add(a(), b())),
			add(var("READ"), var("WRITE")),
			mul(var("READ"), var("WRITE")),
			mul(mul(var("READ"), a()), var("READ")),
			add(add(add(val(1), s(1)), a()), add(a(), a())),
			mul(s(0), add(a(), b())),
			val(max - 1),
			mul(mul(val(1 << 127), s(1)), add(a(), b())),
		]);
	}
	v
}

const R: [Option<(u32, u32)>; 7] =
	[None, Some((2, 9)), Some((1, 4)), Some((5, 5)), Some((0, u32::MAX)), Some((0, 0)), Some((1 << 31, (1 << 31) + 7))];

/// The bounds of all components used in either version, or the refused ones.
pub fn model_bounds(old: &Option<SimpleExtrinsic>, new: &Option<SimpleExtrinsic>, m: CompareMethod) -> Result<Ranges, Vec<String>> {
	let mut used = vec![];
	old.iter().chain(new).for_each(|e| vars(&e.term, &mut used));
	let get = |e: &Option<SimpleExtrinsic>, c: &str| {
		e.as_ref().and_then(|e| e.comp_ranges.as_ref()).and_then(|r| r.get(c)).map(|r| (r.min, r.max))
	};
	let (mut ok, mut bad) = (Ranges::new(), vec![]);
	for c in used {
		match bounds(get(old, &c), get(new, &c), m) {
			Ok(b) => {
				ok.insert(c, b);
			},
			Err(()) => bad.push(c),
		}
	}
	if bad.is_empty() {
		Ok(ok)
	} else {
		Err(bad)
	}
}

fn check(ctx: &Ctx, case: &dyn Fn() -> String, old: &Option<SimpleExtrinsic>, new: &Option<SimpleExtrinsic>, m: CompareMethod, unit: Dimension) {
	let bounds = model_bounds(old, new, m);
	ctx.steps(1);
	ctx.trace();
	let got = match guard(|| compare_extrinsics(old.clone(), new.clone(), &params(m, unit))) {
		Err(p) => return ctx.violation(&case(), format!("crashed: {p}")),
		Ok(r) => r,
	};
	let (got, bounds) = match (got, bounds) {
		(Err(_), Err(_)) => return,
		(Ok(g), Ok(b)) => (g, b),
		(Err(e), Ok(_)) => return ctx.violation(&case(), format!("refused: {e}")),
		(Ok(g), Err(c)) => return ctx.violation(&case(), format!("{:?} -> {:?} in spite of {c:?}", g.old_v, g.new_v)),
	};
	let all = allowed(&bounds, m);
	ctx.steps(all.len() as u64);
	let value = |e: &Option<SimpleExtrinsic>, a: &Assign| e.as_ref().map(|e| eval(&e.term, a, unit));
	let hit = all.iter().find(|a| value(old, a) == got.old_v && value(new, a) == got.new_v);
	if hit.is_none() {
		let want: Vec<_> = all.iter().map(|a| (value(old, a), value(new, a))).collect();
		return ctx.violation(&case(), format!("reported {:?} -> {:?}, but allowed are {want:?}", got.old_v, got.new_v));
	}
	let p = percent(got.old_v.unwrap_or(0), got.new_v.unwrap_or(0));
	// rounding of the values to doubles is magnified by 100% in the original formula
	if !(close(p, got.percent)) {
		ctx.violation(&case(), format!("{:?} -> {:?} reported as {}%, expected {p}%", got.old_v, got.new_v, got.percent));
	}
	let kind = match (old, new) {
		(Some(_), None) => RelativeChange::Removed,
		(None, Some(_)) => RelativeChange::Added,
		(Some(a), Some(b)) if a.term == b.term => RelativeChange::Unchanged,
		_ => RelativeChange::Changed,
	};
	if got.change != kind || got.method != m {
		ctx.violation(&case(), format!("{:?} by {:?}, expected {kind:?} by {m:?}", got.change, got.method));
	}
}

pub fn run(ctx: &Ctx) {
	let terms = terms(ctx);
	let n = terms.len() + 1;
	let ranges = if ctx.thorough() { R.len() } else { 5 };
	// one range for `a` on both sides, and one for `b`
	par(ctx, n * n * ranges.pow(4), |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let (o, w) = (d.take(n), d.take(n));
		let r: Vec<usize> = (0..4).map(|_| d.take(ranges)).collect();
		if o == 0 && w == 0 || (o == 0 && (r[0] != 0 || r[2] != 0)) || (w == 0 && (r[1] != 0 || r[3] != 0)) {
			return;
		}
		// ranges of components that occur in neither version are P07
		let mut used = vec![];
		[o, w].iter().filter(|k| **k > 0).for_each(|k| vars(&terms[*k - 1], &mut used));
		if (!used.contains(&"a".into()) && (r[0] != 0 || r[1] != 0)) || (!used.contains(&"b".into()) && (r[2] != 0 || r[3] != 0)) {
			return;
		}
		let mk = |k: usize, ra: usize, rb: usize| {
			let rs: Vec<_> = [("a", ra), ("b", rb)].iter().filter_map(|(c, r)| R[*r].map(|r| (c.to_string(), r))).collect();
			(k > 0).then(|| ext("f", "p.rs", terms[k - 1].clone(), &rs))
		};
		let (old, new) = (mk(o, r[0], r[2]), mk(w, r[1], r[3]));
		for m in METHODS {
			for unit in UNITS {
				let case = || format!("{m:?} {unit:?}: {} -> {}", show_ext(&old), show_ext(&new));
				if i == 12345 {
					ctx.sample(case);
				}
				if !ctx.want(case) {
					continue;
				}
				ctx.state();
				check(ctx, &case, &old, &new, m, unit);
			}
		}
	});
	ctx.bound(format!("{n} x {n} expressions, {ranges} range states of two components on both sides, all methods and dimensions"));
	names(ctx);
	components(ctx);
	files(ctx);
}

/// The outcome does not depend on how components are called, and all pairs of ranges.
fn names(ctx: &Ctx) {
	let names = ["a", "z", "A", "r", "w", "READ2", "x1", "c_c", "T", "new_max", "component", "validators", "a_very_long_component_name_with_37_ch", "ü"];
	let mut rs: Vec<Option<(u32, u32)>> = R.to_vec();
	rs.extend([Some((20, 30)), Some((10, 19)), Some((9, 20)), Some((9, 9)), Some((0, 100)), Some((0, 1)), Some((1, 1000)), Some((1000, 1001))]);
	let forms: [fn(&str) -> SimpleTerm; 3] = [|c| var(c), |c| add(val(3), mul(val(7), var(c))), |c| add(val(1 << 70), mul(var("READ"), var(c)))];
	par(ctx, names.len() * rs.len() * rs.len(), |i| {
		let mut d = Digits(i);
		let (c, ro, rw) = (*d.pick(&names), *d.pick(&rs), *d.pick(&rs));
		let of = |t: SimpleTerm, r: Option<(u32, u32)>| Some(ext("f", "p.rs", t, &r.map(|r| (c.to_string(), r)).into_iter().collect::<Vec<_>>()));
		for k in 0..forms.len() * 3 {
			let (f, g) = (forms[k % 3](c), forms[k / 3](c));
			for (old, new) in [(of(f.clone(), ro), of(g.clone(), rw)), (of(val(2), None), of(g.clone(), rw)), (None, of(g.clone(), rw)), (of(f.clone(), ro), None)] {
				for m in METHODS {
					for unit in UNITS {
						let case = || format!("{m:?} {unit:?}: {} -> {}", show_ext(&old), show_ext(&new));
						if ctx.want(case) {
							ctx.state();
							check(ctx, &case, &old, &new, m, unit);
						}
					}
				}
			}
		}
	});
	ctx.bound(format!("{} component names with all pairs of {} ranges", names.len(), rs.len()));
}

/// Up to 8 components with distinguishable values.
fn components(ctx: &Ctx) {
	for n in 1..=ctx.by_tier(8, 10) {
		let names: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
		let term = |f: &dyn Fn(usize) -> bool, k: u128| {
			(0..n).filter(|i| f(*i)).fold(val(1), |t, i| add(t, mul(val(k * 10u128.pow(2 * i as u32)), var(&names[i]))))
		};
		let rs: Vec<_> = names.iter().enumerate().map(|(i, c)| (c.clone(), (1 + i as u32, 40 + i as u32))).collect();
		par(ctx, 1 << n, |set| {
			for (oset, nset) in [(set, !set), (set, set), (set, usize::MAX), (usize::MAX, set)] {
				let old = Some(ext("f", "p.rs", term(&|i| oset >> i & 1 == 1, 1), &rs));
				let new = Some(ext("f", "p.rs", term(&|i| nset >> i & 1 == 1, 2), &rs));
				for m in METHODS {
					let case = format!("{m:?} Time: {} -> {}", show_ext(&old), show_ext(&new));
					if !ctx.case(&case) {
						continue;
					}
					ctx.state();
					check(ctx, &|| case.clone(), &old, &new, m, Dimension::Time);
				}
			}
		});
	}
	ctx.bound("all subsets of up to 8 (10) components in the old and new version");
}

/// The same through files: both dimensions come from one source.
fn files(ctx: &Ctx) {
	let bodies: [(&str, SimpleTerm, SimpleTerm); 6] = [
		("Weight::from_parts(10, 200)", val(10), val(200)),
		("Weight::from_parts(10, 200).saturating_add(Weight::from_parts(3, 50).saturating_mul(a.into()))", add(val(10), mul(val(3), var("a"))), add(val(200), mul(val(50), var("a")))),
		("Weight::from_parts(1_000, 0).saturating_add(T::DbWeight::get().reads(2_u64)).saturating_add(T::DbWeight::get().writes((1_u64).saturating_mul(a.into())))",
			add(val(1000), add(mul(s(2), var("READ")), mul(var("a"), var("WRITE")))), val(0)),
		("Weight::from_parts(0, 7).saturating_mul(b.into()).saturating_add(T::DbWeight::get().reads(b.into()))", mul(var("b"), var("READ")), mul(val(7), var("b"))),
		("Weight::from_parts(1, 1).saturating_mul(a.into()).saturating_add(Weight::from_parts(0, 3).saturating_mul(b.into()))", var("a"), add(var("a"), mul(val(3), var("b")))),
		("Weight::from_ref_time(5 as u64).saturating_add(Weight::from_ref_time(9 as u64).saturating_mul(a as u64))", add(val(5), mul(val(9), var("a"))), val(0)),
	];
	let doc = |c: &str, r: usize| R[r].map_or(String::new(), |(l, h)| format!("/// The range of component `{c}` is `[{l}, {h}]`.\n"));
	let ranges = 5;
	par(ctx, bodies.len() * bodies.len() * ranges * ranges * ranges, |i| {
		let mut d = Digits(i);
		let (o, w, r, ra, rb) = (d.take(bodies.len()), d.take(bodies.len()), d.take(ranges), d.take(ranges), d.take(ranges));
		let src = |k: usize, a: usize, b: usize| format!("impl<T> WeightInfo for WeightInfo<T> {{\n{}{}fn f(a: u32, b: u32) -> Weight {{ {} }}\n}}", doc("a", a), doc("b", b), bodies[k].0);
		let (os, ns) = (src(o, r, rb), src(w, ra, 0));
		for m in METHODS {
			for unit in UNITS {
				let case = format!("{m:?} {unit:?}: {os} -> {ns}");
				if !ctx.case(&case) {
					continue;
				}
				ctx.state();
				ctx.steps(3);
				ctx.trace();
				let got = guard(|| {
					let (a, b) = (parse_content("p.rs".into(), os.clone()).unwrap(), parse_content("p.rs".into(), ns.clone()).unwrap());
					compare_files(a, b, &params(m, unit), &NO_FILTER).unwrap()
				});
				let got = match got {
					Ok(g) if g.len() == 1 => g,
					Ok(g) => {
						ctx.violation(&case, format!("{} entries", g.len()));
						continue;
					},
					Err(e) => {
						ctx.violation(&case, e);
						continue;
					},
				};
				let t = |k: usize| if unit == Dimension::Time { bodies[k].1.clone() } else { bodies[k].2.clone() };
				let rs = |a: usize, b: usize| [("a", a), ("b", b)].iter().filter_map(|(c, r)| R[*r].map(|r| (c.to_string(), r))).collect::<Vec<_>>();
				let (old, new) = (Some(ext("f", "p", t(o), &rs(r, rb))), Some(ext("f", "p", t(w), &rs(ra, 0))));
				// A component may also be named in the expression of the other dimension only: any
				// outcome for it is right.
				let (both_o, both_n) = (add(bodies[o].1.clone(), bodies[o].2.clone()), add(bodies[w].1.clone(), bodies[w].2.clone()));
				let strict = model_bounds(&Some(ext("f", "p", both_o, &rs(r, rb))), &Some(ext("f", "p", both_n, &rs(ra, 0))), m);
				let used = model_bounds(&old, &new, m);
				match (got[0].term(), &used, &strict) {
					(None, Err(_), _) | (None, _, Err(_)) => {},
					(None, Ok(_), Ok(_)) => ctx.violation(&case, format!("failed: {:?}", got[0].error())),
					(Some(_), Err(c), _) => ctx.violation(&case, format!("compared in spite of {c:?}")),
					(Some(g), Ok(b), _) => {
						let all = allowed(b, m);
						let v = |e: &Option<SimpleExtrinsic>, a: &Assign| e.as_ref().map(|e| eval(&e.term, a, unit));
						if !all.iter().any(|a| v(&old, a) == g.old_v && v(&new, a) == g.new_v) {
							ctx.violation(&case, format!("reported {:?} -> {:?}, allowed {:?}", g.old_v, g.new_v, all.iter().map(|a| (v(&old, a), v(&new, a))).collect::<Vec<_>>()));
						}
					},
				}
			}
		}
	});
	ctx.bound("6 x 6 function bodies in files with annotations, all methods and dimensions");
}

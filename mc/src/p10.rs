//! P10 and P11: filtering and sorting of entries.
use crate::{model::*, report::Ctx, util::*};
use subweight_core::{
	filter_changes, scope::SimpleScope, sort_changes, CompareMethod, ExtrinsicDiff, FilterParams, RelativeChange, TermChange, TermDiff,
};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct E {
	/// None: failed
	kind: Option<RelativeChange>,
	percent: f64,
	warn: bool,
}

fn make(e: &E, i: usize) -> ExtrinsicDiff {
	let c = || TermChange {
		old: Some(val(i as u128)),
		old_v: (e.kind != Some(RelativeChange::Added)).then_some(i as u128),
		new: Some(val(1)),
		new_v: (e.kind != Some(RelativeChange::Removed)).then_some(i as u128 + 1),
		scope: SimpleScope::empty(),
		percent: e.percent,
		change: e.kind.unwrap_or(RelativeChange::Changed),
		method: CompareMethod::Base,
	};
	ExtrinsicDiff {
		name: format!("f{i}"),
		file: format!("p{}", i % 2),
		change: match e.kind {
			None => TermDiff::Failed(format!("error {i}")),
			_ if e.warn => TermDiff::Warning(c(), format!("warning {i}")),
			_ => TermDiff::Changed(c()),
		},
	}
}
fn same(a: &ExtrinsicDiff, b: &ExtrinsicDiff) -> bool {
	let t = |e: &ExtrinsicDiff| e.term().map(|t| (t.old.clone(), t.new.clone(), t.old_v, t.new_v, t.percent.to_bits(), t.change, t.method, t.scope.clone()));
	a.name == b.name && a.file == b.file && a.error() == b.error() && a.warning() == b.warning() && t(a) == t(b)
}
fn show(l: &[E]) -> String {
	l.iter().map(|e| format!("{}{:?} {:?}", if e.warn { "warning " } else { "" }, e.kind, e.percent)).collect::<Vec<_>>().join(", ")
}

const KINDS: [RelativeChange; 4] = [RelativeChange::Unchanged, RelativeChange::Added, RelativeChange::Removed, RelativeChange::Changed];

pub fn run(ctx: &Ctx) {
	use RelativeChange::*;
	let thresholds = [0.0, 1e-7, 0.001, 1.0, 4.999, 5.0, 5.001, 99.0, 100.0, 1000.0, 1e12, f64::INFINITY];
	let percents = [0.0, -0.0, 1e-7, -1e-7, 0.001, -0.001, 4.999, -4.999, 5.0, -5.0, 5.001, -5.001, -99.0, 99.0, 100.0, -100.0, 250.0, 1e12, f64::INFINITY];
	let mut pool = vec![E { kind: None, percent: 0.0, warn: false }];
	for warn in [false, true] {
		pool.push(E { kind: Some(Unchanged), percent: 0.0, warn });
		pool.push(E { kind: Some(Added), percent: f64::INFINITY, warn });
		pool.push(E { kind: Some(Added), percent: 0.0, warn });
		pool.push(E { kind: Some(Removed), percent: -100.0, warn });
		for p in percents {
			pool.push(E { kind: Some(Changed), percent: p, warn });
		}
	}
	// no list, and all lists of kinds including the empty one; a list may repeat
	let mut lists: Vec<Option<Vec<RelativeChange>>> = vec![None];
	for s in 0..16 {
		lists.push(Some((0..4).filter(|i| s >> i & 1 == 1).map(|i| KINDS[i]).collect()));
	}
	lists.push(Some(vec![Changed, Unchanged, Changed]));
	let len = ctx.by_tier(2, 3);
	for l in 0..=len {
		par(ctx, pool.len().pow(l as u32), |i| {
			if ctx.enough() {
				return;
			}
			let es: Vec<E> = seq(i, pool.len(), l).into_iter().map(|k| pool[k]).collect();
			for th in thresholds {
				for list in &lists {
					let case = || format!("threshold {th} kinds {list:?}: {}", show(&es));
					if i == 77 && th == 5.0 {
						ctx.sample(case);
					}
					if !ctx.want(case) {
						continue;
					}
					ctx.state();
					ctx.steps(1);
					ctx.trace();
					let all: Vec<_> = es.iter().enumerate().map(|(i, e)| make(e, i)).collect();
					let f = FilterParams { threshold: th, change: list.clone(), extrinsic: None, pallet: None };
					let got = match guard(|| filter_changes(all.clone(), &f)) {
						Ok(g) => g,
						Err(e) => {
							ctx.violation(&case(), e);
							continue;
						},
					};
					let want: Vec<usize> = es.iter().enumerate().filter(|(_, e)| match e.kind {
						None => true,
						Some(k) => list.as_ref().map_or(true, |l| l.contains(&k)) && match k {
							Changed => e.percent.abs() >= th,
							Unchanged => th == 0.0,
							_ => true,
						},
					}).map(|(i, _)| i).collect();
					// "zero" up to rounding of the option: a threshold below 1e-6 may count as zero
					let lenient = th > 0.0 && th < 1e-6 && es.iter().any(|e| e.kind == Some(Unchanged));
					let ok = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| same(g, &all[*w]));
					if !ok && !lenient {
						ctx.violation(&case(), format!("kept {:?}, expected {want:?}", got.iter().map(|g| &g.name).collect::<Vec<_>>()));
					}
				}
			}
		});
	}
	ctx.bound(format!("all lists of up to {len} of {} entries, {} thresholds, {} lists of kinds", pool.len(), thresholds.len(), lists.len()));
	// Long lists
	let sz = crate::scale::sizes(ctx, ctx.by_tier(5001, 40_000));
	par(ctx, sz.len() * 3 * lists.len(), |i| {
		let mut d = Digits(i);
		let (n, th, list) = (*d.pick(&sz), [0.0, 5.0, 100.0][d.take(3)], d.pick(&lists));
		let case = format!("threshold {th} kinds {list:?}: {n} entries");
		if !ctx.case(&case) {
			return;
		}
		ctx.state();
		ctx.steps(1);
		ctx.trace();
		let all: Vec<_> = (0..n).map(|k| make(&pool[k % pool.len()], k)).collect();
		let f = FilterParams { threshold: th, change: list.clone(), extrinsic: None, pallet: None };
		let want = (0..n).filter(|k| {
			let e = &pool[k % pool.len()];
			e.kind.map_or(true, |k| list.as_ref().map_or(true, |l| l.contains(&k)) && match k {
				Changed => e.percent.abs() >= th,
				Unchanged => th == 0.0,
				_ => true,
			})
		});
		match guard(|| filter_changes(all.clone(), &f)) {
			Ok(g) if g.len() == want.clone().count() && g.iter().zip(want).all(|(g, w)| same(g, &all[w])) => {},
			Ok(g) => ctx.violation(&case, format!("kept {} entries, or others than it should", g.len())),
			Err(e) => ctx.violation(&case, e),
		}
	});
	ctx.bound(format!("lists of {} lengths up to {}", sz.len(), sz[sz.len() - 1]));
}

pub fn sorting(ctx: &Ctx) {
	use RelativeChange::*;
	let mut pool = vec![E { kind: None, percent: 0.0, warn: false }];
	for warn in [false, true] {
		pool.push(E { kind: Some(Unchanged), percent: 0.0, warn });
		pool.push(E { kind: Some(Added), percent: f64::INFINITY, warn });
		pool.push(E { kind: Some(Removed), percent: -100.0, warn });
		for p in [-50.0, -0.02, 0.0, 0.0004, 0.02, 7.0, f64::INFINITY] {
			pool.push(E { kind: Some(Changed), percent: p, warn });
		}
	}
	let len = ctx.by_tier(4, 5);
	for l in 0..=len {
		par(ctx, pool.len().pow(l as u32), |i| {
			if !ctx.enough() {
				let es: Vec<E> = seq(i, pool.len(), l).into_iter().map(|k| pool[k]).collect();
				sort_check(ctx, &es);
			}
		});
	}
	ctx.bound(format!("all lists of up to {len} of {} entries", pool.len()));
	// Percentages that differ in the thousandths, and those beyond the usual integers.
	let fine: Vec<E> = [3.0, 3.002, 3.0095, 3.0115, -3.002, -3.0, -0.0095, 0.0025, 99999.998, 1e18, 1e20, 2e20, -1e20, 1e30, f64::INFINITY]
		.iter()
		.map(|p| E { kind: Some(Changed), percent: *p, warn: false })
		.chain([E { kind: Some(Added), percent: f64::INFINITY, warn: false }])
		.collect();
	for l in 2..=ctx.by_tier(3, 4) {
		par(ctx, fine.len().pow(l as u32), |i| {
			let es: Vec<E> = seq(i, fine.len(), l).into_iter().map(|k| fine[k]).collect();
			sort_check(ctx, &es);
		});
	}
	ctx.bound(format!("all lists of up to {} of {} close or huge percentages", ctx.by_tier(3, 4), fine.len()));
	// All orders of longer lists, and long lists (sort algorithms depend on the length).
	let long: Vec<E> = [(None, 0.0), (None, 0.0), (Some(Changed), 3.0), (Some(Changed), -3.0), (Some(Unchanged), 0.0), (Some(Added), f64::INFINITY), (Some(Removed), -100.0), (Some(Changed), 3.0)]
		.iter().map(|(k, p)| E { kind: *k, percent: *p, warn: false }).collect();
	let n = ctx.by_tier(7, 8);
	let perms = permutations(n);
	par(ctx, perms.len(), |i| {
		let es: Vec<E> = perms[i].iter().map(|k| E { warn: i % 3 == k % 3 && long[*k].kind.is_some(), ..long[*k] }).collect();
		sort_check(ctx, &es);
	});
	ctx.bound(format!("all orders of {n} entries"));
	let small: Vec<E> = [(None, 0.0), (Some(Changed), -3.0), (Some(Changed), 3.0), (Some(Changed), 900.0), (Some(Unchanged), 0.0), (Some(Added), f64::INFINITY), (Some(Removed), -100.0)].iter().map(|(k, p)| E { kind: *k, percent: *p, warn: false }).collect();
	let p = small.len();
	let block = ctx.by_tier(3, 4);
	par(ctx, p.pow(block as u32) * 3, |i| {
		let mut d = Digits(i);
		let b: Vec<usize> = (0..block).map(|_| d.take(p)).collect();
		let len = [21, 33, 70][d.take(3)];
		let es: Vec<E> = (0..len).map(|k| small[(b[k % block] + k / block * b[(k + 1) % block]) % p]).collect();
		sort_check(ctx, &es);
	});
	ctx.bound(format!("lists of 21, 33 and 70 entries from {} patterns", p.pow(block as u32)));
}

fn sort_check(ctx: &Ctx, es: &[E]) {
	let case = || format!("sort {}", show(es));
	if !ctx.want(case) {
		return;
	}
	if es.len() == 3 && es[0].kind.is_none() && es[1].percent == 7.0 {
		ctx.sample(case);
	}
	ctx.state();
	ctx.steps(3);
	ctx.trace();
	let all: Vec<_> = es.iter().enumerate().map(|(i, e)| make(e, i)).collect();
	let sort = |l: &[ExtrinsicDiff]| {
		let mut l = l.to_vec();
		guard(|| sort_changes(&mut l)).map(|_| l)
	};
	let rev: Vec<_> = all.iter().rev().cloned().collect();
	let (a, r) = match (sort(&all), sort(&rev)) {
		(Ok(a), Ok(r)) => (a, r),
		(Err(e), _) | (_, Err(e)) => return ctx.violation(&case(), e),
	};
	let again = sort(&a).unwrap_or_default();
	let index = |e: &ExtrinsicDiff| e.name[1..].parse::<usize>().unwrap_or(usize::MAX);
	// a permutation of unmodified entries
	let mut seen = vec![false; es.len()];
	for e in &a {
		let i = index(e);
		if i >= es.len() || seen[i] || !same(e, &all[i]) {
			return ctx.violation(&case(), "not a permutation of the entries".into());
		}
		seen[i] = true;
	}
	if a.len() != es.len() || r.len() != es.len() {
		return ctx.violation(&case(), "entries are lost".into());
	}
	let names = |l: &[ExtrinsicDiff]| l.iter().map(|e| show(&[es[index(e)]])).collect::<Vec<_>>();
	let rank = |e: &E| match e.kind {
		None => 0,
		Some(RelativeChange::Unchanged) => 1,
		Some(RelativeChange::Added) => 2,
		Some(RelativeChange::Removed) => 3,
		Some(RelativeChange::Changed) => 4,
	};
	for l in [&a, &r] {
		for w in l.windows(2) {
			let (x, y) = (&es[index(&w[0])], &es[index(&w[1])]);
			if rank(x) > rank(y) || (rank(x) == rank(y) && x.kind.is_some() && x.percent > y.percent + 0.001) {
				return ctx.violation(&case(), format!("out of order: {:?}", names(l)));
			}
		}
	}
	// sorting again changes nothing
	if again.len() != a.len() || !again.iter().zip(&a).all(|(x, y)| x.name == y.name) {
		return ctx.violation(&case(), format!("sorted again, {:?} becomes {:?}", names(&a), names(&again)));
	}
	// the initial order only matters between equal entries (those closer than a thousandth may be)
	let key = |e: &ExtrinsicDiff| {
		let e = &es[index(e)];
		(rank(e), if e.kind.is_some() && e.percent.abs() >= 0.001 { e.percent } else { 0.0 })
	};
	if !a.iter().map(key).eq(r.iter().map(key)) {
		ctx.violation(&case(), format!("{:?}, but from the reversed list {:?}", names(&a), names(&r)));
	}
}

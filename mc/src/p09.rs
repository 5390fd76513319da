//! P09: order independence, self comparison, mirror image.
use crate::{model::*, p08::*, report::Ctx, util::*};
use subweight_core::{
	compare_files,
	parse::pallet::{parse_content, ChromaticExtrinsic},
	CompareMethod, Dimension, RelativeChange,
};

type Result = Vec<(String, String, Entry)>;
fn compare(o: &[ChromaticExtrinsic], n: &[ChromaticExtrinsic], m: CompareMethod, u: Dimension) -> std::result::Result<Result, String> {
	guard(|| {
		compare_files(o.to_vec(), n.to_vec(), &params(m, u), &crate::p05::NO_FILTER)
			.map_err(|e| e.to_string())
			.map(|d| d.iter().map(|e| (e.file.clone(), e.name.clone(), entry(e))).collect())
	})
	.and_then(|r| r)
}

/// Functions with all kinds of expressions, ranges and failures.
fn pool() -> Vec<(&'static str, String)> {
	let doc = |c: &str, l: u32, h: u32| format!("/// The range of component `{c}` is `[{l}, {h}]`.\n");
	let w = |d: String, name: &str, b: &str| format!("impl<T> WeightInfo for WeightInfo<T> {{\n{d}fn {name}(a: u32, b: u32, c: u32) -> Weight {{ {b} }}\n}}\n");
	let lin = "Weight::from_parts(1_000, 7).saturating_add(Weight::from_parts(13, 3).saturating_mul(a.into())).saturating_add(Weight::from_parts(5, 11).saturating_mul(b.into()))";
	let db = "Weight::from_parts(5, 5).saturating_add(T::DbWeight::get().reads(2_000_u64)).saturating_add(T::DbWeight::get().writes((1_u64).saturating_mul(c.into())))";
	let zero = "Weight::from_parts(0, 0)";
	let three = "Weight::from_parts(1, 1).saturating_mul(a.into()).saturating_add(Weight::from_parts(1, 1).saturating_mul(b.into())).saturating_add(Weight::from_parts(1, 1).saturating_mul(c.into()))";
	vec![
		("a.rs", w(doc("a", 1, 9) + &doc("b", 0, 3), "f", lin)),
		("a.rs", w(doc("a", 2, 7) + &doc("b", 0, 3), "f", &lin.replace("1_000", "2"))),
		("a.rs", w(String::new(), "f", three)),
		("a.rs", w(doc("c", 0, 3), "g", db)),
		("a.rs", w(String::new(), "g", zero)),
		("x/a.rs", w(String::new(), "f", db)),
		("x/a.rs", w(doc("a", 3, 3) + &doc("b", 0, 100), "f", lin)),
		("b.rs", w(String::new(), "g", three)),
		("b.rs", w(doc("c", 5, 6), "g", three)),
		("b.rs", w(doc("a", 5, 6), "f_", "Weight::from_parts(3, 3).saturating_mul(a.into())")),
		("b.rs", w(String::new(), "f", zero)),
		("b.rs", w(String::new(), "f", "Weight::from_parts(18446744073709551615, 18446744073709551615)")),
	]
}

pub fn run(ctx: &Ctx) {
	let pool = pool();
	let parsed: Vec<Vec<ChromaticExtrinsic>> = pool.iter().map(|(n, s)| parse_content((*n).into(), s.clone()).expect("must parse")).collect();
	for (from, max) in ctx.by_tier(vec![(9, 3)], vec![(pool.len(), 3), (9, 4)]) {
		orders(ctx, &pool, &parsed, from, max);
	}
}

/// All sets of up to `max` of the first functions without duplicates.
fn orders(ctx: &Ctx, pool: &[(&'static str, String)], parsed: &[Vec<ChromaticExtrinsic>], from: usize, max: usize) {
	let sets: Vec<Vec<usize>> = (0..1usize << from)
		.filter(|s| s.count_ones() as usize <= max)
		.map(|s| (0..pool.len()).filter(|i| s >> i & 1 == 1).collect::<Vec<_>>())
		.filter(|s| {
			let mut k: Vec<_> = s.iter().map(|i| (pool[*i].0, &parsed[*i][0].name)).collect();
			k.sort();
			k.windows(2).all(|w| w[0] != w[1])
		})
		.collect();
	let perms: Vec<Vec<Vec<usize>>> = (0..=4).map(permutations).collect();
	let pick = |s: &[usize], p: &[usize]| p.iter().flat_map(|i| parsed[s[*i]].clone()).collect::<Vec<_>>();
	let id: Vec<usize> = (0..4).collect();
	par(ctx, sets.len() * sets.len(), |i| {
		if ctx.enough() {
			return;
		}
		let (o, n) = (&sets[i % sets.len()], &sets[i / sets.len()]);
		let (os, ns) = (pick(o, &id[..o.len()]), pick(n, &id[..n.len()]));
		for m in METHODS {
			for u in UNITS {
				let case = || format!("{m:?} {u:?}: functions {o:?} -> {n:?}");
				if !ctx.want(case) {
					continue;
				}
				ctx.state();
				ctx.trace();
				let base = match compare(&os, &ns, m, u) {
					Ok(b) => b,
					Err(e) => {
						ctx.violation(&case(), e);
						continue;
					},
				};
				// repetitions, all permutations of either side, and of both alike
				let alike = o.len() == n.len();
				let it = (0..3).map(|_| (os.clone(), ns.clone()))
					.chain(perms[o.len()].iter().map(|p| (pick(o, p), ns.clone())))
					.chain(perms[n.len()].iter().map(|p| (os.clone(), pick(n, p))))
					.chain(perms[o.len()].iter().filter(|_| alike).map(|p| (pick(o, p), pick(n, p))));
				for (a, b) in it {
					ctx.steps(1);
					let r = compare(&a, &b, m, u);
					if r.as_ref() != Ok(&base) {
						let f = |l: &[ChromaticExtrinsic]| l.iter().map(|e| format!("{} {}", e.pallet, e.name)).collect::<Vec<_>>();
						ctx.violation(&case(), format!("{base:?}, but in the order {:?} -> {:?} it is {r:?}", f(&a), f(&b)));
						break;
					}
				}
				// self comparison
				if o == n {
					for (file, name, e) in &base {
						if e.error.is_none() && (e.kind != Some(RelativeChange::Unchanged) || f64::from_bits(e.percent) != 0.0 || e.old != e.new) {
							ctx.violation(&case(), format!("{file} {name} compared with itself is {e:?}"));
						}
					}
				}
				// mirror image
				if !is_worst(m) {
					ctx.steps(1);
					let r = compare(&ns, &os, m, u).unwrap_or_default();
					let ok = r.len() == base.len() && r.iter().zip(&base).all(|(r, b)| {
						let kind = match b.2.kind {
							Some(RelativeChange::Added) => Some(RelativeChange::Removed),
							Some(RelativeChange::Removed) => Some(RelativeChange::Added),
							k => k,
						};
						r.0 == b.0 && r.1 == b.1 && r.2.kind == kind && r.2.old == b.2.new && r.2.new == b.2.old && r.2.error.is_some() == b.2.error.is_some()
							&& (kind.is_none() || close(f64::from_bits(r.2.percent), percent(r.2.old.unwrap_or(0), r.2.new.unwrap_or(0))))
					});
					if !ok {
						ctx.violation(&case(), format!("{base:?}, but swapped {r:?}"));
					}
				}
			}
		}
	});
	ctx.sample(|| format!("{:?}", &sets[sets.len() / 2]));
	ctx.bound(format!("all {0} x {0} pairs of sets of up to {max} of {1} functions, all methods and dimensions, all orders", sets.len(), from));
}

//! P07: exact methods need one agreed range.
use crate::{model::*, p05::model_bounds, report::Ctx, util::*};
use subweight_core::{compare_extrinsics, compare_files, parse::pallet::{parse_content, SimpleExtrinsic}};

fn names_component(msg: &str, c: &str) -> bool {
	msg.split(|ch: char| !ch.is_alphanumeric() && ch != '_').any(|w| w == c)
}

type Show = Result<(Option<u128>, Option<u128>, u64), String>;
fn result(old: &Option<SimpleExtrinsic>, new: &Option<SimpleExtrinsic>, p: &subweight_core::CompareParams) -> Result<Show, String> {
	guard(|| compare_extrinsics(old.clone(), new.clone(), p).map(|g| (g.old_v, g.new_v, g.percent.to_bits())))
}

pub fn run(ctx: &Ctx) {
	// For each component: where it is used, and the range on either side.
	// The names do not occur in messages by accident.
	let comps = ["quux", "frob_", "zork"];
	let ranges: [Option<(u32, u32)>; 4] = [None, Some((2, 9)), Some((1, 9)), Some((2, 10))];
	let k = ctx.by_tier(2, 3);
	let per = 4 * ranges.len() * ranges.len();
	for n in 1..=k {
		par(ctx, per.pow(n as u32), |i| {
			if ctx.enough() {
				return;
			}
			let mut d = Digits(i);
			let (mut ot, mut nt) = (val(1000), val(1001));
			let (mut or, mut nr) = (vec![], vec![]);
			for (k, c) in comps.iter().take(n).enumerate() {
				let u = d.take(4);
				if u & 1 == 1 {
					ot = add(ot, mul(val(10 + k as u128), var(c)));
				}
				if u & 2 == 2 {
					nt = add(nt, mul(var(c), val(20 + k as u128)));
				}
				// annotations are stored without underscores
				let c = c.replace('_', "");
				or.extend(d.pick(&ranges).map(|r| (c.clone(), r)));
				nr.extend(d.pick(&ranges).map(|r| (c.clone(), r)));
			}
			for sides in 0..3 {
				let old = (sides != 1).then(|| ext("f", "p", ot.clone(), &or));
				let new = (sides != 2).then(|| ext("f", "p", nt.clone(), &nr));
				for m in METHODS {
					let case = || format!("{m:?}: {} -> {}", show_ext(&old), show_ext(&new));
					if i == 333 {
						ctx.sample(case);
					}
					if !ctx.want(case) {
						continue;
					}
					ctx.state();
					ctx.steps(1);
					ctx.trace();
					// ranges by the name that the function uses
					let named = |e: &Option<SimpleExtrinsic>| e.clone().map(|mut e| {
						if let Some(r) = e.comp_ranges.as_mut() {
							if let Some(x) = r.remove("frob") {
								r.insert("frob_".into(), x);
							}
						}
						e
					});
					let want = model_bounds(&named(&old), &named(&new), m);
					let got = result(&old, &new, &params(m, UNITS[i % 2]));
					match (&got, &want) {
						(Ok(Ok(_)), Ok(_)) => {},
						(Ok(Err(e)), Err(bad)) if bad.iter().any(|c| names_component(e, c)) => {},
						_ => ctx.violation(&case(), format!("{got:?}, refused should be {:?}", want.as_ref().err())),
					}
					// ranges of unused components have no influence
					let mut used = vec![];
					old.iter().chain(&new).for_each(|e| vars(&e.term, &mut used));
					for c in comps.iter().take(n).filter(|c| !used.contains(&c.to_string())) {
						for on in 0..2 {
							for r in &ranges {
								let set = |e: &Option<SimpleExtrinsic>| e.clone().map(|mut e| {
									let rs = e.comp_ranges.get_or_insert_with(Default::default);
									rs.remove(&c.replace('_', ""));
									if let Some((min, max)) = r {
										rs.insert(c.replace('_', ""), subweight_core::parse::pallet::ComponentRange { min: *min, max: *max });
									}
									e
								});
								let (o, w) = if on == 0 { (set(&old), new.clone()) } else { (old.clone(), set(&new)) };
								ctx.steps(1);
								let other = result(&o, &w, &params(m, UNITS[i % 2]));
								if other != got {
									ctx.violation(&case(), format!("{got:?}, but with the unused {c} in {r:?}: {other:?}"));
								}
							}
						}
					}
				}
			}
		});
		ctx.bound(format!("{n} components: every use in old/new x every pair of 4 range states, both or one side present, all methods; every change of an unused range"));
	}
	files(ctx);
}

/// Through files, with several functions: only the functions concerned fail.
fn files(ctx: &Ctx) {
	let docs = ["", "/// The range of component `quux` is `[2, 9]`.\n", "/// The range of component `quux` is `[2, 10]`.\n", "/// The range of component `zork` is `[2, 9]`.\n"];
	let bodies = ["Weight::from_parts(5, 5)", "Weight::from_parts(5, 5).saturating_mul(quux.into())"];
	par(ctx, (docs.len() * bodies.len()).pow(3), |i| {
		let mut d = Digits(i);
		let f: Vec<(usize, usize)> = (0..3).map(|_| (d.take(docs.len()), d.take(bodies.len()))).collect();
		let func = |n: &str, (doc, b): (usize, usize)| format!("{}fn {n}(quux: u32, zork: u32) -> Weight {{ {} }}\n", docs[doc], bodies[b]);
		// `f` with its two versions, `g` the same in both
		let old = format!("impl WeightInfo for () {{\n{}{}}}", func("f", f[0]), func("g", f[2]));
		let new = format!("impl WeightInfo for () {{\n{}{}}}", func("f", f[1]), func("g", f[2]));
		for m in METHODS {
			let case = format!("{m:?}: {old} -> {new}");
			if !ctx.case(&case) {
				continue;
			}
			ctx.state();
			ctx.steps(3);
			ctx.trace();
			let got = guard(|| {
				compare_files(parse_content("p".into(), old.clone()).unwrap(), parse_content("p".into(), new.clone()).unwrap(), &params(m, UNITS[i % 2]), &crate::p05::NO_FILTER)
					.unwrap()
					.iter()
					.map(|e| (e.name.clone(), e.error().cloned()))
					.collect::<Vec<_>>()
			});
			let r = |(doc, _): (usize, usize)| [None, Some((2, 9)), Some((2, 10)), None][doc];
			let bad = |a: (usize, usize), b: (usize, usize)| (a.1 == 1 || b.1 == 1) && bounds(r(a), r(b), m).is_err();
			let want = [("f", bad(f[0], f[1])), ("g", bad(f[2], f[2]))];
			let ok = matches!(&got, Ok(g) if g.len() == 2 && g.iter().zip(want).all(|((n, e), (wn, bad))| n == wn && match e {
				None => !bad,
				Some(e) => bad && names_component(e, "quux"),
			}));
			if !ok {
				ctx.violation(&case, format!("{got:?}, expected errors {want:?}"));
			}
		}
	});
	ctx.bound("two functions in files with four annotations and two bodies each, all methods");
}

//! P03: the functions and ranges of a weight file.
use crate::{p02::params, report::Ctx, util::*};
use std::collections::BTreeMap;
use subweight_core::{
	compare_extrinsics,
	parse::pallet::{parse_content, ChromaticExtrinsic},
	CompareMethod, Dimension,
};

/// What one item of a file contributes.
#[derive(Clone)]
enum Item {
	/// Adds and hides nothing.
	Inert(&'static str),
	/// Readable weight implementation: (source with `@` for the item number, function names, values)
	Weights(&'static str, Vec<(&'static str, u128)>),
}

fn items() -> Vec<Item> {
	use Item::*;
	vec![
		Weights("impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> { fn a() -> Weight { Weight::from_parts(1@, 5) } fn b() -> Weight { Weight::from_parts(2@, 5) } }", vec![("a", 10), ("b", 20)]),
		Weights("impl WeightInfo for () { fn b() -> Weight { Weight::from_parts(3@, 5) } fn a() -> Weight { Weight::from_parts(4@, 5) } }", vec![("b", 30), ("a", 40)]),
		Weights("impl<T: frame_system::Config> my_pallet::WeightInfo for WeightInfo<T> { const A: u32 = 1; fn c() -> Weight { Weight::from_ref_time(5@) } type B = u8; }", vec![("c", 50)]),
		Weights("impl<T> WeightInfo<T> { /// Doc\n\t#[inline]\n\tpub fn d(_x: u32) -> Weight { 6@ as Weight } pub(crate) fn e<A>(&self) -> frame_support::Weight { (7@ as Weight) } }", vec![("d", 60), ("e", 70)]),
		Inert("pub trait WeightInfo { fn a() -> Weight; fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("use frame_support::{traits::Get, weights::Weight};"),
		Inert("impl WeightInfo for Other { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl<T> WeightInfo for weights::SubstrateWeight<T> { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for ::WeightInfo { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for (u8, u16) { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for &SubstrateWeight { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Weights("impl WeightInfo for () { fn g(x: u32) -> Weight { x } }", vec![("g", 1)]),
		Weights("impl WeightInfo for () { fn h() -> Weight { Weight::zero() } }", vec![("h", 0)]),
		Inert("impl WeightInfo for () { }"),
		Inert("impl WeightInfo for () { const X: u8 = 1; }"),
		Inert("impl WeightInfo for () { fn a() -> Weight { Weight::from_parts(9, 9) } fn z() -> u64 { 5 } }"),
		Inert("impl WeightInfo for () { fn z() -> Weight { let x = 5; Weight::from_parts(x, 9) } fn a() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for WeightInfo { fn a() -> Weight { Weight::from_parts(9, 9) } fn z() -> Weight { unknown(9) } }"),
		Inert("impl WeightInfo for () { fn z() { } }"),
		Inert("impl WeightInfo for () { fn z() -> Weight { } }"),
		Inert("impl WeightInfo for () { /// The range of component `x` is `[5, 4]`.\n\tfn z(x: u32) -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("mod inner { impl WeightInfo for () { fn z() -> Weight { Weight::from_parts(9, 9) } } }"),
		Inert("fn a() -> Weight { Weight::from_parts(9, 9) }"),
		Inert("pub struct SubstrateWeight<T>(PhantomData<T>);"),
		Inert("macro_rules! foo { () => { impl WeightInfo for () { fn z() -> Weight { Weight::from_parts(9, 9) } } } }"),
		Inert("#![allow(unused)]"),
		Inert("/* impl WeightInfo for () { fn z() -> Weight { Weight::from_parts(9, 9) } } */"),
		Inert("impl WeightInfo for SubstrateWeight2<T> { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for [u8; 1] { fn z() -> Weight { Weight::from_parts(9, 9) } }"),
		Inert("impl WeightInfo for () { fn z() -> &Weight { Weight::from_parts(9, 9) } }"),
	]
}

fn time(e: &ChromaticExtrinsic) -> Option<u128> {
	let s = crate::p01::scope(Dimension::Time, 1, 1);
	e.term.simplify(Dimension::Time).ok()?.eval(&s).ok()
}

/// Ranges without the underscores of the names, which do not count.
fn ranges(e: &ChromaticExtrinsic) -> BTreeMap<String, (u32, u32)> {
	e.comp_ranges
		.clone()
		.unwrap_or_default()
		.into_iter()
		.map(|(k, v)| (k.replace('_', ""), (v.min, v.max)))
		.collect()
}

pub fn run(ctx: &Ctx) {
	let items = items();
	let len = ctx.by_tier(3, 4);
	for l in 0..=len {
		par(ctx, items.len().pow(l as u32), |i| {
			if ctx.enough() {
				return;
			}
			let s = seq(i, items.len(), l);
			// inner attributes are only allowed at the start of a file
			if s.iter().skip(1).any(|k| matches!(items[*k], Item::Inert("#![allow(unused)]"))) {
				return;
			}
			let mut src = String::new();
			let mut want: Option<Vec<(&str, u128)>> = None;
			for (pos, k) in s.iter().enumerate() {
				match &items[*k] {
					Item::Inert(t) => src += t,
					Item::Weights(t, f) => {
						src += &t.replace('@', &pos.to_string());
						if want.is_none() {
							let shift = if t.contains('@') { pos as u128 } else { 0 };
							want = Some(f.iter().map(|(n, v)| (*n, v + shift)).collect());
						}
					},
				}
				src += "\n";
			}
			if !ctx.case(&src) {
				return;
			}
			ctx.state();
			ctx.steps(1);
			ctx.trace();
			if i % (items.len().pow(l as u32) / 2 + 1) == 1 {
				ctx.sample(|| src.clone());
			}
			let got = guard(|| parse_content("my/file.rs".into(), src.clone()));
			match (got, want) {
				(Err(p), _) => ctx.violation(&src, format!("crashed: {p}")),
				(Ok(Err(_)), None) => ctx.outcome("no implementation"),
				(Ok(Err(e)), Some(w)) => ctx.violation(&src, format!("{w:?} not found: {e}")),
				(Ok(Ok(v)), w) => {
					let g: Vec<(&str, u128)> =
						v.iter().map(|e| (e.name.as_str(), time(e).unwrap_or(u128::MAX))).collect();
					if Some(&g) != w.as_ref() || v.iter().any(|e| e.pallet != "my/file.rs" || !ranges(e).is_empty()) {
						ctx.violation(&src, format!("listed {g:?}, expected {w:?}: {v:?}"));
					} else {
						ctx.outcome("implementation found");
					}
				},
			}
		});
	}
	ctx.bound(format!("all files of up to {len} items out of {}", items.len()));

	// Functions within one implementation: every sequence of up to 3 functions.
	#[derive(Clone)]
	struct F(&'static str, Option<(&'static str, u128)>);
	let fns = [
		F("fn foo() -> Weight { Weight::from_parts(11, 1) }", Some(("foo", 11))),
		F("fn foo_bar(x: u32, ) -> Weight { Weight::from_parts(12, 1) }", Some(("foo_bar", 12))),
		F("#[cfg(x)]\n fn r#type() -> Weight { (13 as Weight) }", Some(("r#type", 13))),
		F("pub fn _baz(_: u32) -> MyWeight { Weight::from_ref_time(14) }", Some(("_baz", 14))),
		F("fn ünï() -> super::Weight { Weight::from_parts(15, 0); }", Some(("ünï", 15))),
		F("const N: u32 = 3;", Some(("", 0))),
		F("type W = u8;", Some(("", 0))),
		F("fn bad() -> u64 { 5 }", None),
		F("fn bad2() -> Weight { 5; 6 }", None),
		F("fn bad3() -> Weight { self.x() }", None),
		F("fn bad4() -> Weights { Weight::zero() }", None),
		F("/// The range of component `a` is `[0, 99999999999]`.\n fn bad5() -> Weight { Weight::zero() }", None),
		F("fn bad6() -> (Weight,) { Weight::zero() }", None),
	];
	let heads = ["impl WeightInfo for ()", "impl<T: Config> WeightInfo for SubstrateWeight<T>", "impl<T> x::y::WeightInfo for WeightInfo<T> where T: X"];
	for l in 1..=ctx.by_tier(3, 4) {
		par(ctx, fns.len().pow(l as u32) * heads.len(), |i| {
			let mut d = Digits(i);
			let h = d.pick(&heads);
			let s = seq(d.0, fns.len(), l);
			let src = format!("{h} {{\n{}\n}}", s.iter().map(|k| fns[*k].0).collect::<Vec<_>>().join("\n"));
			if !ctx.case(&src) {
				return;
			}
			ctx.state();
			ctx.steps(1);
			ctx.trace();
			let want: Option<Vec<_>> = s.iter().map(|k| fns[*k].1).collect();
			let want = want
				.map(|v| v.into_iter().filter(|f| f.1 != 0).collect::<Vec<_>>())
				.filter(|v| !v.is_empty());
			match guard(|| parse_content("p".into(), src.clone())) {
				Err(p) => ctx.violation(&src, format!("crashed: {p}")),
				Ok(r) => {
					let got = r.ok().map(|v| v.iter().map(|e| (e.name.clone(), time(e).unwrap_or(1))).collect::<Vec<_>>());
					let want = want.map(|v| v.iter().map(|(n, t)| (n.to_string(), *t)).collect::<Vec<_>>());
					if got != want {
						ctx.violation(&src, format!("listed {got:?}, expected {want:?}"));
					}
				},
			}
		});
	}
	range_annotations(ctx);
	applies(ctx);
	crate::scale::content(ctx);
}

/// Doc comments and the ranges they state.
fn range_annotations(ctx: &Ctx) {
	// (line, Ok(Some(range)) | Ok(None) | Err)
	type L = (&'static str, Result<Option<(&'static str, u32, u32)>, ()>);
	let lines: Vec<L> = vec![
		("/// The range of component `c` is `[1_337, 2000]`.", Ok(Some(("c", 1337, 2000)))),
		("/// The range of component `d` is `[0, 1]`.", Ok(Some(("d", 0, 1)))),
		("/// The range of component `c2` is `[5, 5]`.", Ok(Some(("c2", 5, 5)))),
		("/// The range of component `some_name` is `[7, 4_294_967_295]`.", Ok(Some(("somename", 7, u32::MAX)))),
		("/// The range of component `e` is `[0,    100]`. Extra text.", Ok(Some(("e", 0, 100)))),
		("///The range of component `f` is `[0,100]`", Ok(Some(("f", 0, 100)))),
		("#[doc = \"The range of component `g` is `[3, 4]`.\"]", Ok(Some(("g", 3, 4)))),
		("/// The range of component `h` is `[2, 1]`.", Err(())),
		("/// The range of component `i` is `[0, 4_294_967_296]`.", Err(())),
		("/// The range of component `j` is `[99999999999999999999, 1]`.", Err(())),
		("/// Storage: Staking MinCommission (r:1 w:0)", Ok(None)),
		("/// Proof: Staking MinCommission (max_values: Some(1), max_size: Some(4), added: 499, mode: MaxEncodedLen)", Ok(None)),
		("// The range of component `k` is `[0, 5]`.", Ok(None)),
		("/// The range of component `l` is [0, 5].", Ok(None)),
		("/// The range of component `m` is `(0, 5)`.", Ok(None)),
		("/// The range of component `n` is `[-1, 5]`.", Ok(None)),
		("/// The range of component `o` is `[0; 5]`.", Ok(None)),
		("/// The range of component `p` is `[0]`.", Ok(None)),
		("/// The range of component is `[0, 5]`.", Ok(None)),
		("#[inline]", Ok(None)),
		("#[note = \"The range of component `q` is `[3, 4]`.\"]", Ok(None)),
		("#[allow(dead_code)]", Ok(None)),
		("///", Ok(None)),
	];
	let len = ctx.by_tier(3, 4);
	for l in 0..=len {
		par(ctx, lines.len().pow(l as u32), |i| {
			if ctx.enough() {
				return;
			}
			let s = seq(i, lines.len(), l);
			let stated: Vec<_> = s.iter().map(|k| lines[*k].1).collect();
			let mut want: Option<BTreeMap<String, (u32, u32)>> = Some(Default::default());
			for r in stated {
				match r {
					Ok(None) => {},
					Ok(Some((n, a, b))) =>
						if let Some(w) = &mut want {
							w.insert(n.into(), (a, b));
						},
					Err(()) => want = None,
				}
			}
			// A second function without annotations checks that ranges do not carry over.
			let doc = s.iter().map(|k| lines[*k].0).collect::<Vec<_>>().join("\n");
			let src = format!("impl WeightInfo for () {{\nfn before() -> Weight {{ Weight::zero() }}\n{doc}\nfn f(c: u32, d: u32) -> Weight {{ Weight::from_parts(1, 2) }}\n/// The range of component `z` is `[8, 9]`.\nfn after() -> Weight {{ Weight::zero() }} }}");
			if !ctx.case(&src) {
				return;
			}
			ctx.state();
			ctx.steps(1);
			ctx.trace();
			match guard(|| parse_content("p".into(), src.clone())) {
				Err(p) => ctx.violation(&src, format!("crashed: {p}")),
				Ok(Err(_)) if want.is_none() => {},
				Ok(r) => {
					let got = r.map(|v| v.iter().map(|e| (e.name.clone(), ranges(e))).collect::<Vec<_>>());
					let want = want.map(|w| {
						vec![
							("before".to_string(), Default::default()),
							("f".to_string(), w),
							("after".to_string(), BTreeMap::from([("z".to_string(), (8, 9))])),
						]
					});
					if got.as_ref().ok() != want.as_ref() {
						ctx.violation(&src, format!("ranges {got:?}, expected {want:?}"));
					}
				},
			}
		});
	}
	// Bounds
	let nums: Vec<(String, Option<u32>)> = ["0", "1", "9", "10", "100", "999", "1000", "1_000", "1_0_0", "4294967294", "4_294_967_295", "4294967296", "18446744073709551616", "00012", "_5", "5_", "2147483648", "65536"]
		.iter()
		.map(|s| (s.to_string(), s.replace('_', "").parse::<u32>().ok()))
		.collect();
	par(ctx, nums.len() * nums.len(), |i| {
		let mut d = Digits(i);
		let (a, b) = (d.pick(&nums), d.pick(&nums));
		let src = format!("impl WeightInfo for () {{\n/// The range of component `c` is `[{}, {}]`.\nfn f(c: u32) -> Weight {{ Weight::from_parts(1, 2) }} }}", a.0, b.0);
		if !ctx.case(&src) {
			return;
		}
		ctx.state();
		ctx.steps(1);
		ctx.trace();
		let want = match (a.1, b.1) {
			(Some(a), Some(b)) if a <= b => Some((a, b)),
			_ => None,
		};
		let got = guard(|| parse_content("p".into(), src.clone()).ok().map(|v| ranges(&v[0]).get("c").copied()));
		if got != Ok(want.map(Some)) {
			ctx.violation(&src, format!("range {got:?}, expected {want:?}"));
		}
	});
	ctx.bound(format!("all sequences of up to {len} of {} doc lines; {} pairs of bounds", lines.len(), nums.len() * nums.len()));
}

/// A range annotation takes effect for the component it names.
fn applies(ctx: &Ctx) {
	let names = ["c", "x1", "a_b", "_a", "a_", "_a_b_", "long_component_name", "C", "n2_", "a__b"];
	par(ctx, names.len() * names.len() * 2, |i| {
		let mut d = Digits(i);
		let (n, m, style) = (*d.pick(&names), *d.pick(&names), d.take(2));
		if n.replace('_', "") == m.replace('_', "") && n != m {
			return;
		}
		let mut docs = format!("/// The range of component `{n}` is `[3, 7]`.\n");
		if n != m {
			docs += &format!("/// The range of component `{m}` is `[1, 9]`.\n");
		}
		let body = if style == 0 {
			format!("Weight::from_parts(1000, 0).saturating_mul({n}.into()).saturating_add(Weight::from_parts(1, 0).saturating_mul({m}.into()))")
		} else {
			format!("(1000 as Weight).saturating_mul({n} as Weight).saturating_add((1 as Weight).saturating_mul({m} as Weight))")
		};
		let src = format!("impl WeightInfo for () {{\n{docs}fn f({n}: u32, {m}: u32) -> Weight {{ {body} }} }}");
		if !ctx.case(&src) {
			return;
		}
		ctx.state();
		ctx.trace();
		let (r1, r2) = ((3, 7), if n == m { (3, 7) } else { (1, 9) });
		for method in [CompareMethod::Base, CompareMethod::ExactAsymptotic, CompareMethod::Asymptotic, CompareMethod::ExactWorst, CompareMethod::GuessWorst] {
			ctx.steps(1);
			let r = guard(|| {
				let e = parse_content("p".into(), src.clone())?.remove(0).map_term(|t| t.simplify(Dimension::Time).unwrap());
				compare_extrinsics(Some(e.clone()), Some(e), &params(method, Dimension::Time))
			});
			let ok = match &r {
				Ok(Ok(c)) => {
					let v = c.new_v.unwrap_or_default();
					let lo = 1000 * r1.0 + r2.0;
					let hi = 1000 * r1.1 + r2.1;
					match method {
						CompareMethod::Base => v == lo,
						CompareMethod::ExactAsymptotic | CompareMethod::Asymptotic => v == hi,
						_ => [lo, hi, 1000 * r1.0 + r2.1, 1000 * r1.1 + r2.0].contains(&v),
					}
				},
				_ => false,
			};
			if !ok {
				ctx.violation(&src, format!("{method:?} does not use the annotated ranges: {:?}", r.map(|r| r.map(|c| (c.old_v, c.new_v, c.scope)))));
			}
		}
	});
	ctx.bound("pairs of 10 component names with annotations, used by every method");
}

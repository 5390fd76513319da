//! P08: one entry per function, of the right kind.
use crate::{model::*, report::Ctx, util::*};
use std::collections::BTreeMap;
use subweight_core::{
	compare_files,
	parse::pallet::{parse_content, ChromaticExtrinsic},
	CompareMethod, Dimension, ExtrinsicDiff, FilterParams, RelativeChange,
};

/// What an entry says: kind (or failure), values and percentage.
#[derive(Clone, PartialEq, Debug)]
pub struct Entry {
	pub kind: Option<RelativeChange>,
	pub old: Option<u128>,
	pub new: Option<u128>,
	pub percent: u64,
	pub warning: Option<String>,
	pub error: Option<String>,
}
pub fn entry(e: &ExtrinsicDiff) -> Entry {
	let t = e.term();
	Entry {
		kind: t.map(|t| t.change),
		old: t.and_then(|t| t.old_v),
		new: t.and_then(|t| t.new_v),
		percent: t.map_or(0, |t| t.percent.to_bits()),
		warning: e.warning().cloned(),
		error: e.error().cloned(),
	}
}

/// States of a function in one version.
/// 0 absent, 1 and 2 two bodies, 3 cannot be evaluated exactly, 4 as 1 but spelled differently, 5 many accesses
pub fn body(state: usize, id: usize) -> String {
	let v = 1000 * (id as u128 + 1);
	match state {
		1 => format!("Weight::from_parts({}, {})", v + 1, v + 11),
		2 => format!("Weight::from_parts({}, {})", v + 2, v + 12),
		3 => format!("Weight::from_parts({}, {}).saturating_mul(q.into())", v + 3, v + 13),
		4 => {
			let a = (v + 1).to_string();
			format!("(Weight::from_parts({}_{} as u64,\n\t ({}_u64)))", &a[..1], &a[1..], v + 11)
		},
		_ => format!("Weight::from_parts({}, {}).saturating_add(T::DbWeight::get().reads(2000_u64))", v + 5, v + 15),
	}
}
/// Value by the base and asymptotic methods.
pub fn value(state: usize, id: usize, unit: Dimension, m: CompareMethod) -> u128 {
	let v = 1000 * (id as u128 + 1) + if unit == Dimension::Time { 0 } else { 10 };
	match state {
		1 | 4 => v + 1,
		2 => v + 2,
		3 => (v + 3) * if m == CompareMethod::Base { 0 } else { 100 },
		_ => v + 5 + if unit == Dimension::Time { 2000 * crate::lang::READ_TIME } else { 0 },
	}
}

pub type Sets = Vec<(String, Vec<(String, usize, usize)>)>;
/// Source of the files of one version: (file, functions as (name, state, id)).
pub fn sources(fs: &Sets) -> Vec<(String, String)> {
	fs.iter()
		.filter(|(_, l)| l.iter().any(|f| f.1 > 0))
		.map(|(n, l)| {
			let b: String = l.iter().filter(|f| f.1 > 0).map(|(n, st, id)| format!("\tfn {n}(q: u32) -> Weight {{ {} }}\n", body(*st, *id))).collect();
			(n.clone(), format!("impl<T> WeightInfo for WeightInfo<T> {{\n{b}}}\n"))
		})
		.collect()
}
pub fn parse(src: &[(String, String)]) -> Vec<ChromaticExtrinsic> {
	src.iter().flat_map(|(n, s)| parse_content(n.clone(), s.clone()).expect("must parse")).collect()
}

type Pred = fn(&str) -> bool;
/// Regular expressions and what they mean.
pub const FILTERS: [(&str, Pred); 9] = [
	("", |_| true),
	("f", |s| s.contains('f')),
	("^f$", |s| s == "f"),
	("a.rs", |s| s.as_bytes().windows(4).any(|w| w[0] == b'a' && &w[2..] == b"rs")),
	(r"a\.rs$", |s| s.ends_with("a.rs")),
	("(?i)^F_?$", |s| ["f", "F", "f_", "F_"].contains(&s)),
	("^(?!f)", |s| !s.starts_with('f')),
	("[gG]|x/", |s| s.contains(['g', 'G']) || s.contains("x/")),
	("^$", |s| s.is_empty()),
];

fn check(ctx: &Ctx, olds: &Sets, news: &Sets, m: CompareMethod, unit: Dimension, fe: Option<usize>, ff: Option<usize>) {
	let (os, ns) = (sources(olds), sources(news));
	let case = || format!("{m:?} {unit:?} function filter {:?} file filter {:?}: {os:?} -> {ns:?}", fe.map(|f| FILTERS[f].0), ff.map(|f| FILTERS[f].0));
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.steps(1 + os.len() as u64 + ns.len() as u64);
	ctx.trace();
	let filter = FilterParams { threshold: 0.0, change: None, extrinsic: fe.map(|f| FILTERS[f].0.into()), pallet: ff.map(|f| FILTERS[f].0.into()) };
	let got = match guard(|| compare_files(parse(&os), parse(&ns), &params(m, unit), &filter).map_err(|e| e.to_string())) {
		Ok(Ok(g)) => g,
		e => return ctx.violation(&case(), format!("no result: {:?}", e.map(|e| e.err()))),
	};
	let mut want: BTreeMap<(String, String), (usize, usize, usize)> = BTreeMap::new();
	for (new, fs) in [(false, olds), (true, news)] {
		for (file, l) in fs {
			for (f, st, id) in l {
				if *st > 0 && fe.map_or(true, |x| FILTERS[x].1(f)) && ff.map_or(true, |x| FILTERS[x].1(file)) {
					let e = want.entry((file.clone(), f.clone())).or_insert((0, 0, *id));
					if new {
						e.1 = *st
					} else {
						e.0 = *st
					}
				}
			}
		}
	}
	let mut seen = BTreeMap::new();
	for e in &got {
		if seen.insert((e.file.clone(), e.name.clone()), entry(e)).is_some() {
			return ctx.violation(&case(), format!("{} of {} is reported twice", e.name, e.file));
		}
	}
	if !seen.keys().eq(want.keys()) {
		return ctx.violation(&case(), format!("reported {:?}, expected {:?}", seen.keys(), want.keys()));
	}
	for (k, (o, n, id)) in want {
		let e = &seen[&k];
		if is_exact(m) && (o == 3 || n == 3) {
			if e.error.as_ref().map_or(true, |e| e.is_empty()) || e.kind.is_some() {
				ctx.violation(&case(), format!("{k:?} should have failed but is {e:?}"));
			}
			continue;
		}
		let canon = |s| if s == 4 { 1 } else { s };
		let kind = match (o, n) {
			(0, _) => RelativeChange::Added,
			(_, 0) => RelativeChange::Removed,
			(a, b) if canon(a) == canon(b) => RelativeChange::Unchanged,
			_ => RelativeChange::Changed,
		};
		let v = |s| (s > 0).then(|| value(s, id, unit, m));
		if e.kind != Some(kind) || e.error.is_some() || e.old != v(o) || e.new != v(n) {
			ctx.violation(&case(), format!("{k:?} is {e:?}, expected {kind:?} {:?} -> {:?}", v(o), v(n)));
		}
	}
}

pub fn build(names: &[&str], fns: &[&str], states: &[usize], rev: bool) -> Sets {
	let mut k = 0;
	let mut out: Sets = names
		.iter()
		.map(|n| {
			let mut l: Vec<_> = fns
				.iter()
				.map(|f| {
					k += 1;
					(f.to_string(), states[k - 1], k - 1)
				})
				.collect();
			if rev {
				l.reverse()
			}
			(n.to_string(), l)
		})
		.collect();
	if rev {
		out.reverse()
	}
	out
}

pub const FILES: [[&str; 2]; 7] = [["a.rs", "b.rs"], ["x/a.rs", "y/a.rs"], ["a.rs", "a.rs.rs"], ["pallet_a.rs", "palleta.rs"], ["a.rs", "A.rs"], ["a.rs", "x/a.rs"], ["", "a"]];
pub const FNS: [[&str; 2]; 5] = [["f", "g"], ["f", "f_"], ["set_x", "setx"], ["f", "F"], ["f", "ff"]];

pub fn run(ctx: &Ctx) {
	// two files with two functions in all states
	let k = ctx.by_tier(5usize, 6);
	par(ctx, (k * k).pow(4) * 2, |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let st: Vec<(usize, usize)> = (0..4).map(|_| (d.take(k), d.take(k))).collect();
		let rev = d.take(2) == 1;
		let (o, n): (Vec<_>, Vec<_>) = st.into_iter().unzip();
		let (m, unit) = (METHODS[[0, 3, 4][i % 3]], UNITS[i / 3 % 2]);
		check(ctx, &build(&FILES[0], &FNS[0], &o, false), &build(&FILES[0], &FNS[0], &n, rev), m, unit, None, None);
	});
	ctx.bound(format!("two files with two functions, {k} x {k} states each, in and out of order"));
	// look-alike names, with two states
	par(ctx, FILES.len() * FNS.len() * 4usize.pow(4) * 4, |i| {
		let mut d = Digits(i);
		let (files, fns) = (d.pick(&FILES), d.pick(&FNS));
		let st: Vec<(usize, usize)> = (0..4).map(|_| { let s = d.take(4); (s & 1, (s >> 1) * 2) }).collect();
		let rev = d.take(4);
		let (o, n): (Vec<_>, Vec<_>) = st.into_iter().unzip();
		if i == 999 {
			ctx.sample(|| format!("{:?}", (&files, &fns, &o, &n)));
		}
		check(ctx, &build(files, fns, &o, rev & 1 == 1), &build(files, fns, &n, rev & 2 == 2), CompareMethod::Asymptotic, Dimension::Time, None, None);
	});
	ctx.bound(format!("{} pairs of files x {} pairs of functions with similar names, present or absent on either side, all orders", FILES.len(), FNS.len()));
	// Name filters
	par(ctx, (FILTERS.len() + 1).pow(2) * FILES.len() * FNS.len() * 3, |i| {
		let mut d = Digits(i);
		let (fe, ff) = (d.take(FILTERS.len() + 1).checked_sub(1), d.take(FILTERS.len() + 1).checked_sub(1));
		let (files, fns, st) = (d.pick(&FILES), d.pick(&FNS), d.take(3));
		let (o, n) = ([[1, 1, 1, 1], [0, 1, 3, 1], [1, 0, 1, 5]][st], [[1, 2, 1, 2], [1, 1, 1, 0], [3, 2, 0, 5]][st]);
		check(ctx, &build(files, fns, &o, false), &build(files, fns, &n, false), METHODS[[0, 3, 4][i % 3]], UNITS[i % 2], fe, ff);
	});
	ctx.bound("all pairs of 9 (or no) file and function filters on all names");
	// invalid filters are errors
	for (e, f) in [(Some("("), None), (None, Some("[")), (Some("*"), Some("a"))] {
		let case = format!("invalid filters {e:?} {f:?}");
		if !ctx.case(&case) {
			continue;
		}
		ctx.state();
		ctx.trace();
		let filter = FilterParams { threshold: 0.0, change: None, extrinsic: e.map(Into::into), pallet: f.map(Into::into) };
		for set in [build(&FILES[0], &FNS[0], &[1, 1, 1, 1], false), vec![]] {
			ctx.steps(1);
			let src = sources(&set);
			if !matches!(guard(|| compare_files(parse(&src), parse(&src), &params(CompareMethod::Base, Dimension::Time), &filter).is_err()), Ok(true)) {
				ctx.violation(&case, "not an error".into());
			}
		}
	}
	// So are filters that cannot be evaluated on a name, which is none that they exclude.
	let long = "a".repeat(40);
	let hard = format!("(a|aa)+{}|.", "\\1".repeat(27));
	for (i, (e, f)) in [(Some(&hard), None), (None, Some(&hard)), (Some(&hard), Some(&hard))].into_iter().enumerate() {
		let case = format!("filters that cannot be evaluated {}", ["for functions", "for files", "for both"][i]);
		if !ctx.case(&case) {
			continue;
		}
		ctx.state();
		ctx.trace();
		let filter = FilterParams { threshold: 0.0, change: None, extrinsic: e.cloned(), pallet: f.cloned() };
		for names in [vec![&long[..]], vec!["b", &long], vec![&long, "b", "c"]] {
			ctx.steps(1);
			let set: Vec<(String, String)> = names.iter().map(|n| (n.to_string(), format!("impl<T> WeightInfo for WeightInfo<T> {{\n{}}}\n", names.iter().map(|n| format!("\tfn {n}() -> Weight {{ Weight::from_parts(1, 1) }}\n")).collect::<String>()))).collect();
			match guard(|| compare_files(parse(&set), parse(&set), &params(CompareMethod::Base, Dimension::Time), &filter).map_err(|e| e.to_string())) {
				Ok(Err(_)) => ctx.outcome("unusable filter"),
				Ok(Ok(d)) if d.len() == names.len() * names.len() => ctx.outcome("usable filter"),
				x => ctx.violation(&case, format!("{} functions: {:?}", names.len() * names.len(), x.map(|r| r.map(|d| d.len())))),
			}
		}
	}
	many(ctx);
	crate::scale::pairing(ctx);
}

/// Larger sets: every function is paired by its own name and file.
fn many(ctx: &Ctx) {
	let n = ctx.by_tier(12, 30);
	let names: Vec<String> = (0..n).map(|i| format!("d{}/f{}.rs", i % 3, i / 3)).collect();
	let fns: Vec<String> = (0..n).map(|i| format!("f{i}")).collect();
	let (names, fns): (Vec<&str>, Vec<&str>) = (names.iter().map(|s| &s[..]).collect(), fns.iter().map(|s| &s[..]).collect());
	par(ctx, 5 * 5, |i| {
		let (a, b) = (i % 5 + 2, i / 5 + 2);
		let o: Vec<usize> = (0..n * n).map(|k| if k % a == 0 { 0 } else { 1 + k % 2 }).collect();
		let w: Vec<usize> = (0..n * n).map(|k| if k % b == 1 { 0 } else { 1 + k / 2 % 2 }).collect();
		check(ctx, &build(&names, &fns, &o, false), &build(&names, &fns, &w, i % 2 == 1), CompareMethod::Base, Dimension::Time, None, None);
	});
	ctx.bound(format!("{n} files with {n} functions each in 25 patterns"));
}

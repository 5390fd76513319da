//! P04: database and overhead weights.
use crate::{p02::scratch, report::Ctx, util::*};
use subweight_core::{
	parse::{
		overhead, storage,
		storage::{Db, Weights},
		try_parse_file, ParsedFile,
	},
	scope::SimpleScope,
	term::SimpleTerm,
	Dimension,
};

fn scope() -> SimpleScope {
	let mut s = SimpleScope::from_substrate().with_var("K", SimpleTerm::Scalar(13));
	s.put_var("READ", SimpleTerm::Scalar(25_000_000));
	s
}

/// Value expressions with operators, as in storage files: (source, value)
fn sums(leaves: &[(String, u128)], n: usize) -> Vec<(String, u128, usize)> {
	// precedence: 2 atom, 1 product, 0 sum
	if n == 1 {
		return leaves.iter().map(|(s, v)| (s.clone(), *v, 2)).collect();
	}
	let mut out = vec![];
	for k in 1..n {
		for (a, av, ap) in sums(leaves, k) {
			for (b, bv, bp) in sums(leaves, n - k) {
				// left associative, no parentheses needed
				if bp > 0 {
					out.push((format!("{a} + {b}"), av + bv, 0));
				}
				if ap > 0 && bp > 1 {
					out.push((format!("{a} * {b}"), av * bv, 1));
				}
			}
		}
	}
	out
}

#[derive(PartialEq, Debug, Clone, Copy)]
enum Kind {
	Rocks(u128, u128),
	Parity(u128, u128),
	Block(u128, u128),
	Base(u128, u128),
	Pallet,
	Nothing,
}

fn storage_kind(w: &Weights) -> Option<Kind> {
	let s = scope();
	let (r, wr) = (w.weights.read.eval(&s).ok()?, w.weights.write.eval(&s).ok()?);
	Some(match w.db {
		Db::Rocks => Kind::Rocks(r, wr),
		Db::Parity => Kind::Parity(r, wr),
	})
}
fn overhead_kind(w: &overhead::Weight) -> Option<Kind> {
	let s = scope();
	let t = match w {
		overhead::Weight::BlockExecution(t) | overhead::Weight::ExtrinsicBase(t) => t,
	};
	let (a, b) = (t.simplify(Dimension::Time).ok()?.eval(&s).ok()?, t.simplify(Dimension::Proof).ok()?.eval(&s).ok()?);
	Some(match w {
		overhead::Weight::BlockExecution(_) => Kind::Block(a, b),
		_ => Kind::Base(a, b),
	})
}

fn as_storage(src: &str) -> Result<Option<Kind>, String> {
	guard(|| match storage::parse_content(src.into()) {
		Err(_) => Some(Kind::Nothing),
		Ok(w) => storage_kind(&w),
	})
}
fn as_overhead(src: &str) -> Result<Option<Kind>, String> {
	guard(|| match overhead::parse_content(src.into()) {
		Err(_) => Some(Kind::Nothing),
		Ok(w) => overhead_kind(&w),
	})
}

fn check(ctx: &Ctx, src: &str, is_storage: bool, want: Kind) {
	if !ctx.case(src) {
		return;
	}
	ctx.state();
	ctx.steps(2);
	ctx.trace();
	let (s, o) = (as_storage(src), as_overhead(src));
	let (ws, wo) = if is_storage { (want, Kind::Nothing) } else { (Kind::Nothing, want) };
	if s != Ok(Some(ws)) {
		return ctx.violation(src, format!("read as storage weights: {s:?}, expected {ws:?}"));
	}
	if o != Ok(Some(wo)) {
		ctx.violation(src, format!("read as overhead weights: {o:?}, expected {wo:?}"));
	}
}

fn with_db(name: &str, read: &str, write: &str, order: usize) -> String {
	let f = if order == 0 { format!("read: {read}, write: {write},") } else { format!("write: {write}, read: {read}") };
	format!("parameter_types! {{\n\t/// Doc\n\tpub const {name}: RuntimeDbWeight = RuntimeDbWeight {{ {f} }};\n}}")
}

/// The places at which a definition may stand.
fn placed(def: &str, how: usize) -> String {
	match how {
		0 => def.into(),
		1 => format!("pub mod constants {{\n\tuse frame_support::{{parameter_types, weights::constants}};\n\t{def}\n\t#[cfg(test)] mod test_db_weights {{ fn f() {{}} }}\n}}"),
		2 => format!("//! Doc\nuse a::b;\npub struct X;\nfn f() {{}}\n{def}\nimpl X {{ }}"),
		3 => format!("pub mod constants {{ use a; const Y: u8 = 1; other! {{ x }} pub mod constants {{ {def} }} }}"),
		4 => format!("parameter_types! {{ pub const Other: u32 = 5; }}\nmod constants;\nmod other {{ }}\n{def}"),
		5 => def.replace("parameter_types!", "frame_support::parameter_types!"),
		6 => def.replace("pub const", "const"),
		// not found
		7 => format!("pub mod weights {{ {def} }}"),
		8 => def.replace("parameter_types!", "other_types!"),
		_ => format!("/* {def} */"),
	}
}
const FOUND: usize = 7;
const PLACES: usize = 10;

pub fn run(ctx: &Ctx) {
	let l = |s: &str, v: u128| (s.to_string(), v);
	// Storage values: sums and products
	let leaves = vec![
		l("25_000", 25_000),
		l("constants::WEIGHT_PER_NANOS", 1000),
		l("3", 3),
		l("0u64", 0),
		l("K", 13),
		l("WEIGHT_REF_TIME_PER_NANOS", 1000),
	];
	let mut exprs = vec![];
	for n in 1..=ctx.by_tier(4, 5) {
		exprs.extend(sums(&leaves, n).into_iter().map(|(s, v, _)| (s, v)));
	}
	par(ctx, exprs.len() * 4, |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let ((e, v), side, order) = (d.pick(&exprs), d.take(2), d.take(2));
		let src = if side == 0 { with_db("RocksDbWeight", e, "7", order) } else { with_db("ParityDbWeight", "5", e, order) };
		let want = if side == 0 { Kind::Rocks(*v, 7) } else { Kind::Parity(5, *v) };
		if i == 777 {
			ctx.sample(|| src.clone());
		}
		check(ctx, &src, true, want);
	});
	ctx.bound(format!("{} storage value expressions as either field, in either field order", exprs.len()));

	// With parentheses the value is either refused or right.
	let few: Vec<_> = leaves.iter().take(3).cloned().collect();
	let grouped: Vec<(String, u128)> = (2..=ctx.by_tier(4, 5)).flat_map(|n| grouped(&few, n)).filter(|(s, _)| s.contains('(')).collect();
	par(ctx, grouped.len() * 4, |i| {
		let mut d = Digits(i);
		let ((e, v), kind) = (d.pick(&grouped), d.take(4));
		let overhead = |n: &str| format!("parameter_types! {{ pub const {n}: Weight = {e}; }}");
		let (src, want) = match kind {
			0 => (with_db("RocksDbWeight", e, "7", 0), Kind::Rocks(*v, 7)),
			1 => (with_db("ParityDbWeight", "5", e, 1), Kind::Parity(5, *v)),
			2 => (overhead("BlockExecutionWeight"), Kind::Block(*v, 0)),
			_ => (overhead("ExtrinsicBaseWeight"), Kind::Base(*v, 0)),
		};
		if !ctx.case(&src) {
			return;
		}
		ctx.state();
		ctx.steps(1);
		let got = if kind < 2 { as_storage(&src) } else { as_overhead(&src) };
		if got != Ok(Some(want)) && got != Ok(Some(Kind::Nothing)) {
			ctx.violation(&src, format!("read as {got:?}, expected {want:?} or nothing"));
		}
	});
	ctx.bound(format!("{} expressions with parentheses", grouped.len()));

	// Overhead values.
	let inner = {
		let mut v: Vec<(String, u128, u128)> = vec![];
		for (e, x) in exprs.iter().filter(|(e, _)| e.matches(['*', '+']).count() < 3) {
			if e.contains(['*', '+']) {
				// a top level operator expression
				v.push((e.clone(), *x, 0));
			}
		}
		let nums: Vec<(String, u128)> = vec![
			l("5_481_991", 5_481_991),
			l("0", 0),
			l("(7 as u64)", 7),
			l("WEIGHT_REF_TIME_PER_NANOS.saturating_mul(126_045)", 126_045_000),
			l("(3_u64).saturating_add(K.into())", 16),
			l("WEIGHT_PER_NANOS", 1000),
			l("constants::WEIGHT_PER_NANOS.saturating_mul(2)", 2000),
		];
		for (a, x) in &nums {
			v.push((format!("Weight::from_ref_time({a})"), *x, 0));
			v.push((format!("Weight::from_proof_size({a})"), 0, *x));
			for (b, y) in &nums {
				v.push((format!("Weight::from_parts({a}, {b})"), *x, *y));
				v.push((format!("Weight::from_parts({a}, 0).saturating_add(Weight::from_parts(1, {b}))"), *x + 1, *y));
				v.push((format!("Weight::from_ref_time({a}).saturating_add(Weight::from_proof_size({b}))"), *x, *y));
			}
			v.push((format!("Weight::from_parts({a}, 3).saturating_mul(K)"), *x * 13, 39));
		}
		v.push(("Weight::zero()".into(), 0, 0));
		v
	};
	par(ctx, inner.len() * 2 * PLACES, |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let ((e, t, p), base, how) = (d.pick(&inner), d.take(2), d.take(PLACES));
		let name = ["BlockExecutionWeight", "ExtrinsicBaseWeight"][base];
		let def = format!("parameter_types! {{ pub const {name}: Weight = {e}; }}");
		let want = if how >= FOUND {
			Kind::Nothing
		} else if base == 0 {
			Kind::Block(*t, *p)
		} else {
			Kind::Base(*t, *p)
		};
		check(ctx, &placed(&def, how), false, want);
	});
	ctx.bound(format!("{} overhead values x both kinds x {PLACES} places", inner.len()));

	// Storage definitions: names, types and fields.
	let names = ["RocksDbWeight", "ParityDbWeight", "RocksDBWeight", "DbWeight", "BlockExecutionWeight", "rocksdbweight"];
	let types = ["RuntimeDbWeight", "Weight", "DbWeight", "u32", "(RuntimeDbWeight,)", "&RuntimeDbWeight"];
	let structs = ["RuntimeDbWeight", "DbWeight", "Weights"];
	let fields = [
		"read: 11, write: 22", "write: 22, read: 11,", "read: 11", "write: 22", "", "read: 11, write: 22, extra: 33", "read: 11, writes: 22",
		"reads: 11, write: 22", "read: 11, read: 22", "write: 11, write: 22", "read: 11, write: x()", "read: -11, write: 22", "read: 11 - 1, write: 22",
		"read: 11, write: 1.5", "read: \"11\", write: 22", "read: 11, write: { 22 }", "read: 11, ..Default::default()", "0: 11, 1: 22", "read, write: 22", "read: 11 / 1, write: 22",
		"read: 11, write: foo!(22)", "read: 11, write: 22 << 1", "read: 340282366920938463463374607431768211456, write: 22",
	];
	par(ctx, names.len() * types.len() * structs.len() * fields.len() * 3, |i| {
		let mut d = Digits(i);
		let (n, t, s, fi, how) = (d.pick(&names), d.pick(&types), d.pick(&structs), d.take(fields.len()), d.take(3));
		let src = placed(&format!("parameter_types! {{ pub const {n}: {t} = {s} {{ {} }}; }}", fields[fi]), how);
		let ok = *t == "RuntimeDbWeight" && *s == "RuntimeDbWeight" && fi < 2;
		// `read` as a shorthand names a constant, which has no value here
		if fields[fi] == "read, write: 22" {
			return;
		}
		let want = match (ok, *n) {
			(true, "RocksDbWeight") => Kind::Rocks(11, 22),
			(true, "ParityDbWeight") => Kind::Parity(11, 22),
			_ => Kind::Nothing,
		};
		check(ctx, &src, true, want);
	});
	// Overhead definitions: names, types and unreadable values.
	let onames = ["BlockExecutionWeight", "ExtrinsicBaseWeight", "BlockWeight", "RocksDbWeight", "blockexecutionweight"];
	let otypes = ["Weight", "u64", "RuntimeDbWeight", "Weights", "(Weight,)"];
	let ovals = [
		("Weight::from_parts(1, 2)", true), ("1 - 2", false), ("Weight::from_parts(1)", false), ("foo()", false), ("5", false), ("Weight::from_parts(1, 2) - 1", false),
		("{ Weight::from_parts(1, 2) }", false), ("Weight { ref_time: 1, proof_size: 2 }", false), ("Weight::from_parts(1.0, 2)", false), ("\"5\" * 3", false),
		("Weight::from_parts(1, 2).saturating_sub(Weight::zero())", false), ("(Weight::from_parts(1, 2))", true), ("1 * foo()", false), ("2 / 1", false),
	];
	par(ctx, onames.len() * otypes.len() * ovals.len() * 3, |i| {
		let mut d = Digits(i);
		let (n, t, (v, good), how) = (d.pick(&onames), d.pick(&otypes), d.pick(&ovals), d.take(3));
		// a plain number is not a weight of any supported syntax generation; leave it open
		if *v == "5" {
			return;
		}
		let src = placed(&format!("parameter_types! {{ pub const {n}: {t} = {v}; }}"), how);
		let want = match (*good && *t == "Weight", *n) {
			(true, "BlockExecutionWeight") => Kind::Block(1, 2),
			(true, "ExtrinsicBaseWeight") => Kind::Base(1, 2),
			_ => Kind::Nothing,
		};
		check(ctx, &src, false, want);
	});
	ctx.bound("names x types x struct names x field lists of both kinds of definitions in three places");

	// Everything with a name, one character off.
	let storage = |n: &str, t: &str, s: &str, a: &str, b: &str| format!("{{ pub const {n}: {t} = {s} {{ {a}: 11, {b}: 22 }}; }}");
	let mut near: Vec<(String, bool)> = vec![];
	for n in ["RocksDbWeight", "ParityDbWeight"] {
		near.extend(edits(n).iter().map(|x| (format!("parameter_types! {}", storage(x, "RuntimeDbWeight", "RuntimeDbWeight", "read", "write")), true)));
		for (k, word) in ["RuntimeDbWeight", "RuntimeDbWeight", "read", "write"].iter().enumerate() {
			for x in edits(word) {
				let mut w = ["RuntimeDbWeight", "RuntimeDbWeight", "read", "write"];
				w[k] = &x;
				near.push((format!("parameter_types! {}", storage(n, w[0], w[1], w[2], w[3])), true));
			}
		}
		near.extend(edits("parameter_types").iter().map(|x| (format!("{x}! {}", storage(n, "RuntimeDbWeight", "RuntimeDbWeight", "read", "write")), true)));
	}
	for n in ["BlockExecutionWeight", "ExtrinsicBaseWeight"] {
		for v in ["Weight::from_parts(1, 2)", "5 * WEIGHT_PER_NANOS"] {
			near.extend(edits(n).iter().map(|x| (format!("parameter_types! {{ pub const {x}: Weight = {v}; }}"), false)));
			near.extend(edits("Weight").iter().map(|x| (format!("parameter_types! {{ pub const {n}: {x} = {v}; }}"), false)));
			near.extend(edits("parameter_types").iter().map(|x| (format!("{x}! {{ pub const {n}: Weight = {v}; }}"), false)));
		}
		near.extend(edits("from_parts").iter().map(|x| (format!("parameter_types! {{ pub const {n}: Weight = Weight::{x}(1, 2); }}"), false)));
	}
	par(ctx, near.len() * 2, |i| {
		let mut d = Digits(i);
		let ((src, st), how) = (d.pick(&near), d.take(2));
		check(ctx, &placed(src, how), *st, Kind::Nothing);
	});
	ctx.bound(format!("{} definitions in which one name is one edit off, in two places", near.len()));

	classify(ctx);
}

/// Every name that is one edit away from this one.
fn edits(name: &str) -> Vec<String> {
	let cs: Vec<char> = name.chars().collect();
	let join = |v: &[&[char]]| v.concat().into_iter().collect::<String>();
	let mut out = vec![];
	for i in 0..=cs.len() {
		for x in ['x', 'W', '_', '1'] {
			out.push(join(&[&cs[..i], &[x], &cs[i..]]));
		}
		if i < cs.len() {
			let c = cs[i];
			let flipped = if c.is_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() };
			out.push(join(&[&cs[..i], &cs[i + 1..]]));
			out.push(join(&[&cs[..i], &[flipped], &cs[i + 1..]]));
			if i > 1 {
				out.push(join(&[&cs[..i]]));
				out.push(join(&[&cs[i..]]));
			}
			if i + 1 < cs.len() {
				out.push(join(&[&cs[..i], &[cs[i + 1], c], &cs[i + 2..]]));
			}
		}
	}
	for x in ["My", "Substrate", "Db"] {
		out.push(format!("{x}{name}"));
		out.push(format!("{name}{x}"));
	}
	out.push(name.to_lowercase());
	out.push(name.to_uppercase());
	out.sort();
	out.dedup();
	out.retain(|n| n != name && n != "_" && !n.starts_with(|c: char| c.is_ascii_digit()));
	out
}

/// Sums and products with every choice of groups in parentheses.
fn grouped(leaves: &[(String, u128)], n: usize) -> Vec<(String, u128)> {
	let prec = |s: &str| {
		// Outside of parentheses.
		let mut depth = 0;
		let mut p = 2;
		for c in s.chars() {
			match c {
				'(' => depth += 1,
				')' => depth -= 1,
				'+' if depth == 0 => p = 0,
				'*' if depth == 0 && p > 1 => p = 1,
				_ => {},
			}
		}
		p
	};
	if n == 1 {
		return leaves.to_vec();
	}
	let mut out = vec![];
	for k in 1..n {
		for (a, av) in grouped(leaves, k) {
			for (b, bv) in grouped(leaves, n - k) {
				let paren = |x: &str, least: i32| if prec(x) < least { format!("({x})") } else { x.to_string() };
				out.push((format!("{} + {}", a, paren(&b, 1)), av + bv));
				out.push((format!("{} * {}", paren(&a, 1), paren(&b, 2)), av * bv));
			}
		}
	}
	out
}

/// Type guessing over compositions of up to 3 parts, through files.
fn classify(ctx: &Ctx) {
	let dir = scratch("p04");
	let parts: Vec<(&str, Kind)> = vec![
		(crate::p02::PALLET_V2, Kind::Pallet),
		("parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 11, write: 22 }; }\n", Kind::Rocks(11, 22)),
		("pub mod constants { parameter_types! { pub const ParityDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 11 * 2, write: 22 }; } }\n", Kind::Parity(22, 22)),
		("parameter_types! { pub const BlockExecutionWeight: Weight = Weight::from_parts(5, 6); }\n", Kind::Block(5, 6)),
		("pub mod constants { parameter_types! { pub const ExtrinsicBaseWeight: Weight = 5 * WEIGHT_PER_NANOS; } }\n", Kind::Base(5000, 0)),
		("use a::b;\npub struct X;\n", Kind::Nothing),
		("pub trait WeightInfo { fn f() -> Weight; }\n", Kind::Nothing),
		("impl WeightInfo for () { fn f() -> u32 { 5 } }\n", Kind::Nothing),
		("mod constants { }\n", Kind::Nothing),
	];
	let rank = |k: &Kind| match k {
		Kind::Pallet => 0,
		Kind::Rocks(..) | Kind::Parity(..) => 1,
		Kind::Block(..) | Kind::Base(..) => 2,
		Kind::Nothing => 3,
	};
	for l in 0..=3 {
		par(ctx, parts.len().pow(l as u32), |i| {
			let s = seq(i, parts.len(), l);
			// a file is of one type; a mix of types is not specified beyond not crashing
			let mut kinds: Vec<Kind> = s.iter().map(|k| parts[*k].1).filter(|k| *k != Kind::Nothing).collect();
			kinds.dedup_by_key(|k| rank(k));
			if kinds.len() > 1 {
				return;
			}
			let want = s.iter().map(|k| parts[*k].1).find(|k| *k != Kind::Nothing).unwrap_or(Kind::Nothing);
			let src: String = s.iter().map(|k| parts[*k].0).collect();
			let case = format!("classify {src}");
			if !ctx.case(&case) {
				return;
			}
			ctx.state();
			ctx.steps(1);
			ctx.trace();
			let f = dir.join(format!("c{l}-{i}.rs"));
			std::fs::write(&f, &src).unwrap();
			let got = guard(|| match try_parse_file(&dir, &f) {
				None => Some(Kind::Nothing),
				Some(ParsedFile::Pallet(v)) =>
					(v.len() == 2 && v[0].pallet == f.file_name().unwrap().to_string_lossy()).then_some(Kind::Pallet),
				Some(ParsedFile::Storage(w)) => storage_kind(&w),
				Some(ParsedFile::Overhead(w)) => overhead_kind(&w),
			});
			let _ = std::fs::remove_file(&f);
			if got != Ok(Some(want)) {
				ctx.violation(&case, format!("classified as {got:?}, expected {want:?}"));
			}
		});
	}
	ctx.bound("type guess on all files of up to 3 of 9 parts of one type");
}

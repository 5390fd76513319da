//! P02: no content crashes parsing; unreadable files are contained.
use crate::{p01::scope, report::Ctx, util::*};
use std::{
	path::{Path, PathBuf},
	process::Command,
};
use subweight_core::{
	compare_files,
	parse::{overhead, pallet, storage, try_parse_file},
	CompareMethod, CompareParams, Dimension, FilterParams,
};

pub fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
	CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true }
}
pub fn no_filter() -> FilterParams {
	FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None }
}

/// Parses with all parsers; whatever is accepted must be usable, too.
fn survive(ctx: &Ctx, content: &str) {
	if !ctx.case(content) {
		return;
	}
	ctx.state();
	ctx.steps(3);
	ctx.trace();
	let r = guard(|| {
		let mut n = 0;
		if let Ok(exts) = pallet::parse_content("p".into(), content.into()) {
			n = 1;
			for unit in [Dimension::Time, Dimension::Proof] {
				for e in &exts {
					let t = e.term.simplify(unit).expect("must simplify");
					let _ = t.to_string();
					let _ = t.eval(&scope(unit, 2, 3));
				}
				for m in [CompareMethod::GuessWorst, CompareMethod::ExactAsymptotic] {
					let _ = compare_files(exts.clone(), exts.clone(), &params(m, unit), &no_filter())
						.map(|d| d.len());
				}
			}
		}
		if let Ok(w) = storage::parse_content(content.into()) {
			n = 2;
			let _ = w.weights.read.to_string();
			let _ = w.weights.write.eval(&scope(Dimension::Time, 1, 1));
		}
		if let Ok(overhead::Weight::BlockExecution(w) | overhead::Weight::ExtrinsicBase(w)) =
			overhead::parse_content(content.into())
		{
			n = 3;
			let t = w.simplify(Dimension::Time).expect("must simplify");
			let _ = t.to_string();
			let _ = t.eval(&scope(Dimension::Time, 1, 1));
		}
		n
	});
	match r {
		Ok(_) => {},
		Err(p) => ctx.violation(content, format!("crashed: {p}")),
	}
}

fn impl_body(b: &str) -> String {
	format!("impl WeightInfo for () {{ fn f(x: u32) -> Weight {{ {b} }} }}")
}

pub const PALLET_V1: &str = "pub trait WeightInfo { fn f(c: u32) -> Weight; }
impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T> {
	// Storage: System Digest (r:1 w:1)
	/// The range of component `c` is `[1, 2_000]`.
	fn f(c: u32, ) -> Weight {
		(3_110_000 as Weight)
			// Standard Error: 0
			.saturating_add((1_000 as Weight).saturating_mul(c as Weight))
			.saturating_add(T::DbWeight::get().reads(1 as Weight))
	}
}
";
pub const PALLET_V2: &str = "/// Weights
impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {
	/// The range of component `b` is `[0, 10]`.
	fn g(b: u32, ) -> Weight {
		Weight::from_parts(14_703_000, 3019)
			.saturating_add(Weight::from_parts(368, 0).saturating_mul(b.into()))
			.saturating_add(T::DbWeight::get().writes((2_u64).saturating_mul(b.into())))
	}
	fn h() -> Weight { Weight::zero() }
}
";
pub const STORAGE: &str = "pub mod constants {
	use frame_support::parameter_types;
	parameter_types! {
		/// By default
		pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight {
			read: 20_499 * constants::WEIGHT_PER_NANOS,
			write: 83_471 * constants::WEIGHT_PER_NANOS,
		};
	}
}
";
pub const OVERHEAD: &str = "parameter_types! {
	pub const BlockExecutionWeight: Weight =
		Weight::from_parts(WEIGHT_REF_TIME_PER_NANOS.saturating_mul(5_481_991), 0);
}
";

pub fn cli() -> PathBuf {
	PathBuf::from(std::env::var("MC_BIN").unwrap_or_else(|_| "/repo/target/debug".into())).join("subweight")
}
pub fn scratch(name: &str) -> PathBuf {
	let d = PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| "/tmp/mc-scratch".into()))
		.join(name);
	std::fs::create_dir_all(&d).expect("scratch");
	d
}

pub fn run(ctx: &Ctx) {
	// (1) Token strings as function bodies.
	let toks = [
		"5", "1.0", "x", "\"s\"", "(", ")", "{", "}", ".", ",", ";", "as", "u64", "::", "Weight::from_parts",
		".saturating_add", "T::DbWeight::get()", ".reads", "+", "let", "=", "!", "&", "[", "]", "fn", "#", "if",
		"|", "return", "->", "Weight", "_", "<", "'a", "99999999999999999999999999999999999999999",
	];
	let n = ctx.by_tier(3, 4);
	for len in 0..=n {
		par(ctx, toks.len().pow(len as u32), |i| {
			if ctx.enough() {
				return;
			}
			let b = seq(i, toks.len(), len).iter().map(|t| toks[*t]).collect::<Vec<_>>().join(" ");
			survive(ctx, &impl_body(&b));
		});
	}
	let core = ["5", "1.0", "x", "(", ")", "{", "}", ".into()", ",", ";", ".saturating_add", "as u64", "let", "=", "!", "Weight::from_parts"];
	let m = ctx.by_tier(4, 5);
	par(ctx, core.len().pow(m as u32), |i| {
		let b = seq(i, core.len(), m).iter().map(|t| core[*t]).collect::<Vec<_>>().join(" ");
		survive(ctx, &impl_body(&b));
	});
	ctx.bound(format!("all bodies of up to {n} of {} tokens and of {m} of {} tokens", toks.len(), core.len()));

	// (2) statement x expression x literal
	let lits = [
		"5", "5u64", "0x10", "0b1", "5_u8", "1.0", "1e3", "1.", "2.5f32", "\"s\"", "b\"s\"", "c\"s\"", "r#\"s\"#", "'c'",
		"b'c'", "true", "false", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
		"0xfffffffffffffffffffffffffffffffff", "5foo", "0u1000", "1_000_", "0x", "5i8", "-5", "5usize", "00005",
	];
	let exprs: Vec<&str> = vec![
		"L", "(L)", "L as Weight", "L as u8", "L.into()", "Weight::from_ref_time(L)", "Weight::from_parts(L, L)",
		"Weight::from_proof_size(L)", "Weight::zero(L)", "T::DbWeight::get().reads(L)", "T::DbWeight::get().writes(L as u64)",
		"T::DbWeight::get(L).reads(1)", "Weight::from_parts(1, 2).saturating_mul(L)", "Weight::from_parts(1, 2).saturating_add(L)",
		"L.saturating_mul(x)", "(L).saturating_add(L as Weight)", "(L as Weight).saturating_mul(L)", "L + L", "L * x", "-L", "x[L]",
		"f(L)", "foo!(L)", "[L; L]", "(L, L)", "S { a: L }", "if L { L } else { L }", "match x { L => L, _ => L }", "x.L", "L..L",
		"|a| L", "{ L }", "unsafe { L }", "loop { break L }", "return L", "&L", "L?", "L.await", "async { L }", "x = L",
		"Weight::from_parts(L.saturating_mul(L), L.saturating_add(x))", "a::b::<L>::c(L)", "L as [u8; L]", "T::DbWeight::get().reads(L.ref_time(L))",
	];
	let stmts = [
		"E", "E;", "let a = E;", "let a: u64 = E; a", "let E;", "return E;", "m! { E }", "m!(E);", "m![E]", "fn g() { E }",
		"const A: u64 = E;", "static B: u64 = E;", "use a::b;", "struct S;", "E E", "E; E", ";", "{ E }", "{ E; }", "#[a] E",
		"impl X { fn g() -> Weight { E } }", "loop { E }", "while E { }", "for a in E { }", "'l: { E }", "if E { }", "mod m { }", "macro_rules! m { () => { E } }",
		"extern crate a;", "type T = u8;", "enum E1 { A = E }", "let a = E else { E };", "unsafe { E }", "union U { a: u8 }", "trait T { }", "type A<const N: u8 = { E }> = u8;",
	];
	par(ctx, lits.len() * exprs.len() * stmts.len(), |i| {
		let mut d = Digits(i);
		let (l, e, s) = (d.pick(&lits), d.pick(&exprs), d.pick(&stmts));
		survive(ctx, &impl_body(&s.replace('E', &e.replace('L', l))));
	});
	// the same for storage and overhead definitions
	let defs = [
		"parameter_types! { pub const RocksDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: E, write: 1 }; }",
		"parameter_types! { pub const ParityDbWeight: RuntimeDbWeight = RuntimeDbWeight { read: 1 * E, write: E + 1 }; }",
		"parameter_types! { pub const ParityDbWeight: RuntimeDbWeight = E; }",
		"parameter_types! { pub const BlockExecutionWeight: Weight = E; }",
		"parameter_types! { pub const ExtrinsicBaseWeight: Weight = E * 5; }",
		"pub mod constants { parameter_types! { pub const ExtrinsicBaseWeight: Weight = 5 + E; } }",
		"parameter_types! { E }", "E!{ E }", "mod constants { E }", "mod constants;",
	];
	par(ctx, lits.len() * exprs.len() * defs.len(), |i| {
		let mut d = Digits(i);
		let (l, e, s) = (d.pick(&lits), d.pick(&exprs), d.pick(&defs));
		survive(ctx, &s.replace('E', &e.replace('L', l)));
	});
	ctx.bound(format!("{} statement forms x {} expressions x {} literals, and {} definition forms", stmts.len(), exprs.len(), lits.len(), defs.len()));
	ctx.sample(|| impl_body("let a = 1.0;"));

	// (3) corruptions of real files
	let files = [PALLET_V1, PALLET_V2, STORAGE, OVERHEAD];
	let bytes = b"\"(){}[]`,;9x.#!/\\'-_\n\0\xc3";
	let mut corrupted = vec![];
	for f in files {
		let b = f.as_bytes();
		for i in 0..=b.len() {
			corrupted.push(b[..i].to_vec());
			corrupted.push(b[i..].to_vec());
			if i < b.len() {
				let mut v = b.to_vec();
				v.remove(i);
				corrupted.push(v);
				for c in bytes {
					let mut v = b.to_vec();
					v[i] = *c;
					corrupted.push(v);
				}
			}
			for c in bytes {
				let mut v = b.to_vec();
				v.insert(i, *c);
				corrupted.push(v);
			}
			for c in ["\u{e9}", "\u{20ac}", "\u{1f980}", "\u{feff}", "\u{2028}"] {
				let mut v = b[..i].to_vec();
				v.extend(c.as_bytes());
				v.extend(&b[i..]);
				corrupted.push(v);
			}
			if ctx.thorough() {
				for j in i + 1..=(i + 40).min(b.len()) {
					let mut v = b[..i].to_vec();
					v.extend(&b[j..]);
					corrupted.push(v);
				}
			}
		}
	}
	ctx.bound(format!("{} corruptions of four weight files: every prefix, suffix, removed, replaced and inserted byte, and inserted longer characters", corrupted.len()));
	let tmp = scratch("p02");
	par(ctx, corrupted.len(), |i| {
		if ctx.enough() {
			return;
		}
		match String::from_utf8(corrupted[i].clone()) {
			Ok(s) => survive(ctx, &s),
			Err(_) => {
				// not text: through the file interface
				let case = format!("bytes {:?}", String::from_utf8_lossy(&corrupted[i]));
				if i % 16 != 0 || !ctx.case(&case) {
					return;
				}
				ctx.state();
				ctx.steps(1);
				ctx.trace();
				let f = tmp.join(format!("c{i}"));
				std::fs::write(&f, &corrupted[i]).expect("write");
				match guard(|| try_parse_file(&tmp, &f).is_none()) {
					Ok(true) => {},
					Ok(false) => ctx.violation(&case, "a file that is not text was accepted".into()),
					Err(p) => ctx.violation(&case, format!("crashed: {p}")),
				}
				let _ = std::fs::remove_file(&f);
			},
		}
	});

	// (4) range annotations
	let anns = ["[", "]", "`c`", "`[0, 5]`", "range", " ", "0", "9", ",", "99999999999", "_", "`", "\\\"", "é", "٣", "\\", "is `[٣, 5]`"];
	let k = ctx.by_tier(3, 4);
	par(ctx, anns.len().pow(k as u32) * 2, |i| {
		let s = seq(i / 2, anns.len(), k).iter().map(|t| anns[*t]).collect::<String>();
		let doc = if i % 2 == 0 { format!("/// {s}") } else { format!("#[doc = \"The range of component `c` is {}\"]", s.replace('\\', "\\\\").replace('"', "\\\"")) };
		survive(ctx, &format!("impl WeightInfo for () {{\n{doc}\nfn f(c: u32) -> Weight {{ Weight::from_parts(1, 2).saturating_mul(c.into()) }} }}"));
	});

	containment(ctx);
	crate::scale::files(ctx);
	nesting(ctx);
}

/// All placements of unreadable files.
fn containment(ctx: &Ctx) {
	let d = scratch("p02c");
	let good = |n: u32| format!("impl WeightInfo for () {{ fn f{n}() -> Weight {{ Weight::from_parts({n}, 2) }} fn g() -> Weight {{ Weight::zero() }} }}");
	std::fs::create_dir_all(d.join("dir.rs")).unwrap();
	let kinds: Vec<(&str, Option<Vec<u8>>, bool)> = vec![
		("a.rs", Some(good(1).into()), true),
		("b.rs", Some(good(2).into()), true),
		("syntax.rs", Some("impl WeightInfo for () { fn f(".into()), false),
		("lit.rs", Some(impl_body("1.0").into()), false),
		("stmt.rs", Some(impl_body("let x = 1;").into()), false),
		("partial.rs", Some("impl WeightInfo for () { fn f1() -> Weight { Weight::zero() } fn g() -> Weight { what(1) } }".into()), false),
		("empty.rs", Some(vec![]), false),
		("binary.rs", Some(vec![0xff, 0xfe, 0, 1]), false),
		("missing.rs", None, false),
		("dir.rs", None, false),
	];
	for (n, c, _) in &kinds {
		if let Some(c) = c {
			std::fs::write(d.join(n), c).unwrap();
		}
	}
	let len = ctx.by_tier(3, 4);
	for l in 0..=len {
		par(ctx, kinds.len().pow(l as u32), |i| {
			let s = seq(i, kinds.len(), l);
			let paths: Vec<PathBuf> = s.iter().map(|k| d.join(kinds[*k].0)).collect();
			let case = format!("files {:?}", s.iter().map(|k| kinds[*k].0).collect::<Vec<_>>());
			if !ctx.case(&case) {
				return;
			}
			ctx.state();
			ctx.steps(4);
			ctx.trace();
			let goods: Vec<PathBuf> =
				s.iter().filter(|k| kinds[**k].2).map(|k| d.join(kinds[*k].0)).collect();
			let r = guard(|| {
				let want = pallet::parse_files(&goods).expect("good files parse");
				let want_repo = pallet::parse_files_in_repo(&d, &goods).expect("good files parse");
				let all_good = goods.len() == paths.len();
				let names = |v: &Vec<pallet::ChromaticExtrinsic>| {
					v.iter().map(|e| (e.pallet.clone(), e.name.clone())).collect::<Vec<_>>()
				};
				let expect: Vec<(String, String)> = s.iter().filter(|k| kinds[**k].2).flat_map(|k| {
					let n = kinds[*k].0.to_string();
					[(n.clone(), if *k == 0 { "f1".to_string() } else { "f2".to_string() }), (n, "g".to_string())]
				}).collect();
				if names(&want) != expect {
					return Some(format!("good files give {:?}", names(&want)));
				}
				if names(&want_repo) != expect {
					return Some(format!("good files in the repository give {:?}", names(&want_repo)));
				}
				if pallet::try_parse_files(&paths) != want {
					return Some("ignoring errors differs from leaving the unreadable files out".to_string());
				}
				if pallet::try_parse_files_in_repo(&d, &paths) != want_repo {
					return Some("ignoring errors in a repository differs from leaving the unreadable files out".into());
				}
				match pallet::parse_files(&paths) {
					Ok(v) if all_good && v == want => {},
					Err(_) if !all_good => {},
					r => return Some(format!("strict parsing gave {r:?}")),
				}
				match pallet::parse_files_in_repo(&d, &paths) {
					Ok(v) if all_good && v == want_repo => {},
					Err(_) if !all_good => {},
					r => return Some(format!("strict parsing in the repository gave {r:?}")),
				}
				None
			});
			match r {
				Ok(None) => {},
				Ok(Some(e)) => ctx.violation(&case, e),
				Err(p) => ctx.violation(&case, format!("crashed: {p}")),
			}
		});
	}
	ctx.bound(format!("all sequences of up to {len} of {} files (2 readable, 8 unreadable)", kinds.len()));

	// The same through the command line: old and new side.
	let lists: Vec<Vec<usize>> = {
		let mut v = vec![];
		for l in 1..=2 {
			for i in 0..kinds.len().pow(l as u32) {
				v.push(seq(i, kinds.len(), l));
			}
		}
		v
	};
	let n = lists.len();
	par(ctx, n * 2 * 2 * 2, |i| {
		let mut g = Digits(i);
		let (l, side, ignore, cmd) = (g.pick(&lists), g.take(2), g.take(2) == 1, g.take(2));
		if cmd == 1 && (side == 1 || ignore) {
			return;
		}
		let names: Vec<&str> = l.iter().map(|k| kinds[*k].0).collect();
		let case = format!("cli {} side={side} ignore={ignore} {names:?}", ["compare", "parse"][cmd]);
		if !ctx.case(&case) {
			return;
		}
		ctx.state();
		ctx.steps(1);
		ctx.trace();
		let run = |names: &[&str], ignore: bool| {
			let mut c = Command::new(cli());
			c.current_dir(&d).env("RUST_BACKTRACE", "0");
			if cmd == 1 {
				c.args(["parse", "files"]).args(names);
			} else {
				c.args(["compare", "files", "--method", "base", "--threshold", "0", "--format", "csv", "--no-color"]);
				if ignore {
					c.arg("--ignore-errors");
				}
				let (a, b) = if side == 0 { ("--old", "--new") } else { ("--new", "--old") };
				c.arg(b).arg("b.rs").arg(a).args(names);
			}
			c.output().expect("cannot run subweight")
		};
		let all_good = l.iter().all(|k| kinds[*k].2);
		let o = run(&names, ignore);
		let Some(code) = o.status.code() else {
			return ctx.violation(&case, format!("killed: {:?}", o.status));
		};
		let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
		if code == 101 || err.contains("panicked") {
			return ctx.violation(&case, format!("panicked: {err}"));
		}
		if !ignore && !all_good {
			if code == 0 {
				ctx.violation(&case, "succeeded despite an unreadable file".into());
			} else if out.contains("b.rs") {
				ctx.violation(&case, format!("failed but reported results: {out}"));
			}
			return;
		}
		if code != 0 {
			return ctx.violation(&case, format!("failed: {err}"));
		}
		if cmd == 0 {
			let g: Vec<&str> = l.iter().filter(|k| kinds[**k].2).map(|k| kinds[*k].0).collect();
			// Without any readable file on a side, a file that does not parse stands for it.
			let mut want: Vec<String> = vec![];
			let w = |f: &str| if f == "a.rs" { vec!["a.rs,f1", "a.rs,g"] } else { vec!["b.rs,f2", "b.rs,g"] };
			let mut all: Vec<&str> = g.clone();
			all.push("b.rs");
			all.sort();
			all.dedup();
			for f in all {
				for k in w(f) {
					let here = g.contains(&f);
					let there = f == "b.rs";
					let what = match (here, there, side) {
						(true, true, _) => "Unchanged",
						(true, false, 0) | (false, true, 1) => "Removed",
						_ => "Added",
					};
					want.push(format!("{k},{what}"));
				}
			}
			let mut got: Vec<String> = out
				.lines()
				.filter(|l| l.contains(".rs,"))
				.map(|l| {
					let f: Vec<&str> = l.split(',').collect();
					format!("{},{},{}", f[0], f[1], f.get(4).unwrap_or(&""))
				})
				.collect();
			got.sort();
			want.sort();
			if got != want {
				ctx.violation(&case, format!("reported {got:?}, expected {want:?}"));
			}
		}
	});
	ctx.bound(format!("{} command lines over lists of up to 2 of these files", n * 5));
}

/// Deep nesting, in a process of its own.
fn nesting(ctx: &Ctx) {
	let d = scratch("p02n");
	let kinds: Vec<(&str, fn(usize) -> String)> = vec![
		("parentheses", |n| impl_body(&("(".repeat(n) + "5" + &")".repeat(n)))),
		("method chain", |n| impl_body(&("(5 as Weight)".to_string() + &".saturating_add(1 as Weight)".repeat(n)))),
		("nested calls", |n| impl_body(&("Weight::zero().saturating_add(".repeat(n) + "Weight::zero()" + &")".repeat(n)))),
		("braces", |n| impl_body(&("{".repeat(n) + "5" + &"}".repeat(n)))),
		("unary operators", |n| impl_body(&("-".repeat(n) + "5"))),
		("casts", |n| impl_body(&("5".to_string() + &" as u64".repeat(n)))),
		("binary operators", |n| impl_body(&("5".to_string() + &"+5".repeat(n)))),
		("arrays", |n| impl_body(&("[".repeat(n) + &"]".repeat(n)))),
		("macro tokens", |n| impl_body(&("foo!{".to_string() + &"(".repeat(n) + &")".repeat(n) + "}"))),
		("reference types", |n| impl_body(&("5 as ".to_string() + &"&".repeat(n) + "u8"))),
		("generic types", |n| impl_body(&("5 as ".to_string() + &"A<".repeat(n) + "u8" + &">".repeat(n)))),
		("else branches", |n| impl_body(&("if a {1} else ".repeat(n) + "{2}"))),
		("modules", |n| "mod a {".repeat(n) + &"}".repeat(n)),
		("constants modules", |n| "mod constants {".repeat(n) + STORAGE + &"}".repeat(n)),
	];
	let depths = [10usize, 50, 100, 100_000];
	par(ctx, kinds.len() * depths.len(), |i| {
		let mut g = Digits(i);
		let (n, dep) = (*g.pick(&depths), g.pick(&kinds));
		let case = format!("nesting of {n} {}", dep.0);
		if !ctx.case(&case) {
			return;
		}
		ctx.state();
		ctx.steps(1);
		ctx.trace();
		let f: PathBuf = d.join(format!("n{i}.rs"));
		std::fs::write(&f, dep.1(n)).unwrap();
		let o = Command::new(cli()).args(["parse", "files"]).arg(&f).env("RUST_BACKTRACE", "0").output().expect("cannot run subweight");
		let err = String::from_utf8_lossy(&o.stderr).to_string();
		if !matches!(o.status.code(), Some(0 | 1)) {
			ctx.violation(&case, format!("crashed ({:?}): {}", o.status, err.lines().take(4).collect::<Vec<_>>().join(" ")));
		}
		let _ = std::fs::remove_file(Path::new(&f));
	});
	ctx.bound(format!("{} kinds of nesting, depths {depths:?}", kinds.len()));
}

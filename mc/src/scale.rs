//! The same properties for everything there can be many or long ones of.
use crate::{
	model::{add, ext, mul, val, var},
	p02::{params, scratch},
	report::Ctx,
	util::*,
};
use std::path::PathBuf;
use subweight_core::{
	compare_extrinsics, compare_files,
	parse::pallet::{self, parse_content},
	scope::SimpleScope,
	term::SimpleTerm,
	CompareMethod, Dimension, FilterParams, RelativeChange,
};

/// Every small number, and those around powers of two and of ten.
pub fn sizes(ctx: &Ctx, limit: usize) -> Vec<usize> {
	let mut v: Vec<usize> = (1..=ctx.by_tier(34, 130)).collect();
	for p in (0..16).map(|e| 1usize << e).chain([50, 100, 500, 1000, 5000, 10_000]) {
		v.extend([p.max(2) - 1, p, p + 1]);
	}
	v.retain(|n| *n <= limit);
	v.sort();
	v.dedup();
	v
}

/// Names of a given length that only differ in one character, the first, the last or one in the middle.
pub fn names(len: usize) -> Vec<String> {
	let base = format!("c{}", "abcdefghij".chars().cycle().take(len.max(1) - 1).collect::<String>());
	let mut v = vec![base.clone()];
	for at in [len - 1, len / 2, 0] {
		let mut n = base.clone().into_bytes();
		n[at] = b'z';
		let n = String::from_utf8(n).unwrap();
		if !v.contains(&n) {
			v.push(n);
		}
	}
	v
}

fn case(ctx: &Ctx, text: String, f: impl FnOnce() -> Option<String>) {
	if !ctx.case(&text) {
		return;
	}
	ctx.state();
	ctx.trace();
	ctx.steps(1);
	match guard(f) {
		Ok(None) => {},
		Ok(Some(e)) => ctx.violation(&text, e.chars().take(2000).collect()),
		Err(e) => ctx.violation(&text, format!("crashed: {e}")),
	}
}

fn time(t: &subweight_core::term::ChromaticTerm, u: Dimension, vars: &[(&str, u128)]) -> Option<u128> {
	let s = vars.iter().fold(SimpleScope::empty(), |s, (n, v)| s.with_var(n, SimpleTerm::Scalar(*v)));
	t.simplify(u).ok()?.eval(&s).ok()
}

/// P01: long names, chains and numbers.
pub fn bodies(ctx: &Ctx) {
	let sz = sizes(ctx, 1025);
	par(ctx, sz.len(), |i| {
		let n = sz[i];
		case(ctx, format!("components with names of {n} characters"), || {
			let ns = names(n);
			let terms: Vec<String> = ns.iter().enumerate().map(|(k, c)| format!(".saturating_add(Weight::from_parts({}, {}).saturating_mul({c}.into()))", k + 2, k + 3)).collect();
			let src = crate::lang::file_with("", &format!("Weight::from_parts(1, 1){}", terms.concat()));
			let e = parse_content("p".into(), src).map_err(|e| e.to_string());
			let Ok(e) = e else { return Some(format!("rejected: {e:?}")) };
			let vars: Vec<(&str, u128)> = ns.iter().enumerate().map(|(k, c)| (&c[..], 10u128.pow(k as u32 + 1))).collect();
			for (u, s) in [(Dimension::Time, 2), (Dimension::Proof, 3)] {
				let want = 1 + (0..ns.len()).map(|k| (k as u128 + s) * 10u128.pow(k as u32 + 1)).sum::<u128>();
				let got = time(&e[0].term, u, &vars);
				if got != Some(want) {
					return Some(format!("{u:?}: {got:?} instead of {want}"));
				}
			}
			None
		});
		if n <= 64 {
			for shape in 0..3 {
				case(ctx, format!("{n} summands, shape {shape}"), || {
					let part = |k: usize| match shape {
						0 => format!("Weight::from_parts({}, {})", k, 2 * k),
						1 => format!("Weight::from_parts({}, {}).saturating_mul(x.into())", k, 2 * k),
						_ => format!("T::DbWeight::get().reads({k}_u64)"),
					};
					let src = crate::lang::file_with("x: u32", &(1..=n).fold("Weight::zero()".to_string(), |s, k| format!("{s}.saturating_add({})", part(k))));
					let e = match parse_content("p".into(), src) {
						Ok(e) => e,
						Err(e) => return Some(format!("rejected: {e}")),
					};
					let sum = (n * (n + 1) / 2) as u128;
					for (u, f) in [(Dimension::Time, 1), (Dimension::Proof, 2)] {
						let want = sum * [f, 7 * f, if f == 1 { 25 } else { 0 }][shape];
						let got = time(&e[0].term, u, &[("x", 7), ("READ", if f == 1 { 25 } else { 0 })]);
						if got != Some(want) {
							return Some(format!("{u:?}: {got:?} instead of {want}"));
						}
					}
					None
				});
			}
		}
		if n <= 39 {
			case(ctx, format!("numbers of {n} digits"), || {
				let d: String = "1234567890".chars().cycle().take(n).collect();
				let v: u128 = d.parse().ok()?;
				let long = format!("{}{d}", "0_".repeat(n));
				for t in [&d, &long] {
					let src = crate::lang::file_with("", &format!("Weight::from_parts({t}, {t})"));
					let got = parse_content("p".into(), src).ok().and_then(|e| time(&e[0].term, Dimension::Proof, &[]));
					if got != Some(v) {
						return Some(format!("{t}: {got:?}"));
					}
				}
				None
			});
		}
	});
	ctx.bound(format!("names of {} lengths up to 1025, chains of up to 64 summands, numbers of up to 39 digits", sz.len()));
}

/// P02: broken files among readable ones, in any number.
pub fn files(ctx: &Ctx) {
	let d = scratch("scale");
	let good = |n: usize| format!("impl WeightInfo for () {{ fn f{n}() -> Weight {{ Weight::from_parts({n}, 2) }} }}");
	let max = ctx.by_tier(40, 300);
	for n in 0..=max {
		std::fs::write(d.join(format!("g{n}.rs")), good(n)).unwrap();
		std::fs::write(d.join(format!("b{n}.rs")), ["fn (", "", "impl WeightInfo for () { fn f() -> u8 { 1 } }"][n % 3]).unwrap();
	}
	// where the readable ones are among the broken ones
	par(ctx, (max + 1) * 4, |i| {
		let (n, place) = (i / 4, i % 4);
		case(ctx, format!("{n} broken files, readable ones {}", ["first", "last", "in between", "as many"][place]), || {
			let b: Vec<PathBuf> = (0..n).map(|k| d.join(format!("b{k}.rs"))).collect();
			let g = |k: usize| d.join(format!("g{k}.rs"));
			let (paths, want): (Vec<PathBuf>, Vec<usize>) = match place {
				0 => ([vec![g(0), g(1)], b].concat(), vec![0, 1]),
				1 => ([b, vec![g(0), g(1)]].concat(), vec![0, 1]),
				2 => ([&b[..n / 2], &[g(0)], &b[n / 2..], &[g(1)]].concat(), vec![0, 1]),
				_ => (b.into_iter().enumerate().flat_map(|(k, b)| [b, g(k)]).collect(), (0..n).collect()),
			};
			let want: Vec<String> = want.iter().map(|k| format!("f{k}")).collect();
			for r in [pallet::try_parse_files(&paths), pallet::try_parse_files_in_repo(&d, &paths)] {
				if !r.iter().map(|e| &e.name).eq(&want) {
					return Some(format!("found {:?} and not {want:?}", r.iter().map(|e| &e.name).collect::<Vec<_>>()));
				}
			}
			(n > 0 && (pallet::parse_files(&paths).is_ok() || pallet::parse_files_in_repo(&d, &paths).is_ok())).then(|| "not an error".into())
		});
	});
	ctx.bound(format!("up to {max} broken files before, after and between readable ones"));
}

/// P03: many functions, ranges and items, and long names.
pub fn content(ctx: &Ctx) {
	let sz = sizes(ctx, ctx.by_tier(1025, 10_001));
	par(ctx, sz.len(), |i| {
		let n = sz[i];
		let list = |src: &str| parse_content("p".into(), src.into()).map(|v| v.iter().map(|e| (e.name.clone(), time(&e.term, Dimension::Time, &[]))).collect::<Vec<_>>());
		let wrong = |got: Result<Vec<(String, Option<u128>)>, String>, want: Vec<(String, Option<u128>)>| (got.as_ref() != Ok(&want)).then(|| format!("{:?} functions, expected {}", got.map(|v| v.len()), want.len()));
		case(ctx, format!("{n} functions"), || {
			let src = format!("impl WeightInfo for () {{ {} }}", (0..n).map(|k| format!("fn f{k}() -> Weight {{ Weight::from_parts({k}, 1) }}\n")).collect::<String>());
			wrong(list(&src), (0..n).map(|k| (format!("f{k}"), Some(k as u128))).collect())
		});
		case(ctx, format!("{n} items before"), || {
			let src = format!("{}impl WeightInfo for () {{ fn f() -> Weight {{ Weight::from_parts(5, 1) }} }}", "use a::b;\n".repeat(n));
			wrong(list(&src), vec![("f".into(), Some(5))])
		});
		case(ctx, format!("{n} kilobytes of comments"), || {
			let line = format!("// {}\n", "x".repeat(1020));
			let src = format!("{}impl WeightInfo for () {{\n{} fn f() -> Weight {{ Weight::from_parts(5, 1) }} }}", line.repeat(n / 2), line.repeat(n.div_ceil(2)));
			wrong(list(&src), vec![("f".into(), Some(5))])
		});
		if n > 1025 {
			return;
		}
		case(ctx, format!("functions with names of {n} characters"), || {
			let ns = names(n);
			let src = format!("impl WeightInfo for () {{ {} }}", ns.iter().enumerate().map(|(k, f)| format!("fn {f}() -> Weight {{ Weight::from_parts({k}, 1) }}\n")).collect::<String>());
			wrong(list(&src), ns.iter().enumerate().map(|(k, f)| (f.clone(), Some(k as u128))).collect())
		});
		for other in [0, 3] {
			case(ctx, format!("{n} ranges with {other} other lines between"), || {
				let src = format!("impl WeightInfo for () {{ {} fn f() -> Weight {{ Weight::zero() }} }}", (0..n).map(|k| format!("/// The range of component `c{k}` is `[{k}, {}]`.\n{}", 2 * k, "/// Storage: A B (r:1 w:0)\n".repeat(other))).collect::<String>());
				let e = match parse_content("p".into(), src) {
					Ok(e) => e,
					Err(e) => return Some(format!("rejected: {e}")),
				};
				let r = e[0].comp_ranges.clone().unwrap_or_default();
				let bad = (0..n).find(|k| r.get(&format!("c{k}")).map(|r| (r.min, r.max)) != Some((*k as u32, 2 * *k as u32)));
				(bad.is_some() || r.len() != n).then(|| format!("{} ranges, not that of c{bad:?}", r.len()))
			});
		}
		case(ctx, format!("ranges of components with names of {n} characters"), || {
			let ns = names(n);
			let src = format!("impl WeightInfo for () {{ {} fn f() -> Weight {{ Weight::zero() }} }}", ns.iter().enumerate().map(|(k, c)| format!("/// The range of component `{c}` is `[{k}, {}]`.\n", k + 5)).collect::<String>());
			let r = parse_content("p".into(), src).ok()?[0].comp_ranges.clone().unwrap_or_default();
			let ok = r.len() == ns.len() && ns.iter().enumerate().all(|(k, c)| r.get(c).map(|r| (r.min, r.max)) == Some((k as u32, k as u32 + 5)));
			(!ok).then(|| format!("{r:?}"))
		});
	});
	ctx.bound(format!("{} numbers of functions, other items, comments and ranges up to {}, names of up to 1025 characters", sz.len(), sz[sz.len() - 1]));
}

/// P06: components with long names.
pub fn components(ctx: &Ctx) {
	let sz = sizes(ctx, 1025);
	par(ctx, sz.len() * 2, |i| {
		let (n, m) = (sz[i / 2], [CompareMethod::ExactWorst, CompareMethod::GuessWorst][i % 2]);
		let ns = names(n);
		for set in 0..1u32 << ns.len() {
			case(ctx, format!("{m:?} components with names of {n} characters, at their minimum {set:#b}"), || {
				let rs: Vec<(String, (u32, u32))> = ns.iter().enumerate().map(|(k, c)| (c.clone(), (1 + k as u32, 50 + k as u32))).collect();
				let side = |on: bool| (0..ns.len()).filter(|k| (set >> k & 1 == 1) == on).fold(val(1000), |t, k| add(t, mul(val(100 + k as u128), var(&ns[k]))));
				let value = |on: bool| 1000 + (0..ns.len()).filter(|k| (set >> k & 1 == 1) == on).map(|k| (100 + k as u128) * (if on { 1 } else { 50 } + k as u128)).sum::<u128>();
				let (old, new) = (ext("f", "p", side(true), &rs), ext("f", "p", side(false), &rs));
				match compare_extrinsics(Some(old), Some(new), &params(m, Dimension::Time)) {
					Ok(g) if (g.old_v, g.new_v) == (Some(value(true)), Some(value(false))) => None,
					Ok(g) => Some(format!("{:?} -> {:?} instead of {} -> {}", g.old_v, g.new_v, value(true), value(false))),
					Err(e) => Some(e),
				}
			});
		}
	});
	ctx.bound(format!("components with names of {} lengths up to 1025, every worst corner", sz.len()));
}

/// P08: long and many names of functions and files.
pub fn pairing(ctx: &Ctx) {
	let sz = sizes(ctx, ctx.by_tier(1025, 5001));
	let filter = FilterParams { threshold: 0.0, change: None, extrinsic: None, pallet: None };
	let src = |fs: &[(String, usize)]| format!("impl WeightInfo for () {{ {} }}", fs.iter().map(|(f, v)| format!("fn {f}() -> Weight {{ Weight::from_parts({v}, 1) }}\n")).collect::<String>());
	type Row = (String, String, Option<u128>, Option<u128>, RelativeChange);
	let compare = |old: &[(String, Vec<(String, usize)>)], new: &[(String, Vec<(String, usize)>)]| -> Result<Vec<Row>, String> {
		let parse = |l: &[(String, Vec<(String, usize)>)]| l.iter().flat_map(|(n, f)| parse_content(n.clone(), src(f)).expect("must parse")).collect::<Vec<_>>();
		let d = compare_files(parse(old), parse(new), &params(CompareMethod::Base, Dimension::Time), &filter).map_err(|e| e.to_string())?;
		let mut v = d.iter().map(|e| e.term().map(|t| (e.file.clone(), e.name.clone(), t.old_v, t.new_v, t.change)).ok_or(format!("{:?}", e.error()))).collect::<Result<Vec<_>, _>>()?;
		v.sort();
		Ok(v)
	};
	let row = |f: &str, n: &str, o: Option<usize>, w: Option<usize>| {
		let c = match (o, w) {
			(None, _) => RelativeChange::Added,
			(_, None) => RelativeChange::Removed,
			(a, b) if a == b => RelativeChange::Unchanged,
			_ => RelativeChange::Changed,
		};
		(f.to_string(), n.to_string(), o.map(|v| v as u128), w.map(|v| v as u128), c)
	};
	let judge = |got: Result<Vec<Row>, String>, mut want: Vec<Row>| {
		want.sort();
		match got {
			Err(e) => Some(e),
			Ok(g) => {
				let bad = g.iter().zip(&want).find(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}"));
				(g.len() != want.len() || bad.is_some()).then(|| format!("{} rows of {}, {bad:?}", g.len(), want.len()))
			},
		}
	};
	par(ctx, sz.len() * 3, |i| {
		let n = sz[i / 3];
		match i % 3 {
			0 if n <= 1025 => {
				let ns = names(n);
				for (s, kind) in (0..1usize << (2 * ns.len())).flat_map(|s| [(s, 0), (s, 1)]) {
					case(ctx, format!("names of {n} characters of {}, presence {s:#b}", ["functions", "files"][kind]), || {
						let side = |sh: usize| {
							let l: Vec<(String, usize)> = ns.iter().enumerate().filter(|(k, _)| s >> (2 * k + sh) & 1 == 1).map(|(k, f)| (f.clone(), 10 * k + sh * (k % 2))).collect();
							match kind {
								0 if l.is_empty() => vec![],
								0 => vec![("a.rs".to_string(), l)],
								_ => l.into_iter().map(|(f, v)| (f, vec![("f".to_string(), v)])).collect(),
							}
						};
						let want = ns.iter().enumerate().filter(|(k, _)| s >> (2 * k) & 3 > 0).map(|(k, f)| {
							let v = |sh: usize| (s >> (2 * k + sh) & 1 == 1).then_some(10 * k + sh * (k % 2));
							if kind == 0 { row("a.rs", f, v(0), v(1)) } else { row(f, "f", v(0), v(1)) }
						}).collect();
						judge(compare(&side(0), &side(1)), want)
					});
				}
			},
			1 => case(ctx, format!("{n} functions of one file"), || {
				let (o, w): (Vec<_>, Vec<_>) = ((0..n).filter(|k| k % 5 != 1).map(|k| (format!("f{k}"), k)).collect(), (0..n).rev().filter(|k| k % 7 != 2).map(|k| (format!("f{k}"), k + k % 2)).collect());
				let want = (0..n).filter(|k| k % 5 != 1 || k % 7 != 2).map(|k| row("a.rs", &format!("f{k}"), (k % 5 != 1).then_some(k), (k % 7 != 2).then_some(k + k % 2))).collect();
				let set = |l: Vec<(String, usize)>| if l.is_empty() { vec![] } else { vec![("a.rs".to_string(), l)] };
				judge(compare(&set(o), &set(w)), want)
			}),
			2 => case(ctx, format!("{n} files"), || {
				let set = |m: usize, r: usize, d: usize| (0..n).filter(|k| k % m != r).map(|k| (format!("d{}/f{k}.rs", k % 3), vec![("f".to_string(), k + d * (k % 2))])).collect::<Vec<_>>();
				let want = (0..n).filter(|k| k % 5 != 1 || k % 7 != 2).map(|k| row(&format!("d{}/f{k}.rs", k % 3), "f", (k % 5 != 1).then_some(k), (k % 7 != 2).then_some(k + k % 2))).collect();
				judge(compare(&set(5, 1, 0), &set(7, 2, 1)), want)
			}),
			_ => {},
		}
	});
	ctx.bound(format!("{} numbers of functions and files up to {}, names of up to 1025 characters present on any side", sz.len(), sz[sz.len() - 1]));
}

/// P13: long names and equations.
pub fn equations(ctx: &Ctx) {
	let sz = sizes(ctx, 1025);
	par(ctx, sz.len(), |i| {
		let n = sz[i];
		case(ctx, format!("names of {n} characters in an equation"), || {
			let ns = names(n);
			let t = ns.iter().fold(val(1), |t, c| add(t, mul(val(2), var(c))));
			let want = format!("1{}", ns.iter().map(|c| format!(" + 2 * {c}")).collect::<String>());
			let plain = |s: &str| s.replace([' ', '(', ')'], "");
			(plain(&t.to_string()) != plain(&want)).then(|| format!("{t} instead of {want}"))
		});
		if n <= 300 {
			case(ctx, format!("an equation of {n} summands"), || {
				let t = (1..=n).fold(var("a"), |t, k| add(t, mul(val(k as u128 + 1), var(&format!("c{k}")))));
				let s = t.to_string().replace([' ', '(', ')'], "");
				// like what is added, in any order
				let mut got: Vec<&str> = s.split('+').collect();
				let mut want: Vec<String> = (1..=n).map(|k| format!("{}*c{k}", Dimension::fmt_scalar(k as u128 + 1))).chain(["a".to_string()]).collect();
				got.sort();
				want.sort();
				(got != want).then(|| s.clone())
			});
		}
	});
	ctx.bound(format!("names of {} lengths up to 1025 in equations, and up to 300 summands", sz.len()));
}

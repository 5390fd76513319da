//! P12: warnings about many storage accesses.
use crate::{lang::{file_with, sites, body, S, W}, model::*, p05::NO_FILTER, report::Ctx, util::*};
use std::sync::Arc;
use subweight_core::{compare_files, parse::pallet::parse_content, CompareMethod, Dimension};

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
	R(u128),
	Wr(u128),
	/// per component
	RVar(u128),
	WVar(u128),
}
fn acc(a: A) -> W {
	let l = |v| Arc::new(S::Lit(v));
	match a {
		A::R(n) => W::Reads(l(n)),
		A::Wr(n) => W::Writes(l(n)),
		A::RVar(n) => W::Reads(S::Mul(l(n), S::Var("s").into()).into()),
		A::WVar(n) => W::Writes(S::Mul(S::Var("s").into(), l(n)).into()),
	}
}
fn addw(a: W, b: W) -> W {
	W::Add(a.into(), b.into())
}
fn mulw(a: W) -> W {
	W::Mul(a.into(), S::Var("n").into())
}
const CONTEXTS: usize = 9;
fn context(i: usize, a: W, v1: bool) -> W {
	let c = |x: u128| if v1 { W::Plain(S::Lit(x).into()) } else { W::Parts(S::Lit(x).into(), S::Lit(x + 1).into()) };
	match i {
		0 => a,
		1 => addw(c(5000), a),
		2 => addw(a, c(5000)),
		3 => mulw(a),
		4 => mulw(addw(c(1), a)),
		5 => addw(c(7), addw(a, c(2000))),
		6 => addw(addw(mulw(c(3000)), a), c(9)),
		7 => mulw(mulw(a)),
		_ => addw(c(2), addw(c(3), addw(c(4), mulw(addw(a, c(8000)))))),
	}
}

/// The larger count and whether reads or writes have it.
fn want(accesses: &[A]) -> Option<(u128, bool, bool)> {
	let m = accesses.iter().map(|a| if let A::R(n) | A::Wr(n) = a { *n } else { 0 }).max().unwrap_or(0);
	(m > 1000).then(|| (m, accesses.contains(&A::R(m)), accesses.contains(&A::Wr(m))))
}

fn warns(msg: &str, w: (u128, bool, bool)) -> bool {
	let words: Vec<String> = msg.split(|c: char| !c.is_alphanumeric() && c != '_').map(|s| s.to_uppercase()).collect();
	let has = |k: &str| words.iter().any(|w| w == k || w == &format!("{k}S"));
	words.contains(&w.0.to_string()) && (has("READ") && w.1 || has("WRITE") && w.2) && (has("READ") != has("WRITE"))
}

struct Side {
	src: String,
	accesses: Vec<A>,
	w: W,
}

fn check(ctx: &Ctx, old: Option<&Side>, new: Option<&Side>, m: CompareMethod, u: Dimension) {
	let case = || format!("{m:?} {u:?}: {:?} -> {:?}", old.map(|s| &s.src), new.map(|s| &s.src));
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.steps(1 + old.is_some() as u64 + new.is_some() as u64);
	ctx.trace();
	let got = guard(|| {
		let p = |s: Option<&Side>| s.map(|s| parse_content("p.rs".into(), s.src.clone())).transpose().map(|v| v.unwrap_or_default());
		compare_files(p(old)?, p(new)?, &params(m, u), &NO_FILTER).map_err(|e| e.to_string())
	});
	let got = match got {
		Ok(Ok(g)) if g.len() == 1 => g,
		r => return ctx.violation(&case(), format!("no single entry: {:?}", r.map(|r| r.map(|r| r.len())))),
	};
	let w = want(&new.or(old).unwrap().accesses);
	let g = got[0].warning();
	match (g, w) {
		(None, None) => {},
		(Some(g), Some(w)) if warns(g, w) => {},
		_ => return ctx.violation(&case(), format!("warning {g:?}, expected (count, reads, writes) {w:?}")),
	}
	// the values are unaffected
	let v = if m == CompareMethod::Base { 0 } else { 100 };
	let value = |s: Option<&Side>| s.map(|s| { let (t, p) = s.w.val(&|_| v); if u == Dimension::Time { t } else { p } });
	match got[0].term() {
		Some(t) if t.old_v == value(old) && t.new_v == value(new) => {},
		t => ctx.violation(&case(), format!("values {:?}, expected {:?} -> {:?}", t.map(|t| (t.old_v, t.new_v)), value(old), value(new))),
	}
}

fn side(w: W, v1: bool, dev: &[(usize, usize)], accesses: Vec<A>) -> Side {
	Side { src: file_with("n: u32, s: u32, ", &body(&w, v1, dev)), accesses, w }
}

pub fn run(ctx: &Ctx) {
	let counts = [0u128, 1, 2, 999, 1000, 1001, 1010, 5000, u32::MAX as u128, u64::MAX as u128];
	// every spelling of a single access everywhere
	let mut single: Vec<(W, bool, A)> = vec![];
	for v1 in [false, true] {
		for c in 0..CONTEXTS {
			for n in counts {
				for a in [A::R(n), A::Wr(n), A::RVar(n), A::WVar(n)] {
					single.push((context(c, acc(a), v1), v1, a));
				}
			}
		}
	}
	let pairs = ctx.thorough();
	par(ctx, single.len(), |i| {
		if ctx.enough() {
			return;
		}
		let (w, v1, a) = &single[i];
		let sites = sites(w, *v1);
		let mut devs: Vec<Vec<(usize, usize)>> = vec![vec![]];
		for (s, n) in sites.iter().enumerate() {
			for st in 1..*n {
				devs.push(vec![(s, st)]);
				if pairs {
					for (s2, n2) in sites.iter().enumerate().skip(s + 1) {
						for st2 in 1..*n2 {
							devs.push(vec![(s, st), (s2, st2)]);
						}
					}
				}
			}
		}
		for d in devs {
			let x = side(w.clone(), *v1, &d, vec![*a]);
			for u in &UNITS {
				check(ctx, None, Some(&x), CompareMethod::Asymptotic, *u);
			}
		}
	});
	ctx.sample(|| body(&single[5].0, single[5].1, &[]));
	ctx.bound(format!("{} functions with one access (10 counts, 9 contexts, reads and writes, constant or per component), in every spelling with one{} deviations", single.len(), if pairs { " or two" } else { "" }));
	// two and three accesses
	let n2 = [0u128, 1000, 1001, 1500, 5000];
	par(ctx, (n2.len() * 2).pow(3) * 6, |i| {
		if ctx.enough() {
			return;
		}
		let mut d = Digits(i);
		let mut a = || { let n = *d.pick(&n2); if d.take(2) == 0 { A::R(n) } else { A::Wr(n) } };
		let (x, y, z) = (a(), a(), a());
		let shape = d.take(6);
		let p = |v: u128| W::Parts(S::Lit(v).into(), S::Lit(v).into());
		let w = match shape {
			0 => addw(addw(addw(p(1), acc(x)), acc(y)), acc(z)),
			1 => addw(p(1), addw(acc(x), addw(acc(y), acc(z)))),
			2 => addw(mulw(addw(acc(x), acc(y))), acc(z)),
			3 => addw(addw(mulw(acc(x)), p(4000)), mulw(addw(acc(y), mulw(acc(z))))),
			4 => addw(addw(acc(x), addw(acc(y), p(1))), addw(p(2), acc(z))),
			_ => mulw(addw(mulw(acc(x)), addw(p(0), addw(acc(y), acc(z))))),
		};
		let s = side(w, false, &[], vec![x, y, z]);
		for u in UNITS {
			check(ctx, None, Some(&s), CompareMethod::Base, u);
			check(ctx, Some(&s), None, CompareMethod::Asymptotic, u);
		}
	});
	ctx.bound("all triples of accesses with five counts in six shapes");
	// which version counts, by all methods
	let vs: Vec<Option<Side>> = [None, Some(vec![A::R(1)]), Some(vec![A::R(2000)]), Some(vec![A::Wr(1001)]), Some(vec![A::R(7000), A::Wr(3000)])]
		.into_iter()
		.map(|a| a.map(|a| side(a.iter().fold(W::Parts(S::Lit(1000).into(), S::Lit(7).into()), |w, a| addw(w, acc(*a))), false, &[], a)))
		.collect();
	par(ctx, vs.len() * vs.len(), |i| {
		let (o, n) = (vs[i % vs.len()].as_ref(), vs[i / vs.len()].as_ref());
		if o.is_some() || n.is_some() {
			for m in METHODS {
				for u in UNITS {
					check(ctx, o, n, m, u);
				}
			}
		}
	});
	ctx.bound("all pairs of five versions by all methods and dimensions");
}

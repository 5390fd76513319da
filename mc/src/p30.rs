//! P30: the algebra of expressions and scopes.
use crate::{model::*, report::Ctx, util::*};
use std::collections::{BTreeMap, BTreeSet};
use subweight_core::{
	scope::{ChromaticScope, Scope, SimpleScope},
	term::{ChromaticTerm, SimpleTerm},
	traits::Weight,
	Dimension,
};

/// Terms with exactly `n` leaves.
fn count(n: usize, leaves: usize) -> usize {
	if n == 1 {
		return leaves;
	}
	(1..n).map(|k| count(k, leaves) * count(n - k, leaves) * 2).sum()
}
fn nth(mut i: usize, n: usize, leaves: &[SimpleTerm]) -> SimpleTerm {
	if n == 1 {
		return leaves[i].clone();
	}
	for k in 1..n {
		let (l, r) = (count(k, leaves.len()), count(n - k, leaves.len()));
		let c = l * r * 2;
		if i < c {
			let op = i % 2;
			let (x, y) = (nth(i / 2 % l, k, leaves), nth(i / 2 / l, n - k, leaves));
			return if op == 0 { add(x, y) } else { mul(x, y) };
		}
		i -= c;
	}
	unreachable!()
}

type Bind = BTreeMap<&'static str, SimpleTerm>;

/// The value of a term, or none if it needs something that is not bound.
fn value(t: &SimpleTerm, b: &Bind) -> Option<u128> {
	Some(match t {
		SimpleTerm::Value(v) | SimpleTerm::Scalar(v) => *v,
		SimpleTerm::Var(v) => value(b.get(v.0.as_str())?, b)?,
		SimpleTerm::Add(x, y) => value(x, b)?.saturating_add(value(y, b)?),
		SimpleTerm::Mul(x, y) => value(x, b)?.saturating_mul(value(y, b)?),
	})
}
fn names(t: &SimpleTerm, out: &mut BTreeSet<String>) {
	match t {
		SimpleTerm::Var(v) => drop(out.insert(v.0.clone())),
		SimpleTerm::Add(x, y) | SimpleTerm::Mul(x, y) => {
			names(x, out);
			names(y, out)
		},
		_ => {},
	}
}
fn replace(t: &SimpleTerm, v: &str, by: &SimpleTerm) -> SimpleTerm {
	match t {
		SimpleTerm::Var(x) if x.0 == v => by.clone(),
		SimpleTerm::Add(x, y) => add(replace(x, v, by), replace(y, v, by)),
		SimpleTerm::Mul(x, y) => mul(replace(x, v, by), replace(y, v, by)),
		t => t.clone(),
	}
}
fn factor(t: &SimpleTerm, v: &str) -> Option<u128> {
	match t {
		SimpleTerm::Add(x, y) => factor(x, v).max(factor(y, v)),
		SimpleTerm::Mul(x, y) => {
			let own = match (&**x, &**y) {
				(SimpleTerm::Scalar(n), SimpleTerm::Var(w)) | (SimpleTerm::Var(w), SimpleTerm::Scalar(n)) if w.0 == v => Some(*n),
				_ => None,
			};
			own.max(factor(x, v)).max(factor(y, v))
		},
		_ => None,
	}
}
fn preorder(t: &SimpleTerm, out: &mut Vec<String>) {
	out.push(show(t));
	if let SimpleTerm::Add(x, y) | SimpleTerm::Mul(x, y) = t {
		preorder(x, out);
		preorder(y, out)
	}
}

/// Every subset of some bindings.
fn subsets(all: &[(&'static str, SimpleTerm)]) -> Vec<Bind> {
	(0..1usize << all.len()).map(|m| all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| x.clone()).collect()).collect()
}
fn scope(b: &Bind) -> SimpleScope {
	let mut s = SimpleScope::empty();
	for (k, v) in b {
		s.put_var(k, v.clone());
	}
	s
}

fn simple(ctx: &Ctx, t: &SimpleTerm, binds: &[Bind], by: &[SimpleTerm]) {
	let case = || format!("expression {}", show(t));
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.trace();
	let mut own = BTreeSet::new();
	names(t, &mut own);
	let r = guard(|| -> Result<(), String> {
		for b in binds {
			ctx.steps(1);
			let s = scope(b);
			let (got, want) = (t.eval(&s), value(t, b));
			if got.clone().ok() != want {
				return Err(format!("is {got:?} with {b:?}, not {want:?}"));
			}
			ctx.outcome(if want.is_some() { "evaluated" } else { "unbound" });
			let (bound, free): (BTreeSet<_>, BTreeSet<_>) = own.iter().cloned().partition(|v| b.contains_key(v.as_str()));
			if t.bound_vars(&s) != bound || t.free_vars(&s) != free {
				return Err(format!("bound {:?}, free {:?} with {b:?}", t.bound_vars(&s), t.free_vars(&s)));
			}
			let text = t.fmt_equation(&s);
			let used: BTreeSet<String> = text.split(", ").filter(|x| !x.is_empty()).map(|x| x.split('=').next().unwrap().to_string()).collect();
			if used != own {
				return Err(format!("uses {text:?} with {b:?}"));
			}
		}
		for v in ["a", "b", "a_", "READ", "A", ""] {
			if t.find_largest_factor(v) != factor(t, v) {
				return Err(format!("the largest factor of {v:?} is {:?}", t.find_largest_factor(v)));
			}
			for x in by {
				let (got, want) = (t.clone().into_substituted(v, x), replace(t, v, x));
				let mut inplace = t.clone();
				inplace.substitute(v, x);
				let mut vars = (BTreeSet::new(), BTreeSet::new());
				names(&got, &mut vars.0);
				names(&want, &mut vars.1);
				let full = binds.last().unwrap();
				if vars.0 != vars.1 || value(&got, full) != value(&want, full) || show(&got) != show(&inplace) {
					return Err(format!("with {} for {v:?} it is {} and {}", show(x), show(&got), show(&inplace)));
				}
				ctx.steps(1);
			}
		}
		let mut want = vec![];
		preorder(t, &mut want);
		let got = t.visit(&mut |x| Ok(show(x)));
		if got.as_ref() != Ok(&want) {
			return Err(format!("visits {got:?}"));
		}
		if !own.is_empty() {
			let got = t.visit(&mut |x| x.as_var().map_or(Ok(()), |v| Err(format!("no {v}"))));
			if !got.as_ref().is_err_and(|e| own.iter().any(|v| *e == format!("no {v}"))) {
				return Err(format!("the error of a visitor becomes {got:?}"));
			}
		}
		// Into two dimensions and back. Storage accesses have values in both.
		let full = binds.last().unwrap();
		for unit in UNITS {
			let other = if unit == Dimension::Time { Dimension::Proof } else { Dimension::Time };
			let two = t.clone().into_chromatic(unit);
			let mut none = full.clone();
			none.insert("READ", s(0));
			let v = two.simplify(unit)?.eval(&scope(full)).ok();
			let z = two.simplify(other)?.eval(&scope(&none)).ok();
			if v != value(t, full) || z != Some(0) {
				return Err(format!("in {unit:?} it is {two:?} with {v:?} and {z:?}"));
			}
			ctx.steps(2);
		}
		Ok(())
	});
	match r {
		Ok(Ok(())) => {},
		Ok(Err(e)) | Err(e) => ctx.violation(&case(), e),
	}
}

/// Two-dimensional expressions: sums of weights and their multiples.
fn weights(n: usize, leaves: &[ChromaticTerm], factors: &[ChromaticTerm]) -> Vec<ChromaticTerm> {
	if n == 1 {
		return leaves.to_vec();
	}
	let mut out = vec![];
	for k in 1..n {
		for x in weights(k, leaves, factors) {
			for y in weights(n - k, leaves, factors) {
				out.push(ChromaticTerm::Add(x.clone().into(), y.into()));
			}
		}
	}
	for x in weights(n - 1, leaves, factors) {
		// A product of two variables does not say which is the weight.
		for f in factors.iter().filter(|f| x.as_var().is_none() || f.as_var().is_none()) {
			out.push(ChromaticTerm::Mul(x.clone().into(), f.clone().into()));
			out.push(ChromaticTerm::Mul(f.clone().into(), x.clone().into()));
		}
	}
	out
}

type Bind2 = BTreeMap<&'static str, ChromaticTerm>;

/// What a factor or weight stands for.
enum V {
	Number(u128),
	Weight(u128, u128),
}
fn value2(t: &ChromaticTerm, b: &Bind2) -> Option<V> {
	Some(match t {
		ChromaticTerm::Value(w) => V::Weight(w.time, w.proof),
		ChromaticTerm::Scalar(n) => V::Number(*n),
		ChromaticTerm::Var(v) => value2(b.get(v.0.as_str())?, b)?,
		ChromaticTerm::Add(x, y) => match (value2(x, b)?, value2(y, b)?) {
			(V::Weight(a, b), V::Weight(c, d)) => V::Weight(a.saturating_add(c), b.saturating_add(d)),
			_ => return None,
		},
		ChromaticTerm::Mul(x, y) => match (value2(x, b)?, value2(y, b)?) {
			(V::Weight(a, b), V::Number(n)) | (V::Number(n), V::Weight(a, b)) => V::Weight(a.saturating_mul(n), b.saturating_mul(n)),
			_ => return None,
		},
	})
}
fn part(w: &Weight, u: Dimension) -> u128 {
	if u == Dimension::Time { w.time } else { w.proof }
}

fn two(ctx: &Ctx, t: &ChromaticTerm, binds: &[Bind2]) {
	let case = || format!("weight expression {t:?}");
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.trace();
	let r = guard(|| -> Result<(), String> {
		for b in binds {
			ctx.steps(3);
			let mut s = ChromaticScope::empty();
			for (k, v) in b {
				s.put_var(k, v.clone());
			}
			let want = match value2(t, b) {
				Some(V::Weight(a, b)) => Some((a, b)),
				_ => None,
			};
			let got = t.eval(&s).ok().map(|w| (w.time, w.proof));
			if got != want {
				return Err(format!("is {got:?} with {b:?}, not {want:?}"));
			}
			ctx.outcome(if want.is_some() { "weight" } else { "no weight" });
			for u in UNITS {
				let sb: Bind = b.iter().map(|(k, v)| (*k, match v { ChromaticTerm::Value(w) => val(part(w, u)), ChromaticTerm::Scalar(n) => SimpleTerm::Scalar(*n), _ => unreachable!() })).collect();
				let p = t.simplify(u)?;
				let got = p.eval(&scope(&sb)).ok();
				// A factor that is not a number matters in two dimensions only.
				if want.is_some() && got != want.map(|(x, y)| if u == Dimension::Time { x } else { y }) {
					return Err(format!("{u:?} of it is {got:?} with {b:?}, not that of {want:?}"));
				}
				if p.free_vars(&scope(&sb)) != t.free_vars(&s) || p.bound_vars(&scope(&sb)) != t.bound_vars(&s) {
					return Err(format!("{u:?} of it has other variables"));
				}
			}
		}
		Ok(())
	});
	match r {
		Ok(Ok(())) => {},
		Ok(Err(e)) | Err(e) => ctx.violation(&case(), e),
	}
}

fn splice(ctx: &Ctx, x: &ChromaticTerm, y: &ChromaticTerm, full: &Bind2) {
	let case = || format!("sum of {x:?} and {y:?}");
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.steps(1);
	let want = value2(&ChromaticTerm::Add(x.clone().into(), y.clone().into()), full);
	match guard(|| x.clone().splice_add(y.clone())) {
		Err(e) => ctx.violation(&case(), e),
		Ok(t) => match (value2(&t, full), want) {
			(Some(V::Weight(a, b)), Some(V::Weight(c, d))) if (a, b) == (c, d) => ctx.outcome("sum"),
			_ => ctx.violation(&case(), format!("spliced as {t:?}")),
		},
	}
}

const NAMES: [&str; 4] = ["a", "b", "a_", "READ"];

/// Every sequence of operations on a scope.
fn scopes(ctx: &Ctx, ops: &[usize]) {
	let case = || format!("scope operations {ops:?}");
	if !ctx.want(case) {
		return;
	}
	ctx.trace();
	let others: [&[(&str, u32)]; 3] = [&[], &[("a", 7)], &[("b", 8), ("READ", 9)]];
	let make = |l: &[(&str, u32)]| {
		let mut s = Scope::<u32>::empty();
		l.iter().for_each(|(k, v)| s.put_var(k, *v));
		s
	};
	let r = guard(|| -> Result<(), String> {
		let (mut s, mut m) = (Scope::<u32>::empty(), BTreeMap::<String, u32>::new());
		for op in ops {
			ctx.steps(1);
			let before = (s.clone(), m.clone());
			let mut d = Digits(*op);
			match d.take(5) {
				0 => {
					let (k, v) = (NAMES[d.take(4)], d.take(2) as u32);
					s.put_var(k, v);
					m.insert(k.into(), v);
				},
				1 => {
					let (k, v) = (NAMES[d.take(4)], d.take(2) as u32);
					let n = s.with_var(k, v);
					m.insert(k.into(), v);
					if s != before.0 {
						return Err("with_var changes the original".into());
					}
					s = n;
				},
				2 => {
					let o = others[d.take(3)];
					s = s.merge(make(o));
					m.extend(o.iter().map(|(k, v)| (k.to_string(), *v)));
				},
				3 => {
					let o = others[d.take(3)];
					s.extend(make(o));
					m.extend(o.iter().map(|(k, v)| (k.to_string(), *v)));
				},
				_ => {
					// The other way around
					let o = others[d.take(3)];
					s = make(o).merge(s);
					for (k, v) in o {
						m.entry(k.to_string()).or_insert(*v);
					}
				},
			}
			let mut all = s.as_vec();
			all.sort();
			if all != m.clone().into_iter().collect::<Vec<_>>() || s.len() != m.len() || s.is_empty() != m.is_empty() {
				return Err(format!("holds {all:?} instead of {m:?}"));
			}
			for k in NAMES.iter().chain(&["A", "", "a__"]) {
				if s.get(k) != m.get(*k).copied() {
					return Err(format!("{k} is {:?}", s.get(k)));
				}
			}
			let l: Vec<(&str, u32)> = m.iter().rev().map(|(k, v)| (k.as_str(), *v)).collect();
			if s != make(&l) || (s == before.0) != (m == before.1) {
				return Err("equality depends on how it was made".into());
			}
		}
		ctx.state();
		Ok(())
	});
	match r {
		Ok(Ok(())) => ctx.outcome("scope"),
		Ok(Err(e)) | Err(e) => ctx.violation(&case(), e),
	}
}

pub fn run(ctx: &Ctx) {
	let all = vec![s(0), s(2), s(1), val(3), val(u128::MAX), var("a"), var("b"), var("a_"), var("READ")];
	let few = vec![s(2), val(3), var("a"), var("b"), var("READ")];
	let binds = subsets(&[("a", s(5)), ("b", val(7)), ("a_", s(11)), ("READ", add(var("b"), s(1)))]);
	let by = [s(9), var("b"), add(var("a"), s(1)), mul(var("a_"), var("b"))];
	let mut passes: Vec<(&[SimpleTerm], usize)> = vec![(&all, 1), (&all, 2), (&all, 3), (&few, 4)];
	if ctx.thorough() {
		passes.extend([(&all[..], 4), (&few[..], 5)]);
	}
	for (leaves, n) in passes {
		let c = count(n, leaves.len());
		par(ctx, c, |i| {
			if !ctx.enough() {
				let t = nth(i, n, leaves);
				if i == 2000 {
					ctx.sample(|| show(&t));
				}
				simple(ctx, &t, &binds, &by)
			}
		});
		ctx.bound(format!("all {c} expressions with {n} of {} leaves in {} scopes", leaves.len(), binds.len()));
	}
	let w = |t, p| ChromaticTerm::Value(Weight { time: t, proof: p });
	let leaves = [w(0, 0), w(3, 0), w(0, 5), w(7, 11), w(u128::MAX, 1), ChromaticTerm::Var("W".into())];
	let factors = [ChromaticTerm::Scalar(0), ChromaticTerm::Scalar(3), ChromaticTerm::Var("a".into())];
	let mut binds2: Vec<Bind2> = vec![];
	for a in [None, Some(ChromaticTerm::Scalar(13)), Some(w(2, 2))] {
		for x in [None, Some(w(17, 19))] {
			binds2.push(a.clone().map(|v| ("a", v)).into_iter().chain(x.map(|v| ("W", v))).collect());
		}
	}
	let full: Bind2 = [("a", ChromaticTerm::Scalar(13)), ("W", w(17, 19))].into_iter().collect();
	for n in 1..=ctx.by_tier(4, 5) {
		let ts = weights(n, &leaves, &factors);
		par(ctx, ts.len(), |i| {
			if !ctx.enough() {
				two(ctx, &ts[i], &binds2)
			}
		});
		ctx.bound(format!("all {} two-dimensional expressions with {n} parts in {} scopes", ts.len(), binds2.len()));
	}
	let ts: Vec<_> = (1..=ctx.by_tier(2, 3)).flat_map(|n| weights(n, &leaves, &factors)).collect();
	par(ctx, ts.len() * ts.len(), |i| {
		if !ctx.enough() {
			splice(ctx, &ts[i % ts.len()], &ts[i / ts.len()], &full)
		}
	});
	ctx.bound(format!("the sums of all pairs of {} of them", ts.len()));
	// Every operation once: put and with for 4 names and 2 values, the others for 3 scopes.
	let ops: Vec<usize> = (0..40).filter(|o| o % 5 < 2 || o / 5 < 3).collect();
	let depth = ctx.by_tier(4, 5);
	let total = ops.len().pow(depth as u32);
	par(ctx, total, |i| {
		if !ctx.enough() {
			scopes(ctx, &seq(i, ops.len(), depth).iter().map(|k| ops[*k]).collect::<Vec<_>>())
		}
	});
	ctx.bound(format!("all {total} sequences of {depth} operations on scopes"));
}

//! P13: printed equations.
use crate::{model::*, report::Ctx, util::*};
use subweight_core::{term::SimpleTerm, Dimension};

/// A closed interval of reals, for numbers that are printed rounded.
#[derive(Clone, Copy, PartialEq, Debug)]
struct I(f64, f64);

/// Reads an equation. In exact mode a number is the printed one, otherwise any that prints so.
struct Parser<'a> {
	s: &'a [u8],
	i: usize,
	env: &'a dyn Fn(&str) -> Option<u128>,
	exact: bool,
}
impl Parser<'_> {
	fn ws(&mut self) {
		while self.s.get(self.i) == Some(&b' ') {
			self.i += 1
		}
	}
	fn eat(&mut self, c: u8) -> bool {
		self.ws();
		let ok = self.s.get(self.i) == Some(&c);
		self.i += ok as usize;
		ok
	}
	fn sum(&mut self) -> Option<I> {
		let mut v = self.product()?;
		while self.eat(b'+') {
			let w = self.product()?;
			v = I(v.0 + w.0, v.1 + w.1);
		}
		Some(v)
	}
	fn product(&mut self) -> Option<I> {
		let mut v = self.atom()?;
		while self.eat(b'*') {
			let w = self.atom()?;
			v = I(v.0 * w.0, v.1 * w.1);
		}
		Some(v)
	}
	fn atom(&mut self) -> Option<I> {
		if self.eat(b'(') {
			let v = self.sum()?;
			return self.eat(b')').then_some(v);
		}
		let start = self.i;
		let word = |c: &u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b':');
		while self.s.get(self.i).is_some_and(|c| word(c)) {
			self.i += 1
		}
		let w = std::str::from_utf8(&self.s[start..self.i]).ok()?;
		if w.is_empty() {
			return None;
		}
		if !w.as_bytes()[0].is_ascii_digit() {
			let v = (self.env)(w)? as f64;
			return Some(I(v, v));
		}
		let n = w.trim_end_matches(|c: char| c.is_ascii_alphabetic());
		let unit: u128 = match &w[n.len()..] {
			"" => 1,
			"K" => 1_000,
			"M" => 1_000_000,
			"G" => 1_000_000_000,
			"T" => 1_000_000_000_000,
			_ => return None,
		};
		let (int, frac) = n.split_once('.').unwrap_or((n, "00"));
		let h = int.parse::<u128>().ok()? * 100 + frac.parse::<u128>().ok()?;
		if frac.len() != 2 {
			return None;
		}
		let v = (h * unit) as f64 / 100.0;
		let r = if self.exact || unit == 1 { 0.0 } else { unit as f64 * 0.005 };
		Some(I(v - r, v + r))
	}
}
fn read(s: &str, env: &dyn Fn(&str) -> Option<u128>, exact: bool) -> Option<I> {
	let mut p = Parser { s: s.as_bytes(), i: 0, env, exact };
	let v = p.sum()?;
	p.ws();
	(p.i == s.len()).then_some(v)
}

/// Terms with exactly `n` leaves.
fn count(n: usize, leaves: usize) -> usize {
	if n == 1 {
		return leaves;
	}
	(1..n).map(|k| count(k, leaves) * count(n - k, leaves) * 2).sum()
}
fn nth(mut i: usize, n: usize, leaves: &[SimpleTerm]) -> SimpleTerm {
	if n == 1 {
		return leaves[i].clone();
	}
	for k in 1..n {
		let (l, r) = (count(k, leaves.len()), count(n - k, leaves.len()));
		let c = l * r * 2;
		if i < c {
			let op = i % 2;
			let (x, y) = (nth(i / 2 % l, k, leaves), nth(i / 2 / l, n - k, leaves));
			return if op == 0 { add(x, y) } else { mul(x, y) };
		}
		i -= c;
	}
	unreachable!()
}

const ASSIGN: [(u128, u128); 4] = [(3, 5), (101, 7), (0, 1), (1, 0)];

fn check(ctx: &Ctx, t: &SimpleTerm, exact: bool) {
	let case = || format!("equation of {}", show(t));
	if !ctx.want(case) {
		return;
	}
	ctx.state();
	ctx.trace();
	ctx.steps(ASSIGN.len() as u64);
	let text = match guard(|| t.to_string()) {
		Ok(t) => t,
		Err(e) => return ctx.violation(&case(), e),
	};
	for (a, b) in ASSIGN {
		let env = |v: &str| match v {
			"a" => Some(a),
			"b_c" => Some(b),
			"READ" => Some(11),
			"constants::X" => Some(13),
			_ => None,
		};
		// not `model::eval`: READ is a variable like any other here
		fn ev(t: &SimpleTerm, env: &dyn Fn(&str) -> Option<u128>) -> f64 {
			match t {
				SimpleTerm::Value(v) | SimpleTerm::Scalar(v) => *v as f64,
				SimpleTerm::Var(v) => env(&v.0).unwrap() as f64,
				SimpleTerm::Add(x, y) => ev(x, env) + ev(y, env),
				SimpleTerm::Mul(x, y) => ev(x, env) * ev(y, env),
			}
		}
		let want = ev(t, &env);
		let ok = match read(&text, &env, exact) {
			None => false,
			Some(I(lo, hi)) => lo - want.abs() * 1e-12 <= want && want <= hi + want.abs() * 1e-12,
		};
		if !ok {
			return ctx.violation(&case(), format!("printed as {text:?}, which at a={a}, b_c={b} is {:?} instead of {want}", read(&text, &env, exact)));
		}
	}
}

pub fn run(ctx: &Ctx) {
	let all = vec![s(0), s(1), s(2), var("a"), var("b_c"), val(0), val(1), val(1500), val(2_000_000)];
	let few = vec![s(0), s(1), val(7), var("a"), var("b_c")];
	let passes: Vec<(&[SimpleTerm], usize)> = vec![(&all, 1), (&all, 2), (&all, 3), (&all, 4), (&few, 5)];
	let more: Vec<(&[SimpleTerm], usize)> = vec![(&few, 6), (&all, 5), (&few[1..4], 7)];
	let extra = if ctx.thorough() { &more[..] } else { &[] };
	for (leaves, n) in passes.iter().chain(extra) {
		let c = count(*n, leaves.len());
		par(ctx, c, |i| {
			if !ctx.enough() {
				let t = nth(i, *n, leaves);
				if i == 4000 {
					ctx.sample(|| format!("{} prints as {t}", show(&t)));
				}
				check(ctx, &t, true)
			}
		});
		ctx.bound(format!("all {c} terms with {n} of {} leaves", leaves.len()));
	}
	// Rounded numbers and other names.
	let rounded = vec![val(999), s(1_001), val(999_999), s(1_234_567), val(5_481_991_234), s(123_456_789_012_345), val(7_654_321_987_654_321), var("READ"), var("constants::X"), s(0), val(1)];
	for n in 1..=ctx.by_tier(3, 4) {
		let c = count(n, rounded.len());
		par(ctx, c, |i| {
			if !ctx.enough() {
				check(ctx, &nth(i, n, &rounded), false)
			}
		});
		ctx.bound(format!("all {c} terms with {n} of {} leaves that print rounded", rounded.len()));
	}
	// The terms of parsed files in either dimension.
	let leaves = [crate::lang::W::Parts(crate::lang::S::Lit(0).into(), crate::lang::S::Lit(7).into()), crate::lang::W::Ref(crate::lang::S::Lit(1).into()), crate::lang::W::Reads(crate::lang::S::Lit(1).into()), crate::lang::W::Zero];
	let factors = [crate::lang::S::Var("a")];
	for n in 1..=3 {
		let ws: Vec<_> = crate::lang::weights(n, &leaves, &factors).into_iter().filter(|w| w.supported()).collect();
		par(ctx, ws.len() * 2, |i| {
			let src = crate::lang::file_with("a: u32, ", &crate::lang::body(&ws[i / 2], false, &[]));
			if let Ok(Ok(e)) = guard(|| subweight_core::parse::pallet::parse_content("p".into(), src)) {
				let u: Dimension = UNITS[i % 2];
				if let Ok(t) = e[0].term.simplify(u) {
					// in the proof dimension, too, READ is just a name here
					check2(ctx, &t);
				}
			}
		});
	}
	ctx.bound("the terms of all parsed bodies of up to 3 parts");
	crate::scale::equations(ctx);
}
fn check2(ctx: &Ctx, t: &SimpleTerm) {
	let mut v = vec![];
	vars(t, &mut v);
	if v.iter().all(|v| v == "a") {
		check(ctx, t, true)
	}
}

//! P01: parsed expressions denote what the source says.
use crate::{lang::*, report::Ctx, util::*};
use std::sync::Arc;
use subweight_core::{
	parse::pallet::parse_content,
	scope::SimpleScope,
	term::SimpleTerm,
	Dimension,
};

pub fn scope(unit: Dimension, x: u128, y: u128) -> SimpleScope {
	let (r, w) = match unit {
		Dimension::Time => (READ_TIME, WRITE_TIME),
		Dimension::Proof => (0, 0),
	};
	SimpleScope::empty()
		.with_var("READ", SimpleTerm::Scalar(r))
		.with_var("WRITE", SimpleTerm::Scalar(w))
		.with_var("x", SimpleTerm::Scalar(x))
		.with_var("y", SimpleTerm::Scalar(y))
		.with_var("T::Base::FACTOR", SimpleTerm::Scalar(11))
}

const POINTS: [u128; 4] = [0, 1, 4, u32::MAX as u128];

/// Parses the body and compares with the denotation. `want`: None if the body must be rejected
/// or at least not be given a value.
fn check(ctx: &Ctx, body: &str, supported: bool, val: Option<&dyn Fn(u128, u128) -> (u128, u128)>) {
	if !ctx.case(body) {
		return;
	}
	ctx.state();
	let file = file_with("x: u32, y: u32", body);
	let got = match guard(|| parse_content("p".into(), file.clone())) {
		Err(p) => return ctx.violation(body, format!("parsing crashed: {p}")),
		Ok(g) => g,
	};
	ctx.trace();
	let exts = match got {
		Err(e) => {
			ctx.steps(1);
			if supported {
				ctx.violation(body, format!("a supported body was rejected: {e}"));
			}
			return;
		},
		Ok(v) => v,
	};
	if exts.len() != 1 || exts[0].name != "ext" {
		return ctx.violation(body, format!("expected the one function `ext`, got {exts:?}"));
	}
	let Some(val) = val else {
		return ctx.violation(
			body,
			format!("a body that cannot be represented was accepted as {:?}", exts[0].term),
		);
	};
	for unit in [Dimension::Time, Dimension::Proof] {
		let term = match guard(|| exts[0].term.simplify(unit)) {
			Ok(Ok(t)) => t,
			e => return ctx.violation(body, format!("no {unit:?} dimension: {e:?}")),
		};
		for x in POINTS {
			for y in POINTS {
				ctx.steps(1);
				let s = scope(unit, x, y);
				let got = match guard(|| term.eval(&s)) {
					Err(p) => return ctx.violation(body, format!("evaluation crashed: {p}")),
					Ok(r) => r,
				};
				let (t, p) = val(x, y);
				let want = if unit == Dimension::Time { t } else { p };
				if got != Ok(want) {
					return ctx.violation(
						body,
						format!("{unit:?} at x={x} y={y}: the source denotes {want}, the tool says {got:?} (term {term:?})"),
					);
				}
			}
		}
	}
}

fn check_w(ctx: &Ctx, w: &W, v1: bool, dev: &[(usize, usize)]) {
	let b = body(w, v1, dev);
	let f = |x: u128, y: u128| {
		w.val(&|n| match n {
			"x" => x,
			"y" => y,
			_ => 11,
		})
	};
	check(ctx, &b, w.supported(), Some(&f));
}

fn a<T: Clone>(t: &T) -> Arc<T> {
	Arc::new(t.clone())
}

/// Weight leaves over the given numbers.
fn leaves_v2(args: &[S], parts: &[S]) -> Vec<W> {
	let mut v = vec![];
	for p in args {
		v.push(W::Ref(a(p)));
		v.push(W::Proof(a(p)));
		v.push(W::Reads(a(p)));
		v.push(W::Writes(a(p)));
	}
	for t in parts {
		for p in parts {
			v.push(W::Parts(a(t), a(p)));
		}
	}
	v.push(W::Zero);
	v
}
fn leaves_v1(args: &[S], plain: &[S]) -> Vec<W> {
	let mut v = vec![];
	for p in plain {
		v.push(W::Plain(a(p)));
	}
	for p in args {
		v.push(W::Reads(a(p)));
		v.push(W::Writes(a(p)));
		v.push(W::Ref(a(p)));
	}
	v.push(W::Zero);
	v
}

/// A bare component as the whole body is not a weight of any generation.
fn is_weight(w: &W) -> bool {
	fn anchored(w: &W) -> bool {
		match w {
			W::Plain(s) => lit(s),
			W::Add(a, b) => anchored(a) || anchored(b),
			W::Mul(a, s) => anchored(a) || lit(s),
			_ => true,
		}
	}
	fn lit(s: &S) -> bool {
		match s {
			S::Lit(_) => true,
			S::Var(_) => false,
			S::Add(a, b) | S::Mul(a, b) => lit(a) || lit(b),
		}
	}
	anchored(w)
}

/// A component as a summand without a cast could also be a two dimensional constant, unless there
/// are plain numbers, too.
fn is_ambiguous(w: &W) -> bool {
	fn scan(w: &W, var: &mut bool, lit: &mut bool) {
		match w {
			W::Plain(s) => {
				let mut v = vec![];
				s.vars(&mut v);
				if v.is_empty() {
					*lit = true
				} else {
					*var = true
				}
			},
			W::Add(a, b) => {
				scan(a, var, lit);
				scan(b, var, lit)
			},
			W::Mul(a, _) => scan(a, var, lit),
			_ => {},
		}
	}
	let (mut var, mut lit) = (false, false);
	scan(w, &mut var, &mut lit);
	var && !lit
}

pub fn run(ctx: &Ctx) {
	use S::*;
	let l = |v: u128| Lit(v);
	let (x, y) = (Var("x"), Var("y"));

	// (a) All two dimensional bodies in plain spelling.
	let s1 = vec![l(0), l(1), l(3), x.clone(), y.clone()];
	let mut s2 = s1.clone();
	s2.extend(scalars(2, &s1));
	let s3 = scalars(3, &[l(2), x.clone(), y.clone()]);
	let mut trees: Vec<(W, bool)> = vec![];
	for w in leaves_v2(&s3, &[]) {
		trees.push((w, false));
	}
	for w in leaves_v2(&s2, &s2) {
		trees.push((w, false));
	}
	for n in 2..=2 {
		for w in weights(n, &leaves_v2(&s1, &s1), &s1) {
			trees.push((w, false));
		}
	}
	let small = leaves_v2(&[l(2), x.clone()], &[l(5), x.clone()]);
	for n in 3..=ctx.by_tier(3, 4) {
		for w in weights(n, &small, &[x.clone(), y.clone(), l(3)]) {
			trees.push((w, false));
		}
	}
	let tiny = vec![
		W::Parts(a(&l(5)), a(&l(7))),
		W::Parts(a(&l(9)), a(&Mul(a(&l(3)), a(&x)))),
		W::Reads(a(&y)),
		W::Writes(a(&l(1))),
	];
	for n in 4..=ctx.by_tier(4, 5) {
		for w in weights(n, &tiny, &[x.clone(), y.clone()]) {
			trees.push((w, false));
		}
	}
	// (b) All one dimensional bodies (oldest syntax), mixed with reference time constructors.
	for n in 1..=2 {
		for w in weights(n, &leaves_v1(&s1, &s2), &s1) {
			trees.push((w, true));
		}
	}
	let small1 = leaves_v1(&[l(2), y.clone()], &[l(1), l(3), x.clone()]);
	for n in 3..=ctx.by_tier(3, 4) {
		for w in weights(n, &small1, &[l(3), x.clone()]) {
			trees.push((w, true));
		}
	}
	for w in weights(ctx.by_tier(4, 5), &leaves_v1(&[x.clone()], &[l(1), y.clone()]), &[l(2), x.clone()]) {
		trees.push((w, true));
	}
	// mixing generations: plain numbers among two dimensional weights are not supported
	let mut mixed = small.clone();
	mixed.extend(leaves_v1(&[], &[l(3), x.clone()]));
	for w in weights(2, &mixed, &[x.clone()]) {
		trees.push((w, true));
	}
	// constants by path
	let c = Var("T::Base::FACTOR");
	for w in weights(2, &leaves_v2(&[c.clone(), Mul(a(&c), a(&l(3)))], &[c.clone(), l(2)]), &[c.clone()]) {
		trees.push((w, false));
	}
	trees.retain(|(w, _)| is_weight(w));
	ctx.bound(format!("{} bodies in plain spelling: every tree of up to {} weights over 2-5 numbers, 2 components, with number arguments of up to 3 leaves", trees.len(), ctx.by_tier(4, 5)));
	par(ctx, trees.len(), |i| {
		if ctx.enough() {
			return;
		}
		let (w, v1) = &trees[i];
		if i % (trees.len() / 6 + 1) == 7 {
			ctx.sample(|| body(w, *v1, &[]));
		}
		check_w(ctx, w, *v1, &[]);
	});

	// (c) Spellings: every body of a smaller set with every choice of up to k deviating sites.
	let mut sp: Vec<(W, bool)> = vec![];
	let m = vec![l(1234567), x.clone()];
	for v in [false, true] {
		let lv = if v {
			leaves_v1(&[l(1234), x.clone()], &[l(1234567), x.clone()])
		} else {
			leaves_v2(&[l(1234), x.clone(), Mul(a(&l(3)), a(&x))], &m)
		};
		for n in 1..=2 {
			for w in weights(n, &lv, &[x.clone()]) {
				sp.push((w, v));
			}
		}
	}
	sp.push((
		W::Add(
			Arc::new(W::Add(
				Arc::new(W::Parts(a(&l(1000)), a(&l(2000)))),
				Arc::new(W::Mul(Arc::new(W::Parts(a(&l(30)), a(&l(0)))), a(&x))),
			)),
			Arc::new(W::Writes(Arc::new(Mul(a(&l(2)), a(&y))))),
		),
		false,
	));
	sp.retain(|(w, _)| is_weight(w) && !is_ambiguous(w));
	let pairs_below = ctx.by_tier(6, 9);
	par(ctx, sp.len(), |i| {
		let (w, v1) = &sp[i];
		let st = sites(w, *v1);
		for (i, n) in st.iter().enumerate() {
			for k in 1..*n {
				if ctx.enough() {
					return;
				}
				check_w(ctx, w, *v1, &[(i, k)]);
				if st.len() <= pairs_below {
					for (j, m) in st.iter().enumerate().skip(i + 1) {
						for q in 1..*m {
							check_w(ctx, w, *v1, &[(i, k), (j, q)]);
						}
					}
				}
			}
		}
	});
	ctx.bound(format!("{} bodies with every single spelling deviation, and every pair of deviations if they have at most {} sites", sp.len(), pairs_below));

	// (d) Boundary numbers.
	for v in [u32::MAX as u128, u64::MAX as u128, (u64::MAX as u128) + 1, u128::MAX - 1, u128::MAX] {
		for w in leaves_v2(&[l(v)], &[l(v), l(0)]) {
			if matches!(w, W::Reads(_) | W::Writes(_)) && v > u64::MAX as u128 {
				continue;
			}
			for dev in [vec![], vec![(0, 1)], vec![(0, 3)], vec![(0, 6)]] {
				check_w(ctx, &w, false, &dev);
			}
		}
		for dev in 0..9 {
			check_w(ctx, &W::Plain(a(&l(v))), true, &[(0, dev)]);
		}
	}

	// Sums and products of such numbers stay at the upper limit.
	let (big, e40) = (l(u64::MAX as u128), l(1 << 100));
	for n in 2..=3 {
		for w in weights(n, &[W::Parts(a(&big), a(&e40)), W::Parts(a(&l(3)), a(&l(u128::MAX)))], &[big.clone(), x.clone()]) {
			check_w(ctx, &w, false, &[]);
		}
		for w in weights(n, &[W::Plain(a(&big)), W::Plain(a(&e40)), W::Plain(a(&l(u128::MAX)))], &[big.clone(), y.clone()]) {
			check_w(ctx, &w, true, &[]);
		}
	}

	// (e) Unsupported expressions in every position.
	let bad = [
		"Weight::from_parts(1)", "Weight::from_parts(1, 2, 3)", "Weight::from_parts()", "Weight::from_ref_time()",
		"Weight::from_ref_time(1, 2)", "Weight::from_proof_size()", "Weight::from_proof_size(1, 2)", "Weight::zero(1)",
		"Weight::foo(1)", "Weight::from_parts2(1, 2)", "from_partsx(1, 2)",
		"T::DbWeight::get().reads_writes(1, 2)", "T::DbWeight::get().reads()", "T::DbWeight::get().writes(1, 2)",
		"T::DbWeight::get(1).reads(1)", "T::DbWeight::set().reads(1)", "T::OtherWeight::get().reads(1)",
		"DbWeight::get().writes(1)", "x.reads(1)", "T::DbWeight.reads(1)", "T::DbWeight::get().read(1)",
		"T::DbWeight::get()()", "(T::DbWeight::get)().read(1)", "reads(1)", "T::DbWeight::reads(1)",
		"x + 1", "1 + 1", "2 * x", "1 - 1", "4 / 2", "-1", "!1", "&x", "*x", "x?", "x.y", "x[0]", "{ 1 }",
		"if x > 1 { 1 } else { 2 }", "match x { _ => 1 }", "|| 1", "loop {}", "return 1", "(1, 2)", "()", "[1]",
		"S { a: 1 }", "foo!()", "vec![1]", "unsafe { 1 }", "x.saturating_sub(1)", "x.saturating_add()",
		"x.saturating_mul(1, 2)", "x.saturating_pow(2)", "x.checked_add(1)", "x.wrapping_mul(2)", "x.add(1)",
		"x.saturating_add2(1)", "x.min(1)", "x.max(1)", "x.ref_time(1)", "x.proof_size()", "x.saturating_div(2)",
		"1.0", "1e3", "1.5_f64", "\"1\"", "'1'", "b'1'", "b\"1\"", "true", "c\"1\"", "r\"1\"",
		"340282366920938463463374607431768211456", "99999999999999999999999999999999999999999", "1..2", "x = 1", "let y = 1",
		"1 as u64 + 2", "x == 1", "x && y", "async {}", "x.await", "const { 1 }", "_",
		"Weight::from_parts(1, 2) + Weight::from_parts(3, 4)", "Weight::from_parts(1, 2) * 3",
		"Weight::from_parts(1, 2).saturating_sub(Weight::from_parts(1, 1))",
		"Weight::from_parts(1, 2).saturating_add(Weight::from_parts(3, 4), Weight::zero())",
		"Weight::from_parts(1, 2).div(2)", "Weight::from_parts(1, 2).max(Weight::zero())",
		"Weight::from_parts(1, 2).set_proof_size(0)", "Weight { ref_time: 1, proof_size: 2 }",
		"Weight::from_parts(Weight::from_parts(1, 2), 3)", "Weight::from_parts(1, T::DbWeight::get().foo(1))",
	];
	let ctxs: [&(dyn Fn(&str) -> String + Sync); 14] = [
		&|e| e.to_string(),
		&|e| format!("({e})"),
		&|e| format!("{e} as Weight"),
		&|e| format!("Weight::from_parts({e}, 2)"),
		&|e| format!("Weight::from_parts(2, {e})"),
		&|e| format!("Weight::from_ref_time({e})"),
		&|e| format!("Weight::from_proof_size({e} as u64)"),
		&|e| format!("T::DbWeight::get().reads({e})"),
		&|e| format!("T::DbWeight::get().writes((2_u64).saturating_mul({e}))"),
		&|e| format!("({e}).saturating_add(Weight::from_parts(1, 2))"),
		&|e| format!("Weight::from_parts(1, 2).saturating_add({e})"),
		&|e| format!("Weight::from_parts(1, 2).saturating_mul({e})"),
		&|e| format!("(1 as Weight).saturating_add((2 as Weight).saturating_mul({e}))"),
		&|e| format!("T::DbWeight::get().reads(1 as Weight).saturating_add(({e}).into())"),
	];
	par(ctx, bad.len() * ctxs.len(), |i| {
		let mut d = Digits(i);
		let (e, c) = (*d.pick(&bad), *d.pick(&ctxs));
		let text = c(e);
		// The nested two dimensional weight is fine in these positions.
		check(ctx, &text, false, None);
	});
	ctx.bound(format!("{} unsupported expressions in {} positions", bad.len(), ctxs.len()));
	crate::scale::bodies(ctx);
	ctx.assume("components x and y take the values 0, 1, 4 and 2^32-1; numbers are 0..7, six-digit ones and the limits of u32, u64 and u128");
}

//! Reference semantics of comparisons, independent of the code under test.
use crate::lang::{READ_TIME, WRITE_TIME};
use std::collections::BTreeMap;
use subweight_core::{
	parse::pallet::{ComponentRange, SimpleExtrinsic},
	term::SimpleTerm,
	CompareMethod, CompareParams, Dimension,
};

pub type Assign = BTreeMap<String, u128>;
/// Bounds of each component.
pub type Ranges = BTreeMap<String, (u32, u32)>;

pub const METHODS: [CompareMethod; 5] = [
	CompareMethod::Base,
	CompareMethod::GuessWorst,
	CompareMethod::ExactWorst,
	CompareMethod::ExactAsymptotic,
	CompareMethod::Asymptotic,
];
pub const UNITS: [Dimension; 2] = [Dimension::Time, Dimension::Proof];

pub fn is_exact(m: CompareMethod) -> bool {
	matches!(m, CompareMethod::ExactWorst | CompareMethod::ExactAsymptotic)
}
pub fn is_worst(m: CompareMethod) -> bool {
	matches!(m, CompareMethod::ExactWorst | CompareMethod::GuessWorst)
}

pub fn params(method: CompareMethod, unit: Dimension) -> CompareParams {
	CompareParams { method, unit, ignore_errors: false, git_pull: false, git_force: false, offline: true }
}

pub fn eval(t: &SimpleTerm, a: &Assign, unit: Dimension) -> u128 {
	match t {
		SimpleTerm::Value(v) | SimpleTerm::Scalar(v) => *v,
		SimpleTerm::Add(x, y) => eval(x, a, unit).saturating_add(eval(y, a, unit)),
		SimpleTerm::Mul(x, y) => eval(x, a, unit).saturating_mul(eval(y, a, unit)),
		SimpleTerm::Var(v) => match (v.0.as_str(), unit) {
			("READ", Dimension::Time) => READ_TIME,
			("WRITE", Dimension::Time) => WRITE_TIME,
			("READ" | "WRITE", _) => 0,
			(v, _) => a[v],
		},
	}
}

pub fn vars(t: &SimpleTerm, out: &mut Vec<String>) {
	match t {
		SimpleTerm::Value(_) | SimpleTerm::Scalar(_) => {},
		SimpleTerm::Add(x, y) | SimpleTerm::Mul(x, y) => {
			vars(x, out);
			vars(y, out)
		},
		SimpleTerm::Var(v) =>
			if v.0 != "READ" && v.0 != "WRITE" && !out.contains(&v.0) {
				out.push(v.0.clone())
			},
	}
}

/// The bounds of one component, or an error if the method refuses it.
pub fn bounds(old: Option<(u32, u32)>, new: Option<(u32, u32)>, m: CompareMethod) -> Result<(u32, u32), ()> {
	match (old, new) {
		(Some(r), None) | (None, Some(r)) => Ok(r),
		(Some(a), Some(b)) if a == b => Ok(a),
		_ if is_exact(m) => Err(()),
		(Some(a), Some(b)) => Ok((a.0.min(b.0), a.1.max(b.1))),
		(None, None) => Ok((0, 100)),
	}
}

/// The assignments that the method may use, given the bounds of the used components.
pub fn allowed(b: &Ranges, m: CompareMethod) -> Vec<Assign> {
	let mut out = vec![Assign::new()];
	for (c, (lo, hi)) in b {
		let vs: Vec<u32> = match m {
			CompareMethod::Base => vec![*lo],
			CompareMethod::Asymptotic | CompareMethod::ExactAsymptotic => vec![*hi],
			_ if lo == hi => vec![*lo],
			_ => vec![*lo, *hi],
		};
		out = out
			.into_iter()
			.flat_map(|a| {
				vs.iter()
					.map(|v| {
						let mut a = a.clone();
						a.insert(c.clone(), *v as u128);
						a
					})
					.collect::<Vec<_>>()
			})
			.collect();
	}
	out
}

/// The relative change, as a real number.
pub fn percent(old: u128, new: u128) -> f64 {
	if old == new {
		0.0
	} else if old == 0 {
		f64::INFINITY
	} else {
		// exact to relative 2^-50 also if the difference is small
		let d = old.abs_diff(new) as f64 / old as f64 * 100.0;
		if new > old {
			d
		} else {
			-d
		}
	}
}

/// Do the two percentages agree, given two printed decimals and floating point evaluation?
pub fn close(a: f64, b: f64) -> bool {
	a == b || (a - b).abs() <= 1e-6 + 1e-9 * a.abs().max(b.abs())
}

pub fn ext(name: &str, pallet: &str, term: SimpleTerm, ranges: &[(String, (u32, u32))]) -> SimpleExtrinsic {
	SimpleExtrinsic {
		name: name.into(),
		pallet: pallet.into(),
		term,
		comp_ranges: if ranges.is_empty() {
			None
		} else {
			Some(ranges.iter().map(|(c, r)| (c.clone(), ComponentRange { min: r.0, max: r.1 })).collect())
		},
	}
}

pub fn show_ext(e: &Option<SimpleExtrinsic>) -> String {
	match e {
		None => "absent".into(),
		Some(e) => {
			let mut r: Vec<String> = e.comp_ranges.iter().flatten().map(|(c, r)| format!("{c} in [{}, {}]", r.min, r.max)).collect();
			r.sort();
			format!("{} where {}", show(&e.term), if r.is_empty() { "nothing".into() } else { r.join(", ") })
		},
	}
}

/// Unambiguous notation of a term.
pub fn show(t: &SimpleTerm) -> String {
	match t {
		SimpleTerm::Value(v) => format!("{v}v"),
		SimpleTerm::Scalar(v) => format!("{v}"),
		SimpleTerm::Var(v) => v.0.clone(),
		SimpleTerm::Add(a, b) => format!("({} + {})", show(a), show(b)),
		SimpleTerm::Mul(a, b) => format!("({} * {})", show(a), show(b)),
	}
}

pub fn s(v: u128) -> SimpleTerm {
	SimpleTerm::Scalar(v)
}
pub fn val(v: u128) -> SimpleTerm {
	SimpleTerm::Value(v)
}
pub fn var(v: &str) -> SimpleTerm {
	SimpleTerm::Var(v.into())
}
pub fn add(a: SimpleTerm, b: SimpleTerm) -> SimpleTerm {
	SimpleTerm::Add(a.into(), b.into())
}
pub fn mul(a: SimpleTerm, b: SimpleTerm) -> SimpleTerm {
	SimpleTerm::Mul(a.into(), b.into())
}

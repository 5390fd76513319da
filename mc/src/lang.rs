//! Reference language of weight function bodies: trees, what they denote, and how they are spelled.
//! Deliberately boring and independent of the code under test.

use std::sync::Arc;

pub const READ_TIME: u128 = 25_000_000;
pub const WRITE_TIME: u128 = 100_000_000;

/// A number (of type u32/u64, or `Weight` in the oldest syntax).
#[derive(Clone, Debug, PartialEq)]
pub enum S {
	Lit(u128),
	Var(&'static str),
	Add(Arc<S>, Arc<S>),
	Mul(Arc<S>, Arc<S>),
}

/// A two dimensional weight.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
	Parts(Arc<S>, Arc<S>),
	Ref(Arc<S>),
	Proof(Arc<S>),
	Zero,
	Reads(Arc<S>),
	Writes(Arc<S>),
	/// Oldest syntax: a plain number is a time weight.
	Plain(Arc<S>),
	Add(Arc<W>, Arc<W>),
	Mul(Arc<W>, Arc<S>),
}

pub type Env<'a> = &'a dyn Fn(&str) -> u128;

impl S {
	pub fn val(&self, env: Env) -> u128 {
		match self {
			S::Lit(v) => *v,
			S::Var(v) => env(v),
			S::Add(a, b) => a.val(env).saturating_add(b.val(env)),
			S::Mul(a, b) => a.val(env).saturating_mul(b.val(env)),
		}
	}
	pub fn vars(&self, out: &mut Vec<&'static str>) {
		match self {
			S::Lit(_) => {},
			S::Var(v) =>
				if !out.contains(v) {
					out.push(v)
				},
			S::Add(a, b) | S::Mul(a, b) => {
				a.vars(out);
				b.vars(out)
			},
		}
	}
}

impl W {
	/// (time, proof)
	pub fn val(&self, env: Env) -> (u128, u128) {
		match self {
			W::Parts(t, p) => (t.val(env), p.val(env)),
			W::Ref(t) | W::Plain(t) => (t.val(env), 0),
			W::Proof(p) => (0, p.val(env)),
			W::Zero => (0, 0),
			W::Reads(n) => (n.val(env).saturating_mul(READ_TIME), 0),
			W::Writes(n) => (n.val(env).saturating_mul(WRITE_TIME), 0),
			W::Add(a, b) => {
				let (a, b) = (a.val(env), b.val(env));
				(a.0.saturating_add(b.0), a.1.saturating_add(b.1))
			},
			W::Mul(a, n) => {
				let (a, n) = (a.val(env), n.val(env));
				(a.0.saturating_mul(n), a.1.saturating_mul(n))
			},
		}
	}
	/// Is this body one that weight templates of some generation can contain?
	///
	/// A two dimensional weight is only ever multiplied with a component, never with a number.
	pub fn supported(&self) -> bool {
		fn v2(w: &W) -> bool {
			match w {
				W::Parts(..) | W::Ref(_) | W::Proof(_) | W::Zero | W::Reads(_) | W::Writes(_) => true,
				W::Plain(_) => false,
				W::Add(a, b) => v2(a) && v2(b),
				W::Mul(a, n) => v2(a) && matches!(**n, S::Var(_)),
			}
		}
		fn v1(w: &W) -> bool {
			match w {
				W::Parts(..) | W::Proof(_) => false,
				W::Ref(_) | W::Zero | W::Reads(_) | W::Writes(_) | W::Plain(_) => true,
				W::Add(a, b) => v1(a) && v1(b),
				W::Mul(a, _) => v1(a),
			}
		}
		v2(self) || v1(self)
	}
	pub fn vars(&self, out: &mut Vec<&'static str>) {
		match self {
			W::Parts(a, b) => {
				a.vars(out);
				b.vars(out)
			},
			W::Ref(a) | W::Proof(a) | W::Reads(a) | W::Writes(a) | W::Plain(a) => a.vars(out),
			W::Zero => {},
			W::Add(a, b) => {
				a.vars(out);
				b.vars(out)
			},
			W::Mul(a, b) => {
				a.vars(out);
				b.vars(out)
			},
		}
	}
}

/// Spelling choices. Each site (leaf, call, ...) of a body asks for its style; `dev` lists the
/// sites that deviate from the plain style: (site number, style number).
pub struct Spell<'a> {
	site: usize,
	dev: &'a [(usize, usize)],
	/// The kind and number of styles available at each site, recorded while rendering.
	pub sites: Vec<usize>,
	/// Oldest syntax: numbers are cast to `Weight`.
	pub v1: bool,
}

impl<'a> Spell<'a> {
	pub fn new(v1: bool, dev: &'a [(usize, usize)]) -> Self {
		Self { site: 0, dev, sites: vec![], v1 }
	}
	fn style(&mut self, n: usize) -> usize {
		let s = self.site;
		self.site += 1;
		self.sites.push(n);
		self.dev.iter().find(|(site, _)| *site == s).map_or(0, |(_, st)| *st % n)
	}
	/// Renders a number. `recv`: it stands before a `.`.
	pub fn s(&mut self, s: &S, recv: bool) -> String {
		match s {
			S::Lit(v) => {
				let ty = if self.v1 { "Weight" } else { "u64" };
				let und = {
					let d = v.to_string();
					let mut o = String::new();
					for (i, c) in d.chars().enumerate() {
						if i > 0 && (d.len() - i) % 3 == 0 {
							o.push('_')
						}
						o.push(c)
					}
					o
				};
				let (t, bare) = match self.style(13) {
					0 => (format!("{v} as {ty}"), false),
					1 => (und, true),
					2 => (format!("({v} as {ty})"), true),
					3 => (format!("{und}_u64"), true),
					4 => (format!("{v}u64"), true),
					5 => (format!("(({v}))"), true),
					6 => (format!("{v:#x}"), true),
					7 => (format!("({v}_u128 as {ty})"), true),
					8 => (format!("{v:#b}"), true),
					9 => (format!("{v:#o}_u64"), true),
					10 => (format!("{v}_u64.into()"), true),
					11 => (format!("({v}_u32.into())"), true),
					_ => (format!("({v} as u32) as {ty}"), false),
				};
				if recv && !bare {
					format!("({t})")
				} else {
					t
				}
			},
			S::Var(v) => {
				let ty = if self.v1 { "Weight" } else { "u64" };
				let (t, bare) = match self.style(8) {
					0 if self.v1 => (format!("{v} as {ty}"), false),
					0 => (format!("{v}.into()"), true),
					1 => (format!("{v} as {ty}"), false),
					2 => (format!("({v} as {ty})"), true),
					3 => (v.to_string(), true),
					4 => (format!("({v})"), true),
					5 => (format!("({v} as {ty}).into()"), true),
					6 => (format!("(({v}).into())"), true),
					_ => (format!("{v} as u32 as {ty}"), false),
				};
				if recv && !bare {
					format!("({t})")
				} else {
					t
				}
			},
			S::Add(a, b) => self.call(recv, |s| s.s(a, true), "saturating_add", |s| s.s(b, false)),
			S::Mul(a, b) => self.call(recv, |s| s.s(a, true), "saturating_mul", |s| s.s(b, false)),
		}
	}
	fn call(
		&mut self,
		recv: bool,
		a: impl FnOnce(&mut Self) -> String,
		m: &str,
		b: impl FnOnce(&mut Self) -> String,
	) -> String {
		let st = self.style(7);
		let a = a(self);
		let b = b(self);
		let _ = recv;
		match st {
			0 => format!("{a}.{m}({b})"),
			1 => format!("({a}.{m}({b}))"),
			2 => format!("{a}\n\t\t\t// Standard Error: 1_000\n\t\t\t.{m}({b})"),
			3 => format!("{a}.{m}({b},)"),
			4 => format!("({a}).{m}(({b}))"),
			5 => format!("{a}.{m}({b}).into()"),
			_ => format!("{a} . {m} ( /* c */ {b} )"),
		}
	}
	fn ctor(&mut self, name: &str, args: Vec<String>) -> String {
		let a = args.join(", ");
		match self.style(6) {
			0 => format!("Weight::{name}({a})"),
			1 => format!("(Weight::{name}({a}))"),
			2 => format!("frame_support::weights::Weight::{name}({a})"),
			3 if !args.is_empty() => format!("Weight::{name}({a},)"),
			4 => format!("Weight::{name}({a}).into()"),
			_ => format!("Weight ::\n{name}( {a}\n)"),
		}
	}
	fn db(&mut self, m: &str, arg: String) -> String {
		match self.style(8) {
			0 => format!("T::DbWeight::get().{m}({arg})"),
			1 => format!("RocksDbWeight::get().{m}({arg})"),
			2 => format!("ParityDbWeight::get().{m}({arg})"),
			3 => format!("constants::RocksDbWeight::get().{m}({arg})"),
			4 => format!("(T::DbWeight::get().{m}({arg}))"),
			5 => format!("T::DbWeight::get().{m}({arg},)"),
			6 => format!("frame_support::weights::constants::ParityDbWeight::get()\n\t.{m}({arg})"),
			_ => format!("T::DbWeight::get().{m}(({arg}))"),
		}
	}
	pub fn w(&mut self, w: &W, recv: bool) -> String {
		match w {
			W::Parts(t, p) => {
				let a = vec![self.s(t, false), self.s(p, false)];
				self.ctor("from_parts", a)
			},
			W::Ref(t) => {
				let a = vec![self.s(t, false)];
				self.ctor("from_ref_time", a)
			},
			W::Proof(t) => {
				let a = vec![self.s(t, false)];
				self.ctor("from_proof_size", a)
			},
			W::Zero => self.ctor("zero", vec![]),
			W::Reads(n) => {
				let a = self.s(n, false);
				self.db("reads", a)
			},
			W::Writes(n) => {
				let a = self.s(n, false);
				self.db("writes", a)
			},
			W::Plain(n) => self.s(n, recv),
			W::Add(a, b) => self.call(recv, |s| s.w(a, true), "saturating_add", |s| s.w(b, false)),
			W::Mul(a, n) => self.call(recv, |s| s.w(a, true), "saturating_mul", |s| s.s(n, false)),
		}
	}
}

pub fn body(w: &W, v1: bool, dev: &[(usize, usize)]) -> String {
	Spell::new(v1, dev).w(w, false)
}

/// Number of styles at each site of the body.
pub fn sites(w: &W, v1: bool) -> Vec<usize> {
	let mut s = Spell::new(v1, &[]);
	s.w(w, false);
	s.sites
}

pub fn file_with(args: &str, body: &str) -> String {
	format!(
		"impl<T: frame_system::Config> my_pallet::WeightInfo for WeightInfo<T> {{\n\tfn ext({args}) -> Weight {{\n\t\t{body}\n\t}}\n}}\n"
	)
}

/// All number trees with exactly `n` leaves.
pub fn scalars(n: usize, leaves: &[S]) -> Vec<S> {
	if n == 1 {
		return leaves.to_vec();
	}
	let mut out = vec![];
	for k in 1..n {
		let (l, r) = (scalars(k, leaves), scalars(n - k, leaves));
		for a in &l {
			for b in &r {
				out.push(S::Add(a.clone().into(), b.clone().into()));
				out.push(S::Mul(a.clone().into(), b.clone().into()));
			}
		}
	}
	out
}

/// All weight trees with exactly `n` weight leaves or multiplications.
pub fn weights(n: usize, leaves: &[W], factors: &[S]) -> Vec<W> {
	if n == 0 {
		return vec![];
	}
	if n == 1 {
		return leaves.to_vec();
	}
	let mut out = vec![];
	for k in 1..n {
		let (l, r) = (weights(k, leaves, factors), weights(n - k, leaves, factors));
		for a in &l {
			for b in &r {
				out.push(W::Add(a.clone().into(), b.clone().into()));
			}
		}
	}
	for a in weights(n - 1, leaves, factors) {
		for f in factors {
			out.push(W::Mul(a.clone().into(), f.clone().into()));
		}
	}
	out
}

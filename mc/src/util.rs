use std::{
	cell::RefCell,
	panic::{catch_unwind, AssertUnwindSafe},
	sync::atomic::{AtomicUsize, Ordering::Relaxed},
};

thread_local! {
	static GUARDED: RefCell<u32> = const { RefCell::new(0) };
	static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics of the code under test are recorded silently; panics of the harness print as usual.
pub fn install_hook() {
	let old = std::panic::take_hook();
	std::panic::set_hook(Box::new(move |i| {
		if GUARDED.with(|g| *g.borrow()) > 0 {
			LAST.with(|l| *l.borrow_mut() = i.to_string());
		} else {
			old(i)
		}
	}));
}

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
	GUARDED.with(|g| *g.borrow_mut() += 1);
	let r = catch_unwind(AssertUnwindSafe(f));
	GUARDED.with(|g| *g.borrow_mut() -= 1);
	r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

/// Runs `f` on every index below `n` on all cores.
pub fn par(ctx: &crate::report::Ctx, n: usize, f: impl Fn(usize) + Sync) {
	let next = AtomicUsize::new(0);
	let threads = std::thread::available_parallelism().map(|p| p.get()).unwrap_or(4).min(16);
	let chunk = (n / (threads * 16)).clamp(1, 4096);
	std::thread::scope(|s| {
		for _ in 0..threads {
			std::thread::Builder::new()
				.stack_size(32 << 20)
				.spawn_scoped(s, || loop {
					let i = next.fetch_add(chunk, Relaxed);
					if i >= n {
						ctx.idle();
						break;
					}
					for k in i..(i + chunk).min(n) {
						f(k);
					}
				})
				.expect("spawn");
		}
	});
}

/// Mixed radix decoding of a case number.
pub struct Digits(pub usize);
impl Digits {
	pub fn take(&mut self, radix: usize) -> usize {
		let d = self.0 % radix;
		self.0 /= radix;
		d
	}
	pub fn pick<'a, T>(&mut self, from: &'a [T]) -> &'a T {
		&from[self.take(from.len())]
	}
}

/// All sequences over `0..k` of length exactly `n`.
pub fn seq(mut i: usize, k: usize, n: usize) -> Vec<usize> {
	let mut v = Vec::with_capacity(n);
	for _ in 0..n {
		v.push(i % k);
		i /= k;
	}
	v
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
	if n == 0 {
		return vec![vec![]];
	}
	let mut out = vec![];
	for p in permutations(n - 1) {
		for i in 0..=p.len() {
			let mut q = p.clone();
			q.insert(i, n - 1);
			out.push(q);
		}
	}
	out
}

//! Bookkeeping shared by all engines: counting, violations, replay files, known findings, evidence.

use std::{
	collections::BTreeMap,
	fs,
	io::Write,
	path::PathBuf,
	sync::{
		atomic::{AtomicBool, AtomicU64, Ordering::Relaxed},
		Mutex,
	},
	time::Instant,
};

pub struct Ctx {
	pub id: String,
	pub tier: String,
	pub seed: u64,
	pub root: PathBuf,
	start: Instant,
	pub states: AtomicU64,
	pub transitions: AtomicU64,
	pub traces: AtomicU64,
	samples: Mutex<Vec<String>>,
	violations: Mutex<Vec<(String, String)>>,
	known_hits: Mutex<BTreeMap<String, String>>,
	n_violations: AtomicU64,
	outcomes: Mutex<BTreeMap<String, u64>>,
	bounds: Mutex<Vec<String>>,
	assumptions: Mutex<Vec<String>>,
	/// Replay mode: only run cases with exactly this description.
	pub only: Option<String>,
	pub only_hit: AtomicBool,
	known: Vec<(String, String)>,
	slots: Option<fs::File>,
	slot_start: Vec<AtomicU64>,
	next_slot: AtomicU64,
}

pub const SLOTS: usize = 64;
const SLOT_SIZE: usize = 1 << 16;
/// A single case taking longer than this is a hang.
const HANG_SECS: u64 = 60;

thread_local! {
	static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

/// The cases that were running when a child died, from its slot file.
pub fn read_slots(p: &std::path::Path) -> Vec<String> {
	let c = fs::read(p).unwrap_or_default();
	c.chunks(SLOT_SIZE)
		.filter_map(|s| {
			let n = u32::from_le_bytes(s.get(..4)?.try_into().ok()?) as usize;
			if n == 0 {
				return None;
			}
			String::from_utf8(s.get(4..4 + n)?.to_vec()).ok()
		})
		.collect()
}

pub fn json_str(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			'\r' => o.push_str("\\r"),
			'\t' => o.push_str("\\t"),
			c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn unescape(s: &str) -> String {
	let mut o = String::new();
	let mut it = s.chars();
	while let Some(c) = it.next() {
		if c == '\\' {
			match it.next() {
				Some('n') => o.push('\n'),
				Some('\\') => o.push('\\'),
				Some('r') => o.push('\r'),
				Some(c) => {
					o.push('\\');
					o.push(c)
				},
				None => o.push('\\'),
			}
		} else {
			o.push(c)
		}
	}
	o
}

pub fn escape(s: &str) -> String {
	s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}

pub const MAX_REPLAYS: u64 = 10;

impl Ctx {
	pub fn new(id: &str, replay: Option<PathBuf>) -> Self {
		let root = PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()));
		let tier = match std::env::var("VERIF_TIER").as_deref() {
			Ok("thorough") => "thorough",
			_ => "quick",
		}
		.to_string();
		let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
		let only = replay.map(|p| {
			let c = fs::read_to_string(&p).expect("cannot read replay file");
			let l = c
				.lines()
				.find_map(|l| l.strip_prefix("case: "))
				.expect("no case line in the replay file");
			unescape(l)
		});
		// Known findings: lines `known: property=<id> case=<escaped case description>`
		let mut known = vec![];
		if let Ok(c) = fs::read_to_string(root.join("known_findings.txt")) {
			for l in c.lines() {
				if let Some(r) = l.strip_prefix(&format!("known: property={} case=", id)) {
					known.push((id.to_string(), unescape(r)));
				}
			}
		}
		Self {
			id: id.into(),
			tier,
			seed,
			root,
			start: Instant::now(),
			states: 0.into(),
			transitions: 0.into(),
			traces: 0.into(),
			samples: Default::default(),
			violations: Default::default(),
			known_hits: Default::default(),
			n_violations: 0.into(),
			outcomes: Default::default(),
			bounds: Default::default(),
			assumptions: Default::default(),
			only,
			only_hit: false.into(),
			known,
			slots: std::env::var("MC_CHILD").ok().map(|p| {
				fs::OpenOptions::new().write(true).open(p).expect("cannot open the slot file")
			}),
			slot_start: (0..SLOTS).map(|_| AtomicU64::new(0)).collect(),
			next_slot: 0.into(),
		}
	}
	fn slot(&self) -> usize {
		SLOT.with(|s| {
			if s.get() == usize::MAX {
				s.set(self.next_slot.fetch_add(1, Relaxed) as usize % SLOTS);
			}
			s.get()
		})
	}
	/// Announces the case that this thread runs next. False if it is not to be run.
	pub fn case(&self, desc: &str) -> bool {
		if !self.want(|| desc.to_string()) {
			return false;
		}
		let i = self.slot();
		if let Some(f) = &self.slots {
			use std::os::unix::fs::FileExt;
			let b = &desc.as_bytes()[..desc.len().min(SLOT_SIZE - 4)];
			let mut v = Vec::with_capacity(b.len() + 4);
			v.extend((b.len() as u32).to_le_bytes());
			v.extend(b);
			f.write_all_at(&v, (i * SLOT_SIZE) as u64).expect("cannot write the slot file");
		}
		self.slot_start[i].store(self.start.elapsed().as_secs() + 1, Relaxed);
		true
	}
	/// The thread has no case running any more.
	pub fn idle(&self) {
		let i = self.slot();
		self.slot_start[i].store(0, Relaxed);
		if let Some(f) = &self.slots {
			use std::os::unix::fs::FileExt;
			f.write_all_at(&[0; 4], (i * SLOT_SIZE) as u64).expect("cannot write the slot file");
		}
	}
	/// Reports cases that hang; never returns.
	pub fn watchdog(&self, slot_file: &std::path::Path) {
		loop {
			std::thread::sleep(std::time::Duration::from_secs(2));
			let now = self.start.elapsed().as_secs() + 1;
			for i in 0..SLOTS {
				let t = self.slot_start[i].load(Relaxed);
				if t != 0 && now > t + HANG_SECS {
					let c = fs::read(slot_file).unwrap_or_default();
					let s = c.get(i * SLOT_SIZE..).unwrap_or_default();
					let n = s.get(..4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap())) as usize;
					let case = String::from_utf8_lossy(s.get(4..4 + n).unwrap_or_default()).to_string();
					if self.slot_start[i].load(Relaxed) == t {
						self.only_hit.store(true, Relaxed);
						self.violation(&case, format!("no answer within {HANG_SECS} seconds"));
						std::process::exit(self.finish());
					}
				}
			}
		}
	}
	pub fn thorough(&self) -> bool {
		self.tier == "thorough"
	}
	/// Picks a bound by tier.
	pub fn by_tier<T>(&self, quick: T, thorough: T) -> T {
		if self.thorough() {
			thorough
		} else {
			quick
		}
	}
	/// Should this case be run? Builds the description only in replay mode.
	#[inline]
	pub fn want(&self, desc: impl FnOnce() -> String) -> bool {
		match &self.only {
			None => true,
			Some(o) => {
				let hit = &desc() == o;
				if hit {
					self.only_hit.store(true, Relaxed);
				}
				hit
			},
		}
	}
	#[inline]
	pub fn state(&self) {
		self.states.fetch_add(1, Relaxed);
	}
	#[inline]
	pub fn steps(&self, n: u64) {
		self.transitions.fetch_add(n, Relaxed);
	}
	#[inline]
	pub fn trace(&self) {
		self.traces.fetch_add(1, Relaxed);
	}
	pub fn outcome(&self, o: &str) {
		self.outcome_n(o, 1)
	}
	pub fn outcome_n(&self, o: &str, n: u64) {
		*self.outcomes.lock().unwrap().entry(o.into()).or_default() += n;
	}
	pub fn merge_outcomes(&self, m: &BTreeMap<&'static str, u64>) {
		for (k, v) in m {
			self.outcome_n(k, *v)
		}
	}
	pub fn bound(&self, b: impl Into<String>) {
		self.bounds.lock().unwrap().push(b.into());
	}
	pub fn assume(&self, b: impl Into<String>) {
		self.assumptions.lock().unwrap().push(b.into());
	}
	pub fn sample(&self, s: impl FnOnce() -> String) {
		let mut v = self.samples.lock().unwrap();
		if v.len() < 12 {
			v.push(s());
		}
	}
	pub fn violated(&self) -> u64 {
		self.n_violations.load(Relaxed)
	}
	/// Enough counterexamples were collected; engines may stop early.
	pub fn enough(&self) -> bool {
		self.violated() >= MAX_REPLAYS
	}
	pub fn violation(&self, case: &str, detail: String) {
		if self.known.iter().any(|(_, k)| k == case) {
			self.known_hits.lock().unwrap().insert(case.into(), detail);
			return;
		}
		if self.n_violations.fetch_add(1, Relaxed) < MAX_REPLAYS {
			self.violations.lock().unwrap().push((case.into(), detail));
		}
	}
	pub fn finish(&self) -> i32 {
		let wall = self.start.elapsed().as_secs_f64();
		if self.only.is_some() && !self.only_hit.load(Relaxed) {
			eprintln!("the replayed case is not part of the enumeration of this tier");
			return 2;
		}
		let viol = self.violations.lock().unwrap();
		let dir = self.root.join("replays");
		let _ = fs::create_dir_all(&dir);
		let mut out = std::io::stdout().lock();
		for (case, detail) in self.known_hits.lock().unwrap().iter() {
			let _ = writeln!(
				out,
				"KNOWN-FINDING: property={} {} -- {}",
				self.id,
				short(&escape(case)),
				short(&escape(detail))
			);
		}
		for (i, (case, detail)) in viol.iter().enumerate() {
			let p = dir.join(format!("{}-{}.txt", self.id, i));
			if self.only.is_none() {
				let _ = fs::write(
					&p,
					format!(
						"property: {}\nreplay with: ./check.sh {} --replay <this file>\ncase: {}\n\n{}\n",
						self.id,
						self.id,
						escape(case),
						detail
					),
				);
			}
			let _ = writeln!(out, "VIOLATION property={} replay={}", self.id, p.display());
			let _ = writeln!(out, "  case: {}\n  {}", short(&escape(case)), short(&escape(detail)));
		}
		let n = self.violated();
		let states = self.states.load(Relaxed);
		let transitions = self.transitions.load(Relaxed);
		let traces = self.traces.load(Relaxed);
		let samples = self
			.samples
			.lock()
			.unwrap()
			.iter()
			.map(|s| json_str(s))
			.collect::<Vec<_>>()
			.join(", ");
		let outcomes = self
			.outcomes
			.lock()
			.unwrap()
			.iter()
			.map(|(k, v)| format!("{}: {}", json_str(k), v))
			.collect::<Vec<_>>()
			.join(", ");
		let list = |l: &Mutex<Vec<String>>| {
			l.lock().unwrap().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", ")
		};
		let ev = format!(
			"{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"bounds\": [{}],\n  \"outcomes\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n",
			json_str(&self.id),
			json_str(&self.tier),
			self.seed,
			states,
			transitions,
			traces,
			n == 0 && self.only.is_none(),
			list(&self.bounds),
			outcomes,
			samples,
			list(&self.assumptions),
			n,
			wall
		);
		if self.only.is_none() {
			let _ = fs::create_dir_all(self.root.join("evidence"));
			fs::write(self.root.join("evidence").join(format!("{}.json", self.id)), ev)
				.expect("cannot write evidence");
		}
		let _ = writeln!(
			out,
			"{}: {} tier, states={} transitions={} traces={} outcomes={{{}}} violations={} in {:.1}s",
			self.id, self.tier, states, transitions, traces, outcomes, n, wall
		);
		i32::from(n > 0)
	}
}

pub fn short(s: &str) -> String {
	if s.chars().count() > 1500 {
		s.chars().take(1500).collect::<String>() + "…"
	} else {
		s.into()
	}
}

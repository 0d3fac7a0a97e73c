//! Exploration framework shared by all checks: counts what was explored, turns mismatches and panics
//! into replayable violations, honours the known-findings file and writes the evidence file.

use std::{
	cell::RefCell,
	collections::{BTreeMap, HashSet},
	fmt::Debug,
	fs,
	hash::{Hash, Hasher},
	panic::{self, AssertUnwindSafe},
	sync::{
		Mutex,
		atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
	},
	time::Instant,
};

pub mod refs;

thread_local! {
	static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// One explored execution: counts the comparisons made and collects the observed outcome.
pub struct Run {
	steps: u64,
	h: Fnv,
}

#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
	fn default() -> Self {
		Self(0xcbf29ce484222325)
	}
}
impl Hasher for Fnv {
	fn finish(&self) -> u64 {
		self.0
	}
	fn write(&mut self, bytes: &[u8]) {
		for &b in bytes {
			self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
		}
	}
}

pub type R = Result<(), String>;

impl Run {
	/// Counts `n` executed operations of the real code.
	pub fn step(&mut self, n: u64) {
		self.steps += n;
	}
	/// Adds an observed value to the outcome of this execution.
	pub fn obs<T: Hash>(&mut self, t: &T) {
		t.hash(&mut self.h);
	}
	pub fn obs_dbg<T: Debug>(&mut self, t: &T) {
		format!("{t:?}").hash(&mut self.h);
	}
	/// One compared operation.
	pub fn eq<T: PartialEq + Debug>(&mut self, got: &T, want: &T, what: impl FnOnce() -> String) -> R {
		self.steps += 1;
		if got == want {
			Ok(())
		} else {
			let g = clip(&format!("{got:?}"));
			let w = clip(&format!("{want:?}"));
			Err(format!("{}: implementation gives {g}, reference gives {w}", what()))
		}
	}
	pub fn ok(&mut self, cond: bool, what: impl FnOnce() -> String) -> R {
		self.steps += 1;
		if cond { Ok(()) } else { Err(what()) }
	}
}

fn clip(s: &str) -> String {
	if s.len() > 600 {
		let mut e = 600;
		while !s.is_char_boundary(e) {
			e -= 1;
		}
		format!("{}...[{} chars]", &s[..e], s.len())
	} else {
		s.to_string()
	}
}

#[derive(Default)]
struct Space {
	cases: u64,
	steps: u64,
	outcomes: HashSet<u64>,
}

pub struct Ck {
	pub id: String,
	pub thorough: bool,
	start: Instant,
	spaces: Mutex<BTreeMap<String, Space>>,
	samples: Mutex<Vec<String>>,
	assumptions: Mutex<Vec<String>>,
	bounds: Mutex<Vec<String>>,
	violations: AtomicUsize,
	known_hit: Mutex<BTreeMap<String, u64>>,
	known: Vec<(String, String)>,
	stop: AtomicBool,
	only: Option<String>,
	cases_total: AtomicU64,
	/// cases being executed right now, for the hang watchdog
	running: Mutex<BTreeMap<u64, (String, Instant)>>,
}

fn max_violations() -> usize {
	std::env::var("VERIF_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(3)
}
pub const VERIF: &str = "/verif";

impl Ck {
	pub fn new(id: &str) -> Self {
		panic::set_hook(Box::new(|info| {
			let msg = format!("{info}");
			if std::env::var("VERIF_DEBUG").is_ok() {
				eprintln!("{msg}\n{}", std::backtrace::Backtrace::force_capture());
			}
			LAST_PANIC.with(|l| *l.borrow_mut() = msg.clone());
			if let Ok(mut g) = ANY_PANIC.lock() {
				*g = msg;
			}
		}));
		let known = fs::read_to_string(format!("{VERIF}/known_findings.txt"))
			.unwrap_or_default()
			.lines()
			.filter_map(|l| {
				// "known: property=<id> case=<case key> :: <what fails>"
				let rest = l.strip_prefix(&format!("known: property={id} case="))?;
				let (key, what) = rest.split_once(" :: ")?;
				Some((key.to_string(), what.to_string()))
			})
			.collect();
		Self {
			id: id.into(),
			thorough: std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough"),
			start: Instant::now(),
			spaces: Default::default(),
			samples: Default::default(),
			assumptions: Default::default(),
			bounds: Default::default(),
			violations: AtomicUsize::new(0),
			known_hit: Default::default(),
			known,
			stop: AtomicBool::new(false),
			only: std::env::var("VERIF_ONLY").ok(),
			cases_total: AtomicU64::new(0),
			running: Default::default(),
		}
	}

	pub fn assume(&self, s: &str) {
		self.assumptions.lock().unwrap().push(s.into());
	}

	/// States a bound of the exploration, for the evidence file.
	pub fn bound(&self, s: impl Into<String>) {
		self.bounds.lock().unwrap().push(s.into());
	}

	pub fn pick<T>(&self, quick: T, thorough: T) -> T {
		if self.thorough { thorough } else { quick }
	}

	/// Runs one enumerated case of a sub-space. `key` identifies it for replay.
	#[inline(always)]
	pub fn case(&self, space: &str, key: impl Fn() -> String, f: impl FnOnce(&mut Run) -> R) {
		let mut f = Some(f);
		self.case_dyn(space, &key, &mut |r| (f.take().unwrap())(r))
	}
	/// Not generic, so that the enumerated code is compiled in its own module's code generation unit.
	#[inline(never)]
	pub fn case_dyn(&self, space: &str, key: &dyn Fn() -> String, f: &mut dyn FnMut(&mut Run) -> R) {
		if self.stop.load(Relaxed) {
			return;
		}
		if let Some(only) = &self.only {
			if &format!("{space}/{}", key()) != only {
				return;
			}
		}
		let mut run = Run {
			steps: 0,
			h: Fnv::default(),
		};
		let n = self.cases_total.fetch_add(1, Relaxed);
		self.running
			.lock()
			.unwrap()
			.insert(n, (format!("{space}/{}", key()), Instant::now()));
		let res = panic::catch_unwind(AssertUnwindSafe(|| f(&mut run)));
		self.running.lock().unwrap().remove(&n);
		if n < 3 || (n.is_power_of_two() && n < 1 << 20) {
			let mut s = self.samples.lock().unwrap();
			if s.len() < 12 {
				s.push(format!("{space}/{} ({} comparisons)", clip(&key()), run.steps));
			}
		}
		{
			let mut sp = self.spaces.lock().unwrap();
			if !sp.contains_key(space) {
				sp.insert(space.to_string(), Space::default());
			}
			let sp = sp.get_mut(space).unwrap();
			sp.cases += 1;
			sp.steps += run.steps;
			if sp.outcomes.len() < 2_000_000 {
				sp.outcomes.insert(run.h.finish());
			}
		}
		match res {
			Ok(Ok(())) => {}
			Ok(Err(msg)) => self.violation(&format!("{space}/{}", key()), &msg),
			Err(_) => {
				let mut msg = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
				if msg.is_empty() {
					msg = ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
				}
				self.violation(&format!("{space}/{}", key()), &format!("unexpected panic: {msg}"))
			}
		}
	}

	/// Runs a list of cases on all cores.
	pub fn par<T: Sync>(&self, items: &[T], f: impl Fn(&T) + Sync) {
		let next = AtomicUsize::new(0);
		let n = std::thread::available_parallelism().map_or(4, |n| n.get());
		std::thread::scope(|s| {
			for _ in 0..n {
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, || {
						loop {
							let i = next.fetch_add(1, Relaxed);
							if i >= items.len() || self.stop.load(Relaxed) {
								break;
							}
							self.guard(|| f(&items[i]));
						}
					})
					.unwrap();
			}
		});
	}

	/// Code under test that panics outside an enumerated case (while a case is being set up) is a violation too.
	fn guard(&self, f: impl FnOnce()) {
		if panic::catch_unwind(AssertUnwindSafe(f)).is_err() {
			let mut msg = LAST_PANIC.with(|l| std::mem::take(&mut *l.borrow_mut()));
			if msg.is_empty() {
				msg = ANY_PANIC.lock().map(|g| g.clone()).unwrap_or_default();
			}
			self.violation("setup", &format!("unexpected panic while preparing cases: {msg}"));
		}
	}

	pub fn violation(&self, key: &str, msg: &str) {
		if let Some((_, what)) = self.known.iter().find(|(k, _)| k == key) {
			*self
				.known_hit
				.lock()
				.unwrap()
				.entry(format!("{key} :: {what}"))
				.or_default() += 1;
			return;
		}
		let k = self.violations.fetch_add(1, Relaxed);
		if k >= max_violations() {
			self.stop.store(true, Relaxed);
			return;
		}
		let dir = format!("{VERIF}/replays");
		let _ = fs::create_dir_all(&dir);
		let path = format!("{dir}/{}-{k}.txt", self.id);
		let _ = fs::write(
			&path,
			format!(
				"property: {}\ncase: {key}\n{msg}\n\nreplay this single case against /repo's working tree:\n  cd /verif && VERIF_ONLY='{}' python3 check.py {}\n",
				self.id,
				key.replace('\'', "'\\''"),
				self.id
			),
		);
		println!("case {}: {}", clip(key), clip(msg));
		println!("VIOLATION property={} replay={path}", self.id);
		if k + 1 >= max_violations() {
			self.stop.store(true, Relaxed);
		}
	}

	pub fn finish(&self) -> ! {
		let v = self.violations.load(Relaxed);
		let spaces = self.spaces.lock().unwrap();
		let cases: u64 = spaces.values().map(|s| s.cases).sum();
		let steps: u64 = spaces.values().map(|s| s.steps).sum();
		let outcomes: u64 = spaces.values().map(|s| s.outcomes.len() as u64).sum();
		let js = |s: &str| {
			let mut o = String::from("\"");
			for c in s.chars() {
				match c {
					'"' => o.push_str("\\\""),
					'\\' => o.push_str("\\\\"),
					c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
					c => o.push(c),
				}
			}
			o.push('"');
			o
		};
		let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
		let sub = spaces
			.iter()
			.map(|(k, s)| {
				format!(
					"{}: {{\"cases\": {}, \"comparisons\": {}, \"distinct_outcomes\": {}}}",
					js(k),
					s.cases,
					s.steps,
					s.outcomes.len()
				)
			})
			.collect::<Vec<_>>()
			.join(",\n   ");
		let known = self
			.known_hit
			.lock()
			.unwrap()
			.iter()
			.map(|(k, n)| {
				println!("KNOWN-FINDING: property={} {k} ({n}x)", self.id);
				k.clone()
			})
			.collect::<Vec<_>>();
		let stopped = self.stop.load(Relaxed) || self.only.is_some();
		let out = format!(
			"{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"rule\": \"states = distinct observed outcomes of the real code; transitions = operations of the real code executed and compared with the reference; traces = complete enumerated executions (all run on the real code)\",\n  \"bounds\": [{}],\n  \"subspaces\": {{{}}},\n  \"known_findings\": [{}],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
			js(&self.id),
			if self.thorough { "thorough" } else { "quick" },
			std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
			outcomes,
			steps,
			cases,
			!stopped,
			list(&self.bounds.lock().unwrap()),
			sub,
			list(&known),
			list(&self.samples.lock().unwrap()),
			list(&self.assumptions.lock().unwrap()),
			self.start.elapsed().as_secs_f64(),
			v
		);
		let suffix = std::env::var("VERIF_EVIDENCE_SUFFIX").unwrap_or_default();
		let _ = fs::create_dir_all(format!("{VERIF}/evidence"));
		fs::write(format!("{VERIF}/evidence/{}{suffix}.json", self.id), out).expect("evidence");
		println!(
			"{}: {cases} executions, {steps} comparisons, {outcomes} distinct outcomes, {v} violations, {:.1} s",
			self.id,
			self.start.elapsed().as_secs_f64()
		);
		std::process::exit(if v > 0 { 1 } else { 0 });
	}
}

/// Entry point of every check: runs the exploration and writes the evidence.
pub fn check(id: &str, f: impl FnOnce(&Ck)) -> ! {
	let ck: &'static Ck = Box::leak(Box::new(Ck::new(id)));
	// A single case normally takes milliseconds; one that runs for minutes does not terminate.
	std::thread::spawn(move || {
		loop {
			std::thread::sleep(std::time::Duration::from_secs(5));
			let stuck = ck
				.running
				.lock()
				.unwrap()
				.values()
				.find(|(_, t)| t.elapsed().as_secs() > hang_secs())
				.map(|(k, _)| k.clone());
			if let Some(k) = stuck {
				ck.violation(&k, &format!("does not terminate (ran for over {} s)", hang_secs()));
				ck.stop.store(true, Relaxed);
				ck.finish();
			}
		}
	});
	ck.guard(|| f(ck));
	ck.finish()
}
fn hang_secs() -> u64 {
	std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(400)
}

/// All sequences over `0..k` of length exactly `n`.
pub fn sequences(k: usize, n: usize) -> impl Iterator<Item = Vec<usize>> {
	let total = k.pow(n as u32);
	(0..total).map(move |mut i| {
		(0..n)
			.map(|_| {
				let d = i % k;
				i /= k;
				d
			})
			.collect()
	})
}

/// Deterministic value stream (splitmix64), used to pick fixed "generic" field values.
pub fn mix(mut x: u64) -> u64 {
	x = x.wrapping_add(0x9e3779b97f4a7c15);
	x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
	x ^ (x >> 31)
}
pub fn mix128(x: u64) -> u128 {
	((mix(x) as u128) << 64) | mix(x ^ 0xabcdef) as u128
}

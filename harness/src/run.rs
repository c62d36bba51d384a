//! Exhaustive execution of families of cases, with containment and evidence.
use crate::det;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const WORKERS: usize = 8;

/// What a family of cases covered.
#[derive(Default)]
pub struct Ctx {
	/// distinct (program, assignment) / model states at which the oracle was asked
	pub states: u64,
	/// operations of the implementation executed
	pub transitions: u64,
	/// complete executions of the implementation compared with the reference
	pub traces: u64,
	/// cases in which the property had something to say
	pub nontrivial: u64,
	pub outcomes: HashSet<u64>,
	pub samples: Vec<String>,
	pub notes: BTreeMap<String, u64>,
	pub case: u64,
	pub thorough: bool,
}

impl Ctx {
	pub fn outcome(&mut self, h: u64) {
		if self.outcomes.len() < 1 << 14 {
			self.outcomes.insert(h);
		}
	}
	pub fn outcome_of<X: std::hash::Hash>(&mut self, x: &X) {
		use std::hash::Hasher;
		#[allow(deprecated)]
		let mut h = std::hash::SipHasher::new();
		x.hash(&mut h);
		let h = h.finish();
		self.outcome(h);
	}
	pub fn note(&mut self, k: &str) {
		*self.notes.entry(k.to_string()).or_insert(0) += 1;
	}
	pub fn sample(&mut self, f: impl FnOnce() -> String) {
		if self.samples.is_empty() {
			let s: String = f().chars().take(600).collect();
			self.samples.push(s);
		}
	}
	fn merge(&mut self, o: Ctx) {
		self.states += o.states;
		self.transitions += o.transitions;
		self.traces += o.traces;
		self.nontrivial += o.nontrivial;
		for h in o.outcomes {
			self.outcome(h);
		}
		for (k, v) in o.notes {
			*self.notes.entry(k).or_insert(0) += v;
		}
		if self.samples.len() < 2 {
			self.samples.extend(o.samples);
			self.samples.truncate(2);
		}
	}
}

pub type Case = Box<dyn Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync>;

pub struct Family {
	pub name: String,
	pub count: u64,
	pub chunk: u64,
	pub run: Case,
	/// run the cases on threads of the caller instead of one-thread pools
	pub serial: bool,
	/// a case that takes longer does not finish
	pub limit: Duration,
}

pub fn family(
	name: &str,
	count: u64,
	run: impl Fn(u64, &mut Ctx) -> Result<(), String> + Send + Sync + 'static,
) -> Family {
	Family {
		name: name.to_string(),
		count,
		chunk: 256.min((count / (WORKERS as u64 * 4)).max(1)),
		run: Box::new(run),
		serial: false,
		limit: CASE_LIMIT,
	}
}

impl Family {
	pub fn chunk(mut self, n: u64) -> Self {
		self.chunk = n;
		self
	}
	pub fn limit(mut self, seconds: u64) -> Self {
		self.limit = Duration::from_secs(seconds);
		self
	}
	pub fn serial(mut self) -> Self {
		self.serial = true;
		self
	}
}

pub struct Property {
	pub id: &'static str,
	pub rule: &'static str,
	pub assumptions: Vec<String>,
	pub families: Vec<Family>,
	/// not terminating is a violation of this property (elsewhere an error)
	pub bounds: &'static str,
}

#[derive(Clone, Debug)]
pub struct Violation {
	pub family: String,
	pub case: u64,
	pub message: String,
}

struct Slots {
	file: Option<std::fs::File>,
	started: Vec<Mutex<Option<(usize, u64, Instant)>>>,
}

impl Slots {
	fn begin(&self, w: usize, f: usize, c: u64) {
		*self.started[w].lock().unwrap() = Some((f, c, Instant::now()));
		if let Some(file) = &self.file {
			let mut b = [0u8; 24];
			b[..8].copy_from_slice(&1u64.to_le_bytes());
			b[8..16].copy_from_slice(&(f as u64).to_le_bytes());
			b[16..].copy_from_slice(&c.to_le_bytes());
			let _ = file.write_all_at(&b, w as u64 * 24);
		}
	}
	fn end(&self, w: usize) {
		*self.started[w].lock().unwrap() = None;
		if let Some(file) = &self.file {
			let _ = file.write_all_at(&[0u8; 8], w as u64 * 24);
		}
	}
}

thread_local! {
	static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn last_panic() -> String {
	LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = info.payload().downcast_ref::<String>() {
			s.clone()
		} else {
			"panic".to_string()
		};
		let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line()));
		LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} ({})", msg, loc.unwrap_or_default()));
	}));
}

fn run_case(f: &Family, c: u64, ctx: &mut Ctx) -> Result<(), String> {
	ctx.case = c;
	match catch_unwind(AssertUnwindSafe(|| (f.run)(c, ctx))) {
		Ok(r) => r,
		Err(_) => Err(format!("panicked: {}", last_panic())),
	}
}

/// Run cases `from..to` of a family in a fresh thread with known randomness.
fn run_range(
	f: &Family,
	seed: u64,
	from: u64,
	to: u64,
	thorough: bool,
	on: &(dyn Fn(Option<u64>) -> bool + Sync),
) -> (Ctx, Option<(u64, String)>) {
	let chunk = from / f.chunk;
	let s = det::mix(seed ^ det::mix(chunk ^ hash(&f.name)));
	let body = || {
		det::set_seed(s);
		let mut ctx = Ctx {
			thorough,
			..Default::default()
		};
		for c in from..to {
			if !on(Some(c)) {
				break;
			}
			if let Err(m) = run_case(f, c, &mut ctx) {
				on(None);
				return (ctx, Some((c, m)));
			}
		}
		on(None);
		(ctx, None)
	};
	if f.serial {
		std::thread::scope(|sc| sc.spawn(body).join().unwrap())
	} else {
		rayon::ThreadPoolBuilder::new()
			.num_threads(1)
			.stack_size(64 << 20)
			.build()
			.unwrap()
			.install(body)
	}
}

pub fn hash(s: &str) -> u64 {
	s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
		(h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3)
	})
}

fn rss() -> u64 {
	std::fs::read_to_string("/proc/self/statm")
		.ok()
		.and_then(|s| s.split(' ').nth(1).and_then(|p| p.parse::<u64>().ok()))
		.unwrap_or(0)
		* 4096
}

pub struct Outcome {
	pub per_family: Vec<(String, u64, u64, Ctx)>,
	pub violations: Vec<Violation>,
}

const CASE_LIMIT: Duration = Duration::from_secs(75);
/// How much slower everything is because the machine does other work too.
fn crowded() -> f64 {
	let load = std::fs::read_to_string("/proc/loadavg").ok();
	let load: f64 = load.and_then(|l| l.split(' ').next().and_then(|x| x.parse().ok())).unwrap_or(0.0);
	let cpus = std::thread::available_parallelism().map_or(8, |n| n.get());
	(load / cpus as f64).clamp(1.0, 5.0)
}

const RSS_LIMIT: u64 = 12 << 30;

/// Run everything; families are walked in order, their chunks in parallel.
fn run_all(p: &Property, seed: u64, thorough: bool, slot_path: Option<&str>) -> Outcome {
	let slots = Slots {
		file: slot_path.map(|s| {
			std::fs::OpenOptions::new()
				.create(true)
				.write(true)
				.open(s)
				.unwrap()
		}),
		started: (0..WORKERS).map(|_| Mutex::new(None)).collect(),
	};
	let stop = AtomicBool::new(false);
	let done = AtomicBool::new(false);
	let violations = Mutex::new(Vec::<Violation>::new());
	let results: Vec<Mutex<(u64, Ctx)>> =
		p.families.iter().map(|_| Mutex::new((0, Ctx::default()))).collect();
	// all chunks, in order
	let next_family = AtomicUsize::new(0);
	let cursors: Vec<AtomicU64> = p.families.iter().map(|_| AtomicU64::new(0)).collect();
	std::thread::scope(|sc| {
		// watchdog
		let monitor = {
			let (slots, done, p) = (&slots, &done, &p);
			sc.spawn(move || {
				while !done.load(SeqCst) {
					std::thread::sleep(Duration::from_millis(100));
					let big = rss() > RSS_LIMIT;
					for s in slots.started.iter() {
						let s = *s.lock().unwrap();
						if let Some((f, c, t)) = s {
							if (t.elapsed() > p.families[f].limit && t.elapsed() > p.families[f].limit.mul_f64(crowded())) || (big && t.elapsed().as_secs() > 2) {
								let v = Violation {
									family: p.families[f].name.clone(),
									case: c,
									message: format!(
										"did not finish: still running after {:.0} s{}",
										t.elapsed().as_secs_f64(),
										if big { ", memory grows without bound" } else { "" }
									),
								};
								report(p, &v, seed, thorough);
								write_evidence(p, seed, thorough, &Outcome { per_family: vec![], violations: vec![v] }, 0.0);
								std::process::exit(1);
							}
						}
					}
				}
			})
		};
		let mut hs = Vec::new();
		for w in 0..WORKERS {
			let (slots, stop, violations, results, next_family, cursors) =
				(&slots, &stop, &violations, &results, &next_family, &cursors);
			hs.push(sc.spawn(move || loop {
				if stop.load(SeqCst) {
					return;
				}
				let fi = next_family.load(SeqCst);
				if fi >= p.families.len() {
					return;
				}
				let f = &p.families[fi];
				let from = cursors[fi].fetch_add(f.chunk, SeqCst);
				if from >= f.count {
					let _ = next_family.compare_exchange(fi, fi + 1, SeqCst, SeqCst);
					continue;
				}
				let to = (from + f.chunk).min(f.count);
				let on = |c: Option<u64>| {
					match c {
						Some(c) => slots.begin(w, fi, c),
						None => slots.end(w),
					}
					!stop.load(SeqCst)
				};
				let (ctx, v) = run_range(f, seed, from, to, thorough, &on);
				{
					let mut r = results[fi].lock().unwrap();
					r.0 += to - from;
					r.1.merge(ctx);
				}
				if let Some((case, message)) = v {
					violations.lock().unwrap().push(Violation {
						family: f.name.clone(),
						case,
						message,
					});
					stop.store(true, SeqCst);
				}
			}));
		}
		for h in hs {
			h.join().unwrap();
		}
		done.store(true, SeqCst);
		monitor.join().unwrap();
	});
	let mut violations = violations.into_inner().unwrap();
	violations.sort_by_key(|v| {
		(
			p.families.iter().position(|f| f.name == v.family).unwrap(),
			v.case,
		)
	});
	let per_family = p
		.families
		.iter()
		.zip(results)
		.map(|(f, r)| {
			let (n, ctx) = r.into_inner().unwrap();
			(f.name.clone(), f.count, n, ctx)
		})
		.collect();
	Outcome {
		per_family,
		violations,
	}
}

pub fn esc(s: &str) -> String {
	let mut o = String::from("\"");
	for c in s.chars() {
		match c {
			'"' => o.push_str("\\\""),
			'\\' => o.push_str("\\\\"),
			'\n' => o.push_str("\\n"),
			c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}

fn root() -> String {
	std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".to_string())
}

fn report(p: &Property, v: &Violation, seed: u64, thorough: bool) {
	let dir = format!("{}/replays", root());
	let _ = std::fs::create_dir_all(&dir);
	let path = format!("{}/{}-{:x}-{}.json", dir, p.id, hash(&v.family) as u32, v.case);
	let text = format!(
		"{{\"property\": {}, \"family\": {}, \"case\": {}, \"seed\": {}, \"tier\": {}, \"message\": {}, \"replay\": {}}}\n",
		esc(p.id),
		esc(&v.family),
		v.case,
		seed,
		esc(if thorough { "thorough" } else { "quick" }),
		esc(&v.message),
		esc(&format!("./run.sh {} --replay {}", p.id, path)),
	);
	let _ = std::fs::write(&path, text);
	println!("{} / case {}: {}", v.family, v.case, v.message);
	println!("VIOLATION property={} replay={}", p.id, path);
	let _ = std::io::stdout().flush();
}

fn write_evidence(p: &Property, seed: u64, thorough: bool, o: &Outcome, wall: f64) {
	let mut t = Ctx::default();
	let (mut cases, mut outcomes) = (0, 0);
	let mut fams = Vec::new();
	let mut complete = o.violations.is_empty();
	let mut samples = Vec::new();
	for (name, count, n, c) in &o.per_family {
		cases += n;
		complete &= n == count;
		t.states += c.states;
		t.transitions += c.transitions;
		t.traces += c.traces;
		t.nontrivial += c.nontrivial;
		outcomes += c.outcomes.len();
		for (k, v) in &c.notes {
			*t.notes.entry(k.clone()).or_insert(0) += v;
		}
		for s in c.samples.iter().take(2) {
			samples.push(esc(&format!("{}: {}", name, s)));
		}
		fams.push(format!(
			"{{\"family\": {}, \"cases\": {}, \"of\": {}, \"states\": {}, \"transitions\": {}, \"executions\": {}, \"distinct_outcomes\": {}}}",
			esc(name), n, count, c.states, c.transitions, c.traces, c.outcomes.len()
		));
	}
	let notes: Vec<String> = t.notes.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
	samples.truncate(24);
	let ass: Vec<String> = p.assumptions.iter().map(|s| esc(s)).collect();
	let text = format!(
		"{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\", \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"cases\": {}, \"distinct_nontrivial\": {}, \"distinct_outcomes\": {}, \"exhaustive\": {}, \"rule\": {}, \"bounds\": {}, \"families\": [{}], \"notes\": {{{}}}, \"samples\": [{}]}}, \"assumptions\": [{}], \"wall_s\": {:.2}, \"violations\": {}}}\n",
		esc(p.id),
		esc(if thorough { "thorough" } else { "quick" }),
		seed,
		t.states,
		t.transitions,
		t.traces,
		cases,
		t.nontrivial,
		outcomes,
		complete,
		esc(p.rule),
		esc(p.bounds),
		fams.join(", "),
		notes.join(", "),
		samples.join(", "),
		ass.join(", "),
		wall,
		o.violations.len()
	);
	let dir = format!("{}/evidence", root());
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(format!("{}/{}.json", dir, p.id), text).unwrap();
}

/// The child: does the work.
fn child(p: &Property, seed: u64, thorough: bool) -> i32 {
	let t = Instant::now();
	let slot = std::env::var("MC_SLOTS").ok();
	if let Ok(only) = std::env::var("MC_ONLY") {
		// one case, with the cases of its chunk before it
		let mut it = only.rsplitn(2, '#');
		let case: u64 = it.next().unwrap().parse().unwrap();
		let name = it.next().unwrap();
		let Some(f) = p.families.iter().find(|f| f.name == name) else {
			eprintln!("no family {}", name);
			return 2;
		};
		let from = case / f.chunk * f.chunk;
		let started = Mutex::new(Instant::now());
		let done = AtomicBool::new(false);
		return std::thread::scope(|sc| {
			sc.spawn(|| {
				while !done.load(SeqCst) {
					std::thread::sleep(Duration::from_millis(50));
					if started.lock().unwrap().elapsed() > f.limit.mul_f64(crowded()) || rss() > RSS_LIMIT {
						let v = Violation {
							family: f.name.clone(),
							case,
							message: "did not finish".to_string(),
						};
						report(p, &v, seed, thorough);
						std::process::exit(1);
					}
				}
			});
			let (_, v) = run_range(f, seed, from, case + 1, thorough, &|_| {
				*started.lock().unwrap() = Instant::now();
				true
			});
			done.store(true, SeqCst);
			match v {
				Some((case, message)) => {
					report(p, &Violation { family: f.name.clone(), case, message }, seed, thorough);
					1
				}
				None => 0,
			}
		});
	}
	let o = run_all(p, seed, thorough, slot.as_deref());
	let wall = t.elapsed().as_secs_f64();
	write_evidence(p, seed, thorough, &o, wall);
	for (name, count, n, c) in &o.per_family {
		println!(
			"{:<34} {:>9}/{:<9} cases, {:>10} states, {:>10} transitions, {:>9} executions, {:>6} outcomes",
			name, n, count, c.states, c.transitions, c.traces, c.outcomes.len()
		);
	}
	if let Some(v) = o.violations.first() {
		report(p, v, seed, thorough);
		return 1;
	}
	for (name, count, n, c) in &o.per_family {
		if n != count || (c.nontrivial == 0 && *count > 0) {
			eprintln!("{}: vacuous or incomplete ({} of {})", name, n, count);
			return 3;
		}
	}
	println!("{}: held on everything explored, {:.1} s", p.id, wall);
	0
}

fn spawn(args: &[String], slot: &str, only: Option<&str>) -> std::process::ExitStatus {
	let mut c = std::process::Command::new(std::env::current_exe().unwrap());
	c.args(args).env("MC_CHILD", "1").env("MC_SLOTS", slot);
	match only {
		Some(o) => c.env("MC_ONLY", o),
		None => c.env_remove("MC_ONLY"),
	};
	c.status().unwrap()
}

/// Crash of the process by a signal that the code under test can cause.
fn crash(s: &std::process::ExitStatus) -> Option<i32> {
	match s.signal() {
		Some(n) if [4, 6, 7, 8, 11].contains(&n) => Some(n),
		_ => None,
	}
}

/// The parent contains crashes: a case that kills the process, and does so again
/// when it is replayed, is a violation.
pub fn main(p: Property, args: &[String], seed: u64, thorough: bool, replay: Option<String>) -> i32 {
	if std::env::var("MC_CHILD").is_ok() {
		quiet_panics();
		return child(&p, seed, thorough);
	}
	let slot = format!("{}/mc-slots-{}", std::env::temp_dir().display(), std::process::id());
	let code = (|| {
		if let Some(path) = &replay {
			let text = std::fs::read_to_string(path).unwrap();
			let field = |k: &str| -> String {
				let i = text.find(&format!("\"{}\": ", k)).unwrap() + k.len() + 4;
				let rest = &text[i..];
				if let Some(r) = rest.strip_prefix('"') {
					r[..r.find('"').unwrap()].to_string()
				} else {
					rest[..rest.find([',', '}']).unwrap()].to_string()
				}
			};
			let s = spawn(args, &slot, Some(&format!("{}#{}", field("family"), field("case"))));
			return match (s.code(), crash(&s)) {
				(Some(c), _) => c,
				(None, Some(n)) => {
					println!("crashed by signal {}", n);
					println!("VIOLATION property={} replay={}", p.id, path);
					1
				}
				_ => 2,
			};
		}
		for _attempt in 0..2 {
			let _ = std::fs::write(&slot, [0u8; 24 * WORKERS]);
			let s = spawn(args, &slot, None);
			if let Some(c) = s.code() {
				return c;
			}
			let Some(sig) = crash(&s) else {
				eprintln!("the checker was ended: {:?}", s);
				return 2;
			};
			let b = std::fs::read(&slot).unwrap_or_default();
			for w in b.chunks(24) {
				if w.len() < 24 || w[0] == 0 {
					continue;
				}
				let f = u64::from_le_bytes(w[8..16].try_into().unwrap()) as usize;
				let c = u64::from_le_bytes(w[16..24].try_into().unwrap());
				let name = p.families[f].name.clone();
				let r = spawn(args, &slot, Some(&format!("{}#{}", name, c)));
				if r.code() == Some(1) {
					return 1;
				}
				if let Some(sig) = crash(&r) {
					let v = Violation {
						family: name,
						case: c,
						message: format!("the process crashed with signal {}", sig),
					};
					report(&p, &v, seed, thorough);
					let o = Outcome { per_family: vec![], violations: vec![v] };
					write_evidence(&p, seed, thorough, &o, 0.0);
					return 1;
				}
			}
			eprintln!("crashed by signal {} without a reproducible case; again", sig);
		}
		2
	})();
	let _ = std::fs::remove_file(&slot);
	code
}

/// Stateless depth-first search over the choices of an execution.
pub struct Chooser {
	prefix: Vec<usize>,
	pub taken: Vec<(usize, usize)>,
}

impl Chooser {
	pub fn choose(&mut self, n: usize) -> usize {
		assert!(n > 0);
		let i = self.taken.len();
		let c = self.prefix.get(i).copied().unwrap_or(0);
		assert!(c < n, "replay of a prefix diverged");
		self.taken.push((c, n));
		c
	}
}

/// Explore every complete sequence of choices; returns the number of executions.
pub fn dfs(
	first: Vec<usize>,
	mut run: impl FnMut(&std::sync::Arc<Mutex<Chooser>>) -> Result<(), String>,
) -> Result<u64, String> {
	let fixed = first.len();
	let mut prefix = first;
	let mut n = 0;
	loop {
		let ch = std::sync::Arc::new(Mutex::new(Chooser {
			prefix: prefix.clone(),
			taken: Vec::new(),
		}));
		n += 1;
		run(&ch).map_err(|e| {
			let t = ch.lock().unwrap_or_else(|e| e.into_inner());
			format!("{} [choices {:?}]", e, t.taken.iter().map(|c| c.0).collect::<Vec<_>>())
		})?;
		let mut taken = std::mem::take(&mut ch.lock().unwrap().taken);
		loop {
			match taken.pop() {
				None => return Ok(n),
				Some(_) if taken.len() < fixed => return Ok(n),
				Some((c, k)) if c + 1 < k => {
					prefix = taken.iter().map(|t| t.0).collect();
					prefix.push(c + 1);
					break;
				}
				_ => (),
			}
		}
	}
}

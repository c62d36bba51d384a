//! Every small sequence of safe calls, to be run under Miri and under ASan.
//! `ub list TIER`; `ub shard K N TIER`; `ub one FAMILY CASE TIER`
#![allow(clippy::type_complexity, dropping_copy_types)]
#[cfg(not(miri))]
#[path = "../../harness/src/det.rs"]
mod det;
mod exprs;
mod label;
mod models;
mod repr;
mod solvers;

use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

/// Bytes not returned yet.
struct Counting;
static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		BYTES.fetch_add(l.size() as i64, Relaxed);
		System.alloc(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		BYTES.fetch_sub(l.size() as i64, Relaxed);
		System.dealloc(p, l)
	}
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub static OPS: AtomicU64 = AtomicU64::new(0);
pub static REFUSED: AtomicU64 = AtomicU64::new(0);

/// One call; a refusal (panic) is an answer like any other.
pub fn call<X>(f: impl FnOnce() -> X) -> Option<X> {
	OPS.fetch_add(1, Relaxed);
	match catch_unwind(AssertUnwindSafe(f)) {
		Ok(x) => Some(x),
		Err(_) => {
			REFUSED.fetch_add(1, Relaxed);
			None
		}
	}
}

pub struct Fam {
	pub name: &'static str,
	pub count: u64,
	pub run: Box<dyn Fn(u64)>,
	/// memory is compared before and after (not with worker threads)
	pub bytes: bool,
}

/// Mixed-radix digits of a case number.
pub fn digits(mut c: u64, radix: &[u64]) -> Vec<usize> {
	radix
		.iter()
		.map(|r| {
			let d = c % r;
			c /= r;
			d as usize
		})
		.collect()
}

fn families(deep: bool) -> Vec<Fam> {
	let mut v = Vec::new();
	v.extend(repr::families(deep));
	v.extend(models::families(deep));
	v.extend(exprs::families(deep));
	v.extend(solvers::families(deep));
	v
}

fn run(f: &Fam, c: u64) -> Result<(), String> {
	#[cfg(not(miri))]
	det::set_seed(c);
	let once = || {
		let _ = catch_unwind(AssertUnwindSafe(|| (f.run)(c)));
		label::disarm();
		label::balance()
	};
	once()?;
	if f.bytes && !cfg!(miri) {
		// the first run filled the caches of the runtime
		let before = BYTES.load(Relaxed);
		once()?;
		let after = BYTES.load(Relaxed);
		if after != before {
			return Err(format!("{} bytes were not given back", after - before));
		}
	}
	Ok(())
}

/// Spreads the cases of a family over the shards; the known finding is run apart.
fn share(f: &str, c: u64) -> u64 {
	if f == "solve-model-kept" {
		return u64::MAX;
	}
	let h = f.bytes().fold(c, |h, b| h.wrapping_mul(31).wrapping_add(b as u64));
	h.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 33
}

fn main() {
	std::panic::set_hook(Box::new(|_| ()));
	let a: Vec<String> = std::env::args().skip(1).collect();
	let deep = a.last().map_or(false, |t| t == "deep");
	let fams = families(deep);
	let fail = |f: &Fam, c: u64, m: String| {
		println!("BAD {} {}: {}", f.name, c, m);
		std::process::exit(1);
	};
	match a[0].as_str() {
		"list" => {
			for f in &fams {
				println!("{} {}", f.name, f.count);
			}
		}
		"shard" => {
			let k: u64 = a[1].parse().unwrap();
			let n: u64 = a[2].parse().unwrap();
			let mut cases = 0;
			for f in &fams {
				let mut own = 0;
				let t = std::time::Instant::now();
				for c in (0..f.count).filter(|c| share(f.name, *c) != u64::MAX && share(f.name, *c) % n == k) {
					if cfg!(miri) {
						println!("@{} {}", f.name, c);
					} else {
						crumb(f.name, c);
					}
					if let Err(m) = run(f, c) {
						fail(f, c, m);
					}
					cases += 1;
					own += 1;
				}
				println!("FAM {} {} {:.1}", f.name, own, t.elapsed().as_secs_f64());
			}
			println!("DONE {} {} {}", cases, OPS.load(Relaxed), REFUSED.load(Relaxed));
		}
		"one" => {
			let f = fams.iter().find(|f| f.name == a[1]).expect("no such family");
			let c = a[2].parse().unwrap();
			println!("@{} {}", f.name, c);
			if let Err(m) = run(f, c) {
				fail(f, c, m);
			}
			println!("DONE 1 {} {}", OPS.load(Relaxed), REFUSED.load(Relaxed));
		}
		_ => panic!("list, shard or one"),
	}
}

/// The case being run, for whoever finds this process dead.
fn crumb(f: &str, c: u64) {
	use std::os::unix::fs::FileExt;
	thread_local! {
		static FILE: Option<std::fs::File> = std::env::var("UB_CRUMB").ok().map(|p| std::fs::File::create(p).unwrap());
	}
	FILE.with(|file| {
		if let Some(file) = file {
			let _ = file.write_all_at(format!("@{} {:<12}\n", f, c).as_bytes(), 0);
		}
	});
}

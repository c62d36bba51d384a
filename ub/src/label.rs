//! Labels that own memory, are counted, and can be told to panic in a callback.
use std::cell::Cell;
use std::cmp::Ordering;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub static LIVE: AtomicI64 = AtomicI64::new(0);
static DOUBLE: AtomicI64 = AtomicI64::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cb {
	Clone,
	Cmp,
	Eq,
	Hash,
	Fmt,
	Map,
	Model,
	Rng,
}
pub const CBS: [Cb; 8] = [Cb::Clone, Cb::Cmp, Cb::Eq, Cb::Hash, Cb::Fmt, Cb::Map, Cb::Model, Cb::Rng];

thread_local! {
	/// (callback, how many calls go well before one panics)
	static TRAP: Cell<Option<(Cb, u32)>> = const { Cell::new(None) };
	static SPRUNG: Cell<bool> = const { Cell::new(false) };
}

/// Panic at the (n+1)-th call of a callback of kind `c`.
pub fn arm(c: Cb, n: u32) {
	SPRUNG.with(|s| s.set(false));
	TRAP.with(|t| t.set(Some((c, n))));
}
/// True when the trap went off.
pub fn disarm() -> bool {
	TRAP.with(|t| t.set(None));
	SPRUNG.with(|s| s.get())
}

pub fn hit(c: Cb) {
	TRAP.with(|t| {
		if let Some((k, n)) = t.get() {
			if k == c {
				if n == 0 {
					t.set(None);
					SPRUNG.with(|s| s.set(true));
					std::panic::resume_unwind(Box::new(()));
				}
				t.set(Some((k, n - 1)));
			}
		}
	});
}

/// A label: memory of its own, and a witness that it was not dropped.
pub struct L {
	name: Box<u32>,
	alive: u32,
}
const ALIVE: u32 = 0x600D_CAFE;

impl L {
	pub fn new(n: u32) -> L {
		LIVE.fetch_add(1, SeqCst);
		L { name: Box::new(n), alive: ALIVE }
	}
	fn check(&self) {
		if unsafe { std::ptr::read_volatile(&self.alive) } != ALIVE {
			DOUBLE.fetch_add(1, SeqCst);
		}
	}
}
impl Clone for L {
	fn clone(&self) -> L {
		self.check();
		hit(Cb::Clone);
		L::new(*self.name)
	}
}
impl Drop for L {
	fn drop(&mut self) {
		self.check();
		unsafe { std::ptr::write_volatile(&mut self.alive, 0) };
		LIVE.fetch_sub(1, SeqCst);
	}
}
impl PartialEq for L {
	fn eq(&self, o: &L) -> bool {
		self.check();
		o.check();
		hit(Cb::Eq);
		self.name == o.name
	}
}
impl Eq for L {}
impl PartialOrd for L {
	fn partial_cmp(&self, o: &L) -> Option<Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for L {
	fn cmp(&self, o: &L) -> Ordering {
		self.check();
		o.check();
		hit(Cb::Cmp);
		self.name.cmp(&o.name)
	}
}
impl std::hash::Hash for L {
	fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
		self.check();
		hit(Cb::Hash);
		self.name.hash(h)
	}
}
impl std::fmt::Debug for L {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		self.check();
		hit(Cb::Fmt);
		write!(f, "l{}", self.name)
	}
}

pub fn balance() -> Result<(), String> {
	let live = LIVE.load(SeqCst);
	let double = DOUBLE.load(SeqCst);
	if double != 0 {
		return Err(format!("a label was used or dropped {} time(s) after its drop", double));
	}
	if live != 0 {
		return Err(format!(
			"{} label(s) {}",
			live.abs(),
			if live > 0 { "were never dropped" } else { "were dropped twice" }
		));
	}
	Ok(())
}

//! Ownership of the process' randomness: `getrandom` is interposed, so hash-map
//! seeds and the seeds of `OsRng` are functions of a per-thread seed.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};

/// all threads draw from one source that never gives the same twice, like the
/// system's
static SHARED: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicU64 = AtomicU64::new(1);

pub fn share() {
	SHARED.store(true, SeqCst);
}

thread_local! {
	static SEED: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
	static CALLS: Cell<u64> = const { Cell::new(0) };
}

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

pub fn set_seed(s: u64) {
	SEED.with(|c| c.set(mix(s)));
}

/// Number of requests for system randomness by this thread.
#[allow(dead_code)]
pub fn calls() -> u64 {
	CALLS.with(|c| c.get())
}

#[cfg(not(miri))]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	CALLS.with(|c| c.set(c.get() + 1));
	if SHARED.load(SeqCst) {
		let mut i = 0;
		while i < len {
			let w = mix(mix(NEXT.fetch_add(1, SeqCst))).to_le_bytes();
			for b in w.iter().take(len - i) {
				*buf.add(i) = *b;
				i += 1;
			}
		}
		return len as isize;
	}
	for i in 0..len {
		let v = SEED.with(|c| {
			let v = c.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
			c.set(v);
			mix(v)
		});
		*buf.add(i) = (v >> 24) as u8;
	}
	len as isize
}

extern "C" {
	fn __errno_location() -> *mut i32;
}

/// `OsRng` asks the kernel by number, so the gate to it is interposed as well;
/// everything but the request for randomness goes through unchanged.
#[cfg(all(not(miri), target_arch = "x86_64"))]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
	const GETRANDOM: i64 = 318;
	if n == GETRANDOM {
		return getrandom(a as *mut u8, b, c as u32) as i64;
	}
	let r: i64;
	std::arch::asm!(
		"syscall",
		inlateout("rax") n => r,
		in("rdi") a,
		in("rsi") b,
		in("rdx") c,
		in("r10") d,
		in("r8") e,
		in("r9") f,
		lateout("rcx") _,
		lateout("r11") _,
		options(nostack)
	);
	if (-4095..0).contains(&r) {
		*__errno_location() = -r as i32;
		return -1;
	}
	r
}

//! The packed state: every sequence of calls at and beyond every boundary.
use crate::label::{hit, Cb};
use crate::{call, digits, Fam};
use annealers::node::Binary;
use annealers::repr::BinaryRepr;
use annealers::solution::SingleSolution;
use rand::RngCore;

/// A generator that writes as much as it is asked to, or less.
pub struct Script(pub u64);
impl RngCore for Script {
	fn next_u32(&mut self) -> u32 {
		self.next_u64() as u32
	}
	fn next_u64(&mut self) -> u64 {
		hit(Cb::Rng);
		self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
		self.0
	}
	fn fill_bytes(&mut self, d: &mut [u8]) {
		hit(Cb::Rng);
		let n = self.0;
		for (i, b) in d.iter_mut().enumerate() {
			if n % 4 == 1 && i > 0 {
				break; // leaves the rest as it was
			}
			*b = if n % 4 == 0 { 0xff } else { (n >> (i % 8)) as u8 };
		}
	}
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(d);
		Ok(())
	}
}

const LENS: [usize; 9] = [0, 1, 2, 7, 8, 9, 15, 16, 17];

fn positions(len: usize, deep: bool) -> Vec<usize> {
	if cfg!(miri) && !deep {
		let mut p = vec![0, len.wrapping_sub(1), len, (len + 7) / 8 * 8, usize::MAX];
		p.sort_unstable();
		p.dedup();
		return p;
	}
	let mut p = vec![0, len / 2, len.wrapping_sub(1), len, len + 1, (len + 7) / 8 * 8, (len + 7) / 8 * 8 + 7, len + 64, usize::MAX, usize::MAX - 6, 1 << 63];
	p.sort_unstable();
	p.dedup();
	p
}

const KINDS: usize = 11;

fn op(s: &mut SingleSolution<Binary<i32>>, kind: usize, p: usize) {
	match kind {
		0 => drop(call(|| s.state.set(p, true))),
		1 => drop(call(|| s.state.set(p, false))),
		2 => drop(call(|| s.state.flip(p))),
		3 => drop(call(|| std::hint::black_box(s.state.get(p)))),
		4 => drop(call(|| std::hint::black_box(s.state[p]))),
		5 => drop(call(|| std::hint::black_box(s[p]))),
		6 => drop(call(|| std::hint::black_box(s.get(p)))),
		7 => {
			let c = s.clone();
			*s = c;
		}
		8 => {
			let v = s.state.to_vec();
			*s = SingleSolution::from_state(BinaryRepr::from_vec(&v));
		}
		9 => drop(format!("{:?}", s.state)),
		_ => {
			let mut it = s.state.iter();
			let n = it.by_ref().filter(|b| *b).count();
			assert!(n <= s.len() && it.next().is_none() && it.next().is_none());
		}
	}
}
fn all(s: &SingleSolution<Binary<i32>>) {
	let n = (0..s.len()).filter(|i| s.state.get(*i)).count();
	std::hint::black_box((n, s.state.is_empty(), s.state.len()));
}

fn start(len: usize, init: usize) -> SingleSolution<Binary<i32>> {
	match init {
		0 => SingleSolution::from_vec(&vec![false; len]),
		1 => SingleSolution::from_vec(&(0..len).map(|i| i % 3 == 1).collect::<Vec<_>>()),
		2 => SingleSolution::from_state(BinaryRepr::new_random(len, &mut Script(0))),
		3 => SingleSolution::from_state(BinaryRepr::new_random(len, &mut Script(1))),
		_ => SingleSolution::from_state(BinaryRepr::new_random(len, &mut Script(6))),
	}
}

pub fn families(deep: bool) -> Vec<Fam> {
	let depth3 = deep && !cfg!(miri);
	// a refusal takes Miri ten milliseconds
	let lens: &'static [usize] = if cfg!(miri) && !deep { &[0, 1, 8, 9] } else { &LENS };
	let inits: &'static [usize] = if cfg!(miri) && !deep { &[1, 3] } else { &[0, 1, 2, 3, 4] };
	vec![
		Fam {
			name: "repr-ops",
			count: (lens.len() * inits.len() * KINDS) as u64,
			bytes: true,
			run: Box::new(move |c| {
				let d = digits(c, &[lens.len() as u64, inits.len() as u64, KINDS as u64]);
				let (len, init, k1) = (lens[d[0]], inits[d[1]], d[2]);
				let pos = positions(len, deep);
				for p1 in if k1 < 7 { &pos[..] } else { &pos[..1] } {
					if cfg!(miri) && *p1 > len {
						continue; // refused, as `len` is
					}
					for k2 in 0..KINDS {
						for p2 in if k2 < 7 { &pos[..] } else { &pos[..1] } {
							let mut s = start(len, init);
							op(&mut s, k1, *p1);
							op(&mut s, k2, *p2);
							if depth3 {
								for k3 in 0..KINDS {
									for p3 in if k3 < 7 { &pos[..] } else { &pos[..1] } {
										let mut s = s.clone();
										op(&mut s, k3, *p3);
										all(&s);
									}
								}
							}
							all(&s);
						}
					}
				}
			}),
		},
		// lengths near the end of the address space must be refused
		Fam {
			name: "repr-huge",
			count: 8,
			bytes: true,
			run: Box::new(|c| {
				let len = usize::MAX - c as usize;
				if c == 7 {
					return; // a length that memory might hold
				}
				if let Some(s) = call(|| BinaryRepr::new_random(len, &mut Script(6))) {
					for p in [0, 7, 8, len / 2, len - 1] {
						call(|| std::hint::black_box(s.get(p)));
					}
				}
			}),
		},
	]
}

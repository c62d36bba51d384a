//! Expressions with labels that own memory: every operator form on every shape
//! of operand, and every callback that may give up in the middle.
use crate::label::{arm, disarm, hit, Cb, CBS, L};
use crate::{call, digits, Fam};
use annealers::variable::Real;
use rustqubo::Expr;
use std::collections::HashMap;
use std::hint::black_box;

pub type E<R> = Expr<L, L, L, R>;
pub const SHAPES: u64 = 10;

pub fn b<R: Real>(n: u32) -> E<R> {
	Expr::Binary(L::new(n))
}
pub fn num<R: Real>(n: i32) -> E<R> {
	Expr::Number(R::from_i32(n))
}

/// Operands of every kind; `k` keeps the labels of two operands apart.
pub fn shape<R: Real>(s: usize, k: u32) -> E<R> {
	match s {
		0 => num(3),
		1 => b(k),
		2 => Expr::Spin(L::new(k + 1)),
		3 => Expr::Placeholder(L::new(7)),
		4 => Expr::Constraint { label: L::new(50), expr: Box::new(b(k) + b(k + 1)) },
		5 => Expr::WithPenalty { expr: Box::new(b(k)), penalty: Box::new(b(k + 1) + num(1)) },
		6 => b(k) + Expr::Placeholder(L::new(8)),
		7 => b(k) * b(k + 1),
		8 => b(k) * b(k + 1) * b(k + 2),
		_ => Expr::Constraint { label: L::new(51 + k), expr: Box::new(Expr::Placeholder(L::new(7)) * b(k)) },
	}
}

pub const OPS: u64 = 18;
macro_rules! apply {
	($name:ident, $r:ty) => {
		fn $name(o: usize, a: E<$r>, c: &dyn Fn() -> E<$r>) -> E<$r> {
			let n = <$r as Real>::from_i32(2);
			let mut a = a;
			match o {
				0 => a + c(),
				1 => a - c(),
				2 => a * c(),
				3 => a + n,
				4 => a - n,
				5 => a * n,
				6 => n + a,
				7 => n - a,
				8 => n * a,
				9 => -a,
				10 => a ^ 0,
				11 => a ^ 2,
				12 => {
					a += c();
					a
				}
				13 => {
					a -= c();
					a
				}
				14 => {
					a *= c();
					a
				}
				15 => {
					a += n;
					a *= n;
					a -= n;
					a
				}
				16 => {
					a ^= 0;
					a
				}
				_ => {
					a ^= 3;
					a
				}
			}
		}
	};
}
apply!(apply_int, i32);
apply!(apply_float, f64);

/// Everything one may do with an expression.
fn use_up<R: Real>(e: E<R>, compile: bool) {
	let f = e.clone();
	call(|| black_box(f == e));
	call(|| drop(format!("{:?}", f)));
	let mut dict = HashMap::new();
	dict.insert(L::new(7), R::from_i32(2));
	dict.insert(L::new(99), R::from_i32(1));
	let fed = call(|| f.feed_dict(&dict));
	call(|| {
		let mut n = 0;
		black_box(e.clone().map(&mut |x| {
			hit(Cb::Map);
			n += 1;
			if let Expr::Binary(_) = x {
				if n % 2 == 0 {
					return num(0);
				}
			}
			x
		}))
	});
	if compile {
		if let Some(fed) = fed {
			call(|| {
				let m = fed.compile();
				drop(format!("{:?}", m));
				drop(m.get_placeholders().len());
				let mut dict = HashMap::new();
				dict.insert(L::new(8), R::from_i32(1));
				black_box(m.clone());
				drop(m.feed_dict(dict));
			});
		}
		call(|| e.compile().feed_dict(HashMap::new()));
	}
}

/// Miri is slow: below the thorough tier it sees one shape of each kind.
const FEW: [usize; 5] = [1, 3, 4, 5, 7];
const EVERY: [usize; SHAPES as usize] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];

pub fn families(deep: bool) -> Vec<Fam> {
	let mut v = Vec::new();
	let shapes: &'static [usize] = if cfg!(miri) && !deep { &FEW } else { &EVERY };
	let n = shapes.len() as u64;
	v.push(Fam {
		name: "expr-one-operator",
		count: n * n * OPS,
		bytes: true,
		run: Box::new(move |c| {
			let mut d = digits(c, &[OPS, n, n]);
			(d[1], d[2]) = (shapes[d[1]], shapes[d[2]]);
			let e = apply_int(d[0], shape(d[1], 0), &|| shape(d[2], 1));
			use_up(e, if cfg!(miri) { c % 29 == 0 } else { deep || c % 5 == 0 });
			if deep || c % 7 == 0 && !cfg!(miri) {
				let e = apply_float(d[0], shape(d[1], 0), &|| shape(d[2], 1));
				use_up(e, false);
			}
		}),
	});
	v.push(Fam {
		name: "expr-two-operators",
		count: OPS * n * if deep { SHAPES } else if cfg!(miri) { 1 } else { 2 },
		bytes: true,
		run: Box::new(move |c| {
			let mut d = digits(c, &[OPS, n, SHAPES]);
			d[1] = shapes[d[1]];
			let o = if deep { d[2] } else { [4, 7][d[2]] };
			for o2 in 0..OPS as usize {
				let e = apply_int(d[0], shape(d[1], 0), &|| shape(o, 1));
				let e = apply_int(o2, e, &|| shape((o + 1) % 8, 2));
				let f = e.clone();
				call(|| black_box(f == e));
				drop(e);
				if deep && !cfg!(miri) {
					call(|| drop(format!("{:?}", f)));
					use_up(f, false);
				}
			}
		}),
	});
	// the k-th call of a callback panics: nothing is lost, doubled or invalid
	let progs = 9u64;
	v.push(Fam {
		name: "expr-interrupted",
		count: progs * 5 * n,
		bytes: true,
		run: Box::new(move |c| {
			let d = digits(c, &[progs, 5, n]);
			let (prog, cb, s) = (d[0], CBS[[0, 1, 3, 4, 5][d[1]]], shapes[d[2]]);
			let limit = if deep { 400 } else if cfg!(miri) { 5 } else { 40 };
			for k in 0..limit {
				let mut held: Option<E<i32>> = Some(shape(s, 0));
				call(|| {
					let e = shape::<i32>(s, 0);
					let other = shape::<i32>((s + 4) % SHAPES as usize, 2);
					arm(cb, k);
					match prog {
						0 => drop(e ^ 3),
						1 => {
							*held.as_mut().unwrap() ^= 3;
						}
						2 => drop(e.clone()),
						3 => drop(e.map(&mut |x| {
							hit(Cb::Map);
							x
						})),
						4 => drop((e * other).compile()),
						5 => drop((e ^ 2).compile()),
						6 => {
							let mut dict = HashMap::new();
							dict.insert(L::new(7), 2);
							dict.insert(L::new(8), 3);
							drop(e.feed_dict(&dict))
						}
						7 => {
							let mut dict = HashMap::new();
							dict.insert(L::new(7), 2);
							dict.insert(L::new(8), 3);
							drop((e + other).compile().feed_dict(dict))
						}
						_ => {
							drop(format!("{:?}", e));
							black_box(e == other);
						}
					}
				});
				let sprung = disarm();
				if let Some(h) = held.take() {
					// still a valid expression
					let g = h.clone();
					call(|| black_box(g == h));
				}
				if !sprung {
					break;
				}
			}
		}),
	});
	v
}

//! C03 - C06: placeholders, operators, constraints and penalties, traversal.
use crate::num::*;
use crate::p_compile::{compare, STRENGTH};
use crate::qubo::*;
use crate::run::*;
use crate::tree::T::*;
use crate::tree::*;
use crate::with_type;
use rustqubo::Expr;
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn number<R: Num>(k: i32) -> R {
	if R::FLOAT {
		R::half(k)
	} else {
		R::int(k)
	}
}

// ---------------------------------------------------------------- C03

fn c03_case<R: Num>(t: &T, ctx: &mut Ctx, deep: bool) -> Result<(), String> {
	let ps: Vec<u8> = t.placeholders().into_iter().collect();
	if ps.is_empty() {
		return Ok(());
	}
	let k = ps.len() as u32;
	let m = t.constraints().len().max(1) as i32;
	let build = || -> Expr<String, u8, u8, R> {
		t.build(&Lab {
			p: &|x| format!("p{}", x),
			q: &|x| x,
			c: &|x| x,
			n: &number::<R>,
		})
	};
	let vars: Vec<u8> = t.vars().into_iter().collect();
	let vals = [0, 1, 3, 2];
	let exact = t.degree() <= 2;
	// what a compiled model says it waits for
	let influences = |p: u8| {
		let value = |a: u64, w: i32, rest: i32| {
			t.eval(&Env {
				q: &|x| a >> vars.iter().position(|v| *v == x).unwrap() & 1 == 1,
				p: &|x| if x == p { number::<R>(w) } else { number::<R>(rest) },
				c: &|_| R::int(STRENGTH),
				n: &number::<R>,
			})
		};
		(0..1u64 << vars.len()).any(|a| [1, 2, 3].iter().any(|r| value(a, 1, *r) != value(a, 2, *r)))
	};
	let needed: Vec<u8> = ps.iter().copied().filter(|p| influences(*p)).collect();
	for fed in 0..1u32 << k {
		let dict: HashMap<String, R> = ps.iter().enumerate().filter(|(i, _)| fed >> i & 1 == 1).map(|(_, p)| (format!("p{}", p), R::int(1))).collect();
		let c = build().feed_dict(&dict).compile();
		let listed: Vec<String> = c.get_placeholders().into_iter().map(|p| format!("{:?}", p)).collect();
		for (i, p) in ps.iter().enumerate() {
			let has = listed.iter().filter(|l| l.contains(&format!("\"p{}\"", p))).count();
			let min = (fed >> i & 1 == 0 && needed.contains(p)) as usize;
			let max = (fed >> i & 1 == 0) as usize;
			if has < min || has > max {
				return Err(format!("{:?} with {:?} given: the compiled model lists {:?} ({})", t, dict.keys(), listed, R::NAME));
			}
		}
		if listed.len() > (k - fed.count_ones()) as usize + t.constraints().len() {
			return Err(format!("{:?} with {:?} given: the compiled model lists {:?} ({})", t, dict.keys(), listed, R::NAME));
		}
		ctx.states += 1;
	}
	for va in 0..(if deep { 4u32 } else { 3 }).pow(k) {
		let b = if deep { 4 } else { 3 };
		let v: Vec<i32> = (0..k).map(|i| vals[(va / (b as u32).pow(i) % b as u32) as usize]).collect();
		let val = |x: u8| number::<R>(v[ps.iter().position(|p| *p == x).unwrap()]);
		// 0: at the model, 1: in the expression, 2: both
		for split in 0..3u32.pow(k) {
			let mut first: HashMap<String, R> = HashMap::new();
			let mut second: HashMap<String, R> = HashMap::new();
			for (i, p) in ps.iter().enumerate() {
				let s = split / 3u32.pow(i as u32) % 3;
				if s != 0 {
					first.insert(format!("p{}", p), val(*p));
				}
				if s != 1 {
					second.insert(format!("p{}", p), val(*p));
				}
			}
			if (split + va) % 2 == 1 {
				first.insert("unknown".to_string(), R::int(2));
				second.insert("p".to_string(), R::int(3));
			}
			let e = if split % 3u32.pow(k) == 0 && va % 2 == 0 {
				build() // no expression stage at all
			} else {
				build().feed_dict(&first)
			};
			let o = observe_fed(e, second, R::int(STRENGTH * m)).map_err(|e| format!("{:?}: {}", t, e))?;
			compare(t, &o, &number::<R>, &val, &|_| R::int(STRENGTH), exact, ctx)
				.map_err(|e| format!("{} with {:?} = {:?}, split {}", e, ps, v, split))?;
		}
		// left out
		for (i, p) in ps.iter().enumerate() {
			let value = |a: u64, w: i32| {
				t.eval(&Env {
					q: &|x| a >> vars.iter().position(|v| *v == x).unwrap() & 1 == 1,
					p: &|x| if x == *p { number::<R>(w) } else { val(x) },
					c: &|_| R::int(STRENGTH),
					n: &number::<R>,
				})
			};
			if (0..1u64 << vars.len()).all(|a| value(a, 1) == value(a, 2) && value(a, 0) == value(a, 1)) {
				continue;
			}
			for stage in 0..2 {
				let dict: HashMap<String, R> =
					ps.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| (format!("p{}", p), val(*p))).collect();
				let r = catch_unwind(AssertUnwindSafe(|| {
					if stage == 0 {
						observe_fed(build(), dict.clone(), R::int(STRENGTH * m)).map(|o| o.m.n)
					} else {
						observe_fed(build().feed_dict(&dict), HashMap::new(), R::int(STRENGTH * m)).map(|o| o.m.n)
					}
				}));
				ctx.traces += 1;
				if let Ok(Ok(_)) = r {
					return Err(format!("{:?} was solved although P{} has no value ({})", t, p, R::NAME));
				}
			}
		}
	}
	ctx.sample(|| format!("{:?} [{}]", t, R::NAME));
	Ok(())
}

pub fn c03(thorough: bool) -> Property {
	let mut f = Vec::new();
	for ty in 0..7usize {
		let leaves = vec![P(0), B(0), P(1), S(1), N(2), N(-1)];
		let k = if ty < 2 && thorough { 4 } else { 3 };
		let trees = Trees::new(leaves, vec![0, 1, 2], k);
		f.push(family(&format!("trees of {} leaves, {}", k, TYPES[ty]), trees.upto(k), move |i, ctx| {
			let t = trees.get_upto(i);
			with_type!(ty, R, c03_case::<R>(&t, ctx, thorough))
		}).chunk(32));
	}
	// four leaves with a small alphabet
	let trees = Trees::new(vec![P(0), B(0), N(-2)], vec![0, 1, 2], 4);
	f.push(family("trees of 4 leaves, i32/f64", trees.count(4), move |i, ctx| {
		let t = trees.get(4, i);
		if i % 2 == 0 {
			c03_case::<i32>(&t, ctx, false)
		} else {
			c03_case::<f64>(&t, ctx, false)
		}
	}).chunk(64));
	// placeholders inside constraints and penalties, and in high-degree terms
	f.push(family("inside constraints and penalties", 6 * 6 * 10 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let bodies = [
			sub(B(0), P(0)),
			mul(P(0), sub(B(0), N(1))),
			pow(sub(add(B(0), S(1)), P(1)), 2),
			add(mul(P(0), B(1)), mul(P(1), B(0))),
			P(0),
			sub(mul(B(0), B(1)), mul(P(0), P(1))),
		];
		let a = d.pick(&bodies).clone();
		let b = d.pick(&bodies).clone();
		let t = match d.next(10) {
			0 => con(0, a),
			1 => pen(a, b),
			2 => add(con(0, a), con(1, b)),
			3 => add(mul(P(0), con(0, a)), b),
			4 => pen(con(0, a), b),
			5 => pen(b, con(0, a)),
			6 => add(pen(B(2), pen(a, b)), mul(P(1), B(2))),
			7 => mul(pen(B(2), a), sub(P(0), N(1))),
			8 => sub(mul(N(2), con(0, a)), con(0, b)),
			_ => add(mul(prod(vec![B(0), B(1), B(2)]), sub(P(0), P(1))), a),
		};
		match d.next(3) {
			0 => c03_case::<i32>(&t, ctx, true),
			1 => c03_case::<f64>(&t, ctx, true),
			_ => c03_case::<i64>(&t, ctx, true),
		}
	}).chunk(4));
	f.extend(crate::p_size::c03());
	Property {
		id: "C03",
		rule: "A state is one (expression, values, split of the values over the two feeding stages, assignment); a transition is one operator or leaf built through the real API; an execution is one call of the solver pipeline. For every placeholder that influences the energy, leaving it out at either stage must be refused. Non-trivial: the expression has a placeholder and a variable.",
		bounds: "trees of at most 3 leaves (thorough 4) over two placeholders, two variables and two numbers in every numeric type; 180 expressions with placeholders in constraints, penalties and cubic terms; values 0, 1/2, 1, 3/2 (floats) or 0, 1, 2, 3; all 3^k splits; up to 1025 placeholders",
		assumptions: vec!["negative placeholder values are outside the contract (the code asserts against them)".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- C04

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
}

/// A label that knows how many of it are alive.
#[derive(Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Counted(pub Box<u8>);
impl Counted {
	pub fn new(x: u8) -> Self {
		LIVE.with(|l| l.set(l.get() + 1));
		Counted(Box::new(x))
	}
}
impl Clone for Counted {
	fn clone(&self) -> Self {
		Counted::new(*self.0)
	}
}
impl Drop for Counted {
	fn drop(&mut self) {
		LIVE.with(|l| l.set(l.get() - 1));
	}
}
pub fn live() -> i64 {
	LIVE.with(|l| l.get())
}

pub type CE<R> = Expr<u8, Counted, u8, R>;

pub fn counted_by<R: Num>(t: &T, n: &dyn Fn(i32) -> R) -> CE<R> {
	t.build(&Lab {
		p: &|x| x,
		q: &Counted::new,
		c: &|x| x,
		n,
	})
}
pub fn counted<R: Num>(t: &T) -> CE<R> {
	counted_by(t, &R::int)
}

/// Every operator form of one numeric type.
pub trait Ops: Num {
	/// apply form number `op`; the second value says that the two results must
	/// be the same expression
	fn apply(op: usize, acc: CE<Self>, x: &dyn Fn() -> CE<Self>, r: Self) -> (CE<Self>, Option<CE<Self>>);
}
pub const NOPS: usize = 28;
pub const OPS: [&str; NOPS] = [
	"acc + x", "acc - x", "acc * x", "x + acc", "x - acc", "x * acc", "acc + r", "acc - r", "acc * r", "r + acc",
	"r - acc", "r * acc", "-acc", "acc ^ 0", "acc ^ 1", "acc ^ 2", "acc ^ 3", "acc += x", "acc -= x", "acc *= x",
	"acc += r", "acc -= r", "acc *= r", "acc ^= 0", "acc ^= 1", "acc ^= 2", "acc ^= 3", "acc + From(r)",
];
macro_rules! ops {
	($($t:ident)*) => {$(
		impl Ops for $t {
			fn apply(op: usize, acc: CE<$t>, e: &dyn Fn() -> CE<$t>, r: $t) -> (CE<$t>, Option<CE<$t>>) {
				let both = |f: &dyn Fn(&mut CE<$t>), plain: CE<$t>, mut acc: CE<$t>| {
					f(&mut acc);
					(acc, Some(plain))
				};
				match op {
					0 => (acc + e(), None),
					1 => (acc - e(), None),
					2 => (acc * e(), None),
					3 => (e() + acc, None),
					4 => (e() - acc, None),
					5 => (e() * acc, None),
					6 => (acc + r, None),
					7 => (acc - r, None),
					8 => (acc * r, None),
					9 => (r + acc, None),
					10 => (r - acc, None),
					11 => (r * acc, None),
					12 => (-acc, None),
					13..=16 => (acc ^ (op - 13), None),
					17 => both(&|a| *a += e(), acc.clone() + e(), acc),
					18 => both(&|a| *a -= e(), acc.clone() - e(), acc),
					19 => both(&|a| *a *= e(), acc.clone() * e(), acc),
					20 => both(&|a| *a += r, acc.clone() + r, acc),
					21 => both(&|a| *a -= r, acc.clone() - r, acc),
					22 => both(&|a| *a *= r, acc.clone() * r, acc),
					23..=26 => both(&|a| *a ^= op - 23, acc.clone() ^ (op - 23), acc),
					_ => (acc + <CE<$t>>::from(r), None),
				}
			}
		}
	)*};
}
ops!(i8 i16 i32 i64 i128 f32 f64);

pub fn shadow(op: usize, acc: T, x: &T, r: i32) -> T {
	let x = x.clone();
	match op {
		0 | 17 => add(acc, x),
		1 | 18 => sub(acc, x),
		2 | 19 => mul(acc, x),
		3 => add(x, acc),
		4 => sub(x, acc),
		5 => mul(x, acc),
		6 | 20 | 27 => add(acc, N(r)),
		7 | 21 => sub(acc, N(r)),
		8 | 22 => mul(acc, N(r)),
		9 => add(N(r), acc),
		10 => sub(N(r), acc),
		11 => mul(N(r), acc),
		12 => neg(acc),
		13..=16 => pow(acc, op - 13),
		23..=26 => pow(acc, op - 23),
		_ => unreachable!(),
	}
}

pub fn c04_operands() -> [T; 4] {
	[B(0), S(1), N(-2), sub(B(1), S(0))]
}

/// A sequence of operator forms; the expression is compared with its shadow.
pub fn c04_sequence<R: Ops>(start: &T, steps: &[(usize, T, i32)], ctx: &mut Ctx, solve: bool) -> Result<(), String> {
	c04_numbers(start, steps, ctx, solve, &R::int)
}

/// the same with the numbers standing for others
pub fn c04_numbers<R: Ops>(start: &T, steps: &[(usize, T, i32)], ctx: &mut Ctx, solve: bool, n: &dyn Fn(i32) -> R) -> Result<(), String> {
	let before = live();
	let mut t = start.clone();
	let mut acc = counted_by::<R>(start, n);
	for (op, x, r) in steps {
		let t2 = shadow(*op, t.clone(), x, *r);
		if t2.degree() > 4 {
			return Ok(());
		}
		let (a, plain) = R::apply(*op, acc, &|| counted_by::<R>(x, n), n(*r));
		if let Some(p) = plain {
			if p != a {
				return Err(format!("{} with acc = {:?}, x = {:?}, r = {}: {:?} but the plain operator gives {:?} ({})", OPS[*op], t, x, r, a, p, R::NAME));
			}
		}
		acc = a;
		t = t2;
		ctx.transitions += 1;
	}
	let copy = acc.clone();
	if copy != acc {
		return Err(format!("{:?}: a clone differs", t));
	}
	drop(copy);
	if solve {
		let e: Expr<(), u8, (), R> = relabel(&acc);
		let o = observe_expr(e, R::int(1)).map_err(|e| format!("{:?}: {}", t, e))?;
		compare(&t, &o, n, &|_| R::int(0), &|_| R::int(0), t.degree() <= 2, ctx).map_err(|e| {
			let s: Vec<String> = steps.iter().map(|(op, x, r)| format!("[{}] x = {:?}, r = {}", OPS[*op], x, r)).collect();
			format!("{} after {}", e, s.join("; "))
		})?;
	} else {
		ctx.states += 1;
		ctx.nontrivial += 1;
		ctx.traces += 1;
	}
	drop(acc);
	if live() != before {
		return Err(format!("{} labels too {} are alive after {:?} is dropped ({})", (live() - before).abs(), if live() > before { "many" } else { "few" }, t, R::NAME));
	}
	ctx.sample(|| format!("{:?} [{}]", t, R::NAME));
	Ok(())
}

/// an own copy of the structure with plain labels
pub fn relabel<R: Num, Tp2: rustqubo::TpType, Tc2: rustqubo::TcType + Default>(e: &CE<R>) -> Expr<Tp2, u8, Tc2, R> {
	let b = |e: &CE<R>| Box::new(relabel(e));
	match e {
		Expr::Placeholder(_) => unreachable!(),
		Expr::Add(x, y) => Expr::Add(b(x), b(y)),
		Expr::Mul(x, y) => Expr::Mul(b(x), b(y)),
		Expr::Number(n) => Expr::Number(*n),
		Expr::Binary(x) => Expr::Binary(*x.0),
		Expr::Spin(x) => Expr::Spin(*x.0),
		Expr::Constraint { expr, .. } => Expr::Constraint {
			label: Tc2::default(),
			expr: b(expr),
		},
		Expr::WithPenalty { expr, penalty } => Expr::WithPenalty {
			expr: b(expr),
			penalty: b(penalty),
		},
	}
}

pub fn c04_steps(d: &mut Digits, n: usize) -> Vec<(usize, T, i32)> {
	let xs = c04_operands();
	(0..n).map(|_| (d.next(NOPS), d.pick(&xs).clone(), [0, 1, -1, 2, 3][d.next(5)])).collect()
}

/// Numbers that need every bit of the type, and a bound on what sums and products
/// of them may reach.
fn wide<R: Num>(k: i32) -> R {
	let m: i128 = match R::NAME {
		"i8" => 5,
		"i16" => 101,
		"i32" => (1 << 15) + 3,
		"i64" => (1 << 31) - 3,
		"i128" => (1 << 62) + 5,
		"f32" => (1 << 12) - 1,
		_ => (1 << 26) - 1,
	};
	R::big([0, m, -m, m * m / 2 + 1, m - 2, 3][k as usize])
}
fn wide_norm<R: Num>(t: &T) -> f64 {
	let a = |t: &T| wide_norm::<R>(t);
	match t {
		N(k) => wide::<R>(*k).f().abs().max(1.0),
		B(_) => 1.0,
		S(_) => 3.0,
		Add(x, y) | Sub(x, y) => a(x) + a(y),
		Mul(x, y) => a(x) * a(y),
		Neg(x) => a(x),
		Pow(x, n) => a(x).powi(*n as i32),
		_ => unreachable!(),
	}
}
fn wide_max<R: Num>() -> f64 {
	match R::NAME {
		"f32" => (1 << 24) as f64,
		"f64" => (1u64 << 53) as f64,
		_ => R::MAX.f() / 2.0,
	}
}

pub fn c04(thorough: bool) -> Property {
	let mut f = Vec::new();
	for ty in 0..7usize {
		f.push(family(&format!("single forms, {}", TYPES[ty]), NOPS as u64 * 4 * 5 * 9, move |i, ctx| {
			let mut d = Digits(i);
			let steps = c04_steps(&mut d, 1);
			let start =
				[B(0), S(0), N(0), N(3), add(B(0), S(1)), mul(N(2), B(1)), neg(S(1)), add(B(0), N(2)), sub(N(3), mul(S(0), N(-1)))];
			let start = d.pick(&start).clone();
			with_type!(ty, R, c04_sequence::<R>(&start, &steps, ctx, true))
		}).chunk(128));
	}
	// sequences of two forms: every pair, every operand; of three: fewer operands
	for ty in 0..7usize {
		let n = NOPS as u64;
		f.push(family(&format!("sequences of 2 forms, {}", TYPES[ty]), n * n * 3 * 3 * 16, move |i, ctx| {
			let mut d = Digits(i);
			let xs = [B(0), S(1), N(-2)];
			let steps: Vec<(usize, T, i32)> =
				(0..2).map(|_| (d.next(NOPS), d.pick(&xs).clone(), [-1, 2, 0, 3][d.next(4)])).collect();
			with_type!(ty, R, c04_sequence::<R>(&B(0), &steps, ctx, true))
		}).chunk(512));
	}
	let n = if thorough { 4 } else { 3 };
	f.push(family(&format!("sequences of {} forms, f64/i32", n), (NOPS as u64).pow(n) * 16, move |i, ctx| {
		let mut d = Digits(i);
		let v = d.next(8) as u64;
		let fl = d.next(2);
		let xs = [B(0), S(1)];
		let steps: Vec<(usize, T, i32)> = (0..n)
			.map(|k| (d.next(NOPS), xs[(v >> (k % 3) & 1) as usize].clone(), [2, -1, 3][((v + k as u64) % 3) as usize]))
			.collect();
		if fl == 0 {
			c04_sequence::<f64>(&S(1), &steps, ctx, true)
		} else {
			c04_sequence::<i32>(&B(0), &steps, ctx, true)
		}
	}).chunk(1024));
	// numbers of all magnitudes: nothing may go through a narrower type
	for ty in 0..7usize {
		let n = NOPS as u64;
		f.push(family(&format!("wide numbers, {}", TYPES[ty]), n * n * 36 * 5 * 3, move |i, ctx| {
			let mut d = Digits(i);
			let ops = [d.next(NOPS), d.next(NOPS)];
			let r = [d.next(6) as i32, d.next(6) as i32];
			let start = [N(1), N(3), mul(N(1), B(0)), add(B(0), N(4)), sub(N(2), S(0))];
			let start = d.pick(&start).clone();
			let xs = [N(1), mul(B(0), N(2)), B(0)];
			let x = d.pick(&xs).clone();
			let steps: Vec<(usize, T, i32)> = (0..2).map(|k| (ops[k], x.clone(), r[k])).collect();
			let t = steps.iter().fold(start.clone(), |t, (op, x, r)| shadow(*op, t, x, *r));
			fn go<R: Ops>(t: &T, start: &T, steps: &[(usize, T, i32)], ctx: &mut Ctx) -> Result<(), String> {
				if t.degree() > 2 || wide_norm::<R>(t) > wide_max::<R>() {
					return Ok(());
				}
				c04_numbers::<R>(start, steps, ctx, true, &wide::<R>)
			}
			with_type!(ty, R, go::<R>(&t, &start, &steps, ctx))
		}).chunk(2048));
	}
	f.push(family("powers of numbers and variables", 7 * 82 * 9, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(7);
		let n = d.next(82);
		let n = if n < 70 { n } else { [99, 100, 101, 127, 128, 129, 255, 256, 257, 513, 600, 1001][n - 70] };
		let which = d.next(9);
		fn go<R: Num>(n: usize, which: usize, ctx: &mut Ctx) -> Result<(), String> {
			let base = [2, -2, 3, -3, 5, 7, -1, 0, 1][which];
			if (base as f64).abs().powi(n as i32) > wide_max::<R>() {
				return Ok(());
			}
			let t = add(pow(N(base), n), B(0));
			let e: Expr<(), u8, (), R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|_| (), n: &R::int });
			let o = observe_expr(e, R::int(1))?;
			compare(&t, &o, &R::int, &|_| R::int(0), &|_| R::int(0), true, ctx)?;
			if base == 0 {
				// powers of a spin do not grow
				let e: Expr<(), u8, (), R> = S(0).build(&Lab { p: &|_| (), q: &|x| x, c: &|_| (), n: &R::int }) ^ n;
				let o = observe_expr(e, R::int(1))?;
				compare(&pow(S(0), n), &o, &R::int, &|_| R::int(0), &|_| R::int(0), false, ctx)?;
			}
			if base.abs() == 1 {
				// powers of a variable, and of a negated one
				let x = if base == 1 { B(0) } else { neg(S(0)) };
				let e: Expr<(), u8, (), R> = x.build(&Lab { p: &|_| (), q: &|x| x, c: &|_| (), n: &R::int }) ^ n;
				if n > 6 && base == -1 && R::NAME == "i8" || n > 12 && base == -1 {
					return Ok(()); // 3^n overflows
				}
				let o = observe_expr(e, R::int(1))?;
				compare(&pow(x, n), &o, &R::int, &|_| R::int(0), &|_| R::int(0), false, ctx)?;
			}
			Ok(())
		}
		with_type!(ty, R, go::<R>(n, which, ctx))
	}).chunk(64));
	f.push(family("powers 0 to 6, neutral elements", 7 * 7 * 6, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(7);
		let n = d.next(7);
		let which = d.next(6);
		fn go<R: Num>(n: usize, which: usize, ctx: &mut Ctx) -> Result<(), String> {
			let base = [B(0), S(0), N(2), sub(B(0), N(1)), sub(N(0), S(1)), N(0)][which].clone();
			if n == 6 && R::NAME == "i8" && which < 2 {
				return Ok(());
			}
			let t = add(pow(base.clone(), n), N(1));
			let e: Expr<(), u8, (), R> = (base.build(&Lab { p: &|_| (), q: &|x| x, c: &|_| (), n: &R::int }) ^ n) + Expr::one() + Expr::zero();
			let o = observe_expr(e, R::int(1))?;
			compare(&t, &o, &R::int, &|_| R::int(0), &|_| R::int(0), false, ctx)?;
			ctx.nontrivial += 1;
			Ok(())
		}
		with_type!(ty, R, go::<R>(n, which, ctx))
	}).chunk(16));
	f.extend(crate::p_size::c04());
	Property {
		id: "C04",
		rule: "A state is one (sequence of operator forms, assignment) at which the compiled result is compared with arithmetic; a transition is one operator form applied to a live expression; an execution is one call of the solver pipeline. Compound forms are also compared structurally with the plain operator, and the labels alive are counted. Non-trivial: the result depends on a variable.",
		bounds: "all 28 forms on 9 start expressions, 4 operands and 5 numbers in 7 types; all pairs of forms in 7 types; all pairs of forms with numbers that need every bit of the type; all sequences of 3 (thorough 4) forms in two types; results of degree at most 4; exponents to 69 and some to 1001; chains of up to 600 operators",
		assumptions: vec![],
		families: f,
	}
}

// ---------------------------------------------------------------- C05

fn c05_case<R: Num>(t: &T, ctx: &mut Ctx) -> Result<(), String> {
	let m = t.constraints().len() as i32;
	if m == 3 && !R::FLOAT {
		return Ok(());
	}
	let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &number::<R> });
	for k in [STRENGTH, 1] {
		let max = match R::NAME {
			"i8" => 127.0,
			"i16" => 32767.0,
			_ => f64::MAX,
		};
		if t.norm((k * m.max(1)) as f64) > max {
			ctx.note("skipped: might overflow the type");
			continue;
		}
		let o = observe_expr(e.clone(), R::int(k * m.max(1))).map_err(|e| format!("{:?}: {}", t, e))?;
		compare(t, &o, &number::<R>, &|_| R::int(0), &|_| R::int(k), t.degree() <= 2, ctx)
			.map_err(|e| format!("{} (strength {})", e, k))?;
	}
	ctx.sample(|| format!("{:?} [{}]", t, R::NAME));
	Ok(())
}

pub fn c05(thorough: bool) -> Property {
	fn atoms() -> Vec<T> {
		let b1 = sub(add(B(0), B(1)), N(1));
		let b2 = pow(sub(B(0), B(2)), 2);
		let b3 = sub(S(1), B(0));
		vec![
			B(0),
			N(-2),
			con(0, b1.clone()),
			con(1, b3.clone()),
			con(0, b2.clone()),
			pen(B(1), b2.clone()),
			pen(N(3), sub(N(2), S(0))),
			pen(con(1, b1.clone()), b3.clone()),
			pen(sub(B(2), B(0)), con(0, b3.clone())),
			pen(pen(B(1), B(0)), mul(N(-1), B(2))),
			pen(B(0), pen(B(1), con(1, b2))),
			neg(pen(con(0, B(1)), con(1, B(0)))),
			con(2, B(2)),
			S(1),
			mul(N(3), con(1, mul(B(0), S(1)))),
		]
	}
	let a = atoms().len() as u64;
	let mut f = Vec::new();
	for ty in 0..7usize {
		f.push(family(&format!("pairs of terms, {}", TYPES[ty]), a * a * 6, move |i, ctx| {
			let at = atoms();
			let mut d = Digits(i);
			let x = d.pick(&at).clone();
			let y = d.pick(&at).clone();
			let t = match d.next(6) {
				0 => add(x, y),
				1 => sub(x, y),
				2 => mul(x, y),
				3 => pen(x, y),
				4 => sub(N(1), mul(N(2), pen(y, mul(N(-1), x)))),
				_ => neg(add(mul(x, N(2)), y)),
			};
			with_type!(ty, R, c05_case::<R>(&t, ctx))
		}).chunk(32));
	}
	f.push(family("triples of terms, f64/i32", a * a * a * 16, move |i, ctx| {
		let at = atoms();
		let mut d = Digits(i);
		let (x, y, z) = (d.pick(&at).clone(), d.pick(&at).clone(), d.pick(&at).clone());
		let mut op = |a, b| match d.next(4) {
			0 => add(a, b),
			1 => sub(a, b),
			2 => mul(a, b),
			_ => pen(a, b),
		};
		let t = if i % 3 == 0 {
			let l = op(x, y);
			op(l, z)
		} else {
			let r = op(y, z);
			op(x, r)
		};
		if t.degree() > 4 {
			return Ok(());
		}
		if i % 2 == 0 {
			c05_case::<f64>(&t, ctx)
		} else {
			c05_case::<i32>(&t, ctx)
		}
	}).chunk(128));
	// all bodies and penalties from the tree grammar
	let k = if thorough { 4 } else { 3 };
	let trees = Trees::new(vec![B(0), S(1), N(-2), N(1)], vec![0, 1, 2], k);
	f.push(family("all small bodies and penalties", trees.upto(k) * 5, move |i, ctx| {
		let t = trees.get_upto(i / 5);
		let t = match i % 5 {
			0 => con(3, t),
			1 => pen(B(0), t),
			2 => sub(S(0), mul(con(0, t), N(2))),
			3 => mul(N(-1), pen(t.clone(), t)),
			_ => add(con(0, t.clone()), pen(mul(B(1), N(3)), con(1, t))),
		};
		if t.degree() > 4 {
			return Ok(());
		}
		match (i / 5) % 3 {
			0 => c05_case::<i64>(&t, ctx),
			1 => c05_case::<f64>(&t, ctx),
			_ => c05_case::<i32>(&t, ctx),
		}
	}).chunk(128));
	f.extend(crate::p_size::c05());
	Property {
		id: "C05",
		rule: "A state is one (expression, strength, assignment) at which the energy is compared with the two-component reference semantics (value with constraints times their strength; sum of the penalties); a transition is one operator or leaf built through the real API; an execution is one call of the solver pipeline. Non-trivial: the expression has a variable.",
		bounds: "all pairs (7 types) and triples (2 types) of 15 terms holding constraints and penalties nested up to three deep under +, -, *, WithPenalty; all bodies and penalties of at most 3 (thorough 4) leaves; two strengths; up to 1025 constraints or penalties, also nested",
		assumptions: vec!["a constraint or penalty inside the body of a constraint is refused by the code with an explicit panic and is outside the property".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- C06

type E = Expr<u8, u8, u8, i32>;

/// all shapes of a given number of nodes, leaves numbered from left to right
struct Shapes {
	counts: Vec<u64>,
}
impl Shapes {
	fn new(max: usize) -> Self {
		let mut c = vec![0, 4];
		for n in 2..=max {
			let mut s = c[n - 1];
			for l in 1..n - 1 {
				s += 3 * c[l] * c[n - 1 - l];
			}
			c.push(s);
		}
		Shapes { counts: c }
	}
	fn get(&self, n: usize, mut i: u64, next: &mut u8) -> E {
		if n == 1 {
			*next += 1;
			let k = *next;
			return match i {
				0 => Expr::Binary(k),
				1 => Expr::Number(k as i32),
				2 => Expr::Spin(k),
				_ => Expr::Placeholder(k),
			};
		}
		if i < self.counts[n - 1] {
			return Expr::Constraint {
				label: n as u8,
				expr: Box::new(self.get(n - 1, i, next)),
			};
		}
		i -= self.counts[n - 1];
		for l in 1..n - 1 {
			let c = 3 * self.counts[l] * self.counts[n - 1 - l];
			if i < c {
				let op = i % 3;
				i /= 3;
				let a = Box::new(self.get(l, i % self.counts[l], next));
				let b = Box::new(self.get(n - 1 - l, i / self.counts[l], next));
				return match op {
					0 => Expr::Add(a, b),
					1 => Expr::Mul(a, b),
					_ => Expr::WithPenalty { expr: a, penalty: b },
				};
			}
			i -= c;
		}
		unreachable!()
	}
}

fn kids(e: &E) -> Vec<&E> {
	match e {
		Expr::Add(a, b) | Expr::Mul(a, b) => vec![a, b],
		Expr::WithPenalty { expr, penalty } => vec![expr, penalty],
		Expr::Constraint { expr, .. } => vec![expr],
		_ => vec![],
	}
}

fn with_kids(e: &E, mut k: Vec<E>) -> E {
	let mut pop = || Box::new(k.remove(0));
	match e {
		Expr::Add(..) => Expr::Add(pop(), pop()),
		Expr::Mul(..) => Expr::Mul(pop(), pop()),
		Expr::WithPenalty { .. } => Expr::WithPenalty { expr: pop(), penalty: pop() },
		Expr::Constraint { label, .. } => Expr::Constraint { label: *label, expr: pop() },
		o => o.clone(),
	}
}

fn all<'a>(e: &'a E, out: &mut Vec<&'a E>) {
	out.push(e);
	for k in kids(e) {
		all(k, out);
	}
}

fn key(e: &E) -> String {
	format!("{:?}", e)
}

/// rebuild with node number `at` (pre-order) replaced by g(node) and its children
/// untouched
fn replace(e: &E, at: &mut usize, g: &dyn Fn(&E) -> E) -> E {
	if *at == 0 {
		*at = usize::MAX;
		return g(e);
	}
	*at = at.wrapping_sub(1);
	let k = kids(e).into_iter().map(|c| replace(c, at, g)).collect();
	with_kids(e, k)
}

fn c06_case(e: &E, ctx: &mut Ctx) -> Result<(), String> {
	let mut nodes = Vec::new();
	all(e, &mut nodes);
	let n = nodes.len();
	// parents of every node, by its unique rendering
	let mut parent: BTreeMap<String, Option<String>> = BTreeMap::new();
	parent.insert(key(e), None);
	for p in &nodes {
		for c in kids(p) {
			parent.insert(key(c), Some(key(p)));
		}
	}
	assert_eq!(parent.len(), n);
	let visits = |seq: &[String], expected: &BTreeMap<String, Option<String>>| -> Result<(), String> {
		let mut seen = BTreeMap::new();
		for (i, k) in seq.iter().enumerate() {
			if seen.insert(k.clone(), i).is_some() {
				return Err(format!("{} was visited twice in {:?}", k, e));
			}
		}
		for (k, p) in expected {
			let Some(i) = seen.get(k) else {
				return Err(format!("{} was not visited in {:?}", k, e));
			};
			if let Some(p) = p {
				if seen.get(p).map_or(true, |j| j >= i) {
					return Err(format!("{} was visited before its parent in {:?}", k, e));
				}
			}
		}
		if seen.len() != expected.len() {
			return Err(format!("something that is no node was visited in {:?}", e));
		}
		Ok(())
	};
	// identity
	let mut seq = Vec::new();
	let r = e.clone().map(&mut |x| {
		seq.push(key(&x));
		x
	});
	ctx.transitions += seq.len() as u64;
	ctx.states += n as u64;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	if r != *e {
		return Err(format!("mapping the identity over {:?} gives {:?}", e, r));
	}
	visits(&seq, &parent)?;
	for at in 0..n {
		let target = nodes[at].clone();
		let tk = key(&target);
		let replacements: Vec<E> = vec![Expr::Number(-77), Expr::Binary(200)];
		for rep in replacements {
			let mut seq = Vec::new();
			let r = e.clone().map(&mut |x| {
				seq.push(key(&x));
				if x == target {
					rep.clone()
				} else {
					x
				}
			});
			let want = replace(e, &mut at.clone(), &|_| rep.clone());
			ctx.transitions += seq.len() as u64;
			ctx.traces += 1;
			if r != want {
				return Err(format!("replacing {} by {:?} in {:?} gives {:?}, not {:?}", tk, rep, e, r, want));
			}
			// everything but what is below the replaced node
			let mut below = Vec::new();
			all(nodes[at], &mut below);
			let below: Vec<String> = below.iter().skip(1).map(|x| key(x)).collect();
			let exp: BTreeMap<String, Option<String>> =
				parent.iter().filter(|(k, _)| !below.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
			visits(&seq, &exp)?;
		}
		// another operator over the same children, which are still visited
		if !kids(&target).is_empty() {
			let turn = |x: &E| -> E {
				match x {
					Expr::Add(a, b) => Expr::Mul(a.clone(), b.clone()),
					Expr::Mul(a, b) => Expr::WithPenalty { expr: a.clone(), penalty: b.clone() },
					Expr::WithPenalty { expr, penalty } => Expr::Add(expr.clone(), penalty.clone()),
					Expr::Constraint { label, expr } => Expr::Constraint { label: label + 100, expr: expr.clone() },
					o => o.clone(),
				}
			};
			let mut seq = Vec::new();
			let r = e.clone().map(&mut |x| {
				seq.push(key(&x));
				if x == target {
					turn(&x)
				} else {
					x
				}
			});
			ctx.transitions += seq.len() as u64;
			ctx.traces += 1;
			let want = replace(e, &mut at.clone(), &turn);
			if r != want {
				return Err(format!("turning {} in {:?} gives {:?}, not {:?}", tk, e, r, want));
			}
			visits(&seq, &parent)?;
		}
	}
	// every leaf at once
	let r = e.clone().map(&mut |x| match x {
		Expr::Binary(k) => Expr::Spin(k + 100),
		Expr::Spin(k) => Expr::Binary(k + 100),
		Expr::Number(k) => Expr::Number(-k),
		Expr::Placeholder(k) => Expr::Placeholder(k + 100),
		o => o,
	});
	fn leaves(e: &E) -> E {
		match e {
			Expr::Binary(k) => Expr::Spin(k + 100),
			Expr::Spin(k) => Expr::Binary(k + 100),
			Expr::Number(k) => Expr::Number(-k),
			Expr::Placeholder(k) => Expr::Placeholder(k + 100),
			o => with_kids(o, kids(o).into_iter().map(leaves).collect()),
		}
	}
	ctx.traces += 1;
	let want = leaves(e);
	if r != want {
		return Err(format!("renaming the leaves of {:?} gives {:?}, not {:?}", e, r, want));
	}
	ctx.outcome_of(&key(e).len());
	ctx.sample(|| format!("{:?}", e));
	Ok(())
}

/// The function numbers its calls; leaves that look the same get different numbers.
fn c06_equal(e: &E, ctx: &mut Ctx) -> Result<(), String> {
	fn level(e: &E) -> E {
		match e {
			Expr::Constraint { expr, .. } => Expr::Constraint { label: 0, expr: Box::new(level(expr)) },
			Expr::Binary(_) | Expr::Spin(_) => Expr::Binary(0),
			Expr::Number(_) => Expr::Number(0),
			Expr::Placeholder(_) => Expr::Placeholder(0),
			o => with_kids(o, kids(o).into_iter().map(level).collect()),
		}
	}
	let e = level(e);
	let mut nodes = Vec::new();
	all(&e, &mut nodes);
	let mut n = 0u8;
	let r = e.clone().map(&mut |x| {
		n += 1;
		match x {
			Expr::Binary(0) => Expr::Binary(n),
			Expr::Number(0) => Expr::Number(n as i32),
			Expr::Placeholder(0) => Expr::Placeholder(n),
			Expr::Constraint { label: 0, expr } => Expr::Constraint { label: n, expr },
			o => o,
		}
	});
	ctx.transitions += n as u64;
	ctx.states += nodes.len() as u64;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	if level(&r) != e {
		return Err(format!("numbering the nodes of {:?} gives {:?}", e, r));
	}
	// the numbers are different, from 1 to the number of nodes, and grow downwards
	fn numbers(e: &E, above: u8, out: &mut Vec<u8>) -> bool {
		let k = match e {
			Expr::Binary(k) | Expr::Placeholder(k) => *k,
			Expr::Number(k) => *k as u8,
			Expr::Constraint { label, .. } => *label,
			_ => 0,
		};
		if k != 0 {
			out.push(k);
			if k <= above {
				return false;
			}
		}
		kids(e).into_iter().all(|c| numbers(c, above.max(k), out))
	}
	let mut v = Vec::new();
	if !numbers(&r, 0, &mut v) {
		return Err(format!("a node of {:?} was visited before its parent: {:?}", e, r));
	}
	v.sort();
	v.dedup();
	let named = nodes.iter().filter(|x| kids(x).is_empty() || matches!(x, Expr::Constraint { .. })).count();
	if n as usize != nodes.len() || v.len() != named || v.last().map_or(false, |k| *k as usize > nodes.len()) {
		return Err(format!("the {} nodes of {:?} were visited {} times and numbered {:?}", nodes.len(), e, n, v));
	}
	Ok(())
}

pub fn c06(thorough: bool) -> Property {
	let mut f = Vec::new();
	for n in 1..=if thorough { 7 } else { 6 } {
		let s = Shapes::new(n);
		f.push(family(&format!("all expressions of {} nodes", n), s.counts[n], move |i, ctx| {
			c06_case(&s.get(n, i, &mut 0), ctx)
		}).chunk(64));
	}
	// equal subexpressions are different nodes
	for n in 2..=if thorough { 8 } else { 7 } {
		let s = Shapes::new(n);
		f.push(family(&format!("expressions of {} nodes, equal leaves", n), s.counts[n], move |i, ctx| {
			c06_equal(&s.get(n, i, &mut 0), ctx)
		}).chunk(256));
	}
	let trees = Trees::new(vec![B(0), S(0), S(1), N(2)], vec![0, 1, 2], 4);
	f.push(family("fixing a variable, f64/i32", trees.upto(4) * 4, move |i, ctx| {
		let t = trees.get_upto(i / 4);
		if t.degree() > 3 {
			return Ok(());
		}
		let t = if i % 7 == 0 { add(con(0, t), pen(B(0), S(1))) } else { t };
		let v = i & 1 == 1;
		fn go<R: Num>(t: &T, v: bool, ctx: &mut Ctx) -> Result<(), String> {
			let fix = |x: &T| -> Option<T> {
				match x {
					B(0) => Some(N(v as i32)),
					S(0) => Some(N(if v { 1 } else { -1 })),
					_ => None,
				}
			};
			let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
			let e = e.map(&mut |x| match x {
				Expr::Binary(0) => Expr::Number(R::int(v as i32)),
				Expr::Spin(0) => Expr::Number(R::int(if v { 1 } else { -1 })),
				o => o,
			});
			fn sub_t(t: &T, f: &dyn Fn(&T) -> Option<T>) -> T {
				if let Some(x) = f(t) {
					return x;
				}
				match t {
					Add(a, b) => add(sub_t(a, f), sub_t(b, f)),
					Sub(a, b) => sub(sub_t(a, f), sub_t(b, f)),
					Mul(a, b) => mul(sub_t(a, f), sub_t(b, f)),
					W(a, b) => pen(sub_t(a, f), sub_t(b, f)),
					C(l, a) => con(*l, sub_t(a, f)),
					o => o.clone(),
				}
			}
			let want = sub_t(t, &fix);
			let o = observe_expr(e, R::int(STRENGTH))?;
			compare(&want, &o, &R::int, &|_| R::int(0), &|_| R::int(STRENGTH), want.degree() <= 2, ctx)
		}
		if i & 2 == 0 {
			go::<f64>(&t, v, ctx)
		} else {
			go::<i32>(&t, v, ctx)
		}
	}).chunk(512));
	f.extend(crate::p_size::c06());
	Property {
		id: "C06",
		rule: "A state is one node of one expression; a transition is one call of the mapped function; an execution is one traversal (identity, every single-node replacement by two leaves, every single-node change of operator, renaming of all leaves), compared with an own reconstruction. The order among siblings is left open. Non-trivial: every expression.",
		bounds: "all expressions of at most 6 (thorough 7) nodes over all eight node kinds, leaves distinct, and of at most 7 (8) with leaves alike; trees of at most 4 leaves for fixing a variable; trees of up to 1000 nodes of six shapes",
		assumptions: vec!["whether nodes newly introduced by the function are visited is left open: replacements are leaves, or keep the children".to_string()],
		families: f,
	}
}

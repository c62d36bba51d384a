//! Reference syntax and semantics of expressions.
use crate::num::Num;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;

#[derive(Clone, PartialEq)]
pub enum T {
	N(i32),
	B(u8),
	S(u8),
	P(u8),
	Add(Box<T>, Box<T>),
	Sub(Box<T>, Box<T>),
	Mul(Box<T>, Box<T>),
	Neg(Box<T>),
	Pow(Box<T>, usize),
	C(u8, Box<T>),
	W(Box<T>, Box<T>),
}
use T::*;

impl fmt::Debug for T {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			N(n) => write!(f, "{}", n),
			B(x) => write!(f, "x{}", x),
			S(x) => write!(f, "s{}", x),
			P(x) => write!(f, "P{}", x),
			Add(a, b) => write!(f, "({:?} + {:?})", a, b),
			Sub(a, b) => write!(f, "({:?} - {:?})", a, b),
			Mul(a, b) => write!(f, "{:?}*{:?}", a, b),
			Neg(a) => write!(f, "-{:?}", a),
			Pow(a, n) => write!(f, "({:?})^{}", a, n),
			C(l, a) => write!(f, "Constraint{}[{:?}]", l, a),
			W(a, b) => write!(f, "WithPenalty[{:?}; {:?}]", a, b),
		}
	}
}

pub fn add(a: T, b: T) -> T {
	Add(Box::new(a), Box::new(b))
}
pub fn sub(a: T, b: T) -> T {
	Sub(Box::new(a), Box::new(b))
}
pub fn mul(a: T, b: T) -> T {
	Mul(Box::new(a), Box::new(b))
}
pub fn neg(a: T) -> T {
	Neg(Box::new(a))
}
pub fn pow(a: T, n: usize) -> T {
	Pow(Box::new(a), n)
}
pub fn con(l: u8, a: T) -> T {
	C(l, Box::new(a))
}
pub fn pen(a: T, b: T) -> T {
	W(Box::new(a), Box::new(b))
}
pub fn sum(v: Vec<T>) -> T {
	let mut it = v.into_iter();
	match it.next() {
		None => N(0),
		Some(x) => it.fold(x, add),
	}
}
pub fn prod(v: Vec<T>) -> T {
	let mut it = v.into_iter();
	match it.next() {
		None => N(1),
		Some(x) => it.fold(x, mul),
	}
}

/// How the abstract labels and numbers become concrete.
pub struct Lab<'a, Tp, Tq, Tc, R> {
	pub p: &'a dyn Fn(u8) -> Tp,
	pub q: &'a dyn Fn(u8) -> Tq,
	pub c: &'a dyn Fn(u8) -> Tc,
	pub n: &'a dyn Fn(i32) -> R,
}

impl T {
	pub fn build<Tp, Tq, Tc, R>(&self, l: &Lab<Tp, Tq, Tc, R>) -> Expr<Tp, Tq, Tc, R>
	where
		Tp: rustqubo::TpType,
		Tq: rustqubo::TqType,
		Tc: rustqubo::TcType,
		R: Num,
	{
		match self {
			N(k) => Expr::Number((l.n)(*k)),
			B(x) => Expr::Binary((l.q)(*x)),
			S(x) => Expr::Spin((l.q)(*x)),
			P(x) => Expr::Placeholder((l.p)(*x)),
			Add(a, b) => a.build(l) + b.build(l),
			Sub(a, b) => a.build(l) - b.build(l),
			Mul(a, b) => a.build(l) * b.build(l),
			Neg(a) => -a.build(l),
			Pow(a, n) => a.build(l) ^ *n,
			C(c, a) => Expr::Constraint {
				label: (l.c)(*c),
				expr: Box::new(a.build(l)),
			},
			W(a, b) => Expr::WithPenalty {
				expr: Box::new(a.build(l)),
				penalty: Box::new(b.build(l)),
			},
		}
	}

	/// Labels u8 -> (u8, u8, u8), numbers as they are.
	pub fn e<R: Num>(&self) -> Expr<u8, u8, u8, R> {
		self.build(&Lab {
			p: &|x| x,
			q: &|x| x,
			c: &|x| x,
			n: &R::int,
		})
	}

	/// (value, sum of penalties) at an assignment
	pub fn eval2<R: Num>(&self, env: &Env<R>) -> (R, R) {
		let z = R::int(0);
		match self {
			N(k) => ((env.n)(*k), z),
			B(x) => (R::int((env.q)(*x) as i32), z),
			S(x) => (R::int(if (env.q)(*x) { 1 } else { -1 }), z),
			P(x) => ((env.p)(*x), z),
			Add(a, b) => {
				let ((a, p), (b, q)) = (a.eval2(env), b.eval2(env));
				(a + b, p + q)
			}
			Sub(a, b) => {
				let ((a, p), (b, q)) = (a.eval2(env), b.eval2(env));
				(a - b, p + q)
			}
			Mul(a, b) => {
				let ((a, p), (b, q)) = (a.eval2(env), b.eval2(env));
				(a * b, p + q)
			}
			Neg(a) => {
				let (a, p) = a.eval2(env);
				(z - a, p)
			}
			Pow(_, 0) => (R::int(1), z),
			Pow(a, n) => {
				// penalties below a power are not generated
				let (a, _) = a.eval2(env);
				let mut r = R::int(1);
				for _ in 0..*n {
					r = r * a;
				}
				(r, z)
			}
			C(l, a) => {
				let (a, p) = a.eval2(env);
				((env.c)(*l) * a, p)
			}
			W(a, b) => {
				let ((a, p), (b, q)) = (a.eval2(env), b.eval2(env));
				(a, p + b + q)
			}
		}
	}

	pub fn eval<R: Num>(&self, env: &Env<R>) -> R {
		let (a, b) = self.eval2(env);
		a + b
	}

	pub fn children(&self) -> Vec<&T> {
		match self {
			// x^0 is 1: nothing of x is left
			N(_) | B(_) | S(_) | P(_) | Pow(_, 0) => vec![],
			Add(a, b) | Sub(a, b) | Mul(a, b) | W(a, b) => vec![a, b],
			Neg(a) | Pow(a, _) | C(_, a) => vec![a],
		}
	}

	pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a T)) {
		f(self);
		for c in self.children() {
			c.visit(f);
		}
	}

	pub fn vars(&self) -> BTreeSet<u8> {
		let mut s = BTreeSet::new();
		self.visit(&mut |t| {
			if let B(x) | S(x) = t {
				s.insert(*x);
			}
		});
		s
	}

	pub fn placeholders(&self) -> BTreeSet<u8> {
		let mut s = BTreeSet::new();
		self.visit(&mut |t| {
			if let P(x) = t {
				s.insert(*x);
			}
		});
		s
	}

	/// label -> bodies
	pub fn constraints(&self) -> BTreeMap<u8, Vec<&T>> {
		let mut s: BTreeMap<u8, Vec<&T>> = BTreeMap::new();
		self.visit(&mut |t| {
			if let C(l, b) = t {
				s.entry(*l).or_default().push(b);
			}
		});
		s
	}

	pub fn size(&self) -> usize {
		let mut n = 0;
		self.visit(&mut |_| n += 1);
		n
	}

	/// Degree as written (x*x counts two, the value of the penalty separately).
	pub fn degree(&self) -> usize {
		self.degree2().0.max(self.degree2().1)
	}

	fn degree2(&self) -> (usize, usize) {
		match self {
			N(_) | P(_) => (0, 0),
			B(_) | S(_) => (1, 0),
			Add(a, b) | Sub(a, b) => {
				let (a, b) = (a.degree2(), b.degree2());
				(a.0.max(b.0), a.1.max(b.1))
			}
			Mul(a, b) => {
				let (a, b) = (a.degree2(), b.degree2());
				(a.0 + b.0, a.1.max(b.1))
			}
			Neg(a) | C(_, a) => a.degree2(),
			Pow(a, n) => {
				let a = a.degree2();
				(a.0 * n, a.1)
			}
			W(a, b) => {
				let (a, b) = (a.degree2(), b.degree2());
				(a.0, a.1.max(b.0).max(b.1))
			}
		}
	}

	/// Bound on the sum of the absolute coefficients after expansion, with
	/// constraints of strength c; what reduction adds is estimated per degree.
	pub fn norm(&self, c: f64) -> f64 {
		fn go(t: &T, c: f64) -> (f64, f64) {
			match t {
				N(k) => (k.unsigned_abs() as f64, 0.0),
				B(_) => (1.0, 0.0),
				S(_) => (3.0, 0.0),
				P(_) => (4.0, 0.0),
				Add(a, b) | Sub(a, b) => {
					let (a, b) = (go(a, c), go(b, c));
					(a.0 + b.0, a.1 + b.1)
				}
				Mul(a, b) => {
					let (a, b) = (go(a, c), go(b, c));
					(a.0 * b.0, a.1 + b.1)
				}
				Neg(a) => go(a, c),
				Pow(a, n) => {
					let a = go(a, c);
					(a.0.powi(*n as i32), a.1)
				}
				C(_, a) => {
					let a = go(a, c);
					(a.0 * c.max(1.0), a.1)
				}
				W(a, b) => {
					let (a, b) = (go(a, c), go(b, c));
					(a.0, a.1 + b.0 + b.1)
				}
			}
		}
		let (a, b) = go(self, c);
		let d = self.degree().max(2) as i32 - 2;
		(a + b) * 9f64.powi(d)
	}

	/// Replace placeholders by numbers.
	pub fn subst(&self, f: &dyn Fn(u8) -> Option<i32>) -> T {
		match self {
			P(x) => match f(*x) {
				Some(k) => N(k),
				None => P(*x),
			},
			N(_) | B(_) | S(_) => self.clone(),
			Add(a, b) => add(a.subst(f), b.subst(f)),
			Sub(a, b) => sub(a.subst(f), b.subst(f)),
			Mul(a, b) => mul(a.subst(f), b.subst(f)),
			W(a, b) => pen(a.subst(f), b.subst(f)),
			Neg(a) => neg(a.subst(f)),
			Pow(a, n) => pow(a.subst(f), *n),
			C(l, a) => con(*l, a.subst(f)),
		}
	}
}

pub struct Env<'a, R> {
	pub q: &'a dyn Fn(u8) -> bool,
	pub p: &'a dyn Fn(u8) -> R,
	pub c: &'a dyn Fn(u8) -> R,
	pub n: &'a dyn Fn(i32) -> R,
}

/// All trees with exactly k leaves over a leaf alphabet and binary operators
/// (0: +, 1: -, 2: *), addressed by an index.
pub struct Trees {
	pub leaves: Vec<T>,
	pub ops: Vec<u8>,
	counts: Vec<u64>,
}

impl Trees {
	pub fn new(leaves: Vec<T>, ops: Vec<u8>, max: usize) -> Self {
		let mut counts = vec![0, leaves.len() as u64];
		for k in 2..=max {
			let mut n = 0;
			for i in 1..k {
				n += counts[i] * counts[k - i] * ops.len() as u64;
			}
			counts.push(n);
		}
		Self {
			leaves,
			ops,
			counts,
		}
	}
	pub fn count(&self, k: usize) -> u64 {
		self.counts[k]
	}
	pub fn get(&self, k: usize, mut idx: u64) -> T {
		if k == 1 {
			return self.leaves[idx as usize].clone();
		}
		for i in 1..k {
			let c = self.counts[i] * self.counts[k - i] * self.ops.len() as u64;
			if idx < c {
				let op = self.ops[(idx % self.ops.len() as u64) as usize];
				idx /= self.ops.len() as u64;
				let l = self.get(i, idx % self.counts[i]);
				let r = self.get(k - i, idx / self.counts[i]);
				return match op {
					0 => add(l, r),
					1 => sub(l, r),
					_ => mul(l, r),
				};
			}
			idx -= c;
		}
		unreachable!()
	}
	/// trees with 1..=max leaves
	pub fn upto(&self, max: usize) -> u64 {
		(1..=max).map(|k| self.counts[k]).sum()
	}
	pub fn get_upto(&self, mut idx: u64) -> T {
		let mut k = 1;
		while idx >= self.counts[k] {
			idx -= self.counts[k];
			k += 1;
		}
		self.get(k, idx)
	}
}

/// Mixed-radix digits of an index
pub struct Digits(pub u64);
impl Digits {
	pub fn next(&mut self, n: usize) -> usize {
		let r = self.0 % n as u64;
		self.0 /= n as u64;
		r as usize
	}
	pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
		let i = self.next(v.len());
		&v[i]
	}
}

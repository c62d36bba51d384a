//! Sizes: the same properties on large models, many constraints, samples, rounds and
//! terms. Everything is enumerated along the size and the position in question.
use crate::det;
use crate::num::*;
use crate::p_anneal::{a05_check, same_model, Key};
use crate::p_solve::{histories_flat, histories_rounds, histories_samples, s06_case};
use crate::qubo::*;
use crate::run::*;
use crate::with_type;

use crate::tree::Digits;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::solution::SingleSolution;
use classical_solver::beta::BetaType;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashMap};


type E<R> = Expr<u16, u16, u16, R>;

fn num<R: Num>(k: i64) -> E<R> {
	Expr::Number(R::big(k as i128))
}
fn b<R: Num>(i: usize) -> E<R> {
	Expr::Binary(i as u16)
}
fn con<R: Num>(l: usize, e: E<R>) -> E<R> {
	Expr::Constraint { label: l as u16, expr: Box::new(e) }
}
fn pen<R: Num>(e: E<R>, p: E<R>) -> E<R> {
	Expr::WithPenalty { expr: Box::new(e), penalty: Box::new(p) }
}
fn none<R>() -> HashMap<u16, R> {
	HashMap::new()
}

/// sizes around powers of two and of the bytes and words of a state
pub const SIZES: [usize; 27] = [9, 11, 12, 13, 15, 16, 17, 24, 25, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 600, 1025];

fn index<R: Num>(o: &Obs<u16, R>, n: usize) -> Result<Vec<usize>, String> {
	let m: BTreeMap<u16, usize> = o.labels.iter().cloned().collect();
	if m.len() != n {
		return Err(format!("{} labels are listed instead of {}", m.len(), n));
	}
	(0..n).map(|i| m.get(&(i as u16)).cloned().ok_or(format!("label {} of {} is missing", i, n))).collect()
}

/// assignments of n variables: none, all, each one, each but one, halves, patterns
fn states(n: usize) -> Vec<Vec<bool>> {
	let mut v = vec![vec![false; n], vec![true; n]];
	let near = |k: usize| (0..12).any(|p| (k + 1).abs_diff(1 << p) < 2);
	for k in 0..n {
		// of many, the ends, around powers of two and some more
		if n > 290 && k > 4 && k + 3 < n && !near(k) && k % (n / 7) > 0 {
			continue;
		}
		v.push((0..n).map(|i| i == k).collect());
		v.push((0..n).map(|i| i != k).collect());
		v.push((0..n).map(|i| i <= k).collect());
	}
	for s in 2..6 {
		v.push((0..n).map(|i| i % s == 0).collect());
		v.push((0..n).map(|i| i % s != 1).collect());
	}
	v
}

/// a quadratic objective: constant, linear and pair weights
struct Quad {
	c: i64,
	h: Vec<i64>,
	j: BTreeMap<(usize, usize), i64>,
}
impl Quad {
	fn new(n: usize, kind: usize) -> Self {
		let mut j = BTreeMap::new();
		let mut put = |a: usize, b: usize, w: i64| {
			if a != b {
				*j.entry((a.min(b), a.max(b))).or_insert(0) += w;
			}
		};
		for i in 0..n {
			match kind {
				0 => (),
				1 => put(i, (i + 1) % n, [2, -1, 3][i % 3]),
				2 => put(0, i, [1, -2][i % 2]),
				_ => {
					put(i, n - 1 - i, 1);
					put(i, (i * 7 + 3) % n, -2);
					put(i / 2, i, 3);
				}
			}
		}
		Quad { c: kind as i64 * 3 - 4, h: (0..n).map(|i| [1, -2, 0, 3][(i + kind) % 4]).collect(), j }
	}
	fn expr<R: Num>(&self) -> E<R> {
		self.expr_by(&|k| R::big(k as i128))
	}
	fn expr_by<R: Num>(&self, num: &dyn Fn(i64) -> R) -> E<R> {
		let num = |k: i64| Expr::Number(num(k));
		let mut e = num(self.c);
		for (i, w) in self.h.iter().enumerate() {
			e = e + num(*w) * b(i);
		}
		for ((i, k), w) in &self.j {
			e = e + b(*k) * num(*w) * b(*i);
		}
		e
	}
	fn energy(&self, s: &[bool]) -> i64 {
		self.h.iter().zip(s).map(|(w, s)| if *s { *w } else { 0 }).sum::<i64>()
			+ self.j.iter().map(|((i, k), w)| if s[*i] && s[*k] { *w } else { 0 }).sum::<i64>()
	}
	fn field(&self, s: &[bool], i: usize) -> i64 {
		let mut d = self.h[i];
		for (&(a, c), w) in &self.j {
			if (a == i && s[c]) || (c == i && s[a]) {
				d += w;
			}
		}
		if s[i] {
			-d
		} else {
			d
		}
	}
}

/// multiplication by a power of two, exact also when the result is very small
fn scaled(x: f64, e: i32) -> f64 {
	let h = e / 2;
	x * 2f64.powi(h) * 2f64.powi(e - h)
}
/// powers of two that stay in range for small whole numbers
const SCALES: [i32; 22] = [
	-1070, -1022, -1000, -500, -200, -160, -100, -34, 34, 200, 1000, // f64
	-145, -130, -126, -100, -70, -50, -34, -20, 20, 60, 110, // f32
];

// ---------------------------------------------------------------- S01

fn s01_large<R: Num>(n: usize, kind: usize, ctx: &mut Ctx) -> Result<(), String> {
	s01_scaled::<R>(n, kind, 0, ctx)
}

/// all weights are multiplied by a power of two
fn s01_scaled<R: Num>(n: usize, kind: usize, scale: i32, ctx: &mut Ctx) -> Result<(), String> {
	let q = Quad::new(n, kind);
	let num = |k: i64| if scale == 0 { R::big(k as i128) } else { R::from_float(scaled(k as f64, scale)) };
	with_rig(q.expr_by::<R>(&num), none(), R::int(1), |s, o, gen, script| {
		let at = index(o, n)?;
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		let names: Vec<u16> = s.get_qubits().into_iter().cloned().collect();
		if names.len() != n || names.iter().cloned().collect::<BTreeSet<u16>>().len() != n {
			return Err(format!("get_qubits lists {} of {} variables", names.len(), n));
		}
		for (k, st) in states(n).into_iter().enumerate() {
			if k % 3 != 0 && n > 70 && !ctx.thorough && k % 7 != 0 && k > 8 && k + 30 < 3 * n {
				continue;
			}
			let mut ans = vec![false; o.m.n];
			for i in 0..n {
				ans[at[i]] = st[i];
			}
			script.answer(move |_| Ok(vec![ans.clone()]));
			gen.reset();
			let (value, view, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let e = q.energy(&st);
			let on = || st.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>();
			let bad = |m: String| Err(format!("{} variables, couplings of kind {}, times 2^{}, true {:?}: {} ({})", n, kind, scale, on(), m, R::NAME));
			if value != num(e + q.c) {
				return bad(format!("value {}, the objective is {}", value, e + q.c));
			}
			// the energy leaves the constant out; which part of it is not said
			match view.energy() {
				Some(x) if value - x == o.offset => (),
				x => return bad(format!("energy {:?} of value {} with constant {}", x, value, o.offset)),
			}
			if !rep.is_empty() {
				return bad(format!("violations {:?}", rep));
			}
			let keys: BTreeSet<u16> = view.keys().cloned().collect();
			if keys.len() != n || view.keys().count() != n {
				return bad(format!("{} labels are listed", view.keys().count()));
			}
			for i in 0..n {
				let l = i as u16;
				if view.get(&l) != Some(st[i]) || view[&l] != st[i] {
					return bad(format!("{} is {:?}", i, view.get(&l)));
				}
				let f = q.field(&st, i);
				if k % 16 != 0 && i % 8 != k % 8 && i + 3 < n {
					continue;
				}
				if view.local_field(&l) != Some(num(f)) {
					return bad(format!("local field of {} is {:?}, not {}", i, view.local_field(&l), f));
				}
			}
			for l in [n, n + 1, n + 8, 65535] {
				if view.get(&(l as u16)).is_some() || view.local_field(&(l as u16)).is_some() {
					return bad(format!("there is a label {}", l));
				}
			}
			ctx.states += 1;
			ctx.transitions += 1;
			ctx.traces += 1;
		}
		ctx.nontrivial += 1;
		ctx.outcome_of(&(n, kind));
		ctx.sample(|| format!("{} variables, couplings of kind {} [{}]", n, kind, R::NAME));
		Ok(())
	})
}

pub fn s01() -> Vec<Family> {
	vec![family("weights of every magnitude", 22 * 4 * 3, |i, ctx| {
		let mut d = Digits(i);
		let (e, kind, n) = (d.next(22), d.next(4), [2, 5, 9][d.next(3)]);
		if e < 11 {
			s01_scaled::<f64>(n, kind, SCALES[e], ctx)
		} else {
			s01_scaled::<f32>(n, kind, SCALES[e], ctx)
		}
	}).chunk(1), family("large models", 27 * 4, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[d.next(27)], d.next(4));
		match i % 4 {
			0 => s01_large::<f64>(n, kind, ctx),
			1 => s01_large::<i32>(n, kind, ctx),
			2 => s01_large::<i64>(n, kind, ctx),
			_ => s01_large::<f32>(n, kind, ctx),
		}
	}).chunk(1)]
}

// ---------------------------------------------------------------- S02

fn s02_large<R: Num>(n: usize, kind: usize, ctx: &mut Ctx) -> Result<(), String> {
	// constraint i is violated when variable i is true, except where said
	let label = |i: usize| match kind {
		3 => i / 3,
		4 => i % 7,
		_ => (i * 37) % 2003,
	};
	let mut e = num::<R>(2);
	for i in 0..n {
		let body = match kind {
			0 | 3 | 4 => b(i),
			// together with the next one
			1 => b::<R>(i) * b((i + 1) % n),
			// either of two
			_ => b::<R>(i) + b((i + 1) % n) * num(2),
		};
		e = match kind {
			5 => pen(e, con(label(i), body)),
			_ => e + con(label(i), body),
		};
	}
	let total = n as i64;
	with_rig(e, none(), R::big(total as i128), |s, o, gen, script| {
		let at = index(o, n)?;
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		for (k, st) in states(n).into_iter().enumerate() {
			// every state of a large model takes long; the ends are kept
			if n > 290 && k > 12 && k % 4 != kind % 4 {
				continue;
			}
			let mut ans = vec![false; o.m.n];
			for i in 0..n {
				ans[at[i]] = st[i];
			}
			let want: BTreeSet<u16> = (0..n)
				.filter(|i| match kind {
					0 | 3 | 4 => st[*i],
					1 => st[*i] && st[(i + 1) % n],
					_ => st[*i] || st[(i + 1) % n],
				})
				.map(|i| label(i) as u16)
				.collect();
			script.answer(move |_| Ok(vec![ans.clone()]));
			gen.reset();
			let (_, _, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let got: BTreeSet<u16> = rep.iter().map(|l| **l).collect();
			ctx.states += 1;
			ctx.transitions += 1;
			ctx.traces += 1;
			if got != want {
				return Err(format!(
					"{} constraints of kind {}: {} are reported, {} violated; only reported {:?}, only violated {:?} ({})",
					n, kind, got.len(), want.len(), got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>(), R::NAME
				));
			}
			ctx.outcome(got.len() as u64);
		}
		ctx.nontrivial += 1;
		ctx.sample(|| format!("{} constraints of kind {} [{}]", n, kind, R::NAME));
		Ok(())
	})
}

/// one constraint over many variables: violated unless exactly `k` are true
fn s02_wide(n: usize, k: usize, ctx: &mut Ctx) -> Result<(), String> {
	let mut e = num::<i64>(-(k as i64));
	for i in 0..n {
		e = e + b(i);
	}
	let e = con(9, e.clone() * e);
	with_rig(e, none(), 1i64, |s, o, gen, script| {
		let at = index(o, n)?;
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		for st in states(n) {
			let mut ans = vec![false; o.m.n];
			for i in 0..n {
				ans[at[i]] = st[i];
			}
			script.answer(move |_| Ok(vec![ans.clone()]));
			gen.reset();
			let (_, _, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let ones = st.iter().filter(|x| **x).count();
			ctx.states += 1;
			ctx.transitions += 1;
			ctx.traces += 1;
			if rep.len() != (ones != k) as usize {
				return Err(format!("exactly {} of {}: {} are true, reported {:?}", k, n, ones, rep));
			}
		}
		ctx.nontrivial += 1;
		ctx.outcome_of(&(n, k));
		Ok(())
	})
}

pub fn s02() -> Vec<Family> {
	vec![
		family("many constraints", 27 * 6, |i, ctx| {
			let mut d = Digits(i);
			let (kind, n) = (d.next(6), SIZES[d.next(27)]);
			match i / 2 % 3 {
				0 => s02_large::<f64>(n, kind, ctx),
				1 => s02_large::<i32>(n, kind, ctx),
				_ => s02_large::<f32>(n, kind, ctx),
			}
		}).chunk(1),
		family("constraints over many variables", 12 * 5, |i, ctx| {
			let mut d = Digits(i);
			let n = [8, 9, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65][d.next(12)];
			s02_wide(n, [0, 1, n / 2, n - 1, n][d.next(5)], ctx)
		}).chunk(1),
	]
}

// ---------------------------------------------------------------- S03

/// `samples` solvers of `per` solutions: the best at every position
fn s03_large<R: Num>(samples: usize, per: usize, step: usize, top: u32, ctx: &mut Ctx) -> Result<(), String> {
	// twelve variables: the energy of a state is the number its bits spell, moved
	let (n, mid) = (12usize, 1000i64);
	let mut e = num::<R>(7);
	for i in 0..n {
		e = e + num(1 << i) * b(i);
	}
	// half of the values are below zero
	e = e - num(2 * mid) * b(n);
	// far from zero, where the last digit of the type counts
	let big = if top == 0 { 0i128 } else { 1 << top };
	e = e + Expr::Number(R::big(big)) * b(n + 1);
	with_rig(e, none(), R::int(1), |s, o, gen, script| {
		let at = index(o, n + 2)?;
		s.samples = samples;
		s.iterations = 1;
		s.generations = 1;
		let total = samples * per;
		for best in (0..total).step_by(step).chain([total - 1]) {
			for low in [false, true] {
				let at = at.clone();
				let value = move |k: usize| 500 + ((k + total - best) % total * 7 % total) as i64;
				// 7 and the totals used have no common factor, so the values differ
				script.answer(move |call| {
					Ok((0..per)
						.map(|j| {
							let v = value(call.gen * per + j);
							let mut st = vec![false; call.model.n];
							for i in 0..n {
								st[at[i]] = v >> i & 1 == 1;
							}
							st[at[n]] = low;
							st[at[n + 1]] = true;
							st
						})
						.collect())
				});
				gen.reset();
				let (v, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
				let want = big + 500 + 7 - if low { 2 * mid as i128 } else { 0 };
				ctx.states += 1;
				ctx.traces += 1;
				ctx.transitions += samples as u64;
				let got: i64 = (0..n).map(|i| (view.get(&(i as u16)) == Some(true)) as i64).enumerate().map(|(i, x)| x << i).sum();
				if !v.close(R::big(want)) || got != 500 {
					return Err(format!("{} samples of {}, the best is number {}: value {} is returned, the best has {} ({})", samples, per, best, v, want, R::NAME));
				}
			}
		}
		ctx.nontrivial += 1;
		ctx.outcome_of(&(samples, per));
		ctx.sample(|| format!("{} samples of {} solutions [{}]", samples, per, R::NAME));
		Ok(())
	})
}

pub fn s03(thorough: bool) -> Vec<Family> {
	let top: u64 = if thorough { 300 } else { 72 };
	vec![
		family("the best of many samples", top, |i, ctx| {
			let k = i as usize + 1;
			if k % 7 == 0 {
				return Ok(());
			}
			s03_large::<f64>(k, 1, 1, 0, ctx)?;
			s03_large::<i32>(k, 1, 1, 0, ctx)
		}).chunk(2),
		family("the best of many solutions of a sample", top, |i, ctx| {
			let k = i as usize + 1;
			if k % 7 == 0 {
				return Ok(());
			}
			s03_large::<i32>(1, k, 1, 0, ctx)?;
			s03_large::<f32>(2, k, 1, 0, ctx)?;
			s03_large::<i64>(5, k, if k > 20 { 5 } else { 1 }, 0, ctx)
		}).chunk(2),
		family("the best of hundreds", 22, |i, ctx| {
			let (s, p) = [(511, 1), (513, 1), (600, 1), (1, 513), (1, 600), (3, 341), (100, 1), (127, 1), (128, 1), (129, 1), (200, 1), (255, 1), (256, 1), (257, 1), (300, 1), (1, 255), (1, 256), (1, 257), (1, 300), (16, 16), (17, 17), (1, 1000)][i as usize];
			s03_large::<f64>(s, p, 3, 0, ctx)
		}).chunk(1),
		family("the best of many solutions of each of many samples", 9 * 9, |i, ctx| {
			let mut d = Digits(i);
			let (s, p) = ([6, 11, 16, 17, 33, 64, 65, 75, 130][d.next(9)], [2, 3, 9, 16, 17, 30, 33, 50, 65][d.next(9)]);
			if s * p % 7 == 0 || s * p > 3400 {
				return Ok(());
			}
			// every position within a sample, over the samples
			s03_large::<i32>(s, p, if s * p < 40 { 1 } else { p + 1 + s * p / 300 * p }, 0, ctx)
		}).chunk(1),
		family("energies that differ in the last digit", 6 * 10, |i, ctx| {
			let mut d = Digits(i);
			let (s, p) = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 2), (2, 5), (8, 1), (1, 9), (5, 5)][d.next(10)];
			match d.next(6) {
				0 => s03_large::<i64>(s, p, 1, 60, ctx),
				1 => s03_large::<i64>(s, p, 1, 54, ctx),
				2 => s03_large::<i128>(s, p, 1, 110, ctx),
				3 => s03_large::<f64>(s, p, 1, 51, ctx),
				4 => s03_large::<f32>(s, p, 1, 23, ctx),
				_ => s03_large::<i32>(s, p, 1, 30, ctx),
			}
		}).chunk(2),
	]
}

// ---------------------------------------------------------------- S04

fn s04_large<R: Num>(m: usize, coeff: i64, kind: usize, gens: usize, ctx: &mut Ctx) -> Result<(), String> {
	let mut e = num::<R>(1);
	for i in 0..m {
		e = e + con((i * 37) % 2003, b(i));
	}
	// lets every round be better than the one before
	let bits = if gens > 5 { 11 } else { 0 };
	for i in 0..bits {
		e = e - num::<R>(2 * coeff << i) * b(m + i);
	}
	with_rig(e, none(), R::big(coeff as i128), |s, o, gen, script| {
		let at = index(o, m + bits)?;
		s.samples = 1;
		s.iterations = 2;
		s.generations = gens;
		// never without a violation
		let viol = move |r: usize, i: usize| match if bits > 0 { kind } else { (kind + r) % 5 } {
			5 => i == 0,
			6 => i == (r / 100) % m,
			0 => true,
			1 => i == (r * 11) % m,
			2 => i != (r * 5) % m || m == 1,
			3 => i % 2 == 0,
			_ => i >= m / 2,
		};
		let a2 = at.clone();
		script.answer(move |call| {
			let mut st = vec![false; call.model.n];
			for i in 0..m {
				st[a2[i]] = viol(call.gen, i);
			}
			for i in 0..bits {
				st[a2[m + i]] = (call.gen % gens) >> i & 1 == 1;
			}
			Ok(vec![st])
		});
		gen.reset();
		let (_, _, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
		let models = gen.models();
		let bad = |m2: String| Err(format!("{} constraints, total {}, {} rounds, violations of kind {}: {} ({})", m, coeff, gens, kind, m2, R::NAME));
		if models.len() != 2 * gens {
			return bad(format!("{} rounds", models.len()));
		}
		let tol = if R::FLOAT { coeff as f64 * if R::NAME == "f32" { 1e-3 } else { 1e-9 } } else { m as f64 };
		let slack = if R::FLOAT { 0.0 } else { 1.0 };
		let mut prev: Vec<f64> = vec![];
		for (r, md) in models.iter().enumerate() {
			let w: Vec<f64> = at[..m].iter().map(|p| md.get(*p, *p).f()).collect();
			let total: f64 = w.iter().sum();
			ctx.states += 1;
			ctx.transitions += 1;
			if (total - coeff as f64).abs() > tol {
				return bad(format!("round {}: the strengths add up to {}", r, total));
			}
			if let Some(i) = w.iter().position(|x| *x < 0.0 || !x.is_finite()) {
				return bad(format!("round {}: strength {} is {}", r, i, w[i]));
			}
			if r % gens == 0 {
				if let Some(i) = w.iter().position(|x| (x - w[0]).abs() > 1e-9 * w[0]) {
					return bad(format!("round {} starts with strengths {} and {} (number {})", r, w[0], w[i], i));
				}
			} else {
				for i in 0..m {
					for j in 0..m {
						if !viol(r - 1, i) || viol(r - 1, j) {
							continue;
						}
						let eps = if R::NAME == "f32" { 1e-5 } else { 1e-12 };
						if (w[i] + slack) * (prev[j] + slack) < (prev[i] - slack).max(0.0) * (w[j] - slack).max(0.0) * (1.0 - eps) {
							return bad(format!("round {}: {} was violated and {} was not, the strengths went from {}, {} to {}, {}", r, i, j, prev[i], prev[j], w[i], w[j]));
						}
						if R::FLOAT && r % gens == 1 && w[i] * prev[j] <= prev[i] * w[j] * (1.0 + eps) {
							return bad(format!("round {}: {} was violated and {} was not, the strengths went from {}, {} to {}, {}", r, i, j, prev[i], prev[j], w[i], w[j]));
						}
					}
				}
			}
			prev = w;
		}
		ctx.traces += 1;
		ctx.nontrivial += 1;
		ctx.outcome_of(&(m, kind));
		ctx.sample(|| format!("{} constraints, total {}, violations of kind {} [{}]", m, coeff, kind, R::NAME));
		Ok(())
	})
}

pub fn s04() -> Vec<Family> {
	vec![family("hundreds of constraints", 27 * 5 * 4, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[26 - d.next(27)], d.next(5));
		match d.next(4) {
			0 => s04_large::<f64>(n, 50, kind, 5, ctx),
			1 => s04_large::<f64>(n, 3, kind, 5, ctx),
			2 => s04_large::<i64>(n, 1_000_000_000, kind, 5, ctx),
			_ => s04_large::<i32>(n, 500, kind, 5, ctx),
		}
	}).chunk(2),
	family("restarts of hundreds of improving rounds", 6 * 7 * 4 * 4, |i, ctx| {
		let mut d = Digits(i);
		let (m, kind, g) = ([1, 2, 3, 5, 20, 30][d.next(6)], d.next(7), [40, 256, 300, 600][d.next(4)]);
		if kind == 1 || kind == 2 || m * g > 6000 {
			// a different constraint each time
			return s04_large::<f64>(m, 7, kind, 40, ctx);
		}
		match d.next(4) {
			0 => s04_large::<f64>(m, 50, kind, g, ctx),
			1 => s04_large::<f32>(m, 8, kind, g, ctx),
			2 => s04_large::<i64>(m, 1_000_000_000, kind, g, ctx),
			_ => s04_large::<i32>(m, 5000, kind, g, ctx),
		}
	}).chunk(4)]
}

// ---------------------------------------------------------------- S05, S06

const SHAPES: [(usize, usize); 11] = [(300, 1), (1, 300), (2, 150), (150, 2), (256, 1), (1, 256), (257, 1), (1, 257), (17, 16), (600, 1), (1, 600)];

pub fn s05() -> Vec<Family> {
	vec![family("success in each of hundreds of rounds", 11 * 602, |i, ctx| {
		let (gens, iters) = SHAPES[i as usize % 11];
		let k = i as usize / 11;
		if k > gens * iters {
			return Ok(());
		}
		histories_rounds(gens, iters, k, ctx)
	}).chunk(16),
	family("hundreds of rounds without progress", 11 * 602 / 4, |i, ctx| {
		let (gens, iters) = SHAPES[i as usize % 11];
		let k = i as usize / 11;
		// some places, and the ends
		let k = if k % 2 == 0 { k * 4 } else { gens * iters - (k * 4).min(gens * iters) };
		if k > gens * iters {
			return Ok(());
		}
		histories_flat(gens, iters, k, ctx)
	}).chunk(16),
	family("hundreds of samples", 14 * 2, |i, ctx| {
		let n = [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 600, 1000, 1025][i as usize / 2];
		histories_samples(n, i % 2 == 0, ctx)
	}).chunk(1)]
}

pub fn s06() -> Vec<Family> {
	vec![
		family("a failure in each of many samples", 9 * 130 * 2, |i, ctx| {
			let mut d = Digits(i);
			let (samples, create, k) = ([16, 17, 31, 32, 33, 63, 64, 65, 130][d.next(9)], d.next(2) == 1, d.0 as usize);
			if k >= samples {
				return Ok(());
			}
			s06_case::<f64>(samples, 1, 1, None, &[(create, k)], 0, ctx)?;
			s06_case::<i32>(samples, 2, 1, None, &[(create, samples + k)], 0, ctx)?;
			s06_case::<f64>(samples, 1, 1, Some(0), &[(create, k)], 4, ctx)
		}).chunk(16),
		family("a failure in each of hundreds of samples", 3 * 1030 * 2, |i, ctx| {
			let mut d = Digits(i);
			let (samples, create, k) = ([257, 600, 1025][d.next(3)], d.next(2) == 1, d.0 as usize);
			let edge = [255, 256, 257, 511, 512, 513, 1023, 1024].contains(&k) || k < 2 || k + 2 > samples;
			if k >= samples || (k % 37 != 0 && !edge) {
				return Ok(());
			}
			s06_case::<f64>(samples, 1, 1, None, &[(create, k)], 0, ctx)
		}).chunk(16),
		family("a failure in each of hundreds of rounds", 11 * 602 * 2, |i, ctx| {
			let (gens, iters) = SHAPES[i as usize / 2 % 11];
			let k = i as usize / 22;
			if k >= gens * iters || (k > 20 && k % 8 > 1 && k + 20 < gens * iters && !(250..260).contains(&k)) {
				return Ok(());
			}
			s06_case::<f64>(1, gens, iters, None, &[(i % 2 == 0, k)], 0, ctx)
		}).chunk(16),
	]
}

// ---------------------------------------------------------------- C01 - C05

/// the weights of a compiled quadratic expression, one by one
fn weights<R: Num>(what: &dyn Fn() -> String, e: E<R>, dict: HashMap<u16, R>, strength: i64, q: &Quad, ctx: &mut Ctx) -> Result<(), String> {
	let n = q.h.len();
	let o = if ctx.case % 2 == 0 {
		observe_fed(e, dict, R::big(strength as i128))
	} else {
		observe_fed(e.feed_dict(&dict), none(), R::big(strength as i128))
	}
	.map_err(|e| format!("{}: {}", what(), e))?;
	let at = index(&o, n).map_err(|e| format!("{}: {}", what(), e))?;
	if o.m.n != n {
		return Err(format!("{}: {} variables instead of {}", what(), o.m.n, n));
	}
	if !o.offset.close(R::big(q.c as i128)) {
		return Err(format!("{}: constant {} instead of {} ({})", what(), o.offset, q.c, R::NAME));
	}
	for i in 0..n {
		for k in 0..=i {
			let want = if i == k { q.h[i] } else { q.j.get(&(k, i)).cloned().unwrap_or(0) };
			if !o.m.get(at[i], at[k]).close(R::big(want as i128)) {
				return Err(format!("{}: weight of {}, {} is {} instead of {} ({})", what(), k, i, o.m.get(at[i], at[k]), want, R::NAME));
			}
		}
	}
	ctx.states += (n * n) as u64;
	ctx.traces += o.solves;
	ctx.transitions += n as u64;
	ctx.nontrivial += 1;
	ctx.outcome_of(&(n, q.c, q.j.len()));
	ctx.sample(|| format!("{} [{}]", what(), R::NAME));
	Ok(())
}

pub fn c01() -> Vec<Family> {
	vec![
		family("large quadratic expressions, weight by weight", 27 * 4 * 2, |i, ctx| {
			let mut d = Digits(i);
			let (n, kind) = (SIZES[d.next(27)], d.next(4));
			let q = Quad::new(n, kind);
			let what = || format!("{} variables, couplings of kind {}", n, kind);
			if d.next(2) == 0 {
				weights::<i64>(&what, q.expr(), none(), 1, &q, ctx)
			} else {
				weights::<f32>(&what, q.expr(), none(), 1, &q, ctx)
			}
		}).chunk(2),
		// squares of sums
		family("squares of sums of many variables", 14 * 3, |i, ctx| {
			let mut d = Digits(i);
			let n = [13, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128, 130][d.next(14)];
			let k = [0, 1, 5][d.next(3)];
			let mut l = num::<i64>(-k);
			let c = |i: usize| i as i64 % 4 - 1 + (i % 4 == 1) as i64 * 3;
			for i in 0..n {
				l = l + num(c(i)) * b(i);
			}
			let mut j = BTreeMap::new();
			for a in 0..n {
				for x in 0..a {
					j.insert((x, a), 2 * c(x) * c(a));
				}
			}
			let q = Quad { c: k * k, h: (0..n).map(|i| c(i) * c(i) - 2 * k * c(i)).collect(), j };
			weights::<i64>(&|| format!("square of a sum of {} minus {}", n, k), if i % 2 == 0 { l.clone() * l } else { l ^ 2 }, none(), 1, &q, ctx)
		}).chunk(1),
	]
}

pub fn c02(thorough: bool) -> Vec<Family> {
	// min over the auxiliaries at assignments of the variables
	fn check<R: Num>(what: &dyn Fn() -> String, e: E<R>, dict: HashMap<u16, R>, n: usize, sts: &[Vec<bool>], f: &dyn Fn(&[bool]) -> i64, ctx: &mut Ctx) -> Result<(), String> {
		let o = observe_fed(e, dict, R::int(1)).map_err(|e| format!("{}: {}", what(), e))?;
		let at = index(&o, n).map_err(|e| format!("{}: {}", what(), e))?;
		let anc = o.ancillas();
		let parts = o.parts(&anc);
		if parts.iter().any(|p| p.len() > 18) {
			ctx.note("skipped: more than 18 auxiliary variables that depend on each other");
			return Ok(());
		}
		for st in sts {
			let mut s = vec![false; o.m.n];
			for i in 0..n {
				s[at[i]] = st[i];
			}
			let (got, want) = (o.min_parts(&s, &parts), R::big(f(st) as i128));
			ctx.states += parts.iter().map(|p| 1 << p.len()).sum::<u64>();
			if !got.close(want) {
				return Err(format!(
					"{}: is {} where true are {:?}, the compiled model has {} ({} auxiliaries, {})",
					what(), want, st.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>(), got, anc.len(), R::NAME
				));
			}
		}
		ctx.traces += o.solves;
		ctx.transitions += n as u64;
		ctx.nontrivial += 1;
		ctx.outcome_of(&(n, anc.len()));
		ctx.sample(|| format!("{}, {} auxiliaries [{}]", what(), anc.len(), R::NAME));
		Ok(())
	}
	// assignments with every number of ones, from both ends and in steps, and with
	// at most one zero
	fn counts(n: usize) -> Vec<Vec<bool>> {
		let mut v = states(n);
		for k in 0..=n {
			v.push((0..n).map(|i| i + k >= n).collect());
			v.push((0..n).map(|i| i * 7 % n < k).collect());
		}
		v.sort();
		v.dedup();
		v
	}
	let top = if thorough { 21 } else { 20 };
	vec![
		family("single monomials of degree 11 and more", (top - 11) * 4, move |i, ctx| {
			let mut d = Digits(i);
			let (c, d) = ([1i64, -1, 3, -4][d.next(4)], 11 + d.0 as usize);
			let mut e = num(c);
			for i in 0..d {
				e = e * b(i);
			}
			let what = || format!("{} times a product of {}", c, d);
			let f = |s: &[bool]| if s.iter().all(|x| *x) { c } else { 0 };
			if i / 4 % 2 == 0 {
				check::<i64>(&what, e, none(), d, &counts(d), &f, ctx)
			} else {
				check::<f64>(&what, relabel(&e), none(), d, &counts(d), &f, ctx)
			}
		}).chunk(1),
		family("unknown coefficients, degree 5 to 14", 10 * 4, move |i, ctx| {
			let mut d = Digits(i);
			let (c, d) = ([1i64, -1, 2, 0][d.next(4)], 5 + d.0 as usize);
			let mut e: E<i64> = Expr::Placeholder(0) - num(3);
			for i in 0..d {
				e = e * b(i);
			}
			let sts: Vec<Vec<bool>> = counts(d);
			check(&|| format!("(P - 3) times a product of {}, P = {}", d, c + 3), e, [(0u16, c + 3)].into_iter().collect(), d, &sts, &|s| if s.iter().all(|x| *x) { c } else { 0 }, ctx)
		}).chunk(1),
		family("many cubic terms", 4 * 22, move |i, ctx| {
			let mut d = Digits(i);
			let (kind, k) = (d.next(4), 2 + d.0 as usize);
			let k = if k < 16 { k } else { [20, 33, 40, 65, 70, 100, 129, 260][k - 16] };
			let set = move |t: usize| -> [usize; 3] {
				match kind {
					0 => [3 * t, 3 * t + 1, 3 * t + 2],
					1 => [t, t + 1, t + 2],
					2 => [0, 2 * t + 1, 2 * t + 2],
					_ => [0, 1, t + 2],
				}
			};
			let n = (0..k).flat_map(set).max().unwrap() + 1;
			let w = |t: usize| [2i64, -3, 1, -1][t % 4];
			let mut e = num::<i64>(0);
			for t in 0..k {
				let [x, y, z] = set(t);
				e = e + num(w(t)) * b(x) * b(y) * b(z);
			}
			// at most one term, all but one, each prefix
			let mut sts = vec![vec![true; n], vec![false; n]];
			for t in 0..k {
				let mut a = vec![false; n];
				for v in set(t) {
					a[v] = true;
				}
				sts.push(a.iter().map(|x| !x).collect());
				sts.push(a);
			}
			for v in 0..n {
				sts.push((0..n).map(|i| i != v).collect());
				sts.push((0..n).map(|i| i <= v).collect());
			}
			check(&|| format!("{} cubic terms of kind {}", k, kind), e, none(), n, &sts, &|s| (0..k).map(|t| if set(t).iter().all(|v| s[*v]) { w(t) } else { 0 }).sum(), ctx)
		}).chunk(1),
	]
}

fn relabel<R: Num>(e: &E<i64>) -> E<R> {
	let f = |e: &E<i64>| Box::new(relabel::<R>(e));
	match e {
		Expr::Placeholder(p) => Expr::Placeholder(*p),
		Expr::Add(x, y) => Expr::Add(f(x), f(y)),
		Expr::Mul(x, y) => Expr::Mul(f(x), f(y)),
		Expr::Number(n) => Expr::Number(R::big(*n as i128)),
		Expr::Binary(x) => Expr::Binary(*x),
		Expr::Spin(x) => Expr::Spin(*x),
		Expr::Constraint { label, expr } => Expr::Constraint { label: *label, expr: f(expr) },
		Expr::WithPenalty { expr, penalty } => Expr::WithPenalty { expr: f(expr), penalty: f(penalty) },
	}
}

pub fn c03() -> Vec<Family> {
	vec![family("many placeholders", 27 * 5, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[d.next(27)], d.next(5));
		let p = |k: usize| Expr::<u16, u16, u16, i64>::Placeholder((k * 37 % 2003) as u16);
		let v = |k: usize| (k as i64 * 5) % 23;
		let mut q = Quad { c: 0, h: vec![0; n], j: BTreeMap::new() };
		let mut e = num::<i64>(0);
		for k in 0..n {
			match kind {
				// own placeholder each
				0 => {
					e = e + p(k) * b(k);
					q.h[k] += v(k);
				}
				// sums of neighbours
				1 => {
					e = e + (p(k) - p((k + 1) % n)) * b(k);
					q.h[k] += v(k) - v((k + 1) % n);
				}
				// products with numbers, and in the constant
				2 => {
					e = e + p(k) * p((k * 3) % n) * num(2) * b(k) - p(k);
					q.h[k] += 2 * v(k) * v((k * 3) % n);
					q.c -= v(k);
				}
				// all at one variable
				3 => {
					e = e + p(k) * b(0) + b(k);
					q.h[0] += v(k);
					q.h[k] += 1;
				}
				// within constraints and penalties
				_ => {
					e = if k % 2 == 0 { e + con(k % 4, p(k) * b(k)) } else { pen(e, p(k) * b(k)) };
					q.h[k] += v(k);
				}
			}
		}
		if kind == 4 {
			// constraints have strength one each
			let labels: BTreeSet<usize> = (0..n).filter(|k| k % 2 == 0).map(|k| k % 4).collect();
			let dict: HashMap<u16, i64> = (0..n).map(|k| ((k * 37 % 2003) as u16, v(k))).collect();
			return weights(&|| format!("{} placeholders of kind {}", n, kind), e, dict, labels.len() as i64, &q, ctx);
		}
		let dict: HashMap<u16, i64> = (0..n).map(|k| ((k * 37 % 2003) as u16, v(k))).collect();
		let what = || format!("{} placeholders of kind {}", n, kind);
		// in parts: one, the rest, in both orders
		let (one, rest): (HashMap<u16, i64>, HashMap<u16, i64>) = dict.iter().map(|(k, v)| (*k, *v)).partition(|(k, _)| *k as usize == (n / 2) * 37 % 2003);
		weights(&what, e.clone().feed_dict(&one), rest.clone(), 1, &q, ctx)?;
		weights(&what, e.clone().feed_dict(&rest), one, 1, &q, ctx)?;
		weights(&what, e, dict, 1, &q, ctx)
	}).chunk(1)]
}

pub fn c04() -> Vec<Family> {
	fn go<R: Num>(n: usize, kind: usize, add: &dyn Fn(usize, &mut E<R>, i64), ctx: &mut Ctx) -> Result<(), String> {
		let vars = 5usize;
		let mut q = Quad { c: 0, h: vec![0; vars], j: BTreeMap::new() };
		let mut e = num::<R>(0);
		for v in 0..vars {
			e = e + b(v);
			q.h[v] += 1;
		}
		for k in 0..n {
			let v = k * 3 % vars;
			match if kind == 5 { k % 5 } else { kind } {
				0 => {
					e = e + b(v);
					q.h[v] += 1;
				}
				1 => {
					e -= b(v);
					q.h[v] -= 1;
				}
				2 => {
					e = b::<R>(v) - e;
					q.c = -q.c;
					q.h.iter_mut().for_each(|h| *h = -*h);
					q.j.values_mut().for_each(|h| *h = -*h);
					q.h[v] += 1;
				}
				3 => {
					e = -(e + b::<R>(v) * b((v + 1) % vars));
					*q.j.entry((v.min((v + 1) % vars), v.max((v + 1) % vars))).or_insert(0) += 1;
					q.c = -q.c;
					q.h.iter_mut().for_each(|h| *h = -*h);
					q.j.values_mut().for_each(|h| *h = -*h);
				}
				_ => {
					let r = [1, -2, 3][k % 3];
					add(k, &mut e, r);
					match k % 4 {
						0 | 1 => q.c += r,
						2 => q.c -= r,
						_ => {
							q.c = -q.c;
							q.h.iter_mut().for_each(|h| *h = -*h);
							q.j.values_mut().for_each(|h| *h = -*h);
						}
					}
				}
			}
		}
		let copy = e.clone();
		if copy != e {
			return Err(format!("a clone of a chain of {} differs", n));
		}
		weights::<R>(&|| format!("chain of {} operators of kind {}", n, kind), copy, none(), 1, &q, ctx)
	}
	vec![family("long chains of operators", 10 * 6 * 2, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = ([7, 15, 16, 31, 33, 64, 100, 255, 257, 600][d.next(10)], d.next(6));
		macro_rules! form {
			($t:ident) => {
				&|k: usize, e: &mut E<$t>, r: i64| {
					let r = r as $t;
					let a = std::mem::replace(e, Expr::Number(0 as $t));
					*e = match k % 4 {
						0 => a + r,
						1 => r + a,
						2 => {
							let mut a = a;
							a -= r;
							a
						}
						_ => a * (-1 as $t),
					};
				}
			};
		}
		if d.next(2) == 0 {
			go::<i32>(n, kind, form!(i32), ctx)
		} else {
			go::<f64>(n, kind, form!(f64), ctx)
		}
	}).chunk(1)]
}

pub fn c05() -> Vec<Family> {
	vec![family("many and deep constraints and penalties", 27 * 6, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[d.next(27)], d.next(6));
		let mut q = Quad { c: 0, h: vec![0; n], j: BTreeMap::new() };
		let mut e = num::<i64>(0);
		let mut labels = 0;
		for k in 0..n {
			let w = k as i64 % 5 + 1;
			match kind {
				// penalties on one expression
				0 => {
					e = pen(e, num(w) * b(k));
					q.h[k] += w;
				}
				// penalties within penalties
				1 => {
					e = pen(num(w) * b(k), e);
					q.h[k] += w;
				}
				// a sum of terms with penalties, each with a number
				2 => {
					e = e + pen(b(k), num(w) * b((k + 1) % n));
					q.h[k] += 1;
					q.h[(k + 1) % n] += w;
				}
				// constraints, own labels
				3 => {
					e = e + con(k, num(w) * b(k));
					q.h[k] += w;
					labels = n;
				}
				// constraints that share labels, with penalties between
				4 => {
					e = if k % 3 == 0 { pen(e, b(k)) } else { e + con(k % 3, num(w) * b(k)) };
					q.h[k] += if k % 3 == 0 { 1 } else { w };
					labels = 2;
				}
				// every penalty is itself a constraint, subtracted terms between
				_ => {
					e = pen(e - b(k), con(k, num(w) * b((k + 1) % n)));
					q.h[k] -= 1;
					q.h[(k + 1) % n] += w;
					labels = n;
				}
			}
		}
		weights(&|| format!("{} constraints or penalties of kind {}", n, kind), e, none(), (labels as i64).max(1), &q, ctx)
	}).chunk(1),
	family("two halves of many products, constraints and penalties", 23 * 23 * 9 * 3, |i, ctx| {
		let mut d = Digits(i);
		let (a, x, how, over) = (c05_sizes(d.next(23)), c05_sizes(d.next(23)), d.next(9), d.next(3));
		c05_halves(a, x, how, over, ctx)
	}).chunk(64)]
}

fn c05_sizes(k: usize) -> usize {
	if k < 20 { k + 1 } else { [24, 33, 65][k - 20] }
}

/// Each half has an objective, penalties and constraints of `a` (`x`) products; they
/// share products, and are put together in one of several ways.
fn c05_halves(a: usize, x: usize, how: usize, over: usize, ctx: &mut Ctx) -> Result<(), String> {
	// where the second half starts
	let from = [0, a - 1, a / 2][over];
	let n = a.max(from + x);
	// objective, penalty and constraint part of a half
	let part = |from: usize, len: usize, w: i64| (from..from + len).fold(num::<i64>(w), |e, i| e + num(w + i as i64 % 3) * b(i));
	let weigh = |q: &mut Quad, from: usize, len: usize, w: i64, by: i64| {
		q.c += by * w;
		for i in from..from + len {
			q.h[i] += by * (w + i as i64 % 3);
		}
	};
	let mut q = Quad { c: 0, h: vec![0; n], j: BTreeMap::new() };
	let half = |from: usize, len: usize, w: i64, label: usize| pen(part(from, len, w) + con(label, part(from, len, w + 10)), part(from, len, w + 100));
	let (l, r) = (half(0, a, 2, 3), half(from, x, 5, 4));
	// factors of the objectives, with constraints, and of the penalties
	let (ol, pl, or, pr);
	let e = match how {
		0 => { (ol, pl, or, pr) = (1, 1, 1, 1); l + r }
		1 => { (ol, pl, or, pr) = (1, 1, 1, 1); pen(l, r) }
		2 => { (ol, pl, or, pr) = (1, 1, -1, 1); l - r }
		3 => { (ol, pl, or, pr) = (-2, 1, -2, 1); (l + r) * num(-2) }
		4 => { (ol, pl, or, pr) = (3, 1, 1, 1); pen(num::<i64>(3) * l, r) }
		5 => { (ol, pl, or, pr) = (-1, 1, 2, 1); -l + num(2) * r }
		6 => { (ol, pl, or, pr) = (-1, 1, 1, 1); -pen(l, r) }
		7 => { (ol, pl, or, pr) = (1, 1, 4, 1); pen(pen(l, num(0)), num(4) * r) }
		// twice the same half
		_ => { (ol, pl, or, pr) = (1, 1, 1, 1); r + l }
	};
	weigh(&mut q, 0, a, 2, ol);
	weigh(&mut q, 0, a, 12, ol);
	weigh(&mut q, 0, a, 102, pl);
	weigh(&mut q, from, x, 5, or);
	weigh(&mut q, from, x, 15, or);
	weigh(&mut q, from, x, 105, pr);
	weights(&|| format!("halves of {} and {} products from {} on, put together in way {}", a, x, from, how), e, none(), 2, &q, ctx)
}


// ---------------------------------------------------------------- A03, A04, A05

/// products of a sparse model over n variables, in the order they are added
fn products(n: usize, kind: usize) -> Vec<Vec<usize>> {
	let mut v: Vec<Vec<usize>> = Vec::new();
	match kind {
		// a chain, from both ends
		0 => {
			for i in 0..n {
				let k = if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 };
				v.push(if k + 1 < n { vec![k, k + 1] } else { vec![k] });
			}
		}
		// a star, falling
		1 => v.extend((0..n).rev().map(|i| if i == n / 2 { vec![i] } else { vec![i.min(n / 2), i.max(n / 2)] })),
		// single variables, then pairs across, some twice
		2 => {
			v.extend((0..n).map(|i| vec![i * 7 % n]));
			for i in 0..n {
				let k = (i * 5 + 2) % n;
				if k != i {
					v.push(vec![i.min(k), i.max(k)]);
				}
			}
			v.extend((0..n / 2).map(|i| vec![i]));
		}
		// everything, for the smaller sizes
		3 => {
			let m = n.min(40);
			for i in (n - m..n).rev() {
				for k in n - m..=i {
					v.push(if i == k { vec![i] } else { vec![k, i] });
				}
			}
			v.extend((0..n - m).map(|i| vec![i, i + m]));
		}
		// windows of rising order, up to 20 or 130
		_ => {
			for i in 0..n {
				let o = if kind == 4 { 1 + i % 20 } else { 1 + i * 7 % 130 };
				let mut s: Vec<usize> = (0..o).map(|k| (i + k * (1 + i % 3)) % n).collect();
				s.sort_unstable();
				s.dedup();
				v.push(s);
			}
		}
	}
	v
}

fn weight(i: usize) -> i32 {
	[2, -4, 6, -2, 8][i % 5]
}

pub fn a03() -> Vec<Family> {
	fn go<O: Order + 'static, R: Num>(o: O, n: usize, kind: usize, gap: usize, ctx: &mut Ctx) -> Result<(), String>
	where
		O::NodeSetType: Key,
	{
		let ps = products(n, kind);
		let mut m = SingleModel::new(Binary::<R>::new(), o);
		let mut map: BTreeMap<Vec<usize>, R> = BTreeMap::new();
		let mut probe: Vec<usize> = (0..=n).step_by(1 + n / 12).map(|i| i * gap + 3).collect();
		probe.extend([0, 1, (n - 1) * gap + 3, n * gap + 3]);
		let at = |m: &SingleModel<Binary<R>, O>, map: &BTreeMap<Vec<usize>, R>| same_model(m, &map.keys().flatten().cloned().collect(), map, &probe);
		for (k, p) in ps.iter().enumerate() {
			let p: Vec<usize> = p.iter().map(|i| i * gap + 3).collect();
			m.add_weight(O::NodeSetType::key(&p), R::int(weight(k)));
			let e = map.entry(p).or_insert(R::int(0));
			*e = *e + R::int(weight(k));
			ctx.transitions += 1;
			// around the sizes at which tables grow
			if [7, 8, 14, 15, 16, 28, 29, 56, 57, 63, 64, 65, 112, 113, 127, 128, 129, 224, 225, 255, 256, 257].contains(&(k + 1)) {
				ctx.states += 1;
				at(&m, &map).map_err(|e| format!("{} variables of kind {} after {} additions: {}", n, kind, k + 1, e))?;
			}
		}
		at(&m, &map).map_err(|e| format!("{} variables of kind {}: {}", n, kind, e))?;
		let copy = m.clone();
		let (p, w) = (O::NodeSetType::key(&[3]), R::int(1));
		m.add_weight(p, w);
		at(&copy, &map).map_err(|e| format!("a copy of {} variables of kind {}: {}", n, kind, e))?;
		ctx.states += 2;
		ctx.traces += 1;
		ctx.nontrivial += 1;
		ctx.outcome_of(&(n, kind, map.len()));
		ctx.sample(|| format!("{} variables of kind {}, {} products [{}]", n, kind, map.len(), R::NAME));
		Ok(())
	}
	vec![family("hundreds of variables", 27 * 5 * 5, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[26 - d.next(27)], d.next(5));
		// the last three: numbers that agree in their lower bits
		let gap = [1, 1000, 1 << 32, 1 << 48, (1 << 16) + (1 << 40)][d.next(5)];
		match kind {
			4 => go::<_, i64>(HighOrder::new(20), n, kind, gap, ctx),
			_ if i % 2 == 0 => go::<_, i32>(Quadric, n, kind, gap, ctx),
			0 | 2 => go::<_, f64>(HighOrder::new(3), n, kind, gap, ctx),
			_ => go::<_, f32>(Quadric, n, kind, gap, ctx),
		}
	}).chunk(1)]
}

fn a04_large<P: SingleModelView>(
	m: &P,
	ps: &BTreeMap<Vec<usize>, i64>,
	n: usize,
	val: &dyn Fn(bool) -> i64,
	what: &dyn Fn() -> String,
	ctx: &mut Ctx,
) -> Result<(), String>
where
	<P::Node as SingleNode>::RealType: Num,
{
	type Rl<P> = <<P as SingleModelView>::Node as SingleNode>::RealType;
	let of = |x: i64| Rl::<P>::big(x as i128);
	let close = |a: Rl<P>, b: Rl<P>| a.close(b) || (a.f() - b.f()).abs() < 1e-5 * (1.0 + b.f().abs());
	let mut around: Vec<Vec<(&Vec<usize>, i64)>> = vec![vec![]; n];
	for (p, w) in ps {
		for i in p {
			around[*i].push((p, *w));
		}
	}
	let all = states(n);
	let step = if all.len() > 100 { all.len() / 25 } else { 1 + all.len() / 40 };
	for s in all[..2].iter().chain(all.iter().skip(2).step_by(step)).chain(&all[all.len() - 8..]) {
		let e: i64 = ps.iter().map(|(p, w)| w * p.iter().map(|i| val(s[*i])).product::<i64>()).sum();
		let sol: SingleSolution<P::Node> = SingleSolution::from_vec(s);
		let bad = |m: String| Err(format!("{}, true {:?}: {}", what(), s.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>(), m));
		let sol = sol.with_energy(m).with_local_field(m);
		if !sol.energy.map_or(false, |x| close(x, of(e))) {
			return bad(format!("energy {:?}, not {}", sol.energy, e));
		}
		let f = sol.local_field.as_ref().unwrap();
		if f.len() != n || sol.state.to_vec() != *s {
			return bad(format!("{} fields, state {:?}", f.len(), sol.state));
		}
		for i in 0..n {
			let d: i64 = around[i]
				.iter()
				.map(|(p, w)| w * p.iter().map(|k| if *k == i { val(!s[i]) - val(s[i]) } else { val(s[*k]) }).product::<i64>())
				.sum();
			if !close(f[i], of(d)) {
				return bad(format!("local field of {} is {}, not {}", i, f[i], d));
			}
		}
		ctx.states += 1;
		ctx.transitions += 2;
		ctx.traces += 1;
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&what());
	ctx.sample(what);
	Ok(())
}

/// weights that need every digit of the type
fn a04_bits<R: Num>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
	a04_scaled::<R>(i, None, ctx)
}

/// small weights times a power of two, or else with digits
fn a04_scaled<R: Num>(i: u64, scale: Option<i32>, ctx: &mut Ctx) -> Result<(), String> {
	let num = |k: i128| scale.map_or_else(|| R::big(k), |e| R::from_float(scaled(k as f64, e)));
	let mut d = Digits(i);
	let top = match R::NAME {
		"i8" => 3,
		"i16" => 10,
		"i32" => 26,
		"i64" => 58,
		"i128" => 120,
		"f32" => 19,
		_ => 48,
	};
	let (kind, form) = (d.next(2), d.next(2));
	let keys: [&[usize]; 6] = [&[0], &[1], &[2], &[0, 1], &[0, 2], &[1, 2]];
	let ws: Vec<i128> = keys.iter().map(|_| if scale.is_some() { [1, -2, 3][d.next(3)] } else { [(1i128 << top) + 1, -(1 << (top - 2)) + 3, 5][d.next(3)] }).collect();
	let wr: Vec<R> = ws.iter().map(|w| num(*w)).collect();
	let val = |b: bool| if kind == 0 { b as i128 } else { b as i128 * 2 - 1 };
	let energy = |s: &[bool]| -> i128 { keys.iter().zip(&ws).map(|(k, w)| w * k.iter().map(|i| val(s[*i])).product::<i128>()).sum() };
	fn one<P: SingleModelView>(m: &P, s: &[bool], ctx: &mut Ctx) -> (<P::Node as SingleNode>::RealType, Vec<<P::Node as SingleNode>::RealType>) {
		let sol: SingleSolution<P::Node> = SingleSolution::from_vec(s);
		ctx.states += 1;
		ctx.transitions += 2;
		let f = sol.clone().calculate_local_field(m);
		(sol.calculate_energy(m), f)
	}
	fn fixed<M: SingleNode>(node: M, keys: &[&[usize]], ws: &[M::RealType]) -> FixedSingleQuadricModel<M>
	where
		M::RealType: Num,
	{
		let mut m = FixedSingleQuadricModel::new(node, 3);
		keys.iter().zip(ws).for_each(|(k, w)| m.add_weight(k[0], k[k.len() - 1], *w));
		m
	}
	fn free<M: SingleNode>(node: M, keys: &[&[usize]], ws: &[M::RealType]) -> SingleModel<M, Quadric>
	where
		M::RealType: Num,
	{
		let mut m = SingleModel::new(node, Quadric);
		keys.iter().zip(ws).for_each(|(k, w)| m.add_weight(<Quadric as Order>::NodeSetType::key(k), *w));
		m
	}
	for a in 0..8 {
		let s: Vec<bool> = (0..3).map(|k| a >> k & 1 == 1).collect();
		let (e, f) = match (kind, form) {
			(0, 0) => one(&fixed(Binary::<R>::new(), &keys, &wr), &s, ctx),
			(0, _) => one(&free(Binary::<R>::new(), &keys, &wr), &s, ctx),
			(_, 0) => one(&fixed(Spin::<R>::new(), &keys, &wr), &s, ctx),
			_ => one(&free(Spin::<R>::new(), &keys, &wr), &s, ctx),
		};
		let want = energy(&s);
		if e != num(want) {
			return Err(format!("weights {:?} (times 2^{:?}) at {:?}: energy {} instead of {} ({})", ws, scale, s, e, want, R::NAME));
		}
		for i in 0..3 {
			let mut t = s.clone();
			t[i] = !t[i];
			if f[i] != num(energy(&t) - want) {
				return Err(format!("weights {:?} (times 2^{:?}) at {:?}: local field {} is {} instead of {} ({})", ws, scale, s, i, f[i], energy(&t) - want, R::NAME));
			}
		}
	}
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&ws);
	Ok(())
}

pub fn a04() -> Vec<Family> {
	fn sparse<M: SingleNode, O: Order + 'static>(node: M, o: O, n: usize, kind: usize, val: &dyn Fn(bool) -> i64, ctx: &mut Ctx) -> Result<(), String>
	where
		M::RealType: Num,
		O::NodeSetType: Key,
	{
		let mut m = SingleModel::new(node, o);
		let mut map: BTreeMap<Vec<usize>, i64> = BTreeMap::new();
		for (k, p) in products(n, kind).into_iter().enumerate() {
			m.add_weight(O::NodeSetType::key(&p), M::RealType::int(weight(k)));
			*map.entry(p).or_insert(0) += weight(k) as i64;
		}
		a04_large(&m, &map, n, val, &|| format!("sparse model of {} variables, kind {}, {}", n, kind, M::RealType::NAME), ctx)
	}
	fn dense<M: SingleNode>(node: M, n: usize, kind: usize, val: &dyn Fn(bool) -> i64, ctx: &mut Ctx) -> Result<(), String>
	where
		M::RealType: Num,
	{
		let mut m = FixedSingleQuadricModel::new(node, n);
		let mut map: BTreeMap<Vec<usize>, i64> = BTreeMap::new();
		for (k, p) in products(n, kind).into_iter().enumerate() {
			m.add_weight(p[0], *p.last().unwrap(), M::RealType::int(weight(k)));
			*map.entry(p).or_insert(0) += weight(k) as i64;
		}
		a04_large(&m, &map, n, val, &|| format!("dense model of {} variables, kind {}, {}", n, kind, M::RealType::NAME), ctx)
	}
	vec![
		family("products of up to 130 variables", 27 * 3, |i, ctx| {
			let mut d = Digits(i);
			let n = SIZES[26 - d.next(27)];
			// one or several variables false
			match d.next(3) {
				0 => sparse(Binary::<i32>::new(), HighOrder::new(130), n, 5, &|b| b as i64, ctx),
				1 => sparse(Spin::<f64>::new(), HighOrder::new(130), n, 5, &|b| b as i64 * 2 - 1, ctx),
				_ => sparse(TwoVal::new(1i64, -1), HighOrder::new(130), n, 5, &|b| if b { 1 } else { -1 }, ctx),
			}
		}).chunk(1),
		family("weights of every magnitude", 22 * 4 * 729, |i, ctx| {
			let (e, k) = (i as usize % 22, i / 22);
			if e < 11 {
				a04_scaled::<f64>(k, Some(SCALES[e]), ctx)
			} else {
				a04_scaled::<f32>(k, Some(SCALES[e]), ctx)
			}
		}).chunk(256),
		family("weights that need every digit of the type", 7 * 4 * 729, |i, ctx| with_type!(i % 7, R, a04_bits::<R>(i / 7, ctx))).chunk(256),
		family("sparse models of hundreds of variables", 27 * 5 * 3, |i, ctx| {
			let mut d = Digits(i);
			let (n, kind) = (SIZES[26 - d.next(27)], d.next(5));
			match (d.next(3), kind) {
				(0, 4) => sparse(Binary::<f64>::new(), HighOrder::new(20), n, kind, &|b| b as i64, ctx),
				(1, 4) => sparse(Spin::<i64>::new(), HighOrder::new(20), n, kind, &|b| b as i64 * 2 - 1, ctx),
				(_, 4) => sparse(TwoVal::new(2i64, -1), HighOrder::new(20), n, kind, &|b| if b { 2 } else { -1 }, ctx),
				(0, _) => sparse(Binary::<i32>::new(), Quadric, n, kind, &|b| b as i64, ctx),
				(1, _) => sparse(Spin::<f32>::new(), Quadric, n, kind, &|b| b as i64 * 2 - 1, ctx),
				_ => sparse(TwoVal::new(3i64, -2), Quadric, n, kind, &|b| if b { 3 } else { -2 }, ctx),
			}
		}).chunk(1),
		family("dense models of hundreds of variables", 27 * 4 * 3, |i, ctx| {
			let mut d = Digits(i);
			let (n, kind) = (SIZES[26 - d.next(27)], d.next(4));
			match d.next(3) {
				0 => dense(Binary::<i32>::new(), n, kind, &|b| b as i64, ctx),
				1 => dense(Spin::<f64>::new(), n, kind, &|b| b as i64 * 2 - 1, ctx),
				_ => dense(TwoVal::new(3f64, -2.0), n, kind, &|b| if b { 3 } else { -2 }, ctx),
			}
		}).chunk(1),
	]
}

pub fn a05() -> Vec<Family> {
	vec![family("long lists", 27 * 8, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind) = (SIZES[d.next(27)], d.next(8));
		let gap = if kind % 2 == 0 { 1 } else { usize::MAX / n };
		let v: Vec<usize> = (0..n)
			.map(|i| match kind / 2 {
				0 => n - 1 - i,
				1 => (i + n / 3) % n,
				2 => if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 },
				// the last first
				_ => if i == 0 { n - 1 } else { i - 1 },
			} * gap)
			.collect();
		let set: BTreeSet<usize> = v.iter().cloned().collect();
		a05_check::<[usize; 2]>(&v, &set, false, "a pair", ctx)?;
		a05_check::<BTreeSet<usize>>(&v, &set, true, "a set", ctx)?;
		a05_check::<Vec<usize>>(&v, &set, true, "a list", ctx)
	}).chunk(4)]
}

// ---------------------------------------------------------------- C06

fn below(e: &E<i32>) -> Vec<&E<i32>> {
	match e {
		Expr::Add(a, b) | Expr::Mul(a, b) => vec![a, b],
		Expr::WithPenalty { expr, penalty } => vec![expr, penalty],
		Expr::Constraint { expr, .. } => vec![expr],
		_ => vec![],
	}
}

/// A tree of about n nodes; leaves and constraints bear numbers from 1.
fn big_tree(n: usize, kind: usize, next: &mut u16) -> E<i32> {
	*next += 1;
	let id = *next;
	if n <= 1 {
		return match id % 4 {
			0 => Expr::Binary(id),
			1 => Expr::Number(id as i32),
			2 => Expr::Spin(id),
			_ => Expr::Placeholder(id),
		};
	}
	if kind >= 6 {
		// one operator only, to the left or to the right
		let leaf = |next: &mut u16| {
			*next += 1;
			match *next % 4 {
				0 => Expr::Binary(*next),
				1 => Expr::Number(*next as i32),
				2 => Expr::Spin(*next),
				_ => Expr::Placeholder(*next),
			}
		};
		let mut e = leaf(next);
		let mut count = 1;
		while count + 1 < n {
			let o = leaf(next);
			let (a, b) = if (kind - 6) / 3 == 0 { (Box::new(e), Box::new(o)) } else { (Box::new(o), Box::new(e)) };
			e = match kind % 3 {
				0 => Expr::Add(a, b),
				1 => Expr::Mul(a, b),
				_ => Expr::WithPenalty { expr: a, penalty: b },
			};
			count += 2;
		}
		return e;
	}
	let mut two = |l: usize, next: &mut u16| (Box::new(big_tree(l, kind, next)), Box::new(big_tree(n - 1 - l, kind, next)));
	let k = match kind {
		// left, right, both, in turns
		0 => n - 2,
		1 => 1,
		2 => (n - 1) / 2,
		3 => if id % 2 == 0 { 1 } else { n - 2 },
		// constraints only
		4 => 0,
		_ => n / 3,
	}
	.min(n - 2);
	if kind == 4 || (id % 5 == 0 && kind != 2) || k == 0 {
		return Expr::Constraint { label: id, expr: Box::new(big_tree(n - 1, kind, next)) };
	}
	let (a, b) = two(k, next);
	match id % 3 {
		0 => Expr::Add(a, b),
		1 => Expr::Mul(a, b),
		_ => Expr::WithPenalty { expr: a, penalty: b },
	}
}

fn mark(e: &E<i32>) -> u16 {
	match e {
		Expr::Binary(k) | Expr::Spin(k) | Expr::Placeholder(k) => *k,
		Expr::Number(k) => *k as u16,
		Expr::Constraint { label, .. } => *label,
		_ => 0,
	}
}

fn put(e: E<i32>, n: u16) -> E<i32> {
	match e {
		Expr::Binary(_) => Expr::Binary(n),
		Expr::Spin(_) => Expr::Spin(n),
		Expr::Placeholder(_) => Expr::Placeholder(n),
		Expr::Number(_) => Expr::Number(n as i32),
		Expr::Constraint { expr, .. } => Expr::Constraint { label: n, expr },
		o => o,
	}
}

fn c06_large(n: usize, kind: usize, ctx: &mut Ctx) -> Result<(), String> {
	let e = big_tree(n, kind, &mut 0);
	fn list<'a>(e: &'a E<i32>, above: u16, out: &mut Vec<(&'a E<i32>, u16)>) {
		out.push((e, above));
		let m = mark(e);
		for k in below(e) {
			list(k, if m > 0 { m } else { above }, out);
		}
	}
	let mut nodes = Vec::new();
	list(&e, 0, &mut nodes);
	let count = nodes.len();
	let what = format!("a tree of {} nodes, kind {}", count, kind);
	// identity
	let mut seq = Vec::new();
	let r = e.clone().map(&mut |x| {
		seq.push(mark(&x));
		x
	});
	ctx.states += count as u64;
	ctx.transitions += seq.len() as u64;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	if r != e {
		return Err(format!("the identity changes {}", what));
	}
	if seq.len() != count {
		return Err(format!("{} is visited {} times", what, seq.len()));
	}
	let mut at: HashMap<u16, usize> = HashMap::new();
	for (i, m) in seq.iter().enumerate() {
		if *m > 0 && at.insert(*m, i).is_some() {
			return Err(format!("node {} of {} is visited twice", m, what));
		}
	}
	for (x, above) in &nodes {
		let m = mark(x);
		if m > 0 && (at.get(&m).is_none() || (*above > 0 && at[above] >= at[&m])) {
			return Err(format!("node {} of {} is visited at {:?}, the one above at {:?}", m, what, at.get(&m), at.get(above)));
		}
	}
	// every number doubled
	let r = e.clone().map(&mut |x| {
		let m = mark(&x);
		put(x, m * 2)
	});
	let mut twice = Vec::new();
	list(&r, 0, &mut twice);
	if twice.len() != count || twice.iter().zip(&nodes).any(|((a, _), (b, _))| mark(a) != mark(b) * 2 || std::mem::discriminant(*a) != std::mem::discriminant(*b)) {
		return Err(format!("doubling the numbers of {} leaves some as they were", what));
	}
	// one node
	let marks: Vec<(u16, usize)> = nodes.iter().enumerate().map(|(i, (x, _))| (mark(x), i)).filter(|x| x.0 > 0).collect();
	let step = if n > 300 { marks.len() / 40 + 1 } else { 1 };
	for (m, i) in marks.iter().step_by(step).chain(&marks[marks.len() - 1..]) {
		let mut calls = 0;
		let r = e.clone().map(&mut |x| {
			calls += 1;
			if mark(&x) == *m {
				Expr::Number(-77)
			} else {
				x
			}
		});
		fn size(e: &E<i32>) -> usize {
			1 + below(e).into_iter().map(size).sum::<usize>()
		}
		let gone = size(nodes[*i].0) - 1;
		let mut got = Vec::new();
		list(&r, 0, &mut got);
		let same = got.iter().take(*i).zip(&nodes).all(|(a, b)| mark(a.0) == mark(b.0) && std::mem::discriminant(a.0) == std::mem::discriminant(b.0));
		let rest = got.iter().skip(i + 1).zip(nodes.iter().skip(i + 1 + gone)).all(|(a, b)| mark(a.0) == mark(b.0) && std::mem::discriminant(a.0) == std::mem::discriminant(b.0));
		ctx.transitions += calls as u64;
		ctx.traces += 1;
		if calls + gone != count || got.len() + gone != count || *got[*i].0 != Expr::Number(-77) || !same || !rest {
			return Err(format!("replacing node {} of {}: {} calls, {} nodes remain", m, what, calls, got.len()));
		}
	}
	ctx.outcome_of(&(count, kind));
	ctx.sample(|| what.clone());
	Ok(())
}

pub fn c06() -> Vec<Family> {
	vec![family("trees of hundreds of nodes", 26 * 12, |i, ctx| {
		let mut d = Digits(i);
		let k = d.next(26);
		let kind = d.next(12);
		c06_large(if k < 24 { SIZES[k] } else { [600, 1500][k - 24] }, kind, ctx)
	}).chunk(1)]
}

// ---------------------------------------------------------------- E01

/// Spins s_0 .. s_{n-1}: either every one has a field stronger than its couplings, or
/// s_0 has one and each is bound to the one before more strongly than to the one
/// after. There is one local optimum either way.
fn e01_large<R: Num>(n: usize, kind: usize, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
	let num = |k: i64| num::<R>(k);
	let sign = |i: usize| if (i * i + i / 3) % 3 == 0 { -1i64 } else { 1 };
	let spin = |i: usize| Expr::<u16, u16, u16, R>::Spin(i as u16);
	let mut e = num(5);
	let mut opt = vec![false; n];
	let mut value = 5i64;
	let sweeps;
	let v = |b: bool| if b { 1i64 } else { -1 };
	if kind % 2 == 0 {
		for i in 0..n {
			opt[i] = sign(i) < 0;
			e = e + num(4 * sign(i)) * spin(i);
			value -= 4;
		}
		for i in 1..n {
			e = e + num(sign(i + 5)) * spin(i) * spin(i - 1);
			value += sign(i + 5) * v(opt[i]) * v(opt[i - 1]);
		}
		sweeps = 2;
	} else {
		let w = |i: usize| (n - i) as i64 + 1;
		opt[0] = true;
		e = e - num(w(0) + 1) * spin(0);
		value -= w(0) + 1;
		for i in 1..n {
			opt[i] = opt[i - 1] == (sign(i) < 0);
			e = e + num(w(i) * sign(i)) * spin(i - 1) * spin(i);
			value -= w(i);
		}
		sweeps = n + 1;
	}
	// constraints that the optimum satisfies, or of which it violates one
	let m = if kind / 2 % 2 == 0 { 0 } else { n };
	for i in 0..m {
		e = e + con(i * 37 % 2003, if opt[i] { num(1) - b(i) } else { b(i) });
	}
	let broken = if kind == 6 && m > 0 { Some(n / 2) } else { None };
	if let Some(k) = broken {
		e = e + con(2010, if opt[k] { b(k) } else { num(1) - b(k) }) - con(2010, num(0));
		value += 1;
	}
	let each = 1i64;
	let total = (m + broken.is_some() as usize).max(1) as i64 * each;
	let c = e.compile().feed_dict(none());
	let mut s = SimpleSolver::new(&c);
	s.samples = 1 + n % 3;
	s.iterations = if broken.is_some() { 1 } else { 2 };
	s.generations = if broken.is_some() { 1 } else { 3 };
	s.coeff_strength = R::big(total as i128);
	s.solver_generator.sweeps_per_round = sweeps;
	s.solver_generator.beta = BetaType::Schedule(vec![R::from_float(800.0)]);
	det::set_seed(det::mix(seed ^ n as u64 * 31 + kind as u64));
	let (got, view, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
	let what = || format!("{} spins of kind {}, seed {} ({})", n, kind, seed, R::NAME);
	let keys: BTreeSet<u16> = view.keys().cloned().collect();
	if view.keys().count() != n || keys.len() != n {
		return Err(format!("{}: {} labels", what(), keys.len()));
	}
	for i in 0..n {
		if view.get(&(i as u16)) != Some(opt[i]) {
			return Err(format!("{}: number {} is {:?}", what(), i, view.get(&(i as u16))));
		}
	}
	let close = |a: R, b: i64| (a.f() - b as f64).abs() <= 1e-4 * (1.0 + (b as f64).abs());
	// strengths of whole-number types are rounded down
	if !close(got, value) && !(broken.is_some() && !R::FLOAT && close(got, value - 1)) {
		return Err(format!("{}: value {}, not {}", what(), got, value));
	}
	let rep: Vec<u16> = rep.into_iter().cloned().collect();
	if rep != broken.iter().map(|_| 2010).collect::<Vec<u16>>() {
		return Err(format!("{}: reported {:?}", what(), rep));
	}
	ctx.states += 1;
	ctx.transitions += (n * sweeps * s.samples) as u64;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&(n, kind));
	ctx.sample(|| what());
	Ok(())
}

pub fn e01() -> Vec<Family> {
	vec![family("hundreds of variables, some more", 5 * 7, |i, ctx| {
		let (n, kind) = ([1025, 600, 513, 511, 300][i as usize % 5], i as usize / 5);
		// the chain takes as many sweeps as it has links
		if n > 600 && kind % 2 == 1 {
			return Ok(());
		}
		match i % 3 {
			0 => e01_large::<f64>(n, kind, 0, ctx),
			1 => e01_large::<i64>(n, kind, 0, ctx),
			_ => e01_large::<i32>(n, kind, 0, ctx),
		}
	}).chunk(1),
	family("hundreds of variables", 24 * 7 * 3, |i, ctx| {
		let mut d = Digits(i);
		let (n, kind, seed) = (SIZES[23 - d.next(24)], d.next(7), d.next(3) as u64);
		match (i / 5) % 4 {
			0 => e01_large::<f64>(n, kind, seed, ctx),
			1 => e01_large::<i32>(n, kind, seed, ctx),
			2 => e01_large::<f32>(n, kind, seed, ctx),
			_ => e01_large::<i64>(n, kind, seed, ctx),
		}
	}).chunk(1)]
}

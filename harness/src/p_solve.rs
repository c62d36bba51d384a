//! S01 - S06: the search on top of a solver, with the solver scripted.
use crate::num::*;
use crate::p_compile::STRENGTH;
use crate::qubo::*;
use crate::run::*;
use crate::tree::T::*;
use crate::tree::*;
use crate::with_type;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

fn number<R: Num>(k: i32) -> R {
	if R::FLOAT {
		R::half(k)
	} else {
		R::int(k)
	}
}

fn bits(a: u64, n: usize) -> Vec<bool> {
	(0..n).map(|i| a >> i & 1 == 1).collect()
}

fn none<R>() -> HashMap<(), R> {
	HashMap::new()
}

// ---------------------------------------------------------------- S01

/// Everything a returned solution says about itself.
fn check_view<R: Num>(
	what: &str,
	value: R,
	view: &rustqubo::solution::SolutionView<u8, R>,
	o: &Obs<u8, R>,
	m: &Dense<R>,
	s: &[bool],
) -> Result<(), String> {
	let e = m.energy(s);
	if !value.close(e + o.offset) {
		return Err(format!(
			"{}: value {} returned for {:?}, whose energy is {} with constant {} ({})",
			what, value, s, e, o.offset, R::NAME
		));
	}
	match view.energy() {
		Some(x) if x.close(e) => (),
		x => return Err(format!("{}: the solution's energy is {:?}, not {} ({})", what, x, e, R::NAME)),
	}
	let mut keys: Vec<u8> = view.keys().cloned().collect();
	keys.sort_unstable();
	let mut want: Vec<u8> = o.labels.iter().map(|(l, _)| *l).collect();
	want.sort_unstable();
	if keys != want {
		return Err(format!("{}: labels {:?} are listed, not {:?}", what, keys, want));
	}
	for (l, i) in &o.labels {
		if view.get(l) != Some(s[*i]) || view[l] != s[*i] {
			return Err(format!("{}: label {} is {:?} / {}, not {}", what, l, view.get(l), view[l], s[*i]));
		}
		let f = m.flip(s, *i);
		match view.local_field(l) {
			Some(x) if x.close(f) => (),
			x => return Err(format!("{}: local field of {} is {:?}, not {} at {:?} ({})", what, l, x, f, s, R::NAME)),
		}
	}
	for l in [100u8, 255] {
		if view.get(&l).is_some() || view.local_field(&l).is_some() {
			return Err(format!("{}: unknown label {} has a value", what, l));
		}
	}
	let dbg = format!("{:?}", view);
	for (l, i) in &o.labels {
		if !dbg.contains(&format!("{}: {}", l, s[*i])) {
			return Err(format!("{}: {} does not show label {} = {}", what, dbg, l, s[*i]));
		}
	}
	Ok(())
}

/// one sample, one round, every state
fn s01_single<R: Num>(t: &T, ctx: &mut Ctx, preset: bool) -> Result<(), String> {
	let m = t.constraints().len().max(1) as i32;
	let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &number::<R> });
	let what = format!("{:?}", t);
	with_rig(e, none(), R::int(STRENGTH * m), |s, o, gen, script| {
		let mut names: Vec<u8> = s.get_qubits().into_iter().cloned().collect();
		names.sort_unstable();
		if names != t.vars().into_iter().collect::<Vec<_>>() {
			return Err(format!("{}: get_qubits gives {:?}", what, names));
		}
		if o.m.n > 10 {
			return Ok(());
		}
		gen.0.preset.store(preset, SeqCst);
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		let anc = o.ancillas();
		for a in 0..1u64 << o.m.n {
			let st = bits(a, o.m.n);
			let ans = st.clone();
			script.answer(move |_| Ok(vec![ans.clone()]));
			gen.reset();
			let (value, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let m = gen.models()[0].clone();
			if *m != o.m {
				return Err(format!("{}: the model changed between two calls", what));
			}
			check_view(&what, value, &view, o, &m, &st)?;
			let want = t.eval(&Env {
				q: &|x| st[o.index(&x).unwrap()],
				p: &|_| R::int(0),
				c: &|_| R::int(STRENGTH),
				n: &number::<R>,
			});
			if anc.is_empty() {
				if !value.close(want) {
					return Err(format!("{}: value {} at {:?}, the objective is {} ({})", what, value, st, want, R::NAME));
				}
			} else if !(value >= want || value.close(want)) {
				return Err(format!("{}: value {} at {:?} is below the objective {} ({})", what, value, st, want, R::NAME));
			}
			ctx.states += 1;
			ctx.traces += 1;
			ctx.transitions += 1;
			ctx.outcome_of(&format!("{}{:?}", value, st));
		}
		if o.m.n > 0 {
			ctx.nontrivial += 1;
		}
		ctx.sample(|| format!("{} [{}], {} variables, every state", what, R::NAME, o.m.n));
		Ok(())
	})
}

/// `solve`, which drops the constraint report
fn s01_plain<R: Num>(t: &T, ctx: &mut Ctx) -> Result<(), String> {
	let e: Expr<(), u8, (), R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|_| (), n: &number::<R> });
	let what = format!("{:?}", t);
	with_rig(e, none(), R::int(STRENGTH), |s, o, gen, script| {
		if o.m.n > 10 {
			return Ok(());
		}
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		for a in 0..1u64 << o.m.n {
			let st = bits(a, o.m.n);
			let ans = st.clone();
			script.answer(move |_| Ok(vec![ans.clone()]));
			gen.reset();
			let (value, view) = s.solve().map_err(|e| e.to_string())?;
			check_view(&what, value, &view, o, &o.m, &st)?;
			ctx.states += 1;
			ctx.traces += 1;
			ctx.transitions += 1;
			ctx.outcome_of(&format!("{}{:?}", value, st));
		}
		if o.m.n > 0 {
			ctx.nontrivial += 1;
		}
		Ok(())
	})
}

/// several rounds with moving strengths: the returned numbers belong to the
/// returned assignment
fn s01_history<R: Num>(shape: usize, samples: usize, gens: usize, iters: usize, ctx: &mut Ctx) -> Result<(), String> {
	// constraint i is violated when variable i is false; its strength shows in
	// the diagonal and in the constant
	let t = match shape {
		0 => add(con(0, sub(N(1), B(0))), sub(mul(N(3), B(1)), N(5))),
		1 => sum(vec![con(0, sub(N(1), B(0))), con(1, mul(N(2), sub(N(1), B(1)))), N(-2)]),
		3 => sum(vec![con(0, B(0)), mul(N(-100), B(1)), N(-50)]),
		4 => sum(vec![con(0, sub(B(0), N(1))), mul(N(-9), B(1)), con(1, B(2)), N(-3)]),
		5 => sum(vec![con(1, sub(mul(N(2), B(2)), N(2))), mul(N(70), B(1)), con(0, B(0))]),
		_ => sum(vec![con(0, sub(N(1), B(0))), mul(mul(N(-4), B(0)), B(1)), mul(N(7), B(1)), con(1, sub(N(1), S(2)))]),
	};
	let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
	let k = t.constraints().len() as i32;
	with_rig(e, none(), R::int(12 * k), |s, o, gen, script| {
		s.iterations = iters;
		s.generations = gens;
		s.samples = samples;
		let n = o.m.n;
		let done = dfs(vec![], |ch| {
			let log: Arc<Mutex<BTreeMap<usize, Vec<bool>>>> = Default::default();
			let (c2, l2) = (ch.clone(), log.clone());
			script.answer(move |call| {
				let st = bits(c2.lock().unwrap().choose(1 << call.model.n) as u64, call.model.n);
				l2.lock().unwrap().insert(call.gen, st.clone());
				Ok(vec![st])
			});
			gen.reset();
			let (value, view, unsat) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let models = gen.models();
			let log = log.lock().unwrap();
			let st: Vec<bool> = (0..n)
				.map(|i| {
					let l = o.labels.iter().find(|(_, j)| *j == i).unwrap().0;
					view.get(&l).unwrap()
				})
				.collect();
			// some round answered this and the numbers are that round's
			let mut why = String::new();
			let mut ok = false;
			for (r, m) in models.iter().enumerate() {
				if log.get(&r) != Some(&st) {
					continue;
				}
				// the strengths of this round
				let str_of = |l: u8| -> R {
					// diagonal of the variable that only this constraint and known terms use
					let d = |v: u8| m.get(o.index(&v).unwrap(), o.index(&v).unwrap());
					match (shape, l) {
						(3, 0) | (4, 0) | (5, 0) => d(0),
						(4, 1) => d(2),
						(5, 1) => R::from_float(d(2).f() / 2.0),
						(0, 0) | (1, 0) | (2, 0) => R::int(0) - d(0),
						(1, 1) => R::from_float(-d(1).f() / 2.0),
						_ => R::from_float(-d(2).f() / 2.0),
					}
				};
				let want = t.eval(&Env {
					q: &|x| st[o.index(&x).unwrap()],
					p: &|_| R::int(0),
					c: &str_of,
					n: &R::int,
				});
				if !value.close(want) {
					why = format!("value {} but the objective with this round's strengths is {}", value, want);
					continue;
				}
				let off = Obs { m: (**m).clone(), offset: want - m.energy(&st), labels: o.labels.clone(), solves: 0 };
				match check_view("history", value, &view, &off, m, &st) {
					Ok(()) => ok = true,
					Err(e) => why = e,
				}
			}
			ctx.states += models.len() as u64;
			ctx.transitions += models.len() as u64;
			ctx.traces += 1;
			if !ok {
				return Err(format!("{:?} {}: after answers {:?}, {:?} is returned with {} and {:?}: {}", t, R::NAME, *log, st, value, unsat, why));
			}
			ctx.outcome_of(&st);
			Ok(())
		})?;
		ctx.nontrivial += done;
		Ok(())
	})
}

fn o_vars(shape: usize) -> usize {
	[2, 2, 3, 2, 3, 3][shape]
}

pub fn s01(thorough: bool) -> Property {
	let mut f = Vec::new();
	for ty in 0..7usize {
		let k = if thorough && ty < 2 { 4 } else { 3 };
		let trees = Trees::new(vec![B(0), S(1), N(3), B(2), N(-1)], vec![0, 1, 2], k);
		f.push(family(&format!("trees of {} leaves, {}", k, TYPES[ty]), trees.upto(k), move |i, ctx| {
			let t = trees.get_upto(i);
			with_type!(ty, R, s01_single::<R>(&t, ctx, i % 2 == 1))
		}).chunk(64));
	}
	f.push(family("constraints, penalties, auxiliaries", 12 * 12 * 4 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let at = [
			con(0, sub(add(B(0), B(1)), N(1))),
			con(1, pow(sub(S(1), B(0)), 2)),
			pen(B(1), sub(B(0), N(2))),
			prod(vec![B(0), B(1), B(2)]),
			neg(prod(vec![B(0), B(1), B(3)])),
			mul(con(2, S(0)), N(-2)),
			N(4),
			mul(N(-3), mul(B(3), S(2))),
			prod(vec![B(0), B(1), B(2), B(3)]),
			sub(N(1), B(9)),
			mul(N(0), B(7)),
			pen(con(3, sub(N(1), B(2))), S(0)),
		];
		let (a, b) = (d.pick(&at).clone(), d.pick(&at).clone());
		let t = match d.next(4) {
			0 => add(a, b),
			1 => sub(a, b),
			2 => add(mul(N(2), b), neg(a)),
			_ => pen(a, b),
		};
		match d.next(3) {
			0 => s01_single::<i32>(&t, ctx, true),
			1 => s01_single::<f64>(&t, ctx, false),
			_ => s01_single::<i64>(&t, ctx, false),
		}
	}).chunk(8));
	let trees = Trees::new(vec![B(0), S(1), N(-2), con(0, sub(B(0), B(2)))], vec![0, 1, 2], 3);
	f.push(family("without report", trees.upto(3), move |i, ctx| {
		let t = trees.get_upto(i);
		match i % 3 {
			0 => s01_plain::<i32>(&t, ctx),
			1 => s01_plain::<f64>(&t, ctx),
			_ => s01_plain::<i64>(&t, ctx),
		}
	}).chunk(64));
	f.push(family("couplings of 4 and 5 variables", 243 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let n = 4 + d.next(2);
		let fl = d.next(2);
		let mut t = vec![N(1)];
		let mut k = 0;
		for a in 0..n {
			t.push(mul(N([2, -1, 3][(a + i as usize) % 3]), B(a as u8)));
			for b in 0..a {
				let c = if k < 5 { d.next(3) as i32 - 1 } else { (a * b) as i32 % 4 - 1 };
				k += 1;
				t.push(mul(mul(N(c), B(b as u8)), B(a as u8)));
			}
		}
		let t = sum(t);
		if fl == 0 {
			s01_single::<i32>(&t, ctx, false)
		} else {
			s01_single::<f64>(&t, ctx, true)
		}
	}).chunk(8));
	let hist: Vec<(usize, usize, usize)> = if thorough {
		vec![(1, 2, 1), (1, 1, 2), (1, 3, 1), (1, 2, 2), (2, 2, 1)]
	} else {
		vec![(1, 2, 1), (1, 1, 2), (1, 3, 1), (1, 2, 2)]
	};
	let h2 = hist.clone();
	f.push(family("histories of answers", hist.len() as u64 * 6 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let (samples, g, it) = *d.pick(&h2);
		let shape = d.next(6);
		if samples > 1 && o_vars(shape) > 2 {
			return Ok(());
		}
		match d.next(3) {
			0 => s01_history::<f64>(shape, samples, g, it, ctx),
			1 => s01_history::<f32>(shape, samples, g, it, ctx),
			_ => s01_history::<i64>(shape, samples, g, it, ctx),
		}
	}).chunk(1));
	f.extend(crate::p_size::s01());
	Property {
		id: "S01",
		rule: "A state is one (model, answer of the solver, round) whose returned value, own energy, label set, values, local fields, lookups and printed form are compared with an own copy of the model given to the solver and with the expression's value; a transition is one round; an execution is one call of the search. Non-trivial: the model has a variable.",
		bounds: "trees of at most 3 (thorough 4) leaves in every type, 144 pairs of constraint/penalty/high-order terms, 972 coupled models of 4-5 variables, in each every answer; all histories of at most 4 rounds with moving strengths; models of up to 1025 variables, at assignments around every one; weights times powers of two from 2^-1070 to 2^1000",
		assumptions: vec!["a solver that reports a wrong energy of its own is outside the property".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- S02

fn s02_case<R: Num>(
	t: &T,
	n: &dyn Fn(i32) -> R,
	dict: &BTreeMap<u8, R>,
	ctx: &mut Ctx,
) -> Result<(), String> {
	let e: Expr<u8, u8, u8, R> = t.build(&Lab { p: &|x| x, q: &|x| x, c: &|x| x, n });
	let cons: BTreeMap<u8, Vec<T>> = t.constraints().into_iter().map(|(k, v)| (k, v.into_iter().cloned().collect())).collect();
	let vars: Vec<u8> = t.vars().into_iter().collect();
	let k = cons.len().max(1) as i32;
	// feed half of the expressions before compilation
	let (e, d2): (_, HashMap<u8, R>) = if ctx.case % 2 == 0 {
		(e, dict.iter().map(|(k, v)| (*k, *v)).collect())
	} else {
		(e.feed_dict(&dict.iter().map(|(k, v)| (*k, *v)).collect()), HashMap::new())
	};
	with_rig(e, d2, R::int(STRENGTH * k), |s, o, gen, script| {
		s.iterations = 1;
		s.generations = 1;
		s.samples = 1;
		let anc = o.ancillas();
		for a in 0..1u64 << vars.len() {
			let st0 = place(o, &vars, &|i| a >> i & 1 == 1);
			let mut want = BTreeSet::new();
			for (l, bodies) in &cons {
				for b in bodies {
					let v: R = b.eval(&Env {
						q: &|x| a >> vars.iter().position(|v| *v == x).unwrap() & 1 == 1,
						p: &|x| dict[&x],
						c: &|_| R::int(1),
						n,
					});
					let f = v.f().abs();
					if f > 0.99e-4 && f < 1.01e-4 {
						return Err("test too close to the tolerance".to_string());
					}
					if f >= 1e-4 {
						want.insert(*l);
					}
				}
			}
			// auxiliaries in every position: they must not show
			for x in 0..1u64 << anc.len().min(3) {
				let mut st = st0.clone();
				for (k, i) in anc.iter().enumerate().take(3) {
					st[*i] = x >> k & 1 == 1;
				}
				let ans = st.clone();
				script.answer(move |_| Ok(vec![ans.clone()]));
				gen.reset();
				let (_, view, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
				let got: BTreeSet<u8> = rep.iter().map(|l| **l).collect();
				ctx.states += 1;
				ctx.traces += 1;
				ctx.transitions += 1;
				if got != want {
					return Err(format!("{:?} at {:?} with {:?}: reported {:?}, violated are {:?} ({})", t, view, dict, got, want, R::NAME));
				}
				ctx.outcome_of(&(got.len(), a));
			}
		}
		if !cons.is_empty() {
			ctx.nontrivial += 1;
		}
		ctx.sample(|| format!("{:?} [{}]", t, R::NAME));
		Ok(())
	})
}

pub fn s02(thorough: bool) -> Property {
	let mut f = Vec::new();
	let k = if thorough { 4 } else { 3 };
	for ty in 0..7usize {
		let k = if ty < 2 { k } else { 3 };
		let leaves = vec![B(0), S(1), N(-1), N(2), P(0)];
		let trees = Trees::new(leaves, vec![0, 1, 2], k);
		f.push(family(&format!("bodies of {} leaves, {}", k, TYPES[ty]), trees.upto(k) * 6, move |i, ctx| {
			let t = trees.get_upto(i / 6);
			let e = match i % 6 {
				3 => pen(con(3, t), add(con(4, sub(N(1), B(3))), con(5, S(0)))),
				4 => pen(con(1, S(0)), con(2, t)),
				5 => add(pen(pen(con(1, B(3)), con(2, t.clone())), con(0, B(0))), neg(con(3, sub(N(1), B(1))))),
				0 => con(7, t),
				1 => sub(add(con(0, t.clone()), B(2)), con(1, sub(N(2), t))),
				_ => pen(S(0), mul(N(2), con(9, add(con_free(&t), B(3))))),
			};
			fn go<R: Num>(e: &T, ctx: &mut Ctx) -> Result<(), String> {
				for p in [0, 1, 2, 3] {
					let dict: BTreeMap<u8, R> = e.placeholders().into_iter().map(|x| (x, number::<R>(p))).collect();
					s02_case::<R>(e, &|k| R::int(k), &dict, ctx)?;
					if dict.is_empty() {
						break;
					}
				}
				Ok(())
			}
			if R_small(ty) && e.norm(6.0) > 120.0 {
				return Ok(());
			}
			with_type!(ty, R, go::<R>(&e, ctx))
		}).chunk(16));
	}
	f.push(family("values around the tolerance", 8 * 8 * 6 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let a = d.next(8) as i32;
		let b = d.next(8) as i32;
		let sh = d.next(6);
		let ty = d.next(2);
		let t = match sh {
			0 => con(0, add(mul(N(a), B(0)), mul(N(b), B(1)))),
			1 => con(0, sub(mul(N(a), B(0)), mul(B(0), N(b)))),
			2 => add(con(0, mul(N(a), S(0))), con(1, mul(S(1), N(b)))),
			3 => con(0, add(N(a), mul(N(b), B(0)))),
			4 => sub(con(0, sub(mul(N(a), S(0)), N(b))), con(0, mul(N(b), B(1)))),
			_ => con(0, add(mul(N(a), mul(B(0), B(1))), mul(N(b), B(2)))),
		};
		fn v<R: Num>(k: i32) -> R {
			R::from_float([0.0, 4e-5, -4e-5, 3e-4, -3e-4, 1.0, -1.0, 1e-9][k as usize])
		}
		if ty == 0 {
			s02_case::<f64>(&t, &v::<f64>, &BTreeMap::new(), ctx)
		} else {
			s02_case::<f32>(&t, &v::<f32>, &BTreeMap::new(), ctx)
		}
	}));
	// numbers of very different magnitude in one body
	f.push(family("tiny and huge factors", 9 * 9 * 12 * 2 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let (a, b) = (d.next(9) as i32, d.next(9) as i32);
		let sh = d.next(12);
		let ty = d.next(2);
		let c = 10 + d.next(3) as i32;
		// keep away from overflow
		if sh == 6 && a + b > 12 {
			return Ok(());
		}
		let t = match sh {
			0 => con(0, mul(mul(B(0), N(a)), N(b))),
			1 => con(0, mul(N(a), mul(N(b), B(0)))),
			2 => con(0, mul(mul(N(a), B(0)), mul(N(b), B(1)))),
			3 => con(0, mul(mul(N(a), N(b)), sub(B(0), B(1)))),
			4 => con(0, mul(N(a), sub(mul(N(b), B(0)), mul(N(b), B(1))))),
			5 => con(0, mul(mul(N(a), sub(B(0), N(c))), mul(N(b), sub(B(1), N(c))))),
			6 => con(0, mul(pow(mul(N(a), B(0)), 2), pow(mul(N(b), S(1)), 2))),
			7 => con(0, add(mul(N(a), B(0)), mul(N(b), B(1)))),
			8 => con(0, sub(mul(mul(N(a), S(0)), N(b)), mul(N(c), S(1)))),
			9 => add(con(0, mul(N(a), mul(B(0), N(b)))), con(1, mul(N(b), mul(S(1), N(a))))),
			10 => con(0, mul(N(a), add(mul(N(b), mul(B(0), B(1))), mul(N(c), B(2))))),
			_ => con(0, neg(mul(mul(N(a), add(B(0), B(1))), neg(mul(N(b), N(c)))))),
		};
		fn v<R: Num>(k: i32) -> R {
			let x: f64 = match k {
				0 => 1.3e-18,
				1 => 1.7e-13,
				2 => -1.9e-11,
				3 => 2.3e-7,
				4 => 2.9e-3,
				5 => 3.1e4,
				6 => -3.7e8,
				7 => 4.1e12,
				8 => 4.3e16,
				k => [1.0, -1.0, 0.5][k as usize % 10],
			};
			R::from_float(x)
		}
		if ty == 0 {
			s02_case::<f64>(&t, &v::<f64>, &BTreeMap::new(), ctx)
		} else {
			s02_case::<f32>(&t, &v::<f32>, &BTreeMap::new(), ctx)
		}
	}));
	f.push(family("wide and high-order bodies", 10 * 3 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let sh = d.next(10);
		let ty = d.next(3);
		let k = d.next(3) as i32;
		let l = |n: u8| sum((0..n).map(B).collect());
		let t = match sh {
			0 => con(0, sub(l(6), N(k))),
			1 => con(0, pow(sub(l(4), N(k)), 2)),
			2 => con(0, prod(vec![B(0), B(1), B(2)])),
			3 => add(con(0, prod(vec![B(0), B(1), B(2), B(3)])), con(1, sub(l(4), N(k)))),
			4 => add(con(0, pow(sub(l(3), N(k)), 3)), con(1, S(0))),
			5 => sum((0..6).map(|x| con(x, sub(B(x), N(k / 2)))).collect()),
			6 => sum((0..6).map(|x| con(x / 2, sub(B(x), N(k)))).collect()),
			7 => add(con(0, neg(prod(vec![S(0), B(1), B(2)]))), prod(vec![B(1), B(2), B(3)])),
			8 => add(con(0, N(k)), mul(con(1, N(1)), B(0))),
			_ => add(mul(B(5), con(0, sub(B(0), B(1)))), neg(con(1, sub(B(0), mul(N(k), B(1)))))),
		};
		match ty {
			0 => s02_case::<i32>(&t, &|k| k, &BTreeMap::new(), ctx),
			1 => s02_case::<f64>(&t, &|k| k as f64, &BTreeMap::new(), ctx),
			_ => s02_case::<i128>(&t, &|k| k as i128, &BTreeMap::new(), ctx),
		}
	}).chunk(1));
	// big whole numbers: a violation must not be lost in conversion
	f.push(family("large bodies of whole-number types", 7 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(4);
		let sh = d.next(7);
		let t = con(0, match sh {
			0 => mul(N(2), B(0)),
			1 => mul(N(-2), B(0)),
			2 => add(mul(N(2), B(0)), N(-2)),
			3 => add(mul(N(2), B(0)), mul(N(-3), B(0))),
			4 => sub(mul(N(3), B(0)), mul(N(2), B(1))),
			5 => add(N(2), mul(N(-2), B(1))),
			_ => mul(N(2), S(0)),
		});
		fn go<R: Num>(t: &T, ctx: &mut Ctx) -> Result<(), String> {
			let m: i128 = match R::NAME {
				"i16" => 1 << 10,
				"i32" => 1 << 25,
				"i64" => 1 << 56,
				_ => 1 << 100,
			};
			s02_case::<R>(t, &|k| R::big(m * if k == 3 { 1 } else { k.signum() as i128 } + if k == 3 { 1 } else { 0 } - if k == -3 { 1 } else { 0 }), &BTreeMap::new(), ctx)
		}
		match ty {
			0 => go::<i16>(&t, ctx),
			1 => go::<i32>(&t, ctx),
			2 => go::<i64>(&t, ctx),
			_ => go::<i128>(&t, ctx),
		}
	}).chunk(1));
	f.extend(crate::p_size::s02());
	Property {
		id: "S02",
		rule: "A state is one (expression, placeholder values, assignment of all variables including auxiliaries) at which the set of reported labels is compared with the labels whose body is non-zero; a transition is one round; an execution is one call of the search. Non-trivial: the expression has a constraint.",
		bounds: "bodies of at most 3 (thorough 4) leaves with a placeholder, in three surroundings and every type; float bodies with values 1e-9 to 3e-4 around the tolerance and with factors from 1e-18 to 1e16; wide, high-order, repeated-label and constant bodies; up to 1025 constraints, and one constraint over up to 65 variables",
		assumptions: vec!["how often a label is reported when several constraints share it is left open".to_string()],
		families: f,
	}
}

#[allow(non_snake_case)]
fn R_small(ty: usize) -> bool {
	ty == 5
}

/// a tree without placeholders
fn con_free(t: &T) -> T {
	t.subst(&|_| Some(1))
}

// ---------------------------------------------------------------- S03

/// Releases solvers in a forced order.
struct Gate {
	order: Vec<usize>,
	next: Mutex<usize>,
	cv: Condvar,
	broken: AtomicBool,
}

impl Gate {
	fn new(order: Vec<usize>) -> Self {
		Gate { order, next: Mutex::new(0), cv: Condvar::new(), broken: AtomicBool::new(false) }
	}
	/// wait for the turn of `k` to finish; gives up when the pool cannot run
	/// that many at a time
	fn pass(&self, k: usize) {
		let Some(pos) = self.order.iter().position(|x| *x == k) else { return };
		let mut n = self.next.lock().unwrap();
		while *n < pos && !self.broken.load(SeqCst) {
			let (g, t) = self.cv.wait_timeout(n, Duration::from_millis(400)).unwrap();
			n = g;
			if t.timed_out() {
				self.broken.store(true, SeqCst);
			}
		}
		*n += 1;
		self.cv.notify_all();
	}
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
	if n == 0 {
		return vec![vec![]];
	}
	let mut out = Vec::new();
	for p in permutations(n - 1) {
		for i in 0..n {
			let mut q = p.clone();
			q.insert(i, n - 1);
			out.push(q);
		}
	}
	out.sort();
	out
}

fn pool(n: usize) -> rayon::ThreadPool {
	rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

fn s03_expr(which: usize) -> T {
	match which {
		// energies 0, -3, 2, -5 : no ties
		0 => sum(vec![mul(N(-3), B(0)), mul(N(2), B(1)), mul(mul(N(-4), B(0)), B(1))]),
		// ties
		1 => sum(vec![B(0), B(1), mul(mul(N(-2), B(0)), B(1))]),
		// positive and negative around zero, with a constraint and a constant
		2 => sum(vec![mul(N(5), B(0)), N(-7), con(0, sub(B(0), B(1)))]),
		// all equal
		_ => sum(vec![mul(N(0), B(0)), mul(N(0), B(1)), N(1)]),
	}
}

/// every combination of answers in one round
fn s03_case<R: Num>(which: usize, samples: usize, per: usize, ctx: &mut Ctx) -> Result<(), String> {
	let t = s03_expr(which);
	let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
	with_rig(e, none(), R::int(4), |s, o, gen, script| {
		s.iterations = 1;
		s.generations = 1;
		s.samples = samples;
		let n = o.m.n;
		let k = 1usize << n;
		dfs(vec![], |ch| {
			let answers: Vec<Vec<Vec<bool>>> = {
				let mut c = ch.lock().unwrap();
				(0..samples)
					.map(|_| {
						let m = if per == 1 { 1 } else { 1 + c.choose(per) };
						(0..m).map(|_| bits(c.choose(k) as u64, n)).collect()
					})
					.collect()
			};
			let a2 = answers.clone();
			script.answer(move |call| Ok(a2[call.gen].clone()));
			gen.reset();
			let (value, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let best = answers.iter().flatten().map(|s| o.m.energy(s)).fold(None, |m: Option<R>, e| match m {
				Some(m) if m <= e => Some(m),
				_ => Some(e),
			}).unwrap();
			let st = state_of(o, &view);
			ctx.states += 1;
			ctx.traces += 1;
			ctx.transitions += samples as u64;
			if !answers.iter().flatten().any(|s| *s == st) {
				return Err(format!("{:?}: {:?} was returned but answered were {:?}", t, st, answers));
			}
			if !o.m.energy(&st).close(best) || !value.close(best + o.offset) {
				return Err(format!("{:?}: {:?} with {} was returned; the best of {:?} has energy {} ({})", t, st, value, answers, best, R::NAME));
			}
			ctx.outcome_of(&st);
			Ok(())
		})?;
		ctx.nontrivial += 1;
		ctx.sample(|| format!("{:?} [{}], {} samples of up to {}", t, R::NAME, samples, per));
		Ok(())
	})
}

fn state_of<R: Num>(o: &Obs<u8, R>, v: &rustqubo::solution::SolutionView<u8, R>) -> Vec<bool> {
	let mut s = vec![false; o.m.n];
	for (l, i) in &o.labels {
		s[*i] = v.get(l).unwrap();
	}
	s
}

/// the same answers under every completion order and several pools
fn s03_orders(which: usize, samples: usize, code: u64, two_rounds: bool, ctx: &mut Ctx) -> Result<(), String> {
	let t = s03_expr(which);
	let e: Expr<(), u8, u8, f64> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &|k| k as f64 });
	with_rig(e, none(), 4.0, |s, o, gen, script| {
		s.iterations = 1;
		s.generations = if two_rounds { 2 } else { 1 };
		s.samples = samples;
		let n = o.m.n;
		let mut d = Digits(code);
		let answers: Vec<Vec<Vec<bool>>> = (0..samples).map(|_| vec![bits(d.next(1 << n) as u64, n)]).collect();
		let mut first: Option<(String, Vec<bool>, Vec<u8>)> = None;
		let mut runs: Vec<(usize, Option<Vec<usize>>)> = vec![(1, None), (2, None), (3, None)];
		for p in permutations(samples) {
			runs.push((samples.max(2), Some(p)));
		}
		for (threads, order) in runs {
			let a2 = answers.clone();
			let gate = order.clone().map(|o| Arc::new(Gate::new(o)));
			let round2 = gate.clone().map(|g| Arc::new(Gate::new(g.order.clone())));
			let (g2, r2) = (gate.clone(), round2.clone());
			script.answer(move |call| {
				let (r, k) = (call.gen / samples, call.gen % samples);
				if let Some(g) = if r == 0 { &g2 } else { &r2 } {
					g.pass(k);
				}
				// in the second round the answers are rotated
				Ok(a2[(k + r) % samples].clone())
			});
			gen.reset();
			let s = &*s;
			let r = std::thread::scope(|_| pool(threads).install(|| s.solve_with_constraints()));
			let (value, view, unsat) = r.map_err(|e| e.to_string())?;
			let got = (format!("{:?}", value), state_of(o, &view), unsat.iter().map(|x| **x).collect::<Vec<u8>>());
			ctx.states += 1;
			ctx.traces += 1;
			ctx.transitions += samples as u64;
			if gate.map_or(false, |g| g.broken.load(SeqCst)) {
				ctx.note("completion orders given up");
			} else if order.is_some() {
				ctx.note("completion orders forced");
			}
			match &first {
				None => first = Some(got),
				Some(f) => {
					if *f != got {
						return Err(format!(
							"{:?}: answers {:?} give {:?} with one thread and {:?} with {} threads finishing in order {:?}",
							t, answers, f, got, threads, order
						));
					}
				}
			}
		}
		ctx.nontrivial += 1;
		ctx.outcome_of(&format!("{:?}", first));
		Ok(())
	})
}

pub fn s03(thorough: bool) -> Property {
	let mut f = Vec::new();
	for (samples, per) in [(1usize, 1usize), (1, 3), (2, 1), (2, 2), (3, 1), (4, 1), (5, 1), (3, 2)] {
		if per == 2 && samples == 3 && !thorough {
			continue;
		}
		f.push(family(&format!("answers of {} samples of at most {}", samples, per), 4 * if samples * per > 4 { 2 } else { 7 }, move |i, ctx| {
			let mut d = Digits(i);
			let which = d.next(4);
			let ty = d.next(7);
			with_type!(ty, R, s03_case::<R>(which, samples, per, ctx))
		}).chunk(1));
	}
	for samples in [2usize, 3, 4] {
		let k = 4u64.pow(samples as u32);
		let k = if samples == 4 && !thorough { 64 } else { k };
		f.push(family(&format!("completion orders of {} samples", samples), k * 4 * if samples < 4 { 2 } else { 1 }, move |i, ctx| {
			let mut d = Digits(i);
			let which = d.next(4);
			let two = samples < 4 && d.next(2) == 1;
			let code = if samples == 4 && !ctx.thorough { d.0 * 4 + d.0 % 4 } else { d.0 };
			s03_orders(which, samples, code, two, ctx)
		}).chunk(8));
	}
	f.extend(crate::p_size::s03(thorough));
	Property {
		id: "S03",
		rule: "A state is one complete set of answers of a round (and, for order families, one completion order and pool size); a transition is one answer of a solver; an execution is one call of the search. The result must be a sample of least energy, and identical for every completion order and pool. Non-trivial: more than one answer or order is compared.",
		bounds: "all answers of at most 5 samples of one solution, 2 (thorough 3) samples of at most two, over 2 variables, with and without ties; all completion orders of 2 to 4 samples over one and two rounds, pools of 1, 2, 3 and as many threads as samples; every position of the best among up to 72 (300) samples or solutions, some of 1000",
		assumptions: vec!["a completion order that cannot be forced within 0.4 s (fewer solvers run at a time) is given up and counted in the notes; the results are still compared".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- histories

/// One executed round of a history.
#[derive(Clone)]
struct Round<R: Num> {
	strengths: Vec<R>,
	model: Arc<Dense<R>>,
	answers: Vec<Vec<bool>>,
}

struct History<R: Num> {
	rounds: Vec<Round<R>>,
	result: (R, Vec<bool>, BTreeSet<u8>),
	offset: R,
	gens: usize,
	solves: usize,
}

/// m constraints, number i violated when its own variable i is true; y further
/// variables 100.. with weights that move the objective.
fn hist_expr(m: usize, y: usize, names: &[u8]) -> T {
	let mut t: Vec<T> = (0..m).map(|i| con(names[i], B(names[i]))).collect();
	for j in 0..y {
		t.push(mul(N([-100, 37, 30][j % 3]), B(100 + j as u8)));
	}
	t.push(N(3));
	sum(t)
}

struct HistCfg {
	m: usize,
	y: usize,
	samples: usize,
	gens: usize,
	iters: usize,
	coeff: i64,
	/// factor on the objective's weights
	scale: i64,
	/// with an auxiliary condition, which answers may violate
	aux: bool,
}

impl Default for HistCfg {
	fn default() -> Self {
		HistCfg { m: 1, y: 0, samples: 1, gens: 1, iters: 1, coeff: 50, scale: 1, aux: false }
	}
}

fn on_labels<R: Num>(o: &Obs<u8, R>, a: &[bool], b: &[bool]) -> bool {
	o.labels.iter().all(|(_, i)| a[*i] == b[*i])
}

/// Explore every history; `choose` picks the answer of one sample.
fn histories<R: Num>(
	c: &HistCfg,
	names: &[u8],
	mut each: impl FnMut(&History<R>, &Obs<u8, R>, &mut Ctx) -> Result<(), String>,
	fixed: Option<&dyn Fn(usize) -> usize>,
	ctx: &mut Ctx,
) -> Result<u64, String> {
	let mut t = hist_expr(c.m, c.y, names);
	if c.aux {
		// a coefficient of unknown sign: reducing the order adds a condition
		t = add(mul(sub(P(0), N(1)), prod((110..113).map(B).collect())), t);
	}
	let scale = |k: i32| if k.abs() >= 30 { R::big(k as i128 * c.scale as i128) } else { R::int(k) };
	let e: Expr<u8, u8, u8, R> = t.build(&Lab { p: &|x| x, q: &|x| x, c: &|x| x, n: &scale });
	let (m, y, samples) = (c.m, c.y, c.samples);
	let dict: HashMap<u8, R> = t.placeholders().into_iter().map(|p| (p, R::int(2))).collect();
	with_rig(e, dict, R::big(c.coeff as i128), |s, o, gen, script| {
		s.iterations = c.iters;
		s.generations = c.gens;
		s.samples = samples;
		let n = o.m.n;
		let pos: Vec<usize> = (0..m).map(|i| o.index(&names[i]).unwrap()).collect();
		let mut ypos: Vec<usize> = (0..y).map(|j| o.index(&(100 + j as u8)).unwrap()).collect();
		ypos.extend(o.ancillas());
		let free = m + ypos.len();
		let limit = c.gens * c.iters;
		dfs(vec![], |ch| {
			let log: Arc<Mutex<Vec<(usize, Vec<bool>)>>> = Default::default();
			let (c2, l2, p2, y2) = (ch.clone(), log.clone(), pos.clone(), ypos.clone());
			let table: Option<Vec<usize>> = fixed.map(|f| (0..limit * samples).map(f).collect());
			script.answer(move |call| {
				let k = match &table {
					Some(t) => t.get(call.gen).copied().unwrap_or(0),
					None => c2.lock().unwrap().choose(1 << free),
				};
				let mut st = vec![false; call.model.n];
				for (i, p) in p2.iter().chain(y2.iter()).enumerate() {
					st[*p] = k >> i & 1 == 1;
				}
				l2.lock().unwrap().push((call.gen, st.clone()));
				Ok(vec![st])
			});
			gen.reset();
			let over = Arc::new(AtomicBool::new(false));
			let o2 = over.clone();
			script.create(move |g| {
				if g >= limit * samples {
					o2.store(true, SeqCst);
					return Err(Fail(9999));
				}
				Ok(())
			});
			let r = s.solve_with_constraints();
			if over.load(SeqCst) {
				return Err(format!("{:?}: more than {} restarts x {} generations x {} samples were asked for", t, c.iters, c.gens, samples));
			}
			let (value, view, unsat) = r.map_err(|e| e.to_string())?;
			let models = gen.models();
			let mut log = log.lock().unwrap().clone();
			log.sort_by_key(|x| x.0);
			let mut rounds = Vec::new();
			for r in 0..models.len() / samples {
				let model = models[r * samples].clone();
				rounds.push(Round {
					strengths: pos.iter().map(|p| model.get(*p, *p)).collect(),
					model,
					answers: log.iter().filter(|x| x.0 / samples == r).map(|x| x.1.clone()).collect(),
				});
			}
			ctx.states += rounds.len() as u64;
			ctx.transitions += log.len() as u64;
			ctx.traces += 1;
			let h = History {
				result: (value, state_of(o, &view), unsat.iter().map(|x| **x).collect()),
				rounds,
				offset: o.offset,
				gens: models.len(),
				solves: gen.solves(),
			};
			assert_eq!(n, free + if c.aux { 3 } else { 0 });
			each(&h, o, ctx).map_err(|e| {
				let hist: Vec<String> = h
					.rounds
					.iter()
					.map(|r| format!("{:?}->{:?}", r.strengths.iter().map(|x| x.f()).collect::<Vec<_>>(), r.answers))
					.collect();
				format!("{:?} {} coeff {}: {} [{}]", t, R::NAME, c.coeff, e, hist.join("; "))
			})
		})
	})
}

// ---------------------------------------------------------------- S04

fn s04_rules<R: Num>(c: &HistCfg, names: &[u8], h: &History<R>, o: &Obs<u8, R>) -> Result<(), String> {
	let m = c.m;
	let pos: Vec<usize> = (0..m).map(|i| o.index(&names[i]).unwrap()).collect();
	for (r, rd) in h.rounds.iter().enumerate() {
		let s: Vec<f64> = rd.strengths.iter().map(|x| x.f()).collect();
		let total: f64 = s.iter().sum();
		let tol = if R::FLOAT {
			c.coeff as f64 * if R::NAME == "f32" { 1e-4 } else { 1e-9 }
		} else {
			m as f64
		};
		if (total - c.coeff as f64).abs() > tol {
			return Err(format!("round {}: strengths add up to {} instead of {}", r, total, c.coeff));
		}
		if let Some(x) = s.iter().find(|x| **x < 0.0 || !x.is_finite()) {
			return Err(format!("round {}: a strength is {}", r, x));
		}
		if r % c.gens == 0 {
			if s.iter().any(|x| *x != s[0] && (x - s[0]).abs() > s[0] * 1e-9) || s[0] <= 0.0 {
				return Err(format!("round {} starts a restart with strengths {:?}", r, s));
			}
			continue;
		}
		// change since the round before, which had violations
		let prev = &h.rounds[r - 1];
		let p: Vec<f64> = prev.strengths.iter().map(|x| x.f()).collect();
		let best = prev.answers.iter().fold(None, |b: Option<&Vec<bool>>, a| match b {
			Some(b) if prev.model.energy(b) <= prev.model.energy(a) => Some(b),
			_ => Some(a),
		}).unwrap();
		let ties = prev.answers.iter().filter(|a| prev.model.energy(a).close(prev.model.energy(best)) && *a != best).count();
		if ties > 0 {
			continue;
		}
		let first = (r - 1) % c.gens == 0;
		let (lo, hi) = if R::FLOAT { (0.0, 0.0) } else { (-1.0, 1.0) };
		for i in 0..m {
			for j in 0..m {
				if !best[pos[i]] || best[pos[j]] {
					continue;
				}
				// ratio of violated i to satisfied j, before and after
				let eps = if R::NAME == "f32" { 1e-5 } else { 1e-12 };
				if (s[i] + hi) * (p[j] + hi) < (p[i] + lo) * (s[j] + lo) * (1.0 - eps) {
					return Err(format!("round {}: constraint {} was violated and {} was not, but the strengths went from {:?} to {:?}", r, i, j, p, s));
				}
				if first && (R::FLOAT || c.coeff >= 100_000) {
					let (lo, hi) = if R::FLOAT { (0.0, 0.0) } else { (-1.0, 1.0) };
					if (s[i] + lo) * (p[j] + lo) <= (p[i] + hi) * (s[j] + hi) * (1.0 + eps) {
						return Err(format!("round {}: constraint {} was violated and {} was not in the first round, but the strengths went from {:?} to {:?}", r, i, j, p, s));
					}
				}
			}
		}
	}
	Ok(())
}

fn s04_case<R: Num>(c: &HistCfg, ctx: &mut Ctx) -> Result<(), String> {
	let names: Vec<u8> = (0..c.m as u8).collect();
	// histories under the natural order, then under every other order of labels
	let mut seen: Vec<Vec<Vec<f64>>> = Vec::new();
	let orders = if c.m <= 3 { permutations(c.m) } else { vec![names.iter().map(|x| *x as usize).collect(), names.iter().rev().map(|x| *x as usize).collect()] };
	for (k, p) in orders.iter().enumerate() {
		let names: Vec<u8> = p.iter().map(|x| *x as u8 * 3).collect();
		let mut at = 0;
		let n = histories::<R>(c, &names, |h, o, ctx| {
			s04_rules(c, &names, h, o)?;
			let st: Vec<Vec<f64>> = h.rounds.iter().map(|r| r.strengths.iter().map(|x| x.f()).collect()).collect();
			if k == 0 {
				ctx.outcome_of(&format!("{:?}", st));
				if seen.len() < 200_000 {
					seen.push(st);
				}
			} else if let Some(f) = seen.get(at) {
				let same = f.len() == st.len()
					&& f.iter().flatten().zip(st.iter().flatten()).all(|(a, b)| (a - b).abs() <= 1e-9 * a.abs().max(1.0));
				if !same {
					return Err(format!("with the labels in order {:?} the strengths are {:?}, otherwise {:?}", names, st, f));
				}
			}
			at += 1;
			Ok(())
		}, None, ctx)?;
		ctx.nontrivial += n;
	}
	ctx.sample(|| format!("{} constraints, {} samples, {} generations, {} restarts, total {} [{}]", c.m, c.samples, c.gens, c.iters, c.coeff, R::NAME));
	Ok(())
}

pub fn s04(thorough: bool) -> Property {
	let mut f = Vec::new();
	// (constraints, objective variables, samples, generations, restarts)
	let mut cfg: Vec<(usize, usize, usize, usize, usize)> = vec![
		(1, 1, 1, 3, 2),
		(2, 0, 1, 4, 1),
		(2, 0, 1, 2, 2),
		(2, 1, 1, 3, 1),
		(3, 0, 1, 3, 1),
		(3, 1, 1, 2, 1),
		(2, 1, 1, 2, 2),
		(3, 0, 1, 2, 2),
		(2, 0, 2, 2, 1),
		(4, 0, 1, 3, 1),
		(2, 2, 1, 3, 1),
		(2, 1, 1, 4, 1),
		(1, 2, 1, 4, 1),
	];
	if thorough {
		cfg.extend([(3, 1, 1, 3, 1), (2, 0, 1, 6, 1), (2, 1, 1, 3, 2), (3, 0, 1, 4, 1), (2, 1, 2, 2, 1), (5, 0, 1, 3, 1), (2, 1, 1, 5, 1)]);
	}
	let coeffs: [(usize, i64); 9] = [(1, 50), (1, 1), (1, 1000), (1, 100_000_000), (0, 50), (0, 1_000_000), (2, 1_000_000_000), (3, 50), (4, 1000)];
	let c2 = cfg.clone();
	f.push(family("all histories", cfg.len() as u64 * 9, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, coeff) = *d.pick(&coeffs);
		let (m, y, samples, gens, iters) = *d.pick(&c2);
		let c = HistCfg { m, y, samples, gens, iters, coeff, ..Default::default() };
		with_type!(ty, R, s04_case::<R>(&c, ctx))
	}).chunk(1));
	// long histories with two alternating sets of violated constraints
	f.push(family("long periodic histories", 7 * 7 * 3 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let (a, b) = (1 + d.next(7), 1 + d.next(7));
		let per = 1 + d.next(3);
		let (gens, iters) = [(30, 10), (60, 2), (200, 1), (7, 13)][d.next(4)];
		fn go<R: Num>(a: usize, b: usize, per: usize, gens: usize, iters: usize, coeff: i64, ctx: &mut Ctx) -> Result<(), String> {
			let c = HistCfg { m: 3, y: 0, samples: 1, gens, iters, coeff, ..Default::default() };
			let names = [5u8, 1, 9];
			let n = histories::<R>(&c, &names, |h, o, _| {
				if h.rounds.len() != gens * iters {
					return Err(format!("{} rounds instead of {}", h.rounds.len(), gens * iters));
				}
				s04_rules(&c, &names, h, o)
			}, Some(&|r| if r % (per + 1) < per { a } else { b }), ctx)?;
			ctx.nontrivial += n;
			Ok(())
		}
		go::<f64>(a, b, per, gens, iters, 50, ctx)?;
		go::<i32>(a, b, per, gens, iters, 1_000_000, ctx)?;
		go::<i32>(a, b, per, gens, iters, 50, ctx)
	}).chunk(4));
	// many constraints
	f.push(family("up to 40 constraints", 40 * 4, move |i, ctx| {
		let m = 1 + i as usize / 4;
		fn go<R: Num>(m: usize, coeff: i64, ctx: &mut Ctx) -> Result<(), String> {
			let names: Vec<u8> = (0..m).map(|k| (k * 7 % 97) as u8).collect();
			let c = HistCfg { m, y: 0, samples: 1, gens: 5, iters: 2, coeff, ..Default::default() };
			let n = histories::<R>(&c, &names, |h, o, _| s04_rules(&c, &names, h, o), Some(&|r| [1usize, (1 << m) - 1, 1 << (m / 2), 3 & ((1 << m) - 1), 1 << (m - 1)][r * 3 % 5]), ctx)?;
			ctx.nontrivial += n;
			Ok(())
		}
		match i % 4 {
			0 => go::<f64>(m, 50, ctx),
			1 => go::<f64>(m, 7, ctx),
			2 => go::<i32>(m, 50, ctx),
			_ => go::<i64>(m, 1_000_000_000, ctx),
		}
	}).chunk(4));
	// auxiliary conditions, violated and not: they have no strength
	f.push(family("auxiliary conditions in the answers", 6 * 5, move |i, ctx| {
		let mut d = Digits(i);
		let (m, y, samples, gens, iters) = [(1, 0, 1, 4, 1), (1, 1, 1, 3, 1), (2, 0, 1, 3, 1), (2, 0, 1, 2, 2), (1, 0, 2, 2, 1), (2, 1, 1, 2, 1)][d.next(6)];
		let (ty, coeff) = [(1, 50), (0, 1000), (1, 100_000), (3, 50), (2, 1_000_000)][d.next(5)];
		let c = HistCfg { m, y, samples, gens, iters, coeff, aux: true, ..Default::default() };
		with_type!(ty, R, s04_case::<R>(&c, ctx))
	}).chunk(1));
	// objectives far larger than the strengths, and far smaller
	f.push(family("large objective values", 5 * 8, move |i, ctx| {
		let mut d = Digits(i);
		let (m, y, samples, gens, iters) = [(1, 1, 1, 3, 2), (2, 1, 1, 3, 1), (2, 1, 1, 2, 2), (1, 2, 1, 3, 1), (1, 1, 2, 2, 1)][d.next(5)];
		let (ty, coeff, scale) = [(0, 1000, 100_000), (1, 50, 1_000_000_000), (1, 1, 1_000_000), (2, 1000, 1 << 50), (3, 50, 1000), (4, 90, 200), (6, 100, 1 << 56), (1, 1_000_000_000, 1)][d.next(8)];
		let c = HistCfg { m, y, samples, gens, iters, coeff, scale, ..Default::default() };
		with_type!(ty, R, s04_case::<R>(&c, ctx))
	}).chunk(1));
	// one label on several constraints, with fed placeholders around
	f.push(family("shared labels", 4 * 3, move |i, ctx| s04_shared(i, ctx)).chunk(1));
	f.extend(crate::p_size::s04());
	Property {
		id: "S04",
		rule: "A state is one round of one history, in which the strengths are read from the model handed to the solver and checked (total, signs, equality at a restart, direction of change since the previous round); a transition is one answer; an execution is one history, complete from the first round to the returned result. Every history is repeated with every order of the labels. Non-trivial: every history.",
		bounds: "all histories of up to 4 rounds over 1-4 constraints (thorough: 6 rounds, 5 constraints), with and without a moving objective, for totals 1 to 10^9 in five types; periodic histories of 120 to 300 rounds; up to 40 constraints; up to 1025 constraints over ten rounds",
		assumptions: vec![
			"rounds are grouped into restarts by the configured number of generations".to_string(),
			"rounding of whole-number types is given a slack of one per strength".to_string(),
		],
		families: f,
	}
}

fn s04_shared(i: u64, ctx: &mut Ctx) -> Result<(), String> {
	// labels 0,0,1: two distinct constraints by label
	let t = match i % 4 {
		0 => sum(vec![con(0, B(0)), con(0, B(1)), con(1, B(2))]),
		1 => sum(vec![con(1, B(2)), con(0, B(0)), mul(P(3), B(9)), con(0, B(1))]),
		2 => sum(vec![mul(N(1), con(0, B(0))), pen(con(0, B(1)), con(1, B(2)))]),
		_ => pen(sum(vec![con(0, B(0)), con(0, B(1))]), add(con(1, B(2)), mul(P(0), B(9)))),
	};
	fn go<R: Num>(t: &T, coeff: i64, ctx: &mut Ctx) -> Result<(), String> {
		let e: Expr<u8, u8, u8, R> = t.build(&Lab { p: &|x| x, q: &|x| x, c: &|x| x, n: &R::int });
		let dict: HashMap<u8, R> = t.placeholders().into_iter().map(|p| (p, R::int(2))).collect();
		with_rig(e, dict, R::big(coeff as i128), |s, o, gen, script| {
			s.iterations = 2;
			s.generations = 3;
			s.samples = 1;
			let pos: Vec<usize> = (0..3).map(|k| o.index(&k).unwrap()).collect();
			let n = dfs(vec![], |ch| {
				let (c2, p2) = (ch.clone(), pos.clone());
				script.answer(move |call| {
					let k = c2.lock().unwrap().choose(8);
					let mut st = vec![false; call.model.n];
					for (i, p) in p2.iter().enumerate() {
						st[*p] = k >> i & 1 == 1;
					}
					Ok(vec![st])
				});
				gen.reset();
				s.solve_with_constraints().map_err(|e| e.to_string())?;
				for (r, m) in gen.models().iter().enumerate() {
					let s: Vec<f64> = pos.iter().map(|p| m.get(*p, *p).f()).collect();
					let slack = if R::FLOAT { 1e-6 * coeff as f64 } else { 2.0 };
					if (s[0] - s[1]).abs() > 1e-9 * s[0] {
						return Err(format!("{:?}: one label has two strengths {:?} in round {}", t, s, r));
					}
					if (s[0] + s[2] - coeff as f64).abs() > slack {
						return Err(format!("{:?}: strengths {:?} of the two labels in round {} do not add up to {}", t, &s[1..], r, coeff));
					}
					if r % 3 == 0 && (s[0] - s[2]).abs() > 1e-9 * s[0] {
						return Err(format!("{:?}: round {} starts with {:?}", t, r, s));
					}
					ctx.states += 1;
					ctx.transitions += 1;
				}
				ctx.traces += 1;
				Ok(())
			})?;
			ctx.nontrivial += n;
			Ok(())
		})
	}
	match i / 4 {
		0 => go::<f64>(&t, 50, ctx),
		1 => go::<i32>(&t, 1000, ctx),
		_ => go::<f32>(&t, 10, ctx),
	}
}

// ---------------------------------------------------------------- S05

fn s05_rules<R: Num>(c: &HistCfg, names: &[u8], h: &History<R>, o: &Obs<u8, R>) -> Result<(), String> {
	let pos: Vec<usize> = (0..c.m).map(|i| o.index(&names[i]).unwrap()).collect();
	if h.gens % c.samples != 0 || h.solves != h.gens || h.gens == 0 {
		return Err(format!("{} solvers were created and {} solved for {} samples per round", h.gens, h.solves, c.samples));
	}
	let violated = |s: &Vec<bool>| -> BTreeSet<u8> { (0..c.m).filter(|i| s[pos[*i]]).map(|i| names[i]).collect() };
	let last = h.rounds.len() - 1;
	let mut fits = false;
	for (r, rd) in h.rounds.iter().enumerate() {
		if rd.answers.len() != c.samples {
			return Err(format!("round {} has {} samples instead of {}", r, rd.answers.len(), c.samples));
		}
		let best = rd.answers.iter().map(|a| rd.model.energy(a)).fold(None, |m: Option<R>, e| match m {
			Some(m) if m <= e => Some(m),
			_ => Some(e),
		}).unwrap();
		let mins: Vec<&Vec<bool>> = rd.answers.iter().filter(|a| rd.model.energy(a).close(best)).collect();
		let sat = mins.iter().filter(|a| violated(a).is_empty()).count();
		if sat == mins.len() && r != last {
			return Err(format!("the best of round {} satisfies everything but {} rounds were run", r, h.rounds.len()));
		}
		let (value, state, report) = &h.result;
		if mins.iter().any(|a| on_labels(o, a, state)) && *report == violated(state) && value.close(best + h.offset) {
			if report.is_empty() {
				fits |= r == last;
			} else {
				// not stopped early: every round is run
				fits |= h.rounds.len() == c.gens * c.iters;
			}
		}
		if sat == mins.len() && !report.is_empty() {
			return Err(format!("round {} is satisfied but {:?} is reported", r, report));
		}
	}
	if !fits {
		return Err(format!(
			"{:?} with {} and report {:?} is returned after {} of {} rounds, which fits no round's best sample",
			h.result.1, h.result.0, h.result.2, h.rounds.len(), c.gens * c.iters
		));
	}
	Ok(())
}

/// the first success in round `k` of gens x iters, or none
pub fn histories_rounds(gens: usize, iters: usize, k: usize, ctx: &mut Ctx) -> Result<(), String> {
	let c = HistCfg { m: 2, y: 1, samples: 1, gens, iters, coeff: 50, ..Default::default() };
	let names = [3u8, 2];
	let n = histories::<f64>(&c, &names, |h, o, _| {
		let want = (k + 1).min(gens * iters);
		if h.rounds.len() != want {
			return Err(format!("{} rounds of {} x {}, the first success is in round {}", h.rounds.len(), iters, gens, want));
		}
		s05_rules(&c, &names, h, o)
	}, Some(&|r| if r == k { 4 } else { 1 + r % 3 + r % 2 * 4 }), ctx)?;
	ctx.nontrivial += n;
	Ok(())
}

/// The same answer, which violates one constraint, in every round but number `k`.
pub fn histories_flat(gens: usize, iters: usize, k: usize, ctx: &mut Ctx) -> Result<(), String> {
	let c = HistCfg { m: 2, y: 1, samples: 1, gens, iters, coeff: 50, ..Default::default() };
	let names = [3u8, 2];
	let n = histories::<f64>(&c, &names, |h, o, _| {
		let want = (k + 1).min(gens * iters);
		if h.rounds.len() != want {
			return Err(format!("{} rounds of {} x {}, all alike, the first success is in round {}", h.rounds.len(), iters, gens, want));
		}
		s05_rules(&c, &names, h, o)
	}, Some(&|r| if r == k { 4 } else { 1 }), ctx)?;
	ctx.nontrivial += n;
	Ok(())
}

/// Hundreds of samples in each round, of which one satisfies all constraints, or none.
pub fn histories_samples(samples: usize, success: bool, ctx: &mut Ctx) -> Result<(), String> {
	let c = HistCfg { m: 2, y: 1, samples, gens: 2, iters: 2, coeff: 50, ..Default::default() };
	let names = [3u8, 2];
	let n = histories::<f64>(&c, &names, |h, o, _| {
		if h.rounds.len() != if success { 3 } else { 4 } {
			return Err(format!("{} rounds of {} samples", h.rounds.len(), samples));
		}
		s05_rules(&c, &names, h, o)
	}, Some(&|g| if success && g == 3 * samples - 1 { 4 } else { 1 }), ctx)?;
	ctx.nontrivial += n;
	Ok(())
}

pub fn s05(thorough: bool) -> Property {
	let mut f = Vec::new();
	let mut cfg: Vec<(usize, usize, usize, usize, usize)> = vec![
		(1, 1, 1, 3, 1),
		(1, 1, 1, 1, 4),
		(1, 2, 1, 2, 2),
		(2, 1, 1, 2, 2),
		(2, 1, 1, 4, 1),
		(1, 1, 2, 2, 1),
		(1, 1, 2, 1, 2),
		(1, 1, 2, 3, 1),
		(1, 1, 3, 2, 1),
		(2, 0, 2, 2, 1),
		(2, 0, 2, 1, 3),
		(1, 0, 4, 2, 1),
		(1, 0, 1, 5, 2),
		(1, 1, 1, 2, 3),
		(2, 1, 2, 2, 1),
		(3, 1, 1, 3, 1),
		(0, 2, 1, 3, 2),
		(0, 2, 3, 2, 2),
		(0, 1, 2, 1, 1),
	];
	if thorough {
		cfg.extend([(1, 1, 2, 2, 2), (2, 1, 1, 3, 2), (1, 2, 2, 2, 1), (2, 1, 1, 5, 1), (1, 1, 3, 3, 1), (2, 2, 1, 2, 2), (1, 1, 1, 4, 2), (1, 0, 3, 3, 2)]);
	}
	for (ty, coeff) in [(1usize, 50i64), (0, 50), (2, 200), (3, 10), (1, 1000)] {
		let c2 = cfg.clone();
		f.push(family(&format!("all histories, {} with total {}", TYPES[ty], coeff), cfg.len() as u64, move |i, ctx| {
			let (m, y, samples, gens, iters) = c2[i as usize];
			let c = HistCfg { m, y, samples, gens, iters, coeff, ..Default::default() };
			fn go<R: Num>(c: &HistCfg, ctx: &mut Ctx) -> Result<(), String> {
				let names: Vec<u8> = (0..c.m as u8).map(|x| 20 - x).collect();
				let n = histories::<R>(c, &names, |h, o, ctx| {
					ctx.outcome_of(&(h.rounds.len(), &h.result.1));
					s05_rules(c, &names, h, o)
				}, None, ctx)?;
				ctx.nontrivial += n;
				ctx.sample(|| format!("{} constraints, {} samples, {} generations, {} restarts [{}]", c.m, c.samples, c.gens, c.iters, R::NAME));
				Ok(())
			}
			with_type!(ty, R, go::<R>(&c, ctx))
		}).chunk(1));
	}
	// default settings: 10 restarts of 30 generations, the success in any round
	f.push(family("success in each of 300 rounds, defaults", 303, move |i, ctx| {
		let c = HistCfg { m: 2, y: 1, samples: 2, gens: 30, iters: 10, coeff: 50, ..Default::default() };
		let names = [3u8, 2];
		let n = histories::<f64>(&c, &names, |h, o, _| {
			let want = (i as usize + 1).min(300);
			if h.rounds.len() != want {
				return Err(format!("{} rounds, the first success is in round {}", h.rounds.len(), want));
			}
			s05_rules(&c, &names, h, o)
		}, Some(&|g| {
			let r = g / 2;
			if r as u64 == i {
				// satisfied best
				[4, 7][g % 2]
			} else {
				[1 + (r % 3), (r % 2) * 4 + 3][g % 2]
			}
		}), ctx)?;
		ctx.nontrivial += n;
		Ok(())
	}).chunk(8));
	let large = [(0usize, 1000i64, 100_000i64), (0, 50, 10_000), (1, 50, 1_000_000_000), (1, 1, 1_000_000), (2, 1000, 1 << 50), (3, 50, 1000), (3, 50, 100_000_000), (4, 90, 200), (6, 100, 1 << 56), (1, 1_000_000_000, 1)];
	let lc = [(1, 1, 1, 3, 2), (2, 1, 1, 3, 1), (1, 2, 1, 2, 2), (1, 1, 2, 2, 1), (0, 2, 2, 3, 1), (1, 2, 2, 1, 1)];
	fn rules<R: Num>(c: &HistCfg, ctx: &mut Ctx) -> Result<(), String> {
		let names: Vec<u8> = (0..c.m as u8).map(|x| 20 - x).collect();
		let n = histories::<R>(c, &names, |h, o, ctx| {
			ctx.outcome_of(&(h.rounds.len(), &h.result.1));
			s05_rules(c, &names, h, o)
		}, None, ctx)?;
		ctx.nontrivial += n;
		Ok(())
	}
	f.push(family("large objective values", large.len() as u64 * lc.len() as u64, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, coeff, scale) = *d.pick(&large);
		let (m, y, samples, gens, iters) = *d.pick(&lc);
		let c = HistCfg { m, y, samples, gens, iters, coeff, scale, ..Default::default() };
		with_type!(ty, R, rules::<R>(&c, ctx))
	}).chunk(1));
	f.push(family("auxiliary conditions in the answers", 6 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let (m, y, samples, gens, iters) = [(1, 0, 1, 4, 1), (1, 1, 1, 3, 1), (2, 0, 1, 2, 2), (1, 0, 2, 2, 1), (0, 1, 2, 2, 1), (2, 1, 1, 2, 1)][d.next(6)];
		let (ty, coeff) = [(1, 50), (0, 1000), (3, 50), (2, 1_000_000)][d.next(4)];
		let c = HistCfg { m, y, samples, gens, iters, coeff, aux: true, ..Default::default() };
		with_type!(ty, R, rules::<R>(&c, ctx))
	}).chunk(1));
	// the number of samples, and the default of it
	let top: u64 = if thorough { 130 } else { 48 };
	f.push(family("numbers of samples", top * 9, move |i, ctx| {
		let mut d = Digits(i);
		let (m, y) = (d.next(3), d.next(3));
		let samples = 1 + d.0 as usize;
		let c = HistCfg { m, y, samples, gens: 2, iters: 2, coeff: 50, ..Default::default() };
		let names: Vec<u8> = (0..m as u8).map(|x| 5 + x).collect();
		let k = 1 << (m + y);
		for shift in 0..k.min(8) {
			let n = histories::<f64>(&c, &names, |h, o, _| s05_rules(&c, &names, h, o), Some(&|g| if g % samples == (shift * 5) % samples { shift } else { k - 1 - (g + shift) % 2 % k }), ctx)?;
			ctx.nontrivial += n;
		}
		Ok(())
	}).chunk(2));
	// objective values far from zero: any best sample is acceptable
	f.push(family("rising and falling objectives", 6 * 4u64.pow(4), move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(6);
		fn go<R: Num>(ks: &[usize], ctx: &mut Ctx) -> Result<(), String> {
			let c = HistCfg { m: 1, y: 1, samples: 1, gens: 2, iters: 2, coeff: 20, ..Default::default() };
			let names = [1u8];
			let n = histories::<R>(&c, &names, |h, o, _| s05_rules(&c, &names, h, o), Some(&|r| ks[r % 4]), ctx)?;
			ctx.nontrivial += n;
			Ok(())
		}
		let ks: Vec<usize> = (0..4).map(|_| d.next(4)).collect();
		match ty {
			0 => go::<i32>(&ks, ctx),
			1 => go::<f64>(&ks, ctx),
			2 => go::<i64>(&ks, ctx),
			3 => go::<f32>(&ks, ctx),
			4 => go::<i16>(&ks, ctx),
			_ => go::<i128>(&ks, ctx),
		}
	}));
	f.extend(crate::p_size::s05());
	Property {
		id: "S05",
		rule: "A state is one round of one history (which constraints the samples violate, how the objective moves); a transition is one answer of a solver; an execution is one history. The number of rounds, the samples per round and the returned sample, value and report are compared with the stopping rule. Non-trivial: every history.",
		bounds: "all histories of up to 10 rounds over 0-3 constraints and 1-4 samples, within about 5000 histories per setting (thorough 65000), in four types; success in every one of the 300 rounds of the default settings; success in each of up to 600 rounds, also without progress; up to 1025 samples",
		assumptions: vec!["when a satisfying and a violating sample tie for the best, either may be taken".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- S06

pub fn s06_case<R: Num>(
	samples: usize,
	gens: usize,
	iters: usize,
	success: Option<usize>,
	faults: &[(bool, usize)],
	threads: usize,
	ctx: &mut Ctx,
) -> Result<(), String> {
	let t = sum(vec![con(0, B(0)), mul(N(-2), B(1)), N(1)]);
	let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
	with_rig(e, none(), R::int(10), |s, o, gen, script| {
		s.samples = samples;
		s.generations = gens;
		s.iterations = iters;
		let (p0, p1) = (o.index(&0).unwrap(), o.index(&1).unwrap());
		let hit: Arc<Mutex<Vec<usize>>> = Default::default();
		let rounds = Arc::new(AtomicUsize::new(0));
		let (h1, f1) = (hit.clone(), faults.to_vec());
		script.create(move |g| {
			if f1.contains(&(true, g)) {
				h1.lock().unwrap().push(2 * g);
				return Err(Fail(2 * g));
			}
			Ok(())
		});
		let (h2, f2, r2) = (hit.clone(), faults.to_vec(), rounds.clone());
		script.answer(move |call| {
			let r = call.gen / samples;
			r2.fetch_max(r + 1, SeqCst);
			if f2.contains(&(false, call.gen)) {
				h2.lock().unwrap().push(2 * call.gen + 1);
				return Err(Fail(2 * call.gen + 1));
			}
			let mut st = vec![false; call.model.n];
			st[p0] = success != Some(r);
			st[p1] = r % 2 == 0;
			Ok(vec![st])
		});
		gen.reset();
		let r = if threads == 0 {
			s.solve_with_constraints().map(|(v, w, u)| (v, state_of(o, &w), u.len()))
		} else {
			let s = &*s;
			pool(threads).install(|| s.solve_with_constraints().map(|(v, w, u)| (v, state_of(o, &w), u.len())))
		};
		let hit = hit.lock().unwrap().clone();
		ctx.states += 1;
		ctx.traces += 1;
		ctx.transitions += gen.gens() as u64 + gen.solves() as u64;
		let what = || format!("{} samples, {} x {} rounds, success in {:?}, failures at {:?} (true: creation), {} threads", samples, iters, gens, success, faults, threads);
		// which rounds must have been reached: the first with a fault, unless a
		// success came earlier
		let first_fault = faults.iter().map(|f| f.1 / samples).min();
		let reached = match (first_fault, success) {
			(Some(f), Some(s)) => f <= s,
			(Some(_), None) => true,
			_ => false,
		};
		match r {
			Err(Fail(k)) => {
				if !hit.contains(&k) {
					return Err(format!("{}: error {} is returned, which did not occur (occurred: {:?})", what(), k, hit));
				}
			}
			Ok((v, st, u)) => {
				if !hit.is_empty() {
					return Err(format!("{}: failures {:?} occurred but {:?} with {} and {} violations is returned", what(), hit, st, v, u));
				}
				if reached {
					return Err(format!("{}: the failing round is executed but {:?} is returned", what(), st));
				}
			}
		}
		if reached && hit.is_empty() {
			return Err(format!("{}: no failure occurred in a round that is executed", what()));
		}
		if reached {
			ctx.nontrivial += 1;
		}
		ctx.outcome_of(&hit);
		ctx.sample(what);
		Ok(())
	})
}

pub fn s06(thorough: bool) -> Property {
	let mut f = Vec::new();
	let shapes: Vec<(usize, usize, usize)> = if thorough {
		vec![(1, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (3, 2, 2), (2, 3, 2), (4, 2, 1), (5, 1, 1), (4, 3, 2), (8, 2, 1)]
	} else {
		vec![(1, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (2, 1, 2), (3, 2, 2), (2, 3, 2), (4, 2, 1), (5, 1, 1)]
	};
	for (samples, gens, iters) in shapes {
		let n = samples * gens * iters;
		let places = 2 * n as u64;
		let rounds = (gens * iters) as u64;
		let maxf: u64 = 1 + places + places * (places - 1) / 2;
		f.push(family(&format!("failures in {} samples x {} x {}", samples, iters, gens), maxf * (rounds + 1), move |i, ctx| {
			let success = (i % (rounds + 1)) as usize;
			let success = if success as u64 == rounds { None } else { Some(success) };
			let mut k = i / (rounds + 1);
			let place = |x: u64| (x % 2 == 0, (x / 2) as usize);
			let faults: Vec<(bool, usize)> = if k == 0 {
				vec![]
			} else if k <= places {
				vec![place(k - 1)]
			} else {
				k -= places + 1;
				let mut a = 0;
				while k >= places - 1 - a {
					k -= places - 1 - a;
					a += 1;
				}
				vec![place(a), place(a + 1 + k)]
			};
			s06_case::<f64>(samples, gens, iters, success, &faults, 0, ctx)?;
			if faults.len() < 2 || i % 3 == 0 {
				s06_case::<i32>(samples, gens, iters, success, &faults, 2, ctx)?;
				s06_case::<f64>(samples, gens, iters, success, &faults, 4, ctx)?;
			}
			Ok(())
		}).chunk(32));
	}
	// everything fails
	f.push(family("every call of one round fails", 4 * 3 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let samples = 1 + d.next(4);
		let round = d.next(3);
		let mode = d.next(4);
		let faults: Vec<(bool, usize)> = (0..samples).map(|k| (mode == 0 || (mode == 2 && k % 2 == 0), round * samples + k)).collect();
		for th in [0, 1, 2, 4] {
			s06_case::<f64>(samples, 3, 1, if mode == 3 { Some(round) } else { None }, &faults, th, ctx)?;
		}
		Ok(())
	}).chunk(4));
	f.extend(crate::p_size::s06());
	Property {
		id: "S06",
		rule: "A state is one (settings, round of success, placement of failures, pool) history; a transition is one creation or call of a solver; an execution is one call of the search. The result must be one of the failures that occurred, exactly when the failing round is executed. Non-trivial: the failing round is executed.",
		bounds: "every placement of zero, one and two failures in creation or solving over up to 12 (thorough 24) samples in at most 6 rounds, success in every round or none; pools of 1, 2 and 4 threads; a failure in each of up to 130 samples, in some of 1025, and in each of 600 rounds",
		assumptions: vec![],
		families: f,
	}
}

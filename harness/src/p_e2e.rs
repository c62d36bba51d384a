//! E01: the default pipeline, with its seeds enumerated.
use crate::det;
use crate::num::*;
use crate::qubo::*;
use crate::run::*;
use crate::tree::T::*;
use crate::tree::*;
use crate::with_type;
use classical_solver::beta::BetaType;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::{BTreeMap, BTreeSet};

struct Basin {
	/// the only state that no single flip improves
	opt: Vec<bool>,
	/// smallest absolute change of the energy
	gap: f64,
}

fn basin<R: Num>(o: &Obs<u8, R>, ctx: &mut Ctx) -> Option<Basin> {
	let n = o.m.n;
	if n > 10 {
		ctx.note("skipped: more than 10 variables");
		return None;
	}
	let mut opt = None;
	let mut gap = f64::MAX;
	for a in 0..1u64 << n {
		let s: Vec<bool> = (0..n).map(|k| a >> k & 1 == 1).collect();
		let mut local = true;
		for i in 0..n {
			let d = o.m.flip(&s, i).f();
			if d.abs() < 1e-9 {
				ctx.note("skipped: a flip costs nothing");
				return None;
			}
			gap = gap.min(d.abs());
			local &= d > 0.0;
		}
		if local {
			if opt.is_some() {
				ctx.note("skipped: more than one basin");
				return None;
			}
			opt = Some(s);
		}
	}
	opt.map(|opt| Basin { opt, gap })
}

#[derive(Clone, Copy)]
struct Cfg {
	samples: usize,
	gens: usize,
	iters: usize,
	/// threads of the pool; 0: the checker's thread alone
	threads: usize,
	/// seeds tried at most
	seeds: u64,
}

fn e01_case<R: Num>(t: &T, num: &dyn Fn(i32) -> R, each: i32, cfg: Cfg, ctx: &mut Ctx) -> Result<(), String> {
	let build = || -> Expr<(), u8, u8, R> {
		t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: num })
	};
	let cons: BTreeMap<u8, Vec<&T>> = t.constraints();
	let total = R::int(each * cons.len().max(1) as i32);
	let o = observe_expr(build(), total).map_err(|e| format!("{:?}: {}", t, e))?;
	let b = match basin(&o, ctx) {
		Some(b) => b,
		None => return Ok(()),
	};
	let env = |s: &[bool]| -> Vec<bool> { s.to_vec() };
	let s = env(&b.opt);
	let e = Env {
		q: &|x| s[o.index(&x).unwrap()],
		p: &|_| R::int(0),
		c: &|_| R::int(each),
		n: num,
	};
	let want = t.eval(&e);
	let report: BTreeSet<u8> = cons.iter().filter(|(_, b)| b.iter().any(|b| b.eval(&e).f().abs() > 1e-3)).map(|(l, _)| *l).collect();
	if !report.is_empty() && cfg.gens * cfg.iters > 1 {
		// the strengths would change
		return Ok(());
	}
	let beta = if R::FLOAT {
		800.0 / b.gap
	} else {
		let x = (800.0 / b.gap).ceil();
		if x > 127.0 && R::NAME == "i8" {
			ctx.note("skipped: not cold enough in i8");
			return Ok(());
		}
		x
	};
	if !R::from_float(beta).is_finite() {
		return Ok(());
	}
	let what = || format!("{:?} ({}), optimum {:?}, {} samples, {} x {} rounds", t, R::NAME, b.opt, cfg.samples, cfg.iters, cfg.gens);
	let c = build().compile();
	let mut s = SimpleSolver::new(&c);
	s.samples = cfg.samples;
	s.iterations = cfg.iters;
	s.generations = cfg.gens;
	s.coeff_strength = total;
	let labels: BTreeSet<u8> = t.vars();
	let n = o.m.n;
	let mut reached: BTreeSet<Vec<bool>> = BTreeSet::new();
	let mut k = 0;
	while k < cfg.seeds {
		let seed = det::mix(k ^ det::mix(ctx.case));
		k += 1;
		if cfg.threads == 0 && o.labels.len() == n && cfg.samples == 1 {
			// where does this seed start?
			s.solver_generator.sweeps_per_round = 1;
			s.solver_generator.beta = BetaType::Schedule(vec![]);
			let (i, g) = (s.iterations, s.generations);
			s.iterations = 1;
			s.generations = 1;
			det::set_seed(seed);
			let (_, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			s.iterations = i;
			s.generations = g;
			let st: Vec<bool> = o.labels.iter().map(|(l, _)| view.get(l) == Some(true)).collect();
			if !reached.insert(st) {
				continue;
			}
		}
		s.solver_generator.sweeps_per_round = 1 << n;
		s.solver_generator.beta = BetaType::Schedule(vec![R::from_float(beta)]);
		det::set_seed(seed);
		let run = || -> Result<_, String> {
			let (v, view, rep) = s.solve_with_constraints().map_err(|e| e.to_string())?;
			let mut keys: Vec<u8> = view.keys().cloned().collect();
			keys.sort_unstable();
			let vals: BTreeMap<u8, Option<bool>> = labels.iter().map(|l| (*l, view.get(l))).collect();
			Ok((v, keys, vals, rep.into_iter().cloned().collect::<BTreeSet<u8>>(), view.energy()))
		};
		let (v, keys, vals, rep, energy) = if cfg.threads == 0 {
			run()
		} else {
			let pool = rayon::ThreadPoolBuilder::new().num_threads(cfg.threads).build().unwrap();
			let r: Result<_, String> = pool.install(|| run());
			r
		}
		.map_err(|e| format!("{}: {}", what(), e))?;
		if keys != labels.iter().cloned().collect::<Vec<_>>() {
			return Err(format!("{}: labels {:?}", what(), keys));
		}
		for (l, i) in &o.labels {
			if vals[l] != Some(b.opt[*i]) {
				return Err(format!("{}: seed {}, returns {:?}", what(), k - 1, vals));
			}
		}
		if !v.close(want) {
			return Err(format!("{}: value {} is returned, the objective is {}", what(), v, want));
		}
		if !energy.map_or(false, |x| x.close(v - o.offset)) {
			return Err(format!("{}: energy {:?} of value {} with constant {}", what(), energy, v, o.offset));
		}
		if rep != report {
			return Err(format!("{}: reports {:?} instead of {:?}", what(), rep, report));
		}
		ctx.states += 1;
		ctx.transitions += (cfg.samples * n) as u64;
		ctx.traces += 1;
		if reached.len() as u64 == 1 << n.min(62) {
			ctx.note("instances with every start reached");
			break;
		}
		if n == 0 && k >= 2 {
			break;
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&format!("{:?}{}", b.opt, want));
	ctx.sample(|| format!("{}, {} runs from {} known starts", what(), k, reached.len()));
	Ok(())
}

fn half<R: Num>(k: i32) -> R {
	if R::FLOAT {
		R::half(k)
	} else {
		R::int(k)
	}
}
/// whole numbers large enough that one step of the objective can be made cold
fn scaled<R: Num>(k: i32) -> R {
	if R::NAME == "i8" {
		R::int(k * 7)
	} else {
		R::int(k)
	}
}

pub fn e01(thorough: bool) -> Property {
	let mut f = Vec::new();
	let one = Cfg { samples: 1, gens: 1, iters: 1, threads: 0, seeds: 40 };
	let cfgs: &'static [Cfg] = &[
		Cfg { samples: 1, gens: 1, iters: 1, threads: 0, seeds: 8 },
		Cfg { samples: 2, gens: 1, iters: 1, threads: 0, seeds: 3 },
		Cfg { samples: 5, gens: 1, iters: 1, threads: 0, seeds: 2 },
		Cfg { samples: 1, gens: 3, iters: 2, threads: 0, seeds: 3 },
		Cfg { samples: 3, gens: 2, iters: 3, threads: 0, seeds: 2 },
		Cfg { samples: 17, gens: 30, iters: 10, threads: 0, seeds: 2 },
	];
	// expression trees
	let leaves = vec![B(0), S(1), N(2), N(-3), B(2), S(0), N(1)];
	let trees = Trees::new(leaves, vec![0, 1, 2], 4);
	f.push(family("expression trees, every type", trees.upto(4) * 7, move |i, ctx| {
		let t = trees.get_upto(i / 7);
		with_type!((i % 7) as usize, R, e01_case::<R>(&t, &half::<R>, 9, cfgs[(i / 7 % 6) as usize], ctx))
	}));
	if thorough {
		let trees = Trees::new(vec![B(0), S(1), N(-3), B(2), N(2)], vec![0, 1, 2], 5);
		f.push(family("expression trees of five leaves", trees.count(5), move |i, ctx| {
			let t = trees.get(5, i);
			match i % 3 {
				0 => e01_case::<f64>(&t, &half::<f64>, 9, cfgs[(i / 3 % 6) as usize], ctx),
				1 => e01_case::<i64>(&t, &half::<i64>, 9, cfgs[(i / 3 % 6) as usize], ctx),
				_ => e01_case::<i128>(&t, &half::<i128>, 9, cfgs[(i / 3 % 6) as usize], ctx),
			}
		}));
	}
	// quadratic polynomials, all starts
	for n in 1..=if thorough { 4 } else { 3usize } {
		let alpha: &'static [i32] = if n == 4 { &[-4, 1, 3] } else if n == 3 { if thorough { &[-4, -1, 0, 1, 3, 8] } else { &[-4, 0, 1, 3, 8] } } else { &[-5, -2, 0, 1, 3, 7] };
		let terms = n * (n + 1) / 2;
		f.push(family(&format!("quadratic polynomials of {} variables, every start", n), (alpha.len() as u64).pow(terms as u32) * if n < 3 { 7 * 4 } else { 2 }, move |i, ctx| {
			let mut d = Digits(i);
			let ty = if n < 3 { d.next(7) } else { ctx.case as usize / 2 % 7 };
			let spin = d.next(if n < 3 { 4 } else { 2 });
			let var = |v: usize| if spin >> v & 1 == 1 { S(v as u8) } else { B(v as u8) };
			let mut t = vec![N(11)];
			for a in 0..n {
				t.push(mul(N(*d.pick(alpha)), var(a)));
				for b in 0..a {
					t.push(mul(mul(var(b), N(*d.pick(alpha))), var(a)));
				}
			}
			// every start: seeds are tried until all were reached
			let c = Cfg { seeds: 400, ..one };
			with_type!(ty, R, e01_case::<R>(&sum(t), &half::<R>, 9, c, ctx))
		}));
	}
	// constraints, satisfied and violated at the optimum
	f.push(family("constraints and penalties", 7 * 6 * 4 * 4 * 5 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, c, a, b, shape, str) = (d.next(7), d.next(6), d.next(4), d.next(4), d.next(5), d.next(3));
		let w = [-1, 2, 1, -2];
		let obj = add(mul(N(w[a]), B(1)), mul(N(w[b]), B(2)));
		let t = match shape {
			0 => add(obj, con(7, B(1))),
			1 => add(obj, add(con(3, B(1)), con(9, sub(N(1), B(2))))),
			2 => pen(obj, con(7, B(2))),
			3 => sum(vec![obj, con(1, mul(B(1), B(2))), N(-2)]),
			_ => pen(add(obj, S(4)), add(con(1, B(1)), con(2, B(4)))),
		};
		fn go<R: Num>(t: &T, each: i32, c: Cfg, ctx: &mut Ctx) -> Result<(), String> {
			let each = if R::NAME == "i8" { each.min(8) } else { each };
			e01_case::<R>(t, &scaled::<R>, each, c, ctx)
		}
		with_type!(ty, R, go::<R>(&t, [3, 8, 20][str], cfgs[c], ctx))
	}));
	// products of more than two variables
	f.push(family("higher products", 3 * 6 * 5 * 5 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, c, a, b, s) = (d.next(3), d.next(6), d.next(5), d.next(5), d.next(3));
		// all-true is the only basin when every variable pulls up
		let (w, v) = ([-3, -1, 1, 2, -5][a], [-3, -4, -5, -7, -11][b]);
		let t = match s {
			0 => sum(vec![mul(N(w), prod(vec![B(0), B(1), B(2)])), mul(N(v), B(0)), mul(N(v - 2), B(1)), mul(N(-7), B(2))]),
			1 => sum(vec![mul(N(w), prod(vec![B(0), B(1), B(2), B(3)])), mul(N(v), B(0)), mul(N(v - 1), B(1)), mul(N(-13), B(2)), mul(N(-4), B(3))]),
			_ => add(mul(N(w), mul(prod(vec![B(0), B(1), B(2)]), add(N(2), B(3)))), mul(N(v - 9), sum(vec![B(0), B(1), B(2), B(3)]))),
		};
		match ty {
			0 => e01_case::<i64>(&t, &|k| k as i64, 9, cfgs[c], ctx),
			1 => e01_case::<f64>(&t, &|k| k as f64 / 2.0, 9, cfgs[c], ctx),
			_ => e01_case::<i32>(&t, &|k| k * 1000, 9, cfgs[c], ctx),
		}
	}));
	// none, one and many variables
	f.push(family("no and one variable", 7 * 6 * 10, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, c, s) = (d.next(7), d.next(6), d.next(10));
		let t = match s {
			0 => N(0),
			1 => N(-5),
			2 => sub(N(3), mul(N(2), N(4))),
			3 => B(0),
			4 => neg(B(9)),
			5 => S(3),
			6 => add(N(4), mul(N(-3), S(3))),
			7 => pow(sub(B(3), N(3)), 2),
			8 => con(5, B(0)),
			_ => add(con(5, N(0)), mul(N(-2), B(1))),
		};
		fn go<R: Num>(t: &T, s: usize, c: Cfg, ctx: &mut Ctx) -> Result<(), String> {
			// products of large numbers do not fit
			let n: &dyn Fn(i32) -> R = if s == 2 || s == 7 { &R::int } else { &scaled::<R> };
			e01_case::<R>(t, n, 8, c, ctx)
		}
		with_type!(ty, R, go::<R>(&t, s, cfgs[c], ctx))
	}));
	f.push(family("four to nine variables", 6 * 9 * 3 * 7, move |i, ctx| {
		let mut d = Digits(i);
		let (n, v, kind, ty) = (4 + d.next(6), d.next(9) as i32, d.next(3), d.next(7));
		let mut t = vec![N(1)];
		for a in 0..n {
			let w = [5, -7, 6, -4, 9][(a * (v as usize + 1)) % 5];
			t.push(mul(N(w), if kind == 1 && a % 2 == 0 { S(a as u8) } else { B(a as u8) }));
			if a > 0 && kind != 2 {
				t.push(mul(N([1, -1, 2][(a + v as usize) % 3]), mul(B(a as u8), B(a as u8 - 1))));
			}
		}
		let c = Cfg { samples: 1 + i as usize % 4, gens: 1, iters: 1, threads: 0, seeds: 3 };
		with_type!(ty, R, e01_case::<R>(&sum(t), &|k| R::int(k), 8, c, ctx))
	}).chunk(4));
	// several threads
	f.push(family("several threads", 4 * 4 * 12, move |i, ctx| {
		let mut d = Digits(i);
		let (threads, samples, v) = (1 + d.next(4), [1, 2, 8, 33][d.next(4)], d.next(12) as i32);
		let c = Cfg { samples, gens: 2, iters: 2, threads, seeds: 3 };
		let t = sum(vec![mul(N(3 + v % 3), B(0)), mul(N(-4 - v / 6), S(1)), mul(N(1), mul(B(0), S(1))), mul(N(v % 2 * 2 - 1), mul(B(2), B(1))), mul(N(7), B(2)), con(1, B(2))]);
		if v % 2 == 0 {
			e01_case::<f64>(&t, &|k| k as f64, 9, c, ctx)
		} else {
			e01_case::<i32>(&t, &|k| k, 9, c, ctx)
		}
	}).chunk(4));
	// settings as they come
	f.push(family("default settings", 8 * 7 * 6, move |i, ctx| {
		let mut d = Digits(i);
		let (threads, ty, v) = (1 + d.next(8), d.next(7), d.next(6));
		fn go<R: Num>(threads: usize, v: usize, ctx: &mut Ctx) -> Result<(), String> {
			let t = match v {
				0 => add(mul(N(-3), B(0)), mul(N(2), S(1))),
				1 => sum(vec![mul(N(2), B(0)), mul(N(-5), mul(B(0), B(1))), mul(N(3), B(1)), N(1)]),
				2 => sum(vec![con(4, B(0)), mul(N(3), B(0)), mul(N(-1), B(1))]),
				3 => N(4),
				4 => con(4, sub(B(0), N(1))),
				_ => sum((0..6).map(|k| mul(N(if k % 2 == 0 { 2 } else { -3 }), S(k))).collect()),
			};
			let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
			let (value, view, rep): (R, BTreeMap<u8, Option<bool>>, Vec<u8>) = rayon::ThreadPoolBuilder::new()
				.num_threads(threads)
				.build()
				.unwrap()
				.install(|| {
					det::set_seed(v as u64);
					let c = e.compile();
					let s = SimpleSolver::new(&c);
					s.solve_with_constraints().map(|(v, w, r)| {
						let keys: Vec<u8> = w.keys().cloned().collect();
						(v, keys.iter().map(|k| (*k, w.get(k))).collect(), r.into_iter().cloned().collect())
					})
				})
				.map_err(|e| e.to_string())?;
			// any answer is fine, but it must be one
			if view.keys().cloned().collect::<BTreeSet<u8>>() != t.vars() || view.values().any(|x| x.is_none()) {
				return Err(format!("{:?} with {} threads: answer {:?} ({})", t, threads, view, R::NAME));
			}
			let e = Env { q: &|x| view[&x].unwrap(), p: &|_| R::int(0), c: &|_| R::int(50), n: &R::int };
			let want = t.eval(&e);
			let bad: Vec<u8> = t.constraints().iter().filter(|(_, b)| b.iter().any(|b| b.eval(&e).f().abs() > 1e-3)).map(|(l, _)| *l).collect();
			if rep != bad || (bad.is_empty() && !value.close(want)) {
				return Err(format!("{:?} with {} threads: answer {:?} of value {} reported with {:?} ({})", t, threads, view, value, rep, R::NAME));
			}
			// cold at the end: a flip that gains is always taken
			ctx.states += 1;
			ctx.traces += 1;
			ctx.nontrivial += 1;
			ctx.outcome_of(&format!("{:?}", view));
			ctx.sample(|| format!("{:?}, {} threads ({})", t, threads, R::NAME));
			Ok(())
		}
		with_type!(ty, R, go::<R>(threads, v, ctx))
	}).chunk(4));
	f.extend(crate::p_size::e01());
	Property {
		id: "E01",
		rule: "A state is one run of compile and solve with one seed (for small instances, seeds are enumerated until the annealer started from every assignment); a transition is one considered variable; an execution is one such run, compared with the optimum found by enumerating all states. Non-trivial: instances whose landscape has one basin and no free flip.",
		bounds: "all trees of up to 4 (thorough 5) leaves, all quadratic polynomials of up to 3 (thorough 4) variables over 3 to 6 coefficients from every start, families with constraints, penalties, higher products and up to 9 variables; seven types; 1 to 33 samples, up to 10 x 30 rounds, 1 to 4 threads; up to 1025 spins whose optimum is known by construction",
		assumptions: vec![
			"instances with a flip that costs nothing, or whose optimum violates a constraint when several rounds are allowed, are left out".to_string(),
		],
		families: f,
	}
}

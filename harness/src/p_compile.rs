//! C01 - C03, C05: what compilation does to the energy.
use crate::num::*;
use crate::qubo::*;
use crate::run::*;
use crate::tree::T::*;
use crate::tree::*;
use crate::with_type;
use rustqubo::Expr;
use std::collections::{BTreeSet, HashMap};

pub const MAX_ANC: usize = 18;

/// Compare an observed model with the reference semantics at every assignment of
/// the variables. `exact`: no auxiliary variable is allowed.
pub fn compare<R: Num>(
	t: &T,
	o: &Obs<u8, R>,
	env_n: &dyn Fn(i32) -> R,
	env_p: &dyn Fn(u8) -> R,
	env_c: &dyn Fn(u8) -> R,
	exact: bool,
	ctx: &mut Ctx,
) -> Result<(), String> {
	let vars: Vec<u8> = t.vars().into_iter().collect();
	let got: BTreeSet<u8> = o.labels.iter().map(|(l, _)| *l).collect();
	if got != t.vars() {
		return Err(format!("labels of the solution are {:?}, those of {:?} are {:?} ({})", got, t, vars, R::NAME));
	}
	let anc = o.ancillas();
	if exact && !anc.is_empty() {
		return Err(format!("{} further variables for the quadratic {:?} ({})", anc.len(), t, R::NAME));
	}
	if anc.len() > MAX_ANC {
		ctx.note("skipped: more than 18 auxiliary variables");
		return Ok(());
	}
	let mut at = |a: &dyn Fn(usize) -> bool, ctx: &mut Ctx| -> Result<(), String> {
		let want = t.eval(&Env {
			q: &|x| a(vars.iter().position(|v| *v == x).unwrap()),
			p: env_p,
			c: env_c,
			n: env_n,
		});
		let s = place(o, &vars, a);
		let got = if anc.is_empty() { o.energy(&s) } else { o.min(&s, &anc) };
		ctx.states += 1u64 << anc.len();
		if !got.close(want) {
			let asg: Vec<String> = vars.iter().enumerate().map(|(k, v)| format!("{}={}", v, a(k) as u8)).collect();
			return Err(format!(
				"{:?} is {} at {} but the compiled model has {} (constant {}, {} auxiliaries, {})",
				t, want, asg.join(" "), got, o.offset, anc.len(), R::NAME
			));
		}
		Ok(())
	};
	let n = vars.len();
	if n <= 10 {
		for a in 0..1u64 << n {
			at(&|k| a >> k & 1 == 1, ctx)?;
		}
	} else {
		// two multilinear polynomials of degree two that agree on all assignments
		// with at most two ones are the same
		assert!(exact);
		at(&|_| false, ctx)?;
		at(&|_| true, ctx)?;
		for i in 0..n {
			for j in 0..=i {
				at(&|k| k == i || k == j, ctx)?;
			}
		}
	}
	ctx.traces += o.solves;
	ctx.transitions += t.size() as u64;
	if !vars.is_empty() {
		ctx.nontrivial += 1;
	}
	ctx.outcome_of(&format!("{:?}", o.m));
	Ok(())
}

/// strength of each of m constraints, exact in every type for m = 1, 2, 4
pub const STRENGTH: i32 = 3;

pub fn check_tree<R: Num>(t: &T, n: &dyn Fn(i32) -> R, exact: bool, ctx: &mut Ctx) -> Result<(), String> {
	let e: Expr<(), u8, u8, R> = t.build(&Lab {
		p: &|_| (),
		q: &|x| x,
		c: &|x| x,
		n,
	});
	let m = t.constraints().len() as i32;
	let o = observe_expr(e, R::int(STRENGTH * m.max(1))).map_err(|e| format!("{:?}: {}", t, e))?;
	compare(t, &o, n, &|_| R::int(0), &|_| R::int(STRENGTH), exact, ctx)?;
	ctx.sample(|| format!("{:?} [{}] -> {} variables, constant {}", t, R::NAME, o.m.n, o.offset));
	Ok(())
}

fn number<R: Num>(k: i32) -> R {
	if R::FLOAT {
		R::half(k)
	} else {
		R::int(k)
	}
}

fn leaf(kind: usize, v: u8) -> T {
	if kind == 1 {
		S(v)
	} else {
		B(v)
	}
}

pub fn c01(thorough: bool) -> Property {
	let mut f = Vec::new();
	// every expression tree
	let leaves = || vec![B(0), S(1), N(2), N(-1), B(1), S(0), N(3), N(0)];
	for ty in 0..7 {
		let k = if ty < 2 { 4 } else { 3 };
		let trees = Trees::new(leaves(), vec![0, 1, 2], k);
		f.push(family(&format!("trees of {} leaves, {}", k, TYPES[ty]), trees.upto(k), move |i, ctx| {
			let t = trees.get_upto(i);
			if t.degree() > 2 {
				return Ok(());
			}
			with_type!(ty, R, check_tree::<R>(&t, &number::<R>, true, ctx))
		}).chunk(1024));
	}
	let trees = if thorough {
		Trees::new(vec![B(0), S(1), N(2), S(0), N(-1)], vec![0, 1, 2], 5)
	} else {
		Trees::new(vec![B(0), S(1), N(-2)], vec![0, 1, 2], 5)
	};
	f.push(family("trees of 5 leaves, i64/f32", trees.count(5), move |i, ctx| {
		let t = trees.get(5, i);
		if t.degree() > 2 {
			return Ok(());
		}
		if i % 2 == 0 {
			check_tree::<i64>(&t, &number::<i64>, true, ctx)
		} else {
			check_tree::<f32>(&t, &number::<f32>, true, ctx)
		}
	}).chunk(1024));
	// every quadratic polynomial of three variables, binary and spin mixed
	let coef = [0, -1, 2];
	let poly = move |i: u64, n: usize, ctx: &mut Ctx| {
		let mut d = Digits(i);
		let kinds: Vec<usize> = (0..n).map(|_| d.next(2)).collect();
		let form = d.next(4);
		let mut terms = vec![];
		terms.push(N(*d.pick(&coef)));
		let var = |v: usize| leaf(kinds[v], v as u8);
		for a in 0..n {
			terms.push(mul(N(*d.pick(&coef)), var(a)));
			for b in 0..=a {
				if a == b && n > 3 {
					continue;
				}
				let c = *d.pick(&coef);
				if c == 0 && form < 2 {
					continue;
				}
				terms.push(match form {
					0 => mul(mul(N(c), var(a)), var(b)),
					1 => mul(var(b), mul(var(a), N(c))),
					2 => mul(var(a), mul(N(c), var(b))),
					_ => neg(mul(mul(var(a), neg(N(c))), var(b))),
				});
			}
		}
		let t = if form % 2 == 0 {
			sum(terms)
		} else {
			terms.into_iter().fold(N(0), |a, b| add(b, a))
		};
		match i % 7 {
			0 => check_tree::<i32>(&t, &number::<i32>, true, ctx),
			1 => check_tree::<f64>(&t, &number::<f64>, true, ctx),
			2 => check_tree::<i64>(&t, &number::<i64>, true, ctx),
			3 => check_tree::<f32>(&t, &number::<f32>, true, ctx),
			4 => check_tree::<i16>(&t, &number::<i16>, true, ctx),
			5 => check_tree::<i8>(&t, &number::<i8>, true, ctx),
			_ => check_tree::<i128>(&t, &number::<i128>, true, ctx),
		}
	};
	f.push(family("quadratic polynomials of 2 variables", 4 * 4 * 3u64.pow(6), move |i, ctx| poly(i, 2, ctx)));
	f.push(family("quadratic polynomials of 3 variables", 8 * 4 * 3u64.pow(10) / if thorough { 1 } else { 9 }, move |i, ctx| poly(i, 3, ctx)).chunk(1024));
	if thorough {
		f.push(family("quadratic polynomials of 4 variables", 16 * 4 * 3u64.pow(11) / 9, move |i, ctx| poly(i, 4, ctx)).chunk(1024));
	}
	// powers, negations and products of linear forms
	let lin = move |d: &mut Digits, n: usize| -> T {
		let c = [0, 1, -1, 2];
		let mut t = Vec::new();
		for v in 0..n {
			let k = *d.pick(&c);
			let kind = d.next(2);
			match k {
				0 => (),
				1 => t.push(leaf(kind, v as u8)),
				_ => t.push(mul(N(k), leaf(kind, v as u8))),
			}
		}
		t.push(N(*d.pick(&[0, -1, 3])));
		sum(t)
	};
	f.push(family("powers of linear forms", 512 * 3 * 4 * 7, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(7);
		let e = d.next(4);
		let l = lin(&mut d, 3);
		let t = match e {
			0 => pow(l, 2),
			1 => sub(pow(l.clone(), 0), pow(l, 1)),
			2 => neg(pow(neg(l), 2)),
			_ => pow(pow(l, 1), 2),
		};
		with_type!(ty, R, check_tree::<R>(&t, &|k| R::int(k), true, ctx))
	}));
	f.push(family("products of two linear forms", 64 * 3 * 64 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let a = lin(&mut d, 2);
		let b = lin(&mut d, 2);
		let t = mul(a, b);
		if i % 2 == 0 {
			check_tree::<i32>(&t, &|k| k, true, ctx)
		} else {
			check_tree::<f64>(&t, &number::<f64>, true, ctx)
		}
	}));
	// one-hot style squares, up to 12 variables, and wide ones
	f.push(family("squares of sums of up to 12 variables", 12 * 4 * 3 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let n = 1 + d.next(12);
		let k = d.next(4) as i32;
		let w = d.next(3);
		let kind = d.next(3);
		let mut l = Vec::new();
		for v in 0..n {
			let x = leaf(if kind == 2 { v % 2 } else { kind }, (n - v) as u8);
			l.push(match w {
				0 => x,
				1 => mul(N(v as i32 + 1), x),
				_ => mul(x, N(if v % 2 == 0 { -1 } else { 2 })),
			});
		}
		let t = pow(sub(sum(l), N(k)), 2);
		match d.0 + i % 3 {
			0 => check_tree::<i32>(&t, &|k| k, true, ctx),
			1 => check_tree::<f64>(&t, &number::<f64>, true, ctx),
			_ => check_tree::<i64>(&t, &|k| k as i64, true, ctx),
		}
	}));
	f.push(family("wide expressions of 13 to 200 variables", 24, move |i, ctx| {
		let n = [13u8, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 200][i as usize / 2];
		let mut l = vec![N(5)];
		for v in 0..n {
			l.push(mul(N(v as i32 - 6), leaf((v as usize + i as usize) % 2, v)));
			if v > 0 {
				l.push(mul(mul(N(3), leaf(i as usize % 2, v)), B(v / 2)));
			}
		}
		check_tree::<i64>(&sum(l), &|k| k as i64, true, ctx)
	}));
	// coefficients that a float cannot hold, or at the ends of the type
	f.push(family("large and small coefficients", 8 * 6 * 6 * 6 * 8, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(8);
		let c: Vec<i32> = (0..3).map(|_| d.next(6) as i32).collect();
		let k: Vec<usize> = (0..2).map(|_| d.next(2)).collect();
		let sh = d.next(2);
		let t = if sh == 0 {
			sum(vec![mul(N(c[0]), leaf(k[0], 0)), N(c[1]), mul(mul(N(c[2]), leaf(k[0], 0)), leaf(k[1], 1))])
		} else {
			add(sub(mul(N(c[0]), leaf(k[0], 0)), mul(leaf(k[1], 1), N(c[1]))), N(c[2]))
		};
		fn num<R: Num>(k: i32) -> R {
			if R::FLOAT {
				return R::from_float([0.0, 0.01, -1.0, 0.1, 100.0, -3.7][k as usize]);
			}
			let m: i128 = match R::NAME {
				"i8" => 5,
				"i16" => (1 << 10) + 1,
				"i32" => (1 << 26) + 1,
				"i64" => (1 << 57) + 1,
				_ => (1 << 100) + 1,
			};
			R::big([0, m, -m, 1, 2 * m - 1, -7][k as usize])
		}
		if ty == 7 {
			// tiny, exactly representable
			let tiny = |k: i32| [0.0, 1.0, -1.0, 3.0, 1024.0, -7.0][k as usize] / (1u64 << 32) as f64;
			return check_tree::<f64>(&t, &tiny, true, ctx);
		}
		with_type!(ty, R, check_tree::<R>(&t, &num::<R>, true, ctx))
	}));
	// label types and orders
	f.push(family("label types", 4 * 729, move |i, ctx| {
		let mut d = Digits(i);
		let kind = d.next(4);
		let c: Vec<i32> = (0..6).map(|_| [0, 1, -2][d.next(3)]).collect();
		let t = sum(vec![
			mul(N(c[0]), B(0)),
			mul(N(c[1]), S(1)),
			mul(N(c[2]), B(2)),
			mul(mul(N(c[3]), B(0)), S(1)),
			mul(mul(N(c[4]), B(2)), S(1)),
			mul(mul(N(c[5]), S(2)), B(0)),
		]);
		fn go<Tq: rustqubo::TqType + Send + Sync>(t: &T, q: &dyn Fn(u8) -> Tq, ctx: &mut Ctx) -> Result<(), String> {
			let e: Expr<(), Tq, String, i32> = t.build(&Lab { p: &|_| (), q, c: &|_| String::new(), n: &|k| k });
			let o = observe_expr(e, 1)?;
			let labels = o
				.labels
				.iter()
				.map(|(l, i)| (0..3).find(|k| q(*k) == *l).map(|k| (k, *i)).ok_or(format!("unknown label {:?}", l)))
				.collect::<Result<Vec<_>, _>>()?;
			let o = Obs { m: o.m, offset: o.offset, labels, solves: o.solves };
			compare(t, &o, &|k| k, &|_| 0, &|_| 0, true, ctx)
		}
		match kind {
			0 => go(&t, &|x| ["zeta", "", "alpha"][x as usize], ctx),
			1 => go(&t, &|x| format!("q{}", 9 - x), ctx),
			2 => go(&t, &|x| (-(x as i64), Some((x == 1, 'c'))), ctx),
			_ => go(&t, &|x| vec![(); x as usize], ctx),
		}
	}));
	f.extend(crate::p_size::c01());
	Property {
		id: "C01",
		rule: "A state is one (expression, assignment) at which the compiled energy plus constant is compared with the expression's value; a transition is one operator or leaf of an expression built through the real API; an execution is one call of the solver pipeline used to observe the compiled model. Every tree, polynomial and assignment below the bound is enumerated. Non-trivial: the expression has at least one variable.",
		bounds: "trees to 4 leaves (5 with a smaller alphabet); polynomials over at most 3 (thorough: 4) variables with coefficients in {0,-1,2} (times 1/2 for floats); squares to 12, sums to 200 variables, there decided by all assignments with at most two ones, which determine a quadratic function; up to 1025 variables and squares of sums of up to 130, weight by weight",
		assumptions: vec![
			"the energy is read off the model handed to the solver and the value it returns for the all-false answer; S01 checks that values returned for other answers agree with that model".to_string(),
			"only sums and products that do not overflow the numeric type are generated".to_string(),
		],
		families: f,
	}
}

/// Compile under several hash seeds: every compilation creates new hash maps and
/// each has its own seed.
fn check_seeds<R: Num>(t: &T, n: &dyn Fn(i32) -> R, seeds: usize, ctx: &mut Ctx) -> Result<(), String> {
	for _ in 0..seeds {
		check_tree(t, n, false, ctx)?;
	}
	Ok(())
}

fn subsets(n: usize, lo: usize, hi: usize) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = (0..1u32 << n)
		.map(|m| (0..n as u8).filter(|i| m >> i & 1 == 1).collect::<Vec<_>>())
		.filter(|s: &Vec<u8>| s.len() >= lo && s.len() <= hi)
		.collect();
	v.sort_by_key(|s| (s.len(), s.clone()));
	v
}

fn mono(c: i32, s: &[u8]) -> T {
	let mut v = vec![N(c)];
	v.extend(s.iter().map(|x| B(*x)));
	prod(v)
}

pub fn c02(thorough: bool) -> Property {
	let mut f = Vec::new();
	let seeds = if thorough { 16 } else { 5 };
	// all multilinear polynomials of three variables
	let cs = [0, 1, -1, 3];
	f.push(family("all polynomials of 3 variables, all types", 4u64.pow(8), move |i, ctx| {
		let mut d = Digits(i);
		let mut t = Vec::new();
		for s in subsets(3, 0, 3).into_iter().rev() {
			let c = *d.pick(&cs);
			if c != 0 {
				t.push(mono(c, &s));
			}
		}
		let t = sum(t);
		if t.degree() <= 2 {
			return Ok(());
		}
		with_type!(i % 7, R, check_seeds::<R>(&t, &number::<R>, if thorough { 4 } else { 2 }, ctx))
	}));
	// four variables: all cubic and quartic parts, with chosen lower parts
	f.push(family("cubic and quartic parts of 4 variables", 5u64.pow(5) * 6, move |i, ctx| {
		let mut d = Digits(i);
		let mut t = Vec::new();
		for s in subsets(4, 3, 4) {
			let c = *d.pick(&[0, 1, -1, 2, -3]);
			if c != 0 {
				t.push(mono(c, &s));
			}
		}
		let low = d.next(6);
		for (k, s) in subsets(4, 0, 2).into_iter().enumerate() {
			let c = match low {
				0 => 0,
				1 => [1, -1][k % 2],
				2 => -2,
				3 => 2,
				4 => [-3, 1, 0][k % 3],
				_ => [0, 0, 5, -4][k % 4],
			};
			if c != 0 {
				t.push(mono(c, &s));
			}
		}
		let t = sum(t);
		if t.degree() <= 2 {
			return Ok(());
		}
		if i % 2 == 0 {
			check_seeds::<i32>(&t, &|k| k, seeds, ctx)
		} else {
			check_seeds::<f64>(&t, &number::<f64>, seeds, ctx)
		}
	}));
	// five and six variables: all choices of up to three (four) higher terms
	for (n, k) in [(5usize, 3usize), (6, if thorough { 3 } else { 2 }), (7, 2)] {
		let hs = subsets(n, 3, n);
		let m = hs.len() as u64;
		let signs = 3u64.pow(k as u32);
		f.push(family(&format!("{} higher terms of {} variables", k, n), m.pow(k as u32) * signs, move |i, ctx| {
			let mut d = Digits(i);
			let pick: Vec<usize> = (0..k).map(|_| d.next(hs.len())).collect();
			if pick.windows(2).any(|w| w[0] >= w[1]) {
				return Ok(());
			}
			let mut t: Vec<T> = pick.iter().map(|p| mono([1, -1, 4][d.next(3)], &hs[*p])).collect();
			t.push(mono(-2, &[0]));
			t.push(mono(1, &[1, 2]));
			check_seeds::<i64>(&sum(t), &|k| k as i64, if thorough { 6 } else { 2 }, ctx)
		}).chunk(128));
	}
	// many cubic terms at once: every set of cubic terms of five variables
	let cub = subsets(5, 3, 3);
	f.push(family("all sets of cubic terms of 5 variables", 1024 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let neg = d.next(2);
		let mut t = vec![mono(1, &[0, 4]), mono(-3, &[2])];
		for (k, s) in cub.iter().enumerate() {
			if d.next(2) == 1 {
				t.push(mono(if neg == 0 { [2, -1, 1][k % 3] } else { -2 }, s));
			}
		}
		let t = sum(t);
		if t.degree() <= 2 {
			return Ok(());
		}
		check_seeds::<f64>(&t, &number::<f64>, 1, ctx)
	}).chunk(16));
	// one monomial of high degree, every sign and type; its value is needed at the
	// corners of the replacement formulas
	f.push(family("single monomials of degree 3 to 10", 8 * 4 * 5 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let deg = 3 + d.next(8);
		let c = [1, -1, 2, -2][d.next(4)];
		let ty = [0, 1, 2, 3, 6][d.next(5)];
		let extra = d.next(2);
		let s: Vec<u8> = (0..deg as u8).collect();
		let mut t = mono(c, &s);
		if extra == 1 {
			t = add(t, sub(mono(-1, &[0]), mono(3, &[1, 2])));
		}
		with_type!(ty, R, check_seeds::<R>(&t, &|k| R::int(k), 2, ctx))
	}).chunk(2));
	// products of literals: spins, complements, repeated variables
	let n = if thorough { 6 } else { 5 };
	let trees: u64 = 7u64.pow(n);
	f.push(family("products of literals", trees * 2, move |i, ctx| {
		let mut d = Digits(i);
		let lits = [B(0), S(0), sub(N(1), B(1)), S(2), B(1), sub(N(2), S(3)), add(B(3), N(-1))];
		let mut v: Vec<T> = (0..n).map(|_| d.pick(&lits).clone()).collect();
		let last = d.next(2);
		if last == 1 {
			v.push(N(-1));
			let t = add(prod(v), mul(B(0), B(2)));
			if t.degree() <= 2 {
				return Ok(());
			}
			check_seeds::<f64>(&t, &|k| k as f64, 1, ctx)
		} else {
			let t = prod(v);
			check_seeds::<i32>(&t, &|k| k, 1, ctx)
		}
	}));
	f.push(family("powers of linear forms", 4 * 4 * 4 * 3 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let mut t = Vec::new();
		for v in 0..3u8 {
			let c = [0, 1, -1, 2][d.next(4)];
			if c != 0 {
				t.push(mul(N(c), leaf((i % 3 == v as u64) as usize, v)));
			}
		}
		t.push(N([0, 1, -2][d.next(3)]));
		let e = 2 + d.next(4);
		check_seeds::<i64>(&pow(sum(t), e), &|k| k as i64, 2, ctx)
	}).chunk(16));
	// coefficients whose sign is not known at compile time
	let vals = [0, 1, 2, 5];
	f.push(family("placeholder coefficients, degree 3 and 4", 4 * 4 * 6 * 3 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let (p, q) = (*d.pick(&vals), *d.pick(&vals));
		let k = d.next(6);
		let ty = d.next(3);
		let shape = d.next(4);
		let c = match k {
			0 => P(0),
			1 => sub(P(0), P(1)),
			2 => neg(P(0)),
			3 => sub(P(0), N(2)),
			4 => mul(P(0), sub(P(1), N(1))),
			_ => mul(P(0), P(1)),
		};
		let t = match shape {
			0 => mul(c, prod(vec![B(0), B(1), B(2)])),
			1 => add(mul(c, prod(vec![B(0), B(1), B(2)])), mul(sub(N(1), P(1)), prod(vec![B(1), B(2), B(3)]))),
			2 => add(mul(c, prod(vec![B(0), B(1), B(2), B(3)])), mono(-2, &[0, 1, 2])),
			_ => sub(mul(prod(vec![S(0), B(1), B(2)]), c), mul(P(1), S(0))),
		};
		fn go<R: Num>(t: &T, p: i32, q: i32, ctx: &mut Ctx) -> Result<(), String> {
			let v = |x: u8| number::<R>(if x == 0 { p } else { q });
			let dict: HashMap<u8, R> = t.placeholders().into_iter().map(|x| (x, v(x))).collect();
			let e: Expr<u8, u8, u8, R> = t.build(&Lab { p: &|x| x, q: &|x| x, c: &|x| x, n: &|k| number::<R>(k) });
			let o = observe_fed(e, dict, R::int(1))?;
			compare(t, &o, &|k| number::<R>(k), &v, &|_| R::int(0), false, ctx)
				.map_err(|e| format!("{} with P0 = {}, P1 = {}", e, v(0), v(1)))
		}
		for _ in 0..2 {
			match ty {
				0 => go::<i32>(&t, p, q, ctx)?,
				1 => go::<f64>(&t, p, q, ctx)?,
				_ => go::<i64>(&t, p, q, ctx)?,
			}
		}
		Ok(())
	}));
	// sums whose summands have different signs, in every order and nesting
	f.push(family("coefficients that are sums with placeholders", 6u64.pow(4) * 5 * 27, move |i, ctx| {
		let mut d = Digits(i);
		let atoms = [P(0), neg(P(1)), P(2), neg(N(2)), N(1), neg(mul(P(0), P(2)))];
		let a: Vec<T> = (0..4).map(|_| d.pick(&atoms).clone()).collect();
		let k = d.next(5);
		let vals: Vec<i32> = (0..3).map(|_| [1, 0, 6][d.next(3)]).collect();
		let s = |x: &[T]| sum(x.to_vec());
		let c = match k {
			0 => s(&a),
			1 => s(&a[..3]),
			2 => mul(s(&a[..2]), s(&a[2..])),
			3 => mul(a[0].clone(), s(&a[1..])),
			_ => add(mul(a[0].clone(), a[1].clone()), mul(a[2].clone(), a[3].clone())),
		};
		let t = mul(c, prod(vec![B(0), B(1), B(2)]));
		let v = |x: u8| vals[x as usize];
		let dict: HashMap<u8, i32> = t.placeholders().into_iter().map(|x| (x, v(x))).collect();
		let e: Expr<u8, u8, u8, i32> = t.build(&Lab { p: &|x| x, q: &|x| x, c: &|x| x, n: &|k| k });
		let o = observe_fed(e, dict, 1)?;
		compare(&t, &o, &|k| k, &v, &|_| 0, false, ctx).map_err(|e| format!("{} with P0, P1, P2 = {:?}", e, vals))
	}).chunk(256));
	f.extend(crate::p_size::c02(thorough));
	Property {
		id: "C02",
		rule: "A state is one assignment of all variables including the auxiliary ones, visited while minimising over the auxiliaries for every assignment of the user's variables; a transition is one operator or leaf built through the real API; an execution is one call of the solver pipeline. Every compilation uses new hash seeds, which decide the ties among substitutions. Non-trivial: the expression has degree above two.",
		bounds: "all polynomials of 3 variables with coefficients in {0,1,-1,3}; all cubic and quartic parts of 4; 3 higher terms of 5, 2 (thorough 3) of 6 and 2 of 7 variables; all sets of cubic terms of 5; monomials to degree 10; products of literals; coefficients with placeholders, all sums and products of four signed atoms; at most 18 auxiliaries; monomials to degree 19 (20), unknown coefficients to degree 14, up to 15 cubic terms and eight numbers up to 260 (auxiliaries without couplings between them are minimised apart)",
		assumptions: vec!["hash seeds are enumerated only partially (1 to 6, thorough 16, per expression): the tie-breaks explored are those they produce".to_string()],
		families: f,
	}
}

//! S08: every sample of a search has randomness of its own.
use crate::det;
use crate::num::*;
use crate::qubo::{Fail, M};
use crate::run::*;
use crate::tree::Digits;
use crate::with_type;
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Solvers that write down what their random streams give.
struct Log {
	/// first words of every stream
	words: Mutex<Vec<Vec<u64>>>,
	take: usize,
	/// words used before, by number of the stream
	skip: usize,
	/// run another search from within
	inner: bool,
	/// how words are asked for
	form: usize,
}

#[derive(Clone)]
struct ProbeGen(Arc<Log>);

struct Probe<R: Num> {
	log: Arc<Log>,
	n: usize,
	ph: std::marker::PhantomData<R>,
}

impl<R: Num> SolverGenerator<'static, M<R>> for ProbeGen {
	type SolverType = Probe<R>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static M<R>) -> Result<Probe<R>, Fail> {
		let n = annealers::model::FixedSingleModelView::size(model);
		Ok(Probe { log: self.0.clone(), n, ph: Default::default() })
	}
}
impl<R: Num> UnstructuredSolverGenerator<'static, M<R>> for ProbeGen {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Num> Solver for Probe<R> {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Num> ClassicalSolver for Probe<R> {
	fn solve_with_rng<T: rand::Rng>(&self, r: &mut T) -> Result<Vec<SingleSolution<Binary<R>>>, Fail> {
		let mut w = Vec::with_capacity(self.log.take);
		for k in 0..self.log.take {
			w.push(match self.log.form {
				0 => r.next_u64(),
				1 => (r.next_u32() as u64) << 32 | r.next_u32() as u64,
				_ => {
					let mut b = [0u8; 8];
					r.fill_bytes(&mut b);
					u64::from_le_bytes(b)
				}
			});
			if k == 0 && self.log.inner {
				let log = Arc::new(Log { words: Default::default(), take: 2, skip: 0, inner: false, form: 0 });
				search::<R>(&log, &Shape { samples: 2, gens: 1, iters: 1, constrained: false })?;
				self.log.words.lock().unwrap().append(&mut log.words.lock().unwrap());
			}
		}
		let mut l = self.log.words.lock().unwrap();
		let used = if self.log.skip > 0 { l.len() % self.log.skip } else { 0 };
		l.push(w);
		drop(l);
		for _ in 0..used {
			r.next_u64();
		}
		Ok(vec![SingleSolution::from_vec(&vec![false; self.n])])
	}
}

#[derive(Clone, Copy, Debug)]
struct Shape {
	samples: usize,
	gens: usize,
	iters: usize,
	/// a constraint that the answers violate, so that every round is run
	constrained: bool,
}

fn search<R: Num>(log: &Arc<Log>, sh: &Shape) -> Result<(), Fail> {
	let c = expr::<R>(sh.constrained).compile();
	let mut s = SimpleSolver::with_solver(&c, ProbeGen(log.clone()));
	s.samples = sh.samples;
	s.generations = sh.gens;
	s.iterations = sh.iters;
	s.solve_with_constraints().map(|_| ())
}

fn expr<R: Num>(constrained: bool) -> Expr<(), u8, u8, R> {
	let x = Expr::Binary(0u8);
	if constrained {
		Expr::Constraint { label: 1u8, expr: Box::new(Expr::Number(R::int(1)) - x) }
	} else {
		x
	}
}

/// no word is in two streams
fn distinct(log: &Log, what: &dyn Fn() -> String, ctx: &mut Ctx) -> Result<(), String> {
	let words = log.words.lock().unwrap();
	let mut seen: HashMap<u64, usize> = HashMap::with_capacity(words.len() * log.take);
	for (k, w) in words.iter().enumerate() {
		for x in w {
			if let Some(o) = seen.insert(*x, k) {
				if o != k {
					return Err(format!("{}: the random streams number {} and {} of {} both give {:#x}", what(), o, k, words.len(), x));
				}
			}
		}
	}
	if words.is_empty() {
		return Err(format!("{}: no solver was asked", what()));
	}
	ctx.states += 1;
	ctx.transitions += words.len() as u64;
	ctx.outcome_of(&words.len());
	if words.len() > 1 {
		ctx.nontrivial += 1;
	}
	ctx.sample(|| format!("{}: {} streams", what(), words.len()));
	Ok(())
}

fn pool(n: usize) -> rayon::ThreadPool {
	rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

fn log(take: usize, skip: usize, inner: bool, form: usize) -> Arc<Log> {
	Arc::new(Log { words: Default::default(), take, skip, inner, form })
}

/// one search
fn one<R: Num>(sh: Shape, threads: usize, form: usize, skip: usize, ctx: &mut Ctx) -> Result<(), String> {
	let l = log(4, skip, false, form);
	pool(threads).install(|| search::<R>(&l, &sh)).map_err(|e| e.to_string())?;
	ctx.traces += 1;
	distinct(&l, &|| format!("{:?} on {} threads [{}]", sh, threads, R::NAME), ctx)
}

/// several searches
fn several<R: Num>(mode: usize, calls: usize, sh: Shape, threads: usize, ctx: &mut Ctx) -> Result<(), String> {
	let l = log(4, 0, mode == 4, 0);
	let err = |e: Fail| e.to_string();
	match mode {
		// the same solver again and again, in one pool
		0 => {
			let c = expr::<R>(sh.constrained).compile();
			let mut s = SimpleSolver::with_solver(&c, ProbeGen(l.clone()));
			s.samples = sh.samples;
			s.generations = sh.gens;
			s.iterations = sh.iters;
			let p = pool(threads);
			for _ in 0..calls {
				p.install(|| s.solve_with_constraints().map(|_| ())).map_err(err)?;
			}
		}
		// solvers of their own, in one pool
		1 => {
			let p = pool(threads);
			for _ in 0..calls {
				p.install(|| search::<R>(&l, &sh)).map_err(err)?;
			}
		}
		// and in pools of their own
		2 => {
			for _ in 0..calls {
				pool(threads).install(|| search::<R>(&l, &sh)).map_err(err)?;
			}
		}
		// at the same time
		3 => std::thread::scope(|sc| {
			let hs: Vec<_> = (0..calls).map(|_| sc.spawn(|| pool(threads).install(|| search::<R>(&l, &sh)))).collect();
			hs.into_iter().try_for_each(|h| h.join().map_err(|_| "a search panicked".to_string())?.map_err(err))
		})?,
		// one within another
		4 => pool(threads).install(|| search::<R>(&l, &sh)).map_err(err)?,
		// at the same time in one pool
		_ => {
			let p = pool(threads);
			p.install(|| {
				use rayon::prelude::*;
				(0..calls).into_par_iter().map(|_| search::<R>(&l, &sh)).collect::<Result<Vec<_>, _>>()
			})
			.map_err(err)?;
		}
	}
	ctx.traces += calls as u64;
	const MODES: [&str; 6] = ["one solver repeatedly", "solvers in turn", "pools in turn", "at the same time", "one within another", "at the same time in one pool"];
	distinct(&l, &|| format!("{} calls, {}, {:?} on {} threads [{}]", calls, MODES[mode], sh, threads, R::NAME), ctx)
}

pub fn s08(thorough: bool) -> Property {
	det::share();
	let mut f = Vec::new();
	const SAMPLES: [usize; 12] = [1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 100];
	const THREADS: [usize; 4] = [1, 2, 3, 8];
	f.push(family("every shape of a search", 12 * 4 * 3 * 3 * 2 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let samples = *d.pick(&SAMPLES);
		let threads = *d.pick(&THREADS);
		let sh = Shape { samples, gens: 1 + d.next(3), iters: 1 + d.next(3), constrained: d.next(2) == 1 };
		let form = d.next(3);
		let ty = (i % 7) as usize;
		with_type!(ty, R, one::<R>(sh, threads, form, [0, 3][(i / 7 % 2) as usize], ctx))
	}).chunk(16));
	f.push(family("several searches", 6 * 5 * 5 * 3 * 2 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let mode = d.next(6);
		let calls = [1, 2, 3, 8, 20][d.next(5)];
		let samples = [1, 2, 3, 8, 17][d.next(5)];
		let threads = [1, 2, 8][d.next(3)];
		let sh = Shape { samples, gens: 1 + d.next(2), iters: 2, constrained: d.next(2) == 1 };
		let ty = (i % 7) as usize;
		with_type!(ty, R, several::<R>(mode, calls, sh, threads, ctx))
	}).chunk(8));
	// so many that 32 bits would not tell them apart
	f.push(family("hundreds of thousands of streams", 6, move |i, ctx| {
		let k = if thorough { 4 } else { 1 };
		let sh = match i % 3 {
			0 => Shape { samples: k << 18, gens: 1, iters: 1, constrained: false },
			1 => Shape { samples: 64, gens: 64 * k, iters: 64, constrained: true },
			_ => Shape { samples: 1, gens: 512 * k, iters: 512, constrained: true },
		};
		let l = log(1, 0, false, 0);
		let threads = [1, 8][(i / 3) as usize];
		pool(threads).install(|| search::<f64>(&l, &sh)).map_err(|e| e.to_string())?;
		ctx.traces += 1;
		distinct(&l, &|| format!("{:?} on {} threads", sh, threads), ctx)
	}).chunk(1));
	Property {
		id: "S08",
		rule: "A state is one arrangement of searches (samples, generations, restarts, threads, calls one after another, at the same time or within another); a transition is one stream handed to a solver; an execution is one search. The process' source of randomness is owned by the checker and never gives the same twice; the first words of all streams of the arrangement must be pairwise distinct. Non-trivial: more than one stream.",
		bounds: "every combination of 12 numbers of samples to 100, 1..3 generations, 1..3 restarts, 4 pool sizes, with and without a violated constraint, words asked for in three forms; up to 20 searches in six arrangements; arrangements of 262144 (thorough 1048576) streams over samples, rounds and restarts",
		assumptions: vec!["two streams with a 64-bit word in common are the same stream (chance 2^-28 otherwise)".into()],
		families: f,
	}
}

//! Solving with scripted, failing, panicking and touching solvers.
use crate::exprs::{b, num, E};
use crate::label::{arm, disarm, CBS, L};
use crate::repr::Script;
use crate::{call, digits, Fam};
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use rand::{Rng, RngCore};
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::collections::HashMap;
use std::hint::black_box;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex, OnceLock};

type M = FixedSingleQuadricModel<Binary<i32>>;

#[derive(Debug)]
struct Failed(Arc<u32>);
impl std::fmt::Display for Failed {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{}", self.0)
	}
}
impl std::error::Error for Failed {}

pub const MODES: u64 = 12;
struct Gen {
	mode: usize,
	calls: AtomicUsize,
	kept: Option<Arc<Mutex<Vec<&'static M>>>>,
}
struct Sol {
	mode: usize,
	model: &'static M,
	own: Box<usize>,
}

fn read(m: &M) -> i32 {
	let mut s = 0;
	for j in 0..m.size() {
		for i in 0..=j {
			s += m.get_weight(&[i, j]);
		}
	}
	s
}

impl Drop for Sol {
	fn drop(&mut self) {
		// the model is still there
		black_box(read(self.model) + *self.own as i32);
	}
}
impl Solver for Sol {
	type ErrorType = Failed;
	type SolutionType = SingleSolution<Binary<i32>>;
}
impl ClassicalSolver for Sol {
	fn solve_with_rng<T: Rng>(&self, r: &mut T) -> Result<Vec<SingleSolution<Binary<i32>>>, Failed> {
		let n = self.model.size();
		black_box(read(self.model));
		let ones = |len: usize| SingleSolution::from_vec(&vec![true; len]);
		let bits = |k: usize| SingleSolution::from_vec(&(0..n).map(|i| k >> i & 1 == 1).collect::<Vec<_>>());
		Ok(match self.mode {
			0 => vec![bits(0)],
			1 => vec![ones(n)],
			2 => (0..3).map(|k| bits(k + *self.own)).collect(),
			3 => vec![],
			4 => vec![ones(n + 9)],
			5 => vec![ones(n.saturating_sub(1))],
			6 => return Err(Failed(Arc::new(1))),
			7 if *self.own % 2 == 1 => return Err(Failed(Arc::new(2))),
			8 if *self.own % 2 == 1 => std::panic::resume_unwind(Box::new(())),
			9 => {
				// carries numbers of its own
				let mut s = ones(n);
				s.energy = Some(-5);
				s.local_field = Some(vec![1; n / 2]);
				vec![s, bits(r.next_u32() as usize)]
			}
			_ => vec![bits(*self.own)],
		})
	}
}
impl SolverGenerator<'static, M> for Gen {
	type SolverType = Sol;
	type ErrorType = Failed;
	fn generate(&self, model: &'static M) -> Result<Sol, Failed> {
		let n = self.calls.fetch_add(1, SeqCst);
		if let Some(k) = &self.kept {
			k.lock().unwrap().push(model);
		}
		match self.mode {
			10 if n % 3 == 2 => return Err(Failed(Arc::new(3))),
			11 if n % 3 == 2 => std::panic::resume_unwind(Box::new(())),
			_ => (),
		}
		Ok(Sol { mode: self.mode, model, own: Box::new(n) })
	}
}
impl UnstructuredSolverGenerator<'static, M> for Gen {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

pub const PROGS: u64 = 8;
fn program(p: usize) -> E<i32> {
	match p {
		0 => num(4),
		1 => b(0),
		2 => b::<i32>(0) * b(1) + Expr::Spin(L::new(2)) - num(1),
		3 => b::<i32>(0) * b(1) * b(2) - b(1),
		4 => Expr::Constraint { label: L::new(9), expr: Box::new(b(0) + b(1) - num(1)) } + b(0),
		5 => {
			Expr::Constraint { label: L::new(9), expr: Box::new((b(0) + b(1) - num(1)) ^ 2) }
				+ Expr::Constraint { label: L::new(8), expr: Box::new(b(1) * b(2)) }
				- b::<i32>(2) * num(3)
		}
		6 => Expr::WithPenalty { expr: Box::new(b(0)), penalty: Box::new(b(1) + num(1)) } * b(2),
		_ => Expr::Placeholder(L::new(7)) * b(0) + b(1),
	}
}

fn view(v: &rustqubo::solution::SolutionView<L, i32>) {
	drop(format!("{:?}", v));
	let keys: Vec<L> = v.keys().cloned().collect();
	for k in keys.iter().chain([&L::new(77)]) {
		call(|| black_box((v.get(k), v.local_field(k))));
		call(|| black_box(v[k]));
	}
	black_box((v.energy(), v.occurrences()));
}

fn solve(p: usize, mode: usize, samples: usize, kept: Option<Arc<Mutex<Vec<&'static M>>>>) {
	let mut dict = HashMap::new();
	dict.insert(L::new(7), 2);
	let out = call(|| {
		let compiled = program(p).compile().feed_dict(dict);
		let mut s = SimpleSolver::with_solver(&compiled, Gen { mode, calls: AtomicUsize::new(0), kept });
		s.samples = samples;
		s.iterations = 2;
		s.generations = 2;
		black_box(s.get_qubits().len());
		match s.solve_with_constraints() {
			Ok((e, v, c)) => {
				black_box((e, c.len()));
				drop(format!("{:?}", c));
				Some(v)
			}
			Err(e) => {
				drop(format!("{}", e));
				None
			}
		}
	});
	// the view outlives the solver, the compiled model and the expression
	if let Some(Some(v)) = out {
		view(&v);
	}
}

/// One pool for each number of threads, for the life of the process.
fn pool<X: Send>(threads: usize, f: impl FnOnce() -> X + Send) -> X {
	static POOLS: [OnceLock<rayon::ThreadPool>; 4] = [const { OnceLock::new() }; 4];
	POOLS[threads]
		.get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap())
		.install(f)
}

pub fn families(deep: bool) -> Vec<Fam> {
	let mut v = Vec::new();
	v.push(Fam {
		name: "solve-scripted",
		count: PROGS * MODES * if deep { 4 } else { 2 },
		bytes: false,
		run: Box::new(move |c| {
			let d = digits(c, &[PROGS, MODES, 4]);
			let (threads, samples) = [(1, 1), (2, 3), (1, 0), (3, 4)][d[2]];
			if cfg!(miri) && !deep && [1, 3, 6].contains(&d[0]) && !(1..3).contains(&d[1]) {
				return;
			}
			if cfg!(miri) && !deep && d[2] == 1 && !(d[0] % 3 == 2 && [2, 7, 8, 10].contains(&d[1])) {
				return;
			}
			pool(threads, || solve(d[0], d[1], samples, None));
		}),
	});
	v.push(Fam {
		name: "solve-builtin",
		count: PROGS,
		bytes: false,
		run: Box::new(move |c| {
			let view_of = pool(2, || {
				let mut dict = HashMap::new();
				dict.insert(L::new(7), 2);
				let compiled = program(c as usize).compile().feed_dict(dict);
				let mut s = SimpleSolver::new(&compiled);
				s.samples = 2;
				s.iterations = 1;
				s.generations = 2;
				s.solver_generator.sweeps_per_round = 1;
				s.solver_generator.beta = classical_solver::beta::BetaType::Count(2);
				s.solve_with_constraints().map(|(_, v, _)| v).unwrap()
			});
			view(&view_of);
		}),
	});
	v.push(Fam {
		name: "solve-interrupted",
		count: PROGS * 4 * if cfg!(miri) && !deep { 1 } else { 3 },
		bytes: false,
		run: Box::new(move |c| {
			let d = digits(c, &[PROGS, 4, 3]);
			pool(1, || {
				let to = if deep && !cfg!(miri) { 60 } else if cfg!(miri) { 3 } else { 9 };
				for k in (d[2] as u32..to).step_by(3) {
					call(|| {
						let mut dict = HashMap::new();
						dict.insert(L::new(7), 2);
						let compiled = program(d[0]).compile().feed_dict(dict);
						let s = SimpleSolver::with_solver(
							&compiled,
							Gen { mode: 2, calls: AtomicUsize::new(0), kept: None },
						);
						arm(CBS[[0, 1, 3, 4][d[1]]], k);
						let _ = s.solve_with_constraints().map(|(_, v, c)| format!("{:?} {:?}", v, c));
					});
					disarm();
				}
			});
		}),
	});
	v.push(Fam {
		name: "solve-model-kept",
		count: 1,
		bytes: false,
		run: Box::new(move |_| {
			let kept = Arc::new(Mutex::new(Vec::new()));
			let k = kept.clone();
			pool(1, || solve(2, 0, 1, Some(k)));
			for m in kept.lock().unwrap().iter() {
				black_box(read(m));
			}
		}),
	});
	let _ = Script(0).next_u32();
	v
}

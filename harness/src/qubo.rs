//! Scripted solvers: the environment of `SimpleSolver`, owned by the checker.
use crate::num::Num;
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use rustqubo::solve::SimpleSolver;
use rustqubo::{Expr, TcType, TqType};
use std::collections::BTreeSet;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub type M<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Debug, Clone, PartialEq)]
pub struct Fail(pub usize);
impl fmt::Display for Fail {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		write!(f, "injected failure {}", self.0)
	}
}
impl std::error::Error for Fail {}

/// One call of a solver: number of the generated solver, and the model it got.
pub struct Call<'a, R: Num> {
	pub gen: usize,
	pub model: &'a Dense<R>,
}

/// An own copy of a model's weights.
#[derive(Clone, Debug, PartialEq)]
pub struct Dense<R> {
	pub n: usize,
	w: Vec<R>,
}

impl<R: Num> Dense<R> {
	pub fn capture(m: &M<R>) -> Self {
		let n = FixedSingleModelView::size(m);
		let mut w = Vec::with_capacity(n * (n + 1) / 2);
		for j in 0..n {
			for i in 0..=j {
				w.push(FixedSingleModelView::get_weight(m, &[i, j]));
			}
		}
		Dense { n, w }
	}
	pub fn get(&self, i: usize, j: usize) -> R {
		let (i, j) = if i < j { (i, j) } else { (j, i) };
		self.w[j * (j + 1) / 2 + i]
	}
	pub fn energy(&self, s: &[bool]) -> R {
		let mut e = R::int(0);
		for j in 0..self.n {
			if s[j] {
				for i in 0..=j {
					if s[i] {
						e = e + self.get(i, j);
					}
				}
			}
		}
		e
	}
	/// change of the energy when i is flipped
	pub fn flip(&self, s: &[bool], i: usize) -> R {
		let mut e = self.get(i, i);
		for j in 0..self.n {
			if j != i && s[j] {
				e = e + self.get(i, j);
			}
		}
		if s[i] {
			R::int(0) - e
		} else {
			e
		}
	}
}

pub type Answer<R> = dyn Fn(&Call<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync;
pub type GenAnswer = dyn Fn(usize) -> Result<(), Fail> + Send + Sync;

pub struct Shared<R: Num> {
	pub gens: AtomicUsize,
	pub solves: AtomicUsize,
	pub models: Mutex<Vec<Arc<Dense<R>>>>,
	/// answer with the energy filled in
	pub preset: std::sync::atomic::AtomicBool,
	pub on_gen: Box<GenAnswer>,
	pub on_solve: Box<Answer<R>>,
}

#[derive(Clone)]
pub struct Gen<R: Num>(pub Arc<Shared<R>>);

pub struct Scripted<R: Num> {
	sh: Arc<Shared<R>>,
	model: Arc<Dense<R>>,
	gen: usize,
}

impl<R: Num> Gen<R> {
	pub fn new(
		on_gen: impl Fn(usize) -> Result<(), Fail> + Send + Sync + 'static,
		on_solve: impl Fn(&Call<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync + 'static,
	) -> Self {
		Gen(Arc::new(Shared {
			gens: AtomicUsize::new(0),
			solves: AtomicUsize::new(0),
			models: Mutex::new(Vec::new()),
			preset: Default::default(),
			on_gen: Box::new(on_gen),
			on_solve: Box::new(on_solve),
		}))
	}
	pub fn solver(
		on_solve: impl Fn(&Call<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync + 'static,
	) -> Self {
		Self::new(|_| Ok(()), on_solve)
	}
	pub fn reset(&self) {
		self.0.gens.store(0, SeqCst);
		self.0.solves.store(0, SeqCst);
		self.0.models.lock().unwrap().clear();
	}
	pub fn models(&self) -> Vec<Arc<Dense<R>>> {
		self.0.models.lock().unwrap().clone()
	}
	pub fn gens(&self) -> usize {
		self.0.gens.load(SeqCst)
	}
	pub fn solves(&self) -> usize {
		self.0.solves.load(SeqCst)
	}
}

impl<R: Num> SolverGenerator<'static, M<R>> for Gen<R> {
	type SolverType = Scripted<R>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static M<R>) -> Result<Scripted<R>, Fail> {
		let gen = self.0.gens.fetch_add(1, SeqCst);
		(self.0.on_gen)(gen)?;
		let model = Arc::new(Dense::capture(model));
		self.0.models.lock().unwrap().push(model.clone());
		Ok(Scripted {
			sh: self.0.clone(),
			model,
			gen,
		})
	}
}

impl<R: Num> UnstructuredSolverGenerator<'static, M<R>> for Gen<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

impl<R: Num> Solver for Scripted<R> {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<R>>;
}

impl<R: Num> ClassicalSolver for Scripted<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		_r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, Fail> {
		self.sh.solves.fetch_add(1, SeqCst);
		let v = (self.sh.on_solve)(&Call {
			gen: self.gen,
			model: &self.model,
		})?;
		let preset = self.sh.preset.load(SeqCst);
		Ok(v.iter()
			.map(|s| {
				let mut r = SingleSolution::from_vec(s);
				if preset {
					r.energy = Some(self.model.energy(s));
				}
				r
			})
			.collect())
	}
}

pub type Simple<'a, Tq, Tc, R> = SimpleSolver<'a, Tq, Tc, Gen<R>, M<R>, Scripted<R>, R>;

/// What a compiled model means, as seen through its solver.
pub struct Obs<Tq, R> {
	pub m: Dense<R>,
	pub offset: R,
	/// label -> index in the state
	pub labels: Vec<(Tq, usize)>,
	pub solves: u64,
}

impl<Tq: TqType, R: Num> Obs<Tq, R> {
	pub fn index(&self, q: &Tq) -> Option<usize> {
		self.labels.iter().find(|(l, _)| l == q).map(|(_, i)| *i)
	}
	pub fn energy(&self, s: &[bool]) -> R {
		self.m.energy(s) + self.offset
	}
	pub fn ancillas(&self) -> Vec<usize> {
		let used: BTreeSet<usize> = self.labels.iter().map(|(_, i)| *i).collect();
		(0..self.m.n).filter(|i| !used.contains(i)).collect()
	}
	/// parts of `anc` between which there are no couplings
	pub fn parts(&self, anc: &[usize]) -> Vec<Vec<usize>> {
		let mut left: Vec<usize> = anc.to_vec();
		let mut parts = Vec::new();
		while let Some(a) = left.pop() {
			let mut part = vec![a];
			let mut k = 0;
			while k < part.len() {
				let (near, far) = left.into_iter().partition(|b| self.m.get(part[k], *b) != R::int(0));
				left = far;
				part.extend::<Vec<usize>>(near);
				k += 1;
			}
			parts.push(part);
		}
		parts
	}
	/// minimum of the energy over the variables without a label; the values of
	/// the others are given by `s`
	pub fn min(&self, s: &[bool], anc: &[usize]) -> R {
		let parts = if anc.len() > 4 { self.parts(anc) } else { vec![anc.to_vec()] };
		self.min_parts(s, &parts)
	}
	/// the same for variables already taken apart
	pub fn min_parts(&self, s: &[bool], parts: &[Vec<usize>]) -> R {
		let mut s = s.to_vec();
		for &a in parts.iter().flatten() {
			s[a] = false;
		}
		let base = self.energy(&s);
		parts.iter().fold(base, |e, p| e + self.gain(&s, p))
	}
	/// the least change that turning on some of `anc`, all off in `s`, makes
	fn gain(&self, s: &[bool], anc: &[usize]) -> R {
		let k = anc.len();
		// free fields of the auxiliaries
		let mut field: Vec<R> = anc.iter().map(|&a| self.m.flip(s, a)).collect();
		let mut on = vec![false; k];
		let (mut cur, mut best) = (R::int(0), R::int(0));
		// Gray code
		for step in 1u64..(1u64 << k) {
			let b = step.trailing_zeros() as usize;
			if on[b] {
				cur = cur - field[b];
			} else {
				cur = cur + field[b];
			}
			on[b] = !on[b];
			for c in 0..k {
				if c != b {
					let w = self.m.get(anc[b], anc[c]);
					field[c] = if on[b] { field[c] + w } else { field[c] - w };
				}
			}
			if cur < best {
				best = cur;
			}
		}
		best
	}
}

/// Observe a compiled model: weights, constant and position of every label.
pub fn observe<Tq, Tc, R>(
	s: &mut Simple<Tq, Tc, R>,
	gen: &Gen<R>,
	cur: &Mutex<u32>,
) -> Result<Obs<Tq, R>, String>
where
	Tq: TqType + Send + Sync,
	Tc: TcType + Send + Sync,
	R: Num,
{
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	*cur.lock().unwrap() = 0; // all false
	gen.reset();
	let (offset, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
	let m = gen.models().first().ok_or("no model was generated")?.as_ref().clone();
	let mut labels: Vec<(Tq, usize)> = Vec::new();
	for l in view.keys() {
		if labels.iter().any(|(k, _)| k == l) {
			return Err(format!("label {:?} is listed twice", l));
		}
		if view.get(l) != Some(false) {
			return Err(format!("label {:?} is {:?} in the all-false answer", l, view.get(l)));
		}
		labels.push((l.clone(), 0));
	}
	let mut solves = 1;
	let mut bit = 0;
	while m.n > (1 << bit) || bit == 0 {
		*cur.lock().unwrap() = bit + 1;
		gen.reset();
		let (_, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
		solves += 1;
		for (l, i) in labels.iter_mut() {
			match view.get(l) {
				Some(true) => *i |= 1 << bit,
				Some(false) => (),
				None => return Err(format!("label {:?} disappeared", l)),
			}
		}
		bit += 1;
	}
	if m.n > 0 {
		// last: everything true, so that a label tied to false is seen
		*cur.lock().unwrap() = u32::MAX;
		gen.reset();
		let (_, view, _) = s.solve_with_constraints().map_err(|e| e.to_string())?;
		solves += 1;
		for (l, _) in labels.iter() {
			if view.get(l) != Some(true) {
				return Err(format!("label {:?} is {:?} in the all-true answer", l, view.get(l)));
			}
		}
	}
	let set: BTreeSet<usize> = labels.iter().map(|(_, i)| *i).collect();
	if set.len() != labels.len() {
		return Err("two labels share one variable".to_string());
	}
	if let Some(i) = set.iter().find(|i| **i >= m.n) {
		return Err(format!("a label has variable {} of {}", i, m.n));
	}
	Ok(Obs {
		m,
		offset,
		labels,
		solves,
	})
}

/// state pattern used by `observe`: 0 all false, MAX all true, b + 1: bit b of
/// the index
pub fn pattern_gen<R: Num>() -> (Gen<R>, Arc<Mutex<u32>>) {
	let cur = Arc::new(Mutex::new(0u32));
	let c = cur.clone();
	let gen = Gen::solver(move |call: &Call<R>| Ok(vec![pattern(*c.lock().unwrap(), call.model.n)]));
	(gen, cur)
}

pub fn observe_expr<Tq, Tc, R>(
	e: Expr<(), Tq, Tc, R>,
	strength: R,
) -> Result<Obs<Tq, R>, String>
where
	Tq: TqType + Send + Sync,
	Tc: TcType + Send + Sync,
	R: Num,
{
	let (gen, cur) = pattern_gen();
	let c = e.compile();
	let mut s = SimpleSolver::with_solver(&c, gen.clone());
	s.coeff_strength = strength;
	observe(&mut s, &gen, &cur)
}

/// the same for expressions with placeholders, fed after compilation
pub fn observe_fed<Tp, Tq, Tc, R>(
	e: Expr<Tp, Tq, Tc, R>,
	dict: std::collections::HashMap<Tp, R>,
	strength: R,
) -> Result<Obs<Tq, R>, String>
where
	Tp: rustqubo::TpType,
	Tq: TqType + Send + Sync,
	Tc: TcType + Send + Sync,
	R: Num,
{
	let (gen, cur) = pattern_gen();
	let c = e.compile().feed_dict(dict);
	let mut s = SimpleSolver::with_solver(&c, gen.clone());
	s.coeff_strength = strength;
	observe(&mut s, &gen, &cur)
}

/// the assignment number `a` of `vars`, as a state of the observed model
pub fn place<R: Num>(o: &Obs<u8, R>, vars: &[u8], a: &dyn Fn(usize) -> bool) -> Vec<bool> {
	let mut s = vec![false; o.m.n];
	for (k, v) in vars.iter().enumerate() {
		if let Some(i) = o.index(v) {
			s[i] = a(k);
		}
	}
	s
}

/// A solver whose behaviour can be replaced between calls.
pub struct Script<R: Num> {
	answer: Arc<Mutex<Arc<Answer<R>>>>,
	create: Arc<Mutex<Arc<GenAnswer>>>,
}

impl<R: Num> Script<R> {
	fn make() -> (Gen<R>, Self) {
		let a: Arc<Answer<R>> = Arc::new(|c: &Call<R>| Ok(vec![vec![false; c.model.n]]));
		let g: Arc<GenAnswer> = Arc::new(|_| Ok(()));
		let s = Script {
			answer: Arc::new(Mutex::new(a)),
			create: Arc::new(Mutex::new(g)),
		};
		let (a, g) = (s.answer.clone(), s.create.clone());
		let gen = Gen::new(
			move |k| {
				let f = g.lock().unwrap().clone();
				f(k)
			},
			move |c: &Call<R>| {
				let f = a.lock().unwrap().clone();
				f(c)
			},
		);
		(gen, s)
	}
	pub fn answer(&self, f: impl Fn(&Call<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync + 'static) {
		*self.answer.lock().unwrap() = Arc::new(f);
	}
	pub fn create(&self, f: impl Fn(usize) -> Result<(), Fail> + Send + Sync + 'static) {
		*self.create.lock().unwrap() = Arc::new(f);
	}
}

/// Compile an expression, attach a scripted solver and observe the model at the
/// given total strength; then hand everything over.
pub fn with_rig<Tp, Tq, Tc, R, X>(
	e: Expr<Tp, Tq, Tc, R>,
	dict: std::collections::HashMap<Tp, R>,
	strength: R,
	f: impl FnOnce(&mut Simple<Tq, Tc, R>, &Obs<Tq, R>, &Gen<R>, &Script<R>) -> Result<X, String>,
) -> Result<X, String>
where
	Tp: rustqubo::TpType,
	Tq: TqType + Send + Sync,
	Tc: TcType + Send + Sync,
	R: Num,
{
	let (gen, script) = Script::make();
	let c = e.compile().feed_dict(dict);
	let mut s = SimpleSolver::with_solver(&c, gen.clone());
	s.coeff_strength = strength;
	let cur = Arc::new(Mutex::new(0u32));
	let p = cur.clone();
	script.answer(move |call| Ok(vec![pattern(*p.lock().unwrap(), call.model.n)]));
	let o = observe(&mut s, &gen, &cur)?;
	gen.reset();
	f(&mut s, &o, &gen, &script)
}

fn pattern(p: u32, n: usize) -> Vec<bool> {
	(0..n)
		.map(|i| match p {
			0 => false,
			u32::MAX => true,
			b => (i >> (b - 1)) & 1 == 1,
		})
		.collect()
}

//! S07: calls do not influence each other, whether they follow one another, take
//! turns or run at the same time.
use crate::det;
use crate::num::*;
use crate::p_sa::{annealer, dense, sparse, Draws};
use crate::qubo::*;
use crate::run::*;
use crate::tree::*;
use crate::with_type;
use classical_solver::beta::BetaType;
use rustqubo::solve::SimpleSolver;
use rustqubo::Expr;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use T::*;

// ---------------------------------------------------------------- scheduler

#[derive(Clone, Copy, PartialEq, Debug)]
enum A {
	Absent,
	Waiting,
	Running,
	Done,
}

/// Who continues at a scheduling point.
enum Policy {
	/// every choice is explored
	All(Arc<Mutex<Chooser>>),
	/// an agent is interrupted at these of its own points, otherwise it goes on
	Plan(Vec<(usize, usize)>),
}

struct St {
	state: Vec<A>,
	turn: Option<usize>,
	count: Vec<usize>,
	steps: u64,
	switches: u64,
	broken: bool,
	/// thread of each agent
	thread: Vec<Option<std::path::PathBuf>>,
}

impl St {
	/// a running agent has work to do (or a processor is all it waits for)
	fn busy(&self) -> bool {
		self.state.iter().zip(&self.thread).any(|(s, t)| {
			*s == A::Running
				&& t.as_ref().and_then(|t| std::fs::read_to_string(t).ok()).map_or(false, |t| {
					t.rsplit(')').next().map_or(false, |t| t.trim_start().starts_with(['R', 'D']))
				})
		})
	}
}

/// Lets one agent run at a time and decides, at every point an agent reaches, who
/// goes on.
struct Sched {
	st: Mutex<St>,
	cv: Condvar,
	policy: Policy,
}

thread_local! {
	static CUR: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}

/// a scheduling point, if the calling thread is under control
fn here() {
	let c = CUR.with(|c| c.borrow().clone());
	if let Some((s, a)) = c {
		s.point(a, true);
	}
}

fn agent() -> Option<usize> {
	CUR.with(|c| c.borrow().as_ref().map(|c| c.1))
}

impl Sched {
	fn new(n: usize, policy: Policy) -> Arc<Self> {
		Arc::new(Sched {
			st: Mutex::new(St { state: vec![A::Absent; n], turn: None, count: vec![0; n], steps: 0, switches: 0, broken: false, thread: vec![None; n] }),
			cv: Condvar::new(),
			policy,
		})
	}
	/// choose the next one; `cur` stopped last
	fn pick(&self, st: &mut St, cur: usize) {
		if st.state.iter().any(|a| matches!(a, A::Absent | A::Running)) {
			return;
		}
		let w: Vec<usize> = (0..st.state.len()).filter(|i| st.state[*i] == A::Waiting).collect();
		if w.is_empty() {
			return;
		}
		let n = st.state.len();
		let next = match &self.policy {
			Policy::All(c) => {
				if w.len() == 1 {
					w[0]
				} else {
					w[c.lock().unwrap().choose(w.len())]
				}
			}
			Policy::Plan(p) => {
				if st.state[cur] == A::Waiting && !p.contains(&(cur, st.count[cur])) {
					cur
				} else {
					(1..=n).map(|k| (cur + k) % n).find(|k| w.contains(k)).unwrap()
				}
			}
		};
		if next != cur {
			st.switches += 1;
		}
		st.turn = Some(next);
		st.steps += 1;
		self.cv.notify_all();
	}
	fn point(&self, a: usize, counted: bool) {
		let mut st = self.st.lock().unwrap();
		if !counted {
			st.thread[a] = std::fs::read_link("/proc/thread-self").ok().map(|t| std::path::Path::new("/proc").join(t).join("stat"));
		}
		if st.broken {
			return;
		}
		if counted {
			st.count[a] += 1;
		}
		st.state[a] = A::Waiting;
		if counted {
			st.turn = None;
			self.pick(&mut st, a);
		} else if st.turn.is_none() {
			// the start: agent 0 goes first unless the plan interrupts it at once
			self.pick(&mut st, 0);
		}
		let mut seen = st.steps;
		let mut idle = 0;
		while st.turn != Some(a) && !st.broken {
			let (g, t) = self.cv.wait_timeout(st, Duration::from_millis(200)).unwrap();
			st = g;
			if t.timed_out() && st.steps == seen && !st.broken && !st.busy() {
				idle += 1;
				if idle == 2 {
					// whoever has the turn waits for something else
					st.broken = true;
					self.cv.notify_all();
				}
			} else {
				idle = 0;
			}
			seen = st.steps;
		}
		st.state[a] = A::Running;
	}
	fn done(&self, a: usize) {
		let mut st = self.st.lock().unwrap();
		st.state[a] = A::Done;
		if !st.broken {
			st.turn = None;
			self.pick(&mut st, a);
		}
	}
}

/// what an execution of agents was like
struct Run<X> {
	out: Vec<Result<X, String>>,
	broken: bool,
	count: Vec<usize>,
	switches: u64,
}

type Job<'a, X> = Box<dyn FnOnce() -> X + Send + 'a>;

/// Schedules that could not be forced, by kind of work. Where calls exclude each
/// other there is nothing to interleave, and trying stops.
static GIVEN_UP: [AtomicUsize; 6] = [const { AtomicUsize::new(0) }; 6];

/// Run the jobs as agents, each in its own one-thread pool.
fn run_agents<'a, X: Send>(kind: usize, pools: &[rayon::ThreadPool], policy: Policy, jobs: Vec<Job<'a, X>>) -> Run<X> {
	let s = Sched::new(jobs.len(), policy);
	s.st.lock().unwrap().broken = GIVEN_UP[kind].load(SeqCst) > 40;
	let mut out: Vec<Result<X, String>> = Vec::new();
	std::thread::scope(|sc| {
		let hs: Vec<_> = jobs
			.into_iter()
			.enumerate()
			.map(|(i, job)| {
				let s = s.clone();
				let pool = &pools[i];
				sc.spawn(move || {
					pool.install(|| {
						CUR.with(|c| *c.borrow_mut() = Some((s.clone(), i)));
						s.point(i, false);
						let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
						let msg = last_panic();
						CUR.with(|c| *c.borrow_mut() = None);
						s.done(i);
						r.map_err(|_| format!("panicked: {}", msg))
					})
				})
			})
			.collect();
		for h in hs {
			out.push(h.join().unwrap());
		}
	});
	let st = s.st.lock().unwrap();
	if st.broken {
		GIVEN_UP[kind].fetch_add(1, SeqCst);
	}
	Run { out, broken: st.broken, count: st.count.clone(), switches: st.switches }
}

fn pools(n: usize) -> Vec<rayon::ThreadPool> {
	(0..n).map(|_| rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap()).collect()
}

// ---------------------------------------------------------------- labels

/// A label at which threads can be interrupted.
pub struct L(pub u8);
impl Clone for L {
	fn clone(&self) -> Self {
		here();
		L(self.0)
	}
}
impl PartialEq for L {
	fn eq(&self, o: &L) -> bool {
		here();
		self.0 == o.0
	}
}
impl Eq for L {}
impl PartialOrd for L {
	fn partial_cmp(&self, o: &L) -> Option<std::cmp::Ordering> {
		Some(self.cmp(o))
	}
}
impl Ord for L {
	fn cmp(&self, o: &L) -> std::cmp::Ordering {
		here();
		self.0.cmp(&o.0)
	}
}
impl Hash for L {
	fn hash<H: Hasher>(&self, h: &mut H) {
		here();
		self.0.hash(h)
	}
}
impl std::fmt::Debug for L {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "{}", self.0)
	}
}

// ---------------------------------------------------------------- searches

/// What one search showed, in terms of labels.
#[derive(Clone, Debug)]
struct Trace<R> {
	/// the weights of each model, labelled variables first
	models: Vec<Vec<R>>,
	/// value, energy, label -> (value, field), violated
	result: Result<(R, Option<R>, BTreeMap<u8, (Option<bool>, Option<R>)>, BTreeSet<u8>), usize>,
}

impl<R: Num> Trace<R> {
	/// words; numbers begin with #
	fn words(&self) -> String {
		let mut v = Vec::new();
		let num = |x: R| format!("#{:e}", x.f());
		let opt = |x: Option<R>| x.map_or("-".to_string(), num);
		for m in &self.models {
			v.push("M".to_string());
			v.extend(m.iter().map(|x| num(*x)));
		}
		match &self.result {
			Err(k) => v.push(format!("E{}", k)),
			Ok((a, b, l, u)) => {
				v.push(num(*a));
				v.push(opt(*b));
				for (k, (x, f)) in l {
					v.push(format!("{}={:?}", k, x).replace(' ', ""));
					v.push(opt(*f));
				}
				v.extend(u.iter().map(|c| format!("U{}", c)));
			}
		}
		v.join(" ")
	}
	fn differs(&self, o: &Self) -> Option<String> {
		let same = |a: &R, b: &R| a.close(*b);
		let opt = |a: &Option<R>, b: &Option<R>| match (a, b) {
			(Some(a), Some(b)) => a.close(*b),
			(None, None) => true,
			_ => false,
		};
		if self.models.len() != o.models.len() {
			return Some(format!("{} solvers are created, alone {}", self.models.len(), o.models.len()));
		}
		for (k, (a, b)) in self.models.iter().zip(&o.models).enumerate() {
			if a.len() != b.len() || !a.iter().zip(b).all(|(a, b)| same(a, b)) {
				return Some(format!("solver number {} gets weights {:?}, alone {:?}", k, a, b));
			}
		}
		let ok = match (&self.result, &o.result) {
			(Err(a), Err(b)) => a == b,
			(Ok(a), Ok(b)) => {
				same(&a.0, &b.0)
					&& opt(&a.1, &b.1) && a.2.len() == b.2.len()
					&& a.2.iter().zip(&b.2).all(|((k, x), (l, y))| k == l && x.0 == y.0 && opt(&x.1, &y.1))
					&& a.3 == b.3
			}
			_ => false,
		};
		if ok {
			None
		} else {
			Some(format!("the result is {:?}, alone {:?}", self.result, o.result))
		}
	}
}

fn same_words(a: &str, b: &str) -> bool {
	let (a, b): (Vec<&str>, Vec<&str>) = (a.split(' ').collect(), b.split(' ').collect());
	a.len() == b.len()
		&& a.iter().zip(&b).all(|(x, y)| {
			if x == y {
				return true;
			}
			match (x.strip_prefix('#').and_then(|x| x.parse::<f64>().ok()), y.strip_prefix('#').and_then(|y| y.parse::<f64>().ok())) {
				(Some(x), Some(y)) => (x - y).abs() <= 1e-6 * (1.0 + x.abs().max(y.abs())),
				_ => false,
			}
		})
}

/// What the call named by the key gives in a process that made no other.
fn pristine(key: &str) -> Result<String, String> {
	static KNOWN: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
	if let Some(s) = KNOWN.lock().unwrap().get(key) {
		return Ok(s.clone());
	}
	let exe = std::env::current_exe().map_err(|e| e.to_string())?;
	let out = std::process::Command::new(exe).args(["S07", "--alone", key]).output().map_err(|e| e.to_string())?;
	let s = String::from_utf8_lossy(&out.stdout).trim().to_string();
	if !out.status.success() || s.is_empty() {
		return Err(format!("the call {} alone: {} {}", key, out.status, String::from_utf8_lossy(&out.stderr)));
	}
	KNOWN.lock().unwrap().insert(key.to_string(), s.clone());
	Ok(s)
}

/// the other side of `pristine`
pub fn alone(key: &str) -> String {
	let k: Vec<i64> = key.split(',').filter_map(|x| x.parse().ok()).collect();
	// as in the cases
	pools(1)[0].install(|| match k[0] {
		0 => {
			let op = (Set { samples: k[3] as usize, gens: k[4] as usize, iters: k[5] as usize, coeff: k[6] as i32 }, k[7..].iter().map(|x| *x as u8).collect(), false);
			if k[2] == 0 {
				s07_once::<f64>(k[1] as usize, &op)
			} else {
				s07_once::<i32>(k[1] as usize, &op)
			}
		}
		_ => with_type!(k[1] as usize, R, auto_words::<R>(k[2] as u64, k[3] as usize, k[4] as usize, k[5] as u64)),
	})
}

fn canon<R: Num, Q: Clone>(m: &Dense<R>, labels: &[(Q, usize)], key: &dyn Fn(&Q) -> u8) -> Vec<R> {
	let mut l: Vec<(u8, usize)> = labels.iter().map(|(q, i)| (key(q), *i)).collect();
	l.sort();
	let mut order: Vec<usize> = l.iter().map(|x| x.1).collect();
	order.extend((0..m.n).filter(|i| !l.iter().any(|x| x.1 == *i)));
	let mut v = Vec::new();
	for (a, i) in order.iter().enumerate() {
		for j in &order[..=a] {
			v.push(m.get(*i, *j));
		}
	}
	v
}

/// the answers of one search: per call the values of the variables, or a failure
/// when creating (254) or solving (255)
type Plan = Vec<u8>;

/// Controls what the agents' solvers answer, and records what they got.
struct Desk<R: Num> {
	plans: Mutex<Vec<Plan>>,
	/// position of the labelled variables, by agent
	at: Mutex<Vec<Vec<usize>>>,
	created: Vec<AtomicUsize>,
	solved: Vec<AtomicUsize>,
	models: Mutex<Vec<Vec<Dense<R>>>>,
	/// done once, in the call of this kind (true: solving) and number of agent 0
	hook: Mutex<Option<(bool, usize, Hook)>>,
	/// the hook is at work: calls are those of agent 1
	inner: AtomicBool,
}
type Hook = Box<dyn FnOnce() + Send>;

impl<R: Num> Desk<R> {
	fn hooked(&self, solving: bool, k: usize) {
		let h = {
			let mut g = self.hook.lock().unwrap();
			match &*g {
				Some((s, n, _)) if *s == solving && *n == k => g.take(),
				_ => None,
			}
		};
		if let Some((_, _, f)) = h {
			self.inner.store(true, SeqCst);
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
			self.inner.store(false, SeqCst);
			if let Err(e) = r {
				std::panic::resume_unwind(e);
			}
		}
	}
	fn new(n: usize) -> Arc<Self> {
		Arc::new(Desk {
			plans: Mutex::new(vec![vec![]; n]),
			at: Mutex::new(vec![vec![]; n]),
			created: (0..n).map(|_| AtomicUsize::new(0)).collect(),
			solved: (0..n).map(|_| AtomicUsize::new(0)).collect(),
			models: Mutex::new(vec![vec![]; n]),
			hook: Mutex::new(None),
			inner: AtomicBool::new(false),
		})
	}
	fn reset(&self) {
		for a in self.created.iter().chain(&self.solved) {
			a.store(0, SeqCst);
		}
		for m in self.models.lock().unwrap().iter_mut() {
			m.clear();
		}
	}
	/// a generator; `fixed`: all its calls are of this agent, otherwise the agent
	/// is known by its thread
	fn gen(self: &Arc<Self>, fixed: Option<usize>) -> Gen<R> {
		let (d, e) = (self.clone(), self.clone());
		let i = self.clone();
		let who = move || if i.inner.load(SeqCst) { 1 } else { fixed.or_else(agent).unwrap_or(0) };
		let who2 = who.clone();
		Gen::new(
			move |_| {
				let a = who();
				here();
				let k = d.created[a].fetch_add(1, SeqCst);
				if a == 0 {
					d.hooked(false, k);
				}
				if d.plans.lock().unwrap()[a].get(k) == Some(&254) {
					return Err(Fail(a * 1000 + k));
				}
				Ok(())
			},
			move |call| {
				let a = who2();
				here();
				let k = e.solved[a].fetch_add(1, SeqCst);
				if a == 0 {
					e.hooked(true, k);
				}
				e.models.lock().unwrap()[a].push(call.model.clone());
				let p = e.plans.lock().unwrap()[a].get(k).copied().unwrap_or(0);
				if p == 255 {
					return Err(Fail(a * 1000 + 500 + k));
				}
				let mut st = vec![false; call.model.n];
				for (b, i) in e.at.lock().unwrap()[a].iter().enumerate() {
					st[*i] = p >> b & 1 == 1;
				}
				Ok(vec![st])
			},
		)
	}
}

fn search_expr(which: usize) -> T {
	match which {
		// bits 0, 1: constraints 0 and 1 violated; bit 2 moves the objective
		0 => sum(vec![con(0, B(0)), con(1, B(1)), mul(N(-5), B(2)), N(3)]),
		// another model: three constraints, one with a product
		1 => sum(vec![con(7, B(0)), con(2, mul(B(1), B(0))), con(3, sub(N(1), B(2))), mul(N(4), B(1)), mul(N(2), mul(B(2), B(3)))]),
		// with an auxiliary variable
		2 => sum(vec![con(0, B(0)), con(1, B(2)), mul(N(-6), prod(vec![B(0), B(1), B(2)])), mul(N(3), B(1))]),
		_ => unreachable!(),
	}
}

#[derive(Clone, Copy, Debug)]
struct Set {
	samples: usize,
	gens: usize,
	iters: usize,
	coeff: i32,
}

fn set<'a, R: Num>(s: &mut Simple<'a, u8, u8, R>, c: Set) {
	s.samples = c.samples;
	s.generations = c.gens;
	s.iterations = c.iters;
	s.coeff_strength = R::int(c.coeff);
}

/// one call of a search
fn call<R: Num>(s: &Simple<u8, u8, R>, labels: &BTreeSet<u8>) -> Result<(R, Option<R>, BTreeMap<u8, (Option<bool>, Option<R>)>, BTreeSet<u8>), usize> {
	match s.solve_with_constraints() {
		Err(Fail(k)) => Err(k),
		Ok((v, w, u)) => Ok((
			v,
			w.energy(),
			labels.iter().map(|l| (*l, (w.get(l), w.local_field(l)))).collect(),
			u.into_iter().cloned().collect(),
		)),
	}
}

/// several searches at the same time: `which[a]` is the model of agent a; the same
/// number means the same compiled model, and one solver when `shared`
fn s07_searches<R: Num>(which: &[usize], shared: bool, c: Set, plans: &[Plan], ctx: &mut Ctx) -> Result<(), String> {
	let n = which.len();
	let trees: Vec<T> = which.iter().map(|w| search_expr(*w)).collect();
	let mut compiled = BTreeMap::new();
	for (w, t) in which.iter().zip(&trees) {
		compiled.entry(*w).or_insert_with(|| {
			let e: Expr<(), u8, u8, R> = t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int });
			e.compile()
		});
	}
	let pools = pools(n);
	let desk = Desk::<R>::new(n);
	// observe the layouts first
	let mut layouts: Vec<Vec<(u8, usize)>> = Vec::new();
	let mut solvers: Vec<Simple<u8, u8, R>> = Vec::new();
	for a in 0..if shared { 1 } else { n } {
		let (og, cur) = pattern_gen::<R>();
		let own = desk.gen(if shared { None } else { Some(a) });
		// the same solver object is observed and used: its generator is exchanged by
		// a field of its own
		let mut s: Simple<u8, u8, R> = SimpleSolver::with_solver(&compiled[&which[a]], og.clone());
		s.coeff_strength = R::int(c.coeff);
		let o = pools[a].install(|| observe(&mut s, &og, &cur))?;
		s.solver_generator = own;
		set(&mut s, c);
		layouts.push(o.labels.clone());
		solvers.push(s);
	}
	let lay = |a: usize| if shared { &layouts[0] } else { &layouts[a] };
	{
		let mut at = desk.at.lock().unwrap();
		for a in 0..n {
			let mut l = lay(a).clone();
			l.sort();
			at[a] = l.iter().map(|x| x.1).collect();
		}
	}
	*desk.plans.lock().unwrap() = plans.to_vec();
	let labels: Vec<BTreeSet<u8>> = trees.iter().map(|t| t.vars()).collect();
	let job = |a: usize| -> Job<_> {
		let s = &solvers[if shared { 0 } else { a }];
		let l = &labels[a];
		Box::new(move || call(s, l))
	};
	let trace = |a: usize, r: Result<_, String>| -> Result<Trace<R>, String> {
		Ok(Trace {
			models: desk.models.lock().unwrap()[a].iter().map(|m| canon(m, lay(a), &|q| *q)).collect(),
			result: r?,
		})
	};
	// alone
	let mut base = Vec::new();
	for a in 0..n {
		desk.reset();
		// the other agents have nothing to do
		let jobs: Vec<Job<_>> = (0..n).map(|b| if a == b { job(a) } else { Box::new(|| Err(usize::MAX)) as Job<_> }).collect();
		let mut r = run_agents(0, &pools, Policy::Plan(vec![]), jobs);
		let out = std::mem::replace(&mut r.out[a], Ok(Err(0)));
		base.push(trace(a, out)?);
	}
	dfs(vec![], |ch| {
		desk.reset();
		let r = run_agents(0, &pools, Policy::All(ch.clone()), (0..n).map(|a| job(a)).collect());
		ctx.traces += 1;
		ctx.states += r.count.iter().sum::<usize>() as u64;
		ctx.transitions += r.switches;
		if r.broken {
			ctx.note("schedules given up");
		}
		for (a, out) in r.out.into_iter().enumerate() {
			let t = trace(a, out)?;
			if let Some(d) = t.differs(&base[a]) {
				return Err(format!(
					"searches on models {:?} ({}), {:?}, answers {:?}: search {}: {} ({})",
					which, if shared { "one solver" } else { "own solvers" }, c, plans, a, d, R::NAME
				));
			}
		}
		Ok(())
	})?;
	ctx.nontrivial += 1;
	for b in &base {
		ctx.outcome_of(&format!("{:?}", b.result));
	}
	ctx.sample(|| format!("models {:?}, {:?}, answers {:?}", which, c, plans));
	Ok(())
}

fn tree_of<R: Num>(t: &T) -> Expr<(), u8, u8, R> {
	t.build(&Lab { p: &|_| (), q: &|x| x, c: &|x| x, n: &R::int })
}

/// the positions of the labels
fn layout<R: Num>(s: &mut Simple<u8, u8, R>) -> Result<Vec<(u8, usize)>, String> {
	let (og, cur) = pattern_gen::<R>();
	let own = std::mem::replace(&mut s.solver_generator, og.clone());
	let o = observe(s, &og, &cur)?;
	s.solver_generator = own;
	Ok(o.labels)
}

type Op = (Set, Plan, bool);

fn op_key(which: usize, ty: usize, op: &Op) -> String {
	let mut v = vec![0, which as i64, ty as i64, op.0.samples as i64, op.0.gens as i64, op.0.iters as i64, op.0.coeff as i64];
	v.extend(op.1.iter().map(|x| *x as i64));
	v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

/// the search of agent `a`
fn search_once<R: Num>(s: &mut Simple<u8, u8, R>, desk: &Arc<Desk<R>>, a: usize, lay: &[(u8, usize)], labels: &BTreeSet<u8>, op: &Op) -> Trace<R> {
	let mut l = lay.to_vec();
	l.sort();
	desk.at.lock().unwrap()[a] = l.iter().map(|x| x.1).collect();
	desk.plans.lock().unwrap()[a] = op.1.clone();
	set(s, op.0);
	let r = call(s, labels);
	let models = desk.models.lock().unwrap()[a].iter().map(|m| canon(m, lay, &|q| *q)).collect();
	Trace { models, result: r }
}

/// a search on a new model and solver, in words
fn s07_once<R: Num>(which: usize, op: &Op) -> String {
	let t = search_expr(which);
	let c = tree_of::<R>(&t).compile();
	let d = Desk::<R>::new(1);
	let mut s: Simple<u8, u8, R> = SimpleSolver::with_solver(&c, d.gen(Some(0)));
	s.coeff_strength = R::int(6);
	// the layout is looked at through the search itself, afterwards
	let labels = t.vars();
	let lay = match layout(&mut s) {
		Ok(l) => l,
		Err(e) => return format!("? {}", e),
	};
	search_once(&mut s, &d, 0, &lay, &labels, op).words()
}

/// sequences of calls on one solver, compared with calls on fresh ones, and with
/// calls in fresh processes
fn s07_sequence<R: Num>(which: usize, ops: &[Op], ctx: &mut Ctx) -> Result<(), String> {
	let t = search_expr(which);
	let labels = t.vars();
	let ty = if R::NAME == "f64" { 0 } else { 1 };
	let compiled = tree_of::<R>(&t).compile();
	let desk = Desk::<R>::new(1);
	let mut s: Simple<u8, u8, R> = SimpleSolver::with_solver(&compiled, desk.gen(Some(0)));
	s.coeff_strength = R::int(6);
	let mut lay = layout(&mut s)?;
	for (k, op) in ops.iter().enumerate() {
		if op.2 {
			// another solver of the same model takes over
			s = SimpleSolver::with_solver(&compiled, desk.gen(Some(0)));
			s.coeff_strength = R::int(6);
			lay = layout(&mut s)?;
		}
		desk.reset();
		let got = search_once(&mut s, &desk, 0, &lay, &labels, op);
		let fresh = {
			let c = tree_of::<R>(&t).compile();
			let d = Desk::<R>::new(1);
			let mut s: Simple<u8, u8, R> = SimpleSolver::with_solver(&c, d.gen(Some(0)));
			s.coeff_strength = R::int(6);
			let lay = layout(&mut s)?;
			search_once(&mut s, &d, 0, &lay, &labels, op)
		};
		ctx.states += got.models.len() as u64 + 1;
		ctx.transitions += 1;
		ctx.traces += 1;
		let bad = |d: String| Err(format!("model {}, calls {:?}: call {}: {} ({})", which, ops, k, d, R::NAME));
		if let Some(d) = got.differs(&fresh) {
			return bad(d);
		}
		let first = pristine(&op_key(which, ty, op))?;
		if !same_words(&first, &got.words()) {
			return bad(format!("gives {}, in a process of its own {}", got.words(), first));
		}
		ctx.outcome_of(&format!("{:?}", got.result));
	}
	ctx.nontrivial += 1;
	ctx.sample(|| format!("model {}, {:?}", which, ops));
	Ok(())
}

/// what happens in the middle of a search, in a call of its solver
#[derive(Clone, Copy, Debug, PartialEq)]
enum Mid {
	/// a search on the same solver, on another solver of the model, on another model
	Same,
	Other,
	Model,
	/// the call panics
	Panic,
	/// something is compiled
	Work(usize),
}

/// a search in one of whose calls something else happens, or that panics and is
/// followed by another
fn s07_within<R: Num>(which: [usize; 2], op: &Op, at: (bool, usize), mid: Mid, iop: &Op, ctx: &mut Ctx) -> Result<(), String> {
	let ty = if R::NAME == "f64" { 0 } else { 1 };
	let inner_model = if mid == Mid::Model { which[1] } else { which[0] };
	let t = [search_expr(which[0]), search_expr(inner_model)];
	let labels = [t[0].vars(), t[1].vars()];
	let compiled = [tree_of::<R>(&t[0]).compile(), tree_of::<R>(&t[1]).compile()];
	let desk = Desk::<R>::new(2);
	let mut outer: Simple<u8, u8, R> = SimpleSolver::with_solver(&compiled[0], desk.gen(Some(0)));
	let mut inner: Simple<u8, u8, R> = SimpleSolver::with_solver(&compiled[if mid == Mid::Model { 1 } else { 0 }], desk.gen(Some(1)));
	outer.coeff_strength = R::int(6);
	inner.coeff_strength = R::int(6);
	let lay = [layout(&mut outer)?, layout(&mut inner)?];
	// settings of the same solver are shared
	let iop: Op = if mid == Mid::Same { (op.0, iop.1.clone(), false) } else { iop.clone() };
	set(&mut outer, op.0);
	set(&mut inner, iop.0);
	desk.reset();
	for (a, p) in [&op.1, &iop.1].into_iter().enumerate() {
		let mut l = lay[if a == 1 && mid == Mid::Same { 0 } else { a }].clone();
		l.sort();
		desk.at.lock().unwrap()[a] = l.iter().map(|x| x.1).collect();
		desk.plans.lock().unwrap()[a] = p.clone();
	}
	type Res<R> = Result<(R, Option<R>, BTreeMap<u8, (Option<bool>, Option<R>)>, BTreeSet<u8>), usize>;
	let found: Arc<Mutex<Option<Res<R>>>> = Arc::new(Mutex::new(None));
	let wrong: Arc<Mutex<Option<String>>> = Arc::new(Mutex::new(None));
	let (solving, k) = at;
	{
		let s: &Simple<u8, u8, R> = if mid == Mid::Same { &outer } else { &inner };
		let (f, w, l) = (found.clone(), wrong.clone(), labels[1].clone());
		let h: Box<dyn FnOnce() + Send + '_> = match mid {
			Mid::Panic => Box::new(|| panic!("a solver panics")),
			Mid::Work(k) => Box::new(move || {
				let out = work(k, &shared7());
				*w.lock().unwrap() = judge(k, Ok(out)).err();
			}),
			_ => Box::new(move || *f.lock().unwrap() = Some(call(s, &l))),
		};
		// SAFETY: the hook is taken out before the solvers are dropped
		let h: Hook = unsafe { std::mem::transmute::<Box<dyn FnOnce() + Send + '_>, Hook>(h) };
		*desk.hook.lock().unwrap() = Some((solving, k, h));
	}
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(&outer, &labels[0])));
	let reached = desk.hook.lock().unwrap().take().is_none();
	let trace = |a: usize, r: Res<R>| Trace {
		models: desk.models.lock().unwrap()[a].iter().map(|m| canon(m, &lay[if mid == Mid::Same { 0 } else { a }], &|q| *q)).collect(),
		// failures carry the number of the agent
		result: r.map_err(|k| k % 1000),
	};
	let what = || {
		format!(
			"model {} {:?}, in {} number {}: {:?} {:?}", which[0], op, if solving { "solving" } else { "creating" }, k, mid,
			if matches!(mid, Mid::Panic | Mid::Work(_)) { None } else { Some((inner_model, &iop)) }
		)
	};
	ctx.traces += 1;
	ctx.states += desk.models.lock().unwrap().iter().map(|m| m.len() as u64).sum::<u64>() + 1;
	ctx.transitions += reached as u64;
	let outer_first = pristine(&op_key(which[0], ty, op))?;
	let check = |who: &str, t: Trace<R>, first: &str| -> Result<(), String> {
		if same_words(first, &t.words()) {
			return Ok(());
		}
		Err(format!("{}: the {} search gives {}, alone {} ({})", what(), who, t.words(), first, R::NAME))
	};
	match r {
		Err(_) if mid == Mid::Panic && reached => {}
		Err(_) => return Err(format!("{}: panicked: {} ({})", what(), last_panic(), R::NAME)),
		Ok(r) => {
			// the failure of a creation is seen whatever happens in it
			check("outer", trace(0, r), &outer_first)?;
		}
	}
	if let Some(e) = wrong.lock().unwrap().take() {
		return Err(format!("{}: {}", what(), e));
	}
	let inner_first = pristine(&op_key(inner_model, ty, &iop))?;
	if let Some(r) = found.lock().unwrap().take() {
		check("inner", trace(1, r), &inner_first)?;
	}
	// and both once more
	for (a, s) in [&outer, &inner].into_iter().enumerate() {
		if mid == Mid::Same && a == 1 {
			continue;
		}
		desk.reset();
		let r = call(s, &labels[a]);
		check(if a == 0 { "later outer" } else { "later inner" }, trace(a, r), if a == 0 { &outer_first } else { &inner_first })?;
		ctx.traces += 1;
	}
	ctx.nontrivial += reached as u64;
	ctx.outcome_of(&(mid == Mid::Panic, reached, &outer_first));
	ctx.sample(what);
	Ok(())
}

/// `n` searches, of which the next starts when the one before is at its call number
/// `p`; they then end in order
fn s07_chain<R: Num>(n: usize, p: usize, shared: bool, op: &Op, ctx: &mut Ctx) -> Result<(), String> {
	let ty = if R::NAME == "f64" { 0 } else { 1 };
	let which: Vec<usize> = (0..n).map(|a| if shared { 0 } else { a % 3 }).collect();
	let trees: Vec<T> = which.iter().map(|w| search_expr(*w)).collect();
	let labels: Vec<BTreeSet<u8>> = trees.iter().map(|t| t.vars()).collect();
	let compiled: Vec<_> = trees.iter().map(|t| tree_of::<R>(t).compile()).collect();
	let pools = pools(n);
	let desk = Desk::<R>::new(n);
	let mut solvers: Vec<Simple<u8, u8, R>> = Vec::new();
	let mut lays = Vec::new();
	for a in 0..n {
		let mut s: Simple<u8, u8, R> = SimpleSolver::with_solver(&compiled[if shared { 0 } else { a }], desk.gen(Some(a)));
		s.coeff_strength = R::int(6);
		let lay = layout(&mut s)?;
		set(&mut s, op.0);
		let mut l = lay.clone();
		l.sort();
		desk.at.lock().unwrap()[a] = l.iter().map(|x| x.1).collect();
		desk.plans.lock().unwrap()[a] = op.1.clone();
		lays.push(lay);
		solvers.push(s);
	}
	desk.reset();
	let plan = (0..n).map(|a| (a, p)).collect();
	let r = run_agents(3, &pools, Policy::Plan(plan), (0..n).map(|a| -> Job<_> { let (s, l) = (&solvers[a], &labels[a]); Box::new(move || call(s, l)) }).collect());
	ctx.traces += 1;
	ctx.states += r.count.iter().sum::<usize>() as u64;
	ctx.transitions += r.switches;
	if r.broken {
		ctx.note("schedules given up");
	}
	for (a, out) in r.out.into_iter().enumerate() {
		let t = Trace { models: desk.models.lock().unwrap()[a].iter().map(|m| canon(m, &lays[a], &|q| *q)).collect(), result: out? };
		// failures carry the number of the agent
		let t = Trace { result: t.result.map_err(|k| k % 1000), ..t };
		let first = pristine(&op_key(which[a], ty, op))?;
		if !same_words(&first, &t.words()) {
			return Err(format!("{} searches of {:?} begun one within another at call {}: number {} gives {}, alone {} ({})", n, op, p, a, t.words(), first, R::NAME));
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&(n, p));
	ctx.sample(|| format!("{} searches, {:?}, each begun at call {} of the one before", n, op, p));
	Ok(())
}

// ---------------------------------------------------------------- everything else

type Rn = i64;
const EACH: Rn = 9;

/// what an agent of the mixed families produces
enum Out {
	/// a compiled model, to be looked at later
	Model(Box<dyn FnOnce() -> Result<Vec<Rn>, String> + Send>),
	Table(Vec<Rn>),
}

fn work_tree(k: usize) -> T {
	match k {
		0 => add(mul(N(3), prod(vec![B(0), B(1), B(2)])), mul(N(-2), B(1))),
		1 => sum(vec![mul(N(-4), prod(vec![B(0), B(1), B(3)])), mul(N(5), prod(vec![S(2), B(0), B(1), B(3)])), B(2)]),
		2 => pen(add(con(1, B(0)), mul(N(-3), B(1))), con(2, mul(B(0), S(1)))),
		3 => add(mul(P(0), mul(B(0), prod(vec![B(1), B(2)]))), con(5, sub(P(1), B(1)))),
		4 => pow(sub(add(B(0), mul(N(2), B(1))), N(2)), 2),
		5 => add(mul(N(7), prod(vec![B(3), B(4), B(5)])), mul(N(-2), B(4))),
		6 => add(mul(mul(P(0), N(2)), B(7)), mul(P(1), mul(S(8), B(7)))),
		_ => unreachable!(),
	}
}
const FEED: [[Rn; 2]; 2] = [[2, 5], [7, 1]];

/// kinds of work: (tree, how, which values)
const WORK: [(usize, u8, usize); 12] = [
	(0, 0, 0),
	(1, 0, 0),
	(2, 0, 0),
	(3, 1, 0), // values after compilation
	(3, 1, 1),
	(3, 2, 0), // values before compilation
	(4, 0, 0),
	(5, 0, 0),
	(6, 3, 0), // a clone of the shared compiled model is fed
	(6, 3, 1),
	(3, 4, 1), // a clone of the shared expression is compiled
	(2, 5, 0), // a search
];

/// what several agents use
struct Shared7 {
	/// feed a clone of a compiled model
	feed: Box<dyn Fn(HashMap<L, Rn>) -> Out + Send + Sync>,
	expr: Expr<L, L, L, Rn>,
	search: Box<dyn Fn() -> Result<Vec<Rn>, String> + Send + Sync>,
}

fn lab() -> Lab<'static, L, L, L, Rn> {
	Lab { p: &|x| L(x), q: &|x| L(x), c: &|x| L(x), n: &|k| k as Rn }
}

/// (the type of compiled models has no public name)
macro_rules! table_of {
	($t:expr, $c:expr) => {{
		let (gen, cur) = pattern_gen();
		let mut s = SimpleSolver::with_solver($c, gen.clone());
		table($t, &mut s, &gen, &cur)
	}};
}
macro_rules! later {
	($t:expr, $c:expr) => {{
		let (t, c) = ($t, $c);
		Out::Model(Box::new(move || table_of!(&t, &c)))
	}};
}

fn shared7() -> Shared7 {
	let model = work_tree(6).build(&lab()).compile();
	let search = work_tree(2).build(&lab()).compile().feed_dict(HashMap::new());
	Shared7 {
		feed: Box::new(move |d| later!(work_tree(6), model.clone().feed_dict(d))),
		expr: work_tree(3).build(&lab()),
		search: Box::new(move || table_of!(&work_tree(2), &search)),
	}
}

fn work(k: usize, sh: &Shared7) -> Out {
	let (tree, how, v) = WORK[k];
	let t = work_tree(tree);
	let dict = || -> HashMap<L, Rn> { t.placeholders().into_iter().map(|p| (L(p), FEED[v][p as usize])).collect() };
	match how {
		0 | 1 => {
			let c = t.build(&lab()).compile().feed_dict(dict());
			later!(t, c)
		}
		2 => {
			let c = t.build(&lab()).feed_dict(&dict()).compile().feed_dict(HashMap::new());
			later!(t, c)
		}
		3 => (sh.feed)(dict()),
		4 => {
			let c = sh.expr.clone().compile().feed_dict(dict());
			later!(t, c)
		}
		_ => Out::Table((sh.search)().unwrap_or_default()),
	}
}

/// the objective for every assignment of the labels, least over the rest
fn table<'a>(t: &T, s: &mut Simple<'a, L, L, Rn>, gen: &Gen<Rn>, cur: &Mutex<u32>) -> Result<Vec<Rn>, String> {
	let m = t.constraints().len().max(1) as Rn;
	s.coeff_strength = EACH * m;
	let o = observe(s, gen, cur)?;
	let vars: Vec<u8> = t.vars().into_iter().collect();
	let at: Vec<Option<usize>> = vars.iter().map(|v| o.labels.iter().find(|(l, _)| l.0 == *v).map(|x| x.1)).collect();
	let anc = o.ancillas();
	let mut out = Vec::new();
	for a in 0..1usize << vars.len() {
		let mut st = vec![false; o.m.n];
		for (k, p) in at.iter().enumerate() {
			if let Some(p) = p {
				st[*p] = a >> k & 1 == 1;
			}
		}
		out.push(o.min(&st, &anc));
	}
	Ok(out)
}

fn reference(k: usize) -> Vec<Rn> {
	let (tree, _, v) = WORK[k];
	let t = work_tree(tree);
	let vars: Vec<u8> = t.vars().into_iter().collect();
	(0..1usize << vars.len())
		.map(|a| {
			t.eval(&Env {
				q: &|x| a >> vars.iter().position(|y| *y == x).unwrap() & 1 == 1,
				p: &|p| FEED[v][p as usize],
				c: &|_| EACH,
				n: &|k| k as Rn,
			})
		})
		.collect()
}

fn judge(k: usize, out: Result<Out, String>) -> Result<(), String> {
	let t = work_tree(WORK[k].0);
	let got = match out? {
		Out::Model(m) => m()?,
		Out::Table(v) => v,
	};
	let want = reference(k);
	if got != want {
		return Err(format!("{:?} has the values {:?} instead of {:?}", t, got, want));
	}
	Ok(())
}

/// two pieces of work, one interrupted at each of its label operations
fn s07_pair(a: usize, b: usize, both: usize, ctx: &mut Ctx) -> Result<(), String> {
	let sh = shared7();
	let pools = pools(2);
	let go = |plan: Vec<(usize, usize)>, ctx: &mut Ctx| -> Result<Vec<usize>, String> {
		let r = run_agents(1, &pools, Policy::Plan(plan.clone()), vec![Box::new(|| work(a, &sh)) as Job<Out>, Box::new(|| work(b, &sh)) as Job<Out>]);
		ctx.traces += 1;
		ctx.states += 1;
		ctx.transitions += r.count.iter().sum::<usize>() as u64;
		if r.broken {
			ctx.note("schedules given up");
		}
		for (out, k) in r.out.into_iter().zip([a, b]) {
			judge(k, out).map_err(|e| format!("work {:?} and {:?}, interrupted at {:?}: {}", WORK[a], WORK[b], plan, e))?;
		}
		Ok(r.count)
	};
	let count = go(vec![], ctx)?;
	let (ka, kb) = (count[0], count[1]);
	let inner = if ka * kb <= both { kb } else { 0 };
	for i in 0..=ka {
		for j in 0..=inner {
			// the second goes on to its end, or to its point j
			let plan = if j == 0 { vec![(0, i)] } else { vec![(0, i), (1, j)] };
			go(plan, ctx)?;
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&(ka, kb));
	ctx.sample(|| format!("{:?} with {} operations against {:?} with {}", WORK[a], ka, WORK[b], kb));
	Ok(())
}

/// work after other work, in one thread
fn s07_after(ops: &[usize], rounds: usize, ctx: &mut Ctx) -> Result<(), String> {
	let sh = shared7();
	for r in 0..rounds {
		for k in ops {
			let out = work(*k, &sh);
			ctx.states += 1;
			ctx.transitions += 1;
			judge(*k, Ok(out)).map_err(|e| format!("after {} rounds of {:?}: {}", r, ops, e))?;
		}
	}
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&ops);
	ctx.sample(|| format!("{:?}, {} times", ops, rounds));
	Ok(())
}

// ---------------------------------------------------------------- annealers

/// a stream of draws, interruptible
struct Stream(u64, bool);
impl Draws for Stream {
	fn draw(&mut self) -> u64 {
		if self.1 {
			here();
		}
		self.0 = self.0.wrapping_add(1);
		det::mix(self.0)
	}
}

fn net_weights<R: Num>(code: u64, n: usize) -> Vec<(usize, usize, R)> {
	let mut v = Vec::new();
	for i in 0..n {
		for j in 0..=i {
			v.push((j, i, R::int((det::mix(code * 64 + (i * 8 + j) as u64) % 7) as i32 - 3)));
		}
	}
	v
}

/// `two`: each agent has its own model
fn s07_annealers<R: Num>(code: u64, n: usize, two: bool, gaps: bool, seed: u64, sweeps: usize, ctx: &mut Ctx) -> Result<(), String> {
	let w = [net_weights::<R>(code, n), net_weights::<R>(code + 1, n)];
	let ids: [Vec<usize>; 2] = [(0..n).collect(), (0..n).map(|i| i * 2 + 1).collect()];
	let d = [dense::<R>(n, &w[0]), dense::<R>(n, &w[1])];
	let g = [sparse::<R>(&ids[1], &w[0]), sparse::<R>(&ids[0], &w[1])];
	let beta = || BetaType::Schedule(vec![R::int(1)]);
	let anns: Vec<_> = (0..2)
		.map(|k| {
			let k = if two { k } else { 0 };
			if gaps {
				annealer::<R, _>(&g[k].p, beta(), sweeps)
			} else {
				annealer::<R, _>(&d[k].p, beta(), sweeps)
			}
		})
		.collect();
	let run = &|k: usize, points: bool| anns[k].run(0, &[], &mut Stream(seed * 1000 + k as u64 * 77, points));
	let base = [run(0, false)?, run(1, false)?];
	let pools = pools(2);
	dfs(vec![], |ch| {
		let r = run_agents(2, &pools, Policy::All(ch.clone()), (0..2).map(|k| -> Job<Result<(Vec<bool>, usize), String>> { Box::new(move || run(k, true)) }).collect());
		ctx.traces += 1;
		ctx.states += r.count.iter().sum::<usize>() as u64;
		ctx.transitions += r.switches;
		if r.broken {
			ctx.note("schedules given up");
		}
		for (k, out) in r.out.into_iter().enumerate() {
			let out = out??;
			if out != base[k] {
				return Err(format!("weights {:?}, {} sweeps, seed {}: run {} ends in {:?}, alone in {:?} ({})", w[if two { k } else { 0 }], sweeps, seed, k, out, base[k], R::NAME));
			}
		}
		Ok(())
	})?;
	// one after another
	for k in 0..40 {
		let out = run(k % 2, false)?;
		ctx.traces += 1;
		if out != base[k % 2] {
			return Err(format!("weights {:?}, {} sweeps, seed {}: run number {} ends in {:?}, the first in {:?} ({})", w[0], sweeps, seed, k + 2, out, base[k % 2], R::NAME));
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&format!("{:?}", base));
	ctx.sample(|| format!("{:?}, seed {}", w[0], seed));
	Ok(())
}

/// an annealer whose schedule is generated
fn auto_run<R: Num>(code: u64, n: usize, kind: usize, d: &mut dyn Draws) -> Result<(Vec<bool>, usize), String> {
	let scale = [1, if R::NAME == "i8" { 4 } else { 8 }, if R::NAME == "i8" { 8 } else { 32 }][code as usize % 3];
	let w: Vec<(usize, usize, R)> = net_weights::<R>(code / 3, n).into_iter().map(|(i, j, x)| (i, j, x * R::int(scale))).collect();
	let beta = match kind {
		0 => BetaType::Count(1),
		1 => BetaType::Count(3),
		2 => BetaType::CountRange(2, R::int(1), R::int(3)),
		_ => BetaType::Schedule(vec![R::int(1), R::int(2)]),
	};
	if code % 2 == 0 {
		annealer::<R, _>(&dense::<R>(n, &w).p, beta, 3).run(0, &[], d)
	} else {
		let ids: Vec<usize> = (0..n).map(|i| i * 2 + 1).collect();
		annealer::<R, _>(&sparse::<R>(&ids, &w).p, beta, 3).run(0, &[], d)
	}
}
fn auto_words<R: Num>(code: u64, n: usize, kind: usize, seed: u64) -> String {
	match auto_run::<R>(code, n, kind, &mut Stream(seed, false)) {
		Ok((s, k)) => format!("{} {}", s.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>(), k),
		Err(e) => format!("failed {}", e),
	}
}

/// annealers of different models after one another, compared with processes of
/// their own
fn s07_autos<R: Num>(ty: usize, ops: &[(u64, usize, usize)], ctx: &mut Ctx) -> Result<(), String> {
	for (k, (code, n, kind)) in ops.iter().enumerate() {
		let got = auto_words::<R>(*code, *n, *kind, 5);
		let first = pristine(&format!("1,{},{},{},{},5", ty, code, n, kind))?;
		ctx.states += 1;
		ctx.transitions += 1;
		if got != first {
			return Err(format!("annealers (weights, variables, kind of schedule) {:?}: number {} ends in {}, in a process of its own in {} ({})", ops, k, got, first, R::NAME));
		}
		ctx.outcome_of(&got);
	}
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.sample(|| format!("{:?}", ops));
	Ok(())
}

/// draws of an annealer that waits until all have begun
fn s07_crowd<R: Num>(ty: usize, n: usize, p: usize, code: u64, kind: usize, ctx: &mut Ctx) -> Result<(), String> {
	let pools = pools(n);
	let plan = (0..n).map(|a| (a, p)).collect();
	let r = run_agents(4, &pools, Policy::Plan(plan), (0..n).map(|a| -> Job<String> {
		Box::new(move || match auto_run::<R>(code + a as u64 % 2, 2, kind, &mut Stream(5, true)) {
			Ok((s, k)) => format!("{} {}", s.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>(), k),
			Err(e) => format!("failed {}", e),
		})
	}).collect());
	ctx.traces += 1;
	ctx.states += r.count.iter().sum::<usize>() as u64;
	ctx.transitions += r.switches;
	if r.broken {
		ctx.note("schedules given up");
	}
	for (a, out) in r.out.into_iter().enumerate() {
		let first = pristine(&format!("1,{},{},2,{},5", ty, code + a as u64 % 2, kind))?;
		let out = out?;
		if out != first {
			return Err(format!("{} annealers begun one within another at draw {}: number {} ends in {}, alone in {} ({})", n, p, a, out, first, R::NAME));
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&(n, p, r.count));
	ctx.sample(|| format!("{} annealers, weights {}, kind {}, at draw {}", n, code, kind, p));
	Ok(())
}

pub fn s07(thorough: bool) -> Property {
	let mut f = Vec::new();
	let two = Set { samples: 1, gens: 2, iters: 1, coeff: 20 };
	let restart = Set { samples: 1, gens: 1, iters: 2, coeff: 20 };
	let pair = Set { samples: 2, gens: 1, iters: 1, coeff: 20 };
	let single = Set { samples: 1, gens: 1, iters: 1, coeff: 20 };
	// answers: bits of the labels, or failures
	let opts: &'static [u8] = &[1, 6, 255, 4, 3, 254];
	for (name, which, shared) in [("one solver", [0usize, 0], true), ("two solvers of one model", [0, 0], false), ("two models", [0, 1], false), ("two models with auxiliary variables", [2, 2], false)] {
		let k = if thorough { 5u64 } else { 3 };
		f.push(family(&format!("two searches, {}, every interleaving", name), k * k * k * k * 2, move |i, ctx| {
			let mut d = Digits(i);
			let k = k as usize;
			let c = if d.next(2) == 0 { two } else { restart };
			let plans: Vec<Plan> = (0..2).map(|_| (0..2).map(|_| opts[d.next(k)]).collect()).collect();
			match i / 2 % 2 {
				0 => s07_searches::<f64>(&which, shared, c, &plans, ctx),
				_ => s07_searches::<i32>(&which, shared, c, &plans, ctx),
			}
		}).chunk(2));
	}
	f.push(family("two searches of two samples", if thorough { 512 } else { 162 }, move |i, ctx| {
		let mut d = Digits(i);
		let k = if ctx.thorough { 4 } else { 3 };
		let plans: Vec<Plan> = (0..2).map(|_| (0..2).map(|_| opts[d.next(k)]).collect()).collect();
		s07_searches::<i64>(&[0, 0], d.next(2) == 0, pair, &plans, ctx)
	}).chunk(2));
	f.push(family("three searches", if thorough { 192 } else { 24 }, move |i, ctx| {
		let mut d = Digits(i);
		let k = if ctx.thorough { 4 } else { 2 };
		let plans: Vec<Plan> = (0..3).map(|_| vec![opts[d.next(k)]]).collect();
		match d.next(3) {
			0 => s07_searches::<f64>(&[0, 0, 0], true, single, &plans, ctx),
			1 => s07_searches::<f64>(&[0, 1, 0], false, single, &plans, ctx),
			_ => s07_searches::<i32>(&[0, 1, 2], false, single, &plans, ctx),
		}
	}).chunk(1));
	if thorough {
		f.push(family("two searches of three rounds", 3 * 3 * 3 * 3 * 2, move |i, ctx| {
			let mut d = Digits(i);
			let c = Set { samples: 1, gens: 3, iters: 1, coeff: 20 };
			let plans: Vec<Plan> = (0..2).map(|_| (0..2).map(|_| opts[d.next(3)]).chain([3]).collect()).collect();
			s07_searches::<f64>(&[0, 0], d.next(2) == 0, c, &plans, ctx)
		}).chunk(1));
	}
	// sequences of calls
	let plans: &'static [&'static [u8]] = &[&[1, 1, 1, 1], &[3, 5, 0, 0], &[7, 1, 2, 4], &[1, 254, 1], &[3, 255, 3], &[4, 4]];
	let sets: &'static [Set] = &[
		Set { samples: 1, gens: 3, iters: 1, coeff: 6 },
		Set { samples: 2, gens: 2, iters: 1, coeff: 30 },
		Set { samples: 1, gens: 1, iters: 2, coeff: 6 },
		Set { samples: 3, gens: 1, iters: 1, coeff: 12 },
	];
	let ops = (plans.len() * sets.len()) as u64;
	let len = if thorough { 3 } else { 2 };
	f.push(family("sequences of calls", 3 * 2 * ops.pow(len) * 2, move |i, ctx| {
		let mut d = Digits(i);
		let (which, ty, fresh) = (d.next(3), d.next(2), d.next(2) == 1);
		let mut v: Vec<(Set, Plan, bool)> = (0..len)
			.map(|k| {
				let o = d.next(ops as usize);
				(sets[o % sets.len()], plans[o / sets.len()].to_vec(), fresh && k > 0)
			})
			.collect();
		// and the first once more
		let again = (v[0].0, v[0].1.clone(), false);
		v.push(again);
		if ty == 0 {
			s07_sequence::<f64>(which, &v, ctx)
		} else {
			s07_sequence::<i32>(which, &v, ctx)
		}
	}));
	f.push(family("many calls", 3 * plans.len() as u64 * sets.len() as u64, move |i, ctx| {
		let mut d = Digits(i);
		let (which, p, s) = (d.next(3), d.next(plans.len()), d.next(sets.len()));
		let v: Vec<(Set, Plan, bool)> = (0..if ctx.thorough { 300 } else { 70 }).map(|k| (sets[s], plans[if k % 5 == 4 { 0 } else { p }].to_vec(), k % 11 == 10)).collect();
		s07_sequence::<f64>(which, &v, ctx)
	}));
	// in the middle of a call
	let outer: &'static [&'static [u8]] = &[&[1, 1, 2, 1], &[3, 5, 1, 0], &[1, 255, 1], &[2, 254]];
	let inner: &'static [&'static [u8]] = &[&[1, 3, 2], &[0, 4], &[255], &[1, 254, 1]];
	let mids: &'static [Mid] = &[Mid::Same, Mid::Other, Mid::Model, Mid::Panic, Mid::Work(0), Mid::Work(2), Mid::Work(3), Mid::Work(9), Mid::Work(11)];
	let calls = if thorough { 4 } else { 3 };
	f.push(family("within a call of another search, or after one that panicked", 3 * 4 * 2 * calls * 9 * 4 * 2 * if thorough { 3 } else { 1 }, move |i, ctx| {
		let mut d = Digits(i);
		let (which, o, solving, k) = (d.next(3), d.next(4), d.next(2) == 1, d.next(calls as usize));
		let (mid, n, ty) = (mids[d.next(9)], d.next(4), d.next(2));
		let s = if ctx.thorough { [0, 1, 3][d.next(3)] } else { [0, 1][(which + o) % 2] };
		if matches!(mid, Mid::Panic | Mid::Work(_)) && n > 0 {
			return Ok(());
		}
		// on one solver, answers are told apart only when one sample is drawn
		let s = if mid == Mid::Same { sets[0] } else { sets[s] };
		let (op, iop) = ((s, outer[o].to_vec(), false), (sets[n], inner[n].to_vec(), false));
		let w = [which, (which + 1) % 3];
		if ty == 0 {
			s07_within::<f64>(w, &op, (solving, k), mid, &iop, ctx)
		} else {
			s07_within::<i32>(w, &op, (solving, k), mid, &iop, ctx)
		}
	}));
	f.push(family("many searches, each begun within the one before", 7 * 5 * 2 * 6, move |i, ctx| {
		let mut d = Digits(i);
		let (n, p, shared, a) = (d.next(7) + 2, d.next(5) + 1, d.next(2) == 1, d.next(6));
		let op = (sets[(a + n) % sets.len()], plans[a].to_vec(), false);
		if p % 2 == 0 {
			s07_chain::<f64>(n, p, shared, &op, ctx)
		} else {
			s07_chain::<i32>(n, p, shared, &op, ctx)
		}
	}).chunk(2));
	// compiling, giving values, searching
	let k = WORK.len();
	let both = if thorough { 40_000 } else { 400 };
	f.push(family("work interrupted at each operation on a label", (k * k) as u64, move |i, ctx| s07_pair(i as usize % k, i as usize / k, both, ctx)).chunk(1).limit(300));
	f.push(family("work after work", (k * k * k) as u64, move |i, ctx| {
		let mut d = Digits(i);
		s07_after(&[d.next(k), d.next(k), d.next(k)], 1, ctx)
	}));
	f.push(family("the same work again and again", k as u64 * 2, move |i, ctx| {
		s07_after(&[i as usize % k], if i as usize / k == 0 { 70 } else { 300 }, ctx)
	}).chunk(1));
	// annealers
	f.push(family("annealers at the same time, every interleaving of draws", 7 * 2 * 2 * 16, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, two, gaps, code) = (d.next(7), d.next(2) == 1, d.next(2) == 1, d.0);
		let (n, sweeps) = [(1, 3), (2, 1), (2, 2), (3, 1)][code as usize % 4];
		with_type!(ty, R, s07_annealers::<R>(code, n, two, gaps, i, sweeps, ctx))
	}).chunk(1));
	let autos = if thorough { 96 } else { 32 };
	f.push(family("annealers after one another, generated schedules", 7 * autos * autos, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(7);
		let ops: Vec<(u64, usize, usize)> = (0..2)
			.map(|_| {
				let o = d.next(autos as usize);
				((o / 8) as u64, o / 4 % 2 + 1, o % 4)
			})
			.collect();
		with_type!(ty, R, s07_autos::<R>(ty, &ops, ctx))
	}));
	f.push(family("many annealers, each begun within the one before", 7 * 15 * 4 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, n, kind, p) = (d.next(7), d.next(15) + 2, d.next(4), d.next(4) + 1);
		with_type!(ty, R, s07_crowd::<R>(ty, n, p, (n % 5) as u64, kind, ctx))
	}).chunk(4));
	Property {
		id: "S07",
		rule: "A state is one scheduling point reached by an agent (creation or call of a solver, operation on a label, random draw), or one call of a sequence; a transition is a change of the running agent; an execution is one complete schedule or sequence. What every agent sees and returns is compared with the same call alone (for compiled models: with the evaluated expression). Non-trivial: every case.",
		bounds: "all interleavings of two searches of two rounds or two samples and of three searches of one round, on one solver, one model or several, over 2 to 3 (4 to 5) answers per call including both failures; one (two) preemptions at every label operation of each pair of 12 kinds of work; sequences of 3 (4) calls out of 24 and of 70 (300) equal ones, each compared with a process that makes only that call; a second search, a compilation or a panic in each of the first 3 (4) creations and solutions of a search; 2 to 8 searches and 2 to 16 annealers begun one within another; all ordered pairs of 32 (96) annealers of 7 types with generated schedules; all interleavings of the draws of two annealers of up to 3 variables",
		assumptions: vec!["one agent runs at a time, so unsynchronised accesses to memory are left to M01; schedules that cannot be forced because a call waits for another are given up after 0.4 s, counted, and their results still compared".to_string()],
		families: f,
	}
}

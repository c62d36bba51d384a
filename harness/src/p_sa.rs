//! K01 - K03, E01: the simulated annealer, with its randomness scripted.
use crate::num::*;
use crate::run::*;
use crate::tree::*;
use crate::with_type;
use annealers::model::{FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solver::{ClassicalSolver, SolverGenerator};
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::RngCore;
use std::collections::BTreeSet;

pub type DenseM<R> = FixedSingleQuadricModel<Binary<R>>;
pub type SparseM<R> = SingleModel<Binary<R>, Quadric>;

/// the reference: variables 0..n (named by `ids` in the model) and their weights
#[derive(Clone, Debug)]
pub struct Net {
	pub ids: Vec<usize>,
	pub h: Vec<f64>,
	pub j: Vec<Vec<f64>>,
}

impl Net {
	pub fn new(ids: Vec<usize>) -> Self {
		let n = ids.len();
		Net { ids, h: vec![0.0; n], j: vec![vec![0.0; n]; n] }
	}
	pub fn n(&self) -> usize {
		self.ids.len()
	}
	pub fn delta(&self, s: &[bool], i: usize) -> f64 {
		let mut d = self.h[i];
		for k in 0..self.n() {
			if s[k] {
				d += self.j[i][k];
			}
		}
		if s[i] {
			-d
		} else {
			d
		}
	}
	pub fn energy(&self, s: &[bool]) -> f64 {
		let mut e = 0.0;
		for i in 0..self.n() {
			if s[i] {
				e += self.h[i];
				for k in 0..i {
					if s[k] {
						e += self.j[i][k];
					}
				}
			}
		}
		e
	}
	/// number of positions a state of the model has
	pub fn len(&self) -> usize {
		self.ids.iter().max().map_or(0, |m| m + 1)
	}
	pub fn add(&mut self, a: usize, b: usize, w: f64) {
		if a == b {
			self.h[a] += w;
		} else {
			self.j[a][b] += w;
			self.j[b][a] += w;
		}
	}
}

/// A model together with its reference.
pub struct Inst<R: Num, P> {
	pub net: Net,
	pub p: P,
	pub ph: std::marker::PhantomData<R>,
}

/// `w`: weights by position in `ids`, in order of addition
pub fn dense<R: Num>(n: usize, w: &[(usize, usize, R)]) -> Inst<R, DenseM<R>> {
	let mut p = FixedSingleQuadricModel::new(Binary::new(), n);
	let mut net = Net::new((0..n).collect());
	for (a, b, x) in w {
		p.add_weight(*a, *b, *x);
		net.add(*a, *b, x.f());
	}
	Inst { net, p, ph: Default::default() }
}

pub fn sparse<R: Num>(ids: &[usize], w: &[(usize, usize, R)]) -> Inst<R, SparseM<R>> {
	let mut p = SingleModel::new(Binary::new(), Quadric);
	let used: BTreeSet<usize> = w.iter().flat_map(|(a, b, _)| [*a, *b]).collect();
	let used: Vec<usize> = used.into_iter().collect();
	let mut net = Net::new(used.iter().map(|k| ids[*k]).collect());
	for (a, b, x) in w {
		let (i, j) = (ids[*a].min(ids[*b]), ids[*a].max(ids[*b]));
		p.add_weight([i, j], *x);
		let at = |k: usize| used.iter().position(|u| *u == k).unwrap();
		net.add(at(*a), at(*b), x.f());
	}
	Inst { net, p, ph: Default::default() }
}

/// Where the draws after the start come from.
pub trait Draws {
	fn draw(&mut self) -> u64;
}
impl<F: FnMut() -> u64> Draws for F {
	fn draw(&mut self) -> u64 {
		self()
	}
}

/// The generator given to the annealer: the first `init` requests are answered so
/// that the start comes out as wanted, the others by `d`.
pub struct Rig<'a, D: ?Sized> {
	init: usize,
	want: &'a [bool],
	asked: usize,
	d: &'a mut D,
}
impl<'a, D: Draws + ?Sized> Rig<'a, D> {
	fn word(&mut self) -> u64 {
		self.asked += 1;
		if self.asked <= self.init {
			if self.want.get(self.asked - 1) == Some(&true) {
				u64::MAX
			} else {
				0
			}
		} else {
			self.d.draw()
		}
	}
}
impl<'a, D: Draws + ?Sized> RngCore for Rig<'a, D> {
	fn next_u32(&mut self) -> u32 {
		(self.word() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.word()
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		if self.asked < self.init {
			self.asked += 1;
			for (k, b) in dest.iter_mut().enumerate() {
				*b = 0;
				for i in 0..8 {
					if self.want.get(k * 8 + i) == Some(&true) {
						*b |= 1 << i;
					}
				}
			}
		} else {
			for b in dest.iter_mut() {
				*b = (self.word() >> 56) as u8;
			}
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

/// An annealer of one model with one setting.
pub trait Annealer: Send + Sync {
	/// final state of the whole length, and number of requests
	fn run(&self, init: usize, want: &[bool], d: &mut dyn Draws) -> Result<(Vec<bool>, usize), String>;
}
struct Ann<S>(S);
impl<R: Num, S: ClassicalSolver<SolutionType = annealers::solution::SingleSolution<Binary<R>>> + Send + Sync> Annealer for Ann<S> {
	fn run(&self, init: usize, want: &[bool], d: &mut dyn Draws) -> Result<(Vec<bool>, usize), String> {
		let mut rig = Rig { init, want, asked: 0, d };
		let v = self.0.solve_with_rng(&mut rig).map_err(|e| e.to_string())?;
		if v.len() != 1 {
			return Err(format!("{} solutions", v.len()));
		}
		Ok((v[0].state.to_vec(), rig.asked))
	}
}

/// The sweeps without the annealer around them.
struct Direct<'a, R, P, B> {
	p: &'a P,
	beta: Vec<B>,
	sweeps: usize,
	ph: std::marker::PhantomData<R>,
}
impl<'a, R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync, B: Num> Annealer for Direct<'a, R, P, B> {
	fn run(&self, init: usize, want: &[bool], d: &mut dyn Draws) -> Result<(Vec<bool>, usize), String> {
		let mut state = annealers::repr::BinaryRepr::from_vec(&want.to_vec());
		let mut rig = Rig { init, want, asked: 0, d };
		classical_solver::algo::simulated_annealing(&mut rig, &mut state, &self.beta, self.sweeps, self.p);
		if state.len() != want.len() {
			return Err(format!("a state of {} values became one of {}", want.len(), state.len()));
		}
		Ok((state.to_vec(), rig.asked))
	}
}

pub fn annealer<'a, R, P>(p: &'a P, beta: BetaType<R>, sweeps: usize) -> Box<dyn Annealer + 'a>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let mut g = SimulatedAnnealerGenerator::<'a, P>::new();
	g.sweeps_per_round = sweeps;
	g.beta = beta;
	Box::new(Ann(g.generate(p).unwrap()))
}

/// The start produced for wanted values, found by running an empty schedule.
pub struct Start {
	pub want: Vec<bool>,
	/// values of the variables of the model
	pub at: Vec<bool>,
	pub init: usize,
}

pub fn pick(net: &Net, full: &[bool]) -> Result<Vec<bool>, String> {
	if full.len() < net.len() {
		return Err(format!("the answer has {} values, the largest variable is {}", full.len(), net.len() - 1));
	}
	Ok(net.ids.iter().map(|i| full[*i]).collect())
}

pub fn starts<R, P>(i: &Inst<R, P>) -> Result<Vec<Start>, String>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let n = i.net.n();
	let a = annealer::<R, P>(&i.p, BetaType::Schedule(vec![]), 1);
	let mut seen = BTreeSet::new();
	let mut v = Vec::new();
	for code in 0..1u64 << n.min(6) {
		// beyond six variables, in a repeating pattern
		let mut want = vec![code & 1 == 1; i.net.len()];
		for (k, id) in i.net.ids.iter().enumerate() {
			want[*id] = code >> (k % 6) & 1 == 1;
		}
		let (full, asked) = a.run(usize::MAX, &want, &mut || 0)?;
		let at = pick(&i.net, &full)?;
		if seen.insert(at.clone()) {
			v.push(Start { want, at, init: asked });
		}
	}
	Ok(v)
}

const TOP: u64 = u64::MAX;

fn below(p: f64, eps: f64) -> u64 {
	let x = p * (1.0 - eps) * 18446744073709551616.0;
	(x as u64) & !4095
}
fn above(p: f64, eps: f64) -> u64 {
	let x = p * (1.0 + eps) * 18446744073709551616.0;
	if x >= 18446744073709547520.0 {
		TOP
	} else {
		(x as u64 & !4095).saturating_add(4096)
	}
}

// ---------------------------------------------------------------- K01

/// the freedom an implementation has
#[derive(Clone, Debug)]
struct Conv {
	/// position in `order` -> variable of the net; usize::MAX: one that is no
	/// variable of the model
	order: Vec<usize>,
	/// a draw is made where the change is not positive
	always: bool,
	/// a draw is made where the acceptance is negligible
	tiny: bool,
}

fn orders(net: &Net, len: usize) -> Vec<Vec<usize>> {
	let n = net.n();
	let gaps: Vec<usize> = (0..len).map(|i| net.ids.iter().position(|k| *k == i).unwrap_or(usize::MAX)).collect();
	let mut v = vec![gaps.clone(), (0..n).collect(), gaps.into_iter().rev().collect(), (0..n).rev().collect()];
	if n <= 3 {
		fn go(v: &mut Vec<Vec<usize>>, cur: &mut Vec<usize>, n: usize) {
			if cur.len() == n {
				v.push(cur.clone());
			}
			for i in 0..n {
				if !cur.contains(&i) {
					cur.push(i);
					go(v, cur, n);
					cur.pop();
				}
			}
		}
		go(&mut v, &mut Vec::new(), n);
	}
	let mut out: Vec<Vec<usize>> = Vec::new();
	for o in v {
		if !out.contains(&o) {
			out.push(o);
		}
	}
	out
}

/// How a decision is made at a draw.
trait Decide {
	/// one of 0..n
	fn choose(&mut self, n: usize) -> usize;
}

/// depth-first enumeration of all decision sequences
#[derive(Default)]
struct Dfs {
	path: Vec<(usize, usize)>,
	at: usize,
}
impl Dfs {
	fn next(&mut self) -> bool {
		self.at = 0;
		while let Some((c, n)) = self.path.pop() {
			if c + 1 < n {
				self.path.push((c + 1, n));
				return true;
			}
		}
		false
	}
}
impl Decide for Dfs {
	fn choose(&mut self, n: usize) -> usize {
		if self.at == self.path.len() {
			self.path.push((0, n));
		}
		let c = self.path[self.at].0;
		self.at += 1;
		c
	}
}
/// a repeating pattern of decisions
struct Periodic {
	bits: u64,
	len: usize,
	at: usize,
}
impl Decide for Periodic {
	fn choose(&mut self, n: usize) -> usize {
		let b = (self.bits >> (self.at % self.len)) as usize & 1;
		self.at += 1;
		b.min(n - 1)
	}
}

/// The reference run, driven by the draws of the implementation.
struct Ref<'a> {
	net: &'a Net,
	beta: &'a [f64],
	sweeps: usize,
	conv: &'a Conv,
	eps: f64,
	/// offer the extreme draws too
	wide: bool,
	s: Vec<bool>,
	d: Vec<f64>,
	k: usize,
	sweep: usize,
	i: usize,
	dec: &'a mut dyn Decide,
	overrun: bool,
	ambiguous: bool,
	draws: u64,
	moves: u64,
}

impl<'a> Ref<'a> {
	fn new(net: &'a Net, beta: &'a [f64], sweeps: usize, conv: &'a Conv, eps: f64, wide: bool, s: &[bool], dec: &'a mut dyn Decide) -> Self {
		let d = (0..net.n()).map(|i| net.delta(s, i)).collect();
		Ref {
			net,
			beta: if sweeps == 0 { &[] } else { beta },
			sweeps,
			conv,
			eps,
			wide,
			s: s.to_vec(),
			d,
			k: 0,
			sweep: 0,
			i: 0,
			dec,
			overrun: false,
			ambiguous: false,
			draws: 0,
			moves: 0,
		}
	}
	fn flip(&mut self, i: usize) {
		// recomputed from the weights, not updated
		self.s[i] = !self.s[i];
		for k in 0..self.net.n() {
			self.d[k] = self.net.delta(&self.s, k);
		}
		self.moves += 1;
	}
	fn step(&mut self) {
		self.i += 1;
		while self.i >= self.conv.order.len() {
			self.i = 0;
			self.sweep += 1;
			if self.sweep == self.sweeps {
				self.sweep = 0;
				self.k += 1;
			}
			if !self.conv.order.is_empty() || self.k >= self.beta.len() {
				break;
			}
		}
	}
	/// up to the next draw: the variable, and its probability (above 1: any draw
	/// flips)
	fn next(&mut self) -> Option<(usize, f64)> {
		while self.k < self.beta.len() && !self.conv.order.is_empty() {
			let i = self.conv.order[self.i];
			if i == usize::MAX {
				// not part of the model: a change of zero
				if self.conv.always {
					return Some((i, 2.0));
				}
				self.step();
				continue;
			}
			let d = self.d[i];
			let x = d * self.beta[self.k];
			if d <= 0.0 {
				if self.conv.always {
					return Some((i, 2.0));
				}
				self.flip(i);
				self.step();
			} else if x < 41.4 {
				return Some((i, f64::exp(-x)));
			} else if x < 60.0 {
				self.ambiguous = true;
				return None;
			} else {
				if self.conv.tiny {
					return Some((i, 0.0));
				}
				self.step();
			}
		}
		None
	}
}

impl<'a> Draws for Ref<'a> {
	fn draw(&mut self) -> u64 {
		match self.next() {
			None => {
				self.overrun = true;
				TOP
			}
			Some((i, p)) => {
				self.draws += 1;
				let u = if p > 1.0 {
					let c = self.dec.choose(2);
					if i != usize::MAX {
						self.flip(i);
					}
					[TOP, 0][c]
				} else if p == 0.0 {
					TOP
				} else if above(p, self.eps) == TOP {
					// so likely that no draw can be told to refuse it
					let c = self.dec.choose(if self.wide { 2 } else { 1 });
					self.flip(i);
					[below(p, self.eps), 0][c]
				} else {
					let opts = [above(p, self.eps), below(p, self.eps), TOP, 0];
					let c = self.dec.choose(if self.wide { 4 } else { 2 });
					if c & 1 == 1 {
						self.flip(i);
					}
					opts[c]
				};
				self.step();
				u
			}
		}
	}
}

struct Tree<'a, R: Num, P> {
	inst: &'a Inst<R, P>,
	beta: &'a [R],
	sweeps: usize,
	wide: bool,
	/// decision patterns of this period instead of all sequences
	period: usize,
}

impl<'a, R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync> Tree<'a, R, P> {
	fn conv(&self, a: &dyn Annealer, beta: &[f64], st: &Start, conv: &Conv, ctx: &mut Ctx) -> Result<(), String> {
		let eps = if R::NAME == "f32" { 1e-4 } else { 1e-6 };
		let mut one = |dec: &mut dyn Decide| -> Result<(), String> {
			let mut r = Ref::new(&self.inst.net, beta, self.sweeps, conv, eps, self.wide, &st.at, dec);
			let (full, _) = a.run(st.init, &st.want, &mut r)?;
			let got = pick(&self.inst.net, &full)?;
			// what is left without draws
			let left = r.next();
			if r.ambiguous {
				ctx.note("ambiguous magnitude, not judged");
				return Ok(());
			}
			ctx.traces += 1;
			ctx.states += r.moves + 1;
			ctx.transitions += r.draws;
			let what = || {
				format!(
					"weights {:?} {:?} of {:?}, start {:?}, betas {:?}, {} sweeps each ({})",
					self.inst.net.h, self.inst.net.j, self.inst.net.ids, st.at, beta, self.sweeps, R::NAME
				)
			};
			if r.overrun {
				return Err(format!("{}: more draws than variables to consider (state {:?})", what(), got));
			}
			if left.is_some() {
				return Err(format!("{}: stops after {} draws, at {:?}", what(), r.draws, got));
			}
			if got != r.s {
				return Err(format!("{}: ends in {:?}, the rule gives {:?} after {} draws", what(), got, r.s, r.draws));
			}
			ctx.outcome_of(&(got, r.draws));
			Ok(())
		};
		if self.period == 0 {
			let mut dfs = Dfs::default();
			loop {
				one(&mut dfs)?;
				if !dfs.next() {
					return Ok(());
				}
			}
		}
		for bits in 0..1u64 << self.period {
			one(&mut Periodic { bits, len: self.period, at: 0 })?;
		}
		Ok(())
	}

	fn check(&self, ctx: &mut Ctx) -> Result<(), String> {
		let a = annealer::<R, P>(&self.inst.p, BetaType::Schedule(self.beta.to_vec()), self.sweeps);
		let sts = starts(self.inst)?;
		if sts.len() as u64 != 1 << self.inst.net.n().min(6) {
			ctx.note("not every start was produced");
		}
		let beta: Vec<f64> = self.beta.iter().map(|b| b.f()).collect();
		self.judge(&*a, &beta, &sts, &orders(&self.inst.net, self.inst.net.len()), ctx)
	}

	/// The sweeps themselves, begun in every state; the state may have more
	/// positions than the model has variables, and the inverse temperatures
	/// another type than the weights.
	fn direct<B: Num>(&self, beta: &[B], pad: usize, ctx: &mut Ctx) -> Result<(), String> {
		let a = Direct { p: &self.inst.p, beta: beta.to_vec(), sweeps: self.sweeps, ph: std::marker::PhantomData::<R> };
		let net = &self.inst.net;
		let len = net.len() + pad;
		let sts: Vec<Start> = (0..1u64 << net.n().min(6))
			.map(|code| {
				let mut want: Vec<bool> = (0..len).map(|k| (code as usize + k) % 3 == 1).collect();
				for (k, id) in net.ids.iter().enumerate() {
					want[*id] = code >> (k % 6) & 1 == 1;
				}
				Start { at: net.ids.iter().map(|i| want[*i]).collect(), want, init: 0 }
			})
			.collect();
		let beta: Vec<f64> = beta.iter().map(|b| b.f()).collect();
		self.judge(&a, &beta, &sts, &orders(net, len), ctx)
	}

	fn judge(&self, a: &dyn Annealer, beta: &[f64], sts: &[Start], ord: &[Vec<usize>], ctx: &mut Ctx) -> Result<(), String> {
		for st in sts {
			let first = Conv { order: ord[0].clone(), always: false, tiny: false };
			let mut res = self.conv(a, beta, st, &first, ctx);
			if res.is_err() {
				// any other way to follow the same rule?
				'all: for o in ord {
					for m in 1..4 {
						let c = Conv { order: o.clone(), always: m & 1 == 1, tiny: m & 2 == 2 };
						if self.conv(a, beta, st, &c, ctx).is_ok() {
							ctx.note("other order or number of draws");
							res = Ok(());
							break 'all;
						}
					}
					let c = Conv { order: o.clone(), always: false, tiny: false };
					if self.conv(a, beta, st, &c, ctx).is_ok() {
						ctx.note("other order or number of draws");
						res = Ok(());
						break 'all;
					}
				}
			}
			res?;
			ctx.nontrivial += 1;
		}
		ctx.sample(|| format!("{:?}, betas {:?}, {} sweeps, {} starts, {}", self.inst.net, beta, self.sweeps, sts.len(), if self.period == 0 { "all decisions".to_string() } else { format!("decisions of period {}", self.period) }));
		Ok(())
	}
}

/// the products of n variables, single ones first
fn prods(n: usize) -> Vec<(usize, usize)> {
	let mut v: Vec<(usize, usize)> = (0..n).map(|i| (i, i)).collect();
	for j in 0..n {
		for i in 0..j {
			v.push((i, j));
		}
	}
	v
}

fn weights<R: Num>(n: usize, code: u64, alpha: &[i32], mul: R) -> Vec<(usize, usize, R)> {
	let mut d = Digits(code);
	prods(n).into_iter().map(|(i, j)| (i, j, R::int(*d.pick(alpha)) * mul)).collect()
}

fn count(n: usize, alpha: usize) -> u64 {
	(alpha as u64).pow((n * (n + 1) / 2) as u32)
}

/// model number `code`, without the products whose weight is `None`
fn partial<R: Num>(n: usize, code: u64, alpha: &[Option<i32>]) -> Vec<(usize, usize, R)> {
	let mut d = Digits(code);
	let mut v = Vec::new();
	for (i, j) in prods(n) {
		if let Some(w) = d.pick(alpha) {
			v.push((i, j, R::int(*w)));
		}
	}
	v
}

fn betas<R: Num>(k: usize) -> Vec<R> {
	if R::FLOAT {
		let t: [&[f64]; 6] = [&[0.5, 0.75], &[0.25], &[1.0, 0.125, 2.0], &[1.25, 1.25], &[0.0625], &[0.5]];
		t[k % 6].iter().map(|b| R::from_float(*b)).collect()
	} else {
		let t: [&[i32]; 6] = [&[1, 2], &[1], &[2, 1, 3], &[1, 1], &[3], &[2]];
		t[k % 6].iter().map(|b| R::int(*b)).collect()
	}
}

pub fn k01(thorough: bool) -> Property {
	let mut f = Vec::new();
	// dense, all weights
	for n in 0..=3usize {
		let alpha: &'static [i32] = if n < 3 { &[-3, -2, -1, 0, 1, 2, 3] } else if thorough { &[-2, -1, 0, 1, 3] } else { &[-2, 0, 1, 3] };
		let c = count(n, alpha.len());
		for (bk, sw) in [(0, 1), (1, 2), (2, 1), (5, 3)] {
			if n == 3 && sw * betas::<f64>(bk).len() > 2 && !thorough {
				continue;
			}
			f.push(family(&format!("dense, {} variables, schedule {} x {} sweeps, i32", n, bk, sw), c, move |i, ctx| {
				let m = dense::<i32>(n, &weights(n, i, alpha, 1));
				Tree { inst: &m, beta: &betas::<i32>(bk), sweeps: sw, wide: false, period: 0 }.check(ctx)
			}));
			f.push(family(&format!("dense, {} variables, schedule {} x {} sweeps, f64", n, bk, sw), c, move |i, ctx| {
				let m = dense::<f64>(n, &weights(n, i, alpha, 0.5));
				Tree { inst: &m, beta: &betas::<f64>(bk), sweeps: sw, wide: false, period: 0 }.check(ctx)
			}));
		}
	}
	// four variables
	let alpha4: &'static [i32] = if thorough { &[-1, 0, 2] } else { &[-1, 2] };
	f.push(family("dense, 4 variables, two sweeps", count(4, alpha4.len()), move |i, ctx| {
		let m = dense::<i32>(4, &weights(4, i, alpha4, 1));
		Tree { inst: &m, beta: &[1], sweeps: 2, wide: false, period: 0 }.check(ctx)
	}));
	// every type, with extreme draws
	f.push(family("two variables, every type, extreme draws", 7 * count(2, 5) * 6, move |i, ctx| {
		let (ty, r) = ((i % 7) as usize, i / 7);
		fn go<R: Num>(r: u64, ctx: &mut Ctx) -> Result<(), String> {
			let m = dense::<R>(2, &weights(2, r / 6, &[-3, -1, 0, 1, 2], R::int(1)));
			let b = betas::<R>((r % 6) as usize);
			Tree { inst: &m, beta: &b, sweeps: 1, wide: true, period: 0 }.check(ctx)
		}
		with_type!(ty, R, go::<R>(r, ctx))
	}));
	// sparse with gaps: every subset of the products
	let ids: [[usize; 3]; 5] = [[0, 1, 2], [0, 2, 5], [9, 3, 4], [1, 8, 7], [16, 0, 64]];
	f.push(family("sparse with gaps, all weights", 5 * 4u64.pow(6), move |i, ctx| {
		let w = partial::<i32>(3, i / 5, &[None, Some(-2), Some(1), Some(3)]);
		let m = sparse(&ids[(i % 5) as usize], &w);
		Tree { inst: &m, beta: &[1, 2], sweeps: 1, wide: false, period: 0 }.check(ctx)
	}));
	f.push(family("sparse with gaps, every type", 7 * 3u64.pow(6), move |i, ctx| {
		fn go<R: Num>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
			let mut w = partial::<R>(3, i, &[None, Some(-1), Some(2)]);
			w.reverse();
			let m = sparse(&[3, 0, 6], &w);
			Tree { inst: &m, beta: &betas::<R>(3), sweeps: 1, wide: false, period: 0 }.check(ctx)
		}
		with_type!((i % 7) as usize, R, go::<R>(i / 7, ctx))
	}));
	// large and small changes side by side
	f.push(family("negligible and barely possible moves", count(2, 7) * 2, move |i, ctx| {
		// 20 and 40 are drawn, 60 and above may be refused
		let m = dense::<f64>(2, &weights(2, i / 2, &[-4, -2, -1, 0, 1, 2, 4], 1.0));
		let b: &[f64] = if i % 2 == 0 { &[20.0, 0.5] } else { &[0.5, 20.0, 40.0] };
		Tree { inst: &m, beta: b, sweeps: 1, wide: true, period: 0 }.check(ctx)
	}));
	// so cold that every move with a cost is refused, alone or after a hot sweep
	for n in 2..=5usize {
		let alpha: &'static [i32] = match n {
			2 | 3 => &[-3, -2, -1, 0, 1, 2],
			4 => if thorough { &[-2, -1, 0, 1] } else { &[-1, 0, 1] },
			_ => &[-1, 1],
		};
		f.push(family(&format!("cold sweeps of {} variables", n), count(n, alpha.len()) * if n < 4 { 2 } else { 1 }, move |i, ctx| {
			let hot = n < 4 && i % 2 == 1;
			let i = if n < 4 { i / 2 } else { i };
			if hot && n == 3 && !ctx.thorough && i % 3 > 0 {
				return Ok(());
			}
			let m = dense::<f64>(n, &weights(n, i, alpha, 1.0));
			let b: &[f64] = if hot { &[1.0, 128.0] } else { &[128.0] };
			Tree { inst: &m, beta: b, sweeps: if hot { 1 } else { 2 }, wide: false, period: 0 }.check(ctx)
		}));
	}
	// schedules over many orders of magnitude
	let far = 9 * count(3, 3) + 9 * count(2, 5);
	f.push(family("schedules over many orders of magnitude", far, move |i, ctx| {
		let (n, i) = if i < 9 * count(3, 3) { (3, i) } else { (2, i - 9 * count(3, 3)) };
		let alpha: &[i32] = if n == 3 { &[-2, 1, 2] } else { &[-3, -1, 0, 1, 2] };
		let k = (i % 9) as usize;
		let (lo, lo2) = (2f64.powi(-[8, 16, 24, 32, 40, 64, 128, 512, 1000][k]), 2f64.powi(-[4, 9, 20, 30, 33, 60, 100, 300, 900][k]));
		let m = dense::<f64>(n, &weights(n, i / 9, alpha, 1.0));
		Tree { inst: &m, beta: &[lo, 0.5], sweeps: 1, wide: false, period: 0 }.check(ctx)?;
		if n == 2 {
			Tree { inst: &m, beta: &[1.0, lo2, lo, 0.75], sweeps: 1, wide: false, period: 0 }.check(ctx)?;
		}
		Ok(())
	}));
	// infinitely hot: everything is accepted
	f.push(family("entries that are zero", 7 * 4 * count(2, 5), move |i, ctx| {
		fn go<R: Num>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
			let b: &[i32] = [&[0][..], &[0, 1], &[1, 0], &[0, 0, 2]][(i % 4) as usize];
			let b: Vec<R> = b.iter().map(|b| R::int(*b)).collect();
			let w = weights(2, i / 4, &[-3, -1, 0, 1, 2], R::int(1));
			Tree { inst: &dense::<R>(2, &w), beta: &b, sweeps: 1 + (i % 3) as usize / 2, wide: true, period: 0 }.check(ctx)
		}
		with_type!((i % 7) as usize, R, go::<R>(i / 7, ctx))
	}));
	// the public sweeps themselves
	f.push(family("sweeps called directly, longer states, other types of temperature", 7 * 7 * 4 * 3u64.pow(6), move |i, ctx| {
		fn go<R: Num, B: Num>(pad: usize, gap: bool, w: u64, ctx: &mut Ctx) -> Result<(), String> {
			let b: Vec<B> = if B::FLOAT { [0.75, 0.25].iter().map(|b| B::from_float(*b)).collect() } else { vec![B::int(1)] };
			let w = partial::<R>(3, w, &[Some(-2), None, Some(1)]);
			let sweeps = if B::FLOAT { 1 } else { 2 };
			if gap {
				let m = sparse::<R>(&[2, 0, 5], &w);
				Tree { inst: &m, beta: &[], sweeps, wide: false, period: 0 }.direct(&b, pad, ctx)
			} else {
				let m = dense::<R>(3, &w);
				Tree { inst: &m, beta: &[], sweeps, wide: false, period: 0 }.direct(&b, pad, ctx)
			}
		}
		let mut d = Digits(i);
		let (tr, tb) = (d.next(7), d.next(7));
		// a dense model has no products for positions beyond its variables
		let (gap, pad) = [(false, 0), (true, 0), (true, 1), (true, 9)][d.next(4)];
		let w = d.0;
		if !ctx.thorough && (w + tr as u64 + tb as u64) % 4 > 0 {
			return Ok(());
		}
		with_type!(tr, R, with_type!(tb, B, go::<R, B>(pad, gap, w, ctx)))
	}));
	// other magnitudes
	f.push(family("weights of every magnitude", 12 * count(2, 4), move |i, ctx| {
		let k = (i % 12) as i32;
		let scale = 2f64.powi((k - 6) * 40);
		let m = dense::<f64>(2, &weights(2, i / 12, &[-3, -1, 1, 2], scale));
		Tree { inst: &m, beta: &[0.5 / scale, 1.0 / scale], sweeps: 1, wide: false, period: 0 }.check(ctx)
	}));
	// long runs
	let period = if thorough { 10 } else { 7 };
	f.push(family("long runs", 64 * 3, move |i, ctx| {
		let (c, k) = (i / 3, (i % 3) as usize);
		let n = [5, 6, 4][k];
		let w: Vec<(usize, usize, f64)> = prods(n).into_iter().enumerate().map(|(t, (a, b))| (a, b, ((c * 7 + t as u64 * (5 + c % 3) + (c >> 3) * t as u64 * t as u64) % 9) as f64 * 0.25 - 1.0)).collect();
		let m = dense::<f64>(n, &w);
		let b: Vec<f64> = (0..[6, 20, 40][k]).map(|t| 0.25 + t as f64 * 0.125).collect();
		Tree { inst: &m, beta: &b, sweeps: [9, 3, 1][k], wide: false, period }.check(ctx)
	}).chunk(1));
	// many variables
	let sizes: &'static [usize] = &[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 130];
	f.push(family("many variables", sizes.len() as u64 * 4, move |i, ctx| {
		let n = sizes[(i / 4) as usize];
		let mut w: Vec<(usize, usize, i64)> = (0..n).map(|a| (a, a, (a * 5 % 7) as i64 - 3)).collect();
		match i % 4 {
			0 | 2 => w.extend((1..n).map(|a| (a - 1, a, (a * 3 % 5) as i64 - 2))),
			1 => w.extend((1..n).map(|a| (0, a, (a * 3 % 5) as i64 - 2))),
			_ => w.extend((1..n).map(|a| (a % (n / 2), a, (a * 3 % 5) as i64 - 2)).filter(|(a, b, _)| a != b)),
		}
		let p = if thorough { 5 } else { 3 };
		if i % 4 < 2 {
			Tree { inst: &dense::<i64>(n, &w), beta: &[1, 1, 2], sweeps: 2, wide: false, period: p }.check(ctx)
		} else {
			let ids: Vec<usize> = (0..n).map(|a| a * 2 + a % 3 / 2).collect();
			Tree { inst: &sparse::<i64>(&ids, &w), beta: &[1, 1, 2], sweeps: 2, wide: false, period: p }.check(ctx)
		}
	}).chunk(1));
	Property {
		id: "K01",
		rule: "A state is one assignment of the annealer; a transition is one random draw, answered just below or just above (or far from) the acceptance probability of the true energy change; an execution is one run of the annealer for one model, start and sequence of decisions, compared with a reference that recomputes every change from the weights. Non-trivial: every model and start.",
		bounds: "all decision sequences, from all starts, of all models of up to 3 (4) variables over small weight alphabets, dense and sparse with gaps, up to three sweeps, seven types, also with entries that are zero; the public sweeps called directly for every pair of types, on states with up to nine further positions; all periodic decision patterns (period up to 10) of longer runs and of up to 130 variables",
		assumptions: vec!["the generator is asked for one uniform number per considered variable; changes with beta * change between 41.4 and 60 are not judged".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- K02

/// Draws all TOP except number `at`; the later ones are `rest`.
struct Probe {
	at: usize,
	u: u64,
	rest: u64,
	k: usize,
}
impl Draws for Probe {
	fn draw(&mut self) -> u64 {
		self.k += 1;
		match (self.k - 1).cmp(&self.at) {
			std::cmp::Ordering::Less => TOP,
			std::cmp::Ordering::Equal => self.u,
			_ => self.rest,
		}
	}
}

/// The acceptance probabilities of a run in which everything is refused.
struct Meter<'a> {
	a: &'a dyn Annealer,
	st: &'a Start,
	rounds: usize,
	base: Vec<(Vec<bool>, usize)>,
	at: usize,
}

impl<'a> Meter<'a> {
	/// the number of draws when everything is refused
	fn len(&self) -> Result<usize, String> {
		let (_, asked) = self.a.run(self.st.init, &self.st.want, &mut || TOP)?;
		Ok(asked - self.st.init)
	}
	fn probe(&self, at: usize, u: u64, rest: u64) -> Result<(Vec<bool>, usize), String> {
		self.a.run(self.st.init, &self.st.want, &mut Probe { at, u, rest, k: 0 })
	}
	/// is the draw number `at` accepted with `u`?
	fn accepted(&mut self, at: usize, u: u64) -> Result<bool, String> {
		if self.at != at || self.base.is_empty() {
			self.base = vec![self.probe(at, TOP, TOP)?, self.probe(at, TOP, 0)?];
			self.at = at;
		}
		Ok(self.probe(at, u, TOP)? != self.base[0] || self.probe(at, u, 0)? != self.base[1])
	}
	/// the probability of acceptance, by bisection
	fn p(&mut self, at: usize) -> Result<f64, String> {
		self.rounds += 1;
		if !self.accepted(at, 0)? {
			return Ok(0.0);
		}
		let (mut lo, mut hi) = (0u64, TOP);
		while hi - lo > 4096 && (hi - lo) as f64 > lo as f64 * 1e-10 {
			let mid = lo + (hi - lo) / 2;
			if self.accepted(at, mid)? {
				lo = mid;
			} else {
				hi = mid;
			}
		}
		Ok((lo as f64 + hi as f64) / 2.0 / 18446744073709551616.0)
	}
}

/// two variables whose flips cost `a` each and together gain `a`
fn bistable<R: Num>(a: R, gap: bool) -> (Option<Inst<R, DenseM<R>>>, Option<Inst<R, SparseM<R>>>) {
	let w = vec![(0, 0, a), (1, 1, a), (0, 1, R::int(-3) * a)];
	if gap {
		(None, Some(sparse(&[4, 1], &w)))
	} else {
		(Some(dense(2, &w)), None)
	}
}

fn low_start(s: Vec<Start>) -> Result<Start, String> {
	s.into_iter().find(|s| s.at.iter().all(|b| !b)).ok_or("the all-false start was not produced".to_string())
}

/// expected inverse temperatures, one per round
fn k02_known<R, P>(i: &Inst<R, P>, cost: f64, b: BetaType<R>, want: &[f64], sweeps: usize, ctx: &mut Ctx) -> Result<(), String>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let what = format!("{:?} with {} sweeps ({})", b, sweeps, R::NAME);
	let a = annealer::<R, P>(&i.p, b, sweeps);
	let st = low_start(starts(i)?)?;
	let mut m = Meter { a: &*a, st: &st, rounds: 0, base: Vec::new(), at: 0 };
	let n = m.len()?;
	if n != 2 * want.len() * sweeps {
		return Err(format!("{}: {} draws instead of {}", what, n, 2 * want.len() * sweeps));
	}
	let eps = if R::NAME == "f32" { 1e-5 } else { 1e-8 };
	for d in 0..n {
		let beta = want[d / (2 * sweeps)];
		let lo = f64::exp(-beta * cost * (1.0 + eps)) * (1.0 - 1e-9);
		let hi = f64::exp(-beta * cost * (1.0 - eps)) * (1.0 + 1e-9);
		if !m.accepted(d, below(lo, 0.0))? || m.accepted(d, above(hi, 0.0))? {
			let p = m.p(d)?;
			return Err(format!(
				"{}: draw {} (round {}) accepts with probability {}, that is beta {} instead of {}",
				what, d, d / (2 * sweeps), p, -p.ln() / cost, beta
			));
		}
		ctx.transitions += 1;
	}
	ctx.states += want.len() as u64 + 1;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&format!("{:?}", want));
	ctx.sample(|| what);
	Ok(())
}

fn k02_both<R: Num>(cost: R, gap: bool, b: BetaType<R>, want: &[f64], sweeps: usize, ctx: &mut Ctx) -> Result<(), String> {
	match bistable::<R>(cost, gap) {
		(Some(d), _) => k02_known(&d, cost.f(), b, want, sweeps, ctx),
		(_, Some(s)) => k02_known(&s, cost.f(), b, want, sweeps, ctx),
		_ => unreachable!(),
	}
}

/// variables that do not depend on each other, each of which costs 1: every draw of
/// a run in which all is refused, at a given place
fn k02_large<R: Num>(n: usize, count: usize, kind: usize, sweeps: usize, gap: bool, ctx: &mut Ctx) -> Result<(), String> {
	let w: Vec<(usize, usize, R)> = (0..n).map(|a| (a, a, R::int(1))).collect();
	let (b, first, last) = match kind {
		0 => (BetaType::Schedule((0..count).map(|k| R::int(1 + (k % 3) as i32)).collect()), f64::NAN, f64::NAN),
		1 => (BetaType::CountRange(count, R::int(1), R::int(8)), 1.0, 8.0),
		_ => (BetaType::Count(count), f64::ln(2.0), f64::ln(100.0)),
	};
	let want = |k: usize| if kind == 0 { 1.0 + (k % 3) as f64 } else if count == 1 { first } else { first * (last / first).powf(k as f64 / (count as f64 - 1.0)) };
	let what = format!("{:?} with {} sweeps of {} variables ({})", b, sweeps, n, R::NAME);
	let what: String = if what.len() > 300 { format!("{} entries of kind {} with {} sweeps of {} variables ({})", count, kind, sweeps, n, R::NAME) } else { what };
	fn measure<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(i: &Inst<R, P>, b: BetaType<R>, sweeps: usize, per: usize, total: usize, single: bool, want: &dyn Fn(usize) -> f64, what: &str, ctx: &mut Ctx) -> Result<(), String> {
		let a = annealer::<R, P>(&i.p, b, sweeps);
		let st = low_start(starts(i)?)?;
		let mut m = Meter { a: &*a, st: &st, rounds: 0, base: Vec::new(), at: 0 };
		let n = m.len()?;
		if n != total {
			return Err(format!("{}: {} draws instead of {}", what, n, total));
		}
		let eps = if R::NAME == "f32" { 1e-5 } else { 1e-8 };
		let mut at: Vec<usize> = vec![0, per, per * 2, total / 3, total / 2, total.saturating_sub(per + 1), total.saturating_sub(1)];
		at.retain(|d| *d < total);
		at.sort();
		at.dedup();
		for d in at {
			if single {
				// the only entry may lie anywhere in the range
				continue;
			}
			let beta = want(d / per);
			let lo = f64::exp(-beta * (1.0 + eps)) * (1.0 - 1e-9);
			let hi = f64::exp(-beta * (1.0 - eps)) * (1.0 + 1e-9);
			// only this draw is accepted, or none
			let yes = m.probe(d, below(lo, 0.0), TOP)?;
			let no = m.probe(d, above(hi, 0.0), TOP)?;
			let ones = |x: &(Vec<bool>, usize)| pick(&i.net, &x.0).map(|v| v.iter().filter(|b| **b).count());
			// what was accepted falls back at its next turn, unless it was the last
			let last = d + per / sweeps >= total;
			if ones(&no)? != 0 || (last && ones(&yes)? != 1) || (!last && yes.1 + 1 != no.1) {
				return Err(format!("{}: draw {} of {} (round {}) is not accepted with the probability of beta {}", what, d, total, d / per, beta));
			}
			ctx.transitions += 2;
		}
		Ok(())
	}
	let per = n * sweeps;
	let single = count == 1 && kind > 0;
	if gap {
		let ids: Vec<usize> = (0..n).map(|k| 3 * k + 1).collect();
		measure(&sparse::<R>(&ids, &w), b, sweeps, per, per * count, single, &want, &what, ctx)?;
	} else {
		measure(&dense::<R>(n, &w), b, sweeps, per, per * count, single, &want, &what, ctx)?;
	}
	ctx.states += count as u64;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&(n, count, kind, sweeps));
	ctx.sample(|| what);
	Ok(())
}

/// a schedule generated for `n` variables, one of which (or one pair of which) stands
/// out: the inverse temperature shows at the others
fn k02_strong<R, P>(i: &Inst<R, P>, what: &str, ctx: &mut Ctx) -> Result<(), String>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let net = &i.net;
	let n = net.n();
	let (mut wmax, mut fmax) = (0f64, 0f64);
	for a in 0..n {
		let (mut up, mut dn) = (net.h[a], net.h[a]);
		for b in 0..n {
			wmax = wmax.max(net.j[a][b].abs());
			up += net.j[a][b].max(0.0);
			dn += net.j[a][b].min(0.0);
		}
		wmax = wmax.max(net.h[a].abs());
		fmax = fmax.max(up.abs()).max(dn.abs());
	}
	let a = annealer::<R, P>(&i.p, BetaType::Count(2), 1);
	let st = low_start(starts(i)?)?;
	let mut m = Meter { a: &*a, st: &st, rounds: 0, base: Vec::new(), at: 0 };
	let total = m.len()?;
	if total != 2 * n {
		return Err(format!("{}: {} draws instead of {}", what, total, 2 * n));
	}
	// at most one variable costs more than 1
	let mut beta = |k: usize| -> Result<f64, String> { Ok((-m.p(k * n)?.ln()).min(-m.p(k * n + n - 1)?.ln())) };
	let (b0, b1) = (beta(0)?, beta(1)?);
	if !(b0 > 0.0 && b1 >= b0 * (1.0 - 1e-4) && b1.is_finite()) {
		return Err(format!("{}: betas {} and {}", what, b0, b1));
	}
	if b0 * fmax > f64::ln(2.0) * (1.0 + 1e-4) {
		return Err(format!("{}: starts with beta {}, a flip costing {} is accepted with probability {}", what, b0, fmax, f64::exp(-b0 * fmax)));
	}
	if b1 * wmax < f64::ln(100.0) * (1.0 - 1e-4) {
		return Err(format!("{}: ends with beta {}, a flip costing {} is accepted with probability {}", what, b1, wmax, f64::exp(-b1 * wmax)));
	}
	ctx.states += 2;
	ctx.transitions += 4;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&what);
	ctx.sample(|| what.to_string());
	Ok(())
}

/// measure a schedule generated from the model
fn k02_model<R, P>(i: &Inst<R, P>, counts: &[usize], sweeps: usize, ctx: &mut Ctx) -> Result<(), String>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let net = &i.net;
	let n = net.n();
	let sts = starts(i)?;
	let mut wmax = 0f64;
	for a in 0..n {
		wmax = wmax.max(net.h[a].abs());
		for b in 0..a {
			wmax = wmax.max(net.j[a][b].abs());
		}
	}
	let mut fmax = 0f64;
	for a in 0..n {
		let (mut up, mut dn) = (net.h[a], net.h[a]);
		for b in 0..n {
			up += net.j[a][b].max(0.0);
			dn += net.j[a][b].min(0.0);
		}
		fmax = fmax.max(up.abs()).max(dn.abs());
	}
	// variables that nothing depends on are left out
	let live: Vec<usize> = (0..n).filter(|a| net.h[*a] != 0.0 || net.j[*a].iter().any(|w| *w != 0.0)).collect();
	for &c in counts {
		let a = annealer::<R, P>(&i.p, BetaType::Count(c), sweeps);
		let what = format!("Count({}) with {} sweeps for {:?} {:?} of {:?} ({})", c, sweeps, net.h, net.j, net.ids, R::NAME);
		let st = sts.iter().find(|s| !live.is_empty() && live.iter().all(|k| net.delta(&s.at, *k) > 0.0));
		let st = match st {
			Some(s) => s,
			None => {
				// nothing to measure, but it must run
				for s in &sts {
					let (full, _) = a.run(s.init, &s.want, &mut || TOP).map_err(|e| format!("{}: {}", what, e))?;
					pick(net, &full).map_err(|e| format!("{}: {}", what, e))?;
					ctx.traces += 1;
				}
				ctx.note("no strict local optimum to measure at");
				if n == 0 {
					ctx.nontrivial += 1;
				}
				continue;
			}
		};
		let mut m = Meter { a: &*a, st, rounds: 0, base: Vec::new(), at: 0 };
		let total = m.len()?;
		let per = live.len() * sweeps;
		let mut cost: Vec<f64> = live.iter().map(|k| net.delta(&st.at, *k)).collect();
		cost.sort_by(|a, b| a.partial_cmp(b).unwrap());
		// a schedule so cold that moves become negligible draws less there
		let spread = fmax / wmax.min(cost[0]);
		if total != per * c {
			if spread < 8.0 || total > per * c {
				return Err(format!("{}: {} draws instead of {}", what, total, per * c));
			}
			ctx.note("moves too cold to measure");
			continue;
		}
		if c == 0 {
			ctx.traces += 1;
			continue;
		}
		let mut all: Vec<f64> = Vec::new();
		// all rounds of short schedules, else the ends and some in between
		let rounds: Vec<usize> = if c <= 12 { (0..c).collect() } else { vec![0, 1, c / 3, c / 2, c - 2, c - 1] };
		for &k in &rounds {
			for s in 0..sweeps {
				let mut ex: Vec<f64> = Vec::new();
				for v in 0..live.len() {
					let p = m.p(k * per + s * live.len() + v)?;
					ex.push(-p.ln());
				}
				ex.sort_by(|a, b| a.partial_cmp(b).unwrap());
				let beta = ex[0] / cost[0];
				for (e, d) in ex.iter().zip(&cost) {
					if !((e / d - beta).abs() <= beta.abs() * 1e-4) {
						return Err(format!("{}: round {} sweep {} has exponents {:?} for changes {:?}", what, k, s, ex, cost));
					}
				}
				if s > 0 && !((beta - all[all.len() - 1]).abs() <= beta.abs() * 1e-4) {
					return Err(format!("{}: round {} has beta {} and {}", what, k, all[all.len() - 1], beta));
				}
				all.push(beta);
				ctx.transitions += live.len() as u64;
			}
		}
		for k in 0..all.len() {
			if !(all[k] > 0.0 && all[k].is_finite()) {
				return Err(format!("{}: the beta of round {} is {}", what, rounds[k / sweeps], all[k]));
			}
			if k > 0 && all[k] < all[k - 1] * (1.0 - 1e-4) {
				return Err(format!("{}: betas {:?} are not rising", what, all));
			}
		}
		if c >= 2 {
			let (b0, b1) = (all[0], all[all.len() - 1]);
			if b0 * fmax > f64::ln(2.0) * (1.0 + 1e-4) {
				return Err(format!("{}: starts with beta {}, a flip costing {} is accepted with probability {}", what, b0, fmax, f64::exp(-b0 * fmax)));
			}
			if b1 * wmax < f64::ln(100.0) * (1.0 - 1e-4) {
				return Err(format!("{}: ends with beta {}, a flip costing {} is accepted with probability {}", what, b1, wmax, f64::exp(-b1 * wmax)));
			}
		}
		ctx.states += rounds.len() as u64;
		ctx.traces += 1;
		ctx.nontrivial += 1;
		ctx.outcome_of(&format!("{:.4?}", all));
		ctx.sample(|| format!("{}: {:.4?}", what, all));
	}
	Ok(())
}

pub fn k02(thorough: bool) -> Property {
	let mut f = Vec::new();
	fn val<R: Num>(k: usize) -> R {
		if R::FLOAT {
			R::from_float([0.125, 1.0, 2.5, 7.0][k])
		} else {
			R::int([1, 2, 5, 9][k])
		}
	}
	for len in 0..=4u32 {
		f.push(family(&format!("all explicit schedules of {} entries", len), 4u64.pow(len) * 4 * 7 * 2, move |i, ctx| {
			let mut d = Digits(i);
			let (ty, gap, sweeps) = (d.next(7), d.next(2) == 1, d.next(4));
			fn go<R: Num>(d: &mut Digits, len: u32, gap: bool, sweeps: usize, ctx: &mut Ctx) -> Result<(), String> {
				let v: Vec<R> = (0..len).map(|_| val::<R>(d.next(4))).collect();
				let want: Vec<f64> = v.iter().map(|b| b.f()).collect();
				k02_both(R::int(2), gap, BetaType::Schedule(v), &want, sweeps, ctx)
			}
			with_type!(ty, R, go::<R>(&mut d, len, gap, sweeps, ctx))
		}));
	}
	f.push(family("long explicit schedules", 7 * 12 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, gap, k) = (d.next(7), d.next(2) == 1, d.next(12));
		fn go<R: Num>(k: usize, gap: bool, ctx: &mut Ctx) -> Result<(), String> {
			let (len, sweeps) = [(1, 1), (1, 40), (40, 1), (10, 10), (100, 1), (7, 13), (64, 2), (2, 30), (30, 2), (1, 100), (3, 33), (17, 5)][k];
			let v: Vec<R> = (0..len).map(|t| val::<R>(t * 3 % 4)).collect();
			let want: Vec<f64> = v.iter().map(|b| b.f()).collect();
			k02_both(R::int(1), gap, BetaType::Schedule(v), &want, sweeps, ctx)
		}
		with_type!(ty, R, go::<R>(k, gap, ctx))
	}).chunk(2));
	f.push(family("count and range", 12 * 10 * 4 * 7 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, gap, sweeps, c, r) = (d.next(7), d.next(2) == 1, d.next(4), d.next(12), d.next(10));
		let c = if c == 11 { 40 } else { c };
		fn go<R: Num>(c: usize, r: usize, gap: bool, sweeps: usize, ctx: &mut Ctx) -> Result<(), String> {
			let (mut a, mut b) = (0, 0);
			let mut k = r;
			'l: for x in 0..4 {
				for y in x..4 {
					if k == 0 {
						a = x;
						b = y;
						break 'l;
					}
					k -= 1;
				}
			}
			let (a, b) = (val::<R>(a), val::<R>(b));
			let beta = BetaType::CountRange(c, a, b);
			let (x, y) = (a.f(), b.f());
			if c != 1 {
				let want: Vec<f64> = (0..c).map(|k| x * (y / x).powf(k as f64 / (c as f64 - 1.0))).collect();
				return k02_both(R::int(2), gap, beta, &want, sweeps, ctx);
			}
			// a single one: anywhere within the bounds, found by measuring
			if sweeps == 0 {
				return k02_both(R::int(2), gap, beta, &[0.0], 0, ctx);
			}
			let one = |i: &dyn Annealer, st: Start, ctx: &mut Ctx| -> Result<f64, String> {
				let mut m = Meter { a: i, st: &st, rounds: 0, base: Vec::new(), at: 0 };
				let n = m.len()?;
				if n != 2 * sweeps {
					return Err(format!("{} draws with one round of {} sweeps", n, sweeps));
				}
				ctx.transitions += 1;
				Ok(-m.p(0)?.ln() / 2.0)
			};
			let got = match bistable::<R>(R::int(2), gap) {
				(Some(i), _) => one(&*annealer(&i.p, beta, sweeps), low_start(starts(&i)?)?, ctx)?,
				(_, Some(i)) => one(&*annealer(&i.p, beta, sweeps), low_start(starts(&i)?)?, ctx)?,
				_ => unreachable!(),
			};
			if !(got >= x * (1.0 - 1e-5) && got <= y * (1.0 + 1e-5)) {
				return Err(format!("a single beta of range {} to {} is {} ({})", a, b, got, R::NAME));
			}
			ctx.states += 1;
			ctx.traces += 1;
			ctx.nontrivial += 1;
			Ok(())
		}
		with_type!(ty, R, go::<R>(c, r, gap, sweeps, ctx))
	}));
	// generated from the model
	for n in 0..=3usize {
		let alpha: &'static [i32] = if n == 3 && !thorough { &[-2, 0, 1] } else if n == 3 { &[-2, -1, 0, 3] } else { &[-3, -1, 0, 1, 2] };
		f.push(family(&format!("generated for every model of {} variables", n), count(n, alpha.len()) * 7, move |i, ctx| {
			fn go<R: Num>(n: usize, i: u64, alpha: &[i32], ctx: &mut Ctx) -> Result<(), String> {
				k02_model(&dense::<R>(n, &weights(n, i, alpha, R::int(1))), &[0, 1, 2, 3, 7], 1, ctx)
			}
			with_type!((i % 7) as usize, R, go::<R>(n, i / 7, alpha, ctx))
		}));
	}
	f.push(family("generated for sparse models with gaps", 3u64.pow(6) * 7, move |i, ctx| {
		fn go<R: Num>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
			let w = partial::<R>(3, i, &[None, Some(-2), Some(1)]);
			k02_model(&sparse(&[5, 0, 2], &w), &[1, 2, 5], 2, ctx)
		}
		with_type!((i % 7) as usize, R, go::<R>(i / 7, ctx))
	}));
	f.push(family("generated, other counts and sweeps", 7 * count(2, 3) * 5, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, k) = (d.next(7), d.next(5));
		fn go<R: Num>(i: u64, k: usize, ctx: &mut Ctx) -> Result<(), String> {
			let m = dense::<R>(2, &weights(2, i, &[-2, 1, 3], R::int(1)));
			let (c, s) = [(4, 3), (12, 2), (100, 1), (100, 2), (30, 1)][k];
			k02_model(&m, &[c], s, ctx)
		}
		with_type!(ty, R, go::<R>(d.0, k, ctx))
	}).chunk(4));
	f.push(family("generated, every magnitude", 7 * count(2, 4) * 10, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, k) = (d.next(7), d.next(10));
		fn go<R: Num>(i: u64, k: usize, ctx: &mut Ctx) -> Result<(), String> {
			let mul: R = match R::NAME {
				"f64" => R::from_float(2f64.powi([-900, -300, -60, -20, -5, 5, 20, 60, 300, 900][k])),
				"f32" => R::from_float(2f64.powi([-100, -60, -30, -20, -5, 5, 20, 30, 60, 100][k])),
				"i8" => R::int([1, 2, 3, 4, 5, 6, 7, 8, 9, 10][k]),
				"i16" => R::int([1, 3, 10, 31, 100, 316, 1000, 2000, 3000, 2500][k]),
				"i32" => R::int([1, 3, 10, 100, 1000, 10000, 100000, 1 << 20, 1 << 24, 1 << 26][k]),
				"i64" => R::big([1, 3, 10, 1000, 1 << 20, 1 << 30, 1 << 31, 1 << 40, 1 << 50, 1 << 55][k]),
				_ => R::big([1, 3, 10, 1000, 1 << 20, 1 << 40, 1 << 62, 1 << 63, 1 << 80, 1 << 110][k]),
			};
			let m = dense::<R>(2, &weights(2, i, &[-3, 1, 0, 2], mul));
			k02_model(&m, &[2, 4], 1, ctx)
		}
		with_type!(ty, R, go::<R>(d.0, k, ctx))
	}));
	let counts: &'static [usize] = if thorough { &[1, 2, 13, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097, 65537] } else { &[1, 2, 13, 31, 33, 63, 64, 65, 66, 127, 129, 255, 257, 1025] };
	f.push(family("numbers of entries", counts.len() as u64 * 3 * 2 * 7, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, kind, gap, c) = (d.next(7), d.next(3), d.next(2) == 1, counts[d.0 as usize]);
		with_type!(ty, R, k02_large::<R>(2, c, kind, 1 + i as usize % 2, gap, ctx))
	}).chunk(4));
	let sizes: &'static [usize] = if thorough { &[7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 257, 513, 1025, 2049] } else { &[9, 16, 17, 33, 65, 129, 257, 513] };
	f.push(family("numbers of sweeps and variables", sizes.len() as u64 * 8 * 2 * 3, move |i, ctx| {
		let mut d = Digits(i);
		let (kind, gap, sw, n) = (d.next(3), d.next(2) == 1, [1, 3, 8, 17, 30, 64, 100, 257][d.next(8)], sizes[d.0 as usize]);
		if n * sw > if ctx.thorough { 300_000 } else { 40_000 } {
			ctx.note("skipped: too many draws");
			return Ok(());
		}
		if i % 2 == 0 {
			k02_large::<f64>(n, 2, kind, sw, gap, ctx)
		} else {
			k02_large::<i32>(n, 3, kind, sw, gap, ctx)
		}
	}).chunk(2));
	let sizes: &'static [usize] = if thorough { &[5, 9, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257] } else { &[9, 17, 33, 65, 129, 257] };
	f.push(family("generated where one variable, pair or row stands out", sizes.len() as u64 * 257 * 4 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let (kind, gap, n, k) = (d.next(4), d.next(2) == 1, sizes[d.next(sizes.len())], d.0 as usize);
		let some = k % 29 == 0 || k + 2 >= n || (k > 30 && (k.is_power_of_two() || (k + 1).is_power_of_two()));
		if k >= n || (!some && n > if kind == 3 || !ctx.thorough { 33 } else { 129 }) {
			return Ok(());
		}
		fn go<R: Num>(kind: usize, gap: bool, n: usize, k: usize, ctx: &mut Ctx) -> Result<(), String> {
			let mut w: Vec<(usize, usize, R)> = (0..n).map(|a| (a, a, R::int(1))).collect();
			let o = (k + 1 + n / 3) % n;
			match kind {
				0 => w.push((k, k, R::int(99))),
				1 => w.push((k.min(o), k.max(o), R::int(60))),
				2 => w.push((k.max(o), k.min(o), R::int(-60))),
				// one variable with many small couplings
				_ => w.extend((0..n).filter(|a| *a != k).map(|a| (k, a, R::int(2)))),
			}
			let what = format!("Count(2) for {} variables, number {} stands out in way {}, gaps: {} ({})", n, k, kind, gap, R::NAME);
			if gap {
				let ids: Vec<usize> = (0..n).map(|k| 3 * k + 1).collect();
				k02_strong(&sparse::<R>(&ids, &w), &what, ctx)
			} else {
				k02_strong(&dense::<R>(n, &w), &what, ctx)
			}
		}
		match k % 3 {
			0 => go::<f64>(kind, gap, n, k, ctx),
			1 => go::<i32>(kind, gap, n, k, ctx),
			_ => go::<f32>(kind, gap, n, k, ctx),
		}
	}).chunk(16));
	f.push(family("generated for larger shapes", 7 * 4 * 8, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, shape, v) = (d.next(7), d.next(4), d.next(8));
		fn go<R: Num>(shape: usize, v: usize, ctx: &mut Ctx) -> Result<(), String> {
			let n = 5;
			let s = |k: usize, x: i32| R::int(if v >> k & 1 == 1 { -x } else { x });
			let mut w: Vec<(usize, usize, R)> = Vec::new();
			match shape {
				0 => w.extend((1..n).map(|a| (0, a, s(0, 2)))), // star
				1 => w.extend((0..n).map(|a| (a, (a + 1) % n, s(0, 2)))), // ring
				2 => {
					for a in 0..n {
						for b in 0..a {
							w.push((a, b, s(a % 2, 1)));
						}
					}
				}
				_ => w.push((0, 4, s(0, 3))),
			}
			w.extend((0..n).map(|a| (a, a, s(1 + a % 2, 1 + a as i32 % 2))));
			let m = dense::<R>(n, &w);
			k02_model(&m, &[2, 6], 1, ctx)?;
			let m = sparse::<R>(&[2, 3, 7, 11, 12], &w);
			k02_model(&m, &[2, 6], 1, ctx)
		}
		with_type!(ty, R, go::<R>(shape, v, ctx))
	}));
	Property {
		id: "K02",
		rule: "A state is one round of a schedule, whose inverse temperature is measured on the running annealer by bisecting or bracketing the draw at which an uphill flip is just accepted; a transition is one measured draw; an execution is one measured schedule. Non-trivial: every schedule with at least one round at a model with a strict local optimum.",
		bounds: "all explicit schedules of up to 4 entries over 4 values and up to 3 sweeps, counts 0 to 10 and 40 with ten ranges, schedules generated for every model of up to 3 variables over small weight alphabets, for sparse models with gaps and for scaled weights from 2^-900 to 2^900; seven types",
		assumptions: vec!["temperatures at which every move is negligible cannot be measured".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- K03

fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(1);
	crate::det::mix(*x)
}

/// cold runs: never uphill, ends in a local optimum
fn k03_cold<R, P>(i: &Inst<R, P>, beta: &[R], sweeps: usize, all_starts: bool, ctx: &mut Ctx) -> Result<(), String>
where
	R: Num,
	P: SingleModelView<Node = Binary<R>> + Send + Sync,
{
	let net = &i.net;
	let n = net.n();
	let a = annealer::<R, P>(&i.p, BetaType::Schedule(beta.to_vec()), sweeps);
	let sts = starts(i)?;
	// zero-cost flips anywhere?
	let mut ties = n > 10;
	if n <= 10 {
		for s in 0..1u64 << n {
			let s: Vec<bool> = (0..n).map(|k| s >> k & 1 == 1).collect();
			ties |= (0..n).any(|k| net.delta(&s, k) == 0.0);
		}
	}
	let rounds = sweeps * beta.len();
	for st in sts.iter() {
		if !all_starts && ctx.traces % 7 == 6 {
			continue;
		}
		let mut answers: Vec<Vec<bool>> = Vec::new();
		for kind in 0..6 {
			let mut k = 0u64;
			let mut draws = || {
				k += 1;
				match kind {
					0 => 0,
					1 => TOP,
					2 => {
						if k % 2 == 0 {
							0
						} else {
							TOP
						}
					}
					3 => 1 << 12,
					_ => crate::det::mix(k * kind),
				}
			};
			let (full, _) = a.run(st.init, &st.want, &mut draws)?;
			let s = pick(net, &full)?;
			let what = || format!("{:?}, start {:?}, betas {:?} x {} sweeps, draws {} ({})", net, st.at, beta, sweeps, kind, R::NAME);
			if net.energy(&s) > net.energy(&st.at) {
				return Err(format!("{}: ends in {:?}, uphill from {} to {}", what(), s, net.energy(&st.at), net.energy(&s)));
			}
			if !ties && n <= 10 && rounds >= 1 << n {
				if let Some(k) = (0..n).find(|k| net.delta(&s, *k) < 0.0) {
					return Err(format!("{}: ends in {:?}, where flipping {} improves", what(), s, net.ids[k]));
				}
				ctx.nontrivial += 1;
			} else if s != st.at {
				ctx.nontrivial += 1;
			}
			answers.push(s);
			ctx.traces += 1;
			ctx.transitions += (rounds * n) as u64;
		}
		ctx.states += 1;
		ctx.outcome_of(&answers);
	}
	ctx.sample(|| format!("{:?}, betas {:?} x {} sweeps", net, beta, sweeps));
	Ok(())
}

fn k03_same<R: Num>(n: usize, ids: &[usize], w: &[(usize, usize, R)], set: usize, ctx: &mut Ctx) -> Result<(), String> {
	let _ = n;
	let kind = |set: usize| -> (BetaType<R>, usize) {
		match set {
			0 => (BetaType::Count(6), 3),
			1 => (BetaType::Count(100), 30),
			2 => (BetaType::CountRange(5, R::int(1), R::int(4)), 2),
			_ => (BetaType::Schedule(vec![R::int(1), R::int(2)]), 4),
		}
	};
	let seeds = if set == 1 { 2 } else { 8 };
	for seed in 0..seeds {
		let mut first: Option<(Vec<bool>, usize)> = None;
		for rebuild in 0..4 {
			let mut w = w.to_vec();
			match rebuild {
				1 => w.reverse(),
				2 => {
					// in pieces
					let mut v = Vec::new();
					for (a, b, x) in &w {
						v.push((*b, *a, *x + R::int(1)));
					}
					for (a, b, _) in &w {
						v.push((*a, *b, R::int(-1)));
					}
					w = v;
				}
				_ => (),
			}
			let m = sparse(ids, &w);
			let (beta, sweeps) = kind(set);
			let a = annealer(&m.p, beta, sweeps);
			for again in 0..2 {
				let mut x = seed * 1000;
				let got = a.run(0, &[], &mut || splitmix(&mut x))?;
				pick(&m.net, &got.0)?;
				ctx.traces += 1;
				match &first {
					None => first = Some(got),
					Some(f) if *f == got => (),
					Some(f) => {
						return Err(format!(
							"{:?} ({}): setting {}, the same draws give {:?} after {} requests, and {:?} after {} {}",
							m.net, R::NAME, set, f.0, f.1, got.0, got.1,
							if again == 1 { "in a second run" } else { "for the same model built again" }
						));
					}
				}
			}
		}
		ctx.states += 1;
		ctx.outcome_of(&first);
	}
	ctx.transitions += 1;
	ctx.nontrivial += 1;
	Ok(())
}

pub fn k03(thorough: bool) -> Property {
	let mut f = Vec::new();
	for n in 0..=3usize {
		let alpha: &'static [i32] = if n == 3 { &[-12, -6, 6, 0] } else { &[-18, -12, -6, 0, 6, 12, 24] };
		let c = count(n, alpha.len());
		f.push(family(&format!("cold runs of every model of {} variables, every type", n), c * 7 * 2, move |i, ctx| {
			let mut d = Digits(i);
			let (ty, form) = (d.next(7), d.next(2));
			fn go<R: Num>(n: usize, i: u64, alpha: &[i32], form: usize, ctx: &mut Ctx) -> Result<(), String> {
				let m = dense::<R>(n, &weights(n, i, alpha, R::int(1)));
				let b = vec![R::int(127); [8, 2][form]];
				k03_cold(&m, &b, [1, 4][form], true, ctx)
			}
			with_type!(ty, R, go::<R>(n, d.0, alpha, form, ctx))
		}));
	}
	f.push(family("cold runs of sparse models with gaps, every type", 4u64.pow(6) * 7, move |i, ctx| {
		fn go<R: Num>(i: u64, ctx: &mut Ctx) -> Result<(), String> {
			let w = partial::<R>(3, i, &[None, Some(-7), Some(6), Some(20)]);
			let ids = [[0, 1, 2], [3, 0, 2], [7, 8, 1], [9, 16, 31], [64, 5, 65]];
			k03_cold(&sparse(&ids[(i % 5) as usize], &w), &[R::int(127)], 8, true, ctx)
		}
		with_type!((i % 7) as usize, R, go::<R>(i / 7, ctx))
	}));
	let a4: &'static [i32] = if thorough { &[-2, 1, 3] } else { &[-2, 3] };
	f.push(family("cold runs of models of 4 variables", count(4, a4.len()), move |i, ctx| {
		k03_cold(&dense::<i32>(4, &weights(4, i, a4, 1)), &[1000, 2000], 8, true, ctx)?;
		k03_cold(&dense::<f64>(4, &weights(4, i, a4, 0.5)), &[2e3], 16, true, ctx)
	}));
	// turned round one variable per sweep, from one end
	f.push(family("as many cold sweeps as variables", 12 * 4 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let (n, form, kind) = ([600, 515, 513, 400, 300, 258, 257, 256, 255, 129, 128, 65][d.next(12)], d.next(4), d.next(4));
		fn go<R: Num>(n: usize, form: usize, kind: usize, ctx: &mut Ctx) -> Result<(), String> {
			let at = |k: usize| if kind == 1 { n - 1 - k } else { k };
			let mut w: Vec<(usize, usize, R)> = vec![(at(n - 1), at(n - 1), R::int(-1))];
			for k in 0..n - 1 {
				w.push((at(k), at(k), R::int(1)));
				w.push((at(k), at(k + 1), R::int(-2)));
			}
			let (entries, sweeps) = match form {
				0 => (1, n),
				1 => (n, 1),
				2 => (2, n / 2 + 1),
				_ => (n / 3 + 1, 3),
			};
			let beta = BetaType::Schedule(vec![R::int(100); entries]);
			fn one<R: Num, P: SingleModelView<Node = Binary<R>> + Send + Sync>(i: &Inst<R, P>, beta: BetaType<R>, sweeps: usize, ctx: &mut Ctx) -> Result<(), String> {
				let a = annealer::<R, P>(&i.p, beta, sweeps);
				for (k, st) in starts(i)?.iter().enumerate() {
					if k % 31 != 0 {
						continue;
					}
					for draw in [0, TOP] {
						let s = pick(&i.net, &a.run(st.init, &st.want, &mut || draw)?.0)?;
						if let Some(x) = s.iter().position(|b| !*b) {
							return Err(format!("chain of {} variables, {} sweeps per entry, draws {}: variable {} is false, {} true is the only local optimum ({})", s.len(), sweeps, draw, x, "all", R::NAME));
						}
						ctx.traces += 1;
						ctx.transitions += (s.len() * s.len()) as u64;
					}
					ctx.states += 1;
				}
				Ok(())
			}
			if kind == 2 {
				let ids: Vec<usize> = (0..n).map(|k| 2 * k + 1).collect();
				one(&sparse::<R>(&ids, &w), beta, sweeps, ctx)?;
			} else {
				one(&dense::<R>(n, &w), beta, sweeps, ctx)?;
			}
			ctx.nontrivial += 1;
			ctx.outcome_of(&(n, form, kind));
			Ok(())
		}
		match (i / 5) % 3 {
			0 => go::<f64>(n, form, kind, ctx),
			1 => go::<i32>(n, form, kind, ctx),
			_ => go::<i8>(n, form, kind, ctx),
		}
	}).chunk(1));
	f.push(family("few cold sweeps", count(3, 4), move |i, ctx| {
		for (c, s) in [(1, 1), (1, 2), (2, 1), (0, 3), (3, 0)] {
			k03_cold(&dense::<i64>(3, &weights(3, i, &[-2, -1, 1, 3], 1)), &vec![900; c], s, true, ctx)?;
		}
		Ok(())
	}));
	// a value for every variable, whatever the size
	let top = if thorough { 300 } else { 140 };
	f.push(family("models of every size", top, move |n, ctx| {
		let n = n as usize;
		let w: Vec<(usize, usize, i32)> = (0..n).map(|a| (a, a, if a % 3 == 0 { 2 } else { -3 })).chain((1..n).map(|a| (a - 1, a, (a % 4) as i32 - 1))).collect();
		k03_cold(&dense::<i32>(n, &w), &[1000], 4, false, ctx)?;
		// independent variables: one sweep finds the optimum
		let w: Vec<(usize, usize, i32)> = (0..n).map(|a| (a, a, if a % 3 == 0 { 2 } else { -3 })).collect();
		for ids in [(0..n).collect::<Vec<_>>(), (0..n).map(|k| k * 3 + 1).collect()] {
			let m = sparse::<i32>(&ids, &w);
			let d = dense::<i32>(n, &w);
			let a = [annealer(&m.p, BetaType::Schedule(vec![1000]), 1), annealer(&d.p, BetaType::Schedule(vec![1000]), 1)];
			for (a, net) in a.iter().zip([&m.net, &d.net]) {
				for seed in 0..4 {
					let mut x = seed;
					let (full, _) = a.run(0, &[], &mut || splitmix(&mut x))?;
					let s = pick(net, &full)?;
					// one sweep from anywhere leaves each independent variable at its minimum, or moves it there
					if let Some(k) = (0..n).find(|k| s[*k] != (net.h[*k] < 0.0)) {
						return Err(format!("{} independent variables: number {} ends {} with weight {}", n, net.ids[k], s[k], net.h[k]));
					}
					ctx.traces += 1;
				}
			}
		}
		ctx.nontrivial += 1;
		Ok(())
	}).chunk(1));
	// determinism
	f.push(family("the same draws, the same answer", 243 * 4 * 7, move |i, ctx| {
		let mut d = Digits(i);
		let (ty, set) = (d.next(7), d.next(4));
		fn go<R: Num>(i: u64, set: usize, ctx: &mut Ctx) -> Result<(), String> {
			let n = 5;
			let mut d = Digits(i);
			let al = [1, -2, 3];
			let mut w: Vec<(usize, usize, R)> = (0..n).map(|a| (a, a, R::int(*d.pick(&al)))).collect();
			w.extend((0..n).map(|a| (a, (a + 1) % n, R::int(al[(i as usize + a * 2) % 3] - 1))).filter(|x| x.2 != R::int(0)));
			w.push((0, 2, R::int(1)));
			k03_same(n, &[4, 0, 9, 2, 3], &w, set, ctx)
		}
		with_type!(ty, R, go::<R>(d.0, set, ctx))
	}));
	Property {
		id: "K03",
		rule: "A state is one start of one model (or one model, settings and sequence of draws); a transition is one considered flip; an execution is one run of the annealer through its public interface. Non-trivial: runs with enough sweeps at models without zero-cost flips, whose local optimality is required, and every determinism case.",
		bounds: "every model of up to 3 variables over weight alphabets of 4 to 7 values in seven types, of 4 variables over 2 to 3 values, from every start under six kinds of draws; sparse models with gaps; every size to 140 (300); chains of up to 600 variables that turn round one variable per sweep",
		assumptions: vec!["so cold means that exp(-beta * change) underflows to zero".to_string()],
		families: f,
	}
}

//! Models, solutions and the annealer, with everything they accept or refuse.
use crate::label::{hit, Cb};
use crate::repr::Script;
use crate::{call, digits, Fam};
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel, SingleModel, SingleModelView};
use annealers::node::{Binary, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, SolverGenerator, StructuredSolverGenerator, UnstructuredSolverGenerator};
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use std::collections::BTreeSet;
use std::hint::black_box;

fn solutions<P: SingleModelView>(m: &P, upto: usize) {
	for len in 0..=upto {
		for bits in 0..1usize << len.min(3) {
			let v: Vec<bool> = (0..len).map(|i| bits >> (i % 3) & 1 == 1).collect();
			let s = SingleSolution::<P::Node>::from_vec(&v);
			call(|| black_box(s.calculate_energy(m)));
			call(|| black_box(s.clone().calculate_local_field(m)));
			let e = call(|| s.clone().with_energy(m));
			let f = call(|| s.clone().with_local_field(m));
			if let (Some(e), Some(f)) = (&e, &f) {
				black_box(e.compare_energy(f));
				call(|| black_box(e.calculate_energy(m)));
				call(|| black_box(f.clone().calculate_local_field(m)));
			}
		}
	}
}

fn inspect<P: SingleModelView>(m: &P, upto: usize) {
	for n in m.nodes() {
		black_box(n);
	}
	for p in m.prods() {
		call(|| black_box(m.get_weight(&p)));
	}
	for u in (0..=upto + 1).chain([usize::MAX]) {
		call(|| {
			for p in m.neighbors(u) {
				call(|| black_box(m.get_weight(&p)));
			}
		});
	}
	black_box(m.clone().size());
}

fn dense_size(c: usize) -> usize {
	[0, 1, 2, 3, 5][c]
}

/// A view that does not keep its promises; writing one needs no unsafe code.
#[derive(Clone)]
struct Liar {
	node: Binary<f64>,
	order: Quadric,
	nodes: Vec<usize>,
	prods: Vec<[usize; 2]>,
	neighbors: Vec<[usize; 2]>,
}
impl SingleModelView for Liar {
	type Node = Binary<f64>;
	type NodesIter = Vec<usize>;
	type ProdsIter = Vec<[usize; 2]>;
	type NeighborsIter = Vec<[usize; 2]>;
	type Order = Quadric;
	fn order(&self) -> &Quadric {
		&self.order
	}
	fn node(&self) -> &Binary<f64> {
		&self.node
	}
	fn nodes(&self) -> Vec<usize> {
		hit(Cb::Model);
		self.nodes.clone()
	}
	fn prods(&self) -> Vec<[usize; 2]> {
		hit(Cb::Model);
		self.prods.clone()
	}
	fn neighbors(&self, _: usize) -> Vec<[usize; 2]> {
		hit(Cb::Model);
		self.neighbors.clone()
	}
	fn get_weight(&self, _: &[usize; 2]) -> f64 {
		hit(Cb::Model);
		-1.0
	}
	unsafe fn get_weight_unchecked(&self, _: &[usize; 2]) -> f64 {
		-1.0
	}
}

fn anneal<P: SingleModelView<Node = Binary<f64>> + Send + Sync>(m: &P, upto: usize, seeds: u64) {
	for len in 0..=upto {
		for seed in 0..seeds {
			let mut st = BinaryRepr::from_vec(&(0..len).map(|i| seed >> (i % 3) & 1 == 1).collect::<Vec<_>>());
			for beta in [&[][..], &[0.0], &[1e-9, 1.0, 1e9], &[f64::NAN, f64::INFINITY, -1.0]] {
				if cfg!(miri) && len + 1 < upto && seed > 0 {
					continue;
				}
				call(|| simulated_annealing(&mut Script(seed), &mut st, beta, 2, m));
			}
			black_box(st.to_vec());
		}
	}
	let mut g = SimulatedAnnealerGenerator::new();
	g.sweeps_per_round = 2;
	for b in [
		BetaType::Count(0),
		BetaType::Count(1),
		BetaType::Count(3),
		BetaType::CountRange(2, 0.1, 5.0),
		BetaType::CountRange(2, f64::NAN, f64::INFINITY),
		BetaType::Schedule(vec![]),
		BetaType::Schedule(vec![0.5, 5.0]),
	] {
		g.beta = b;
		call(|| {
			let s = g.generate(m).unwrap();
			for seed in 0..seeds {
				call(|| {
					for sol in s.solve_with_rng(&mut Script(seed)).unwrap() {
						let sol = sol.with_energy(m).with_local_field(m);
						black_box((sol.len(), sol.energy));
					}
				});
			}
		});
	}
}

pub fn families(deep: bool) -> Vec<Fam> {
	let mut v = Vec::new();
	let sizes = if deep { 5 } else { 4 };
	v.push(Fam {
		name: "dense-model",
		count: sizes * 3,
		bytes: true,
		run: Box::new(move |c| {
			let d = digits(c, &[sizes, 3]);
			let n = dense_size(d[0]);
			fn go<N: annealers::node::SingleNode<RealType = f64>>(node: N, n: usize) {
				let mut m = FixedSingleQuadricModel::new(node, n);
				let idx: Vec<usize> = (0..=n + 1).chain([usize::MAX, 1 << 63]).collect();
				for &i in &idx {
					for &j in &idx {
						call(|| m.add_weight(i, j, 1.0 + (i % 5) as f64));
						call(|| black_box(FixedSingleModelView::get_weight(&m, &[i.min(j), i.max(j)])));
						call(|| black_box(FixedSingleModelView::get_weight(&m, &[i.max(j), i.min(j)])));
					}
				}
				inspect(&m, n);
				solutions(&m, n + 1);
			}
			match d[1] {
				0 => go(Binary::new(), n),
				1 => go(Spin::new(), n),
				_ => go(TwoVal::new(2.0, 5.0), n),
			}
		}),
	});
	// sizes whose number of pairs does not fit must be refused
	v.push(Fam {
		name: "dense-huge",
		count: 6,
		bytes: true,
		run: Box::new(|c| {
			let n = [usize::MAX, usize::MAX - 1, 1 << 63, 1 << 62, 1 << 33, (1 << 32) + (1 << 31)][c as usize];
			// the last ones fit into an index and are refused for lack of memory,
			// or wrap around to something small
			if (n as u128 * (n as u128 + 1) / 2) < 1 << 63 {
				return;
			}
			if let Some(mut m) = call(|| FixedSingleQuadricModel::<Binary<f64>>::new(Binary::new(), n)) {
				for i in [0, 1, n / 2, n - 1] {
					for j in [0, 1, n / 2, n - 1] {
						call(|| m.add_weight(i, j, 1.0));
						call(|| black_box(FixedSingleModelView::get_weight(&m, &[i.min(j), i.max(j)])));
					}
				}
			}
		}),
	});
	let prods: Vec<[usize; 2]> = vec![[0, 0], [0, 1], [1, 1], [1, 3], [3, 3], [2, 9]];
	let bits = prods.len() as u32;
	{
		let prods = prods.clone();
		v.push(Fam {
			name: "sparse-model",
			count: 1 << bits,
			bytes: true,
			run: Box::new(move |c| {
				let mut m = SingleModel::new(Binary::<f64>::new(), Quadric);
				for (i, p) in prods.iter().enumerate() {
					if c >> i & 1 == 1 {
						m.add_weight(*p, i as f64 - 2.0);
						m.add_weight(*p, 0.25);
					}
				}
				inspect(&m, 4);
				for p in &prods {
					call(|| black_box(m.get_weight(p)));
				}
				if deep || c % 7 == 0 {
					solutions(&m, 5);
				}
			}),
		});
	}
	v.push(Fam {
		name: "high-order-model",
		count: 1 << 4,
		bytes: true,
		run: Box::new(move |c| {
			let sets: [&[usize]; 4] = [&[], &[2], &[0, 2], &[0, 1, 4]];
			let mut m = SingleModel::new(Binary::<f64>::new(), HighOrder::new(3));
			for (i, p) in sets.iter().enumerate() {
				if c >> i & 1 == 1 {
					m.add_weight(p.iter().copied().collect::<BTreeSet<usize>>(), 1.5);
				}
			}
			inspect(&m, 4);
			if cfg!(miri) && !deep && c % 3 > 0 {
				return;
			}
			solutions(&m, 5);
			anneal(&m, 5, 1);
		}),
	});
	v.push(Fam {
		name: "anneal-dense",
		count: if deep { 3 * 64 } else if cfg!(miri) { 12 } else { 24 },
		bytes: true,
		run: Box::new(move |c| {
			let d = digits(c, &[4, 64]);
			let n = d[0];
			let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), n);
			let mut k = d[1] as u64;
			for i in 0..n {
				for j in i..n {
					m.add_weight(i, j, [1.0, -1.0, 0.0, 3.5][(k % 4) as usize]);
					k = k / 2 + 3 * k;
				}
			}
			anneal(&m, n + 1, if deep { 4 } else { 2 });
		}),
	});
	{
		let prods = prods.clone();
		v.push(Fam {
			name: "anneal-sparse",
			count: if deep { 1 << bits } else if cfg!(miri) { 16 } else { 32 },
			bytes: true,
			run: Box::new(move |c| {
				let mut m = SingleModel::new(Binary::<f64>::new(), Quadric);
				for (i, p) in prods.iter().enumerate() {
					if c >> i & 1 == 1 {
						m.add_weight(*p, [1.0, -1.5][i % 2]);
					}
				}
				anneal(&m, 5, if deep { 4 } else { 1 });
			}),
		});
	}
	let far: [usize; 4] = [0, 1, 9, usize::MAX];
	v.push(Fam {
		name: "anneal-inconsistent",
		count: 4 * 4 * 4 * 4,
		bytes: true,
		run: Box::new(move |c| {
			let d = digits(c, &[4, 4, 4, 4]);
			let m = Liar {
				node: Binary::new(),
				order: Quadric,
				nodes: (0..d[0]).collect(),
				prods: vec![[0, 0], [0, far[d[1]]], [far[d[2]], 1]],
				neighbors: vec![[0, far[d[3]]], [far[d[3]], 1], [0, 1]],
			};
			for len in 0..4 {
				let mut st = BinaryRepr::from_vec(&vec![false; len]);
				call(|| simulated_annealing(&mut Script(3), &mut st, &[1.0], 2, &m));
				black_box(st.to_vec());
			}
		}),
	});
	// a view or a generator that gives up in the middle
	v.push(Fam {
		name: "anneal-interrupted",
		count: 2 * if deep { 40 } else { 12 },
		bytes: true,
		run: Box::new(move |c| {
			let d = digits(c, &[2, 40]);
			let m = Liar {
				node: Binary::new(),
				order: Quadric,
				nodes: vec![0, 1, 2],
				prods: vec![[0, 0], [0, 1], [1, 2]],
				neighbors: vec![[0, 1], [1, 2]],
			};
			crate::label::arm([Cb::Model, Cb::Rng][d[0]], d[1] as u32);
			anneal(&m, 4, 1);
			crate::label::disarm();
		}),
	});
	v.push(Fam {
		name: "node-sets",
		count: if cfg!(miri) { 27 } else { 125 },
		bytes: true,
		run: Box::new(move |c| {
			let vals = [0, 1, usize::MAX, 2, 1 << 63];
			let n = if cfg!(miri) { 3 } else { 5 };
			let d = digits(c, &[n, n, n]);
			for len in 0..=3 {
				let vec: Vec<usize> = d[..len].iter().map(|i| vals[*i]).collect();
				fn go<S: NodeSet>(vec: &[usize]) {
					let a = call(|| S::from_vec(vec.to_vec())).flatten();
					let b = call(|| S::from_set(vec.iter().copied().collect())).flatten();
					let c = call(|| S::from_it(vec.iter().copied())).flatten();
					for s in [a, b, c].into_iter().flatten() {
						black_box((s.len(), s.contains(0), s.iter().count()));
						drop(format!("{:?}", s));
						black_box((s.clone().into_vec(), s.into_set()));
					}
				}
				go::<[usize; 2]>(&vec);
				go::<Vec<usize>>(&vec);
				go::<BTreeSet<usize>>(&vec);
			}
		}),
	});
	v.push(Fam {
		name: "structured-view",
		count: 1,
		bytes: true,
		run: Box::new(move |_| {
			let mut w = SimulatedAnnealerGenerator::<FixedSingleQuadricModel<Binary<f64>>>::new();
			w.sweeps_per_round = 1;
			w.beta = BetaType::Count(2);
			black_box(w.order().order());
			let m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 2);
			let w = w.into_structured();
			let mut it = w.prods();
			for _ in 0..20 {
				black_box(it.next());
			}
			black_box(w.nodes().nth(5));
			black_box(w.value_range());
			drop(call(|| w.generate(&m).unwrap().solve_with_rng(&mut Script(1))));
		}),
	});
	v
}

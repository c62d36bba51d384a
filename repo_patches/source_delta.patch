From f7178106d0ea50bda8683750779dea9a470648d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 01/18] fix: do not list the product (0, 1) for models with
 fewer than two nodes

Prods yielded [0, 1] for size 0 and 1, so every model of a single variable
(or none) panicked in get_weight as soon as a solver was generated.
---
 annealers/src/model.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..04ca661 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -312,6 +312,9 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			self.indices[finger] += 1;
 			Some(ret)
 		} else if self.indices.len() == 1 {
+			if self.size < 2 {
+				return None; //< there is no pair of different nodes
+			}
 			self.indices = vec![0, 1];
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[1] += 1;
-- 
2.43.0


From 5e02181dba9c367050437aca6deb1cd3f9699e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 02/18] fix: let nan_or return NaN for floating types

The literal was captured as an expr fragment, which never matches the literal
arm of impl_nan_or!, so floats silently used the fallback too.
---
 annealers/src/variable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..1c7ae1f 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -56,7 +56,7 @@ macro_rules! impl_nan_or {
 			(0.0 as $typ) / (0.0 as $typ)
 		}
 	};
-	($b:expr, $typ:ty) => {
+	(false, $typ:ty) => {
 		#[inline]
 		fn nan_or(other: Self) -> Self {
 			other
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From 01d610203474ed7880d0138c0fdae4b5cd8826da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:59 +0000
Subject: [PATCH 03/18] fix: keep UnstructuredEdgeIter at its end

The cursor was advanced before the underlying iterator was found exhausted,
so calling next() again after None indexed out of bounds.
---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..05d6ecc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From e2f6bef9e2f27a6f858d4741eb3236f14d21e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 04/18] fix: forward the value range of a wrapped solver and
 default to the full range

The structured wrapper dropped the wrapped generator's value_range, and the
default range was (MAX, MAX), which admits a single value.
---
 annealers/src/solver.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 05d6ecc..1105ab8 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -59,7 +59,7 @@ pub trait SolverGenerator<'a, ProblemType: ModelView> {
 
 	fn value_range(&self) -> (get_real_typ!(ProblemType), get_real_typ!(ProblemType)) {
 		(
-			<get_real_typ!(ProblemType)>::MAX,
+			<get_real_typ!(ProblemType)>::MIN,
 			<get_real_typ!(ProblemType)>::MAX,
 		)
 	}
@@ -103,6 +103,10 @@ impl<'a, G: UnstructuredSolverGenerator<'a, P>, P: ModelView> SolverGenerator<'a
 {
 	type SolverType = G::SolverType;
 	type ErrorType = G::ErrorType;
+	fn value_range(&self) -> (get_real_typ!(P), get_real_typ!(P)) {
+		self.0.value_range()
+	}
+
 	fn generate(&self, model: &'a P) -> Result<Self::SolverType, Self::ErrorType> {
 		self.0.generate(model)
 	}
-- 
2.43.0


From 4dbd9cd6e1da4cdfc0e9cc51e48436b07ea9ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 05/18] fix: do not read uninitialised memory in BinaryRepr

from_vec() sets bits with |= and &= on the bytes left uninitialised by
with_len_unchecked(), and new_random() hands them to the generator.
---
 annealers/src/repr.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 6b320f7..2088776 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -22,9 +22,10 @@ impl BinaryRepr {
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
 		let size = (len + BYTESIZE - 1) / BYTESIZE;
-		let mut v = Vec::with_capacity(size);
-		v.set_len(size);
-		Self { state: v, len }
+		Self {
+			state: vec![0; size],
+			len,
+		}
 	}
 
 	pub fn from_vec(v: &[bool]) -> Self {
-- 
2.43.0


From 8270f4141bb191a33daf09aacc770c48d9458dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 06/18] fix: do not create an invalid expression in compound
 assignments

A zeroed Expr is undefined behaviour for labels that are not valid when zeroed
(String, references), and was dropped if the operator or a label panicked.
---
 src/expr.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..c9e246d 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -4,7 +4,6 @@ use crate::wrapper::Placeholder;
 use crate::{TcType, TpType, TqType};
 use annealers::variable::{ConvertFrom, Real};
 use std::collections::{BTreeSet, HashMap};
-use std::mem::MaybeUninit;
 use std::ops::{Add, AddAssign, BitXor, BitXorAssign, Mul, MulAssign, Neg, Sub, SubAssign};
 
 // TODO: hide the implementation from public
@@ -416,11 +415,8 @@ macro_rules! impl_assign_op {
 		{
 			#[inline]
 			fn $fun(&mut self, other: $rhs) {
-				let mut inner = unsafe { MaybeUninit::zeroed().assume_init() };
-				std::mem::swap(self, &mut inner);
-				let mut outer = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
-				std::mem::swap(self, &mut outer);
-				std::mem::forget(outer);
+				let inner = std::mem::replace(self, Expr::Number(R::from_i32(0)));
+				*self = <Self as $trait_inner<$rhs_into>>::$fun_inner(inner, other.into());
 			}
 		}
 	};
-- 
2.43.0


From 610027b3d12138d7d441cefefd88a9e6ae961ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 07/18] fix: feed placeholders inside constraints and penalties
 too

Expr::feed_dict left the contents of Constraint and WithPenalty alone, so the
placeholder was still missing after compilation.
---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index c9e246d..67f8f0b 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -77,6 +77,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 8fa14ddbdc943297219ef22700749c9b2879c345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 08/18] fix: return None for the local field of an unknown
 label

local_field() returns an Option like get(), but panicked.
---
 src/solution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solution.rs b/src/solution.rs
index 92c72e0..d66b456 100644
--- a/src/solution.rs
+++ b/src/solution.rs
@@ -28,7 +28,8 @@ impl<Tq: TqType, R: Real> SolutionView<Tq, R> {
 	}
 
 	pub fn local_field(&self, q: &Tq) -> Option<R> {
-		self.0.local_field.as_ref().map(|v| v[self.1[q]])
+		let index = *self.1.get(q)?;
+		self.0.local_field.as_ref().map(|v| v[index])
 	}
 
 	pub fn keys(&self) -> impl Iterator<Item = &Tq> {
-- 
2.43.0


From be50ab106b025bdcbeeada6451406b263b6a652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 09/18] fix: keep constraint strengths with integer models of
 several constraints

cnt / size was an integer division, so with two or more constraints every
strength was zero and the constraints had no effect.
---
 src/solve.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..fc06d55 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,8 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// Not calculated in R because the ratio is zero in integer types.
+						R::from_f64(*cnt as f64 / size as f64 * self.coeff_strength.as_f64())
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 302de168114d24078e249d62503ba690f04dccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 10/18] fix: do not discard a satisfying solution found after
 an infeasible one

A best sample satisfying all constraints was ignored when an earlier generation,
under weaker penalties, had an infeasible sample of lower energy; the infeasible
one was returned.
---
 src/solve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index fc06d55..8b5bc4a 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -186,18 +186,21 @@ where
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				// Energies of different generations are not comparable because the
+				// strengths differ, so never discard a solution without violations.
+				if old_energy <= energy && unsatisfied.iter().any(|c| c.label.is_some()) {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
-- 
2.43.0


From b356071da43bf49ba9ad676ac46a21a5fed99ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:13 +0000
Subject: [PATCH 11/18] fix: select the best sample by its own energy instead
 of a rounded one

Energies of i64 and i128 models above 2^53 were rounded to f64, so a sample
that is not the best one could be returned.
---
 src/solve.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 8b5bc4a..9a52d16 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -175,14 +175,13 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
-					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
-				assert!(min.is_finite());
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
-					.next()
+					.filter(|r| r.energy.unwrap().is_finite())
+					.fold(None, |min: Option<SingleSolution<_>>, r| match min {
+						Some(m) if m.energy <= r.energy => Some(m),
+						_ => Some(r),
+					})
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-- 
2.43.0


From ee6f3e4c2a45ed495efb18a5c58e04dde2b2c0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:15 +0000
Subject: [PATCH 12/18] fix: bind the reduced products by a penalty that the
 objective cannot outweigh

---
 src/compiled.rs |  7 +++++++
 src/expr.rs     | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..c29d8ab 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,17 +202,24 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				// Upper bound of what violating `constraint` can gain
+				let mut strength = vec![StaticExpr::Number(R::one())];
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						strength.extend(expanded.values().map(|exp| exp.clone().upper_bound()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
 					new_expanded += expanded;
 				}
+				if let Some(constraint) = &constraint {
+					new_expanded += constraint.clone()
+						* Expanded::from(BTreeSet::new(), StaticExpr::Add(strength).simplify());
+				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
 					self.constraints
diff --git a/src/expr.rs b/src/expr.rs
index 67f8f0b..d6a28d6 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -624,6 +624,17 @@ where
 		}
 	}
 
+	/// Get an expression not less than the absolute value of self. The values
+	/// of the placeholders are not negative.
+	pub(crate) fn upper_bound(self) -> Self {
+		match self {
+			Self::Add(v) => Self::Add(v.into_iter().map(Self::upper_bound).collect()),
+			Self::Mul(v) => Self::Mul(v.into_iter().map(Self::upper_bound).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+			o => o,
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 88f21d0aa201176cc46572dfc1aa5edd0acc4761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 13/18] fix: keep the beta schedule of integer models in f64

---
 classical_solver/src/algo.rs | 10 ++++----
 classical_solver/src/beta.rs | 49 +++++++++++++-----------------------
 classical_solver/src/sa.rs   |  2 +-
 3 files changed, 23 insertions(+), 38 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..978267c 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -27,10 +27,10 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	}
 }
 
-pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
+pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real, B: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[B],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -48,16 +48,16 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 			energy_diffs[i] += unsafe { calculate_flip_cost(node, &prod, &state, i) } * weight;
 		}
 	}
-	for beta in beta_schedule.iter() {
+	for beta in beta_schedule.iter().map(|beta| beta.as_f64()) {
 		for _ in 0..sweeps_per_round {
-			let threshold = 44.36142 / beta.as_f64();
+			let threshold = 44.36142 / beta;
 			for i in 0..state.len() {
 				let ed = energy_diffs[i];
 				if ed.as_f64() > threshold {
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-ed.as_f64() * beta) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..db5a9cc 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,37 +23,22 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
-	macro_rules! nan_or_min {
-		() => {
-			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
-		};
-	}
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	let node = model.node();
-	let ndiff = node.get_value(true) - node.get_value(false);
-	let eg_min = model
-		.prods()
-		.into_iter()
-		.map(|p| model.get_weight(&p).abs())
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+	let ndiff = node.get_value(true).as_f64() - node.get_value(false).as_f64();
+	let weight = |p| model.get_weight(&p).as_f64().abs();
+	let eg_min = model.prods().into_iter().map(weight).fold(0.0, f64::max);
 	let eg_max = model
 		.nodes()
 		.into_iter()
-		.map(|n| {
-			model
-				.neighbors(n)
-				.into_iter()
-				.map(|p| model.get_weight(&p).abs())
-				.sum()
-		})
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
-	if eg_max.is_finite() && eg_min.is_finite() {
-		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
-		)
+		.map(|n| model.neighbors(n).into_iter().map(weight).sum())
+		.fold(0.0, f64::max);
+	let min = f64::ln(2.0) / (ndiff * eg_max);
+	let max = f64::ln(100.0) / (ndiff * eg_min);
+	if min.is_normal() && max.is_normal() {
+		(min, max)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
@@ -63,12 +48,12 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,9 +62,9 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
+	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..795b297 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -19,7 +19,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
-- 
2.43.0


From 720eb7b5f7465c40e6c1bd677dbbf7ecc59c76cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 14/18] fix: do not generate a NaN beta for a schedule of a
 single round

---
 classical_solver/src/beta.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index db5a9cc..2f54f94 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -63,7 +63,10 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
-	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
+	let r = match count {
+		0 | 1 => 0.0,
+		_ => f64::ln(beta_max / beta_min) / (count as f64 - 1.0),
+	};
 	(0..count)
 		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
-- 
2.43.0


From 3f2527a52dcb6b060b2362fc5b2f961268ed6c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:03 +0000
Subject: [PATCH 15/18] fix: anneal models whose node numbers have gaps

---
 classical_solver/src/algo.rs | 4 ++--
 classical_solver/src/sa.rs   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 978267c..6807c5e 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -34,8 +34,8 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	sweeps_per_round: usize,
 	model: &P,
 ) {
-	assert!(state.len() == model.size());
-	let size = model.size();
+	assert!(model.nodes().into_iter().all(|node| node < state.len()));
+	let size = state.len();
 	let node = model.node();
 	let mut energy_diffs = std::iter::repeat(<<P::Node as Node>::RealType as Default>::default())
 		.take(size)
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 795b297..d6e7a36 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -75,7 +75,9 @@ impl<'a, R: Real, P: SingleModelView<Node = Binary<R>> + Send + Sync> ClassicalS
 		&self,
 		r: &mut T,
 	) -> Result<Vec<SingleSolution<P::Node>>, NoneError> {
-		let mut state = BinaryRepr::new_random(self.model.size(), r);
+		let nodes = self.model.nodes().into_iter();
+		let len = nodes.max().map_or(0, |node| node + 1);
+		let mut state = BinaryRepr::new_random(len, r);
 		// let mut state = BinaryRepr::from_vec(&vec![true, false, true]);
 		simulated_annealing(
 			r,
-- 
2.43.0


From ae3c3186a71adb026e6ce2e13ca4ea35f428ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 16/18] fix: refuse a BinaryRepr length that wraps around

new_random(usize::MAX) made an empty buffer with a length of usize::MAX in
release builds, so every get() read out of bounds.
---
 annealers/src/repr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/repr.rs b/annealers/src/repr.rs
index 2088776..217b61b 100644
--- a/annealers/src/repr.rs
+++ b/annealers/src/repr.rs
@@ -21,7 +21,7 @@ impl BinaryRepr {
 	/// Given len is less than len()
 	#[inline]
 	pub unsafe fn with_len_unchecked(len: usize) -> Self {
-		let size = (len + BYTESIZE - 1) / BYTESIZE;
+		let size = len.checked_add(BYTESIZE - 1).expect("too many values") / BYTESIZE;
 		Self {
 			state: vec![0; size],
 			len,
-- 
2.43.0


From 9f0b89488fb2f6b77ace3d8ef2821d3e84a1ade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 17/18] fix: refuse a dense model whose number of pairs wraps
 around

FixedSingleQuadricModel::new(usize::MAX) made an empty matrix in release
builds, and get_weight() read out of its bounds.
---
 annealers/src/model.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index 04ca661..a0c0163 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -224,11 +224,12 @@ pub struct FixedSingleQuadricModel<NodeType: SingleNode> {
 
 impl<M: SingleNode> FixedSingleQuadricModel<M> {
 	pub fn new(node: M, size: usize) -> Self {
+		let pairs = size.checked_add(1).and_then(|n| n.checked_mul(size));
 		Self {
 			size,
 			node,
 			matrix: std::iter::repeat(<M::RealType as Default>::default())
-				.take(size * (size + 1) / 2)
+				.take(pairs.expect("too many nodes") / 2)
 				.collect(),
 		}
 	}
-- 
2.43.0


From 07962487655c317dbba28163259f8ed6cacdd848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:22 +0000
Subject: [PATCH 18/18] fix: do not trust a model's products for unchecked
 access

SingleModelView is a safe trait, so a product or neighbour may name a node
that is not in nodes(); annealing such a model read out of bounds.
---
 classical_solver/src/algo.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 6807c5e..5728c3e 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -6,7 +6,7 @@ use annealers::variable::Real;
 use rand::prelude::*;
 
 #[inline]
-unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
+fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 	node: &M,
 	prod: &S,
 	state: &BinaryRepr,
@@ -16,11 +16,11 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 		if i == index {
 			p
 		} else {
-			p * node.get_value(state.get_unchecked(i))
+			p * node.get_value(state.get(i))
 		}
 	});
 	let d = node.get_value(false) - node.get_value(true);
-	if state.get_unchecked(index) {
+	if state.get(index) {
 		d * term
 	} else {
 		-d * term
@@ -45,7 +45,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	for prod in model.prods() {
 		let weight = model.get_weight(&prod);
 		for i in prod.iter() {
-			energy_diffs[i] += unsafe { calculate_flip_cost(node, &prod, &state, i) } * weight;
+			energy_diffs[i] += calculate_flip_cost(node, &prod, &state, i) * weight;
 		}
 	}
 	for beta in beta_schedule.iter().map(|beta| beta.as_f64()) {
@@ -69,7 +69,7 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 							let weight = model.get_weight(&neigh);
 							for j in neigh.iter() {
 								if i != j {
-									if stat != unsafe { state.get_unchecked(j) } {
+									if stat != state.get(j) {
 										energy_diffs[j] += dd * weight;
 									} else {
 										energy_diffs[j] -= dd * weight;
-- 
2.43.0


//! A01 - A07: the building blocks of the annealers crate.
use crate::det::mix;
use crate::num::*;
use crate::run::*;
use crate::tree::Digits;
use crate::with_type;
use annealers::model::{FixedSingleModelView, FixedSingleQuadricModel, ModelView, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::solver::*;
use annealers::variable::*;
use rand::RngCore;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn panics(f: impl FnOnce()) -> bool {
	catch_unwind(AssertUnwindSafe(f)).is_err()
}

/// A generator with a visible state.
#[derive(Clone)]
pub struct MixRng(pub u64, pub u64);
impl RngCore for MixRng {
	fn next_u32(&mut self) -> u32 {
		self.next_u64() as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.1 += 1;
		mix(self.0.wrapping_add(mix(self.1)))
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		for b in dest {
			*b = (self.next_u64() >> 30) as u8;
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

/// Always the same bits.
struct Flat(u8);
impl RngCore for Flat {
	fn next_u32(&mut self) -> u32 {
		u32::from_le_bytes([self.0; 4])
	}
	fn next_u64(&mut self) -> u64 {
		u64::from_le_bytes([self.0; 8])
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		for b in dest {
			*b = self.0;
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

// ---------------------------------------------------------------- A01

fn a01_observe(r: &mut BinaryRepr, v: &[bool], refuse: bool) -> Result<(), String> {
	let fail = |what: &str, got: String| Err(format!("{} is {} for the state {:?}", what, got, v.iter().map(|b| *b as u8).collect::<Vec<_>>()));
	if r.len() != v.len() {
		return fail("len()", r.len().to_string());
	}
	if r.is_empty() != v.is_empty() {
		return fail("is_empty()", r.is_empty().to_string());
	}
	for i in 0..v.len() {
		if r.get(i) != v[i] {
			return fail(&format!("get({})", i), r.get(i).to_string());
		}
		if r[i] != v[i] {
			return fail(&format!("[{}]", i), r[i].to_string());
		}
		// SAFETY: in range
		if unsafe { r.get_unchecked(i) } != v[i] {
			return fail(&format!("get_unchecked({})", i), "wrong".to_string());
		}
	}
	if r.to_vec() != v {
		return fail("to_vec()", format!("{:?}", r.to_vec()));
	}
	let mut it = r.iter();
	let mut w = Vec::new();
	for b in it.by_ref().take(v.len() + 3) {
		w.push(b);
	}
	if w != v {
		return fail("iter()", format!("{:?}", w));
	}
	if it.next().is_some() || it.next().is_some() {
		return fail("iter() after the end", "not None".to_string());
	}
	if format!("{:?}", r) != format!("{:?}", v) {
		return fail("Debug", format!("{:?}", r));
	}
	if refuse {
		for i in [v.len(), v.len() + 1, v.len() + 7, v.len() + 8, usize::MAX / 2, usize::MAX] {
			for op in 0..5 {
				let ok = panics(|| match op {
					0 => drop(r.get(i)),
					1 => r.set(i, true),
					2 => r.set(i, false),
					3 => r.flip(i),
					_ => { std::hint::black_box(r[i]); }
				});
				if !ok {
					return fail(&format!("position {} under operation {} (get, set, set, flip, [])", i, op), "accepted".to_string());
				}
			}
		}
		if r.to_vec() != v {
			return fail("the state after refused operations", format!("{:?}", r.to_vec()));
		}
	}
	Ok(())
}

/// every single operation from a given concrete state
fn a01_steps(make: &dyn Fn() -> BinaryRepr, v: &[bool], refuse: bool, ctx: &mut Ctx) -> Result<(), String> {
	let mut r = make();
	a01_observe(&mut r, v, refuse)?;
	let n = v.len();
	for i in 0..n {
		for op in 0..5 {
			let mut r = make();
			let mut w = v.to_vec();
			match op {
				0 | 1 => {
					w[i] = op == 1;
					r.set(i, op == 1);
				}
				2 => {
					w[i] = !w[i];
					r.flip(i);
				}
				3 => {
					w[i] = !w[i];
					// SAFETY: in range
					unsafe { r.flip_unchecked(i) };
				}
				_ => {
					w[i] = !w[i];
					unsafe { r.set_unchecked(i, w[i]) };
				}
			}
			a01_observe(&mut r, &w, false).map_err(|e| format!("after operation {} at {} of {}: {}", op, i, n, e))?;
			// a clone is its own state
			let mut c = r.clone();
			c.flip(i);
			a01_observe(&mut r, &w, false).map_err(|e| format!("after changing a clone: {}", e))?;
			let mut back = w.clone();
			back[i] = !back[i];
			a01_observe(&mut c, &back, false).map_err(|e| format!("a changed clone: {}", e))?;
			ctx.states += 1;
			ctx.transitions += 2;
			ctx.traces += 1;
		}
	}
	ctx.states += 1;
	ctx.traces += 1;
	if n > 0 {
		ctx.nontrivial += 1;
	}
	ctx.outcome_of(&v.iter().filter(|b| **b).count());
	Ok(())
}

pub fn a01(thorough: bool) -> Property {
	let mut f = Vec::new();
	for n in 0..=if thorough { 13usize } else { 10 } {
		f.push(family(&format!("every state of {} bits, every operation", n), 1 << n, move |i, ctx| {
			let v: Vec<bool> = (0..n).map(|k| i >> k & 1 == 1).collect();
			a01_steps(&|| BinaryRepr::from_vec(&v), &v, i < 16, ctx)?;
			ctx.nontrivial += 1;
			// through a solution
			let s: SingleSolution<Binary<i32>> = SingleSolution::from_vec(&v);
			if s.len() != n || (0..n).any(|k| s.get(k) != v[k] || s[k] != v[k] || unsafe { s.get_unchecked(k) } != v[k]) {
				return Err(format!("a solution of {:?} holds {:?}", v, s.state));
			}
			if i < 4 && (!panics(|| { std::hint::black_box(s.get(n)); }) || !panics(|| { std::hint::black_box(s[n]); })) {
				return Err(format!("a solution of {} bits answers for bit {}", n, n));
			}
			ctx.sample(|| format!("{:?}", v));
			Ok(())
		}).chunk(32));
	}
	// the last byte has unused bits: random states fill them
	f.push(family("random states, every operation", 41 * 24, move |i, ctx| {
		let (n, seed) = ((i / 24) as usize, i % 24);
		let make = || BinaryRepr::new_random(n, &mut MixRng(seed, 0));
		let v = make().to_vec();
		if v.len() != n {
			return Err(format!("a random state of {} bits has {}", n, v.len()));
		}
		if make().to_vec() != v {
			return Err(format!("equal generators give different states of {} bits", n));
		}
		ctx.nontrivial += 1;
		a01_steps(&make, &v, seed == 0, ctx)?;
		let make = || BinaryRepr::new_random(n, &mut Flat(if seed % 2 == 0 { 255 } else { 0 }));
		let v = make().to_vec();
		a01_steps(&make, &v, seed == 1, ctx)
	}).chunk(8));
	f.push(family("what random states are made of", 140, move |n, ctx| {
		let n = n as usize;
		let all: Vec<Vec<bool>> = (0..64).map(|s| BinaryRepr::new_random(n, &mut MixRng(s * 7919, 0)).to_vec()).collect();
		for k in 0..n {
			if all.iter().all(|v| v[k]) || !all.iter().any(|v| v[k]) {
				return Err(format!("bit {} of {} is the same for 64 generators", k, n));
			}
			for j in 0..k {
				if all.iter().all(|v| v[j] == v[k]) || all.iter().all(|v| v[j] != v[k]) {
					return Err(format!("bits {} and {} of {} are tied for 64 generators", j, k, n));
				}
			}
		}
		let (a, b) = (BinaryRepr::new_random(n, &mut Flat(0)).to_vec(), BinaryRepr::new_random(n, &mut Flat(255)).to_vec());
		if a.iter().zip(&b).any(|(x, y)| x == y) {
			return Err(format!("some bit of {} does not come from the generator", n));
		}
		ctx.states += 66;
		ctx.transitions += 66;
		ctx.traces += 66;
		ctx.nontrivial += 1;
		Ok(())
	}).chunk(4));
	let sizes = [11usize, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 1000];
	f.push(family("long states, every operation", sizes.len() as u64 * 6, move |i, ctx| {
		let n = sizes[i as usize / 6];
		let v: Vec<bool> = (0..n)
			.map(|k| match i % 6 {
				0 => false,
				1 => true,
				2 => k % 2 == 0,
				3 => k % 8 == 7,
				4 => k == n - 1,
				_ => mix(k as u64) & 1 == 1,
			})
			.collect();
		a01_steps(&|| BinaryRepr::from_vec(&v), &v, true, ctx)
	}).chunk(1));
	let huge = [2047usize, 2049, 4096, 8191, 65535, 65536, 65537, 131073, 1 << 20];
	f.push(family("very long states, at the ends and around powers of two", 9 * 4, move |i, ctx| {
		let n = huge[i as usize / 4];
		let v: Vec<bool> = (0..n).map(|k| match i % 4 { 0 => false, 1 => true, 2 => k % 3 == 0, _ => mix(k as u64) & 1 == 1 }).collect();
		let mut at: Vec<usize> = (0..21).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1, n.saturating_sub(1 << p)]).filter(|k| *k < n).collect();
		at.extend((0..n).step_by(n / 7));
		at.sort();
		at.dedup();
		let base = BinaryRepr::from_vec(&v);
		let check = |b: &BinaryRepr, w: &[bool], what: &str| {
			ctx_check(b, w).map_err(|m| format!("{} bits of kind {}, {}: {}", n, i % 4, what, m))
		};
		fn ctx_check(b: &BinaryRepr, w: &[bool]) -> Result<(), String> {
			if b.len() != w.len() || b.to_vec() != w {
				return Err(format!("differs first at {:?}", b.to_vec().iter().zip(w).position(|(x, y)| x != y)));
			}
			if b.iter().count() != w.len() || b.iter().zip(w).any(|(x, y)| x != *y) {
				return Err("iterates otherwise".to_string());
			}
			match w.iter().enumerate().position(|(k, x)| b.get(k) != *x || b[k] != *x) {
				Some(k) => Err(format!("bit {} is {}", k, b.get(k))),
				None => Ok(()),
			}
		}
		check(&base, &v, "unchanged")?;
		let mut one = base.clone();
		let mut w = v.clone();
		for (j, k) in at.into_iter().enumerate() {
			match j % 3 {
				0 => one.flip(k),
				1 => one.set(k, !w[k]),
				_ => unsafe { one.flip_unchecked(k) },
			}
			w[k] = !w[k];
			ctx.transitions += 1;
			if n < 10000 || j % 16 == 0 {
				check(&one, &w, &format!("changed up to {}", k))?;
				ctx.states += 1;
			}
		}
		check(&one, &w, "changed")?;
		if format!("{:?}", one) != format!("{:?}", w) {
			return Err(format!("{} bits of kind {}: prints otherwise", n, i % 4));
		}
		check(&base, &v, "after its copy was changed")?;
		ctx.traces += 1;
		ctx.nontrivial += 1;
		ctx.outcome_of(&i);
		Ok(())
	}).chunk(1));
	// sequences
	let depth = if thorough { 6 } else { 5 };
	f.push(family(&format!("all sequences of {} operations on 1 to 3 bits", depth), 3 * 8 * 10u64.pow(depth), move |i, ctx| {
		let mut d = Digits(i);
		let n = 1 + d.next(3);
		let mut v: Vec<bool> = (0..3).map(|_| d.next(2) == 1).collect();
		if v[n..].iter().any(|b| *b) {
			return Ok(());
		}
		v.truncate(n);
		let mut r = BinaryRepr::from_vec(&v);
		for _ in 0..depth {
			let op = d.next(10);
			let k = op % 3;
			if op < 9 && k >= n {
				return Ok(());
			}
			match op / 3 {
				0 => {
					r.set(k, false);
					v[k] = false;
				}
				1 => {
					r.set(k, true);
					v[k] = true;
				}
				2 => {
					r.flip(k);
					v[k] = !v[k];
				}
				_ => r = BinaryRepr::from_vec(&r.clone().to_vec()),
			}
			ctx.transitions += 1;
		}
		ctx.states += 1;
		ctx.traces += 1;
		ctx.nontrivial += 1;
		a01_observe(&mut r, &v, false)
	}).chunk(8192));
	Property {
		id: "A01",
		rule: "A state is one concrete state of the bit vector, whose every observer is compared with a Vec<bool>; a transition is one operation; an execution is one run from construction to comparison. One step of every operation from every concrete state, including the unused bits of the last byte, extends to all sequences; sequences are also run. Non-trivial: at least one bit.",
		bounds: "every state of at most 10 (thorough 13) bits, patterned and random states to 1000 bits, every operation at every position, and to 2^20 bits at the ends and around powers of two; all sequences of 5 (thorough 6) operations on at most 3 bits; positions len, len+1, len+7, len+8, huge are refused",
		assumptions: vec![],
		families: f,
	}
}

// ---------------------------------------------------------------- A02, A03

/// Compare a model with a map from products to weights.
pub fn same_model<P: SingleModelView>(
	m: &P,
	nodes: &BTreeSet<usize>,
	map: &BTreeMap<Vec<usize>, <P::Node as SingleNode>::RealType>,
	probe: &[usize],
) -> Result<(), String>
where
	<P::Node as SingleNode>::RealType: Num,
{
	let got: Vec<usize> = m.nodes().into_iter().take(nodes.len() + 2).collect();
	if got != nodes.iter().cloned().collect::<Vec<_>>() {
		return Err(format!("nodes() is {:?}, not {:?}", got, nodes));
	}
	if SingleModelView::size(m) != nodes.len() || ModelView::size(m) != nodes.len() {
		return Err(format!("size() is {} for {:?}", SingleModelView::size(m), nodes));
	}
	let mut seen = BTreeSet::new();
	for p in m.prods().into_iter().take(map.len() + 2) {
		let k: Vec<usize> = p.iter().collect();
		if !seen.insert(k.clone()) {
			return Err(format!("product {:?} is listed twice", k));
		}
		let Some(w) = map.get(&k) else {
			return Err(format!("product {:?} is listed but is none of {:?}", k, map.keys()));
		};
		let g = m.get_weight(&p);
		if !g.close(*w) {
			return Err(format!("weight of {:?} is {}, not {}", k, g, w));
		}
		// SAFETY: listed
		if !unsafe { m.get_weight_unchecked(&p) }.close(*w) {
			return Err(format!("unchecked weight of {:?} is not {}", k, w));
		}
	}
	if seen.len() != map.len() {
		let missing: Vec<_> = map.keys().filter(|k| !seen.contains(*k)).collect();
		return Err(format!("products {:?} are not listed", missing));
	}
	for u in probe {
		let mut ns = BTreeSet::new();
		for p in m.neighbors(*u).into_iter().take(map.len() + 2) {
			let k: Vec<usize> = p.iter().collect();
			if !ns.insert(k.clone()) {
				return Err(format!("neighbour {:?} of {} is listed twice", k, u));
			}
		}
		let want: BTreeSet<Vec<usize>> = map.keys().filter(|k| k[..].contains(u)).cloned().collect();
		if ns != want {
			return Err(format!("neighbours of {} are {:?}, not {:?}", u, ns, want));
		}
	}
	Ok(())
}

fn dense_map<R: Num>(n: usize) -> BTreeMap<Vec<usize>, R> {
	let mut m = BTreeMap::new();
	for i in 0..n {
		m.insert(vec![i], R::int(0));
		for j in 0..i {
			m.insert(vec![j, i], R::int(0));
		}
	}
	m
}

fn a02_run<R: Num>(n: usize, ops: &[(usize, usize, R)], ctx: &mut Ctx) -> Result<(), String> {
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), n);
	let mut map = dense_map::<R>(n);
	let nodes: BTreeSet<usize> = (0..n).collect();
	let probe: Vec<usize> = (0..n).collect();
	let mut copy = None;
	for (k, (i, j, w)) in ops.iter().enumerate() {
		if *i >= n || *j >= n {
			if !panics(|| m.add_weight(*i, *j, *w)) {
				return Err(format!("add_weight({}, {}) is accepted by a model of {}", i, j, n));
			}
			continue;
		}
		m.add_weight(*i, *j, *w);
		let key = if i == j { vec![*i] } else { vec![*i.min(j), *i.max(j)] };
		let e = map.get_mut(&key).unwrap();
		*e = *e + *w;
		if k == ops.len() / 2 {
			copy = Some((m.clone(), map.clone()));
		}
		ctx.transitions += 1;
	}
	ctx.states += 1;
	ctx.traces += 1;
	ctx.nontrivial += 1;
	same_model(&m, &nodes, &map, &probe)?;
	if let Some((m, map)) = copy {
		same_model(&m, &nodes, &map, &[]).map_err(|e| format!("clone: {}", e))?;
	}
	for i in 0..n {
		for j in i..n {
			let w = map[&if i == j { vec![i] } else { vec![i, j] }];
			if !FixedSingleModelView::get_weight(&m, &[i, j]).close(w) {
				return Err(format!("get_weight([{}, {}]) is {}, not {}", i, j, FixedSingleModelView::get_weight(&m, &[i, j]), w));
			}
		}
	}
	for p in [[0, n], [n, n], [n, n + 1], [0, usize::MAX]] {
		if !panics(|| drop(FixedSingleModelView::get_weight(&m, &p))) {
			return Err(format!("get_weight({:?}) is answered by a model of {}", p, n));
		}
	}
	if FixedSingleModelView::size(&m) != n || SingleModelView::order(&m).order() != 2 {
		return Err("wrong size or order".to_string());
	}
	ctx.outcome_of(&format!("{:?}", map));
	Ok(())
}

pub fn a02(thorough: bool) -> Property {
	let mut f = Vec::new();
	for (n, depth) in [(1usize, 6u32), (2, 4), (3, if thorough { 4 } else { 3 }), (4, if thorough { 3 } else { 2 })] {
		// all index pairs, and one refused pair
		let base = (n * n * 2 + 2) as u64;
		f.push(family(&format!("sequences of {} additions to {} variables", depth, n), base.pow(depth), move |i, ctx| {
			let mut d = Digits(i);
			fn go<R: Num>(n: usize, depth: u32, d: &mut Digits, ctx: &mut Ctx) -> Result<(), String> {
				let ops: Vec<(usize, usize, R)> = (0..depth)
					.map(|_| {
						let k = d.next(n * n * 2 + 2);
						if k >= n * n * 2 {
							return if k % 2 == 0 { (n, 0, R::int(1)) } else { (0, n, R::int(1)) };
						}
						(k / 2 / n, k / 2 % n, if k % 2 == 0 { R::half(3) } else { R::int(-2) })
					})
					.collect();
				a02_run(n, &ops, ctx)
			}
			if i % 2 == 0 {
				go::<i32>(n, depth, &mut d, ctx)
			} else {
				go::<f64>(n, depth, &mut d, ctx)
			}
		}).chunk(256));
	}
	f.push(family("every pair alone, sizes to 24", 25 * 7, move |i, ctx| {
		let n = (i / 7) as usize;
		fn go<R: Num>(n: usize, ctx: &mut Ctx) -> Result<(), String> {
			a02_run::<R>(n, &[], ctx)?;
			let mut all = Vec::new();
			for i in 0..n {
				for j in 0..n {
					a02_run::<R>(n, &[(i, j, R::int(5))], ctx)?;
					all.push((i, j, R::int(((i * 7 + j) % 5) as i32 - 2)));
				}
			}
			a02_run(n, &all, ctx)?;
			all.reverse();
			a02_run(n, &all, ctx)
		}
		with_type!((i % 7) as usize, R, go::<R>(n, ctx))
	}).chunk(1));
	// the listings alone
	f.push(family("listings of large sizes", 22, move |i, ctx| {
		let n = [129usize, 255, 256, 257, 258, 300, 511, 512, 513, 514, 700, 1000, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 3000, 4097][i as usize];
		let m = FixedSingleQuadricModel::new(Binary::<i8>::new(), n);
		let total = n * (n + 1) / 2;
		let mut seen = vec![false; total];
		let mut count = 0;
		for p in SingleModelView::prods(&m).into_iter().take(total + 1) {
			if p[0] > p[1] || p[1] >= n || std::mem::replace(&mut seen[p[1] * (p[1] + 1) / 2 + p[0]], true) {
				return Err(format!("products of size {} hold {:?} wrongly or twice", n, p));
			}
			count += 1;
		}
		ctx.states += count as u64;
		ctx.transitions += count as u64;
		ctx.traces += 1;
		if count != total {
			return Err(format!("size {} has {} products", n, count));
		}
		ctx.nontrivial += 1;
		Ok(())
	}).chunk(1));
	f.push(family("neighbours in large sizes", 22, move |i, ctx| {
		let n = [65537usize, 32769, 20000, 10000, 4097, 4096, 2048, 1025, 1024, 1000, 700, 513, 512, 511, 300, 257, 256, 255, 129, 128, 127, 65][i as usize];
		let m = FixedSingleQuadricModel::new(Binary::<i8>::new(), n);
		let us: Vec<usize> = if n > 1100 {
			let mut v: Vec<usize> = [0, 1, 2, 62, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 32767, 32768, 65535, 65536, n / 2, n - 2, n - 1].iter().cloned().filter(|u| *u < n).collect();
			v.dedup();
			v
		} else {
			(0..n).collect()
		};
		for u in us {
			let mut seen = vec![false; n];
			for p in SingleModelView::neighbors(&m, u).into_iter().take(n + 1) {
				let v = if p[0] == u { p[1] } else { p[0] };
				if !NodeSet::contains(&p, u) || p[0] > p[1] || v >= n || seen[v] {
					return Err(format!("neighbours of {} in size {} hold {:?}", u, n, p));
				}
				seen[v] = true;
			}
			if let Some(v) = seen.iter().position(|s| !*s) {
				return Err(format!("neighbours of {} in size {} lack {}", u, n, v));
			}
			ctx.states += 1;
			ctx.transitions += n as u64;
			ctx.traces += 1;
			ctx.nontrivial += 1;
		}
		Ok(())
	}).chunk(1));
	f.push(family("large sizes", 12, move |i, ctx| {
		let n = [31usize, 32, 33, 63, 64, 65, 100, 150, 257, 300, 513, 520][i as usize];
		let all: Vec<(usize, usize, i64)> = (0..n).flat_map(|a| (0..n).map(move |b| (a, b, (a * 1000 + b) as i64))).collect();
		a02_run(n, &all, ctx)
	}).chunk(1));
	Property {
		id: "A02",
		rule: "A state is one model reached by a sequence of additions (refused ones included), compared through every observer with a map; a transition is one addition; an execution is one sequence. Non-trivial: every sequence.",
		bounds: "all sequences of 6/4/3/2 additions to 1/2/3/4 variables with two weights (thorough one deeper), every pair alone for sizes 0 to 24 in seven types, full models of sizes to 520, product listings of sizes to 4097 and neighbour listings of sizes to 65537",
		assumptions: vec!["products are asked for with their indices in ascending order, as the type documents".to_string()],
		families: f,
	}
}

pub trait Key: NodeSet {
	fn key(v: &[usize]) -> Self;
}
impl Key for [usize; 2] {
	fn key(v: &[usize]) -> Self {
		Self::from_vec(v.to_vec()).unwrap()
	}
}
impl Key for BTreeSet<usize> {
	fn key(v: &[usize]) -> Self {
		Self::from_vec(v.to_vec()).unwrap()
	}
}

fn a03_run<O: Order + 'static, R: Num>(o: O, ops: &[(Vec<usize>, R)], probe: &[usize], ctx: &mut Ctx) -> Result<(), String>
where
	O::NodeSetType: Key,
{
	let mut m = SingleModel::new(Binary::<R>::new(), o);
	let mut map: BTreeMap<Vec<usize>, R> = BTreeMap::new();
	let mut copies = vec![(m.clone(), map.clone())];
	for (k, w) in ops {
		m.add_weight(O::NodeSetType::key(k), *w);
		let mut k = k.clone();
		k.sort_unstable();
		let e = map.entry(k).or_insert(R::int(0));
		*e = *e + *w;
		copies.push((m.clone(), map.clone()));
		ctx.transitions += 1;
	}
	copies.push((m, map));
	// every clone still shows the moment it was taken
	for (m, map) in &copies {
		let nodes: BTreeSet<usize> = map.keys().flatten().cloned().collect();
		same_model(m, &nodes, map, probe)?;
		ctx.states += 1;
	}
	ctx.traces += 1;
	ctx.nontrivial += 1;
	ctx.outcome_of(&format!("{:?}", copies.last().unwrap().1));
	Ok(())
}

pub fn a03(thorough: bool) -> Property {
	let mut f = Vec::new();
	let depth = if thorough { 5 } else { 4 };
	let keys: Vec<Vec<usize>> = vec![vec![0], vec![7], vec![0, 7], vec![7, 0], vec![2, 7], vec![1000]];
	let k2 = keys.clone();
	f.push(family(&format!("sequences of {} pairs", depth), 12u64.pow(depth), move |i, ctx| {
		let mut d = Digits(i);
		let ops: Vec<(Vec<usize>, i32)> = (0..depth).map(|_| (d.pick(&k2).clone(), [1, -1][d.next(2)])).collect();
		if i % 2 == 0 {
			a03_run(Quadric, &ops, &[0, 1, 2, 7, 1000], ctx)
		} else {
			let ops: Vec<(Vec<usize>, f64)> = ops.into_iter().map(|(k, w)| (k, w as f64 * 0.75)).collect();
			a03_run(Quadric, &ops, &[0, 1, 2, 7, 1000], ctx)
		}
	}).chunk(128));
	let keys: Vec<Vec<usize>> = vec![vec![0], vec![3, 0], vec![5, 0, 3], vec![3, 5, 0], vec![9, 5, 3, 0], vec![0, 3]];
	f.push(family(&format!("sequences of {} products of any order", depth), 12u64.pow(depth), move |i, ctx| {
		let mut d = Digits(i);
		let ops: Vec<(Vec<usize>, f64)> = (0..depth).map(|_| (d.pick(&keys).clone(), [2.0, -2.0][d.next(2)])).collect();
		a03_run(HighOrder::new(4), &ops, &[0, 3, 4, 5, 9], ctx)
	}).chunk(128));
	f.push(family("every set of pairs over four variables with gaps, all types", 1024 * 7 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let ty = d.next(7);
		let rev = d.next(2);
		let vs = [3usize, 0, 64, usize::MAX];
		let mut ks: Vec<Vec<usize>> = Vec::new();
		for a in 0..4 {
			for b in 0..=a {
				if d.next(2) == 1 {
					ks.push(if a == b { vec![vs[a]] } else { vec![vs[a], vs[b]] });
				}
			}
		}
		if rev == 1 {
			ks.reverse();
		}
		fn go<R: Num>(ks: &[Vec<usize>], ctx: &mut Ctx) -> Result<(), String> {
			let ops: Vec<(Vec<usize>, R)> = ks.iter().enumerate().map(|(n, k)| (k.clone(), R::int(n as i32 - 4))).collect();
			a03_run(Quadric, &ops, &[0, 3, 64, 65, usize::MAX], ctx)
		}
		with_type!(ty, R, go::<R>(&ks, ctx))
	}).chunk(64));
	f.extend(crate::p_size::a03());
	Property {
		id: "A03",
		rule: "A state is one model, or clone of a model, reached by a sequence of additions, compared through every observer with a map; a transition is one addition; an execution is one sequence. Non-trivial: every sequence.",
		bounds: "all sequences of 4 (thorough 5) additions of 6 products with two weights, pairwise and of order up to 4; every set of pairs over four variables including usize::MAX, in two orders and seven types; up to 1025 variables, near and with gaps to 2^48, in five patterns, products of order up to 20",
		assumptions: vec!["the weight of a product that was never added is not asked for (the code refuses)".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- A04

fn a04_check<P: SingleModelView>(
	m: &P,
	map: &BTreeMap<Vec<usize>, <P::Node as SingleNode>::RealType>,
	len: usize,
	val: &dyn Fn(bool) -> <P::Node as SingleNode>::RealType,
	ctx: &mut Ctx,
) -> Result<(), String>
where
	<P::Node as SingleNode>::RealType: Num,
{
	type Rl<P> = <<P as SingleModelView>::Node as SingleNode>::RealType;
	let energy = |s: &[bool]| -> Rl<P> {
		let mut e = Rl::<P>::int(0);
		for (k, w) in map {
			let mut p = *w;
			for i in k {
				p = p * val(s[*i]);
			}
			e = e + p;
		}
		e
	};
	let vars: BTreeSet<usize> = map.keys().flatten().cloned().collect();
	let vars: Vec<usize> = vars.into_iter().collect();
	for a in 0..1u64 << vars.len() {
		for rest in [false, true] {
			let mut s = vec![rest; len];
			for (k, v) in vars.clone().into_iter().enumerate() {
				s[v] = a >> k & 1 == 1;
			}
			let e = energy(&s);
			let sol: SingleSolution<P::Node> = SingleSolution::from_vec(&s);
			let what = |n: &str, g: String| Err(format!("{} at {:?} is {} for {:?}", n, s, g, map));
			let g = sol.calculate_energy(m);
			if !g.close(e) {
				return what("energy", format!("{} instead of {}", g, e));
			}
			let f = sol.clone().calculate_local_field(m);
			if f.len() != len {
				return what("number of local fields", f.len().to_string());
			}
			for i in 0..len {
				let mut t = s.clone();
				t[i] = !t[i];
				let d = energy(&t) - e;
				if !f[i].close(d) {
					return what(&format!("local field of {}", i), format!("{} instead of {}", f[i], d));
				}
			}
			// together, in both orders
			let x = sol.clone().with_energy(m).with_local_field(m);
			let y = sol.clone().with_local_field(m).with_energy(m);
			for (z, n) in [(&x, "energy, then field"), (&y, "field, then energy")] {
				if z.state.to_vec() != s || z.occurrences != sol.occurrences || sol.state.to_vec() != s {
					return what(n, format!("changing the assignment to {:?}", z.state));
				}
				if !z.energy.map_or(false, |z| z.close(e)) {
					return what(n, format!("{:?} instead of {}", z.energy, e));
				}
				match &z.local_field {
					Some(v) if v.len() == len && v.iter().zip(&f).all(|(a, b)| a.close(*b)) => (),
					o => return what(n, format!("{:?}", o)),
				}
			}
			// what is there stays
			let mut p = sol.clone();
			let odd = Rl::<P>::int(111);
			p.energy = Some(odd);
			p.local_field = Some(vec![odd; len]);
			p.occurrences = 7;
			let p = p.with_energy(m).with_local_field(m);
			if p.energy != Some(odd) || p.local_field != Some(vec![odd; len]) || p.occurrences != 7 || p.calculate_energy(m) != odd || p.clone().calculate_local_field(m) != vec![odd; len] {
				return what("a solution that has energy and fields", "changed".to_string());
			}
			ctx.states += 1;
			ctx.transitions += 6;
			ctx.traces += 1;
		}
		if len == vars.len() {
			// no further positions
		}
	}
	if !vars.is_empty() {
		ctx.nontrivial += 1;
	}
	Ok(())
}

fn a04_kinds<R: Num>(
	kind: usize,
	f: &mut dyn FnMut(usize, &dyn Fn(bool) -> R) -> Result<(), String>,
) -> Result<(), String> {
	match kind {
		0 => f(0, &|b| R::int(b as i32)),
		1 => f(1, &|b| R::int(if b { 1 } else { -1 })),
		2 => f(2, &|b| R::int(if b { 3 } else { -2 })),
		3 => f(3, &|b| R::int(if b { 0 } else { 2 })),
		_ => f(4, &|b| R::half(if b { 1 } else { 3 })),
	}
}

fn a04_dense<R: Num>(kind: usize, n: usize, w: &[i32], ctx: &mut Ctx) -> Result<(), String> {
	let mut map = dense_map::<R>(n);
	for (x, k) in map.values_mut().zip(w.iter().cycle()) {
		*x = R::half(*k);
	}
	fn fill<M: SingleNode>(node: M, n: usize, map: &BTreeMap<Vec<usize>, M::RealType>) -> FixedSingleQuadricModel<M> {
		let mut m = FixedSingleQuadricModel::new(node, n);
		for (k, w) in map {
			m.add_weight(k[0], *k.last().unwrap(), *w);
		}
		m
	}
	a04_kinds::<R>(kind, &mut |k, val| match k {
		0 => a04_check(&fill(Binary::new(), n, &map), &map, n, val, ctx),
		1 => a04_check(&fill(Spin::new(), n, &map), &map, n, val, ctx),
		_ => a04_check(&fill(TwoVal::new(val(true), val(false)), n, &map), &map, n, val, ctx),
	})
}

fn a04_sparse<R: Num, O: Order + 'static>(kind: usize, o: O, ops: &[(Vec<usize>, i32)], len: usize, ctx: &mut Ctx) -> Result<(), String>
where
	O::NodeSetType: Key,
{
	let mut map: BTreeMap<Vec<usize>, R> = BTreeMap::new();
	for (k, w) in ops {
		let e = map.entry(k.clone()).or_insert(R::int(0));
		*e = *e + R::half(*w);
	}
	fn fill<M: SingleNode, O: Order + 'static>(node: M, o: O, map: &BTreeMap<Vec<usize>, M::RealType>) -> SingleModel<M, O>
	where
		O::NodeSetType: Key,
	{
		let mut m = SingleModel::new(node, o);
		for (k, w) in map {
			m.add_weight(O::NodeSetType::key(k), *w);
		}
		m
	}
	a04_kinds::<R>(kind, &mut |k, val| match k {
		0 => a04_check(&fill(Binary::new(), o.clone(), &map), &map, len, val, ctx),
		1 => a04_check(&fill(Spin::new(), o.clone(), &map), &map, len, val, ctx),
		_ => a04_check(&fill(TwoVal::new(val(true), val(false)), o.clone(), &map), &map, len, val, ctx),
	})
}

pub fn a04(thorough: bool) -> Property {
	let mut f = Vec::new();
	f.push(family("dense models of 0 to 3 variables", 5 * 4 * 729 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let kind = d.next(5);
		let n = d.next(4);
		let ty = d.next(2);
		let w: Vec<i32> = (0..6).map(|_| [0, 2, -6][d.next(3)]).collect();
		if ty == 0 {
			a04_dense::<i32>(kind, n, &w, ctx)
		} else {
			a04_dense::<f64>(kind, n, &w.iter().map(|x| x / 2).collect::<Vec<_>>(), ctx)
		}
	}).chunk(128));
	f.push(family("dense models of 4 and 5 variables", 5 * 2 * 7 * if thorough { 4096 } else { 64 }, move |i, ctx| {
		let mut d = Digits(i);
		let kind = d.next(5);
		let n = 4 + d.next(2);
		let ty = d.next(7);
		let w: Vec<i32> = (0..13).map(|k| [(k * k) % 5 - 2, 1][d.next(2)] * if ty == 5 { 1 } else { 2 }).collect();
		if ty == 5 && kind > 1 {
			return Ok(());
		}
		with_type!(ty, R, a04_dense::<R>(kind, n, &w, ctx))
	}).chunk(64));
	f.push(family("sparse models with gaps", 5 * 3u64.pow(6) * 2, move |i, ctx| {
		let mut d = Digits(i);
		let kind = d.next(5);
		let ty = d.next(2);
		let ks: [&[usize]; 6] = [&[1], &[4], &[9], &[1, 4], &[4, 9], &[1, 9]];
		let mut ops = Vec::new();
		for k in ks {
			match d.next(3) {
				0 => (),
				1 => ops.push((k.to_vec(), 4)),
				_ => ops.push((k.to_vec(), -6)),
			}
		}
		if ty == 0 {
			a04_sparse::<i64, _>(kind, Quadric, &ops, 10, ctx)
		} else {
			a04_sparse::<f64, _>(kind, Quadric, &ops, 12, ctx)
		}
	}).chunk(64));
	f.push(family("products of any order", 5 * 3u64.pow(7), move |i, ctx| {
		let mut d = Digits(i);
		let kind = d.next(5);
		let ks: [&[usize]; 7] = [&[0], &[0, 2], &[2, 3], &[0, 1, 2], &[1, 2, 3], &[0, 1, 2, 3], &[3]];
		let mut ops = Vec::new();
		for k in ks {
			match d.next(3) {
				0 => (),
				1 => ops.push((k.to_vec(), 4)),
				_ => ops.push((k.to_vec(), -2)),
			}
		}
		a04_sparse::<f64, _>(kind, HighOrder::new(4), &ops, 4, ctx)
	}).chunk(64));
	f.push(family("comparison by energy", 49 * 2, move |i, ctx| {
		let mut d = Digits(i);
		let vals = [None, Some(0.0), Some(-0.0), Some(1.5), Some(-2.0), Some(f64::INFINITY), Some(f64::NAN)];
		let (a, b) = (*d.pick(&vals), *d.pick(&vals));
		let mk = |e: Option<f64>, v: bool| {
			let mut s: SingleSolution<Binary<f64>> = SingleSolution::from_vec(&[v]);
			s.energy = e;
			s
		};
		let got = mk(a, true).compare_energy(&mk(b, false));
		let want = match (a, b) {
			(Some(a), Some(b)) => a.partial_cmp(&b),
			_ => None,
		};
		ctx.states += 1;
		ctx.traces += 1;
		ctx.transitions += 1;
		ctx.nontrivial += 1;
		if got != want {
			return Err(format!("comparing energies {:?} and {:?} gives {:?}", a, b, got));
		}
		let mki = |e: Option<i32>| {
			let mut s: SingleSolution<Spin<i32>> = SingleSolution::from_vec(&[]);
			s.energy = e;
			s
		};
		let iv = [None, Some(0), Some(1), Some(i32::MIN), Some(i32::MAX), Some(-7), Some(7)];
		let (a, b) = (iv[i as usize % 7], iv[i as usize / 7 % 7]);
		let want = a.and_then(|a| b.map(|b| a.cmp(&b)));
		if mki(a).compare_energy(&mki(b)) != want {
			return Err(format!("comparing energies {:?} and {:?} gives {:?}", a, b, mki(a).compare_energy(&mki(b))));
		}
		Ok(())
	}));
	f.extend(crate::p_size::a04());
	Property {
		id: "A04",
		rule: "A state is one (model, node kind, assignment), at which energy and every local field are compared with a direct sum over the products; a transition is one call of a calculation; an execution is one solution taken through all of them. Non-trivial: the model has a variable.",
		bounds: "all dense models of 0-3 variables with weights in {0,1,-3} (halves for floats), 896 (thorough 57344) of 4-5 in seven types, all sparse models over three gapped variables, all sets of 7 products of order up to 4, with binary, spin and three two-valued kinds; sparse and dense models of up to 1025 variables, products of order up to 130; weights times powers of two from 2^-1070 to 2^1000",
		assumptions: vec![],
		families: f,
	}
}

// ---------------------------------------------------------------- A05

fn hash_of<X: Hash>(x: &X) -> u64 {
	let mut h = DefaultHasher::new();
	x.hash(&mut h);
	h.finish()
}

pub fn a05_check<S: NodeSet>(perm: &[usize], set: &BTreeSet<usize>, fits: bool, name: &str, ctx: &mut Ctx) -> Result<(), String> {
	let sorted: Vec<usize> = set.iter().cloned().collect();
	let a = S::from_vec(perm.to_vec());
	let b = S::from_set(set.clone());
	// SAFETY: sorted
	let c = unsafe { S::from_vec_unchecked(sorted.clone()) };
	let d = S::from_it(sorted.clone());
	ctx.states += 1;
	ctx.transitions += 4;
	ctx.traces += 1;
	if !fits {
		if a.is_some() || b.is_some() || c.is_some() || d.is_some() {
			return Err(format!("{} is made of {:?}: {:?} {:?} {:?} {:?}", name, perm, a, b, c, d));
		}
		return Ok(());
	}
	let (Some(a), Some(b), Some(c), Some(d)) = (a, b, c, d) else {
		return Err(format!("{} refuses {:?}", name, perm));
	};
	for x in [&b, &c, &d] {
		if *x != a || hash_of(x) != hash_of(&a) {
			return Err(format!("{} of {:?} is {:?} or {:?} depending on how it is made", name, perm, a, x));
		}
	}
	for x in [&a, &b] {
		if x.iter().collect::<Vec<_>>() != sorted {
			return Err(format!("{} of {:?} lists {:?}", name, perm, x.iter().collect::<Vec<_>>()));
		}
		if x.len() != sorted.len() {
			return Err(format!("{} of {:?} has size {}", name, perm, x.len()));
		}
		let near = sorted.iter().flat_map(|n| [n, n.wrapping_add(1), n.wrapping_sub(1), n ^ (1 << 32), n as u32 as usize]);
		for n in near.chain([0, 1, 2, 3, 5, 64, usize::MAX - 1, usize::MAX]) {
			if NodeSet::contains(x, n) != set.contains(&n) {
				return Err(format!("{} of {:?} says {} for {}", name, perm, NodeSet::contains(x, n), n));
			}
		}
		if x.clone().into_vec() != sorted || x.clone().into_set() != *set {
			return Err(format!("{} of {:?} converts to {:?} and {:?}", name, perm, x.clone().into_vec(), x.clone().into_set()));
		}
		if S::from_vec(x.clone().into_vec()).as_ref() != Some(x) || S::from_set(x.clone().into_set()).as_ref() != Some(x) {
			return Err(format!("{} of {:?} does not survive conversion and back", name, perm));
		}
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&format!("{:?}", a));
	Ok(())
}

pub fn a05(thorough: bool) -> Property {
	let pool = [5usize, 0, 3, usize::MAX, 1, 1 << 32 | 4];
	let max = if thorough { 6 } else { 5 };
	let mut f = Vec::new();
	// all ordered selections of k out of the pool
	for k in 0..=max {
		let n = 6u64.pow(k as u32);
		f.push(family(&format!("all orders of {} variables", k), n, move |i, ctx| {
			let mut d = Digits(i);
			let v: Vec<usize> = (0..k).map(|_| *d.pick(&pool)).collect();
			let set: BTreeSet<usize> = v.clone().into_iter().collect();
			if set.len() != k {
				return Ok(());
			}
			ctx.nontrivial += 1;
			a05_check::<[usize; 2]>(&v, &set, k == 1 || k == 2, "a pair", ctx)?;
			a05_check::<BTreeSet<usize>>(&v, &set, true, "a set", ctx)?;
			a05_check::<Vec<usize>>(&v, &set, true, "a list", ctx)
		}));
	}
	f.push(family("all orders of pairs to 40", 41 * 41, move |i, ctx| {
		let (a, b) = ((i / 41) as usize, (i % 41) as usize);
		let set: BTreeSet<usize> = vec![a, b].into_iter().collect();
		let v = if a == b { vec![a] } else { vec![a, b] };
		a05_check::<[usize; 2]>(&v, &set, true, "a pair", ctx)?;
		a05_check::<BTreeSet<usize>>(&v, &set, true, "a set", ctx)?;
		a05_check::<Vec<usize>>(&v, &set, true, "a list", ctx)
	}));
	f.extend(crate::p_size::a05());
	Property {
		id: "A05",
		rule: "A state is one ordering of distinct variables for one representation; a transition is one construction; an execution is all constructions and conversions of it, compared. Non-trivial: the representation can hold it.",
		bounds: "all orderings of at most 5 (thorough 6) of the variables 0, 1, 3, 5, 64, usize::MAX in three representations; all pairs to 40; lists of up to 1025 in four orders",
		assumptions: vec!["lists of distinct variables".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- A06

type Q = FixedSingleQuadricModel<Binary<f64>>;
type Qi = FixedSingleQuadricModel<Binary<i16>>;

#[derive(Debug, PartialEq)]
struct Refused(u32);
impl std::fmt::Display for Refused {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "refused {}", self.0)
	}
}
impl std::error::Error for Refused {}

struct Own {
	size: Option<usize>,
	range: Option<(f64, f64)>,
	fail: Option<u32>,
	high: bool,
}
#[derive(Debug)]
struct OwnSolver(usize, usize);
impl Solver for OwnSolver {
	type ErrorType = Refused;
	type SolutionType = SingleSolution<Binary<f64>>;
}
impl<'a> SolverGenerator<'a, Q> for Own {
	type SolverType = OwnSolver;
	type ErrorType = Refused;
	fn value_range(&self) -> (f64, f64) {
		self.range.unwrap_or((f64::MIN, f64::MAX))
	}
	fn generate(&self, m: &'a Q) -> Result<OwnSolver, Refused> {
		match self.fail {
			Some(k) => Err(Refused(k)),
			None => Ok(OwnSolver(m as *const _ as usize, FixedSingleModelView::size(m))),
		}
	}
}
impl<'a> UnstructuredSolverGenerator<'a, Q> for Own {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		let _ = self.high;
		Quadric
	}
	fn size(&self) -> Option<usize> {
		self.size
	}
}

/// states neither range nor size
struct Silent;
#[derive(Debug)]
struct SilentSolver;
impl Solver for SilentSolver {
	type ErrorType = Refused;
	type SolutionType = SingleSolution<Binary<f64>>;
}
impl<'a> SolverGenerator<'a, Q> for Silent {
	type SolverType = SilentSolver;
	type ErrorType = Refused;
	fn generate(&self, _: &'a Q) -> Result<SilentSolver, Refused> {
		Ok(SilentSolver)
	}
}
impl<'a> UnstructuredSolverGenerator<'a, Q> for Silent {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<'a> SolverGenerator<'a, Qi> for Silent {
	type SolverType = SilentSolver;
	type ErrorType = Refused;
	fn generate(&self, _: &'a Qi) -> Result<SilentSolver, Refused> {
		Err(Refused(1))
	}
}
impl<'a> UnstructuredSolverGenerator<'a, Qi> for Silent {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}

fn a06_sized(n: usize, ctx: &mut Ctx) -> Result<(), String> {
	let g = Own { size: Some(n), range: None, fail: None, high: false }.into_structured();
	let nodes: Vec<usize> = g.nodes().take(n + 2).collect();
	if nodes != (0..n).collect::<Vec<_>>() {
		return Err(format!("size {}: nodes are {:?}", n, nodes));
	}
	for round in 0..2 {
		let mut it = g.prods();
		let mut seen = BTreeSet::new();
		let total = n * n.saturating_sub(1) / 2;
		for _ in 0..total {
			let Some(p) = it.next() else {
				return Err(format!("size {}: only {} of {} products are listed", n, seen.len(), total));
			};
			if p.len() != 2 || p.iter().any(|x| *x >= n) {
				return Err(format!("size {}: {:?} is listed as a product", n, p));
			}
			if !seen.insert(p.clone()) {
				return Err(format!("size {}: {:?} is listed twice", n, p));
			}
			ctx.transitions += 1;
		}
		for k in 0..6 {
			if let Some(p) = it.next() {
				return Err(format!("size {}: {:?} is listed after the end (request {})", n, p, k));
			}
			ctx.transitions += 1;
		}
		ctx.states += total as u64 + 1;
		ctx.traces += 1;
		let _ = round;
	}
	ctx.nontrivial += 1;
	ctx.outcome_of(&n);
	Ok(())
}

pub fn a06(thorough: bool) -> Property {
	let mut f = Vec::new();
	f.push(family("every size", if thorough { 400 } else { 120 }, move |n, ctx| a06_sized(n as usize, ctx)).chunk(4));
	f.push(family("no limit", 60, move |n, ctx| {
		let n = n as usize;
		fn go<'a, G>(g: G, n: usize, ctx: &mut Ctx) -> Result<(), String>
		where
			G: StructuredSolverGenerator<'a, Q>,
		{
			let nodes: Vec<usize> = g.nodes().take(n + 1000).collect();
			if nodes != (0..n + 1000).collect::<Vec<_>>() {
				return Err(format!("nodes start with {:?}", &nodes[..10]));
			}
			// every pair of the first n nodes comes after finitely many steps
			let mut missing: BTreeSet<BTreeSet<usize>> = (0..n).flat_map(|a| (0..a).map(move |b| vec![a, b].into_iter().collect())).collect();
			let mut seen = BTreeSet::new();
			let limit = 4 * n * n + 100;
			for (k, p) in g.prods().take(limit).enumerate() {
				ctx.transitions += 1;
				if p.len() != 2 {
					return Err(format!("{:?} is listed as a product", p));
				}
				if !seen.insert(p.clone()) {
					return Err(format!("{:?} is listed twice", p));
				}
				missing.remove(&p);
				if k + 1 == limit && !missing.is_empty() {
					return Err(format!("{:?} is not listed within {} products", missing.iter().next(), limit));
				}
			}
			if seen.len() != limit {
				return Err(format!("the products end after {}", seen.len()));
			}
			ctx.states += limit as u64;
			ctx.traces += 1;
			ctx.nontrivial += 1;
			Ok(())
		}
		go(Own { size: None, range: None, fail: None, high: false }.into_structured(), n, ctx)?;
		let s = <Silent as UnstructuredSolverGenerator<Q>>::into_structured(Silent);
		let nodes: Vec<usize> = s.nodes().take(50).collect();
		if nodes != (0..50).collect::<Vec<_>>() || <Silent as UnstructuredSolverGenerator<Q>>::size(&Silent).is_some() {
			return Err("a solver that states no size has one".to_string());
		}
		Ok(())
	}).chunk(1));
	f.push(family("range, creation and failure are forwarded", 6 * 5 * 4, move |i, ctx| {
		let mut d = Digits(i);
		let ranges = [None, Some((-1.0, 1.0)), Some((0.0, 0.0)), Some((f64::MIN, f64::MAX)), Some((5.0, -5.0)), Some((f64::NEG_INFINITY, 3.5))];
		let range = *d.pick(&ranges);
		let fail = [None, Some(0), Some(1), Some(77), None][d.next(5)];
		let n = d.next(4);
		let m: Q = FixedSingleQuadricModel::new(Binary::new(), n);
		let own = || Own { size: Some(n), range, fail, high: false };
		let g = own().into_structured();
		ctx.states += 1;
		ctx.transitions += 3;
		ctx.traces += 1;
		ctx.nontrivial += 1;
		let want = range.unwrap_or((f64::MIN, f64::MAX));
		if g.value_range() != want || own().value_range() != want {
			return Err(format!("range {:?} is shown as {:?}", want, g.value_range()));
		}
		match (g.generate(&m), fail) {
			(Err(Refused(k)), Some(f)) if k == f => (),
			(Ok(OwnSolver(p, s)), None) if p == &m as *const _ as usize && s == n => (),
			(r, _) => return Err(format!("creation with failure {:?} gives {:?}", fail, r)),
		}
		let (lo, hi) = SolverGenerator::<Q>::value_range(&<Silent as UnstructuredSolverGenerator<Q>>::into_structured(Silent));
		if (lo, hi) != (f64::MIN, f64::MAX) || SolverGenerator::<Q>::value_range(&Silent) != (f64::MIN, f64::MAX) {
			return Err(format!("the default range is {:?}", (lo, hi)));
		}
		let (lo, hi) = SolverGenerator::<Qi>::value_range(&<Silent as UnstructuredSolverGenerator<Qi>>::into_structured(Silent));
		if (lo, hi) != (i16::MIN, i16::MAX) || SolverGenerator::<Qi>::value_range(&Silent) != (i16::MIN, i16::MAX) {
			return Err(format!("the default range of i16 is {:?}", (lo, hi)));
		}
		Ok(())
	}).chunk(8));
	Property {
		id: "A06",
		rule: "A state is one prefix of a listing; a transition is one request for the next product; an execution is one listing or one creation compared with the wrapped solver. Non-trivial: every case.",
		bounds: "every size from 0 to 119 (thorough 399) with six requests after the end; without limit, all pairs among the first 0..59 variables within 4n^2+100 products; 6 ranges x 5 failures x 4 sizes",
		assumptions: vec!["the order of products is open, but without a limit the pairs of the first n variables must come within 4n^2+100 products".to_string()],
		families: f,
	}
}

// ---------------------------------------------------------------- A07

/// Natives: what the language does, written out per type.
pub trait Native: Num {
	fn values() -> Vec<Self>;
	fn lo() -> Self;
	fn hi() -> Self;
	fn modulus(self) -> Option<Self>;
	fn cast_i32(i: i32) -> Self;
	fn cast_f64(f: f64) -> Self;
	fn to_f64(self) -> f64;
	fn finite(self) -> bool;
	fn bits(self) -> u128;
}
macro_rules! native {
	($t:ident, int) => {
		impl Native for $t {
			fn values() -> Vec<Self> {
				let mut v: Vec<Self> = Vec::new();
				if std::mem::size_of::<$t>() <= 2 {
					v.extend($t::MIN..=$t::MAX);
				} else {
					let b = std::mem::size_of::<$t>() as u32 * 8;
					for k in 0..b - 1 {
						for d in [-1, 0, 1] {
							let x = ((1 as $t) << k).wrapping_add(d);
							v.push(x);
							v.push(x.wrapping_neg());
							v.push($t::MIN.wrapping_add(x));
							v.push($t::MAX.wrapping_sub(x));
						}
					}
					v.extend(-300..=300);
					v.push($t::MIN);
					v.push($t::MAX);
				}
				v
			}
			fn lo() -> Self {
				$t::MIN
			}
			fn hi() -> Self {
				$t::MAX
			}
			fn modulus(self) -> Option<Self> {
				self.checked_abs()
			}
			fn cast_i32(i: i32) -> Self {
				i as $t
			}
			fn cast_f64(f: f64) -> Self {
				f as $t
			}
			fn to_f64(self) -> f64 {
				self as f64
			}
			fn finite(self) -> bool {
				true
			}
			fn bits(self) -> u128 {
				self as i128 as u128
			}
		}
	};
	($t:ident, $u:ident) => {
		impl Native for $t {
			fn values() -> Vec<Self> {
				let mut v: Vec<Self> = vec![
					0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, 2.5, -2.5, 0.1, 1e-3, $t::MAX, $t::MIN, $t::MIN_POSITIVE, -$t::MIN_POSITIVE,
					$t::INFINITY, $t::NEG_INFINITY, $t::NAN, $t::EPSILON, 1.0 + $t::EPSILON,
					127.0, 128.0, -128.0, -129.0, 32767.0, 32768.0, -32769.0, 2147483647.0, 2147483648.0, -2147483649.0,
					9.3e18, -9.3e18, 1.8e38, -1.8e38, 16777216.0, 16777217.0, 9007199254740993.0,
				];
				for k in 0..256u64 {
					v.push($t::from_bits(mix(k) as $u));
				}
				for k in -300..=300 {
					v.push(k as $t);
				}
				v
			}
			fn lo() -> Self {
				$t::MIN
			}
			fn hi() -> Self {
				$t::MAX
			}
			fn modulus(self) -> Option<Self> {
				Some(if self.is_nan() { self } else if self.is_sign_negative() { -self } else { self })
			}
			fn cast_i32(i: i32) -> Self {
				i as $t
			}
			fn cast_f64(f: f64) -> Self {
				f as $t
			}
			fn to_f64(self) -> f64 {
				self as f64
			}
			fn finite(self) -> bool {
				!(self.is_nan() || self.is_infinite())
			}
			fn bits(self) -> u128 {
				if self.is_nan() {
					u128::MAX
				} else {
					self.to_bits() as u128
				}
			}
		}
	};
}
native!(i8, int);
native!(i16, int);
native!(i32, int);
native!(i64, int);
native!(i128, int);
native!(f32, u32);
native!(f64, u64);

fn a07_unary<R: Native>(ctx: &mut Ctx) -> Result<(), String> {
	let same = |a: R, b: R| a.bits() == b.bits();
	let bad = |what: &str, x: String, got: String, want: String| Err(format!("{}: {} of {} is {}, not {}", R::NAME, what, x, got, want));
	if !same(R::zero(), R::cast_i32(0)) || !same(R::one(), R::cast_i32(1)) {
		return bad("zero and one", String::new(), format!("{} {}", R::zero(), R::one()), "0 1".to_string());
	}
	if !same(<R as Real>::MIN, R::lo()) || !same(<R as Real>::MAX, R::hi()) {
		return bad("range", String::new(), format!("{} {}", <R as Real>::MIN, <R as Real>::MAX), format!("{} {}", R::lo(), R::hi()));
	}
	let vals = R::values();
	for &x in &vals {
		if let Some(m) = x.modulus() {
			let g = Real::abs(x);
			if !same(g, m) {
				return bad("abs", x.to_string(), g.to_string(), m.to_string());
			}
		}
		let (g, w) = (Real::as_f64(&x), x.to_f64());
		if g.to_bits() != w.to_bits() && !(g.is_nan() && w.is_nan()) {
			return bad("as_f64", x.to_string(), g.to_string(), w.to_string());
		}
		if Real::is_finite(x) != x.finite() {
			return bad("is_finite", x.to_string(), Real::is_finite(x).to_string(), x.finite().to_string());
		}
		let n = R::nan_or(x);
		if R::FLOAT {
			if n.bits() != u128::MAX {
				return bad("nan_or", x.to_string(), n.to_string(), "NaN".to_string());
			}
		} else if !same(n, x) {
			return bad("nan_or", x.to_string(), n.to_string(), x.to_string());
		}
		ctx.states += 1;
		ctx.transitions += 4;
		ctx.nontrivial += 1;
	}
	let mut ints: Vec<i32> = (-70000..70000).collect();
	for k in 0..31 {
		for d in -2..=2 {
			ints.push((1i32 << k).wrapping_add(d));
			ints.push((1i32 << k).wrapping_neg().wrapping_add(d));
		}
	}
	ints.extend([i32::MIN, i32::MAX]);
	for i in ints {
		if !same(R::from_i32(i), R::cast_i32(i)) {
			return bad("from_i32", i.to_string(), R::from_i32(i).to_string(), R::cast_i32(i).to_string());
		}
		ctx.states += 1;
		ctx.transitions += 1;
	}
	for f in f64::values() {
		if !same(R::from_f64(f), R::cast_f64(f)) {
			return bad("from_f64", f.to_string(), R::from_f64(f).to_string(), R::cast_f64(f).to_string());
		}
	}
	ctx.traces += 1;
	ctx.outcome_of(&R::NAME);
	Ok(())
}

fn a07_minmax<R: Native>(part: usize, of: usize, ctx: &mut Ctx) -> Result<(), String> {
	let vals = R::values();
	let step = if vals.len() > 10000 { 97 } else { 1 };
	let mut small: Vec<R> = vals.iter().cloned().step_by(step).collect();
	small.push(R::lo());
	small.push(R::hi());
	for (k, &x) in small.iter().enumerate() {
		if k % of != part {
			continue;
		}
		for &y in &small {
			let (lo, hi) = (Real::min(x, y), Real::max(x, y));
			let nan = |v: R| v != v;
			// as the native types do: a NaN is ignored
			let (wl, wh) = match (nan(x), nan(y)) {
				(true, _) => (y, y),
				(_, true) => (x, x),
				_ if x < y => (x, y),
				_ => (y, x),
			};
			if !((lo == wl || (nan(lo) && nan(wl))) && (hi == wh || (nan(hi) && nan(wh)))) {
				return Err(format!("{}: min and max of {} and {} are {} and {}", R::NAME, x, y, lo, hi));
			}
			ctx.states += 1;
			ctx.transitions += 2;
		}
	}
	ctx.traces += 1;
	ctx.nontrivial += 1;
	Ok(())
}

macro_rules! force {
	($ctx:ident, $a:ident => $($b:ident),*) => {{$(
		for x in <$a as Native>::values() {
			let g: $b = <$a as ConvertForce<$b>>::convert_force(x);
			let w = x as $b;
			if g.bits() != w.bits() {
				return Err(format!("{} {} is forced to {} {}, not {}", stringify!($a), x, stringify!($b), g, w));
			}
			$ctx.states += 1;
			$ctx.transitions += 1;
		}
		$ctx.traces += 1;
		$ctx.nontrivial += 1;
	)*}};
}
macro_rules! wider {
	($ctx:ident, $a:ident => $($b:ident),*) => {{$(
		for x in <$a as Native>::values() {
			let w = x as $b;
			let forms: [(&str, $b); 4] = [
				("convert_from", <$b as ConvertFrom<$a>>::convert_from(x)),
				("convert_to", <$a as ConvertTo<$b>>::convert_to(x)),
				("convert_lhs", <$a as ConvertWith<$b>>::convert_lhs(x)),
				("convert_rhs", <$b as ConvertWith<$a>>::convert_rhs(x)),
			];
			for (n, g) in forms {
				if g.bits() != w.bits() {
					return Err(format!("{}: {} {} becomes {} {}, not {}", n, stringify!($a), x, stringify!($b), g, w));
				}
			}
			$ctx.states += 1;
			$ctx.transitions += 4;
		}
		for y in <$b as Native>::values() {
			let a: $b = <$a as ConvertWith<$b>>::convert_rhs(y);
			let b: $b = <$b as ConvertWith<$a>>::convert_lhs(y);
			if a.bits() != y.bits() || b.bits() != y.bits() {
				return Err(format!("combining with {}: {} {} becomes {} and {}", stringify!($a), stringify!($b), y, a, b));
			}
			$ctx.states += 1;
			$ctx.transitions += 2;
		}
		$ctx.traces += 1;
		$ctx.nontrivial += 1;
	)*}};
}
macro_rules! same_type {
	($ctx:ident, $($a:ident),*) => {{$(
		for x in <$a as Native>::values() {
			let forms: [$a; 5] = [
				<$a as ConvertForce<$a>>::convert_force(x),
				<$a as ConvertFrom<$a>>::convert_from(x),
				<$a as ConvertTo<$a>>::convert_to(x),
				<$a as ConvertWith<$a>>::convert_lhs(x),
				<$a as ConvertWith<$a>>::convert_rhs(x),
			];
			if forms.iter().any(|g| g.bits() != x.bits()) {
				return Err(format!("{} {} is converted to itself as {:?}", stringify!($a), x, forms));
			}
			$ctx.states += 1;
			$ctx.transitions += 5;
		}
		$ctx.traces += 1;
		$ctx.nontrivial += 1;
	)*}};
}

pub fn a07(_thorough: bool) -> Property {
	let mut f = Vec::new();
	f.push(family("values, limits and queries", 7, |i, ctx| with_type!(i, R, a07_unary::<R>(ctx))).chunk(1));
	f.push(family("minimum and maximum", 7 * 8, |i, ctx| with_type!(i % 7, R, a07_minmax::<R>((i / 7) as usize, 8, ctx))).chunk(1));
	f.push(family("forced conversions", 7, |i, ctx| {
		match i {
			0 => force!(ctx, i8 => i16, i32, i64, i128, f32, f64),
			1 => force!(ctx, i16 => i8, i32, i64, i128, f32, f64),
			2 => force!(ctx, i32 => i8, i16, i64, i128, f32, f64),
			3 => force!(ctx, i64 => i8, i16, i32, i128, f32, f64),
			4 => force!(ctx, i128 => i8, i16, i32, i64, f32, f64),
			5 => force!(ctx, f32 => i8, i16, i32, i64, i128, f64),
			_ => force!(ctx, f64 => i8, i16, i32, i64, i128, f32),
		}
		Ok(())
	}).chunk(1));
	f.push(family("conversions to wider types and combination", 7, |i, ctx| {
		match i {
			0 => wider!(ctx, i8 => i16, i32, i64, i128, f32, f64),
			1 => wider!(ctx, i16 => i32, i64, i128, f32, f64),
			2 => wider!(ctx, i32 => i64, i128, f32, f64),
			3 => wider!(ctx, i64 => i128, f32, f64),
			4 => wider!(ctx, i128 => f32, f64),
			5 => wider!(ctx, f32 => f64),
			_ => same_type!(ctx, i8, i16, i32, i64, i128, f32, f64),
		}
		Ok(())
	}).chunk(1));
	Property {
		id: "A07",
		rule: "A state is one value (or pair of values) of one numeric type; a transition is one conversion or query; an execution is one sweep over all values of a type. Each is compared, bit for bit, with the native operation. Non-trivial: every value.",
		bounds: "all values of the 8 and 16 bit types; around every power of two and both limits in the wider ones; special, boundary and 256 patterned values of the floating types; every pair of types and every trait form",
		assumptions: vec!["the absolute value of the smallest whole number is not asked for (it has none)".to_string()],
		families: f,
	}
}

From 65db6c2f29061a325a33eed8d2f49cd2e389aabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 01/16] fix: do not list a pair of nodes in a model of fewer
 than two nodes

---
 annealers/src/model.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/annealers/src/model.rs b/annealers/src/model.rs
index bad55a2..65b5ea2 100644
--- a/annealers/src/model.rs
+++ b/annealers/src/model.rs
@@ -311,6 +311,8 @@ impl<S: NodeSet> std::iter::Iterator for Prods<S> {
 			let ret = S::from_vec(self.indices.clone()).unwrap();
 			self.indices[finger] += 1;
 			Some(ret)
+		} else if self.size < 2 {
+			None // there is no pair of nodes
 		} else if self.indices.len() == 1 {
 			self.indices = vec![0, 1];
 			let ret = S::from_vec(self.indices.clone()).unwrap();
-- 
2.43.0


From c16bdd5f655d6e856008b4ad4eaa3a846254e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 02/16] fix: feed placeholders inside constraints and penalties
 of an expression

---
 src/expr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.rs b/src/expr.rs
index e025248..f67f5d7 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -78,6 +78,14 @@ where
 				Box::new((*a).feed_dict(dict)),
 				Box::new((*b).feed_dict(dict)),
 			),
+			Self::Constraint { label, expr } => Self::Constraint {
+				label,
+				expr: Box::new((*expr).feed_dict(dict)),
+			},
+			Self::WithPenalty { expr, penalty } => Self::WithPenalty {
+				expr: Box::new((*expr).feed_dict(dict)),
+				penalty: Box::new((*penalty).feed_dict(dict)),
+			},
 			o => o,
 		}
 	}
-- 
2.43.0


From 550fee9e2277eb769673150d131b9c199f8bdd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 03/16] fix: penalize an ancilla qubit that differs from the
 product it replaces

---
 src/compiled.rs |  5 +++++
 src/expr.rs     | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/compiled.rs b/src/compiled.rs
index 262223b..1925da8 100644
--- a/src/compiled.rs
+++ b/src/compiled.rs
@@ -202,12 +202,14 @@ where
 				let (replacing_exp, constraint) =
 					Self::generate_replace(&replaced_set, &mut builder, p);
 				let mut new_expanded = Expanded::new();
+				let mut replaced_coeffs = Vec::new();
 				for mut expanded in self
 					.expanded
 					.drain()
 					.map(|(set, exp)| Expanded::from(set, exp))
 				{
 					if expanded.is_superset(&replaced_set) {
+						replaced_coeffs.extend(expanded.values().map(|exp| exp.magnitude()));
 						expanded = expanded.remove_qubits(&replaced_set);
 						expanded *= replacing_exp.clone();
 					}
@@ -215,6 +217,9 @@ where
 				}
 				self.expanded = new_expanded;
 				if let Some(constraint) = constraint {
+					// Breaking w = x * y should cost at least as much as all the replaced
+					// terms can gain from it.
+					self.expanded += constraint.clone() * StaticExpr::Add(replaced_coeffs);
 					self.constraints
 						.push(Constraint::from_raw(None, constraint.into(), None));
 				}
diff --git a/src/expr.rs b/src/expr.rs
index f67f5d7..596e5ac 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -628,6 +628,17 @@ where
 		}
 	}
 
+	/// An upper bound of the absolute value, given that placeholders are
+	/// positive.
+	pub(crate) fn magnitude(&self) -> Self {
+		match self {
+			Self::Add(v) => Self::Add(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Mul(v) => Self::Mul(v.iter().map(|item| item.magnitude()).collect()),
+			Self::Number(n) => Self::Number(n.abs()),
+			Self::Placeholder(p) => Self::Placeholder(p.clone()),
+		}
+	}
+
 	pub(crate) fn feed_dict(self, dict: &HashMap<Tp, R>) -> Self {
 		match self {
 			Self::Placeholder(p) => {
-- 
2.43.0


From 88ffac6787650e67348b906406729e8fdf4c1a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:51 +0000
Subject: [PATCH 04/16] fix: keep the weight of constraints in models of
 integers

---
 src/solve.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solve.rs b/src/solve.rs
index 992a20e..7ef65f3 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -151,7 +151,12 @@ where
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
-						R::from_i32(*cnt as i32) / R::from_i32(size as i32) * self.coeff_strength
+						// An integer type should not round the weight down to zero.
+						let weight = *cnt as f64 * self.coeff_strength.as_f64() / size as f64;
+						match R::from_f64(weight) {
+							w if weight > 0.0 && w == R::zero() => R::one(),
+							w => w,
+						}
 					} else {
 						panic!()
 					}
-- 
2.43.0


From 58a0bc5321f04d167bc43971f728dba608e16847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:26 +0000
Subject: [PATCH 05/16] fix: anneal models of integers with fractional
 temperatures

---
 classical_solver/src/algo.rs |  6 +++---
 classical_solver/src/beta.rs | 20 ++++++++++----------
 classical_solver/src/sa.rs   |  2 +-
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index 9e9f6ca..a3ac18e 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -30,7 +30,7 @@ unsafe fn calculate_flip_cost<S: NodeSet, M: SingleNode>(
 pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real>(
 	random: &mut T,
 	state: &mut BinaryRepr,
-	beta_schedule: &[<P::Node as Node>::RealType],
+	beta_schedule: &[f64],
 	sweeps_per_round: usize,
 	model: &P,
 ) {
@@ -50,14 +50,14 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	}
 	for beta in beta_schedule.iter() {
 		for _ in 0..sweeps_per_round {
-			let threshold = 44.36142 / beta.as_f64();
+			let threshold = 44.36142 / *beta;
 			for i in 0..state.len() {
 				let ed = energy_diffs[i];
 				if ed.as_f64() > threshold {
 					continue;
 				}
 				if ed.as_f64() <= 0.0
-					|| f64::exp(-(ed * *beta).as_f64()) > random.gen_range(0.0, 1.0)
+					|| f64::exp(-ed.as_f64() * *beta) > random.gen_range(0.0, 1.0)
 				{
 					unsafe {
 						state.flip_unchecked(i);
diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 417dec0..8f2d3dc 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -23,7 +23,7 @@ macro_rules! real_typ {
 	};
 }
 
-fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ!(P)) {
+fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	macro_rules! nan_or_min {
 		() => {
 			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
@@ -49,11 +49,11 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
-			<real_typ!(P)>::from_f64(f64::ln(2.0) / (ndiff * eg_max).as_f64()),
-			<real_typ!(P)>::from_f64(f64::ln(100.0) / (ndiff * eg_min).as_f64()),
+			f64::ln(2.0) / (ndiff * eg_max).as_f64(),
+			f64::ln(100.0) / (ndiff * eg_min).as_f64(),
 		)
 	} else {
-		(<real_typ!(P)>::one(), <real_typ!(P)>::from_i32(10))
+		(1.0, 10.0)
 	}
 }
 
@@ -63,12 +63,12 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (real_typ!(P), real_typ
 pub(crate) fn generate_schedule<P: SingleModelView>(
 	beta_type: &BetaType<real_typ!(P)>,
 	model: &P,
-) -> Vec<real_typ!(P)> {
+) -> Vec<f64> {
 	match beta_type {
-		BetaType::Schedule(v) => v.clone(),
+		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),
 		BetaType::Count(count) | BetaType::CountRange(count, _, _) => {
 			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
-				(*min, *max)
+				(min.as_f64(), max.as_f64())
 			} else {
 				generate_beta_range(model)
 			};
@@ -77,9 +77,9 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 	}
 }
 
-fn generate_beta_schedule<R: Real>(beta_min: R, beta_max: R, count: usize) -> Vec<R> {
-	let r = f64::ln(beta_max.as_f64() / beta_min.as_f64()) / (count as f64 - 1.0);
+fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
+	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
 	(0..count)
-		.map(|index| R::from_f64(beta_min.as_f64() * f64::exp(index as f64 * r)))
+		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
 }
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 64f8d7b..795b297 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -19,7 +19,7 @@ pub struct SimulatedAnnealerGenerator<'a, P: SingleModelView> {
 
 pub struct SimulatedAnnealer<'a, P: SingleModelView, R> {
 	sweeps_per_round: usize,
-	beta_schedule: Vec<<P::Node as Node>::RealType>,
+	beta_schedule: Vec<f64>,
 	model: &'a P,
 	_phantom: PhantomData<R>,
 }
-- 
2.43.0


From 3b94d4f829bcfec72112dd91ffa99c8fe8ecbd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:27 +0000
Subject: [PATCH 06/16] fix: a schedule of one temperature is not NaN

---
 classical_solver/src/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 8f2d3dc..1400f08 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -78,7 +78,7 @@ pub(crate) fn generate_schedule<P: SingleModelView>(
 }
 
 fn generate_beta_schedule(beta_min: f64, beta_max: f64, count: usize) -> Vec<f64> {
-	let r = f64::ln(beta_max / beta_min) / (count as f64 - 1.0);
+	let r = f64::ln(beta_max / beta_min) / (count.max(2) as f64 - 1.0);
 	(0..count)
 		.map(|index| beta_min * f64::exp(index as f64 * r))
 		.collect()
-- 
2.43.0


From d0d682212a4178606bac52386c218588621a8303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 07/16] fix: end the schedule cold with respect to the smallest
 energy gap, not the largest

---
 classical_solver/src/beta.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 1400f08..9999ba0 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -24,6 +24,12 @@ macro_rules! real_typ {
 }
 
 fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
+	// The smallest energy gap decides how cold the schedule ends.
+	macro_rules! nan_or_max {
+		() => {
+			<real_typ!(P)>::nan_or(<real_typ!(P)>::MAX)
+		};
+	}
 	macro_rules! nan_or_min {
 		() => {
 			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
@@ -35,7 +41,8 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 		.prods()
 		.into_iter()
 		.map(|p| model.get_weight(&p).abs())
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.filter(|w| *w != <real_typ!(P)>::zero())
+		.fold(nan_or_max!(), |p, n: real_typ!(P)| n.min(p));
 	let eg_max = model
 		.nodes()
 		.into_iter()
-- 
2.43.0


From 739ca67a4ac4e19e60b435c432f12adbd7a16e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:36 +0000
Subject: [PATCH 08/16] fix: return a solution that satisfies all the
 constraints even if an earlier energy was lower

---
 src/solve.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 7ef65f3..fef9b65 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -190,18 +190,20 @@ where
 					.unwrap();
 				let energy = sol.energy.unwrap();
 				// println!("{}, {}, {}", min, old_energy, energy);
-				if old_energy <= energy {
-					continue;
-				}
-				old_energy = energy;
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
 					.iter()
 					.enumerate()
 					.map(|(i, q)| (*q, sol[i]))
 					.collect();
+				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
+				// Never throw away a solution which satisfies all the constraints.
+				if old_energy <= energy && unsatisfied.iter().any(|c| c.label.is_some()) {
+					continue;
+				}
+				old_energy = energy;
 				let mut constraint_labels = Vec::new();
-				for c in self.model.get_unsatisfied_constraints(&ans) {
+				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
 						if let Some(point) = phdict.get_mut(ph) {
 							*point += 1;
-- 
2.43.0


From 621e090a75b8845d7842eabfd8eb3bb8472467c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 09/16] fix: local field of an unknown label is None

---
 src/solution.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solution.rs b/src/solution.rs
index 92c72e0..d66b456 100644
--- a/src/solution.rs
+++ b/src/solution.rs
@@ -28,7 +28,8 @@ impl<Tq: TqType, R: Real> SolutionView<Tq, R> {
 	}
 
 	pub fn local_field(&self, q: &Tq) -> Option<R> {
-		self.0.local_field.as_ref().map(|v| v[self.1[q]])
+		let index = *self.1.get(q)?;
+		self.0.local_field.as_ref().map(|v| v[index])
 	}
 
 	pub fn keys(&self) -> impl Iterator<Item = &Tq> {
-- 
2.43.0


From 4149af7e346272188daff44f46cdf7455a5d0239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:16 +0000
Subject: [PATCH 10/16] fix: anneal models with missing indexes of nodes

---
 classical_solver/src/algo.rs | 4 ++--
 classical_solver/src/sa.rs   | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/classical_solver/src/algo.rs b/classical_solver/src/algo.rs
index a3ac18e..b5aedd8 100644
--- a/classical_solver/src/algo.rs
+++ b/classical_solver/src/algo.rs
@@ -34,8 +34,8 @@ pub fn simulated_annealing<T: Rng, P: SingleModelView<Node = Binary<R>>, R: Real
 	sweeps_per_round: usize,
 	model: &P,
 ) {
-	assert!(state.len() == model.size());
-	let size = model.size();
+	let size = state.len();
+	assert!(model.nodes().into_iter().all(|node| node < size));
 	let node = model.node();
 	let mut energy_diffs = std::iter::repeat(<<P::Node as Node>::RealType as Default>::default())
 		.take(size)
diff --git a/classical_solver/src/sa.rs b/classical_solver/src/sa.rs
index 795b297..85ea82d 100644
--- a/classical_solver/src/sa.rs
+++ b/classical_solver/src/sa.rs
@@ -75,7 +75,9 @@ impl<'a, R: Real, P: SingleModelView<Node = Binary<R>> + Send + Sync> ClassicalS
 		&self,
 		r: &mut T,
 	) -> Result<Vec<SingleSolution<P::Node>>, NoneError> {
-		let mut state = BinaryRepr::new_random(self.model.size(), r);
+		// the model may have missing indexes of nodes
+		let len = self.model.nodes().into_iter().max().map_or(0, |n| n + 1);
+		let mut state = BinaryRepr::new_random(len, r);
 		// let mut state = BinaryRepr::from_vec(&vec![true, false, true]);
 		simulated_annealing(
 			r,
-- 
2.43.0


From acad7636703b28ac19deef1af44bcaa47939fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:32 +0000
Subject: [PATCH 11/16] fix: the iterator of the edges stays exhausted at the
 end

---
 annealers/src/solver.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 990e0d3..05d6ecc 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -184,11 +184,11 @@ impl Iterator for UnstructuredEdgeIter {
 	type Item = BTreeSet<usize>;
 	fn next(&mut self) -> Option<BTreeSet<usize>> {
 		if self.0 == self.1 {
-			self.1 += 1;
-			self.0 = 0;
-			while self.2.len() <= self.1 {
+			while self.2.len() <= self.1 + 1 {
 				self.2.push(self.3.next()?);
 			}
+			self.1 += 1;
+			self.0 = 0;
 			self.next()
 		} else {
 			let i = self.2[self.0];
-- 
2.43.0


From abaabf46af17d65a1f06b87223b2688386fc4fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:34 +0000
Subject: [PATCH 12/16] fix: compare the energies of the samples in their own
 type

---
 src/solve.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index fef9b65..028eff0 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -179,16 +179,17 @@ where
 				.flat_map(std::convert::identity)
 				.map(|sol| sol.with_energy(&model))
 				.collect::<Vec<_>>();
-				let min: f64 = fut_ret
-					.iter()
-					.fold(0.0 / 0.0, |m, v| v.energy.unwrap().as_f64().min(m));
-				assert!(min.is_finite());
+				// Compare in R, because f64 cannot tell apart large energies of R.
 				let sol = fut_ret
 					.into_iter()
-					.filter(|r| r.energy.unwrap().as_f64() == min)
-					.next()
+					.filter(|r| !r.energy.unwrap().as_f64().is_nan())
+					.fold(None, |best: Option<SingleSolution<_>>, r| match best {
+						Some(b) if b.energy <= r.energy => Some(b),
+						_ => Some(r),
+					})
 					.unwrap();
 				let energy = sol.energy.unwrap();
+				assert!(energy.as_f64().is_finite());
 				// println!("{}, {}, {}", min, old_energy, energy);
 				let ans: HashMap<&Qubit<Tq>, bool> = self
 					.qubits
-- 
2.43.0


From 87f69940d9d504a02e9fe103be15eeaa7004e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 13/16] fix: nan_or of float types gave the substitute instead
 of NaN

---
 annealers/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/annealers/src/variable.rs b/annealers/src/variable.rs
index cfac226..2913a46 100644
--- a/annealers/src/variable.rs
+++ b/annealers/src/variable.rs
@@ -65,7 +65,7 @@ macro_rules! impl_nan_or {
 }
 
 macro_rules! impl_real_as_f64 {
-	($b:expr, $typ:ty, $pat:path) => {
+	($b:tt, $typ:ty, $pat:path) => {
 		/// Implementation of Real for $typ
 		impl Real for $typ {
 			const MAX: $typ = <$typ>::MAX;
-- 
2.43.0


From f99634dfbe2955739f33ce51eeee7cf7e19c5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 14/16] fix: a solution with the highest energy of the number
 type was dropped

---
 src/solve.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solve.rs b/src/solve.rs
index 028eff0..5aea983 100644
--- a/src/solve.rs
+++ b/src/solve.rs
@@ -147,7 +147,7 @@ where
 			let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
 				ph.iter().map(|p| (*p, 10)).collect();
 			let mut size = ph.len() * 10;
-			let mut old_energy = R::MAX;
+			let mut old_energy: Option<R> = None;
 			for _ in 0..self.generations {
 				let (c, model) = self.model.generate_qubo(&self.qubits, &mut |p| {
 					if let Some(cnt) = phdict.get(&p) {
@@ -199,10 +199,11 @@ where
 					.collect();
 				let unsatisfied = self.model.get_unsatisfied_constraints(&ans);
 				// Never throw away a solution which satisfies all the constraints.
-				if old_energy <= energy && unsatisfied.iter().any(|c| c.label.is_some()) {
+				let is_lower = !old_energy.map_or(false, |old| old <= energy);
+				if !is_lower && unsatisfied.iter().any(|c| c.label.is_some()) {
 					continue;
 				}
-				old_energy = energy;
+				old_energy = Some(energy);
 				let mut constraint_labels = Vec::new();
 				for c in unsatisfied {
 					if let Some(ph) = &c.placeholder {
-- 
2.43.0


From adbb582676d24d74fb60bc7adc20d68d313cd3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 15/16] fix: sum up the weights for the cooling schedule as f64

---
 classical_solver/src/beta.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/classical_solver/src/beta.rs b/classical_solver/src/beta.rs
index 9999ba0..78a2319 100644
--- a/classical_solver/src/beta.rs
+++ b/classical_solver/src/beta.rs
@@ -25,24 +25,16 @@ macro_rules! real_typ {
 
 fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 	// The smallest energy gap decides how cold the schedule ends.
-	macro_rules! nan_or_max {
-		() => {
-			<real_typ!(P)>::nan_or(<real_typ!(P)>::MAX)
-		};
-	}
-	macro_rules! nan_or_min {
-		() => {
-			<real_typ!(P)>::nan_or(<real_typ!(P)>::MIN)
-		};
-	}
 	let node = model.node();
-	let ndiff = node.get_value(true) - node.get_value(false);
+	let ndiff = (node.get_value(true) - node.get_value(false)).as_f64();
+	// The weights are summed up as f64, because the sum may not fit in the
+	// type of the weights.
 	let eg_min = model
 		.prods()
 		.into_iter()
-		.map(|p| model.get_weight(&p).abs())
-		.filter(|w| *w != <real_typ!(P)>::zero())
-		.fold(nan_or_max!(), |p, n: real_typ!(P)| n.min(p));
+		.map(|p| model.get_weight(&p).as_f64().abs())
+		.filter(|w| *w != 0.0)
+		.fold(f64::NAN, |p, n| n.min(p));
 	let eg_max = model
 		.nodes()
 		.into_iter()
@@ -50,14 +42,14 @@ fn generate_beta_range<P: SingleModelView>(model: &P) -> (f64, f64) {
 			model
 				.neighbors(n)
 				.into_iter()
-				.map(|p| model.get_weight(&p).abs())
+				.map(|p| model.get_weight(&p).as_f64().abs())
 				.sum()
 		})
-		.fold(nan_or_min!(), |p, n: real_typ!(P)| n.max(p));
+		.fold(f64::NAN, |p, n: f64| n.max(p));
 	if eg_max.is_finite() && eg_min.is_finite() {
 		(
-			f64::ln(2.0) / (ndiff * eg_max).as_f64(),
-			f64::ln(100.0) / (ndiff * eg_min).as_f64(),
+			f64::ln(2.0) / (ndiff * eg_max),
+			f64::ln(100.0) / (ndiff * eg_min),
 		)
 	} else {
 		(1.0, 10.0)
-- 
2.43.0


From 36102010ba977947e74e83493027f4ed2f8f9645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 16/16] fix: range of values of solver generators: default, and
 through the structured view

---
 annealers/src/solver.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/annealers/src/solver.rs b/annealers/src/solver.rs
index 05d6ecc..412014d 100644
--- a/annealers/src/solver.rs
+++ b/annealers/src/solver.rs
@@ -59,7 +59,7 @@ pub trait SolverGenerator<'a, ProblemType: ModelView> {
 
 	fn value_range(&self) -> (get_real_typ!(ProblemType), get_real_typ!(ProblemType)) {
 		(
-			<get_real_typ!(ProblemType)>::MAX,
+			<get_real_typ!(ProblemType)>::MIN,
 			<get_real_typ!(ProblemType)>::MAX,
 		)
 	}
@@ -103,6 +103,11 @@ impl<'a, G: UnstructuredSolverGenerator<'a, P>, P: ModelView> SolverGenerator<'a
 {
 	type SolverType = G::SolverType;
 	type ErrorType = G::ErrorType;
+
+	fn value_range(&self) -> (get_real_typ!(P), get_real_typ!(P)) {
+		self.0.value_range()
+	}
+
 	fn generate(&self, model: &'a P) -> Result<Self::SolverType, Self::ErrorType> {
 		self.0.generate(model)
 	}
-- 
2.43.0


//! A scripted sampler: sees every quadratic model the solver hands out and
//! answers what the scenario says.
use annealers::model::{FixedSingleQuadricModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::Real;
use std::sync::Arc;

pub type QM<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Debug, Clone)]
pub struct Fail(pub i64);
impl std::fmt::Display for Fail {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "scripted failure {}", self.0)
	}
}
impl std::error::Error for Fail {}

pub trait Brain<R: Real>: Send + Sync {
	/// Names the solver that is being made.
	fn on_generate(&self, model: &QM<R>) -> Result<usize, Fail>;
	fn on_solve(&self, tag: usize, model: &QM<R>) -> Result<Vec<Vec<bool>>, Fail>;
	/// What a run of a sampler draws first.
	fn on_rng(&self, _tag: usize, _a: u64, _b: u64) {}
	/// What else the sampler says about a solution.
	fn dress(&self, _tag: usize, s: SingleSolution<Binary<R>>, _model: &QM<R>) -> SingleSolution<Binary<R>> {
		s
	}
}

pub struct Scripted<R: Real> {
	pub brain: Arc<dyn Brain<R>>,
}
pub struct ScriptedSolver<R: Real> {
	brain: Arc<dyn Brain<R>>,
	model: &'static QM<R>,
	tag: usize,
}

impl<R: Real> SolverGenerator<'static, QM<R>> for Scripted<R> {
	type SolverType = ScriptedSolver<R>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static QM<R>) -> Result<ScriptedSolver<R>, Fail> {
		let tag = self.brain.on_generate(model)?;
		Ok(ScriptedSolver {
			tag,
			brain: self.brain.clone(),
			model,
		})
	}
}
impl<R: Real> UnstructuredSolverGenerator<'static, QM<R>> for Scripted<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Real> Solver for ScriptedSolver<R> {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Real> ClassicalSolver for ScriptedSolver<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, Fail> {
		self.brain.on_rng(self.tag, r.next_u64(), r.next_u64());
		Ok(self
			.brain
			.on_solve(self.tag, self.model)?
			.iter()
			.map(|v| self.brain.dress(self.tag, SingleSolution::from_vec(v), self.model))
			.collect())
	}
}

/// Coefficients read out of a quadratic model.
#[derive(Clone, Debug)]
pub struct Qubo {
	pub n: usize,
	pub h: Vec<f64>,
	pub j: Vec<Vec<f64>>,
}
impl Qubo {
	pub fn of<R: Real>(m: &QM<R>) -> Self {
		let n = SingleModelView::size(m);
		let mut h = vec![0.0; n];
		let mut j = vec![vec![0.0; n]; n];
		for a in 0..n {
			h[a] = SingleModelView::get_weight(m, &[a, a]).as_f64();
			for b in a + 1..n {
				let w = SingleModelView::get_weight(m, &[a, b]).as_f64();
				j[a][b] = w;
				j[b][a] = w;
			}
		}
		Self { n, h, j }
	}

	pub fn energy(&self, x: &[bool]) -> f64 {
		let mut e = 0.0;
		for a in 0..self.n {
			if x[a] {
				e += self.h[a];
				for b in a + 1..self.n {
					if x[b] {
						e += self.j[a][b];
					}
				}
			}
		}
		e
	}

	pub fn delta(&self, x: &[bool], a: usize) -> f64 {
		let mut d = self.h[a];
		for b in 0..self.n {
			if x[b] && b != a {
				d += self.j[a][b];
			}
		}
		if x[a] {
			-d
		} else {
			d
		}
	}

	/// The `free` positions in groups that do not interact.
	pub fn groups(&self, free: &[usize]) -> Vec<Vec<usize>> {
		let mut left: Vec<usize> = free.to_vec();
		let mut out = Vec::new();
		while let Some(f) = left.pop() {
			let mut g = vec![f];
			let mut at = 0;
			while at < g.len() {
				let a = g[at];
				let (near, far): (Vec<usize>, Vec<usize>) = left.iter().partition(|b| self.j[a][**b] != 0.0);
				g.extend(near);
				left = far;
				at += 1;
			}
			out.push(g);
		}
		out
	}

	/// Whether `min_over` takes about two to the power `p` steps.
	pub fn easy(&self, free: &[usize], p: usize) -> bool {
		let g = self.groups(free);
		g.iter().all(|g| g.len() <= p) && g.iter().map(|g| 1u64 << g.len()).sum::<u64>() <= 1 << p
	}

	/// Minimum over the `free` positions, and where it is taken.
	pub fn min_over(&self, x: &[bool], free: &[usize]) -> (f64, Vec<bool>) {
		let mut x = x.to_vec();
		for &f in free {
			x[f] = false;
		}
		for g in self.groups(free) {
			let mut e = 0.0;
			let mut best = (e, x.clone());
			for k in 1u64..(1u64 << g.len()) {
				let f = g[k.trailing_zeros() as usize];
				e += self.delta(&x, f);
				x[f] = !x[f];
				if e < best.0 - 1e-9 {
					best = (e, x.clone());
				}
			}
			x = best.1;
		}
		(self.energy(&x), x)
	}
}

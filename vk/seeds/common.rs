//! Samplers and helpers of the demonstrations.
#![allow(dead_code)]
use annealers::model::{FixedSingleQuadricModel, SingleModelView};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::solution::SingleSolution;
use annealers::solver::{ClassicalSolver, Solver, SolverGenerator, UnstructuredSolverGenerator};
use annealers::variable::Real;
use std::sync::{Arc, Mutex};

pub type QM<R> = FixedSingleQuadricModel<Binary<R>>;

#[derive(Debug, Clone)]
pub struct Fail(pub usize);
impl std::fmt::Display for Fail {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "failure {}", self.0)
	}
}
impl std::error::Error for Fail {}

/// Given the index of the generated sampler and the model: its answer.
pub type Answer<R> = dyn Fn(usize, &QM<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync;

#[derive(Clone)]
pub struct Gen<R: Real> {
	pub count: Arc<Mutex<usize>>,
	pub answer: Arc<Answer<R>>,
}
pub struct Sol<R: Real>(usize, Arc<Answer<R>>, &'static QM<R>);
impl<R: Real> Gen<R> {
	pub fn new<F>(f: F) -> Self
	where
		F: Fn(usize, &QM<R>) -> Result<Vec<Vec<bool>>, Fail> + Send + Sync + 'static,
	{
		Self {
			count: Arc::new(Mutex::new(0)),
			answer: Arc::new(f),
		}
	}
}
impl<R: Real> SolverGenerator<'static, QM<R>> for Gen<R> {
	type SolverType = Sol<R>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static QM<R>) -> Result<Sol<R>, Fail> {
		let mut c = self.count.lock().unwrap();
		*c += 1;
		Ok(Sol(*c - 1, self.answer.clone(), model))
	}
}
impl<R: Real> UnstructuredSolverGenerator<'static, QM<R>> for Gen<R> {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl<R: Real> Solver for Sol<R> {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<R>>;
}
impl<R: Real> ClassicalSolver for Sol<R> {
	fn solve_with_rng<T: rand::Rng>(
		&self,
		_r: &mut T,
	) -> Result<Vec<SingleSolution<Binary<R>>>, Fail> {
		Ok((self.1)(self.0, self.2)?
			.iter()
			.map(|v| SingleSolution::from_vec(v))
			.collect())
	}
}

/// Energy of a state, read from the weights of the model.
pub fn energy<R: Real>(m: &QM<R>, x: &[bool]) -> f64 {
	let n = SingleModelView::size(m);
	let mut e = 0.0;
	for a in 0..n {
		for b in a..n {
			if x[a] && x[b] {
				e += SingleModelView::get_weight(m, &[a, b]).as_f64();
			}
		}
	}
	e
}

pub fn states(n: usize) -> Vec<Vec<bool>> {
	(0..1usize << n)
		.map(|k| (0..n).map(|i| k >> i & 1 == 1).collect())
		.collect()
}

/// A sampler that fixes the first variables and returns the lowest of all the
/// states which have them.
pub fn lowest<R: Real>(fixed: Vec<bool>) -> Gen<R> {
	Gen::new(move |_, m| {
		let n = SingleModelView::size(m);
		let mut best: Option<(f64, Vec<bool>)> = None;
		for tail in states(n - fixed.len()) {
			let x: Vec<bool> = fixed.iter().cloned().chain(tail).collect();
			let e = energy(m, &x);
			if best.as_ref().map_or(true, |(b, _)| e < *b) {
				best = Some((e, x));
			}
		}
		Ok(vec![best.unwrap().1])
	})
}

/// The returned energy when the variables have the given values.
#[macro_export]
macro_rules! value {
	($model:expr, $fixed:expr) => {{
		let mut s = SimpleSolver::with_solver(&$model, lowest($fixed.to_vec()));
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		s.solve_with_constraints().unwrap().0.as_f64()
	}};
}

pub fn close(a: f64, b: f64) {
	assert!((a - b).abs() < 1e-9, "{} is not {}", a, b);
}

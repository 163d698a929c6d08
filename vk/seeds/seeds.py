SEEDS = {}


def seed(sid, prop, edits, demo, needs, breaks):
    SEEDS[sid] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


# ---------------------------------------------------------------- expressions
seed("c01-power-zero", "C01", [("src/expr.rs", """		let mut hmlt = Expr::Number(<R as Real>::from_i32(1));
		if other > 0 {
			for _ in 1..other {
				hmlt = hmlt * self.clone();
			}
			hmlt = hmlt * self;
		}
		hmlt
""", """		// square and multiply
		let mut hmlt = self.clone();
		let mut rest = other.max(1) - 1;
		let mut base = self;
		while rest > 0 {
			if rest % 2 == 1 {
				hmlt = hmlt * base.clone();
			}
			base = base.clone() * base;
			rest /= 2;
		}
		hmlt
""")], """
fn main() {
	for p in 0usize..6 {
		let e: Expr<(), _, (), f64> =
			(Expr::Binary("a") * 2.0 + 1.0) ^ p;
		let t: Expr<(), _, (), f64> = Expr::Binary("a") * 10.0;
		let m = (e + t).compile().feed_dict(HashMap::new());
		for a in [false, true] {
			let v = if a { 3.0f64 } else { 1.0 };
			close(value!(m, [a]), v.powi(p as i32) + if a { 10.0 } else { 0.0 });
		}
	}
}
""", "a power of zero", "x ^ 0 becomes x instead of the constant 1, so the compiled energy is not the value of the expression")

seed("c01-merge-spin", "C01", [("src/expanded.rs", """			other.0.iter().map(move |(k2, v2)| {
				(
					k1.iter().chain(k2.iter()).cloned().collect(),
					StaticExpr::Mul(vec![v1.clone(), v2.clone()]).simplify(),
				)
			})
		});
		let mut m = HashMap::new();
		for (k, v) in it {
			if let Some(e) = m.remove(&k) {
				m.insert(k, StaticExpr::Add(vec![e, v]).simplify());
""", """			other.0.iter().map(move |(k2, v2)| {
				(
					k1.iter().chain(k2.iter()).cloned().collect(),
					StaticExpr::Mul(vec![v1.clone(), v2.clone()]).simplify(),
				)
			})
		});
		let mut m: HashMap<BTreeSet<Qubit<Tq>>, StaticExpr<Placeholder<Tp, Tc>, R>> =
			HashMap::new();
		for (k, v) in it {
			if let Some(e) = m.remove(&k) {
				// equal contributions (x * y and y * x) are kept as one product
				let sum = if e == v {
					StaticExpr::Mul(vec![StaticExpr::Number(R::from_i32(2)), e])
				} else if k.len() > 1 {
					StaticExpr::Add(vec![v])
				} else {
					StaticExpr::Add(vec![e, v])
				};
				m.insert(k, sum.simplify());
""")], """
fn main() {
	// (a + b)(a - 2b): the cross terms differ
	let e: Expr<(), _, (), f64> = (Expr::Binary(0usize) + Expr::Binary(1usize)) * (Expr::Binary(0usize) - Expr::Binary(1usize) * 2.0);
	let m = e.compile().feed_dict(HashMap::new());
	for s in states(2) {
		let (a, b) = (s[0] as i32 as f64, s[1] as i32 as f64);
		close(value!(m, s), (a + b) * (a - 2.0 * b));
	}
}
""", "two different contributions to the same pair inside one product", "a product of sums loses one of two unequal contributions to the same pair of variables")

seed("c02-odd-degree", "C02", [("src/compiled.rs", "StaticExpr::Number(R::from_i32(4 * (i as i32 + 1) - 1)),", "StaticExpr::Number(R::from_i32(4 * (i as i32 + 1) + 1)),")], """
fn main() {
	// one product of every degree, with a positive coefficient
	for d in 3..7usize {
		let mut e: Expr<(), usize, (), i32> = Expr::Number(5);
		for i in 0..d {
			e = e * Expr::Binary(i);
		}
		let m = e.compile().feed_dict(HashMap::new());
		for s in states(d) {
			close(value!(m, s), if s.iter().all(|b| *b) { 5.0 } else { 0.0 });
		}
	}
}
""", "a product of an odd number of at least five variables with a positive coefficient", "the minimum over the auxiliary variables is above the value of the expression")

seed("c02-even-ancillas", "C02", [("src/compiled.rs", "let n = (d - 1) / 2;", "let n = if d % 2 == 0 && d > 4 { (d - 2) / 2 - 1 } else { (d - 1) / 2 };")], """
fn main() {
	for d in 3..8usize {
		let mut e: Expr<(), usize, (), i32> = Expr::Number(3);
		for i in 0..d {
			e = e * Expr::Binary(i);
		}
		let m = e.compile().feed_dict(HashMap::new());
		for s in states(d) {
			close(value!(m, s), if s.iter().all(|b| *b) { 3.0 } else { 0.0 });
		}
	}
}
""", "a product of six or more (even) variables with a positive coefficient", "one auxiliary variable too few is used, the minimum over them is not the value")

seed("c03-cancelled", "C03", [("src/expanded.rs", """			if let Some(e) = self.0.remove(&k) {
				self.0.insert(k, StaticExpr::Add(vec![e, v]).simplify());
			} else {
""", """			if let Some(e) = self.0.remove(&k) {
				match StaticExpr::Add(vec![e, v]).simplify() {
					// nothing is left of this term
					StaticExpr::Number(n) if n == R::zero() => {}
					e => {
						self.0.insert(k, e);
					}
				}
			} else {
""")], """
fn main() {
	let e: Expr<(), _, (), i32> = Expr::Binary("x") - Expr::Binary("x") + Expr::Binary("y");
	let m = e.compile().feed_dict(HashMap::new());
	let (_, q) = SimpleSolver::new(&m).solve().unwrap();
	assert!(q.get(&"x").is_some());
	assert!(q.get(&"y").is_some());
	assert_eq!(q.keys().count(), 2);
}
""", "a variable whose coefficients cancel exactly", "the solution has no value for the variable")

seed("c04-mixed-sign", "C04", [("src/expr.rs", """							if b != bb {
								return None;
							}
						} else {
							ret = Some(b);
						}
					} else {
						return None;
					}
				}
				ret
			}
			Self::Mul(v) => {""", """							ret = Some(b || bb);
						} else {
							ret = Some(b);
						}
					} else {
						return None;
					}
				}
				ret
			}
			Self::Mul(v) => {""")], """
fn main() {
	let e: Expr<&str, usize, (), i32> = (Expr::Placeholder("p") - 3)
		* Expr::Binary(0usize) * Expr::Binary(1usize) * Expr::Binary(2usize);
	for p in 0..6 {
		let mut d = HashMap::new();
		d.insert("p", p);
		let late = e.clone().compile().feed_dict(d.clone());
		let early = e.clone().feed_dict(&d).compile().feed_dict(HashMap::new());
		for s in states(3) {
			let v = if s.iter().all(|b| *b) { (p - 3) as f64 } else { 0.0 };
			close(value!(early, s), v);
			close(value!(late, s), v);
		}
	}
}
""", "a product of three variables whose coefficient is a placeholder minus a number, fed after compiling with a small value", "the degree reduction assumes a sign that the fed value contradicts: feeding late gives another model than feeding early")

seed("c04-feed-fold", "C04", [("src/expr.rs", """			Self::Add(v) => Self::Add(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			Self::Mul(v) => Self::Mul(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			o => o,
		}
	}

	pub(crate) fn calculate<F>""", """			Self::Add(v) => Self::Add(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			Self::Mul(v) => {
				let mut seen = BTreeSet::new();
				let v = v
					.into_iter()
					.filter(|item| match item {
						// every placeholder is fed once
						Self::Placeholder(p) => !dict.contains_key(p) || seen.insert(p.clone()),
						_ => true,
					})
					.collect::<Vec<_>>();
				Self::Mul(v.into_iter().map(|item| item.feed_dict(dict)).collect())
			}
			o => o,
		}
	}

	pub(crate) fn calculate<F>""")], """
fn main() {
	let e: Expr<&str, usize, (), i32> = Expr::Placeholder("p") * Expr::Binary(0usize) * Expr::Placeholder("p");
	let mut d = HashMap::new();
	d.insert("p", 3);
	let late = e.clone().compile().feed_dict(d.clone());
	let early = e.feed_dict(&d).compile().feed_dict(HashMap::new());
	for s in states(1) {
		let v = if s[0] { 9.0 } else { 0.0 };
		close(value!(early, s), v);
		close(value!(late, s), v);
	}
}
""", "the same placeholder twice in one coefficient, fed after compiling", "the square of a placeholder is fed as if it were the placeholder itself")

seed("c05-zero-factor", "C05", [("src/expr.rs", """			Self::Mul(v) => Self::Mul(v.into_iter().map(|item| item.feed_dict(dict)).collect()),
			o => o,
		}
	}

	pub(crate) fn calculate<F>""", """			Self::Mul(v) => {
				let v: Vec<_> = v.into_iter().map(|item| item.feed_dict(dict)).collect();
				// a zero factor settles the product
				if v.iter().any(|item| *item == Self::Number(R::zero())) {
					Self::Number(R::zero())
				} else {
					Self::Mul(v)
				}
			}
			o => o,
		}
	}

	pub(crate) fn calculate<F>""")], """
fn main() {
	let e: Expr<&str, usize, (), i32> =
		Expr::Placeholder("p") * Expr::Placeholder("q") * Expr::Binary(0usize) + Expr::Binary(1usize);
	std::panic::set_hook(Box::new(|_| {}));
	for v in [0, 1] {
		let m = e.clone().compile();
		let mut d = HashMap::new();
		d.insert("p", v);
		let refused = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
			m.feed_dict(d);
		}))
		.is_err();
		if !refused {
			eprintln!("q has no value, and the model is accepted");
			std::process::exit(1);
		}
	}
}
""", "a placeholder without value multiplied by another one that is fed with zero", "the incomplete dictionary is accepted")

seed("c06-negative", "C06", [("src/model.rs", "i.as_f64().abs() < 1.0e-4", "i.as_f64() < 1.0e-4")], """
fn main() {
	let e: Expr<(), usize, &str, i32> = Expr::Constraint {
		label: "one",
		expr: Box::new(Expr::Binary(0usize) + Expr::Binary(1usize) - 1),
	};
	let m = e.compile().feed_dict(HashMap::new());
	for s in states(2) {
		let v = s[0] as i32 + s[1] as i32 - 1;
		let mut solver = SimpleSolver::with_solver(&m, lowest(s));
		solver.samples = 1;
		let (_, _, un) = solver.solve_with_constraints().unwrap();
		assert_eq!(un.is_empty(), v == 0);
	}
}
""", "a constraint with a negative value", "a violated constraint is not reported")

seed("c06-zero-times", "C06", [("src/expr.rs", """			Self::Mul(a, b) => Self::Mul(
				Box::new((*a).feed_dict(dict)),
				Box::new((*b).feed_dict(dict)),
			),
""", """			Self::Mul(a, b) => match ((*a).feed_dict(dict), (*b).feed_dict(dict)) {
				// a constant zero absorbs everything that holds no variable
				(Self::Number(n), Self::Constraint { .. }) if n == R::zero() => Self::Number(n),
				(Self::Constraint { .. }, Self::Number(n)) if n == R::zero() => Self::Number(n),
				(a, b) => Self::Mul(Box::new(a), Box::new(b)),
			},
""")], """
fn main() {
	let e: Expr<&str, usize, &str, i32> = Expr::Placeholder("p")
		* Expr::Constraint { label: "off", expr: Box::new(Expr::Binary(0usize) - Expr::Binary(1usize)) }
		+ Expr::Binary(0usize) + Expr::Binary(1usize);
	for p in [0, 2] {
		let mut d = HashMap::new();
		d.insert("p", p);
		let m = e.clone().feed_dict(&d).compile().feed_dict(HashMap::new());
		for s in states(2) {
			let mut solver = SimpleSolver::with_solver(&m, lowest(s.clone()));
			solver.samples = 1;
			let (_, _, un) = solver.solve_with_constraints().unwrap();
			assert_eq!(un.is_empty(), s[0] == s[1]);
		}
	}
}
""", "a placeholder fed with zero before compiling, multiplied onto a constraint", "the constraint is forgotten and its violation no longer reported")

seed("c07-nested", "C07", [("src/model.rs", "self.penalties += other.penalties + other.expanded;", """self.penalties += if self.penalties.is_empty() {
			other.penalties + other.expanded
		} else {
			other.expanded
		};""")], """
fn pen(e: Expr<(), usize, (), i32>, p: Expr<(), usize, (), i32>) -> Expr<(), usize, (), i32> {
	Expr::WithPenalty { expr: Box::new(e), penalty: Box::new(p) }
}
fn main() {
	let b = |i: usize| Expr::Binary(i);
	let e = pen(pen(b(0), b(1) * 2), pen(b(2) * 4, b(3) * 8)) * b(4);
	let m = e.compile().feed_dict(HashMap::new());
	for s in states(5) {
		let x: Vec<f64> = s.iter().map(|b| *b as i32 as f64).collect();
		close(value!(m, s), x[0] * x[4] + 2.0 * x[1] + 4.0 * x[2] + 8.0 * x[3]);
	}
}
""", "a penalty that has itself a penalty, attached to an expression that already has one", "the inner penalty is not charged")

seed("c07-constraint-in-penalty", "C07", [("src/model.rs", """		self.penalties += other.penalties + other.expanded;
		self.constraints.extend_from_slice(&other.constraints);
""", """		self.penalties += other.penalties + other.expanded;
		// the labels of the guarded expression come first
		if self.constraints.is_empty() {
			self.constraints = other.constraints;
		}
""")], """
fn con(l: &'static str, e: Expr<(), usize, &'static str, i32>) -> Expr<(), usize, &'static str, i32> {
	Expr::Constraint { label: l, expr: Box::new(e) }
}
fn main() {
	let e = Expr::WithPenalty {
		expr: Box::new(con("a", Expr::Binary(0usize))),
		penalty: Box::new(con("b", Expr::Binary(1usize))),
	};
	let m = e.compile().feed_dict(HashMap::new());
	for s in states(2) {
		let mut solver = SimpleSolver::with_solver(&m, lowest(s.clone()));
		solver.samples = 1;
		let (_, _, mut un) = solver.solve_with_constraints().unwrap();
		un.sort();
		let mut want = vec![];
		if s[0] { want.push(&"a"); }
		if s[1] { want.push(&"b"); }
		assert_eq!(un, want);
	}
}
""", "a constraint inside a penalty that guards an expression with a constraint of its own", "the constraint inside the penalty is not checked")

# ---------------------------------------------------------------- solve loop
seed("c08-size", "C08", [("src/solve.rs", """							*point += 1;
							size += 1;
						}
					}
					if let Some(label) = &c.label {
						constraint_labels.push(label);
					}
""", """							*point += 1;
						}
					}
					size += 1;
					if let Some(label) = &c.label {
						constraint_labels.push(label);
					}
""")], """
// x0 x1 x2 with unknown sign: one auxiliary variable, which the sampler sets
// wrong, and one labelled constraint.
fn main() {
	let e: Expr<(), usize, &str, f64> = Expr::Constraint { label: "a", expr: Box::new(Expr::Binary(0usize) + 1.0) }
		+ (Expr::Binary(1usize) * Expr::Binary(2usize) * Expr::Binary(3usize)) * 5.0
		+ (Expr::Binary(1usize) * Expr::Binary(2usize) * Expr::Binary(4usize)) * -7.0;
	let m = e.compile().feed_dict(HashMap::new());
	let seen = Arc::new(Mutex::new(Vec::new()));
	let s2 = seen.clone();
	let gen: Gen<f64> = Gen::new(move |i, m| {
		let n = SingleModelView::size(m);
		s2.lock().unwrap().push(SingleModelView::get_weight(m, &[0, 0]));
		// lower energies in every generation, auxiliary variables included
		let mut all: Vec<Vec<bool>> = states(n);
		all.sort_by(|a, b| energy(m, b).partial_cmp(&energy(m, a)).unwrap());
		Ok(vec![all[i % all.len()].clone()])
	});
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 40;
	s.coeff_strength = 50.0;
	let _ = s.solve_with_constraints();
	// one label: its weight is the whole strength, always
	for w in seen.lock().unwrap().iter() {
		close(*w, 50.0);
	}
}
""", "a model of degree three or more, a sample that sets an auxiliary variable inconsistently, and a second generation", "the weights no longer sum to the configured strength")

seed("c08-restart", "C08", [("src/solve.rs", """		for _ in 0..self.iterations {
			let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
				ph.iter().map(|p| (*p, 10)).collect();
			let mut size = ph.len() * 10;
			let mut old_energy: Option<R> = None;
""", """		let mut phdict: HashMap<&Placeholder<(), Tc>, usize> =
			ph.iter().map(|p| (*p, 10)).collect();
		let mut size = ph.len() * 10;
		for _ in 0..self.iterations {
			let mut old_energy: Option<R> = None;
""")], """
fn con(l: &'static str, e: Expr<(), usize, &'static str, f64>) -> Expr<(), usize, &'static str, f64> {
	Expr::Constraint { label: l, expr: Box::new(e) }
}
fn main() {
	let e = con("a", Expr::Binary(0usize) * 1.0 + 1.0) + con("b", Expr::Binary(1usize) * 1.0 - 1.0);
	let m = e.compile().feed_dict(HashMap::new());
	let seen = Arc::new(Mutex::new(Vec::new()));
	let s2 = seen.clone();
	let gen: Gen<f64> = Gen::new(move |_, m| {
		s2.lock().unwrap().push(SingleModelView::get_weight(m, &[0, 0]));
		Ok(vec![vec![false, true]]) // "a" is violated, "b" is not
	});
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 4;
	s.generations = 3;
	s.coeff_strength = 50.0;
	let _ = s.solve_with_constraints();
	let seen = seen.lock().unwrap();
	assert_eq!(seen.len(), 12);
	for r in 0..4 {
		close(seen[3 * r], 25.0);
	}
}
""", "a solve that needs more than one restart", "a restart begins with the shares of the previous one instead of equal ones")

seed("c09-best-of-restart", "C09", [("src/solve.rs", """		for _ in 0..self.iterations {
""", """		let mut so_far = None;
		for restart in 0..self.iterations {
"""), ("src/solve.rs", """			for _ in 0..self.generations {
				let (c,""", """			if restart > 0 {
				old_energy = so_far;
			}
			for _ in 0..self.generations {
				let (c,"""), ("src/solve.rs", """				let mut constraint_labels = Vec::new();
""", """				so_far = old_energy;
				let mut constraint_labels = Vec::new();
""")], """
fn main() {
	let e: Expr<(), usize, &str, f64> = Expr::Constraint { label: "never", expr: Box::new(Expr::Number(1.0)) }
		+ Expr::Binary(0usize) + Expr::Binary(1usize) * 2.0;
	let m = e.compile().feed_dict(HashMap::new());
	// restart 1 sees energy 0, restart 2 sees only 3: it is the pending result
	let gen: Gen<f64> = Gen::new(|i, _| Ok(vec![if i < 2 { vec![false, false] } else { vec![true, true] }]));
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 2;
	s.generations = 2;
	let (_, q, un) = s.solve_with_constraints().unwrap();
	assert_eq!(un, vec![&"never"]);
	assert_eq!((q.get(&0), q.get(&1)), (Some(true), Some(true)));
}
""", "an infeasible model and a later restart whose best sample is worse than the best of an earlier one", "the pending result of the later restart is not recorded, and the weights do not adapt in it")

seed("c09-first-sample", "C09", [("src/solve.rs", "solver.solve_with_rng(&mut r).map(|v| v.into_iter())", """solver.solve_with_rng(&mut r).map(|v| {
						// samplers list what they found in order
						let best = v.first().cloned();
						best.into_iter()
					})""")], """
fn main() {
	let e: Expr<(), usize, (), i64> = Expr::Binary(0usize) * 5i64 + Expr::Binary(1usize) * 3i64;
	let m = e.compile().feed_dict(HashMap::new());
	let gen: Gen<i64> = Gen::new(|_, _| Ok(vec![vec![true, true], vec![true, false], vec![false, false], vec![false, true]]));
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	let (e, q) = s.solve().unwrap();
	assert_eq!(e, 0);
	assert_eq!(q.get(&0), Some(false));
}
""", "a sampler that returns several solutions, the best of them not first", "not a lowest-energy sample is returned")

seed("c10-constant", "C10", [("src/solve.rs", """			for _ in 0..self.generations {
				let (c, model) =""", """			let mut constant = None;
			for _ in 0..self.generations {
				let (now, model) ="""), ("src/solve.rs", "					energy + c,\n", "					energy + c, // the constant term\n"), ("src/solve.rs", "				let energy = sol.energy.unwrap();\n", "				let c = *constant.get_or_insert(now);\n				let energy = sol.energy.unwrap();\n")], """
fn con(l: &'static str, e: Expr<(), usize, &'static str, f64>) -> Expr<(), usize, &'static str, f64> {
	Expr::Constraint { label: l, expr: Box::new(e) }
}
fn main() {
	// both constraints hold for x0 = x1 = 1
	let e = con("a", (Expr::Binary(0usize) - 1.0) ^ 2usize) + con("b", (Expr::Binary(1usize) * 2.0 - 2.0) ^ 2usize);
	let m = e.compile().feed_dict(HashMap::new());
	let gen: Gen<f64> = Gen::new(|i, _| Ok(vec![if i == 0 { vec![false, true] } else { vec![true, true] }]));
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	let (e, _, un) = s.solve_with_constraints().unwrap();
	assert!(un.is_empty());
	close(e, 0.0);
}
""", "constraints with constant terms and a feasible sample only after the weights changed", "the returned energy belongs to other weights than the assignment")

seed("c11-swallow", "C11", [("src/solve.rs", """					let mut r = StdRng::from_rng(OsRng).unwrap();
					solver.solve_with_rng(&mut r).map(|v| v.into_iter())
				})
				.collect::<Result<Vec<_>, _>>()?
				.into_iter()
				.flat_map(std::convert::identity)
""", """					let mut r = StdRng::from_rng(OsRng).unwrap();
					solver.solve_with_rng(&mut r).map(|v| v.into_iter())
				})
				.collect::<Vec<_>>();
				// fail only when there is nothing to work with
				let fut_ret = if fut_ret.iter().any(|r| r.is_ok()) {
					fut_ret.into_iter().filter_map(|r| r.ok()).collect()
				} else {
					fut_ret.into_iter().collect::<Result<Vec<_>, _>>()?
				};
				let fut_ret = fut_ret
				.into_iter()
				.flat_map(std::convert::identity)
""")], """
fn main() {
	let e: Expr<(), usize, (), f64> = Expr::Binary(0usize) + Expr::Binary(1usize);
	let m = e.compile().feed_dict(HashMap::new());
	for bad in 0..3 {
		let gen: Gen<f64> = Gen::new(move |i, _| if i == bad { Err(Fail(i)) } else { Ok(vec![vec![true, false]]) });
		let mut s = SimpleSolver::with_solver(&m, gen);
		s.samples = 3;
		assert!(s.solve().is_err());
	}
}
""", "one sampler that fails while another one of the same generation succeeds", "the error is swallowed and a result returned")

seed("c11-split", "C11", [("src/solve.rs", ".take(self.samples)\n				.collect::<Result<Vec<_>, _>>()?", """.take(self.samples)
				.take_while(|r| r.is_ok())
				.collect::<Result<Vec<_>, _>>()?""")], """
struct Bad(Gen<f64>, usize);
impl SolverGenerator<'static, QM<f64>> for Bad {
	type SolverType = Sol<f64>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static QM<f64>) -> Result<Sol<f64>, Fail> {
		if *self.0.count.lock().unwrap() == self.1 {
			return Err(Fail(self.1));
		}
		self.0.generate(model)
	}
}
impl UnstructuredSolverGenerator<'static, QM<f64>> for Bad {
	type Order = Quadric;
	fn order(&self) -> Quadric { Quadric }
}
fn main() {
	let e: Expr<(), usize, (), f64> = Expr::Binary(0usize) + Expr::Binary(1usize);
	let m = e.compile().feed_dict(HashMap::new());
	for bad in 1..3 {
		let gen = Bad(Gen::new(|_, _| Ok(vec![vec![true, false]])), bad);
		let mut s = SimpleSolver::with_solver(&m, gen);
		s.samples = 3;
		assert!(s.solve().is_err());
	}
}
""", "creating a sampler fails after others of the same generation have been created", "the error is dropped and fewer samples are taken")

# ---------------------------------------------------------------- annealer
seed("c12-later-only", "C12", [("classical_solver/src/algo.rs", """								if i != j {
									if stat""", """								// the neighbours of the same block
								if i != j && (i ^ j) < 64 {
									if stat""")], """
fn main() {
	// x69 decides about x0
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 70);
	for i in 0..69 {
		m.add_weight(i, i, 1.0);
	}
	m.add_weight(69, 69, -2.0);
	m.add_weight(0, 69, -3.0);
	let mut r = rand::rngs::mock::StepRng::new(u64::max_value(), 0);
	let mut st = BinaryRepr::from_vec(&[false; 70]);
	simulated_annealing(&mut r, &mut st, &[1e9; 4], 3, &m);
	let x = st.to_vec();
	let e = energy(&m, &x);
	for i in 0..70 {
		let mut y = x.clone();
		y[i] = !y[i];
		assert!(energy(&m, &y) >= e, "flipping {} lowers the energy", i);
	}
}
""", "more than 64 variables and a coupling across a multiple of 64", "the cost of a variable goes stale: the annealer stops where a flip still lowers the energy, or climbs")

seed("c12-sparse-gap", "C12", [("classical_solver/src/algo.rs", """					for neigh in model.neighbors(i) {
						if neigh.len() != 1 {""", """					for neigh in model.neighbors(i) {
						if neigh.len() != 1 && neigh.iter().all(|j| j < model.size()) {""")], """
fn main() {
	let mut m = SingleModel::new(Binary::<f64>::new(), Quadric);
	m.add_weight([1, 1], 1.0);
	m.add_weight([7, 7], -2.0);
	m.add_weight([1, 7], -3.0);
	let mut r = rand::rngs::mock::StepRng::new(u64::max_value(), 0);
	let mut st = BinaryRepr::from_vec(&[false; 8]);
	simulated_annealing(&mut r, &mut st, &[1e9; 4], 3, &m);
	assert!(st.get(1) && st.get(7));
}
""", "a sparse model with unused indices", "coupled variables beyond the number of used ones do not see each other's flips")

seed("c13-early-stop", "C13", [("classical_solver/src/algo.rs", """		for _ in 0..sweeps_per_round {
""", """		let mut active = true;
		for _ in 0..sweeps_per_round {
			if !active {
				break; // nothing moved in the last sweep
			}
			active = false;
"""), ("classical_solver/src/algo.rs", """					unsafe {
						state.flip_unchecked(i);
					}
					let stat""", """					active = true;
					unsafe {
						state.flip_unchecked(i);
					}
					let stat""")], """
struct Script(Vec<u64>, usize);
impl rand::RngCore for Script {
	fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
	fn next_u64(&mut self) -> u64 { self.1 += 1; self.0.get(self.1 - 1).cloned().unwrap_or(u64::max_value()) }
	fn fill_bytes(&mut self, _: &mut [u8]) { unimplemented!() }
	fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> { unimplemented!() }
}
fn main() {
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 1.0);
	// rejected in the first two sweeps, accepted in the third one
	let mut r = Script(vec![u64::max_value(), u64::max_value(), 0], 0);
	let mut st = BinaryRepr::from_vec(&[false]);
	simulated_annealing(&mut r, &mut st, &[1.0], 3, &m);
	assert_eq!(r.1, 3, "three sweeps draw three numbers");
	assert!(st.get(0));
}
""", "a sweep in which every uphill move is rejected, and a later sweep at the same temperature", "fewer sweeps than configured are performed")

seed("c13-threshold", "C13", [("classical_solver/src/algo.rs", "let ed = energy_diffs[i];\n				if ed.as_f64() > threshold {", "let ed = energy_diffs[i];\n				// e^-9: not worth a random number\n				if ed.as_f64() > threshold * 0.2029 {")], """
struct Zero;
impl rand::RngCore for Zero {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { 0 }
	fn fill_bytes(&mut self, _: &mut [u8]) { unimplemented!() }
	fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> { unimplemented!() }
}
fn main() {
	for ed in [1.0, 5.0, 8.0, 9.5, 12.0, 20.0] {
		let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
		m.add_weight(0, 0, ed);
		let mut st = BinaryRepr::from_vec(&[false]);
		// the random number is 0, exp(-ed) is above it
		simulated_annealing(&mut Zero, &mut st, &[1.0], 1, &m);
		assert!(st.get(0), "{}", ed);
	}
}
""", "an improbable uphill move (between 1e-4 and 1e-19) and a random number small enough to accept it", "the move is rejected without looking at the random number")

seed("c14-hot-start", "C14", [("classical_solver/src/beta.rs", """				.map(|p| model.get_weight(&p).as_f64().abs())
				.sum()
""", """				.map(|p| model.get_weight(&p).as_f64().abs())
				.fold(0.0, |p: f64, n| n.max(p))
""")], """
struct Half;
impl rand::RngCore for Half {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { (0.499 * 18446744073709551616.0) as u64 }
	fn fill_bytes(&mut self, b: &mut [u8]) { for x in b.iter_mut() { *x = 0 } }
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
fn main() {
	// raising all of them in turn costs 1, 1, 1, 1, 1 and then 6
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 6);
	for i in 0..6 {
		m.add_weight(i, i, 1.0);
		if i < 5 {
			m.add_weight(i, 5, 1.0);
		}
	}
	let mut gen = SimulatedAnnealerGenerator::new();
	gen.beta = BetaType::Count(1); // only the hottest temperature
	gen.sweeps_per_round = 1;
	let s = gen.generate(&m).unwrap();
	// every flip is accepted with probability 1/2 at least, so with 0.499 as well
	let x = s.solve_with_rng(&mut Half).unwrap().pop().unwrap().state.to_vec();
	assert_eq!(x, vec![true; 6]);
}
""", "a variable with several weights of similar size", "the schedule starts too cold: the costliest flip is accepted with a probability below one half")

seed("c14-range-order", "C14", [("classical_solver/src/beta.rs", """			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
				(min.as_f64(), max.as_f64())
""", """			let (min, max) = if let BetaType::CountRange(_, min, max) = beta_type {
				let (a, b) = (min.as_f64(), max.as_f64());
				(a.min(b), a.max(b))
""")], """
struct Half;
impl rand::RngCore for Half {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { 1 << 63 }
	fn fill_bytes(&mut self, b: &mut [u8]) { for x in b.iter_mut() { *x = 0 } }
	fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(b); Ok(()) }
}
fn main() {
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 1.0);
	let mut gen = SimulatedAnnealerGenerator::new();
	gen.beta = BetaType::CountRange(2, 4.0, 0.1); // first cold, then hot
	gen.sweeps_per_round = 1;
	let s = gen.generate(&m).unwrap();
	// cold: the climb is rejected; hot: accepted
	assert!(s.solve_with_rng(&mut Half).unwrap()[0].get(0));
}
""", "a range whose first bound is the larger one (heating up)", "the schedule runs in the other direction")

seed("c15-integer-chance", "C15", [("classical_solver/src/algo.rs", """				if ed.as_f64() <= 0.0
					|| f64""", """				if ed.as_f64() <= 0.0
					|| R::from_f64(f64"""), ("classical_solver/src/algo.rs", "exp(-ed.as_f64() * *beta) > random.gen_range(0.0, 1.0)", "exp(-ed.as_f64() * *beta)) > R::from_f64(random.gen_range(0.0, 1.0))")], """
struct Zero;
impl rand::RngCore for Zero {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { 0 }
	fn fill_bytes(&mut self, _: &mut [u8]) { unimplemented!() }
	fn try_fill_bytes(&mut self, _: &mut [u8]) -> Result<(), rand::Error> { unimplemented!() }
}
fn end<R: Real>() -> bool {
	let mut m = FixedSingleQuadricModel::new(Binary::<R>::new(), 1);
	m.add_weight(0, 0, R::from_i32(1));
	let mut st = BinaryRepr::from_vec(&[false]);
	simulated_annealing(&mut Zero, &mut st, &[1.0], 1, &m);
	st.get(0)
}
fn main() {
	assert!(end::<f64>());
	assert!(end::<f32>());
	assert!(end::<i8>());
	assert!(end::<i32>());
	assert!(end::<i128>());
}
""", "coefficients of an integer type and a move that has to climb", "the acceptance probability is truncated to an integer, so models of integers never climb")

# ---------------------------------------------------------------- solution, stores
seed("c16-zero-product", "C16", [("annealers/src/solution.rs", """			for prod in model.prods() {
				energy += model.get_weight(&prod) * model.calculate_prod(&prod, self);
			}
""", """			for prod in model.prods() {
				// a product with a low node is zero
				if prod.len() < 3 || prod.iter().all(|n| self.get(n)) {
					energy += model.get_weight(&prod) * model.calculate_prod(&prod, self);
				}
			}
""")], """
fn main() {
	let mut m = SingleModel::new(Spin::<i32>::new(), HighOrder::new(3));
	m.add_weight(vec![0usize, 1, 2].into_iter().collect(), 5);
	for s in states(3) {
		let v: i32 = s.iter().map(|b| if *b { 1 } else { -1 }).product();
		assert_eq!(SingleSolution::from_vec(&s).calculate_energy(&m), 5 * v);
	}
}
""", "a term of three or more spins (or two-valued nodes), one of them low", "the term is left out of the energy")

seed("c16-stored", "C16", [("annealers/src/solution.rs", "if let Some(v) = self.local_field {\n			v\n", "if let Some(v) = self.local_field.take().filter(|v| v.iter().any(|f| *f != M::RealType::zero())) {\n			v\n")], """
fn main() {
	let mut m = FixedSingleQuadricModel::new(Binary::<i32>::new(), 2);
	m.add_weight(0, 0, 3);
	m.add_weight(0, 1, 4);
	for stored in [vec![7, 8], vec![0, 0]] {
		let mut s = SingleSolution::<Binary<i32>>::from_vec(&[true, false]);
		s.local_field = Some(stored.clone());
		assert_eq!(s.with_local_field(&m).local_field, Some(stored));
	}
}
""", "a stored local field of zeros", "a stored local field is computed again instead of being returned")

seed("c17-cancelled", "C17", [("annealers/src/model.rs", "*self.inner.entry(prod).or_insert(M::RealType::zero()) += w;", """let sum = self.inner.remove(&prod).unwrap_or(M::RealType::zero()) + w;
		if sum != M::RealType::zero() {
			self.inner.insert(prod, sum); // keep the model sparse
		}""")], """
fn main() {
	let mut m = SingleModel::new(Binary::<i32>::new(), Quadric);
	m.add_weight([0, 1], 3);
	m.add_weight([1, 1], 2);
	m.add_weight([0, 1], -3);
	let mut p: Vec<[usize; 2]> = m.prods().into_iter().collect();
	p.sort();
	assert_eq!(p, vec![[0, 1], [1, 1]]);
	assert_eq!(m.get_weight(&[0, 1]), 0);
}
""", "weights of a term that cancel exactly", "the touched term is not enumerated and reading it fails")

seed("c17-neighbors", "C17", [("annealers/src/model.rs", """	fn neighbors(&self, u: usize) -> Self::NeighborsIter {
		Box::new(self.prods().filter(move |p| p.contains(u)))
""", """	fn neighbors(&self, u: usize) -> Self::NeighborsIter {
		Box::new(self.prods().filter(move |p| p.iter().take(2).any(|n| n == u)))
""")], """
fn main() {
	let mut m = SingleModel::new(Binary::<i32>::new(), HighOrder::new(3));
	let p: BTreeSet<usize> = vec![1usize, 4, 6].into_iter().collect();
	m.add_weight(p.clone(), 3);
	for u in [1usize, 4, 6] {
		assert_eq!(SingleModelView::neighbors(&m, u).into_iter().collect::<Vec<_>>(), vec![p.clone()]);
	}
}
""", "a term of more than two variables", "the terms enumerated for a variable miss those where it is the third one")

seed("c18-padding", "C18", [("annealers/src/repr.rs", """	pub fn flip(&mut self, loc: usize) {
		assert!(loc < self.len());
""", """	pub fn flip(&mut self, loc: usize) {
		assert!(loc / BYTESIZE < self.state.len());
""")], """
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	for len in 0..20usize {
		for loc in len..len + 9 {
			let mut r = BinaryRepr::from_vec(&vec![true; len]);
			if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| r.flip(loc))).is_ok() {
				eprintln!("position {} of {} can be flipped", loc, len);
				std::process::exit(1);
			}
		}
	}
}
""", "a flip between the length and the end of the last byte", "a position beyond the length is accepted")

seed("c18-set-false", "C18", [("annealers/src/repr.rs", "self.state[loc / BYTESIZE] &= !BITVALUES[loc % BYTESIZE];", "self.state[loc / BYTESIZE] &= BITVALUES[loc % BYTESIZE].wrapping_neg() | (BITVALUES[loc % BYTESIZE] - 1) & 0x3f;\n			self.state[loc / BYTESIZE] &= !BITVALUES[loc % BYTESIZE];")], """
fn main() {
	for len in 1..20usize {
		for loc in 0..len {
			let mut r = BinaryRepr::from_vec(&vec![true; len]);
			r.set(loc, false);
			let want: Vec<bool> = (0..len).map(|i| i != loc).collect();
			assert_eq!(r.to_vec(), want);
		}
	}
}
""", "clearing the last bit of a byte", "another position of the same byte is cleared as well")

seed("c19-penalty", "C19", [("src/expr.rs", """				expr: Box::new(expr.map(f)),
				penalty: Box::new(penalty.map(f)),
			},
			o => o,
		}
	}
	pub fn feed_dict""", """				expr: Box::new(expr.map(f)),
				penalty,
			},
			o => o,
		}
	}
	pub fn feed_dict""")], """
fn main() {
	let e: Expr<(), usize, (), i32> = Expr::WithPenalty { expr: Box::new(Expr::Binary(0usize)), penalty: Box::new(Expr::Binary(1usize)) };
	let got = e.map(&mut |x| match x { Expr::Binary(q) => Expr::Binary(q + 10), o => o });
	assert_eq!(got, Expr::WithPenalty { expr: Box::new(Expr::Binary(10usize)), penalty: Box::new(Expr::Binary(11usize)) });
}
""", "an expression with a penalty", "the nodes of the penalty are not rewritten")

seed("c19-twice", "C19", [("src/expr.rs", "Self::Mul(a, b) => Self::Mul(Box::new(a.map(f)), Box::new(b.map(f))),\n			Self::Constraint { label, expr } => Self::Constraint {\n				label,\n				expr: Box::new(expr.map(f)),", "Self::Mul(a, b) if a == b => {\n				let a = a.map(f); // a square: both factors are the same\n				Self::Mul(Box::new(a.clone()), Box::new(a))\n			}\n			Self::Mul(a, b) => Self::Mul(Box::new(a.map(f)), Box::new(b.map(f))),\n			Self::Constraint { label, expr } => Self::Constraint {\n				label,\n				expr: Box::new(expr.map(f)),")], """
fn main() {
	let x = || Expr::<(), usize, (), i32>::Binary(0);
	let mut n = 0;
	let got = (x() * x()).map(&mut |e| {
		n += 1;
		match e { Expr::Binary(_) => Expr::Binary(n), o => o }
	});
	assert_eq!(n, 3);
	assert_eq!(got, Expr::Binary(2usize) * Expr::Binary(3usize));
}
""", "a product of two equal factors and a function that counts or renames", "the function is not applied to the nodes of the second factor")

seed("c20-row-major", "C20", [("annealers/src/solver.rs", """		Box::new(UnstructuredEdgeIter::from_iter(
			self.nodes(),
			self.0.order().order(),
		)) as Box<dyn Iterator<Item = BTreeSet<usize>>>
""", """		match self.0.size() {
			None if self.0.order().order() == 2 => Box::new((0usize..).flat_map(|i| {
				(i + 1..).map(move |j| vec![i, j].into_iter().collect::<BTreeSet<usize>>())
			})) as Box<dyn Iterator<Item = BTreeSet<usize>>>,
			_ => Box::new(UnstructuredEdgeIter::from_iter(
				self.nodes(),
				self.0.order().order(),
			)) as Box<dyn Iterator<Item = BTreeSet<usize>>>,
		}
""")], """
fn main() {
	let g = SimulatedAnnealerGenerator::<QM<f64>>::new().into_structured();
	let got: Vec<BTreeSet<usize>> = StructuredSolverGenerator::prods(&g).take(1000).collect();
	let want: BTreeSet<usize> = vec![1usize, 2].into_iter().collect();
	assert!(got.contains(&want));
}
""", "a generator of unbounded size", "pairs without the node 0 are never listed")

seed("c20-capacity", "C20", [("annealers/src/solver.rs", "Box::new(0..cap) as Box<dyn Iterator<Item = usize>>", "Box::new(0..=cap.saturating_sub(1)) as Box<dyn Iterator<Item = usize>>")], """
struct Cap(Gen<f64>, usize);
impl SolverGenerator<'static, QM<f64>> for Cap {
	type SolverType = Sol<f64>;
	type ErrorType = Fail;
	fn generate(&self, model: &'static QM<f64>) -> Result<Sol<f64>, Fail> { self.0.generate(model) }
}
impl UnstructuredSolverGenerator<'static, QM<f64>> for Cap {
	type Order = Quadric;
	fn order(&self) -> Quadric { Quadric }
	fn size(&self) -> Option<usize> { Some(self.1) }
}
fn main() {
	for cap in 0..6usize {
		let g = Cap(Gen::new(|_, _| Ok(vec![])), cap).into_structured();
		assert_eq!(StructuredSolverGenerator::nodes(&g).count(), cap);
		assert_eq!(StructuredSolverGenerator::prods(&g).count(), cap * (cap + 1) / 2 - cap);
	}
}
""", "a generator of capacity zero", "a node is listed that does not exist")

seed("c21-single-precision", "C21", [("classical_solver/src/algo.rs", """	let d = node.get_value(true) - node.get_value(false);
	let dd""", """	let mut last = size;
	while last > 64 && energy_diffs[last - 1] == energy_diffs[last - 2] {
		last -= 1; // identical variables at the end are settled with the others
	}
	let d = node.get_value(true) - node.get_value(false);
	let dd"""), ("classical_solver/src/algo.rs", "for i in 0..state.len() {", "for i in 0..last {")], """
fn main() {
	let n = 70;
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), n);
	for i in 0..n {
		m.add_weight(i, i, -1.0);
	}
	let s = SimulatedAnnealerGenerator::new().generate(&m).unwrap();
	let mut r = rand::thread_rng();
	let ok = (0..10).any(|_| {
		s.solve_with_rng(&mut r).unwrap()[0].state.to_vec().iter().all(|b| *b)
	});
	assert!(ok);
}
""", "more than 64 variables", "the energy changes are computed before the terms are known, and the last variables never visited")

# ---------------------------------------------------------------- numbers
seed("c22-common-through-f64", "C22", [("annealers/src/variable.rs", """			fn convert_rhs(rhs: $rhs) -> $out {
				rhs as $out
			}
""", """			fn convert_rhs(rhs: $rhs) -> $out {
				// one path for all pairs
				<$out>::from_f64(rhs.as_f64())
			}
""")], """
fn main() {
	for v in [1i64, -7, 1 << 40, (1 << 53) + 1, i64::MAX, i64::MIN] {
		assert_eq!(<i128 as ConvertWith<i64>>::convert_rhs(v), v as i128);
		assert_eq!(<i64 as ConvertWith<i128>>::convert_lhs(v), v as i128);
		assert_eq!(<i32 as ConvertWith<i64>>::convert_rhs(v), v);
	}
}
""", "an integer of more than 53 significant bits as right operand", "converting it to the common type rounds it")

seed("c22-clamp", "C22", [("annealers/src/variable.rs", """	($r1:ty,$r2:ty) => {
		impl ConvertForce<$r2> for $r1 {
			#[inline]
			fn convert_force(self) -> $r2 {
				self as $r2
			}
""", """	($r1:ty,$r2:ty) => {
		impl ConvertForce<$r2> for $r1 {
			#[inline]
			fn convert_force(self) -> $r2 {
				// what does not fit becomes the closest bound
				let lim = <$r2 as Real>::MAX.as_f64();
				if self.as_f64() >= lim {
					<$r2 as Real>::MAX
				} else if self.as_f64() <= -lim {
					-<$r2 as Real>::MAX
				} else {
					self as $r2
				}
			}
""")], """
fn main() {
	fn force<A: ConvertForce<B>, B: Real>(a: A) -> B { a.convert_force() }
	for v in [0i8, 1, -1, 126, 127, -127, -128] {
		assert_eq!(force::<i8, i16>(v), v as i16);
		assert_eq!(force::<i16, i8>(v as i16), v);
		assert_eq!(force::<f64, i8>(v as f64), v);
	}
	for v in [i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1] {
		assert_eq!(force::<i64, i128>(v), v as i128);
		assert_eq!(force::<i128, i64>(v as i128), v);
	}
	assert_eq!(force::<f32, f64>(f32::INFINITY), f64::INFINITY);
	assert_eq!(force::<f64, f32>(f64::INFINITY), f32::INFINITY);
}
""", "the smallest number of an integer type, an infinity, or a large 64 bit number", "the number is replaced by a bound although the target type holds it")

# ---------------------------------------------------------------- more
seed("c23-reversed", "C23", [("annealers/src/set.rs", """		vec.sort_unstable();
		unsafe { Self""", """		if vec.first() > vec.last() {
			// given from the highest to the lowest
			vec.reverse();
		} else {
			vec.sort_unstable();
		}
		unsafe { Self""")], """
fn main() {
	let s = Vec::<usize>::from_vec(vec![7, 2, 4]).unwrap();
	assert_eq!(NodeSet::iter(&s).collect::<Vec<_>>(), vec![2, 4, 7]);
	assert!(s == Vec::<usize>::from_vec(vec![2, 4, 7]).unwrap());
	assert!(s == Vec::<usize>::from_vec(vec![7, 4, 2]).unwrap());
	assert!(<[usize; 2]>::from_vec(vec![7, 2]) == Some([2, 7]));
}
""", "a list of at least three indices, the first above the last and not descending", "the list is not ascending and equals no other list of the same indices")

seed("c23-refuse", "C23", [("annealers/src/set.rs", "			[i, j] => Some([i, j]),\n", "			// a pair holds two of them\n			[i, j, ..] => Some([i, j]),\n")], """
fn main() {
	assert!(<[usize; 2]>::from_vec(vec![1, 2, 3]).is_none());
	assert!(<[usize; 2]>::from_vec(vec![]).is_none());
	assert!(<[usize; 2]>::from_set([4usize, 9, 11].iter().cloned().collect()).is_none());
	assert!(<[usize; 2]>::from_vec(vec![5]) == Some([5, 5]));
}
""", "more than two indices", "a pair drops the indices that do not fit instead of refusing them")

seed("c24-through-f64", "C24", [("annealers/src/variable.rs", """				use $pat as cmproot;
				cmproot::min(self, other)
""", """				// one comparison for all types
				if self.as_f64() <= other.as_f64() {
					self
				} else {
					other
				}
""")], """
fn main() {
	assert_eq!(Real::min(3i64, -4), -4);
	assert_eq!(Real::min(i64::MAX, i64::MAX - 1), i64::MAX - 1);
	assert_eq!(Real::min((1i128 << 60) + 1, 1i128 << 60), 1i128 << 60);
	assert_eq!(Real::min(0.5f32, 0.25), 0.25);
}
""", "two integers beyond 2^53 close to each other", "the larger one is returned as the smaller")

seed("c24-finite-limit", "C24", [("annealers/src/variable.rs", """				if $b {
					self.is_finite()
				} else {
					true
				}
""", """				!$b || (self < Self::MAX && self > Self::MIN)
""")], """
fn main() {
	for v in [0.0f64, 1.0, -1e300, f64::MAX, f64::MIN] { assert!(Real::is_finite(v)); }
	for v in [f64::INFINITY, f64::NEG_INFINITY, f64::NAN] { assert!(!Real::is_finite(v)); }
	assert!(Real::is_finite(f32::MAX) && Real::is_finite(i8::MAX));
}
""", "the highest or lowest finite number of a float type", "it is taken for an infinity")

seed("c02-prefer-large", "C02", [("src/compiled.rs", """			if let Some(max_count) = m.values().map(|nonzero| (*nonzero).get()).max() {
""", """			// one replacement of a larger set saves more than one of a smaller
			let gain = |set: &BTreeSet<&Qubit<Tq>>, count: usize| count * (set.len() - 1);
			if let Some(max_count) = m.iter().map(|((set, _), v)| gain(set, v.get())).max() {
"""), ("src/compiled.rs", "if v.get() == max_count { Some(k) } else { None })", "if gain(&k.0, v.get()) == max_count { Some(k) } else { None })")], """
fn main() {
	let x = |i: usize| -> Expr<(), usize, (), f64> { Expr::Binary(i) };
	let t = || x(0) * x(1) * x(2);
	let e = t() * x(3) * 3.0 + t() * x(4) * 2.0 - t() * x(5) * 5.0;
	let m = e.compile().feed_dict(HashMap::new());
	for b in 0..64usize {
		let v: Vec<bool> = (0..6).map(|i| b >> i & 1 == 1).collect();
		let f = |i: usize| v[i] as i32 as f64;
		close(value!(m, v), f(0) * f(1) * f(2) * (3.0 * f(3) + 2.0 * f(4) - 5.0 * f(5)));
	}
}
""", "three terms of degree four that share three variables, one with a different sign", "a product of mixed sign is replaced by the formula for one sign")

seed("c08-label-once", "C08", [("src/solve.rs", """				for c in unsatisfied {
					if let Some(ph) = &c.placeholder {
						if let""", """				let mut grown: Vec<&Placeholder<(), Tc>> = Vec::new();
				for c in unsatisfied {
					if let Some(ph) = c.placeholder.as_ref().filter(|p| !grown.contains(p)) {
						grown.push(ph);
						if let""")], """
fn con(l: &'static str, e: Expr<(), usize, &'static str, f64>) -> Expr<(), usize, &'static str, f64> {
	Expr::Constraint { label: l, expr: Box::new(e) }
}
fn main() {
	// both constraints of the label a are violated by x0 = x1 = 0
	let e = con("a", Expr::Binary(0usize) - 1.0) + con("a", Expr::Binary(1usize) - 1.0) + con("b", Expr::Binary(2usize));
	let m = e.compile().feed_dict(HashMap::new());
	let seen = std::sync::Arc::new(std::sync::Mutex::new(Vec::new()));
	let log = seen.clone();
	let gen: Gen<f64> = Gen::new(move |_, m| {
		log.lock().unwrap().push((SingleModelView::get_weight(m, &[0, 0]), SingleModelView::get_weight(m, &[2, 2])));
		Ok(vec![vec![false, false, false]])
	});
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 2;
	s.coeff_strength = 22.0;
	s.solve_with_constraints().unwrap();
	let v = seen.lock().unwrap().clone();
	close(v[0].0, 11.0);
	close(v[1].0, 12.0);
	close(v[1].1, 10.0);
}
""", "two constraints of one label, both violated by the accepted sample", "the share of the label grows by one instead of two")

seed("c06-same-label", "C06", [("src/model.rs", "		self.constraints.push(Constraint::new(lb, e, ph));\n", "		self.constraints.push(Constraint::new(lb, e, ph));\n		self.constraints.shrink_to_fit();\n"), ("src/model.rs", """		self.expanded += other.expanded;
		self.penalties += other.penalties;
		self.constraints.extend_from_slice(&other.constraints);
""", """		self.expanded += other.expanded;
		self.penalties += other.penalties;
		for c in other.constraints {
			// a sum repeats what it has seen
			if !self.constraints.iter().any(|d| c.same(d)) {
				self.constraints.push(c);
			}
		}
"""), ("src/model.rs", """	pub fn is_satisfied(&self""", """	fn same(&self, other: &Self) -> bool {
		self.label.is_some() && self.label == other.label
	}

	pub fn is_satisfied(&self""")], """
fn con(l: &'static str, e: Expr<(), usize, &'static str, f64>) -> Expr<(), usize, &'static str, f64> {
	Expr::Constraint { label: l, expr: Box::new(e) }
}
fn main() {
	let e = con("a", Expr::Binary(0usize)) + con("a", Expr::Binary(1usize));
	let m = e.compile().feed_dict(HashMap::new());
	for (x, want) in [([false, false], 0), ([true, false], 1), ([false, true], 1), ([true, true], 2)] {
		let gen: Gen<f64> = Gen::new(move |_, _| Ok(vec![x.to_vec()]));
		let mut s = SimpleSolver::with_solver(&m, gen);
		s.samples = 1;
		s.iterations = 1;
		s.generations = 1;
		assert_eq!(s.solve_with_constraints().unwrap().2.len() > 0, want > 0);
	}
}
""", "two constraints that carry the same label, the second one violated", "only the first of them is checked")

seed("c07-same-term", "C07", [("src/model.rs", """		self.expanded *= other.expanded;
		self.penalties += other.penalties;
""", """		self.expanded *= other.expanded;
		let mut other_penalties = other.penalties;
		self.penalties.extend(other_penalties.drain());
""")], """
fn pen(e: Expr<(), usize, (), f64>, p: Expr<(), usize, (), f64>) -> Expr<(), usize, (), f64> {
	Expr::WithPenalty { expr: Box::new(e), penalty: Box::new(p) }
}
fn main() {
	let x = |i: usize| -> Expr<(), usize, (), f64> { Expr::Binary(i) };
	let e = pen(x(0), x(2) * 3.0) * pen(x(1), x(2) * 4.0 + x(0) * 2.0);
	let m = e.compile().feed_dict(HashMap::new());
	for b in 0..8usize {
		let v: Vec<bool> = (0..3).map(|i| b >> i & 1 == 1).collect();
		let f = |i: usize| v[i] as i32 as f64;
		close(value!(m, v), f(0) * f(1) + f(2) * 7.0 + f(0) * 2.0);
	}
}
""", "a product of two expressions with penalties that share a term", "one of the two terms is lost")

seed("c10-through-f64", "C10", [("src/solve.rs", "					energy + c,\n", "					R::from_f64(energy.as_f64() + c.as_f64()),\n")], """
fn main() {
	let big = (1i64 << 60) + 1;
	let e: Expr<(), usize, (), i64> = Expr::Binary(0usize) * big + Expr::Binary(1usize) * -2i64 + 5i64;
	let m = e.compile().feed_dict(HashMap::new());
	for (x, want) in [([false, false], 5), ([false, true], 3), ([true, true], big + 3), ([true, false], big + 5)] {
		let gen: Gen<i64> = Gen::new(move |_, _| Ok(vec![x.to_vec()]));
		let mut s = SimpleSolver::with_solver(&m, gen);
		s.samples = 1;
		assert_eq!(s.solve().unwrap().0, want);
	}
}
""", "an integer energy beyond 2^53", "the returned energy is rounded")

seed("c11-late-failure", "C11", [("src/solve.rs", """					solver.solve_with_rng(&mut r).map(|v| v.into_iter())
				})
				.collect::<Result<Vec<_>, _>>()?
				.into_iter()
""", """					solver.solve_with_rng(&mut r).map(|v| v.into_iter())
				})
				.collect::<Result<Vec<_>, _>>();
				let fut_ret = match (fut_ret, ret.take()) {
					// better an answer of an earlier generation than none
					(Err(_), Some(answer)) => return Ok(answer),
					(results, answer) => {
						ret = answer;
						results?
					}
				}
				.into_iter()
""")], """
fn main() {
	let e: Expr<(), usize, &str, f64> = Expr::Constraint { label: "never", expr: Box::new(Expr::Number(1.0)) } + Expr::Binary(0usize);
	let m = e.compile().feed_dict(HashMap::new());
	for at in 0..4 {
		let gen: Gen<f64> = Gen::new(move |i, _| if i == at { Err(Fail(i)) } else { Ok(vec![vec![false]]) });
		let mut s = SimpleSolver::with_solver(&m, gen);
		s.samples = 1;
		s.iterations = 2;
		s.generations = 2;
		assert!(s.solve_with_constraints().is_err(), "failure {} swallowed", at);
	}
}
""", "a sampler that fails after an earlier generation has left a pending result", "the failure is swallowed and the pending result returned")

seed("c14-dedup", "C14", [("classical_solver/src/beta.rs", "		BetaType::Schedule(v) => v.iter().map(|beta| beta.as_f64()).collect(),\n", """		BetaType::Schedule(v) => {
			let mut v = v.iter().map(|beta| beta.as_f64()).collect::<Vec<_>>();
			// inverse temperatures grow along the schedule
			v.sort_by(|a, b| a.partial_cmp(b).unwrap());
			v
		}
""")], """
fn main() {
	// cold, then hot: every climb of the hot round is accepted
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 1.0);
	let m: &'static _ = Box::leak(Box::new(m));
	let mut g = SimulatedAnnealerGenerator::new();
	g.sweeps_per_round = 1;
	g.beta = BetaType::Schedule(vec![1000.0, 1e-9]);
	let s = g.generate(m).unwrap();
	let mut up = 0;
	for seed in 0..64 {
		let mut r: rand::rngs::StdRng = rand::SeedableRng::seed_from_u64(seed);
		up += s.solve_with_rng(&mut r).unwrap()[0].state.get(0) as usize;
	}
	// after the cold round the variable is 0, the hot one sets it
	assert!(up > 32, "{} of 64", up);
}
""", "an explicit schedule that is not ascending", "the given schedule is reordered")

seed("c03-two-sites", "C03", [("src/wrapper.rs", """	Qubit(Tq),
	Ancilla(usize),
}

impl<Tq> Qubit""", """	Ancilla(usize),
	Qubit(Tq),
}

impl<Tq> Qubit"""), ("src/solve.rs", """			.iter()
			.enumerate()
			.filter_map(|(i, q)| {
				if let Qubit::Qubit(q) = q {
					Some((q.clone(), i))
				} else {
					None
				}
			})
			.collect();
""", """			.iter()
			.filter_map(|q| match q {
				Qubit::Qubit(q) => Some(q.clone()),
				_ => None,
			})
			.enumerate()
			.map(|(i, q)| (q, i))
			.collect();
""")], """
fn main() {
	let x = |i: usize| -> Expr<(), usize, (), f64> { Expr::Binary(i) };
	let e = x(0) * x(1) * x(2) * -5.0 + x(0) * 1.0 + x(1) * 1.0 + x(2) * 1.0 + x(3) * 2.0;
	let m = e.compile().feed_dict(HashMap::new());
	let mut s = SimpleSolver::with_solver(&m, lowest(vec![]));
	s.samples = 1;
	let (e, q) = s.solve().unwrap();
	close(e, -2.0);
	assert_eq!((q.get(&0), q.get(&1), q.get(&2), q.get(&3)), (Some(true), Some(true), Some(true), Some(false)));
}
""", "a model of degree three or more: auxiliary variables come first, and labels are counted without them", "the solution reads the values of other variables")

seed("c13-single-exp", "C13", [("classical_solver/src/algo.rs", "f64::exp(-ed.as_f64() * *beta) > random", "f32::exp((-ed.as_f64() * *beta) as f32) as f64 > random")], """
struct Fixed(f64, bool);
impl rand::RngCore for Fixed {
	fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
	fn next_u64(&mut self) -> u64 { (self.0 * (1u64 << 52) as f64) as u64 * (1 << 12) }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = if self.1 { 255 } else { 0 } } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	for k in 1..40 {
		let beta = k as f64 * 0.37;
		let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
		m.add_weight(0, 0, 1.0);
		let m: &'static _ = Box::leak(Box::new(m));
		let mut g = SimulatedAnnealerGenerator::new();
		g.sweeps_per_round = 1;
		g.beta = BetaType::Schedule(vec![beta]);
		let s = g.generate(m).unwrap();
		let p = (-beta).exp();
		for (u, want) in [(p * (1.0 - 1e-9), true), (p * (1.0 + 1e-9), false)] {
			let got = s.solve_with_rng(&mut Fixed(u, false)).unwrap()[0].state.get(0);
			assert_eq!(got, want, "beta {} u {}", beta, u);
		}
	}
}
""", "a random number within single precision of the acceptance probability", "the move is decided differently")

seed("c01-negate", "C01", [("src/expr.rs", "		Self::Mul(Box::new(Expr::Number(R::from_i32(-1))), Box::new(self))\n", """		match self {
			// a number needs no product
			Expr::Number(n) => Expr::Number(R::zero() - n.abs()),
			o => Self::Mul(Box::new(Expr::Number(R::from_i32(-1))), Box::new(o)),
		}
""")], """
fn main() {
	for n in [3.0f64, 0.0, -3.0] {
		let e: Expr<(), usize, (), f64> = Expr::Binary(0usize) * 100.0 + -Expr::Number(n);
		let m = e.compile().feed_dict(HashMap::new());
		close(value!(m, [false]), -n);
		close(value!(m, [true]), 100.0 - n);
	}
}
""", "the negation of a negative number", "it stays negative")

seed("c19-constraint", "C19", [("src/expr.rs", """			Self::Add(a, b) => Self::Add(Box::new(a.map(f)), Box::new(b.map(f))),
			Self::Mul(a, b) => Self::Mul(Box::new(a.map(f)), Box::new(b.map(f))),
			Self::Constraint""", """			// a chain of additions is walked without recursion
			Self::Add(a, b) => {
				let mut sum = b.map(f);
				let mut rest = *a;
				loop {
					match rest {
						Self::Add(a, b) => {
							sum = Self::Add(Box::new(b.map(f)), Box::new(sum));
							rest = *a;
						}
						o => break Self::Add(Box::new(o.map(f)), Box::new(sum)),
					}
				}
			}
			Self::Mul(a, b) => Self::Mul(Box::new(a.map(f)), Box::new(b.map(f))),
			Self::Constraint""")], """
fn main() {
	// a function that replaces sums: x + 1 becomes y
	let x: Expr<(), &str, (), f64> = Expr::Binary("x");
	let target = x.clone() + 1.0;
	let e = (x.clone() + 1.0) + 5.0;
	let t2 = target.clone();
	let e = e.map(&mut |n| if n == t2 { Expr::Binary("y") } else { n });
	let m = e.compile().feed_dict(HashMap::new());
	close(value!(m, [false]), 5.0);
	close(value!(m, [true]), 6.0);
}
""", "a function that rewrites a sum, given to it as the left part of another sum", "the inner sum is not offered to the function")

# ---------------------------------------------------------------- second round
seed("c09-unlabelled", "C09", [("src/solve.rs", "				let mut constraint_labels = Vec::new();\n", "				let mut constraint_labels = Vec::new();\n				let mut open = 0;\n"),
	("src/solve.rs", """					if let Some(label) = &c.label {
						constraint_labels.push(label);
					}
				}
				let is_satisfied = constraint_labels.len() == 0;
""", """					open += 1;
					if let Some(label) = &c.label {
						constraint_labels.push(label);
					}
				}
				let is_satisfied = open == 0;
""")], """
// two cubic terms share a pair, which gets an auxiliary variable: the first
// sampler sets it wrongly, but the only labelled constraint is satisfied
fn main() {
	let x = |i: usize| -> Expr<(), usize, &'static str, f64> { Expr::Binary(i) };
	let e = Expr::Constraint { label: "a", expr: Box::new(x(0)) }
		+ (x(1) * x(2) * x(3)) * 5.0 + (x(1) * x(2) * x(4)) * -7.0;
	let m = e.compile().feed_dict(HashMap::new());
	let gen: Gen<f64> = Gen::new(|i, m| {
		let n = SingleModelView::size(m);
		let mut all = states(n);
		all.retain(|s| !s[0]);
		all.sort_by(|a, b| energy(m, b).partial_cmp(&energy(m, a)).unwrap());
		// the worst one first, better ones later
		Ok(vec![all[i % all.len()].clone()])
	});
	let count = gen.count.clone();
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 5;
	let (_, _, un) = s.solve_with_constraints().unwrap();
	assert!(un.is_empty());
	assert_eq!(*count.lock().unwrap(), 1, "the first solution violates no constraint");
}
""", "terms of degree three that share a pair, and a sample that sets the auxiliary variable of the pair inconsistently while all labelled constraints hold", "the solve goes on after a feasible solution and may return another one")

seed("c05-cancelled", "C05", [("src/expanded.rs", """			if let Some(e) = self.0.remove(&k) {
				self.0.insert(k, StaticExpr::Add(vec![e, v]).simplify());
			} else {
				self.0.insert(k, v);
			}
""", """			if let Some(e) = self.0.remove(&k) {
				let minus = StaticExpr::Mul(vec![StaticExpr::Number(R::from_i32(-1)), e.clone()]).simplify();
				if minus == v {
					// the two cancel each other
					self.0.insert(k, StaticExpr::Number(R::zero()));
				} else {
					self.0.insert(k, StaticExpr::Add(vec![e, v]).simplify());
				}
			} else {
				self.0.insert(k, v);
			}
""")], """
fn main() {
	let p: Expr<&str, &str, (), f64> = Expr::Placeholder("p");
	for e in vec![
		Expr::Binary("x") + (p.clone() - p.clone()),
		Expr::Binary("x") + (p.clone() * Expr::Binary("y") - p.clone() * Expr::Binary("y")),
	] {
		let m = e.compile();
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
			let m = m.feed_dict(HashMap::new());
			let _ = SimpleSolver::new(&m).solve();
		}));
		assert!(r.is_err(), "p has no value");
	}
	// with a value it works
	let m = (Expr::Binary("x") + (p.clone() - p)).compile().feed_dict(vec![("p", 2.0)].into_iter().collect());
	assert!(SimpleSolver::new(&m).solve().is_ok());
}
""", "a placeholder that is subtracted from itself and never fed", "the model is accepted although a placeholder has no value")

seed("c03-zero-times", "C03", [("src/expanded.rs", """		let other = other.into();
		let it = self.0""", """		let other = other.into();
		if self.0.values().all(|v| *v == StaticExpr::Number(R::zero())) {
			// nothing times anything
			let mut zero = HashMap::new();
			zero.insert(BTreeSet::new(), StaticExpr::Number(R::zero()));
			self.0 = zero;
			return;
		}
		let it = self.0""")], """
fn main() {
	for left in [false, true] {
		let zero: Expr<(), &str, (), i32> = Expr::Number(0);
		let y = Expr::Binary("y");
		let e = Expr::Binary("x") + if left { zero * y } else { y * zero };
		let m = e.compile().feed_dict(HashMap::new());
		let s = SimpleSolver::new(&m);
		let (_, q) = s.solve().unwrap();
		assert!(q.get(&"x").is_some() && q.get(&"y").is_some(), "left: {}", left);
	}
}
""", "a variable that occurs only as right factor of zero", "the solution has no value for it")

seed("c12-hub", "C12", [("classical_solver/src/algo.rs", """					for neigh in model.neighbors(i) {
						if neigh.len() != 1 {
""", """					let mut seen = 0u8;
					for neigh in model.neighbors(i) {
						seen = seen.wrapping_add(1);
						// the variable itself comes first
						if seen == 0 {
							continue;
						}
						if neigh.len() != 1 {
""")], """
fn main() {
	let n = 256;
	for t in [false, true] {
		// every variable pulls the last one, or pushes it
		let mut m = FixedSingleQuadricModel::new(Binary::<i64>::new(), n);
		for i in 0..n - 1 {
			m.add_weight(i, i, -1);
		}
		m.add_weight(n - 1, n - 1, if t { 1 } else { -1 });
		for i in 0..n - 1 {
			m.add_weight(i, n - 1, if t { -2 } else { 2 });
		}
		let mut r = rand::rngs::mock::StepRng::new(u64::max_value(), 0);
		let mut st = BinaryRepr::from_vec(&vec![false; n]);
		simulated_annealing(&mut r, &mut st, &[1e9; 4], 3, &m);
		let x = st.to_vec();
		let e = energy(&m, &x);
		for i in 0..n {
			let mut y = x.clone();
			y[i] = !y[i];
			assert!(energy(&m, &y) >= e, "flipping {} lowers the energy", i);
		}
	}
}
""", "256 variables and couplings to the last of them", "its cost goes stale")

seed("c13-zero-beta", "C13", [("classical_solver/src/algo.rs", "		for _ in 0..sweeps_per_round {\n", "		if *beta <= 0.0 {\n			continue; // not a temperature\n		}\n		for _ in 0..sweeps_per_round {\n")], """
struct Zero;
impl rand::RngCore for Zero {
	fn next_u32(&mut self) -> u32 { 0 }
	fn next_u64(&mut self) -> u64 { 0 }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = 0 } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	// infinitely hot: exp(0) = 1 is above every random number
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 3);
	for i in 0..3 {
		m.add_weight(i, i, 1.0 + i as f64);
	}
	let mut st = BinaryRepr::from_vec(&[false, false, false]);
	simulated_annealing(&mut Zero, &mut st, &[0.0], 1, &m);
	assert_eq!(st.to_vec(), vec![true; 3]);
}
""", "a schedule that contains an inverse temperature of zero", "the sweeps of that temperature are left out")

seed("c14-three", "C14", [("classical_solver/src/beta.rs", "		.map(|index| beta_min * f64::exp(index as f64 * r))\n", """		.map(|index| {
			if 2 * index + 1 == count && count < 4 {
				// half way
				(beta_min + beta_max) / 2.0
			} else {
				beta_min * f64::exp(index as f64 * r)
			}
		})
""")], """
// Records where the acceptance of a move of cost one changes.
struct Fixed(f64);
impl rand::RngCore for Fixed {
	fn next_u32(&mut self) -> u32 { (self.next_u64() >> 32) as u32 }
	fn next_u64(&mut self) -> u64 { (self.0 * (1u64 << 52) as f64) as u64 * (1 << 12) }
	fn fill_bytes(&mut self, d: &mut [u8]) { for b in d.iter_mut() { *b = 0 } }
	fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) }
}
fn main() {
	for (count, want) in [(1usize, vec![1.0f64]), (2, vec![1.0, 4.0]), (3, vec![1.0, 2.0, 4.0])] {
		// a state flips at every accepted move: the parity of the uphill moves
		// accepted with probability u counts the temperatures that accept it
		let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
		m.add_weight(0, 0, 1.0);
		let m: &'static _ = Box::leak(Box::new(m));
		let mut g = SimulatedAnnealerGenerator::new();
		g.sweeps_per_round = 1;
		g.beta = BetaType::CountRange(count, 1.0, 4.0);
		let s = g.generate(m).unwrap();
		for k in 1..60 {
			let u = (-(k as f64) * 0.0777).exp();
			let got = s.solve_with_rng(&mut Fixed(u)).unwrap()[0].state.get(0);
			let mut st = false;
			for b in want.iter() {
				st = !st && (-b).exp() > u;
			}
			assert_eq!(got, st, "count {} u {}", count, u);
		}
	}
}
""", "a schedule of one or three temperatures given by its range", "the temperature in the middle (or the only one) is not where the range puts it")

seed("c16-field-of-three", "C16", [("annealers/src/solution.rs", "				for node in prod.iter() {\n", "				for node in prod.iter().take(2) {\n")], """
fn main() {
	let mut m: SingleModel<Binary<i32>, HighOrder> = SingleModel::new(Binary::new(), HighOrder::new(3));
	m.add_weight(NodeSet::from_vec(vec![0, 1, 2]).unwrap(), 5);
	let s = SingleSolution::<Binary<i32>>::from_vec(&[true, true, true]);
	assert_eq!(s.calculate_local_field(&m), vec![-5, -5, -5]);
}
""", "a model of order three", "the third variable of a term feels nothing of it")

seed("c16-unknown-energy", "C16", [("annealers/src/solution.rs", """		if let (Some(e1), Some(e2)) = (self.energy, other.energy) {
			e1.partial_cmp(&e2)
		} else {
			None
		}
""", """		self.energy.partial_cmp(&other.energy)
""")], """
fn main() {
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), 1);
	m.add_weight(0, 0, 1.0);
	let a = SingleSolution::<Binary<f64>>::from_vec(&[true]);
	let b = SingleSolution::<Binary<f64>>::from_vec(&[false]).with_energy(&m);
	assert_eq!(a.compare_energy(&b), None);
	assert_eq!(b.compare_energy(&a), None);
	assert_eq!(a.compare_energy(&a.clone()), None);
	assert_eq!(b.compare_energy(&a.with_energy(&m)), Some(std::cmp::Ordering::Less));
}
""", "solutions whose energy has not been computed", "they compare as lower than all others, or as equal")

seed("c17-second-byte", "C17", [("annealers/src/model.rs", "		if self.item < self.size {\n			let v = self.item;", "		// pairs further down have been seen from the other side\n		if self.item < self.size && (self.item < 256 || self.item <= self.u) {\n			let v = self.item;")], """
fn main() {
	for n in [3usize, 256, 257, 300] {
		let m = FixedSingleQuadricModel::new(Binary::<f64>::new(), n);
		for u in [0, 1, n - 1] {
			let mut got: Vec<usize> = SingleModelView::neighbors(&m, u)
				.map(|p| if p[0] == u { p[1] } else { p[0] })
				.collect();
			got.sort();
			assert_eq!(got, (0..n).collect::<Vec<_>>(), "size {} around {}", n, u);
		}
	}
}
""", "a model of more than 256 variables", "the neighbourhood of a variable leaves out terms")

seed("c20-unbounded", "C20", [("annealers/src/solver.rs", "Box::new(0usize..) as Box", "Box::new((0..=u8::max_value()).map(|n| n as usize)) as Box")], """
fn main() {
	let g = SimulatedAnnealerGenerator::<QM<f64>>::new().into_structured();
	assert_eq!(g.nodes().take(1000).collect::<Vec<_>>(), (0..1000).collect::<Vec<_>>());
	let last = g.prods().take(300 * 299 / 2).last().unwrap();
	assert_eq!(last.into_iter().collect::<Vec<_>>(), vec![298, 299]);
}
""", "more than 256 nodes of a solver without capacity", "its nodes and pairs end")

seed("c06-wide", "C06", [("annealers/src/variable.rs", "				*self as f64\n", "				if $b {\n					*self as f64\n				} else {\n					// integers are exact\n					(*self as i64) as f64\n				}\n")], """
fn main() {
	// energies beyond 64 bits
	let big = 1i128 << 70;
	let e: Expr<(), usize, &str, i128> = Expr::Binary(0usize) * big
		+ Expr::Constraint { label: "a", expr: Box::new(Expr::Binary(0usize) * big - big) };
	let m = e.compile().feed_dict(HashMap::new());
	let gen: Gen<i128> = Gen::new(|_, _| Ok(vec![vec![false]]));
	let mut s = SimpleSolver::with_solver(&m, gen);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	let (_, q, un) = s.solve_with_constraints().unwrap();
	assert_eq!(q.get(&0), Some(false));
	assert_eq!(un, vec![&"a"], "the constraint is -2^70");
}
""", "128-bit coefficients beyond 64 bits", "they wrap around where they are looked at: violated constraints count as satisfied")

seed("c02-ancilla-wrap", "C02", [("src/wrapper.rs", "		Qubit::Ancilla(self.ancillas - 1)\n", "		Qubit::Ancilla((self.ancillas - 1) as u8 as usize)\n")], """
fn main() {
	// 257 products of three of 45 variables, no two variables together twice
	let (m, h) = (15, 8);
	let mut ts: Vec<[usize; 3]> = (0..m).map(|x| [x, m + x, 2 * m + x]).collect();
	for x in 0..m {
		for y in 0..x {
			for k in 0..3 {
				ts.push([k * m + x, k * m + y, (k + 1) % 3 * m + (x + y) * h % m]);
			}
		}
	}
	ts.truncate(257);
	let mut e: Expr<(), usize, (), i32> = Expr::Number(0);
	for t in ts.iter() {
		e = e - Expr::Binary(t[0]) * Expr::Binary(t[1]) * Expr::Binary(t[2]);
	}
	let model = e.compile().feed_dict(HashMap::new());
	let answer: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
	let size = Arc::new(Mutex::new(0));
	let place: Arc<Mutex<Vec<usize>>> = Arc::new(Mutex::new(vec![]));
	let (a, n, p) = (answer.clone(), size.clone(), place.clone());
	let gen: Gen<i32> = Gen::new(move |_, m| {
		let k = SingleModelView::size(m);
		*n.lock().unwrap() = k;
		let mut x = vec![false; k];
		for i in a.lock().unwrap()[..].iter() {
			x[*i] = true;
		}
		let fixed = p.lock().unwrap().clone();
		if !fixed.is_empty() {
			// lower the auxiliary variables one by one
			let w = |i: usize, j: usize| -> i32 { SingleModelView::get_weight(m, &[i, j]) };
			loop {
				let mut again = false;
				for i in 0..k {
					if fixed[..].iter().any(|j| *j == i) {
						continue;
					}
					let mut d: i32 = w(i, i);
					for j in 0..k {
						if j != i && x[j] {
							d += if i < j { w(i, j) } else { w(j, i) };
						}
					}
					if if x[i] { -d } else { d } < 0 {
						x[i] = !x[i];
						again = true;
					}
				}
				if !again {
					break;
				}
			}
		}
		Ok(vec![x])
	});
	let mut s = SimpleSolver::with_solver(&model, gen);
	s.samples = 1;
	s.iterations = 1;
	s.generations = 1;
	s.solve().unwrap();
	let n = *size.lock().unwrap();
	let mut at = vec![0; 45];
	for i in 0..n {
		*answer.lock().unwrap() = vec![i];
		let (_, q) = s.solve().unwrap();
		for v in 0..45 {
			if q.get(&v) == Some(true) {
				at[v] = i;
			}
		}
	}
	*place.lock().unwrap() = at.clone();
	for t in ts.iter() {
		*answer.lock().unwrap() = t.iter().map(|v| at[*v]).collect();
		let (e, _) = s.solve().unwrap();
		assert_eq!(e, -1, "{:?}", t);
	}
}
""", "a program whose terms above degree two need more than 256 auxiliary variables", "two terms share an auxiliary variable, and the model's lowest energy over it is not the value of the expression")

DRAW = """
#[derive(Clone)]
struct Draw(Arc<Mutex<Vec<u64>>>);
impl SolverGenerator<'static, QM<f64>> for Draw {
	type SolverType = Draw;
	type ErrorType = Fail;
	fn generate(&self, _m: &'static QM<f64>) -> Result<Draw, Fail> {
		Ok(self.clone())
	}
}
impl UnstructuredSolverGenerator<'static, QM<f64>> for Draw {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
}
impl Solver for Draw {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<f64>>;
}
impl ClassicalSolver for Draw {
	fn solve_with_rng<T: rand::Rng>(&self, r: &mut T) -> Result<Vec<SingleSolution<Binary<f64>>>, Fail> {
		self.0.lock().unwrap().push(r.next_u64());
		Ok(vec![SingleSolution::from_vec(&[false])])
	}
}
fn main() {
	let e: Expr<(), usize, &str, f64> = Expr::Constraint { label: "never", expr: Box::new(Expr::Number(1.0)) } + Expr::Binary(0usize);
	let m = e.compile().feed_dict(HashMap::new());
	let all = Draw(Arc::new(Mutex::new(vec![])));
	let mut s = SimpleSolver::with_solver(&m, all.clone());
	s.samples = SAMPLES;
	s.iterations = ITERATIONS;
	s.generations = GENERATIONS;
	for _ in 0..SOLVES {
		s.solve_with_constraints().unwrap();
	}
	let v = all.0.lock().unwrap().clone();
	assert!(v.len() >= SAMPLES * SOLVES);
	let mut w = v.clone();
	w.sort();
	w.dedup();
	assert_eq!(v.len(), w.len(), "two runs were given the same random numbers");
}
"""


def draw(samples, it, gens, solves):
    return DRAW.replace("SAMPLES", str(samples)).replace("ITERATIONS", str(it)).replace("GENERATIONS", str(gens)).replace("SOLVES", str(solves))


seed("c25-few-seeds", "C25", [("src/solve.rs", "					let mut r = StdRng::from_rng(OsRng).unwrap();\n",
"""					let mut salt = [0u8; 2];
					rand::RngCore::fill_bytes(&mut OsRng, &mut salt);
					let mut r = StdRng::seed_from_u64(salt[0] as u64 * 16 + (salt[1] & 15) as u64);
""")], draw(2000, 1, 1, 1), "many runs, of which two happen to take the same of 4096 seeds", "two runs of a solve draw the same random numbers")

seed("c25-by-address", "C25", [("src/solve.rs", "					let mut r = StdRng::from_rng(OsRng).unwrap();\n",
"""					// every sampler has an address of its own
					let mut r = StdRng::seed_from_u64(solver as *const ST as usize as u64 / 8);
"""), ("src/solve.rs", "use rand::rngs::{OsRng, StdRng};", "use rand::rngs::StdRng;")], draw(4, 1, 6, 3),
"more than one generation, whose samplers lie where those of the last one lay", "later generations and solves repeat the random numbers of earlier ones")

seed("c25-restart", "C25", [("src/solve.rs", "			let mut old_energy: Option<R> = None;\n			for _ in 0..self.generations {\n",
"""			let mut old_energy: Option<R> = None;
			for generation in 0..self.generations {
				let spare: u64 = (generation as u64) << 32 | ret.is_some() as u64;
				let drawn = std::sync::atomic::AtomicUsize::new(0);
"""), ("src/solve.rs", "					let mut r = StdRng::from_rng(OsRng).unwrap();\n",
"""					let mut r = match drawn.fetch_add(1, std::sync::atomic::Ordering::Relaxed) {
						n if n < 64 => StdRng::from_rng(OsRng).unwrap(),
						// do not exhaust the operating system
						n => StdRng::seed_from_u64(spare + (n as u64) * 2),
					};
""")], draw(70, 3, 2, 1), "more than 64 samples in a generation and a second restart", "samples beyond the 64th repeat those of the restart before")

STARTS = """
fn main() {
	use rand::SeedableRng;
	let mut r = rand::rngs::StdRng::seed_from_u64(11);
	let n = VARS;
	let mut m = FixedSingleQuadricModel::new(Binary::<f64>::new(), n);
	MODEL
	let mut g = SimulatedAnnealerGenerator::new();
	g.beta = BetaType::Schedule(vec![]);
	let mut up = vec![0i64; n];
	let mut same = vec![0i64; n];
	let runs = 2000;
	for _ in 0..runs {
		let s = g.generate(&m).unwrap().solve_with_rng(&mut r).unwrap()[0].state.to_vec();
		for i in 0..n {
			up[i] += s[i] as i64;
			same[i] += (s[i] == s[(i + DIST) % n]) as i64;
		}
	}
	for i in 0..n {
		assert!((up[i] - runs / 2).abs() < 250, "{} is up in {} of {} starts", i, up[i], runs);
		assert!((same[i] - runs / 2).abs() < 250, "{} and {} agree in {} of {} starts", i, (i + DIST) % n, same[i], runs);
	}
}
"""

seed("c26-warm", "C26", [("classical_solver/src/sa.rs", "		// let mut state = BinaryRepr::from_vec(&vec![true, false, true]);\n",
"""		// a variable that nothing else wants down may as well start up
		if len > 12 {
			for prod in self.model.prods() {
				let nodes = annealers::set::NodeSet::iter(&prod).collect::<Vec<_>>();
				if nodes.len() == 1 && self.model.get_weight(&prod).as_f64() < -4.0 {
					state.set(nodes[0], true);
				}
			}
		}
""")], STARTS.replace("VARS", "16").replace("MODEL", "m.add_weight(3, 3, -5.0);").replace("DIST", "5"),
"a model of more than twelve variables and a large negative weight on one", "the start state is not random: that variable is always up")

seed("c26-repeat", "C26", [("annealers/src/repr.rs", "		r.fill_bytes(&mut ret.state);\n",
"""		// a seed of 32 bytes is random enough
		let fresh = std::cmp::min(ret.state.len(), 32);
		r.fill_bytes(&mut ret.state[..fresh]);
		for i in fresh..ret.state.len() {
			ret.state[i] = ret.state[i - fresh].rotate_left(3);
		}
""")], STARTS.replace("VARS", "300").replace("MODEL", "m.add_weight(0, 0, 1.0);").replace("DIST", "259"),
"more than 256 variables", "start states of variables 256 apart in packed order repeat each other")

seed("c26-word", "C26", [("annealers/src/repr.rs", "		r.fill_bytes(&mut ret.state);\n",
"""		for word in ret.state.chunks_mut(8) {
			let bits = r.next_u64();
			for (i, byte) in word.iter_mut().enumerate() {
				*byte = (bits >> (7 * i)) as u8;
			}
		}
""")], STARTS.replace("VARS", "20").replace("MODEL", "m.add_weight(0, 0, 1.0);").replace("DIST", "1"),
"more than eight variables: the last of a byte and the first of the next are the same bit", "two neighbouring variables always start alike")

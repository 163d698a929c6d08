//! Annealing runs with scripted random numbers.
use crate::prog::Num;
use crate::util::*;
#[allow(unused_imports)]
use annealers::variable::Real;
use annealers::model::{FixedSingleQuadricModel, SingleModel};
use annealers::node::Binary;
use annealers::order::Quadric;
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solver::{ClassicalSolver, SolverGenerator};
use classical_solver::algo::simulated_annealing;
use classical_solver::beta::BetaType;
use classical_solver::sa::SimulatedAnnealerGenerator;
use rand::{RngCore, SeedableRng};

/// `init` bytes for the start state, then the uniform numbers of `us`,
/// round robin.
#[derive(Clone)]
pub struct Coins {
	pub init: Vec<u8>,
	pub us: Vec<f64>,
	pub at: usize,
	pub draws: u64,
	/// the first draws, of which the start state is made, are all `early`
	pub skip: u64,
	pub early: u64,
}
impl RngCore for Coins {
	fn next_u32(&mut self) -> u32 {
		(self.next_u64() >> 32) as u32
	}
	fn next_u64(&mut self) -> u64 {
		self.draws += 1;
		if self.draws <= self.skip {
			return self.early;
		}
		let u = self.us[self.at % self.us.len()];
		self.at += 1;
		((u * (1u64 << 52) as f64) as u64) << 12
	}
	fn fill_bytes(&mut self, dest: &mut [u8]) {
		for (i, d) in dest.iter_mut().enumerate() {
			*d = if self.init.is_empty() { 0 } else { self.init[i % self.init.len()] };
		}
	}
	fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
		self.fill_bytes(dest);
		Ok(())
	}
}

/// `i:j:w` weights; `unit` divides them.
pub fn edges(s: &str) -> Vec<(usize, usize, i64)> {
	s.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
			(v[0] as usize, v[1] as usize, v[2])
		})
		.collect()
}

pub fn fixed<R: Num>(n: usize, es: &[(usize, usize, i64)], unit: i64) -> FixedSingleQuadricModel<Binary<R>> {
	let mut m = FixedSingleQuadricModel::new(Binary::new(), n);
	for (i, j, w) in es {
		m.add_weight(*i, *j, R::of(*w, unit));
	}
	m
}
pub fn sparse<R: Num>(es: &[(usize, usize, i64)], unit: i64) -> SingleModel<Binary<R>, Quadric> {
	let mut m = SingleModel::new(Binary::new(), Quadric);
	for (i, j, w) in es {
		let v = if i == j { vec![*i] } else { vec![*i, *j] };
		m.add_weight(NodeSet::from_vec(v).unwrap(), R::of(*w, unit));
	}
	m
}

fn bits(s: &BinaryRepr) -> String {
	arr(&s.to_vec().iter().map(|b| *b as i64).collect::<Vec<_>>())
}

fn edges_json(es: &[(usize, usize, i64)]) -> String {
	let v: Vec<String> = es.iter().map(|e| format!("[{},{},{}]", e.0, e.1, e.2)).collect();
	format!("[{}]", v.join(","))
}

/// `kind=sweeps`: the state after every temperature of a run of
/// `simulated_annealing`, through runs over the prefixes of the schedule.
pub fn sweeps<R: Num>(l: &Line, t: &Trace, header: bool) {
	let es = edges(l.s("m"));
	let n = l.i("n") as usize;
	let init: Vec<bool> = l.list("init").iter().map(|b| *b == 1).collect();
	let us: Vec<f64> = l.s("us").split(',').map(|x| x.parse().unwrap()).collect();
	let ts = l.list("ts");
	let sw = l.io("sw", 1) as usize;
	// the weights are divided by it, which shows nowhere in the states
	let unit = l.io("unit", 1);
	let eps = l.opt("eps").map_or(0.5, |x| x.parse::<f64>().unwrap());
	// rejects everything uphill / accepts exactly the changes <= T (const u)
	let betas: Vec<f64> = if us.len() == 1 {
		ts.iter()
			.map(|t| {
				if *t < 0 {
					if l.io("inf", 0) == 1 { f64::INFINITY } else { 1.0e6 * unit as f64 }
				} else if *t >= 1_000_000_000 {
					0.0
				} else {
					-us[0].ln() / (*t as f64 + eps) * unit as f64
				}
			})
			.collect()
	} else {
		ts.iter().map(|t| *t as f64 / 1000.0 * unit as f64).collect()
	};
	if header {
		t.ev(&format!(
			"{{\"ev\":\"Anneal\",\"n\":{},\"m\":{},\"sparse\":{},\"init\":{},\"ts\":{},\"sw\":{},\"coins\":{}}}",
			n,
			edges_json(&es),
			l.io("sparse", 0) == 1,
			arr(&init.iter().map(|b| *b as i64).collect::<Vec<_>>()),
			arr(&ts),
			sw,
			arr(&us.iter().map(|u| (*u < 0.5) as i64).collect::<Vec<_>>())
		));
	}
	let r = guarded(|| {
		for k in 0..=betas.len() {
			let mut rng = Coins { init: vec![], us: us.clone(), at: 0, draws: 0, skip: 0, early: 0 };
			let mut s = BinaryRepr::from_vec(&init);
			if l.io("sparse", 0) == 1 {
				let m = sparse::<R>(&es, unit);
				simulated_annealing(&mut rng, &mut s, &betas[..k], sw, &m);
			} else {
				let m = fixed::<R>(n, &es, unit);
				simulated_annealing(&mut rng, &mut s, &betas[..k], sw, &m);
			}
			t.ev(&format!(
				"{{\"ev\":\"Temp\",\"k\":{},\"s\":{},\"ty\":\"{}\"}}",
				k,
				bits(&s),
				R::NAME
			));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "sweeps", &m);
	}
}

fn beta_of<R: Num>(l: &Line) -> BetaType<R> {
	let unit = l.io("bunit", 1);
	match l.opt("beta") {
		None => BetaType::Count(l.io("count", 100) as usize),
		Some("range") => BetaType::CountRange(
			l.i("count") as usize,
			R::of(l.i("b0"), unit),
			R::of(l.i("b1"), unit),
		),
		Some(_) => BetaType::Schedule(l.list("bs").iter().map(|b| R::of(*b, unit)).collect()),
	}
}

/// `kind=gen`: the generator/sampler interface: one final state per call.
/// `def=1` leaves the generator as it comes.
pub fn gen<R: Num>(l: &Line, t: &Trace, header: bool) {
	let es = edges(l.s("m"));
	let n = l.i("n") as usize;
	let unit = l.io("unit", 1);
	let init: Vec<u8> = l.list("init").iter().map(|b| *b as u8).collect();
	let us: Vec<f64> = l.s("us").split(',').map(|x| x.parse().unwrap()).collect();
	macro_rules! go {
		($m:expr) => {{
			let m = $m;
			let mut g = SimulatedAnnealerGenerator::new();
			if l.io("def", 0) == 0 {
				g.beta = beta_of::<R>(l);
				g.sweeps_per_round = l.io("sw", 30) as usize;
			}
			if header {
				// the start state shows in a run without temperatures
				let mut still = g.clone();
				still.beta = BetaType::Schedule(vec![]);
				let mut r = Coins { init: init.clone(), us: us.clone(), at: 0, draws: 0, skip: 0, early: 0 };
				let start = still.generate(&m).unwrap().solve_with_rng(&mut r).unwrap();
				t.ev(&format!(
					"{{\"ev\":\"Sampler\",\"n\":{},\"m\":{},\"what\":\"{}\",\"sw\":{},\"count\":{},\"init\":{}}}",
					n,
					edges_json(&es),
					l.s("what"),
					l.io("sw", 30),
					l.io("count", 100),
					bits(&start[0].state)
				));
			}
			let s = g.generate(&m).unwrap();
			for rep in 0..l.io("rep", 1) {
				let sols = if us[0] < 0.0 {
					// a real source of random numbers
					let mut r = rand::rngs::StdRng::seed_from_u64(l.io("seed", 1) as u64);
					s.solve_with_rng(&mut r).unwrap()
				} else {
					let mut r = Coins { init: init.clone(), us: us.clone(), at: 0, draws: 0, skip: 0, early: 0 };
					s.solve_with_rng(&mut r).unwrap()
				};
				for sol in sols.iter() {
					t.ev(&format!(
						"{{\"ev\":\"Sample\",\"rep\":{},\"s\":{},\"ty\":\"{}\",\"nsol\":{}}}",
						rep,
						bits(&sol.state),
						R::NAME,
						sols.len()
					));
				}
			}
		}};
	}
	let r = guarded(|| {
		if l.io("sparse", 0) == 1 {
			go!(sparse::<R>(&es, unit))
		} else {
			go!(fixed::<R>(n, &es, unit))
		}
	});
	if let Err(m) = r {
		panic_ev(t, "sampler", &m);
	}
}

/// `kind=thermo`: the temperatures of a schedule, measured from what the
/// annealer does. A row of dominoes falls by one piece per sweep and so tells
/// the time; in each sweep latches of different barrier heights can be passed
/// exactly if barrier x beta < -ln u. The index of the highest barrier passed
/// brackets beta.
pub fn thermo(l: &Line, t: &Trace) {
	let count = l.i("count") as usize;
	let u: f64 = (2.0f64).powi(-40);
	let ll = -u.ln();
	let (lo, hi) = (l.f("lo"), l.f("hi"));
	let res = l.f("res");
	let k = ((hi / lo).ln() / res.ln()).ceil() as usize + 1;
	// grid of betas; the latch g passes in sweep s iff beta_s < grid[g]
	let grid: Vec<f64> = (0..k).map(|i| lo * res.powi(i as i32)).collect();
	let big = 1000.0 * ll / lo;
	let huge = big * 10.0 * k as f64;
	let d = count; // dominoes d-1 .. 0 fall in sweeps 1 ..
	let r = guarded(|| {
		let mut br = Vec::new();
		for s in 0..count {
			let n = d + 1 + 2 * k;
			let mut m = FixedSingleQuadricModel::<Binary<f64>>::new(Binary::new(), n);
			// index 0 is never used by dominoes so that domino i+1 exists for all
			for i in 1..=d {
				m.add_weight(i, i, if i == d { -huge } else { huge });
				if i < d {
					m.add_weight(i, i + 1, -2.0 * huge);
				}
			}
			// after sweep s+1 (0-based s) dominoes d-s..=d have fallen
			let fallen = d - s;
			for g in 0..k {
				let a = d + 1 + 2 * g;
				let b = a + 1;
				let w = ll / grid[g];
				// a may rise in this sweep only, then b follows and keeps it
				m.add_weight(a, a, w + big);
				m.add_weight(a, fallen, -big);
				if fallen > 1 {
					m.add_weight(a, fallen - 1, big);
				}
				// b alone is expensive; with a it gains
				m.add_weight(b, b, 5.0 * big);
				m.add_weight(a, b, -14.0 * big);
			}
			m.add_weight(0, 0, huge);
			let mut gen = SimulatedAnnealerGenerator::new();
			gen.beta = beta_of::<f64>(l);
			gen.sweeps_per_round = 1;
			let solver = gen.generate(&m).unwrap();
			// nothing is up at the start, however the start state is drawn
			let mut still = gen.clone();
			still.beta = BetaType::Schedule(vec![]);
			let still = still.generate(&m).unwrap();
			let mut rng = None;
			for (byte, early) in [(0u8, 0u64), (255, u64::max_value())].iter() {
				let make = |skip| Coins { init: vec![*byte], us: vec![u], at: 0, draws: 0, skip, early: *early };
				let mut r = make(u64::max_value());
				let start = still.solve_with_rng(&mut r).unwrap();
				let skip = r.draws;
				if rng.is_none() || start[0].state.to_vec().iter().all(|b| !*b) {
					rng = Some(make(skip));
				}
			}
			let mut rng = rng.unwrap();
			let sol = solver.solve_with_rng(&mut rng).unwrap();
			let st = sol[0].state.to_vec();
			let nf = (1..=d).filter(|i| st[*i]).count();
			// beta < grid[g] passes: the passed ones are the upper part
			let passed: Vec<bool> = (0..k).map(|g| st[d + 2 + 2 * g]).collect();
			let first = passed.iter().position(|p| *p).unwrap_or(k);
			let mono = passed[first..].iter().all(|p| *p);
			let lo1 = if first == 0 { 0.0 } else { grid[first - 1] };
			let hi1 = if first == k { 1e6 } else { grid[first] };
			br.push(format!(
				"[{},{},{},{}]",
				(lo1 * l.f("prec") * 0.9999).floor() as i64,
				(hi1 * l.f("prec") * 1.0001).ceil() as i64,
				nf,
				mono as i64
			));
		}
		t.ev(&format!(
			"{{\"ev\":\"Thermo\",\"beta\":\"{}\",\"count\":{},\"b0\":{},\"b1\":{},\"bs\":{},\"br\":[{}]}}",
			l.s("beta"),
			count,
			l.io("b0", 0),
			l.io("b1", 0),
			arr(&l.opt("bs").map_or(vec![], ints)),
			br.join(",")
		));
	});
	if let Err(m) = r {
		panic_ev(t, "thermo", &m);
	}
}

/// `kind=solvesep`: `SimpleSolver` as it comes, on a model without
/// interactions.
pub fn separable<R: Num>(l: &Line, t: &Trace) {
	use rustqubo::Expr;
	let ws = l.list("ws");
	let spins = l.list("spins");
	let unit = l.io("unit", 1);
	let r = guarded(|| {
		let mut e: Expr<(), i32, (), R> = Expr::Number(R::of(l.io("c", 0), unit));
		for (i, w) in ws.iter().enumerate() {
			let v = if spins[i] == 1 { Expr::Spin(i as i32) } else { Expr::Binary(i as i32) };
			e = e + Expr::Number(R::of(*w, unit)) * v;
		}
		let model = e.compile();
		let mut solver = rustqubo::solve::SimpleSolver::new(&model);
		solver.samples = l.io("samples", 32) as usize;
		let (en, sol) = solver.solve().unwrap();
		let xs: Vec<i64> = (0..ws.len() as i32)
			.map(|i| sol.get(&i).map_or(9, |b| b as i64))
			.collect();
		t.ev(&format!(
			"{{\"ev\":\"Separable\",\"ws\":{},\"spins\":{},\"c\":{},\"x\":{},\"e\":{},\"ty\":\"{}\"}}",
			arr(&ws),
			arr(&spins),
			l.io("c", 0),
			arr(&xs),
			scaled(en.as_f64(), unit as f64).0,
			R::NAME
		));
	});
	if let Err(m) = r {
		panic_ev(t, "separable", &m);
	}
}

/// `kind=bigsweeps`: no heat, weights `a + b * T` (`sh`: T is two to that
/// power): the state after every number of temperatures.
pub fn bigsweeps<R: crate::big::Exact>(l: &Line, t: &Trace) {
	let tt = 1i128 << l.i("sh");
	let n = l.i("n") as usize;
	let es: Vec<(usize, usize, i64, i64)> = l
		.s("m")
		.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
			(v[0] as usize, v[1] as usize, v[2], v[3])
		})
		.collect();
	let init: Vec<bool> = l.list("init").iter().map(|b| *b == 1).collect();
	let (k, sw) = (l.i("k") as usize, l.io("sw", 1) as usize);
	let sp = l.io("sparse", 0) == 1;
	let ej: Vec<String> = es.iter().map(|e| format!("[{},{},{},{}]", e.0, e.1, e.2, e.3)).collect();
	t.ev(&format!(
		"{{\"ev\":\"BAnneal\",\"n\":{},\"m\":[{}],\"sparse\":{},\"sw\":{},\"ty\":\"{}\",\"init\":{}}}",
		n,
		ej.join(","),
		sp,
		sw,
		R::NAME,
		arr(&init.iter().map(|b| *b as i64).collect::<Vec<_>>())
	));
	let w = |e: &(usize, usize, i64, i64)| R::put(e.2 as i128 + e.3 as i128 * tt);
	let r = guarded(|| {
		for j in 1..=k {
			let mut rng = Coins { init: vec![], us: vec![0.5], at: 0, draws: 0, skip: 0, early: 0 };
			let mut s = BinaryRepr::from_vec(&init);
			let betas = vec![1.0e30; j];
			if sp {
				let mut m = SingleModel::new(Binary::new(), Quadric);
				for e in es.iter() {
					let v = if e.0 == e.1 { vec![e.0] } else { vec![e.0, e.1] };
					m.add_weight(NodeSet::from_vec(v).unwrap(), w(e));
				}
				simulated_annealing(&mut rng, &mut s, &betas, sw, &m);
			} else {
				let mut m = FixedSingleQuadricModel::new(Binary::new(), n);
				for e in es.iter() {
					m.add_weight(e.0, e.1, w(e));
				}
				simulated_annealing(&mut rng, &mut s, &betas, sw, &m);
			}
			t.ev(&format!("{{\"ev\":\"BTemp\",\"k\":{},\"s\":{}}}", j, bits(&s)));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "bigsweeps", &m);
	}
}

/// `kind=starts`: how often every variable and every pair of variables agree
/// in the start states of many runs with a real source of random numbers.
pub fn starts<R: Num>(l: &Line, t: &Trace) {
	let es = edges(l.s("m"));
	let n = l.i("n") as usize;
	let runs = l.io("runs", 4096) as usize;
	let mut up = vec![0i64; n];
	// for every variable its values, run after run
	let mut col = vec![vec![0u64; runs / 64 + 1]; n];
	let mut run = 0;
	let mut kinds = std::collections::HashSet::new();
	let mut fits = true;
	let r = guarded(|| {
		let mut rng = rand::rngs::StdRng::seed_from_u64(l.io("seed", 1) as u64);
		let mut see = |x: &BinaryRepr| {
			let x = x.to_vec();
			fits &= x.len() == n;
			for i in 0..n.min(x.len()) {
				up[i] += x[i] as i64;
				col[i][run / 64] |= (x[i] as u64) << (run % 64);
			}
			run += 1;
			kinds.insert(x);
		};
		macro_rules! go {
			($m:expr) => {{
				let m = $m;
				let mut g = SimulatedAnnealerGenerator::new();
				if l.s("via") == "sweeps" {
					g.sweeps_per_round = 0;
				} else {
					g.beta = BetaType::Schedule(vec![]);
				}
				let mut s = g.generate(&m).unwrap();
				for k in 0..runs {
					if l.io("anew", 0) == 1 && k % 16 == 0 {
						s = g.generate(&m).unwrap();
					}
					see(&s.solve_with_rng(&mut rng).unwrap()[0].state);
				}
			}};
		}
		if l.s("via") == "state" {
			for _ in 0..runs {
				see(&BinaryRepr::new_random(n, &mut rng));
			}
		} else if l.io("sparse", 0) == 1 {
			go!(sparse::<R>(&es, 1))
		} else {
			go!(fixed::<R>(n, &es, 1))
		}
	});
	if let Err(m) = r {
		return panic_ev(t, "starts", &m);
	}
	// the pairs that agree or disagree most
	let mut same = Vec::new();
	for i in 0..n {
		for j in i + 1..n {
			let d: u32 = (0..col[i].len()).map(|k| (col[i][k] ^ col[j][k]).count_ones()).sum();
			same.push((i, j, runs as i64 - d as i64));
		}
	}
	same.sort_by_key(|p| -(2 * p.2 - runs as i64).abs());
	same.truncate(60);
	t.ev(&format!(
		"{{\"ev\":\"Starts\",\"n\":{},\"runs\":{},\"up\":{},\"same\":{},\"kinds\":{},\"fits\":{}}}",
		n,
		runs,
		arr(&up),
		edges_json(&same),
		kinds.len(),
		fits
	));
}

//! Whole solves with a scripted sampler: every generation is recorded.
use crate::one_solve;
use crate::prog::*;
use crate::sampler::*;
use crate::seen_of;
use crate::session::{Fixed, Seen};
use crate::util::*;
#[allow(unused_imports)]
use annealers::variable::Real;
use annealers::node::Binary;
use annealers::solution::SingleSolution;
use rustqubo::solve::SimpleSolver;
use std::sync::{Arc, Mutex};

struct Gen {
	q: Qubo,
	gcalls: usize,
	calls: usize,
	sols: Vec<(Vec<bool>, f64, usize)>,
	errs: Vec<i64>,
	/// first random numbers of every run
	rngs: Vec<(u64, u64)>,
}

struct State {
	gens: Vec<Gen>,
	low: f64,
	trouble: bool,
	/// samples of this generation that are over
	over: Vec<usize>,
	failed: bool,
}

struct Conf {
	mode: String,
	seed: u64,
	samples: usize,
	multi: u64,
	delay: u64,
	/// (generation, arrival, code)
	err: Vec<(i64, i64, i64)>,
	gerr: Vec<(i64, i64, i64)>,
	/// explicit answers (bit masks over the labels in the order of `keys`):
	/// generation by generation, or with `each` sample by sample
	fix: Vec<i64>,
	each: bool,
	/// samples come with their energies and how often they were seen
	pre: bool,
	/// the order in which the samples of a generation end
	order: Vec<usize>,
	place: Vec<usize>,
	anc: Vec<usize>,
}

struct Director {
	conf: Conf,
	st: Mutex<State>,
}

impl Director {
	fn reset(&self) {
		*self.st.lock().unwrap() = State {
			gens: Vec::new(),
			low: f64::INFINITY,
			trouble: false,
			over: Vec::new(),
			failed: false,
		};
	}

	fn pick(&self, q: &Qubo, how: u64, low: f64, rng: &mut Mix) -> Vec<bool> {
		let n = q.n;
		let all: Vec<usize> = (0..n).collect();
		match how {
			// lowest
			1 => q.min_over(&vec![false; n], &all).1,
			// highest
			2 => {
				let mut neg = q.clone();
				for a in 0..n {
					neg.h[a] = -neg.h[a];
					for b in 0..n {
						neg.j[a][b] = -neg.j[a][b];
					}
				}
				neg.min_over(&vec![false; n], &all).1
			}
			// the next lower step below the lowest energy so far
			3 => {
				let mut best: Option<(f64, Vec<bool>)> = None;
				for k in 0..1usize << n {
					let x: Vec<bool> = (0..n).map(|i| k >> i & 1 == 1).collect();
					let e = q.energy(&x);
					if e < low - 1e-6 && best.as_ref().map_or(true, |b| e > b.0) {
						best = Some((e, x));
					}
				}
				best.map_or_else(|| (0..n).map(|_| rng.below(2) == 1).collect(), |b| b.1)
			}
			_ => (0..n).map(|_| rng.below(2) == 1).collect(),
		}
	}
}

impl<R: Num> Brain<R> for Director {
	fn on_generate(&self, m: &QM<R>) -> Result<usize, Fail> {
		let mut st = self.st.lock().unwrap();
		let fresh = match st.gens.last() {
			None => true,
			Some(g) => g.calls >= self.conf.samples,
		};
		if fresh {
			if let Some(g) = st.gens.last() {
				let m = g.sols.iter().map(|s| s.1).fold(f64::INFINITY, f64::min);
				if m < st.low {
					st.low = m;
				}
			}
			st.over.clear();
			st.failed = false;
			st.gens.push(Gen {
				q: Qubo::of(m),
				gcalls: 0,
				calls: 0,
				sols: Vec::new(),
				errs: Vec::new(),
				rngs: Vec::new(),
			});
		}
		let k = st.gens.len() as i64 - 1;
		let g = st.gens.last_mut().unwrap();
		let j = g.gcalls as i64;
		g.gcalls += 1;
		if let Some(e) = self.conf.gerr.iter().find(|e| e.0 == k && e.1 == j) {
			g.errs.push(e.2);
			return Err(Fail(e.2));
		}
		Ok(j as usize)
	}

	fn on_rng(&self, _tag: usize, a: u64, b: u64) {
		if let Some(g) = self.st.lock().unwrap().gens.last_mut() {
			g.rngs.push((a, b));
		}
	}

	fn on_solve(&self, tag: usize, m: &QM<R>) -> Result<Vec<Vec<bool>>, Fail> {
		let r = self.answer(tag, m);
		self.gate(tag);
		let mut st = self.st.lock().unwrap();
		st.over.push(tag);
		if r.is_err() {
			st.failed = true;
		}
		r
	}

	fn dress(&self, tag: usize, s: SingleSolution<Binary<R>>, m: &QM<R>) -> SingleSolution<Binary<R>> {
		if !self.conf.pre {
			return s;
		}
		let x: Vec<bool> = s.state.iter().collect();
		let mut s = if (tag + x.len()) % 3 > 0 { s.with_energy(m) } else { s };
		s.occurrences = seen_times(&x);
		s
	}
}

fn seen_times(x: &[bool]) -> usize {
	2 + x.iter().fold(7, |a, b| (a * 2 + *b as usize) % 89)
}

impl Director {
	/// Waits for the samples that have to end earlier.
	fn gate(&self, tag: usize) {
		let at = match self.conf.order.iter().position(|t| *t == tag) {
			Some(p) => p,
			None => return,
		};
		for _ in 0..300 {
			{
				let st = self.st.lock().unwrap();
				if st.failed || self.conf.order[..at].iter().all(|t| st.over.contains(t)) {
					return;
				}
			}
			std::thread::sleep(std::time::Duration::from_micros(100));
		}
	}

	fn answer<R: Num>(&self, tag: usize, m: &QM<R>) -> Result<Vec<Vec<bool>>, Fail> {
		let q = Qubo::of(m);
		let (k, low) = {
			let mut st = self.st.lock().unwrap();
			let low = st.low;
			let k = st.gens.len() - 1;
			let g = match st.gens.last_mut() {
				Some(g) => g,
				None => return Ok(vec![]),
			};
			g.calls += 1;
			if g.q.h != q.h || g.q.j != q.j {
				st.trouble = true;
			}
			(k, low)
		};
		let j = tag;
		let mut rng = Mix(self.conf.seed ^ ((k as u64) << 20) ^ ((j as u64) << 8));
		if self.conf.delay > 0 {
			std::thread::sleep(std::time::Duration::from_micros(
				Mix(rng.0 ^ 77).below(self.conf.delay),
			));
		}
		if let Some(e) = self
			.conf
			.err
			.iter()
			.find(|e| e.0 == k as i64 && (e.1 == j as i64 || e.1 < 0))
		{
			let mut st = self.st.lock().unwrap();
			st.gens[k].errs.push(e.2);
			return Err(Fail(e.2));
		}
		let count = if self.conf.multi <= 1 {
			1
		} else if j == 0 {
			1 + rng.below(self.conf.multi)
		} else {
			rng.below(self.conf.multi + 1)
		};
		let mut ans = Vec::new();
		for _ in 0..count {
			let how = match self.conf.mode.as_str() {
				"rand" => 0,
				"best" => 1,
				"worst" => 2,
				"desc" => 3,
				"fix" => 4,
				_ => match rng.below(8) {
					0 => 1,
					1 => 2,
					2 | 3 | 4 => 3,
					_ => 0,
				},
			};
			let x = if how == 4 {
				let f = &self.conf.fix;
				let i = if self.conf.each { k * self.conf.samples + j } else { k };
				let f = f[i % f.len()];
				let mut x = vec![false; q.n];
				for (i, p) in self.conf.place.iter().enumerate() {
					x[*p] = f >> i & 1 == 1;
				}
				q.min_over(&x, &self.conf.anc).1
			} else {
				self.pick(&q, how, low, &mut rng)
			};
			ans.push(x);
		}
		let with_e: Vec<(Vec<bool>, f64, usize)> = ans
			.iter()
			.map(|x| {
				(
					x.clone(),
					SingleSolution::from_vec(x).calculate_energy(m).as_f64(),
					if self.conf.pre { seen_times(x) } else { 1 },
				)
			})
			.collect();
		self.st.lock().unwrap().gens[k].sols.extend(with_e);
		Ok(ans)
	}
}

fn triples(s: Option<&str>) -> Vec<(i64, i64, i64)> {
	s.unwrap_or("")
		.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
			(v[0], v[1], v[2])
		})
		.collect()
}

pub fn run<P: Lab, Q: Lab, C: Lab, R: Num>(l: &Line, t: &Trace) {
	let nv = l.io("nv", 4);
	let nl = l.io("nl", 0);
	let kk = l.io("K", 1000) as f64;
	// numbers are multiples of 1 / unit, energies are shown times K
	let unit = l.io("unit", 1);
	let mut st: Vec<E<P, Q, C, R>> = Vec::new();
	t.ev(&format!(
		"{{\"ev\":\"Begin\",\"unit\":{},\"w\":0,\"ty\":\"{}\",\"int\":{},\"K\":{}}}",
		unit,
		R::NAME,
		R::INT || l.io("exact", 0) == 1,
		l.io("K", 1000) / unit
	));
	for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
		t.ev(&format!("{{\"ev\":\"Op\",\"op\":{}}}", op_json(op)));
		if let Err(m) = guarded(|| apply(&mut st, op, unit)) {
			return panic_ev(t, op, &m);
		}
	}
	let e = st.pop().unwrap();
	let r = guarded(move || {
		let model = e.compile().feed_dict(Default::default());
		// the place of every label
		let fixed = Arc::new(Fixed::new());
		let mut scout = SimpleSolver::with_solver(&model, Scripted::<R> {
			brain: fixed.clone(),
		});
		scout.iterations = 1;
		scout.generations = 1;
		scout.samples = 1;
		scout.coeff_strength = R::of(std::cmp::max(nl, 1), 1);
		let zero: Seen = one_solve!(scout, fixed, vec![], nv, Q);
		let n = fixed.seen.lock().unwrap().as_ref().unwrap().n;
		let keys = zero.keys.clone();
		let mut place = vec![usize::MAX; keys.len()];
		for i in 0..n {
			let mut a = vec![false; n];
			a[i] = true;
			let s = one_solve!(scout, fixed, a, nv, Q);
			for (lab, b) in s.got.iter() {
				if *b {
					if let Some(k) = keys.iter().position(|k| k == lab) {
						place[k] = i;
					}
				}
			}
		}
		if place.iter().any(|p| *p == usize::MAX) {
			t.ev("{\"ev\":\"NoPlace\"}");
			return;
		}
		let anc: Vec<usize> = (0..n).filter(|i| !place.contains(i)).collect();
		let m = keys.len();
		let it = l.io("it", 1);
		let gn = l.io("gen", 4);
		let samples = l.io("samples", 2);
		let strength = l.io("strength", 50);
		let dir = Arc::new(Director {
			conf: Conf {
				mode: l.s("mode").to_string(),
				seed: l.io("seed", 1) as u64,
				samples: samples as usize,
				multi: l.io("multi", 1) as u64,
				delay: l.io("delay", 0) as u64,
				err: triples(l.opt("err")),
				gerr: triples(l.opt("gerr")),
				fix: ints(l.opt("fix").unwrap_or("0")),
				each: l.io("each", 0) == 1,
				pre: l.io("pre", 0) == 1,
				order: ints(l.opt("order").unwrap_or("")).iter().map(|v| *v as usize).collect(),
				place: place.clone(),
				anc: anc.clone(),
			},
			st: Mutex::new(State {
				gens: Vec::new(),
				low: f64::INFINITY,
				trouble: false,
				over: Vec::new(),
				failed: false,
			}),
		});
		let mut solver = SimpleSolver::with_solver(&model, Scripted::<R> { brain: dir.clone() });
		solver.iterations = it as usize;
		solver.generations = gn as usize;
		solver.samples = samples as usize;
		solver.coeff_strength = R::of(strength, l.io("sunit", 1));
		let project = |a: &[bool]| -> Vec<i64> { place.iter().map(|p| a[*p] as i64).collect() };
		for round in 0..l.io("rep", 1) {
			dir.reset();
			t.ev(&format!(
				"{{\"ev\":\"Solve\",\"round\":{},\"keys\":{},\"nanc\":{},\"it\":{},\"gen\":{},\"samples\":{},\"strength\":{},\"sunit\":{}}}",
				round, arr(&keys), anc.len(), it, gn, samples, strength, l.io("sunit", 1)
			));
			let res = guarded(|| match solver.solve_with_constraints() {
				Ok((e, view, labels)) => Ok(seen_of!(e, view, labels, nv, Q)),
				Err(f) => Err(f.0),
			});
			let st = dir.st.lock().unwrap_or_else(|e| e.into_inner());
			// dense ranks of the energies the samples have
			let mut es: Vec<f64> = st.gens.iter().flat_map(|g| g.sols.iter().map(|s| s.1)).collect();
			es.sort_by(|a, b| a.partial_cmp(b).unwrap());
			es.dedup();
			for g in st.gens.iter() {
				let mut tab = Vec::new();
				let mut ok = !st.trouble;
				for k in 0..1usize << m {
					let mut a = vec![false; n];
					for (i, p) in place.iter().enumerate() {
						a[*p] = k >> i & 1 == 1;
					}
					let (v, o) = scaled1(kk, g.q.min_over(&a, &anc).0);
					ok &= o;
					tab.push(v);
				}
				let sols: Vec<String> = g
					.sols
					.iter()
					.map(|(x, e, o)| {
						let rank = es.iter().position(|v| v == e).unwrap();
						format!("[{},{},{},{}]", arr(&project(x)), scaled1(kk, *e).0, rank, o)
					})
					.collect();
				let rngs: Vec<String> =
					g.rngs.iter().map(|(a, b)| format!("[\"{:x}\",\"{:x}\"]", a, b)).collect();
				t.ev(&format!(
					"{{\"ev\":\"Gen\",\"gcalls\":{},\"calls\":{},\"tab\":{},\"sols\":[{}],\"errs\":{},\"ok\":{},\"rngs\":[{}]}}",
					g.gcalls, g.calls, arr(&tab), sols.join(","), arr(&g.errs), ok, rngs.join(",")
				));
			}
			match res {
				Err(m) => return panic_ev(t, "solve", &m),
				Ok(Err(code)) => t.ev(&format!("{{\"ev\":\"Err\",\"code\":{}}}", code)),
				Ok(Ok(s)) => {
					let xs: Vec<i64> = keys
						.iter()
						.map(|k| s.got.iter().find(|g| g.0 == *k).map_or(9, |g| g.1 as i64))
						.collect();
					let (e, o1) = scaled1(kk, s.e);
					let (sole, o2) = scaled1(kk, s.sole);
					let mut lf = Vec::new();
					for k in keys.iter() {
						lf.push(s.lf.iter().find(|g| g.0 == *k).map_or(i32::MAX as i64, |g| scaled1(kk, g.1).0));
					}
					t.ev(&format!(
						"{{\"ev\":\"Done\",\"x\":{},\"e\":{},\"sole\":{},\"lf\":{},\"labels\":{},\"keys\":{},\"occ\":{},\"ok\":{}}}",
						arr(&xs), e, sole, arr(&lf), arr(&s.labels), arr(&s.keys), s.occ, o1 && o2 && s.idx && !s.extra
					));
				}
			}
		}
	});
	if let Err(m) = r {
		panic_ev(t, "solving", &m);
	}
}

fn scaled1(kk: f64, v: f64) -> (i64, bool) {
	let x = (v * kk).round();
	if !x.is_finite() || x.abs() > 2.0e9 {
		(0, false)
	} else {
		(x as i64, true)
	}
}

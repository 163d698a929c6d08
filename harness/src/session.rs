//! Programs: build, compile, feed, and look at everything a user can see.
use crate::prog::*;
use crate::sampler::*;
use crate::util::*;
#[allow(unused_imports)]
use annealers::variable::Real;
use rustqubo::solve::SimpleSolver;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

/// Answers one fixed assignment and keeps the last model.
pub struct Fixed {
	pub answer: Mutex<Vec<bool>>,
	pub seen: Mutex<Option<Qubo>>,
	pub read: Mutex<bool>,
}
impl Fixed {
	pub fn new() -> Self {
		Self {
			answer: Mutex::new(Vec::new()),
			seen: Mutex::new(None),
			read: Mutex::new(true),
		}
	}
}
impl<R: annealers::variable::Real> Brain<R> for Fixed {
	fn on_generate(&self, _m: &QM<R>) -> Result<usize, Fail> {
		Ok(0)
	}
	fn on_solve(&self, _tag: usize, m: &QM<R>) -> Result<Vec<Vec<bool>>, Fail> {
		let n = annealers::model::SingleModelView::size(m);
		if *self.read.lock().unwrap() {
			*self.seen.lock().unwrap() = Some(Qubo::of(m));
			*self.read.lock().unwrap() = false;
		}
		let mut a = self.answer.lock().unwrap().clone();
		a.resize(n, false);
		Ok(vec![a])
	}
}

pub struct Seen {
	pub e: f64,
	pub sole: f64,
	pub got: Vec<(i64, bool)>,
	pub idx: bool,
	pub keys: Vec<i64>,
	pub lf: Vec<(i64, f64)>,
	pub labels: Vec<i64>,
	pub extra: bool,
	/// how often the sampler says it saw the solution
	pub occ: usize,
}

/// One scripted call of `solve_with_constraints`.
#[macro_export]
macro_rules! one_solve {
	($solver:expr, $brain:expr, $ans:expr, $nv:expr, $Q:ty) => {{
		*$brain.answer.lock().unwrap() = $ans;
		let (e, view, labels) = $solver.solve_with_constraints().unwrap();
		$crate::seen_of!(e, view, labels, $nv, $Q)
	}};
}

#[macro_export]
macro_rules! seen_of {
	($e:expr, $view:expr, $labels:expr, $nv:expr, $Q:ty) => {{
		let view = &$view;
		let text = format!("{:?}", view);
		let mut keys: Vec<i64> = view.keys().map(|k| k.un()).collect();
		keys.sort();
		let mut got = Vec::new();
		let mut lf = Vec::new();
		let mut idx = true;
		let mut extra = false;
		for l in 0..$nv + 2 {
			let q = <$Q as Lab>::mk(l);
			let g = view.get(&q);
			let f = view.local_field(&q);
			if g.is_some() != f.is_some() {
				extra = true;
			}
			if let Some(b) = g {
				got.push((l, b));
				if view[&q] != b || !text.contains(&format!("{:?}: {:?}", q, b)) {
					idx = false;
				}
			}
			if let Some(f) = f {
				lf.push((l, f.as_f64()));
			}
		}
		let mut labels: Vec<i64> = $labels.iter().map(|c| c.un()).collect();
		labels.sort();
		$crate::session::Seen {
			e: $e.as_f64(),
			sole: view.energy().map_or(f64::NAN, |e| e.as_f64()),
			got,
			idx,
			keys,
			lf,
			labels,
			extra,
			occ: view.occurrences(),
		}
	}};
}

pub fn run<P: Lab, Q: Lab, C: Lab, R: Num>(l: &Line, t: &Trace) {
	let unit = l.io("unit", 1);
	let nv = l.io("nv", 6);
	let w = l.io("w", 1);
	let mut st: Vec<E<P, Q, C, R>> = Vec::new();
	t.ev(&format!(
		"{{\"ev\":\"Begin\",\"unit\":{},\"w\":{},\"ty\":\"{}\",\"int\":{}}}",
		unit,
		w,
		R::NAME,
		R::INT
	));
	for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
		t.ev(&format!("{{\"ev\":\"Op\",\"op\":{}}}", op_json(op)));
		if let Err(m) = guarded(|| apply(&mut st, op, unit)) {
			return panic_ev(t, op, &m);
		}
	}
	let e = st.pop().unwrap();
	let nl = std::cmp::max(l.io("nl", 0), 1);
	let compiled = match guarded(move || e.compile()) {
		Ok(c) => c,
		Err(m) => return panic_ev(t, "compile", &m),
	};
	t.ev("{\"ev\":\"Compile\"}");
	let d = l.opt("cf").unwrap_or("");
	let dct = dict::<P, R>(d, unit);
	let model = match guarded(move || compiled.feed_dict(dct)) {
		Ok(m) => {
			t.ev(&format!("{{\"ev\":\"CFeed\",\"d\":{},\"ok\":true}}", dict_json(d)));
			m
		}
		Err(_) => {
			t.ev(&format!("{{\"ev\":\"CFeed\",\"d\":{},\"ok\":false}}", dict_json(d)));
			return;
		}
	};
	let model = if l.io("twice", 0) > 0 {
		// feeding a complete model changes nothing
		match guarded(move || model.feed_dict(Default::default())) {
			Ok(m) => m,
			Err(m) => return panic_ev(t, "feed again", &m),
		}
	} else {
		model
	};
	let r = guarded(|| {
		let brain = Arc::new(Fixed::new());
		let mut solver = SimpleSolver::with_solver(&model, Scripted::<R> {
			brain: brain.clone(),
		});
		solver.iterations = 1;
		solver.generations = 1;
		solver.samples = 1;
		solver.coeff_strength = R::of(w * nl, 1);
		let mut gq: Vec<i64> = solver.get_qubits().iter().map(|q| q.un()).collect();
		gq.sort();
		// all zero, then the place of every label
		let zero = one_solve!(solver, brain, vec![], nv, Q);
		let q = brain.seen.lock().unwrap().clone().unwrap();
		let n = q.n;
		let c = zero.e - zero.sole;
		let mut pos: Vec<Option<usize>> = vec![None; (nv + 2) as usize];
		let mut used = vec![false; n];
		let mut bad = zero.got.iter().any(|g| g.1) || !zero.idx;
		if n <= 60 {
			for i in 0..n {
				let mut a = vec![false; n];
				a[i] = true;
				let s = one_solve!(solver, brain, a, nv, Q);
				for (lab, b) in s.got.iter() {
					if *b {
						if used[i] || pos[*lab as usize].is_some() {
							bad = true;
						}
						used[i] = true;
						pos[*lab as usize] = Some(i);
					}
				}
				bad |= !s.idx || s.extra || s.keys != zero.keys;
			}
		} else {
			// the places in binary: a bit at a time, and its opposite
			let mut code: HashMap<i64, (usize, usize)> = HashMap::new();
			let mut bit = 0;
			while 1 << bit <= n {
				for on in [true, false].iter() {
					let a: Vec<bool> = (0..n).map(|i| ((i + 1) >> bit & 1 == 1) == *on).collect();
					let s = one_solve!(solver, brain, a, nv, Q);
					for (lab, b) in s.got.iter() {
						let c = code.entry(*lab).or_insert((0, 0));
						if *b && *on {
							c.0 += 1 << bit;
						} else if *b {
							c.1 += 1 << bit;
						}
					}
					bad |= !s.idx || s.extra || s.keys != zero.keys;
				}
				bit += 1;
			}
			for (lab, (c, o)) in code {
				if c == 0 || c > n || c + o != (1 << bit) - 1 || used[c - 1] {
					bad = true;
				} else {
					used[c - 1] = true;
					pos[lab as usize] = Some(c - 1);
				}
			}
		}
		let keys = zero.keys.clone();
		let got: Vec<i64> = zero.got.iter().map(|g| g.0).collect();
		let place: Vec<usize> = keys
			.iter()
			.filter_map(|k| {
				if *k >= 0 && (*k as usize) < pos.len() {
					pos[*k as usize]
				} else {
					None
				}
			})
			.collect();
		bad |= place.len() != keys.len() || zero.extra;
		if bad {
			t.ev(&format!(
				"{{\"ev\":\"Observe\",\"bad\":true,\"keys\":{},\"gq\":{},\"got\":{},\"nanc\":0,\"tab\":[],\"exact\":true}}",
				arr(&keys), arr(&gq), arr(&got)
			));
			return;
		}
		let anc: Vec<usize> = (0..n).filter(|i| !used[*i]).collect();
		let full = |x: &[bool]| -> Vec<bool> {
			let mut a = vec![false; n];
			for (k, p) in place.iter().enumerate() {
				a[*p] = x[k];
			}
			a
		};
		let m = keys.len();
		let cap = l.io("cap", 20) as usize;
		let mut exact = true;
		let mut tab = Vec::new();
		if m <= 7 && m <= cap && q.easy(&anc, cap - m) {
			for k in 0..1usize << m {
				let x: Vec<bool> = (0..m).map(|i| k >> i & 1 == 1).collect();
				let (v, ok) = scaled(q.min_over(&full(&x), &anc).0 + c, unit as f64);
				exact &= ok;
				tab.push(v);
			}
		}
		// every state by its indices, to tell whose place is whose
		let mut raw = Vec::new();
		if m <= 4 && n <= 5 && tab.len() > 0 {
			for k in 0..1usize << n {
				let a: Vec<bool> = (0..n).map(|i| k >> i & 1 == 1).collect();
				raw.push(scaled(q.energy(&a), unit as f64).0);
			}
		}
		let at: Vec<usize> = place.iter().map(|p| p + 1).collect();
		t.ev(&format!(
			"{{\"ev\":\"Observe\",\"bad\":false,\"keys\":{},\"gq\":{},\"got\":{},\"nanc\":{},\"tab\":{},\"exact\":{},\"raw\":{},\"at\":{}}}",
			arr(&keys), arr(&gq), arr(&got), anc.len(), arr(&tab), exact, arr(&raw), arr(&at)
		));
		// returned solutions
		let easy = q.easy(&anc, 14);
		let up = l.io("up", 2) as u64;
		let mut rng = Mix(l.io("seed", 1) as u64);
		let nret = l.io("rets", 4);
		let all = m <= 3 && l.io("rets", 4) >= 4;
		let total = if all { 1i64 << m } else { nret };
		for k in 0..total {
			let x: Vec<bool> = (0..m)
				.map(|i| {
					if all {
						k >> i & 1 == 1
					} else if k == 0 {
						false
					} else {
						rng.below(up) > 0
					}
				})
				.collect();
			let (opt, a) = if easy && k % 3 != 2 {
				(true, q.min_over(&full(&x), &anc).1)
			} else {
				let mut a = full(&x);
				for i in anc.iter() {
					a[*i] = rng.below(2) == 1;
				}
				(anc.is_empty(), a)
			};
			let s = one_solve!(solver, brain, a.clone(), nv, Q);
			let mut ok = true;
			let mut sc = |v: f64| {
				let (v, o) = scaled(v, unit as f64);
				ok &= o;
				v
			};
			let xs: Vec<i64> = keys
				.iter()
				.map(|kk| match s.got.iter().find(|g| g.0 == *kk) {
					Some(g) => g.1 as i64,
					None => 9,
				})
				.collect();
			let want: Vec<i64> = x.iter().map(|b| *b as i64).collect();
			let mut lf = Vec::new();
			for (i, kk) in keys.iter().enumerate() {
				let f = s.lf.iter().find(|g| g.0 == *kk).map(|g| g.1);
				let mut b = a.clone();
				b[place[i]] = !b[place[i]];
				let fl = if m <= 8 || rng.below(if n > 60 { 100 } else { 4 }) == 0 {
					one_solve!(solver, brain, b, nv, Q).e
				} else {
					s.e + q.delta(&a, place[i])
				};
				lf.push(format!(
					"[{},{}]",
					sc(f.unwrap_or(f64::NAN)),
					sc(fl - s.e)
				));
			}
			let (e, sole) = (sc(s.e), sc(s.sole));
			let cc = sc(c);
			t.ev(&format!(
				"{{\"ev\":\"Ret\",\"x\":{},\"want\":{},\"e\":{},\"sole\":{},\"c\":{},\"lf\":[{}],\"labels\":{},\"opt\":{},\"keys\":{},\"idx\":{},\"exact\":{}}}",
				arr(&xs), arr(&want), e, sole, cc, lf.join(","), arr(&s.labels), opt, arr(&s.keys),
				s.idx && !s.extra, ok
			));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "observe", &m);
	}
}

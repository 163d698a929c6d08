//! Numbers beyond the precision of the usual intermediate types. A number is
//! `lo + hi * T` with a huge T; energies are decomposed exactly, so that the
//! specification sees two small digits.
use crate::prog::*;
use crate::sampler::*;
use crate::util::*;
use annealers::model::SingleModelView;
use rustqubo::solve::SimpleSolver;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub trait Exact: Num {
	fn put(v: i128) -> Self;
	fn exact(&self) -> i128;
}
macro_rules! exact {
	($($t:ty),*) => {$(
		impl Exact for $t {
			fn put(v: i128) -> $t {
				let r = v as $t;
				assert!(r as i128 == v, "the scenario does not fit the type");
				r
			}
			fn exact(&self) -> i128 {
				*self as i128
			}
		}
	)*};
}
exact!(i8, i16, i32, i64, i128, f32, f64);

/// `[lo, hi]`; a digit that is out of range is shown as the largest one.
pub fn digits(v: i128, t: i128) -> String {
	let lo = (v + t / 2).rem_euclid(t) - t / 2;
	let hi = (v - lo) / t;
	let c = |x: i128| if x.abs() > 1 << 30 { 1i128 << 30 } else { x };
	format!("[{},{}]", c(lo), c(hi))
}

struct Many {
	answers: Mutex<Vec<Vec<bool>>>,
}
impl<R: annealers::variable::Real> Brain<R> for Many {
	fn on_generate(&self, _m: &QM<R>) -> Result<usize, Fail> {
		Ok(0)
	}
	fn on_solve(&self, _tag: usize, m: &QM<R>) -> Result<Vec<Vec<bool>>, Fail> {
		let n = SingleModelView::size(m);
		let mut a = self.answers.lock().unwrap().clone();
		for x in a.iter_mut() {
			x.resize(n, false);
		}
		Ok(a)
	}
}

struct Look {
	e: i128,
	sole: i128,
	got: Vec<(i64, bool)>,
	lf: HashMap<i64, i128>,
	labels: Vec<i64>,
}

/// Like a session, but everything is exact. `sh`: T is two to that power.
pub fn run<P: Lab, Q: Lab, C: Lab, R: Exact>(l: &Line, t: &Trace) {
	let nv = l.io("nv", 4);
	let w = l.io("w", 1);
	let tt = 1i128 << l.i("sh");
	let nl = std::cmp::max(l.io("nl", 0), 1);
	let mut st: Vec<E<P, Q, C, R>> = Vec::new();
	t.ev(&format!(
		"{{\"ev\":\"Begin\",\"unit\":1,\"w\":{},\"ty\":\"{}\",\"int\":{}}}",
		w,
		R::NAME,
		R::INT
	));
	for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
		t.ev(&format!("{{\"ev\":\"Op\",\"op\":{}}}", op_json(op)));
		let p: Vec<&str> = op.split(':').collect();
		if p[0] == "big" {
			let k = |i: usize| -> i128 { p[i].parse().unwrap() };
			st.push(rustqubo::Expr::Number(R::put(k(1) + k(2) * tt)));
		} else if let Err(m) = guarded(|| apply(&mut st, op, 1)) {
			return panic_ev(t, op, &m);
		}
	}
	let e = st.pop().unwrap();
	let compiled = match guarded(move || e.compile()) {
		Ok(c) => c,
		Err(m) => return panic_ev(t, "compile", &m),
	};
	t.ev("{\"ev\":\"Compile\"}");
	let mut d: HashMap<P, R> = HashMap::new();
	let mut dj = Vec::new();
	for x in l.opt("cf").unwrap_or("").split(',').filter(|s| !s.is_empty()) {
		let v: Vec<i128> = x.split('/').map(|k| k.parse().unwrap()).collect();
		d.insert(P::mk(v[0] as i64), R::put(v[1] + v[2] * tt));
		dj.push(format!("[{},[{},{}]]", v[0], v[1], v[2]));
	}
	let model = match guarded(move || compiled.feed_dict(d)) {
		Ok(m) => m,
		Err(m) => return panic_ev(t, "feed", &m),
	};
	t.ev(&format!("{{\"ev\":\"CFeed\",\"d\":[{}],\"ok\":true}}", dj.join(",")));
	let r = guarded(|| {
		let brain = Arc::new(Many { answers: Mutex::new(vec![]) });
		let mut solver = SimpleSolver::with_solver(&model, Scripted::<R> { brain: brain.clone() });
		solver.iterations = 1;
		solver.generations = 1;
		solver.samples = 1;
		solver.coeff_strength = R::put((w * nl) as i128);
		let solve = |a: Vec<Vec<bool>>| -> Look {
			*brain.answers.lock().unwrap() = a;
			let (e, view, labels) = solver.solve_with_constraints().unwrap();
			let mut got: Vec<(i64, bool)> = view.keys().map(|k| (k.un(), view[k])).collect();
			got.sort();
			let mut labels: Vec<i64> = labels.iter().map(|c| c.un()).collect();
			labels.sort();
			Look {
				e: e.exact(),
				sole: view.energy().unwrap().exact(),
				got,
				lf: view.keys().map(|k| (k.un(), view.local_field(k).unwrap().exact())).collect(),
				labels,
			}
		};
		let n = nv as usize + 1;
		let zero = solve(vec![vec![]]);
		let keys: Vec<i64> = zero.got.iter().map(|g| g.0).collect();
		let m = keys.len();
		let mut place = vec![None; m];
		for i in 0..n {
			let mut a = vec![false; n];
			a[i] = true;
			for (k, g) in solve(vec![a]).got.iter().enumerate() {
				if g.1 {
					place[k] = Some(i);
				}
			}
		}
		let place: Vec<usize> = place.into_iter().map(|p| p.expect("a label without place")).collect();
		let of = |k: usize| -> Vec<bool> {
			let mut a = vec![false; n];
			for (i, p) in place.iter().enumerate() {
				a[*p] = k >> i & 1 == 1;
			}
			a
		};
		let bits = |g: &[(i64, bool)]| arr(&g.iter().map(|g| g.1 as i64).collect::<Vec<_>>());
		for k in 0..1usize << m {
			let s = solve(vec![of(k)]);
			let lf: Vec<String> = keys.iter().map(|q| digits(s.lf[q], tt)).collect();
			t.ev(&format!(
				"{{\"ev\":\"BRet\",\"keys\":{},\"x\":{},\"want\":{},\"e\":{},\"sole\":{},\"lf\":[{}],\"labels\":{}}}",
				arr(&keys), bits(&s.got),
				arr(&(0..m).map(|i| k >> i & 1).collect::<Vec<_>>()),
				digits(s.e, tt), digits(s.sole, tt), lf.join(","), arr(&s.labels)
			));
		}
		let mut rng = Mix(l.io("seed", 1) as u64);
		for _ in 0..l.io("picks", 4) {
			let ks: Vec<usize> = (0..2 + rng.below(4)).map(|_| rng.below(1 << m) as usize).collect();
			let s = solve(ks.iter().map(|k| of(*k)).collect());
			let xs: Vec<String> = ks.iter().map(|k| arr(&(0..m).map(|i| k >> i & 1).collect::<Vec<_>>())).collect();
			t.ev(&format!(
				"{{\"ev\":\"BPick\",\"keys\":{},\"xs\":[{}],\"x\":{},\"e\":{}}}",
				arr(&keys), xs.join(","), bits(&s.got), digits(s.e, tt)
			));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "big", &m);
	}
}

//! Packed states, interaction stores, energies, structured view.
use crate::annealing::edges;
use crate::prog::Num;
use crate::sampler::Fail;
use crate::util::*;
use annealers::model::{FixedSingleQuadricModel, ModelView, SingleModel, SingleModelView};
use annealers::node::{Binary, SingleNode, Spin, TwoVal};
use annealers::order::{HighOrder, Order, Quadric};
use annealers::repr::BinaryRepr;
use annealers::set::NodeSet;
use annealers::solution::SingleSolution;
use annealers::variable::Real;
use annealers::solver::{
	ClassicalSolver, Solver, SolverGenerator, StructuredSolverGenerator, UnstructuredSolverGenerator,
};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

fn b01(v: &[bool]) -> String {
	arr(&v.iter().map(|b| *b as i64).collect::<Vec<_>>())
}

/// `kind=repr init=0,1,1 ops=set:0:1;flip:2;get:1;clone;...`
pub fn repr(l: &Line, t: &Trace) {
	let init: Vec<bool> = l.list("init").iter().map(|b| *b == 1).collect();
	let r = guarded(|| {
		let mut s = BinaryRepr::from_vec(&init);
		let mut old: Option<BinaryRepr> = None;
		if l.io("random", 0) == 1 {
			let mut rng = crate::annealing::Coins {
				init: vec![0xa5, 0x3c, 0xff, 0x00, 0x7e],
				us: vec![0.5],
				at: 0,
				draws: 0,
				skip: 0,
				early: 0,
			};
			s = BinaryRepr::new_random(init.len(), &mut rng);
		}
		t.ev(&format!(
			"{{\"ev\":\"ReprNew\",\"random\":{},\"init\":{},\"vec\":{},\"len\":{},\"empty\":{},\"iter\":{},\"idx\":{}}}",
			l.io("random", 0) == 1,
			b01(&init),
			b01(&s.to_vec()),
			s.len(),
			s.is_empty(),
			b01(&s.iter().collect::<Vec<_>>()),
			b01(&(0..s.len()).map(|i| s[i]).collect::<Vec<_>>())
		));
		for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
			let p: Vec<&str> = op.split(':').collect();
			let arg = |i: usize| -> usize { p[i].parse().unwrap() };
			let i = if p.len() > 1 { arg(1) } else { 0 };
			let mut v = if p.len() > 2 { arg(2) } else { 0 };
			let ok = match p[0] {
				"set" => guarded(|| s.set(i, v == 1)).is_ok(),
				"flip" => guarded(|| s.flip(i)).is_ok(),
				"get" => match guarded(|| s.get(i)) {
					Ok(b) => {
						v = b as usize;
						true
					}
					Err(_) => false,
				},
				"idx" => match guarded(|| s[i]) {
					Ok(b) => {
						v = b as usize;
						true
					}
					Err(_) => false,
				},
				// unchecked variants within bounds
				"uset" => {
					unsafe { s.set_unchecked(i, v == 1) };
					true
				}
				"uflip" => {
					unsafe { s.flip_unchecked(i) };
					true
				}
				"clone" => {
					old = Some(s.clone());
					true
				}
				"back" => {
					// returns to the clone, which the operations since did not touch
					if let Some(o) = old.take() {
						s = o;
					}
					true
				}
				"again" => {
					s = BinaryRepr::from_vec(&s.to_vec());
					true
				}
				o => panic!("unknown op {}", o),
			};
			let sol = SingleSolution::<Binary<f64>>::from_state(s.clone());
			t.ev(&format!(
				"{{\"ev\":\"ReprOp\",\"op\":\"{}\",\"i\":{},\"v\":{},\"ok\":{},\"vec\":{},\"iter\":{},\"idx\":{},\"len\":{},\"sol\":{},\"sidx\":{},\"sun\":{},\"slen\":{},\"dbg\":{},\"more\":{}}}",
				p[0], i, v, ok, b01(&s.to_vec()),
				b01(&s.iter().collect::<Vec<_>>()),
				b01(&(0..s.len()).map(|i| s[i]).collect::<Vec<_>>()),
				s.len(),
				b01(&(0..sol.len()).map(|i| sol.get(i)).collect::<Vec<_>>()),
				b01(&(0..s.len()).map(|i| sol[i]).collect::<Vec<_>>()),
				b01(&(0..s.len()).map(|i| unsafe { sol.get_unchecked(i) }).collect::<Vec<_>>()),
				sol.len(),
				arr(&debugged(&s)),
				beyond(&s)
			));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "repr", &m);
	}
}

/// The list a debug text shows ([-1] when it is no list of booleans).
fn debugged(s: &BinaryRepr) -> Vec<i64> {
	let d = format!("{:?}", s);
	let d = match d.strip_prefix('[').and_then(|d| d.strip_suffix(']')) {
		Some(d) => d.to_string(),
		None => return vec![-1],
	};
	d.split(',')
		.map(|x| x.trim())
		.filter(|x| !x.is_empty())
		.map(|x| match x {
			"true" => 1,
			"false" => 0,
			_ => -1,
		})
		.collect()
}

/// The elements an iterator still gives after its end.
fn beyond(s: &BinaryRepr) -> usize {
	let mut it = s.iter();
	while it.next().is_some() {}
	(0..3).filter(|_| it.next().is_some()).count()
}

fn lists(v: &[Vec<usize>]) -> String {
	let s: Vec<String> = v.iter().map(|x| arr(x)).collect();
	format!("[{}]", s.join(","))
}

/// `kind=longrepr len=70000 init=3,65536 ops=...`: long states with few ones.
pub fn longrepr(l: &Line, t: &Trace) {
	let len = l.i("len") as usize;
	let init = l.list("init");
	let r = guarded(|| {
		let mut v = vec![false; len];
		for i in init[..].iter() {
			v[*i as usize] = true;
		}
		let ones = |it: &mut dyn Iterator<Item = bool>| -> Vec<usize> {
			it.enumerate().filter(|p| p.1).map(|p| p.0).take(500).collect()
		};
		let mut s = BinaryRepr::from_vec(&v);
		t.ev(&format!("{{\"ev\":\"LongNew\",\"len\":{},\"ones\":{}}}", len, arr(&init)));
		for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
			let p: Vec<&str> = op.split(':').collect();
			let i: usize = p[1].parse().unwrap();
			let mut v = if p.len() > 2 { p[2].parse::<usize>().unwrap() } else { 0 };
			let ok = match p[0] {
				"set" => guarded(|| s.set(i, v == 1)).is_ok(),
				"flip" => guarded(|| s.flip(i)).is_ok(),
				_ => match guarded(|| s.get(i)) {
					Ok(b) => {
						v = b as usize;
						true
					}
					Err(_) => false,
				},
			};
			t.ev(&format!(
				"{{\"ev\":\"Long\",\"op\":\"{}\",\"i\":{},\"v\":{},\"ok\":{},\"len\":{},\"iter\":{},\"vec\":{},\"idx\":{}}}",
				p[0],
				i,
				v,
				ok,
				s.len(),
				arr(&ones(&mut s.iter())),
				arr(&ones(&mut s.to_vec().into_iter())),
				arr(&ones(&mut (0..s.len()).map(|i| s[i])))
			));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "longrepr", &m);
	}
}

/// `kind=bigstore n=1000 m=0:1:3,...`: a fixed model too large to be listed.
pub fn bigstore<R: Num>(l: &Line, t: &Trace) {
	let n = l.i("n") as usize;
	let r = guarded(|| {
		let mut m = FixedSingleQuadricModel::<Binary<R>>::new(Binary::new(), n);
		t.ev(&format!("{{\"ev\":\"Store\",\"sparse\":true,\"high\":false,\"n\":{}}}", n));
		let es = edges(l.s("m"));
		for (i, j, w) in es[..].iter() {
			m.add_weight(*i, *j, R::of(*w, 1));
			t.ev(&format!("{{\"ev\":\"Add\",\"p\":{},\"w\":{}}}", arr(&[*i, *j]), w));
		}
		let mut at: Vec<(usize, usize)> = edges(l.s("at")).iter().map(|e| (e.0, e.1)).collect();
		at.extend(es[..].iter().map(|e| (e.0, e.1)));
		let w: Vec<String> = at
			.iter()
			.map(|(i, j)| {
				let p = [*i.min(j), *i.max(j)];
				format!("[{},{},{}]", i, j, scaled(R::as_f64(&SingleModelView::get_weight(&m, &p)), 1.0).0)
			})
			.collect();
		let most = n * (n + 1);
		let mut seen = std::collections::HashSet::new();
		let mut count = 0usize;
		let mut inside = true;
		let mut sum = 0.0;
		for p in m.prods().take(most) {
			count += 1;
			inside &= p[0] <= p[1] && p[1] < n;
			if inside {
				sum += R::as_f64(&SingleModelView::get_weight(&m, &p));
			}
			seen.insert(p);
		}
		let nb: Vec<String> = [0, 1, n / 2, n - 2, n - 1]
			.iter()
			.map(|u| {
				let v: Vec<[usize; 2]> = m.neighbors(*u).take(most).collect();
				let d: std::collections::HashSet<[usize; 2]> = v[..].iter().copied().collect();
				let ok = v[..].iter().all(|p| (p[0] == *u || p[1] == *u) && p[0] <= p[1] && p[1] < n);
				format!("[{},{},{}]", v.len(), d.len(), ok as i64)
			})
			.collect();
		t.ev(&format!(
			"{{\"ev\":\"Peek\",\"w\":[{}],\"count\":{},\"distinct\":{},\"inside\":{},\"sum\":{},\"size\":{},\"nb\":[{}]}}",
			w.join(","),
			count,
			seen.len(),
			inside,
			scaled(sum, 1.0).0,
			SingleModelView::size(&m),
			nb.join(",")
		));
	});
	if let Err(m) = r {
		panic_ev(t, "bigstore", &m);
	}
}

/// `kind=fixedstore n=4 m=0:1:3,1:0:2,...`
pub fn fixedstore<R: Num>(l: &Line, t: &Trace) {
	let u = l.io("unit", 1);
	let n = l.i("n") as usize;
	let r = guarded(|| {
		let mut m = FixedSingleQuadricModel::<Binary<R>>::new(Binary::new(), n);
		t.ev(&format!("{{\"ev\":\"Store\",\"sparse\":false,\"high\":false,\"n\":{}}}", n));
		for (i, j, w) in edges(l.s("m")) {
			m.add_weight(i, j, R::of(w, u));
			t.ev(&format!("{{\"ev\":\"Add\",\"p\":{},\"w\":{}}}", arr(&[i, j]), w));
		}
		look(&m, t, |p| R::as_f64(&p) * u as f64, n);
		// places outside the model are refused and leave it as it is
		for (i, j, w) in edges(l.opt("bad").unwrap_or("")) {
			let put = guarded(|| m.add_weight(i, j, R::of(w, u))).is_ok();
			let got = guarded(|| SingleModelView::get_weight(&m, &[i.min(j), i.max(j)])).is_ok();
			t.ev(&format!("{{\"ev\":\"Bad\",\"p\":{},\"put\":{},\"got\":{}}}", arr(&[i, j]), put, got));
		}
		if l.opt("m2").is_some() {
			let kept = m.clone();
			t.ev("{\"ev\":\"Keep\"}");
			for (i, j, w) in edges(l.s("m2")) {
				m.add_weight(i, j, R::of(w, u));
				t.ev(&format!("{{\"ev\":\"Add\",\"p\":{},\"w\":{}}}", arr(&[i, j]), w));
			}
			look(&m, t, |p| R::as_f64(&p) * u as f64, n);
			t.ev("{\"ev\":\"Kept\"}");
			look(&kept, t, |p| R::as_f64(&p) * u as f64, n);
		}
	});
	if let Err(m) = r {
		panic_ev(t, "fixedstore", &m);
	}
}

fn look<M: SingleModelView>(
	m: &M,
	t: &Trace,
	f: impl Fn(<M::Node as SingleNode>::RealType) -> f64,
	top: usize,
) {
	let prods: Vec<_> = m.prods().into_iter().take(100_000).collect();
	let mut w = Vec::new();
	let mut wu = Vec::new();
	for p in prods.iter() {
		w.push(scaled(f(m.get_weight(p)), 1.0).0);
		wu.push(scaled(f(unsafe { m.get_weight_unchecked(p) }), 1.0).0);
	}
	let mut nb = Vec::new();
	let us: Vec<usize> = if top <= 80 {
		(0..top).collect()
	} else {
		vec![0, 1, 63, 64, top / 2, top - 2, top - 1]
	};
	for u in us {
		nb.push(format!(
			"[{},{}]",
			u,
			lists(&m.neighbors(u).into_iter().take(100_000).map(|p| p.into_vec()).collect::<Vec<_>>())
		));
	}
	let uses: Vec<String> = prods
		.iter()
		.map(|p| {
			format!(
				"[{},{}]",
				p.len(),
				if top <= 80 {
					arr(&(0..top + 1).filter(|i| p.contains(*i)).collect::<Vec<_>>())
				} else {
					// around the members
					let v = p.clone().into_vec();
					let mut c: Vec<usize> = (&v[..]).iter().flat_map(|x| vec![*x, x + 1, x.wrapping_sub(1), x + 64]).collect();
					c.sort();
					c.dedup();
					c.retain(|i| *i <= top && p.contains(*i));
					arr(&c)
				}
			)
		})
		.collect();
	t.ev(&format!(
		"{{\"ev\":\"Look\",\"prods\":{},\"w\":{},\"nb\":[{}],\"nodes\":{},\"size\":{},\"uses\":[{}],\"wu\":{},\"order\":{},\"vnodes\":{},\"vsize\":{}}}",
		lists(&prods.iter().map(|p| p.clone().into_vec()).collect::<Vec<_>>()),
		arr(&w),
		nb.join(","),
		arr(&m.nodes().into_iter().take(100_000).collect::<Vec<_>>()),
		m.size(),
		uses.join(","),
		arr(&wu),
		m.order().order(),
		arr(&ModelView::nodes(m).into_iter().take(100_000).collect::<Vec<_>>()),
		ModelView::size(m)
	));
}

fn hedges(s: &str) -> Vec<(Vec<usize>, i64)> {
	s.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let v: Vec<i64> = t.split(':').map(|x| x.parse().unwrap()).collect();
			(
				v[..v.len() - 1].iter().map(|x| *x as usize).collect(),
				v[v.len() - 1],
			)
		})
		.collect()
}

pub fn sparsestore<R: Num>(l: &Line, t: &Trace) {
	let u = l.io("unit", 1);
	let top = l.i("n") as usize;
	let r = guarded(|| {
		let high = l.io("high", 0) == 1;
		t.ev(&format!("{{\"ev\":\"Store\",\"sparse\":true,\"high\":{},\"n\":{}}}", high, top));
		macro_rules! go {
			($m:expr) => {{
				let mut m = $m;
				for (v, w) in hedges(l.s("m")) {
					m.add_weight(NodeSet::from_vec(v.clone()).unwrap(), R::of(w, u));
					t.ev(&format!("{{\"ev\":\"Add\",\"p\":{},\"w\":{}}}", arr(&v), w));
				}
				look(&m, t, |p| R::as_f64(&p) * u as f64, top);
				if l.opt("m2").is_some() {
					let kept = m.clone();
					t.ev("{\"ev\":\"Keep\"}");
					for (v, w) in hedges(l.s("m2")) {
						m.add_weight(NodeSet::from_vec(v.clone()).unwrap(), R::of(w, u));
						t.ev(&format!("{{\"ev\":\"Add\",\"p\":{},\"w\":{}}}", arr(&v), w));
					}
					look(&m, t, |p| R::as_f64(&p) * u as f64, top);
					t.ev("{\"ev\":\"Kept\"}");
					look(&kept, t, |p| R::as_f64(&p) * u as f64, top);
				}
			}};
		}
		if high {
			go!(SingleModel::<Spin<R>, HighOrder>::new(Spin::new(), HighOrder::new(5)));
		} else {
			go!(SingleModel::<Binary<R>, Quadric>::new(Binary::new(), Quadric));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "sparsestore", &m);
	}
}

/// `kind=energy node=bin|spin|two:a:b store=fixed|sparse|high m=... xs=0101,...`
pub fn energy<R: Num>(l: &Line, t: &Trace) {
	let nd: Vec<&str> = l.s("node").split(':').collect();
	let k = |i: usize| R::of(nd[i].parse().unwrap(), 1);
	match nd[0] {
		"bin" => energy_of(Binary::<R>::new(), 1, 0, l, t),
		"spin" => energy_of(Spin::<R>::new(), 1, -1, l, t),
		_ => energy_of(
			TwoVal::<R>::new(k(1), k(2)),
			nd[1].parse().unwrap(),
			nd[2].parse().unwrap(),
			l,
			t,
		),
	}
}

fn energy_of<M: SingleNode>(node: M, tv: i64, fv: i64, l: &Line, t: &Trace)
where
	M::RealType: Num,
{
	let n = l.i("n") as usize;
	let es = hedges(l.s("m"));
	let js: Vec<String> = es.iter().map(|(v, w)| format!("[{},{}]", arr(v), w)).collect();
	t.ev(&format!(
		"{{\"ev\":\"EModel\",\"n\":{},\"tv\":{},\"fv\":{},\"m\":[{}],\"ty\":\"{}\"}}",
		n,
		tv,
		fv,
		js.join(","),
		M::RealType::NAME
	));
	let r = guarded(|| {
		let r = |w: i64| <M::RealType as Num>::of(w, l.io("unit", 1));
		match l.s("store") {
			"fixed" => {
				let mut m = FixedSingleQuadricModel::new(node.clone(), n);
				for (v, w) in es.iter() {
					m.add_weight(v[0], v[v.len() - 1], r(*w));
				}
				energies(&m, n, l, t);
			}
			"sparse" => {
				let mut m = SingleModel::new(node.clone(), Quadric);
				for (v, w) in es.iter() {
					m.add_weight(NodeSet::from_vec(v.clone()).unwrap(), r(*w));
				}
				energies(&m, n, l, t);
			}
			_ => {
				let mut m = SingleModel::new(node.clone(), HighOrder::new(6));
				for (v, w) in es.iter() {
					m.add_weight(v.clone().into_iter().collect::<BTreeSet<usize>>(), r(*w));
				}
				energies(&m, n, l, t);
			}
		}
	});
	if let Err(m) = r {
		panic_ev(t, "energy", &m);
	}
}

fn energies<P: SingleModelView>(m: &P, n: usize, l: &Line, t: &Trace)
where
	<P::Node as SingleNode>::RealType: Num,
{
	let unit = l.io("unit", 1);
	let f = |v: <P::Node as SingleNode>::RealType| scaled(v.as_f64() * unit as f64, 1.0).0;
	let g = |v: <P::Node as SingleNode>::RealType| scaled(v.as_f64(), 1.0).0;
	for xs in l.s("xs").split(',') {
		let x: Vec<bool> = xs.bytes().map(|c| c == b'1').collect();
		assert_eq!(x.len(), n);
		let sol = SingleSolution::<P::Node>::from_vec(&x);
		let e = f(sol.calculate_energy(m));
		let lf: Vec<i64> = sol.clone().calculate_local_field(m).into_iter().map(f).collect();
		let ws = sol.clone().with_energy(m).with_local_field(m);
		let we = ws.energy.map_or(i32::MAX as i64, f);
		let wl: Vec<i64> = ws
			.local_field
			.clone()
			.map_or(vec![], |v| v.into_iter().map(f).collect());
		// what is already stored stays as it is
		let mut st = sol.clone();
		st.energy = Some(Num::of(l.io("pe", 77), unit));
		st.local_field = Some(vec![Num::of(l.io("pl", 55), unit); n]);
		let se = f(st.calculate_energy(m));
		let sl: Vec<i64> = st.clone().calculate_local_field(m).into_iter().map(f).collect();
		let st = st.with_energy(m).with_local_field(m);
		t.ev(&format!(
			"{{\"ev\":\"Energy\",\"x\":{},\"e\":{},\"lf\":{},\"we\":{},\"wl\":{},\"se\":{},\"sl\":{},\"ste\":{},\"stl\":{},\"after\":{},\"wafter\":{},\"cmp\":{},\"none\":{},\"occ\":{},\"vals\":{},\"one\":{},\"pv\":{},\"pe\":{},\"pl\":{}}}",
			b01(&x), e, arr(&lf), we, arr(&wl), se, arr(&sl),
			st.energy.map_or(0, f),
			arr(&st.local_field.clone().map_or(vec![], |v| v.into_iter().map(f).collect())),
			b01(&sol.state.to_vec()),
			b01(&ws.state.to_vec()),
			ws.compare_energy(&st).map_or(9, |o| o as i64),
			arr(&[
				sol.compare_energy(&ws).map_or(9, |o| o as i64),
				ws.compare_energy(&sol).map_or(9, |o| o as i64),
				sol.compare_energy(&sol).map_or(9, |o| o as i64),
			]),
			sol.occurrences,
			arr(&[g(m.node().get_value(true)), g(m.node().get_value(false))]),
			g(m.node().calculate_prod(&[])),
			g(m.node().calculate_prod(&x[..n.min(3)])),
			l.io("pe", 77), l.io("pl", 55)
		));
	}
}

struct Capped {
	cap: Option<usize>,
	made: Arc<AtomicUsize>,
}
struct Nothing(usize);
type FM = FixedSingleQuadricModel<Binary<f64>>;
impl<'a> SolverGenerator<'a, FM> for Capped {
	type SolverType = Nothing;
	type ErrorType = Fail;
	fn generate(&self, m: &'a FM) -> Result<Nothing, Fail> {
		self.made.fetch_add(1, Ordering::SeqCst);
		let n = SingleModelView::size(m);
		if n > 50 {
			return Err(Fail(n as i64));
		}
		Ok(Nothing(n))
	}
}
impl<'a> UnstructuredSolverGenerator<'a, FM> for Capped {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
	fn size(&self) -> Option<usize> {
		self.cap
	}
}
impl Solver for Nothing {
	type ErrorType = Fail;
	type SolutionType = SingleSolution<Binary<f64>>;
}
impl ClassicalSolver for Nothing {
	fn solve_with_rng<T: rand::Rng>(&self, _: &mut T) -> Result<Vec<Self::SolutionType>, Fail> {
		Ok(vec![SingleSolution::from_vec(&vec![true; self.0])])
	}
}

/// A generator with a range of values of its own.
struct Ranged(Capped, i64, i64);
impl<'a> SolverGenerator<'a, FM> for Ranged {
	type SolverType = Nothing;
	type ErrorType = Fail;
	fn value_range(&self) -> (f64, f64) {
		(self.1 as f64, self.2 as f64)
	}
	fn generate(&self, m: &'a FM) -> Result<Nothing, Fail> {
		self.0.generate(m)
	}
}
impl<'a> UnstructuredSolverGenerator<'a, FM> for Ranged {
	type Order = Quadric;
	fn order(&self) -> Quadric {
		Quadric
	}
	fn size(&self) -> Option<usize> {
		UnstructuredSolverGenerator::size(&self.0)
	}
}

/// `kind=view cap=5 take=20` (cap -1: unbounded)
pub fn view(l: &Line, t: &Trace) {
	let cap = l.i("cap");
	let take = l.i("take") as usize;
	let r = guarded(|| {
		let made = Arc::new(AtomicUsize::new(0));
		let v = Capped {
			cap: if cap < 0 { None } else { Some(cap as usize) },
			made: made.clone(),
		}
		.into_structured();
		let nodes: Vec<usize> = v.nodes().take(take).collect();
		t.ev(&format!("{{\"ev\":\"View\",\"cap\":{},\"take\":{},\"nodes\":{}}}", cap, take, arr(&nodes)));
		for _ in 0..2 {
			let mut it = v.prods();
			for _ in 0..take {
				match it.next() {
					Some(p) => t.ev(&format!(
						"{{\"ev\":\"Pair\",\"p\":{}}}",
						arr(&p.into_iter().collect::<Vec<_>>())
					)),
					None => t.ev("{\"ev\":\"Pair\",\"p\":[]}"),
				}
			}
			t.ev("{\"ev\":\"Rewind\"}");
		}
		let small = FM::new(Binary::new(), 3);
		let large = FM::new(Binary::new(), 51);
		let g1 = v.generate(&small).map(|s| s.0 as i64).unwrap_or_else(|f| -f.0);
		let g2 = v.generate(&large).map(|s| s.0 as i64).unwrap_or_else(|f| -f.0);
		t.ev(&format!(
			"{{\"ev\":\"Through\",\"a\":{},\"b\":{},\"made\":{}}}",
			g1,
			g2,
			made.load(Ordering::SeqCst)
		));
		let ends = |(a, b): (f64, f64)| {
			let w = |v: f64| if v == f64::MIN { -1 } else if v == f64::MAX { 1 } else { 0 };
			arr(&[w(a), w(b)])
		};
		let plain = Capped { cap: Some(2), made: made.clone() };
		let direct = ends(SolverGenerator::value_range(&plain));
		let rv = Ranged(plain, l.io("lo", -7), l.io("hi", 19)).into_structured();
		let (lo, hi) = rv.value_range();
		t.ev(&format!(
			"{{\"ev\":\"Range\",\"gen\":{},\"view\":{},\"own\":{},\"through\":{}}}",
			direct,
			ends(v.value_range()),
			arr(&[l.io("lo", -7), l.io("hi", 19)]),
			arr(&[lo as i64, hi as i64])
		));
	});
	if let Err(m) = r {
		panic_ev(t, "view", &m);
	}
}

/// `kind=nodeset ty=pair|list|set in=3.1,2.0/set,...`: sets built one after the
/// other, each compared with all before it.
pub fn nodeset(l: &Line, t: &Trace) {
	match l.s("ty") {
		"pair" => nodesets::<[usize; 2]>(l, t),
		"list" => nodesets::<Vec<usize>>(l, t),
		_ => nodesets::<BTreeSet<usize>>(l, t),
	}
}

fn nodesets<S: NodeSet>(l: &Line, t: &Trace) {
	let r = guarded(|| {
		let mut before: Vec<(Vec<usize>, S)> = Vec::new();
		let mut table = std::collections::HashMap::new();
		for item in l.s("in").split(',') {
			let (item, set) = match item.strip_suffix("/set") {
				Some(i) => (i, true),
				None => (item, false),
			};
			let given: Vec<usize> = item.split('.').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
			let s = if set {
				S::from_set(given[..].iter().copied().collect())
			} else {
				S::from_vec(given.clone())
			};
			let mut probe: Vec<usize> = given[..].iter().flat_map(|x| vec![*x, *x + 1, x.saturating_sub(1)]).collect();
			probe.push(0);
			let ok = s.is_some();
			let s = match s {
				Some(s) => s,
				None => {
					t.ev(&format!(
						"{{\"ev\":\"NSet\",\"ty\":\"{}\",\"in\":{},\"ok\":{}}}",
						l.s("ty"), arr(&given), ok
					));
					continue;
				}
			};
			let eq: Vec<String> = before
				.iter()
				.map(|(g, o)| format!("[{},{}]", arr(g), (*o == s && s == *o) as i64))
				.collect();
			t.ev(&format!(
				"{{\"ev\":\"NSet\",\"ty\":\"{}\",\"in\":{},\"ok\":{},\"len\":{},\"iter\":{},\"vec\":{},\"set\":{},\"again\":{},\"probe\":{},\"has\":{},\"eq\":[{}],\"found\":{}}}",
				l.s("ty"),
				arr(&given),
				ok,
				s.len(),
				arr(&s.iter().collect::<Vec<_>>()),
				arr(&s.clone().into_vec()),
				arr(&s.clone().into_set().into_iter().collect::<Vec<_>>()),
				arr(&S::from_it(s.iter()).map_or(vec![], |x| x.into_vec())),
				arr(&probe),
				arr(&probe[..].iter().copied().filter(|x| s.contains(*x)).collect::<Vec<_>>()),
				eq.join(","),
				table.contains_key(&s)
			));
			table.insert(s.clone(), ());
			before.push((given, s));
		}
	});
	if let Err(m) = r {
		panic_ev(t, "nodeset", &m);
	}
}

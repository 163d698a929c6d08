//! `Expr::map` on expressions written out with the constructors.
use crate::prog::*;
use crate::util::*;
#[allow(unused_imports)]
use annealers::variable::Real;
use rustqubo::Expr;

pub fn json<P: Lab, Q: Lab, C: Lab, R: Num>(e: &E<P, Q, C, R>) -> String {
	match e {
		Expr::Placeholder(p) => format!("[\"ph\",{}]", p.un()),
		Expr::Add(a, b) => format!("[\"add\",{},{}]", json(a), json(b)),
		Expr::Mul(a, b) => format!("[\"mul\",{},{}]", json(a), json(b)),
		Expr::Number(n) => format!("[\"num\",{}]", scaled(n.as_f64(), 1.0).0),
		Expr::Binary(q) => format!("[\"bin\",{}]", q.un()),
		Expr::Spin(q) => format!("[\"spin\",{}]", q.un()),
		Expr::Constraint { label, expr } => format!("[\"con\",{},{}]", label.un(), json(expr)),
		Expr::WithPenalty { expr, penalty } => format!("[\"pen\",{},{}]", json(expr), json(penalty)),
	}
}

/// `ops` uses constructors only; `f` names the function that is mapped.
pub fn run<P: Lab, Q: Lab, C: Lab, R: Num>(l: &Line, t: &Trace) {
	let mut st: Vec<E<P, Q, C, R>> = Vec::new();
	t.ev("{\"ev\":\"Begin\",\"unit\":1,\"w\":1,\"ty\":\"\",\"int\":true}");
	for op in l.s("ops").split(';').filter(|s| !s.is_empty()) {
		t.ev(&format!("{{\"ev\":\"Op\",\"op\":{}}}", op_json(op)));
		if let Err(m) = guarded(|| apply(&mut st, op, 1)) {
			return panic_ev(t, op, &m);
		}
	}
	let e = st.pop().unwrap();
	let before = json(&e);
	let fs: Vec<String> = l.s("f").split(';').map(|s| s.to_string()).collect();
	let mut cur = e;
	t.ev(&format!("{{\"ev\":\"Built\",\"e\":{}}}", before));
	for f in fs {
		let parts: Vec<&str> = f.split(':').collect();
		let arg = |i: usize| -> i64 { parts[i].parse().unwrap() };
		let mut seen: Vec<String> = Vec::new();
		let e = cur.clone();
		let r = guarded(|| {
			e.map(&mut |x: E<P, Q, C, R>| {
				seen.push(json(&x));
				match parts[0] {
					"mapid" => x,
					"mapnum" => match &x {
						Expr::Binary(q) | Expr::Spin(q) if q.un() == arg(1) => {
							Expr::Number(R::of(arg(2), 1))
						}
						_ => x,
					},
					"mapren" => match x {
						Expr::Binary(q) if q.un() == arg(1) => Expr::Binary(Q::mk(arg(2))),
						Expr::Spin(q) if q.un() == arg(1) => Expr::Spin(Q::mk(arg(2))),
						x => x,
					},
					"mapswap" => match x {
						Expr::Binary(q) => Expr::Spin(q),
						Expr::Spin(q) => Expr::Binary(q),
						x => x,
					},
					"mapadd" => match x {
						Expr::Number(n) => Expr::Number(n + R::of(arg(1), 1)),
						x => x,
					},
					"maplab" => match x {
						Expr::Constraint { label, expr } => Expr::Constraint {
							label: C::mk(label.un() + arg(1)),
							expr,
						},
						x => x,
					},
					"mapstrip" => match x {
						Expr::WithPenalty { expr, .. } => *expr,
						x => x,
					},
					"mapstripall" => {
						let mut x = x;
						while let Expr::WithPenalty { expr, .. } = x {
							x = *expr;
						}
						x
					}
					// an inner node is turned around: children change place
					"mapflip" => match x {
						Expr::Add(a, b) => Expr::Add(b, a),
						Expr::Mul(a, b) => Expr::Mul(b, a),
						x => x,
					},
					// a leaf grows into a tree whose leaves are mapped as well
					"mapgrow" => match &x {
						Expr::Spin(q) => Expr::Add(
							Box::new(Expr::Binary(q.clone())),
							Box::new(Expr::Binary(q.clone())),
						),
						_ => x,
					},
					"mapph" => match &x {
						Expr::Placeholder(q) if q.un() == arg(1) => Expr::Number(R::of(arg(2), 1)),
						_ => x,
					},
					o => panic!("unknown function {}", o),
				}
			})
		});
		match r {
			Ok(r) => {
				t.ev(&format!(
					"{{\"ev\":\"Map\",\"op\":{},\"e\":{},\"seen\":[{}]}}",
					op_json(&f),
					json(&r),
					seen.join(",")
				));
				cur = r;
			}
			Err(m) => return panic_ev(t, &f, &m),
		}
	}
}

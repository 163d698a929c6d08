//! Expression programs: a stack machine over the public constructors and
//! operators of `Expr`.
use annealers::variable::Real;
use rustqubo::Expr;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

pub trait Lab: Clone + PartialEq + Eq + Ord + Hash + Debug + Send + Sync + 'static {
	fn mk(i: i64) -> Self;
	fn un(&self) -> i64;
}
impl Lab for i32 {
	// not monotonic
	fn mk(i: i64) -> i32 {
		(if i % 2 == 0 { i } else { -i }) as i32
	}
	fn un(&self) -> i64 {
		self.abs() as i64
	}
}
impl Lab for u8 {
	fn mk(i: i64) -> u8 {
		(200 - i) as u8
	}
	fn un(&self) -> i64 {
		200 - *self as i64
	}
}
impl Lab for String {
	fn mk(i: i64) -> String {
		format!("label {}", i)
	}
	fn un(&self) -> i64 {
		self[6..].parse().unwrap()
	}
}
impl Lab for (i32, String) {
	fn mk(i: i64) -> Self {
		((i % 3) as i32, format!("x{}", i))
	}
	fn un(&self) -> i64 {
		self.1[1..].parse().unwrap()
	}
}

pub type E<P, Q, C, R> = Expr<P, Q, C, R>;

pub trait Num: Real {
	const NAME: &'static str;
	const INT: bool;
	fn of(k: i64, d: i64) -> Self;
	fn num_op<P: Lab, Q: Lab, C: Lab>(op: &str, e: E<P, Q, C, Self>, k: Self)
		-> E<P, Q, C, Self>;
}

macro_rules! num {
	($t:ty, $name:expr, $int:expr) => {
		impl Num for $t {
			const NAME: &'static str = $name;
			const INT: bool = $int;
			fn of(k: i64, d: i64) -> $t {
				if d == 1 {
					k as $t
				} else {
					(k as f64 / d as f64) as $t
				}
			}
			fn num_op<P: Lab, Q: Lab, C: Lab>(
				op: &str,
				e: E<P, Q, C, $t>,
				k: $t,
			) -> E<P, Q, C, $t> {
				let mut e = e;
				match op {
					"addn" => e + k,
					"subn" => e - k,
					"muln" => e * k,
					"nadd" => k + e,
					"nsub" => k - e,
					"nmul" => k * e,
					"addan" => {
						e += k;
						e
					}
					"suban" => {
						e -= k;
						e
					}
					"mulan" => {
						e *= k;
						e
					}
					_ => panic!("unknown op {}", op),
				}
			}
		}
	};
}
num!(i8, "i8", true);
num!(i16, "i16", true);
num!(i32, "i32", true);
num!(i64, "i64", true);
num!(i128, "i128", true);
num!(f32, "f32", false);
num!(f64, "f64", false);

pub fn dict<P: Lab, R: Num>(s: &str, d: i64) -> HashMap<P, R> {
	s.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let (p, k) = t.split_once('/').unwrap();
			(P::mk(p.parse().unwrap()), R::of(k.parse().unwrap(), d))
		})
		.collect()
}

/// `op` is like `bin:3`, `add`, `con:1`, `feed:0/3,1/2`, `mapnum:0:3`.
pub fn apply<P: Lab, Q: Lab, C: Lab, R: Num>(
	st: &mut Vec<E<P, Q, C, R>>,
	op: &str,
	unit: i64,
) {
	let parts: Vec<&str> = op.split(':').collect();
	let arg = |i: usize| -> i64 { parts[i].parse().unwrap() };
	match parts[0] {
		"bin" => st.push(Expr::Binary(Q::mk(arg(1)))),
		"spin" => st.push(Expr::Spin(Q::mk(arg(1)))),
		"num" => st.push(Expr::Number(R::of(arg(1), unit))),
		"ph" => st.push(Expr::Placeholder(P::mk(arg(1)))),
		"zero" => st.push(Expr::zero()),
		"one" => st.push(Expr::one()),
		"from" => st.push(Expr::from(R::of(arg(1), unit))),
		"dup" => {
			let e = st.last().unwrap().clone();
			st.push(e);
		}
		"add" | "sub" | "mul" | "adda" | "suba" | "mula" | "radd" | "rmul" => {
			let b = st.pop().unwrap();
			let mut a = st.pop().unwrap();
			st.push(match parts[0] {
				"add" => a + b,
				"sub" => a - b,
				"mul" => a * b,
				"radd" => Expr::Add(Box::new(a), Box::new(b)),
				"rmul" => Expr::Mul(Box::new(a), Box::new(b)),
				"adda" => {
					a += b;
					a
				}
				"suba" => {
					a -= b;
					a
				}
				_ => {
					a *= b;
					a
				}
			});
		}
		"neg" => {
			let a = st.pop().unwrap();
			st.push(-a);
		}
		"pow" => {
			let a = st.pop().unwrap();
			st.push(a ^ (arg(1) as usize));
		}
		"powa" => {
			let mut a = st.pop().unwrap();
			a ^= arg(1) as usize;
			st.push(a);
		}
		"con" => {
			let a = st.pop().unwrap();
			st.push(Expr::Constraint {
				label: C::mk(arg(1)),
				expr: Box::new(a),
			});
		}
		"pen" => {
			let p = st.pop().unwrap();
			let a = st.pop().unwrap();
			st.push(Expr::WithPenalty {
				expr: Box::new(a),
				penalty: Box::new(p),
			});
		}
		"feed" => {
			let a = st.pop().unwrap();
			st.push(a.feed_dict(&dict(parts[1], unit)));
		}
		"mapid" => {
			let a = st.pop().unwrap();
			st.push(a.map(&mut |x| x));
		}
		"mapnum" => {
			// the variable becomes a number, whichever its role
			let a = st.pop().unwrap();
			let (v, k) = (Q::mk(arg(1)), R::of(arg(2), unit));
			st.push(a.map(&mut |x| match &x {
				Expr::Binary(q) | Expr::Spin(q) if *q == v => Expr::Number(k),
				_ => x,
			}));
		}
		"mapren" => {
			let a = st.pop().unwrap();
			let (v, w) = (Q::mk(arg(1)), Q::mk(arg(2)));
			st.push(a.map(&mut |x| match x {
				Expr::Binary(q) if q == v => Expr::Binary(w.clone()),
				Expr::Spin(q) if q == v => Expr::Spin(w.clone()),
				x => x,
			}));
		}
		"mapswap" => {
			// exchanges the roles binary <-> spin everywhere: applied twice to a
			// node it would be undone
			let a = st.pop().unwrap();
			st.push(a.map(&mut |x| match x {
				Expr::Binary(q) => Expr::Spin(q),
				Expr::Spin(q) => Expr::Binary(q),
				x => x,
			}));
		}
		"mapadd" => {
			// numbers grow by a constant
			let a = st.pop().unwrap();
			let k = R::of(arg(1), unit);
			st.push(a.map(&mut |x| match x {
				Expr::Number(n) => Expr::Number(n + k),
				x => x,
			}));
		}
		"maplab" => {
			// relabels constraints and strips nothing else
			let a = st.pop().unwrap();
			let k = arg(1);
			st.push(a.map(&mut |x| match x {
				Expr::Constraint { label, expr } => Expr::Constraint {
					label: C::mk(label.un() + k),
					expr,
				},
				x => x,
			}));
		}
		"mapstripall" => {
			// penalties are dropped, root first
			let a = st.pop().unwrap();
			st.push(a.map(&mut |x| {
				let mut x = x;
				while let Expr::WithPenalty { expr, .. } = x {
					x = *expr;
				}
				x
			}));
		}
		"mapph" => {
			let a = st.pop().unwrap();
			let (p, k) = (P::mk(arg(1)), R::of(arg(2), unit));
			st.push(a.map(&mut |x| match &x {
				Expr::Placeholder(q) if *q == p => Expr::Number(k),
				_ => x,
			}));
		}
		k if k.len() >= 4 => {
			let a = st.pop().unwrap();
			st.push(R::num_op(k, a, R::of(arg(1), unit)));
		}
		k => panic!("unknown op {}", k),
	}
}

pub fn op_json(op: &str) -> String {
	let parts: Vec<&str> = op.split(':').collect();
	if parts[0] == "feed" {
		return format!("[\"feed\",{}]", dict_json(parts[1]));
	}
	let mut s = format!("[\"{}\"", parts[0]);
	for p in &parts[1..] {
		s.push(',');
		s.push_str(p);
	}
	s.push(']');
	s
}

pub fn dict_json(s: &str) -> String {
	let v: Vec<String> = s
		.split(',')
		.filter(|t| !t.is_empty())
		.map(|t| {
			let (p, k) = t.split_once('/').unwrap();
			format!("[{},{}]", p, k)
		})
		.collect();
	format!("[{}]", v.join(","))
}

//! `vh SCENARIOS TRACE`: executes scenario lines on the real library and
//! writes what happened, one JSON event per line.
mod annealing;
mod big;
mod conv;
mod mapping;
mod prog;
mod sampler;
mod session;
mod solving;
mod store;
mod util;

use std::sync::Arc;
use util::*;

macro_rules! num_only {
	($l:expr, $t:expr, $($f:ident)::+ $(, $arg:expr)*) => {
		match $l.s("ty") {
			"i8" => $($f)::+::<i8>($l, $t $(, $arg)*),
			"i16" => $($f)::+::<i16>($l, $t $(, $arg)*),
			"i32" => $($f)::+::<i32>($l, $t $(, $arg)*),
			"i64" => $($f)::+::<i64>($l, $t $(, $arg)*),
			"i128" => $($f)::+::<i128>($l, $t $(, $arg)*),
			"f32" => $($f)::+::<f32>($l, $t $(, $arg)*),
			"f64" => $($f)::+::<f64>($l, $t $(, $arg)*),
			o => panic!("type {}", o),
		}
	};
}

mod inst {
	//! generic over the number type alone; the label types differ per type
	use crate::prog::*;
	use crate::util::*;
	pub trait Labels {
		type P: Lab;
		type Q: Lab;
		type C: Lab;
	}
	macro_rules! labels {
		($r:ty, $p:ty, $q:ty, $c:ty) => {
			impl Labels for $r {
				type P = $p;
				type Q = $q;
				type C = $c;
			}
		};
	}
	labels!(f64, String, i32, String);
	labels!(f32, u8, (i32, String), i32);
	labels!(i8, i32, u8, u8);
	labels!(i16, i32, i32, (i32, String));
	labels!(i32, (i32, String), String, i32);
	labels!(i64, i32, (i32, String), String);
	labels!(i128, u8, i32, u8);
	pub fn session<R: Num + Labels>(l: &Line, t: &Trace) {
		crate::session::run::<R::P, R::Q, R::C, R>(l, t)
	}
	pub fn big<R: crate::big::Exact + Labels>(l: &Line, t: &Trace) {
		crate::big::run::<R::P, R::Q, R::C, R>(l, t)
	}
	pub fn solving<R: Num + Labels>(l: &Line, t: &Trace) {
		crate::solving::run::<R::P, R::Q, R::C, R>(l, t)
	}
	pub fn mapping<R: Num + Labels>(l: &Line, t: &Trace) {
		crate::mapping::run::<R::P, R::Q, R::C, R>(l, t)
	}
}

fn main() {
	let args: Vec<String> = std::env::args().collect();
	let text = std::fs::read_to_string(&args[1]).expect("scenarios");
	let t = Arc::new(Trace::new(&args[2]));
	std::panic::set_hook(Box::new(|_| {}));
	{
		let t = t.clone();
		let limit: u64 = args.get(3).map_or(60, |s| s.parse().unwrap());
		std::thread::spawn(move || loop {
			std::thread::sleep(std::time::Duration::from_millis(500));
			t.check_hang(limit);
		});
	}
	for line in text.lines().filter(|l| !l.is_empty() && !l.starts_with('#')) {
		let l = Line::parse(line);
		let l = &l;
		let t = &*t;
		t.begin(l.s("id"));
		match l.s("kind") {
			"session" => num_only!(l, t, inst::session),
			"big" => num_only!(l, t, inst::big),
			"solve" => num_only!(l, t, inst::solving),
			"map" => match l.s("ty") {
				"f64" => inst::mapping::<f64>(l, t),
				_ => inst::mapping::<i32>(l, t),
			},
			"sweeps" => {
				let mut first = true;
				for ty in l.s("ty").split(',') {
					let mut m = Line(l.0.clone());
					m.0.insert("ty".into(), ty.into());
					let m = &m;
					num_only!(m, t, annealing::sweeps, first);
					first = false;
				}
			}
			"bigsweeps" => num_only!(l, t, annealing::bigsweeps),
			"gen" => {
				let mut first = true;
				for ty in l.s("ty").split(',') {
					let mut m = Line(l.0.clone());
					m.0.insert("ty".into(), ty.into());
					let m = &m;
					num_only!(m, t, annealing::gen, first);
					first = false;
				}
			}
			"thermo" => annealing::thermo(l, t),
			"starts" => num_only!(l, t, annealing::starts),
			"separable" => num_only!(l, t, annealing::separable),
			"repr" => store::repr(l, t),
			"longrepr" => store::longrepr(l, t),
			"bigstore" => num_only!(l, t, store::bigstore),
			"fixedstore" => num_only!(l, t, store::fixedstore),
			"sparsestore" => num_only!(l, t, store::sparsestore),
			"energy" => num_only!(l, t, store::energy),
			"view" => store::view(l, t),
			"nodeset" => store::nodeset(l, t),
			"conv" => conv::run(l, t),
			"numops" => conv::ops(l, t),
			o => panic!("kind {}", o),
		}
	}
	t.ev("{\"ev\":\"End\"}");
	t.flush();
}

//! Trace output, scenario parsing, guarded execution.
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::Instant;

pub struct Trace {
	out: Mutex<(BufWriter<File>, Instant, String)>,
}

impl Trace {
	pub fn new(path: &str) -> Self {
		Self {
			out: Mutex::new((
				BufWriter::new(File::create(path).expect("trace file")),
				Instant::now(),
				String::new(),
			)),
		}
	}

	/// One event; flushed when a scenario starts so that a crash leaves a
	/// usable prefix.
	pub fn ev(&self, s: &str) {
		let mut o = self.out.lock().unwrap_or_else(|e| e.into_inner());
		writeln!(o.0, "{}", s).unwrap();
	}

	pub fn begin(&self, id: &str) {
		let mut o = self.out.lock().unwrap_or_else(|e| e.into_inner());
		writeln!(o.0, "{{\"ev\":\"Reset\",\"id\":\"{}\"}}", id).unwrap();
		o.0.flush().unwrap();
		o.1 = Instant::now();
		o.2 = id.to_string();
	}

	pub fn flush(&self) {
		let mut o = self.out.lock().unwrap_or_else(|e| e.into_inner());
		o.0.flush().unwrap();
	}

	/// Called by the watchdog: a scenario that does not end is an event too.
	pub fn check_hang(&self, limit_s: u64) {
		let mut o = self.out.lock().unwrap_or_else(|e| e.into_inner());
		if o.1.elapsed().as_secs() >= limit_s {
			let id = o.2.clone();
			writeln!(o.0, "{{\"ev\":\"Hang\",\"id\":\"{}\"}}", id).unwrap();
			o.0.flush().unwrap();
			std::process::exit(0);
		}
	}
}

/// Runs `f`; a panic in the code under test becomes its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
		let s = if let Some(s) = e.downcast_ref::<&str>() {
			s.to_string()
		} else if let Some(s) = e.downcast_ref::<String>() {
			s.clone()
		} else {
			"?".to_string()
		};
		esc(&s)
	})
}

pub fn esc(s: &str) -> String {
	s.chars()
		.filter(|c| c.is_ascii() && !c.is_ascii_control())
		.map(|c| if c == '"' || c == '\\' { '\'' } else { c })
		.take(200)
		.collect()
}

pub fn panic_ev(t: &Trace, at: &str, msg: &str) {
	t.ev(&format!("{{\"ev\":\"Panic\",\"at\":\"{}\",\"msg\":\"{}\"}}", at, msg));
}

/// A scenario line: `key=value` tokens separated by blanks.
pub struct Line(pub HashMap<String, String>);

impl Line {
	pub fn parse(s: &str) -> Self {
		Self(
			s.split_whitespace()
				.map(|t| {
					let (k, v) = t.split_once('=').unwrap_or((t, ""));
					(k.to_string(), v.to_string())
				})
				.collect(),
		)
	}
	pub fn s(&self, k: &str) -> &str {
		self.0.get(k).unwrap_or_else(|| panic!("scenario lacks {}", k))
	}
	pub fn opt(&self, k: &str) -> Option<&str> {
		self.0.get(k).map(|s| s.as_str())
	}
	pub fn i(&self, k: &str) -> i64 {
		self.s(k).parse().unwrap()
	}
	pub fn io(&self, k: &str, d: i64) -> i64 {
		self.opt(k).map_or(d, |s| s.parse().unwrap())
	}
	pub fn f(&self, k: &str) -> f64 {
		self.s(k).parse().unwrap()
	}
	pub fn list(&self, k: &str) -> Vec<i64> {
		ints(self.s(k))
	}
}

pub fn ints(s: &str) -> Vec<i64> {
	s.split(',').filter(|t| !t.is_empty()).map(|t| t.parse().unwrap()).collect()
}

pub fn arr<T: std::fmt::Display>(v: &[T]) -> String {
	let mut s = String::from("[");
	for (i, x) in v.iter().enumerate() {
		if i > 0 {
			s.push(',');
		}
		s.push_str(&x.to_string());
	}
	s.push(']');
	s
}

/// An energy in units of 1/`unit`; the flag tells whether it is (up to
/// rounding noise) a whole number of them.
pub fn scaled(v: f64, unit: f64) -> (i64, bool) {
	let x = v * unit;
	let r = x.round();
	if !x.is_finite() || r.abs() > 2.0e9 {
		return (0, false);
	}
	(r as i64, (x - r).abs() < 1e-2)
}

#[derive(Clone)]
pub struct Mix(pub u64);
impl Mix {
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n: u64) -> u64 {
		self.next() % n.max(1)
	}
}

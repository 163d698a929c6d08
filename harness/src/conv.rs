//! Conversions between number types: exact digits in, exact digits out.
use crate::util::*;
use annealers::variable::*;

pub const INF: i32 = 99999;

/// sign, exponent, odd mantissa
#[derive(Clone, Copy, Debug)]
pub struct Exact(bool, i32, u128);

impl Exact {
	fn of(neg: bool, mut e: i32, mut m: u128) -> Self {
		if m == 0 {
			return Exact(neg, 0, 0);
		}
		if e == INF {
			return Exact(neg, INF, 1);
		}
		while m % 2 == 0 {
			m /= 2;
			e += 1;
		}
		Exact(neg, e, m)
	}
	pub fn parse(s: &str) -> Self {
		let p: Vec<&str> = s.split(':').collect();
		let m = p[2].bytes().fold(0u128, |m, b| m * 2 + (b - b'0') as u128);
		Exact(p[0] == "1", p[1].parse().unwrap(), m)
	}
	fn json(&self) -> String {
		let d: Vec<u8> = if self.2 == 0 {
			vec![]
		} else {
			format!("{:b}", self.2).bytes().map(|b| b - b'0').collect()
		};
		format!("[{},{},{}]", self.0 as u8, self.1, arr(&d))
	}
}

pub trait Digits: Real {
	const NAME: &'static str;
	fn show(self) -> Exact;
	fn make(e: &Exact) -> Self;
}
macro_rules! int {
	($t:ty, $n:expr) => {
		impl Digits for $t {
			const NAME: &'static str = $n;
			fn show(self) -> Exact {
				Exact::of(self < 0, 0, (self as i128).unsigned_abs())
			}
			fn make(e: &Exact) -> Self {
				let m = e.2 << e.1;
				let v = if e.0 { (m as i128).wrapping_neg() } else { m as i128 };
				assert!(<$t>::try_from(v).is_ok());
				v as $t
			}
		}
	};
}
int!(i8, "i8");
int!(i16, "i16");
int!(i32, "i32");
int!(i64, "i64");
int!(i128, "i128");
macro_rules! float {
	($t:ty, $n:expr, $b:ty, $bits:expr, $low:expr, $top:expr) => {
		impl Digits for $t {
			const NAME: &'static str = $n;
			fn show(self) -> Exact {
				let b = self.to_bits();
				let neg = b >> ($top + $bits) & 1 == 1;
				let e = (b >> $bits & ((1 << $top) - 1)) as i32;
				let m = (b & ((1 << $bits) - 1)) as u128;
				if e == (1 << $top) - 1 {
					// not a number has no digits that could be right
					return if m == 0 { Exact::of(neg, INF, 1) } else { Exact(neg, INF, 0b11) };
				}
				if e == 0 {
					Exact::of(neg, $low, m)
				} else {
					Exact::of(neg, $low + e - 1, m | 1 << $bits)
				}
			}
			fn make(x: &Exact) -> Self {
				let s = (x.0 as $b) << ($top + $bits);
				if x.2 == 0 {
					return <$t>::from_bits(s);
				}
				if x.1 == INF {
					return <$t>::from_bits(s | (((1 << $top) - 1) << $bits));
				}
				// shift the mantissa to where its lowest digit belongs
				let mut m = x.2 as $b;
				let mut e = x.1;
				while m >> $bits == 0 && e > $low {
					m <<= 1;
					e -= 1;
				}
				if m >> $bits == 0 {
					return <$t>::from_bits(s | m);
				}
				<$t>::from_bits(s | (((e - $low + 1) as $b) << $bits) | (m & ((1 << $bits) - 1)))
			}
		}
	};
}
float!(f32, "f32", u32, 23, -149, 8);
float!(f64, "f64", u64, 52, -1074, 11);

struct Out {
	res: Vec<String>,
	common: Vec<String>,
}
impl Out {
	fn put<T: Digits>(&mut self, route: &str, v: T) {
		self.res.push(format!("[\"{}\",\"{}\",{}]", route, T::NAME, v.show().json()));
	}
}

fn force<A: Digits + ConvertForce<B>, B: Digits>(a: A, o: &mut Out) {
	o.put("force", a.convert_force());
}
/// `B` is the wider type.
fn widen<A: Digits + ConvertTo<B>, B: Digits + ConvertFrom<A>>(a: A, o: &mut Out) {
	o.put("from", B::convert_from(a));
	let b: B = a.convert_to();
	o.put("to", b);
}
fn with<A: Digits + ConvertWith<B>, B: Digits + ConvertWith<A>>(a: A, o: &mut Out)
where
	<A as ConvertWith<B>>::Output: Digits,
	<B as ConvertWith<A>>::Output: Digits,
{
	o.put("lhs", <A as ConvertWith<B>>::convert_lhs(a));
	o.put("rhs", <B as ConvertWith<A>>::convert_rhs(a));
	let c = <A as ConvertWith<B>>::Output::NAME;
	o.common.push(format!("[\"{}\",\"{}\",\"{}\"]", A::NAME, B::NAME, c));
	let c = <B as ConvertWith<A>>::Output::NAME;
	o.common.push(format!("[\"{}\",\"{}\",\"{}\"]", A::NAME, B::NAME, c));
}

macro_rules! conv {
	($l:expr, $t:expr, $a:ty; $($b:ty),*; $($w:ty),*) => {{
		let x = Exact::parse($l.s("v"));
		let a = <$a as Digits>::make(&x);
		let mut o = Out { res: vec![], common: vec![] };
		let r = guarded(|| {
			$( force::<$a, $b>(a, &mut o); with::<$a, $b>(a, &mut o); )*
			$( widen::<$a, $w>(a, &mut o); )*
			o.put("as_f64", a.as_f64());
			if <$a as Digits>::NAME == "i32" {
				let i = <i32 as Digits>::make(&x);
				o.put("from_i32", i8::from_i32(i));
				o.put("from_i32", i16::from_i32(i));
				o.put("from_i32", i32::from_i32(i));
				o.put("from_i32", i64::from_i32(i));
				o.put("from_i32", i128::from_i32(i));
				o.put("from_i32", f32::from_i32(i));
				o.put("from_i32", f64::from_i32(i));
			}
			if <$a as Digits>::NAME == "f64" {
				let f = <f64 as Digits>::make(&x);
				o.put("from_f64", i8::from_f64(f));
				o.put("from_f64", i16::from_f64(f));
				o.put("from_f64", i32::from_f64(f));
				o.put("from_f64", i64::from_f64(f));
				o.put("from_f64", i128::from_f64(f));
				o.put("from_f64", f32::from_f64(f));
				o.put("from_f64", f64::from_f64(f));
			}
		});
		if let Err(m) = r {
			return panic_ev($t, "conversion", &m);
		}
		$t.ev(&format!(
			"{{\"ev\":\"Conv\",\"from\":\"{}\",\"v\":{},\"shown\":{},\"common\":[{}],\"res\":[{}]}}",
			<$a as Digits>::NAME, x.json(), a.show().json(), o.common.join(","), o.res.join(",")
		));
	}};
}

fn ops_of<T: Digits>(l: &Line, t: &Trace) {
	let (xa, xb) = (Exact::parse(l.s("a")), Exact::parse(l.s("b")));
	let (a, b) = (T::make(&xa), T::make(&xb));
	let r = guarded(|| {
		// the lowest integer has no magnitude of its own type
		let lowest = T::NAME.starts_with('i') && a == T::MIN;
		let abs = if lowest { String::new() } else { a.abs().show().json() };
		let nan = T::nan_or(b);
		t.ev(&format!(
			"{{\"ev\":\"Ops\",\"t\":\"{}\",\"a\":{},\"b\":{},\"min\":{},\"max\":{},\"abs\":[{}],\"zero\":{},\"one\":{},\"high\":{},\"low\":{},\"fin\":{},\"nan_or\":{},\"nanfin\":{}}}",
			T::NAME, a.show().json(), b.show().json(),
			Real::min(a, b).show().json(), Real::max(a, b).show().json(), abs,
			T::zero().show().json(), T::one().show().json(), T::MAX.show().json(), T::MIN.show().json(),
			Real::is_finite(a) as u8, nan.show().json(), Real::is_finite(nan) as u8
		));
	});
	if let Err(m) = r {
		panic_ev(t, "number helpers", &m);
	}
}

pub fn ops(l: &Line, t: &Trace) {
	match l.s("from") {
		"i8" => ops_of::<i8>(l, t),
		"i16" => ops_of::<i16>(l, t),
		"i32" => ops_of::<i32>(l, t),
		"i64" => ops_of::<i64>(l, t),
		"i128" => ops_of::<i128>(l, t),
		"f32" => ops_of::<f32>(l, t),
		"f64" => ops_of::<f64>(l, t),
		o => panic!("type {}", o),
	}
}

pub fn run(l: &Line, t: &Trace) {
	match l.s("from") {
		"i8" => conv!(l, t, i8; i8, i16, i32, i64, i128, f32, f64; i8, i16, i32, i64, i128, f32, f64),
		"i16" => conv!(l, t, i16; i8, i16, i32, i64, i128, f32, f64; i16, i32, i64, i128, f32, f64),
		"i32" => conv!(l, t, i32; i8, i16, i32, i64, i128, f32, f64; i32, i64, i128, f32, f64),
		"i64" => conv!(l, t, i64; i8, i16, i32, i64, i128, f32, f64; i64, i128, f32, f64),
		"i128" => conv!(l, t, i128; i8, i16, i32, i64, i128, f32, f64; i128, f32, f64),
		"f32" => conv!(l, t, f32; i8, i16, i32, i64, i128, f32, f64; f32, f64),
		"f64" => conv!(l, t, f64; i8, i16, i32, i64, i128, f32, f64; f64),
		o => panic!("type {}", o),
	}
}

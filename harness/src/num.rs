//! The seven numeric types, with conversions of our own (none goes through the
//! code under test).
use annealers::variable::Real;

pub trait Num: Real + std::panic::RefUnwindSafe {
	const NAME: &'static str;
	const FLOAT: bool;
	/// k / 2 for floating types, k for whole-number types
	fn half(k: i32) -> Self;
	fn int(k: i32) -> Self;
	fn big(k: i128) -> Self;
	fn f(self) -> f64;
	fn from_float(f: f64) -> Self;
	/// equal, up to rounding for floating types
	fn close(self, o: Self) -> bool {
		if Self::FLOAT {
			let (a, b) = (self.f(), o.f());
			let eps = if Self::NAME == "f32" { 1e-4 } else { 1e-11 };
			(a - b).abs() <= eps * (1.0 + a.abs().max(b.abs()))
		} else {
			self == o
		}
	}
}

macro_rules! num {
	($t:ident, false) => {
		impl Num for $t {
			const NAME: &'static str = stringify!($t);
			const FLOAT: bool = false;
			fn half(k: i32) -> Self {
				k as $t
			}
			fn int(k: i32) -> Self {
				k as $t
			}
			fn big(k: i128) -> Self {
				k as $t
			}
			fn f(self) -> f64 {
				self as f64
			}
			fn from_float(f: f64) -> Self {
				f as $t
			}
		}
	};
	($t:ident, true) => {
		impl Num for $t {
			const NAME: &'static str = stringify!($t);
			const FLOAT: bool = true;
			fn half(k: i32) -> Self {
				k as $t / 2.0
			}
			fn int(k: i32) -> Self {
				k as $t
			}
			fn big(k: i128) -> Self {
				k as $t
			}
			fn f(self) -> f64 {
				self as f64
			}
			fn from_float(f: f64) -> Self {
				f as $t
			}
		}
	};
}
num!(i8, false);
num!(i16, false);
num!(i32, false);
num!(i64, false);
num!(i128, false);
num!(f32, true);
num!(f64, true);

/// Run `$body` with `$R` bound to the type number `$i`.
#[macro_export]
macro_rules! with_type {
	($i:expr, $R:ident, $body:expr) => {
		match $i {
			0 => {
				type $R = i32;
				$body
			}
			1 => {
				type $R = f64;
				$body
			}
			2 => {
				type $R = i64;
				$body
			}
			3 => {
				type $R = f32;
				$body
			}
			4 => {
				type $R = i16;
				$body
			}
			5 => {
				type $R = i8;
				$body
			}
			6 => {
				type $R = i128;
				$body
			}
			_ => unreachable!(),
		}
	};
}
pub const TYPES: [&str; 7] = ["i32", "f64", "i64", "f32", "i16", "i8", "i128"];

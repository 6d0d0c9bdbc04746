//! Float helpers: precision-generic trait, double-double arithmetic, number-wise equality.
use nalgebra::RealField;
use num_traits::Zero;

pub trait Fl: RealField + Copy + Zero + Send + Sync + std::fmt::Debug + num_traits::FromPrimitive {
    const EPS: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn to(self) -> f64;
    fn nan(self) -> bool {
        self.to().is_nan()
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> f64 {
        x
    }
    fn to(self) -> f64 {
        self
    }
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn to(self) -> f64 {
        self as f64
    }
}

/// equal as numbers (0 == -0), or both NaN
pub fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_v(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

/// double-double number
#[derive(Clone, Copy, Debug)]
pub struct DD(pub f64, pub f64);
impl DD {
    pub const ZERO: DD = DD(0.0, 0.0);
    pub fn from(x: f64) -> DD {
        DD(x, 0.0)
    }
    pub fn two_sum(a: f64, b: f64) -> DD {
        let s = a + b;
        let bb = s - a;
        DD(s, (a - (s - bb)) + (b - bb))
    }
    pub fn prod(a: f64, b: f64) -> DD {
        let p = a * b;
        DD(p, a.mul_add(b, -p))
    }
    pub fn add(self, o: DD) -> DD {
        let s = DD::two_sum(self.0, o.0);
        let t = DD::two_sum(self.1, o.1);
        let c = DD::two_sum(s.0, s.1 + t.0);
        let d = DD::two_sum(c.0, c.1 + t.1);
        d
    }
    pub fn neg(self) -> DD {
        DD(-self.0, -self.1)
    }
    pub fn mulf(self, b: f64) -> DD {
        let p = DD::prod(self.0, b);
        DD::two_sum(p.0, p.1 + self.1 * b)
    }
    pub fn sq(self) -> DD {
        let p = DD::prod(self.0, self.0);
        DD::two_sum(p.0, p.1 + 2.0 * self.0 * self.1)
    }
    pub fn val(self) -> f64 {
        self.0 + self.1
    }
}

pub fn ldexp(x: f64, e: i32) -> f64 {
    // exact for results in the normal range
    let mut y = x;
    let mut e = e;
    while e > 1000 {
        y *= 2f64.powi(1000);
        e -= 1000;
    }
    while e < -1000 {
        y *= 2f64.powi(-1000);
        e += 1000;
    }
    y * 2f64.powi(e)
}

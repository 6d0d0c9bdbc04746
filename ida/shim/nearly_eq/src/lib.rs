//! `assert_nearly_eq!` for numbers and arrays (default tolerance 1e-6 absolute, as in nearly_eq 0.2).
use ndarray::{ArrayBase, Data, Ix1, Ix2};
pub trait NearlyEq<R: ?Sized> {
    fn eq_with(&self, o: &R, eps: f64) -> bool;
}
impl NearlyEq<f64> for f64 {
    fn eq_with(&self, o: &f64, eps: f64) -> bool {
        self == o || (self - o).abs() <= eps
    }
}
impl<S1: Data<Elem = f64>, S2: Data<Elem = f64>> NearlyEq<ArrayBase<S2, Ix1>> for ArrayBase<S1, Ix1> {
    fn eq_with(&self, o: &ArrayBase<S2, Ix1>, eps: f64) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eq_with(b, eps))
    }
}
impl<S1: Data<Elem = f64>, S2: Data<Elem = f64>> NearlyEq<ArrayBase<S2, Ix2>> for ArrayBase<S1, Ix2> {
    fn eq_with(&self, o: &ArrayBase<S2, Ix2>, eps: f64) -> bool {
        self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a.eq_with(b, eps))
    }
}
impl<T: NearlyEq<R> + ?Sized, R: ?Sized> NearlyEq<R> for &T {
    fn eq_with(&self, o: &R, eps: f64) -> bool {
        (**self).eq_with(o, eps)
    }
}
#[macro_export]
macro_rules! assert_nearly_eq {
    ($a:expr, $b:expr) => { $crate::assert_nearly_eq!($a, $b, 1e-6) };
    ($a:expr, $b:expr, $e:expr) => {
        match (&$a, &$b) { (a, b) => assert!($crate::NearlyEq::eq_with(a, b, $e), "{:?} != {:?}", a, b) }
    };
}

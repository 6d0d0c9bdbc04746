//! `crate::linear` as /repo/src expects it (ndarray arguments, run-time size), on top of the dense
//! solver of /repo/crates/linear. Everything is copied in and out; the numbers are those of the crate.
use ndarray::prelude::*;
use repo_linear as new;

#[derive(Copy, Clone, Debug, PartialEq)]
pub enum LSolverType {
    Direct,
    Iterative,
    MatrixIterative,
}

pub trait LSolver<Scalar> {
    fn new(size: usize) -> Self;
    fn get_type(&self) -> LSolverType;
    fn set_scaling_vectors<S1, S2>(&mut self, _s1: ArrayBase<S1, Ix1>, _s2: ArrayBase<S2, Ix1>)
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::Data<Elem = Scalar>,
    {
    }
    fn setup<S1>(&mut self, mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = Scalar>;
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: Scalar,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = Scalar>,
        S2: ndarray::DataMut<Elem = Scalar>,
        S3: ndarray::Data<Elem = Scalar>;
    fn num_iters(&self) -> usize {
        0
    }
}

macro_rules! dims {
    ($($v:ident $n:literal),*) => {
        #[derive(Clone, Debug)]
        enum Inner { $($v(new::Dense<nalgebra::Const<$n>>),)* }
        fn make(size: usize) -> Inner {
            match size {
                $($n => Inner::$v(<new::Dense<nalgebra::Const<$n>> as new::LSolver<f64, nalgebra::Const<$n>>>::new()),)*
                n => panic!("adapter: no dense solver of size {}", n),
            }
        }
        fn get_type(i: &Inner) -> new::LSolverType {
            match i { $(Inner::$v(d) => <_ as new::LSolver<f64, nalgebra::Const<$n>>>::get_type(d),)* }
        }
        fn setup(i: &mut Inner, a: &mut [f64]) -> Result<(), new::Error> {
            match i { $(Inner::$v(d) => {
                let mut m = nalgebra::SMatrix::<f64, $n, $n>::from_row_slice(a);
                let r = new::LSolver::setup(d, &mut m);
                for r in 0..$n { for c in 0..$n { a[r * $n + c] = m[(r, c)]; } }
                r
            })* }
        }
        fn solve(i: &Inner, a: &[f64], x: &mut [f64], b: &[f64], tol: f64) -> Result<(), new::Error> {
            match i { $(Inner::$v(d) => {
                let m = nalgebra::SMatrix::<f64, $n, $n>::from_row_slice(a);
                let b = nalgebra::SVector::<f64, $n>::from_row_slice(b);
                let mut y = nalgebra::SVector::<f64, $n>::from_row_slice(x);
                let r = new::LSolver::solve(d, &m, &mut y, &b, tol);
                x.copy_from_slice(y.as_slice());
                r
            })* }
        }
    };
}
dims!(D1 1, D2 2, D3 3, D4 4, D5 5, D6 6, D7 7, D8 8, D9 9, D10 10);

#[derive(Clone, Debug)]
pub struct Dense<Scalar> {
    inner: Inner,
    _p: std::marker::PhantomData<Scalar>,
}
fn fail(e: new::Error) -> failure::Error {
    failure::err_msg(e.to_string())
}

impl LSolver<f64> for Dense<f64> {
    fn new(size: usize) -> Self {
        Dense { inner: make(size), _p: std::marker::PhantomData }
    }
    fn get_type(&self) -> LSolverType {
        match get_type(&self.inner) {
            new::LSolverType::Direct => LSolverType::Direct,
            new::LSolverType::Iterative => LSolverType::Iterative,
            new::LSolverType::MatrixIterative => LSolverType::MatrixIterative,
        }
    }
    fn setup<S1>(&mut self, mut mat_a: ArrayBase<S1, Ix2>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = f64>,
    {
        let mut a: Vec<f64> = mat_a.iter().cloned().collect();
        let r = setup(&mut self.inner, &mut a);
        for (d, s) in mat_a.iter_mut().zip(a) {
            *d = s;
        }
        r.map_err(fail)
    }
    fn solve<S1, S2, S3>(
        &self,
        mat_a: ArrayBase<S1, Ix2>,
        mut x: ArrayBase<S2, Ix1>,
        b: ArrayBase<S3, Ix1>,
        tol: f64,
    ) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = f64>,
        S2: ndarray::DataMut<Elem = f64>,
        S3: ndarray::Data<Elem = f64>,
    {
        let a: Vec<f64> = mat_a.iter().cloned().collect();
        let b: Vec<f64> = b.iter().cloned().collect();
        let mut y: Vec<f64> = x.iter().cloned().collect();
        let r = solve(&self.inner, &a, &mut y, &b, tol);
        for (d, s) in x.iter_mut().zip(y) {
            *d = s;
        }
        r.map_err(fail)
    }
}

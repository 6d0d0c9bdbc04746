//! `crate::nonlinear` as /repo/src expects it (ndarray arguments, run-time size, `failure` errors), on
//! top of the Newton solver of /repo/crates/nonlinear.
use crate::traits::ModelSpec;
use failure::Fail;
use nalgebra::{Const, Matrix, SVector, Storage, StorageMut, U1};
use ndarray::prelude::*;
use repo_nonlinear as new;

#[derive(Debug, Fail)]
pub enum Error {
    #[fail(display = "the iteration should continue")]
    Continue {},
    #[fail(display = "recoverable convergence failure")]
    ConvergenceRecover {},
    #[fail(display = "illegal input")]
    IllegalInput {},
}

pub trait NLProblem<P: ModelSpec> {
    fn sys<S1, S2>(&mut self, ycor: ArrayBase<S1, Ix1>, res: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn setup<S1, S2>(
        &mut self,
        y: ArrayBase<S1, Ix1>,
        f: ArrayBase<S2, Ix1>,
        jbad: bool,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>;
    fn solve<S1, S2>(&mut self, y: ArrayBase<S1, Ix1>, b: ArrayBase<S2, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>;
    fn ctest<S1, S2, S3, NLS>(
        &mut self,
        solver: &NLS,
        y: ArrayBase<S1, Ix1>,
        del: ArrayBase<S2, Ix1>,
        tol: P::Scalar,
        ewt: ArrayBase<S3, Ix1>,
    ) -> Result<bool, failure::Error>
    where
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::Data<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
        NLS: NLSolver<P>;
}

pub trait NLSolver<P: ModelSpec> {
    fn new(size: usize, maxiters: usize) -> Self;
    fn setup<S1>(&mut self, _y: &mut ArrayBase<S1, Ix1>) -> Result<(), failure::Error>
    where
        S1: ndarray::DataMut<Elem = P::Scalar>,
    {
        Ok(())
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        problem: &mut NLP,
        y0: ArrayBase<S1, Ix1>,
        y: ArrayBase<S2, Ix1>,
        w: ArrayBase<S3, Ix1>,
        tol: P::Scalar,
        call_lsetup: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>;
    fn get_num_iters(&self) -> usize {
        0
    }
    fn get_cur_iter(&self) -> usize;
    fn get_num_conv_fails(&self) -> usize {
        0
    }
}

/// What `ctest` sees of the solver that calls it.
struct Seen {
    cur: usize,
    num: usize,
    fails: usize,
}
impl<P: ModelSpec> NLSolver<P> for Seen {
    fn new(_: usize, _: usize) -> Self {
        unreachable!()
    }
    fn solve<NLP, S1, S2, S3>(
        &mut self,
        _: &mut NLP,
        _: ArrayBase<S1, Ix1>,
        _: ArrayBase<S2, Ix1>,
        _: ArrayBase<S3, Ix1>,
        _: P::Scalar,
        _: bool,
    ) -> Result<(), failure::Error>
    where
        NLP: NLProblem<P>,
        S1: ndarray::Data<Elem = P::Scalar>,
        S2: ndarray::DataMut<Elem = P::Scalar>,
        S3: ndarray::Data<Elem = P::Scalar>,
    {
        unreachable!()
    }
    fn get_num_iters(&self) -> usize {
        self.num
    }
    fn get_cur_iter(&self) -> usize {
        self.cur
    }
    fn get_num_conv_fails(&self) -> usize {
        self.fails
    }
}

/// The old problem under the new trait. A callback's own error is kept, and comes out of the solve.
struct Wrap<'a, P, NLP> {
    p: &'a mut NLP,
    err: Option<failure::Error>,
    _p: std::marker::PhantomData<P>,
}
impl<'a, P, NLP> Wrap<'a, P, NLP> {
    fn note<T>(&mut self, r: Result<T, failure::Error>) -> Result<T, new::Error> {
        r.map_err(|e| {
            let n = match e.downcast_ref::<Error>() {
                Some(Error::ConvergenceRecover {}) => new::Error::ConvergenceRecover {},
                Some(Error::Continue {}) => new::Error::Continue {},
                _ => new::Error::IllegalInput {},
            };
            self.err = Some(e);
            n
        })
    }
}
fn arr<const N: usize, S: Storage<f64, Const<N>, U1>>(m: &Matrix<f64, Const<N>, U1, S>) -> Array1<f64> {
    Array1::from(m.iter().cloned().collect::<Vec<f64>>())
}
impl<'a, P, NLP, const N: usize> new::NLProblem<f64, Const<N>> for Wrap<'a, P, NLP>
where
    P: ModelSpec<Scalar = f64>,
    NLP: NLProblem<P>,
{
    fn sys<SA, SB>(
        &mut self,
        y: &Matrix<f64, Const<N>, U1, SA>,
        f: &mut Matrix<f64, Const<N>, U1, SB>,
    ) -> Result<(), new::Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let mut r = arr(&f.clone_owned());
        let e = self.p.sys(arr(y).view(), r.view_mut());
        for (d, s) in f.iter_mut().zip(r.iter()) {
            *d = *s;
        }
        self.note(e)
    }
    fn setup<SA, SB>(
        &mut self,
        y: &Matrix<f64, Const<N>, U1, SA>,
        f: &Matrix<f64, Const<N>, U1, SB>,
        jbad: bool,
    ) -> Result<bool, new::Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
    {
        let e = self.p.setup(arr(y).view(), arr(f).view(), jbad);
        self.note(e)
    }
    fn solve<SA, SB>(
        &mut self,
        y: &Matrix<f64, Const<N>, U1, SA>,
        b: &mut Matrix<f64, Const<N>, U1, SB>,
    ) -> Result<(), new::Error>
    where
        SA: Storage<f64, Const<N>, U1>,
        SB: StorageMut<f64, Const<N>, U1>,
    {
        let mut r = arr(&b.clone_owned());
        let e = self.p.solve(arr(y).view(), r.view_mut());
        for (d, s) in b.iter_mut().zip(r.iter()) {
            *d = *s;
        }
        self.note(e)
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        solver: &NLS,
        y: &Matrix<f64, Const<N>, U1, SA>,
        del: &Matrix<f64, Const<N>, U1, SB>,
        tol: f64,
        ewt: &Matrix<f64, Const<N>, U1, SC>,
    ) -> Result<bool, new::Error>
    where
        NLS: new::NLSolver<f64, Const<N>>,
        SA: Storage<f64, Const<N>, U1>,
        SB: Storage<f64, Const<N>, U1>,
        SC: Storage<f64, Const<N>, U1>,
    {
        let s = Seen { cur: solver.get_cur_iter(), num: solver.get_num_iters(), fails: solver.get_num_conv_fails() };
        let e = self.p.ctest(&s, arr(y).view(), arr(del).view(), tol, arr(ewt).view());
        self.note(e)
    }
}

pub mod newton {
    use super::*;

    macro_rules! dims {
        ($($v:ident $n:literal),*) => {
            #[derive(Clone, Debug)]
            enum Inner { $($v(new::Newton<f64, Const<$n>>),)* }
            fn make(size: usize, m: usize) -> Inner {
                match size {
                    $($n => Inner::$v(<new::Newton<f64, Const<$n>> as new::NLSolver<f64, Const<$n>>>::new(m)),)*
                    n => panic!("adapter: no Newton solver of size {}", n),
                }
            }
            fn get(i: &Inner) -> (usize, usize, usize) {
                match i { $(Inner::$v(d) => {
                    use new::NLSolver;
                    (d.get_num_iters(), d.get_cur_iter(), d.get_num_conv_fails())
                })* }
            }
            fn solve<P: ModelSpec<Scalar = f64>, NLP: NLProblem<P>>(
                i: &mut Inner, p: &mut NLP, y0: &[f64], y: &mut [f64], w: &[f64], tol: f64, call: bool,
            ) -> Result<(), failure::Error> {
                match i { $(Inner::$v(d) => {
                    let y0 = SVector::<f64, $n>::from_row_slice(y0);
                    let w = SVector::<f64, $n>::from_row_slice(w);
                    let mut yy = SVector::<f64, $n>::from_row_slice(y);
                    let mut wr = Wrap { p, err: None, _p: std::marker::PhantomData };
                    let r = new::NLSolver::solve(d, &mut wr, &y0, &mut yy, &w, tol, call);
                    y.copy_from_slice(yy.as_slice());
                    match r {
                        Ok(()) => Ok(()),
                        Err(new::Error::ConvergenceRecover {}) => Err(Error::ConvergenceRecover {}.into()),
                        Err(e) => Err(wr.err.take().unwrap_or_else(|| failure::err_msg(e.to_string()))),
                    }
                })* }
            }
        };
    }
    dims!(D1 1, D2 2, D3 3, D4 4, D5 5, D6 6, D7 7, D8 8, D9 9, D10 10);

    #[derive(Clone, Debug)]
    pub struct Newton<P> {
        inner: Inner,
        _p: std::marker::PhantomData<P>,
    }
    impl<P: ModelSpec<Scalar = f64>> NLSolver<P> for Newton<P> {
        fn new(size: usize, maxiters: usize) -> Self {
            Newton { inner: make(size, maxiters), _p: std::marker::PhantomData }
        }
        fn solve<NLP, S1, S2, S3>(
            &mut self,
            problem: &mut NLP,
            y0: ArrayBase<S1, Ix1>,
            mut y: ArrayBase<S2, Ix1>,
            w: ArrayBase<S3, Ix1>,
            tol: f64,
            call_lsetup: bool,
        ) -> Result<(), failure::Error>
        where
            NLP: NLProblem<P>,
            S1: ndarray::Data<Elem = f64>,
            S2: ndarray::DataMut<Elem = f64>,
            S3: ndarray::Data<Elem = f64>,
        {
            let y0: Vec<f64> = y0.iter().cloned().collect();
            let w: Vec<f64> = w.iter().cloned().collect();
            let mut yy: Vec<f64> = y.iter().cloned().collect();
            let r = solve(&mut self.inner, problem, &y0, &mut yy, &w, tol, call_lsetup);
            for (d, s) in y.iter_mut().zip(yy) {
                *d = s;
            }
            r
        }
        fn get_num_iters(&self) -> usize {
            get(&self.inner).0
        }
        fn get_cur_iter(&self) -> usize {
            get(&self.inner).1
        }
        fn get_num_conv_fails(&self) -> usize {
            get(&self.inner).2
        }
    }
}
pub use newton::Newton;

//! Size- and precision-erased access to nonlinear::Newton.
use crate::fl::*;
use crate::lin::{mat, unmat, Buf, Lay};
use nalgebra::{Const, DimNameAdd, Matrix, SVector, Storage, StorageMut, U1};
use nonlinear::{Error, NLProblem, NLSolver, Newton};

/// (iterations, current iteration, convergence failures)
pub type Counts = (usize, usize, usize);

pub trait Prob {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), Error>;
    fn setup(&mut self, y: &[f64], f: &[f64], jbad: bool) -> Result<bool, Error>;
    fn solve(&mut self, y: &[f64], b: &mut [f64]) -> Result<(), Error>;
    fn ctest(&mut self, c: Counts, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, Error>;
}

struct Ad<'a>(&'a mut dyn Prob);

fn get<T: Fl, const N: usize, S: Storage<T, Const<N>, U1>>(m: &Matrix<T, Const<N>, U1, S>) -> Vec<f64> {
    (0..N).map(|i| m[i].to()).collect()
}
fn put<T: Fl, const N: usize, S: StorageMut<T, Const<N>, U1>>(m: &mut Matrix<T, Const<N>, U1, S>, v: &[f64]) {
    for i in 0..N {
        m[i] = T::of(v[i]);
    }
}

impl<'a, T: Fl, const N: usize> NLProblem<T, Const<N>> for Ad<'a> {
    fn sys<SA, SB>(&mut self, y: &Matrix<T, Const<N>, U1, SA>, f: &mut Matrix<T, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: StorageMut<T, Const<N>, U1>,
    {
        let mut v = get(f);
        let r = self.0.sys(&get(y), &mut v);
        put(f, &v);
        r
    }
    fn setup<SA, SB>(&mut self, y: &Matrix<T, Const<N>, U1, SA>, f: &Matrix<T, Const<N>, U1, SB>, jbad: bool) -> Result<bool, Error>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: Storage<T, Const<N>, U1>,
    {
        self.0.setup(&get(y), &get(f), jbad)
    }
    fn solve<SA, SB>(&mut self, y: &Matrix<T, Const<N>, U1, SA>, b: &mut Matrix<T, Const<N>, U1, SB>) -> Result<(), Error>
    where
        SA: Storage<T, Const<N>, U1>,
        SB: StorageMut<T, Const<N>, U1>,
    {
        let mut v = get(b);
        let r = self.0.solve(&get(y), &mut v);
        put(b, &v);
        r
    }
    fn ctest<NLS, SA, SB, SC>(
        &mut self,
        s: &NLS,
        y: &Matrix<T, Const<N>, U1, SA>,
        del: &Matrix<T, Const<N>, U1, SB>,
        tol: T,
        w: &Matrix<T, Const<N>, U1, SC>,
    ) -> Result<bool, Error>
    where
        NLS: NLSolver<T, Const<N>>,
        SA: Storage<T, Const<N>, U1>,
        SB: Storage<T, Const<N>, U1>,
        SC: Storage<T, Const<N>, U1>,
    {
        self.0.ctest((s.get_num_iters(), s.get_cur_iter(), s.get_num_conv_fails()), &get(y), &get(del), tol.to(), &get(w))
    }
}

/// storage of the three vector arguments; None: owned
pub type Lays<'a> = Option<(&'a Lay, &'a Lay, &'a Lay)>;

pub trait Nw {
    fn solve(&mut self, p: &mut dyn Prob, y0: &[f64], y: &mut [f64], w: &[f64], tol: f64, call_lsetup: bool, lays: Lays) -> Result<Result<(), Error>, String>;
    fn nls_setup(&self, y: &mut [f64]) -> Result<(), Error>;
    fn counts(&self) -> Counts;
    fn dup(&self) -> Box<dyn Nw>;
}
struct Wn<T: Fl, const N: usize>(Newton<T, Const<N>>);
impl<T: Fl, const N: usize> Nw for Wn<T, N>
where
    Const<N>: DimNameAdd<Const<N>>,
{
    fn solve(&mut self, p: &mut dyn Prob, y0: &[f64], y: &mut [f64], w: &[f64], tol: f64, call: bool, lays: Lays) -> Result<Result<(), Error>, String> {
        let mut ad = Ad(p);
        let a: SVector<T, N> = mat::<T, N, 1>(y0);
        let mut yv: SVector<T, N> = mat::<T, N, 1>(y);
        let wv: SVector<T, N> = mat::<T, N, 1>(w);
        let Some((l0, ly, lw)) = lays else {
            let r = self.0.solve(&mut ad, &a, &mut yv, &wv, T::of(tol), call);
            unmat(&yv, y);
            let mut chk = vec![0.0; N];
            unmat(&a, &mut chk);
            if !same_v(&chk, y0) {
                return Err("the initial iterate was changed".into());
            }
            unmat(&wv, &mut chk);
            if !same_v(&chk, w) {
                return Err("the weights were changed".into());
            }
            return Ok(r);
        };
        let mut b0 = Buf::<T>::new(y0, N, 1, l0);
        let mut by = Buf::<T>::new(y, N, 1, ly);
        let mut bw = Buf::<T>::new(w, N, 1, lw);
        let r = {
            let v0 = b0.vview::<N>();
            let mut vy = by.vview::<N>();
            let vw = bw.vview::<N>();
            let t = T::of(tol);
            match (l0.owned, ly.owned, lw.owned) {
                (false, false, false) => self.0.solve(&mut ad, &v0, &mut vy, &vw, t, call),
                (false, false, true) => self.0.solve(&mut ad, &v0, &mut vy, &wv, t, call),
                (false, true, false) => self.0.solve(&mut ad, &v0, &mut yv, &vw, t, call),
                (false, true, true) => self.0.solve(&mut ad, &v0, &mut yv, &wv, t, call),
                (true, false, false) => self.0.solve(&mut ad, &a, &mut vy, &vw, t, call),
                (true, false, true) => self.0.solve(&mut ad, &a, &mut vy, &wv, t, call),
                (true, true, false) => self.0.solve(&mut ad, &a, &mut yv, &vw, t, call),
                (true, true, true) => self.0.solve(&mut ad, &a, &mut yv, &wv, t, call),
            }
        };
        if ly.owned {
            unmat(&yv, y);
        } else {
            by.finish(Some(y)).map_err(|e| format!("output: {}", e))?;
        }
        let v = b0.finish(None).map_err(|e| format!("initial iterate: {}", e))?;
        if !same_v(&v, y0) {
            return Err("the initial iterate was changed".into());
        }
        let v = bw.finish(None).map_err(|e| format!("weights: {}", e))?;
        if !same_v(&v, w) {
            return Err("the weights were changed".into());
        }
        Ok(r)
    }
    fn nls_setup(&self, y: &mut [f64]) -> Result<(), Error> {
        let mut yv: SVector<T, N> = mat::<T, N, 1>(y);
        let r = NLSolver::<T, Const<N>>::setup(&self.0, &mut yv);
        unmat(&yv, y);
        r
    }
    fn counts(&self) -> Counts {
        (self.0.get_num_iters(), self.0.get_cur_iter(), self.0.get_num_conv_fails())
    }
    fn dup(&self) -> Box<dyn Nw> {
        Box::new(Wn(self.0.clone()))
    }
}
fn mk_n<T: Fl>(n: usize, maxiters: usize) -> Box<dyn Nw> {
    macro_rules! d { ($($k:literal)*) => { match n { $($k => Box::new(Wn::<T, $k>(Newton::new(maxiters))) as Box<dyn Nw>,)* _ => panic!("size {}", n) } } }
    d!(1 2 3 4 5 6 7 8 10 12 16 20 33 40 63)
}
pub fn new_newton(n: usize, single: bool, maxiters: usize) -> Box<dyn Nw> {
    if single {
        mk_n::<f32>(n, maxiters)
    } else {
        mk_n::<f64>(n, maxiters)
    }
}

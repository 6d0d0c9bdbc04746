//! Problems with a solution that is known in closed form, as the integrator's user would write them.
//!
//! For a chosen s(t), the system is  M * G(t, y, y') = 0  with the rows
//!   G_i = [i differential] (y'_i - s_i') + b(t) * (sum_j B_ij (y_j - s_j) + C_i (y_i^3 - s_i^3)),
//! b(t) = 1 + tv*sin(tw*t). B has dominant positive diagonals and C >= 0, so the system is contractive,
//! of index 0 or 1, and s is its solution from (s(0), s'(0)).
use ida::traits::*;
use ndarray::prelude::*;
use ndarray::{Data, DataMut};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sol {
    pub c0: f64,
    pub c1: f64,
    pub w: f64,
    pub p: f64,
    pub c2: f64,
    pub r: f64,
    pub c3: f64,
}
impl Sol {
    pub fn at(&self, t: f64) -> f64 {
        self.c0 + self.c1 * (self.w * t + self.p).sin() + self.c2 * (-self.r * t).exp() + self.c3 * t
    }
    pub fn d(&self, t: f64) -> f64 {
        self.c1 * self.w * (self.w * t + self.p).cos() - self.c2 * self.r * (-self.r * t).exp() + self.c3
    }
}

/// A root function.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rf {
    /// s * (t - r)
    T { r: f64, s: f64 },
    /// s * (t - r1) (t - r2) ...
    P { r: Vec<f64>, s: f64 },
    /// s * (y_i - c)
    Y { i: usize, c: f64, s: f64 },
    /// s * (y'_i - c)
    Yp { i: usize, c: f64, s: f64 },
    /// s * sin(w t + p)
    S { w: f64, p: f64, s: f64 },
    /// zero as long as t/u <= a, then s (t/u - a) (t - r)
    W { a: f64, u: f64, r: f64, s: f64 },
    /// s * (exp(k (t - r)) - 1)
    E { k: f64, r: f64, s: f64 },
}
impl Rf {
    pub fn at(&self, t: f64, y: &[f64], yp: &[f64]) -> f64 {
        match self {
            Rf::T { r, s } => s * (t - r),
            Rf::P { r, s } => s * r.iter().fold(1.0, |a, x| a * (t - x)),
            Rf::Y { i, c, s } => s * (y[*i] - c),
            Rf::Yp { i, c, s } => s * (yp[*i] - c),
            Rf::S { w, p, s } => s * (w * t + p).sin(),
            Rf::W { a, u, r, s } => s * (t / u - a).max(0.0) * (t - r),
            Rf::E { k, r, s } => s * (k * (t - r)).min(200.0).exp_m1(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub n: usize,
    pub alg: Vec<bool>,
    pub b: Vec<f64>,
    pub c: Vec<f64>,
    pub m: Vec<f64>,
    pub sol: Vec<Sol>,
    pub tv: f64,
    pub tw: f64,
    pub rtol: f64,
    pub atol: Vec<f64>,
    /// the user's time is ts * t, the user's y is ys * y (powers of two, ts may be negative)
    pub ts: f64,
    pub ys: f64,
    /// from (problem) time at on, or from a call of res on (counted from 1), the target of y_i is s_i + by
    #[serde(default)]
    pub jump: Option<Jump>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Jump {
    pub i: usize,
    pub at: f64,
    pub by: f64,
    #[serde(default)]
    pub call: Option<usize>,
}
impl Spec {
    pub fn exact(&self, tu: f64) -> Vec<f64> {
        self.sol.iter().map(|s| self.ys * s.at(tu / self.ts)).collect()
    }
    pub fn exact_d(&self, tu: f64) -> Vec<f64> {
        self.sol.iter().map(|s| self.ys * s.d(tu / self.ts) / self.ts).collect()
    }
    pub fn res(&self, call: usize, tu: f64, y: &[f64], yp: &[f64], out: &mut [f64]) {
        let (n, t) = (self.n, tu / self.ts);
        let bt = 1.0 + self.tv * (self.tw * t).sin();
        let mut g = vec![0.0; n];
        let mut tgt: Vec<f64> = (0..n).map(|j| self.sol[j].at(t)).collect();
        if let Some(j) = &self.jump {
            if j.call.map_or(t >= j.at, |c| call >= c) {
                tgt[j.i] += j.by;
            }
        }
        let e: Vec<f64> = (0..n).map(|j| y[j] / self.ys - tgt[j]).collect();
        for i in 0..n {
            let s = tgt[i];
            let yi = y[i] / self.ys;
            let mut a = self.c[i] * (yi * yi * yi - s * s * s);
            for j in 0..n {
                a += self.b[i * n + j] * e[j];
            }
            g[i] = bt * a;
            if !self.alg[i] {
                g[i] += yp[i] * self.ts / self.ys - self.sol[i].d(t);
            }
        }
        for i in 0..n {
            out[i] = (0..n).map(|j| self.m[i * n + j] * g[j]).sum();
        }
    }
    /// row major
    pub fn jac(&self, tu: f64, cj: f64, y: &[f64], out: &mut [f64]) {
        let (n, t) = (self.n, tu / self.ts);
        let bt = 1.0 + self.tv * (self.tw * t).sin();
        let mut g = vec![0.0; n * n];
        for i in 0..n {
            for j in 0..n {
                g[i * n + j] = bt * self.b[i * n + j];
            }
            let yi = y[i] / self.ys;
            g[i * n + i] += bt * 3.0 * self.c[i] * yi * yi;
            if !self.alg[i] {
                g[i * n + i] += cj * self.ts;
            }
        }
        for i in 0..n {
            for j in 0..n {
                out[i * n + j] = (0..n).map(|l| self.m[i * n + l] * g[l * n + j]).sum::<f64>() / self.ys;
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Call {
    Res { t: f64, y: Vec<f64>, yp: Vec<f64>, r: Vec<f64> },
    Jac { t: f64, cj: f64, y: Vec<f64>, yp: Vec<f64>, r: Vec<f64>, zeroed: bool },
    Root { t: f64, y: Vec<f64>, yp: Vec<f64>, g: Vec<f64> },
}
/// What the problem should do wrong.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Faults {
    /// jac calls (from 1) that yield a singular matrix: from, how many
    pub sing: Option<(usize, usize)>,
    /// res calls (from 1) that yield NaN: from, how many
    pub nan: Option<(usize, usize)>,
    /// jac is wrong by this factor
    pub jac_scale: Option<f64>,
}
#[derive(Default, Debug)]
pub struct Log {
    pub keep: bool,
    pub nres: usize,
    pub njac: usize,
    pub nroot: usize,
    pub calls: Vec<Call>,
    /// from now on the target of a component is off by so much
    pub trap: Option<(usize, f64)>,
}

#[derive(Clone, Debug)]
pub struct Prob {
    pub sp: Rc<Spec>,
    pub roots: Rc<Vec<Rf>>,
    pub log: Rc<RefCell<Log>>,
    pub faults: Rc<Faults>,
}
impl Prob {
    pub fn new(sp: &Spec) -> Prob {
        Prob::with(sp, vec![])
    }
    pub fn faulty(sp: &Spec, f: &Faults) -> Prob {
        Prob { faults: Rc::new(f.clone()), ..Prob::new(sp) }
    }
    /// keep every call
    pub fn logging(self) -> Prob {
        self.log.borrow_mut().keep = true;
        self
    }
    pub fn with(sp: &Spec, roots: Vec<Rf>) -> Prob {
        Prob { sp: Rc::new(sp.clone()), roots: Rc::new(roots), log: Default::default(), faults: Default::default() }
    }
}
fn v<S: Data<Elem = f64>>(a: &ArrayBase<S, Ix1>) -> Vec<f64> {
    a.iter().cloned().collect()
}
impl ModelSpec for Prob {
    type Scalar = f64;
    type Dim = Ix1;
    fn model_size(&self) -> usize {
        self.sp.n
    }
}
impl Residual for Prob {
    fn res<S1, S2, S3>(&self, tt: f64, yy: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut rr: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&yy), v(&yp));
        let mut out = vec![0.0; self.sp.n];
        let mut l = self.log.borrow_mut();
        l.nres += 1;
        match l.trap {
            None => self.sp.res(l.nres, tt, &y, &yp, &mut out),
            Some((i, by)) => {
                let jump = Some(Jump { i, at: 0.0, by, call: Some(0) });
                Spec { jump, ..(*self.sp).clone() }.res(l.nres, tt, &y, &yp, &mut out)
            }
        }
        if let Some((a, c)) = self.faults.nan {
            if l.nres >= a && l.nres < a + c {
                out[0] = f64::NAN;
            }
        }
        for (d, s) in rr.iter_mut().zip(&out) {
            *d = *s;
        }
        if l.keep {
            l.calls.push(Call::Res { t: tt, y, yp, r: out });
        }
    }
}
impl Jacobian for Prob {
    fn jac<S1, S2, S3, S4>(
        &self,
        tt: f64,
        cj: f64,
        yy: ArrayBase<S1, Ix1>,
        yp: ArrayBase<S2, Ix1>,
        rr: ArrayBase<S3, Ix1>,
        mut jac: ArrayBase<S4, Ix2>,
    ) where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: Data<Elem = f64>,
        S4: DataMut<Elem = f64>,
    {
        let n = self.sp.n;
        let y = v(&yy);
        let mut l = self.log.borrow_mut();
        l.njac += 1;
        if l.keep {
            let zeroed = jac.iter().all(|x| *x == 0.0);
            l.calls.push(Call::Jac { t: tt, cj, y: y.clone(), yp: v(&yp), r: v(&rr), zeroed });
        }
        let mut out = vec![0.0; n * n];
        self.sp.jac(tt, cj, &y, &mut out);
        if let Some(f) = self.faults.jac_scale {
            out.iter_mut().for_each(|x| *x *= f);
        }
        if let Some((a, c)) = self.faults.sing {
            if l.njac >= a && l.njac < a + c {
                out.iter_mut().for_each(|x| *x = 0.0);
            }
        }
        for i in 0..n {
            for j in 0..n {
                jac[[i, j]] = out[i * n + j];
            }
        }
    }
}
impl Root for Prob {
    fn num_roots(&self) -> usize {
        self.roots.len()
    }
    fn root<S1, S2, S3>(&self, t: f64, y: ArrayBase<S1, Ix1>, yp: ArrayBase<S2, Ix1>, mut gout: ArrayBase<S3, Ix1>)
    where
        S1: Data<Elem = f64>,
        S2: Data<Elem = f64>,
        S3: DataMut<Elem = f64>,
    {
        let (y, yp) = (v(&y), v(&yp));
        let g: Vec<f64> = self.roots.iter().map(|r| r.at(t, &y, &yp)).collect();
        for (d, s) in gout.iter_mut().zip(&g) {
            *d = *s;
        }
        let mut l = self.log.borrow_mut();
        l.nroot += 1;
        if l.keep {
            l.calls.push(Call::Root { t, y, yp, g });
        }
    }
}

pub type Solver = ida::Ida<Prob, ida::linear::Dense<f64>, ida::nonlinear::Newton<Prob>, ida::tol_control::TolControlSV<f64>>;
pub fn solver(p: &Prob) -> Solver {
    let sp = &p.sp;
    ida::Ida::new(
        p.clone(),
        Array1::from(sp.exact(0.0)),
        Array1::from(sp.exact_d(0.0)),
        ida::tol_control::TolControlSV::new(sp.rtol, Array1::from(sp.atol.clone())),
    )
}

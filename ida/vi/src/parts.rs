//! C50: error weights and norms. C51: the sample problems.
use crate::checks::BOUND;
use crate::gen::g;
use crate::refida::*;
use crate::run::*;
use ida::sample_problems::{Roberts, SlCrank};
use ida::tol_control::*;
use ida::traits::*;
use ida::{IdaTask, NormRms, NormRmsMasked};
use ndarray::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Weights {
    pub y: Vec<f64>,
    pub atol: Vec<f64>,
    pub rtol: f64,
    pub scalar: bool,
    pub single: bool,
    pub view: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Norms {
    pub x: Vec<f64>,
    pub w: Vec<f64>,
    pub id: Vec<bool>,
    pub single: bool,
    pub view: u8,
}
/// numbers of all magnitudes whose squares are representable
fn num() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => g(-64, 64, 16.0),
        2 => (g(-64, 64, 64.0), -60..=60i32).prop_map(|(a, e)| a * 2f64.powi(e)),
        1 => Just(0.0),
        1 => Just(-0.0),
    ]
    .boxed()
}
fn pos() -> BoxedStrategy<f64> {
    (g(1, 640, 64.0), prop_oneof![1 => Just(0), 1 => -60..=30i32]).prop_map(|(a, e)| a * 2f64.powi(e)).boxed()
}
trait F: num_traits::Float + std::fmt::Debug {
    fn to(self) -> f64 {
        self.to_f64().unwrap()
    }
    fn of(x: f64) -> Self {
        Self::from(x).unwrap()
    }
}
impl F for f64 {}
impl F for f32 {}

fn ewt<T: F>(c: &Weights) -> (Vec<f64>, Vec<f64>, Vec<f64>, f64) {
    let n = c.y.len();
    let y = Array1::from(c.y.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
    let at = Array1::from(c.atol.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
    let rt = T::of(c.rtol);
    // y is a row of a matrix (as it is in the solver), the weights a row of another
    let mut ym = Array2::from_elem((3, n), T::nan());
    ym.index_axis_mut(Axis(0), 1).assign(&y);
    let mut wm = Array2::from_elem((2, n), T::nan());
    let mut w = Array1::from_elem(n, T::nan());
    macro_rules! run {
        ($t:expr) => {
            match c.view {
                0 => $t.ewt_set(y.view(), w.view_mut()),
                1 => $t.ewt_set(ym.index_axis(Axis(0), 1), w.view_mut()),
                _ => {
                    $t.ewt_set(y.clone(), wm.index_axis_mut(Axis(0), 1));
                    w.assign(&wm.index_axis(Axis(0), 1));
                }
            }
        };
    }
    if c.scalar {
        run!(TolControlSS::new(rt, at[0]));
    } else {
        run!(TolControlSV::new(rt, at.clone()));
    }
    let f = |a: &Array1<T>| a.iter().map(|x| x.to()).collect::<Vec<f64>>();
    (f(&w), f(&y), (0..n).map(|i| at[if c.scalar { 0 } else { i }].to()).collect(), rt.to())
}
fn norms<T: F>(c: &Norms) -> (f64, f64, Vec<f64>, Vec<f64>) {
    let n = c.x.len();
    let x = Array1::from(c.x.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
    let w = Array1::from(c.w.iter().map(|x| T::of(*x)).collect::<Vec<_>>());
    let id = Array1::from(c.id.clone());
    let (a, b) = match c.view {
        0 => (x.norm_wrms(&w), x.norm_wrms_masked(&w, &id)),
        1 => {
            let mut m = Array2::from_elem((3, n), T::nan());
            m.index_axis_mut(Axis(0), 2).assign(&x);
            (m.index_axis(Axis(0), 2).norm_wrms(&w), m.index_axis(Axis(0), 2).norm_wrms_masked(&w, &id))
        }
        2 => {
            // a column: strided
            let mut m = Array2::from_elem((n, 3), T::nan());
            m.index_axis_mut(Axis(1), 1).assign(&x);
            (m.index_axis(Axis(1), 1).norm_wrms(&w.view()), m.index_axis(Axis(1), 1).norm_wrms_masked(&w.view(), &id))
        }
        _ => {
            let s = (2, n / 2);
            if n % 2 == 1 {
                (x.norm_wrms(&w), x.norm_wrms_masked(&w, &id))
            } else {
                let x = Array2::from_shape_vec(s, x.to_vec()).unwrap();
                let w = Array2::from_shape_vec(s, w.to_vec()).unwrap();
                let id = Array2::from_shape_vec(s, id.to_vec()).unwrap();
                (x.norm_wrms(&w), x.norm_wrms_masked(&w, &id))
            }
        }
    };
    (a.to(), b.to(), x.iter().map(|x| x.to()).collect(), w.iter().map(|x| x.to()).collect())
}

pub fn c50(cx: &mut Ctx) {
    cx.rule("weights: TolControlSS and TolControlSV in f64 and f32, through owned arrays and rows of matrices, against 1/(rtol |y_i| + atol_i); norms: norm_wrms and norm_wrms_masked on arrays, rows, strided columns and matrices against sqrt(sum (x_i w_i)^2 / n), the masked-out components counting in n only; long norms: the same for up to 80,000 components, and with a NaN or an infinity, which the norm must not hide; non-trivial: some component not 0 and (norms) some but not all components masked");
    let strat = || {
        (1..=12usize).prop_flat_map(|n| {
            (proptest::collection::vec(num(), n), proptest::collection::vec(pos(), n), prop_oneof![4 => pos(), 1 => Just(0.0)], any::<bool>(), any::<bool>(), 0..3u8)
                .prop_map(|(y, atol, rtol, scalar, single, view)| Weights { y, atol, rtol, scalar, single, view })
        })
    };
    cx.prop("weights", 100_000, 2_000_000, strat, |c: &Weights| {
        let (w, y, at, rt) = if c.single { ewt::<f32>(c) } else { ewt::<f64>(c) };
        let eps = if c.single { f32::EPSILON as f64 } else { f64::EPSILON };
        for i in 0..y.len() {
            let want = 1.0 / (rt * y[i].abs() + at[i]);
            if !((w[i] / want - 1.0).abs() <= 4.0 * eps) {
                return Err(format!("component {}: y {:e}, rtol {:e}, atol {:e}: weight {:e}, should be {:e}", i, y[i], rt, at[i], w[i], want));
            }
        }
        Ok(Info::new(y.iter().any(|x| *x != 0.0)).c(c.scalar, "scalar").c(!c.scalar, "vector").c(c.single, "f32"))
    });
    let strat = || {
        prop_oneof![4 => 1..=12usize, 1 => 1..=100usize].prop_flat_map(|n| {
            (proptest::collection::vec(num(), n), proptest::collection::vec(pos(), n), proptest::collection::vec(any::<bool>(), n), any::<bool>(), 0..4u8)
                .prop_map(|(x, w, id, single, view)| Norms { x, w, id, single, view })
        })
    };
    cx.prop("norms", 100_000, 2_000_000, strat, |c: &Norms| {
        let mut c = c.clone();
        if c.single {
            // squares within the range of f32
            c.x.iter_mut().chain(c.w.iter_mut()).for_each(|x| *x = if x.abs() > 1e6 || x.abs() < 1e-6 { x.signum() } else { *x });
        }
        let (a, b, x, w) = if c.single { norms::<f32>(&c) } else { norms::<f64>(&c) };
        let n = x.len();
        let eps = (n as f64 + 8.0) * if c.single { f32::EPSILON as f64 } else { f64::EPSILON };
        let def = |mask: bool| ((0..n).filter(|i| !mask || c.id[*i]).map(|i| (x[i] * w[i]).powi(2)).sum::<f64>() / n as f64).sqrt();
        for (what, got, want) in [("norm_wrms", a, def(false)), ("norm_wrms_masked", b, def(true))] {
            if !((got - want).abs() <= eps * want) {
                return Err(format!("{} = {:e}, should be {:e}", what, got, want));
            }
        }
        let k = c.id.iter().filter(|x| **x).count();
        Ok(Info::new(a != 0.0 && k > 0 && k < n).c(n > 12, "more than 12 components").c(c.single, "f32").c(c.view == 3 && n % 2 == 0, "matrices"))
    });
    // the pattern repeated to a great length, then a number that is none
    let strat = || {
        (
            (1..=12usize).prop_flat_map(|n| {
                (proptest::collection::vec(num(), n), proptest::collection::vec(pos(), n), proptest::collection::vec(any::<bool>(), n), any::<bool>(), 0..4u8)
                    .prop_map(|(x, w, id, single, view)| Norms { x, w, id, single, view })
            }),
            prop_oneof![100..1000usize, 60_000..80_000usize],
            prop_oneof![Just(None), (any::<prop::sample::Index>(), 0..3u8).prop_map(Some)],
        )
            .prop_map(|(pat, len, bad)| LongNorms { pat, len, bad: bad.map(|(i, k)| (i.index(len), k)) })
    };
    cx.prop("long norms", 400, 8_000, strat, |c: &LongNorms| {
        let k = c.pat.x.len();
        let f = |i: usize| i * 7919 % k;
        let mut d = Norms { x: (0..c.len).map(|i| c.pat.x[f(i)]).collect(), w: (0..c.len).map(|i| c.pat.w[f(i)]).collect(), id: (0..c.len).map(|i| c.pat.id[f(i)]).collect(), ..c.pat.clone() };
        if d.single {
            // squares within the range of f32
            d.x.iter_mut().chain(d.w.iter_mut()).for_each(|x| *x = if x.abs() > 1e6 || x.abs() < 1e-6 { x.signum() } else { *x });
        }
        if let Some((i, b)) = c.bad {
            d.x[i] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY][b as usize];
            d.id[i] = true;
        }
        let (a, b, x, w) = if d.single { norms::<f32>(&d) } else { norms::<f64>(&d) };
        // (in f32 a sum so long has an error of its own)
        let eps = if d.single { 0.02 } else { 1e-10 };
        let def = |mask: bool| ((0..c.len).filter(|i| !mask || d.id[*i]).map(|i| (x[i] * w[i]).powi(2)).sum::<f64>() / c.len as f64).sqrt();
        for (what, got, want) in [("norm_wrms", a, def(false)), ("norm_wrms_masked", b, def(true))] {
            let ok = if c.bad.is_some() { !got.is_finite() } else { (got - want).abs() <= eps * want };
            if !ok {
                return Err(format!("{} of {} components = {:e}, should be {:e}", what, c.len, got, want));
            }
        }
        Ok(Info::new(a != 0.0).c(c.bad.is_some(), "with NaN or an infinity").c(c.len > 65535, "more than 65535 components"))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LongNorms {
    pub pat: Norms,
    pub len: usize,
    /// a component that is NaN, +Inf or -Inf
    pub bad: Option<(usize, u8)>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Point {
    pub y: Vec<f64>,
    pub yp: Vec<f64>,
    pub r: Vec<f64>,
    pub cj: f64,
    pub t: f64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Run {
    pub rtol: f64,
    pub atol: Vec<f64>,
    pub t1: f64,
    pub steps: usize,
}

fn rob(y: &[f64], yp: &[f64]) -> [f64; 3] {
    let (a, b) = (0.04 * y[0], 1.0e4 * y[1] * y[2]);
    [b - a - yp[0], a - b - 3.0e7 * y[1] * y[1] - yp[1], y[0] + y[1] + y[2] - 1.0]
}
struct RobSys<'a>(&'a Run);
impl<'a> Sys for RobSys<'a> {
    fn n(&self) -> usize {
        3
    }
    fn y0(&self) -> Vec<f64> {
        vec![1.0, 0.0, 0.0]
    }
    fn yp0(&self) -> Vec<f64> {
        vec![-0.04, 0.04, 0.0]
    }
    fn res(&self, _call: usize, _t: f64, y: &[f64], yp: &[f64], out: &mut [f64]) {
        out.copy_from_slice(&rob(y, yp));
    }
    fn jac(&self, _t: f64, cj: f64, y: &[f64], out: &mut [f64]) {
        out.copy_from_slice(&[
            -0.04 - cj,
            1.0e4 * y[2],
            1.0e4 * y[1],
            0.04,
            -1.0e4 * y[2] - 6.0e7 * y[1] - cj,
            -1.0e4 * y[1],
            1.0,
            1.0,
            1.0,
        ]);
    }
    fn rtol(&self) -> f64 {
        self.0.rtol
    }
    fn atol(&self, i: usize) -> f64 {
        self.0.atol[i]
    }
}
fn call_res<M: ModelSpec<Scalar = f64, Dim = Ix1> + Residual>(m: &M, t: f64, y: &[f64], yp: &[f64]) -> Vec<f64> {
    let mut r = Array1::from_elem(y.len(), f64::NAN);
    m.res(t, Array1::from(y.to_vec()), Array1::from(yp.to_vec()), r.view_mut());
    r.to_vec()
}
/// the slider-crank mechanism with a = 1/2, J1 = 1, J2 = 2, m2 = k = c = l0 = F = 1, from its geometry
fn crank(y: &[f64], yp: &[f64]) -> Vec<f64> {
    let a = 0.5;
    let (q, x, p) = (y[0], y[1], y[2]);
    let v = [y[3], y[4], y[5]];
    // position constraints: the end of the rod on the slider's axis; G their Jacobian
    let g = [x - p.cos() - a * q.cos(), -p.sin() - a * q.sin()];
    let gm = [[a * q.sin(), 1.0, p.sin()], [-a * q.cos(), 0.0, -p.cos()]];
    // the spring goes from the middle of the crank to the middle of the rod
    let d = [x - p.cos() / 2.0 - a * q.cos() / 2.0, -p.sin() / 2.0 - a * q.sin() / 2.0];
    let dd = [[a * q.sin() / 2.0, 1.0, p.sin() / 2.0], [-a * q.cos() / 2.0, 0.0, -p.cos() / 2.0]];
    let l = d[0].hypot(d[1]);
    let dl: Vec<f64> = (0..3).map(|j| (d[0] * dd[0][j] + d[1] * dd[1][j]) / l).collect();
    let ld: f64 = (0..3).map(|j| dl[j] * v[j]).sum();
    let f = (l - 1.0) + ld;
    // generalized forces: spring and damper, and F along the x axis on a point of the rod moving with x + cos p
    let ext = [0.0, 1.0, -p.sin()];
    let m = [1.0, 1.0, 2.0];
    let mut r = vec![0.0; 10];
    for j in 0..3 {
        r[j] = yp[j] - v[j] + gm[0][j] * y[8] + gm[1][j] * y[9];
        r[3 + j] = m[j] * yp[3 + j] - (-f * dl[j] + ext[j]) + gm[0][j] * y[6] + gm[1][j] * y[7];
    }
    r[6] = g[0];
    r[7] = g[1];
    for i in 0..2 {
        r[8 + i] = (0..3).map(|j| gm[i][j] * v[j]).sum();
    }
    r
}

pub fn c51(cx: &mut Ctx) {
    cx.rule("roberts: residual, Jacobian (dF/dy + cj dF/dy', by exact differences of the quadratic residual) and root functions at random points; run: Ida on Roberts with random tolerances and first output time, step by step against the reference integrator on an independently written Roberts, y1+y2+y3 = 1 and all components within [0,1] up to the tolerance, the root y3 = 0.01 found where y3 crosses it; crank: the residual at random points against the equations of motion derived from the geometry; non-trivial: all components of y non-zero (run: at least 20 steps compared)");
    let strat = || {
        (proptest::collection::vec(g(-64, 64, 32.0), 3), proptest::collection::vec(g(-64, 64, 32.0), 3), proptest::collection::vec(g(-64, 64, 32.0), 3), g(-640, 640, 16.0), g(-64, 64, 1.0))
            .prop_map(|(y, yp, r, cj, t)| Point { y, yp, r, cj, t })
    };
    cx.prop("roberts", 50_000, 1_000_000, strat, |c: &Point| {
        let m = Roberts {};
        let got = call_res(&m, c.t, &c.y, &c.yp);
        let want = rob(&c.y, &c.yp);
        let mag = 1e4 + 3e7 * c.y[1].abs().max(1.0).powi(2) + 1e4 * c.y[2].abs();
        for i in 0..3 {
            if !((got[i] - want[i]).abs() <= 1e-13 * mag) {
                return Err(format!("residual {} = {:e}, should be {:e}", i, got[i], want[i]));
            }
        }
        let mut j = Array2::zeros((3, 3));
        m.jac(c.t, c.cj, Array1::from(c.y.clone()), Array1::from(c.yp.clone()), Array1::from(c.r.clone()), j.view_mut());
        for k in 0..3 {
            // central differences are exact for a quadratic function
            let at = |d: f64| {
                let (mut y, mut yp) = (c.y.clone(), c.yp.clone());
                y[k] += d;
                yp[k] += c.cj * d;
                rob(&y, &yp)
            };
            let (p, n) = (at(1.0), at(-1.0));
            for i in 0..3 {
                let want = (p[i] - n[i]) / 2.0;
                if !((j[[i, k]] - want).abs() <= 1e-12 * (mag + 4e8)) {
                    return Err(format!("jac[{},{}] = {:e}, should be {:e}", i, k, j[[i, k]], want));
                }
            }
        }
        let mut gv = Array1::from_elem(m.num_roots(), f64::NAN);
        m.root(c.t, Array1::from(c.y.clone()), Array1::from(c.yp.clone()), gv.view_mut());
        if gv.len() != 2 || gv[0] != c.y[0] - 1e-4 || gv[1] != c.y[2] - 0.01 {
            return Err(format!("root functions {:?}", gv.to_vec()));
        }
        Ok(Info::new(c.y.iter().chain(&c.yp).all(|x| *x != 0.0)))
    });
    // y near the solution, where every term of the Jacobian is visible
    let strat = || {
        (proptest::collection::vec(g(1, 64, 64.0), 3), proptest::collection::vec(g(-64, 64, 64.0), 3), proptest::collection::vec(Just(0.0), 3), g(1, 64, 64.0), Just(0.0)).prop_map(|(mut y, yp, r, cj, t)| {
            y[1] *= 2f64.powi(-22);
            y[2] *= 2f64.powi(-14);
            Point { y, yp, r, cj, t }
        })
    };
    cx.prop("roberts jacobian", 50_000, 1_000_000, strat, |c: &Point| {
        let m = Roberts {};
        let mut j = Array2::zeros((3, 3));
        m.jac(c.t, c.cj, Array1::from(c.y.clone()), Array1::from(c.yp.clone()), Array1::from(c.r.clone()), j.view_mut());
        let mut w = vec![0.0; 9];
        RobSys(&Run { rtol: 0.0, atol: vec![], t1: 0.0, steps: 0 }).jac(0.0, c.cj, &c.y, &mut w);
        for i in 0..9 {
            let got = j[[i / 3, i % 3]];
            if !((got - w[i]).abs() <= 1e-12 * w[i].abs()) {
                return Err(format!("jac[{},{}] = {:e}, should be {:e}", i / 3, i % 3, got, w[i]));
            }
        }
        let (got, want) = (call_res(&m, 0.0, &c.y, &c.yp), rob(&c.y, &c.yp));
        for i in 0..3 {
            if !((got[i] - want[i]).abs() <= 1e-14 * (1.0 + c.yp[i].abs())) {
                return Err(format!("residual {} = {:e}, should be {:e}", i, got[i], want[i]));
            }
        }
        Ok(Info::new(true))
    });
    let strat = || {
        (4..=12i32, proptest::collection::vec(8..=16i32, 3), -4..=8i32, prop_oneof![20..=80usize, 20..=300usize]).prop_map(|(r, a, t, steps)| Run {
            rtol: 10f64.powf(-r as f64 / 2.0),
            atol: (0..3).map(|i| 10f64.powf(-(a[i] + if i == 1 { 6 } else { 0 }) as f64 / 2.0)).collect(),
            t1: 2f64.powi(t),
            steps,
        })
    };
    cx.prop("run", 40_000, 600_000, strat, |c: &Run| {
        let mut s: ida::Ida<Roberts, ida::linear::Dense<f64>, ida::nonlinear::Newton<Roberts>, TolControlSV<f64>> = ida::Ida::new(
            Roberts {},
            Array1::from(vec![1.0, 0.0, 0.0]),
            Array1::from(vec![-0.04, 0.04, 0.0]),
            TolControlSV::new(c.rtol, Array1::from(c.atol.clone())),
        );
        let sys = RobSys(c);
        let mut r = RefIda::new(&sys, Opts::default());
        r.start(c.t1);
        let mut r2 = RefIda::new(&sys, Opts { jitter: 0x9e3779b97f4a7c15, ..Opts::default() });
        r2.start(c.t1);
        let mut t = 0.0;
        let (mut n, mut roots, mut compare) = (0, vec![], true);
        let mut y3 = 0.0;
        for i in 0..c.steps {
            let tout = if i == 0 { c.t1 } else { 1e30 };
            let mut e = s.solve(tout, &mut t, IdaTask::OneStep).map_err(|e| format!("step {}: {:?}", i, e))?;
            while let ida::IdaSolveStatus::Root = e {
                let info: Vec<f64> = s.get_root_info().iter().cloned().collect();
                let y: Vec<f64> = s.get_yy().iter().cloned().collect();
                let k = info.iter().position(|x| *x != 0.0).ok_or("Root without a root")?;
                let (val, lim) = if k == 0 { (y[0], 1e-4) } else { (y[2], 0.01) };
                if (val - lim).abs() > 1e-6 * lim || info[k] != [-1.0, 1.0][k] {
                    return Err(format!("root at {:e}: {:?}, y {:?}", t, info, y));
                }
                roots.push(k);
                e = s.solve(tout, &mut t, IdaTask::OneStep).map_err(|e| format!("after a root: {:?}", e))?;
            }
            let y: Vec<f64> = s.get_yy().iter().cloned().collect();
            let sum: f64 = y.iter().sum();
            let tol = c.rtol * y[0].max(y[2]) + c.atol[0] + c.atol[2];
            if (sum - 1.0).abs() > tol {
                return Err(format!("step {}: at {:e} y1+y2+y3 = {:e}", i, t, sum));
            }
            for j in 0..3 {
                let tol = BOUND * (c.rtol * y[j].abs() + c.atol[j]);
                if y[j] < -tol || y[j] > 1.0 + tol {
                    return Err(format!("step {}: at {:e} y = {:?}", i, t, y));
                }
            }
            if y3 < 0.01 - 1e-12 && y[2] > 0.01 + 1e-12 && !roots.contains(&1) {
                return Err(format!("y3 goes from {:e} to {:e} at {:e} without a root", y3, y[2], t));
            }
            y3 = y[2];
            if compare {
                let st = r.step();
                let same = match (&st, &r2.step()) {
                    (Ok(a), Ok(b)) => (a.nre, a.knext) == (b.nre, b.knext) && (a.hnext / b.hnext - 1.0).abs() < 1e-8 && (a.tn / b.tn - 1.0).abs() < 1e-8 && (0..3).all(|j| (a.y[j] - b.y[j]).abs() <= 1e-6 * (c.rtol * a.y[j].abs() + c.atol[j])),
                    (Err(a), Err(b)) => a == b,
                    _ => false,
                };
                if r.margin < 1e-5 || r2.margin < 1e-5 || !same {
                    compare = false;
                    continue;
                }
                let st = match st {
                    Ok(x) => x,
                    Err(e) => return Err(format!("step {}: the step succeeds, should be {:?}", i, e)),
                };
                let got = (s.get_last_order(), s.get_num_res_evals(), s.get_num_jac_evals(), s.get_num_err_test_fails(), s.get_num_nonlin_solv_conv_fails(), s.get_current_order());
                let want = (st.k, st.nre, st.nje, st.netf, st.ncfn, st.knext);
                if got != want {
                    return Err(format!("step {}: (order, res, jac, err fails, conv fails, next order) {:?}, should be {:?}", i, got, want));
                }
                for (what, a, b) in [("h", s.get_last_step(), st.h), ("next h", s.get_current_setp(), st.hnext), ("t", t, st.tn)] {
                    if !((a - b).abs() < 1e-6 * b.abs()) {
                        return Err(format!("step {}: {} = {:e}, should be {:e}", i, what, a, b));
                    }
                }
                for j in 0..3 {
                    if !((y[j] - st.y[j]).abs() <= 1e-4 * (c.rtol * y[j].abs() + c.atol[j])) {
                        return Err(format!("step {}: y {:?}, should be {:?}", i, y, st.y));
                    }
                }
                n += 1;
            }
        }
        Ok(Info::new(n >= 20).c(!roots.is_empty(), "roots").c(n >= 100, "at least 100 steps compared"))
    });
    let strat = || {
        (proptest::collection::vec(g(-128, 128, 32.0), 10), proptest::collection::vec(g(-64, 64, 32.0), 10)).prop_map(|(y, yp)| Point { y, yp, r: vec![], cj: 0.0, t: 0.0 })
    };
    cx.prop("crank", 50_000, 1_000_000, strat, |c: &Point| {
        let m = SlCrank::default();
        let (q, x, p) = (c.y[0], c.y[1], c.y[2]);
        let l = (x - p.cos() / 2.0 - q.cos() / 4.0).hypot(p.sin() / 2.0 + q.sin() / 4.0);
        if l < 0.05 {
            // the spring has no direction
            return Ok(Info::new(false));
        }
        let (got, want) = (call_res(&m, c.t, &c.y, &c.yp), crank(&c.y, &c.yp));
        for i in 0..10 {
            if !((got[i] - want[i]).abs() <= 1e-9 * (1.0 + want[i].abs())) {
                return Err(format!("residual {} = {:e}, should be {:e}", i, got[i], want[i]));
            }
        }
        Ok(Info::new(c.y.iter().all(|x| *x != 0.0)))
    });
}

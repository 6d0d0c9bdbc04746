//! C21, C22, C29, C31: real systems through Newton + Dense + WRMS norm.
use crate::fl::*;
use crate::lin::*;
use crate::lin_checks::{exact_case, Exact};
use crate::nl::*;
use crate::norm::norm_static;
use crate::run::*;
use crate::script::{code_of, Code};
use nonlinear::Error;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// F and J as closures, the dense solver inside, the WRMS test of the library
pub struct Real<'a> {
    n: usize,
    f: Box<dyn Fn(&[f64], &mut [f64]) + 'a>,
    j: Box<dyn Fn(&[f64], &mut [f64]) + 'a>,
    lin: Box<dyn Lin>,
    lu: Vec<f64>,
    /// Jacobian renewed before every linear solve
    full: bool,
    pub iterates: Vec<Vec<f64>>,
    pub norms: Vec<f64>,
    pub setups: usize,
}
impl<'a> Real<'a> {
    fn new(n: usize, full: bool, f: impl Fn(&[f64], &mut [f64]) + 'a, j: impl Fn(&[f64], &mut [f64]) + 'a) -> Self {
        Real { n, f: Box::new(f), j: Box::new(j), lin: new_lin(n, false), lu: vec![0.0; n * n], full, iterates: vec![], norms: vec![], setups: 0 }
    }
    fn factor(&mut self, y: &[f64]) -> Result<(), Error> {
        let mut m = vec![0.0; self.n * self.n];
        (self.j)(y, &mut m);
        self.lin.setup(&mut m).map_err(Error::from)?;
        self.lu = m;
        Ok(())
    }
}
impl<'a> Prob for Real<'a> {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), Error> {
        (self.f)(y, f);
        Ok(())
    }
    fn setup(&mut self, y: &[f64], _f: &[f64], _jbad: bool) -> Result<bool, Error> {
        self.setups += 1;
        self.factor(y)?;
        Ok(true)
    }
    fn solve(&mut self, y: &[f64], b: &mut [f64]) -> Result<(), Error> {
        if self.full {
            self.factor(y)?;
        }
        let mut x = vec![f64::NAN; self.n];
        self.lin.solve(&self.lu, &mut x, b, 0.0)?;
        b.copy_from_slice(&x);
        Ok(())
    }
    fn ctest(&mut self, _c: Counts, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, Error> {
        let d = norm_static(del, w).unwrap();
        self.norms.push(d);
        self.iterates.push(y.to_vec());
        Ok(d <= tol)
    }
}

/// F(y) = M g(z), z = (y - r) w, g(z) = z + c q(z), q of second order at 0
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct System {
    n: usize,
    #[serde(with = "crate::ser::vecf")]
    m: Vec<f64>,
    #[serde(with = "crate::ser::vecf")]
    r: Vec<f64>,
    #[serde(with = "crate::ser::vecf")]
    w: Vec<f64>,
    #[serde(with = "crate::ser::onef")]
    c: f64,
    /// per component up to three terms (kind, a, b, coefficient in eighths)
    terms: Vec<Vec<(u8, usize, usize, i8)>>,
    /// start directions in z, entries -1..1
    starts: Vec<D>,
    /// c * Lipschitz constant * start radius (sixty-fourths)
    theta: u8,
    tolexp: f64,
    full: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct D(#[serde(with = "crate::ser::vecf")] Vec<f64>);

impl System {
    fn z(&self, y: &[f64]) -> Vec<f64> {
        (0..self.n).map(|i| (y[i] - self.r[i]) * self.w[i]).collect()
    }
    fn g(&self, z: &[f64]) -> Vec<f64> {
        (0..self.n)
            .map(|i| {
                let mut s = 0.0;
                for (k, a, b, co) in &self.terms[i] {
                    let (za, zb) = (z[*a % self.n], z[*b % self.n]);
                    let t = match k {
                        0 => za * zb,
                        1 => za.exp_m1() - za,
                        2 => 1.0 - za.cos(),
                        _ => za - za.sin(),
                    };
                    s += t * (*co as f64 / 8.0) / 3.0;
                }
                z[i] + self.c * s
            })
            .collect()
    }
    fn dg(&self, z: &[f64]) -> Vec<f64> {
        let n = self.n;
        let mut m = vec![0.0; n * n];
        for i in 0..n {
            m[i * n + i] += 1.0;
            for (k, a, b, co) in &self.terms[i] {
                let (a, b) = (*a % n, *b % n);
                let h = self.c * (*co as f64 / 8.0) / 3.0;
                match k {
                    0 => {
                        m[a * n + i] += h * z[b];
                        m[b * n + i] += h * z[a];
                    }
                    1 => m[a * n + i] += h * z[a].exp_m1(),
                    2 => m[a * n + i] += h * z[a].sin(),
                    _ => m[a * n + i] += h * (1.0 - z[a].cos()),
                }
            }
        }
        m
    }
    fn f(&self, y: &[f64], out: &mut [f64]) {
        let g = self.g(&self.z(y));
        let n = self.n;
        for i in 0..n {
            out[i] = (0..n).map(|j| self.m[j * n + i] * g[j]).sum();
        }
    }
    fn jac(&self, y: &[f64], out: &mut [f64]) {
        let n = self.n;
        let d = self.dg(&self.z(y));
        for j in 0..n {
            for i in 0..n {
                let s: f64 = (0..n).map(|k| self.m[k * n + i] * d[j * n + k]).sum();
                out[j * n + i] = s * self.w[j];
            }
        }
    }
    /// Lipschitz constant of Dg in the max norm (|z| <= 1/2)
    fn lip(&self) -> f64 {
        2.0 * self.c.abs()
    }
    fn radius(&self) -> f64 {
        let t = self.theta as f64 / 64.0;
        (t / self.lip().max(1e-9)).min(0.5)
    }
    fn start(&self, k: usize) -> Vec<f64> {
        let rho = self.radius();
        (0..self.n).map(|i| self.r[i] + rho * self.starts[k].0[i] / self.w[i]).collect()
    }
    fn tol(&self) -> f64 {
        10f64.powf(-self.tolexp)
    }
    /// rounding floor in z
    fn floor(&self) -> f64 {
        let m = (0..self.n).map(|i| (self.r[i] * self.w[i]).abs()).fold(1.0f64, f64::max);
        64.0 * f64::EPSILON * self.n as f64 * (m + 1.0)
    }
    /// (bound on iterations, bound on the final error in z) for a start with |z| <= e0 and a
    /// Jacobian taken at a point with |z| <= ej (ignored for the full method)
    fn predict(&self, e0: f64, ej: f64) -> Option<(usize, f64)> {
        let k = self.lip();
        let mut e = e0;
        for it in 1..=60 {
            let next = if self.full { k * e * e / (2.0 * (1.0 - k * e)) } else { k * (ej + e / 2.0) * e / (1.0 - k * ej) } + self.floor();
            // corrections measured by the RMS norm never exceed the max norm
            if (e + next) * (1.0 + 1e-9) <= self.tol() {
                return Some((it, next));
            }
            e = next;
        }
        None
    }
}
fn zmax(s: &System, y: &[f64]) -> f64 {
    s.z(y).iter().fold(0.0, |m, v| m.max(v.abs()))
}
fn zrms(s: &System, y: &[f64]) -> f64 {
    let z = s.z(y);
    (z.iter().map(|v| v * v).sum::<f64>() / s.n as f64).sqrt()
}

/// numbers of unknowns: mostly few
fn nsize() -> BoxedStrategy<usize> {
    prop_oneof![120 => 1usize..=6, 10 => prop::sample::select(vec![7usize, 8, 10]), 1 => prop::sample::select(vec![12usize, 16, 20, 33, 40, 63])].boxed()
}
fn system(max_theta: u8, modified_theta: u8) -> BoxedStrategy<System> {
    (nsize(), any::<bool>())
        .prop_flat_map(move |(n, full)| {
            let th = if full { max_theta } else { modified_theta };
            (
                well_conditioned(n),
                prop::collection::vec((-100i32..=100, -3i32..=3), n),
                prop::collection::vec(-3.0f64..=3.0, n),
                prop::sample::select(vec![0.0, 0.25, 1.0, -1.0, 4.0, 16.0]),
                prop::collection::vec(prop::collection::vec((0u8..4, 0usize..6, 0usize..6, -8i8..=8), 0..4), n),
                prop::collection::vec(prop::collection::vec(unit(), n).prop_map(D), 3),
                (1u8..=th, 2.0f64..9.0),
            )
                .prop_map(move |(m, rw, wexp, c, terms, starts, (theta, tolexp))| {
                    let mut m = m;
                    for j in 0..n {
                        for i in 0..n {
                            m[j * n + i] *= 2f64.powi(rw[i].1);
                        }
                    }
                    let w: Vec<f64> = wexp.iter().map(|e| 10f64.powf(*e)).collect();
                    let r: Vec<f64> = (0..n).map(|i| rw[i].0 as f64 / w[i]).collect();
                    System { n, m, r, w, c, terms, starts, theta, tolexp, full }
                })
        })
        .boxed()
}

pub fn c21(cx: &mut Ctx) {
    cx.rule("a nonlinear system whose start is off the root by more than the tolerance");
    cx.assume("starts satisfy (Lipschitz constant of the scaled Jacobian) x (distance) <= 1/4 for the full and 1/8 for the simplified method; tolerances are at least 100 times the rounding floor");
    let test = |s: &System| -> Res {
        if s.tol() < 100.0 * s.floor() {
            return Ok(Info::new(false).c(true, "not judged (tolerance near rounding)"));
        }
        let maxit = 60;
        let mut nw = new_newton(s.n, false, maxit);
        let mut p = Real::new(s.n, s.full, |y, f| s.f(y, f), |y, j| s.jac(y, j));
        let y0 = s.start(0);
        let e0 = zmax(s, &y0);
        let mut far = false;
        // first solve sets up the Jacobian; the later ones keep it
        for (k, call) in [(0, true), (1, false), (2, true)] {
            let ys = s.start(k);
            let e = zmax(s, &ys);
            let ej = if call { e } else { e0 };
            let Some((its, _)) = s.predict(e, ej) else { return Ok(Info::new(false).c(true, "not judged (no prediction)")) };
            let before = nw.counts();
            let mut y = vec![f64::NAN; s.n];
            let r = nw.solve(&mut p, &ys, &mut y, &s.w, s.tol(), call, None)?;
            if let Err(e) = r {
                return Err(format!("solve {} fails with {:?}; correction norms {:?}", k, e, p.norms));
            }
            let used = nw.counts().0 - before.0;
            if used > its {
                return Err(format!("solve {} takes {} iterations, the contraction predicts at most {}", k, used, its));
            }
            let err = zrms(s, &y);
            if !(err <= s.tol()) {
                return Err(format!("solve {} ends {:e} from the root (WRMS), tolerance {:e}", k, err, s.tol()));
            }
            far |= e > s.tol();
        }
        Ok(Info::new(far && s.c != 0.0 && s.terms.iter().any(|t| !t.is_empty()))
            .c(s.full, "full Newton")
            .c(!s.full, "Jacobian kept")
            .c(s.n == 1, "one unknown")
            .c(s.tol() < 1e-6, "tight tolerance"))
    };
    cx.prop("known roots", 800000, 9000000, || system(16, 8), test);
    // a wrong Jacobian left behind: the first attempt diverges, the retry must find the root
    cx.prop("wrong Jacobian", 400000, 4500000, || (system(8, 8), 1usize..12), |(s, m): &(System, usize)| {
        let y0 = s.start(0);
        let e = zmax(s, &y0);
        if s.tol() < 100.0 * s.floor() || zrms(s, &y0) < 8.0 * s.tol() {
            return Ok(Info::new(false).c(true, "not judged (starts within tolerance)"));
        }
        let Some((its, _)) = s.predict(e, e) else { return Ok(Info::new(false)) };
        let maxit = its.max(*m);
        let mut nw = new_newton(s.n, false, maxit);
        let mut s2 = s.clone();
        s2.full = false;
        let s = &s2;
        let Some((its, _)) = s.predict(e, e) else { return Ok(Info::new(false)) };
        if its > maxit {
            return Ok(Info::new(false));
        }
        let mut p = Real::new(s.n, false, |y, f| s.f(y, f), |y, j| s.jac(y, j));
        // factors of -J: every correction points the wrong way
        let mut mj = vec![0.0; s.n * s.n];
        s.jac(&y0, &mut mj);
        mj.iter_mut().for_each(|v| *v = -*v);
        p.lin.setup(&mut mj).map_err(|e| e.to_string())?;
        p.lu = mj;
        let mut y = vec![0.0; s.n];
        let r = nw.solve(&mut p, &y0, &mut y, &s.w, s.tol(), false, None)?;
        if p.setups == 0 {
            // the wandering first attempt met the tolerance by itself: nothing to recover from
            return Ok(Info::new(false).c(true, "not judged (accepted without retry)"));
        }
        if let Err(e) = r {
            return Err(format!("no recovery from a wrong Jacobian: {:?}; norms {:?}", e, p.norms));
        }
        if !(zrms(s, &y) <= s.tol()) {
            return Err(format!("ends {:e} from the root, tolerance {:e}", zrms(s, &y), s.tol()));
        }
        let c = nw.counts();
        if p.setups != 1 || c.2 != 1 {
            return Err(format!("{} setups and {} convergence failures, expected one each", p.setups, c.2));
        }
        if c.0 > maxit + its {
            return Err(format!("{} iterations, expected at most {} + {}", c.0, maxit, its));
        }
        Ok(Info::new(true))
    });
    // F affine, the kept Jacobian off by known factors: the error shrinks by exactly those factors
    cx.prop("known contraction", 240000, 2400000, || {
        (nsize(), any::<bool>()).prop_flat_map(|(n, one)| {
            (
                well_conditioned(n),
                prop::collection::vec(if one { (-90i32..=96).boxed() } else { prop_oneof![(-60i32..=60), (-30i32..=30)].boxed() }, n),
                prop::collection::vec(-100i32..=100, n),
                prop::collection::vec(unit(), n),
                prop::collection::vec(-6i32..=6, n),
                0.5f64..8.0,
                1usize..400,
            )
                .prop_map(move |(m, lam, r, z0, we, tolexp, maxit)| Contraction { n, m: D(m), lam: lam.into_iter().map(|l| l as f64 / 100.0).collect::<Vec<_>>(), r, z0: D(z0), we, tolexp, maxit })
        })
        .boxed()
    }, |s: &Contraction| {
        let n = s.n;
        let w: Vec<f64> = s.we.iter().map(|e| 2f64.powi(*e)).collect();
        let r: Vec<f64> = (0..n).map(|i| s.r[i] as f64 / 16.0 / w[i]).collect();
        let tol = 10f64.powf(-s.tolexp);
        // prediction
        let mut z = s.z0.0.clone();
        let mut its = 0;
        let mut ok = None;
        while its < s.maxit {
            let d2: f64 = (0..n).map(|i| ((s.lam[i] - 1.0) * z[i]).powi(2)).sum::<f64>() / n as f64;
            let d = d2.sqrt();
            for i in 0..n {
                z[i] *= s.lam[i];
            }
            its += 1;
            if (d - tol).abs() <= 1e-4 * tol {
                return Ok(Info::new(false).c(true, "not judged (correction within 1e-4 of the tolerance)"));
            }
            if d < tol {
                ok = Some(its);
                break;
            }
        }
        let f = |y: &[f64], out: &mut [f64]| {
            for i in 0..n {
                out[i] = (0..n).map(|j| s.m.0[j * n + i] * ((y[j] - r[j]) * w[j])).sum();
            }
        };
        let j = |_: &[f64], out: &mut [f64]| {
            for k in 0..n {
                for i in 0..n {
                    out[k * n + i] = s.m.0[k * n + i] * w[k] / (1.0 - s.lam[k]);
                }
            }
        };
        let mut nw = new_newton(n, false, s.maxit);
        let mut p = Real::new(n, false, f, j);
        let y0: Vec<f64> = (0..n).map(|i| r[i] + s.z0.0[i] / w[i]).collect();
        let mut y = vec![f64::NAN; n];
        let got = nw.solve(&mut p, &y0, &mut y, &w, tol, true, None)?;
        let used = nw.counts().0;
        match (&got, ok) {
            (Ok(()), Some(k)) => {
                if used != k {
                    return Err(format!("converges after {} iterations, the contraction predicts {}", used, k));
                }
            }
            (Err(Error::ConvergenceRecover {}), None) => {
                if used != s.maxit {
                    return Err(format!("gives up after {} iterations of {}", used, s.maxit));
                }
                return Ok(Info::new(n > 1).c(true, "too slow for the limit"));
            }
            _ => return Err(format!("result {:?} after {} iterations, expected {:?} (limit {})", got, used, ok, s.maxit)),
        }
        for i in 0..n {
            let zi = (y[i] - r[i]) * w[i];
            if (zi - z[i]).abs() > 1e-9 {
                return Err(format!("error of unknown {} is {:e}, the contraction predicts {:e}", i, zi, z[i]));
            }
        }
        Ok(Info::new(used > 1).c(used > 12, "more than 12 iterations").c(used > 60, "more than 60 iterations"))
    });
    // square roots from any distance: Newton's iterates are those of Heron's formula, whatever the mixing matrix
    cx.prop("far starts", 160000, 1500000, || {
        nsize().prop_flat_map(|n| {
            (well_conditioned(n), prop::collection::vec(0.25f64..4.0, n), prop::collection::vec(0i32..28, n), 2.0f64..6.0)
                .prop_map(move |(m, a, e, tolexp)| Roots { n, m: D(m), a: D(a), e, tolexp })
        })
        .boxed()
    }, |s: &Roots| {
        let n = s.n;
        let tol = 10f64.powf(-s.tolexp);
        let y0: Vec<f64> = (0..n).map(|i| s.a.0[i] * 2f64.powi(s.e[i])).collect();
        let root: Vec<f64> = s.a.0.iter().map(|a| a.sqrt()).collect();
        let f = |y: &[f64], out: &mut [f64]| {
            for i in 0..n {
                // row scaling by the largest start keeps the mixed residuals comparable
                out[i] = (0..n).map(|j| s.m.0[j * n + i] * (y[j] * y[j] - s.a.0[j]) / y0[j]).sum();
            }
        };
        let j = |y: &[f64], out: &mut [f64]| {
            for k in 0..n {
                for i in 0..n {
                    out[k * n + i] = s.m.0[k * n + i] * 2.0 * y[k] / y0[k];
                }
            }
        };
        // iterations of the formula
        let mut v = y0.clone();
        let mut want = 0;
        loop {
            let mut d2 = 0.0;
            for i in 0..n {
                let next = 0.5 * (v[i] + s.a.0[i] / v[i]);
                d2 += (next - v[i]).powi(2);
                v[i] = next;
            }
            want += 1;
            let d = (d2 / n as f64).sqrt();
            if (d - tol).abs() <= 1e-2 * tol {
                return Ok(Info::new(false).c(true, "not judged (correction within 1% of the tolerance)"));
            }
            if d < tol {
                break;
            }
        }
        let mut nw = new_newton(n, false, want);
        let mut p = Real::new(n, true, f, j);
        let w = vec![1.0; n];
        let mut y = vec![f64::NAN; n];
        let got = nw.solve(&mut p, &y0, &mut y, &w, tol, true, None)?;
        if got.is_err() || nw.counts().0 != want {
            return Err(format!("{:?} after {} iterations, Heron's formula needs {}; correction norms {:?}", got, nw.counts().0, want, p.norms));
        }
        let d: f64 = (0..n).map(|i| (y[i] - root[i]).powi(2)).sum::<f64>() / n as f64;
        if d.sqrt() > tol {
            return Err(format!("ends {:e} from the roots, tolerance {:e}", d.sqrt(), tol));
        }
        Ok(Info::new(n > 1).c(want > 12, "more than 12 iterations").c(want > 24, "more than 24 iterations"))
    });
}

/// F(y) = M z, z = (y - r) w, with a Jacobian that is M / (1 - lambda) in z
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Contraction {
    n: usize,
    m: D,
    lam: Vec<f64>,
    r: Vec<i32>,
    z0: D,
    we: Vec<i32>,
    tolexp: f64,
    maxit: usize,
}
/// F(y) = M (y^2 - a)
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Roots {
    n: usize,
    m: D,
    a: D,
    e: Vec<i32>,
    tolexp: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Affine {
    n: usize,
    a: D,
    rs: Vec<i32>,
    s: Vec<D>,
    y0: Vec<D>,
    w: D,
    tolfac: f64,
    maxit: usize,
    at_root: bool,
    full: bool,
    /// powers of two by which solution and start of each solve are moved
    #[serde(default)]
    gs: Vec<(i32, i32)>,
}
fn affine_f(n: usize, a: &[f64], s: &[f64], y: &[f64], f: &mut [f64]) {
    for i in 0..n {
        f[i] = (0..n).map(|j| a[j * n + i] * (y[j] - s[j])).sum();
    }
}
pub fn c22(cx: &mut Ctx) {
    cx.rule("the start differs from the solution and n > 1");
    cx.assume("condition number below about 10; tolerance above the rounding of the linear solve");
    let strat = || {
        nsize()
            .prop_flat_map(|n| {
                let v = move |k: usize| prop::collection::vec(prop::collection::vec(prop_oneof![4 => unit(), 1 => wide(20), 1 => small_int(100), 1 => Just(0.0)], n).prop_map(D), k);
                (
                    well_conditioned(n).prop_map(D),
                    prop::collection::vec(-3i32..=3, n),
                    v(3),
                    v(3),
                    prop::collection::vec(-2.0f64..=2.0, n).prop_map(|e| D(e.into_iter().map(|e| 10f64.powf(e)).collect())),
                    0.0f64..10.0,
                    2usize..5,
                    prop::bool::weighted(0.15),
                    any::<bool>(),
                    prop_oneof![
                        2 => Just(vec![(0, 0); 3]),
                        1 => prop::collection::vec((-300i32..=300, -300i32..=300), 3),
                        1 => prop::collection::vec((-60i32..=60, -60i32..=60), 3),
                    ],
                )
                    .prop_map(move |(a, rs, s, y0, w, tolfac, maxit, at_root, full, gs)| Affine { n, a, rs, s, y0, w, tolfac, maxit, at_root, full, gs })
            })
            .boxed()
    };
    cx.prop("affine systems", 1200000, 12000000, strat, |c: &Affine| {
        let n = c.n;
        let a: Vec<f64> = (0..n * n).map(|k| c.a.0[k] * 2f64.powi(c.rs[k % n])).collect();
        let mut nw = new_newton(n, false, c.maxit);
        let target = std::cell::RefCell::new(vec![0.0; n]);
        let mut p = Real::new(n, c.full, |y, f| affine_f(n, &a, &target.borrow(), y, f), |_, j| j.copy_from_slice(&a));
        let mut off = false;
        for k in 0..3 {
            let (gs, gy) = c.gs.get(k).copied().unwrap_or((0, 0));
            let s: Vec<f64> = c.s[k].0.iter().map(|v| ldexp(*v, gs)).collect();
            *target.borrow_mut() = s.clone();
            let y0 = if c.at_root { s.clone() } else { c.y0[k].0.iter().map(|v| ldexp(*v, gy)).collect() };
            let size = s.iter().chain(&y0).fold(0.0f64, |m, v| m.max(v.abs()));
            let e = 256.0 * n as f64 * f64::EPSILON * size;
            let wmax = c.w.0.iter().fold(0.0f64, |m, v| m.max(*v));
            let tol = (4.0 * e * wmax).max(1e-300) * 10f64.powf(c.tolfac);
            let before = nw.counts();
            let mut y = vec![[f64::NAN, 0.0, 1e9][k]; n];
            let r = nw.solve(&mut p, &y0, &mut y, &c.w.0, tol, k == 0, None)?;
            if let Err(e) = r {
                return Err(format!("solve {} fails: {:?}", k, e));
            }
            let used = nw.counts().0 - before.0;
            if used > 2 || (c.at_root && used != 1) {
                return Err(format!("solve {} takes {} iterations", k, used));
            }
            for i in 0..n {
                if !((y[i] - s[i]).abs() <= e) || (c.at_root && y[i] != s[i]) {
                    return Err(format!("solve {}: component {} ends at {:e} instead of {:e} (allowance {:e})", k, i, y[i], s[i], e));
                }
            }
            off |= y0 != s;
        }
        if !c.full && p.setups != 1 {
            return Err(format!("{} setups, only the first solve asked for one", p.setups));
        }
        Ok(Info::new(n > 1 && off).c(c.at_root, "starts at the solution").c(!c.full, "Jacobian kept over solves").c(c.maxit == 2, "two iterations allowed").c(c.gs.iter().any(|g| (g.0 - g.1).abs() > 40), "start and solution of very different size"))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Singular {
    j: Exact,
    good: D,
    y0: D,
    rhs: D,
    when: u8,
    m: usize,
}
pub fn c29(cx: &mut Ctx) {
    cx.rule("the factorisation fails during the solve");
    let strat = |max: usize| {
        exact_case(max)
            .prop_filter("size", move |e| e.n <= max && e.n != 50)
            .prop_flat_map(|mut j| {
                let n = j.n;
                j.single = false;
                j.scale = j.scale.clamp(-100, 100);
                (Just(j), well_conditioned(n).prop_map(D), prop::collection::vec(unit(), n).prop_map(D), prop::collection::vec(unit(), n).prop_map(D), 0u8..4, 1usize..5, 0..n)
                    .prop_map(|(mut j, good, y0, mut rhs, when, m, k)| {
                        j.sing.get_or_insert(k);
                        rhs.0[0] += 3.0;
                        Singular { j, good, y0, rhs, when, m }
                    })
            })
            .boxed()
    };
    let test = |c: &Singular| -> Res {
        let n = c.j.n;
        let col = c.j.sing.unwrap() + 1;
        let bad = c.j.build();
        let which = std::cell::Cell::new(0u8);
        // constant residual: the iteration cannot converge, so a stale Jacobian leads to the retry
        let stuck = std::cell::Cell::new(true);
        let sol: Vec<f64> = c.rhs.0.clone();
        let mut nw = new_newton(n, false, c.m);
        let mut p = Real::new(
            n,
            c.when == 3,
            |y, f| {
                if stuck.get() {
                    f.copy_from_slice(&sol)
                } else {
                    affine_f(n, &c.good.0, &sol, y, f)
                }
            },
            |_, j| j.copy_from_slice(if which.get() == 0 { &c.good.0 } else { &bad }),
        );
        let w = vec![1.0; n];
        let mut y = vec![0.0; n];
        let mut fails = 0;
        if c.when == 2 {
            // a successful solve first: its Jacobian is old afterwards
            stuck.set(false);
            nw.solve(&mut p, &c.y0.0, &mut y, &w, 1e3, true, None)?.map_err(|e| format!("regular solve: {:?}", e))?;
            stuck.set(true);
        }
        let first = c.when == 0 || c.when == 3;
        if !first {
            // factors from outside (or from the solve before); setup only at the retry
            p.factor(&c.y0.0).map_err(|e| e.to_string())?;
        }
        which.set(1);
        let before = p.setups;
        let r = nw.solve(&mut p, &c.y0.0, &mut y, &w, 1e-3, first, None)?;
        fails += if first { 1 } else { 2 };
        let e = match r {
            Ok(()) => return Err("success with a singular Jacobian".into()),
            Err(e) => e,
        };
        if code_of(&e) != Code::Lin(col) {
            return Err(format!("expected the linear-setup error for column {}, got {:?}", col, e));
        }
        if p.setups - before > 1 {
            return Err(format!("setup called {} times although it failed", p.setups - before));
        }
        let src = std::error::Error::source(&e).ok_or("the error has no source")?;
        match src.downcast_ref::<linear::Error>() {
            Some(l) if col_of(l) == col => {}
            other => return Err(format!("source is {:?}, expected the factorisation error for column {}", other, col)),
        }
        if e.to_string().trim().is_empty() {
            return Err("empty message".into());
        }
        let msg = src.to_string();
        if !msg.split(|ch: char| !ch.is_ascii_digit()).any(|s| s == col.to_string()) {
            return Err(format!("cause {:?} does not name column {}", msg, col));
        }
        if nw.counts().2 != fails {
            return Err(format!("{} convergence failures counted, expected {}", nw.counts().2, fails));
        }
        // the solver object is as good as new
        which.set(0);
        stuck.set(false);
        let it0 = nw.counts().0;
        let mut y1 = vec![0.0; n];
        let r1 = nw.solve(&mut p, &c.y0.0, &mut y1, &w, 1e3, true, None)?;
        let mut nw2 = new_newton(n, false, c.m);
        let mut y2 = vec![0.0; n];
        let r2 = nw2.solve(&mut p, &c.y0.0, &mut y2, &w, 1e3, true, None)?;
        if r1.is_err() || r2.is_err() || !same_v(&y1, &y2) || nw.counts().0 - it0 != nw2.counts().0 {
            return Err(format!("after the failure a regular solve gives {:?} {:?}, a new solver {:?} {:?}", r1, y1, r2, y2));
        }
        Ok(Info::new(true).c(first, "at the first iterate").c(c.when == 1, "at the retry").c(c.when == 2, "at the retry, after a successful solve").c(c.when == 3, "full Newton").c(col > 1 && col < n, "column in the middle"))
    };
    cx.prop("singular Jacobians", 1200000, 12000000, || strat(6), test);
    cx.prop("large singular Jacobians", 8000, 150000, || strat(63), test);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Covar {
    s: System,
    kf: i32,
    ku: Vec<i32>,
    pe: Vec<usize>,
    pu: Vec<usize>,
    maxit: usize,
    far: i32,
}
pub fn c31(cx: &mut Ctx) {
    cx.rule("nonlinear system, more than one unknown, start off the root");
    cx.assume("exact covariance is demanded while all numbers stay between 2^-300 and 2^300; reordering is compared for contracting starts, within 1000 times the rounding floor");
    let strat = || {
        (system(8, 8), -100i32..=100, 1usize..9, 0i32..5)
            .prop_flat_map(|(s, kf, maxit, far)| {
                let n = s.n;
                (Just(s), Just(kf), prop::collection::vec(-60i32..=60, n), perm(n), perm(n), Just(maxit), Just(far))
                    .prop_map(|(s, kf, ku, pe, pu, maxit, far)| Covar { s, kf, ku, pe, pu, maxit, far })
            })
            .boxed()
    };
    cx.prop("change of scale", 800000, 9000000, strat, |c: &Covar| {
        let s = &c.s;
        let n = s.n;
        // starts up to 16 times outside the contraction region: failing runs are compared too
        let mut y0 = s.start(0);
        for i in 0..n {
            y0[i] = s.r[i] + (y0[i] - s.r[i]) * 2f64.powi(c.far);
        }
        let run = |kf: i32, ku: &[i32]| -> Result<(Result<(), Code>, Counts, Vec<Vec<f64>>, Vec<f64>, Vec<f64>), String> {
            let down = |y: &[f64]| -> Vec<f64> { (0..n).map(|i| ldexp(y[i], -ku[i])).collect() };
            let mut p = Real::new(
                n,
                s.full,
                |y, f| {
                    s.f(&down(y), f);
                    f.iter_mut().for_each(|v| *v = ldexp(*v, kf));
                },
                |y, j| {
                    s.jac(&down(y), j);
                    for q in 0..n * n {
                        j[q] = ldexp(j[q], kf - ku[q / n]);
                    }
                },
            );
            let ys: Vec<f64> = (0..n).map(|i| ldexp(y0[i], ku[i])).collect();
            let w: Vec<f64> = (0..n).map(|i| ldexp(s.w[i], -ku[i])).collect();
            let mut y = vec![0.0; n];
            let mut nw = new_newton(n, false, c.maxit);
            let r = nw.solve(&mut p, &ys, &mut y, &w, s.tol(), true, None)?.map_err(|e| code_of(&e));
            // a second solve with the old Jacobian, from another start
            let y1: Vec<f64> = s.start(1).iter().zip(ku).map(|(v, k)| ldexp(*v, *k)).collect();
            let mut yb = vec![0.0; n];
            let r2 = nw.solve(&mut p, &y1, &mut yb, &w, s.tol(), false, None)?.map_err(|e| code_of(&e));
            let it = p.iterates.iter().map(|y| down(y)).collect();
            let norms = p.norms.clone();
            if r.is_ok() != r2.is_ok() {
                return Ok((r.and(r2), nw.counts(), it, norms, y));
            }
            Ok((r, nw.counts(), it, norms, y))
        };
        let a = run(0, &vec![0; n])?;
        let tame = a.2.iter().flatten().chain(&a.3).all(|v| *v == 0.0 || (v.abs() > 1e-60 && v.abs() < 1e60));
        if !tame {
            return Ok(Info::new(false).c(true, "not judged (range)"));
        }
        let b = run(c.kf, &c.ku)?;
        if a.0 != b.0 || a.1 != b.1 {
            return Err(format!("outcome {:?} with counters {:?} becomes {:?} with {:?}", a.0, a.1, b.0, b.1));
        }
        if a.2.len() != b.2.len() {
            return Err("number of iterates changes".into());
        }
        for (k, (x, y)) in a.2.iter().zip(&b.2).enumerate() {
            if !same_v(x, y) {
                return Err(format!("iterate {} is {:?}, after the change of scale (converted back) {:?}", k, x, y));
            }
        }
        if !same_v(&a.3, &b.3) {
            return Err(format!("correction norms {:?} become {:?}", a.3, b.3));
        }
        Ok(Info::new(n > 1 && s.c != 0.0).c(a.0.is_ok(), "converging").c(a.0.is_err(), "failing").c(s.full, "full Newton"))
    });
    cx.prop("reordering", 400000, 4500000, strat, |c: &Covar| {
        let s = &c.s;
        let n = s.n;
        if s.tol() < 100.0 * s.floor() {
            return Ok(Info::new(false).c(true, "not judged (tolerance near rounding)"));
        }
        let run = |pe: &[usize], pu: &[usize]| -> Result<(Result<(), Code>, Counts, Vec<f64>, Vec<f64>), String> {
            // new unknown k is old unknown pu[k]; new equation k is old equation pe[k]
            let back = |y: &[f64]| -> Vec<f64> {
                let mut o = vec![0.0; n];
                for k in 0..n {
                    o[pu[k]] = y[k];
                }
                o
            };
            let mut p = Real::new(
                n,
                s.full,
                |y, f| {
                    let mut t = vec![0.0; n];
                    s.f(&back(y), &mut t);
                    for k in 0..n {
                        f[k] = t[pe[k]];
                    }
                },
                |y, j| {
                    let mut t = vec![0.0; n * n];
                    s.jac(&back(y), &mut t);
                    for q in 0..n {
                        for k in 0..n {
                            j[q * n + k] = t[pu[q] * n + pe[k]];
                        }
                    }
                },
            );
            let st = s.start(0);
            let ys: Vec<f64> = pu.iter().map(|i| st[*i]).collect();
            let w: Vec<f64> = pu.iter().map(|i| s.w[*i]).collect();
            let mut y = vec![0.0; n];
            let mut nw = new_newton(n, false, 60);
            let r = nw.solve(&mut p, &ys, &mut y, &w, s.tol(), true, None)?.map_err(|e| code_of(&e));
            Ok((r, nw.counts(), back(&y), p.norms.clone()))
        };
        let id: Vec<usize> = (0..n).collect();
        let a = run(&id, &id)?;
        let b = run(&c.pe, &c.pu)?;
        if a.3.iter().any(|d| (d - s.tol()).abs() < 1e-3 * s.tol() + 1000.0 * s.floor()) {
            return Ok(Info::new(false).c(true, "not judged (correction at the tolerance)"));
        }
        if a.0 != b.0 || a.1 != b.1 {
            return Err(format!("outcome {:?} {:?} becomes {:?} {:?}", a.0, a.1, b.0, b.1));
        }
        if a.0.is_ok() {
            for i in 0..n {
                let d = ((a.2[i] - b.2[i]) * s.w[i]).abs();
                if !(d <= 1000.0 * s.floor()) {
                    return Err(format!("unknown {} changes from {:e} to {:e}", i, a.2[i], b.2[i]));
                }
            }
        }
        Ok(Info::new(n > 1 && s.c != 0.0).c(c.pe != id, "equations reordered").c(c.pu != id, "unknowns reordered"))
    });
}

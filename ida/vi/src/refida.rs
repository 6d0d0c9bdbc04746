//! The step algorithm of IDA written down independently: variable-order (1..5), variable-coefficient BDF
//! in fixed-leading-coefficient form (Brenan, Campbell & Petzold, ch. 5; IDA user guide, ch. 2), modified
//! Newton with a dense LU, and IDA's control constants. Works on plain vectors.
use crate::prob::{Faults, Spec};

/// an initial value problem with its tolerances
pub trait Sys {
    fn n(&self) -> usize;
    fn y0(&self) -> Vec<f64>;
    fn yp0(&self) -> Vec<f64>;
    /// call: which call it is, from 1
    fn res(&self, call: usize, t: f64, y: &[f64], yp: &[f64], out: &mut [f64]);
    fn jac(&self, t: f64, cj: f64, y: &[f64], out: &mut [f64]);
    fn rtol(&self) -> f64;
    fn atol(&self, i: usize) -> f64;
}
impl Sys for Spec {
    fn n(&self) -> usize {
        self.n
    }
    fn y0(&self) -> Vec<f64> {
        self.exact(0.0)
    }
    fn yp0(&self) -> Vec<f64> {
        self.exact_d(0.0)
    }
    fn res(&self, call: usize, t: f64, y: &[f64], yp: &[f64], out: &mut [f64]) {
        Spec::res(self, call, t, y, yp, out)
    }
    fn jac(&self, t: f64, cj: f64, y: &[f64], out: &mut [f64]) {
        Spec::jac(self, t, cj, y, out)
    }
    fn rtol(&self) -> f64 {
        self.rtol
    }
    fn atol(&self, i: usize) -> f64 {
        self.atol[i]
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub tn: f64,
    pub h: f64,
    pub k: usize,
    pub y: Vec<f64>,
    pub nre: usize,
    pub nje: usize,
    pub netf: usize,
    pub ncfn: usize,
    pub hnext: f64,
    pub knext: usize,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    TooManyErrFails,
    TooManyConvFails,
    Other,
}

#[derive(Clone)]
pub struct Opts {
    pub maxord: usize,
    pub hmax_inv: f64,
    pub hin: f64,
    pub faults: Faults,
    /// limits of convergence and error test failures per step
    pub maxncf: usize,
    pub maxnef: usize,
    /// of the Newton iteration
    pub epcon: f64,
    /// the components that count in error tests (none: all)
    pub id: Option<Vec<bool>>,
    /// seed of additional rounding errors (0: none), to see what they lead to
    pub jitter: u64,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { maxord: 5, hmax_inv: 0.0, hin: 0.0, faults: Faults::default(), maxncf: 10, maxnef: 10, epcon: 0.33, id: None, jitter: 0 }
    }
}

pub struct RefIda<'a> {
    sp: &'a dyn Sys,
    o: Opts,
    phi: Vec<Vec<f64>>,
    psi: [f64; 7],
    alpha: [f64; 7],
    beta: [f64; 7],
    sigma: [f64; 7],
    gamma: [f64; 7],
    ee: Vec<f64>,
    ewt: Vec<f64>,
    pub tn: f64,
    pub hh: f64,
    hused: f64,
    pub kk: usize,
    kused: usize,
    knew: usize,
    phase: u8,
    ns: usize,
    cj: f64,
    cjlast: f64,
    cjold: f64,
    cjratio: f64,
    ss: f64,
    oldnrm: f64,
    toldel: f64,
    eps_newt: f64,
    nst: usize,
    nre: usize,
    nje: usize,
    netf: usize,
    ncfn: usize,
    lu: Vec<f64>,
    jac: Vec<f64>,
    /// the same for cj = 0
    jac0: Vec<f64>,
    /// uncertainty of ss, of the norm of a correction
    ss_u: f64,
    nz: f64,
    piv: Vec<usize>,
    /// the smallest relative distance of a compared pair so far: how nearly another decision was taken
    pub margin: f64,
    rr: f64,
}

enum Bad {
    Conv,
    ErrTest(f64, f64),
}

impl<'a> RefIda<'a> {
    pub fn new(sp: &'a dyn Sys, o: Opts) -> Self {
        let n = sp.n();
        let eps_newt = o.epcon;
        let mut phi = vec![vec![0.0; n]; 7];
        phi[0] = sp.y0();
        phi[1] = sp.yp0();
        let z = [0.0; 7];
        RefIda {
            sp,
            o,
            phi,
            psi: z,
            alpha: z,
            beta: z,
            sigma: z,
            gamma: z,
            ee: vec![0.0; n],
            ewt: vec![0.0; n],
            tn: 0.0,
            hh: 0.0,
            hused: 0.0,
            kk: 1,
            kused: 0,
            knew: 1,
            phase: 0,
            ns: 0,
            cj: 0.0,
            cjlast: 0.0,
            cjold: 0.0,
            cjratio: 1.0,
            ss: 0.0,
            oldnrm: 0.0,
            toldel: 0.0,
            eps_newt,
            nst: 0,
            nre: 0,
            nje: 0,
            netf: 0,
            ncfn: 0,
            lu: vec![0.0; n * n],
            jac: vec![0.0; n * n],
            jac0: vec![0.0; n * n],
            ss_u: 0.0,
            nz: 0.0,
            piv: vec![0; n],
            margin: f64::INFINITY,
            rr: 0.0,
        }
    }
    fn le(&mut self, a: f64, b: f64) -> bool {
        self.le_u(a, b, 0.0)
    }
    /// `u`: how uncertain a and b are by rounding
    fn le_u(&mut self, a: f64, b: f64, u: f64) -> bool {
        let s = a.abs().max(b.abs());
        if s > 0.0 && s.is_finite() {
            self.margin = self.margin.min((((a - b).abs() - u) / s).max(0.0));
        }
        a <= b
    }
    /// how far rounding errors of the residual can change a correction, in the norm
    fn noise(&self, y: &[f64], yp: &[f64]) -> f64 {
        let n = self.sp.n();
        let mut w: f64 = 0.0;
        for alt in [1.0, -1.0] {
            let mut d: Vec<f64> = (0..n)
                .map(|i| {
                    let w = |j: usize| {
                        let k = i * n + j;
                        // y' with all the terms it is a sum of
                        let t = (1..=self.kk).fold(yp[j].abs(), |a, l| a + (self.gamma[l] * self.phi[l][j]).abs());
                        self.jac0[k].abs() * y[j].abs() + ((self.jac[k] - self.jac0[k]) / self.cjold).abs() * t
                    };
                    (0..n).map(w).sum::<f64>() * 8.0 * f64::EPSILON
                })
                .collect();
            for i in (1..n).step_by(2) {
                d[i] *= alt;
            }
            self.lsolve(&mut d);
            w = w.max(self.norm(&d));
        }
        8.0 * w + 8.0 * f64::EPSILON * self.norm(y)
    }
    fn lt(&mut self, a: f64, b: f64) -> bool {
        !self.le(b, a)
    }
    fn norm(&self, x: &[f64]) -> f64 {
        let s: f64 = x.iter().zip(&self.ewt).map(|(a, w)| (a * w) * (a * w)).sum();
        (s / x.len() as f64).sqrt()
    }
    /// the norm of error tests
    fn enorm(&self, x: &[f64]) -> f64 {
        match &self.o.id {
            None => self.norm(x),
            Some(id) => self.norm(&x.iter().zip(id).map(|(x, d)| if *d { *x } else { 0.0 }).collect::<Vec<_>>()),
        }
    }
    fn set_ewt(&mut self) {
        for i in 0..self.sp.n() {
            self.ewt[i] = 1.0 / (self.sp.rtol() * self.phi[0][i].abs() + self.sp.atol(i));
        }
    }
    /// choose the first step for a first output time
    pub fn start(&mut self, tout: f64) {
        self.phi[0] = self.sp.y0();
        self.phi[1] = self.sp.yp0();
        self.set_ewt();
        let tdist = tout.abs();
        self.hh = self.o.hin;
        if self.hh == 0.0 {
            self.hh = 0.001 * tdist;
            let yp = self.enorm(&self.phi[1].clone());
            // IDA's first step is at most 1/2 long in the norm of y'
            // (this port: only where it would be over 2; in between nothing is judged)
            if !self.le(yp, 2.0 / self.hh) {
                self.hh = 0.5 / yp;
            } else if yp * self.hh > 0.5 {
                self.margin = 0.0;
            }
            if tout < 0.0 {
                self.hh = -self.hh;
            }
        }
        let rh = self.hh.abs() * self.o.hmax_inv;
        if rh > 1.0 {
            self.hh /= rh;
        }
        for i in 0..self.phi[1].len() {
            let (f, g) = (self.jit(), self.jit());
            self.phi[0][i] *= f;
            self.phi[1][i] *= self.hh * g;
        }
        self.toldel = 0.0001 * self.eps_newt;
    }

    fn factor(&mut self) -> bool {
        let n = self.sp.n();
        let a = &mut self.lu;
        for k in 0..n {
            let mut l = k;
            for i in k + 1..n {
                if a[i * n + k].abs() > a[l * n + k].abs() {
                    l = i;
                }
            }
            self.piv[k] = l;
            if a[l * n + k] == 0.0 {
                return false;
            }
            if l != k {
                for j in 0..n {
                    a.swap(l * n + j, k * n + j);
                }
            }
            let m = 1.0 / a[k * n + k];
            for i in k + 1..n {
                a[i * n + k] *= m;
            }
            for j in k + 1..n {
                let akj = a[k * n + j];
                for i in k + 1..n {
                    a[i * n + j] -= akj * a[i * n + k];
                }
            }
        }
        true
    }
    fn lsolve(&self, b: &mut [f64]) {
        let n = self.sp.n();
        let a = &self.lu;
        for k in 0..n {
            b.swap(k, self.piv[k]);
        }
        for k in 0..n {
            for i in k + 1..n {
                b[i] -= a[i * n + k] * b[k];
            }
        }
        for k in (0..n).rev() {
            b[k] /= a[k * n + k];
            for i in 0..k {
                b[i] -= a[i * n + k] * b[k];
            }
        }
    }

    fn newton(&mut self, yp0: &[f64], yypred: &[f64]) -> Result<(), Bad> {
        let n = self.sp.n();
        let mut call = false;
        if self.nst == 0 {
            self.cjold = self.cj;
            self.ss = 20.0;
            call = true;
        }
        self.cjratio = self.cj / self.cjold;
        let lo = 0.75 / 1.25;
        let (r, hi) = (self.cjratio, 1.0 / lo);
        if self.lt(r, lo) || self.lt(hi, r) {
            call = true;
        }
        if self.cj != self.cjlast {
            self.ss = 100.0;
            self.ss_u = 0.0;
        }
        let mut jcur = false;
        loop {
            // residual at the prediction
            let mut cor = vec![0.0; n];
            let at = |s: &Self, cor: &[f64]| {
                let y: Vec<f64> = (0..n).map(|i| yypred[i] + cor[i]).collect();
                let yp: Vec<f64> = (0..n).map(|i| yp0[i] + s.cj * cor[i]).collect();
                (y, yp)
            };
            let mut del = vec![0.0; n];
            let (y, yp) = at(self, &cor);
            self.sp.res(self.nre + 1, self.tn, &y, &yp, &mut del);
            self.nre += 1;
            if call {
                let mut j = vec![0.0; n * n];
                self.sp.jac(self.tn, self.cj, &y, &mut j);
                self.nje += 1;
                if let Some(f) = self.o.faults.jac_scale {
                    j.iter_mut().for_each(|x| *x *= f);
                }
                if let Some((a, c)) = self.o.faults.sing {
                    if self.nje >= a && self.nje < a + c {
                        j.iter_mut().for_each(|x| *x = 0.0);
                    }
                }
                self.lu = j.clone();
                self.jac = j;
                let mut j0 = vec![0.0; n * n];
                self.sp.jac(self.tn, 0.0, &y, &mut j0);
                let f = self.o.faults.jac_scale.unwrap_or(1.0);
                self.jac0 = j0.iter().map(|x| x * f).collect();
                self.cjold = self.cj;
                self.cjratio = 1.0;
                self.ss = 20.0;
                self.ss_u = 0.0;
                if !self.factor() {
                    return Err(Bad::Conv);
                }
                jcur = true;
            }
            self.nz = self.noise(&y, &yp);
            let nz = self.nz;
            let mut m = 0;
            let failed = loop {
                for x in del.iter_mut() {
                    *x = -*x;
                }
                self.lsolve(&mut del);
                if self.cjratio != 1.0 {
                    let f = 2.0 / (1.0 + self.cjratio);
                    for x in del.iter_mut() {
                        *x *= f;
                    }
                }
                for i in 0..n {
                    cor[i] += del[i];
                }
                self.ee = cor.clone();
                let dn = self.norm(&del);
                if m == 0 {
                    self.oldnrm = dn;
                    // (of no consequence where the other test is passed as well)
                    let sure = self.ss * dn + dn * self.ss_u + nz * self.ss < 0.9999 * self.eps_newt;
                    if !sure && self.le_u(dn, 0.0001 * self.toldel, nz) {
                        return Ok(());
                    }
                } else {
                    let rate = (dn / self.oldnrm).powf(1.0 / m as f64);
                    let hi = ((dn + nz) / (self.oldnrm - nz).max(0.0)).powf(1.0 / m as f64);
                    let lo = ((dn - nz).max(0.0) / (self.oldnrm + nz)).powf(1.0 / m as f64);
                    let ru = (hi - rate).max(rate - lo);
                    if !self.le_u(rate, 0.9, ru) {
                        break true;
                    }
                    self.ss = rate / (1.0 - rate);
                    self.ss_u = if hi < 1.0 { hi / (1.0 - hi) - lo / (1.0 - lo) } else { f64::INFINITY };
                }
                let (a, b) = (self.ss * dn, self.eps_newt);
                let u = dn * self.ss_u + nz * self.ss;
                if self.le_u(a, b, u) {
                    return Ok(());
                }
                m += 1;
                if m >= 4 {
                    break true;
                }
                let (y, yp) = at(self, &cor);
                self.sp.res(self.nre + 1, self.tn, &y, &yp, &mut del);
                self.nre += 1;
            };
            if failed && !jcur {
                call = true;
                continue;
            }
            return Err(Bad::Conv);
        }
    }

    /// (residuals, Jacobians, failed error tests, failed convergences, next order), next step, y
    pub fn now(&self) -> ((usize, usize, usize, usize, usize), f64, &[f64]) {
        ((self.nre, self.nje, self.netf, self.ncfn, self.kk), self.hh, &self.phi[0])
    }
    /// one internal step
    pub fn step(&mut self) -> Result<Step, Fail> {
        let n = self.sp.n();
        if self.nst > 0 {
            self.set_ewt();
        }
        let saved = self.tn;
        let psi = self.psi;
        if self.nst == 0 {
            self.kk = 1;
            self.kused = 0;
            self.hused = 0.0;
            self.psi[0] = self.hh;
            self.cj = 1.0 / self.hh;
            self.phase = 0;
            self.ns = 0;
        }
        let (mut ncf, mut nef) = (0, 0);
        let (err_k, err_km1) = loop {
            // coefficients
            if self.hh != self.hused || self.kk != self.kused {
                self.ns = 0;
            }
            self.ns = (self.ns + 1).min(self.kused + 2);
            let kk = self.kk;
            if kk + 1 >= self.ns {
                self.beta[0] = 1.0;
                self.alpha[0] = 1.0;
                self.gamma[0] = 0.0;
                self.sigma[0] = 1.0;
                let mut t1 = self.hh;
                for i in 1..=kk {
                    let t2 = self.psi[i - 1];
                    self.psi[i - 1] = t1;
                    self.beta[i] = self.beta[i - 1] * self.psi[i - 1] / t2;
                    t1 = t2 + self.hh;
                    self.alpha[i] = self.hh / t1;
                    self.sigma[i] = i as f64 * self.sigma[i - 1] * self.alpha[i];
                    self.gamma[i] = self.gamma[i - 1] + self.alpha[i - 1] / self.hh;
                }
                self.psi[kk] = t1;
            }
            let (mut alphas, mut alpha0) = (0.0, 0.0);
            for i in 0..kk {
                alphas -= 1.0 / (i as f64 + 1.0);
                alpha0 -= self.alpha[i];
            }
            self.cjlast = self.cj;
            self.cj = -alphas / self.hh;
            let ck = (self.alpha[kk] + alphas - alpha0).abs().max(self.alpha[kk]);
            for i in self.ns..=kk {
                let b = self.beta[i];
                self.phi[i].iter_mut().for_each(|x| *x *= b);
            }
            self.tn += self.hh;
            // prediction
            let mut yy = vec![0.0; n];
            for p in &self.phi[..=kk] {
                for i in 0..n {
                    yy[i] += p[i];
                }
            }
            let mut yp = vec![0.0; n];
            for j in 1..=kk {
                for i in 0..n {
                    yp[i] += self.gamma[j] * self.phi[j][i];
                }
            }
            let r = self.newton(&yp, &yy).and_then(|_| {
                // local error at orders k, k-1, k-2
                let enorm = self.enorm(&self.ee.clone());
                let err_k = self.sigma[kk] * enorm;
                let terr_k = (kk as f64 + 1.0) * err_k;
                let mut err_km1 = 0.0;
                self.knew = kk;
                if kk > 1 {
                    let mut d: Vec<f64> = (0..n).map(|i| self.phi[kk][i] + self.ee[i]).collect();
                    err_km1 = self.sigma[kk - 1] * self.enorm(&d);
                    let terr_km1 = kk as f64 * err_km1;
                    if kk > 2 {
                        for i in 0..n {
                            d[i] += self.phi[kk - 1][i];
                        }
                        let terr_km2 = (kk as f64 - 1.0) * self.sigma[kk - 2] * self.enorm(&d);
                        if self.le_u(terr_km1.max(terr_km2), terr_k, 6.0 * self.nz * self.sigma[..=kk].iter().cloned().fold(0.0, f64::max)) {
                            self.knew = kk - 1;
                        }
                    } else if self.le_u(terr_km1, 0.5 * terr_k, 6.0 * self.nz * self.sigma[..=kk].iter().cloned().fold(0.0, f64::max)) {
                        self.knew = kk - 1;
                    }
                }
                if self.le_u(ck * enorm, 1.0, ck * self.nz) {
                    Ok((err_k, err_km1))
                } else {
                    Err(Bad::ErrTest(err_k, err_km1))
                }
            });
            match r {
                Ok(x) => {
                    break x;
                }
                Err(b) => {
                    self.tn = saved;
                    for j in 1..=self.kk {
                        self.psi[j - 1] = self.psi[j] - self.hh;
                    }
                    for i in self.ns..=self.kk {
                        let b = 1.0 / self.beta[i];
                        self.phi[i].iter_mut().for_each(|x| *x *= b);
                    }
                    self.phase = 1;
                    let rr;
                    match b {
                        Bad::Conv => {
                            ncf += 1;
                            self.ncfn += 1;
                            rr = 0.25;
                            if ncf >= self.o.maxncf {
                                self.hh *= rr;
                                if self.nst > 0 {
                                    self.psi = psi;
                                }
                                return Err(Fail::TooManyConvFails);
                            }
                        }
                        Bad::ErrTest(ek, ekm1) => {
                            nef += 1;
                            self.netf += 1;
                            if nef == 1 {
                                let e = if self.kk == self.knew { ek } else { ekm1 };
                                self.kk = self.knew;
                                rr = (0.9 * (2.0 * e + 0.0001).powf(-1.0 / (self.kk as f64 + 1.0))).min(0.9).max(0.25);
                            } else if nef == 2 {
                                self.kk = self.knew;
                                rr = 0.25;
                            } else if nef < self.o.maxnef {
                                self.kk = 1;
                                rr = 0.25;
                            } else {
                                if self.nst > 0 {
                                    self.psi = psi;
                                }
                                return Err(Fail::TooManyErrFails);
                            }
                        }
                    }
                    self.rr = rr;
                    self.hh *= rr;
                    if self.nst == 0 {
                        self.psi[0] = self.hh;
                        self.phi[1].iter_mut().for_each(|x| *x *= rr);
                    }
                }
            }
        };
        // accept; choose order and size of the next step
        self.nst += 1;
        let kdiff = self.kk as isize - self.kused as isize;
        self.kused = self.kk;
        self.hused = self.hh;
        let kk = self.kk;
        if self.knew + 1 == kk || kk == self.o.maxord {
            self.phase = 1;
        }
        if self.phase == 0 {
            if self.nst > 1 {
                self.kk += 1;
                self.hh = self.limit(2.0 * self.hh);
            }
        } else {
            let mut err_new = err_k;
            if self.knew + 1 == kk {
                self.kk -= 1;
                err_new = err_km1;
            } else if kk == self.o.maxord || kk + 1 >= self.ns || kdiff == 1 {
            } else {
                let d: Vec<f64> = (0..n).map(|i| self.ee[i] - self.phi[kk + 1][i]).collect();
                let err_kp1 = self.enorm(&d) / (kk as f64 + 2.0);
                let terr_k = (kk as f64 + 1.0) * err_k;
                let terr_kp1 = (kk as f64 + 2.0) * err_kp1;
                let nz = self.nz * (6.0 * self.sigma[..=kk].iter().cloned().fold(0.0, f64::max) + 64.0);
                let raise = if kk == 1 {
                    !self.le_u(0.5 * terr_k, terr_kp1, nz)
                } else {
                    let terr_km1 = kk as f64 * err_km1;
                    if self.le_u(terr_km1, terr_k.min(terr_kp1), nz) {
                        self.kk -= 1;
                        err_new = err_km1;
                        false
                    } else {
                        !self.le_u(terr_k, terr_kp1, nz)
                    }
                };
                if raise {
                    self.kk += 1;
                    err_new = err_kp1;
                }
            }
            let rr = (2.0 * err_new + 0.0001).powf(-1.0 / (self.kk as f64 + 1.0));
            let ru = rr * self.nz * 64.0 / (err_new + 0.00005);
            if self.le_u(2.0, rr, ru) {
                self.hh = self.limit(2.0 * self.hh);
            } else if self.le_u(rr, 1.0, ru) {
                self.hh *= rr.min(0.9).max(0.5);
            }
        }
        if self.kused < self.o.maxord {
            self.phi[self.kused + 1] = self.ee.clone();
        }
        for i in 0..n {
            let mut s = self.ee[i];
            for j in (0..=self.kused).rev() {
                s += self.phi[j][i];
                self.phi[j][i] = s;
            }
        }
        if self.o.jitter != 0 {
            for j in 0..=self.kused {
                for i in 0..n {
                    let f = self.jit();
                    self.phi[j][i] *= f;
                }
            }
        }
        Ok(Step {
            tn: self.tn,
            h: self.hused,
            k: self.kused,
            y: self.phi[0].clone(),
            nre: self.nre,
            nje: self.nje,
            netf: self.netf,
            ncfn: self.ncfn,
            hnext: self.hh,
            knext: self.kk,
        })
    }
    /// 1 or a neighbour
    fn jit(&mut self) -> f64 {
        let x = &mut self.o.jitter;
        if *x == 0 {
            return 1.0;
        }
        *x ^= *x << 13;
        *x ^= *x >> 7;
        *x ^= *x << 17;
        1.0 + ((*x >> 33) % 5) as f64 * f64::EPSILON - 2.0 * f64::EPSILON
    }
    fn limit(&self, h: f64) -> f64 {
        let t = h.abs() * self.o.hmax_inv;
        if t > 1.0 {
            h / t
        } else {
            h
        }
    }
}

//! The checks of the integrator (properties C40 and up).
use crate::gen::*;
use crate::prob::*;
use crate::refida::*;
use crate::run::*;
use ida::{IdaSolveStatus, IdaTask};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// the error may be so many times the tolerance
pub const BOUND: f64 = 1000.0;

/// ||a - b|| in the norm of the tolerances
pub fn dist(sp: &Spec, a: &[f64], b: &[f64]) -> f64 {
    let s: f64 = (0..sp.n).map(|i| ((a[i] - b[i]) / (sp.rtol * b[i].abs() + sp.atol[i])).powi(2)).sum();
    (s / sp.n as f64).sqrt()
}
pub fn vy(s: &Solver) -> Vec<f64> {
    s.get_yy().iter().cloned().collect()
}
pub fn vyp(s: &Solver) -> Vec<f64> {
    s.get_yp().iter().cloned().collect()
}

/// `solve`, called again when it stopped after its 500 steps
pub fn go(s: &mut Solver, tout: f64, tret: &mut f64, task: IdaTask) -> Result<IdaSolveStatus, String> {
    for _ in 0..40 {
        match s.solve(tout, tret, task) {
            Err(e) => {
                let m = format!("{:?}", e);
                if !m.contains("mxstep") {
                    return Err(m);
                }
            }
            Ok(x) => return Ok(x),
        }
    }
    Err("20000 steps".into())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Basic {
    pub sp: Spec,
    pub touts: Vec<f64>,
}
pub fn basic(w: What, nt: usize) -> impl Strategy<Value = Basic> {
    (spec(w), times(nt)).prop_map(|(sp, t)| {
        let touts = t.iter().map(|t| t * sp.ts).collect();
        Basic { sp, touts }
    })
}

pub fn c40(cx: &mut Ctx) {
    cx.rule("a random contractive linear or mildly nonlinear system of index 0 or 1 whose solution is known in closed form (1..5 components, differential and algebraic, stiffness to 1e4, either direction of time, any scale), integrated in Normal mode through random output times; each call must return Success at exactly the output time with y within 1000 tolerances (in the weighted norm) of the exact solution; non-trivial: more than 10 internal steps");
    cx.assume("the bound: over 400,000 cases the largest error seen was 153 tolerances (BDF controls the local error only); y' is not judged against the exact derivative");
    cx.assume("ndarray, failure and the modules linear and nonlinear, which /repo/src names but does not contain, are stand-ins (DESIGN.md, section on the integrator)");
    cx.prop("accuracy", 20_000, 400_000, || basic(ALL, 6), |c: &Basic| {
        let p = Prob::new(&c.sp);
        let mut s = solver(&p);
        let mut worst: f64 = 0.0;
        for &t in &c.touts {
            let mut tret = f64::NAN;
            let r = go(&mut s, t, &mut tret, IdaTask::Normal)?;
            if r != IdaSolveStatus::Success || tret != t {
                return Err(format!("tout {:e}: {:?}, tret {:e}", t, r, tret));
            }
            let d = dist(&c.sp, &vy(&s), &c.sp.exact(t));
            if !(d <= BOUND) {
                return Err(format!("at {:e} the error is {:.1} times the tolerance: {:?}, exact {:?}", t, d, vy(&s), c.sp.exact(t)));
            }
            worst = worst.max(d);
        }
        Ok(Info::new(s.get_num_steps() > 10).c(c.sp.ts < 0.0, "backwards").c(c.sp.alg.iter().any(|x| *x), "algebraic components").c(worst > 1.0, "error beyond one tolerance").c(s.get_num_steps() > 300, "more than 300 steps"))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Steps {
    pub sp: Spec,
    pub t1: f64,
    pub steps: usize,
    pub maxord: usize,
    /// largest step, as a part of t1 (0: none)
    pub hmax: f64,
    /// first step, as a part of t1 (0: chosen by the integrator)
    pub hin: f64,
    pub faults: Faults,
    /// limits of convergence and error test failures per step
    #[serde(default)]
    pub fails: Option<(usize, usize)>,
    #[serde(default)]
    pub epcon: Option<f64>,
    /// algebraic components do not count in error tests
    #[serde(default)]
    pub suppress: bool,
}
/// faults that Newton's method survives
pub fn mild_faults() -> impl Strategy<Value = Faults> {
    prop_oneof![
        4 => Just(Faults::default()),
        1 => (1..=12usize, 1..=4usize).prop_map(|x| Faults { sing: Some(x), ..Faults::default() }),
        1 => g(36, 96, 48.0).prop_map(|x| Faults { jac_scale: Some(x), ..Faults::default() }),
    ]
}
pub fn faults() -> impl Strategy<Value = Faults> {
    prop_oneof![
        4 => Just(Faults::default()),
        1 => (1..=12usize, 1..=4usize).prop_map(|x| Faults { sing: Some(x), ..Faults::default() }),
        1 => g(24, 96, 48.0).prop_map(|x| Faults { jac_scale: Some(x), ..Faults::default() }),
    ]
}
pub fn c41(cx: &mut Ctx) {
    cx.rule("random systems (also such that Newton's method fails on, and with a component that jumps in the middle of the run), limits of order, step, first step, convergence failures and failed error tests, coefficients of the Newton test, algebraic components left out of error tests, singular Jacobians and Jacobians wrong by a factor, in OneStep mode against an independently written reference of IDA's step algorithm: order, step size, next order and step, solution and all counters after every step, success or failure of the call, what a failed call leaves behind and how calls after it carry on; non-trivial: at least 10 steps compared");
    cx.assume("a case ends where the reference comes within 3e-5 (plus its estimate of the rounding noise) of deciding otherwise, or where a second reference run with a few more rounding errors differs from the first by 1/100 of what is tolerated; a first step with 1/2 < |h| ||y'|| < 2 is not judged, where this port and SUNDIALS differ by design");
    let of = |sp: BoxedStrategy<Spec>, low: u32| {
        (
            sp,
            g(1, 320, 32.0),
            prop_oneof![20..=60usize, 20..=300usize],
            prop_oneof![low => Just(1usize), 3 => Just(5usize), 2 => 1..=5usize],
            prop_oneof![3 => Just(0.0), 1 => g(1, 32, 64.0)],
            prop_oneof![3 => Just(0.0), 1 => g(1, 64, 256.0)],
            faults(),
            (
                prop_oneof![4 => Just(None), 1 => (1..=10usize, 1..=10usize).prop_map(Some)],
                prop_oneof![4 => Just(None), 1 => g(1, 64, 64.0).prop_map(Some)],
                prop_oneof![4 => Just(false), 1 => Just(true)],
            ),
        )
            .prop_map(|(sp, t1, steps, maxord, hmax, hin, faults, (fails, epcon, suppress))| Steps { t1: t1 * sp.ts, sp, steps, maxord, hmax, hin, faults, fails, epcon, suppress })
    };
    cx.prop("steps", 100_000, 2_000_000, || of(prop_oneof![3 => spec(ALL).boxed(), 2 => spec(WILD).boxed(), 2 => jumping(ALL).boxed()].boxed(), 0), compare_steps);
    // rounding noise far below what decides: whole series of failures can be followed
    let w = What { nmax: 2, stiff: 0, tol: (2, 7), ..ALL };
    cx.prop("discontinuities", 40_000, 1_000_000, || of(jumping(w).boxed(), 8), compare_steps);
}
/// whether rounding errors have left the reference as it is (to 1/100 of the tolerances)
fn near(sp: &Spec, a: &Result<Step, Fail>, b: &Result<Step, Fail>) -> bool {
    let rel = |a: f64, b: f64| ((a - b) / b).abs() < 1e-7;
    match (a, b) {
        (Ok(a), Ok(b)) => (a.k, a.nre, a.nje, a.netf, a.ncfn, a.knext) == (b.k, b.nre, b.nje, b.netf, b.ncfn, b.knext) && rel(a.h, b.h) && rel(a.hnext, b.hnext) && rel(a.tn, b.tn) && dist(sp, &a.y, &b.y) < 1e-5,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

fn compare_steps(c: &Steps) -> Result<Info, String> {
    let p = Prob::faulty(&c.sp, &c.faults);
    let mut s = solver(&p);
    let mut o = Opts { maxord: c.maxord, faults: c.faults.clone(), ..Opts::default() };
    s.verif_set_max_order(c.maxord);
    if c.hmax != 0.0 {
        o.hmax_inv = 1.0 / (c.hmax * c.t1).abs();
        s.verif_set_hmax_inv(o.hmax_inv);
    }
    o.hin = c.hin * c.t1;
    s.verif_set_init_step(o.hin);
    if let Some((ncf, nef)) = c.fails {
        s.verif_set_max_fails(ncf as u64, nef as u64);
        (o.maxncf, o.maxnef) = (ncf, nef);
    }
    if let Some(e) = c.epcon {
        s.verif_set_epcon(e);
        o.epcon = e;
    }
    if c.suppress {
        let id: Vec<bool> = c.sp.alg.iter().map(|a| !a).collect();
        s.verif_suppress_alg(&id);
        o.id = Some(id);
    }
    // a second run with a few more rounding errors: what these lead to is not judged
    let mut r2 = RefIda::new(&c.sp, Opts { jitter: 0x9e3779b97f4a7c15 ^ c.sp.n as u64, ..o.clone() });
    let mut r = RefIda::new(&c.sp, o);
    r.start(c.t1);
    r2.start(c.t1);
    let mut t = 0.0;
    let mut worst: f64 = 0.0;
    let mut judged = 0;
    let (mut kmax, mut netf, mut ncfn, mut failed, mut after) = (0, 0, 0, 0, 0);
    let lim = 3e-5;
    for i in 0..c.steps {
        let e = s.solve(if s.get_num_steps() == 0 { c.t1 } else { c.t1 * 1e9 }, &mut t, IdaTask::OneStep);
        let st = r.step();
        let st2 = r2.step();
        if r.margin < lim || r2.margin < lim || !near(&c.sp, &st, &st2) {
            break;
        }
        match (&e, &st) {
            (Ok(_), Ok(st)) => {
                if t != s.get_current_time() {
                    return Err(format!("step {}: tret {:e}, current time {:e}", i, t, s.get_current_time()));
                }
                let got = (s.get_last_order(), s.get_num_res_evals(), s.get_num_jac_evals(), s.get_num_err_test_fails(), s.get_num_nonlin_solv_conv_fails(), s.get_current_order());
                let want = (st.k, st.nre, st.nje, st.netf, st.ncfn, st.knext);
                if got != want {
                    return Err(format!("step {}: (order, res, jac, err fails, conv fails, next order) {:?}, should be {:?}", i, got, want));
                }
                for (what, a, b) in [("h", s.get_last_step(), st.h), ("next h", s.get_current_setp(), st.hnext), ("t", t, st.tn)] {
                    let d = (a - b).abs() / b.abs();
                    worst = worst.max(d);
                    if !(d < 1e-5) {
                        return Err(format!("step {}: {} = {:e}, should be {:e}", i, what, a, b));
                    }
                }
                let y = vy(&s);
                let d = dist(&c.sp, &y, &st.y);
                if !(d < 1e-3) {
                    return Err(format!("step {}: y {:?}, should be {:?}", i, y, st.y));
                }
                worst = worst.max(d * 1e-2);
                judged += 1;
                after += (failed > 0) as usize;
                kmax = kmax.max(st.k);
                netf = st.netf;
                ncfn = st.ncfn;
            }
            (Err(_), Err(_)) => {
                let (want, h, y) = r.now();
                let got = (s.get_num_res_evals(), s.get_num_jac_evals(), s.get_num_err_test_fails(), s.get_num_nonlin_solv_conv_fails(), s.get_current_order());
                if got != want {
                    return Err(format!("failing step {}: (res, jac, err fails, conv fails, next order) {:?}, should be {:?}", i, got, want));
                }
                if !((s.get_current_setp() / h - 1.0).abs() < 1e-6) {
                    return Err(format!("failing step {}: next h = {:e}, should be {:e}", i, s.get_current_setp(), h));
                }
                if !((t - r.tn).abs() <= 1e-6 * r.tn.abs()) || !(dist(&c.sp, &vy(&s), y) < 1e-3) {
                    return Err(format!("failing step {}: returns to t {:e}, y {:?}, should be {:e}, {:?}", i, t, vy(&s), r.tn, y));
                }
                judged += 1;
                failed += 1;
                if failed == 3 {
                    break;
                }
                if s.get_num_steps() == 0 {
                    r.start(c.t1);
                    r2.start(c.t1);
                }
            }
            _ => return Err(format!("step {}: {:?}, should be {:?}", i, e.map_err(|e| format!("{:?}", e)), st)),
        }
    }
    Ok(Info::new(judged >= 10)
        .c(judged >= 50, "at least 50 steps compared")
        .c(kmax == 5, "order 5 reached")
        .c(netf > 0, "failed error tests")
        .c(ncfn > 0, "failed Newton iterations")
        .c(ncfn > 0 && c.faults.sing.is_some(), "singular Jacobians")
        .c(failed > 0, "a step given up")
        .c(c.suppress && c.sp.alg.contains(&true) && c.sp.alg.contains(&false), "algebraic components not tested")
        .c(after > 10, "more than 10 steps after an error")
        .c(netf > 0 && c.sp.jump.is_some(), "discontinuities"))
}

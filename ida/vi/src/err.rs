//! C47: what can go wrong ends in an error, and the solver stays usable.
use crate::checks::*;
use crate::gen::*;
use crate::obs::{rf, snap};
use crate::prob::*;
use crate::run::*;
use ida::{IdaSolveStatus, IdaTask};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Refuse {
    /// tout = t0
    Here,
    /// tout so many times the smallest positive number away
    Denormal(i32),
    /// the first step points the other way
    Away(f64),
    /// the stop time lies behind (or on) t0
    Behind(f64),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refused {
    pub sp: Spec,
    pub first: Vec<(Refuse, bool)>,
    pub touts: Vec<f64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    pub sp: Spec,
    pub t1: f64,
    pub nan: bool,
    /// from which evaluation on, and how many (0: for ever)
    pub from: usize,
    pub count: usize,
    pub onestep: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Limits {
    pub sp: Spec,
    /// shift the problem so that y_i(0) = 0
    pub zero: Vec<bool>,
    /// atol_i = 0
    pub noatol: Vec<bool>,
    /// rtol = 10^-rtol, or 0
    pub rtol: Option<i32>,
    pub t1: f64,
    pub steps: usize,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub sp: Spec,
    pub tout: f64,
    pub hmax: f64,
    /// single steps after the error
    pub then: usize,
    /// limit of steps a call
    #[serde(default = "five_hundred")]
    pub mx: u64,
    #[serde(default)]
    pub roots: Vec<Rf>,
}
fn five_hundred() -> u64 {
    500
}

fn state(s: &mut Solver, t: f64) -> Result<(Vec<u64>, Vec<u64>, Vec<u64>, u64), String> {
    let b = |v: &[f64]| v.iter().map(|x| x.to_bits()).collect::<Vec<_>>();
    let sn = snap(s)?;
    Ok((sn.reals.clone(), b(&vy(s)), b(&vyp(s)), t.to_bits()))
}

pub fn c47(cx: &mut Ctx) {
    cx.rule("refused: inputs solve has to refuse before the first step (tout = t0 or within roundoff, first step or stop time pointing the wrong way), after which a legal call must run bit for bit like on a fresh solver; broken: NaN residuals or singular Jacobians during a window of evaluations (solution still accurate or an error) or for ever (an error, y finite and the accurate solution at the time returned, again an error when called again); limits: tolerances below what is possible (an error, never NaN as a solution); long: exactly the limit of steps a call (500, 1..50, or none), then an error, and calling again continues bit for bit like OneStep, root functions or not; vanishing weight: the solution becomes exactly 0 with an absolute tolerance of 0 (an error at that step, and again); non-trivial: the error or the fault was reached");
    cx.assume("the setters of first step, largest step, limit of steps and stop time are hooks added to the copy of /repo/src");
    let strat = || {
        let r = prop_oneof![
            Just(Refuse::Here),
            (-3..=3i32).prop_map(Refuse::Denormal),
            g(1, 64, 64.0).prop_map(Refuse::Away),
            g(0, 64, 64.0).prop_map(Refuse::Behind),
        ];
        (spec(WILD), proptest::collection::vec((r, any::<bool>()), 1..4), times(4)).prop_map(|(sp, first, touts)| {
            let touts = touts.iter().map(|t| t * sp.ts).collect();
            Refused { sp, first, touts }
        })
    };
    cx.prop("refused", 10_000, 200_000, strat, |c: &Refused| {
        let (pa, pb) = (Prob::new(&c.sp), Prob::new(&c.sp));
        let (mut a, mut b) = (solver(&pa), solver(&pb));
        let (mut ta, mut tb) = (-77.0, -77.0);
        for (r, one) in &c.first {
            let mut tout = c.touts[0];
            match r {
                Refuse::Here => tout = 0.0,
                Refuse::Denormal(k) => tout = *k as f64 * 5e-324,
                Refuse::Away(h) => a.verif_set_init_step(-h * c.touts[0]),
                Refuse::Behind(x) => a.verif_set_tstop(Some(-x * c.touts[0])),
            }
            // a tout as small as that is no roundoff distance from 0: only 0 itself is too close
            if let Refuse::Denormal(k) = r {
                if *k != 0 {
                    continue;
                }
            }
            let e = a.solve(tout, &mut ta, if *one { IdaTask::OneStep } else { IdaTask::Normal });
            match e {
                Err(e) => {
                    let m = format!("{:?}", e);
                    if !m.contains("IllegalInput") && !m.contains("BadStopTime") {
                        return Err(format!("{:?}: {}", r, m));
                    }
                }
                Ok(x) => return Err(format!("{:?} is accepted: {:?} at {:e}", r, x, ta)),
            }
            if ta != -77.0 {
                return Err(format!("{:?}: refused, but tret was set to {:e}", r, ta));
            }
            if pa.log.borrow().nres + pa.log.borrow().njac != 0 {
                return Err(format!("{:?}: refused, but the problem was evaluated", r));
            }
            a.verif_set_init_step(0.0);
            a.verif_set_tstop(None);
        }
        for &t in &c.touts {
            let (ra, rb) = (a.solve(t, &mut ta, IdaTask::Normal), b.solve(t, &mut tb, IdaTask::Normal));
            let (ra, rb) = (ra.map_err(|e| format!("{:?}", e)), rb.map_err(|e| format!("{:?}", e)));
            if ra != rb {
                return Err(format!("solve({:e}) after a refusal: {:?}, on a fresh solver: {:?}", t, ra, rb));
            }
            let (sa, sb) = (state(&mut a, ta)?, state(&mut b, tb)?);
            if sa != sb {
                return Err(format!("solve({:e}) after a refusal: {:?} at {:e}, on a fresh solver: {:?} at {:e}", t, vy(&a), ta, vy(&b), tb));
            }
            if ra.is_err() {
                break;
            }
        }
        Ok(Info::new(true).c(c.first.len() > 1, "several refusals"))
    });

    let strat = || {
        (spec(ALL), g(1, 160, 32.0), any::<bool>(), prop_oneof![1..=6usize, 1..=80usize], prop_oneof![Just(0usize), 1..=6usize], any::<bool>())
            .prop_map(|(sp, t1, nan, from, count, onestep)| Broken { t1: t1 * sp.ts, sp, nan, from, count, onestep })
    };
    cx.prop("broken", 50_000, 1_000_000, strat, |c: &Broken| {
        let w = Some((c.from, if c.count == 0 { 1 << 40 } else { c.count }));
        let f = if c.nan { Faults { nan: w, ..Faults::default() } } else { Faults { sing: w, ..Faults::default() } };
        let p = Prob::faulty(&c.sp, &f);
        let mut s = solver(&p);
        let mut t = 0.0;
        let mut failed = 0;
        let mut i = 0;
        let mut last = 0.0;
        loop {
            i += 1;
            let r = if c.onestep { s.solve(c.t1, &mut t, IdaTask::OneStep) } else { s.solve(c.t1, &mut t, IdaTask::Normal) };
            let l = p.log.borrow();
            let calls = if c.nan { l.nres } else { l.njac };
            let hit = calls >= c.from;
            if l.nres > 40_000 {
                return Err(format!("{} residual evaluations without reaching {:e}", l.nres, c.t1));
            }
            let y = vy(&s);
            let d = dist(&c.sp, &y, &c.sp.exact(t));
            // set back to order 1, IDA can stay there: many steps, each with an error of one tolerance
            let bound = BOUND + 2.0 * s.get_num_steps() as f64;
            let show = |m: String| format!("call {}: {} (t {:e}, tn {:e}, y {:?}, exact {:?})", i, m, t, s.get_current_time(), y, c.sp.exact(t));
            match r {
                Ok(x) => {
                    if !(d <= bound) {
                        return Err(show(format!("{:?}, but the error is {:.1} times the tolerance", x, d)));
                    }
                    if c.count == 0 && hit {
                        return Err(show("a NaN residual was accepted".into()));
                    }
                    if !c.onestep && t != c.t1 {
                        return Err(show(format!("{:?}", x)));
                    }
                    if (t - c.t1) * c.sp.ts.signum() >= 0.0 || i > 700 {
                        return Ok(Info::new(hit && failed > 0 || hit && s.get_num_nonlin_solv_conv_fails() > 0).c(s.get_num_nonlin_solv_conv_fails() > 0, "recovered"));
                    }
                    last = t;
                }
                Err(e) if format!("{:?}", e).contains("mxstep") => {
                    if !(d <= bound) {
                        return Err(show(format!("the error is {:.1} times the tolerance", d)));
                    }
                }
                Err(e) => {
                    if !hit {
                        return Err(show(format!("{:?} without a fault", e)));
                    }
                    if t != s.get_current_time() || (t - last) * c.sp.ts.signum() < 0.0 {
                        return Err(show(format!("{:?}: tret is not the current time", e)));
                    }
                    // y is the last good solution
                    if !(d <= bound) {
                        return Err(show(format!("{:?}: y is not the solution at tret, {:.1} times the tolerance off", e, d)));
                    }
                    if !vyp(&s).iter().all(|x| x.is_finite()) {
                        return Err(show(format!("{:?}: y' = {:?}", e, vyp(&s))));
                    }
                    failed += 1;
                    last = t;
                    if failed == 3 || s.get_num_steps() == 0 {
                        return Ok(Info::new(true).c(c.count == 0, "for ever").c(s.get_num_steps() > 0, "failed later on").c(true, "failed"));
                    }
                }
            }
        }
    });

    let strat = || {
        (
            spec(ALL),
            proptest::collection::vec(any::<bool>(), 5),
            proptest::collection::vec(prop_oneof![3 => Just(true), 1 => Just(false)], 5),
            prop_oneof![1 => Just(None), 4 => (10..=20i32).prop_map(Some)],
            g(1, 160, 32.0),
            1..=30usize,
        )
            .prop_map(|(sp, zero, noatol, rtol, t1, steps)| Limits { t1: t1 * sp.ts, sp, zero, noatol, rtol, steps })
    };
    cx.prop("limits", 100_000, 2_000_000, strat, |c: &Limits| {
        let mut sp = c.sp.clone();
        for i in 0..sp.n {
            if c.zero[i] {
                sp.sol[i].c0 -= sp.sol[i].at(0.0);
            }
            if c.noatol[i] {
                sp.atol[i] = 0.0;
            } else {
                sp.atol[i] = sp.ys * 1e-9;
            }
        }
        sp.rtol = c.rtol.map_or(0.0, |r| 10f64.powi(-r));
        let p = Prob::new(&sp);
        let mut s = solver(&p);
        let mut t = 0.0;
        // the weights of the initial values
        let y0 = sp.exact(0.0);
        let tol: Vec<f64> = (0..sp.n).map(|i| sp.rtol * y0[i].abs() + sp.atol[i]).collect();
        let illegal = tol.iter().any(|x| *x <= 0.0);
        let nrm = ((0..sp.n).map(|i| (y0[i] / tol[i]).powi(2)).sum::<f64>() / sp.n as f64).sqrt() * f64::EPSILON;
        let mut seen = false;
        for i in 0..c.steps {
            let r = s.solve(c.t1 * if i == 0 { 1.0 } else { 1e9 }, &mut t, IdaTask::OneStep).map_err(|e| format!("{:?}", e));
            let (y, yp) = (vy(&s), vyp(&s));
            let show = |m: &str| format!("call {}: {} ({:?}, t {:e}, y {:?}, y' {:?}, tolerances {:?} at t0)", i, m, r, t, y, yp, tol);
            if !y.iter().chain(&yp).all(|x| x.is_finite()) {
                return Err(show("y or y' is not finite"));
            }
            if i == 0 && illegal && r.is_ok() {
                return Err(show("a zero tolerance for a zero component is accepted"));
            }
            if i == 0 && !illegal && nrm > 1.01 && !r.as_ref().map_or_else(|e| e.contains("TooMuchAccuracy"), |_| false) {
                return Err(show(&format!("too much accuracy is accepted, by a factor {:e}", nrm)));
            }
            if i == 0 && !illegal && nrm < 0.99 && r.as_ref().map_or_else(|e| e.contains("TooMuchAccuracy"), |_| false) {
                return Err(show(&format!("too much accuracy is reported, by a factor {:e}", nrm)));
            }
            if let Err(e) = &r {
                seen = true;
                if t != s.get_current_time() && i > 0 {
                    return Err(show("tret is not the current time"));
                }
                if e.contains("TooMuchAccuracy") && !(s.get_tol_scale_factor() >= 10.0) {
                    return Err(show(&format!("tolerance scale factor {:e}", s.get_tol_scale_factor())));
                }
                if e.contains("TooMuchAccuracy") && i == 0 && (s.get_tol_scale_factor() / (10.0 * nrm) - 1.0).abs() > 1e-9 {
                    return Err(show(&format!("tolerance scale factor {:e}, not 10 * {:e}", s.get_tol_scale_factor(), nrm)));
                }
                break;
            }
        }
        Ok(Info::new(seen).c(illegal, "zero weight").c(nrm > 1.0, "too much accuracy from the start").c(seen && nrm < 1.0, "error later on"))
    });

    let strat = || {
        (spec(ALL), g(1, 320, 32.0), g(1, 64, 65536.0), 0..=3usize, prop_oneof![2 => Just(500u64), 1 => Just(0), 3 => 1..=50u64]).prop_flat_map(|(sp, tout, hmax, then, mx)| {
            let (n, ts, ys) = (sp.n, sp.ts, sp.ys);
            (Just(sp), prop_oneof![2 => Just(vec![]).boxed(), 1 => proptest::collection::vec(rf(n, ts, ys), 1..4).boxed()])
                .prop_map(move |(sp, roots)| Long { tout: tout * sp.ts, sp, hmax: if mx == 500 { hmax } else { hmax * 16.0 }, then, mx, roots })
        })
    };
    cx.prop("long", 4_000, 80_000, strat, |c: &Long| {
        let (pa, pb) = (Prob::with(&c.sp, c.roots.clone()), Prob::new(&c.sp));
        let (mut a, mut b) = (solver(&pa), solver(&pb));
        a.verif_set_hmax_inv(1.0 / (c.hmax * c.tout.abs()));
        b.verif_set_hmax_inv(1.0 / (c.hmax * c.tout.abs()));
        if c.mx != 500 {
            a.verif_set_mxstep(c.mx);
        }
        let most = if c.mx == 0 { usize::MAX } else { c.mx as usize };
        let (mut ta, mut tb) = (0.0, 0.0);
        let (mut errs, mut roots, mut more) = (0, 0, false);
        for i in 0..if c.mx == 500 { 5 } else { 25 } {
            let n0 = a.get_num_steps();
            let r = a.solve(c.tout, &mut ta, IdaTask::Normal);
            let n = a.get_num_steps() - n0;
            more |= n > 500;
            while b.get_num_steps() < a.get_num_steps() {
                b.solve(c.tout, &mut tb, IdaTask::OneStep).map_err(|e| format!("OneStep: {:?}", e))?;
            }
            match r {
                Ok(IdaSolveStatus::Root) if !c.roots.is_empty() => {
                    if n > most {
                        return Err(format!("call {}: a root after {} steps", i, n));
                    }
                    roots += 1;
                }
                Ok(x) => {
                    if x != IdaSolveStatus::Success || ta != c.tout || n > most {
                        return Err(format!("call {}: {:?} at {:e} after {} steps", i, x, ta, n));
                    }
                    break;
                }
                Err(e) => {
                    let m = format!("{:?}", e);
                    if m.contains("CloseRoots") {
                        break;
                    }
                    if !m.contains("mxstep") {
                        return Err(format!("call {}: {}", i, m));
                    }
                    if n != most {
                        return Err(format!("call {}: gave up after {} steps", i, n));
                    }
                    errs += 1;
                    if ta != a.get_current_time() {
                        return Err(format!("call {}: tret {:e}, current time {:e}", i, ta, a.get_current_time()));
                    }
                    if !c.roots.is_empty() {
                        // (y and y' have been interpolated for the root functions)
                        let (ya, za) = (vy(&a), vyp(&a));
                        a.get_solution(ta).map_err(|e| format!("{:?}", e))?;
                        if ya != vy(&a) || za != vyp(&a) {
                            b.get_solution(ta).map_err(|e| format!("{:?}", e))?;
                            if !(dist(&c.sp, &ya, &vy(&b)) < 1e-3) {
                                return Err(format!("call {}: y {:?} at {:e}, the solution there is {:?}", i, ya, ta, vy(&b)));
                            }
                        }
                        b.get_solution(tb).map_err(|e| format!("{:?}", e))?;
                    }
                    let (sa, sb) = (state(&mut a, ta)?, state(&mut b, tb)?);
                    if sa != sb {
                        return Err(format!("call {}: after {} steps {:?} at {:e}; in single steps {:?} at {:e}", i, n, vy(&a), ta, vy(&b), tb));
                    }
                    // go on with single steps
                    for k in 0..c.then {
                        if (a.get_current_time() - c.tout) * c.sp.ts >= 0.0 || !c.roots.is_empty() {
                            break;
                        }
                        let n = a.get_num_steps();
                        let r = a.solve(c.tout, &mut ta, IdaTask::OneStep).map_err(|e| format!("call {}, single step {}: {:?}", i, k, e))?;
                        if a.get_num_steps() != n + 1 || ta != a.get_current_time() {
                            return Err(format!("call {}, single step {} after the error: {:?} at {:e} after {} steps, current time {:e}", i, k, r, ta, a.get_num_steps() - n, a.get_current_time()));
                        }
                    }
                }
            }
        }
        Ok(Info::new(errs > 0).c(errs > 1, "several times").c(errs > 0 && ta == c.tout, "finished").c(roots > 0 && errs > 0, "with roots").c(more, "more than 500 steps where there is no limit"))
    });

    // y' = -K (y - s), y = s until s becomes 0, and the absolute tolerance is 0
    let strat = || (g(1, 64, 16.0), prop_oneof![g(-64, -1, 16.0), g(1, 64, 16.0)], g(8, 64, 16.0), 1..=40usize, g(1, 320, 32.0), any::<bool>()).prop_map(|(k, c0, rtol, call, t1, onestep)| Vanish { k, c0, rtol, call, t1, onestep });
    cx.prop("vanishing weight", 20_000, 400_000, strat, |c: &Vanish| {
        let sp = Spec {
            n: 1,
            alg: vec![true],
            b: vec![2f64.powi((c.k * 2.0) as i32 - 4)],
            c: vec![0.0],
            m: vec![1.0],
            sol: vec![Sol { c0: c.c0, c1: 0.0, w: 1.0, p: 0.0, c2: 0.0, r: 1.0, c3: 0.0 }],
            tv: 0.0,
            tw: 1.0,
            rtol: c.rtol,
            atol: vec![0.0],
            ts: 1.0,
            ys: 1.0,
            jump: Some(Jump { i: 0, at: 0.0, by: -c.c0, call: Some(c.call) }),
        };
        let p = Prob::new(&sp);
        let mut s = solver(&p);
        s.verif_set_hmax_inv(16.0 / c.t1);
        let mut t = 0.0;
        let mut failed = 0;
        for i in 0..100 {
            let r = if c.onestep { s.solve(c.t1, &mut t, IdaTask::OneStep) } else { s.solve(c.t1, &mut t, IdaTask::Normal) };
            let (y, yp) = (vy(&s), vyp(&s));
            let show = |m: String| format!("call {}: {} ({:?}, t {:e}, current time {:e}, y {:?}, y' {:?})", i, m, r, t, s.get_current_time(), y, yp);
            if !y.iter().chain(&yp).all(|x| x.is_finite()) {
                return Err(show("not finite".into()));
            }
            let over = p.log.borrow().nres >= c.call;
            match &r {
                Ok(_) => {
                    if failed > 0 {
                        return Err(show("accepted after the error".into()));
                    }
                    if !over && y[0] != c.c0 {
                        return Err(show("y has changed".into()));
                    }
                    if t >= c.t1 {
                        break;
                    }
                }
                Err(e) => {
                    if !over {
                        return Err(show("no reason to fail".into()));
                    }
                    if !format!("{:?}", e).contains("ewt") {
                        if y[0] == 0.0 && s.get_num_steps() > 0 {
                            return Err(show("a weight of 1/0 was tried, not refused".into()));
                        }
                        // (0 was no acceptable step)
                        return Ok(Info::new(false));
                    }
                    if t != s.get_current_time() || y[0] != 0.0 {
                        return Err(show("tret and y are not those of the last step".into()));
                    }
                    failed += 1;
                    if failed == 2 {
                        break;
                    }
                }
            }
        }
        Ok(Info::new(failed > 0).c(failed > 0 && s.get_num_steps() > 1, "not at the start"))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vanish {
    pub k: f64,
    pub c0: f64,
    pub rtol: f64,
    /// the residual call from which on the solution is 0
    pub call: usize,
    pub t1: f64,
    pub onestep: bool,
}

//! C45: the stop time. C46: counters and the order of callbacks. C47: errors. C48: units.
use crate::checks::*;
use crate::gen::*;
use crate::obs::{rf, snap};
use crate::prob::*;
use crate::run::*;
use ida::{IdaSolveStatus, IdaTask};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Sop {
    /// set the stop time so far from the last time returned
    Set(f64),
    /// set it on a point the run will hit: the current internal time
    SetHere,
    Clear,
    Normal(f64),
    /// Normal, to the stop time itself
    ToStop,
    OneStep(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Stop {
    pub sp: Spec,
    pub hmax: f64,
    pub hin: f64,
    pub ops: Vec<Sop>,
}
pub fn c45(cx: &mut Ctx) {
    cx.rule("a random history of stop times (ahead, behind, on the current internal time), output times and single steps against a model of the four outcomes (Success at the output time, TStop exactly at the stop time, a single step, refusal because the stop time lies behind): status, time returned, accuracy of the solution, no residual evaluation beyond a stop time in force, the stop time forgotten once reported; non-trivial: at least one TStop");
    cx.assume("the stop time is set with a hook added to the copy of /repo/src (the port has no setter); the integrator reads the field itself");
    let strat = || {
        let op = prop_oneof![
            4 => g(1, 200, 64.0).prop_map(Sop::Set),
            1 => g(1, 64, 65536.0).prop_map(Sop::Set),
            1 => g(-64, -1, 64.0).prop_map(Sop::Set),
            1 => Just(Sop::SetHere),
            1 => Just(Sop::Clear),
            4 => g(1, 200, 64.0).prop_map(Sop::Normal),
            1 => Just(Sop::ToStop),
            4 => (1..30usize).prop_map(Sop::OneStep),
        ];
        (spec(What { tol: (2, 6), ..ALL }), prop_oneof![2 => Just(0.0), 1 => g(1, 64, 32.0)], prop_oneof![2 => Just(0.0), 1 => g(1, 128, 64.0), 1 => g(1, 64, 65536.0)], proptest::collection::vec(op, 2..16))
            .prop_map(|(sp, hmax, hin, ops)| Stop { sp, hmax, hin, ops })
    };
    cx.prop("stop time", 100_000, 2_000_000, strat, |c: &Stop| {
        let p = Prob::new(&c.sp).logging();
        let mut s = solver(&p);
        let ts = c.sp.ts;
        let dir = ts.signum();
        if c.hmax > 0.0 {
            s.verif_set_hmax_inv(1.0 / (c.hmax * ts.abs()));
        }
        s.verif_set_init_step(c.hin * ts);
        let mut t = 0.0;
        let mut last = 0.0;
        let mut stop: Option<f64> = None;
        let (mut stops, mut behind, mut ones, mut worst) = (0, 0, 0, 0.0f64);
        let near = |s: &Solver, x: f64| 100.0 * f64::EPSILON * (x.abs() + s.get_current_setp().abs());
        'ops: for op in &c.ops {
            let (task, mut tout, n) = match op {
                Sop::Set(d) => {
                    stop = Some(last + d * ts);
                    s.verif_set_tstop(stop);
                    continue;
                }
                Sop::SetHere => {
                    stop = Some(s.get_current_time());
                    s.verif_set_tstop(stop);
                    continue;
                }
                Sop::Clear => {
                    stop = None;
                    s.verif_set_tstop(stop);
                    continue;
                }
                Sop::Normal(d) => (IdaTask::Normal, last + d * ts, 1),
                Sop::ToStop => match stop {
                    Some(x) if (x - last) * dir > 0.0 => (IdaTask::Normal, x, 1),
                    _ => continue,
                },
                Sop::OneStep(n) => (IdaTask::OneStep, 0.0, *n),
            };
            for _ in 0..n {
                if (s.get_current_time() / ts).abs() > 60.0 {
                    break 'ops;
                }
                if let IdaTask::OneStep = task {
                    tout = last + ts;
                }
                let (tn, nst) = (s.get_current_time(), s.get_num_steps());
                p.log.borrow_mut().calls.clear();
                // what has to happen
                let bad = stop.map_or(false, |x| if nst == 0 { (x - tn) * dir <= 0.0 } else { (tn - x) * dir > 0.0 });
                let r = go(&mut s, tout, &mut t, task);
                if bad {
                    behind += 1;
                    match r {
                        Err(m) if m.contains("behind") || m.contains("BadStopTime") => {}
                        r => return Err(format!("stop time {:e} is behind {:e}, but solve gives {:?}", stop.unwrap(), tn, r)),
                    }
                    if !p.log.borrow().calls.is_empty() {
                        return Err("a refused call evaluated the problem".into());
                    }
                    stop = None;
                    s.verif_set_tstop(None);
                    continue;
                }
                let r = r?;
                if let Some(x) = stop {
                    for call in &p.log.borrow().calls {
                        if let Call::Res { t, .. } = call {
                            if (t - x) * dir > 0.0 {
                                return Err(format!("the residual was evaluated at {:e}, beyond the stop time {:e}", t, x));
                            }
                        }
                    }
                }
                if s.get_num_steps() == nst + 1 {
                    let (h, d) = (s.get_last_step(), s.get_current_time() - tn);
                    if (h - d).abs() > 1000.0 * f64::EPSILON * (tn.abs() + d.abs() + h.abs()) {
                        return Err(format!("a step {:e} from {:e} ended at {:e} (stop time {:?})", h, tn, s.get_current_time(), stop));
                    }
                }
                let to_stop = stop.map(|x| (x - tout) * dir);
                let w = near(&s, tout);
                match r {
                    IdaSolveStatus::TStop => {
                        let Some(x) = stop else { return Err(format!("TStop at {:e} without a stop time", t)) };
                        if t != x {
                            return Err(format!("TStop at {:e}, the stop time is {:e}", t, x));
                        }
                        if let IdaTask::Normal = task {
                            if to_stop.unwrap() > w {
                                return Err(format!("TStop at {:e}, but the output time {:e} comes first", t, tout));
                            }
                        }
                        if (s.get_current_time() - x).abs() > 2.0 * near(&s, x) {
                            return Err(format!("TStop at {:e}, but the internal time is {:e}", x, s.get_current_time()));
                        }
                        stops += 1;
                        stop = None;
                    }
                    IdaSolveStatus::Success => match task {
                        IdaTask::Normal => {
                            if t != tout {
                                return Err(format!("Success at {:e}, the output time is {:e}", t, tout));
                            }
                            if to_stop.map_or(false, |x| x < -w) {
                                return Err(format!("Success at {:e} beyond the stop time {:e}", t, stop.unwrap()));
                            }
                        }
                        IdaTask::OneStep => {
                            ones += 1;
                            if t != s.get_current_time() {
                                return Err(format!("a single step returned {:e}, the internal time is {:e}", t, s.get_current_time()));
                            }
                            let d = s.get_num_steps() - nst;
                            if d > 1 || (d == 0) != ((tn - last) * dir > 0.0) {
                                return Err(format!("a single step from {:e} (returned last: {:e}) took {} steps", tn, last, d));
                            }
                            if stop.map_or(false, |x| (t - x) * dir > near(&s, x)) {
                                return Err(format!("a step to {:e}, beyond the stop time {:e}", t, stop.unwrap()));
                            }
                        }
                    },
                    r => return Err(format!("{:?} at {:e}", r, t)),
                }
                if (t - last) * dir < -w {
                    return Err(format!("time went from {:e} back to {:e}", last, t));
                }
                last = t;
                let d = dist(&c.sp, &vy(&s), &c.sp.exact(t));
                worst = worst.max(d);
                if !(d <= BOUND) {
                    return Err(format!("at {:e} the error is {:.1} times the tolerance: {:?}, exact {:?}", t, d, vy(&s), c.sp.exact(t)));
                }
            }
        }
        Ok(Info::new(stops > 0).c(stops > 2, "at least three stops").c(behind > 0, "stop times behind").c(ones > 0, "single steps").c(ts < 0.0, "backwards"))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Counts {
    pub sp: Spec,
    pub t1: f64,
    pub roots: Vec<Rf>,
    pub faults: Faults,
    /// OneStep, or Normal to so many current steps further on
    pub calls: Vec<Option<f64>>,
    /// first step, as a part of t1 (0: chosen by the integrator)
    #[serde(default)]
    pub hin: f64,
    /// limits of convergence and error test failures per step
    #[serde(default)]
    pub fails: Option<(u64, u64)>,
}
const ALPHA: [f64; 5] = [1.0, 1.5, 11.0 / 6.0, 25.0 / 12.0, 137.0 / 60.0];
pub fn c46(cx: &mut Ctx) {
    cx.rule("every callback of a random history (with discontinuities, faults, given first steps, root functions) is recorded; after each call of solve the getters must equal the recorded numbers of calls; every Jacobian call must follow a residual call with the same t, y, y' and residual, get a zeroed matrix and cj = alpha_k/h for an order k of 1..5; the residual calls must form as many attempts (runs at one t) as steps, error test and convergence failures are counted, of at most 8 evaluations each, with y' - y'_pred = cj (y - y_pred); one Newton iteration per residual call; tn advances by exactly the last step; non-trivial: at least 10 steps");
    let strat = || {
        (prop_oneof![3 => spec(WILD).boxed(), 1 => jumping(WILD).boxed()], g(1, 320, 32.0), mild_faults(), proptest::collection::vec(prop_oneof![2 => Just(None), 1 => g(0, 640, 64.0).prop_map(Some)], 1..60), (prop_oneof![3 => Just(0.0), 1 => g(1, 64, 64.0)], prop_oneof![4 => Just(None), 1 => (1..=4u64, 1..=4u64).prop_map(Some)])).prop_flat_map(|(sp, t1, faults, calls, (hin, fails))| {
            let (n, ts, ys) = (sp.n, sp.ts, sp.ys);
            (Just((sp, hin, fails)), Just(t1), prop_oneof![Just(vec![]).boxed(), proptest::collection::vec(rf(n, ts, ys), 1..4).boxed()], Just(faults), Just(calls))
                .prop_map(|((sp, hin, fails), t1, roots, faults, calls)| Counts { t1: t1 * sp.ts, sp, roots, faults, calls, hin, fails })
        })
    };
    cx.prop("calls", 40_000, 600_000, strat, |c: &Counts| {
        let p = Prob { roots: std::rc::Rc::new(c.roots.clone()), ..Prob::faulty(&c.sp, &c.faults) }.logging();
        let mut s = solver(&p);
        s.verif_set_init_step(c.hin * c.t1);
        let n = c.sp.n;
        let mut t = 0.0;
        let (mut nfail, mut ngrp, mut given_up) = (0, 0, 0);
        if let Some((ncf, nef)) = c.fails {
            s.verif_set_max_fails(ncf, nef);
        }
        let mut first = true;
        for (ci, call) in c.calls.iter().enumerate() {
            // far away
            if (s.get_current_time() / c.sp.ts).abs() > 100.0 {
                break;
            }
            let before = (s.get_current_time(), s.get_num_steps(), s.get_num_err_test_fails(), s.get_num_nonlin_solv_conv_fails());
            p.log.borrow_mut().calls.clear();
            let r = match call {
                None => s.solve(if before.1 == 0 { c.t1 } else { before.0 + c.t1 }, &mut t, IdaTask::OneStep),
                // the first output time lies ahead of everything
                Some(k) => s.solve(if before.1 == 0 { c.t1 } else { before.0 + k * s.get_current_setp() }, &mut t, IdaTask::Normal),
            };
            let failed = match &r {
                Ok(_) => false,
                Err(e) if format!("{:?}", e).contains("mxstep") || format!("{:?}", e).contains("CloseRoots") => false,
                Err(_) => true,
            };
            let l = p.log.borrow();
            let ctx = |m: String| format!("call {}: {}", ci, m);
            for (what, a, b) in [
                ("get_num_res_evals", s.get_num_res_evals(), l.nres),
                ("get_num_jac_evals", s.get_num_jac_evals(), l.njac),
                ("get_num_lin_solv_setups", s.get_num_lin_solv_setups(), l.njac),
                ("get_num_g_evals", s.get_num_g_evals(), l.nroot),
                ("get_num_lin_res_evals", s.get_num_lin_res_evals(), 0),
            ] {
                if a != b {
                    return Err(ctx(format!("{} = {}, should be {}", what, a, b)));
                }
            }
            if c.faults.sing.is_none() && s.get_num_nonlin_solv_iters() != l.nres {
                return Err(ctx(format!("{} Newton iterations, but {} residual evaluations", s.get_num_nonlin_solv_iters(), l.nres)));
            }
            let (dst, dnef, dncf) = (s.get_num_steps() - before.1, s.get_num_err_test_fails() - before.2, s.get_num_nonlin_solv_conv_fails() - before.3);
            nfail += dnef + dncf;
            // the attempts
            let mut groups: Vec<Vec<&Call>> = vec![];
            let mut gt = f64::NAN;
            for x in &l.calls {
                let tc = match x {
                    Call::Res { t, .. } => *t,
                    Call::Jac { t, .. } => *t,
                    Call::Root { .. } => continue,
                };
                if tc != gt {
                    groups.push(vec![]);
                    gt = tc;
                }
                groups.last_mut().unwrap().push(x);
            }
            let attempts = dst + dnef + dncf;
            // steps so short that the times of the attempts can hardly be told apart
            let times: Vec<f64> = groups.iter().map(|g| match g[0] {
                Call::Res { t, .. } | Call::Jac { t, .. } | Call::Root { t, .. } => *t,
            }).collect();
            if times.windows(2).any(|w| (w[0] - w[1]).abs() < 1e-13 * w[0].abs().max(w[1].abs())) || times.first().map_or(false, |t| (t - before.0).abs() < 1e-13 * t.abs()) {
                break;
            }
            if groups.len() != attempts {
                return Err(ctx(format!("{} attempts were made; {} steps, {} error test failures and {} convergence failures are counted", groups.len(), dst, dnef, dncf)));
            }
            ngrp += groups.len();
            if first && attempts > 0 {
                first = false;
                if let Some(Call::Res { t, .. }) = groups[0].first() {
                    if *t != s.get_actual_init_step() {
                        return Err(ctx(format!("first evaluation at {:e}, initial step {:e}", t, s.get_actual_init_step())));
                    }
                }
            }
            for grp in &groups {
                let nr = grp.iter().filter(|x| matches!(x, Call::Res { .. })).count();
                if nr > 8 {
                    return Err(ctx(format!("{} residual evaluations in one attempt", nr)));
                }
                let mut base: Option<(&Vec<f64>, &Vec<f64>)> = None;
                let mut cjs: Option<f64> = None;
                for (i, x) in grp.iter().enumerate() {
                    match x {
                        Call::Res { y, yp, .. } => {
                            if base.is_none() {
                                base = Some((y, yp));
                            }
                        }
                        Call::Jac { t, cj, y, yp, r, zeroed } => {
                            if !zeroed {
                                return Err(ctx("the matrix given to jac is not zero".into()));
                            }
                            let same = match if i > 0 { Some(grp[i - 1]) } else { None } {
                                Some(Call::Res { t: t0, y: y0, yp: p0, r: r0 }) => t == t0 && y == y0 && yp == p0 && (r == r0 || r.iter().any(|x| x.is_nan())),
                                _ => false,
                            };
                            if !same {
                                return Err(ctx(format!("jac at {:e} {:?} {:?} does not follow the residual there", t, y, yp)));
                            }
                            cjs = Some(*cj);
                        }
                        _ => {}
                    }
                }
                // y' moves along with y
                if let (Some(cj), Some((y0, p0))) = (cjs, base) {
                    for x in grp {
                        if let Call::Res { y, yp, .. } = x {
                            for i in 0..n {
                                let (a, b) = (yp[i] - p0[i], cj * (y[i] - y0[i]));
                                let tol = 16.0 * f64::EPSILON * (yp[i].abs() + p0[i].abs() + cj.abs() * (y[i].abs() + y0[i].abs()));
                                if (a - b).abs() > tol {
                                    return Err(ctx(format!("in one attempt y' changes by {:e} while y changes by {:e} and cj is {:e}", a, y[i] - y0[i], cj)));
                                }
                            }
                        }
                    }
                }
            }
            // cj: single step calls, where the start of the attempts is known
            if call.is_none() && dst <= 1 {
                for x in groups.iter().flatten() {
                    if let Call::Jac { t, cj, .. } = x {
                        let h = t - before.0;
                        let tol = 1e-12 + 8.0 * f64::EPSILON * (t.abs() + before.0.abs()) / h.abs();
                        if tol < 0.01 && !ALPHA.iter().any(|a| (cj * h / a - 1.0).abs() < tol) {
                            return Err(ctx(format!("jac at {:e} with cj {:e}, h {:e}: cj h = {:e} is no leading coefficient", t, cj, h, cj * h)));
                        }
                        if dst == 1 && *t == s.get_current_time() && tol < 0.01 && (cj * h / ALPHA[s.get_last_order() - 1] - 1.0).abs() > tol {
                            return Err(ctx(format!("step of order {} with cj h = {:e}", s.get_last_order(), cj * h)));
                        }
                    }
                }
                if dst == 1 && s.get_current_time() != before.0 + s.get_last_step() {
                    return Err(ctx(format!("from {:e} a step {:e} to {:e}", before.0, s.get_last_step(), s.get_current_time())));
                }
                if dst == 1 && groups.last().map_or(true, |g| !matches!(g[0], Call::Res { t, .. } if *t == s.get_current_time())) {
                    return Err(ctx("the last attempt was not at the new time".into()));
                }
            }
            if dst == 0 && s.get_current_time() != before.0 {
                return Err(ctx(format!("no step, but time went from {:e} to {:e}", before.0, s.get_current_time())));
            }
            if !(1..=5).contains(&s.get_current_order()) || s.get_last_order() > 5 || (s.get_num_steps() > 0 && s.get_last_order() < 1) {
                return Err(ctx(format!("orders {} and {}", s.get_last_order(), s.get_current_order())));
            }
            given_up += failed as usize;
            if given_up == 3 || failed && c.fails.is_none() {
                break;
            }
        }
        Ok(Info::new(s.get_num_steps() >= 10).c(nfail > 0, "failed attempts").c(given_up > 0 && given_up < 3, "carried on after an error").c(!c.roots.is_empty(), "root functions").c(c.faults != Faults::default(), "faulty problem"))
    });
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Units {
    pub sp: Spec,
    pub t1: f64,
    pub steps: usize,
    pub flip: bool,
    pub tscale: i32,
    pub yscale: i32,
    pub rscale: i32,
    pub faults: Faults,
    pub tout: Option<f64>,
}
fn power() -> impl Strategy<Value = i32> {
    prop_oneof![3 => -20..=20i32, 1 => -60..=60i32, 1 => -200..=200i32]
}
pub fn c48(cx: &mut Ctx) {
    cx.rule("one initial value problem integrated twice, the second time in other units: time multiplied by a power of two and possibly reversed, the solution and its absolute tolerances by another, the residual by a third; every step, order, counter, solution and output must correspond bit for bit; non-trivial: at least 10 steps and a change of units");
    let strat = || {
        (
            prop_oneof![1 => spec(What { scale: false, ..ALL }), 1 => spec(What { scale: false, ..WILD })],
            g(1, 320, 32.0),
            prop_oneof![20..=60usize, 20..=200usize],
            (any::<bool>(), power(), power(), power()),
            mild_faults(),
            proptest::option::of(g(1, 63, 64.0)),
        )
            .prop_map(|(sp, t1, steps, (flip, tscale, yscale, rscale), faults, tout)| Units { sp, t1, steps, flip, tscale, yscale, rscale, faults, tout })
    };
    cx.prop("units", 40_000, 600_000, strat, |c: &Units| {
        let ts = if c.flip { -1.0 } else { 1.0 } * 2f64.powi(c.tscale);
        let ys = 2f64.powi(c.yscale);
        let rs = 2f64.powi(c.rscale);
        let mut other = c.sp.clone();
        other.ts = ts;
        other.ys = ys;
        other.atol.iter_mut().for_each(|a| *a *= ys);
        other.m.iter_mut().for_each(|a| *a *= rs);
        let (pa, pb) = (Prob::faulty(&c.sp, &c.faults), Prob::faulty(&other, &c.faults));
        let (mut a, mut b) = (solver(&pa), solver(&pb));
        let (mut ta, mut tb) = (0.0, 0.0);
        let mut n = 0;
        for i in 0..c.steps {
            let far = if i == 0 { c.t1 } else { c.t1 * 1e9 };
            let (ra, rb) = match c.tout {
                Some(f) if i > 0 && i % 5 == 4 => {
                    let tout = a.get_current_time() + f * a.get_current_setp();
                    (a.solve(tout, &mut ta, IdaTask::Normal), b.solve(tout * ts, &mut tb, IdaTask::Normal))
                }
                _ => (a.solve(far, &mut ta, IdaTask::OneStep), b.solve(far * ts, &mut tb, IdaTask::OneStep)),
            };
            if ra.is_ok() != rb.is_ok() {
                return Err(format!("call {}: {:?} and {:?}", i, ra.map_err(|e| format!("{:?}", e)), rb.map_err(|e| format!("{:?}", e))));
            }
            let (ya, yb): (Vec<f64>, Vec<f64>) = (vy(&a).iter().map(|x| x * ys).collect(), vy(&b));
            let (da, db): (Vec<f64>, Vec<f64>) = (vyp(&a).iter().map(|x| x * ys / ts).collect(), vyp(&b));
            if tb != ta * ts || ya != yb || da != db {
                return Err(format!("call {}: t {:e}, y {:?}, y' {:?}; in the other units {:e}, {:?}, {:?} (scaled {:e}, {:?}, {:?})", i, ta, vy(&a), vyp(&a), tb, yb, db, ta * ts, ya, da));
            }
            if ra.is_err() {
                break;
            }
            let (sa, sb) = (snap(&mut a)?, snap(&mut b)?);
            let rea: Vec<u64> = sa.reals.iter().map(|x| (f64::from_bits(*x) * ts).to_bits()).collect();
            if sa.nums != sb.nums || rea != sb.reals {
                return Err(format!("call {}: counters {:?} and {:?}, times {:?} and {:?}", i, sa.nums, sb.nums, rea, sb.reals));
            }
            n = sa.nums[0];
            if ta.abs() > 100.0 || a.get_last_step().abs() < 1e-9 {
                break;
            }
        }
        Ok(Info::new(n >= 10 && (ts != 1.0 || ys != 1.0 || rs != 1.0)).c(c.flip, "time reversed").c(n >= 50, "at least 50 steps").c(a.get_num_err_test_fails() > 0, "failed steps"))
    });
}

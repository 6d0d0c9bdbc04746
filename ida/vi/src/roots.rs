//! C44: roots of the user's functions.
use crate::checks::*;
use crate::gen::*;
use crate::obs::rf;
use crate::prob::*;
use crate::run::*;
use ida::{IdaSolveStatus, IdaTask};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TRoots {
    pub sp: Spec,
    /// in problem time: s (t - r), zero only once; or, given a, zero up to a as well
    pub roots: Vec<(f64, f64, Option<f64>)>,
    /// look only for increasing ones
    pub up: Vec<bool>,
    pub touts: Vec<f64>,
    pub one_step: Vec<bool>,
}
/// how far from the true place a root may be found
fn slack(s: &Solver) -> f64 {
    2.0 * 100.0 * f64::EPSILON * (s.get_current_time().abs() + s.get_last_step().abs() + s.get_current_setp().abs())
}
pub fn info(s: &Solver) -> Vec<f64> {
    s.get_root_info().iter().cloned().collect()
}

pub fn c44(cx: &mut Ctx) {
    earliest(cx);
    cx.rule("[known] root functions s*(t - r) with roots on a grid (several may coincide, some lie at the start or on an output time, some functions are zero for a while first): every root must be reported once, in order, before the output time it precedes, with the direction of its crossing, at the right place and with the solution of that place; non-trivial: at least two roots reported");
    cx.rule("[signs] root functions of t, y and y' of every kind: over the whole history the sign of every function at the returned points may change only through a reported root of that direction, and a reported root must be a change of sign (or an exact zero) of the function it names and of no other; non-trivial: at least two roots reported");
    let strat = || {
        (
            spec(What { nmax: 3, stiff: 2, tol: (2, 5), ..ALL }),
            proptest::collection::vec((prop_oneof![5 => g(0, 640, 64.0), 1 => Just(0.0), 4 => g(0, 10, 1.0)], prop_oneof![Just(1.0), Just(-1.0), Just(0.001), Just(-1e5)], prop_oneof![4 => Just(0), 1 => 16..64i32]), 0..7)
                .prop_map(|v| v.into_iter().map(|(r, s, a): (f64, f64, i32)| (r, s, Some(r - a as f64 / 32.0).filter(|x| a > 0 && *x > 0.0))).collect::<Vec<_>>()),
            prop_oneof![proptest::collection::vec(g(1, 320, 64.0), 1..6), proptest::collection::vec(g(1, 3, 1.0), 1..6)],
            proptest::collection::vec(any::<bool>(), 5),
            proptest::collection::vec(prop_oneof![4 => Just(false), 1 => Just(true)], 6),
        )
            .prop_map(|(sp, roots, d, one_step, up)| {
                let mut t = 0.0;
                let touts = d
                    .iter()
                    .map(|x| {
                        t += x;
                        t
                    })
                    .collect();
                TRoots { sp, roots, touts, one_step, up }
            })
    };
    cx.prop("known", 60_000, 1_200_000, strat, |c: &TRoots| {
        let ts = c.sp.ts;
        let rfs = c
            .roots
            .iter()
            .map(|(r, s, a)| match a {
                None => Rf::T { r: r * ts, s: *s },
                Some(a) => Rf::W { a: *a, u: ts, r: r * ts, s: *s },
            })
            .collect();
        let p = Prob::with(&c.sp, rfs);
        let mut s = solver(&p);
        let late = c.roots.iter().any(|r| r.2.is_some());
        if late {
            // no step from the zeros to beyond the root
            s.verif_set_hmax_inv(4.0 / ts.abs());
        }
        for i in 0..c.roots.len() {
            if c.up[i] {
                s.verif_set_root_increasing(i);
            }
        }
        // direction in which t crosses the root
        let dir = |x: f64| if x * ts > 0.0 { 1.0 } else { -1.0 };
        let mut due: Vec<f64> = c.roots.iter().enumerate().filter(|(i, r)| r.0 > 0.0 && !(c.up[*i] && dir(r.1) < 0.0)).map(|(_, r)| r.0).collect();
        due.sort_by(|a, b| a.partial_cmp(b).unwrap());
        due.dedup();
        let mut found = 0;
        let (mut at_tout, mut simul) = (0, 0);
        let mut t = 0.0;
        for (k, &to) in c.touts.iter().enumerate() {
            let tout = to * ts;
            let mut calls = 0;
            loop {
                calls += 1;
                // a further step could leave the coming output times behind
                if c.one_step[k] && s.get_num_steps() > 0 && (s.get_current_time() - tout) * ts >= 0.0 {
                    break;
                }
                if calls > 5000 {
                    return Err(format!("output time {:e} is never reached", tout));
                }
                let task = if c.one_step[k] { IdaTask::OneStep } else { IdaTask::Normal };
                let r = match s.solve(tout, &mut t, task) {
                    Err(e) if format!("{:?}", e).contains("mxstep") => continue,
                    r => r.map_err(|e| format!("tout {:e}: {:?}", tout, e))?,
                };
                let here = t / ts;
                match r {
                    IdaSolveStatus::Root => {
                        if found == due.len() {
                            return Err(format!("a root at {:e} that does not exist: {:?}", t, info(&s)));
                        }
                        let r = due[found];
                        found += 1;
                        if !((t - r * ts).abs() <= slack(&s)) {
                            return Err(format!("root found at {:e}, the next one is at {:e}", t, r * ts));
                        }
                        if !c.one_step[k] && (t - tout) * ts > 0.0 {
                            return Err(format!("root at {:e} reported before the output time {:e}", t, tout));
                        }
                        if r == to {
                            at_tout += 1;
                        }
                        let want: Vec<f64> = c.roots.iter().enumerate().map(|(i, x)| if x.0 == r && !(c.up[i] && dir(x.1) < 0.0) { dir(x.1) } else { 0.0 }).collect();
                        simul += (want.iter().filter(|x| **x != 0.0).count() > 1) as usize;
                        if info(&s) != want {
                            return Err(format!("root at {:e}: info {:?}, should be {:?}", t, info(&s), want));
                        }
                        let (y, yp) = (vy(&s), vyp(&s));
                        s.get_solution(t).map_err(|e| format!("{:?}", e))?;
                        if y != vy(&s) || yp != vyp(&s) {
                            return Err(format!("root at {:e}: the solution returned is not that of this time", t));
                        }
                    }
                    IdaSolveStatus::Success => {
                        // nothing may have been passed
                        if found < due.len() && due[found] * ts.abs() < here * ts.abs() - slack(&s) {
                            return Err(format!("the root at {:e} was not reported before {:e}", due[found] * ts, t));
                        }
                        if !c.one_step[k] && t != tout {
                            return Err(format!("Success at {:e} instead of {:e}", t, tout));
                        }
                        if !c.one_step[k] || (t - tout) * ts >= 0.0 {
                            break;
                        }
                    }
                    x => return Err(format!("{:?} at {:e}", x, t)),
                }
            }
        }
        Ok(Info::new(found >= 2)
            .c(ts < 0.0, "backwards")
            .c(late, "functions that are zero at first")
            .c(at_tout > 0, "a root on an output time")
            .c(simul > 0, "coinciding roots")
            .c(c.roots.iter().any(|r| r.0 == 0.0), "a zero at the start")
            .c(c.up.iter().take(c.roots.len()).any(|x| *x), "increasing ones only"))
    });
    let strat = || {
        (spec(What { nmax: 3, stiff: 2, tol: (2, 6), ..ALL }), proptest::collection::vec((1..40usize, g(1, 63, 64.0), 0..4u8), 1..12)).prop_flat_map(|(sp, walk)| {
            let (n, ts, ys) = (sp.n, sp.ts, sp.ys);
            (Just(sp), proptest::collection::vec(rf(n, ts, ys), 1..5), Just(walk)).prop_map(|(sp, roots, walk)| Signs { sp, roots, walk })
        })
    };
    cx.prop("signs", 60_000, 1_200_000, strat, |c: &Signs| {
        let p = Prob::with(&c.sp, c.roots.clone());
        let mut s = solver(&p);
        let n = c.roots.len();
        let (ts, first) = (c.sp.ts, 0.25 * c.sp.ts);
        let at = |s: &Solver, t: f64| -> Vec<f64> {
            let (y, yp) = (vy(s), vyp(s));
            c.roots.iter().map(|r| r.at(t, &y, &yp)).collect()
        };
        // the last known sign; 0 where it is not known
        let mut sign = vec![0.0; n];
        let mut t = 0.0;
        let (mut found, mut tiny, mut many, mut exact, mut behind) = (0, 0, 0, 0, 0);
        let mut last = 0.0;
        let mut places: Vec<f64> = vec![];
        for r in &c.roots {
            match r {
                Rf::T { r, .. } => places.push(*r),
                Rf::P { r, .. } => places.extend(r),
                _ => {}
            }
        }
        'walk: for (steps, f, kind) in &c.walk {
            let mut left = *steps;
            let normal = &(*kind > 0);
            // Normal: to somewhere in the coming steps
            let mut tout = if s.get_num_steps() == 0 { first } else { s.get_current_time() + s.get_current_setp() * f * *steps as f64 };
            if *kind > 1 && s.get_num_steps() > 0 {
                let end = s.get_current_time() + s.get_current_setp() * *steps as f64;
                let ahead = places.iter().filter(|x| (**x - last) * ts > 0.0 && (end - **x) * ts > 0.0).min_by(|a, b| (**a * ts).partial_cmp(&(**b * ts)).unwrap());
                if let Some(x) = ahead {
                    tout = *x;
                    exact += 1;
                }
            }
            while left > 0 {
                if (t / ts).abs() > 100.0 {
                    break 'walk;
                }
                let r = match s.solve(tout, &mut t, if *normal { IdaTask::Normal } else { IdaTask::OneStep }) {
                    Ok(r) => r,
                    Err(e) if format!("{:?}", e).contains("CloseRoots") || format!("{:?}", e).contains("mxstep") => break 'walk,
                    Err(e) => return Err(format!("{:?}", e)),
                };
                if (t - last) * ts < 0.0 {
                    return Err(format!("time went from {:e} back to {:e}", last, t));
                }
                last = t;
                let v = at(&s, t);
                match r {
                    IdaSolveStatus::Success => {
                        left = if *normal { 0 } else { left - 1 };
                        // y at the end of a step differs from the interpolant there by rounding
                        s.get_solution(t).map_err(|e| format!("{:?}", e))?;
                        let w = at(&s, t);
                        for i in 0..n {
                            if v[i] == 0.0 || v[i] * w[i] <= 0.0 {
                                tiny += 1;
                                sign[i] = 0.0;
                            } else {
                                if sign[i] * v[i] < 0.0 {
                                    return Err(format!("function {} changed sign (to {:e}) before {:e} without a root", i, v[i], t));
                                }
                                sign[i] = v[i].signum();
                            }
                        }
                    }
                    IdaSolveStatus::Root => {
                        found += 1;
                        let inf = info(&s);
                        if inf.iter().all(|x| *x == 0.0) {
                            return Err(format!("root at {:e}, but no function has one", t));
                        }
                        many += (inf.iter().filter(|x| **x != 0.0).count() > 1) as usize;
                        for i in 0..n {
                            if inf[i] != 0.0 {
                                if inf[i].abs() != 1.0 {
                                    return Err(format!("root info {:?}", inf));
                                }
                                if sign[i] * inf[i] > 0.0 {
                                    return Err(format!("root at {:e}: function {} was of sign {} and is said to cross to {}", t, i, sign[i], inf[i]));
                                }
                                if v[i] * inf[i] < 0.0 {
                                    return Err(format!("root at {:e}: function {} is {:e} and is said to have crossed to {}", t, i, v[i], inf[i]));
                                }
                                // after an exact zero the function may turn back
                                sign[i] = if v[i] == 0.0 { 0.0 } else { inf[i] };
                            } else if sign[i] * v[i] < 0.0 {
                                return Err(format!("root at {:e}: function {} changed sign (to {:e}) and is not named", t, i, v[i]));
                            } else if v[i] == 0.0 {
                                sign[i] = 0.0;
                                tiny += 1;
                            } else {
                                sign[i] = v[i].signum();
                            }
                        }
                        // the sign beyond an exact zero is that of the interpolant just behind it
                        let tn = s.get_current_time();
                        let d = 100.0 * f64::EPSILON * (tn.abs() + s.get_current_setp().abs()) * ts.signum();
                        if inf.iter().zip(&v).any(|(a, b)| *a != 0.0 && *b == 0.0) && (tn - (t + 9.0 * d)) * ts > 0.0 {
                            let mut near = vec![];
                            for k in [0.5, 1.0, 2.0, 8.0] {
                                s.get_solution(t + k * d).map_err(|e| format!("{:?}", e))?;
                                near.push(at(&s, t + k * d));
                            }
                            for i in 0..n {
                                if inf[i] != 0.0 && v[i] == 0.0 && near.iter().all(|w| w[i] * near[0][i] > 0.0) {
                                    sign[i] = near[0][i].signum();
                                    behind += 1;
                                }
                            }
                        }
                    }
                    x => return Err(format!("{:?} at {:e}", x, t)),
                }
            }
        }
        Ok(Info::new(found >= 2).c(exact > 0, "output times on roots").c(behind > 0, "exact zeros inside a step").c(found >= 20, "at least 20 roots").c(many > 0, "several at once").c(tiny > 0, "exact zeros"))
    });
}
/// Functions with one root each within the same step.
fn earliest(cx: &mut Ctx) {
    cx.rule("[earliest] functions of different shape (linear, exponential of either curvature, zero at the start as well) whose roots all lie within one step, at known and distinct places: they must be reported one after the other in this order, each alone and with its direction; non-trivial: at least two roots reported");
    let strat = || {
        (
            spec(What { nmax: 3, stiff: 2, tol: (2, 6), ..ALL }),
            prop_oneof![Just(0usize), 0..12usize],
            proptest::collection::vec((prop_oneof![g(1, 63, 64.0), g(1, 1023, 1024.0)], prop_oneof![Just(1.0), Just(-1.0), Just(1e-4), Just(-1e5)], prop_oneof![3 => Just(0), 2 => Just(99), 8 => -20..20i32]), 1..6),
            proptest::collection::vec(prop_oneof![4 => Just(false), 1 => Just(true)], 6),
            any::<bool>(),
        )
            .prop_map(|(sp, step, fs, up, normal)| Earliest { sp, step, fs, up, normal })
    };
    cx.prop("earliest", 150_000, 3_000_000, strat, |c: &Earliest| {
        let ts = c.sp.ts;
        let first = 0.25 * ts;
        let mut t = 0.0;
        let mut d = solver(&Prob::new(&c.sp));
        let mut ta = 0.0;
        for _ in 0..c.step + 1 {
            ta = d.get_current_time();
            d.solve(first, &mut t, IdaTask::OneStep).map_err(|e| format!("{:?}", e))?;
        }
        let tb = d.get_current_time();
        if (tb - ta).abs() < 1e6 * slack(&d) {
            return Ok(Info::new(false).c(true, "steps too small"));
        }
        let mut fs: Vec<(f64, Rf, f64)> = vec![];
        for (f, s, k) in &c.fs {
            // a function that is zero at the start is looked at again after a tenth of the step
            let start = c.step == 0 && *k == 99;
            if fs.iter().any(|x| x.0 == *f) || start && *f < 0.125 {
                continue;
            }
            let r = ta + f * (tb - ta);
            let (rf, dir) = match *k {
                0 => (Rf::T { r, s: *s }, s * ts),
                99 if start => (Rf::P { r: vec![0.0, r], s: *s }, *s),
                99 => (Rf::T { r, s: *s }, s * ts),
                k => (Rf::E { k: k as f64 / (tb - ta), r, s: *s }, s * k as f64),
            };
            fs.push((*f, rf, dir.signum()));
        }
        let n = fs.len();
        let mut due: Vec<usize> = (0..n).filter(|i| !(c.up[*i] && fs[*i].2 < 0.0)).collect();
        due.sort_by(|a, b| fs[*a].0.partial_cmp(&fs[*b].0).unwrap());
        let mut s = solver(&Prob::with(&c.sp, fs.iter().map(|x| x.1.clone()).collect()));
        for i in 0..n {
            if c.up[i] {
                s.verif_set_root_increasing(i);
            }
        }
        t = 0.0;
        for _ in 0..c.step {
            let r = s.solve(first, &mut t, IdaTask::OneStep).map_err(|e| format!("{:?}", e))?;
            if !matches!(r, IdaSolveStatus::Success) {
                return Err(format!("{:?} at {:e}, no function has a root up to {:e}", r, t, ta));
            }
        }
        if t != ta {
            return Err(format!("a step to {:e}, without the functions to {:e}", t, ta));
        }
        let (task, tout) = if c.normal { (IdaTask::Normal, if c.step == 0 { first } else { tb }) } else { (IdaTask::OneStep, first) };
        for i in &due {
            let r = ta + fs[*i].0 * (tb - ta);
            // the first call may take more than this step
            if c.normal && (r - tout) * ts > 0.0 {
                break;
            }
            let st = s.solve(tout, &mut t, if c.normal { IdaTask::Normal } else { IdaTask::OneStep }).map_err(|e| format!("root at {:e}: {:?}", r, e))?;
            if !matches!(st, IdaSolveStatus::Root) {
                return Err(format!("{:?} at {:e}, there is a root at {:e}", st, t, r));
            }
            if !((t - r).abs() <= slack(&s)) {
                return Err(format!("root at {:e}, the next one is at {:e}", t, r));
            }
            let want: Vec<f64> = (0..n).map(|j| if j == *i { fs[j].2 } else { 0.0 }).collect();
            if info(&s) != want {
                return Err(format!("root at {:e}: info {:?}, should be {:?}", t, info(&s), want));
            }
        }
        let st = s.solve(tout, &mut t, task).map_err(|e| format!("{:?}", e))?;
        if !matches!(st, IdaSolveStatus::Success) {
            return Err(format!("{:?} at {:e} when there is no root any more", st, t));
        }
        if !c.normal && t != tb {
            return Err(format!("the step ends at {:e}, without the functions at {:e}", t, tb));
        }
        Ok(Info::new(due.len() >= 2)
            .c(ts < 0.0, "backwards")
            .c(c.step == 0 && c.fs.iter().any(|x| x.2 == 99), "zero at the start as well")
            .c(c.step > 0, "a later step")
            .c(due.len() >= 4, "at least four roots in a step"))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Earliest {
    pub sp: Spec,
    /// the step with the roots
    pub step: usize,
    /// place within the step, scale, shape (0: linear, 99: zero at the start as well, else curvature)
    pub fs: Vec<(f64, f64, i32)>,
    pub up: Vec<bool>,
    pub normal: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Signs {
    pub sp: Spec,
    pub roots: Vec<Rf>,
    /// steps, part of the distance, and 0: OneStep, 1: Normal, 2, 3: Normal to the next root known
    pub walk: Vec<(usize, f64, u8)>,
}

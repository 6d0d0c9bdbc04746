//! C42: looking at the solution changes nothing. C43: dense output is the step's polynomial.
use crate::checks::*;
use crate::gen::*;
use crate::prob::*;
use crate::run::*;
use ida::{IdaSolveStatus, IdaTask};
use ndarray::prelude::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// everything a user can see of the integrator after a step, without the roots
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub nums: Vec<usize>,
    pub reals: Vec<u64>,
    pub y: Vec<f64>,
    pub yp: Vec<f64>,
}
pub fn snap(s: &mut Solver) -> Result<Snap, String> {
    let t = s.get_current_time();
    s.get_solution(t).map_err(|e| format!("get_solution at the current time: {:?}", e))?;
    Ok(Snap {
        nums: vec![
            s.get_num_steps(),
            s.get_last_order(),
            s.get_current_order(),
            s.get_num_res_evals(),
            s.get_num_jac_evals(),
            s.get_num_lin_solv_setups(),
            s.get_num_err_test_fails(),
            s.get_num_nonlin_solv_conv_fails(),
            s.get_num_nonlin_solv_iters(),
        ],
        reals: [t, s.get_last_step(), s.get_current_setp(), s.get_actual_init_step()].iter().map(|x| x.to_bits()).collect(),
        y: vy(s),
        yp: vyp(s),
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// output time: so many steps of the undisturbed run further on, and a part of the step
    Normal(usize, f64),
    OneStep(f64),
    /// the same output time again
    Again,
    Sol(f64),
    Dky(f64, usize),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Look {
    pub sp: Spec,
    pub t1: f64,
    pub roots: Vec<Rf>,
    pub ops: Vec<Op>,
}
fn part() -> impl Strategy<Value = f64> {
    prop_oneof![4 => g(0, 64, 64.0), 1 => Just(0.0), 1 => Just(1.0)]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        3 => (0..12usize, part()).prop_map(|(k, f)| Op::Normal(k, f)),
        1 => (0..2usize, part()).prop_map(|(k, f)| Op::Normal(k, f)),
        3 => part().prop_map(Op::OneStep),
        1 => Just(Op::Again),
        2 => part().prop_map(Op::Sol),
        2 => (part(), 0..6usize).prop_map(|(f, k)| Op::Dky(f, k)),
    ]
}
/// root functions in the user's units
pub fn rf(n: usize, ts: f64, ys: f64) -> impl Strategy<Value = Rf> {
    let s = prop_oneof![Just(1.0), Just(-1.0), Just(0.0625), Just(-64.0)];
    prop_oneof![
        2 => (g(0, 640, 64.0), s.clone()).prop_map(move |(r, s)| Rf::T { r: r * ts, s }),
        1 => (proptest::collection::vec(g(0, 640, 64.0), 1..4), s.clone()).prop_map(move |(r, s)| Rf::P { r: r.into_iter().map(|x| x * ts).collect(), s }),
        // several roots close together
        1 => (g(0, 640, 64.0), proptest::collection::vec(g(1, 64, 4096.0), 1..4), s.clone()).prop_map(move |(r, d, s)| {
            let mut v = vec![r * ts];
            for x in d {
                v.push(v[v.len() - 1] + x * ts);
            }
            Rf::P { r: v, s }
        }),
        2 => (0..n, g(-64, 64, 32.0), s.clone()).prop_map(move |(i, c, s)| Rf::Y { i, c: c * ys, s }),
        1 => (0..n, g(-64, 64, 32.0), s.clone()).prop_map(move |(i, c, s)| Rf::Yp { i, c: c * ys / ts, s }),
        2 => (g(8, 640, 64.0), prop_oneof![Just(0.0), g(0, 200, 32.0)], s).prop_map(move |(w, p, s)| Rf::S { w: w / ts, p, s }),
    ]
}

pub fn c42(cx: &mut Ctx) {
    cx.rule("a random initial value problem is integrated twice: one step at a time with nothing else done, and with a random sequence of Normal and OneStep calls, repeated calls, get_solution, get_dky at random points of the last step and root functions in between; after every operation the time returned must be right, the solution returned that of the time returned, the steps no more than necessary, and the step, order, times, counters and solution at the current time must equal those of the undisturbed run after as many steps, bit for bit; non-trivial: at least 5 steps compared after at least one disturbance");
    cx.assume("both runs start with the same first output time, which sets the first step");
    let strat = || {
        (spec(WILD), g(1, 320, 32.0), proptest::collection::vec(op(), 1..25)).prop_flat_map(|(sp, t1, ops)| {
            let (n, ts, ys) = (sp.n, sp.ts, sp.ys);
            (Just(sp), Just(t1 * ts), proptest::collection::vec(rf(n, ts, ys), 0..4), Just(ops))
                .prop_map(|(sp, t1, roots, ops)| Look { sp, t1, roots, ops })
        })
    };
    cx.prop("undisturbed", 30_000, 600_000, strat, |c: &Look| {
        let far = c.t1 * 1e9;
        // the undisturbed run
        let p = Prob::new(&c.sp);
        let mut b = solver(&p);
        let mut t = 0.0;
        let mut base: Vec<Snap> = vec![];
        let mut times: Vec<f64> = vec![0.0];
        for i in 0..150 {
            if b.solve(if i == 0 { c.t1 } else { far }, &mut t, IdaTask::OneStep).is_err() {
                break;
            }
            times.push(b.get_current_time());
            base.push(snap(&mut b)?);
        }
        let p = Prob::with(&c.sp, c.roots.clone());
        let mut s = solver(&p);
        let (mut compared, mut last, mut disturbed, mut nroot, mut normal) = (0, 0, false, 0, 0);
        let mut tout = c.t1;
        for (oi, op) in c.ops.iter().enumerate() {
            let prev = t;
            let now = s.get_num_steps();
            let hu = s.get_last_step();
            let tn = s.get_current_time();
            let r = match op {
                Op::Normal(k, f) => {
                    if now > 0 {
                        let i = (now + k).min(times.len() - 1);
                        let j = (i + 1).min(times.len() - 1);
                        tout = times[i] + f * (times[j] - times[i]);
                        if (tout - (tn - hu)) * c.t1 < 0.0 {
                            tout = tn;
                        }
                    }
                    // a first output time far away would not end
                    if now == 0 && (times.len() < 150 && (times[times.len() - 1] - c.t1) * c.t1 < 0.0) {
                        return Ok(Info::new(false));
                    }
                    normal += 1;
                    Some(s.solve(tout, &mut t, IdaTask::Normal))
                }
                Op::OneStep(f) => {
                    tout = if now == 0 { c.t1 } else { tn + f * hu };
                    Some(s.solve(tout, &mut t, IdaTask::OneStep))
                }
                Op::Again => {
                    if now == 0 || (tout - (tn - hu)) * c.t1 < 0.0 {
                        continue;
                    }
                    Some(s.solve(tout, &mut t, IdaTask::Normal))
                }
                Op::Sol(f) => {
                    if now == 0 {
                        continue;
                    }
                    s.get_solution(tn - f * hu).map_err(|e| format!("op {}: get_solution: {:?}", oi, e))?;
                    None
                }
                Op::Dky(f, k) => {
                    if now == 0 {
                        continue;
                    }
                    let mut d = Array1::from(vec![0.0; c.sp.n]);
                    let _ = s.get_dky(tn - f * hu, *k, &mut d);
                    None
                }
            };
            let st = match &r {
                Some(Ok(IdaSolveStatus::Success)) => Some(true),
                Some(Ok(_)) => Some(false),
                _ => None,
            };
            match r {
                Some(Ok(IdaSolveStatus::Root)) => nroot += 1,
                Some(Ok(_)) | None => {}
                Some(Err(e)) => {
                    let m = format!("{:?}", e);
                    if m.contains("CloseRoots") || m.contains("mxstep") {
                        break;
                    }
                    // the undisturbed run must fail as well, at the same place
                    if s.get_num_steps() >= base.len() {
                        break;
                    }
                    return Err(format!("op {} ({:?}) fails at step {}: {}", oi, op, s.get_num_steps(), m));
                }
            }
            let n = s.get_num_steps();
            if n > base.len() {
                break;
            }
            if n == 0 {
                continue;
            }
            if let Some(success) = st {
                // what was returned is the solution at the time that was returned
                // (after a single step y' is that of the discretisation, not the interpolant's)
                let own = matches!(op, Op::OneStep(_)) && n > now;
                let (y, yp) = (vy(&s), vyp(&s));
                s.get_solution(t).map_err(|e| format!("op {}: get_solution({:e}), the time returned: {:?}", oi, t, e))?;
                let ymax = base[..n].iter().flat_map(|b| &b.y).chain(&c.sp.exact(0.0)).fold(0.0, |a: f64, x| a.max(x.abs()));
                let same = |a: &[f64], b: &[f64], e: f64| a.iter().zip(b).all(|(a, b)| (a - b).abs() <= e + 1e-11 * b.abs());
                if !same(&y, &vy(&s), 1e-11 * ymax) || !(own || same(&yp, &vyp(&s), 1e-11 * ymax / s.get_last_step().abs())) {
                    return Err(format!("op {} ({:?}) returns {:e}, {:?}, {:?}, but the solution there is {:?}, {:?}", oi, op, t, y, yp, vy(&s), vyp(&s)));
                }
                // after as few steps as it takes
                if success {
                    let want = match op {
                        Op::OneStep(_) if now > 0 && prev != tn => now,
                        Op::OneStep(_) => now + 1,
                        _ => (now.max(1)..n).find(|i| (times[*i] - tout) * c.t1 >= 0.0).unwrap_or(n),
                    };
                    if n != want {
                        return Err(format!("op {} ({:?}) from {:e} to {:e}: {} steps, should be {}", oi, op, tn, tout, n - now, want - now));
                    }
                    if t != (if let Op::OneStep(_) = op { s.get_current_time() } else { tout }) {
                        return Err(format!("op {} ({:?}) from {:e} to {:e}, now {:e}, returns {:e}", oi, op, tn, tout, s.get_current_time(), t));
                    }
                }
            }
            let got = snap(&mut s)?;
            if got != base[n - 1] {
                return Err(format!("after op {} ({:?}), {} steps: {:?}, undisturbed {:?}", oi, op, n, got, base[n - 1]));
            }
            if n != last && disturbed {
                compared += n - last;
            }
            last = n;
            disturbed = true;
        }
        Ok(Info::new(compared >= 5).c(compared >= 30, "at least 30 steps").c(nroot > 0, "roots in between").c(normal > 1, "several Normal calls"))
    });
}

/// the weights of the k-th derivative at t of the polynomial through the points x
fn weights(x: &[f64], t: f64, k: usize) -> Vec<f64> {
    // Fornberg's recursion
    let n = x.len();
    let mut c = vec![vec![0.0; k + 1]; n];
    let mut c1 = 1.0;
    let mut c4 = x[0] - t;
    c[0][0] = 1.0;
    for i in 1..n {
        let mn = i.min(k);
        let mut c2 = 1.0;
        let c5 = c4;
        c4 = x[i] - t;
        for j in 0..i {
            let c3 = x[i] - x[j];
            c2 *= c3;
            if j == i - 1 {
                for l in (1..=mn).rev() {
                    c[i][l] = c1 * (l as f64 * c[i - 1][l - 1] - c5 * c[i - 1][l]) / c2;
                }
                c[i][0] = -c1 * c5 * c[i - 1][0] / c2;
            }
            for l in (1..=mn).rev() {
                c[j][l] = (c4 * c[j][l] - l as f64 * c[j][l - 1]) / c3;
            }
            c[j][0] = c4 * c[j][0] / c3;
        }
        c1 = c2;
    }
    c.iter().map(|r| r[k]).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dense {
    pub sp: Spec,
    pub t1: f64,
    pub steps: usize,
    pub maxord: usize,
    pub at: Vec<f64>,
    pub below: f64,
    pub over: usize,
    /// ask after a Normal call that ends here (part of the next step), not after a step
    pub normal: Option<f64>,
    /// then a step that cannot succeed: the component, the logarithm of the discontinuity
    pub trap: Option<(usize, i32)>,
    /// how far outside
    pub near: f64,
}
pub fn c43(cx: &mut Ctx) {
    cx.rule("after a random number of steps of a random initial value problem, get_solution and get_dky at random points of the last step are compared with the polynomial through the last (order+1) step points and its derivatives (weights by Fornberg's recursion); times before the last step (however close) and derivatives beyond the order must be refused; a Normal output must be the polynomial's value; a step that is given up leaves the interpolant of the last one in place; first call: the same where no step has been made, or the first one failed; non-trivial: order at least 2");
    let strat = || {
        (
            spec(What { tol: (2, 5), ..ALL }),
            g(1, 320, 32.0),
            prop_oneof![1..=12usize, 1..=80usize],
            prop_oneof![3 => Just(5usize), 1 => 1..=5usize],
            proptest::collection::vec(prop_oneof![4 => g(0, 64, 64.0), 1 => Just(0.0), 1 => Just(1.0)], 1..4),
            g(1, 64, 16.0),
            prop_oneof![4 => 1..4usize, 1 => 1..70usize],
            proptest::option::of(g(1, 63, 64.0)),
            proptest::option::of((any::<prop::sample::Index>(), 10..=45i32, any::<bool>())),
            prop_oneof![1 => Just(1), 2 => 1..=9i32],
        )
            .prop_map(|(mut sp, t1, steps, maxord, at, below, over, normal, trap, near)| {
                let trap = trap.map(|(i, e, alg)| {
                    let i = i.index(sp.n);
                    sp.alg[i] |= alg;
                    (i, e)
                });
                Dense { t1: t1 * sp.ts, sp, steps, maxord, at, below, over, normal, trap, near: 10f64.powi(-near) }
            })
    };
    cx.prop("polynomial", 160_000, 3_000_000, strat, |c: &Dense| {
        let p = Prob::new(&c.sp);
        let mut s = solver(&p);
        s.verif_set_max_order(c.maxord);
        let n = c.sp.n;
        let mut t = 0.0;
        let mut pts: Vec<(f64, Vec<f64>)> = vec![(0.0, c.sp.exact(0.0))];
        let mut d = Array1::from(vec![7.5; n]);
        match s.get_dky(0.0, c.over, &mut d).map_err(|e| format!("{:?}", e)) {
            Err(m) if m.contains("BadK") && d.iter().all(|x| *x == 7.5) => {}
            x => return Err(format!("get_dky {} before the first step: {:?}, {:?}", c.over, x, d)),
        }
        for i in 0..c.steps {
            s.solve(if i == 0 { c.t1 } else { c.t1 * 1e9 }, &mut t, IdaTask::OneStep).map_err(|e| format!("step {}: {:?}", i, e))?;
            pts.push((t, vy(&s)));
            if (t / c.sp.ts).abs() > 100.0 {
                break;
            }
        }
        let mut worst: f64 = 0.0;
        let check = |s: &Solver, pts: &[(f64, Vec<f64>)], t: f64, what: &str, k: usize, got: &[f64]| -> Result<f64, String> {
            let q = s.get_last_order();
            let last = &pts[pts.len() - 1 - q..];
            let x: Vec<f64> = last.iter().rev().map(|p| p.0).collect();
            let w = weights(&x, t, k);
            let mut worst: f64 = 0.0;
            for i in 0..n {
                let want: f64 = (0..=q).map(|j| w[j] * last[q - j].1[i]).sum();
                // the differences carry the rounding errors of all values so far
                let ymax = pts.iter().map(|p| p.1[i].abs()).fold(0.0, f64::max);
                let scale: f64 = (0..=q).map(|j| w[j].abs() * ymax).sum::<f64>();
                let d = (got[i] - want).abs();
                let tol = 1e-11 * scale;
                if !(d <= tol) {
                    return Err(format!("{} at {:e} (order {}, last step {:e} to {:e}), component {}: {:e}, the polynomial has {:e}", what, t, q, s.get_current_time() - s.get_last_step(), s.get_current_time(), i, got[i], want));
                }
                if scale > 0.0 {
                    worst = worst.max(d / scale);
                }
            }
            Ok(worst)
        };
        if let Some(f) = c.normal {
            // the output time lies in the step to come
            let tout = s.get_current_time() + f * s.get_current_setp();
            let before = s.get_num_steps();
            let r = s.solve(tout, &mut t, IdaTask::Normal).map_err(|e| format!("{:?}", e))?;
            if r != IdaSolveStatus::Success || t != tout {
                return Err(format!("Normal to {:e}: {:?}, tret {:e}", tout, r, t));
            }
            if s.get_num_steps() != before + 1 {
                return Ok(Info::new(false)); // the step was shortened
            }
            let y = vy(&s);
            let yp = vyp(&s);
            let tn = s.get_current_time();
            s.get_solution(tn).map_err(|e| format!("{:?}", e))?;
            pts.push((tn, vy(&s)));
            worst = worst.max(check(&s, &pts, tout, "the solution returned", 0, &y)?);
            worst = worst.max(check(&s, &pts, tout, "the derivative returned", 1, &yp)?);
        }
        // a step that fails leaves the last one in place
        let mut gave_up = false;
        if let Some((i, e)) = c.trap {
            let (tn, hu, q, ns) = (s.get_current_time(), s.get_last_step(), s.get_last_order(), s.get_num_steps());
            s.get_solution(tn).map_err(|e| format!("{:?}", e))?;
            let y = vy(&s);
            p.log.borrow_mut().trap = Some((i, 2f64.powi(e)));
            let r = s.solve(c.t1 * 1e9, &mut t, IdaTask::OneStep);
            if r.is_ok() || s.get_num_steps() != ns {
                return Ok(Info::new(false));
            }
            gave_up = true;
            if t != tn || s.get_current_time() != tn || s.get_last_step() != hu || s.get_last_order() != q {
                return Err(format!("a failed call moves: t {:e} to {:e}, last step {:e} to {:e}, order {} to {}", tn, t, hu, s.get_last_step(), q, s.get_last_order()));
            }
            if dist(&c.sp, &vy(&s), &y) > 1e-6 {
                return Err(format!("a failed call changes y from {:?} to {:?}", y, vy(&s)));
            }
            let (y, yp) = (vy(&s), vyp(&s));
            worst = worst.max(check(&s, &pts, tn, "y after a failed call", 0, &y)?);
            worst = worst.max(check(&s, &pts, tn, "y' after a failed call", 1, &yp)?);
        }
        let (tn, hu, q) = (s.get_current_time(), s.get_last_step(), s.get_last_order());
        let before: Vec<usize> = vec![s.get_num_res_evals(), s.get_num_jac_evals(), s.get_num_steps()];
        let tp = pts[pts.len() - 2].0;
        if ((tn - hu) - tp).abs() > 4.0 * f64::EPSILON * tn.abs() {
            return Err(format!("last step {:e}, but the times were {:e}, {:e}", hu, tp, tn));
        }
        for f in &c.at {
            let t = if *f == 1.0 { tp } else { tn - f * hu };
            s.get_solution(t).map_err(|e| format!("get_solution({:e}): {:?}", t, e))?;
            let (y, yp) = (vy(&s), vyp(&s));
            worst = worst.max(check(&s, &pts, t, "get_solution: y", 0, &y)?);
            worst = worst.max(check(&s, &pts, t, "get_solution: y'", 1, &yp)?);
            for k in 0..=q {
                let mut d = Array1::from(vec![f64::NAN; n]);
                s.get_dky(t, k, &mut d).map_err(|e| format!("get_dky({:e}, {}): {:?}", t, k, e))?;
                let d: Vec<f64> = d.iter().cloned().collect();
                worst = worst.max(check(&s, &pts, t, &format!("derivative {}", k), k, &d)?);
            }
        }
        // refusals leave everything alone
        let fuzz = 100.0 * f64::EPSILON * (tn.abs() + s.get_current_setp().abs().max(hu.abs()));
        let by = if 2.0 * fuzz < c.near * hu.abs() { c.near * c.below / 4.0 + c.near } else { c.below };
        if by * hu.abs() < 2.0 * fuzz {
            return Ok(Info::new(false));
        }
        let t = tn - hu * (1.0 + by);
        let mut d = Array1::from(vec![7.5; n]);
        let y = vy(&s);
        for (what, r) in [
            ("get_solution before the last step", s.get_solution(t).map_err(|e| format!("{:?}", e))),
            ("get_dky before the last step", s.get_dky(t, 0, &mut d).map_err(|e| format!("{:?}", e))),
            ("get_dky beyond the order", s.get_dky(tn, q + c.over, &mut d).map_err(|e| format!("{:?}", e))),
        ] {
            match r {
                Ok(()) => return Err(format!("{}: accepted", what)),
                Err(m) if m.contains(if what.ends_with("order") { "BadK" } else { "BadTimeValue" }) => {}
                Err(m) => return Err(format!("{}: {}", what, m)),
            }
        }
        if vy(&s) != y || d.iter().any(|x| *x != 7.5) {
            return Err("a refused request changed its output".into());
        }
        if before != vec![s.get_num_res_evals(), s.get_num_jac_evals(), s.get_num_steps()] {
            return Err("dense output did work".into());
        }
        Ok(Info::new(q >= 2).c(gave_up, "after a failed call").c(gave_up && s.get_current_order() < q, "after a failed call at reduced order").c(q == 5, "order 5").c(c.normal.is_some(), "Normal output").c(c.sp.ts < 0.0, "backwards"))
    });
    let strat = || {
        (spec(ALL), g(1, 320, 32.0), any::<prop::sample::Index>(), 10..=45i32, prop_oneof![2 => Just(0.0), 1 => g(1, 64, 256.0)], g(1, 64, 64.0), 1..=9i32)
            .prop_map(|(sp, t1, i, e, hin, below, near)| First { i: i.index(sp.n), t1: t1 * sp.ts, sp, e, hin, below: below * 10f64.powi(-near) })
    };
    cx.prop("first call", 40_000, 800_000, strat, |c: &First| {
        let p = Prob::new(&c.sp);
        let mut s = solver(&p);
        let h = c.hin * c.t1;
        s.verif_set_init_step(h);
        p.log.borrow_mut().trap = Some((c.i, 2f64.powi(c.e)));
        let mut t = f64::NAN;
        let r = s.solve(c.t1, &mut t, IdaTask::Normal);
        if r.is_ok() || s.get_num_steps() > 0 {
            return Ok(Info::new(false));
        }
        if t != 0.0 || s.get_current_time() != 0.0 || s.get_last_order() != 0 {
            return Err(format!("a first call that fails: t {:e}, current time {:e}, order {}", t, s.get_current_time(), s.get_last_order()));
        }
        let near = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(a, b)| (a - b).abs() <= 1e-13 * b.abs());
        let (y0, yp0) = (c.sp.exact(0.0), c.sp.exact_d(0.0));
        for ask in [false, true] {
            if ask {
                s.get_solution(0.0).map_err(|e| format!("get_solution(0): {:?}", e))?;
            }
            if !near(&vy(&s), &y0) || !near(&vyp(&s), &yp0) {
                return Err(format!("after a first call that fails: {:?}, {:?}, should be {:?}, {:?}", vy(&s), vyp(&s), y0, yp0));
            }
        }
        let mut d = Array1::from(vec![7.5; c.sp.n]);
        s.get_dky(0.0, 0, &mut d).map_err(|e| format!("get_dky(0, 0): {:?}", e))?;
        if d.to_vec() != y0 {
            return Err(format!("get_dky(0, 0) {:?}, should be {:?}", d, y0));
        }
        let at = -c.below * s.get_actual_init_step();
        if at.abs() < 4e-14 * s.get_current_setp().abs() {
            return Ok(Info::new(false));
        }
        for (what, r) in [("get_solution", s.get_solution(at)), ("get_dky", s.get_dky(at, 0, &mut d))] {
            match r.map_err(|e| format!("{:?}", e)) {
                Err(m) if m.contains("BadTimeValue") => {}
                x => return Err(format!("{} before the initial time: {:?}", what, x)),
            }
        }
        Ok(Info::new(true).c(h != 0.0, "given first step").c(s.get_num_err_test_fails() > 0, "failed error tests").c(s.get_num_nonlin_solv_conv_fails() > 0, "failed Newton iterations"))
    });
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct First {
    pub sp: Spec,
    pub t1: f64,
    pub i: usize,
    pub e: i32,
    pub hin: f64,
    pub below: f64,
}

//! Scripted nonlinear problems: every outcome and value of every callback is generated, every call
//! is recorded. C20, C23..C28, C30 judge the recordings.
use crate::fl::*;
use crate::lin::{lay, to_prec, unit, wide, Lay};
use crate::nl::*;
use crate::run::*;
use nonlinear::Error;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Code {
    Recover,
    Illegal,
    Continue,
    Lin(usize),
    Other,
}
pub fn code_of(e: &Error) -> Code {
    match e {
        Error::ConvergenceRecover {} => Code::Recover,
        Error::IllegalInput {} => Code::Illegal,
        Error::Continue {} => Code::Continue,
        Error::LinearSetupFailed { source } => Code::Lin(crate::lin::col_of(source)),
        #[allow(unreachable_patterns)]
        _ => Code::Other,
    }
}
fn error(c: Code) -> Error {
    match c {
        Code::Recover => Error::ConvergenceRecover {},
        Code::Illegal => Error::IllegalInput {},
        Code::Continue => Error::Continue {},
        Code::Lin(col) => Error::LinearSetupFailed { source: linear::Error::LUFactFail { col } },
        Code::Other => unreachable!(),
    }
}

/// what a callback answered; `flag` is the boolean of setup and ctest
pub type Ans = Result<bool, Code>;

#[derive(Clone, Debug)]
pub enum Ev {
    Sys { y: Vec<f64>, f: Vec<f64>, ans: Ans },
    Setup { y: Vec<f64>, f: Vec<f64>, jbad: bool, ans: Ans },
    Solve { y: Vec<f64>, b: Vec<f64>, x: Vec<f64>, ans: Ans },
    Ctest { y: Vec<f64>, del: Vec<f64>, tol: f64, w: Vec<f64>, counts: Counts, ans: Ans },
}
impl Ev {
    pub fn ans(&self) -> Ans {
        match self {
            Ev::Sys { ans, .. } | Ev::Setup { ans, .. } | Ev::Solve { ans, .. } | Ev::Ctest { ans, .. } => *ans,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Ev::Sys { .. } => "sys",
            Ev::Setup { .. } => "setup",
            Ev::Solve { .. } => "solve",
            Ev::Ctest { .. } => "ctest",
        }
    }
    fn same(&self, o: &Ev) -> bool {
        match (self, o) {
            (Ev::Sys { y, f, ans }, Ev::Sys { y: y2, f: f2, ans: a2 }) => same_v(y, y2) && same_v(f, f2) && ans == a2,
            (Ev::Setup { y, f, jbad, ans }, Ev::Setup { y: y2, f: f2, jbad: j2, ans: a2 }) => same_v(y, y2) && same_v(f, f2) && jbad == j2 && ans == a2,
            (Ev::Solve { y, b, x, ans }, Ev::Solve { y: y2, b: b2, x: x2, ans: a2 }) => same_v(y, y2) && same_v(b, b2) && same_v(x, x2) && ans == a2,
            (Ev::Ctest { y, del, tol, w, counts, ans }, Ev::Ctest { y: y2, del: d2, tol: t2, w: w2, counts: c2, ans: a2 }) => {
                same_v(y, y2) && same_v(del, d2) && same(*tol, *t2) && same_v(w, w2) && counts == c2 && ans == a2
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct V(#[serde(with = "crate::ser::vecf")] pub Vec<f64>);

/// One solve. `choices` are consumed by the callbacks in call order:
/// 0 default (ctest: not converged), 1 the other answer (setup: false, ctest: converged),
/// 2 recoverable, 3 illegal input, 4 "continue" error, 5.. linear setup error at column c-4.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Solve {
    pub inst: usize,
    pub dup: bool,
    pub call: bool,
    pub y0: V,
    #[serde(with = "crate::ser::onef")]
    pub fill: f64,
    pub w: V,
    #[serde(with = "crate::ser::onef")]
    pub tol: f64,
    pub choices: Vec<u8>,
    pub tail: bool,
    pub lays: Option<(Lay, Lay, Lay)>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub n: usize,
    pub single: bool,
    pub maxiters: Vec<usize>,
    pub pool: Vec<V>,
    pub solves: Vec<Solve>,
    /// how values develop from call to call: 0 grow by a constant, 1 repeat, 2 repeat with
    /// alternating sign, 3 double, 4 shrink by an eighth
    #[serde(default)]
    pub rep: u8,
    /// so many setups of a solve may answer "not current" although told the Jacobian is bad
    #[serde(default)]
    pub stubborn: u8,
}

/// iteration limits above this are never reached: such solves are scripted to end
pub const HUGE: usize = 1_000_000;

/// the problem: both the real solver and the model run against it
pub struct Scripted<'a> {
    c: &'a Case,
    s: &'a Solve,
    pos: usize,
    nsys: usize,
    nsolve: usize,
    stubborn: u8,
    pub ev: Vec<Ev>,
    budget: usize,
    pub kinds: Vec<u8>,
}
impl<'a> Scripted<'a> {
    pub fn new(c: &'a Case, s: &'a Solve) -> Self {
        let m = c.maxiters.iter().filter(|m| **m <= HUGE).max().unwrap_or(&0);
        Scripted { c, s, pos: 0, nsys: 0, nsolve: 0, stubborn: c.stubborn, ev: vec![], budget: (4 + c.stubborn as usize) * (3 * m + 4) + 2 * s.choices.len(), kinds: vec![] }
    }
    fn next(&mut self, kind: u8) -> Ans {
        if self.pos >= self.budget {
            panic!("RUNAWAY");
        }
        let c = self.s.choices.get(self.pos).copied();
        self.pos += 1;
        self.kinds.push(kind);
        let c = c.unwrap_or(if kind == 3 && self.s.tail { 1 } else { 0 });
        match c {
            0 => Ok(kind == 1),          // setup true; ctest false
            1 => Ok(kind == 3),          // setup false; ctest true
            2 => Err(Code::Recover),
            3 => Err(Code::Illegal),
            4 => Err(Code::Continue),
            k => Err(Code::Lin(k as usize - 4)),
        }
    }
    fn value(&self, k: usize, shift: usize, add: f64) -> Vec<f64> {
        let p = &self.c.pool;
        let mut v: Vec<f64> = p[(k + shift) % p.len()]
            .0
            .iter()
            .map(|x| match self.c.rep {
                1 => *x,
                2 if k % 2 == 1 => -*x,
                2 => *x,
                3 => crate::fl::ldexp(*x, k.min(500) as i32),
                4 => crate::fl::ldexp(*x, -3 * k.min(100) as i32),
                _ => x + add * k as f64,
            })
            .collect();
        to_prec(self.c.single, &mut v);
        v
    }
}
fn lift<T>(a: Ans, f: impl Fn(bool) -> T) -> Result<T, Error> {
    a.map(f).map_err(error)
}
impl<'a> Prob for Scripted<'a> {
    fn sys(&mut self, y: &[f64], f: &mut [f64]) -> Result<(), Error> {
        let ans = self.next(0);
        let v = self.value(self.nsys, 0, 1.0);
        self.nsys += 1;
        f.copy_from_slice(&v);
        self.ev.push(Ev::Sys { y: y.to_vec(), f: v, ans });
        lift(ans, |_| ())
    }
    fn setup(&mut self, y: &[f64], f: &[f64], jbad: bool) -> Result<bool, Error> {
        let mut ans = self.next(1);
        if jbad && ans == Ok(false) && self.stubborn > 0 {
            self.stubborn -= 1;
        } else if jbad && ans == Ok(false) {
            ans = Ok(true); // told the Jacobian is bad, setup brings it up to date or fails
        }
        self.ev.push(Ev::Setup { y: y.to_vec(), f: f.to_vec(), jbad, ans });
        lift(ans, |b| b)
    }
    fn solve(&mut self, y: &[f64], b: &mut [f64]) -> Result<(), Error> {
        let ans = self.next(2);
        let x = self.value(self.nsolve, 1, 0.5);
        self.nsolve += 1;
        self.ev.push(Ev::Solve { y: y.to_vec(), b: b.to_vec(), x: x.clone(), ans });
        b.copy_from_slice(&x);
        lift(ans, |_| ())
    }
    fn ctest(&mut self, counts: Counts, y: &[f64], del: &[f64], tol: f64, w: &[f64]) -> Result<bool, Error> {
        let ans = self.next(3);
        self.ev.push(Ev::Ctest { y: y.to_vec(), del: del.to_vec(), tol, w: w.to_vec(), counts, ans });
        lift(ans, |b| b)
    }
}

/// recording of one solve
pub struct Tr {
    pub ev: Vec<Ev>,
    /// None: the call budget was exceeded
    pub res: Option<Result<(), Code>>,
    pub y: Vec<f64>,
    pub before: Counts,
    pub after: Counts,
    /// counters of the other solver object changed, or an argument was written
    pub other: Option<String>,
    pub inst: usize,
}

pub fn run_case(c: &Case, use_lays: bool) -> Result<Vec<Tr>, String> {
    let mut nw: Vec<Box<dyn Nw>> = c.maxiters.iter().map(|m| new_newton(c.n, c.single, *m)).collect();
    for (i, s) in nw.iter().enumerate() {
        if s.counts() != (0, 0, 0) {
            return Err(format!("new solver {} has counters {:?}", i, s.counts()));
        }
    }
    let mut out = vec![];
    for s in &c.solves {
        if s.dup && nw.len() > 1 {
            nw[s.inst] = nw[1 - s.inst].dup();
        }
        let before = nw[s.inst].counts();
        let others: Vec<Counts> = nw.iter().map(|n| n.counts()).collect();
        let mut p = Scripted::new(c, s);
        let mut y = vec![s.fill; c.n];
        to_prec(c.single, &mut y);
        let lays = if use_lays { s.lays.as_ref().map(|l| (&l.0, &l.1, &l.2)) } else { None };
        let r = {
            let (nwi, p, y) = (&mut nw[s.inst], &mut p, &mut y);
            std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || nwi.solve(p, &s.y0.0, y, &s.w.0, s.tol, s.call, lays)))
        };
        let (res, other) = match r {
            Ok(Ok(r)) => (Some(r.map_err(|e| code_of(&e))), None),
            Ok(Err(m)) => (Some(Ok(())), Some(m)),
            Err(p) => {
                if p.downcast_ref::<&str>() == Some(&"RUNAWAY") {
                    (None, None)
                } else {
                    std::panic::resume_unwind(p)
                }
            }
        };
        let mut other = other;
        for (i, n) in nw.iter().enumerate() {
            if i != s.inst && n.counts() != others[i] {
                other = Some(format!("a solve on object {} changed the counters of object {}", s.inst, i));
            }
        }
        let done = res.is_none();
        out.push(Tr { ev: std::mem::take(&mut p.ev), res, y, before, after: nw[s.inst].counts(), other, inst: s.inst });
        if done {
            break;
        }
    }
    Ok(out)
}

// ---------------------------------------------------------------- model of SUNNonlinearSolver_Newton

#[derive(Clone, Default)]
pub struct Model {
    jcur: bool,
    curiter: usize,
    maxiters: usize,
    niters: usize,
    nconvfails: usize,
}
impl Model {
    pub fn new(maxiters: usize) -> Self {
        Model { maxiters, ..Default::default() }
    }
    pub fn counts(&self) -> Counts {
        (self.niters, self.curiter, self.nconvfails)
    }
    fn round(single: bool, x: f64) -> f64 {
        if single {
            x as f32 as f64
        } else {
            x
        }
    }
    /// sunnonlinearsolver_newton.c, SUNNonlinSolSolve_Newton
    pub fn solve(&mut self, p: &mut Scripted, single: bool, y0: &[f64], y: &mut Vec<f64>, w: &[f64], tol: f64, call: bool) -> Result<(), Code> {
        let n = y0.len();
        let (mut call, mut jbad) = (call, false);
        let mut delta = vec![0.0; n];
        let retval;
        loop {
            if let Err(e) = p.sys(y0, &mut delta) {
                retval = code_of(&e);
                break;
            }
            if call {
                match p.setup(y0, &delta, jbad) {
                    Ok(j) => self.jcur = j,
                    Err(e) => {
                        retval = code_of(&e);
                        break;
                    }
                }
            }
            self.curiter = 0;
            y.copy_from_slice(y0);
            let r: Code = loop {
                self.niters += 1;
                delta.iter_mut().for_each(|d| *d = -*d);
                if let Err(e) = p.solve(y, &mut delta) {
                    break code_of(&e);
                }
                for i in 0..n {
                    y[i] = Self::round(single, y[i] + delta[i]);
                }
                match p.ctest(self.counts(), y, &delta, tol, w) {
                    Ok(true) => {
                        self.jcur = false;
                        return Ok(());
                    }
                    Ok(false) => {}
                    Err(e) => break code_of(&e),
                }
                self.curiter += 1;
                if self.curiter >= self.maxiters {
                    break Code::Recover;
                }
                if let Err(e) = p.sys(y, &mut delta) {
                    break code_of(&e);
                }
            };
            if r == Code::Recover && !self.jcur {
                self.nconvfails += 1;
                call = true;
                jbad = true;
                continue;
            }
            retval = r;
            break;
        }
        self.nconvfails += 1;
        Err(retval)
    }
}

/// compares a recorded history with the model's
fn against_model(c: &Case, trs: &[Tr]) -> Result<(), String> {
    let mut ms: Vec<Model> = c.maxiters.iter().map(|m| Model::new(*m)).collect();
    for (k, (s, t)) in c.solves.iter().zip(trs).enumerate() {
        if s.dup && ms.len() > 1 {
            ms[s.inst] = ms[1 - s.inst].clone();
        }
        let mut p = Scripted::new(c, s);
        let mut y = vec![s.fill; c.n];
        to_prec(c.single, &mut y);
        let r = ms[s.inst].solve(&mut p, c.single, &s.y0.0, &mut y, &s.w.0, s.tol, s.call);
        for i in 0..p.ev.len().max(t.ev.len()) {
            match (p.ev.get(i), t.ev.get(i)) {
                (Some(a), Some(b)) if a.same(b) => {}
                (a, b) => return Err(format!("solve {}, call {}: SUNDIALS makes {:?}, the solver {:?}", k, i, a, b)),
            }
        }
        if let Some(o) = &t.other {
            return Err(format!("solve {}: {}", k, o));
        }
        match t.res {
            None => return Err(format!("solve {} goes on calling the problem", k)),
            Some(got) => {
                if got != r {
                    return Err(format!("solve {}: SUNDIALS returns {:?}, the solver {:?}", k, r, got));
                }
            }
        }
        if r.is_ok() && !same_v(&y, &t.y) {
            return Err(format!("solve {}: SUNDIALS ends at {:?}, the solver at {:?}", k, y, t.y));
        }
        let m = ms[s.inst].counts();
        if m != t.after {
            return Err(format!("solve {}: counters (iterations, current, failures) are {:?} in SUNDIALS, {:?} here", k, m, t.after));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- attempts

/// half-open ranges of events forming the attempts of a solve
fn attempts(ev: &[Ev], maxiters: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = 0;
    let mut tests = 0;
    for (i, e) in ev.iter().enumerate() {
        let end = match e {
            Ev::Ctest { ans: Ok(true), .. } => true,
            Ev::Ctest { ans: Ok(false), .. } => {
                tests += 1;
                tests >= maxiters
            }
            e => e.ans().is_err(),
        };
        if end {
            v.push((start, i + 1));
            start = i + 1;
            tests = 0;
        }
    }
    if start < ev.len() {
        v.push((start, ev.len()));
    }
    v
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum End {
    Converged,
    /// exhausted or recoverable, after the iteration had begun
    Recoverable,
    /// recoverable failure of sys or setup before the iteration
    Early,
    Fatal(Code),
    /// stopped without any reason visible in the calls
    Cut,
}
fn ending(ev: &[Ev], maxiters: usize) -> End {
    let begun = ev.iter().any(|e| matches!(e, Ev::Solve { .. }));
    let tests = ev.iter().filter(|e| matches!(e, Ev::Ctest { ans: Ok(false), .. })).count();
    match ev.last() {
        None => End::Cut,
        Some(Ev::Ctest { ans: Ok(true), .. }) => End::Converged,
        Some(Ev::Ctest { ans: Ok(false), .. }) if tests >= maxiters => End::Recoverable,
        Some(e) => match e.ans() {
            Err(Code::Recover) if begun => End::Recoverable,
            Err(Code::Recover) => End::Early,
            Err(c) => End::Fatal(c),
            Ok(_) => End::Cut,
        },
    }
}

struct Walk<'a> {
    c: &'a Case,
    trs: &'a [Tr],
}
/// judges every solve of a history; gets the solve, its recording, the attempts and the maximum iterations
fn each(c: &Case, trs: &[Tr], mut f: impl FnMut(usize, &Solve, &Tr, &[(usize, usize)], usize) -> Result<(), String>) -> Result<(), String> {
    let mut maxi = c.maxiters.clone();
    let w = Walk { c, trs };
    for (k, (s, t)) in w.c.solves.iter().zip(w.trs).enumerate() {
        if s.dup && maxi.len() > 1 {
            maxi[s.inst] = maxi[1 - s.inst];
        }
        let at = attempts(&t.ev, maxi[s.inst]);
        f(k, s, t, &at, maxi[s.inst]).map_err(|m| format!("solve {}: {}", k, m))?;
    }
    Ok(())
}

fn classify(c: &Case, trs: &[Tr]) -> Info {
    let mut retry = false;
    let mut retry_ok = false;
    let mut early = false;
    let mut fatal = false;
    let mut ok = 0;
    let mut rec = false;
    let mut carried = false;
    let _ = each(c, trs, |k, _, t, at, m| {
        if at.len() > 1 {
            retry = true;
            if t.res == Some(Ok(())) {
                retry_ok = true;
            }
            if k > 0 {
                carried = true;
            }
        }
        match at.last().map(|a| ending(&t.ev[a.0..a.1], m)) {
            Some(End::Early) => early = true,
            Some(End::Fatal(_)) => fatal = true,
            Some(End::Converged) => ok += 1,
            Some(End::Recoverable) => rec = true,
            _ => {}
        }
        Ok(())
    });
    Info::new(retry || early || fatal || rec || ok > 1)
        .c(retry, "retry")
        .c(retry_ok, "retry converges")
        .c(early, "failure before the iteration")
        .c(fatal, "unrecoverable error")
        .c(rec, "final convergence failure")
        .c(carried, "retry in a later solve")
        .c(ok > 0, "converges")
        .c(trs.len() > 2, "three or more solves")
}

// ---------------------------------------------------------------- generators

fn numv(n: usize, single: bool) -> BoxedStrategy<V> {
    let big = if single { 1e30 } else { 1e300 };
    prop::collection::vec(
        prop_oneof![
            6 => unit(),
            3 => (-9i32..=9).prop_map(|x| x as f64),
            1 => Just(0.0),
            1 => Just(-0.0),
            1 => wide(if single { 30 } else { 200 }),
            1 => prop::sample::select(vec![big, -big, 1e-38, 1.0 / 3.0]),
            1 => prop_oneof![12 => Just(1.0), 1 => Just(f64::NAN), 1 => Just(f64::INFINITY), 1 => Just(f64::NEG_INFINITY), 1 => Just(5e-324)],
        ],
        n,
    )
    .prop_map(move |mut v| {
        to_prec(single, &mut v);
        V(v)
    })
    .boxed()
}
fn choices(len: usize) -> BoxedStrategy<Vec<u8>> {
    // different tempers: mostly smooth, mostly not converging, rough, fatal late
    prop_oneof![
        prop::collection::vec(prop_oneof![14 => Just(0u8), 6 => Just(1u8), 2 => Just(2u8), 1 => 3u8..9], 0..len),
        prop::collection::vec(prop_oneof![30 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8), 1 => 3u8..9], 0..len),
        prop::collection::vec(prop_oneof![8 => Just(0u8), 4 => Just(1u8), 4 => Just(2u8), 1 => 3u8..12], 0..len),
        (prop::collection::vec(prop_oneof![Just(0u8), Just(0u8), Just(1u8)], 0..len), prop_oneof![Just(2u8), 2u8..9]).prop_map(|(mut v, x)| {
            v.push(x);
            v
        }),
    ]
    .boxed()
}
fn one_solve(n: usize, single: bool, len: usize) -> BoxedStrategy<Solve> {
    (
        (0usize..2, prop::bool::weighted(0.05), any::<bool>()),
        numv(n, single),
        prop_oneof![Just(0.0), Just(f64::NAN), Just(-1e9), Just(f64::INFINITY)],
        numv(n, single),
        prop_oneof![Just(0.1), Just(1e-8), Just(3.0), Just(0.0)],
        choices(len),
        any::<bool>(),
        prop::option::weighted(0.5, (lay(), lay(), lay())),
    )
        .prop_map(move |((inst, dup, call), y0, fill, w, tol, choices, tail, lays)| {
            let tol = if single { tol as f32 as f64 } else { tol };
            Solve { inst, dup, call, y0, fill, w, tol, choices, tail, lays }
        })
        .boxed()
}
pub fn case(maxn: usize, nsolves: usize, maxit: usize) -> BoxedStrategy<Case> {
    let size = if maxn > 10 { prop::sample::select(vec![12usize, 16, 20, 33, 40, 63]).boxed() } else { (1..=maxn).boxed() };
    (size, prop::bool::weighted(0.25), prop_oneof![3 => 1..=3usize.min(maxit), 2 => 1..=maxit], 1..=maxit, prop::bool::weighted(0.03), prop_oneof![3 => Just(0u8), 2 => 1u8..5])
        .prop_flat_map(move |(n, single, m0, m1, huge, rep)| {
            (prop::collection::vec(numv(n, single), 1..4), prop::collection::vec(one_solve(n, single, 6 * m0.max(m1) + 6), 1..=nsolves))
                .prop_map(move |(pool, mut solves)| {
                    let m1 = if huge { usize::MAX - m1 + 1 } else { m1 };
                    if huge {
                        solves.iter_mut().for_each(|s| s.tail = true);
                    }
                    Case { n, single, maxiters: vec![m0, m1], pool, solves, rep, stubborn: 0 }
                })
        })
        .boxed()
}
fn small_case(choices: Vec<Vec<u8>>, calls: &[bool], m: usize) -> Case {
    let solves = choices
        .into_iter()
        .zip(calls)
        .enumerate()
        .map(|(k, (choices, call))| Solve {
            inst: 0,
            dup: false,
            call: *call,
            y0: V(vec![k as f64 + 1.0, -2.5]),
            fill: f64::NAN,
            w: V(vec![1.0, 3.0]),
            tol: 0.25,
            choices,
            tail: k % 2 == 0,
            lays: None,
        })
        .collect();
    Case { n: 2, single: false, maxiters: vec![m], pool: vec![V(vec![0.75, -3.0]), V(vec![8.0, 0.0]), V(vec![-1.0, 0.125])], solves, rep: 0, stubborn: 0 }
}
/// Every sequence of answers (per solve at most `depth` free ones) the model can be led through.
pub struct Tree {
    m: usize,
    calls: Vec<bool>,
    opts: [Vec<u8>; 4],
    depth: usize,
    /// current choices per solve, as indices into the option lists
    cur: Option<Vec<Vec<usize>>>,
}
impl Tree {
    pub fn new(m: usize, calls: Vec<bool>, opts: [Vec<u8>; 4], depth: usize) -> Self {
        Tree { m, cur: Some(vec![vec![]; calls.len()]), calls, opts, depth }
    }
    fn kinds(&self, cur: &[Vec<usize>]) -> Vec<Vec<u8>> {
        // walk the model along the current choices (first option once they run out)
        let mut m = Model::new(self.m);
        let mut out: Vec<Vec<u8>> = vec![];
        for k in 0..cur.len() {
            let mut ks: Vec<u8> = vec![];
            // extend the choices call by call until the solve ends or the depth is reached
            let mut ch: Vec<u8> = vec![];
            loop {
                let c = small_case(vec![ch.clone()], &[self.calls[k]], self.m);
                let mut p = Scripted::new(&c, &c.solves[0]);
                let mut mm = m.clone();
                let mut y = vec![0.0; 2];
                let _ = mm.solve(&mut p, false, &[1.0, 1.0], &mut y, &[1.0, 1.0], 0.1, self.calls[k]);
                let made = p.kinds;
                if made.len() <= ch.len() || ch.len() >= self.depth {
                    m = mm;
                    break;
                }
                let kind = made[ch.len()];
                let i = cur[k].get(ch.len()).copied().unwrap_or(0);
                ks.push(kind);
                ch.push(self.opts[kind as usize][i]);
            }
            out.push(ks);
        }
        out
    }
}
impl Iterator for Tree {
    type Item = Case;
    fn next(&mut self) -> Option<Case> {
        let mut cur = self.cur.take()?;
        let kinds = self.kinds(&cur);
        for (c, k) in cur.iter_mut().zip(&kinds) {
            c.resize(k.len(), 0);
        }
        let ch: Vec<Vec<u8>> = cur.iter().zip(&kinds).map(|(c, k)| c.iter().zip(k).map(|(i, kd)| self.opts[*kd as usize][*i]).collect()).collect();
        let case = small_case(ch, &self.calls, self.m);
        // next in order: last position that can still be advanced
        let mut next = cur.clone();
        'o: for s in (0..cur.len()).rev() {
            for i in (0..cur[s].len()).rev() {
                if cur[s][i] + 1 < self.opts[kinds[s][i] as usize].len() {
                    next[s].truncate(i + 1);
                    next[s][i] += 1;
                    for t in s + 1..cur.len() {
                        next[t].clear();
                    }
                    self.cur = Some(next);
                    break 'o;
                }
            }
            next[s].clear();
        }
        Some(case)
    }
}

// ---------------------------------------------------------------- the properties

/// a solve that never stops is C23's and C28's business
fn stopped(trs: &[Tr]) -> bool {
    trs.iter().all(|t| t.res.is_some())
}

fn judge_c20(c: &Case, trs: &[Tr]) -> Result<(), String> {
    each(c, trs, |_, s, t, at, _| {
        let conv: Vec<usize> = t.ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Ctest { ans: Ok(true), .. })).map(|x| x.0).collect();
        match (t.res, conv.first()) {
            (Some(Ok(())), None) => return Err("success although the convergence test never answered converged".into()),
            (Some(Ok(())), Some(i)) if *i + 1 != t.ev.len() => return Err(format!("the test answered converged at call {}, but {} more calls were made", i, t.ev.len() - i - 1)),
            (Some(Ok(())), Some(i)) => {
                let Ev::Ctest { y, .. } = &t.ev[*i] else { unreachable!() };
                if !same_v(y, &t.y) {
                    return Err(format!("returned {:?}, but the iterate accepted was {:?}", t.y, y));
                }
                // initial iterate plus the corrections of the last attempt
                let a = at.last().unwrap();
                let mut acc = s.y0.0.clone();
                for e in &t.ev[a.0..a.1] {
                    if let Ev::Solve { x, .. } = e {
                        for k in 0..acc.len() {
                            acc[k] = Model::round(c.single, acc[k] + x[k]);
                        }
                    }
                }
                if !same_v(&acc, &t.y) {
                    return Err(format!("returned {:?}, initial iterate plus corrections is {:?}", t.y, acc));
                }
            }
            (Some(Err(e)), Some(i)) => return Err(format!("the test answered converged at call {}, the solve returned {:?}", i, e)),
            (None, Some(i)) => return Err(format!("the test answered converged at call {}, the solve went on", i)),
            _ => {}
        }
        Ok(())
    })
}

fn judge_c23(c: &Case, trs: &[Tr]) -> Result<(), String> {
    each(c, trs, |_, _, t, at, m| {
        let Some(res) = t.res else { return Err(format!("no end after {} calls with at most {} iterations per attempt", t.ev.len(), m)) };
        for (k, a) in at.iter().enumerate() {
            let n = t.ev[a.0..a.1].iter().filter(|e| matches!(e, Ev::Solve { .. })).count();
            if n > m {
                return Err(format!("attempt {} makes {} corrections, at most {} are allowed", k, n, m));
            }
        }
        if at.len() > 2 {
            return Err(format!("{} attempts", at.len()));
        }
        if let Some(a) = at.last() {
            match ending(&t.ev[a.0..a.1], m) {
                End::Recoverable | End::Early if res != Err(Code::Recover) => return Err(format!("convergence failed, but the solve returned {:?}", res)),
                End::Cut => return Err(format!("stopped after {} although nothing failed and the test had not been passed (result {:?})", t.ev[a.1 - 1].name(), res)),
                _ => {}
            }
        }
        Ok(())
    })
}

fn judge_c24(c: &Case, trs: &[Tr]) -> Result<(), String> {
    let mut jcur = vec![false; c.maxiters.len()];
    each(c, trs, |_, s, t, at, m| {
        if s.dup && jcur.len() > 1 {
            jcur[s.inst] = jcur[1 - s.inst];
        }
        for (k, a) in at.iter().enumerate() {
            let ev = &t.ev[a.0..a.1];
            let begin = ev.iter().position(|e| matches!(e, Ev::Solve { .. })).unwrap_or(ev.len());
            let setups: Vec<usize> = ev.iter().enumerate().filter(|(_, e)| matches!(e, Ev::Setup { .. })).map(|x| x.0).collect();
            // prologue: residual at y0, then setup exactly when due
            match &ev[0] {
                Ev::Sys { y, .. } if same_v(y, &s.y0.0) => {}
                e => return Err(format!("attempt {} starts with {:?}, not with the residual at the initial iterate", k, e)),
            }
            let due = k > 0 || s.call;
            if setups.len() > 1 || setups.iter().any(|i| *i > begin) {
                return Err(format!("attempt {}: setup called {} times or during the iteration", k, setups.len()));
            }
            if setups.is_empty() && due && begin < ev.len() {
                return Err(format!("attempt {} iterates without the setup that was due", k));
            }
            if let Some(i) = setups.first() {
                if !due {
                    return Err("setup called although neither asked for nor needed".into());
                }
                if let Ev::Setup { y, f, jbad, ans } = &ev[*i] {
                    if *jbad != (k > 0) {
                        return Err(format!("attempt {}: setup flagged jbad = {}", k, jbad));
                    }
                    if !same_v(y, &s.y0.0) {
                        return Err(format!("attempt {}: setup at {:?} instead of the initial iterate", k, y));
                    }
                    if let Some(Ev::Sys { f: f0, .. }) = ev[..*i].last() {
                        if !same_v(f, f0) {
                            return Err(format!("attempt {}: setup got residual {:?} instead of {:?}", k, f, f0));
                        }
                    }
                    if let Ok(j) = ans {
                        jcur[s.inst] = *j;
                    }
                }
            }
            if let Some(Ev::Solve { y, .. }) = ev.get(begin) {
                if !same_v(y, &s.y0.0) {
                    return Err(format!("attempt {} starts iterating at {:?}", k, y));
                }
            }
            let end = ending(ev, m);
            if end == End::Cut && k > 0 {
                return Err("the retry stopped before its iterations were used up".into());
            }
            let last = k + 1 == at.len();
            let retry = end == End::Recoverable && !jcur[s.inst] && k == 0;
            if retry && last {
                return Err(format!("the iteration failed on a Jacobian not known to be current, but there was no retry (result {:?})", t.res));
            }
            if !retry && !last {
                return Err(format!("a further attempt after attempt {} ended with {:?} (Jacobian current: {})", k, end, jcur[s.inst]));
            }
            if last && at.len() == 2 {
                let want = match end {
                    End::Converged => Ok(()),
                    End::Recoverable | End::Early => Err(Code::Recover),
                    End::Fatal(c) => Err(c),
                    End::Cut => unreachable!(),
                };
                match t.res {
                    Some(r) if r == want => {}
                    r => return Err(format!("the retry ended with {:?}, the solve returned {:?}", end, r)),
                }
            }
            if end == End::Converged {
                jcur[s.inst] = false;
            }
        }
        Ok(())
    })
}

fn judge_c25(c: &Case, trs: &[Tr]) -> Result<(), String> {
    each(c, trs, |_, _, t, at, m| {
        let mut begun = false;
        let mut upto = at.iter().map(|a| a.1).collect::<Vec<_>>();
        upto.retain(|x| *x < t.ev.len());
        for (i, e) in t.ev.iter().enumerate() {
            if upto.contains(&i) {
                begun = false;
            }
            if matches!(e, Ev::Solve { .. }) {
                begun = true;
            }
            let stop = match e.ans() {
                Err(Code::Recover) => !begun,
                Err(_) => true,
                Ok(_) => false,
            };
            if stop {
                let want = e.ans().unwrap_err();
                if i + 1 != t.ev.len() {
                    return Err(format!("{} failed with {:?} at call {}, yet {} more calls were made", e.name(), want, i, t.ev.len() - i - 1));
                }
                if t.res != Some(Err(want)) {
                    return Err(format!("{} failed with {:?}, the solve returned {:?}", e.name(), want, t.res));
                }
                return Ok(());
            }
        }
        // no unrecoverable error: none may be invented
        if let (Some(Err(x)), Some(a)) = (t.res, at.last()) {
            let end = ending(&t.ev[a.0..a.1], m);
            if x != Code::Recover || end == End::Converged {
                return Err(format!("no callback failed with {:?}, yet the solve returned it", x));
            }
        }
        if let (Some(Ok(())), Some(e)) = (t.res, t.ev.last()) {
            if e.ans().is_err() {
                return Err(format!("{} failed with {:?}, the solve returned success", e.name(), e.ans()));
            }
        }
        Ok(())
    })
}

fn judge_c26(c: &Case, trs: &[Tr]) -> Result<(), String> {
    let mut tot: Vec<(usize, usize)> = vec![(0, 0); c.maxiters.len()];
    each(c, trs, |_, s, t, at, m| {
        if s.dup && tot.len() > 1 {
            tot[s.inst] = tot[1 - s.inst];
        }
        let (mut it, mut fails) = tot[s.inst];
        if (t.before.0, t.before.2) != (it, fails) {
            return Err(format!("counters {:?} before the solve, expected {} iterations and {} failures", t.before, it, fails));
        }
        let mut cur = None;
        for (k, a) in at.iter().enumerate() {
            if k > 0 {
                fails += 1;
            }
            let mut asked = 0;
            for e in &t.ev[a.0..a.1] {
                match e {
                    Ev::Solve { .. } => {
                        it += 1;
                        cur = Some(asked);
                    }
                    Ev::Ctest { counts, ans, .. } => {
                        if *counts != (it, asked, fails) {
                            return Err(format!("inside the convergence test the counters (iterations, current, failures) are {:?}, expected {:?}", counts, (it, asked, fails)));
                        }
                        if *ans == Ok(false) {
                            asked += 1;
                        }
                        cur = Some(asked);
                    }
                    _ => {}
                }
            }
        }
        let _ = m;
        match t.res {
            Some(Err(_)) => fails += 1,
            Some(Ok(())) => {}
            None => return Ok(()),
        }
        if (t.after.0, t.after.2) != (it, fails) {
            return Err(format!("after the solve the counters are {:?}, expected {} iterations and {} failures", t.after, it, fails));
        }
        // the current-iteration count belongs to the last attempt that began to iterate
        let last_began = at.last().map_or(false, |a| t.ev[a.0..a.1].iter().any(|e| matches!(e, Ev::Solve { .. })));
        if let (true, Some(cur)) = (last_began, cur) {
            if t.after.1 != cur {
                return Err(format!("current-iteration count {} after the solve, expected {}", t.after.1, cur));
            }
        }
        if t.after.0 < t.before.0 || t.after.2 < t.before.2 {
            return Err("a counter went down".into());
        }
        tot[s.inst] = (it, fails);
        Ok(())
    })?;
    for t in trs {
        if let Some(o) = &t.other {
            if o.contains("counters") {
                return Err(o.clone());
            }
        }
    }
    Ok(())
}

fn judge_c27(c: &Case, trs: &[Tr]) -> Result<(), String> {
    each(c, trs, |_, s, t, at, _| {
        if let Some(o) = &t.other {
            if o.contains("iterate") || o.contains("weights") {
                return Err(o.clone());
            }
        }
        for (k, a) in at.iter().enumerate() {
            let mut y = s.y0.0.clone();
            let mut f: Option<&Vec<f64>> = None;
            let mut x: Option<&Vec<f64>> = None;
            for e in &t.ev[a.0..a.1] {
                match e {
                    Ev::Sys { y: at, f: out, .. } => {
                        if !same_v(at, &y) {
                            return Err(format!("attempt {}: residual evaluated at {:?}, current iterate is {:?}", k, at, y));
                        }
                        f = Some(out);
                        x = None;
                    }
                    Ev::Setup { y: at, f: r, .. } => {
                        if !same_v(at, &s.y0.0) {
                            return Err(format!("attempt {}: setup at {:?} instead of the initial iterate", k, at));
                        }
                        match f {
                            Some(v) if same_v(v, r) => {}
                            v => return Err(format!("attempt {}: setup got residual {:?}, the last one is {:?}", k, r, v)),
                        }
                    }
                    Ev::Solve { y: at, b, x: out, .. } => {
                        if !same_v(at, &y) {
                            return Err(format!("attempt {}: linear solve at {:?}, current iterate is {:?}", k, at, y));
                        }
                        let Some(v) = f else { return Err(format!("attempt {}: linear solve without a residual", k)) };
                        let neg: Vec<f64> = v.iter().map(|z| -z).collect();
                        if !same_v(b, &neg) {
                            return Err(format!("attempt {}: right-hand side {:?}, negated residual is {:?}", k, b, neg));
                        }
                        f = None; // used up
                        x = Some(out);
                    }
                    Ev::Ctest { y: at, del, tol, w, .. } => {
                        let Some(v) = x else { return Err(format!("attempt {}: convergence test without a correction", k)) };
                        if !same_v(del, v) {
                            return Err(format!("attempt {}: test got correction {:?}, the linear solve returned {:?}", k, del, v));
                        }
                        for i in 0..y.len() {
                            y[i] = Model::round(c.single, y[i] + v[i]);
                        }
                        if !same_v(at, &y) {
                            return Err(format!("attempt {}: tested {:?}, the updated iterate is {:?}", k, at, y));
                        }
                        if !same(*tol, s.tol) {
                            return Err(format!("tolerance {:e} instead of {:e}", tol, s.tol));
                        }
                        if !same_v(w, &s.w.0) {
                            return Err(format!("weights {:?} instead of {:?}", w, s.w.0));
                        }
                    }
                }
            }
        }
        Ok(())
    })
}

type Judge = fn(&Case, &[Tr]) -> Result<(), String>;

/// all answer sequences for one solve, and for histories of two
fn trees(thorough: bool) -> impl Iterator<Item = Case> + Send {
    let full: [Vec<u8>; 4] = [vec![0, 2, 3, 5], vec![0, 1, 2, 3, 6], vec![0, 2, 3, 4], vec![0, 1, 2, 3]];
    let slim: [Vec<u8>; 4] = [vec![0, 2, 3], vec![0, 1, 2, 3], vec![0, 2, 3], vec![0, 1, 2, 3]];
    let lean: [Vec<u8>; 4] = [vec![0, 2], vec![0, 1, 2], vec![0, 2], vec![0, 1, 2]];
    let mut v: Vec<Tree> = vec![];
    for m in 1..=4 {
        for call in [false, true] {
            v.push(Tree::new(m, vec![call], full.clone(), 60));
        }
    }
    for m in 1..=2 {
        for k in 0..4 {
            v.push(Tree::new(m, vec![k & 1 > 0, k & 2 > 0], if thorough || m == 1 { slim.clone() } else { lean.clone() }, 40));
        }
    }
    for m in 1..=if thorough { 2 } else { 1 } {
        for k in 0..8 {
            v.push(Tree::new(m, vec![k & 1 > 0, k & 2 > 0, k & 4 > 0], lean.clone(), 30));
        }
    }
    v.into_iter().flatten()
}

fn scripted(cx: &mut Ctx, judge: Judge, skip_runaway: bool) {
    cx.rule("the history contains a retry, a failure, or at least two converging solves");
    cx.assume("setup, once told the Jacobian is bad, brings it up to date or fails (as SUNDIALS requires); at least one iteration is allowed; the iterate left by a failed solve is not judged");
    let test = move |c: &Case| -> Res {
        let trs = run_case(c, false)?;
        if skip_runaway && !stopped(&trs) {
            return Ok(Info::new(false).c(true, "not judged (does not stop)"));
        }
        judge(c, &trs)?;
        Ok(classify(c, &trs))
    };
    cx.prop("histories", 300_000, 4_000_000, || case(6, 8, 8), test);
    cx.prop("single solves", 300_000, 4_000_000, || case(3, 1, 4), test);
    cx.prop("long iterations", 20_000, 400_000, || case(2, 3, 40), test);
    cx.prop("very long iterations", 2_000, 40_000, || case(2, 2, 400), test);
    cx.prop("large systems", 8_000, 150_000, || case(63, 4, 5), test);
    // high iteration limits: exhausted, converging at the very last iteration, or one before
    let mut high = vec![];
    for m in [10usize, 31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 1025, 5000] {
        for call in [false, true] {
            for early in 0..3usize {
                let mut ch = vec![0u8; 2 + call as usize + 3 * (m - 1) + 1];
                let at = ch.len() - 1;
                match early {
                    0 => {}
                    1 => ch[at] = 1,
                    _ => ch[at - 3] = 1,
                }
                for rep in 0..=(if m > 300 { 0 } else { 4 }) {
                    let mut c = small_case(vec![ch.clone(), ch.clone()], &[call, !call], m);
                    c.rep = rep;
                    for s in c.solves.iter_mut() {
                        s.tail = false;
                    }
                    high.push(c);
                }
            }
        }
    }
    marathon(cx, judge);
    cx.enumerate("high iteration limits", "iteration limits 10 to 5000, two solves each: exhausted, converging at the last iteration, one before; values that grow, repeat, alternate, double, shrink", high.into_iter(), test);
    let th = cx.thorough;
    cx.enumerate("all answer sequences", "every sequence of answers (first/second answer, recoverable, unrecoverable, linear error) to a single solve with 1..4 iterations per attempt; two solves (1..2 iterations) and three solves (1 iteration) with the answers that steer the retry logic", trees(th), test);
}

pub fn c20(cx: &mut Ctx) {
    scripted(cx, judge_c20, true)
}
pub fn c23(cx: &mut Ctx) {
    scripted(cx, judge_c23, false)
}
pub fn c24(cx: &mut Ctx) {
    scripted(cx, judge_c24, false)
}
pub fn c25(cx: &mut Ctx) {
    // every callback x every call index x every error value, placed in otherwise regular solves
    let mut base: Vec<(usize, Vec<bool>, Vec<Vec<u8>>)> = vec![];
    for m in 1..=5usize {
        for call in [false, true] {
            // a long first attempt that exhausts its iterations, a retry that converges late, and quick ones
            base.push((m, vec![call], vec![vec![]]));
            base.push((m, vec![call, !call], vec![vec![], vec![]]));
            base.push((m, vec![call, call, false], vec![vec![0, 0, 1, 1], vec![], vec![]]));
        }
    }
    let mut cases = vec![];
    for (m, calls, ch) in base {
        for solve in 0..calls.len() {
            for pos in 0..(2 * (3 * m + 2)) {
                for what in [2u8, 3, 4, 5, 6, 9] {
                    let mut c = small_case(ch.clone(), &calls, m);
                    let v = &mut c.solves[solve].choices;
                    if v.len() <= pos {
                        v.resize(pos, 0);
                        v.push(what);
                    } else {
                        v[pos] = what;
                    }
                    for s in c.solves.iter_mut() {
                        s.tail = false;
                    }
                    cases.push(c);
                }
            }
        }
    }
    let test = |c: &Case| -> Res {
        let trs = run_case(c, false)?;
        judge_c25(c, &trs)?;
        let mut i = classify(c, &trs);
        i.nontrivial = trs.iter().any(|t| t.ev.iter().any(|e| e.ans().is_err()));
        Ok(i)
    };
    cx.enumerate("single faults", "one failure (recoverable, illegal input, continue, linear error with columns 1, 2, 5) at every call index of regular one-, two- and three-solve histories, 1..5 iterations per attempt", cases.into_iter(), test);
    scripted(cx, judge_c25, false);
}
/// counters beyond every small integer type
fn marathon(cx: &mut Ctx, judge: Judge) {
    let mut long = small_case(vec![vec![0; 3 * 70_000 + 8]], &[true], 70_000);
    let mut many = small_case(vec![vec![0, 1]; 33_000], &vec![true; 33_000], 1);
    for s in long.solves.iter_mut().chain(many.solves.iter_mut()) {
        s.tail = false;
    }
    cx.enumerate("marathons", "one solve of 70000 iterations; 33000 solves that fail, are retried and fail again", vec![long, many].into_iter(), move |c: &Case| -> Res {
        let trs = run_case(c, false)?;
        judge(c, &trs)?;
        Ok(classify(c, &trs))
    });
}
pub fn c26(cx: &mut Ctx) {
    scripted(cx, judge_c26, true)
}
pub fn c27(cx: &mut Ctx) {
    scripted(cx, judge_c27, true)
}
pub fn c28(cx: &mut Ctx) {
    scripted(cx, against_model, false);
    cx.prop("setups that do not help", 60_000, 1_000_000, || {
        (case(3, 4, 4), 1u8..6).prop_map(|(mut c, k)| {
            c.stubborn = k;
            c
        }).boxed()
    }, |c: &Case| -> Res {
        let trs = run_case(c, false)?;
        against_model(c, &trs)?;
        let mut i = classify(c, &trs);
        i.nontrivial = trs.iter().any(|t| t.ev.iter().any(|e| matches!(e, Ev::Setup { jbad: true, ans: Ok(false), .. })));
        Ok(i)
    });
}

/// same history with owned vectors and with views
pub fn c30(cx: &mut Ctx) {
    cx.rule("some argument of some solve is a strided view");
    let test = |c: &Case| -> Res {
        let a = run_case(c, false)?;
        let b = run_case(c, true)?;
        for (k, (s, t)) in a.iter().zip(&b).enumerate() {
            if let Some(o) = &t.other {
                return Err(format!("solve {} with views: {}", k, o));
            }
            if s.res != t.res || s.after != t.after || s.ev.len() != t.ev.len() {
                return Err(format!("solve {}: {:?} {:?} after {} calls with owned vectors, {:?} {:?} after {} calls with views", k, s.res, s.after, s.ev.len(), t.res, t.after, t.ev.len()));
            }
            for (i, (x, y)) in s.ev.iter().zip(&t.ev).enumerate() {
                if !x.same(y) {
                    return Err(format!("solve {} call {}: {:?} with owned vectors, {:?} with views", k, i, x, y));
                }
            }
            if s.res == Some(Ok(())) && !same_v(&s.y, &t.y) {
                return Err(format!("solve {}: {:?} with owned vectors, {:?} with views", k, s.y, t.y));
            }
        }
        if a.len() != b.len() {
            return Err("one history stops early".into());
        }
        let viewed = c.solves.iter().any(|s| s.lays.as_ref().map_or(false, |l| !(l.0.owned && l.1.owned && l.2.owned)));
        Ok(Info::new(viewed)
            .c(c.solves.iter().any(|s| s.lays.as_ref().map_or(false, |l| !l.1.owned && l.1.rgap > 0)), "strided output")
            .c(b.iter().any(|t| t.res == Some(Ok(()))), "converges"))
    };
    cx.prop("views", 300_000, 4_000_000, || case(6, 4, 5), test);
    cx.prop("large views", 8_000, 150_000, || case(63, 4, 5), test);
}

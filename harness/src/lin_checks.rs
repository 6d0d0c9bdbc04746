//! C01..C08: the dense LU solver.
use crate::fl::*;
use crate::lin::*;
use crate::run::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

fn fail<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}

/// b - A x in double-double
fn residual(n: usize, a: &[f64], x: &[f64], b: &[f64]) -> Vec<f64> {
    (0..n)
        .map(|i| {
            let mut s = DD::from(b[i]);
            for j in 0..n {
                s = s.add(DD::prod(a[j * n + i], x[j]).neg());
            }
            s.val()
        })
        .collect()
}
/// (|L||U|) row i, column j of the reference factors, rows in factor order
fn abs_lu(n: usize, lu: &[f64]) -> Vec<f64> {
    let mut m = vec![0.0; n * n];
    for j in 0..n {
        for i in 0..n {
            let mut s = 0.0;
            for k in 0..=i.min(j) {
                let l = if k == i { 1.0 } else { lu[k * n + i].abs() };
                s += l * lu[j * n + k].abs();
            }
            m[j * n + i] = s;
        }
    }
    m
}
/// elimination carried out comfortably inside the exponent range?
fn roomy(v: &[f64], single: bool) -> bool {
    let (lo, hi) = if single { (1e-36, 1e36) } else { (1e-300, 1e300) };
    v.iter().all(|x| *x == 0.0 || (x.abs() > lo && x.abs() < hi))
}

fn judge_solution(s: &Sys, r: &Ref, x: &[f64], what: &str) -> Result<(), String> {
    let n = s.n;
    if x.iter().any(|v| !v.is_finite()) {
        return fail(format!("{}: x is not finite: {:?}", what, x));
    }
    let res = residual(n, &s.a, x, &s.b);
    let g = abs_lu(n, &r.lu);
    let eps = eps_of(s.single) * (2.0 * n as f64 + 8.0);
    let xmax = x.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    let umax = r.lu.iter().fold(1.0f64, |m, v| m.max(v.abs()));
    let abs_slack = 32.0 * (n * n) as f64 * tiny_of(s.single) * (1.0 + xmax) * (1.0 + umax);
    let mut bound = vec![0.0; n];
    for i in 0..n {
        let mut t = 0.0;
        for j in 0..n {
            t += g[j * n + i] * x[j].abs();
        }
        bound[r.perm[i]] = eps * t + abs_slack;
    }
    if r.ties {
        // another choice among equal candidates permutes and rescales the rows
        let m = bound.iter().fold(0.0f64, |m, v| m.max(*v));
        bound.iter_mut().for_each(|b| *b = 64.0 * m);
    }
    for i in 0..n {
        if !(res[i].abs() <= bound[i]) {
            return fail(format!(
                "{}: component {} of b - A x is {:e}, elimination can only account for {:e}; x = {:?}",
                what, i, res[i], bound[i], x
            ));
        }
    }
    Ok(())
}

pub fn c01(cx: &mut Ctx) {
    cx.rule("the reference elimination succeeds without leaving the exponent range, and n > 1");
    cx.assume("rounding bound: eps(2n+8) |L||U||x| with the factors of a reference elimination; matrices whose elimination over- or underflows are not judged");
    let test = |s: &Sys| -> Res {
        let r = ref_rf_p(s.n, s.single, &s.a);
        if r.err.is_some() || !r.finite || !roomy(&r.lu, s.single) {
            return Ok(Info::new(false).c(true, "not judged (singular or out of range)"));
        }
        let xr = ref_rs_p(s.n, s.single, &r, &s.b);
        if !xr.iter().all(|v| v.is_finite()) || !roomy(&xr, s.single) {
            return Ok(Info::new(false).c(true, "not judged (solution out of range)"));
        }
        let mut l = new_lin(s.n, s.single);
        let mut a = s.a.clone();
        let reliable = r.rel_pivot > 64.0 * s.n as f64 * eps_of(s.single) || !r.ties;
        match l.setup(&mut a) {
            Err(e) if reliable => return fail(format!("nonsingular matrix rejected: {:?}", e)),
            Err(_) => return Ok(Info::new(false)),
            Ok(()) => {}
        }
        let mut x = vec![0.0; s.n];
        if let Err(e) = l.solve(&a, &mut x, &s.b, s.tol()) {
            return fail(format!("solve failed: {:?}", e));
        }
        judge_solution(s, &r, &x, "solve")?;
        Ok(Info::new(s.n > 1)
            .c(r.swaps > 0, "rows exchanged")
            .c(r.swaps > 2, "more than two exchanges")
            .c(r.ties, "tied pivots")
            .c(r.rel_pivot < 1e-6, "nearly singular")
            .c(s.single, "single precision")
            .c(s.n >= 16, "size 16 or more")
            .c(s.n == 1, "size 1")
            .c(s.a.iter().any(|v| *v == 0.0), "zero entries"))
    };
    cx.prop("systems", 480_000, 12_000_000, || sys(40), test);
    cx.prop("small systems", 480_000, 12_000_000, || sys(4), test);
    cx.prop("large systems", 1_000, 30_000, || sys(260), test);
    cx.prop("well conditioned", 160_000, 2_400_000, || sys_fam(40, &["wellcond", "zerodiag", "permtri", "stiff"], prop::bool::weighted(0.3).boxed()), |s: &Sys| {
        let i = test(s)?;
        Ok(i)
    });
}

/// maximum bipartite matching, returns for each left node its right partner
fn matching(n: usize, ok: &dyn Fn(usize, usize) -> bool) -> Option<Vec<usize>> {
    fn aug(u: usize, n: usize, ok: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], m: &mut [usize]) -> bool {
        for v in 0..n {
            if !seen[v] && ok(u, v) {
                seen[v] = true;
                if m[v] == usize::MAX || aug(m[v], n, ok, seen, m) {
                    m[v] = u;
                    return true;
                }
            }
        }
        false
    }
    let mut m = vec![usize::MAX; n];
    for u in 0..n {
        if !aug(u, n, ok, &mut vec![false; n], &mut m) {
            return None;
        }
    }
    let mut r = vec![0; n];
    for v in 0..n {
        r[m[v]] = v;
    }
    Some(r)
}

pub fn c02(cx: &mut Ctx) {
    cx.rule("setup succeeds, n > 1 and at least one row was exchanged or one multiplier is nonzero");
    cx.assume("rows are compared within eps(2n+4) (|L||U|); out-of-range eliminations are not judged");
    let test = |s: &Sys| -> Res {
        let n = s.n;
        let r = ref_rf_p(n, s.single, &s.a);
        if !r.finite || !roomy(&r.lu, s.single) {
            return Ok(Info::new(false));
        }
        let mut l = new_lin(n, s.single);
        let mut f = s.a.clone();
        if l.setup(&mut f).is_err() {
            return Ok(Info::new(false).c(true, "singular"));
        }
        let eps = eps_of(s.single);
        for j in 0..n {
            for i in 0..n {
                let v = f[j * n + i];
                if !v.is_finite() {
                    return fail(format!("factor entry ({}, {}) is {}", i, j, v));
                }
                if i > j && v.abs() > 1.0 {
                    return fail(format!("multiplier ({}, {}) = {:e} exceeds 1", i, j, v));
                }
                if i == j && v == 0.0 {
                    return fail(format!("zero on the diagonal of U at {}", i));
                }
            }
        }
        // L U in double-double, and the rounding allowance
        let g = abs_lu(n, &f);
        let mut prod = vec![0.0; n * n];
        for j in 0..n {
            for i in 0..n {
                let mut t = DD::ZERO;
                for k in 0..=i.min(j) {
                    let p = if k == i { DD::from(f[j * n + k]) } else { DD::prod(f[k * n + i], f[j * n + k]) };
                    t = t.add(p);
                }
                prod[j * n + i] = t.val();
            }
        }
        let c = eps * (2.0 * n as f64 + 4.0);
        // underflow in the multipliers, magnified by the pivots
        let tiny = 16.0 * n as f64 * tiny_of(s.single) * (1.0 + f.iter().fold(0.0f64, |m, v| m.max(v.abs())));
        let close = |i: usize, p: usize| (0..n).all(|j| (prod[j * n + i] - s.a[j * n + p]).abs() <= c * g[j * n + i] + tiny);
        let Some(p) = matching(n, &close) else {
            let lone = (0..n).find(|i| !(0..n).any(|p| close(*i, p)));
            return fail(format!("the rows of L*U are not a reordering of the rows of A (row {:?} matches none)", lone));
        };
        // magnitude of L*U rows against A also bounds growth: nothing may have exploded
        let moved = p.iter().enumerate().any(|(i, q)| i != *q);
        let mult = (0..n).any(|j| (j + 1..n).any(|i| f[j * n + i] != 0.0));
        Ok(Info::new(n > 1 && (moved || mult)).c(moved, "rows exchanged").c(r.ties, "tied pivots").c(s.single, "single precision").c(n >= 12, "size 12 or more"))
    };
    cx.prop("factors", 480_000, 9_600_000, || sys(24), test);
    cx.prop("small factors", 320_000, 8_000_000, || sys(4), test);
    cx.prop("large factors", 400, 12_000, || sys(128), test);
}

// ------------------------------------------------------------------ C03

/// an elimination that is exact in floating point, breaking down at column `sing` (or nowhere)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Exact {
    pub n: usize,
    pub single: bool,
    pub sing: Option<usize>,
    pub l: Vec<i32>,
    pub u: Vec<i32>,
    pub du: Vec<i32>,
    pub p: Vec<usize>,
    pub scale: i32,
    pub cscale: Vec<i32>,
    pub x: Vec<i32>,
}
pub fn exact_case(max: usize) -> BoxedStrategy<Exact> {
    (size(max), any::<bool>())
        .prop_flat_map(|(n, single)| {
            let k = if single { 90 } else { 880 };
            (
                prop::option::weighted(0.6, 0..n),
                prop::collection::vec(prop_oneof![3 => Just(0), 2 => -1i32..=1], n * n),
                prop::collection::vec(prop_oneof![1 => Just(0), 2 => -3i32..=3], n * n),
                prop::collection::vec(prop_oneof![Just(1), Just(-1), Just(2), Just(-2), Just(4)], n),
                perm(n),
                prop_oneof![2 => Just(0), 1 => -k..=k],
                prop::collection::vec(prop_oneof![3 => Just(0), 1 => -k / 8..=k / 8], n),
                prop::collection::vec(-4i32..=4, n),
            )
                .prop_map(move |(sing, l, u, du, p, scale, cscale, x)| Exact { n, single, sing, l, u, du, p, scale, cscale, x })
        })
        .boxed()
}
impl Exact {
    /// (A, expected column or None); entries are exact
    pub fn build(&self) -> Vec<f64> {
        let n = self.n;
        let lij = |i: usize, j: usize| if i == j { 1.0 } else if i > j { 0.5 * self.l[j * n + i] as f64 } else { 0.0 };
        let uij = |i: usize, j: usize| {
            if i == j {
                if Some(i) == self.sing {
                    0.0
                } else {
                    self.du[i] as f64
                }
            } else if i < j {
                self.u[j * n + i] as f64
            } else {
                0.0
            }
        };
        let mut a = vec![0.0; n * n];
        for j in 0..n {
            for i in 0..n {
                let mut s = 0.0;
                for k in 0..=i.min(j) {
                    s += lij(i, k) * uij(k, j);
                }
                a[j * n + self.p[i]] = ldexp(s, self.scale + self.cscale[j]);
            }
        }
        a
    }
}
/// exact rank profile over the rationals (entries are small dyadics before scaling): the first
/// column that depends on its predecessors
fn first_dependent(n: usize, a: &[f64]) -> Option<usize> {
    // fraction-free elimination in i128; entries scaled to integers
    let mut m: Vec<Vec<i128>> = vec![vec![0; n]; n];
    for j in 0..n {
        // undo the column's power-of-two scale
        let big = (0..n).map(|i| a[j * n + i].abs()).fold(0.0f64, f64::max);
        if big == 0.0 {
            continue;
        }
        let e = big.log2().floor() as i32;
        for i in 0..n {
            let v = ldexp(a[j * n + i], 30 - e);
            if v != v.trunc() {
                return Some(usize::MAX); // not representable here
            }
            m[i][j] = v as i128;
        }
        let g = (0..n).fold(0i128, |g, i| gcd(g, m[i][j]));
        if g > 1 {
            for i in 0..n {
                m[i][j] /= g;
            }
        }
    }
    for k in 0..n {
        let Some(p) = (k..n).find(|i| m[*i][k] != 0) else { return Some(k + 1) };
        m.swap(k, p);
        for i in k + 1..n {
            let (f, h) = (m[i][k], m[k][k]);
            if f == 0 {
                continue;
            }
            let mut g = 0;
            for j in k..n {
                let t = m[i][j].checked_mul(h).and_then(|x| m[k][j].checked_mul(f).and_then(|y| x.checked_sub(y)));
                match t {
                    Some(v) => m[i][j] = v,
                    None => return Some(usize::MAX),
                }
                g = gcd(g, m[i][j]);
            }
            if g > 1 {
                for j in k..n {
                    m[i][j] /= g;
                }
            }
        }
    }
    None
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scaled {
    n: usize,
    single: bool,
    #[serde(with = "crate::ser::vecf")]
    a: Vec<f64>,
    g: i32,
    r: Vec<i32>,
    c: Vec<i32>,
}

fn check_error(e: &linear::Error, want: usize) -> Result<(), String> {
    match e {
        linear::Error::LUFactFail { col } if *col == want => {}
        e => return fail(format!("expected the singular-matrix error at column {}, got {:?}", want, e)),
    }
    let msg = e.to_string();
    let nums: Vec<&str> = msg.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
    if !nums.contains(&want.to_string().as_str()) {
        return fail(format!("message {:?} does not name column {}", msg, want));
    }
    Ok(())
}

pub fn c03(cx: &mut Ctx) {
    cx.rule("a predicted breakdown column, or a nonsingular matrix with n > 1; scaled cases: n > 1");
    cx.assume("which column breaks down is only predicted where the elimination is exact in floating point, or structurally clear");
    let exact = |c: &Exact| -> Res {
        let n = c.n;
        let a0 = c.build();
        // multipliers are at most 1/2, so each pivot is the unique largest candidate of its column
        let want = c.sing.map(|k| k + 1);
        let mut a = a0.clone();
        let mut l = new_lin(n, c.single);
        match (l.setup(&mut a), want) {
            (Err(e), Some(k)) => check_error(&e, k)?,
            (Err(e), None) => return fail(format!("nonsingular matrix rejected: {:?}", e)),
            (Ok(()), Some(k)) => return fail(format!("the first {} columns are dependent, yet setup succeeded", k)),
            (Ok(()), None) => {
                // the solve is exact as well while the numbers stay small
                if n <= 6 && c.scale == 0 && c.cscale.iter().all(|s| *s == 0) {
                    let b: Vec<f64> = (0..n).map(|i| (0..n).map(|j| a0[j * n + i] * c.x[j] as f64).sum()).collect();
                    let mut x = vec![7.0; n];
                    l.solve(&a, &mut x, &b, 0.0).map_err(|e| e.to_string())?;
                    let want: Vec<f64> = c.x.iter().map(|v| *v as f64).collect();
                    if !same_v(&x, &want) {
                        return fail(format!("exact solve gives {:?} instead of {:?}", x, want));
                    }
                }
            }
        }
        Ok(Info::new(want.is_some() || n > 1)
            .c(want == Some(1), "breaks down in the first column")
            .c(want.is_some() && want != Some(1) && want != Some(n), "breaks down in the middle")
            .c(want == Some(n) && n > 1, "breaks down in the last column")
            .c(want.is_none(), "nonsingular")
            .c(c.scale.abs() > 30, "scaled far up or down"))
    };
    cx.prop("exact eliminations", 640_000, 12_000_000, || exact_case(16), exact);
    cx.prop("large exact eliminations", 1_000, 30_000, || exact_case(260), exact);
    cx.prop("small integer matrices", 480_000, 8_000_000, || {
        // elimination of these is exact: entries 0, +-1, +-2 with at most 2 columns to eliminate
        (prop::sample::select(vec![1usize, 2, 3]), any::<bool>())
            .prop_flat_map(|(n, single)| {
                let k = if single { 60 } else { 500 };
                (prop::collection::vec(prop::sample::select(vec![0.0, 0.0, 1.0, -1.0, 2.0, -2.0]), n * n), -k..=k)
                    .prop_map(move |(a, g)| Scaled { n, single, a, g, r: vec![], c: vec![] })
            })
            .boxed()
    }, |c: &Scaled| {
        let n = c.n;
        let want = first_dependent(n, &c.a);
        let mut a: Vec<f64> = c.a.iter().map(|v| ldexp(*v, c.g)).collect();
        // a pivot of 3 or a multiplier that is not dyadic never occurs for n <= 2; for n = 3 the
        // reference tells whether elimination was exact (same zero pattern)
        let r = ref_rf_p(n, c.single, &a);
        let mut l = new_lin(n, c.single);
        match (l.setup(&mut a), want) {
            (Err(e), Some(k)) => check_error(&e, k)?,
            (Err(e), None) => return fail(format!("nonsingular matrix rejected: {:?}", e)),
            (Ok(()), Some(k)) if r.err.is_some() || n < 3 => return fail(format!("dependent columns up to {} not noticed", k)),
            (Ok(()), _) => {}
        }
        Ok(Info::new(n > 1).c(want.is_some(), "singular"))
    });
    cx.prop("scaled regular matrices", 320_000, 4_800_000, || {
        (size(12), any::<bool>())
            .prop_flat_map(|(n, single)| {
                let k = if single { 110 } else { 1000 };
                (well_conditioned(n), -k..=k, prop::collection::vec(-k / 10..=k / 10, n), prop::collection::vec(-k / 10..=k / 10, n), 0..4u8)
                    .prop_map(move |(mut a, g, r, c, mode)| {
                        to_prec(single, &mut a);
                        let z = vec![0; n];
                        match mode {
                            0 => Scaled { n, single, a, g, r: z.clone(), c: z },
                            1 => Scaled { n, single, a, g: 0, r, c: z },
                            2 => Scaled { n, single, a, g: 0, r: z, c },
                            _ => Scaled { n, single, a, g: g / 2, r, c },
                        }
                    })
            })
            .boxed()
    }, |c: &Scaled| {
        let n = c.n;
        let mut a = vec![0.0; n * n];
        for j in 0..n {
            for i in 0..n {
                a[j * n + i] = ldexp(c.a[j * n + i], c.g + c.r[i] + c.c[j]);
            }
        }
        to_prec(c.single, &mut a);
        let r = ref_rf_p(n, c.single, &a);
        if !r.finite {
            return Ok(Info::new(false).c(true, "not judged (overflow)"));
        }
        let mut l = new_lin(n, c.single);
        if let Err(e) = l.setup(&mut a) {
            return fail(format!("a well-conditioned matrix, rescaled by powers of two, is rejected: {:?}", e));
        }
        Ok(Info::new(n > 1).c(c.g > 30, "huge").c(c.g < -30, "tiny").c(r.swaps > 0, "rows exchanged"))
    });
    // infinities, NaN and overflow on the way are no zero columns; zeros and underflow to zero are
    cx.prop("strange entries", 240_000, 4_000_000, || prop_oneof![1 => bits(8), 2 => strange(12)].boxed(), |s: &Sys| {
        let r = ref_rf_p(s.n, s.single, &s.a);
        let mut a = s.a.clone();
        match (new_lin(s.n, s.single).setup(&mut a), r.err) {
            (Ok(()), None) => {}
            (Err(e), Some(k)) => check_error(&e, k)?,
            (Ok(()), Some(k)) => return fail(format!("column {} offers only zeros as pivot, yet setup succeeded", k)),
            (Err(e), None) => return fail(format!("every column offers a pivot that is not zero, setup says {:?}", e)),
        }
        Ok(Info::new(s.n > 1).c(!r.finite, "infinities or NaN on the way").c(r.err.is_some(), "singular"))
    });
    cx.prop("structurally singular", 240_000, 3_200_000, || {
        (size(16), any::<bool>())
            .prop_flat_map(|(n, single)| {
                (matrix(n, single, "dense"), 0..n, prop::sample::select(vec![0u8, 1, 2]), 0..n, rhs(n, single))
                    .prop_map(move |(mut a, k, kind, row, _)| {
                        match kind {
                            0 => (0..n).for_each(|i| a[k * n + i] = 0.0), // zero column
                            1 => (0..n).for_each(|j| a[j * n + row] = 0.0), // zero row
                            _ => {
                                // column k only in rows that earlier columns do not exhaust: block structure
                                for j in 0..=k {
                                    for i in 0..n {
                                        if i >= k {
                                            a[j * n + i] = 0.0;
                                        }
                                    }
                                }
                            }
                        }
                        to_prec(single, &mut a);
                        let b = vec![0.0; n];
                        Sys { n, single, fam: format!("{}:{}", kind, if kind == 1 { n - 1 } else { k }), a, b }
                    })
            })
            .boxed()
    }, |s: &Sys| {
        let n = s.n;
        let (kind, k) = s.fam.split_once(':').ok_or("bad case")?;
        let k: usize = k.parse().map_err(|_| "bad case")?;
        // columns before k are generic, so breakdown is at k, unless a column is already zero or
        // nearly dependent (then the reference decides whether the case is judged)
        let r = ref_rf_p(n, s.single, &s.a);
        let mut a = s.a.clone();
        let res = new_lin(n, s.single).setup(&mut a);
        let want = if kind == "1" { n } else { k + 1 };
        if r.err != Some(want) {
            return Ok(Info::new(false).c(true, "accidentally dependent earlier"));
        }
        match res {
            Err(e) => check_error(&e, want)?,
            Ok(()) => return fail(format!("zero pivot column {} not reported", want)),
        }
        Ok(Info::new(true).c(kind == "0", "zero column").c(kind == "1", "zero row").c(kind == "2", "staircase"))
    });
}

// ------------------------------------------------------------------ C04

pub fn c04(cx: &mut Ctx) {
    cx.rule("n > 1 and every number of the reference computation is finite");
    cx.assume("double precision; the reference is a transcription of SUNDIALS denseGETRF/denseGETRS; zeros of either sign are the same number");
    let test = |s: &Sys| -> Res {
        let n = s.n;
        let r = ref_rf_p(n, s.single, &s.a);
        if !r.finite {
            return Ok(Info::new(false).c(true, "not judged (overflow)"));
        }
        let mut a = s.a.clone();
        let mut l = new_lin(n, s.single);
        match (l.setup(&mut a), r.err) {
            (Ok(()), None) => {}
            (Err(e), Some(k)) => {
                if col_of(&e) != k {
                    return fail(format!("zero pivot reported in column {}, SUNDIALS reports {}", col_of(&e), k));
                }
                return Ok(Info::new(n > 1).c(true, "singular"));
            }
            (Ok(()), Some(k)) => return fail(format!("SUNDIALS reports a zero pivot in column {}, setup succeeded", k)),
            (Err(e), None) => return fail(format!("SUNDIALS factorises this matrix, setup says {:?}", e)),
        }
        if !same_v(&a, &r.lu) {
            let k = (0..n * n).find(|k| !same(a[*k], r.lu[*k])).unwrap();
            return fail(format!("factor entry ({}, {}) is {:e}, SUNDIALS has {:e}", k % n, k / n, a[k], r.lu[k]));
        }
        let want = ref_rs_p(n, s.single, &r, &s.b);
        if want.iter().all(|v| v.is_finite()) {
            let mut x = vec![0.0; n];
            l.solve(&a, &mut x, &s.b, s.tol()).map_err(|e| e.to_string())?;
            if !same_v(&x, &want) {
                return fail(format!("solution {:?}, SUNDIALS has {:?}", x, want));
            }
        }
        Ok(Info::new(n > 1).c(r.ties, "tied pivots").c(r.swaps > 0, "rows exchanged").c(n >= 12, "size 12 or more").c(s.single, "single precision"))
    };
    cx.prop("systems", 480_000, 12_000_000, || sys_fam(24, FAMS, prop::bool::weighted(0.1).boxed()), test);
    cx.prop("small systems", 640_000, 16_000_000, || sys_fam(4, FAMS, Just(false).boxed()), test);
    cx.prop("large systems", 1_000, 30_000, || sys_fam(260, FAMS, prop::bool::weighted(0.1).boxed()), test);
    cx.prop("ties and zeros", 480_000, 12_000_000, || sys_fam(12, &["ints", "pm1", "sparse", "zerodiag", "growth", "permtri"], Just(false).boxed()), test);
    // every 2x2 matrix over a small set, and every 3x3 over {-1, 0, 1}
    let vals = [0.0, 1.0, -1.0, 2.0, -0.5, 3.0, 1e-30, 1e30];
    let it2 = (0..8usize.pow(4)).map(move |c| {
        let a: Vec<f64> = (0..4).map(|k| vals[(c >> (3 * k)) & 7]).collect();
        Sys { n: 2, single: false, fam: "enumerated".into(), a, b: vec![1.0, -3.0] }
    });
    cx.enumerate("all 2x2 over 8 values", "all 4096 2x2 matrices over {0, 1, -1, 2, -0.5, 3, 1e-30, 1e30}", it2, test);
    let it3 = (0..3usize.pow(9)).map(|c| {
        let mut c = c;
        let mut a = vec![];
        for _ in 0..9 {
            a.push((c % 3) as f64 - 1.0);
            c /= 3;
        }
        Sys { n: 3, single: false, fam: "enumerated".into(), a, b: vec![1.0, -3.0, 7.0] }
    });
    cx.enumerate("all 3x3 over {-1,0,1}", "all 19683 3x3 matrices with entries -1, 0, 1", it3, test);
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Setup { o: usize, m: usize },
    Solve { o: usize, b: usize, #[serde(with = "crate::ser::onef")] fill: f64, #[serde(with = "crate::ser::onef")] tol: f64 },
    Again { o: usize },
    Dup { from: usize, to: usize },
    Scaling { o: usize, m: usize },
    Fresh { o: usize },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hist {
    n: usize,
    single: bool,
    mats: Vec<V>,
    bs: Vec<V>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct V(#[serde(with = "crate::ser::vecf")] Vec<f64>);

fn hist_strategy(max: usize, nops: usize) -> BoxedStrategy<Hist> {
    (size(max), prop::bool::weighted(0.2))
        .prop_flat_map(move |(n, single)| {
            let m = prop_oneof![
                4 => prop::sample::select(FAMS).prop_flat_map(move |f| matrix(n, single, f)),
                1 => (matrix(n, single, "dense"), 0..n).prop_map(move |(mut a, k)| { for i in 0..n { a[k * n + i] = 0.0; } a }),
            ];
            let fill = prop_oneof![Just(0.0), Just(f64::NAN), Just(1e30), Just(f64::INFINITY), unit()];
            let tol = prop_oneof![Just(0.0), Just(1e-8), Just(1.0), Just(f64::NAN), Just(-1.0)];
            let op = prop_oneof![
                3 => (0usize..3, 0usize..4).prop_map(|(o, m)| Op::Setup { o, m }),
                5 => (0usize..3, 0usize..3, fill, tol).prop_map(|(o, b, fill, tol)| Op::Solve { o, b, fill, tol }),
                1 => (0usize..3).prop_map(|o| Op::Again { o }),
                1 => (0usize..3, 0usize..3).prop_map(|(from, to)| Op::Dup { from, to }),
                1 => (0usize..3, 0usize..3).prop_map(|(o, m)| Op::Scaling { o, m }),
                1 => (0usize..3).prop_map(|o| Op::Fresh { o }),
            ];
            (prop::collection::vec(m.prop_map(V), 4), prop::collection::vec(rhs(n, single).prop_map(V), 3), prop::collection::vec(op, 1..nops))
                .prop_map(move |(mut mats, mut bs, ops)| {
                    mats.iter_mut().for_each(|m| to_prec(single, &mut m.0));
                    bs.iter_mut().for_each(|m| to_prec(single, &mut m.0));
                    Hist { n, single, mats, bs, ops }
                })
        })
        .boxed()
}

fn c05_run(h: &Hist) -> Res {
    let n = h.n;
    struct Obj {
        l: Box<dyn Lin>,
        fac: Option<(usize, Vec<f64>)>,
        last: Option<(usize, Vec<f64>)>,
    }
    let fresh = |m: usize| -> (Result<(), linear::Error>, Vec<f64>, Box<dyn Lin>) {
        let mut l = new_lin(n, h.single);
        let mut a = h.mats[m].0.clone();
        let r = l.setup(&mut a);
        (r, a, l)
    };
    let mut objs: Vec<Obj> = (0..3).map(|_| Obj { l: new_lin(n, h.single), fac: None, last: None }).collect();
    let (mut solves, mut resetups, mut after_fail, mut reps, mut dups) = (0, 0, 0, 0, 0);
    let mut failed = [false; 3];
    let mut setups = [0; 3];
    for (step, op) in h.ops.iter().enumerate() {
        match op {
            Op::Setup { o, m } => {
                let (want, wa, _) = fresh(*m);
                let mut a = h.mats[*m].0.clone();
                let got = objs[*o].l.setup(&mut a);
                match (&got, &want) {
                    (Ok(()), Ok(())) => {
                        if !same_v(&a, &wa) {
                            return fail(format!("step {}: factors differ from a fresh solver's", step));
                        }
                        objs[*o].fac = Some((*m, a));
                        if failed[*o] {
                            after_fail += 1;
                        }
                        failed[*o] = false;
                    }
                    (Err(x), Err(y)) => {
                        if col_of(x) != col_of(y) {
                            return fail(format!("step {}: {:?}, a fresh solver says {:?}", step, x, y));
                        }
                        objs[*o].fac = None;
                        failed[*o] = true;
                    }
                    _ => return fail(format!("step {}: setup gives {:?}, a fresh solver {:?}", step, got, want)),
                }
                setups[*o] += 1;
                if setups[*o] > 1 {
                    resetups += 1;
                }
                objs[*o].last = None;
            }
            Op::Solve { o, b, fill, tol } => {
                let Some((m, a)) = objs[*o].fac.clone() else { continue };
                let bv = h.bs[*b].0.clone();
                let (_, wa, wl) = fresh(m);
                let mut wx = vec![0.0; n];
                let wr = wl.solve(&wa, &mut wx, &bv, 0.0);
                let mut x = vec![*fill; n];
                let r = objs[*o].l.solve(&a, &mut x, &bv, *tol);
                if r.is_ok() != wr.is_ok() || !same_v(&x, &wx) {
                    return fail(format!("step {}: solve gives {:?} {:?}, a fresh solver {:?} {:?}", step, r, x, wr, wx));
                }
                objs[*o].last = Some((*b, x));
                solves += 1;
            }
            Op::Again { o } => {
                let (Some((_, a)), Some((b, x0))) = (objs[*o].fac.clone(), objs[*o].last.clone()) else { continue };
                let mut x = x0.clone(); // x as the previous solve left it
                let _ = objs[*o].l.solve(&a, &mut x, &h.bs[b].0, 0.0);
                if !same_v(&x, &x0) {
                    return fail(format!("step {}: repeating the solve gives {:?} after {:?}", step, x, x0));
                }
                reps += 1;
            }
            Op::Dup { from, to } => {
                let l = objs[*from].l.dup();
                let (fac, last) = (objs[*from].fac.clone(), objs[*from].last.clone());
                failed[*to] = failed[*from];
                objs[*to] = Obj { l, fac, last };
                dups += 1;
            }
            Op::Scaling { o, m } => {
                let s = h.bs[*m].0.clone();
                let t = h.bs[(*m + 1) % 3].0.clone();
                objs[*o].l.scaling(&s, &t);
            }
            Op::Fresh { o } => {
                objs[*o] = Obj { l: new_lin(n, h.single), fac: None, last: None };
                failed[*o] = false;
                setups[*o] = 0;
            }
        }
        for (i, o) in objs.iter().enumerate() {
            if o.l.queries() != (true, 0, 0.0) {
                return fail(format!("step {}: object {} reports (direct, iterations, residual norm) = {:?}", step, i, o.l.queries()));
            }
        }
    }
    Ok(Info::new(solves > 0 && (resetups > 0 || dups > 0 || reps > 0 || solves > 1))
        .c(resetups > 0, "solver object reused for another matrix")
        .c(after_fail > 0, "successful setup after a failed one")
        .c(dups > 0, "clone")
        .c(reps > 0, "repeated solve"))
}

/// one matrix, every history of length <= 4 over a small operation set is covered elsewhere; here
/// threads: solver objects used concurrently must not influence each other
fn c05_threads(h: &Hist) -> Res {
    let n = h.n;
    let jobs: Vec<(Vec<f64>, Vec<f64>)> = (0..4).map(|k| (h.mats[k].0.clone(), h.bs[k % 3].0.clone())).collect();
    let run = |a: &[f64], b: &[f64]| -> (Result<(), usize>, Vec<f64>, Vec<f64>) {
        let mut l = new_lin(n, h.single);
        let mut m = a.to_vec();
        let r = l.setup(&mut m).map_err(|e| col_of(&e));
        let mut x = vec![0.0; n];
        if r.is_ok() {
            let _ = l.solve(&m, &mut x, b, 0.0);
            (r, m, x)
        } else {
            (r, vec![], x)
        }
    };
    let seq: Vec<_> = jobs.iter().map(|(a, b)| run(a, b)).collect();
    let par: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(a, b)| {
                s.spawn(move || {
                    let mut last = run(a, b);
                    for _ in 0..20 {
                        last = run(a, b);
                    }
                    last
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (i, (p, q)) in seq.iter().zip(&par).enumerate() {
        if p.0 != q.0 || !same_v(&p.1, &q.1) || !same_v(&p.2, &q.2) {
            return fail(format!("job {}: {:?} alone, {:?} next to other solvers", i, p, q));
        }
    }
    Ok(Info::new(n > 1))
}

pub fn c05(cx: &mut Ctx) {
    cx.rule("a history with a solve and at least one reuse, clone, repetition or second solve; concurrent runs: n > 1");
    cx.assume("solve is only called while the object's last setup succeeded, with the factors that setup produced");
    cx.prop("histories", 240_000, 4_000_000, || hist_strategy(8, 40), c05_run);
    cx.prop("short histories", 320_000, 4_800_000, || hist_strategy(3, 8), c05_run);
    cx.prop("large sizes", 16_000, 320_000, || hist_strategy(40, 12), c05_run);
    cx.prop("very large sizes", 400, 10_000, || hist_strategy(260, 12), c05_run);
    cx.prop("concurrent objects", 6_400, 80_000, || hist_strategy(6, 2), c05_threads);
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stored {
    s: Sys,
    setup: Lay,
    a: Lay,
    x: Lay,
    b: Lay,
}
pub fn c06(cx: &mut Ctx) {
    cx.rule("n > 1 and at least one argument is a strided view");
    let test = |c: &Stored| -> Res {
        let s = &c.s;
        let n = s.n;
        let mut l0 = new_lin(n, s.single);
        let mut a0 = s.a.clone();
        let r0 = l0.setup(&mut a0).map_err(|e| col_of(&e));
        let mut l1 = new_lin(n, s.single);
        let mut a1 = s.a.clone();
        let r1 = l1.setup_view(&mut a1, &c.setup)?.map_err(|e| col_of(&e));
        if r0 != r1 {
            return fail(format!("owned storage: {:?}, view: {:?}", r0, r1));
        }
        if r0.is_err() {
            return Ok(Info::new(n > 1 && !c.setup.owned).c(true, "singular"));
        }
        if !same_v(&a0, &a1) {
            return fail("factors differ between owned and view storage");
        }
        let mut x0 = vec![0.0; n];
        l0.solve(&a0, &mut x0, &s.b, s.tol()).map_err(|e| e.to_string())?;
        let mut x1 = vec![-3.5; n];
        l1.solve_view(&a1, &mut x1, &s.b, &c.a, &c.x, &c.b)?.map_err(|e| e.to_string())?;
        if !same_v(&x0, &x1) {
            return fail(format!("owned storage solves to {:?}, views to {:?}", x0, x1));
        }
        let any = !(c.setup.owned && c.a.owned && c.x.owned && c.b.owned);
        Ok(Info::new(n > 1 && any).c(c.x.rgap > 0 && !c.x.owned, "x strided").c(c.setup.transposed && !c.setup.owned, "row-major matrix").c(!c.x.owned && !c.b.owned && !c.a.owned, "all views"))
    };
    cx.prop("views", 480_000, 7_200_000, || (sys(10), lay(), lay(), lay(), lay()).prop_map(|(s, setup, a, x, b)| Stored { s, setup, a, x, b }).boxed(), test);
    cx.prop("large views", 1_000, 30_000, || (sys(128), lay(), lay(), lay(), lay()).prop_map(|(s, setup, a, x, b)| Stored { s, setup, a, x, b }).boxed(), test);
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Meta {
    s: Sys,
    p: Vec<usize>,
    ka: i32,
    kb: i32,
    kc: Vec<i32>,
    neg: Vec<bool>,
    other: V,
    ob: V,
    m: usize,
    slots: Vec<bool>,
}
fn solve_once(n: usize, single: bool, a: &[f64], b: &[f64]) -> Result<Vec<f64>, String> {
    let mut l = new_lin(n, single);
    let mut m = a.to_vec();
    l.setup(&mut m).map_err(|e| format!("setup: {}", e))?;
    let mut x = vec![0.0; n];
    l.solve(&m, &mut x, b, 0.0).map_err(|e| format!("solve: {}", e))?;
    Ok(x)
}
pub fn c07(cx: &mut Ctx) {
    cx.rule("n > 1, nonsingular, everything in range");
    cx.assume("exact equality under reordering and embedding is only demanded when no two pivot candidates tie");
    let mk_n = |max: usize| {
        sys_fam(max, &["dense", "ints", "sparse", "scaled", "nearsing", "permtri", "hilbert", "band", "zerodiag", "wellcond", "mixed"], prop::bool::weighted(0.2).boxed())
            .prop_flat_map(|s| {
                let n = s.n;
                let single = s.single;
                let k = if single { 70 } else { 700 };
                let m = 1 + n % 3;
                let tot = n + m;
                (
                    Just(s),
                    perm(n),
                    prop_oneof![-k..=k, -k / 5..=k / 5],
                    prop_oneof![-k..=k, -k / 5..=k / 5],
                    prop_oneof![2 => prop::collection::vec(-k / 16..=k / 16, n), 1 => prop::collection::vec(-k..=k, n)],
                    prop::collection::vec(any::<bool>(), n),
                    well_conditioned(m),
                    rhs(m, single),
                    Just((0..tot).map(|i| i < n).collect::<Vec<bool>>()).prop_shuffle(),
                )
                    .prop_map(move |(s, p, ka, kb, kc, neg, mut other, mut ob, slots)| {
                        to_prec(single, &mut other);
                        to_prec(single, &mut ob);
                        Meta { s, p, ka, kb, kc, neg, other: V(other), ob: V(ob), m, slots }
                    })
            })
            .boxed()
    };
    let base = |c: &Meta, shift: i32| -> Option<(Ref, Vec<f64>)> {
        let s = &c.s;
        let tame = |v: &[f64], single: bool| tame(v, single, shift);
        let r = ref_rf_p(s.n, s.single, &s.a);
        if r.err.is_some() || !r.finite || !tame(&r.lu, s.single) || !tame(&s.a, s.single) {
            return None;
        }
        let x = solve_once(s.n, s.single, &s.a, &s.b).ok()?;
        if !tame(&x, s.single) || !tame(&s.b, s.single) {
            return None;
        }
        let fb = ref_rs_mid(s, &r);
        if !tame(&fb, s.single) {
            return None;
        }
        Some((r, x))
    };
    let mk = || mk_n(14);
    let large = || mk_n(128);
    let scaling = |c: &Meta| -> Res {
        let lim = if c.s.single { 80 } else { 740 };
        let (ka, kb) = (c.ka, c.kb);
        let kc: Vec<i32> = c.kc.iter().map(|k| k.clamp(&(-lim - ka), &(lim - ka)).clamp(&(kb - ka - lim), &(kb - ka + lim)).to_owned()).collect();
        // largest power of two by which any number of the computation moves
        let shift = kc.iter().flat_map(|k| [(ka + k).abs(), (kb - ka - k).abs()]).chain([kb.abs()]).max().unwrap();
        let Some((r, x)) = base(c, shift) else { return Ok(Info::new(false).c(true, "not judged")) };
        let s = &c.s;
        let n = s.n;
        let a: Vec<f64> = (0..n * n).map(|i| ldexp(s.a[i], ka + kc[i / n])).collect();
        let b: Vec<f64> = s.b.iter().map(|v| ldexp(*v, kb)).collect();
        let got = solve_once(n, s.single, &a, &b)?;
        let want: Vec<f64> = (0..n).map(|j| ldexp(x[j], kb - ka - kc[j])).collect();
        if !same_v(&got, &want) {
            return fail(format!("scaled system solves to {:?} instead of {:?}", got, want));
        }
        Ok(Info::new(n > 1).c(r.ties, "ties").c(r.swaps > 0, "rows exchanged").c(shift > 540, "moved by more than half the exponent range"))
    };
    cx.prop("power-of-two scaling", 400_000, 7_200_000, mk, scaling);
    cx.prop("power-of-two scaling, large", 600, 20_000, large, scaling);
    let reordered = |c: &Meta| -> Res {
        let Some((r, x)) = base(c, 250 * (!c.s.single) as i32) else { return Ok(Info::new(false).c(true, "not judged")) };
        if r.ties {
            return Ok(Info::new(false).c(true, "ties"));
        }
        let s = &c.s;
        let n = s.n;
        let mut a = permute_rows(n, &s.a, &c.p);
        let mut b: Vec<f64> = c.p.iter().map(|i| s.b[*i]).collect();
        for i in 0..n {
            if c.neg[i] {
                b[i] = -b[i];
                for j in 0..n {
                    a[j * n + i] = -a[j * n + i];
                }
            }
        }
        let got = solve_once(n, s.single, &a, &b)?;
        if !same_v(&got, &x) {
            return fail(format!("reordered equations solve to {:?} instead of {:?}", got, x));
        }
        Ok(Info::new(n > 1).c(c.neg.iter().any(|v| *v), "equations negated"))
    };
    cx.prop("reordered equations", 400_000, 7_200_000, mk, reordered);
    cx.prop("reordered equations, large", 600, 20_000, large, reordered);
    cx.prop("embedding", 240_000, 4_000_000, mk, |c: &Meta| {
        let Some((r, x)) = base(c, 250 * (!c.s.single) as i32) else { return Ok(Info::new(false).c(true, "not judged")) };
        let s = &c.s;
        let (n, m) = (s.n, c.m);
        let t = n + m;
        if !SIZES.contains(&t) {
            return Ok(Info::new(false));
        }
        let ro = ref_rf_p(m, s.single, &c.other.0);
        if r.ties || ro.ties || ro.err.is_some() {
            return Ok(Info::new(false).c(true, "ties"));
        }
        // rows and columns of the two blocks interleaved, each block keeping its order
        let (mut pa, mut pb) = (vec![], vec![]);
        for (i, in_a) in c.slots.iter().enumerate() {
            if *in_a {
                pa.push(i)
            } else {
                pb.push(i)
            }
        }
        let mut a = vec![0.0; t * t];
        let mut b = vec![0.0; t];
        for j in 0..n {
            b[pa[j]] = s.b[j];
            for i in 0..n {
                a[pa[j] * t + pa[i]] = s.a[j * n + i];
            }
        }
        for j in 0..m {
            b[pb[j]] = c.ob.0[j];
            for i in 0..m {
                a[pb[j] * t + pb[i]] = c.other.0[j * m + i];
            }
        }
        let got = solve_once(t, s.single, &a, &b)?;
        let part: Vec<f64> = pa.iter().map(|i| got[*i]).collect();
        let y = solve_once(m, s.single, &c.other.0, &c.ob.0)?;
        let party: Vec<f64> = pb.iter().map(|i| got[*i]).collect();
        if !same_v(&part, &x) || !same_v(&party, &y) {
            return fail(format!("blocks solve to {:?} and {:?}, alone they give {:?} and {:?}", part, party, x, y));
        }
        Ok(Info::new(n > 1))
    });
}
/// forward-substituted right-hand side and partial back-substitutions (to judge the exponent range)
fn ref_rs_mid(s: &Sys, r: &Ref) -> Vec<f64> {
    let n = s.n;
    let mut b: Vec<f64> = s.b.clone();
    for k in 0..n {
        b.swap(k, r.piv[k]);
    }
    let mut all = vec![];
    for k in 0..n - 1 {
        let bk = b[k];
        for i in k + 1..n {
            all.push(r.lu[k * n + i] * bk);
            b[i] -= r.lu[k * n + i] * bk;
            all.push(b[i]);
        }
    }
    for k in (0..n).rev() {
        b[k] /= r.lu[k * n + k];
        let bk = b[k];
        for i in 0..k {
            all.push(r.lu[k * n + i] * bk);
            b[i] -= r.lu[k * n + i] * bk;
            all.push(b[i]);
        }
    }
    all
}
/// far from the ends of the exponent range, so that power-of-two scaling is exact throughout
fn tame(v: &[f64], single: bool, shift: i32) -> bool {
    let k = if single { (100 - shift) / 2 } else { (940 - shift) / 2 };
    if k < 5 {
        return false;
    }
    let (lo, hi) = (2f64.powi(-k), 2f64.powi(k));
    v.iter().all(|x| *x == 0.0 || (x.abs() > lo && x.abs() < hi))
}

// ------------------------------------------------------------------ C08

fn any_bits(single: bool) -> BoxedStrategy<f64> {
    if single {
        prop_oneof![
            2 => any::<u32>().prop_map(|b| f32::from_bits(b) as f64),
            2 => (-1.0f64..1.0).prop_map(|x| x as f32 as f64),
            2 => prop::sample::select(vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, f32::MAX as f64, f32::MIN_POSITIVE as f64, 1e-45, -1.0]),
        ]
        .boxed()
    } else {
        prop_oneof![
            2 => any::<u64>().prop_map(f64::from_bits),
            2 => -1.0f64..1.0,
            2 => prop::sample::select(vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.0, f64::MAX, f64::MIN_POSITIVE, 5e-324, -1.0]),
        ]
        .boxed()
    }
}
fn bits(max: usize) -> BoxedStrategy<Sys> {
    (size(max), any::<bool>())
        .prop_flat_map(|(n, single)| (prop::collection::vec(any_bits(single), n * n), prop::collection::vec(any_bits(single), n)).prop_map(move |(mut a, mut b)| {
            to_prec(single, &mut a);
            to_prec(single, &mut b);
            Sys { n, single, fam: "bits".into(), a, b }
        }))
        .boxed()
}
/// ordinary systems with one or two strange entries, so that the rest of the elimination is regular
fn strange(max: usize) -> BoxedStrategy<Sys> {
    sys_fam(max, &["dense", "sparse", "wellcond", "mixed", "permtri", "zerodiag"], any::<bool>().boxed())
        .prop_flat_map(|s| {
            let n = s.n;
            let st = any_bits(s.single);
            (Just(s), 0..n * n + n, st.clone(), 0..n * n + n, st, any::<bool>()).prop_map(move |(mut s, i, v, j, w, two)| {
                let n = s.n;
                for (k, v) in [(i, v)].into_iter().chain(two.then_some((j, w))) {
                    if k < n * n {
                        s.a[k] = v;
                    } else {
                        s.b[k - n * n] = v;
                    }
                }
                to_prec(s.single, &mut s.a);
                to_prec(s.single, &mut s.b);
                s
            })
        })
        .boxed()
}
pub fn c08(cx: &mut Ctx) {
    cx.rule("the case holds a NaN, an infinity, a zero, a subnormal or a huge number");
    let test = |s: &Sys| -> Res {
        let n = s.n;
        let mut l = new_lin(n, s.single);
        let mut a = s.a.clone();
        let bn = s.b.iter().any(|x| x.is_nan());
        let an = s.a.iter().any(|x| x.is_nan());
        let info = Info::new(bn || an || s.a.iter().any(|x| *x == 0.0 || !x.is_finite() || x.abs() > 1e30 || x.abs() < 1e-37))
            .c(an, "NaN in A")
            .c(bn, "NaN in b")
            .c(s.a.iter().any(|x| x.is_infinite()), "infinity in A");
        match l.setup(&mut a) {
            Err(e) => {
                let k = col_of(&e);
                if k < 1 || k > n {
                    return fail(format!("column {} reported for size {}", k, n));
                }
                // a NaN before or in the reported column can never look like a zero column
                Ok(info.c(true, "singular"))
            }
            Ok(()) => {
                let mut x = vec![0.0; n];
                l.solve(&a, &mut x, &s.b, s.tol()).map_err(|e| format!("solve: {}", e))?;
                if (an || bn) && !x.iter().any(|v| v.is_nan()) {
                    return fail(format!("NaN in the {} but the solution is {:?}", if an { "matrix" } else { "right-hand side" }, x));
                }
                Ok(info.c(true, "factorised"))
            }
        }
    };
    cx.prop("bit patterns", 640_000, 12_000_000, || bits(12), test);
    cx.prop("large bit patterns", 1_000, 30_000, || bits(260), test);
    cx.prop("small bit patterns", 640_000, 12_000_000, || bits(3), test);
    cx.prop("one strange entry", 640_000, 12_000_000, || strange(12), test);
}

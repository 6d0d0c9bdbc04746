//! C10, C11: the weighted root-mean-square norm.
use crate::fl::*;
use crate::lin::{unit, wide};
use crate::run::*;
use nalgebra::{Const, DMatrix, DVector, Dyn, MatrixView, SVector};
use nonlinear::norm_wrms::NormWRMS;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Vecs {
    #[serde(with = "crate::ser::vecf")]
    x: Vec<f64>,
    #[serde(with = "crate::ser::vecf")]
    w: Vec<f64>,
    #[serde(with = "crate::ser::vecf")]
    z: Vec<f64>,
    store: u8,
    k: i32,
    perm: Vec<usize>,
    flips: Vec<bool>,
}

fn stat<const N: usize>(x: &[f64], w: &[f64]) -> f64 {
    let a = SVector::<f64, N>::from_column_slice(x);
    let b = SVector::<f64, N>::from_column_slice(w);
    let r = a.norm_wrms(&b);
    assert!(same_v(a.as_slice(), x) && same_v(b.as_slice(), w), "norm_wrms changed an argument");
    r
}
pub fn norm_static(x: &[f64], w: &[f64]) -> Option<f64> {
    macro_rules! d { ($($k:literal)*) => { match x.len() { $($k => Some(stat::<$k>(x, w)),)* _ => None } } }
    d!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 31 32 33 40 63 64)
}
fn spread(v: &[f64], rs: usize) -> Vec<f64> {
    let mut o = vec![f64::NAN; v.len() * rs + 3];
    for (i, x) in v.iter().enumerate() {
        o[2 + i * rs] = *x;
    }
    o
}
/// the norm through one of several storages
pub fn norm(store: u8, x: &[f64], w: &[f64]) -> f64 {
    let n = x.len();
    match store {
        1 => {
            if let Some(v) = norm_static(x, w) {
                return v;
            }
            norm(0, x, w)
        }
        2 => {
            // strided dynamic views
            let (a, b) = (spread(x, 3), spread(w, 2));
            let av = MatrixView::<f64, Dyn, Const<1>, Dyn, Dyn>::from_slice_with_strides_generic(&a[2..], Dyn(n), Const::<1>, Dyn(3), Dyn(1));
            let bv = MatrixView::<f64, Dyn, Const<1>, Dyn, Dyn>::from_slice_with_strides_generic(&b[2..], Dyn(n), Const::<1>, Dyn(2), Dyn(1));
            av.norm_wrms(&bv)
        }
        3 => {
            // a column of a larger matrix against an owned vector
            let m = DMatrix::<f64>::from_fn(n, 3, |i, j| if j == 1 { x[i] } else { f64::NAN });
            m.column(1).norm_wrms(&DVector::from_column_slice(w))
        }
        4 => {
            // one-column dynamic matrix
            let m = DMatrix::<f64>::from_column_slice(n, 1, x);
            m.norm_wrms(&DVector::from_column_slice(w))
        }
        _ => {
            let a = DVector::from_column_slice(x);
            let b = DVector::from_column_slice(w);
            let r = a.norm_wrms(&b);
            assert!(same_v(a.as_slice(), x) && same_v(b.as_slice(), w), "norm_wrms changed an argument");
            r
        }
    }
}
/// the definition in double-double
pub fn norm_def(x: &[f64], w: &[f64]) -> f64 {
    let mut s = DD::ZERO;
    for (a, b) in x.iter().zip(w) {
        s = s.add(DD::prod(*a, *b).sq());
    }
    (s.val() / x.len() as f64).sqrt()
}

fn length(max: usize) -> BoxedStrategy<usize> {
    let v: Vec<BoxedStrategy<usize>> = vec![
        (1usize..=6).boxed(),
        (1usize..=40).boxed(),
        prop::sample::select(vec![31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 5000]).prop_map(move |n| n.min(max)).boxed(),
        (1usize..=max).boxed(),
    ];
    prop::strategy::Union::new_weighted(vec![(6, v[0].clone()), (6, v[1].clone()), (1, v[2].clone()), (1, v[3].clone())]).boxed()
}
fn num() -> BoxedStrategy<f64> {
    prop_oneof![6 => unit(), 1 => Just(0.0), 1 => Just(-0.0), 2 => wide(30), 2 => (-9i32..=9).prop_map(|x| x as f64)].boxed()
}
fn weight() -> BoxedStrategy<f64> {
    prop_oneof![6 => unit().prop_map(|x| x.abs() + 1e-3), 1 => Just(0.0), 2 => wide(30), 2 => (1i32..=9).prop_map(|x| x as f64)].boxed()
}
fn case(max: usize) -> BoxedStrategy<Vecs> {
    (length(max), 0u8..5, any::<u8>())
        .prop_flat_map(|(n, store, mode)| {
            let big = n > 300;
            let perm = if big { Just((0..n).rev().collect::<Vec<usize>>()).boxed() } else { crate::lin::perm(n) };
            (
                prop::collection::vec(num(), n),
                prop::collection::vec(weight(), n),
                prop::collection::vec(num(), n),
                Just(store),
                -250i32..250,
                perm,
                prop::collection::vec(any::<bool>(), n),
                -300i32..=300,
            )
                .prop_map(move |(mut x, mut w, mut z, store, k, perm, flips, e)| {
                    match mode % 8 {
                        // common scale far from 1, products staying in range
                        0 => {
                            for v in x.iter_mut().chain(z.iter_mut()) {
                                *v = ldexp(*v, e);
                            }
                            for v in w.iter_mut() {
                                *v = ldexp(*v, -e + k / 3);
                            }
                        }
                        1 => {
                            for v in x.iter_mut().chain(z.iter_mut()) {
                                *v = ldexp(*v, e * 8 / 5);
                            }
                        }
                        2 => {
                            let c = x[0];
                            x.iter_mut().for_each(|v| *v = c);
                        }
                        // one component dominates or is the only one
                        3 => {
                            let t = perm[0];
                            for (i, v) in x.iter_mut().enumerate() {
                                if i != t {
                                    *v = 0.0;
                                } else if *v == 0.0 {
                                    *v = 2.5;
                                }
                            }
                        }
                        4 => {
                            for (i, v) in w.iter_mut().enumerate() {
                                if flips[i] {
                                    *v = 0.0;
                                }
                            }
                        }
                        _ => {}
                    }
                    Vecs { x, w, z, store, k, perm, flips }
                })
        })
        .boxed()
}
fn in_range(v: &[f64], w: &[f64]) -> bool {
    v.iter().zip(w).all(|(a, b)| {
        let p = (a * b).abs();
        (p == 0.0 && (*a == 0.0 || *b == 0.0)) || (p > 1e-150 && p < 1e150)
    })
}

pub fn c10(cx: &mut Ctx) {
    cx.rule("at least two components and a nonzero norm");
    cx.assume("weighted squares in range (products 1e-150 to 1e150 or exactly zero); relative tolerance (n+8) eps");
    let test = |c: &Vecs| -> Res {
        if !in_range(&c.x, &c.w) {
            return Ok(Info::new(false).c(true, "not judged (range)"));
        }
        let n = c.x.len();
        let want = norm_def(&c.x, &c.w);
        let got = norm(c.store, &c.x, &c.w);
        if !((got - want).abs() <= (n as f64 + 8.0) * f64::EPSILON * want) {
            return Err(format!("norm is {:e}, definition gives {:e} ({} components)", got, want, n));
        }
        Ok(Info::new(n > 1 && want > 0.0)
            .c(n > 256, "more than 256 components")
            .c(n == 1, "one component")
            .c(c.w.iter().any(|w| *w == 0.0), "zero weight")
            .c(c.w.iter().any(|w| *w < 0.0), "negative weight")
            .c(c.store == 2, "strided views")
            .c(want > 1e30 || (want > 0.0 && want < 1e-30), "far from 1"))
    };
    cx.prop("vectors", 600_000, 6_000_000, || case(300), test);
    cx.prop("long vectors", 6_000, 80_000, || case(6000), test);
    // lengths at which a narrow counter would wrap
    let lens = [65535usize, 65536, 65537, 70000, 131072, 1_000_003, (1 << 24) + 1];
    let it = lens.into_iter().flat_map(|n| (0u8..if n > 10_000_000 { 1 } else { 4 }).map(move |s| (n, s)));
    cx.enumerate("very long vectors", "lengths 65535, 65536, 65537, 70000, 131072, 1000003 in four storages, 16777217 in one", it, |(n, s)| {
        let x: Vec<f64> = (0..*n).map(|i| ((i % 17) as f64 - 8.0) * 0.25).collect();
        let w: Vec<f64> = (0..*n).map(|i| 1.0 + (i % 5) as f64).collect();
        let want = norm_def(&x, &w);
        let got = norm(*s, &x, &w);
        if !((got - want).abs() <= (*n as f64 + 8.0) * f64::EPSILON * want) {
            return Err(format!("norm is {:e}, definition gives {:e} ({} components)", got, want, n));
        }
        Ok(Info::new(true))
    });
}

pub fn c11(cx: &mut Ctx) {
    cx.rule("at least two components and a nonzero norm");
    cx.assume("laws that hold up to rounding are judged with relative tolerance (2n+16) eps");
    let close = |a: f64, b: f64, n: usize| (a - b).abs() <= (2.0 * n as f64 + 16.0) * f64::EPSILON * a.abs().max(b.abs());
    let test = move |c: &Vecs| -> Res {
        if !in_range(&c.x, &c.w) || !in_range(&c.z, &c.w) {
            return Ok(Info::new(false).c(true, "not judged (range)"));
        }
        let n = c.x.len();
        let a = norm(c.store, &c.x, &c.w);
        if a.is_nan() || a < 0.0 {
            return Err(format!("norm {:e} is negative or NaN", a));
        }
        let allzero = c.x.iter().zip(&c.w).all(|(x, w)| x * w == 0.0);
        if allzero != (a == 0.0) {
            return Err(format!("norm {:e} although {}", a, if allzero { "every product is zero" } else { "some product is nonzero" }));
        }
        // power-of-two factors
        let lim = |v: f64| v == 0.0 || (v.abs() > 1e-150 && v.abs() < 1e150);
        let sx: Vec<f64> = c.x.iter().map(|v| ldexp(*v, c.k)).collect();
        let scaled_ok = c.x.iter().zip(&c.w).all(|(x, w)| lim(ldexp(x * w, c.k)) && (*w == 0.0 || (w.abs() > 1e-150 && w.abs() < 1e150))) && sx.iter().all(|v| *v == 0.0 || (v.abs() > 1e-300 && v.abs() < 1e300));
        if scaled_ok {
            let s = norm(c.store, &sx, &c.w);
            if s != ldexp(a, c.k) {
                return Err(format!("vector times 2^{} has norm {:e}, expected {:e}", c.k, s, ldexp(a, c.k)));
            }
            let sw: Vec<f64> = c.w.iter().map(|v| ldexp(*v, c.k)).collect();
            let s = norm(c.store, &c.x, &sw);
            if sw.iter().all(|v| *v == 0.0 || (v.abs() > 1e-300 && v.abs() < 1e300)) && s != ldexp(a, c.k) {
                return Err(format!("weights times 2^{} give {:e}, expected {:e}", c.k, s, ldexp(a, c.k)));
            }
        }
        // triangle inequality
        let b = norm(c.store, &c.z, &c.w);
        let sum: Vec<f64> = c.x.iter().zip(&c.z).map(|(x, z)| x + z).collect();
        if in_range(&sum, &c.w) {
            let t = norm(c.store, &sum, &c.w);
            if t > (a + b) * (1.0 + (2.0 * n as f64 + 16.0) * f64::EPSILON) {
                return Err(format!("|x+z| = {:e} exceeds |x| + |z| = {:e} + {:e}", t, a, b));
            }
        }
        // monotone in every |x_i| and |w_i|
        let up: Vec<f64> = c.x.iter().zip(&c.flips).map(|(x, f)| if *f { x * 1.25 } else { *x }).collect();
        let m = norm(c.store, &up, &c.w);
        if m < a * (1.0 - (2.0 * n as f64 + 16.0) * f64::EPSILON) {
            return Err(format!("norm falls from {:e} to {:e} although components grow", a, m));
        }
        // any component with a nonzero product counts
        for t in [c.perm[0], c.perm[n / 2], n - 1, 0] {
            let p = c.x[t] * c.w[t];
            if p != 0.0 {
                let mut y = c.x.clone();
                y[t] *= 2f64.powi(40);
                let m = norm(c.store, &y, &c.w);
                let want = norm_def(&y, &c.w);
                if lim(p * 2f64.powi(40)) && !close(m, want, n) {
                    return Err(format!("enlarging component {} gives {:e} instead of {:e}", t, m, want));
                }
            }
        }
        // signs, exchange, order
        let fx: Vec<f64> = c.x.iter().zip(&c.flips).map(|(x, f)| if *f { -x } else { *x }).collect();
        let fw: Vec<f64> = c.w.iter().zip(&c.perm).map(|(x, p)| if *p % 2 == 0 { -x } else { *x }).collect();
        for (what, v) in [("flipped signs of x", norm(c.store, &fx, &c.w)), ("flipped signs of w", norm(c.store, &c.x, &fw)), ("exchanged arguments", norm(c.store, &c.w, &c.x))] {
            if !close(v, a, n) {
                return Err(format!("{}: {:e} instead of {:e}", what, v, a));
            }
        }
        let px: Vec<f64> = c.perm.iter().map(|p| c.x[*p]).collect();
        let pw: Vec<f64> = c.perm.iter().map(|p| c.w[*p]).collect();
        let v = norm(c.store, &px, &pw);
        if !close(v, a, n) {
            return Err(format!("reordered: {:e} instead of {:e}", v, a));
        }
        // repetition
        let rx: Vec<f64> = c.x.iter().chain(&c.x).chain(&c.x).copied().collect();
        let rw: Vec<f64> = c.w.iter().chain(&c.w).chain(&c.w).copied().collect();
        let v = norm(c.store, &rx, &rw);
        if !close(v, a, 3 * n) {
            return Err(format!("three copies: {:e} instead of {:e}", v, a));
        }
        // storage
        for s in 0..5 {
            let v = norm(s, &c.x, &c.w);
            if !close(v, a, n) {
                return Err(format!("storage {}: {:e} instead of {:e}", s, v, a));
            }
        }
        Ok(Info::new(n > 1 && a > 0.0).c(scaled_ok && c.k != 0, "rescaled").c(allzero, "norm zero"))
    };
    cx.prop("laws", 400_000, 6_000_000, || case(60), test);
    cx.prop("laws, longer", 12_000, 120_000, || case(700), test);
    cx.prop("non-finite", 500_000, 6_000_000, || {
        (case(60), any::<u16>(), prop::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), any::<bool>(), prop::option::weighted(0.3, any::<u16>()))
            .prop_map(|(mut c, at, v, in_w, second)| {
                let n = c.x.len();
                for i in 0..n {
                    if c.w[i] == 0.0 {
                        c.w[i] = 1.0;
                    }
                    if c.x[i] == 0.0 {
                        c.x[i] = -1.5;
                    }
                }
                let t = at as usize * n / 65536;
                if in_w {
                    c.w[t] = v;
                } else {
                    c.x[t] = v;
                }
                if let Some(s) = second {
                    let t = s as usize * n / 65536;
                    if c.w[t].is_finite() {
                        c.x[t] = f64::INFINITY;
                    }
                }
                c
            })
            .boxed()
    }, |c: &Vecs| {
        let g = norm(c.store, &c.x, &c.w);
        let nan = c.x.iter().chain(&c.w).any(|v| v.is_nan());
        if nan && !g.is_nan() {
            return Err(format!("a component is NaN, the norm is {:e}", g));
        }
        if !nan && g != f64::INFINITY {
            return Err(format!("a component is infinite, the norm is {:e}", g));
        }
        Ok(Info::new(true).c(nan, "NaN").c(!nan, "infinity").c(c.x.len() > 1, "several components"))
    });
}

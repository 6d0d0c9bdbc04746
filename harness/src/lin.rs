//! Size- and precision-erased access to linear::Dense, a reference LU, and matrix generators.
use crate::fl::*;
use linear::{Dense, Error, LSolver, LSolverType};
use nalgebra::{Const, Dyn, MatrixViewMut, SMatrix, SVector, U1};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const SIZES: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 24, 32, 33, 40, 50, 63, 64, 65, 100, 128, 260];

/// a solver object of some size and precision; matrices are column-major f64 slices
pub trait Lin: Send {
    fn setup(&mut self, a: &mut [f64]) -> Result<(), Error>;
    fn solve(&self, a: &[f64], x: &mut [f64], b: &[f64], tol: f64) -> Result<(), Error>;
    /// setup and solve through strided views into guarded buffers
    fn setup_view(&mut self, a: &mut [f64], lay: &Lay) -> Result<Result<(), Error>, String>;
    fn solve_view(&self, a: &[f64], x: &mut [f64], b: &[f64], la: &Lay, lx: &Lay, lb: &Lay) -> Result<Result<(), Error>, String>;
    fn dup(&self) -> Box<dyn Lin>;
    fn scaling(&mut self, s1: &[f64], s2: &[f64]);
    fn queries(&self) -> (bool, usize, f64);
}

/// how a matrix or vector lies in a larger buffer (row stride, column stride, offset)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Lay {
    pub owned: bool,
    pub rgap: usize,
    pub cgap: usize,
    pub off: usize,
    pub transposed: bool,
}
pub fn lay() -> impl Strategy<Value = Lay> {
    (prop::bool::weighted(0.25), 0usize..3, 0usize..5, 0usize..4, any::<bool>())
        .prop_map(|(owned, rgap, cgap, off, transposed)| Lay { owned, rgap, cgap, off, transposed })
}
impl Lay {
    /// (row stride, column stride, buffer length) for an r x c matrix
    pub fn strides(&self, r: usize, c: usize) -> (usize, usize, usize) {
        let (rs, cs) = if self.transposed {
            let cs = self.rgap + 1;
            (cs * (c - 1) + 1 + self.cgap, cs)
        } else {
            let rs = self.rgap + 1;
            (rs, rs * (r - 1) + 1 + self.cgap)
        };
        (rs, cs, self.off + rs * (r - 1) + cs * (c - 1) + 1 + 3)
    }
}
pub struct Buf<T> {
    pub v: Vec<T>,
    rs: usize,
    cs: usize,
    off: usize,
    r: usize,
    c: usize,
}
pub fn guard_val(i: usize) -> f64 {
    1000.5 + i as f64
}
impl<T: Fl> Buf<T> {
    pub fn new(src: &[f64], r: usize, c: usize, l: &Lay) -> Self {
        let (rs, cs, len) = l.strides(r, c);
        let mut v: Vec<T> = (0..len).map(|i| T::of(guard_val(i))).collect();
        for j in 0..c {
            for i in 0..r {
                v[l.off + i * rs + j * cs] = T::of(src[j * r + i]);
            }
        }
        Buf { v, rs, cs, off: l.off, r, c }
    }
    pub fn view<const R: usize, const C: usize>(&mut self) -> MatrixViewMut<'_, T, Const<R>, Const<C>, Dyn, Dyn> {
        assert!(R == self.r && C == self.c);
        MatrixViewMut::from_slice_with_strides_generic(&mut self.v[self.off..], Const::<R>, Const::<C>, Dyn(self.rs), Dyn(self.cs))
    }
    pub fn vview<const R: usize>(&mut self) -> MatrixViewMut<'_, T, Const<R>, U1, Dyn, Dyn> {
        self.view::<R, 1>()
    }
    /// writes the content back and reports any element changed outside the view
    pub fn finish(&self, dst: Option<&mut [f64]>) -> Result<Vec<f64>, String> {
        let mut inside = vec![false; self.v.len()];
        let mut out = vec![0.0; self.r * self.c];
        for j in 0..self.c {
            for i in 0..self.r {
                let p = self.off + i * self.rs + j * self.cs;
                inside[p] = true;
                out[j * self.r + i] = self.v[p].to();
            }
        }
        for (i, x) in self.v.iter().enumerate() {
            if !inside[i] && x.to() != T::of(guard_val(i)).to() {
                return Err(format!("element {} outside the view was changed to {:e}", i, x.to()));
            }
        }
        if let Some(d) = dst {
            d.copy_from_slice(&out);
        }
        Ok(out)
    }
}

pub fn mat<T: Fl, const R: usize, const C: usize>(a: &[f64]) -> SMatrix<T, R, C> {
    SMatrix::<T, R, C>::from_fn(|i, j| T::of(a[j * R + i]))
}
pub fn unmat<T: Fl, const R: usize, const C: usize>(m: &SMatrix<T, R, C>, a: &mut [f64]) {
    for j in 0..C {
        for i in 0..R {
            a[j * R + i] = m[(i, j)].to();
        }
    }
}

struct W<T, const N: usize> {
    d: Dense<Const<N>>,
    _t: std::marker::PhantomData<T>,
}
impl<T: Fl, const N: usize> Lin for W<T, N> {
    fn setup(&mut self, a: &mut [f64]) -> Result<(), Error> {
        let mut m = mat::<T, N, N>(a);
        let r = LSolver::<T, Const<N>>::setup(&mut self.d, &mut m);
        unmat(&m, a);
        r
    }
    fn solve(&self, a: &[f64], x: &mut [f64], b: &[f64], tol: f64) -> Result<(), Error> {
        let m = mat::<T, N, N>(a);
        let mut xv: SVector<T, N> = mat::<T, N, 1>(x);
        let bv: SVector<T, N> = mat::<T, N, 1>(b);
        let r = LSolver::<T, Const<N>>::solve(&self.d, &m, &mut xv, &bv, T::of(tol));
        unmat(&xv, x);
        let mut chk = vec![0.0; N];
        unmat(&bv, &mut chk);
        assert!(same_v(&chk, b), "right-hand side changed by solve");
        let mut chk = vec![0.0; N * N];
        unmat(&m, &mut chk);
        assert!(same_v(&chk, a), "factors changed by solve");
        r
    }
    fn setup_view(&mut self, a: &mut [f64], l: &Lay) -> Result<Result<(), Error>, String> {
        if l.owned {
            return Ok(self.setup(a));
        }
        let mut buf = Buf::<T>::new(a, N, N, l);
        let r = {
            let mut v = buf.view::<N, N>();
            LSolver::<T, Const<N>>::setup(&mut self.d, &mut v)
        };
        buf.finish(Some(a)).map_err(|e| format!("setup: {}", e))?;
        Ok(r)
    }
    fn solve_view(&self, a: &[f64], x: &mut [f64], b: &[f64], la: &Lay, lx: &Lay, lb: &Lay) -> Result<Result<(), Error>, String> {
        let mut ab = Buf::<T>::new(a, N, N, la);
        let mut xb = Buf::<T>::new(x, N, 1, lx);
        let mut bb = Buf::<T>::new(b, N, 1, lb);
        let mut xo: SVector<T, N> = mat::<T, N, 1>(x);
        let bo: SVector<T, N> = mat::<T, N, 1>(b);
        let ao = mat::<T, N, N>(a);
        let tol = T::of(0.0);
        let r = {
            let av = ab.view::<N, N>();
            let mut xv = xb.vview::<N>();
            let bv = bb.vview::<N>();
            let d = &self.d;
            match (la.owned, lx.owned, lb.owned) {
                (false, false, false) => LSolver::<T, Const<N>>::solve(d, &av, &mut xv, &bv, tol),
                (false, false, true) => LSolver::<T, Const<N>>::solve(d, &av, &mut xv, &bo, tol),
                (false, true, false) => LSolver::<T, Const<N>>::solve(d, &av, &mut xo, &bv, tol),
                (false, true, true) => LSolver::<T, Const<N>>::solve(d, &av, &mut xo, &bo, tol),
                (true, false, false) => LSolver::<T, Const<N>>::solve(d, &ao, &mut xv, &bv, tol),
                (true, false, true) => LSolver::<T, Const<N>>::solve(d, &ao, &mut xv, &bo, tol),
                (true, true, false) => LSolver::<T, Const<N>>::solve(d, &ao, &mut xo, &bv, tol),
                (true, true, true) => LSolver::<T, Const<N>>::solve(d, &ao, &mut xo, &bo, tol),
            }
        };
        let av = ab.finish(None).map_err(|e| format!("solve, matrix: {}", e))?;
        if !same_v(&av, a) {
            return Err("solve changed the factors".into());
        }
        let bv = bb.finish(None).map_err(|e| format!("solve, b: {}", e))?;
        if !same_v(&bv, b) {
            return Err("solve changed b".into());
        }
        if lx.owned {
            unmat(&xo, x);
        } else {
            xb.finish(Some(x)).map_err(|e| format!("solve, x: {}", e))?;
        }
        Ok(r)
    }
    fn dup(&self) -> Box<dyn Lin> {
        Box::new(W::<T, N> { d: self.d.clone(), _t: std::marker::PhantomData })
    }
    fn scaling(&mut self, s1: &[f64], s2: &[f64]) {
        let a: SVector<T, N> = mat::<T, N, 1>(s1);
        let b: SVector<T, N> = mat::<T, N, 1>(s2);
        LSolver::<T, Const<N>>::set_scaling_vectors::<(), ()>(&mut self.d, a.as_view(), b.as_view());
    }
    fn queries(&self) -> (bool, usize, f64) {
        (
            matches!(LSolver::<T, Const<N>>::get_type(&self.d), LSolverType::Direct),
            LSolver::<T, Const<N>>::num_iters(&self.d),
            LSolver::<T, Const<N>>::res_norm(&self.d).to(),
        )
    }
}
fn mk<T: Fl, const N: usize>() -> Box<dyn Lin> {
    Box::new(W::<T, N> { d: <Dense<Const<N>> as LSolver<T, Const<N>>>::new(), _t: std::marker::PhantomData })
}
fn mk_n<T: Fl>(n: usize) -> Box<dyn Lin> {
    macro_rules! d { ($($k:literal)*) => { match n { $($k => mk::<T, $k>(),)* _ => panic!("size {}", n) } } }
    d!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 20 24 32 33 40 50 63 64 65 100 128 260)
}
pub fn new_lin(n: usize, single: bool) -> Box<dyn Lin> {
    if single {
        mk_n::<f32>(n)
    } else {
        mk_n::<f64>(n)
    }
}
pub fn col_of(e: &Error) -> usize {
    match e {
        Error::LUFactFail { col } => *col,
        #[allow(unreachable_patterns)]
        _ => usize::MAX,
    }
}

// ---------------------------------------------------------------- reference

pub struct Ref {
    pub lu: Vec<f64>,
    /// original row sitting in each position after all exchanges
    pub perm: Vec<usize>,
    pub piv: Vec<usize>,
    pub err: Option<usize>,
    /// some step had two pivot candidates of the same magnitude
    pub ties: bool,
    pub swaps: usize,
    pub finite: bool,
    pub eps: f64,
    /// smallest |pivot| relative to the largest entry met so far
    pub rel_pivot: f64,
}
/// denseGETRF of SUNDIALS, in precision T
pub fn ref_rf<T: Fl>(n: usize, a: &[f64]) -> Ref {
    let mut m: Vec<T> = a.iter().map(|x| T::of(*x)).collect();
    let ix = |i: usize, j: usize| j * n + i;
    let mut perm: Vec<usize> = (0..n).collect();
    let mut piv = vec![0; n];
    let mut r = Ref { lu: vec![], perm: vec![], piv: vec![], err: None, ties: false, swaps: 0, finite: true, eps: T::EPS, rel_pivot: f64::INFINITY };
    let mut big = m.iter().fold(0.0f64, |s, x| s.max(x.to().abs()));
    for k in 0..n {
        let mut l = k;
        for i in k + 1..n {
            if m[ix(i, k)].abs() > m[ix(l, k)].abs() {
                l = i;
            }
        }
        for i in k..n {
            if i != l && m[ix(i, k)].abs() == m[ix(l, k)].abs() {
                r.ties = true;
            }
        }
        piv[k] = l;
        if m[ix(l, k)] == T::of(0.0) {
            r.err = Some(k + 1);
            break;
        }
        if l != k {
            r.swaps += 1;
            perm.swap(k, l);
            for j in 0..n {
                m.swap(ix(l, j), ix(k, j));
            }
        }
        let mult = T::of(1.0) / m[ix(k, k)];
        if !mult.to().is_finite() {
            r.finite = false;
        }
        for i in k + 1..n {
            m[ix(i, k)] *= mult;
        }
        for j in k + 1..n {
            let akj = m[ix(k, j)];
            if akj != T::of(0.0) {
                for i in k + 1..n {
                    let t = m[ix(i, k)];
                    m[ix(i, j)] -= akj * t;
                }
            }
        }
        big = m.iter().fold(big, |s, x| s.max(x.to().abs()));
        r.rel_pivot = r.rel_pivot.min(m[ix(k, k)].to().abs() / big);
    }
    r.lu = m.iter().map(|x| x.to()).collect();
    if r.lu.iter().any(|x| !x.is_finite()) {
        r.finite = false;
    }
    r.perm = perm;
    r.piv = piv;
    r
}
/// denseGETRS of SUNDIALS
pub fn ref_rs<T: Fl>(n: usize, r: &Ref, b: &[f64]) -> Vec<f64> {
    let m: Vec<T> = r.lu.iter().map(|x| T::of(*x)).collect();
    let mut b: Vec<T> = b.iter().map(|x| T::of(*x)).collect();
    let ix = |i: usize, j: usize| j * n + i;
    for k in 0..n {
        let pk = r.piv[k];
        if pk != k {
            b.swap(k, pk);
        }
    }
    for k in 0..n - 1 {
        let bk = b[k];
        for i in k + 1..n {
            b[i] -= m[ix(i, k)] * bk;
        }
    }
    for k in (1..n).rev() {
        b[k] /= m[ix(k, k)];
        let bk = b[k];
        for i in 0..k {
            b[i] -= m[ix(i, k)] * bk;
        }
    }
    b[0] /= m[0];
    b.iter().map(|x| x.to()).collect()
}
pub fn ref_rf_p(n: usize, single: bool, a: &[f64]) -> Ref {
    if single {
        ref_rf::<f32>(n, a)
    } else {
        ref_rf::<f64>(n, a)
    }
}
pub fn ref_rs_p(n: usize, single: bool, r: &Ref, b: &[f64]) -> Vec<f64> {
    if single {
        ref_rs::<f32>(n, r, b)
    } else {
        ref_rs::<f64>(n, r, b)
    }
}
pub fn eps_of(single: bool) -> f64 {
    if single {
        f32::EPSILON as f64
    } else {
        f64::EPSILON
    }
}
pub fn tiny_of(single: bool) -> f64 {
    if single {
        1.5e-45
    } else {
        5e-324
    }
}

// ---------------------------------------------------------------- generators

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sys {
    pub n: usize,
    pub single: bool,
    pub fam: String,
    #[serde(with = "crate::ser::vecf")]
    pub a: Vec<f64>,
    #[serde(with = "crate::ser::vecf")]
    pub b: Vec<f64>,
}

/// sizes up to `max`, mostly small ones; from 41 up only the large ones
pub fn size(max: usize) -> BoxedStrategy<usize> {
    if max > 40 {
        return prop::sample::select(SIZES.iter().copied().filter(|s| *s > 32 && *s <= max).collect::<Vec<usize>>()).boxed();
    }
    let small: Vec<usize> = SIZES.iter().copied().filter(|s| *s <= 6 && *s <= max).collect();
    let mid: Vec<usize> = SIZES.iter().copied().filter(|s| *s > 6 && *s <= 16 && *s <= max).collect();
    let big: Vec<usize> = SIZES.iter().copied().filter(|s| *s > 16 && *s <= max).collect();
    let mut v = vec![(7, prop::sample::select(small).boxed())];
    if !mid.is_empty() {
        v.push((3, prop::sample::select(mid).boxed()));
    }
    if !big.is_empty() {
        v.push((1, prop::sample::select(big).boxed()));
    }
    prop::strategy::Union::new_weighted(v).boxed()
}

pub fn unit() -> impl Strategy<Value = f64> + Clone {
    (-1_000_000_000i64..=1_000_000_000, -500i64..=500).prop_map(|(a, b)| (a as f64 + b as f64 / 1000.0) / 1e9)
}
pub fn small_int(k: i32) -> impl Strategy<Value = f64> + Clone {
    (-k..=k).prop_map(|x| x as f64)
}
pub fn wide(e: i32) -> impl Strategy<Value = f64> + Clone {
    (unit(), -e..=e).prop_map(|(m, e)| m * 2f64.powi(e))
}
pub fn entry(single: bool) -> BoxedStrategy<f64> {
    prop_oneof![
        4 => unit(),
        2 => small_int(4),
        1 => Just(0.0),
        1 => wide(if single { 12 } else { 60 }),
    ]
    .boxed()
}
pub fn perm(n: usize) -> BoxedStrategy<Vec<usize>> {
    Just((0..n).collect::<Vec<usize>>()).prop_shuffle().boxed()
}
fn vecs(n: usize, s: impl Strategy<Value = f64> + 'static) -> BoxedStrategy<Vec<f64>> {
    prop::collection::vec(s, n).boxed()
}
pub fn permute_rows(n: usize, a: &[f64], p: &[usize]) -> Vec<f64> {
    let mut o = vec![0.0; n * n];
    for j in 0..n {
        for i in 0..n {
            o[j * n + i] = a[j * n + p[i]];
        }
    }
    o
}
pub fn well_conditioned(n: usize) -> BoxedStrategy<Vec<f64>> {
    (vecs(n * n, unit()), perm(n), vecs(n, prop_oneof![Just(1.0), Just(-1.0)]))
        .prop_map(move |(mut a, p, s)| {
            for j in 0..n {
                for i in 0..n {
                    a[j * n + i] *= 0.5 / n as f64;
                    if i == j {
                        a[j * n + i] += s[i];
                    }
                }
            }
            permute_rows(n, &a, &p)
        })
        .boxed()
}

pub const FAMS: &[&str] = &[
    "dense", "ints", "pm1", "sparse", "wide", "scaled", "nearsing", "permtri", "growth", "hilbert", "band", "stiff", "zerodiag", "wellcond", "mixed",
];
pub fn matrix(n: usize, single: bool, fam: &'static str) -> BoxedStrategy<Vec<f64>> {
    let we = if single { 12 } else { 60 };
    match fam {
        "dense" => vecs(n * n, unit()),
        "ints" => vecs(n * n, small_int(3)),
        "pm1" => vecs(n * n, prop_oneof![Just(1.0), Just(-1.0)]),
        "sparse" => (vecs(n * n, prop_oneof![3 => Just(0.0), 1 => unit(), 1 => small_int(2)]), perm(n), vecs(n, prop_oneof![Just(1.0), Just(-2.0), unit()]))
            .prop_map(move |(mut a, p, d)| {
                for i in 0..n {
                    a[i * n + p[i]] = if d[i] == 0.0 { 1.0 } else { d[i] };
                }
                a
            })
            .boxed(),
        "wide" => vecs(n * n, wide(we)),
        "scaled" => (vecs(n * n, unit()), prop::collection::vec(-we..=we, n), prop::collection::vec(-we..=we, n))
            .prop_map(move |(mut a, r, c)| {
                for j in 0..n {
                    for i in 0..n {
                        a[j * n + i] *= 2f64.powi(r[i]) * 2f64.powi(c[j]);
                    }
                }
                a
            })
            .boxed(),
        "nearsing" => (vecs(n * n, unit()), vecs(n, small_int(2)), 0usize..n, 1i32..50)
            .prop_map(move |(mut a, c, t, e)| {
                // column t becomes a combination of the others, slightly perturbed
                for i in 0..n {
                    let mut s = a[t * n + i] * 2f64.powi(-e);
                    for j in 0..n {
                        if j != t {
                            s += c[j] * a[j * n + i];
                        }
                    }
                    a[t * n + i] = s;
                }
                a
            })
            .boxed(),
        "permtri" => (vecs(n * n, prop_oneof![unit(), small_int(2)]), perm(n), any::<bool>(), vecs(n, prop_oneof![Just(1.0), Just(-0.5), Just(3.0), Just(1e-3)]))
            .prop_map(move |(mut a, p, up, d)| {
                for j in 0..n {
                    for i in 0..n {
                        if (up && i > j) || (!up && i < j) {
                            a[j * n + i] = 0.0;
                        }
                        if i == j {
                            a[j * n + i] = d[i];
                        }
                    }
                }
                permute_rows(n, &a, &p)
            })
            .boxed(),
        "growth" => (vecs(n, prop_oneof![Just(1.0), Just(0.999), Just(1.5)]), perm(n), any::<bool>())
            .prop_map(move |(d, p, shuffle)| {
                let mut a = vec![0.0; n * n];
                for j in 0..n {
                    for i in 0..n {
                        a[j * n + i] = if i == j { d[i] } else if j == n - 1 { 1.0 } else if i > j { -0.9 } else { 0.0 };
                    }
                }
                if shuffle {
                    permute_rows(n, &a, &p)
                } else {
                    a
                }
            })
            .boxed(),
        "hilbert" => (1i32..4, perm(n))
            .prop_map(move |(o, p)| {
                let mut a = vec![0.0; n * n];
                for j in 0..n {
                    for i in 0..n {
                        a[j * n + i] = 1.0 / ((i + j) as f64 + o as f64);
                    }
                }
                permute_rows(n, &a, &p)
            })
            .boxed(),
        "band" => (vecs(n * n, unit()), vecs(n, prop_oneof![2 => unit(), 1 => Just(0.0), 1 => Just(-2.0)]))
            .prop_map(move |(mut a, d)| {
                for j in 0..n {
                    for i in 0..n {
                        if i == j {
                            a[j * n + i] = d[i];
                        } else if i.abs_diff(j) > 1 {
                            a[j * n + i] = 0.0;
                        }
                    }
                }
                a
            })
            .boxed(),
        // c I - J with rates over many decades, last row an algebraic constraint
        "stiff" => (vecs(n * n, unit()), prop::collection::vec(-3i32..=if single { 4 } else { 8 }, n), -2i32..5, any::<bool>())
            .prop_map(move |(mut a, r, cj, alg)| {
                for j in 0..n {
                    for i in 0..n {
                        a[j * n + i] *= 10f64.powi(r[j]);
                        if i == j {
                            a[j * n + i] -= 10f64.powi(cj);
                        }
                        if alg && i == n - 1 {
                            a[j * n + i] = 1.0;
                        }
                    }
                }
                a
            })
            .boxed(),
        "zerodiag" => vecs(n * n, prop_oneof![3 => unit(), 1 => Just(0.0), 1 => small_int(2)])
            .prop_map(move |mut a| {
                if n > 1 {
                    for i in 0..n {
                        a[i * n + i] = 0.0;
                    }
                }
                a
            })
            .boxed(),
        "wellcond" => well_conditioned(n),
        "mixed" => vecs(n * n, entry(single)),
        _ => unreachable!(),
    }
}
pub fn rhs(n: usize, single: bool) -> BoxedStrategy<Vec<f64>> {
    prop_oneof![
        3 => vecs(n, unit()),
        2 => vecs(n, small_int(5)),
        2 => vecs(n, wide(if single { 12 } else { 60 })),
        1 => vecs(n, prop_oneof![3 => Just(0.0), 1 => unit()]),
        1 => (0..n, unit()).prop_map(move |(k, v)| { let mut b = vec![0.0; n]; b[k] = if v == 0.0 { 1.0 } else { v }; b }),
    ]
    .boxed()
}
pub fn to_prec(single: bool, v: &mut [f64]) {
    if single {
        for x in v.iter_mut() {
            *x = *x as f32 as f64;
        }
    }
}
/// twists applied to a generated system: structure, extreme scales, candidates that almost tie
#[derive(Clone, Debug)]
pub enum Twist {
    None,
    /// the whole matrix and the right-hand side times powers of two
    Scale(i32, i32),
    /// in column j, row k becomes row i's entry moved by some units in the last place
    NearTie(Vec<(usize, usize, usize, i32, bool)>),
    Symmetric(bool),
    Band(usize, usize),
    RowDominant,
    ColDominant,
    Toeplitz,
    RepeatRow(usize, usize, i32),
    RepeatCol(usize, usize, i32),
    Arrow(bool),
    Companion,
    Hessenberg(bool),
    Blocks(usize),
    UnitDiag,
    BHasColumn(usize),
    Extremes(Vec<(usize, i32)>),
}
fn twist(n: usize, single: bool) -> BoxedStrategy<Twist> {
    let k = if single { 118 } else { 1000 };
    let band = 0..=n.min(6);
    prop_oneof![
        12 => Just(Twist::None),
        3 => (-k..=k, prop_oneof![1 => Just(None), 1 => (-k..=k).prop_map(Some)]).prop_map(|(g, h)| Twist::Scale(g, h.unwrap_or(g))),
        2 => prop::collection::vec((0..n, 0..n, 0..n, -3i32..=3, any::<bool>()), 1..=2 * n).prop_map(Twist::NearTie),
        1 => any::<bool>().prop_map(Twist::Symmetric),
        2 => (band.clone(), band).prop_map(|(l, u)| Twist::Band(l, u)),
        1 => Just(Twist::RowDominant),
        1 => Just(Twist::ColDominant),
        1 => Just(Twist::Toeplitz),
        1 => (0..n, 0..n, -1i32..=1).prop_map(|(i, j, e)| Twist::RepeatRow(i, j, e)),
        1 => (0..n, 0..n, -1i32..=1).prop_map(|(i, j, e)| Twist::RepeatCol(i, j, e)),
        1 => any::<bool>().prop_map(Twist::Arrow),
        1 => Just(Twist::Companion),
        1 => any::<bool>().prop_map(Twist::Hessenberg),
        1 => (1..=n).prop_map(Twist::Blocks),
        1 => Just(Twist::UnitDiag),
        1 => (0..n).prop_map(Twist::BHasColumn),
        1 => prop::collection::vec((0..n * n, -k / 2..=k / 2), 1..=3).prop_map(Twist::Extremes),
    ]
    .boxed()
}
fn ulps(x: f64, d: i32, single: bool) -> f64 {
    if single {
        let b = (x as f32).to_bits();
        f32::from_bits((b as i64 + d as i64).max(0) as u32) as f64
    } else {
        f64::from_bits((x.to_bits() as i128 + d as i128).max(0) as u64)
    }
}
impl Twist {
    fn apply(&self, n: usize, single: bool, a: &mut [f64], b: &mut [f64]) {
        let keep = |a: &mut [f64], f: &dyn Fn(usize, usize) -> bool| {
            for j in 0..n {
                for i in 0..n {
                    if !f(i, j) {
                        a[j * n + i] = 0.0;
                    }
                }
            }
        };
        match self {
            Twist::None => {}
            Twist::Scale(g, h) => {
                a.iter_mut().for_each(|v| *v = ldexp(*v, *g));
                b.iter_mut().for_each(|v| *v = ldexp(*v, *h));
            }
            Twist::NearTie(v) => {
                for (j, i, k, d, neg) in v {
                    let x = a[j * n + i];
                    if i != k && x != 0.0 && x.is_finite() {
                        let y = ulps(if single { x as f32 as f64 } else { x }, *d, single);
                        if y.is_finite() {
                            a[j * n + k] = if *neg { -y } else { y };
                        }
                    }
                }
            }
            Twist::Symmetric(dom) => {
                for j in 0..n {
                    for i in 0..j {
                        a[j * n + i] = a[i * n + j];
                    }
                    if *dom {
                        a[j * n + j] = a[j * n + j].abs() + 0.25;
                    }
                }
            }
            Twist::Band(l, u) => keep(a, &|i, j| i <= j + l && j <= i + u),
            Twist::RowDominant => {
                for i in 0..n {
                    let s: f64 = (0..n).filter(|j| *j != i).map(|j| a[j * n + i].abs()).sum();
                    a[i * n + i] = if a[i * n + i] < 0.0 { -1.001 * s } else { 1.001 * s + 1e-3 };
                }
            }
            Twist::ColDominant => {
                for j in 0..n {
                    let s: f64 = (0..n).filter(|i| *i != j).map(|i| a[j * n + i].abs()).sum();
                    a[j * n + j] = if a[j * n + j] < 0.0 { -1.001 * s } else { 1.001 * s + 1e-3 };
                }
            }
            Twist::Toeplitz => {
                for j in 1..n {
                    for i in 1..n {
                        a[j * n + i] = a[(j - 1) * n + i - 1];
                    }
                }
            }
            Twist::RepeatRow(i, k, e) => (0..n).for_each(|j| a[j * n + k] = ldexp(a[j * n + i], *e)),
            Twist::RepeatCol(i, k, e) => (0..n).for_each(|r| a[k * n + r] = ldexp(a[i * n + r], *e)),
            Twist::Arrow(up) => keep(a, &|i, j| i == j || if *up { i == 0 || j == 0 } else { i == n - 1 || j == n - 1 }),
            Twist::Companion => {
                for j in 0..n - 1 {
                    for i in 0..n {
                        a[j * n + i] = if i == j + 1 { 1.0 } else { 0.0 };
                    }
                }
            }
            Twist::Hessenberg(up) => keep(a, &|i, j| if *up { i <= j + 1 } else { j <= i + 1 }),
            Twist::Blocks(k) => keep(a, &|i, j| i / k == j / k),
            Twist::UnitDiag => (0..n).for_each(|i| a[i * n + i] = 1.0),
            Twist::BHasColumn(j) => b.copy_from_slice(&a[j * n..(j + 1) * n]),
            Twist::Extremes(v) => v.iter().for_each(|(k, e)| a[*k] = ldexp(a[*k], *e)),
        }
        for v in a.iter_mut().chain(b.iter_mut()) {
            let y = if single { *v as f32 as f64 } else { *v };
            if !y.is_finite() {
                *v = 1.0;
            }
        }
    }
}
pub fn sys_fam(max: usize, fams: &'static [&'static str], single: BoxedStrategy<bool>) -> BoxedStrategy<Sys> {
    (size(max), single, prop::sample::select(fams))
        .prop_flat_map(|(n, single, fam)| {
            (matrix(n, single, fam), rhs(n, single), twist(n, single)).prop_map(move |(mut a, mut b, t)| {
                t.apply(n, single, &mut a, &mut b);
                to_prec(single, &mut a);
                to_prec(single, &mut b);
                let fam = if let Twist::None = t { fam.to_string() } else { format!("{} {}", fam, format!("{:?}", t).split('(').next().unwrap()) };
                Sys { n, single, fam, a, b }
            })
        })
        .boxed()
}
impl Sys {
    /// a tolerance argument for solve; the dense solver is to ignore it
    pub fn tol(&self) -> f64 {
        let h = self.b.iter().fold(self.n as u64, |h, v| h.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ v.to_bits() >> 7);
        [0.0, 1e-8, 1e-3, 1.0, 1e6, -1.0, 0.0, 1e-300][(h % 8) as usize]
    }
}
pub fn sys(max: usize) -> BoxedStrategy<Sys> {
    sys_fam(max, FAMS, prop::bool::weighted(0.3).boxed())
}

//! Generators of problems and output times. Numbers come from grids, so that they shrink to round ones.
use crate::prob::*;
use proptest::prelude::*;

/// a number of a grid of step 1/den
pub fn g(lo: i32, hi: i32, den: f64) -> impl Strategy<Value = f64> + Clone {
    (lo..=hi).prop_map(move |x| x as f64 / den)
}

fn sol() -> impl Strategy<Value = Sol> {
    let full = (g(-64, 64, 32.0), g(0, 64, 32.0), g(2, 160, 32.0), g(0, 200, 32.0), g(-64, 64, 32.0), g(4, 96, 32.0), g(-10, 10, 32.0))
        .prop_map(|(c0, c1, w, p, c2, r, c3)| Sol { c0, c1, w, p, c2, r, c3 });
    prop_oneof![
        6 => full,
        1 => g(-64, 64, 32.0).prop_map(|c0| Sol { c0, c1: 0.0, w: 1.0, p: 0.0, c2: 0.0, r: 1.0, c3: 0.0 }),
        1 => (g(-64, 64, 32.0), g(-10, 10, 32.0)).prop_map(|(c0, c3)| Sol { c0, c1: 0.0, w: 1.0, p: 0.0, c2: 0.0, r: 1.0, c3 }),
    ]
}

#[derive(Clone, Copy)]
pub struct What {
    pub nmax: usize,
    /// largest power of ten of a row's stiffness
    pub stiff: i32,
    pub alg: bool,
    pub mix: bool,
    pub nonlin: bool,
    /// loosest and tightest power of ten of the tolerances
    pub tol: (i32, i32),
    pub scale: bool,
    /// the Jacobian may change so much along the solution that Newton's method has trouble
    pub wild: bool,
}
pub const ALL: What = What { nmax: 5, stiff: 4, alg: true, mix: true, nonlin: true, tol: (2, 8), scale: true, wild: false };
pub const WILD: What = What { wild: true, ..ALL };

pub fn spec(w: What) -> impl Strategy<Value = Spec> {
    (1..=w.nmax).prop_flat_map(move |n| {
        let rows = proptest::collection::vec(
            (
                proptest::collection::vec(g(-16, 16, 16.0), n),
                g(8, 48, 16.0),
                0..=w.stiff * 2,
                prop_oneof![Just(0.0), g(0, 32, 16.0)],
                any::<prop::sample::Index>(),
            ),
            n,
        );
        (
            rows,
            proptest::collection::vec(sol(), n),
            proptest::collection::vec(prop_oneof![3 => Just(false), 1 => Just(w.alg)], n),
            proptest::collection::vec(g(-16, 16, 16.0), n * n),
            any::<bool>(),
            (prop_oneof![Just(0.0), g(1, if w.wild { 14 } else { 5 }, 16.0)], g(4, 48, 16.0)),
            (w.tol.0 * 2..=w.tol.1 * 2, proptest::collection::vec(-1..=2i32, n)),
            (prop_oneof![6 => Just(0), 3 => -8..=8i32, 1 => -60..=60i32], any::<bool>(), prop_oneof![6 => Just(0), 3 => -8..=8i32, 1 => -60..=60i32]),
        )
            .prop_map(move |(rows, sol, alg, mm, mixed, (tv, tw), (rt, at), (te, tneg, ye))| {
                let mut b = vec![0.0; n * n];
                let mut c = vec![0.0; n];
                for (i, (off, extra, st, cub, _)) in rows.iter().enumerate() {
                    let k = 10f64.powf(*st as f64 / 2.0);
                    let mut s = 0.0;
                    for j in 0..n {
                        if j != i {
                            b[i * n + j] = off[j] * k;
                            s += off[j].abs();
                        }
                    }
                    b[i * n + i] = (s + extra) * k;
                    c[i] = if w.nonlin { *cub * k * if w.wild { 1.0 } else { 1.0 / 128.0 } } else { 0.0 };
                }
                // unit lower triangle times a diagonal: well conditioned
                let mut m = vec![0.0; n * n];
                for i in 0..n {
                    for j in 0..n {
                        m[i * n + j] = if i == j {
                            1.0
                        } else if j < i && mixed && w.mix {
                            mm[i * n + j]
                        } else {
                            0.0
                        };
                    }
                }
                let (ts, ys) = if w.scale {
                    ((if tneg { -1.0 } else { 1.0 }) * 2f64.powi(te), 2f64.powi(ye))
                } else {
                    (1.0, 1.0)
                };
                Spec {
                    n,
                    alg,
                    b,
                    c,
                    m,
                    sol,
                    tv,
                    tw,
                    rtol: 10f64.powf(-rt as f64 / 2.0),
                    atol: at.iter().map(|a| ys * 10f64.powf(-(a + rt) as f64 / 2.0)).collect(),
                    ts,
                    ys,
                    jump: None,
                }
            })
    })
}

/// the target of a component jumps: an algebraic one follows it, so that no step across it is accurate
pub fn jumping(w: What) -> impl Strategy<Value = Spec> {
    (spec(w), (any::<prop::sample::Index>(), prop_oneof![3 => Just(true), 1 => Just(false)]), prop_oneof![g(1, 320, 64.0), g(0, 64, 64.0)], (prop_oneof![g(1, 64, 64.0), g(-64, -1, 64.0)], prop_oneof![Just(0), -24..=6i32, 4..=20i32]), prop_oneof![Just(None), (1..=200usize).prop_map(Some)]).prop_map(|(mut sp, (i, alg), at, (by, e), call)| {
        let i = i.index(sp.n);
        sp.alg[i] |= alg;
        // off the grid of everything else
        let at = at + 0.0012345678;
        sp.jump = Some(Jump { i, at, by: by * 2f64.powi(e), call });
        sp
    })
}

/// increasing output times in problem time (multiply by ts)
pub fn times(nmax: usize) -> impl Strategy<Value = Vec<f64>> {
    (proptest::collection::vec(g(1, 160, 32.0), 1..=nmax), prop_oneof![3 => Just(1.0), 1 => Just(1.0 / 64.0)]).prop_map(|(d, s)| {
        let mut t = 0.0;
        d.iter()
            .map(|x| {
                t += x * s;
                t
            })
            .collect()
    })
}

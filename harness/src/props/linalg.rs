//! L04 - L11: elimination, decompositions and the subspaces they compute.

use super::mat::{given, mm, sm, smm};
use crate::{ck, when};
use crate::fields::*;
use crate::model::{MMat, Ring, Q};
use crate::hook;
use crate::rt::*;
use algeo::core::num::{Rational, StabilityCmp};
use algeo::linalg::mat::Mat;
use std::cmp::Ordering;

// ------------------------------------------------------------ workload

fn dim(r: &mut Rng, big: usize) -> usize {
    (*r.pick(&[1, 1, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 6, 7, 9])).min(big)
}

/// random matrices with planted structure: rank deficiency, zero and repeated
/// rows and columns, permutations, triangular shapes, tall and wide ones
pub fn gen_lin<C: Coef>(cx: &mut Ctx) -> Mat<C> {
    gen_lin_rng(&mut cx.rng)
}
pub fn gen_lin_rng<C: Coef>(r: &mut Rng) -> Mat<C> {
    if C::EPS.is_some() {
        return gen_exact_float(r);
    }
    let q = C::NAME == "Rational";
    if r.chance(1, 150) {
        return gen_large(r);
    }
    let big = if q { 6 } else { 9 };
    if r.chance(1, 60) {
        let n = r.below(4);
        return match r.below(3) {
            0 => Mat::new(0, n, vec![]),
            1 => Mat::new(n, 0, vec![]),
            _ => Mat::zero(1 + n, 1 + r.below(4)),
        };
    }
    let (n, m) = match r.below(6) {
        0 => {
            let k = dim(r, big);
            (k, k)
        }
        1 => (dim(r, big), 1),
        2 => (1, dim(r, big)),
        _ => (dim(r, big), dim(r, big)),
    };
    let style = r.below(10);
    let sv = |r: &mut Rng| -> C {
        match style {
            0 | 1 => C::small(r),
            2 if n * m <= 9 => C::wide(r),
            3 => {
                if r.chance(1, 2) {
                    C::ZERO
                } else {
                    C::small_nz(r)
                }
            }
            4 => {
                if r.chance(3, 5) {
                    C::ZERO
                } else {
                    C::ONE
                }
            }
            _ => match r.below(5) {
                0 => C::ZERO,
                1 => C::ONE,
                _ => C::from_m(&int_m::<C>(r.range(-4, 4))),
            },
        }
    };
    let mut a: Vec<Vec<C>> = (0..n).map(|_| (0..m).map(|_| sv(r)).collect()).collect();
    // rank deficiency: some rows become combinations of others
    if r.chance(1, 2) && n > 1 {
        for _ in 0..r.usz(1, n - 1) {
            let (t, s1, s2) = (r.below(n), r.below(n), r.below(n));
            let (u, v) = (int_m::<C>(r.range(-2, 2)), int_m::<C>(r.range(-2, 2)));
            for j in 0..m {
                let (x, y) = (a[s1][j].m().unwrap(), a[s2][j].m().unwrap());
                a[t][j] = C::from_m(&x.mul(&u).add(&y.mul(&v)));
            }
        }
    }
    // structure
    for _ in 0..r.below(3) {
        match r.below(9) {
            0 => {
                let k = r.below(n);
                a[k] = vec![C::ZERO; m];
            }
            1 => {
                let k = r.below(m);
                a.iter_mut().for_each(|x| x[k] = C::ZERO);
            }
            2 => {
                // leading zero columns
                let k = r.below(m);
                a.iter_mut().for_each(|x| x[..k].iter_mut().for_each(|v| *v = C::ZERO));
            }
            3 => {
                let (i, j) = (r.below(n), r.below(n));
                a[i] = a[j].clone();
            }
            4 => {
                let (i, j) = (r.below(m), r.below(m));
                a.iter_mut().for_each(|x| x[i] = x[j]);
            }
            5 => {
                let lo = r.chance(1, 2);
                for i in 0..n {
                    for j in 0..m {
                        if (lo && j > i) || (!lo && j < i) {
                            a[i][j] = C::ZERO;
                        }
                    }
                }
            }
            6 if n == m => {
                let mut p: Vec<usize> = (0..n).collect();
                r.shuffle(&mut p);
                for i in 0..n {
                    for j in 0..m {
                        a[i][j] = if p[i] == j { C::ONE } else { C::ZERO };
                    }
                }
            }
            7 => {
                // zero pivot in the corner
                a[0][0] = C::ZERO;
            }
            _ => {
                // only the last column or the last row survives
                if r.chance(1, 2) {
                    a.iter_mut().for_each(|x| x[..m - 1].iter_mut().for_each(|v| *v = C::ZERO));
                } else {
                    for i in 0..n - 1 {
                        a[i] = vec![C::ZERO; m];
                    }
                }
            }
        }
    }
    Mat::new(n, m, a.into_iter().flatten().collect())
}
/// larger matrices of low rank or with few entries, so that elimination over
/// the rationals stays within range
fn gen_large<C: Coef>(r: &mut Rng) -> Mat<C> {
    let q = C::NAME == "Rational";
    let top = *r.pick(&[18, 36, 36, 70]);
    let long = r.usz(7, top);
    let (n, m) = match r.below(5) {
        0 | 1 => (r.usz(1, 5), long),
        2 | 3 => (long, r.usz(1, 5)),
        _ => {
            let l = long.min(34);
            (l, if r.chance(1, 2) { l } else { r.usz(6, 34) })
        }
    };
    // beyond one byte
    let (n, m) = if r.chance(1, 40) {
        let l = r.usz(250, 310);
        if r.chance(1, 2) { (l, n.min(4)) } else { (m.min(4), l) }
    } else {
        (n, m)
    };
    let mut a = vec![vec![C::ZERO; m]; n];
    let val = |r: &mut Rng| if q || r.chance(1, 2) { C::from_m(&int_m::<C>(*r.pick(&[1, 1, 1, -1, -1, 2]))) } else { C::small_nz(r) };
    match r.below(4) {
        0 if !q => a.iter_mut().flatten().for_each(|x| *x = C::small(r)),
        1 | 2 => {
            // a few entries in every row
            for row in a.iter_mut() {
                for _ in 0..r.usz(0, 3) {
                    let j = r.below(m);
                    row[j] = val(r);
                }
            }
        }
        _ => {
            // (shuffled) diagonal with a few extras
            let mut p: Vec<usize> = (0..m).collect();
            if r.chance(1, 2) {
                r.shuffle(&mut p);
            }
            for i in 0..n {
                a[i][p[i % m]] = val(r);
            }
            for _ in 0..r.below(n + m) {
                let (i, j) = (r.below(n), r.below(m));
                a[i][j] = val(r);
            }
        }
    }
    if r.chance(1, 3) {
        let (i, j) = (r.below(n), r.below(n));
        a[i] = a[j].clone();
    }
    Mat::new(n, m, a.into_iter().flatten().collect())
}
fn int_m<C: Coef>(k: i64) -> C::M {
    let mut s = C::M::zero();
    for _ in 0..k.abs() {
        s = s.add(&C::M::one());
    }
    if k < 0 {
        s.neg()
    } else {
        s
    }
}
/// float matrices on which elimination with the largest pivot is exact:
/// rows of L times U shuffled, L with powers of two dominating their columns,
/// U in row echelon form with halves and integers
fn gen_exact_float<C: Coef>(r: &mut Rng) -> Mat<C> {
    let single = C::NAME == "f32";
    let big = if single { 4 } else { 6 };
    let (mut n, mut m) = (dim(r, big), dim(r, big));
    if r.chance(1, 150) {
        if r.chance(1, 2) {
            n = r.usz(7, 40);
        }
        if r.chance(1, 2) {
            m = r.usz(7, 70);
        }
    }
    let k = r.below(n.min(m).min(if single { 3 } else { 5 }) + 1);
    let mut pc: Vec<usize> = (0..m).collect();
    r.shuffle(&mut pc);
    pc.truncate(k);
    pc.sort();
    let mut l = vec![vec![0i128; k]; n];
    for j in 0..k {
        let d = 1i128 << r.usz(0, if single { 1 } else { 3 });
        l[j][j] = if r.chance(1, 2) { d } else { -d };
        for i in j + 1..n {
            l[i][j] = r.range(-(d as i64 - 1), d as i64 - 1) as i128;
        }
    }
    let mut u = vec![vec![0i128; m]; k]; // in halves
    for i in 0..k {
        u[i][pc[i]] = 2;
        for j in pc[i] + 1..m {
            u[i][j] = r.range(-4, 4) as i128;
        }
    }
    let mut rows: Vec<usize> = (0..n).collect();
    r.shuffle(&mut rows);
    let mut e = vec![];
    for &i in &rows {
        for j in 0..m {
            let s: i128 = (0..k).map(|t| l[i][t] * u[t][j]).sum();
            e.push(s as f64 / 2.0);
        }
    }
    Mat::new(n, m, e.into_iter().map(|x| from_f64::<C>(x)).collect())
}
fn from_f64<C: Coef>(x: f64) -> C {
    // exact floats go through their model
    let q = Q::from_f64(x).unwrap();
    // only called for float fields, whose model is Q
    let any: &dyn std::any::Any = &q;
    C::from_m(any.downcast_ref::<C::M>().expect("float field"))
}

// ------------------------------------------------------------ shapes

fn pivots<M: Ring>(a: &MMat<M>) -> Result<Vec<usize>, String> {
    let mut pc: Vec<usize> = vec![];
    let mut ended = false;
    for i in 0..a.r {
        match a.a[i].iter().position(|x| !x.is_zero()) {
            None => ended = true,
            Some(j) => {
                if ended {
                    return Err(format!("row {} is not zero although a row above it is", i));
                }
                if pc.last().map_or(false, |&l| j <= l) {
                    return Err(format!("the pivot of row {} is not right of the one above", i));
                }
                if a.a[i][j] != M::one() {
                    return Err(format!("the pivot of row {} is {:?}, not 1", i, a.a[i][j]));
                }
                pc.push(j);
            }
        }
    }
    Ok(pc)
}
fn reduced<M: Ring>(a: &MMat<M>) -> Result<Vec<usize>, String> {
    let pc = pivots(a)?;
    for (i, &j) in pc.iter().enumerate() {
        for k in 0..a.r {
            if k != i && !a.a[k][j].is_zero() {
                return Err(format!("column {} of the pivot of row {} has another nonzero entry", j, i));
            }
        }
    }
    Ok(pc)
}
fn value<C: Coef>(cx: &mut Ctx, sig: &str, what: &str, d: &str, m: &Mat<C>) -> Result<MMat<C::M>, Fail> {
    cx.checks += 1;
    mm(m).map_err(|e| Fail::Violation(format!("{}:malformed", sig), format!("{} of {}: {}", what, d, e)))
}
fn start<C: Coef>(cx: &mut Ctx) -> Result<(Mat<C>, MMat<C::M>, String), Fail> {
    let a: Mat<C> = gen_lin(cx);
    let d = format!("[{}] {}x{} {}", C::NAME, a.rows(), a.cols(), sm(&a));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = C::NAME != "Rational";
    let x = given(&a)?;
    Ok((a, x, d))
}
fn tags<C: Coef>(cx: &mut Ctx, x: &MMat<C::M>, rank: usize) {
    cx.tag(if x.r > x.c {
        "tall"
    } else if x.r < x.c {
        "wide"
    } else {
        "square"
    });
    cx.tag(if rank == x.r.min(x.c) { "full rank" } else { "rank deficient" });
}

// ------------------------------------------------------------ L04

fn l04<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let (n, m) = (x.r, x.c);
    let f = cx.call("lu", || d.clone(), || a.lu())?;
    let p = value(cx, "lu", "P", &d, &f.p)?;
    let l = value(cx, "lu", "L", &d, &f.l)?;
    let u = value(cx, "lu", "U", &d, &f.u)?;
    let all = || format!("P={} L={} U={}", sm(&f.p), sm(&f.l), sm(&f.u));
    ck!(cx, (p.r, p.c, l.r, l.c, u.r, u.c) == (n, n, n, n, n, m), "lu:shape", "LU of {} has shapes {}x{} {}x{} {}x{}", d, p.r, p.c, l.r, l.c, u.r, u.c);
    let perm = (0..n).all(|i| {
        p.a[i].iter().all(|v| v.is_zero() || *v == C::M::one()) && p.a[i].iter().filter(|v| !v.is_zero()).count() == 1 && (0..n).filter(|&k| !p.a[k][i].is_zero()).count() == 1
    });
    ck!(cx, perm, "lu:permutation", "LU of {}: {}: P is not a permutation", d, all());
    ck!(cx, (0..n).all(|i| (0..n).all(|j| j <= i || l.a[i][j].is_zero())), "lu:lower", "LU of {}: {}: L is not lower triangular", d, all());
    ck!(cx, (0..n).all(|i| !l.a[i][i].is_zero()), "lu:invertible", "LU of {}: {}: L is not invertible", d, all());
    if let Err(e) = pivots(&u) {
        ck!(cx, false, "lu:echelon", "LU of {}: {}: U is not in row echelon form with pivots 1: {}", d, all(), e);
    }
    let (pa, lu) = (p.mul(&x), l.mul(&u));
    ck!(cx, pa == lu, "lu:product", "LU of {}: {}: P*A = {} but L*U = {}", d, all(), smm(&pa), smm(&lu));
    cx.checks += 1;
    // the factorisation is a function of the matrix
    let g = cx.call("lu", || d.clone(), || a.clone().lu())?;
    ck!(cx, g.p == f.p && g.l == f.l && g.u == f.u, "lu:deterministic", "two LU decompositions of {} differ", d);
    let rank = u.a.iter().filter(|r| r.iter().any(|v| !v.is_zero())).count();
    tags::<C>(cx, &x, rank);
    cx.tag_if(p != MMat::identity(n), "rows exchanged");
    Ok(())
}

// ------------------------------------------------------------ L05

macro_rules! float_props {
    ($modname:ident, $t:ty, $tiny:expr) => {
        mod $modname {
            use super::*;
            fn text(a: &[Vec<$t>]) -> String {
                a.iter().map(|r| r.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join("; ")
            }
            fn abs(m: &Mat<$t>) -> Vec<Vec<f64>> {
                (0..m.rows()).map(|i| (0..m.cols()).map(|j| m.entries()[i * m.cols() + j] as f64).collect()).collect()
            }
            /// arbitrary well scaled float matrices
            pub fn lu(cx: &mut Ctx) -> Res {
                let r = &mut cx.rng;
                let (mut n, mut m) = (dim(r, 9), dim(r, 9));
                if r.chance(1, 150) {
                    n = r.usz(5, 30);
                    m = r.usz(5, 30);
                }
                let scale = *r.pick(&[1.0, 1.0, 10.0, 1000.0]);
                let style = r.below(5);
                let mut a: Vec<Vec<$t>> = (0..n)
                    .map(|_| {
                        let rs = if style == 3 { *r.pick(&[1.0, 0.01, 100.0]) } else { 1.0 };
                        (0..m)
                            .map(|_| match style {
                                0 => r.range(-9, 9) as $t / 3.0,
                                1 => r.range(-99, 99) as $t / 10.0,
                                _ => ((r.u64() >> 11) as f64 / (1u64 << 52) as f64 - 1.0) as $t * (scale * rs) as $t,
                            })
                            .collect()
                    })
                    .collect();
                if n > 1 && r.chance(1, 3) {
                    let (i, j) = (r.below(n), r.below(n));
                    a[i] = a[j].clone();
                }
                if r.chance(1, 6) {
                    let j = r.below(m);
                    a.iter_mut().for_each(|x| x[j] = 0.0);
                }
                if r.chance(1, 3) {
                    a[0][0] = *r.pick(&[0.0, 1e-3, -1e-4]);
                }
                // entries of very different magnitudes
                if style == 4 {
                    for row in a.iter_mut() {
                        for x in row.iter_mut() {
                            if r.chance(1, 3) {
                                *x *= (10.0 as $t).powi(-(r.below($tiny) as i32));
                            } else if r.chance(1, 20) {
                                *x = <$t>::MIN_POSITIVE * r.range(-9, 9) as $t;
                            }
                        }
                    }
                }
                let d = format!("[{}] {}x{} [{}]", stringify!($t), n, m, text(&a));
                cx.key(&d);
                cx.sample(|| d.clone());
                cx.strict = true;
                let mat = Mat::<$t>::new(n, m, a.iter().flatten().copied().collect());
                let f = cx.call("lu", || d.clone(), || mat.lu())?;
                let (p, l, u) = (abs(&f.p), abs(&f.l), abs(&f.u));
                let all = || format!("P={} L={} U={}", sm(&f.p), sm(&f.l), sm(&f.u));
                ck!(cx, (f.p.rows(), f.p.cols(), f.l.rows(), f.l.cols(), f.u.rows(), f.u.cols()) == (n, n, n, n, n, m), "lu:shape", "LU of {} has wrong shapes", d);
                let finite = p.iter().chain(&l).chain(&u).flatten().all(|v| v.is_finite());
                ck!(cx, finite, "flu:finite", "LU of {}: {}: not finite", d, all());
                let perm: Vec<Option<usize>> = p
                    .iter()
                    .map(|row| {
                        let k = row.iter().position(|&v| v == 1.0)?;
                        if row.iter().enumerate().all(|(j, &v)| v == if j == k { 1.0 } else { 0.0 }) {
                            Some(k)
                        } else {
                            None
                        }
                    })
                    .collect();
                let mut seen: Vec<usize> = perm.iter().flatten().copied().collect();
                seen.sort();
                ck!(cx, seen == (0..n).collect::<Vec<_>>(), "flu:permutation", "LU of {}: {}: P is not a permutation", d, all());
                ck!(cx, (0..n).all(|i| l[i][i] != 0.0 && (i + 1..n).all(|j| l[i][j] == 0.0)), "flu:lower", "LU of {}: {}: L is not lower triangular and invertible", d, all());
                // componentwise backward error (the constant of the standard analysis, with slack)
                let eps = <$t>::EPSILON as f64;
                for i in 0..n {
                    for j in 0..m {
                        let (mut s, mut b) = (0.0, 0.0);
                        for k in 0..n {
                            s += l[i][k] * u[k][j];
                            b += (l[i][k] * u[k][j]).abs();
                        }
                        let v = a[perm[i].unwrap()][j] as f64;
                        // the second summand covers underflow
                        let tol = 8.0 * (n.max(m) as f64 + 2.0) * (eps * (b + v.abs()) + 1e4 * <$t>::MIN_POSITIVE as f64);
                        ck!(cx, (s - v).abs() <= tol, "flu:backward-error", "LU of {}: {}: entry ({}, {}) of L*U is {:e}, of P*A {:e}; allowed difference {:e}", d, all(), i, j, s, v, tol);
                    }
                }
                // partial pivoting bounds the multipliers
                for j in 0..n {
                    for i in j + 1..n {
                        ck!(cx, l[i][j].abs() <= l[j][j].abs(), "flu:growth", "LU of {}: {}: entry ({}, {}) of L exceeds the pivot of its column", d, all(), i, j);
                    }
                }
                cx.tag_if(n != m, "rectangular");
                cx.tag_if(perm.iter().enumerate().any(|(i, p)| *p != Some(i)), "rows exchanged");
                Ok(())
            }
            /// well conditioned systems: rows of a diagonally dominant matrix, shuffled
            pub fn inverse(cx: &mut Ctx) -> Res {
                let r = &mut cx.rng;
                let n = dim(r, 7);
                let mut a: Vec<Vec<$t>> = (0..n)
                    .map(|i| {
                        let mut row: Vec<$t> = (0..n).map(|_| r.range(-1000, 1000) as $t / 1000.0).collect();
                        let s: $t = row.iter().map(|x| x.abs()).sum();
                        row[i] = (s + 0.5 + r.range(0, 1000) as $t / 700.0) * if r.chance(1, 2) { 1.0 } else { -1.0 };
                        row
                    })
                    .collect();
                // negligible entries are entries all the same
                if r.chance(1, 3) {
                    for i in 0..n {
                        for j in 0..n {
                            if i != j && r.chance(1, 3) {
                                a[i][j] = *r.pick(&[1.0, -1.0, 3.0]) * (10.0 as $t).powi(-(r.below($tiny) as i32));
                                a[i][i] += a[i][i].signum();
                            }
                        }
                    }
                }
                r.shuffle(&mut a);
                let extra = r.below(3);
                for row in a.iter_mut() {
                    for _ in 0..extra {
                        row.push(r.range(-3000, 3000) as $t / 700.0);
                    }
                }
                let m = n + extra;
                let d = format!("[{}] {}x{} [{}]", stringify!($t), n, m, text(&a));
                cx.key(&d);
                cx.sample(|| d.clone());
                cx.strict = true;
                let mat = Mat::<$t>::new(n, m, a.iter().flatten().copied().collect());
                let eps = <$t>::EPSILON as f64;
                let (rank, null, pb, ker, ran) = {
                    let f = cx.call("row_echelon", || d.clone(), || mat.row_echelon())?;
                    let ranks = cx.call("rank", || d.clone(), || (f.rank(), f.nullity()))?;
                    let f = cx.call("to_rref", || d.clone(), || f.to_rref())?;
                    let (k, r) = cx.call("kernel and range", || d.clone(), || (f.compute_kernel(), f.compute_range()))?;
                    let pb = hook::parts(&f).map(|(p, b, _)| (abs(&p), abs(&b)));
                    (ranks.0, ranks.1, pb, k, r)
                };
                // every column up to the n-th has a large pivot: U is unit upper triangular
                let f = cx.call("lu", || d.clone(), || mat.lu())?;
                let u = abs(&f.u);
                ck!(cx, (f.u.rows(), f.u.cols()) == (n, m), "lu:shape", "U of {} is {}x{}", d, f.u.rows(), f.u.cols());
                ck!(cx, (0..n).all(|i| u[i][i] == 1.0 && (0..i).all(|j| u[i][j] == 0.0)), "flu:unit-upper", "LU of {}: U={} does not have zeros exactly below pivots 1", d, sm(&f.u));
                ck!(cx, (rank, null) == (n, extra), "fre:rank", "rank and nullity of the well conditioned {} are {} and {}", d, rank, null);
                let tol = 500.0 * (n as f64 + 1.0) * eps;
                if let Some((p, b)) = pb {
                    ck!(cx, p.len() == n && b.len() == n && b.iter().all(|x| x.len() == m), "fre:shape", "row echelon form of {} has wrong shapes", d);
                    for i in 0..n {
                        for j in 0..m {
                            let s: f64 = (0..n).map(|k| p[i][k] * a[k][j] as f64).sum();
                            let mag: f64 = 1.0 + (0..n).map(|k| (p[i][k] * a[k][j] as f64).abs()).sum::<f64>() + b[i][j].abs();
                            ck!(cx, (s - b[i][j]).abs() <= tol * mag, "fre:product", "reduced row echelon form of {}: entry ({}, {}) of p*a is {:e}, of b {:e}", d, i, j, s, b[i][j]);
                            if j < n {
                                let w = if i == j { 1.0 } else { 0.0 };
                                ck!(cx, b[i][j] == w, "fre:identity", "reduced row echelon form of {}: entry ({}, {}) is {:e}", d, i, j, b[i][j]);
                            }
                        }
                    }
                }
                ck!(cx, ker.len() == extra && ker.iter().all(|v| (v.rows(), v.cols()) == (m, 1)), "fre:kernel", "kernel of {} has {} vectors", d, ker.len());
                for v in &ker {
                    for i in 0..n {
                        let s: f64 = (0..m).map(|k| v.entries()[k] as f64 * a[i][k] as f64).sum();
                        let mag: f64 = 1.0 + (0..m).map(|k| (v.entries()[k] as f64 * a[i][k] as f64).abs()).sum::<f64>();
                        ck!(cx, s.abs() <= tol * mag, "fre:kernel", "kernel of {}: {} is sent to {:e} by row {}", d, sm(v), s, i);
                    }
                }
                ck!(cx, ran.len() == n, "fre:range", "range of {} has {} basis vectors", d, ran.len());
                Ok(())
            }
        }
    };
}
float_props! { ff64, f64, 300 }
float_props! { ff32, f32, 40 }

// ------------------------------------------------------------ L06

fn l06<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let reduce = cx.rng.chance(1, 2);
    let (p, b, orig) = if reduce {
        let f = cx.call("to_rref", || d.clone(), || a.row_echelon().to_rref())?;
        hook::parts(&f).ok_or(Fail::Skip(hook::NONE))?
    } else {
        let f = cx.call("row_echelon", || d.clone(), || a.row_echelon())?;
        hook::parts(&f).ok_or(Fail::Skip(hook::NONE))?
    };
    let all = format!("p={} b={}", sm(&p), sm(&b));
    let pm = value(cx, "echelon", "p", &d, &p)?;
    let bm = value(cx, "echelon", "b", &d, &b)?;
    ck!(cx, (pm.r, pm.c, bm.r, bm.c) == (x.r, x.r, x.r, x.c), "echelon:shape", "row echelon form of {}: {} has wrong shapes", d, all);
    ck!(cx, orig == a, "echelon:original", "row echelon form of {} refers to {}", d, sm(&orig));
    if let Err(e) = if reduce { reduced(&bm) } else { pivots(&bm) } {
        ck!(cx, false, "echelon:form", "row echelon form of {}: {}: {}", d, all, e);
    }
    let pa = pm.mul(&x);
    ck!(cx, pa == bm, "echelon:product", "row echelon form of {}: {}: p*a = {}", d, all, smm(&pa));
    ck!(cx, pm.rank() == x.r, "echelon:invertible", "row echelon form of {}: {}: p is not invertible", d, all);
    let rank = bm.a.iter().filter(|r| r.iter().any(|v| !v.is_zero())).count();
    tags::<C>(cx, &x, rank);
    cx.tag(if reduce { "reduced" } else { "echelon" });
    Ok(())
}

// ------------------------------------------------------------ L07

fn l07<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let (p, b) = {
        let f = cx.call("to_rref", || d.clone(), || a.row_echelon().to_rref())?;
        let (p, b, _) = hook::parts(&f).ok_or(Fail::Skip(hook::NONE))?;
        (p, b)
    };
    let (want, pc) = x.rref();
    let bm = value(cx, "rref", "b", &d, &b)?;
    ck!(cx, bm == want, "rref:unique", "reduced row echelon form of {} is {} instead of {}", d, sm(&b), smm(&want));
    // idempotent
    let again = {
        let f = cx.call("to_rref", || d.clone(), || b.row_echelon().to_rref())?;
        hook::parts(&f).ok_or(Fail::Skip(hook::NONE))?.1
    };
    ck!(cx, again == b, "rref:idempotent", "reduced row echelon form of the reduced {} is {}", sm(&b), sm(&again));
    // the same for every row equivalent matrix
    if C::EPS.is_none() && x.r > 0 && x.c > 0 {
        let mut y = x.clone();
        for _ in 0..cx.rng.usz(1, 4) {
            let (i, j) = (cx.rng.below(x.r), cx.rng.below(x.r));
            match cx.rng.below(3) {
                0 => y.a.swap(i, j),
                1 if i != j => {
                    let s = int_m::<C>(cx.rng.range(-2, 2));
                    for k in 0..y.c {
                        y.a[j][k] = y.a[j][k].add(&y.a[i][k].mul(&s));
                    }
                }
                _ => {
                    let s = C::unit(&mut cx.rng).m().unwrap();
                    for k in 0..y.c {
                        y.a[i][k] = y.a[i][k].mul(&s);
                    }
                }
            }
        }
        let e: Vec<C> = y.a.iter().flatten().map(|v| C::from_m(v)).collect();
        let other = Mat::new(y.r, y.c, e);
        let f = cx.call("to_rref", || sm(&other), || hook::parts(&other.row_echelon().to_rref()))?.ok_or(Fail::Skip(hook::NONE))?.1;
        ck!(cx, f == b, "rref:row-equivalent", "row equivalent matrices {} and {} have reduced forms {} and {}", d, sm(&other), sm(&b), sm(&f));
        cx.tag("row equivalent pair");
    }
    if x.r == x.c && pc.len() == x.r && x.r > 0 {
        let pm = value(cx, "rref", "p", &d, &p)?;
        ck!(cx, x.mul(&pm) == MMat::identity(x.r), "rref:inverse", "{} is invertible but p = {} is not its inverse", d, sm(&p));
        cx.tag("inverse");
    }
    tags::<C>(cx, &x, pc.len());
    Ok(())
}

// ------------------------------------------------------------ L08

fn l08<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let rank = x.rank();
    let want = (rank, x.c - rank);
    let t = a.transpose();
    let got = cx.call("rank", || d.clone(), || {
        let f = a.row_echelon();
        let e = (f.rank(), f.nullity());
        let f = f.to_rref();
        (e, (f.rank(), f.nullity()))
    })?;
    ck!(cx, got.0 == want, "rank:echelon", "rank and nullity of {} are {:?} instead of {:?}", d, got.0, want);
    ck!(cx, got.1 == want, "rank:reduced", "rank and nullity of {} from its reduced form are {:?} instead of {:?}", d, got.1, want);
    let lu = cx.call("lu", || d.clone(), || a.lu().u.zero_rows())?;
    ck!(cx, lu == x.r - rank, "rank:lu", "U of {} has {} zero rows although its rank is {}", d, lu, rank);
    if C::EPS.is_none() {
        let got = cx.call("rank", || sm(&t), || (t.row_echelon().rank(), t.row_echelon().nullity()))?;
        ck!(cx, got == (rank, x.r - rank), "rank:transpose", "rank and nullity of the transpose of {} are {:?}, its rank is {}", d, got, rank);
    }
    tags::<C>(cx, &x, rank);
    Ok(())
}

// ------------------------------------------------------------ L09, L10

fn vectors<C: Coef>(cx: &mut Ctx, sig: &str, d: &str, vs: &[Mat<C>], rows: usize) -> Result<MMat<C::M>, Fail> {
    let mut a = vec![];
    for v in vs {
        let m = value(cx, sig, "basis vector", d, v)?;
        ck!(cx, (m.r, m.c) == (rows, 1), format!("{}:shape", sig), "basis of {}: {} is not a column vector with {} entries", d, smm(&m), rows);
        a.push(m.a.into_iter().flatten().collect());
    }
    Ok(MMat { r: vs.len(), c: rows, a })
}
fn l09<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let rank = x.rank();
    let k = cx.call("compute_kernel", || d.clone(), || a.row_echelon().to_rref().compute_kernel())?;
    let show = || k.iter().map(sm).collect::<Vec<_>>().join(" | ");
    ck!(cx, k.len() == x.c - rank, "kernel:dimension", "kernel of {} has {} basis vectors ({}) instead of {}", d, k.len(), show(), x.c - rank);
    let v = vectors(cx, "kernel", &d, &k, x.c)?;
    ck!(cx, x.mul(&v.transpose()).is_zero() || k.is_empty(), "kernel:annihilated", "kernel of {}: not all of {} are sent to zero", d, show());
    ck!(cx, v.rank() == k.len(), "kernel:independent", "kernel of {}: {} are dependent", d, show());
    tags::<C>(cx, &x, rank);
    cx.tag(match k.len() {
        0 => "trivial kernel",
        1 => "line",
        _ => "larger kernel",
    });
    Ok(())
}
fn l10<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, x, d) = start::<C>(cx)?;
    let rank = x.rank();
    let k = cx.call("compute_range", || d.clone(), || a.row_echelon().to_rref().compute_range())?;
    let show = || k.iter().map(sm).collect::<Vec<_>>().join(" | ");
    ck!(cx, k.len() == rank, "range:dimension", "range of {} has {} basis vectors ({}) instead of {}", d, k.len(), show(), rank);
    let v = vectors(cx, "range", &d, &k, x.r)?;
    ck!(cx, v.rank() == k.len(), "range:independent", "range of {}: {} are dependent", d, show());
    let t = x.transpose();
    let both = MMat { r: t.r + v.r, c: x.r, a: t.a.iter().chain(&v.a).cloned().collect() };
    ck!(cx, both.rank() == rank, "range:inside", "range of {}: {} are not all combinations of columns", d, show());
    tags::<C>(cx, &x, rank);
    Ok(())
}

// ------------------------------------------------------------ L11

/// what "more stable" means, from the documentation of the trait
fn better<C: Coef>(a: &C, b: &C) -> Ordering {
    a.stability_cmp(b).unwrap()
}
fn l11<C: Coef>(cx: &mut Ctx) -> Res {
    let wide = cx.rng.chance(1, 3);
    let a: Mat<C> = if wide || C::EPS.is_some() {
        let (r, c) = (dim(&mut cx.rng, 9), dim(&mut cx.rng, 9));
        super::mat::gen_mat(&mut cx.rng, r, c)
    } else {
        let a = gen_lin(cx);
        if a.rows() * a.cols() == 0 {
            return Err(Fail::Skip("empty matrix"));
        }
        a
    };
    let (c, r) = (cx.rng.below(a.cols()), cx.rng.below(a.rows()));
    let d = format!("[{}] {}x{} {} column {} from row {}", C::NAME, a.rows(), a.cols(), sm(&a), c, r);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let col: Vec<C> = (r..a.rows()).map(|i| a.entries()[i * a.cols() + c]).collect();
    let nz = col.iter().any(|v| v.m().map_or(true, |m| !m.is_zero()));
    let got = cx.call("get_stable_column_index_under_row", || d.clone(), || a.get_stable_column_index_under_row(c, r))?;
    match got {
        None => {
            ck!(cx, !nz, "pivot:missed", "no pivot found in {}", d);
            cx.tag("no pivot");
        }
        Some((i, v)) => {
            ck!(cx, i >= r && i < a.rows(), "pivot:row", "pivot row {} in {}", i, d);
            ck!(cx, a.entries()[i * a.cols() + c] == v, "pivot:value", "pivot ({}, {}) in {}", i, v, d);
            ck!(cx, !v.epsilon_equals(&C::ZERO), "pivot:zero", "pivot ({}, {}) in {}", i, v, d);
            for w in &col {
                ck!(cx, better(w, &v) != Ordering::Greater, "pivot:not-best", "pivot {} in {} although {} is preferable", v, d, w);
            }
            cx.tag("pivot");
            cx.tag_if(i > r, "below the first row");
        }
    }
    Ok(())
}
/// elimination divides by the most stable candidates: no entry below the
/// diagonal of L is preferable to the pivot of its column
fn l11_lu<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, _, d) = start::<C>(cx)?;
    let f = cx.call("lu", || d.clone(), || a.lu())?;
    let n = f.l.rows();
    for j in 0..n {
        let v = f.l.entries()[j * n + j];
        for i in j + 1..n {
            let w = f.l.entries()[i * n + j];
            ck!(cx, better(&w, &v) != Ordering::Greater, "pivot:lu", "LU of {} with L={} divides column {} by {} although {} is preferable", d, sm(&f.l), j, v, w);
        }
    }
    cx.tag("elimination");
    Ok(())
}
/// the order itself: floats by magnitude
fn l11_cmp_f(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let g = |r: &mut Rng| -> f64 {
        match r.below(5) {
            0 => 0.0,
            1 => r.range(-4, 4) as f64,
            2 => r.range(-1000, 1000) as f64 / 999.0,
            3 => (r.int(40) as f64) * 2f64.powi(r.range(-90, 60) as i32),
            _ => r.int(64) as f64,
        }
    };
    let (a, b) = (g(r), g(r));
    let d = format!("{:e} and {:e}", a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    let want = a.abs().partial_cmp(&b.abs());
    let got = cx.call("stability_cmp", || d.clone(), || (a.stability_cmp(&b), b.stability_cmp(&a)))?;
    ck!(cx, got == (want, want.map(|o| o.reverse())), "stability:f64", "stability order of {} = {:?}", d, got);
    let (x, y) = (a as f32, b as f32);
    let want = x.abs().partial_cmp(&y.abs());
    let got = cx.call("stability_cmp", || d.clone(), || x.stability_cmp(&y))?;
    ck!(cx, got == want, "stability:f32", "stability order of {:e} and {:e} in f32 = {:?}", x, y, got);
    Ok(())
}
/// rationals: zero below everything, otherwise small numerators and denominators first
fn l11_cmp_q(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[3u32, 8, 31, 61]);
    let g = |r: &mut Rng| {
        let d = r.int(bits).abs().max(1);
        rat(r.int(bits), d)
    };
    let (a, b) = (g(&mut cx.rng), g(&mut cx.rng));
    let d = format!("{} and {}", a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let k = |q: &Rational| (q.numer.0 as i128).abs() + q.denom.0 as i128;
    let want = match (a.numer.0 == 0, b.numer.0 == 0) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Less,
        (false, true) => Ordering::Greater,
        _ => k(&b).cmp(&k(&a)),
    };
    let got = cx.call("stability_cmp", || d.clone(), || (a.stability_cmp(&b), b.stability_cmp(&a)))?;
    ck!(cx, got == (Some(want), Some(want.reverse())), "stability:rational", "stability order of {} = {:?}", d, got);
    Ok(())
}

macro_rules! exact_fields {
    ($f:ident) => {
        vec![
            random("Rational", 5, $f::<Rational>),
            random("F2", 2, $f::<F2>),
            random("F3", 1, $f::<F3>),
            random("F7", 2, $f::<F7>),
            random("F32003", 3, $f::<F32003>),
            random("F2^61-1", 1, $f::<FM61>),
            random("f64 exact", 2, $f::<f64>),
            random("f32 exact", 1, $f::<f32>),
        ]
    };
}

pub fn props() -> Vec<Prop> {
    let s11 = when!("L11", {
        let mut s = exact_fields!(l11);
        s.extend(vec![
            random("LU Rational", 3, l11_lu::<Rational>),
            random("LU F32003", 2, l11_lu::<F32003>),
            random("LU F7", 1, l11_lu::<F7>),
        ]);
        s.push(random("order of floats", 4, l11_cmp_f));
        s.push(random("order of rationals", 4, l11_cmp_q));
        s
    });
    
vec![
        Prop {
            id: "L04",
            rule: "LU decompositions of random matrices up to 9x9 of every shape and rank (zero and repeated rows and columns, permutations, triangular, empty) over exact fields and floats whose elimination is exact; oracle: P a permutation, L lower triangular and invertible, U row echelon with pivots 1, P*A = L*U in exact arithmetic. Distinct = distinct (field, matrix).",
            streams: when!("L04", exact_fields!(l04)),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L05",
            rule: "float matrices up to 9x9: componentwise backward error of LU against the standard bound, multipliers bounded by their pivot, P and the zero pattern exact; well conditioned systems: rank, inverse, kernel, range. Distinct = distinct (type, matrix).",
            streams: when!("L05", vec![
                random("LU f64", 3, ff64::lu),
                random("LU f32", 2, ff32::lu),
                random("systems f64", 2, ff64::inverse),
                random("systems f32", 1, ff32::inverse),
            ]),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L06",
            rule: "row echelon and reduced row echelon forms observed through the hook: p*a = b in exact arithmetic, p invertible, b in (reduced) row echelon form with pivots 1. Distinct = distinct (field, matrix).",
            streams: when!("L06", exact_fields!(l06)),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L07",
            rule: "reduced row echelon forms against an independent Gauss-Jordan elimination, against those of row equivalent matrices, applied twice, and the inverse of invertible matrices. Distinct = distinct (field, matrix).",
            streams: when!("L07", exact_fields!(l07)),
            quick: 200_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L08",
            rule: "rank and nullity from echelon form, reduced form, U of the LU decomposition and the transpose against an independent elimination. Distinct = distinct (field, matrix).",
            streams: when!("L08", exact_fields!(l08)),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L09",
            rule: "kernel bases: number of vectors, annihilation and independence in exact arithmetic. Distinct = distinct (field, matrix).",
            streams: when!("L09", exact_fields!(l09)),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L10",
            rule: "range bases: number of vectors, independence and membership in the column space in exact arithmetic. Distinct = distinct (field, matrix).",
            streams: when!("L10", exact_fields!(l10)),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L11",
            rule: "pivot selection on random columns and start rows: a nonzero entry at or below the start row that no other candidate beats, none only if all are zero; the preference order of rationals and floats against its definition. Distinct = distinct (field, matrix, position).",
            streams: s11,
            quick: 500_000,
            min_distinct: 10_000,
        },
    ]
}

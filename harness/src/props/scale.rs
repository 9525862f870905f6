//! Floats of very different magnitudes whose arithmetic is exact all the same:
//! small dyadic operands under the substitution x_i -> 2^l_i x_i (polynomials)
//! or between diagonal matrices of powers of two (matrices). Rounding commutes
//! with powers of two, so every operation has to commute with the scaling.

use super::mat::{gen_dims, gen_mat, given, sm};
use super::mdeg::{canonical, mono};
use super::poly::{gen_poly, gen_poly_near, gen_term, mp, mt, sp, st, Shape};
use crate::ck;
use crate::fields::*;
use crate::model::{MMat, MPoly, Ring};
use crate::rt::*;
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;

fn bad() -> Fail {
    Fail::Skip("operand is not a number")
}
fn f32ish<C: Coef>() -> bool {
    C::NAME == "f32"
}
fn two(k: i64) -> f64 {
    2f64.powi(k as i32)
}
fn up<C: Coef>(x: C, k: i64) -> C {
    C::from_f64(x.as_f64() * two(k))
}

// ------------------------------------------------------------ polynomials

struct Sub {
    l: Vec<i64>,
}
impl Sub {
    fn gen<C: Coef>(r: &mut Rng, n: usize) -> Sub {
        let top = if f32ish::<C>() { 1 } else { 12 };
        Sub { l: (0..n).map(|_| r.range(-top, top)).collect() }
    }
    fn at(&self, m: &[u32]) -> i64 {
        m.iter().zip(&self.l).map(|(&e, l)| e as i64 * l).sum()
    }
    fn term<C: Coef>(&self, t: &Term<C>, k: i64) -> Term<C> {
        Term { coef: up(t.coef, k + self.at(&mono(&t.mdeg))), mdeg: MultiDegree(t.mdeg.0.clone()) }
    }
    fn poly<C: Coef>(&self, p: &Polynomial<C>, k: i64) -> Polynomial<C> {
        Polynomial { terms: p.terms.iter().map(|t| self.term(t, k)).collect() }
    }
    /// the polynomial is the scaled model
    fn is<C: Coef>(&self, p: &Polynomial<C>, w: &MPoly<C::M>, k: i64) -> bool {
        p.terms.len() == w.0.len()
            && p.terms.iter().all(|t| {
                let m = mono(&t.mdeg);
                w.0.get(&m).map_or(false, |c| t.coef.as_f64() == C::approx(c) * two(k + self.at(&m)))
            })
    }
}
struct Case<C: Coef> {
    s: Sub,
    p: Polynomial<C>,
    q: Polynomial<C>,
    t: Term<C>,
    c: C,
    i: i64,
    j: i64,
}
fn case<C: Coef>(cx: &mut Ctx) -> Case<C> {
    let r = &mut cx.rng;
    let (vars, deg, terms) = *r.pick(&[(1, 6, 5), (2, 3, 5), (2, 4, 8), (3, 3, 6), (3, 2, 10)]);
    let s = Shape { vars, deg, terms, wide: false };
    let p: Polynomial<C> = gen_poly(r, s);
    let q = gen_poly_near(r, s, &p);
    let t = gen_term(r, s, &q);
    let top = if f32ish::<C>() { 18 } else { 150 };
    let sub = Sub::gen::<C>(r, vars);
    let (i, j) = (r.range(-top, top), r.range(-top, top));
    let c = C::unit(r);
    Case { s: sub, p, q, t, c, i, j }
}

/// finite nonzero coefficients, canonical and distinct monomials
fn clean<C: Coef>(p: &Polynomial<C>) -> Result<(), String> {
    for (i, t) in p.terms.iter().enumerate() {
        let c = t.coef.as_f64();
        if !c.is_finite() || c == 0.0 || !canonical(&t.mdeg) || p.terms[..i].iter().any(|u| u.mdeg == t.mdeg) {
            return Err(format!("term {} is {}", i, st(t)));
        }
    }
    Ok(())
}

/// ring operations (`judge_clean`: well-formedness only)
fn ring<C: Coef>(cx: &mut Ctx, judge_clean: bool) -> Res {
    let Case { s, p, q, t, c, i, j } = case::<C>(cx);
    let (a, b) = (mp(&p).ok_or_else(bad)?, mp(&q).ok_or_else(bad)?);
    let (tm, cm) = (mt(&t).ok_or_else(bad)?, c.m().ok_or_else(bad)?);
    let (f, h, g, u) = (s.poly(&p, i), s.poly(&q, i), s.poly(&q, j), s.term(&t, i));
    let v = s.term(&t, j);
    let e = up(c, j);
    let d = format!("[{}] {} and {} and {}", C::NAME, sp(&f), sp(&g), st(&u));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let inv = C::from_f64(1.0 / c.as_f64()).m().ok_or_else(bad)?;
    let mut res: Vec<(&'static str, Polynomial<C>, MPoly<C::M>, i64)> = Vec::new();
    macro_rules! op {
        ($n:expr, $k:expr, $want:expr, $e:expr) => {
            res.push(($n, cx.call($n, || d.clone(), || $e)?, $want, $k));
        };
    }
    op!("p + q", i, a.add(&b), &f + &h);
    op!("p - q", i, a.sub(&b), &f - &h);
    op!("-p", i, a.neg(), -&f);
    op!("p + t", i, a.add(&tm), &f + &u);
    op!("t - p", i, tm.sub(&a), &u - &f);
    op!("p - t", i, a.sub(&tm), &f - &u);
    op!("t + t", i, tm.add(&tm), &u + &u);
    op!("p * q", i + j, a.mul(&b), &f * &g);
    op!("q * p", i + j, a.mul(&b), &g * &f);
    op!("p * t", i + j, a.mul(&tm), &f * &v);
    op!("p * c", i + j, a.scale(&cm), &f * e);
    op!("p / c", i - j, a.scale(&inv), &f / e);
    op!("new", i, a.clone(), Polynomial::new(f.terms.clone()));
    op!("from term", i, tm.clone(), Polynomial::from(u.clone()));
    op!("from scalar", j, MPoly::term(vec![], cm.clone()), Polynomial::from(e));
    for (n, got, want, k) in &res {
        if judge_clean {
            let ok = clean(got);
            ck!(cx, ok.is_ok(), format!("scaled:{}:clean", n), "{} for {} gives {}: {:?}", n, d, sp(got), ok);
            ck!(cx, got.is_zero() == want.is_zero(), format!("scaled:{}:zero", n), "{} for {} gives {}, is_zero = {}", n, d, sp(got), got.is_zero());
        } else {
            ck!(cx, s.is(got, want, *k), format!("scaled:{}", n), "{} for {} gives {} instead of {} scaled", n, d, sp(got), want.show());
        }
    }
    cx.tag_if(s.l.iter().any(|&l| l != 0), "terms of different magnitude");
    cx.tag_if(i.abs() > 60, "beyond the precision");
    Ok(())
}
pub fn p01<C: Coef>(cx: &mut Ctx) -> Res {
    ring::<C>(cx, true)
}
pub fn p02<C: Coef>(cx: &mut Ctx) -> Res {
    ring::<C>(cx, false)
}

pub fn p03<C: Coef>(cx: &mut Ctx) -> Res {
    let Case { s, p, i, .. } = case::<C>(cx);
    let a = mp(&p).ok_or_else(bad)?;
    // a point of small dyadic coordinates, scaled against the substitution
    let x: Vec<C> = s.l.iter().map(|_| C::unit(&mut cx.rng)).collect();
    let mx: Vec<C::M> = x.iter().map(|v| v.m()).collect::<Option<Vec<_>>>().ok_or_else(bad)?;
    let y: Vec<C> = x.iter().zip(&s.l).map(|(v, l)| up(*v, -l)).collect();
    let f = s.poly(&p, i);
    let d = format!("[{}] {} at {:?}", C::NAME, sp(&f), y);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let want = C::approx(&a.eval(&mx));
    let mag: f64 = a.0.iter().map(|(m, c)| m.iter().enumerate().fold(C::approx(c).abs(), |v, (k, &e)| v * x[k].as_f64().abs().powi(e as i32))).sum();
    let got = cx.call("eval", || d.clone(), || f.eval(&y))?;
    let eps = C::EPS.unwrap_or(0.0);
    ck!(cx, (got.as_f64() / two(i) - want).abs() <= 256.0 * eps * mag, "scaled:eval", "value of {} is {} instead of {} * 2^{}", d, got, want, i);
    for t in &f.terms {
        let w = t.coef.as_f64() * mono(&t.mdeg).iter().enumerate().fold(1.0, |v, (k, &e)| v * y[k].as_f64().powi(e as i32));
        let got = cx.call("term eval", || format!("{} at {:?}", st(t), y), || t.eval(&y))?;
        ck!(cx, (got.as_f64() - w).abs() <= 256.0 * eps * w.abs(), "scaled:term eval", "value of {} at {:?} is {} instead of {}", st(t), y, got, w);
    }
    cx.tag_if(i.abs() > 60, "beyond the precision");
    Ok(())
}

// ------------------------------------------------------------ matrices

struct Diag {
    k: Vec<i64>,
}
fn diag<C: Coef>(r: &mut Rng, n: usize) -> Diag {
    let top = if f32ish::<C>() { 12 } else { 120 };
    Diag { k: (0..n).map(|_| r.range(-top, top)).collect() }
}
/// diag(2^a) * m * diag(2^b), or with the inverses
fn between<C: Coef>(a: &Diag, sa: i64, m: &Mat<C>, b: &Diag, sb: i64) -> Mat<C> {
    let c = m.cols();
    let e = m.entries().iter().enumerate().map(|(n, x)| up(*x, sa * a.k[n / c] + sb * b.k[n % c])).collect();
    Mat::new(m.rows(), c, e)
}
fn fits<C: Coef>(g: &Mat<C>, a: &Diag, sa: i64, w: &MMat<C::M>, b: &Diag, sb: i64) -> bool {
    g.rows() == w.r
        && g.cols() == w.c
        && g.entries().len() == w.r * w.c
        && (0..w.r).all(|i| (0..w.c).all(|j| g.entries()[i * w.c + j].as_f64() == C::approx(&w.a[i][j]) * two(sa * a.k[i] + sb * b.k[j])))
}

pub fn l01<C: Coef>(cx: &mut Ctx) -> Res {
    let [n, m, k] = gen_dims(&mut cx.rng);
    if n * m * k == 0 {
        return Err(Fail::Skip("empty matrix"));
    }
    let r = &mut cx.rng;
    let mut small = |n: usize, m: usize| -> Mat<C> { Mat::new(n, m, (0..n * m).map(|_| C::small(r)).collect()) };
    let (a, b, c) = (small(n, m), small(n, m), small(m, k));
    let (x, y, z) = (diag::<C>(&mut cx.rng, n), diag::<C>(&mut cx.rng, m), diag::<C>(&mut cx.rng, k));
    let (ma, mb, mc) = (given(&a)?, given(&b)?, given(&c)?);
    let (f, g, h) = (between(&x, 1, &a, &y, 1), between(&x, 1, &b, &y, 1), between(&y, -1, &c, &z, 1));
    let s = C::unit(&mut cx.rng);
    let sm_ = s.m().ok_or_else(bad)?;
    let d = format!("[{}] {} and {} and {}", C::NAME, sm(&f), sm(&g), sm(&h));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let got = cx.call("a + b", || d.clone(), || &f + &g)?;
    ck!(cx, fits(&got, &x, 1, &MMat::from_fn(n, m, |i, j| ma.a[i][j].add(&mb.a[i][j])), &y, 1), "scaled:add", "sum of {} is {}", d, sm(&got));
    let got = cx.call("a * c", || d.clone(), || &f * &h)?;
    ck!(cx, fits(&got, &x, 1, &ma.mul(&mc), &z, 1), "scaled:mul", "product of {} and {} is {}", sm(&f), sm(&h), sm(&got));
    let scaled = MMat::from_fn(n, m, |i, j| ma.a[i][j].mul(&sm_));
    let mut v = f.clone();
    let w = cx.call("scaling", || d.clone(), || {
        let p = &f * s;
        v.scale(s);
        let mut q = f.clone();
        q *= s;
        (p, v, q)
    })?;
    for got in [&w.0, &w.1, &w.2] {
        ck!(cx, fits(got, &x, 1, &scaled, &y, 1), "scaled:scale", "{} times {} is {}", d, s, sm(got));
    }
    let got = cx.call("transpose", || d.clone(), || f.transpose())?;
    ck!(cx, fits(&got, &y, 1, &MMat::from_fn(m, n, |i, j| ma.a[j][i].clone()), &x, 1), "scaled:transpose", "transpose of {} is {}", d, sm(&got));
    let got = cx.call("equality", || d.clone(), || (f == g, f == f.clone()))?;
    ck!(cx, got == (ma.a == mb.a, true), "scaled:eq", "equality of {} = {:?}", d, got);
    // one entry off, by much less than any tolerance
    let mut e = f.entries().to_vec();
    let at = cx.rng.below(e.len());
    e[at] = up(C::ONE, if f32ish::<C>() { -100 } else { -400 });
    let o = Mat::new(n, m, e);
    let got = cx.call("equality", || d.clone(), || f == o)?;
    ck!(cx, got == (f.entries()[at] == o.entries()[at]), "scaled:ne", "{} equals {}", sm(&f), sm(&o));
    Ok(())
}

pub fn l02<C: Coef>(cx: &mut Ctx) -> Res {
    let [n, m] = gen_dims(&mut cx.rng);
    if n * m == 0 {
        return Err(Fail::Skip("empty matrix"));
    }
    let r = &mut cx.rng;
    let a: Mat<C> = Mat::new(n, m, (0..n * m).map(|_| C::small(r)).collect());
    let (x, y) = (diag::<C>(r, n), diag::<C>(r, m));
    let f = between(&x, 1, &a, &y, 1);
    let (i, j) = (r.below(n), r.below(n));
    let c = C::small(r);
    // the scalar that adds c times row i to row j of the unscaled matrix
    let s = up(c, x.k[j] - x.k[i]);
    let (ma, mc) = (given(&a)?, c.m().ok_or_else(bad)?);
    let d = format!("[{}] {} rows {} and {}, scalar {}", C::NAME, sm(&f), i, j, s);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let want = MMat::from_fn(n, m, |p, q| if p == j { ma.a[p][q].add(&ma.a[i][q].mul(&mc)) } else { ma.a[p][q].clone() });
    let got = cx.call("replacement", || d.clone(), || {
        let mut g = f.clone();
        g.replace_row(i, j, s);
        (g, Mat::replacement(n, i, j, s) * &f)
    })?;
    ck!(cx, fits(&got.0, &x, 1, &want, &y, 1), "scaled:replace_row", "replace_row for {} gives {}", d, sm(&got.0));
    ck!(cx, fits(&got.1, &x, 1, &want, &y, 1), "scaled:replacement", "replacement for {} gives {}", d, sm(&got.1));
    let want = MMat::from_fn(n, m, |p, q| if p == i { ma.a[p][q].mul(&mc) } else { ma.a[p][q].clone() });
    let got = cx.call("row scaling", || d.clone(), || {
        let mut g = f.clone();
        g.scale_row(i, c);
        (g, Mat::scale_mat(n, i, c) * &f)
    })?;
    ck!(cx, fits(&got.0, &x, 1, &want, &y, 1), "scaled:scale_row", "scale_row for {} gives {}", d, sm(&got.0));
    ck!(cx, fits(&got.1, &x, 1, &want, &y, 1), "scaled:scale_mat", "scale_mat for {} gives {}", d, sm(&got.1));
    Ok(())
}

pub fn l12<C: Coef>(cx: &mut Ctx) -> Res {
    let [n, m] = gen_dims(&mut cx.rng);
    if n * m == 0 {
        return Err(Fail::Skip("empty matrix"));
    }
    let r = &mut cx.rng;
    let a: Mat<C> = gen_mat(r, n, m);
    let style = r.below(3);
    let e = a
        .entries()
        .iter()
        .enumerate()
        .map(|(p, x)| {
            let (i, j) = (p / m, p % m);
            if style == 1 && j < i || style == 2 && j > i {
                C::ZERO
            } else {
                *x
            }
        })
        .collect();
    let mut a = Mat::new(n, m, e);
    if r.chance(1, 2) {
        let (i, j) = (r.below(n), r.below(m));
        *a.get_mut_unchecked(i, j) = C::small_nz(r);
    }
    let b: Mat<C> = Mat::new(n, m, (0..n * m).map(|_| C::small(r)).collect());
    let (x, y) = (diag::<C>(r, n), diag::<C>(r, m));
    let f = between(&x, 1, &a, &y, 1);
    let g = between(&x, -1, &b, &y, -1);
    let d = format!("[{}] {} and {}", C::NAME, sm(&f), sm(&g));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let nz = |i: usize, j: usize| f.entries()[i * m + j] != C::ZERO;
    let want = ((0..n).all(|i| (0..i.min(m)).all(|j| !nz(i, j))), (0..n).all(|i| (i + 1..m).all(|j| !nz(i, j))));
    let got = cx.call("triangular", || d.clone(), || (f.is_upper_triangular(), f.is_lower_triangular()))?;
    ck!(cx, got == want, "scaled:triangular", "upper/lower triangular on {} = {:?}", d, got);
    let eps = C::EPS.unwrap_or(0.0);
    let dot: f64 = a.entries().iter().zip(b.entries()).map(|(u, v)| u.as_f64() * v.as_f64()).sum();
    let mag: f64 = a.entries().iter().zip(b.entries()).map(|(u, v)| (u.as_f64() * v.as_f64()).abs()).sum();
    let got = cx.call("dot", || d.clone(), || f.dot(&g))?;
    ck!(cx, (got.as_f64() - dot).abs() <= 256.0 * eps * mag, "scaled:dot", "dot product of {} is {} instead of {}", d, got, dot);
    // uniform scaling for the squared norm
    let k = x.k[0];
    let u = Mat::new(n, m, a.entries().iter().map(|v| up(*v, k)).collect());
    let want: f64 = a.entries().iter().map(|v| v.as_f64() * v.as_f64()).sum();
    let got = cx.call("norm", || sm(&u), || u.frobenius_norm())?;
    ck!(cx, (got.as_f64() / two(2 * k) - want).abs() <= 256.0 * eps * want, "scaled:norm", "sum of squares of {} is {} instead of {} * 2^{}", sm(&u), got, want, 2 * k);
    Ok(())
}

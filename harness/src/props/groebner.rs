//! D01, D02: multivariate division.  G01..G06: Gröbner bases.

use super::mdeg::{gen_mono, gen_near};
use super::poly::{clean, gen_poly, gen_poly_near, mp, sp, st, term, Shape};
use crate::{ck, when};
use crate::fields::*;
use crate::model::{self, mono_cmp, mono_divides, mono_lcm, mono_mul, trim, MPoly, Mono, Ord4, Ring};
use crate::rt::*;
use algeo::core::num::Rational;
use algeo::poly::comp::Computer;
use algeo::poly::elts::Polynomial;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

pub trait Tag: MonomialOrder {
    const O: Ord4;
}
impl Tag for Lex {
    const O: Ord4 = Ord4::Lex;
}
impl Tag for RevLex {
    const O: Ord4 = Ord4::RevLex;
}
impl Tag for GrLex {
    const O: Ord4 = Ord4::GrLex;
}
impl Tag for GRevLex {
    const O: Ord4 = Ord4::GRevLex;
}

fn graded(o: Ord4) -> bool {
    matches!(o, Ord4::GrLex | Ord4::GRevLex)
}
fn bad() -> Fail {
    Fail::Skip("operand is not a number")
}
pub fn polys<C: Coef>(v: &[Polynomial<C>]) -> String {
    format!("{{{}}}", v.iter().map(sp).collect::<Vec<_>>().join(" | "))
}
pub fn models<C: Coef>(v: &[Polynomial<C>]) -> Result<Vec<MPoly<C::M>>, Fail> {
    v.iter().map(|p| mp(p).ok_or_else(bad)).collect()
}
pub fn lib<C: Coef>(r: &mut Rng, p: &MPoly<C::M>) -> Polynomial<C> {
    let mut t: Vec<_> = p.0.iter().map(|(m, c)| term(C::from_m(c), m)).collect();
    r.shuffle(&mut t);
    Polynomial { terms: t }
}
fn max_exp<M: Ring>(ps: &[&MPoly<M>]) -> u32 {
    ps.iter().flat_map(|p| p.0.keys()).flat_map(|m| m.iter().copied()).max().unwrap_or(0)
}

// ------------------------------------------------------------ division

struct DivRun<M: Ring> {
    steps: u64,
    max_exp: u32,
    max_mag: f64,
    rem: MPoly<M>,
}
/// textbook division, to size a case before the code under test sees it
fn dry_div<C: Coef>(f: &MPoly<C::M>, gs: &[MPoly<C::M>], o: Ord4, limit: u64) -> Option<DivRun<C::M>> {
    let nz: Vec<(&MPoly<C::M>, Mono, C::M)> = gs.iter().filter_map(|g| g.lt(o).map(|(m, c)| (g, m.clone(), c.clone()))).collect();
    let mut p = f.clone();
    let mut run = DivRun { steps: 0, max_exp: max_exp(&[f]), max_mag: 0.0, rem: MPoly::zero() };
    while let Some((m, c)) = p.lt(o).map(|(m, c)| (m.clone(), c.clone())) {
        run.steps += 1;
        if run.steps > limit || p.0.len() > 400 {
            return None;
        }
        match nz.iter().find(|(_, l, _)| mono_divides(l, &m)) {
            Some((g, l, d)) => {
                let q = model::mono_div(&m, l).unwrap();
                p = p.sub(&g.mul_term(&q, &c.mul(&d.inv())));
                run.max_exp = run.max_exp.max(max_exp(&[&p]));
                for c in p.0.values() {
                    run.max_mag = run.max_mag.max(C::approx(c).abs());
                }
            }
            None => {
                p.0.remove(&m);
                run.rem.0.insert(m, c);
            }
        }
    }
    Some(run)
}

/// is the division short enough?
pub fn short_division<C: Coef, O: Tag>(f: &Polynomial<C>, gs: &[Polynomial<C>]) -> bool {
    match (mp(f), models(gs)) {
        (Some(f), Ok(gs)) => dry_div::<C>(&f, &gs, O::O, 3000).is_some(),
        _ => false,
    }
}

/// dividend and divisors
pub fn gen_div<C: Coef>(r: &mut Rng) -> (Polynomial<C>, Vec<Polynomial<C>>) {
    let float = C::EPS.is_some();
    let (vars, fd, gd, ft, gt): (usize, u32, u32, usize, usize) = *r.pick(&[(1, 8, 3, 6, 4), (1, 40, 6, 8, 5), (2, 4, 2, 8, 4), (2, 3, 3, 5, 3), (3, 3, 2, 8, 4), (3, 2, 2, 5, 3), (4, 2, 1, 6, 4), (2, 6, 2, 4, 2), (5, 2, 2, 5, 2)]);
    let mut n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 | 4 | 5 => 2,
        6 => 3,
        _ => 5,
    };
    let (mut vars, mut fd, mut gd, mut ft, mut gt) = (vars, fd, gd, ft, gt);
    if r.chance(1, 15) {
        // long divisors, long dividends, many divisors
        let (v, d) = *r.pick(&[(1, 40), (1, 250), (2, 8), (3, 4), (5, 3), (9, 2)]);
        vars = v;
        fd = d;
        gd = if d == 250 { r.usz(1, 40) as u32 } else if r.chance(1, 2) { d } else { (d / 2).max(1) };
        ft = *r.pick(&[2, 4, 12, 40]);
        gt = *r.pick(&[2, 4, 12, 24]);
        if r.chance(1, 4) {
            n = r.usz(4, 12);
        }
    }
    if r.chance(1, 200) {
        // dozens of divisors
        n = *r.pick(&[17, 33, 40, 65, 70, 130, 300]);
        vars = if n == 300 { 300 } else { *r.pick(&[2, 6, 20, 40]) };
        (fd, gd) = if vars == 2 { (4, 3) } else { (1, 1) };
        ft = 4;
        gt = 2;
    } else if r.chance(1, 300) {
        // hundreds of terms
        n = r.usz(1, 3);
        (vars, fd, gd) = *r.pick(&[(2, 30, 9), (3, 9, 4), (300, 1, 1)]);
        ft = 330;
        gt = 3;
    }
    let gs = Shape { vars, deg: gd, terms: gt, wide: false };
    let fs = Shape { vars, deg: fd, terms: ft, wide: false };
    let mut divs: Vec<Polynomial<C>> = Vec::new();
    for _ in 0..n {
        let mut g: Polynomial<C> = match divs.last() {
            Some(l) if r.chance(1, 3) => {
                let l = l.clone();
                gen_poly_near(r, gs, &l)
            }
            _ => gen_poly(r, gs),
        };
        if r.chance(1, 12) {
            g = Polynomial { terms: vec![] };
        }
        if float {
            // unit coefficients keep float division exact
            for t in g.terms.iter_mut() {
                t.coef = if r.chance(1, 2) { C::ONE } else { C::ZERO - C::ONE };
            }
        }
        divs.push(g);
    }
    let f: Polynomial<C> = if r.chance(1, 4) && !divs.is_empty() {
        // in the ideal, or almost
        let mut m: MPoly<C::M> = MPoly::zero();
        for g in &divs {
            let h: Polynomial<C> = gen_poly(r, Shape { vars, deg: 2, terms: 3, wide: false });
            if let (Some(a), Some(b)) = (mp(g), mp(&h)) {
                m = m.add(&a.mul(&b));
            }
        }
        if r.chance(1, 3) {
            let e: Polynomial<C> = gen_poly(r, Shape { vars, deg: 2, terms: 1, wide: false });
            if let Some(e) = mp(&e) {
                m = m.add(&e);
            }
        }
        lib(r, &m)
    } else {
        gen_poly(r, fs)
    };
    (f, divs)
}

fn div_case<C: Coef, O: Tag>(cx: &mut Ctx, f: Polynomial<C>, divs: Vec<Polynomial<C>>, bounds: bool) -> Res {
    let (mf, mg) = (mp(&f).ok_or_else(bad)?, models(&divs)?);
    let Some(dry) = dry_div::<C>(&mf, &mg, O::O, 3000) else { return Err(Fail::Skip("division too long for the reference")) };
    if C::EPS.is_some() && dry.max_mag > 1e4 {
        return Err(Fail::Skip("floats would round"));
    }
    let d = format!("[{} {:?}] {} by {}", C::NAME, O::O, sp(&f), polys(&divs));
    cx.key(&d);
    cx.sample(|| d.clone());
    // nothing can legitimately leave its range: a panic is a violation
    // also if other divisors were preferred
    let rev: Vec<_> = mg.iter().rev().cloned().collect();
    let low = dry.max_exp <= 60 && (mg.len() < 2 || dry_div::<C>(&mf, &rev, O::O, 3000).map_or(false, |d| d.max_exp <= 60));
    cx.strict = C::NAME != "Rational" && (low || (graded(O::O) && mf.0.keys().all(|m| model::deg(m) < 128)));
    let (r, q) = cx.call("divide", || d.clone(), || Computer::<C, O>::divide(&f, &divs))?;
    ck!(cx, q.len() == divs.len(), "div:count", "dividing {} gave {} quotients", d, q.len());
    let (Some(mr), Ok(mq)) = (mp(&r), models(&q)) else {
        let finite = q.iter().flat_map(|q| q.terms.iter()).all(|t| !format!("{}", t.coef).contains(|c| c == 'N' || c == 'f'));
        if C::EPS.is_some() && finite {
            // numbers beyond the reference
            return Err(Fail::Skip("floats would round"));
        }
        ck!(cx, false, "div:nan", "dividing {} gave remainder {} and quotients {}", d, sp(&r), polys(&q));
        return Ok(());
    };
    if C::EPS.is_some() {
        // other choices of divisors may lead to large numbers
        let big = if C::NAME == "f32" { 1e5 } else { 1e11 };
        let size = |c: &C::M| C::approx(c).abs();
        let sum: f64 = mq.iter().zip(&mg).map(|(q, g)| q.0.values().map(size).sum::<f64>() * g.0.values().map(size).sum::<f64>()).sum();
        if !(sum <= big) {
            return Err(Fail::Skip("floats would round"));
        }
    }
    cx.tag_if(dry.steps > 20, "long division");
    cx.tag_if(mr.is_zero() && !mf.is_zero(), "remainder zero");
    if !bounds && !mf.is_zero() && cx.rng.chance(1, 12) {
        // the dividend itself as its divisor
        let s = cx.call("divide", || format!("{} by itself", sp(&f)), || Computer::<C, O>::divide(&f, std::slice::from_ref(&f)))?;
        let ok = s.0.terms.is_empty() && s.1.len() == 1 && mp(&s.1[0]) == Some(MPoly::term(vec![], C::M::one()));
        ck!(cx, ok, "div:itself", "[{} {:?}] dividing {} by itself: remainder {}, quotients {}", C::NAME, O::O, sp(&f), sp(&s.0), polys(&s.1));
        cx.tag("divided by itself");
    }
    if !bounds {
        let mut sum = mr.clone();
        for (a, b) in mq.iter().zip(&mg) {
            sum = sum.add(&a.mul(b));
        }
        ck!(cx, sum == mf, "div:identity", "dividing {}: remainder {} and quotients {} recombine to {}", d, sp(&r), polys(&q), sum.show());
        for t in r.terms.iter() {
            for g in &mg {
                if let Some((l, _)) = g.lt(O::O) {
                    ck!(cx, !mono_divides(l, &t.mdeg.0.iter().map(|&e| e as u32).collect::<Vec<_>>()), "div:reducible", "dividing {}: term {} of the remainder {} is divisible by the leading monomial X{:?}", d, st(t), sp(&r), l);
                }
            }
        }
        for p in q.iter().chain(std::iter::once(&r)) {
            let c = clean(p);
            ck!(cx, c.is_ok(), "div:clean", "dividing {}: the result {}: {}", d, sp(p), c.unwrap_err());
        }
    } else {
        if let Some((lf, _)) = mf.lt(O::O) {
            for (i, (a, b)) in mq.iter().zip(&mg).enumerate() {
                if let (Some((x, _)), Some((y, _))) = (a.lt(O::O), b.lt(O::O)) {
                    ck!(cx, mono_cmp(O::O, &mono_mul(x, y), lf).is_le(), "div:degree", "dividing {}: quotient {} = {} times its divisor exceeds the leading monomial of the dividend", d, i, sp(&q[i]));
                }
            }
            if let Some((x, _)) = mr.lt(O::O) {
                ck!(cx, mono_cmp(O::O, x, lf).is_le(), "div:degree-rem", "dividing {}: remainder {} exceeds the dividend", d, sp(&r));
            }
        } else {
            ck!(cx, mr.is_zero() && mq.iter().all(|q| q.is_zero()), "div:zero", "dividing zero: {} gave remainder {} and quotients {}", d, sp(&r), polys(&q));
        }
        // division by a single divisor is unique
        if mg.iter().filter(|g| !g.is_zero()).count() <= 1 {
            ck!(cx, mr == dry.rem, "div:unique", "dividing {}: remainder {} instead of {}", d, sp(&r), dry.rem.show());
            cx.tag("single divisor");
        }
    }
    Ok(())
}
fn d01<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let (f, g) = gen_div(&mut cx.rng);
    div_case::<C, O>(cx, f, g, false)
}
fn d02<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let (f, g) = gen_div(&mut cx.rng);
    div_case::<C, O>(cx, f, g, true)
}
/// polynomials a + bx + cy + dxy over a small field
fn small_poly<const P: u64>(mut i: u64) -> Polynomial<Fp<P>> {
    let ms: [&[u32]; 4] = [&[], &[1], &[0, 1], &[1, 1]];
    let mut t = Vec::new();
    for m in ms {
        if i % P != 0 {
            t.push(term(Fp(i % P), m));
        }
        i /= P;
    }
    Polynomial { terms: t }
}
fn div_sweep(cx: &mut Ctx, i: u64, bounds: bool) -> Res {
    // three polynomials over F2, or two over F3, in each order
    let (o, k) = (i % 4, i / 4);
    macro_rules! go {
        ($P:literal, $f:expr, $g:expr) => {
            match o {
                0 => div_case::<Fp<$P>, Lex>(cx, $f, $g, bounds),
                1 => div_case::<Fp<$P>, RevLex>(cx, $f, $g, bounds),
                2 => div_case::<Fp<$P>, GrLex>(cx, $f, $g, bounds),
                _ => div_case::<Fp<$P>, GRevLex>(cx, $f, $g, bounds),
            }
        };
    }
    if k < 4096 {
        go!(2, small_poly::<2>(k % 16), vec![small_poly::<2>(k / 16 % 16), small_poly::<2>(k / 256)])
    } else {
        let k = k - 4096;
        go!(3, small_poly::<3>(k % 81), vec![small_poly::<3>(k / 81)])
    }
}
const DIV_SWEEP: u64 = 4 * (4096 + 81 * 81);
fn d01_sweep(cx: &mut Ctx, i: u64) -> Res {
    div_sweep(cx, i, false)
}
fn d02_sweep(cx: &mut Ctx, i: u64) -> Res {
    div_sweep(cx, i, true)
}

/// floats whose arithmetic rounds (or, with `wild`, overflows and underflows):
/// termination, irreducibility and the degree bounds are exact all the same,
/// the identity holds up to the accumulated rounding
fn div_float<C: Coef, O: Tag>(cx: &mut Ctx, bounds: bool, wild: bool) -> Res {
    let r = &mut cx.rng;
    let (vars, fd, gd, ft, gt) = *r.pick(&[(1, 8, 3, 6, 4), (1, 30, 4, 6, 4), (2, 4, 2, 8, 4), (3, 3, 2, 6, 3), (3, 2, 2, 5, 3), (4, 2, 1, 6, 4)]);
    let fs = Shape { vars, deg: fd, terms: ft, wide: false };
    let gs = Shape { vars, deg: gd, terms: gt, wide: false };
    let co = |r: &mut Rng| -> C {
        let x = match r.below(4) {
            0 => r.range(-9, 9) as f64,
            1 => r.range(-999, 999) as f64 / 7.0,
            2 => (r.u64() >> 11) as f64 / (1u64 << 52) as f64 - 1.0,
            _ => r.range(-30, 30) as f64 / 10.0,
        };
        let x = if x == 0.0 { 1.0 } else { x };
        let big = if C::NAME == "f32" { 40 } else { 320 };
        C::from_f64(if wild && r.chance(1, 2) { x * 2f64.powi(r.range(-3 * big, 3 * big) as i32) } else { x })
    };
    let mut poly = |r: &mut Rng, s: Shape| -> Polynomial<C> {
        let mut p: Polynomial<C> = gen_poly(r, s);
        for t in p.terms.iter_mut() {
            t.coef = co(r);
        }
        p.terms.retain(|t| t.coef.as_f64() != 0.0 && t.coef.as_f64().is_finite());
        p
    };
    let f = poly(r, fs);
    let n = r.usz(1, 3);
    let g: Vec<Polynomial<C>> = (0..n).map(|_| poly(r, gs)).collect();
    let d = format!("[{} {:?}] {} by {}", C::NAME, O::O, sp(&f), polys(&g));
    cx.key(&d);
    cx.sample(|| d.clone());
    // the supports alone bound the work: the monomials below the dividend's
    // that division can reach, whatever divisor it prefers
    let mons = |p: &Polynomial<C>| -> Vec<Mono> { p.terms.iter().map(|t| super::mdeg::mono(&t.mdeg)).collect() };
    let lead = |p: &Polynomial<C>| -> Option<Mono> { mons(p).into_iter().max_by(|a, b| mono_cmp(O::O, a, b)) };
    let gl: Vec<(Mono, Vec<Mono>)> = g.iter().filter_map(|p| Some((lead(p)?, mons(p)))).collect();
    let mut reach: std::collections::BTreeSet<Mono> = mons(&f).into_iter().collect();
    let mut todo: Vec<Mono> = reach.iter().cloned().collect();
    while let Some(m) = todo.pop() {
        for (l, ms) in &gl {
            if let Some(k) = model::mono_div(&m, l) {
                for x in ms {
                    let y = mono_mul(x, &k);
                    if y.iter().any(|&e| e > 250) || reach.len() > 3000 {
                        return Err(Fail::Skip("division too long for the reference"));
                    }
                    if reach.insert(y.clone()) {
                        todo.push(y);
                    }
                }
            }
        }
    }
    cx.strict = true;
    let (r, q) = cx.call("divide", || d.clone(), || Computer::<C, O>::divide(&f, &g))?;
    ck!(cx, q.len() == g.len(), "div:count", "dividing {} gave {} quotients", d, q.len());
    cx.tag_if(reach.len() > 20, "long division");
    if bounds || wild {
        for t in r.terms.iter() {
            let m = super::mdeg::mono(&t.mdeg);
            for (l, _) in &gl {
                ck!(cx, !mono_divides(l, &m), "div:reducible", "dividing {}: term {} of the remainder is divisible by the leading monomial X{:?}", d, st(t), l);
            }
        }
        if let Some(lf) = lead(&f) {
            for (i, (a, b)) in q.iter().zip(&g).enumerate() {
                if let (Some(x), Some(y)) = (lead(a), lead(b)) {
                    ck!(cx, mono_cmp(O::O, &mono_mul(&x, &y), &lf).is_le(), "div:degree", "dividing {}: quotient {} = {} times its divisor exceeds the leading monomial of the dividend", d, i, sp(&q[i]));
                }
            }
            if let Some(x) = lead(&r) {
                ck!(cx, mono_cmp(O::O, &x, &lf).is_le(), "div:degree-rem", "dividing {}: remainder {} exceeds the dividend", d, sp(&r));
            }
        }
        return Ok(());
    }
    // results near the end of the range of the type say nothing: some
    // intermediate coefficient may have overflowed
    let big = if C::NAME == "f32" { 1e30 } else { 1e250 };
    if q.iter().chain(std::iter::once(&r)).any(|p| p.terms.iter().any(|t| !(t.coef.as_f64().abs() < big))) {
        return Err(Fail::Skip("coefficients leave the range of the floating point type"));
    }
    // |f - sum q g - r| <= c * steps * eps * (|f| + sum |q||g|), monomial by monomial
    let mut err: std::collections::BTreeMap<Mono, (f64, f64)> = Default::default();
    for t in f.terms.iter() {
        let e = err.entry(super::mdeg::mono(&t.mdeg)).or_insert((0.0, 0.0));
        e.0 += t.coef.as_f64();
        e.1 += t.coef.as_f64().abs();
    }
    let mut steps = 4.0 + r.terms.len() as f64;
    for (a, b) in q.iter().zip(&g) {
        for s in a.terms.iter() {
            steps += 1.0;
            for t in b.terms.iter() {
                let v = s.coef.as_f64() * t.coef.as_f64();
                let e = err.entry(mono_mul(&super::mdeg::mono(&s.mdeg), &super::mdeg::mono(&t.mdeg))).or_insert((0.0, 0.0));
                e.0 -= v;
                e.1 += v.abs();
            }
        }
    }
    for t in r.terms.iter() {
        let e = err.entry(super::mdeg::mono(&t.mdeg)).or_insert((0.0, 0.0));
        e.0 -= t.coef.as_f64();
        e.1 += t.coef.as_f64().abs();
    }
    let eps = C::EPS.unwrap();
    // products below the normal range lose their relative accuracy
    let gmax = g.iter().flat_map(|p| p.terms.iter()).fold(1.0f64, |a, t| a.max(t.coef.as_f64().abs()));
    let slack = steps * gmax * if C::NAME == "f32" { 1e-36 } else { 1e-290 };
    for (m, (e, mag)) in &err {
        ck!(cx, e.is_finite() && e.abs() <= 8.0 * steps * eps * mag + slack, "div:identity-float", "dividing {}: remainder {} and quotients {} recombine with an error of {:e} at X{:?} (terms of magnitude {:e})", d, sp(&r), polys(&q), e, m, mag);
    }
    Ok(())
}
fn d01_float<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    div_float::<C, O>(cx, false, false)
}
fn d02_float<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let wild = cx.rng.chance(1, 2);
    div_float::<C, O>(cx, true, wild)
}
/// S-polynomials of floats whose arithmetic rounds
fn g02_float<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let (vars, deg, terms) = *cx.rng.pick(&[(1, 10, 5), (2, 3, 4), (2, 6, 6), (3, 3, 5), (4, 2, 6)]);
    let s = Shape { vars, deg, terms, wide: false };
    let mut f: Polynomial<C> = gen_poly(&mut cx.rng, s);
    let mut g: Polynomial<C> = gen_poly_near(&mut cx.rng, s, &f);
    if f.terms.is_empty() || g.terms.is_empty() {
        return Err(Fail::Skip("zero operand"));
    }
    for t in f.terms.iter_mut().chain(g.terms.iter_mut()) {
        let k = cx.rng.range(1, 999) * if cx.rng.chance(1, 2) { 1 } else { -1 };
        t.coef = C::from_f64(k as f64 / 7.0);
    }
    let d = format!("[{} {:?}] {} and {}", C::NAME, O::O, sp(&f), sp(&g));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let got = cx.call("try_reduce", || d.clone(), || Computer::<C, O>::try_reduce(&f, &g))?;
    let Some(got) = got else {
        ck!(cx, false, "spoly:zero", "S-polynomial of the nonzero {} is None", d);
        return Ok(());
    };
    let lead = |p: &Polynomial<C>| -> (Mono, f64) { p.terms.iter().map(|t| (super::mdeg::mono(&t.mdeg), t.coef.as_f64())).max_by(|a, b| mono_cmp(O::O, &a.0, &b.0)).unwrap() };
    let (a, b) = (lead(&f), lead(&g));
    let l = mono_lcm(&a.0, &b.0);
    let mut want: std::collections::BTreeMap<Mono, (f64, f64)> = Default::default();
    for (p, (lm, lc), sg) in [(&f, &a, 1.0), (&g, &b, -1.0)] {
        let k = model::mono_div(&l, lm).unwrap();
        for t in p.terms.iter() {
            let v = t.coef.as_f64() / lc;
            let e = want.entry(mono_mul(&k, &super::mdeg::mono(&t.mdeg))).or_insert((0.0, 0.0));
            e.0 += sg * v;
            e.1 += v.abs();
        }
    }
    want.remove(&l);
    for t in got.terms.iter() {
        let m = super::mdeg::mono(&t.mdeg);
        ck!(cx, mono_cmp(O::O, &m, &l).is_lt(), "spoly:cancelled", "S-polynomial of {}: term {} is not below the least common multiple X{:?} of the leading monomials", d, st(t), l);
        let e = want.entry(m.clone()).or_insert((0.0, 0.0));
        e.0 -= t.coef.as_f64();
    }
    for (m, (e, mag)) in &want {
        ck!(cx, e.abs() <= 16.0 * C::EPS.unwrap() * mag, "spoly:value-float", "S-polynomial of {} is {}: wrong by {:e} at X{:?}", d, sp(&got), e, m);
    }
    Ok(())
}

// ------------------------------------------------------------ G01 leading terms

fn g01<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let (vars, deg) = *cx.rng.pick(&[(1, 20), (2, 3), (3, 2), (3, 4), (4, 3), (3, 255), (5, 120), (6, 255), (8, 255), (12, 40)]);
    let n = if cx.rng.chance(1, 30) { cx.rng.usz(12, 80) } else { cx.rng.below(12) };
    let (vars, deg, n) = if cx.rng.chance(1, 1500) { (*cx.rng.pick(&[3, 9, 300]), 255, cx.rng.usz(250, 600)) } else { (vars, deg, n) };
    let mut ms: Vec<Mono> = Vec::new();
    for _ in 0..n {
        let m = match ms.last().cloned() {
            Some(l) if cx.rng.chance(2, 3) => gen_near(&mut cx.rng, &l, vars, deg),
            _ => gen_mono(&mut cx.rng, vars, deg),
        };
        if !ms.contains(&m) {
            ms.push(m);
        }
    }
    cx.rng.shuffle(&mut ms);
    let p: Polynomial<C> = Polynomial { terms: ms.iter().map(|m| term(C::wide_nz(&mut cx.rng), m)).collect() };
    let d = format!("[{} {:?}] {}", C::NAME, O::O, sp(&p));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let m = mp(&p).ok_or_else(bad)?;
    let lt = cx.call("leading_term", || d.clone(), || Computer::<C, O>::leading_term(&p).cloned())?;
    let lc = cx.call("leading_coef", || d.clone(), || Computer::<C, O>::leading_coef(&p))?;
    let want = m.lt(O::O);
    ck!(cx, lt.as_ref().map(|t| (super::mdeg::mono(&t.mdeg), t.coef.m())) == want.map(|(m, c)| (m.clone(), Some(c.clone()))), "lt", "leading term of {} is {:?} instead of {:?}", d, lt.as_ref().map(st), want);
    ck!(cx, lc.map(|c| c.m()) == want.map(|(_, c)| Some(c.clone())), "lc", "leading coefficient of {} is {:?}", d, lc);
    let s = cx.call("sort_terms", || d.clone(), || Computer::<C, O>::sort_terms(&p))?;
    ck!(cx, s.terms.len() == p.terms.len() && mp(&s) == Some(m.clone()), "sort:same", "sorting {} gives {}", d, sp(&s));
    let sorted = s.terms.windows(2).all(|w| mono_cmp(O::O, &super::mdeg::mono(&w[0].mdeg), &super::mdeg::mono(&w[1].mdeg)).is_lt());
    ck!(cx, sorted, "sort:order", "sorting {} gives {}, which does not ascend", d, sp(&s));
    cx.tag_if(ms.iter().any(|m| model::deg(m) > 255), "total degree > 255");
    cx.tag_if(n == 0, "zero polynomial");
    cx.tag_if(n > 256, "more than 256 terms");
    Ok(())
}

// ------------------------------------------------------------ G02 S-polynomials

fn g02<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let (vars, deg, terms) = *cx.rng.pick(&[(1, 10, 5), (2, 3, 4), (2, 6, 6), (3, 3, 5), (3, 100, 3), (4, 2, 6), (5, 4, 4), (7, 2, 4), (3, 5, 24), (10, 3, 8)]);
    let s = Shape { vars, deg, terms, wide: cx.rng.chance(1, 4) };
    let mut f: Polynomial<C> = gen_poly(&mut cx.rng, s);
    let mut g: Polynomial<C> = gen_poly_near(&mut cx.rng, s, &f);
    if C::EPS.is_some() {
        for p in [&mut f, &mut g] {
            for t in p.terms.iter_mut() {
                t.coef = C::unit(&mut cx.rng);
            }
        }
    }
    let d = format!("[{} {:?}] {} and {}", C::NAME, O::O, sp(&f), sp(&g));
    cx.key(&d);
    cx.sample(|| d.clone());
    let (a, b) = (mp(&f).ok_or_else(bad)?, mp(&g).ok_or_else(bad)?);
    cx.strict = C::NAME != "Rational" && 2 * deg <= 255;
    let got = cx.call("try_reduce", || d.clone(), || Computer::<C, O>::try_reduce(&f, &g))?;
    if a.is_zero() || b.is_zero() {
        ck!(cx, got.is_none(), "spoly:zero", "S-polynomial of {} is {:?}", d, got.as_ref().map(sp));
        return Ok(());
    }
    if cx.rng.chance(1, 12) {
        let s = cx.call("try_reduce", || format!("{} and itself", sp(&f)), || Computer::<C, O>::try_reduce(&f, &f))?;
        ck!(cx, s.as_ref().map_or(false, |s| s.terms.is_empty()), "spoly:itself", "[{} {:?}] S-polynomial of {} and itself is {:?}", C::NAME, O::O, sp(&f), s.as_ref().map(sp));
    }
    let want = a.spoly(&b, O::O);
    ck!(cx, got.as_ref().and_then(mp) == Some(want.clone()), "spoly:value", "S-polynomial of {} is {:?} instead of {}", d, got.as_ref().map(sp), want.show());
    let l = mono_lcm(a.lt(O::O).unwrap().0, b.lt(O::O).unwrap().0);
    if let Some((m, _)) = want.lt(O::O) {
        // the model itself: leading terms cancelled
        assert!(mono_cmp(O::O, m, &l).is_lt());
    }
    cx.tag_if(want.is_zero(), "zero S-polynomial");
    cx.tag_if(l != mono_mul(a.lt(O::O).unwrap().0, b.lt(O::O).unwrap().0), "leading monomials not coprime");
    Ok(())
}

// ------------------------------------------------------------ ideals

fn q<C: Coef>(ts: &[(i64, &[u32])]) -> MPoly<C::M> {
    let one = C::M::one();
    let mut p = MPoly::zero();
    for (c, m) in ts {
        let mut v = C::M::zero();
        for _ in 0..c.abs() {
            v = v.add(&one);
        }
        p.add_term(m, &if *c < 0 { v.neg() } else { v });
    }
    p
}

/// Ideals of monomials and of binomials with coefficients 1 and -1, scaled by
/// powers of two: over floats the whole of Buchberger's algorithm is exact
/// (S-polynomials and remainders of such are such again, up to c + c = 2c).
fn gen_binomial_ideal<C: Coef>(r: &mut Rng) -> Vec<Polynomial<C>> {
    let (v, d, n) = *r.pick(&[(2, 3, 2), (2, 4, 3), (3, 2, 3), (3, 3, 2), (4, 2, 4), (5, 1, 4), (2, 9, 2), (6, 1, 6)]);
    let homogeneous = r.chance(1, 3);
    let minus = r.chance(1, 2);
    let mut g: Vec<MPoly<C::M>> = vec![];
    for _ in 0..r.usz(1, n) {
        let a = gen_mono(r, v, d);
        let mut b = gen_mono(r, v, d);
        if homogeneous {
            b = a.clone();
            b.resize(v, 0);
            r.shuffle(&mut b);
            b = trim(b);
        }
        let mut p = MPoly::term(a, C::M::one());
        if !r.chance(1, 6) {
            let c = if minus || r.chance(1, 2) { C::M::one().neg() } else { C::M::one() };
            p.add_term(&b, &c);
        }
        g.push(p);
    }
    for _ in 0..r.below(3) {
        let i = r.below(g.len());
        match r.below(3) {
            0 => g.push(g[i].clone()),
            1 => g.push(MPoly::zero()),
            _ => {
                let m = gen_mono(r, v, 1);
                g.push(g[i].mul_term(&m, &C::M::one()))
            }
        }
    }
    for p in g.iter_mut() {
        *p = p.scale(&C::unit(r).m().unwrap());
    }
    r.shuffle(&mut g);
    g.iter().map(|p| lib(r, p)).collect()
}

/// generators of an ideal whose Gröbner basis is within reach
pub fn gen_ideal<C: Coef>(r: &mut Rng) -> Vec<Polynomial<C>> {
    if C::EPS.is_some() {
        return gen_binomial_ideal(r);
    }
    // through the origin: never the unit ideal
    let origin = r.chance(3, 5);
    let rnd = |r: &mut Rng, vars: usize, deg: u32, terms: usize| -> MPoly<C::M> {
        let n = r.usz(terms.min(2), terms);
        let mut p: MPoly<C::M> = MPoly::zero();
        for _ in 0..4 * n {
            if p.0.len() >= n {
                break;
            }
            let mut m = gen_mono(r, vars, deg);
            if m.is_empty() && r.chance(1, 2) {
                m = vec![0; r.below(vars)];
                m.push(1);
            }
            if m.len() <= vars && !(origin && m.is_empty()) {
                p.add_term(&m, &C::small_nz(r).m().unwrap());
            }
        }
        p
    };
    let mut g: Vec<MPoly<C::M>> = match r.below(22) {
        0 | 1 => (0..2).map(|_| rnd(r, 2, 2, 3)).collect(),
        2 => (0..r.usz(2, 3)).map(|_| rnd(r, 2, 3, 3)).collect(),
        3 => (0..r.usz(2, 3)).map(|_| rnd(r, 3, 1, 3)).collect(),
        4 => (0..r.usz(2, 4)).map(|_| rnd(r, 3, 2, 2)).collect(),
        5 => {
            // monomial ideal
            let (v, d) = *r.pick(&[(2, 6), (3, 3), (4, 2), (5, 3), (2, 90), (10, 2), (3, 12)]);
            (0..if r.chance(1, 6) { r.usz(6, 25) } else { r.usz(1, 6) })
                .map(|_| MPoly::term(gen_mono(r, v, d), C::small_nz(r).m().unwrap()))
                .collect()
        }
        6 | 7 => {
            // one variable: greatest common divisors
            let v = r.below(3);
            let up = |p: MPoly<C::M>| MPoly(p.0.into_iter().map(|(m, c)| (trim([vec![0; v], m].concat()), c)).collect());
            let h = rnd(r, 1, 3, 3);
            (0..r.usz(1, 3)).map(|_| up(h.mul(&rnd(r, 1, 3, 3)))).collect()
        }
        8 => {
            // linear system
            let v = if r.chance(1, 6) { r.usz(5, 12) } else { r.usz(2, 5) };
            (0..if r.chance(1, 6) { r.usz(5, 12) } else { r.usz(1, 5) })
                .map(|_| {
                    let mut p = MPoly::zero();
                    for i in 0..v {
                        let mut m = vec![0; i];
                        m.push(1);
                        p.add_term(&m, &C::small(r).m().unwrap());
                    }
                    p.add_term(&[], &C::small(r).m().unwrap());
                    p
                })
                .collect()
        }
        9 => {
            // toric and determinantal
            let all: Vec<Vec<MPoly<C::M>>> = vec![
                vec![q::<C>(&[(1, &[1, 0, 1]), (-1, &[0, 2])]), q::<C>(&[(1, &[0, 1, 0, 1]), (-1, &[0, 0, 2])]), q::<C>(&[(1, &[1, 0, 0, 1]), (-1, &[0, 1, 1])])],
                vec![q::<C>(&[(1, &[0, 1]), (-1, &[2])]), q::<C>(&[(1, &[0, 0, 1]), (-1, &[3])])],
                vec![q::<C>(&[(1, &[1]), (1, &[0, 1]), (1, &[0, 0, 1])]), q::<C>(&[(1, &[1, 1]), (1, &[0, 1, 1]), (1, &[1, 0, 1])]), q::<C>(&[(1, &[1, 1, 1]), (-1, &[])])],
                vec![q::<C>(&[(1, &[1]), (2, &[0, 1]), (2, &[0, 0, 1]), (-1, &[])]), q::<C>(&[(1, &[2]), (2, &[0, 2]), (2, &[0, 0, 2]), (-1, &[1])]), q::<C>(&[(2, &[1, 1]), (2, &[0, 1, 1]), (-1, &[0, 1])])],
                vec![q::<C>(&[(1, &[2]), (1, &[0, 2]), (1, &[0, 0, 2]), (-1, &[])]), q::<C>(&[(1, &[2]), (-1, &[0, 1]), (1, &[0, 0, 2])]), q::<C>(&[(1, &[1]), (-1, &[0, 0, 1])])],
                vec![q::<C>(&[(1, &[3, 1]), (-1, &[1, 2]), (1, &[])]), q::<C>(&[(1, &[2, 2]), (-1, &[0, 3]), (-1, &[])])],
                vec![q::<C>(&[(1, &[2]), (1, &[0, 1, 1])]), q::<C>(&[(1, &[0, 2]), (1, &[1, 0, 1])]), q::<C>(&[(1, &[1, 1]), (1, &[0, 0, 2])])],
                vec![q::<C>(&[(1, &[1, 1]), (-1, &[0, 0, 1, 1])]), q::<C>(&[(1, &[1, 0, 1]), (-1, &[0, 0, 0, 2])]), q::<C>(&[(1, &[0, 2]), (-1, &[1, 0, 0, 1])])],
                vec![q::<C>(&[(1, &[1, 0, 0, 1]), (-1, &[0, 1, 1])]), q::<C>(&[(1, &[1, 0, 1]), (-1, &[0, 2])]), q::<C>(&[(1, &[0, 1, 0, 1]), (-1, &[0, 0, 2]), (1, &[2])])],
                vec![q::<C>(&[(1, &[3]), (-2, &[1, 1])]), q::<C>(&[(1, &[2, 1]), (-2, &[0, 2]), (1, &[1])])],
            ];
            r.pick(&all).clone()
        }
        10 => {
            // a common factor
            let h = rnd(r, 2, 1, 2);
            (0..2).map(|_| h.mul(&rnd(r, 2, 2, 2))).collect()
        }
        11 => {
            // hidden unit ideal
            let a = rnd(r, 2, 2, 2);
            let b = rnd(r, 2, 1, 2);
            vec![a.clone(), a.mul(&b).add(&q::<C>(&[(1, &[])]))]
        }
        12 => {
            // points: products of linear forms, finitely many solutions
            let lin = |r: &mut Rng, i: usize| {
                let mut m = vec![0; i];
                m.push(1);
                MPoly::term(m, C::M::one()).add(&MPoly::term(vec![], C::small(r).m().unwrap()))
            };
            vec![lin(r, 0).mul(&lin(r, 0)), lin(r, 0).mul(&lin(r, 1)), lin(r, 1).mul(&lin(r, 1))]
        }
        13 => {
            // implicitisation: x - p(t), y - q(t)
            let x = MPoly::term(vec![0, 1], C::M::one());
            let y = MPoly::term(vec![0, 0, 1], C::M::one());
            vec![x.sub(&rnd(r, 1, 2, 2)), y.sub(&rnd(r, 1, 2, 2))]
        }
        14 => vec![rnd(r, 3, 3, 4)],
        15 | 16 => (0..2).map(|_| rnd(r, 3, 2, 3)).collect(),
        19 => {
            // sparse binomials in many variables
            let v = r.usz(4, 6);
            (0..r.usz(2, 5))
                .map(|_| {
                    let mut p: MPoly<C::M> = MPoly::zero();
                    for _ in 0..2 {
                        let mut m = vec![0; v];
                        for _ in 0..r.usz(if origin { 1 } else { 0 }, 2) {
                            m[r.below(v)] += 1;
                        }
                        p.add_term(&trim(m), &C::small_nz(r).m().unwrap());
                    }
                    p
                })
                .collect()
        }
        18 => {
            // homogeneous
            let (v, d) = *r.pick(&[(2, 2), (2, 3), (3, 2), (3, 2), (3, 2), (4, 2), (4, 2), (5, 2), (3, 3)]);
            (0..r.usz(2, 4))
                .map(|_| {
                    let mut p: MPoly<C::M> = MPoly::zero();
                    for _ in 0..r.usz(1, 3) {
                        let mut m = vec![0; v];
                        for _ in 0..d {
                            m[r.below(v)] += 1;
                        }
                        p.add_term(&trim(m), &C::small_nz(r).m().unwrap());
                    }
                    p
                })
                .collect()
        }
        17 => (0..3).map(|_| rnd(r, 2, 3, 3)).collect(),
        _ => (0..r.usz(1, 4)).map(|_| rnd(r, 2, 1, 3)).collect(),
    };
    // presentations: duplicates, multiples, combinations, zeros
    for _ in 0..r.below(3) {
        if g.is_empty() {
            break;
        }
        let i = r.below(g.len());
        let j = r.below(g.len());
        match r.below(5) {
            0 => g.push(g[i].clone()),
            1 => {
                let c = C::small_nz(r).m().unwrap();
                g.push(g[i].scale(&c))
            }
            2 => {
                let m = gen_mono(r, 2, 1);
                let h = g[i].mul_term(&m, &C::M::one()).add(&g[j]);
                g.push(h)
            }
            3 => g.push(MPoly::zero()),
            _ => {
                let c = C::small_nz(r).m().unwrap();
                g[i] = g[i].scale(&c)
            }
        }
    }
    r.shuffle(&mut g);
    g.iter().map(|p| lib(r, p)).collect()
}

const REF_BUDGET: u64 = 6000;
const PLAIN_BUDGET: u64 = 1_000_000;

/// the reference reduced basis, or skip
fn reference<C: Coef>(cx: &mut Ctx, g: &[MPoly<C::M>], o: Ord4) -> Result<Vec<MPoly<C::M>>, Fail> {
    let mut b = REF_BUDGET;
    if max_exp(&g.iter().collect::<Vec<_>>()) > 100 {
        return Err(Fail::Skip("degrees too large"));
    }
    match model::groebner(g, o, &mut b) {
        Some(r) if r.len() <= 30 && max_exp(&r.iter().collect::<Vec<_>>()) <= 60 => {
            cx.tag_if(r.len() > 3, "basis of more than 3 elements");
            cx.tag_if(r.len() == 1 && r[0].0.len() == 1 && r[0].0.contains_key(&vec![]), "unit ideal");
            cx.tag_if(r.is_empty(), "zero ideal");
            Ok(r)
        }
        _ => Err(Fail::Skip("Gröbner basis too large for the reference")),
    }
}
fn run_buchberger<C: Coef, O: Tag>(cx: &mut Ctx, d: &str, gens: &[Polynomial<C>]) -> Result<Vec<Polynomial<C>>, Fail> {
    let mut top = 0;
    // in lexicographic orders the work depends a lot on the order of the pairs
    let limit = if graded(O::O) { PLAIN_BUDGET } else { PLAIN_BUDGET / 80 };
    if model::plain_cost(&models(gens)?, O::O, limit, &mut top).is_none() {
        return Err(Fail::Skip("too much work for plain Buchberger"));
    }
    // exponents are 8 bits wide: only where every sensible run stays far below
    // that is an overflow a failure (in lexicographic orders another order of
    // the pairs can raise the degrees without bound)
    cx.strict = C::NAME != "Rational" && graded(O::O) && top <= 40;
    let h = cx.call("buchberger_algorithm", || d.to_string(), || {
        let mut v = gens.to_vec();
        Computer::<C, O>::buchberger_algorithm(&mut v);
        v
    });
    cx.strict = false;
    h
}
fn in_ideal<M: Ring>(p: &MPoly<M>, gb: &[MPoly<M>], o: Ord4) -> Result<bool, Fail> {
    let refs: Vec<&MPoly<M>> = gb.iter().collect();
    let mut b = 200_000;
    p.rem(&refs, o, &mut b).map(|r| r.is_zero()).ok_or(Fail::Skip("reduction too long for the reference"))
}
fn show_set<M: Ring>(v: &[MPoly<M>]) -> String {
    format!("{{{}}}", v.iter().map(|p| p.show()).collect::<Vec<_>>().join(" | "))
}

/// G03: a Gröbner basis of the same ideal
fn g03<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let gens: Vec<Polynomial<C>> = gen_ideal(&mut cx.rng);
    g03_case::<C, O>(cx, gens)
}
fn g03_case<C: Coef, O: Tag>(cx: &mut Ctx, gens: Vec<Polynomial<C>>) -> Res {
    let o = O::O;
    let mg = models(&gens)?;
    let d = format!("[{} {:?}] {}", C::NAME, o, polys(&gens));
    let want = reference::<C>(cx, &mg, o)?;
    cx.key(&d);
    cx.sample(|| format!("{} -> {}", d, show_set(&want)));
    let h = run_buchberger::<C, O>(cx, &d, &gens)?;
    let Ok(mh) = models(&h) else {
        ck!(cx, false, "gb:nan", "basis of {} is {}", d, polys(&h));
        return Ok(());
    };
    let nz: Vec<_> = mh.iter().filter(|p| !p.is_zero()).cloned().collect();
    for p in &nz {
        ck!(cx, in_ideal(p, &want, o)?, "gb:outside", "basis of {} contains {}, which is not in the ideal", d, p.show());
    }
    // every generator reduces to zero: the same ideal, nothing lost
    for (p, g) in mg.iter().zip(&gens) {
        ck!(cx, in_ideal(p, &nz, o)?, "gb:lost", "generator {} of {} does not reduce to zero modulo the result {}", sp(g), d, polys(&h));
    }
    for p in &want {
        ck!(cx, in_ideal(p, &nz, o)?, "gb:incomplete", "{} lies in the ideal of {} but does not reduce to zero modulo the result {}", p.show(), d, polys(&h));
    }
    match model::is_groebner(&nz, o, 10 * PLAIN_BUDGET) {
        None => return Err(Fail::Skip("reduction too long for the reference")),
        Some(ok) => ck!(cx, ok, "gb:criterion", "the result {} for {} is no Gröbner basis", polys(&h), d),
    }
    Ok(())
}
/// all pairs of small polynomials over F2, and all single/double over F3 in part
fn small_ideal(i: u64) -> (u64, Vec<Polynomial<F3>>) {
    let (o, k) = (i % 4, i / 4);
    (o, vec![small_poly::<3>(k % 81), small_poly::<3>(k / 81)])
}
fn g03_sweep(cx: &mut Ctx, i: u64) -> Res {
    let (o, g) = small_ideal(i);
    match o {
        0 => g03_case::<F3, Lex>(cx, g),
        1 => g03_case::<F3, RevLex>(cx, g),
        2 => g03_case::<F3, GrLex>(cx, g),
        _ => g03_case::<F3, GRevLex>(cx, g),
    }
}

/// G04: reduced, and the same for every presentation
fn g04<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let gens: Vec<Polynomial<C>> = gen_ideal(&mut cx.rng);
    g04_case::<C, O>(cx, gens)
}
fn g04_sweep(cx: &mut Ctx, i: u64) -> Res {
    let (o, g) = small_ideal(i);
    match o {
        0 => g04_case::<F3, Lex>(cx, g),
        1 => g04_case::<F3, RevLex>(cx, g),
        2 => g04_case::<F3, GrLex>(cx, g),
        _ => g04_case::<F3, GRevLex>(cx, g),
    }
}
fn g04_case<C: Coef, O: Tag>(cx: &mut Ctx, gens: Vec<Polynomial<C>>) -> Res {
    let o = O::O;
    let mg = models(&gens)?;
    let d = format!("[{} {:?}] {}", C::NAME, o, polys(&gens));
    let want = reference::<C>(cx, &mg, o)?;
    cx.key(&d);
    cx.sample(|| format!("{} -> {}", d, show_set(&want)));
    let h = run_buchberger::<C, O>(cx, &d, &gens)?;
    judge_reduced::<C>(cx, o, &d, &h, &want)?;
    // a second presentation of the same ideal
    let mut alt = mg.clone();
    for _ in 0..cx.rng.below(3) {
        if alt.len() < 2 {
            break;
        }
        let (i, j) = (cx.rng.below(alt.len()), cx.rng.below(alt.len()));
        if i != j {
            let m = gen_mono(&mut cx.rng, 2, 1);
            if C::EPS.is_some() {
                let p = alt[j].mul_term(&m, &C::M::one());
                alt.push(p);
                continue;
            }
            let c = C::small_nz(&mut cx.rng).m().unwrap();
            alt[i] = alt[i].add(&alt[j].mul_term(&m, &c));
        }
    }
    for p in alt.iter_mut() {
        let c = C::unit(&mut cx.rng).m().unwrap();
        *p = p.scale(&c);
    }
    if cx.rng.chance(1, 3) {
        alt.push(MPoly::zero());
    }
    cx.rng.shuffle(&mut alt);
    let alt: Vec<Polynomial<C>> = alt.iter().map(|p| lib(&mut cx.rng, p)).collect();
    let d2 = format!("[{} {:?}] {} (same ideal as {})", C::NAME, o, polys(&alt), polys(&gens));
    match run_buchberger::<C, O>(cx, &d2, &alt) {
        Ok(h2) => judge_reduced::<C>(cx, o, &d2, &h2, &want),
        Err(Fail::Skip(_)) => Ok(()),
        Err(e) => Err(e),
    }
}
fn judge_reduced<C: Coef>(cx: &mut Ctx, o: Ord4, d: &str, h: &[Polynomial<C>], want: &[MPoly<C::M>]) -> Res {
    let Ok(mh) = models(h) else {
        ck!(cx, false, "rgb:nan", "basis of {} is {}", d, polys(h));
        return Ok(());
    };
    for (i, p) in mh.iter().enumerate() {
        let Some((m, c)) = p.lt(o) else {
            ck!(cx, false, "rgb:zero", "basis of {} is {}, which contains zero", d, polys(h));
            return Ok(());
        };
        ck!(cx, *c == C::M::one(), "rgb:monic", "basis of {} is {}: {} is not monic", d, polys(h), sp(&h[i]));
        for (j, q) in mh.iter().enumerate() {
            if i != j {
                for n in q.0.keys() {
                    ck!(cx, !mono_divides(m, n), "rgb:reduced", "basis of {} is {}: X{:?} of element {} is divisible by the leading monomial X{:?} of element {}", d, polys(h), n, j, m, i);
                }
            }
        }
        let c = clean(&h[i]);
        ck!(cx, c.is_ok(), "rgb:clean", "basis of {} is {}: {}", d, polys(h), c.unwrap_err());
    }
    let mut s = mh.clone();
    s.sort_by(|a, b| mono_cmp(o, a.lt(o).unwrap().0, b.lt(o).unwrap().0));
    ck!(cx, s == want, "rgb:unique", "basis of {} is {}, the reduced Gröbner basis is {}", d, polys(h), show_set(want));
    Ok(())
}

/// G05: the criterion decides
fn g05<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let o = O::O;
    let gens: Vec<Polynomial<C>> = gen_ideal(&mut cx.rng);
    let mg = models(&gens)?;
    let mut set: Vec<MPoly<C::M>> = match cx.rng.below(6) {
        0 => mg,
        1 => mg.into_iter().take(2).collect(),
        k => {
            let mut r = reference::<C>(cx, &mg, o)?;
            match k {
                2 if r.len() > 1 => {
                    // one element missing
                    let i = cx.rng.below(r.len());
                    r.remove(i);
                }
                3 => {
                    // redundant members of the ideal
                    for _ in 0..cx.rng.usz(1, 3) {
                        if r.is_empty() {
                            break;
                        }
                        let (i, j) = (cx.rng.below(r.len()), cx.rng.below(r.len()));
                        let m = gen_mono(&mut cx.rng, 3, 1);
                        let p = r[i].mul_term(&m, &C::M::one());
                        r.push(if C::EPS.is_some() { p } else { p.add(&r[j]) });
                    }
                }
                4 if C::EPS.is_none() => {
                    // a lower coefficient changed
                    if !r.is_empty() {
                        let i = cx.rng.below(r.len());
                        let lm = r[i].lt(o).unwrap().0.clone();
                        let ks: Vec<Mono> = r[i].0.keys().filter(|k| **k != lm).cloned().collect();
                        if !ks.is_empty() {
                            let k = cx.rng.pick(&ks).clone();
                            r[i].add_term(&k, &C::small_nz(&mut cx.rng).m().unwrap());
                        }
                    }
                }
                _ => {}
            }
            r
        }
    };
    for p in set.iter_mut() {
        if cx.rng.chance(1, 2) {
            let c = C::unit(&mut cx.rng).m().unwrap();
            *p = p.scale(&c);
        }
    }
    if cx.rng.chance(1, 5) {
        set.push(MPoly::zero());
    }
    cx.rng.shuffle(&mut set);
    let v: Vec<Polynomial<C>> = set.iter().map(|p| lib(&mut cx.rng, p)).collect();
    g05_case::<C, O>(cx, v)
}
fn g05_case<C: Coef, O: Tag>(cx: &mut Ctx, v: Vec<Polynomial<C>>) -> Res {
    let o = O::O;
    let nz: Vec<_> = models(&v)?.into_iter().filter(|p| !p.is_zero()).collect();
    let d = format!("[{} {:?}] {}", C::NAME, o, polys(&v));
    if max_exp(&nz.iter().collect::<Vec<_>>()) > 60 {
        return Err(Fail::Skip("degrees too large"));
    }
    let Some(want) = model::is_groebner(&nz, o, PLAIN_BUDGET) else { return Err(Fail::Skip("criterion too long for the reference")) };
    cx.key(&d);
    cx.sample(|| format!("{} -> {}", d, want));
    cx.strict = C::NAME != "Rational" && graded(o) && nz.iter().all(|p| p.0.keys().all(|m| model::deg(m) <= 60));
    let got = cx.call("buchberger_criterion", || d.clone(), || Computer::<C, O>::buchberger_criterion(&v))?;
    ck!(cx, got == want, "criterion", "Buchberger's criterion says {} for {}", got, d);
    cx.tag(if want { "is a Gröbner basis" } else { "is not" });
    cx.tag_if(want && nz.len() > 1, "nontrivial basis confirmed");
    Ok(())
}
fn g05_sweep(cx: &mut Ctx, i: u64) -> Res {
    let (o, g) = small_ideal(i);
    match o {
        0 => g05_case::<F3, Lex>(cx, g),
        1 => g05_case::<F3, RevLex>(cx, g),
        2 => g05_case::<F3, GrLex>(cx, g),
        _ => g05_case::<F3, GRevLex>(cx, g),
    }
}

/// G06: membership and normal forms
fn g06<C: Coef, O: Tag>(cx: &mut Ctx) -> Res {
    let o = O::O;
    let gens: Vec<Polynomial<C>> = gen_ideal(&mut cx.rng);
    let mg = models(&gens)?;
    let want = reference::<C>(cx, &mg, o)?;
    let d = format!("[{} {:?}] {}", C::NAME, o, polys(&gens));
    let mut h = run_buchberger::<C, O>(cx, &d, &gens)?;
    cx.sample(|| d.clone());
    let refs: Vec<&MPoly<C::M>> = want.iter().collect();
    let mut any = false;
    for _ in 0..4 {
        let vars = mg.iter().map(|p| p.nvars()).max().unwrap_or(1).clamp(1, 4);
        let mut f: MPoly<C::M> = MPoly::zero();
        let member = cx.rng.chance(1, 2);
        for g in &mg {
            if cx.rng.chance(2, 3) {
                let c: Polynomial<C> = gen_poly(&mut cx.rng, Shape { vars, deg: 1, terms: 2, wide: false });
                f = f.add(&g.mul(&mp(&c).ok_or_else(bad)?));
            }
        }
        if !member {
            let e: Polynomial<C> = gen_poly(&mut cx.rng, Shape { vars, deg: 2, terms: 2, wide: false });
            f = f.add(&mp(&e).ok_or_else(bad)?);
        }
        let mut b = 20_000;
        let Some(nf) = f.rem(&refs, o, &mut b) else { continue };
        if model::plain_rem(f.clone(), &models(&h)?, o, PLAIN_BUDGET / 4, &mut 0).is_none() {
            continue;
        }
        if member {
            assert!(nf.is_zero());
        }
        let lf: Polynomial<C> = lib(&mut cx.rng, &f);
        cx.rng.shuffle(&mut h);
        let dd = format!("[{} {:?}] {} modulo the basis {} of {}", C::NAME, o, sp(&lf), polys(&h), polys(&gens));
        let r = match cx.call("divide", || dd.clone(), || Computer::<C, O>::divide(&lf, &h)) {
            Ok((r, _)) => r,
            Err(Fail::Skip(_)) => continue,
            Err(e) => return Err(e),
        };
        any = true;
        ck!(cx, r.terms.is_empty() == nf.is_zero(), "member", "{} leaves {}, but the polynomial is {}in the ideal", dd, sp(&r), if nf.is_zero() { "" } else { "not " });
        ck!(cx, mp(&r) == Some(nf.clone()), "normal-form", "{} leaves {} instead of {}", dd, sp(&r), nf.show());
        cx.tag(if nf.is_zero() { "member" } else { "non-member" });
    }
    if any {
        cx.key(&d);
    }
    Ok(())
}

macro_rules! by_order {
    ($v:ident, $name:literal, $w:literal, $f:ident, $C:ty) => {
        $v.push(random(concat!($name, " lex"), $w, $f::<$C, Lex>));
        $v.push(random(concat!($name, " revlex"), $w, $f::<$C, RevLex>));
        $v.push(random(concat!($name, " grlex"), $w, $f::<$C, GrLex>));
        $v.push(random(concat!($name, " grevlex"), $w, $f::<$C, GRevLex>));
    };
}
macro_rules! streams {
    ($f:ident) => {{
        let mut v = Vec::new();
        by_order!(v, "Rational", 3, $f, Rational);
        by_order!(v, "F32003", 2, $f, F32003);
        by_order!(v, "F7", 1, $f, F7);
        by_order!(v, "F2", 1, $f, F2);
        by_order!(v, "F2^61-1", 1, $f, FM61);
        v
    }};
    ($f:ident, float) => {{
        let mut v = streams!($f);
        by_order!(v, "f64", 2, $f, f64);
        v
    }};
}

pub fn props() -> Vec<Prop> {
    let s1 = when!("D01", {
        let mut s = streams!(d01, float);
        s.push(sweep("small polynomials over F2/F3", DIV_SWEEP, d01_sweep));
        by_order!(s, "f64 rounding", 2, d01_float, f64);
        by_order!(s, "f32 rounding", 1, d01_float, f32);
        s
    });
    let s2 = when!("D02", {
        let mut s = streams!(d02, float);
        s.push(sweep("small polynomials over F2/F3", DIV_SWEEP, d02_sweep));
        by_order!(s, "f64 rounding", 2, d02_float, f64);
        by_order!(s, "f32 rounding", 1, d02_float, f32);
        s
    });
    let sg2 = when!("G02", {
        let mut s = streams!(g02, float);
        by_order!(s, "f64 rounding", 1, g02_float, f64);
        by_order!(s, "f32 rounding", 1, g02_float, f32);
        s
    });
    let s3 = when!("G03", {
        let mut s = streams!(g03, float);
        s.push(sweep("pairs over F3", 4 * 81 * 81, g03_sweep));
        s
    });
    let s4 = when!("G04", {
        let mut s = streams!(g04, float);
        s.push(sweep("pairs over F3", 4 * 81 * 81, g04_sweep));
        s
    });
    let s5 = when!("G05", {
        let mut s = streams!(g05, float);
        s.push(sweep("pairs over F3", 4 * 81 * 81, g05_sweep));
        s
    });
    
vec![
        Prop {
            id: "D01",
            rule: "dividend and 0..5 divisors (zero, constant, repeated, near-identical, dividend planted in the ideal), four orders, Rational/prime fields/f64 with unit coefficients; sweep: all small polynomials over F2 and F3. The identity is recombined by the map model, every remainder term tested against every leading monomial. Distinct = distinct (field, order, dividend, divisors).",
            streams: s1,
            quick: 500_000,
            min_distinct: 5_000,
        },
        Prop {
            id: "D02",
            rule: "as D01; monitors the leading monomials of all products and the remainder, uniqueness for one divisor, and the logical step budget (allocations) of every call. Distinct as D01.",
            streams: s2,
            quick: 500_000,
            min_distinct: 5_000,
        },
        Prop {
            id: "G01",
            rule: "polynomials with up to 12 terms whose monomials are perturbations of each other (equal total degrees, prefixes, degrees up to 255), four orders; oracle: maximum by the textbook order. Distinct = distinct (field, order, polynomial).",
            streams: when!("G01", streams!(g01, float)),
            quick: 1_200_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "G02",
            rule: "pairs of polynomials (also zero, related monomials), four orders; oracle: the definition in the map model. Distinct = distinct (field, order, pair).",
            streams: sg2,
            quick: 800_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "G03",
            rule: "ideals from 16 families (random, monomial, univariate, linear, toric, unit, points, implicitisation, common factors), presented with duplicates, multiples, combinations and zeros; oracle: independent Buchberger with normal selection, mutual reduction, all S-polynomials. Distinct = distinct (field, order, generators) within the reference budget.",
            streams: s3,
            quick: 150_000,
            min_distinct: 3_000,
        },
        Prop {
            id: "G04",
            rule: "as G03, each ideal in two presentations; the result must be monic, minimal, inter-reduced and equal to the reference reduced basis. Distinct as G03.",
            streams: s4,
            quick: 120_000,
            min_distinct: 3_000,
        },
        Prop {
            id: "G05",
            rule: "generator sets: random, true bases, bases with an element removed, a coefficient changed, or redundant members and zeros added; oracle: all S-polynomials reduce to zero in the model. Distinct = distinct (field, order, set).",
            streams: s5,
            quick: 250_000,
            min_distinct: 5_000,
        },
        Prop {
            id: "G06",
            rule: "ideals as in G03 with up to four members/non-members each, divided by the computed basis in shuffled order; oracle: normal form modulo the reference basis. Distinct = distinct (field, order, ideal).",
            streams: when!("G06", streams!(g06, float)),
            quick: 100_000,
            min_distinct: 3_000,
        },
    ]
}

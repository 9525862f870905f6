//! P01..P04: the polynomial ring.

use super::mdeg::{canonical, gen_mono, gen_near, md, mono};
use super::groebner::gen_div;
use super::scale;
use crate::{ck, when};
use crate::fields::*;
use crate::model::{self, mono_div, mono_divides, mono_lcm, mono_mul, MPoly, Mono, Ring};
use crate::rt::*;
use algeo::core::num::Rational;
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};

// ------------------------------------------------------------ conversions

/// value of a library polynomial; None if a coefficient is not a number
pub fn mp<C: Coef>(p: &Polynomial<C>) -> Option<MPoly<C::M>> {
    let mut r = MPoly::zero();
    for t in p.terms.iter() {
        r.add_term(&mono(&t.mdeg), &t.coef.m()?);
    }
    Some(r)
}
pub fn mt<C: Coef>(t: &Term<C>) -> Option<MPoly<C::M>> {
    Some(MPoly::term(mono(&t.mdeg), t.coef.m()?))
}
/// well-formedness of a library polynomial
pub fn clean<C: Coef>(p: &Polynomial<C>) -> Result<(), String> {
    for (i, t) in p.terms.iter().enumerate() {
        match t.coef.m() {
            None => return Err(format!("term {} has the coefficient {:?}, which is not a number", i, t.coef)),
            Some(m) if m.is_zero() => return Err(format!("term {} has coefficient zero", i)),
            _ => {}
        }
        if !canonical(&t.mdeg) {
            return Err(format!("term {} has multidegree {:?} with trailing zeros", i, t.mdeg.0));
        }
        for u in &p.terms[..i] {
            if u.mdeg == t.mdeg {
                return Err(format!("two terms have the multidegree {:?}", t.mdeg.0));
            }
        }
    }
    Ok(())
}
pub fn sp<C: Coef>(p: &Polynomial<C>) -> String {
    if p.terms.is_empty() {
        return "0".into();
    }
    p.terms.iter().map(st).collect::<Vec<_>>().join(" + ")
}
pub fn st<C: Coef>(t: &Term<C>) -> String {
    format!("{}*X{:?}", t.coef, t.mdeg.0)
}
pub fn term<C: Coef>(c: C, m: &[u32]) -> Term<C> {
    Term { coef: c, mdeg: md(m) }
}

// ------------------------------------------------------------ generators

#[derive(Clone, Copy)]
pub struct Shape {
    pub vars: usize,
    pub deg: u32,
    pub terms: usize,
    pub wide: bool,
}
pub fn shape(r: &mut Rng) -> Shape {
    if r.chance(1, 40) {
        // long polynomials
        let (vars, deg, terms) = *r.pick(&[(1, 100, 40), (2, 9, 40), (3, 4, 32), (5, 3, 32), (12, 2, 24), (20, 2, 20), (1, 110, 70), (3, 9, 70)]);
        return Shape { vars, deg, terms, wide: r.chance(1, 3) };
    }
    let (vars, deg, terms) = *r.pick(&[(1, 6, 5), (2, 3, 4), (2, 4, 8), (3, 3, 6), (3, 5, 10), (4, 2, 8), (6, 4, 6), (8, 3, 10), (3, 90, 4), (2, 120, 6), (3, 2, 24), (7, 12, 5), (10, 3, 14)]);
    Shape { vars, deg, terms, wide: r.chance(1, 3) }
}
pub fn gen_coef<C: Coef>(r: &mut Rng, wide: bool) -> C {
    if wide {
        C::wide_nz(r)
    } else {
        C::small_nz(r)
    }
}
/// a clean polynomial
pub fn gen_poly<C: Coef>(r: &mut Rng, s: Shape) -> Polynomial<C> {
    let n = match r.below(6) {
        0 => r.below(3),
        _ => r.below(s.terms + 1),
    };
    let mut ms: Vec<Mono> = Vec::new();
    for _ in 0..n {
        let m = match ms.last() {
            Some(l) if r.chance(1, 3) => {
                let l = l.clone();
                gen_near(r, &l, s.vars, s.deg)
            }
            _ => gen_mono(r, s.vars, s.deg),
        };
        if m.len() <= s.vars && m.iter().all(|&e| e <= s.deg) && !ms.contains(&m) {
            ms.push(m);
        }
    }
    Polynomial { terms: ms.iter().map(|m| term(gen_coef(r, s.wide), m)).collect() }
}
/// a second polynomial sharing monomials (and often opposite coefficients) with the first
pub fn gen_poly_near<C: Coef>(r: &mut Rng, s: Shape, p: &Polynomial<C>) -> Polynomial<C> {
    if r.chance(1, 3) || p.terms.is_empty() {
        return gen_poly(r, s);
    }
    let mut terms: Vec<Term<C>> = Vec::new();
    for t in &p.terms {
        match r.below(4) {
            0 => {}
            1 => terms.push(Term { coef: C::ZERO - t.coef, mdeg: t.mdeg.clone() }),
            2 => terms.push(t.clone()),
            _ => terms.push(Term { coef: gen_coef(r, s.wide), mdeg: t.mdeg.clone() }),
        }
    }
    let q: Polynomial<C> = gen_poly(r, s);
    for t in q.terms {
        if terms.len() < s.terms && !terms.iter().any(|u| u.mdeg == t.mdeg) && r.chance(1, 2) {
            terms.push(t);
        }
    }
    r.shuffle(&mut terms);
    Polynomial { terms }
}
pub fn gen_term<C: Coef>(r: &mut Rng, s: Shape, p: &Polynomial<C>) -> Term<C> {
    if r.chance(1, 10) {
        return Term { coef: C::ZERO, mdeg: MultiDegree(vec![]) };
    }
    if !p.terms.is_empty() && r.chance(1, 2) {
        let t = r.pick(&p.terms).clone();
        return match r.below(3) {
            0 => t,
            1 => Term { coef: C::ZERO - t.coef, mdeg: t.mdeg },
            _ => Term { coef: gen_coef(r, s.wide), mdeg: t.mdeg },
        };
    }
    let m = gen_mono(r, s.vars, s.deg);
    term(gen_coef(r, s.wide), &m)
}

// ------------------------------------------------------------ one operation of the ring

pub enum Out<C: Coef> {
    P(Polynomial<C>),
    T(Term<C>),
}

/// Performs a random operation: (description, exact result, library results by operand form)
#[allow(clippy::type_complexity)]
fn ring_op<C: Coef>(cx: &mut Ctx, s: Shape, p: &Polynomial<C>, q: &Polynomial<C>, t: &Term<C>, u: &Term<C>, c: C) -> Result<(String, MPoly<C::M>, Vec<(&'static str, Result<Out<C>, Panicked>)>), Fail> {
    let bad = || Fail::Skip("operand is not a number");
    let (a, b) = (mp(p).ok_or_else(bad)?, mp(q).ok_or_else(bad)?);
    let (x, y) = (mt(t).ok_or_else(bad)?, mt(u).ok_or_else(bad)?);
    macro_rules! forms {
        ($V:ident, $l:ident $op:tt $r:ident) => {
            vec![
                ("&a op &b", cx.try_call(|| Out::$V(&*$l $op &*$r))),
                ("a op b", cx.try_call(|| Out::$V($l.clone() $op $r.clone()))),
                ("a op &b", cx.try_call(|| Out::$V($l.clone() $op &*$r))),
                ("&a op b", cx.try_call(|| Out::$V(&*$l $op $r.clone()))),
            ]
        };
    }
    macro_rules! scal {
        ($l:ident $op:tt $r:ident) => {
            vec![
                ("&a op c", cx.try_call(|| Out::P(&*$l $op $r))),
                ("a op c", cx.try_call(|| Out::P($l.clone() $op $r))),
            ]
        };
    }
    let one = |m: Result<Out<C>, Panicked>| vec![("", m)];
    let (ds, dq, dt, du) = (sp(p), sp(q), st(t), st(u));
    let k = cx.rng.below(24);
    // a product or a history of very long polynomials takes too long
    let heavy = p.terms.len() * q.terms.len() > 1500 || (k == 23 && s.terms > 110);
    let k = if heavy && matches!(k, 4..=6 | 23) { k % 4 } else { k };
    Ok(match k {
        0 | 1 => (format!("({}) + ({})", ds, dq), a.add(&b), forms!(P, p + q)),
        2 | 3 => (format!("({}) - ({})", ds, dq), a.sub(&b), forms!(P, p - q)),
        4 | 5 | 6 => (format!("({}) * ({})", ds, dq), a.mul(&b), forms!(P, p * q)),
        7 => (format!("({}) + {}", ds, dt), a.add(&x), forms!(P, p + t)),
        8 => (format!("{} + ({})", dt, ds), a.add(&x), forms!(P, t + p)),
        9 => (format!("({}) - {}", ds, dt), a.sub(&x), forms!(P, p - t)),
        10 => (format!("{} - ({})", dt, ds), x.sub(&a), forms!(P, t - p)),
        11 => (format!("({}) * {}", ds, dt), a.mul(&x), forms!(P, p * t)),
        12 => (format!("{} * ({})", dt, ds), a.mul(&x), forms!(P, t * p)),
        13 => (format!("{} + {}", dt, du), x.add(&y), forms!(P, t + u)),
        14 => (format!("{} - {}", dt, du), x.sub(&y), forms!(P, t - u)),
        15 => (format!("{} * {}", dt, du), x.mul(&y), forms!(T, t * u)),
        16 => (
            format!("-({})", ds),
            a.neg(),
            vec![("-&a", cx.try_call(|| Out::P(-p))), ("-a", cx.try_call(|| Out::P(-p.clone())))],
        ),
        17 => (
            format!("-({})", dt),
            x.neg(),
            vec![("-&a", cx.try_call(|| Out::T(-t))), ("-a", cx.try_call(|| Out::T(-t.clone())))],
        ),
        18 => (format!("({}) * scalar {}", ds, c), a.scale(&c.m().ok_or_else(bad)?), scal!(p * c)),
        19 => {
            let c = C::unit(&mut cx.rng);
            (format!("({}) / scalar {}", ds, c), a.scale(&c.m().ok_or_else(bad)?.inv()), scal!(p / c))
        }
        20 => {
            // construction from a list of terms some of which are zero
            let mut v: Vec<Term<C>> = p.terms.clone();
            for _ in 0..cx.rng.below(4) {
                let m = gen_mono(&mut cx.rng, s.vars, s.deg);
                let i = cx.rng.below(v.len() + 1);
                v.insert(i, term(C::ZERO, &m));
            }
            let d = format!("polynomial from the terms {}", v.iter().map(st).collect::<Vec<_>>().join(", "));
            (d, a, one(cx.try_call(|| Out::P(Polynomial::new(v)))))
        }
        21 => match cx.rng.below(8) {
            0 => ("zero polynomial".into(), MPoly::zero(), one(cx.try_call(|| Out::P(Polynomial::zero())))),
            1 => ("one".into(), MPoly::term(vec![], C::M::one()), one(cx.try_call(|| Out::P(Polynomial::one())))),
            2 => ("default".into(), MPoly::zero(), one(cx.try_call(|| Out::P(Polynomial::default())))),
            3 => (format!("polynomial of {}", c), MPoly::term(vec![], c.m().ok_or_else(bad)?), one(cx.try_call(|| Out::P(Polynomial::from(c))))),
            4 => (format!("polynomial of {}", dt), x, one(cx.try_call(|| Out::P(Polynomial::from(t.clone()))))),
            5 => (format!("polynomial of &{}", dt), x, one(cx.try_call(|| Out::P(Polynomial::from(t))))),
            _ => {
                let (i, e) = (cx.rng.below(9), *cx.rng.pick(&[0u8, 1, 1, 2, 3, 17, 200, 255]));
                let mut m = vec![0; i];
                m.push(e as u32);
                (format!("variable {}^{}", i, e), MPoly::term(m, C::M::one()), one(cx.try_call(|| Out::P(Polynomial::var(i, e)))))
            }
        },
        22 => match cx.rng.below(7) {
            0 => ("zero term".into(), MPoly::zero(), one(cx.try_call(|| Out::T(Term::zero())))),
            1 => ("one term".into(), MPoly::term(vec![], C::M::one()), one(cx.try_call(|| Out::T(Term::one())))),
            2 => {
                let m = t.mdeg.clone();
                (format!("term({}, {:?})", c, m.0), MPoly::term(mono(&m), c.m().ok_or_else(bad)?), one(cx.try_call(|| Out::T(Term::new(c, m)))))
            }
            3 => {
                let m = t.mdeg.clone();
                (format!("term(0, {:?})", m.0), MPoly::zero(), one(cx.try_call(|| Out::T(Term::new(C::ZERO, m)))))
            }
            4 => {
                let m = t.mdeg.clone();
                (format!("monic({:?})", m.0), MPoly::term(mono(&m), C::M::one()), one(cx.try_call(|| Out::T(Term::monic(m)))))
            }
            5 => (format!("constant {}", c), MPoly::term(vec![], c.m().ok_or_else(bad)?), one(cx.try_call(|| Out::T(Term::from(c))))),
            _ => {
                let (i, e) = (cx.rng.below(9), *cx.rng.pick(&[0u8, 1, 1, 2, 3, 17, 200, 255]));
                let mut m = vec![0; i];
                m.push(e as u32);
                (format!("variable term {}^{}", i, e), MPoly::term(m, C::M::one()), one(cx.try_call(|| Out::T(Term::var(i, e)))))
            }
        },
        _ => {
            // a longer expression: history of sums and products
            let (r1, r2): (Polynomial<C>, Polynomial<C>) = (gen_poly_near(&mut cx.rng, s, p), gen_poly_near(&mut cx.rng, s, q));
            let (m1, m2) = (mp(&r1).ok_or_else(bad)?, mp(&r2).ok_or_else(bad)?);
            let want = a.sub(&m1).mul(&b).add(&m2).sub(&a.mul(&b));
            (
                format!("(({}) - ({}))*({}) + ({}) - ({})*({})", ds, sp(&r1), dq, sp(&r2), ds, dq),
                want,
                one(cx.try_call(|| Out::P((p - &r1) * q + &r2 - p * q))),
            )
        }
    })
}

fn over(m: &MPoly<impl Ring>) -> bool {
    m.0.keys().any(|k| k.iter().any(|&e| e > 255))
}
/// could an intermediate degree of an operation on these leave the range?
fn deg_safe<C: Coef>(ps: &[&Polynomial<C>], ts: &[&Term<C>]) -> bool {
    let mx = |i: usize| -> u32 {
        ps.iter().flat_map(|p| p.terms.iter()).chain(ts.iter().copied()).map(|t| t.mdeg.0.get(i).copied().unwrap_or(0) as u32).max().unwrap_or(0)
    };
    let n = ps.iter().flat_map(|p| p.terms.iter()).chain(ts.iter().copied()).map(|t| t.mdeg.0.len()).max().unwrap_or(0);
    (0..n).all(|i| 2 * mx(i) <= 255)
}

/// several hundred terms
pub fn huge_shape(r: &mut Rng) -> Shape {
    let (vars, deg, terms) = *r.pick(&[(2, 30, 330), (3, 9, 330), (5, 4, 330), (300, 1, 330)]);
    Shape { vars, deg, terms, wide: r.chance(1, 3) }
}

fn ring_case<C: Coef>(cx: &mut Ctx, judge_clean: bool) -> Res {
    let huge = cx.rng.chance(1, 800);
    let s = if huge { huge_shape(&mut cx.rng) } else { shape(&mut cx.rng) };
    let p: Polynomial<C> = gen_poly(&mut cx.rng, s);
    let mut q0: Polynomial<C> = gen_poly_near(&mut cx.rng, s, &p);
    if huge && cx.rng.chance(1, 2) {
        q0.terms.truncate(3);
    }
    cx.tag_if(p.terms.len() > 256, "more than 256 terms");
    let t: Term<C> = gen_term(&mut cx.rng, s, &p);
    let u0: Term<C> = gen_term(&mut cx.rng, s, &Polynomial { terms: vec![t.clone()] });
    let c: C = if s.wide { C::wide(&mut cx.rng) } else { C::small(&mut cx.rng) };
    // sometimes both operands are the same object
    let same = cx.rng.chance(1, 10);
    cx.tag_if(same, "both operands one object");
    let (q, u) = if same { (&p, &t) } else { (&q0, &u0) };
    let (desc, want, outs) = ring_op(cx, s, &p, q, &t, u, c)?;
    cx.key(&format!("{}{}", C::NAME, desc));
    cx.sample(|| format!("[{}] {}", C::NAME, desc));
    // exact fields and in-range degrees: a panic is never legitimate
    let exact_field = C::NAME == "Fp" || C::NAME == "f64" || C::NAME == "f32";
    let strict = exact_field && deg_safe(&[&p, q], &[&t, u]);
    for (form, o) in outs {
        match o {
            Err(pn) => {
                if pn.overflow() && !strict {
                    cx.tag("refused: out of range");
                } else {
                    ck!(cx, false, "poly:panic", "[{}] {} ({}) panicked: {}", C::NAME, desc, form, pn.0);
                }
            }
            Ok(o) => {
                let (poly, is_term) = match o {
                    Out::P(p) => (p, false),
                    Out::T(t) => (Polynomial { terms: if t.coef.m().map_or(false, |m| m.is_zero()) { vec![] } else { vec![t.clone()] } }, true),
                };
                cx.tag_if(poly.terms.is_empty(), "result zero");
                if judge_clean {
                    let r = clean(&poly);
                    ck!(cx, r.is_ok(), "poly:clean", "[{}] {} ({}) gave {}: {}", C::NAME, desc, form, sp(&poly), r.unwrap_err());
                    if !is_term {
                        let z = cx.call("is_zero", || sp(&poly), || poly.is_zero())?;
                        ck!(cx, z == want.is_zero(), "poly:is_zero", "[{}] {} ({}): zero test says {} for {}", C::NAME, desc, form, z, want.show());
                    }
                } else {
                    let got = mp(&poly);
                    ck!(cx, got.as_ref() == Some(&want), "poly:value", "[{}] {} ({}) = {} instead of {}", C::NAME, desc, form, sp(&poly), want.show());
                    ck!(cx, is_term || poly.terms.len() == want.0.len(), "poly:collected", "[{}] {} ({}) = {}, which has {} terms instead of {}", C::NAME, desc, form, sp(&poly), poly.terms.len(), want.0.len());
                    ck!(cx, !over(&want), "poly:degree-wrapped", "[{}] {} has a degree above 255 but gave {}", C::NAME, desc, sp(&poly));
                    cx.tag_if(want.0.len() > 6, "result with more than 6 terms");
                }
            }
        }
    }
    Ok(())
}
fn p01<C: Coef>(cx: &mut Ctx) -> Res {
    ring_case::<C>(cx, true)
}
fn p02<C: Coef>(cx: &mut Ctx) -> Res {
    ring_case::<C>(cx, false)
}

/// a history: long chains of operations staying in the ring, every intermediate checked
fn p01_history<C: Coef>(cx: &mut Ctx) -> Res {
    history::<C>(cx, true)
}
fn p02_history<C: Coef>(cx: &mut Ctx) -> Res {
    history::<C>(cx, false)
}
fn history<C: Coef>(cx: &mut Ctx, judge_clean: bool) -> Res {
    let s = Shape { vars: cx.rng.usz(1, 4), deg: 3, terms: 5, wide: false };
    let mut pool: Vec<(Polynomial<C>, MPoly<C::M>)> = Vec::new();
    for _ in 0..3 {
        let p: Polynomial<C> = gen_poly(&mut cx.rng, s);
        let m = mp(&p).ok_or(Fail::Skip("operand is not a number"))?;
        pool.push((p, m));
    }
    let mut log = format!("[{}] {}", C::NAME, pool.iter().map(|p| sp(&p.0)).collect::<Vec<_>>().join(" | "));
    for _ in 0..cx.rng.usz(2, 12) {
        let (i, j) = (cx.rng.below(pool.len()), cx.rng.below(pool.len()));
        let (a, b) = (pool[i].clone(), pool[j].clone());
        let (op, w, g) = match cx.rng.below(8) {
            0 | 1 => ("+", a.1.add(&b.1), cx.try_call(|| &a.0 + &b.0)),
            2 | 3 => ("-", a.1.sub(&b.1), cx.try_call(|| &a.0 - &b.0)),
            4 if a.1 .0.len() * b.1 .0.len() <= 60 && a.1 .0.keys().chain(b.1 .0.keys()).all(|k| k.iter().all(|&e| e < 120)) => ("*", a.1.mul(&b.1), cx.try_call(|| a.0.clone() * &b.0)),
            5 => ("neg", a.1.neg(), cx.try_call(|| -a.0.clone())),
            6 if !b.0.terms.is_empty() => {
                let t = b.0.terms[cx.rng.below(b.0.terms.len())].clone();
                ("-term", a.1.sub(&mt(&t).ok_or(Fail::Skip("operand is not a number"))?), cx.try_call(|| &a.0 - &t))
            }
            _ => ("+", a.1.add(&b.1), cx.try_call(|| a.0.clone() + b.0.clone())),
        };
        log.push_str(&format!("; #{} {} #{}", i, op, j));
        match g {
            Err(p) if p.overflow() && C::NAME == "Rational" => return Err(Fail::Skip("arithmetic overflow in the code under test (out of its range)")),
            Err(p) => ck!(cx, false, "poly:panic", "{} panicked: {}", log, p.0),
            Ok(g) => {
                if judge_clean {
                    let r = clean(&g);
                    ck!(cx, r.is_ok(), "poly:clean", "{} gave {}: {}", log, sp(&g), r.unwrap_err());
                    ck!(cx, g.is_zero() == w.is_zero(), "poly:is_zero", "{}: zero test says {} for {}", log, g.is_zero(), w.show());
                } else {
                    ck!(cx, mp(&g).as_ref() == Some(&w), "poly:value", "{} = {} instead of {}", log, sp(&g), w.show());
                }
                if C::NAME.starts_with('f') && w.0.values().any(|c| format!("{:?}", c).len() > 30) {
                    continue;
                }
                // keep the pool bounded; continue from the library's own value
                let n = pool.len();
                if n < 6 {
                    pool.push((g, w));
                } else {
                    let k = cx.rng.below(n);
                    pool[k] = (g, w);
                }
            }
        }
    }
    cx.key(&log);
    cx.sample(|| log.clone());
    Ok(())
}

/// polynomials handed out by division, S-polynomials, Buchberger
fn p01_comp<C: Coef, O: super::groebner::Tag>(cx: &mut Ctx) -> Res {
    let s = Shape { vars: cx.rng.usz(1, 3), deg: 3, terms: 5, wide: false };
    let f: Polynomial<C> = gen_poly(&mut cx.rng, s);
    let n = cx.rng.usz(1, 3);
    let gs: Vec<Polynomial<C>> = (0..n).map(|_| gen_poly_near(&mut cx.rng, s, &f)).collect();
    let (f, gs) = if cx.rng.chance(1, 3) { gen_div(&mut cx.rng) } else { (f, gs) };
    if !super::groebner::short_division::<C, O>(&f, &gs) {
        return Err(Fail::Skip("division too long for the reference"));
    }
    let d = format!("[{}] {} by {}", C::NAME, sp(&f), gs.iter().map(sp).collect::<Vec<_>>().join(" | "));
    cx.key(&d);
    cx.sample(|| d.clone());
    let (r, q) = cx.call("divide", || d.clone(), || Computer::<C, O>::divide(&f, &gs))?;
    let so = cx.call("sort_terms", || d.clone(), || Computer::<C, O>::sort_terms(&f))?;
    let sr = match gs.first() {
        Some(g) => cx.call("try_reduce", || d.clone(), || Computer::<C, O>::try_reduce(&f, g))?,
        None => None,
    };
    let mut all = vec![("remainder", r), ("sorted", so)];
    all.extend(q.into_iter().map(|q| ("quotient", q)));
    all.extend(sr.into_iter().map(|q| ("S-polynomial", q)));
    for (what, p) in &all {
        let r = clean(p);
        ck!(cx, r.is_ok(), "poly:clean-comp", "{} of {} is {}: {}", what, d, sp(p), r.unwrap_err());
    }
    Ok(())
}

// ------------------------------------------------------------ P03 evaluation

/// equal, or (inexact fields) within a generous rounding bound relative to the
/// sum of the magnitudes involved
fn near<C: Coef>(got: &C, want: &C::M, scale: f64) -> bool {
    match (got.m(), C::EPS) {
        (None, _) => false,
        (Some(g), None) => g == *want,
        (Some(g), Some(eps)) => (C::approx(&g) - C::approx(want)).abs() <= 256.0 * eps * scale,
    }
}
fn mag<C: Coef>(p: &MPoly<C::M>, x: &[C::M]) -> f64 {
    p.0.iter().map(|(m, c)| m.iter().enumerate().fold(C::approx(c).abs(), |a, (i, &e)| a * C::approx(&x[i]).abs().powi(e as i32))).sum()
}

fn p03<C: Coef>(cx: &mut Ctx) -> Res {
    let huge = C::NAME == "Fp" && cx.rng.chance(1, 400);
    let mut s = if huge { huge_shape(&mut cx.rng) } else { shape(&mut cx.rng) };
    let float = C::NAME == "f64" || C::NAME == "f32";
    if C::NAME != "Fp" {
        s.deg = s.deg.min(if float { 3 } else { 4 });
        s.vars = s.vars.min(4);
        s.terms = s.terms.min(6);
    }
    let p: Polynomial<C> = gen_poly(&mut cx.rng, s);
    let mut q: Polynomial<C> = gen_poly_near(&mut cx.rng, s, &p);
    if huge {
        q.terms.truncate(3);
        cx.tag_if(p.terms.len() > 256, "more than 256 terms");
    }
    let need = p.terms.iter().chain(&q.terms).map(|t| t.mdeg.0.len()).max().unwrap_or(0);
    let len = need + if cx.rng.chance(1, 2) { 0 } else { cx.rng.below(3) };
    let x: Vec<C> = (0..len)
        .map(|_| if float { C::from_m(&C::unit(&mut cx.rng).m().unwrap()) } else { C::small(&mut cx.rng) })
        .collect();
    let d = format!("[{}] {} at {:?}", C::NAME, sp(&p), x);
    cx.key(&d);
    cx.sample(|| d.clone());
    let bad = || Fail::Skip("operand is not a number");
    let mx: Vec<C::M> = x.iter().map(|v| v.m()).collect::<Option<Vec<_>>>().ok_or_else(bad)?;
    let (a, b) = (mp(&p).ok_or_else(bad)?, mp(&q).ok_or_else(bad)?);
    // coefficients of the model must be reachable without rounding
    let want = a.eval(&mx);
    let (sa, sb) = (mag::<C>(&a, &mx), mag::<C>(&b, &mx));
    cx.strict = C::NAME == "Fp";
    let got = cx.call("eval", || d.clone(), || p.eval(&x))?;
    ck!(cx, near(&got, &want, sa), "eval:value", "value of {} is {} instead of {:?}", d, got, want);
    cx.tag_if(p.terms.is_empty(), "zero polynomial");
    for t in &p.terms {
        let g = cx.call("term eval", || format!("{} at {:?}", st(t), x), || t.eval(&x))?;
        let w = mt(t).ok_or_else(bad)?;
        ck!(cx, near(&g, &w.eval(&mx), mag::<C>(&w, &mx)), "eval:term", "value of {} at {:?} is {}", st(t), x, g);
    }
    // ring homomorphism
    let wb = b.eval(&mx);
    if C::NAME == "Fp" && !deg_safe(&[&p, &q], &[]) {
        cx.strict = false;
    }
    let sum = cx.call("eval of sum", || d.clone(), || (&p + &q).eval(&x))?;
    ck!(cx, near(&sum, &want.add(&wb), sa + sb), "eval:sum", "({}) + ({}) at {:?} is {} instead of {:?}", sp(&p), sp(&q), x, sum, want.add(&wb));
    let prod = cx.call("eval of product", || d.clone(), || (&p * &q).eval(&x))?;
    ck!(cx, near(&prod, &want.mul(&wb), sa * sb), "eval:product", "({}) * ({}) at {:?} is {} instead of {:?}", sp(&p), sp(&q), x, prod, want.mul(&wb));
    // a point with too few coordinates is refused
    let np = p.terms.iter().map(|t| t.mdeg.0.len()).max().unwrap_or(0);
    if np > 0 {
        let k = cx.rng.below(np);
        cx.must_panic("evaluation at a short point", || format!("{} at {:?}", sp(&p), &x[..k]), || p.eval(&x[..k]))?;
        cx.tag("short point refused");
    }
    Ok(())
}

// ------------------------------------------------------------ P04 terms

fn p04<C: Coef>(cx: &mut Ctx) -> Res {
    let mut s = shape(&mut cx.rng);
    if cx.rng.chance(1, 4) {
        // all exponents a monomial can have
        s.vars = cx.rng.usz(1, 24);
        s.deg = 255;
    }
    let t: Term<C> = if cx.rng.chance(1, 12) { Term { coef: C::ZERO, mdeg: MultiDegree(vec![]) } } else { term(gen_coef(&mut cx.rng, s.wide), &gen_mono(&mut cx.rng, s.vars, s.deg)) };
    let m = match cx.rng.below(3) {
        0 => model::trim(mono(&t.mdeg).iter().map(|&e| cx.rng.below(e as usize + 1) as u32).collect()),
        _ => gen_near(&mut cx.rng, &mono(&t.mdeg), s.vars, s.deg),
    };
    let u: Term<C> = if cx.rng.chance(1, 12) { Term { coef: C::ZERO, mdeg: MultiDegree(vec![]) } } else { term(if C::NAME.starts_with('f') { C::unit(&mut cx.rng) } else { gen_coef(&mut cx.rng, s.wide) }, &m) };
    let d = format!("[{}] {}, {}", C::NAME, st(&t), st(&u));
    cx.key(&d);
    cx.sample(|| d.clone());
    let bad = || Fail::Skip("operand is not a number");
    let (ct, cu) = (t.coef.m().ok_or_else(bad)?, u.coef.m().ok_or_else(bad)?);
    let (mt_, mu) = (mono(&t.mdeg), mono(&u.mdeg));
    cx.strict = true;
    let zeros = cx.call("is_zero", || d.clone(), || (t.is_zero(), u.is_zero(), t == u, t == t.clone()))?;
    ck!(cx, zeros == (ct.is_zero(), cu.is_zero(), ct == cu && mt_ == mu, true), "term:predicates", "is_zero/== on {} = {:?}", d, zeros);
    let got = cx.call("try_div", || d.clone(), || t.try_div(&u))?;
    if ct.is_zero() {
        let ok = got.as_ref().map_or(false, |g| g.coef.m().map_or(false, |c| c.is_zero()));
        ck!(cx, ok, "term:div-zero", "0 divided by {} = {:?}", st(&u), got.as_ref().map(st));
    } else if cu.is_zero() {
        ck!(cx, got.is_none(), "term:div-by-zero", "{} divided by 0 = {:?}", st(&t), got.as_ref().map(st));
    } else {
        let want = mono_div(&mt_, &mu).map(|m| (m, ct.mul(&cu.inv())));
        let g = got.as_ref().map(|g| (mono(&g.mdeg), g.coef.m()));
        ck!(cx, g == want.clone().map(|(m, c)| (m, Some(c))), "term:div", "{} divided by {} = {:?}", st(&t), st(&u), got.as_ref().map(st));
        cx.tag_if(want.is_some(), "divisible");
        let dv = cx.call("divides", || d.clone(), || (u.divides(&t), t.divides(&u)))?;
        ck!(cx, dv == (mono_divides(&mu, &mt_), mono_divides(&mt_, &mu)), "term:divides", "divisibility of {} = {:?}", d, dv);
        if let Some(g) = got {
            let back = cx.call("quotient * divisor", || d.clone(), || &g * &u)?;
            ck!(cx, mt(&back) == mt(&t), "term:div-mul", "({} / {}) * {} = {}", st(&t), st(&u), st(&u), st(&back));
        }
    }
    macro_rules! lcm {
        ($O:ty) => {
            cx.call("monic_lcm", || d.clone(), || Computer::<C, $O>::monic_lcm(&t, &u))?
        };
    }
    let l = match cx.rng.below(4) {
        0 => lcm!(Lex),
        1 => lcm!(RevLex),
        2 => lcm!(GrLex),
        _ => lcm!(GRevLex),
    };
    if !ct.is_zero() && !cu.is_zero() {
        let w = mono_lcm(&mt_, &mu);
        ck!(cx, l.coef.m() == Some(C::M::one()) && mono(&l.mdeg) == w, "term:lcm", "monic lcm of {} = {}", d, st(&l));
        // least: product / lcm is the gcd
        cx.tag_if(w != mono_mul(&mt_, &mu), "not coprime");
    }
    Ok(())
}

macro_rules! per_field {
    ($f:ident) => {
        vec![
            random(concat!(stringify!($f), " Rational"), 5, $f::<Rational>),
            random(concat!(stringify!($f), " F2"), 1, $f::<F2>),
            random(concat!(stringify!($f), " F7"), 2, $f::<F7>),
            random(concat!(stringify!($f), " F32003"), 3, $f::<F32003>),
            random(concat!(stringify!($f), " F2^61-1"), 1, $f::<FM61>),
            random(concat!(stringify!($f), " f64"), 3, $f::<f64>),
            random(concat!(stringify!($f), " f32"), 1, $f::<f32>),
        ]
    };
}

pub fn props() -> Vec<Prop> {
    let s1 = when!("P01", {
        let mut s = per_field!(p01);
        s.push(random("history Rational", 3, p01_history::<Rational>));
        s.push(random("history F7", 2, p01_history::<F7>));
        s.push(random("history F32003", 2, p01_history::<F32003>));
        s.push(random("comp Rational lex", 1, p01_comp::<Rational, Lex>));
        s.push(random("comp F7 grevlex", 1, p01_comp::<F7, GRevLex>));
        s.push(random("comp F32003 grlex", 1, p01_comp::<F32003, GrLex>));
        s.push(random("comp F101 revlex", 1, p01_comp::<F101, RevLex>));
        s.push(random("scaled f64", 1, scale::p01::<f64>));
        s
    });
    let s2 = when!("P02", {
        let mut s = per_field!(p02);
        s.push(random("history Rational", 3, p02_history::<Rational>));
        s.push(random("history F7", 2, p02_history::<F7>));
        s.push(random("history F32003", 2, p02_history::<F32003>));
        s.push(random("scaled f64", 1, scale::p02::<f64>));
        s.push(random("scaled f32", 1, scale::p02::<f32>));
        s
    });
    
vec![
        Prop {
            id: "P01",
            rule: "random ring operations in every operand form (owned/borrowed, polynomial/term/scalar), constructors given zero terms, histories of operations, division/S-polynomial outputs, over Rational, prime fields, f32/f64; second operands share monomials and cancel. Every result is checked for zero coefficients, duplicate monomials, trailing zeros, and for agreement of the zero test with the exact value. Distinct = distinct (field, expression).",
            streams: s1,
            quick: 800_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "P02",
            rule: "as P01, every result compared as an element of the ring with an independent map-based model over exact arithmetic. Distinct = distinct (field, expression).",
            streams: s2,
            quick: 800_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "P03",
            rule: "random polynomial pairs and points (also longer than needed, and too short), over Rational, prime fields, f32/f64 with dyadic points; oracle: evaluation of the model in exact arithmetic, evaluation of sums and products. Distinct = distinct (field, polynomial, point).",
            streams: when!("P03", {
                let mut s = per_field!(p03);
                s.push(random("scaled f64", 1, scale::p03::<f64>));
                s.push(random("scaled f32", 1, scale::p03::<f32>));
                s
            }),
            quick: 500_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "P04",
            rule: "random pairs of terms (planted divisors, zero terms, degrees up to 120); oracle: exact coefficient quotient and componentwise exponent arithmetic. Distinct = distinct (field, pair).",
            streams: when!("P04", per_field!(p04)),
            quick: 1_500_000,
            min_distinct: 10_000,
        },
    ]
}

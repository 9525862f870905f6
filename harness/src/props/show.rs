//! P05: printed forms determine the value.

use super::mdeg::{gen_mono, gen_near, md};
use super::poly::{mp, sp, term};
use crate::{ck, when};
use crate::fields::*;
use crate::model::{trim, MPoly, Mono, Q};
use crate::rt::*;
use algeo::core::num::{Integer, Rational};
use algeo::linalg::mat::Mat;
use algeo::poly::elts::{Polynomial, Term};

fn sup(c: char) -> Option<u32> {
    "⁰¹²³⁴⁵⁶⁷⁸⁹".chars().position(|d| d == c).map(|d| d as u32)
}

/// reads a monomial; empty text is the monomial 1
fn read_mono(s: &[char], i: &mut usize) -> Option<Mono> {
    if s.get(*i) == Some(&'X') {
        let e = s[*i..].iter().position(|&c| c == ']')? + *i;
        let inner: String = s[*i + 1..e].iter().collect();
        *i = e + 1;
        let inner = inner.strip_prefix('[')?;
        return inner.split(',').map(|w| w.trim().parse::<u32>().ok()).collect();
    }
    let mut m = vec![0u32; 6];
    while let Some(k) = s.get(*i).and_then(|&c| "xyzuvw".chars().position(|d| d == c)) {
        *i += 1;
        let mut e = 0u32;
        let mut digits = 0;
        while let Some(d) = s.get(*i).and_then(|&c| sup(c)) {
            e = e.checked_mul(10)?.checked_add(d)?;
            digits += 1;
            *i += 1;
        }
        if m[k] != 0 {
            return None;
        }
        m[k] = if digits == 0 { 1 } else { e };
        if m[k] == 0 {
            return None;
        }
    }
    Some(trim(m))
}

pub trait Text: Coef {
    /// reads a coefficient without sign; None if there is none
    fn read(s: &str) -> Option<Self>;
    fn negate(self) -> Self;
    fn any(r: &mut Rng) -> Self;
}
fn isnum(c: char) -> bool {
    c.is_ascii_digit() || c == '.' || c == '/' || c == 'e' || c == 'E'
}
impl Text for Rational {
    fn read(s: &str) -> Option<Self> {
        let (n, d) = match s.split_once('/') {
            Some((n, d)) => (n.parse::<i64>().ok()?, d.parse::<i64>().ok()?),
            None => (s.parse::<i64>().ok()?, 1),
        };
        if d == 0 {
            return None;
        }
        Some(Rational { numer: Integer(n), denom: Integer(d) })
    }
    fn negate(self) -> Self {
        Rational { numer: Integer(-self.numer.0), denom: self.denom }
    }
    fn any(r: &mut Rng) -> Self {
        let k = *r.pick(&[3, 8, 20, 40, 62]);
        let n = r.int(k);
        let d = r.int(k).abs().max(1);
        match r.below(5) {
            0 => rat(n, 1),
            1 => rat(1, 1),
            2 => rat(-1, 1),
            _ => rat(n, d),
        }
    }
}
impl Text for f64 {
    fn read(s: &str) -> Option<Self> {
        s.parse().ok()
    }
    fn negate(self) -> Self {
        -self
    }
    fn any(r: &mut Rng) -> Self {
        match r.below(6) {
            0 => 1.0,
            1 => -1.0,
            2 => r.range(-20, 20) as f64,
            3 => r.int(50) as f64 / 16.0,
            4 => r.range(-1000, 1000) as f64 / 10.0,
            _ => loop {
                let x = f64::from_bits(r.u64());
                if x.is_finite() {
                    break x;
                }
            },
        }
    }
}
impl<const P: u64> Text for Fp<P> {
    fn read(s: &str) -> Option<Self> {
        let v = s.parse::<u64>().ok()?;
        if v < P {
            Some(Fp(v))
        } else {
            None
        }
    }
    fn negate(self) -> Self {
        -self
    }
    fn any(r: &mut Rng) -> Self {
        <Self as Coef>::small(r)
    }
}

/// reads one term, sign included
fn read_term<C: Text>(s: &[char], i: &mut usize) -> Option<(C, Mono)> {
    let neg = s.get(*i) == Some(&'-');
    if neg {
        *i += 1;
    }
    let st = *i;
    while *i < s.len() && isnum(s[*i]) {
        *i += 1;
    }
    let num: String = s[st..*i].iter().collect();
    let m = read_mono(s, i)?;
    let c = if num.is_empty() {
        if m.is_empty() {
            return None;
        }
        C::ONE
    } else {
        C::read(&num)?
    };
    Some((if neg { Text::negate(c) } else { c }, m))
}
fn read_poly<C: Text>(s: &str) -> Option<Vec<(C, Mono)>> {
    let v: Vec<char> = s.chars().filter(|c| !c.is_whitespace() || *c == ' ').collect();
    // the blanks inside X[1, 2] are no separators
    let mut t = Vec::new();
    let mut depth = 0;
    for c in v {
        if c == '[' {
            depth += 1
        }
        if c == ']' {
            depth -= 1
        }
        if !(depth > 0 && c == ' ') {
            t.push(c)
        }
    }
    let mut i = 0;
    let mut out = vec![read_term(&t, &mut i)?];
    while i < t.len() {
        let sep: String = t[i..].iter().take(3).collect();
        let neg = match sep.as_str() {
            " + " => false,
            " - " => true,
            _ => return None,
        };
        i += 3;
        let (c, m): (C, Mono) = read_term(&t, &mut i)?;
        out.push((if neg { Text::negate(c) } else { c }, m));
    }
    Some(out)
}

fn gen<C: Text>(r: &mut Rng) -> Vec<(C, Mono)> {
    let (nv, dg) = *r.pick(&[(1, 12), (2, 4), (3, 3), (4, 30), (5, 255), (5, 9), (6, 5), (7, 255), (9, 3), (12, 255)]);
    let (nv, dg) = if r.chance(1, 30) { *r.pick(&[(20, 3), (40, 255), (70, 2), (300, 1)]) } else { (nv, dg) };
    let n = if r.chance(1, 40) { 6 + r.below(40) } else { r.below(6) };
    let mut ms: Vec<Mono> = vec![gen_mono(r, nv, dg)];
    for _ in 0..n {
        let l = ms.last().unwrap().clone();
        let m = gen_near(r, &l, nv, dg);
        if !ms.contains(&m) {
            ms.push(m);
        }
    }
    ms.into_iter()
        .map(|m| {
            let c = loop {
                let c = C::any(r);
                if c != C::ZERO {
                    break c;
                }
            };
            (c, m)
        })
        .collect()
}
fn same<C: Text>(a: &[(C, Mono)], b: &[(C, Mono)]) -> bool {
    // as sets of terms; coefficients bit for bit
    a.len() == b.len() && a.iter().all(|(c, m)| b.iter().filter(|(d, n)| m == n && c == d).count() == 1)
}
fn zero_or<C: Text>(v: Vec<(C, Mono)>) -> Vec<(C, Mono)> {
    v.into_iter().filter(|(c, _)| *c != C::ZERO).collect()
}

fn show_term<C: Text>(cx: &mut Ctx) -> Res {
    cx.strict = true;
    let (c, m) = gen::<C>(&mut cx.rng).remove(0);
    let t: Term<C> = term(c, &m);
    let s = cx.call("display", || format!("{} {:?}", c, m), || format!("{}", t))?;
    cx.key(&s);
    cx.sample(|| s.clone());
    let v: Vec<char> = s.chars().collect();
    let mut i = 0;
    // blanks occur inside X[..] only
    let back = read_term::<C>(&v, &mut i);
    ck!(cx, i == v.len() && back == Some((c, m.clone())), "show:term", "[{}] term {:?} * X{:?} prints as `{}`, which reads as {:?}", C::NAME, c, m, s, back);
    if !m.is_empty() {
        let u = md(&m);
        let s = cx.call("display", || format!("{:?}", m), || format!("{}", u))?;
        let v: Vec<char> = s.chars().collect();
        let mut i = 0;
        let back = read_mono(&v, &mut i);
        ck!(cx, i == v.len() && back == Some(m.clone()), "show:mdeg", "multidegree {:?} prints as `{}`, which reads as {:?}", m, s, back);
    }
    Ok(())
}
fn show_poly_of<C: Text>(cx: &mut Ctx, f: fn(&Polynomial<C>) -> String) -> Res {
    cx.strict = true;
    let mut ts = gen::<C>(&mut cx.rng);
    if cx.rng.chance(1, 100) {
        ts.clear();
    }
    let p: Polynomial<C> = Polynomial { terms: ts.iter().map(|(c, m)| term(*c, m)).collect() };
    let s = cx.call("display", || sp(&p), || f(&p))?;
    cx.key(&s);
    cx.sample(|| s.clone());
    cx.tag_if(ts.iter().any(|t| t.1.len() > 5), "more than five variables");
    cx.tag_if(ts.iter().any(|t| t.1.iter().any(|&e| e > 9)), "exponent of several digits");
    let back = read_poly::<C>(&s).map(zero_or);
    ck!(cx, back.as_ref().map_or(false, |b| same(b, &ts)), "show:poly", "[{}] polynomial {} prints as `{}`, which reads as {:?}", C::NAME, sp(&p), s, back);
    Ok(())
}
fn poly_q(cx: &mut Ctx) -> Res {
    show_poly_of::<Rational>(cx, |p| format!("{}", p))
}
fn poly_f(cx: &mut Ctx) -> Res {
    show_poly_of::<f64>(cx, |p| format!("{}", p))
}
/// the printed form of a computed product reads back as the product
fn computed(cx: &mut Ctx) -> Res {
    let s = super::poly::Shape { vars: 3, deg: 3, terms: 4, wide: false };
    let p: Polynomial<Rational> = super::poly::gen_poly(&mut cx.rng, s);
    let q: Polynomial<Rational> = super::poly::gen_poly_near(&mut cx.rng, s, &p);
    let d = format!("({})({})", sp(&p), sp(&q));
    let (a, b, t) = cx.call("display of product", || d.clone(), || (p.to_string(), q.to_string(), (&p * &q).to_string()))?;
    cx.key(&d);
    cx.sample(|| format!("({})({}) = {}", a, b, t));
    let val = |s: &str| -> Option<MPoly<Q>> {
        let mut r = MPoly::zero();
        for (c, m) in read_poly::<Rational>(s)? {
            r.add_term(&m, &c.m()?);
        }
        Some(r)
    };
    let (x, y, z) = (val(&a), val(&b), val(&t));
    ck!(cx, x == mp(&p) && y == mp(&q) && x.is_some(), "show:operands", "{} and {} print as `{}` and `{}`", sp(&p), sp(&q), a, b);
    ck!(cx, z == Some(x.unwrap().mul(&y.unwrap())), "show:product", "({})({}) = {} is printed, which is not so", a, b, t);
    Ok(())
}
fn numbers(cx: &mut Ctx) -> Res {
    cx.strict = true;
    let k = *cx.rng.pick(&[4, 10, 31, 63, 64]);
    let n = cx.rng.int(k);
    let s = cx.call("display", || n.to_string(), || format!("{}", Integer(n)))?;
    ck!(cx, s.parse::<i64>() == Ok(n), "show:int", "the integer {} prints as `{}`", n, s);
    let r = <Rational as Text>::any(&mut cx.rng);
    let s = cx.call("display", || format!("{:?}", r), || format!("{}", r))?;
    cx.key(&format!("{} {}", n, s));
    cx.sample(|| s.clone());
    let back = match s.strip_prefix('-') {
        Some(t) => Rational::read(t).map(|r| r.negate()),
        None => Rational::read(&s),
    };
    let ok = back.map_or(false, |b| b.numer.0 == r.numer.0 && b.denom.0 == r.denom.0);
    ck!(cx, ok, "show:rational", "the rational {}/{} prints as `{}`", r.numer.0, r.denom.0, s);
    Ok(())
}
fn matrices(cx: &mut Ctx) -> Res {
    cx.strict = true;
    let top = if cx.rng.chance(1, 30) { 70 } else { 6 };
    let (r, c) = (cx.rng.usz(1, top), cx.rng.usz(1, 6));
    let (r, c) = if cx.rng.chance(1, 2) { (c, r) } else { (r, c) };
    let e: Vec<f64> = (0..r * c).map(|_| <f64 as Text>::any(&mut cx.rng)).collect();
    let m = Mat::new(r, c, e.clone());
    let s = cx.call("display", || format!("{}x{} {:?}", r, c, e), || format!("{}", m))?;
    cx.key(&s);
    cx.sample(|| s.clone());
    let rows: Vec<Option<Vec<f64>>> = s
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.trim().trim_start_matches('[').trim_end_matches(']').split(',').map(|w| w.trim().parse::<f64>().ok()).collect())
        .collect();
    let want: Vec<Option<Vec<f64>>> = e.chunks(c).map(|r| Some(r.to_vec())).collect();
    ck!(cx, rows == want, "show:mat", "the {}x{} matrix {:?} prints as `{}`", r, c, e, s);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P05",
        rule: "random numbers, terms, multidegrees, polynomials (up to 12 variables, exponents up to 255, extreme coefficients), products and matrices; the printed text is read back by an independent parser and must give the same value. Distinct = distinct printed texts.",
        streams: when!("P05", vec![
            random("polynomial Rational", 3, poly_q),
            random("polynomial f64", 2, poly_f),
            random("term Rational", 1, show_term::<Rational>),
            random("term f64", 1, show_term::<f64>),
            random("term F7", 1, show_term::<F7>),
            random("product", 1, computed),
            random("number", 1, numbers),
            random("matrix", 1, matrices),
        ]),
        quick: 900_000,
        min_distinct: 10_000,
    }]
}

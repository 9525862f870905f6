//! N01..N06: integers, rationals, number traits.

use crate::{ck, when};
use crate::fields::{is_canonical, qof, rat, Coef, F32003, F7};
use crate::model::{gcd128, Ring, Q};
use crate::rt::*;
use algeo::core::num::{EpsilonEquality, Field, Integer, One, Rational, Zero};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

const MIN: i64 = i64::MIN;

fn fits(x: i128) -> bool {
    x >= MIN as i128 && x <= i64::MAX as i128
}

/// exact value, or a panic when the value does not fit
fn exact_or_panic(cx: &mut Ctx, what: &'static str, desc: &str, want: Option<i128>, may_panic: bool, f: impl FnOnce() -> Integer) -> Res {
    let r = cx.try_call(f);
    match (want, r) {
        (Some(w), Ok(v)) if fits(w) => {
            ck!(cx, v.0 as i128 == w, format!("{}:value", what), "{} on {} = {} instead of {}", what, desc, v.0, w);
        }
        (Some(w), Err(p)) if fits(w) => {
            ck!(cx, may_panic, format!("{}:panic", what), "{} on {} panicked ({}) instead of returning {}", what, desc, p.0, w);
        }
        (_, Ok(v)) => {
            ck!(cx, false, format!("{}:wrapped", what), "{} on {} = {}, but the exact result does not exist in 64 bits ({:?})", what, desc, v.0, want);
        }
        (_, Err(_)) => {
            cx.checks += 1;
            cx.tag("unrepresentable result refused");
        }
    }
    Ok(())
}

fn int_case(cx: &mut Ctx, a: i64, b: i64) -> Res {
    let (x, y) = (Integer(a), Integer(b));
    let d = format!("({}, {})", a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    let (p, q) = (a as i128, b as i128);
    exact_or_panic(cx, "add", &d, Some(p + q), false, || x + y)?;
    exact_or_panic(cx, "sub", &d, Some(p - q), false, || x - y)?;
    exact_or_panic(cx, "mul", &d, p.checked_mul(q), false, || x * y)?;
    exact_or_panic(cx, "div", &d, p.checked_div(q), false, || x / y)?;
    exact_or_panic(cx, "rem", &d, p.checked_rem(q), a == MIN && b == -1, || x % y)?;
    exact_or_panic(cx, "neg", &d, Some(-p), false, || -x)?;
    exact_or_panic(cx, "abs", &d, Some(p.abs()), false, || x.abs())?;
    exact_or_panic(cx, "sgn", &d, Some(p.signum()), false, || x.sgn())?;
    let preds = cx.call("predicates", || d.clone(), || (x.is_pos(), x.is_neg(), x.is_zero(), x.is_one(), x == y, x.cmp(&y), x.partial_cmp(&y), Integer::from(a).0, Integer::default().0))?;
    ck!(
        cx,
        preds == (a > 0, a < 0, a == 0, a == 1, a == b, a.cmp(&b), Some(a.cmp(&b)), a, 0),
        "int-predicates",
        "sign/zero/order predicates of {} are {:?}",
        d,
        preds
    );
    Ok(())
}

fn int_sweep(cx: &mut Ctx, i: u64) -> Res {
    let (a, b) = ((i / 61) as i64 - 30, (i % 61) as i64 - 30);
    int_case(cx, a, b)
}
fn int_random(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[8, 16, 31, 32, 33, 62, 63, 64, 64]);
    let a = cx.rng.int(bits);
    let b = match cx.rng.below(8) {
        0 => a,
        1 => a.wrapping_neg(),
        2 => MIN.wrapping_sub(a),
        3 => i64::MAX.wrapping_sub(a).wrapping_add(cx.rng.range(-1, 1)),
        4 if a != 0 => (i64::MAX as i128 / a as i128) as i64,
        _ => cx.rng.int(bits),
    };
    int_case(cx, a, b)
}
fn int_pow(cx: &mut Ctx) -> Res {
    let (a, e) = match cx.rng.below(8) {
        0 => (*cx.rng.pick(&[0i64, 1, -1]), cx.rng.below(1 << 32) as i64),
        1 => (*cx.rng.pick(&[0i64, 1, -1]), *cx.rng.pick(&[0i64, 1, 2, 4294967295, 2147483648, 2147483647, 65536])),
        2 => (*cx.rng.pick(&[2i64, -2, 3, -3, 10, -10, 4, 8]), cx.rng.range(0, 66)),
        3 => (cx.rng.int(64), cx.rng.range(0, 2)),
        4 => (cx.rng.int(21), cx.rng.range(2, 4)),
        _ => (cx.rng.int(10), cx.rng.range(0, 40)),
    };
    let want = if a == 0 || a == 1 || a == -1 {
        Some(if e == 0 { 1 } else if a == -1 { if e % 2 == 0 { 1 } else { -1 } } else { a as i128 })
    } else {
        (a as i128).checked_pow(e as u32)
    };
    let d = format!("({}, {})", a, e);
    cx.key(&format!("p{}", d));
    cx.sample(|| format!("pow {}", d));
    cx.tag_if(want.map_or(false, fits), "power fits");
    exact_or_panic(cx, "pow", &d, want, false, || Integer(a).pow(Integer(e)))
}

// ------------------------------------------------------------ gcd / lcm

fn gcd_case(cx: &mut Ctx, a: i64, b: i64) -> Res {
    let d = format!("({}, {})", a, b);
    cx.key(&d);
    let (x, y) = (Integer(a), Integer(b));
    let g = gcd128(a as i128, b as i128);
    let edge = a == MIN || b == MIN;
    exact_or_panic(cx, "gcd", &d, Some(g), false, || Integer::gcd(x, y))?;
    let l = if a == 0 || b == 0 { Some(0) } else { (a as i128).unsigned_abs().checked_div(g as u128).and_then(|v| v.checked_mul((b as i128).unsigned_abs())).and_then(|v| i128::try_from(v).ok()) };
    exact_or_panic(cx, "lcm", &d, l, edge, || Integer::lcm(x, y))?;
    cx.tag_if(g > 1, "gcd > 1");
    cx.tag_if(l.map_or(false, fits), "lcm representable");
    cx.sample(|| format!("{} gcd {} lcm {:?}", d, g, l));
    Ok(())
}
fn gcd_sweep(cx: &mut Ctx, i: u64) -> Res {
    gcd_case(cx, (i / 121) as i64 - 60, (i % 121) as i64 - 60)
}
fn gcd_random(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[6, 10, 20, 31, 32, 40, 62, 63, 64]);
    let (a, b) = match cx.rng.below(8) {
        // shared factor
        0 | 1 | 2 => {
            let k = *cx.rng.pick(&[4, 10, 16, 24, 31]);
            let g = cx.rng.int(k);
            let (x, y) = (cx.rng.int(62 - k), cx.rng.int(62 - k));
            (x.wrapping_mul(g), y.wrapping_mul(g))
        }
        // consecutive Fibonacci numbers: longest Euclid runs
        3 => {
            let (mut x, mut y) = (1i64, 1i64);
            for _ in 0..cx.rng.below(88) {
                let t = x + y;
                x = y;
                y = t;
            }
            if cx.rng.chance(1, 2) { (x, y) } else { (-y, x) }
        }
        // one divides the other
        4 => {
            let x = cx.rng.int(30);
            (x, x * cx.rng.int(30))
        }
        5 => {
            let edge = [MIN, MIN + 1, i64::MAX, -1, 1, 0, 2, -2, 3, 1 << 62];
            (*cx.rng.pick(&edge), *cx.rng.pick(&edge))
        }
        _ => (cx.rng.int(bits), cx.rng.int(bits)),
    };
    if cx.rng.chance(1, 2) {
        gcd_case(cx, a, b)?;
    } else {
        gcd_case(cx, b, a)?;
    }
    if cx.rng.chance(1, 6) {
        // again, with operands that nearly repeat the last ones
        for _ in 0..cx.rng.usz(1, 3) {
            let s = *cx.rng.pick(&[0, 8, 16, 31, 32, 33, 48, 62]);
            let (k, l) = (cx.rng.range(-2, 2).wrapping_shl(s), cx.rng.range(-2, 2).wrapping_shl(s));
            let (x, y) = match cx.rng.below(6) {
                0 => (a.wrapping_add(k), b),
                1 => (a, b.wrapping_add(k)),
                2 => (a.wrapping_add(k), b.wrapping_add(l)),
                3 => (a ^ k, b ^ k),
                4 => (b, a),
                _ => (a.wrapping_neg(), b),
            };
            gcd_case(cx, x, y)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------ rationals

fn gen_rat(cx: &mut Ctx, bits: u32) -> Rational {
    let n = cx.rng.int(bits);
    let mut d = cx.rng.int(bits);
    if d == MIN {
        d += 1;
    }
    d = d.abs();
    if d == 0 || cx.rng.chance(1, 5) {
        d = 1;
    }
    let n = if n == MIN { n + 1 } else { n };
    rat(n, d)
}
/// a second operand, often related to the first
fn gen_rel(cx: &mut Ctx, a: &Rational, bits: u32) -> Rational {
    let lim = if bits >= 63 { i64::MAX as i128 } else { (1i128 << bits) - 1 };
    let (n, d) = (a.numer.0 as i128, a.denom.0 as i128);
    let cand = match cx.rng.below(12) {
        0 => Q::new(n, d),
        1 => Q::new(-n, d),
        2 if n != 0 => Q::new(d, n),
        3 => Q::new(cx.rng.int(bits.min(16)) as i128, d),
        4 => Q::new(n + cx.rng.range(-2, 2) as i128, d),
        5 => Q::new(n, (d + cx.rng.range(-2, 2) as i128).max(1)),
        6 => {
            // denominators sharing a factor
            let k = cx.rng.range(1, 12) as i128;
            Q::new(cx.rng.int(bits.min(16)) as i128, d * k)
        }
        7 => Q::new(d - n, d),
        _ => return gen_rat(cx, bits),
    };
    if cand.n.abs() <= lim && cand.d <= lim {
        rat(cand.n as i64, cand.d as i64)
    } else {
        gen_rat(cx, bits)
    }
}

fn show(r: &Rational) -> String {
    format!("{}/{}", r.numer.0, r.denom.0)
}

fn rhash(r: &Rational) -> u64 {
    let mut h = DefaultHasher::new();
    r.hash(&mut h);
    h.finish()
}

fn small_mag(q: &Q, bits: u32) -> bool {
    q.n.abs() < (1 << bits) && q.d < (1 << bits)
}

/// One step of a random history over rationals: returns (name, exact result if
/// defined, result of the library).  None as exact result: must panic.
fn rat_step(cx: &mut Ctx, pool: &[Rational]) -> Result<(String, Option<Q>, Result<Rational, Panicked>, bool), Fail> {
    let a = *cx.rng.pick(pool);
    let b = *cx.rng.pick(pool);
    let (x, y) = (qof(&a).unwrap(), qof(&b).unwrap());
    let op = cx.rng.below(20);
    // |n|, d < 2^31 on both sides: the plain formulas cannot overflow
    let safe2 = small_mag(&x, 31) && small_mag(&y, 31);
    let two = format!("({}, {})", show(&a), show(&b));
    Ok(match op {
        0 => (format!("+ {}", two), Some(x.add(&y)), cx.try_call(|| a + b), safe2),
        1 => (format!("- {}", two), Some(x.sub(&y)), cx.try_call(|| a - b), safe2),
        2 => (format!("* {}", two), Some(x.mul(&y)), cx.try_call(|| a * b), safe2),
        3 => (format!("/ {}", two), if y.is_zero() { None } else { Some(x.mul(&y.inv())) }, cx.try_call(|| a / b), safe2),
        4 => (
            format!("+= {}", two),
            Some(x.add(&y)),
            cx.try_call(|| {
                let mut t = a;
                t += b;
                t
            }),
            safe2,
        ),
        5 => (
            format!("-= {}", two),
            Some(x.sub(&y)),
            cx.try_call(|| {
                let mut t = a;
                t -= b;
                t
            }),
            safe2,
        ),
        6 => (
            format!("*= {}", two),
            Some(x.mul(&y)),
            cx.try_call(|| {
                let mut t = a;
                t *= b;
                t
            }),
            safe2,
        ),
        7 => (
            format!("/= {}", two),
            if y.is_zero() { None } else { Some(x.mul(&y.inv())) },
            cx.try_call(|| {
                let mut t = a;
                t /= b;
                t
            }),
            safe2,
        ),
        8 => (format!("neg {}", show(&a)), Some(x.neg()), cx.try_call(|| -a), true),
        9 => (format!("recip {}", show(&a)), if x.is_zero() { None } else { Some(x.inv()) }, cx.try_call(|| a.recip()), true),
        10 => (format!("inv {}", show(&a)), if x.is_zero() { None } else { Some(x.inv()) }, cx.try_call(|| a.inv()), true),
        11 | 12 | 13 => {
            let e = match cx.rng.below(4) {
                0 => cx.rng.range(-3, 3),
                1 => cx.rng.range(-1, 1),
                2 if cx.rng.chance(1, 2) => {
                    // exponents around the ends of narrower types
                    let k = *cx.rng.pick(&[7u32, 8, 8, 15, 16, 16, 24, 30, 31]);
                    ((1i64 << k) + cx.rng.range(-4, 4)).min(i32::MAX as i64) * if cx.rng.chance(1, 3) { -1 } else { 1 }
                }
                _ => cx.rng.range(-40, 40),
            };
            let m = x.n.unsigned_abs().max(x.d as u128).max(2);
            // exact power if it can be formed at all
            let ok = (m as f64).ln() * (e.unsigned_abs() as f64) < 80.0;
            let want = if x.is_zero() && e < 0 {
                None
            } else if ok {
                let b = if e < 0 { x.inv() } else { x };
                Some(Ring::pow(&b, e.unsigned_abs() as u32))
            } else if x.n.abs() <= 1 && x.d == 1 {
                let b = if e < 0 && !x.is_zero() { x.inv() } else { x };
                Some(Ring::pow(&b, e.unsigned_abs() as u32))
            } else {
                return Ok((format!("pow {} {}", show(&a), e), None, cx.try_call(|| a.pow(Integer(e))), false));
            };
            let safe = want.map_or(true, |w| small_mag(&w, 62));
            let nm = format!("pow({}, {})", show(&a), e);
            match op {
                11 => (nm, want, cx.try_call(|| a.pow(Integer(e))), safe),
                12 => (nm, want, cx.try_call(|| a.powi(e as i32)), safe),
                _ => (nm, want, cx.try_call(|| a.powi32(e as i32)), safe),
            }
        }
        14 => {
            // constructors on unreduced arguments of any sign
            let (n, d) = match cx.rng.below(4) {
                0 => (cx.rng.int(63), cx.rng.int(63)),
                1 => (cx.rng.int(8), cx.rng.int(8)),
                _ => {
                    let g = cx.rng.int(12);
                    (cx.rng.int(40) * g, cx.rng.int(40) * g)
                }
            };
            let want = if d == 0 { None } else { Some(Q::new(n as i128, d as i128)) };
            let nm = format!("new({}, {})", n, d);
            if cx.rng.chance(1, 2) {
                (nm, want, cx.try_call(|| Rational::new_i64(n, d)), n != MIN && d != MIN)
            } else {
                (nm, want, cx.try_call(|| Rational::new(Integer(n), Integer(d))), n != MIN && d != MIN)
            }
        }
        15 => {
            let n = cx.rng.int(40);
            let nm = format!("int({})", n);
            let want = Some(Q::int(n as i128));
            match cx.rng.below(3) {
                0 => (nm, want, cx.try_call(|| Rational::new_int(Integer(n))), true),
                1 => (nm, want, cx.try_call(|| Rational::from(Integer(n))), true),
                _ => {
                    let k = cx.rng.chance(1, 2);
                    ("ZERO/ONE".into(), Some(Q::int(k as i128)), cx.try_call(|| if k { Rational::ONE } else { Rational::ZERO }), true)
                }
            }
        }
        16 | 17 => {
            let k = cx.rng.below(6);
            let v: Vec<Rational> = (0..k).map(|_| *cx.rng.pick(pool)).collect();
            let d = format!("{:?}", v.iter().map(show).collect::<Vec<_>>());
            let qs: Vec<Q> = v.iter().map(|r| qof(r).unwrap()).collect();
            if op == 16 {
                (format!("sum {}", d), Some(qs.iter().fold(Q::zero(), |s, q| s.add(q))), cx.try_call(|| v.iter().copied().sum()), v.iter().all(|r| small_mag(&qof(r).unwrap(), 10)) && k <= 5)
            } else {
                (format!("product {}", d), Some(qs.iter().fold(Q::one(), |s, q| s.mul(q))), cx.try_call(|| v.iter().copied().product()), v.iter().all(|r| small_mag(&qof(r).unwrap(), 10)) && k <= 5)
            }
        }
        18 => (format!("max {}", two), Some(if x.cmp(&y) == Ordering::Less { y } else { x }), cx.try_call(|| a.max(b)), safe2),
        _ => (format!("min {}", two), Some(if x.cmp(&y) == Ordering::Greater { y } else { x }), cx.try_call(|| a.min(b)), safe2),
    })
}

fn bits_for(cx: &mut Ctx) -> u32 {
    *cx.rng.pick(&[2, 4, 8, 10, 12, 16, 20, 31, 31, 32, 40, 62, 63])
}

/// history over a pool of rationals; `mode` selects what is judged
fn rat_history(cx: &mut Ctx, canon: bool) -> Res {
    let bits = bits_for(cx);
    let k = cx.rng.usz(1, 4);
    let mut pool: Vec<Rational> = (0..k).map(|_| gen_rat(cx, bits)).collect();
    let r = gen_rel(cx, &pool[0].clone(), bits);
    pool.push(r);
    let steps = cx.rng.usz(1, 16);
    let mut log = String::new();
    for r in &pool {
        log.push_str(&show(r));
        log.push(' ');
    }
    for _ in 0..steps {
        let (name, want, got, safe) = rat_step(cx, &pool)?;
        log.push_str("; ");
        log.push_str(&name);
        match got {
            Ok(r) => {
                if canon {
                    ck!(cx, is_canonical(&r), "rational:canonical", "{} gave {} (not in lowest terms with positive denominator); history: {}", name, show(&r), log);
                    for s in &pool {
                        let same = qof(s) == qof(&r);
                        ck!(cx, (*s == r) == same && (r == *s) == same && (r != *s) != same, "rational:eq", "{} == {} is {}; history: {}", show(s), show(&r), *s == r, log);
                        ck!(cx, !same || rhash(s) == rhash(&r), "rational:hash", "equal rationals {} and {} hash differently", show(s), show(&r));
                    }
                    let z = cx.call("is_zero/is_one", || show(&r), || (r.is_zero(), r.is_one(), r == Rational::ZERO, r == Rational::ONE, r.sgn().0))?;
                    let q = qof(&r).unwrap();
                    ck!(cx, z == (q.n == 0, q == Q::int(1), q.n == 0, q == Q::int(1), q.n.signum() as i64), "rational:zero-one", "is_zero/is_one/sgn of {} = {:?}", show(&r), z);
                } else {
                    match (&want, qof(&r)) {
                        (Some(w), Some(q)) => ck!(cx, *w == q, "rational:value", "{} = {} instead of {}/{}; history: {}", name, show(&r), w.n, w.d, log),
                        (None, _) if name.starts_with("pow ") => {
                            ck!(cx, false, "rational:wrapped", "{} = {}, but the exact result cannot be represented", name, show(&r));
                        }
                        _ => ck!(cx, false, "rational:undefined", "{} returned {} although the result does not exist; history: {}", name, show(&r), log),
                    }
                }
                cx.tag_if(r.denom.0 != 1, "proper fraction results");
                let n = pool.len();
                if is_canonical(&r) && r.numer.0 != MIN {
                    if n < 6 {
                        pool.push(r);
                    } else {
                        let i = cx.rng.below(n);
                        pool[i] = r;
                    }
                }
            }
            Err(p) => {
                if !canon {
                    match want {
                        None => cx.tag("undefined result refused"),
                        Some(w) => {
                            ck!(cx, !safe, "rational:panic", "{} panicked ({}) instead of returning {}/{}; history: {}", name, p.0, w.n, w.d, log);
                            cx.tag("overflow refused");
                        }
                    }
                } else {
                    cx.tag("step refused");
                }
            }
        }
    }
    cx.key(&log);
    cx.sample(|| log.clone());
    Ok(())
}
fn rat_canon(cx: &mut Ctx) -> Res {
    rat_history(cx, true)
}
fn rat_exact(cx: &mut Ctx) -> Res {
    rat_history(cx, false)
}
/// every small pair, every binary operation
fn rat_small(cx: &mut Ctx, i: u64, canon: bool) -> Res {
    let vals = small_rats();
    let n = vals.len() as u64;
    let (a, b) = (vals[(i / n) as usize], vals[(i % n) as usize]);
    cx.key(&format!("{} {}", show(&a), show(&b)));
    cx.sample(|| format!("all operations on {} and {}", show(&a), show(&b)));
    let (x, y) = (qof(&a).unwrap(), qof(&b).unwrap());
    let d = format!("({}, {})", show(&a), show(&b));
    let mut res: Vec<(&'static str, Option<Q>, Result<Rational, Panicked>)> = vec![
        ("add", Some(x.add(&y)), cx.try_call(|| a + b)),
        ("sub", Some(x.sub(&y)), cx.try_call(|| a - b)),
        ("mul", Some(x.mul(&y)), cx.try_call(|| a * b)),
        ("div", if y.is_zero() { None } else { Some(x.mul(&y.inv())) }, cx.try_call(|| a / b)),
        ("recip", if x.is_zero() { None } else { Some(x.inv()) }, cx.try_call(|| a.recip())),
        ("neg", Some(x.neg()), cx.try_call(|| -a)),
        ("new", Some(x), cx.try_call(|| Rational::new_i64(a.numer.0 * -6, a.denom.0 * -6))),
    ];
    for e in -4..=4i64 {
        let w = if x.is_zero() && e < 0 {
            None
        } else {
            Some(Ring::pow(&if e < 0 { x.inv() } else { x }, e.unsigned_abs() as u32))
        };
        res.push(("pow", w, cx.try_call(|| a.pow(Integer(e)))));
    }
    for (op, want, got) in res {
        match (want, got) {
            (Some(w), Ok(r)) => {
                if canon {
                    ck!(cx, is_canonical(&r), "rational:canonical", "{}{} gave {}", op, d, show(&r));
                } else {
                    ck!(cx, qof(&r) == Some(w), "rational:value", "{}{} = {} instead of {}/{}", op, d, show(&r), w.n, w.d);
                }
            }
            (Some(w), Err(p)) => ck!(cx, canon, "rational:panic", "{}{} panicked ({}) instead of returning {}/{}", op, d, p.0, w.n, w.d),
            (None, Ok(r)) => {
                ck!(cx, canon && is_canonical(&r), "rational:undefined", "{}{} returned {}", op, d, show(&r));
            }
            (None, Err(_)) => {}
        }
    }
    Ok(())
}
fn small_rats() -> Vec<Rational> {
    let mut v = Vec::new();
    for d in 1..=9i64 {
        for n in -9..=9i64 {
            if gcd128(n as i128, d as i128) == 1 {
                v.push(rat(n, d));
            }
        }
    }
    v
}
fn rat_small_canon(cx: &mut Ctx, i: u64) -> Res {
    rat_small(cx, i, true)
}
fn rat_small_exact(cx: &mut Ctx, i: u64) -> Res {
    rat_small(cx, i, false)
}
/// binary operations at the edge of 64 bits: exact or refused
fn rat_edge(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[31, 32, 33, 40, 48, 62, 63]);
    let a = gen_rat(cx, bits);
    let b = gen_rel(cx, &a, bits);
    let mut pool = vec![a, b];
    pool.rotate_left(cx.rng.below(2));
    for _ in 0..4 {
        let (name, want, got, safe) = rat_step(cx, &pool)?;
        match (want, got) {
            (Some(w), Ok(r)) => ck!(cx, qof(&r) == Some(w), "rational:value", "{} = {} instead of {}/{}", name, show(&r), w.n, w.d),
            (None, Ok(r)) => ck!(cx, false, "rational:undefined", "{} returned {}, but there is no such value in range", name, show(&r)),
            (Some(w), Err(p)) => ck!(cx, !safe, "rational:panic", "{} panicked ({}) instead of returning {}/{}", name, p.0, w.n, w.d),
            (None, Err(_)) => cx.tag("undefined or out of range refused"),
        }
    }
    cx.key(&format!("{} {}", show(&a), show(&b)));
    cx.sample(|| format!("edge {} {}", show(&a), show(&b)));
    Ok(())
}

// ------------------------------------------------------------ order

fn ord_case(cx: &mut Ctx, a: Rational, b: Rational, strict: bool) -> Res {
    let (x, y) = (qof(&a).unwrap(), qof(&b).unwrap());
    let want = x.cmp(&y);
    let d = format!("({}, {})", show(&a), show(&b));
    cx.strict = strict;
    let got = cx.call("cmp", || d.clone(), || (a.cmp(&b), a.partial_cmp(&b), b.cmp(&a), a < b, a <= b, a > b, a >= b))?;
    let w = (want, Some(want), want.reverse(), want.is_lt(), want.is_le(), want.is_gt(), want.is_ge());
    ck!(cx, got == w, "rational:order", "comparisons of {} give {:?}, exact order is {:?}", d, got, want);
    let eq = cx.call("eq", || d.clone(), || (a == b, a.epsilon_equals(&b), (a.max(b), a.min(b))))?;
    ck!(cx, eq.0 == want.is_eq() && eq.1 == want.is_eq(), "rational:order-eq", "equality of {} is {:?}, exact order is {:?}", d, (eq.0, eq.1), want);
    let (mx, mn) = eq.2;
    ck!(cx, qof(&mx) == Some(if want.is_lt() { y } else { x }) && qof(&mn) == Some(if want.is_gt() { y } else { x }), "rational:minmax", "max/min of {} = {} {}", d, show(&mx), show(&mn));
    Ok(())
}
fn ord_sweep(cx: &mut Ctx, i: u64) -> Res {
    let v = small_rats();
    let n = v.len() as u64;
    let (a, b) = (v[(i / n) as usize], v[(i % n) as usize]);
    cx.key(&format!("{} {}", show(&a), show(&b)));
    ord_case(cx, a, b, true)
}
fn ord_random(cx: &mut Ctx) -> Res {
    let bits = bits_for(cx);
    let a = gen_rat(cx, bits);
    let b = gen_rel(cx, &a, bits);
    cx.key(&format!("{} {}", show(&a), show(&b)));
    cx.sample(|| format!("compare {} {}", show(&a), show(&b)));
    ord_case(cx, a, b, bits <= 31)
}
fn ord_sort(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[3, 8, 16, 31]);
    let n = cx.rng.usz(2, 24);
    let mut v: Vec<Rational> = Vec::new();
    for _ in 0..n {
        let r = match v.last().copied() {
            Some(p) if cx.rng.chance(1, 2) => gen_rel(cx, &p, bits),
            _ => gen_rat(cx, bits),
        };
        v.push(r);
    }
    let d: Vec<String> = v.iter().map(show).collect();
    cx.key(&d.join(" "));
    cx.sample(|| format!("sort {}", d.join(" ")));
    cx.strict = true;
    let mut s = v.clone();
    cx.call("sort", || d.join(" "), || s.sort())?;
    for w in s.windows(2) {
        ck!(cx, qof(&w[0]).unwrap().cmp(&qof(&w[1]).unwrap()).is_le(), "rational:sort", "sorting {:?} puts {} before {}", d, show(&w[0]), show(&w[1]));
    }
    Ok(())
}

// ------------------------------------------------------------ traits of numbers

macro_rules! prim_case {
    ($cx:expr, $($t:ty: $v:expr);* $(;)?) => {$(
        {
            let v: $t = $v;
            let r = $cx.call("zero/one", || format!("{}: {:?}", stringify!($t), v), || {
                (<$t as Zero>::ZERO == 0 as $t, <$t as One>::ONE == 1 as $t, Zero::is_zero(&v), One::is_one(&v))
            })?;
            ck!($cx, r == (true, true, v == 0 as $t, v == 1 as $t), "traits:zero-one", "ZERO/ONE/is_zero/is_one of {:?}: {} = {:?}", v, stringify!($t), r);
        }
    )*};
}

fn traits_prim(cx: &mut Ctx) -> Res {
    let v = cx.rng.int(64);
    cx.key(&format!("{}", v));
    cx.sample(|| format!("primitive value {}", v));
    prim_case!(cx, usize: v as usize; u8: v as u8; u16: v as u16; u32: v as u32; u64: v as u64; u128: v as u128;
        isize: v as isize; i8: v as i8; i16: v as i16; i32: v as i32; i64: v; i128: v as i128; f32: v as f32; f64: v as f64);
    let x = Integer(v);
    let r = cx.call("Integer zero/one", || v.to_string(), || (x.is_zero(), x.is_one(), Integer::ZERO.0, Integer::ONE.0))?;
    ck!(cx, r == (v == 0, v == 1, 0, 1), "traits:integer", "zero/one tests of Integer {} = {:?}", v, r);
    Ok(())
}

macro_rules! float_traits {
    ($name:ident, $t:ty, $small:expr) => {
        fn $name(cx: &mut Ctx) -> Res {
            let gen = |r: &mut Rng| -> $t {
                match r.below(8) {
                    0 => 0.0,
                    1 => -0.0,
                    2 => 1.0,
                    3 => <$t>::EPSILON * r.range(-4, 4) as $t,
                    4 => 1.0 + <$t>::EPSILON * r.range(-4, 4) as $t,
                    5 => r.int(20) as $t,
                    6 if r.chance(1, 3) => *r.pick(&[-0.0, <$t>::MAX, <$t>::MIN, <$t>::MIN_POSITIVE, -<$t>::MIN_POSITIVE, <$t>::MIN_POSITIVE / 8.0, <$t>::MAX / 3.0]),
                    6 => (r.int(30) as $t) / (1 + r.below(1000)) as $t,
                    _ => (r.range(-1000000, 1000000) as $t) * (2.0 as $t).powi(r.range(-60, 40) as i32),
                }
            };
            let a = gen(&mut cx.rng);
            let b = match cx.rng.below(4) {
                0 => a,
                1 => a + <$t>::EPSILON * cx.rng.range(-3, 3) as $t,
                2 => -a,
                _ => gen(&mut cx.rng),
            };
            let d = format!("{}: {:e}, {:e}", stringify!($t), a, b);
            cx.key(&d);
            cx.sample(|| d.clone());
            let (z, o, e, e2) = cx.call("float traits", || d.clone(), || (a.is_zero(), a.is_one(), a.epsilon_equals(&b), b.epsilon_equals(&a)))?;
            ck!(cx, z == (a == 0.0) && o == (a == 1.0), "traits:float", "is_zero/is_one on {} = {} {}", d, z, o);
            let diff = (a - b).abs();
            ck!(cx, e == (diff < <$t>::EPSILON) && e == e2, "traits:epsilon", "epsilon equality on {} = {} / {}", d, e, e2);
            if a != 0.0 {
                let i = cx.call("inv", || d.clone(), || a.inv())?;
                let w = 1.0 / a;
                ck!(cx, i == w || (i - w).abs() <= w.abs() * 2.0 * <$t>::EPSILON, "traits:inv", "inverse on {} = {:e}", d, i);
            }
            // powers of integers are exact while they fit the mantissa
            let base = cx.rng.range(-9, 9);
            let mut exp = cx.rng.range(0, 12);
            while (base as i128).pow(exp as u32).abs() > $small {
                exp -= 1;
            }
            let p = cx.call("powi32", || format!("{}^{}", base, exp), || (base as $t).powi32(exp as i32))?;
            ck!(cx, p == (base as i128).pow(exp as u32) as $t, "traits:pow", "{}^{} = {:e} as {}", base, exp, p, stringify!($t));
            if base != 0 {
                let p = cx.call("powi32", || format!("{}^-{}", base, exp), || (base as $t).powi32(-exp as i32))?;
                let w = 1.0 / ((base as i128).pow(exp as u32) as $t);
                ck!(cx, (p - w).abs() <= w.abs() * 64.0 * <$t>::EPSILON, "traits:pow", "{}^-{} = {:e} as {}", base, exp, p, stringify!($t));
            }
            Ok(())
        }
    };
}
float_traits! { traits_f64, f64, 1i128 << 53 }
float_traits! { traits_f32, f32, 1i128 << 24 }

fn traits_rational(cx: &mut Ctx) -> Res {
    let bits = *cx.rng.pick(&[2, 4, 8, 16, 31, 62]);
    let a = gen_rat(cx, bits);
    let b = gen_rel(cx, &a, bits);
    let d = format!("{}, {}", show(&a), show(&b));
    cx.key(&d);
    cx.sample(|| d.clone());
    let (x, y) = (qof(&a).unwrap(), qof(&b).unwrap());
    cx.strict = true;
    let r = cx.call("rational traits", || d.clone(), || (Zero::is_zero(&a), One::is_one(&a), a.epsilon_equals(&b), <Rational as Zero>::ZERO, <Rational as One>::ONE, a.sgn().0))?;
    ck!(
        cx,
        r.0 == x.is_zero() && r.1 == (x == Q::one()) && r.2 == (x == y) && qof(&r.3) == Some(Q::zero()) && qof(&r.4) == Some(Q::one()) && r.5 as i128 == x.n.signum(),
        "traits:rational",
        "zero/one/epsilon/constants/sgn on {} = {:?}",
        d,
        r
    );
    if !x.is_zero() {
        let i = cx.call("inv", || d.clone(), || a.inv())?;
        ck!(cx, qof(&i) == Some(x.inv()), "traits:inv", "inverse of {} = {}", show(&a), show(&i));
        if small_mag(&x, 31) {
            let one = cx.call("a * inv(a)", || d.clone(), || a * i)?;
            ck!(cx, one == Rational::ONE && one.is_one(), "traits:inv-mul", "{} times its inverse = {}", show(&a), show(&one));
        }
    } else {
        cx.must_panic("inverse of zero", || d.clone(), || a.inv())?;
    }
    // neutral elements
    let n = cx.call("neutral", || d.clone(), || (a + Rational::ZERO, Rational::ZERO + a, a * Rational::ONE, a - Rational::ZERO, a / Rational::ONE, a * Rational::ZERO))?;
    ck!(cx, n.0 == a && n.1 == a && n.2 == a && n.3 == a && n.4 == a && n.5 == Rational::ZERO, "traits:neutral", "neutral elements on {} give {:?}", show(&a), n);
    // large powers of the units, and powers that leave the range
    {
        let k = *cx.rng.pick(&[6u32, 7, 8, 15, 16, 24, 30]);
        let e = (((1i64 << k) + cx.rng.range(-3, 3)) * if cx.rng.chance(1, 3) { -1 } else { 1 }) as i32;
        let s = if cx.rng.chance(1, 2) { 1 } else { -1 };
        let u = rat(s, 1);
        let w = if s < 0 && e % 2 != 0 { -1 } else { 1 };
        let p = cx.call("powi32", || format!("{}^{}", show(&u), e), || (u.powi32(e), u.powi(e)))?;
        ck!(cx, (qof(&p.0), qof(&p.1)) == (Some(Q::int(w)), Some(Q::int(w))), "traits:pow", "{}^{} = {} / {}", show(&u), e, show(&p.0), show(&p.1));
        if !x.is_zero() && (x.n.abs() > 1 || x.d > 1) && e.unsigned_abs() >= 64 {
            cx.must_panic("power out of range", || format!("{}^{}", show(&a), e), || a.powi32(e))?;
        }
    }
    // small powers through the field trait
    let e = cx.rng.range(-6, 6) as i32;
    if small_mag(&x, 10) && !(x.is_zero() && e < 0) {
        let w = Ring::pow(&if e < 0 { x.inv() } else { x }, e.unsigned_abs());
        let p = cx.call("powi32", || format!("{}^{}", show(&a), e), || a.powi32(e))?;
        ck!(cx, qof(&p) == Some(w), "traits:pow", "{}^{} = {}", show(&a), e, show(&p));
    }
    Ok(())
}

/// a field defined by a user: what the traits provide by default
fn traits_finite<C: Coef>(cx: &mut Ctx) -> Res {
    let (a, b) = (C::wide(&mut cx.rng), C::wide(&mut cx.rng));
    let d = format!("[{}] {}, {}", C::NAME, a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let x = a.m().unwrap();
    let z = cx.call("zero and one", || d.clone(), || (a.is_zero(), a.is_one(), C::ZERO.is_zero(), C::ONE.is_one(), (a - a).is_zero()))?;
    ck!(cx, z == (x.is_zero(), x == <C::M as Ring>::one(), true, true, true), "traits:finite", "zero and one tests on {} = {:?}", d, z);
    if !x.is_zero() {
        let i = cx.call("inv", || d.clone(), || a.inv())?;
        ck!(cx, (i * a).m() == Some(<C::M as Ring>::one()), "traits:inv", "inverse on {} = {}", d, i);
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    let nr = small_rats().len() as u64;
    vec![
        Prop {
            id: "N01",
            rule: "pairs (a, b) of 64-bit integers: all |a|,|b|<=30 (sweep) plus random values biased to 0, powers of two, type limits, overflow boundaries and complements; (base, exponent) pairs for powers. Every case is compared with exact 128-bit arithmetic; distinct = distinct operand pairs.",
            streams: when!("N01", vec![sweep("all small pairs", 61 * 61, int_sweep), random("pairs", 3, int_random), random("powers", 1, int_pow)]),
            quick: 3_000_000,
            min_distinct: 20_000,
        },
        Prop {
            id: "N02",
            rule: "pairs of 64-bit integers: all |a|,|b|<=60 (sweep) plus random pairs with planted common factors, Fibonacci neighbours, multiples and extreme values; oracle: 128-bit Euclid. Distinct = distinct pairs.",
            streams: when!("N02", vec![sweep("all small pairs", 121 * 121, gcd_sweep), random("pairs", 1, gcd_random)]),
            quick: 3_000_000,
            min_distinct: 20_000,
        },
        Prop {
            id: "N03",
            rule: "random histories (1..16 operations) over a pool of rationals starting from constructed values of 2..63 bits; after every operation the produced value is checked for lowest terms/positive denominator and compared (==, hash) with the pool. Sweep: all operations on all pairs with |n|,d<=9. Distinct = distinct histories.",
            streams: when!("N03", vec![sweep("all small pairs", nr * nr, rat_small_canon), random("histories", 1, rat_canon)]),
            quick: 1_000_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "N04",
            rule: "as N03, every result compared with exact 128-bit rational arithmetic; operands below 2^31 must never be refused, undefined results must always be. Distinct = distinct histories.",
            streams: when!("N04", vec![sweep("all small pairs", nr * nr, rat_small_exact), random("histories", 2, rat_exact), random("edge", 1, rat_edge)]),
            quick: 1_200_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "N05",
            rule: "pairs and lists of canonical rationals (2..63 bits, often equal, negated, reciprocal or neighbouring), compared through every comparison operator and by sorting; oracle: exact cross multiplication in 128 bits. Distinct = distinct pairs/lists.",
            streams: when!("N05", vec![sweep("all small pairs", nr * nr, ord_sweep), random("pairs", 6, ord_random), random("sorting", 1, ord_sort)]),
            quick: 1_500_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "N06",
            rule: "random values of every numeric type with zero/one tests, inverses, powers, neutral elements and epsilon equality, against direct definitions (exact for rationals and integer powers). Distinct = distinct values.",
            streams: when!("N06", vec![random("primitives", 1, traits_prim), random("f64", 1, traits_f64), random("f32", 1, traits_f32), random("rationals", 2, traits_rational), random("F7", 1, traits_finite::<F7>), random("F32003", 1, traits_finite::<F32003>)]),
            quick: 1_200_000,
            min_distinct: 10_000,
        },
    ]
}

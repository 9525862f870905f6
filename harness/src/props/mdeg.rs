//! M01..M03: multidegrees and monomial orders.

use crate::{ck, when};
use crate::model::{self, at, mono_cmp, mono_div, mono_divides, mono_mul, trim, Mono, Ord4, ORDERS};
use crate::rt::*;
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{grad, GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use std::cmp::Ordering;

pub fn md(m: &[u32]) -> MultiDegree {
    MultiDegree(trim(m.to_vec()).into_iter().map(|d| d as u8).collect())
}
pub fn mono(m: &MultiDegree) -> Mono {
    m.0.iter().map(|&d| d as u32).collect()
}
pub fn canonical(m: &MultiDegree) -> bool {
    m.0.last() != Some(&0)
}

/// trimmed exponent vector
pub fn gen_mono(r: &mut Rng, maxvars: usize, maxdeg: u32) -> Mono {
    let n = match r.below(4) {
        0 => r.below(maxvars + 1),
        _ => r.below(maxvars.min(5) + 1),
    };
    let style = r.below(5);
    let dict = r.dict().unsigned_abs() as u32;
    let mut v: Mono = (0..n)
        .map(|_| match style {
            0 => r.below(3.min(maxdeg as usize + 1)) as u32,
            1 => {
                if r.chance(2, 3) {
                    0
                } else {
                    r.below(maxdeg as usize + 1) as u32
                }
            }
            2 => {
                if r.chance(1, 2) {
                    maxdeg - r.below(3.min(maxdeg as usize + 1)) as u32
                } else {
                    r.below(4.min(maxdeg as usize + 1)) as u32
                }
            }
            3 => *r.pick(&[0, 0, 1, 2, 127, 128, 129, 200, 254, 255, dict % 256]) % (maxdeg + 1),
            _ => r.below(maxdeg as usize + 1) as u32,
        })
        .collect();
    if r.chance(1, 12) {
        v = vec![0; r.below(maxvars + 1)];
        if let Some(l) = v.last_mut() {
            *l = r.below(maxdeg as usize + 1) as u32;
        }
    }
    trim(v)
}

/// another one, often close to the first
pub fn gen_near(r: &mut Rng, a: &Mono, maxvars: usize, maxdeg: u32) -> Mono {
    let mut b = a.clone();
    match r.below(9) {
        0 => {}
        1 => {
            // move degree between variables: same total degree
            if b.len() >= 2 {
                let (i, j) = (r.below(b.len()), r.below(b.len()));
                if b[i] > 0 && b[j] < maxdeg && i != j {
                    b[i] -= 1;
                    b[j] += 1;
                }
            }
        }
        2 => r.shuffle(&mut b),
        3 => {
            let i = r.below(maxvars.max(1));
            while b.len() <= i {
                b.push(0);
            }
            b[i] = (b[i] + 1 + r.below(3) as u32).min(maxdeg);
        }
        4 => {
            if !b.is_empty() {
                let i = r.below(b.len());
                b[i] = b[i].saturating_sub(1 + r.below(3) as u32);
            }
        }
        5 => {
            b.truncate(r.below(b.len() + 1));
        }
        6 => {
            b.reverse();
        }
        _ => return gen_mono(r, maxvars, maxdeg),
    }
    trim(b)
}

fn style(r: &mut Rng) -> (usize, u32) {
    *r.pick(&[(3, 3), (4, 6), (6, 20), (8, 255), (12, 255), (16, 40), (5, 127), (3, 255), (40, 9), (7, 2), (100, 255), (300, 3)])
}

// ------------------------------------------------------------ M01

fn m01(cx: &mut Ctx) -> Res {
    let (nv, dg) = style(&mut cx.rng);
    let a = gen_mono(&mut cx.rng, nv, dg);
    let b = gen_near(&mut cx.rng, &a, nv, dg);
    m01_case(cx, a, b)
}
fn enum_mono(mut i: u64, vars: usize, base: u64) -> Mono {
    let mut v = Vec::new();
    for _ in 0..vars {
        v.push((i % base) as u32);
        i /= base;
    }
    v
}
fn m01_sweep(cx: &mut Ctx, i: u64) -> Res {
    let n = 3u64.pow(4);
    m01_case(cx, trim(enum_mono(i / n, 4, 3)), trim(enum_mono(i % n, 4, 3)))
}
fn m01_case(cx: &mut Ctx, a: Mono, b: Mono) -> Res {
    let d = format!("{:?}, {:?}", a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    // construction from any vector, with any number of trailing zeros
    let zeros = if cx.rng.chance(1, 8) { cx.rng.below(70) } else { cx.rng.below(4) };
    let mut raw: Vec<u8> = a.iter().map(|&x| x as u8).collect();
    raw.extend(std::iter::repeat(0).take(zeros));
    let f = cx.call("from_vec", || format!("{:?}", raw), || MultiDegree::from_vec(raw.clone()))?;
    ck!(cx, mono(&f) == a, "mdeg:from_vec", "multidegree from {:?} is {:?}", raw, f.0);
    let mut t = MultiDegree(raw.clone());
    cx.call("trim_zeros", || format!("{:?}", raw), || t.trim_zeros())?;
    ck!(cx, mono(&t) == a && t == f, "mdeg:trim", "trimming {:?} gives {:?}", raw, t.0);
    let x = f;
    let y = md(&b);
    // predicates
    let p = cx.call("predicates", || d.clone(), || (x.is_zero(), x.len(), x == y, y == x, x.degs().copied().collect::<Vec<u8>>()))?;
    ck!(cx, p.0 == a.is_empty() && p.1 == a.len() && p.2 == (a == b) && p.3 == (a == b) && p.4.iter().map(|&v| v as u32).collect::<Mono>() == a, "mdeg:predicates", "is_zero/len/==/degs on {} = {:?}", d, p);
    let z = cx.call("zero", || String::new(), || (MultiDegree::zero(), MultiDegree::new(), MultiDegree::default()))?;
    ck!(cx, z.0 .0.is_empty() && z.1 .0.is_empty() && z.2 .0.is_empty(), "mdeg:zero", "zero multidegrees {:?}", z);
    // total degree: exact or refused
    let tot = model::deg(&a);
    match cx.try_call(|| x.total_deg()) {
        Ok(v) => ck!(cx, v as u64 == tot, "mdeg:total", "total degree of {:?} = {}", a, v),
        Err(p) => ck!(cx, tot > 255, "mdeg:total-panic", "total degree of {:?} panicked: {}", a, p.0),
    }
    // variables
    let idx = if cx.rng.chance(1, 10) { cx.rng.below(400) } else { cx.rng.below(20) };
    let dg = *cx.rng.pick(&[0u8, 0, 1, 2, 3, 127, 128, 255]);
    let v = cx.call("var", || format!("{} {}", idx, dg), || MultiDegree::var(idx, dg))?;
    let mut w = vec![0u32; idx];
    w.push(dg as u32);
    ck!(cx, mono(&v) == trim(w), "mdeg:var", "variable {}^{} has multidegree {:?}", idx, dg, v.0);
    // addition: exact componentwise, or refused when a degree leaves the range
    let want = mono_mul(&a, &b);
    let over = want.iter().any(|&e| e > 255);
    cx.tag_if(over, "degree overflow");
    cx.tag_if(a.len() > 32 || b.len() > 32, "more than 32 variables");
    let forms: Vec<(&'static str, Result<MultiDegree, Panicked>)> = vec![
        ("&a + &b", cx.try_call(|| &x + &y)),
        ("a + b", cx.try_call(|| x.clone() + y.clone())),
        ("a + &b", cx.try_call(|| x.clone() + &y)),
        ("&a + b", cx.try_call(|| &x + y.clone())),
        ("&b + &a", cx.try_call(|| &y + &x)),
    ];
    for (form, r) in forms {
        match r {
            Ok(s) => {
                ck!(cx, mono(&s) == want, "mdeg:add", "{} on {} = {:?} instead of {:?}", form, d, s.0, want);
                ck!(cx, canonical(&s), "mdeg:add-canonical", "{} on {} = {:?} has trailing zeros", form, d, s.0);
            }
            Err(p) => ck!(cx, over, "mdeg:add-panic", "{} on {} panicked: {}", form, d, p.0),
        }
    }
    let n = cx.call("a + 0", || d.clone(), || &x + &MultiDegree::zero())?;
    ck!(cx, n == x, "mdeg:add-zero", "{:?} + 0 = {:?}", a, n.0);
    // in-place access reaches every component
    let mut mm = x.clone();
    cx.call("degs_mut", || d.clone(), || mm.degs_mut().for_each(|e| *e ^= 1))?;
    ck!(cx, mm.0.iter().map(|&e| e as u32 ^ 1).collect::<Mono>() == a, "mdeg:degs_mut", "flipping the components of {:?} gave {:?}", a, mm.0);
    Ok(())
}

// ------------------------------------------------------------ M02

fn m02(cx: &mut Ctx) -> Res {
    let (nv, dg) = style(&mut cx.rng);
    let a = gen_mono(&mut cx.rng, nv, dg);
    let b = match cx.rng.below(3) {
        // a divisor of a
        0 => trim(a.iter().map(|&e| if cx.rng.chance(1, 3) { e } else { cx.rng.below(e as usize + 1) as u32 }).collect()),
        _ => gen_near(&mut cx.rng, &a, nv, dg),
    };
    m02_case(cx, a, b)
}
fn m02_sweep(cx: &mut Ctx, i: u64) -> Res {
    let n = 3u64.pow(4);
    m02_case(cx, trim(enum_mono(i / n, 4, 3)), trim(enum_mono(i % n, 4, 3)))
}
fn m02_case(cx: &mut Ctx, a: Mono, b: Mono) -> Res {
    let d = format!("{:?}, {:?}", a, b);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let (x, y) = (md(&a), md(&b));
    let r = cx.call("is_succ", || d.clone(), || (x.is_succ(&y), y.is_succ(&x), x.is_succ(&x)))?;
    ck!(cx, r == (mono_divides(&a, &b), mono_divides(&b, &a), true), "mdeg:divides", "divisibility of {} = {:?}", d, r);
    for (p, q, u, v) in [(&x, &y, &a, &b), (&y, &x, &b, &a)] {
        let got = cx.call("checked_sub", || d.clone(), || p.checked_sub(q))?;
        let want = mono_div(u, v);
        cx.tag_if(want.is_some(), "divisible");
        ck!(cx, got.as_ref().map(mono) == want, "mdeg:sub", "{:?} - {:?} = {:?} instead of {:?}", u, v, got.as_ref().map(|m| &m.0), want);
        if let Some(g) = got {
            ck!(cx, canonical(&g), "mdeg:sub-canonical", "{:?} - {:?} = {:?} has trailing zeros", u, v, g.0);
            let back = cx.call("sub then add", || d.clone(), || &g + q)?;
            ck!(cx, back == *p, "mdeg:sub-add", "({:?} - {:?}) + {:?} = {:?}", u, v, v, back.0);
        }
    }
    if mono_mul(&a, &b).iter().all(|&e| e <= 255) {
        let got = cx.call("add then sub", || d.clone(), || (&x + &y).checked_sub(&y))?;
        ck!(cx, got == Some(x.clone()), "mdeg:add-sub", "({:?} + {:?}) - {:?} = {:?}", a, b, b, got.map(|m| m.0));
    }
    Ok(())
}

// ------------------------------------------------------------ M03

pub fn lib_cmp(o: Ord4, a: &MultiDegree, b: &MultiDegree) -> Ordering {
    match o {
        Ord4::Lex => Lex::cmp(a, b),
        Ord4::RevLex => RevLex::cmp(a, b),
        Ord4::GrLex => GrLex::cmp(a, b),
        Ord4::GRevLex => GRevLex::cmp(a, b),
    }
}
fn m03(cx: &mut Ctx) -> Res {
    let (nv, dg) = style(&mut cx.rng);
    let a = gen_mono(&mut cx.rng, nv, dg);
    let b = gen_near(&mut cx.rng, &a, nv, dg);
    let c = if cx.rng.chance(1, 2) { gen_near(&mut cx.rng, &b, nv, dg) } else { gen_mono(&mut cx.rng, nv, dg) };
    m03_case(cx, a, b, c)
}
fn m03_sweep(cx: &mut Ctx, i: u64) -> Res {
    let n = 27;
    let e = |k: u64| trim(enum_mono(k % n, 3, 3));
    m03_case(cx, e(i / n / n), e(i / n), e(i))
}
fn m03_case(cx: &mut Ctx, a: Mono, b: Mono, c: Mono) -> Res {
    let d = format!("{:?}, {:?}, {:?}", a, b, c);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let (x, y, z) = (md(&a), md(&b), md(&c));
    let g = cx.call("grad", || d.clone(), || grad(&x, &y))?;
    ck!(cx, g == model::deg(&a).cmp(&model::deg(&b)), "order:grad", "total degrees of {:?} and {:?} compare {:?}", a, b, g);
    for o in ORDERS {
        let xy = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &x, &y))?;
        let yx = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &y, &x))?;
        let yz = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &y, &z))?;
        let xz = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &x, &z))?;
        let want = mono_cmp(o, &a, &b);
        ck!(cx, xy == want, format!("order:{:?}", o), "{:?} compares {:?} with {:?} as {:?}, definition says {:?}", o, a, b, xy, want);
        ck!(cx, yx == xy.reverse() && (xy == Ordering::Equal) == (a == b), format!("order:{:?}-antisym", o), "{:?} on {:?}, {:?}: {:?} / {:?}", o, a, b, xy, yx);
        ck!(cx, !(xy.is_le() && yz.is_le()) || xz.is_le(), format!("order:{:?}-trans", o), "{:?} is not transitive on {}", o, d);
        ck!(cx, xz == mono_cmp(o, &a, &c) && yz == mono_cmp(o, &b, &c), format!("order:{:?}", o), "{:?} on {}: {:?} {:?}", o, d, xz, yz);
        // compatible with multiplication
        if mono_mul(&a, &c).iter().chain(mono_mul(&b, &c).iter()).all(|&e| e <= 255) {
            let (s, t) = (md(&mono_mul(&a, &c)), md(&mono_mul(&b, &c)));
            let st = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &s, &t))?;
            ck!(cx, st == xy, format!("order:{:?}-mult", o), "{:?}: {:?} vs {:?} is {:?}, but after multiplying by {:?} it is {:?}", o, a, b, xy, c, st);
            cx.tag("multiplicative law checked");
        }
        // 1 is the least monomial
        let one = cx.call("order", || format!("{:?} {}", o, d), || lib_cmp(o, &MultiDegree::zero(), &x))?;
        ck!(cx, one == if a.is_empty() { Ordering::Equal } else { Ordering::Less }, format!("order:{:?}-least", o), "{:?}: 1 compares with {:?} as {:?}", o, a, one);
    }
    cx.tag_if(model::deg(&a) == model::deg(&b) && a != b, "equal total degree");
    cx.tag_if(model::deg(&a) > 255, "total degree > 255");
    cx.tag_if(at(&a, 5) + at(&b, 5) > 0, "six or more variables");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M01",
            rule: "pairs of exponent vectors (up to 300 variables, degrees 0..255, sparse/dense/extreme, second often a perturbation of the first); sweep: all pairs with 4 variables and degrees < 3. Oracle: componentwise integer arithmetic on zero-padded vectors. Distinct = distinct pairs.",
            streams: when!("M01", vec![sweep("all small pairs", 81 * 81, m01_sweep), random("pairs", 1, m01)]),
            quick: 700_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "M02",
            rule: "as M01, with planted divisors. Oracle: componentwise comparison/subtraction. Distinct = distinct pairs.",
            streams: when!("M02", vec![sweep("all small pairs", 81 * 81, m02_sweep), random("pairs", 1, m02)]),
            quick: 1_500_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "M03",
            rule: "triples of exponent vectors, biased to equal total degree, permutations, prefixes; sweep: all triples with 3 variables and degrees < 3. Oracle: textbook definitions on padded vectors, plus order laws and compatibility with multiplication. Distinct = distinct triples.",
            streams: when!("M03", vec![sweep("all small triples", 27 * 27 * 27, m03_sweep), random("triples", 1, m03)]),
            quick: 900_000,
            min_distinct: 10_000,
        },
    ]
}

//! U01: enumeration utilities.

use crate::{ck, when};
use crate::fields::*;
use crate::rt::*;
use algeo::core::num::Rational;
use algeo::linalg::util::{get_box_iter, get_max_index, mat_iterator, num_to_seq};
use std::collections::BTreeSet;

fn boxes(cx: &mut Ctx, i: u64) -> Res {
    let (r, c) = ((i / 24) as usize, (i % 24) as usize);
    let d = format!("{} rows and {} columns", r, c);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let got = cx.call("get_box_iter", || d.clone(), || get_box_iter(r, c).collect::<Vec<_>>())?;
    let want: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).collect();
    ck!(cx, got == want, "box", "positions for {} are {:?}", d, got);
    Ok(())
}

fn large_boxes(cx: &mut Ctx) -> Res {
    let x = &mut cx.rng;
    let (r, c) = match x.below(4) {
        0 => (x.usz(0, 70_000), x.usz(0, 3)),
        1 => (x.usz(0, 3), x.usz(0, 70_000)),
        _ => (x.usz(0, 400), x.usz(0, 400)),
    };
    let d = format!("{} rows and {} columns", r, c);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let wrong = cx.call("get_box_iter", || d.clone(), || {
        let mut it = get_box_iter(r, c);
        let bad = (0..r * c).find(|&k| it.next() != Some((k / c, k % c)));
        bad.or(it.next().map(|_| r * c))
    })?;
    ck!(cx, wrong.is_none(), "box:large", "positions for {} are wrong from number {:?} on", d, wrong);
    cx.tag_if(r * c > 65_536, "more than 2^16 positions");
    Ok(())
}

fn digits(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let base = match r.below(7) {
        // any base of a machine word, also powers of two
        5 => (r.u64() as usize >> r.below(62)).max(2),
        6 => 1usize << r.usz(1, 63),
        0 => 2,
        1 => r.usz(2, 16),
        2 => 10,
        3 => (r.dict().unsigned_abs() as usize).clamp(2, 1 << 20),
        _ => r.usz(2, 70000),
    };
    let n = match r.below(6) {
        0 => r.below(5),
        1 => r.below(10000),
        2 => {
            // near a power of the base
            let mut v: usize = 1;
            for _ in 0..r.below(9) {
                v = v.checked_mul(base).unwrap_or(v);
            }
            v.saturating_sub(1) + r.below(3)
        }
        3 => r.u64() as usize >> r.below(30),
        _ => r.int(40).unsigned_abs() as usize,
    };
    let n = if r.chance(1, 40) { usize::MAX - r.below(3) } else { n };
    let d = format!("{} in base {}", n, base);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let got = cx.call("num_to_seq", || d.clone(), || num_to_seq(n, base).take(200).collect::<Vec<_>>())?;
    let beyond = cx.call("num_to_seq", || d.clone(), || {
        let mut it = num_to_seq(n, base);
        let len = it.by_ref().take(200).count();
        (len, it.next(), it.next())
    })?;
    ck!(cx, beyond == (got.len(), None, None), "digits:end", "the digits of {} do not end: {:?}", d, beyond);
    let mut want = vec![];
    let mut k = n;
    while k > 0 {
        want.push(k % base);
        k /= base;
    }
    ck!(cx, got == want, "digits", "digits of {}, least significant first, are {:?} instead of {:?}", d, got, want);
    cx.tag_if(want.len() > 20, "many digits");
    cx.tag_if(want.contains(&0), "zero digits");
    Ok(())
}

fn max_index(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let n = if r.chance(1, 200) { r.usz(13, 700) } else { 1 + r.below(12) };
    let v: Vec<i64> = (0..n).map(|_| if r.chance(1, 2) { r.range(-3, 3) } else { r.int(64) }).collect();
    let rev = r.chance(1, 2);
    let d = format!("{:?}{}", v, if rev { " reversed" } else { "" });
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let got = cx.call("get_max_index", || d.clone(), || get_max_index(v.iter(), |a, b| Some(if rev { b.cmp(a) } else { a.cmp(b) })))?;
    let best = if rev { *v.iter().min().unwrap() } else { *v.iter().max().unwrap() };
    ck!(cx, got < n && v[got] == best, "max", "position of the maximum of {} is {}", d, got);
    cx.tag_if(v.iter().filter(|&&x| x == best).count() > 1, "ties");
    Ok(())
}

/// the beginning of enumerations too long to be seen to their end
fn prefix<C: Coef>(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let (n, m, vals) = loop {
        let (n, m, k) = match r.below(4) {
            0 => (r.usz(1, 8), r.usz(1, 8), 2),
            1 => (r.usz(1, 5), r.usz(1, 5), r.usz(2, 7)),
            2 => (r.usz(1, 2), r.usz(1, 2), r.usz(20, 300)),
            _ => (1, r.usz(1, 30), r.usz(2, 4)),
        };
        let mut vals: Vec<C> = vec![];
        for i in 0..k {
            let x = if C::NAME == "Fp" { C::wide(r) } else { C::small(r) };
            let x = if i % 2 == 0 { x } else { C::wide(r) };
            if !vals.contains(&x) {
                vals.push(x);
            }
        }
        // the number of matrices has to fit a machine word
        if (vals.len() as f64).powi((n * m) as i32) < 1.8e19 {
            break (n, m, vals);
        }
    };
    let k = vals.len();
    let d = format!("[{}] {}x{} matrices over {:?}", C::NAME, n, m, vals);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let len = *cx.rng.pick(&[20, 300, 1500]);
    let total = (k as u128).pow((n * m) as u32);
    let got = cx.call("mat_iterator", || d.clone(), || mat_iterator(n, m, &vals).take(len).map(|x| (x.rows(), x.cols(), x.entries().to_vec())).collect::<Vec<_>>())?;
    ck!(cx, got.len() as u128 == total.min(len as u128), "matrices:ends-early", "after {} of {} the enumeration of {} ends", got.len(), total, d);
    let mut seen = BTreeSet::new();
    for (rr, cc, e) in &got {
        ck!(cx, (*rr, *cc) == (n, m) && e.len() == n * m, "matrices:shape", "{}: a {}x{} matrix with {} entries", d, rr, cc, e.len());
        let idx: Option<Vec<usize>> = e.iter().map(|x| vals.iter().position(|v| v == x)).collect();
        ck!(cx, idx.is_some(), "matrices:values", "{}: {:?} has a foreign entry", d, e);
        ck!(cx, seen.insert(idx.unwrap()), "matrices:distinct", "{}: {:?} is enumerated twice", d, e);
    }
    cx.tag_if(total > 1 << 32, "more than 2^32 matrices");
    Ok(())
}

fn matrices<C: Coef>(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let (n, m, k) = loop {
        let (n, m, k) = (r.below(5), r.below(5), r.below(6));
        if (k as f64).powi((n * m) as i32) <= if cx.tier_thorough { 70000.0 } else { 4100.0 } {
            break (n, m, k);
        }
    };
    let mut vals: Vec<C> = vec![];
    let mut tries = 0;
    while vals.len() < k && tries < 200 {
        let x = C::wide(r);
        if !vals.contains(&x) {
            vals.push(x);
        }
        tries += 1;
    }
    let k = vals.len();
    let d = format!("[{}] {}x{} matrices over {:?}", C::NAME, n, m, vals);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let total = k.pow((n * m) as u32);
    let got = cx.call("mat_iterator", || d.clone(), || mat_iterator(n, m, &vals).take(total + 2).map(|x| (x.rows(), x.cols(), x.entries().to_vec())).collect::<Vec<_>>())?;
    ck!(cx, got.len() == total, "matrices:count", "{} {} enumerated{} instead of {}", got.len(), d, if got.len() > total { " at least" } else { "" }, total);
    let mut seen = BTreeSet::new();
    for (rr, cc, e) in &got {
        ck!(cx, (*rr, *cc) == (n, m) && e.len() == n * m, "matrices:shape", "{}: a {}x{} matrix with {} entries", d, rr, cc, e.len());
        let idx: Option<Vec<usize>> = e.iter().map(|x| vals.iter().position(|v| v == x)).collect();
        ck!(cx, idx.is_some(), "matrices:values", "{}: {:?} has a foreign entry", d, e);
        ck!(cx, seen.insert(idx.unwrap()), "matrices:distinct", "{}: {:?} is enumerated twice", d, e);
    }
    cx.tag_if(n * m == 0, "empty shape");
    cx.tag_if(k == 1, "one value");
    cx.tag_if(total > 100, "many matrices");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "U01",
        rule: "every box up to 23x23; digits of random numbers in random bases; positions of maxima; complete enumerations of the matrices with given entries, and the beginnings of longer ones: count, shape, distinctness. Distinct = distinct parameters.",
        streams: when!("U01", vec![
            sweep("boxes", 576, boxes),
            random("large boxes", 1, large_boxes),
            random("digits", 60, digits),
            random("maximum", 60, max_index),
            random("matrices Rational", 1, matrices::<Rational>),
            random("matrices F7", 1, matrices::<F7>),
            random("matrices f64", 1, matrices::<f64>),
            random("long enumerations Rational", 1, prefix::<Rational>),
            random("long enumerations F32003", 1, prefix::<F32003>),
            random("long enumerations f64", 1, prefix::<f64>),
        ]),
        quick: 600_000,
        min_distinct: 10_000,
    }]
}

//! C01: cones.

use super::mat::{mm, sm};
use crate::{ck, when};
use crate::fields::*;
use crate::model::{MMat, Ring, Q};
use crate::hook;
use crate::rt::*;
use algeo::core::num::Rational;
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;
use std::collections::BTreeSet;

fn det(mut a: Vec<Vec<Q>>) -> Q {
    let n = a.len();
    let mut d = Q::one();
    for c in 0..n {
        let Some(p) = (c..n).find(|&r| a[r][c].n != 0) else { return Q::zero() };
        if p != c {
            a.swap(p, c);
            d = d.neg();
        }
        d = d.mul(&a[c][c]);
        let inv = a[c][c].inv();
        for r in c + 1..n {
            if a[r][c].n != 0 {
                let f = a[r][c].mul(&inv);
                for k in c..n {
                    a[r][k] = a[r][k].sub(&f.mul(&a[c][k]));
                }
            }
        }
    }
    d
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0u32..1 << n).filter(|b| b.count_ones() as usize == k).map(|b| (0..n).filter(|i| b >> i & 1 == 1).collect()).collect()
}
/// facets of the cone of `g` (coordinates in a space it spans), each as the
/// set of the generators on it
fn facets(g: &[Vec<Q>], d: usize) -> BTreeSet<Vec<usize>> {
    let mut out = BTreeSet::new();
    for s in subsets(g.len(), d - 1) {
        let dets: Vec<Q> = g
            .iter()
            .map(|x| {
                let mut m: Vec<Vec<Q>> = s.iter().map(|&i| g[i].clone()).collect();
                m.push(x.clone());
                det(m)
            })
            .collect();
        let (pos, neg) = (dets.iter().any(|x| x.n > 0), dets.iter().any(|x| x.n < 0));
        if pos != neg {
            out.insert((0..g.len()).filter(|&i| dets[i].n == 0).collect());
        }
    }
    out
}
/// is x a nonnegative combination of independent generators?
fn member(g: &[Vec<Q>], d: usize, x: &[Q]) -> bool {
    subsets(g.len(), d).iter().any(|s| {
        let b: Vec<Vec<Q>> = s.iter().map(|&i| g[i].clone()).collect();
        let t = det(b.clone());
        t.n != 0
            && (0..d).all(|i| {
                let mut c = b.clone();
                c[i] = x.to_vec();
                det(c).mul(&t).n >= 0
            })
    })
}
fn dotq(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).fold(Q::zero(), |s, (x, y)| s.add(&x.mul(y)))
}

fn c01(cx: &mut Ctx) -> Res {
    let r = &mut cx.rng;
    let n = if r.chance(1, 40) { *r.pick(&[5, 5, 5, 5, 5, 6]) } else { *r.pick(&[1, 2, 2, 3, 3, 3, 4, 4]) };
    let k = if r.chance(1, 30) { r.usz(7, if n >= 5 { 8 } else if n <= 2 { 24 } else { 11 }) } else { r.usz(1, if n >= 4 { 6 } else { 7 }) };
    let lim = if n <= 3 && r.chance(1, 40) { *r.pick(&[10, 100, 1000]) } else { *r.pick(&[1, 2, 3, 5]) };
    let style = r.below(6);
    let fr = r.chance(1, 6);
    // a basis of a subspace, sometimes the whole space
    let sub = if r.chance(1, 3) { r.usz(1, n) } else { n };
    let basis: Vec<Vec<i64>> = (0..sub).map(|i| (0..n).map(|j| if sub == n { (i == j) as i64 } else { r.range(-2, 2) }).collect()).collect();
    let mut g: Vec<Vec<Q>> = (0..k)
        .map(|_| {
            let c: Vec<i64> = (0..sub)
                .map(|j| match style {
                    0 => r.range(0, lim),                                     // in an orthant
                    1 if j == sub - 1 => r.range(1, lim),                     // pointed
                    2 => r.range(0, 1),                                       // few directions
                    _ => r.range(-lim, lim),
                })
                .collect();
            (0..n)
                .map(|j| {
                    let s: i64 = (0..sub).map(|i| c[i] * basis[i][j]).sum();
                    Q::new(s as i128, if fr { r.range(1, 3) as i128 } else { 1 })
                })
                .collect()
        })
        .collect();
    for _ in 0..r.below(3) {
        let (i, j) = (r.below(k), r.below(k));
        match r.below(5) {
            0 => g[i] = g[j].clone(),
            1 => g[i] = g[j].iter().map(|x| x.neg()).collect(),
            2 => g[i] = g[j].iter().map(|x| x.mul(&Q::int(3))).collect(),
            3 => g[i] = vec![Q::zero(); n],
            _ => g[i] = g[i].iter().zip(&g[j]).map(|(a, b)| a.add(b)).collect(),
        }
    }
    let gens: Vec<Mat<Rational>> = g.iter().map(|v| Mat::new(n, 1, v.iter().map(ratq).collect())).collect();
    let d = format!("the cone of {}", gens.iter().map(sm).collect::<Vec<_>>().join(" "));
    cx.key(&d);
    cx.sample(|| d.clone());
    // coefficients this small stay far from the edge of the range
    cx.strict = n <= 3 && gens.iter().all(|v| (0..n).all(|i| v[(i, 0)].numer.0.abs() <= 10 && v[(i, 0)].denom.0 == 1));
    let cone = cx.call("Cone::new", || d.clone(), || Cone::new(gens.clone()))?;
    let seen = hook::cone(&cone).ok_or(Fail::Skip(hook::NONE))?;
    let (lg, lo, amb, dim) = (&seen.generators[..], &seen.orth, seen.ambient, seen.dim);
    let x = MMat { r: k, c: n, a: g.clone() };
    let (_, pc) = x.rref();
    let rank = pc.len();
    ck!(cx, lg == &gens[..], "cone:generators", "{} keeps the generators {}", d, lg.iter().map(sm).collect::<Vec<_>>().join(" "));
    ck!(cx, (amb, dim) == (n, rank), "cone:dimension", "{} has ambient dimension {} and dimension {} instead of {} and {}", d, amb, dim, n, rank);
    // orthogonal complement
    let mut orth = vec![];
    for v in lo {
        let m = mm(v).map_err(|e| Fail::Violation("cone:malformed".into(), format!("{}: {}", d, e)))?;
        ck!(cx, (m.r, m.c) == (n, 1), "cone:orth", "{} has {} in the basis of its orthogonal complement", d, sm(v));
        let v: Vec<Q> = m.a.into_iter().flatten().collect();
        ck!(cx, g.iter().all(|w| dotq(w, &v).n == 0), "cone:orth", "{}: {:?} is not orthogonal to it", d, v);
        orth.push(v);
    }
    let om = MMat { r: orth.len(), c: n, a: orth.clone() };
    ck!(cx, orth.len() == n - rank && om.rank() == n - rank, "cone:orth", "{}: {} vectors are no basis of its orthogonal complement", d, orth.len());
    // facets: supporting half-spaces
    let mut normals = vec![];
    let mut got = BTreeSet::new();
    for (nm, fg) in &seen.facets {
        let m = mm(nm).map_err(|e| Fail::Violation("cone:malformed".into(), format!("{}: {}", d, e)))?;
        ck!(cx, (m.r, m.c) == (n, 1), "cone:normal", "{} has the facet normal {}", d, sm(nm));
        let nv: Vec<Q> = m.a.into_iter().flatten().collect();
        let dots: Vec<Q> = g.iter().map(|w| dotq(w, &nv)).collect();
        ck!(cx, dots.iter().all(|x| x.n >= 0), "cone:supporting", "{}: generators lie below its facet with normal {}", d, sm(nm));
        ck!(cx, dots.iter().any(|x| x.n > 0), "cone:proper", "{}: all of it lies on its facet with normal {}", d, sm(nm));
        let mut on = vec![];
        for v in fg {
            ck!(cx, gens.contains(v), "cone:facet-generators", "{}: {} is listed on a facet but is no generator", d, sm(v));
            let v: Vec<Q> = mm(v).unwrap().a.into_iter().flatten().collect();
            ck!(cx, dotq(&v, &nv).n == 0, "cone:facet-generators", "{}: {:?} is not on its facet with normal {}", d, v, sm(nm));
            on.push(v);
        }
        let fm = MMat { r: on.len(), c: n, a: on };
        ck!(cx, fm.rank() + 1 == rank, "cone:facet-dimension", "{}: the generators of the facet with normal {} span dimension {}", d, sm(nm), fm.rank());
        got.insert((0..k).filter(|&i| dots[i].n == 0).collect::<Vec<usize>>());
        normals.push(nv);
    }
    // all of them, against determinants in coordinates of the span
    let co: Vec<Vec<Q>> = g.iter().map(|v| pc.iter().map(|&c| v[c]).collect()).collect();
    let want = if rank == 0 { BTreeSet::new() } else { facets(&co, rank) };
    ck!(cx, got == want, "cone:facets", "{} has the facets (as sets of generators) {:?} instead of {:?}", d, got, want);
    // membership: half-spaces against nonnegative combinations
    if rank > 0 {
        for _ in 0..6 {
            let c: Vec<Q> = (0..k).map(|_| Q::int(cx.rng.range(-2, 4) as i128)).collect();
            let pt: Vec<Q> = (0..n).map(|j| (0..k).fold(Q::zero(), |s, i| s.add(&c[i].mul(&g[i][j])))).collect();
            let inside = normals.iter().all(|v| dotq(v, &pt).n >= 0);
            let truth = member(&co, rank, &pc.iter().map(|&c| pt[c]).collect::<Vec<_>>());
            ck!(cx, inside == truth, "cone:membership", "{}: its half-spaces {} {:?}, which is{} a nonnegative combination of generators", d, if inside { "contain" } else { "exclude" }, pt, if truth { "" } else { " not" });
            cx.tag(if truth { "point inside" } else { "point outside" });
        }
    }
    cx.tag_if(want.is_empty(), "no facets");
    cx.tag_if(want.len() > rank, "not simplicial");
    cx.tag_if(rank < n, "lower dimensional");
    cx.tag_if(want.len() >= 4, "four facets or more");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C01",
        rule: "cones of 1-11 rational generators in dimension 1-5: pointed, with lines, lower dimensional, with repeated, opposite and zero generators; orthogonal complement, half-spaces and facets observed through the hook; oracle: determinants of all subsets, and membership of random points by nonnegative combinations. Distinct = distinct generators.",
        streams: when!("C01", vec![random("cones", 1, c01)]),
        quick: 60_000,
        min_distinct: 5_000,
    }]
}

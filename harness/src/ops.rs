//! One random call into the library, with its operands and its normalised
//! result: the events of the purity monitor (S02) and the workload of the
//! sanitizer runs (S01).

use crate::fields::*;
use crate::hook;
use crate::props::groebner::gen_ideal;
use crate::props::linalg::gen_lin_rng;
use crate::props::mat::{gen_dim, gen_mat};
use crate::props::mdeg::{gen_mono, gen_near, md};
use crate::props::poly::{gen_poly, gen_poly_near, gen_term, shape, Shape};
use crate::model::Ring;
use crate::props as pr;
use crate::rt::{quiet_call, Rng};
use algeo::core::num::*;
use algeo::linalg::algorithm::RowEquivalentForm;
use algeo::linalg::cone::Cone;
use algeo::linalg::mat::Mat;
use algeo::linalg::util::*;
use algeo::poly::comp::Computer;
use algeo::poly::elts::{Polynomial, Term};
use algeo::poly::mdeg::MultiDegree;
use algeo::poly::ord::{GRevLex, GrLex, Lex, MonomialOrder, RevLex};
use std::cmp::Ordering;

pub struct Event {
    pub op: &'static str,
    pub input: String,
    pub result: String,
    pub panicked: bool,
}

struct E {
    op: &'static str,
    input: String,
}
fn run(e: E, f: impl FnOnce() -> String) -> Event {
    match quiet_call(f) {
        Some(r) => Event { op: e.op, input: e.input, result: r, panicked: false },
        None => Event { op: e.op, input: e.input, result: "panic".into(), panicked: true },
    }
}
fn e(op: &'static str, input: String) -> E {
    E { op, input }
}

// The interpreter runs these a thousand times slower: there, results are read
// but not printed.
fn coef<C: Coef>(c: &C) -> bool {
    c.m().map_or(true, |m| m.is_zero())
}
fn st<C: Coef>(t: &Term<C>) -> String {
    if cfg!(miri) {
        let mut n = coef(&t.coef) as usize;
        n += t.mdeg.0.iter().map(|&d| d as usize).sum::<usize>();
        return if n == usize::MAX { "?".into() } else { String::new() };
    }
    pr::poly::st(t)
}
fn sp<C: Coef>(p: &Polynomial<C>) -> String {
    if cfg!(miri) {
        return p.terms.iter().map(st).collect();
    }
    pr::poly::sp(p)
}
fn polys<C: Coef>(p: &[Polynomial<C>]) -> String {
    if cfg!(miri) {
        return p.iter().map(sp).collect();
    }
    pr::groebner::polys(p)
}
fn sm<C: Coef>(m: &Mat<C>) -> String {
    if cfg!(miri) {
        return raw(m);
    }
    pr::mat::sm(m)
}
/// polynomial as a set of terms
fn np<C: Coef>(p: &Polynomial<C>) -> String {
    let mut v: Vec<String> = p.terms.iter().map(st).collect();
    v.sort();
    v.join(" + ")
}
fn nps<C: Coef>(p: &[Polynomial<C>]) -> String {
    let mut v: Vec<String> = p.iter().map(np).collect();
    v.sort();
    v.join(" | ")
}
fn nms<C: Coef>(p: &[Mat<C>]) -> String {
    let mut v: Vec<String> = p.iter().map(|m| format!("{}x{} {}", m.rows(), m.cols(), raw(m))).collect();
    v.sort();
    v.join(" | ")
}
/// does not trust the shape
fn raw<C: Coef>(m: &Mat<C>) -> String {
    if cfg!(miri) {
        let n = m.entries().iter().filter(|x| coef(*x)).count() + m.rows() + m.cols();
        return if n == usize::MAX { "?".into() } else { String::new() };
    }
    format!("{}x{} {:?}", m.rows(), m.cols(), m.entries())
}

/// mostly small, sometimes beyond the width of a vector register or a cache
/// block
fn size(r: &mut Rng, top: usize) -> usize {
    match r.below(40) {
        0 | 1 => r.usz(5, 9),
        2 => r.usz(8, if cfg!(miri) { 12 } else { 20 }),
        3 if !cfg!(miri) && r.chance(1, 3) => r.usz(20, 70),
        _ => gen_dim(r).min(top),
    }
}
/// a number of entries that does not fit the shape
fn misfit<C: Coef>(r: &mut Rng) -> Mat<C> {
    if r.chance(3, 4) {
        let k = r.below(8);
        return Mat::new(r.below(4), r.below(4), (0..k).map(|_| C::small(r)).collect());
    }
    let (n, m) = (size(r, 5), size(r, 5));
    let k = match r.below(3) {
        0 => (n * m).saturating_sub(r.usz(1, 4)),
        1 => n * m + r.usz(1, 4),
        _ => r.below(n * m + 1),
    };
    Mat::new(n, m, (0..k).map(|_| C::small(r)).collect())
}

// ------------------------------------------------------------ numbers

fn num(r: &mut Rng, hostile: bool) -> Event {
    let bits = *r.pick(if hostile { &[2u32, 6, 32, 63, 64] } else { &[2u32, 3, 6, 20, 31] });
    let (a, b) = (r.int(bits), r.int(bits));
    let (x, y) = (Integer(a), Integer(b));
    let k = r.range(-4, 6);
    match r.below(10) {
        0 => run(e("integer arithmetic", format!("{} {}", a, b)), || format!("{} {} {} {} {} {:?}", x + y, x - y, x * y, -x, x.abs(), x.cmp(&y))),
        1 => run(e("integer division", format!("{} {}", a, b)), || format!("{} {}", x / y, x % y)),
        2 => run(e("gcd", format!("{} {}", a, b)), || format!("{}", Integer::gcd(x, y))),
        3 => run(e("lcm", format!("{} {}", a, b)), || format!("{}", Integer::lcm(x, y))),
        4 => run(e("integer power", format!("{} {}", a, k)), || format!("{}", x.pow(Integer(k)))),
        5 => run(e("rational new", format!("{} {}", a, b)), || format!("{:?}", Rational::new(x, y))),
        n => {
            let hb = *r.pick(if hostile { &[3u32, 31, 63] } else { &[2u32, 4, 12] });
            let mut g = |r: &mut Rng| {
                let d = r.int(hb);
                if hostile && r.chance(1, 12) {
                    Rational { numer: Integer(r.int(64)), denom: Integer(d) }
                } else {
                    rat(r.int(hb), if d == 0 { 1 } else { d })
                }
            };
            let (p, q) = (g(r), g(r));
            let i = format!("{:?} {:?}", p, q);
            match n {
                6 => run(e("rational arithmetic", i), || format!("{} {} {} {}", p + q, p - q, p * q, -p)),
                7 => run(e("rational division", i), || format!("{} {}", p / q, q.recip())),
                8 => run(e("rational order", i), || format!("{:?} {:?} {} {:?} {}", p.cmp(&q), p.partial_cmp(&q), p == q, p.stability_cmp(&q), p.epsilon_equals(&q))),
                _ => run(e("rational power", format!("{} {}", i, k)), || format!("{} {} {} {}", p.pow(Integer(k)), p.powi(k as i32), p.powi32(k as i32), p.sgn())),
            }
        }
    }
}

// ------------------------------------------------------------ multidegrees

fn dirty_md(r: &mut Rng) -> MultiDegree {
    let n = size(r, 4);
    MultiDegree((0..n).map(|_| *r.pick(&[0u8, 0, 1, 2, 3, 127, 200, 255])).collect())
}
fn cmp4(a: &MultiDegree, b: &MultiDegree) -> [Ordering; 4] {
    [Lex::cmp(a, b), RevLex::cmp(a, b), GrLex::cmp(a, b), GRevLex::cmp(a, b)]
}
fn mdeg(r: &mut Rng, hostile: bool) -> Event {
    let (a, b) = if hostile && r.chance(1, 2) {
        (dirty_md(r), dirty_md(r))
    } else {
        let v = size(r, 4);
        let m = gen_mono(r, v, 5);
        let w = if r.chance(1, 2) { v } else { size(r, 4) };
        let n = if r.chance(1, 2) { gen_near(r, &m, v, 5) } else { gen_mono(r, w, 5) };
        (md(&m), md(&n))
    };
    let i = format!("{:?} {:?}", a.0, b.0);
    match r.below(6) {
        0 => run(e("multidegree sum", i), || format!("{:?}", (&a + &b).0)),
        1 => run(e("multidegree difference", i), || format!("{:?}", a.checked_sub(&b).map(|m| m.0))),
        2 => run(e("multidegree orders", i), || format!("{:?}", cmp4(&a, &b))),
        3 => run(e("multidegree divisibility", i), || format!("{} {} {}", a.is_succ(&b), b.is_succ(&a), a == b)),
        4 => run(e("multidegree size", i), || format!("{} {} {}", a.len(), a.is_zero(), a)),
        _ => {
            let (k, d) = (r.below(6), r.below(256) as u8);
            run(e("multidegree new", format!("{} {} {}", i, k, d)), || {
                let mut c = a.clone();
                c.trim_zeros();
                format!("{:?} {:?} {:?} {} {:?}", c.0, MultiDegree::var(k, d).0, MultiDegree::from_vec(b.0.clone()).0, a.total_deg(), MultiDegree::new().0)
            })
        }
    }
}

// ------------------------------------------------------------ polynomials

fn dirty_poly<C: Coef>(r: &mut Rng) -> Polynomial<C> {
    let n = if r.chance(1, 5) { 0 } else { size(r, 4) };
    Polynomial { terms: (0..n).map(|_| Term { coef: C::small(r), mdeg: dirty_md(r) }).collect() }
}
fn small_shape(r: &mut Rng) -> Shape {
    let (vars, deg, terms) = *r.pick(&[(1, 3, 3), (2, 2, 3), (2, 3, 5), (3, 2, 5)]);
    Shape { vars, deg, terms, wide: false }
}
fn poly<C: Coef>(r: &mut Rng, hostile: bool) -> Event {
    let s = if r.chance(1, 3) { shape(r) } else { small_shape(r) };
    let dirty = hostile && r.chance(1, 2);
    let p: Polynomial<C> = if dirty { dirty_poly(r) } else { gen_poly(r, s) };
    let q: Polynomial<C> = if dirty { dirty_poly(r) } else { gen_poly_near(r, s, &p) };
    let t: Term<C> = if dirty { Term { coef: C::small(r), mdeg: dirty_md(r) } } else { gen_term(r, s, &p) };
    let u: Term<C> = if dirty { Term { coef: C::small(r), mdeg: dirty_md(r) } } else { gen_term(r, s, &q) };
    let c = C::small(r);
    let i = format!("[{}] {} ; {}", C::NAME, sp(&p), sp(&q));
    let it = format!("[{}] {} ; {}", C::NAME, st(&t), st(&u));
    match r.below(9) {
        0 => run(e("polynomial sum", i), || np(&(&p + &q))),
        1 => run(e("polynomial difference", i), || format!("{} ; {}", np(&(&p - &q)), np(&(-&p)))),
        2 => run(e("polynomial product", i), || np(&(&p * &q))),
        3 => run(e("polynomial by term", format!("{} ; {}", i, it)), || format!("{} ; {} ; {} ; {}", np(&(&p * &t)), np(&(&p + &t)), np(&(&t - &p)), np(&(&p - &t)))),
        4 => run(e("polynomial by scalar", format!("{} ; {}", i, c)), || format!("{} ; {}", np(&(&p * c)), if c.is_zero() && !hostile { String::new() } else { np(&(&p / c)) })),
        5 => {
            let k = if hostile { r.below(4) } else { 12 };
            let x: Vec<C> = (0..k).map(|_| C::small(r)).collect();
            let small = p.terms.iter().all(|t| t.mdeg.0.iter().all(|&d| d < 7));
            run(e("evaluation", format!("{} at {:?}", i, x)), || if small { format!("{} {}", p.eval(&x), t.coef) } else { String::new() })
        }
        6 => run(e("term arithmetic", it), || format!("{} ; {} ; {} ; {}", np(&(&t + &u)), np(&(&t - &u)), st(&(&t * &u)), st(&(-&t)))),
        7 => run(e("term division", it), || {
            let d = t.coef.m().map_or(true, |m| m.is_zero()) || u.coef.m().map_or(true, |m| m.is_zero());
            let l = if d && !hostile { String::new() } else { format!("{:?} {}", t.try_div(&u).map(|x| st(&x)), t.divides(&u)) };
            format!("{} ; {}", l, t == u)
        }),
        _ => run(e("polynomial parts", i), || {
            let z = Polynomial::<C>::zero();
            let l = |o: Option<&Term<C>>| o.map(st);
            format!(
                "{:?} {:?} {:?} {:?} {:?} {} {} {}",
                l(Computer::<C, Lex>::leading_term(&p)),
                l(Computer::<C, RevLex>::leading_term(&p)),
                l(Computer::<C, GrLex>::leading_term(&p)),
                l(Computer::<C, GRevLex>::leading_term(&p)),
                Computer::<C, GrLex>::leading_coef(&q).map(|c| c.to_string()),
                sp(&Computer::<C, GRevLex>::sort_terms(&p)),
                p.is_zero(),
                z.is_zero()
            )
        }),
    }
}
fn display(r: &mut Rng, hostile: bool) -> Event {
    let s = shape(r);
    if r.chance(1, 2) {
        let p: Polynomial<Rational> = if hostile && r.chance(1, 2) { dirty_poly(r) } else { gen_poly(r, s) };
        run(e("show polynomial over Q", sp(&p)), || format!("{}", p))
    } else {
        let p: Polynomial<f64> = if hostile && r.chance(1, 2) { dirty_poly(r) } else { gen_poly(r, s) };
        run(e("show polynomial over f64", sp(&p)), || format!("{}", p))
    }
}
fn comp<C: Coef, O: MonomialOrder>(r: &mut Rng, hostile: bool) -> Event {
    let s = small_shape(r);
    match r.below(5) {
        0 | 1 => {
            let f: Polynomial<C> = gen_poly(r, s);
            let n = if r.chance(1, 5) { 0 } else { size(r, 3) };
            let g: Vec<Polynomial<C>> = (0..n).map(|_| gen_poly(r, small_shape_like(s))).collect();
            run(e("divide", format!("[{}] {} by {}", C::NAME, sp(&f), polys(&g))), || {
                let (rem, qs) = Computer::<C, O>::divide(&f, &g);
                format!("{} ; {}", np(&rem), qs.iter().map(np).collect::<Vec<_>>().join(" | "))
            })
        }
        2 => {
            let f: Polynomial<C> = gen_poly(r, s);
            let g: Polynomial<C> = gen_poly_near(r, s, &f);
            run(e("try_reduce", format!("[{}] {} ; {}", C::NAME, sp(&f), sp(&g))), || {
                if f.terms.is_empty() || g.terms.is_empty() {
                    return String::new();
                }
                let l = Computer::<C, O>::monic_lcm(&f.terms[0], &g.terms[0]);
                format!("{:?} ; {}", Computer::<C, O>::try_reduce(&f, &g).map(|p| np(&p)), st(&l))
            })
        }
        3 => {
            let g = ideal::<C>(r, hostile);
            run(e("buchberger_criterion", format!("[{}] {}", C::NAME, polys(&g))), || format!("{}", Computer::<C, O>::buchberger_criterion(&g)))
        }
        _ => {
            let mut g = ideal::<C>(r, hostile);
            run(e("buchberger_algorithm", format!("[{}] {}", C::NAME, polys(&g))), || {
                Computer::<C, O>::buchberger_algorithm(&mut g);
                nps(&g)
            })
        }
    }
}
fn small_shape_like(s: Shape) -> Shape {
    Shape { deg: s.deg.min(2), terms: 3, ..s }
}
/// ideals that every order handles at once
fn ideal<C: Coef>(r: &mut Rng, hostile: bool) -> Vec<Polynomial<C>> {
    if hostile && r.chance(1, 8) {
        return vec![Polynomial { terms: vec![] }; r.below(3)];
    }
    for _ in 0..20 {
        let g: Vec<Polynomial<C>> = gen_ideal(r);
        let vars = g.iter().flat_map(|p| &p.terms).map(|t| t.mdeg.0.len()).max().unwrap_or(0);
        let deg: u32 = g.iter().flat_map(|p| &p.terms).map(|t| t.mdeg.0.iter().map(|&x| x as u32).sum()).max().unwrap_or(0);
        let size: usize = g.iter().map(|p| p.terms.len()).sum();
        if vars <= 3 && deg <= 3 && size <= 8 && g.len() <= 3 {
            return g;
        }
    }
    vec![]
}

// ------------------------------------------------------------ matrices

fn matrix<C: Coef>(r: &mut Rng, hostile: bool) -> Event {
    // now and then everything is large at once
    let large = r.chance(1, 12);
    let top = if cfg!(miri) { 12 } else { 24 };
    let (n, m) = if large { (r.usz(5, top), r.usz(5, top)) } else { (size(r, 5), size(r, 5)) };
    let a: Mat<C> = if hostile && r.chance(1, 6) {
        misfit(r)
    } else {
        gen_mat(r, n, m)
    };
    let (n2, m2) = match r.below(3) {
        _ if !hostile => (n, m),
        0 => (n, (m + r.below(4)).saturating_sub(r.below(4))),
        1 => ((n + r.below(4)).saturating_sub(r.below(4)), m),
        _ => (r.below(6), r.below(6)),
    };
    let b: Mat<C> = gen_mat(r, n2, m2);
    let k = if large { r.usz(5, top) } else { size(r, 4) };
    let inner = if !hostile {
        m
    } else if r.chance(1, 2) {
        (m + r.below(3)).saturating_sub(r.below(3))
    } else {
        r.below(5)
    };
    let p: Mat<C> = gen_mat(r, inner, k);
    let s = C::small(r);
    let off = if hostile { 4 } else { 0 };
    let (i, j, c, c2) = (r.below(a.rows() + off), r.below(a.rows() + off), r.below(a.cols() + off), r.below(a.cols() + off));
    let huge = hostile && r.chance(1, 20);
    let i = if huge { usize::MAX - r.below(3) } else { i };
    let d = format!("[{}] {} ; {} {} {} {} ; {}", C::NAME, raw(&a), i, j, c, c2, s);
    match r.below(15) {
        0 => run(e("matrix sum", format!("{} ; {}", d, raw(&b))), || raw(&(&a + &b))),
        1 => run(e("matrix product", format!("{} ; {}", d, raw(&p))), || raw(&(&a * &p))),
        2 => run(e("matrix by scalar", d), || {
            let mut x = a.clone();
            x *= s;
            format!("{} {}", raw(&(&a * s)), raw(&x))
        }),
        3 => run(e("transpose", d), || raw(&a.transpose())),
        4 => run(e("matrix read", d), || format!("{} {} {:?} {:?}", a[(i, c)], a.get_unchecked(i, c), a.get_row_iter(i).collect::<Vec<_>>(), a.get_col_iter(c).collect::<Vec<_>>())),
        5 => run(e("matrix rows and columns", d), || format!("{} {} {:?}", raw(&a.get_row(i)), raw(&a.get_col(c)), a.index_iter().collect::<Vec<_>>())),
        6 => run(e("matrix write", d), || {
            let mut x = a.clone();
            x[(i, c)] = s;
            *x.get_mut_unchecked(j, c2) = s;
            x.swap((i, c), (j, c2));
            raw(&x)
        }),
        7 => run(e("matrix write by iterator", d), || {
            let mut x = a.clone();
            x.get_row_iter_mut(i).for_each(|v| *v += s);
            x.get_col_iter_mut(c).for_each(|v| *v += s);
            let n = (x.get_row_iter_mut(j).count(), x.get_col_iter_mut(c2).count());
            // all items of one iterator alive at once
            let mut all: Vec<&mut C> = x.get_col_iter_mut(c).collect();
            all.reverse();
            if let Some(v) = all.first_mut() {
                **v = s;
            }
            format!("{} {:?}", raw(&x), n)
        }),
        8 => run(e("row operations", d), || {
            let mut x = a.clone();
            x.scale_row(i, s);
            x.permute_rows(i, j);
            x.replace_row(i, j, s);
            raw(&x)
        }),
        9 => {
            let n = if r.chance(1, 2) { a.rows().min(6) } else { a.rows().min(24) };
            let pv: Vec<usize> = (0..n).map(|_| r.below(n + off)).collect();
            run(e("elementary matrices", format!("{} ; {:?}", d, pv)), || {
                let q: Vec<Mat<C>> = vec![
                    Mat::scale_mat(n, i.min(9), s),
                    Mat::permutation(n, i.min(9), j),
                    Mat::replacement(n, i.min(9), j, s),
                    Mat::permutation_from_vec(pv.clone()),
                    Mat::identity(n),
                    Mat::zero(n, 3),
                    Mat::e(i.min(9), n),
                ];
                q.iter().map(raw).collect::<Vec<_>>().join(" ")
            })
        }
        10 => run(e("matrix predicates", format!("{} ; {}", d, raw(&b))), || format!("{} {} {} {} {}", a.is_upper_triangular(), a.is_lower_triangular(), a == b, a.zero_rows(), a.epsilon_equals(&b))),
        11 => run(e("matrix norms", format!("{} ; {}", d, raw(&b))), || format!("{} {}", a.dot(&b), a.frobenius_norm())),
        12 => run(e("matrix from vectors", format!("{} ; {}", d, raw(&b))), || {
            let vs = vec![a.get_row(0), b.get_row(0), a.get_col(0)];
            format!("{} {}", raw(&Mat::from_row_vectors(&vs[..2])), raw(&Mat::from_col_vectors(&vs[if hostile { 0 } else { 2 }..])))
        }),
        13 => run(e("pivot", d), || format!("{:?}", a.get_stable_column_index_under_row(c, j).map(|(k, v)| (k, v.to_string())))),
        _ => run(e("show matrix", d), || format!("{}", a)),
    }
}
fn form<C: Coef, const ECH: bool, const RED: bool>(f: &RowEquivalentForm<C, ECH, RED>) -> String {
    hook::parts(f).map(|(p, b, _)| format!("{} {}", raw(&p), raw(&b))).unwrap_or_default()
}
fn elim<C: Coef>(r: &mut Rng, hostile: bool) -> Event {
    let a: Mat<C> = if hostile && r.chance(1, 4) {
        misfit(r)
    } else if hostile && r.chance(1, 6) {
        let (n, m) = (size(r, 5).min(20), size(r, 5).min(20));
        gen_mat(r, n, m)
    } else {
        gen_lin_rng(r)
    };
    let d = format!("[{}] {}", C::NAME, raw(&a));
    match r.below(4) {
        0 => run(e("lu", d), || {
            let f = a.lu();
            format!("{} {} {}", raw(&f.p), raw(&f.l), raw(&f.u))
        }),
        1 => run(e("row echelon form", d), || {
            let f = a.row_echelon();
            let (x, y) = (f.rank(), f.nullity());
            format!("{} {} {}", x, y, form(&f))
        }),
        2 => run(e("reduced row echelon form", d), || {
            let f = a.row_echelon().to_rref();
            format!("{} {}", f.rank(), form(&f))
        }),
        _ => run(e("kernel and range", d), || {
            let f = a.row_echelon().to_rref();
            format!("{} ; {}", nms(&f.compute_kernel()), nms(&f.compute_range()))
        }),
    }
}
fn cone(r: &mut Rng, hostile: bool) -> Event {
    let n = r.usz(1, 3);
    let k = if n < 3 && r.chance(1, 10) { r.usz(6, 12) } else { r.usz(if hostile { 0 } else { 1 }, 5) };
    let g: Vec<Mat<Rational>> = (0..k)
        .map(|_| {
            let n = if hostile && r.chance(1, 10) { r.below(4) } else { n };
            Mat::new(n, 1, (0..n).map(|_| rat(r.range(-2, 2), 1)).collect())
        })
        .collect();
    run(e("cone", g.iter().map(sm).collect::<Vec<_>>().join(" ")), || {
        let c = Cone::new(g.clone());
        match hook::cone(&c) {
            Some(c) => {
                let mut f: Vec<String> = c.facets.iter().map(|(n, g)| format!("{} {}", raw(n), nms(g))).collect();
                f.sort();
                format!("{} {} {} {}", c.ambient, c.dim, nms(&c.orth), f.join(" ; "))
            }
            None => String::new(),
        }
    })
}
fn util(r: &mut Rng, hostile: bool) -> Event {
    match r.below(4) {
        0 => {
            let (a, b) = (size(r, 5), r.below(6));
            run(e("box", format!("{} {}", a, b)), || format!("{:?}", get_box_iter(a, b).collect::<Vec<_>>()))
        }
        1 => {
            let (n, b) = (r.int(if hostile { 63 } else { 20 }).unsigned_abs() as usize, if hostile { r.below(5) } else { r.usz(2, 12) });
            run(e("digits", format!("{} {}", n, b)), || format!("{:?}", num_to_seq(n, b).take(70).collect::<Vec<_>>()))
        }
        2 => {
            let k = if r.chance(1, 5) { size(r, 4) } else { r.below(5) + if hostile { 0 } else { 1 } };
            let v: Vec<i64> = (0..k).map(|_| r.range(-3, 3)).collect();
            run(e("max index", format!("{:?}", v)), || format!("{}", v[get_max_index(v.iter(), |a, b| Some(a.cmp(b)))]))
        }
        _ => {
            let (n, m) = (r.below(3), r.below(3));
            let k = r.usz(if hostile { 0 } else { 1 }, 3);
            let v: Vec<F7> = (0..k).map(|i| Fp(i as u64)).collect();
            run(e("matrix enumeration", format!("{} {} {:?}", n, m, v)), || mat_iterator(n, m, &v).take(100).map(|x| raw(&x)).collect::<Vec<_>>().join(" "))
        }
    }
}

pub fn event(r: &mut Rng, hostile: bool) -> Event {
    match r.below(20) {
        0 | 1 | 2 => num(r, hostile),
        3 | 4 => mdeg(r, hostile),
        5 | 6 => poly::<Rational>(r, hostile),
        7 => poly::<F7>(r, hostile),
        8 => poly::<f64>(r, hostile),
        9 => display(r, hostile),
        10 => match r.below(4) {
            0 => comp::<F32003, Lex>(r, hostile),
            1 => comp::<F7, GrLex>(r, hostile),
            2 => comp::<F7, GRevLex>(r, hostile),
            _ => comp::<F2, RevLex>(r, hostile),
        },
        11 => match r.below(3) {
            0 => comp::<Rational, Lex>(r, hostile),
            1 => comp::<Rational, GrLex>(r, hostile),
            _ => comp::<Rational, GRevLex>(r, hostile),
        },
        12 | 13 => matrix::<Rational>(r, hostile),
        14 => matrix::<f64>(r, hostile),
        15 => matrix::<F7>(r, hostile),
        16 => elim::<Rational>(r, hostile),
        17 => elim::<F7>(r, hostile),
        18 => {
            if r.chance(1, 2) {
                cone(r, hostile)
            } else {
                elim::<f64>(r, hostile)
            }
        }
        _ => util(r, hostile),
    }
}

// ------------------------------------------------------------ purity runs

fn one(seed: u64, i: u64) -> Event {
    let mut r = Rng::new(seed ^ crate::rt::mix(i.wrapping_add(0x51ed)));
    // one in four may be refused: a refusal must leave nothing behind
    event(&mut r, i % 4 == 3)
}
/// results of the events 0..n, evaluated in the given order; prints one line
/// per event: index, hash of the result
pub fn purity(seed: u64, n: u64, order: &str, threads: usize, show: Option<u64>) {
    use std::sync::Mutex;
    if let Some(i) = show {
        let v = one(seed, i);
        println!("{}\t{}\t{}", v.op, v.input, v.result);
        return;
    }
    if order == "stress" {
        return stress(seed, n, threads);
    }
    let mut idx: Vec<u64> = (0..n).collect();
    let mut shuf = Rng::new(seed ^ crate::rt::hash_bytes(order.as_bytes()));
    match order {
        "forward" => {}
        "reverse" => idx.reverse(),
        // each twice in a row, and again after its successor
        "echo" => idx = idx.iter().flat_map(|&i| [i, i, (i + 1) % n, i]).collect(),
        _ => shuf.shuffle(&mut idx),
    }
    let out: Mutex<Vec<(u64, usize, u64)>> = Mutex::new(vec![]);
    let ops: Mutex<std::collections::BTreeMap<&'static str, u64>> = Mutex::new(Default::default());
    if threads <= 1 {
        for &i in &idx {
            let v = one(seed, i);
            out.lock().unwrap().push((i, 0, crate::rt::hash_bytes(v.result.as_bytes())));
            *ops.lock().unwrap().entry(v.op).or_insert(0) += 1;
        }
    } else {
        // every thread evaluates every event, each in an order of its own
        std::thread::scope(|s| {
            for t in 0..threads {
                let mut mine = idx.clone();
                let mut r = Rng::new(seed ^ 977 * (t as u64 + 1));
                // neighbours in the order stay close, so that the threads meet
                // on the same events at about the same time
                for c in mine.chunks_mut(16) {
                    r.shuffle(c);
                }
                let (out, ops) = (&out, &ops);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut loc = vec![];
                        for i in mine {
                            let v = one(seed, i);
                            loc.push((i, t, crate::rt::hash_bytes(v.result.as_bytes())));
                            if t == 0 {
                                *ops.lock().unwrap().entry(v.op).or_insert(0) += 1;
                            }
                            if r.chance(1, 7) {
                                std::thread::yield_now();
                            }
                        }
                        out.lock().unwrap().extend(loc);
                    })
                    .unwrap();
            }
        });
    }
    let mut v = out.into_inner().unwrap();
    v.sort();
    let mut s = String::new();
    for (i, t, h) in v {
        s.push_str(&format!("{} {} {:016x}\n", i, t, h));
    }
    for (k, n) in ops.into_inner().unwrap() {
        s.push_str(&format!("# {}\t{}\n", k, n));
    }
    print!("{}", s);
}

/// calls of the same operation with different operands, each repeated by a
/// thread of its own at the same time as the others
fn stress(seed: u64, n: u64, threads: usize) {
    use std::sync::{Barrier, Mutex};
    use std::time::{Duration, Instant};
    type Group = Vec<(u64, u64)>;
    let mut groups: std::collections::BTreeMap<(&'static str, bool), Group> = Default::default();
    for i in 0..n {
        let begin = Instant::now();
        let v = one(seed, i);
        let short = begin.elapsed() < Duration::from_micros(300);
        let h = crate::rt::hash_bytes(v.result.as_bytes());
        println!("{} 0 {:016x}", i, h);
        let g = groups.entry((v.op, i % 4 == 3)).or_default();
        if short && !v.panicked && g.len() < 200 {
            g.push((i, h));
        }
    }
    let groups: Vec<Group> = groups.into_values().filter(|g| g.len() >= 2).collect();
    let deadline = Instant::now() + Duration::from_secs(20);
    let wrong: Mutex<Vec<(u64, usize, u64)>> = Mutex::new(vec![]);
    let calls: Mutex<u64> = Mutex::new(0);
    let start = Barrier::new(threads);
    std::thread::scope(|s| {
        for t in 0..threads {
            let (groups, wrong, calls, start) = (&groups, &wrong, &calls, &start);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut sum = 0;
                    // a fixed number of rounds: the threads meet at the barrier
                    for round in 0..12 {
                        for g in groups {
                            start.wait();
                            let begin = Instant::now();
                            let (i, h) = g[(round * threads + t) % g.len()];
                            while begin.elapsed() < Duration::from_millis(8) && begin < deadline {
                                let v = one(seed, i);
                                let got = crate::rt::hash_bytes(v.result.as_bytes());
                                sum += 1;
                                if got != h {
                                    wrong.lock().unwrap().push((i, t + 1, got));
                                    break;
                                }
                            }
                        }
                    }
                    *calls.lock().unwrap() += sum;
                })
                .unwrap();
        }
    });
    for (i, t, h) in wrong.into_inner().unwrap() {
        println!("{} {} {:016x}", i, t, h);
    }
    println!("# stress calls\t{}", calls.into_inner().unwrap());
}

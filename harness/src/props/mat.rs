//! L01, L02, L03, L12: matrix algebra, constructors, access, predicates.

use crate::{ck, when};
use crate::fields::*;
use crate::model::{MMat, Ring, Q};
use crate::rt::*;
use algeo::core::num::{EpsilonEquality, Rational};
use algeo::linalg::mat::Mat;

pub fn mm<C: Coef>(m: &Mat<C>) -> Result<MMat<C::M>, String> {
    let (r, c) = (m.rows(), m.cols());
    if m.entries().len() != r * c {
        return Err(format!("a {}x{} matrix holds {} entries", r, c, m.entries().len()));
    }
    let mut a = Vec::new();
    for i in 0..r {
        let mut row = Vec::new();
        for j in 0..c {
            match m.entries()[i * c + j].m() {
                Some(v) => row.push(v),
                None => return Err(format!("entry ({}, {}) is {:?}, which is not a number", i, j, m.entries()[i * c + j])),
            }
        }
        a.push(row);
    }
    Ok(MMat { r, c, a })
}
pub fn sm<C: Coef>(m: &Mat<C>) -> String {
    if m.rows() == 0 || m.cols() == 0 {
        return format!("({}x{})", m.rows(), m.cols());
    }
    format!("[{}]", m.entries().chunks(m.cols()).map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>().join("; "))
}
pub fn smm<M: Ring>(m: &MMat<M>) -> String {
    format!("{}x{} {:?}", m.r, m.c, m.a)
}
pub fn gen_dim(r: &mut Rng) -> usize {
    *r.pick(&[1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 8])
}
/// dimensions that are mostly small, sometimes long in some of them
pub fn gen_dims<const N: usize>(r: &mut Rng) -> [usize; N] {
    let mut d = [0; N];
    d.iter_mut().for_each(|x| *x = gen_dim(r));
    if r.chance(1, 60) {
        let k = r.below(N);
        let top = *r.pick(&[20, 40, 70, 140]);
        d[k] = r.usz(9, top);
        for (i, x) in d.iter_mut().enumerate() {
            if i != k {
                *x = if r.chance(1, 4) { r.usz(5, 20) } else { (*x).min(3) };
            }
        }
    }
    if r.chance(1, 400) {
        // long in all of them
        let top = *r.pick(&[18, 35, 35, 70]);
        d.iter_mut().for_each(|x| *x = r.usz(top / 2, top));
    }
    if r.chance(1, 1500) {
        // beyond one byte
        let k = r.below(N);
        d.iter_mut().for_each(|x| *x = (*x).min(3));
        d[k] = r.usz(250, 320);
    }
    d
}
pub fn gen_mat<C: Coef>(r: &mut Rng, rows: usize, cols: usize) -> Mat<C> {
    let style = r.below(6);
    let e = (0..rows * cols)
        .map(|_| match style {
            0 => {
                if r.chance(1, 2) {
                    C::ZERO
                } else {
                    C::small(r)
                }
            }
            1 => {
                if r.chance(1, 2) {
                    C::ONE
                } else {
                    C::ZERO
                }
            }
            2 => C::wide(r),
            _ => C::small(r),
        })
        .collect();
    Mat::new(rows, cols, e)
}
fn val<C: Coef>(cx: &mut Ctx, what: &str, d: &str, m: &Mat<C>) -> Result<MMat<C::M>, Fail> {
    match mm(m) {
        Ok(v) => Ok(v),
        Err(e) => {
            cx.checks += 1;
            Err(Fail::Violation(format!("{}:malformed", what), format!("{} on {}: {}", what, d, e)))
        }
    }
}
pub fn given<C: Coef>(m: &Mat<C>) -> Result<MMat<C::M>, Fail> {
    mm(m).map_err(|_| Fail::Skip("operand is not a number"))
}

// ------------------------------------------------------------ L01

fn l01<C: Coef>(cx: &mut Ctx) -> Res {
    let mut dims: [usize; 3] = gen_dims(&mut cx.rng);
    dims.iter_mut().for_each(|x| *x = if cx.rng.chance(1, 25) { 0 } else { *x });
    let [r, k, c] = dims;
    cx.tag_if(r.max(k).max(c) > 8, "a dimension above 8");
    let a: Mat<C> = gen_mat(&mut cx.rng, r, k);
    let b: Mat<C> = gen_mat(&mut cx.rng, r, k);
    let m: Mat<C> = gen_mat(&mut cx.rng, k, c);
    let s = C::small(&mut cx.rng);
    let d = format!("[{}] {}x{} {} ; {} ; {}x{} {} ; {}", C::NAME, r, k, sm(&a), sm(&b), k, c, sm(&m), s);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = C::NAME != "Rational";
    let (x, y, z, t) = (given(&a)?, given(&b)?, given(&m)?, s.m().unwrap());
    let sum = x.add(&y);
    let prod = x.mul(&z);
    for (form, g) in [
        ("&a + &b", cx.call("add", || d.clone(), || &a + &b)?),
        ("a + b", cx.call("add", || d.clone(), || a.clone() + b.clone())?),
        ("a + &b", cx.call("add", || d.clone(), || a.clone() + &b)?),
        ("&a + b", cx.call("add", || d.clone(), || &a + b.clone())?),
        ("&b + &a", cx.call("add", || d.clone(), || &b + &a)?),
    ] {
        let g = val(cx, "add", &d, &g)?;
        ck!(cx, g == sum, "mat:add", "{} on {} = {} instead of {}", form, d, smm(&g), smm(&sum));
    }
    for (form, g) in [
        ("&a * &b", cx.call("mul", || d.clone(), || &a * &m)?),
        ("a * b", cx.call("mul", || d.clone(), || a.clone() * m.clone())?),
        ("a * &b", cx.call("mul", || d.clone(), || a.clone() * &m)?),
        ("&a * b", cx.call("mul", || d.clone(), || &a * m.clone())?),
    ] {
        let g = val(cx, "mul", &d, &g)?;
        ck!(cx, g == prod, "mat:mul", "{}: {} * {} = {} instead of {}", form, sm(&a), sm(&m), smm(&g), smm(&prod));
    }
    // both operands the same object
    {
        let g = cx.call("add", || d.clone(), || &a + &a)?;
        let g = val(cx, "add", &d, &g)?;
        ck!(cx, g == x.add(&x), "mat:add", "{} + itself = {}", sm(&a), smm(&g));
        if r == k {
            let g = cx.call("mul", || d.clone(), || &a * &a)?;
            let g = val(cx, "mul", &d, &g)?;
            ck!(cx, g == x.mul(&x), "mat:mul", "{} * itself = {}", sm(&a), smm(&g));
            cx.tag("square of one object");
        }
    }
    let scaled = MMat::from_fn(r, k, |i, j| x.a[i][j].mul(&t));
    for (form, g) in [
        ("&a * s", cx.call("scalar", || d.clone(), || &a * s)?),
        ("a * s", cx.call("scalar", || d.clone(), || a.clone() * s)?),
        (
            "a *= s",
            cx.call("scalar", || d.clone(), || {
                let mut g = a.clone();
                g *= s;
                g
            })?,
        ),
        (
            "scale",
            cx.call("scalar", || d.clone(), || {
                let mut g = a.clone();
                g.scale(s);
                g
            })?,
        ),
    ] {
        let g = val(cx, "scalar", &d, &g)?;
        ck!(cx, g == scaled, "mat:scalar", "{}: {} times {} = {}", form, sm(&a), s, smm(&g));
    }
    let tr = cx.call("transpose", || d.clone(), || a.transpose())?;
    let g = val(cx, "transpose", &d, &tr)?;
    ck!(cx, g == x.transpose(), "mat:transpose", "transpose of {}x{} {} is {}", r, k, sm(&a), smm(&g));
    let back = cx.call("transpose", || d.clone(), || tr.transpose())?;
    ck!(cx, back == a, "mat:transpose2", "double transpose of {}x{} {} is {}", r, k, sm(&a), sm(&back));
    // incompatible shapes are refused
    let form = cx.rng.below(4);
    let bad: Mat<C> = gen_mat(&mut cx.rng, k + 1, c.max(1));
    cx.must_panic("multiplication of incompatible shapes", || format!("{}x{} by {}x{}", r, k, k + 1, c.max(1)), || match form {
        0 => &a * &bad,
        1 => a.clone() * bad.clone(),
        2 => a.clone() * &bad,
        _ => &a * bad.clone(),
    })?;
    let (br, bc) = match cx.rng.below(3) {
        0 => (r + 1, k),
        1 => (r, k + 1),
        _ if r != k => (k, r),
        _ => (r + 1, k + 1),
    };
    let bad: Mat<C> = gen_mat(&mut cx.rng, br, bc);
    cx.must_panic("addition of incompatible shapes", || format!("{}x{} and {}x{}", r, k, br, bc), || match form {
        0 => &a + &bad,
        1 => a.clone() + bad.clone(),
        2 => a.clone() + &bad,
        _ => &a + bad.clone(),
    })?;
    cx.tag_if(r != k || k != c, "rectangular");
    cx.tag_if(r * k * c == 0, "empty dimension");
    // equality is entrywise on equal shapes
    let eq = cx.call("==", || d.clone(), || (a == b, a == a.clone(), a == tr))?;
    ck!(cx, eq == (x == y, true, x == x.transpose()), "mat:eq", "equality on {} and {} = {:?}", sm(&a), sm(&b), eq);
    Ok(())
}

// ------------------------------------------------------------ L02

fn l02<C: Coef>(cx: &mut Ctx) -> Res {
    let [r, c] = gen_dims(&mut cx.rng);
    let a: Mat<C> = gen_mat(&mut cx.rng, r, c);
    let (i, j) = (cx.rng.below(r), cx.rng.below(r));
    let s = C::small(&mut cx.rng);
    let d = format!("[{}] rows {} and {}, scalar {}, matrix {}x{} {}", C::NAME, i, j, s, r, c, sm(&a));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = C::NAME != "Rational";
    let (x, t) = (given(&a)?, s.m().unwrap());
    let (z, o) = (C::M::zero, C::M::one);
    let id = |p: usize, q: usize| if p == q { o() } else { z() };
    macro_rules! same {
        ($name:expr, $e:expr, $w:expr) => {{
            let g = cx.call($name, || d.clone(), || $e)?;
            let v = val(cx, $name, &d, &g)?;
            let w = $w;
            ck!(cx, v == w, format!("mat:{}", $name), "{} for {} gives {} instead of {}", $name, d, smm(&v), smm(&w));
            g
        }};
    }
    same!("identity", Mat::<C>::identity(r), MMat::identity(r));
    same!("zero", Mat::<C>::zero(r, c), MMat::from_fn(r, c, |_, _| z()));
    same!("e", Mat::<C>::e(i, r), MMat::from_fn(r, 1, |p, _| id(p, i)));
    let sc = same!("scale_mat", Mat::<C>::scale_mat(r, i, s), MMat::from_fn(r, r, |p, q| if p == q && p == i { t.clone() } else { id(p, q) }));
    let sw = |p: usize| {
        if p == i {
            j
        } else if p == j {
            i
        } else {
            p
        }
    };
    let pm = same!("permutation", Mat::<C>::permutation(r, i, j), MMat::from_fn(r, r, |p, q| id(sw(p), q)));
    let mut perm: Vec<usize> = (0..r).collect();
    cx.rng.shuffle(&mut perm);
    let pv = same!("permutation_from_vec", Mat::<C>::permutation_from_vec(perm.clone()), MMat::from_fn(r, r, |p, q| id(perm[p], q)));
    same!("permutation_from_vec * a", &pv * &a, MMat::from_fn(r, c, |p, q| x.a[perm[p]][q].clone()));
    // in-place row operations and the products with their elementary matrices
    let want = MMat::from_fn(r, c, |p, q| if p == i { x.a[p][q].mul(&t) } else { x.a[p][q].clone() });
    same!("scale_row", { let mut g = a.clone(); g.scale_row(i, s); g }, want.clone());
    same!("scale_mat * a", &sc * &a, want);
    let want = MMat::from_fn(r, c, |p, q| x.a[sw(p)][q].clone());
    same!("permute_rows", { let mut g = a.clone(); g.permute_rows(i, j); g }, want.clone());
    same!("permutation * a", &pm * &a, want);
    {
        // adds s times row i to row j (also to itself)
        let rp = same!("replacement", Mat::<C>::replacement(r, i, j, s), MMat::from_fn(r, r, |p, q| if p == j && q == i { id(p, q).add(&t) } else { id(p, q) }));
        let want = MMat::from_fn(r, c, |p, q| if p == j { x.a[p][q].add(&x.a[i][q].mul(&t)) } else { x.a[p][q].clone() });
        same!("replace_row", { let mut g = a.clone(); g.replace_row(i, j, s); g }, want.clone());
        same!("replacement * a", &rp * &a, want);
        cx.tag(if i != j { "distinct rows" } else { "a row and itself" });
    }
    // from vectors
    let cols: Vec<Mat<C>> = (0..c).map(|q| Mat::new(r, 1, (0..r).map(|p| a.entries()[p * c + q]).collect())).collect();
    let rows: Vec<Mat<C>> = (0..r).map(|p| Mat::new(c, 1, (0..c).map(|q| a.entries()[p * c + q]).collect())).collect();
    same!("from_col_vectors", Mat::from_col_vectors(&cols), x.clone());
    same!("from_row_vectors", Mat::from_row_vectors(&rows), x.clone());
    let flat = a.entries().to_vec();
    same!("from iterator", Mat::from(flat.iter().copied()), MMat::from_fn(r * c, 1, |p, _| x.a[p / c][p % c].clone()));
    let g = cx.call("new", || d.clone(), || Mat::new(r, c, flat.clone()))?;
    ck!(cx, g == a && g.rows() == r && g.cols() == c && g.entries() == &flat[..], "mat:new", "new matrix of {} is {}", d, sm(&g));
    cx.tag_if(r != c, "rectangular");
    Ok(())
}

// ------------------------------------------------------------ L03

fn l03<C: Coef>(cx: &mut Ctx) -> Res {
    let [r, c] = gen_dims(&mut cx.rng);
    let a: Mat<C> = gen_mat(&mut cx.rng, r, c);
    let (i, j) = (cx.rng.below(r), cx.rng.below(c));
    let (p, q) = (cx.rng.below(r), cx.rng.below(c));
    let s = C::small(&mut cx.rng);
    let d = format!("[{}] {}x{} {} at ({}, {})", C::NAME, r, c, sm(&a), i, j);
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = true;
    let e = a.entries().to_vec();
    let at = |p: usize, q: usize| e[p * c + q];
    let got = cx.call("read", || d.clone(), || {
        (
            a[(i, j)],
            *a.get_unchecked(i, j),
            a.get_row_iter(i).copied().collect::<Vec<C>>(),
            a.get_col_iter(j).copied().collect::<Vec<C>>(),
            a.get_row(i),
            a.get_col(j),
            a.index_iter().collect::<Vec<_>>(),
            (a.rows(), a.cols()),
        )
    })?;
    let row: Vec<C> = (0..c).map(|q| at(i, q)).collect();
    let col: Vec<C> = (0..r).map(|p| at(p, j)).collect();
    ck!(cx, got.0 == at(i, j) && got.1 == at(i, j), "access:read", "reading {} gives {} and {}", d, got.0, got.1);
    ck!(cx, got.2 == row, "access:row-iter", "row {} of {} is {:?}", i, d, got.2);
    ck!(cx, got.3 == col, "access:col-iter", "column {} of {} is {:?}", j, d, got.3);
    ck!(cx, got.4.entries() == &row[..] && (got.4.rows(), got.4.cols()) == (c, 1), "access:row", "row {} of {} as a vector is {}", i, d, sm(&got.4));
    ck!(cx, got.5.entries() == &col[..] && (got.5.rows(), got.5.cols()) == (r, 1), "access:col", "column {} of {} as a vector is {}", j, d, sm(&got.5));
    let all: Vec<(usize, usize)> = (0..r * c).map(|k| (k / c, k % c)).collect();
    ck!(cx, got.6 == all && got.7 == (r, c), "access:indices", "indices of {} are {:?}", d, got.6);
    // writes change what they name and nothing else
    macro_rules! write {
        ($name:expr, |$m:ident| $e:expr, $f:expr) => {{
            let mut $m = a.clone();
            cx.call($name, || d.clone(), || $e)?;
            let f = $f;
            let want: Vec<C> = (0..r * c).map(|k| f(k / c, k % c)).collect();
            ck!(cx, $m.entries() == &want[..] && ($m.rows(), $m.cols()) == (r, c), format!("access:{}", $name), "{} on {} gives {} instead of {:?}", $name, d, sm(&$m), want);
        }};
    }
    write!("write", |m| m[(i, j)] = s, |x, y| if (x, y) == (i, j) { s } else { at(x, y) });
    write!("write unchecked", |m| *m.get_mut_unchecked(i, j) = s, |x, y| if (x, y) == (i, j) { s } else { at(x, y) });
    write!("swap", |m| m.swap((i, j), (p, q)), |x, y| if (x, y) == (i, j) { at(p, q) } else if (x, y) == (p, q) { at(i, j) } else { at(x, y) });
    let vals: Vec<C> = (0..r.max(c)).map(|_| C::small(&mut cx.rng)).collect();
    write!("write row", |m| m.get_row_iter_mut(i).zip(&vals).for_each(|(x, v)| *x = *v), |x: usize, y: usize| if x == i { vals[y] } else { at(x, y) });
    write!("write column", |m| m.get_col_iter_mut(j).zip(&vals).for_each(|(x, v)| *x = *v), |x: usize, y: usize| if y == j { vals[x] } else { at(x, y) });
    let n = {
        let mut m = a.clone();
        cx.call("iterator lengths", || d.clone(), || (m.get_row_iter_mut(i).count(), m.get_col_iter_mut(j).count()))?
    };
    ck!(cx, n == (c, r), "access:lengths", "mutable iterators of {} have {:?} items", d, n);
    // rows beyond the end are refused
    let over = r + cx.rng.below(3);
    cx.must_panic("access beyond the last row", || format!("{} row {}", d, over), || a[(over, j)])?;
    cx.must_panic("row iterator beyond the last row", || format!("{} row {}", d, over), || a.get_row_iter(over).count())?;
    match cx.rng.below(6) {
        0 => cx.must_panic("write beyond the last row", || format!("{} row {}", d, over), || {
            let mut m = a.clone();
            m[(over, j)] = s
        })?,
        1 => cx.must_panic("swap beyond the last row", || format!("{} row {}", d, over), || {
            let mut m = a.clone();
            m.swap((over, j), (i, j))
        })?,
        2 => cx.must_panic("swap beyond the last row", || format!("{} row {}", d, over), || {
            let mut m = a.clone();
            m.swap((i, j), (over, j))
        })?,
        3 => cx.must_panic("mutable row iterator beyond the last row", || format!("{} row {}", d, over), || a.clone().get_row_iter_mut(over).count())?,
        4 => cx.must_panic("row beyond the last row", || format!("{} row {}", d, over), || a.get_row(over))?,
        _ => cx.must_panic("unchecked access beyond the last row", || format!("{} row {}", d, over), || (*a.get_unchecked(over, j), *a.clone().get_mut_unchecked(over, j)))?,
    };
    cx.tag_if(r != c, "rectangular");
    Ok(())
}

// ------------------------------------------------------------ L12

fn l12<C: Coef>(cx: &mut Ctx) -> Res {
    let [r, c] = gen_dims(&mut cx.rng);
    let a0: Mat<C> = gen_mat(&mut cx.rng, r, c);
    // plant triangular shapes, possibly with one intruder
    let style = cx.rng.below(5);
    let mut e = a0.entries().to_vec();
    for i in 0..r {
        for j in 0..c {
            if (style == 1 && j < i) || (style == 2 && j > i) || (style == 3 && i != j) {
                e[i * c + j] = C::ZERO;
            }
        }
    }
    if cx.rng.chance(1, 2) {
        let k = cx.rng.below(e.len());
        e[k] = C::small_nz(&mut cx.rng);
    }
    let a = Mat::new(r, c, e);
    let b: Mat<C> = gen_mat(&mut cx.rng, r, c);
    let d = format!("[{}] {}x{} {}", C::NAME, r, c, sm(&a));
    cx.key(&d);
    cx.sample(|| d.clone());
    cx.strict = C::NAME != "Rational";
    let (x, y) = (given(&a)?, given(&b)?);
    let up = (0..r).all(|i| (0..c).all(|j| j >= i || x.a[i][j].is_zero()));
    let lo = (0..r).all(|i| (0..c).all(|j| j <= i || x.a[i][j].is_zero()));
    let got = cx.call("triangular", || d.clone(), || (a.is_upper_triangular(), a.is_lower_triangular()))?;
    ck!(cx, got == (up, lo), "mat:triangular", "upper/lower triangular on {} = {:?}", d, got);
    cx.tag_if(up && !lo, "upper triangular");
    cx.tag_if(lo && !up, "lower triangular");
    let zr = x.a.iter().filter(|r| r.iter().all(|v| v.is_zero())).count();
    let got = cx.call("zero_rows", || d.clone(), || a.zero_rows())?;
    ck!(cx, got == zr, "mat:zero_rows", "{} has {} zero rows, not {}", d, zr, got);
    cx.tag_if(zr > 0, "zero rows");
    let mut dot = C::M::zero();
    let mut nrm = C::M::zero();
    for (u, v) in x.a.iter().flatten().zip(y.a.iter().flatten()) {
        dot = dot.add(&u.mul(v));
        nrm = nrm.add(&u.mul(u));
    }
    if let Ok(g) = keep(cx.call("dot", || d.clone(), || a.dot(&b)))? {
        ck!(cx, g.m() == Some(dot.clone()), "mat:dot", "dot product of {} and {} = {} instead of {:?}", d, sm(&b), g, dot);
    }
    if let Ok(g) = keep(cx.call("norm", || d.clone(), || a.frobenius_norm()))? {
        ck!(cx, g.m() == Some(nrm.clone()), "mat:norm", "sum of squares of {} = {} instead of {:?}", d, g, nrm);
    }
    Ok(())
}
/// out-of-range arithmetic does not end the case
fn keep<T>(r: Result<T, Fail>) -> Result<Result<T, ()>, Fail> {
    match r {
        Ok(v) => Ok(Ok(v)),
        Err(Fail::Skip(_)) => Ok(Err(())),
        Err(e) => Err(e),
    }
}
/// epsilon equality of matrices over ordered fields
fn l12_eps_q(cx: &mut Ctx) -> Res {
    let [r, c] = gen_dims(&mut cx.rng);
    let a: Mat<Rational> = {
        let e = (0..r * c).map(|_| rat(cx.rng.range(-9, 9), cx.rng.range(1, 6))).collect();
        Mat::new(r, c, e)
    };
    let mut e = a.entries().to_vec();
    let changes = cx.rng.below(3);
    for _ in 0..changes {
        let k = cx.rng.below(e.len());
        let q = qof(&e[k]).unwrap().add(&Q::new(cx.rng.range(-2, 2) as i128, cx.rng.range(1, 12) as i128));
        e[k] = ratq(&q);
    }
    let b = Mat::new(r, c, e);
    let d = format!("{} and {}", sm(&a), sm(&b));
    cx.key(&d);
    cx.sample(|| d.clone());
    let want = a.entries() == b.entries();
    let got = cx.call("epsilon_equals", || d.clone(), || (a.epsilon_equals(&b), b.epsilon_equals(&a), a.epsilon_equals(&a)))?;
    ck!(cx, got == (want, want, true), "mat:epsilon", "epsilon equality of {} = {:?}", d, got);
    cx.tag(if want { "equal" } else { "different" });
    let bad = Mat::<Rational>::zero(r + 1, c);
    cx.must_panic("epsilon equality of different shapes", || d.clone(), || a.epsilon_equals(&bad))?;
    Ok(())
}
fn l12_eps_f(cx: &mut Ctx) -> Res {
    let [r, c] = gen_dims(&mut cx.rng);
    let a: Mat<f64> = gen_mat(&mut cx.rng, r, c);
    let mut e = a.entries().to_vec();
    let k = cx.rng.below(e.len());
    let (delta, want) = *cx.rng.pick(&[(0.0, true), (1e-12, true), (-1e-10, true), (1e-3, false), (-0.5, false), (3.0, false)]);
    e[k] += delta;
    let b = Mat::new(r, c, e);
    let d = format!("{} with entry {} changed by {}", sm(&a), k, delta);
    if a.entries()[k].abs() > 1e3 {
        return Err(Fail::Skip("change below the resolution of the entry"));
    }
    cx.key(&d);
    cx.sample(|| d.clone());
    let got = cx.call("epsilon_equals", || d.clone(), || (a.epsilon_equals(&b), b.epsilon_equals(&a)))?;
    ck!(cx, got == (want, want), "mat:epsilon", "epsilon equality of {} = {:?}", d, got);
    Ok(())
}

macro_rules! per_field {
    ($f:ident) => {
        vec![
            random("Rational", 4, $f::<Rational>),
            random("F2", 1, $f::<F2>),
            random("F7", 1, $f::<F7>),
            random("F32003", 2, $f::<F32003>),
            random("F2^61-1", 1, $f::<FM61>),
            random("f64", 2, $f::<f64>),
            random("f32", 1, $f::<f32>),
        ]
    };
}

pub fn props() -> Vec<Prop> {
    let s12 = when!("L12", {
        let mut s = per_field!(l12);
        s.push(random("epsilon equality Rational", 2, l12_eps_q));
        s.push(random("epsilon equality f64", 2, l12_eps_f));
        s.push(random("scaled f64", 2, super::scale::l12::<f64>));
        s.push(random("scaled f32", 1, super::scale::l12::<f32>));
        s
    });
    
vec![
        Prop {
            id: "L01",
            rule: "random matrices of every shape up to 8x8 and empty ones, every operand form of sum, product, scalar product, transposition and equality, incompatible shapes; oracle: entrywise definitions over exact arithmetic. Distinct = distinct (field, operands).",
            streams: when!("L01", {
                let mut s = per_field!(l01);
                s.push(random("scaled f64", 1, super::scale::l01::<f64>));
                s.push(random("scaled f32", 1, super::scale::l01::<f32>));
                s
            }),
            quick: 250_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L02",
            rule: "every constructor and in-place row operation on random shapes and rows, each elementary matrix also multiplied with the operand; oracle: entrywise definitions. Distinct = distinct (field, rows, scalar, matrix).",
            streams: when!("L02", {
                let mut s = per_field!(l02);
                s.push(random("scaled f64", 1, super::scale::l02::<f64>));
                s.push(random("scaled f32", 1, super::scale::l02::<f32>));
                s
            }),
            quick: 200_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L03",
            rule: "every reader and writer on random shapes and positions; the whole matrix is compared after each write; accesses beyond the last row must be refused. Distinct = distinct (field, matrix, position).",
            streams: when!("L03", per_field!(l03)),
            quick: 500_000,
            min_distinct: 10_000,
        },
        Prop {
            id: "L12",
            rule: "random and planted (almost) triangular matrices of every shape; predicates, dot product, sum of squares and epsilon equality against their definitions. Distinct = distinct (field, matrix).",
            streams: s12,
            quick: 700_000,
            min_distinct: 10_000,
        },
    ]
}

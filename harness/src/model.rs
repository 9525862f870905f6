//! Executable reference models: exact rationals, multivariate polynomials as
//! maps, textbook monomial orders, an independent Buchberger, and exact
//! linear algebra.  Nothing here uses the code under test.

use crate::rt::harness_range;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub trait Ring: Clone + PartialEq + Debug {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn neg(&self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    /// of nonzero elements
    fn inv(&self) -> Self;
    fn is_zero(&self) -> bool {
        *self == Self::zero()
    }
    fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    fn pow(&self, n: u32) -> Self {
        let mut r = Self::one();
        let mut b = self.clone();
        let mut n = n;
        while n > 0 {
            if n & 1 == 1 {
                r = r.mul(&b);
            }
            n >>= 1;
            if n > 0 {
                b = b.mul(&b);
            }
        }
        r
    }
}

// ------------------------------------------------------------ exact rationals

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}

pub fn gcd128(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            let (mut x, mut y) = (a as u64, b as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return x as i128;
        }
        let t = a % b;
        a = b;
        b = t;
    }
    if a > i128::MAX as u128 {
        harness_range()
    }
    a as i128
}

fn c(x: Option<i128>) -> i128 {
    match x {
        Some(v) => v,
        None => harness_range(),
    }
}

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0);
        let g = gcd128(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: c((n / g).checked_mul(s)), d: c((d / g).checked_mul(s)) }
    }
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    pub fn cmp(&self, o: &Q) -> Ordering {
        c(self.n.checked_mul(o.d)).cmp(&c(o.n.checked_mul(self.d)))
    }
    /// exact value of a float of moderate exponent
    pub fn from_f64(x: f64) -> Option<Q> {
        if !x.is_finite() {
            return None;
        }
        let mut d = 1i128;
        let mut y = x;
        while y != y.trunc() {
            y *= 2.0;
            d = d.checked_mul(2)?;
            if d > 1 << 100 {
                return None;
            }
        }
        if y.abs() > 1e30 {
            return None;
        }
        Some(Q::new(y as i128, d))
    }
    pub fn to_f64(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
}

impl Ring for Q {
    fn zero() -> Q {
        Q { n: 0, d: 1 }
    }
    fn one() -> Q {
        Q { n: 1, d: 1 }
    }
    fn add(&self, o: &Q) -> Q {
        if self.d == 1 && o.d == 1 {
            return Q::int(c(self.n.checked_add(o.n)));
        }
        let g = gcd128(self.d, o.d);
        let (a, b) = (self.d / g, o.d / g);
        Q::new(c(c(self.n.checked_mul(b)).checked_add(c(o.n.checked_mul(a)))), c(self.d.checked_mul(b)))
    }
    fn neg(&self) -> Q {
        Q { n: c(self.n.checked_neg()), d: self.d }
    }
    fn mul(&self, o: &Q) -> Q {
        if self.n == 0 || o.n == 0 {
            return Q::zero();
        }
        let g1 = gcd128(self.n, o.d);
        let g2 = gcd128(o.n, self.d);
        Q { n: c((self.n / g1).checked_mul(o.n / g2)), d: c((self.d / g2).checked_mul(o.d / g1)) }
    }
    fn inv(&self) -> Q {
        assert!(self.n != 0);
        if self.n < 0 {
            Q { n: -self.d, d: c(self.n.checked_neg()) }
        } else {
            Q { n: self.d, d: self.n }
        }
    }
}

// ------------------------------------------------------------ monomials

pub type Mono = Vec<u32>;

pub fn trim(mut m: Mono) -> Mono {
    while m.last() == Some(&0) {
        m.pop();
    }
    m
}
pub fn at(m: &[u32], i: usize) -> u32 {
    m.get(i).copied().unwrap_or(0)
}
pub fn mono_mul(a: &[u32], b: &[u32]) -> Mono {
    let n = a.len().max(b.len());
    trim((0..n).map(|i| at(a, i) + at(b, i)).collect())
}
pub fn mono_divides(a: &[u32], b: &[u32]) -> bool {
    let n = a.len().max(b.len());
    (0..n).all(|i| at(a, i) <= at(b, i))
}
/// a / b
pub fn mono_div(a: &[u32], b: &[u32]) -> Option<Mono> {
    if !mono_divides(b, a) {
        return None;
    }
    Some(trim((0..a.len()).map(|i| at(a, i) - at(b, i)).collect()))
}
pub fn mono_lcm(a: &[u32], b: &[u32]) -> Mono {
    let n = a.len().max(b.len());
    trim((0..n).map(|i| at(a, i).max(at(b, i))).collect())
}
pub fn deg(m: &[u32]) -> u64 {
    m.iter().map(|&d| d as u64).sum()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ord4 {
    Lex,
    RevLex,
    GrLex,
    GRevLex,
}
pub const ORDERS: [Ord4; 4] = [Ord4::Lex, Ord4::RevLex, Ord4::GrLex, Ord4::GRevLex];

/// textbook definitions, on exponent vectors padded with zeros
pub fn mono_cmp(o: Ord4, a: &[u32], b: &[u32]) -> Ordering {
    let n = a.len().max(b.len());
    match o {
        // leftmost nonzero entry of a - b positive => a > b
        Ord4::Lex => {
            for i in 0..n {
                let d = at(a, i) as i64 - at(b, i) as i64;
                if d != 0 {
                    return d.cmp(&0);
                }
            }
            Ordering::Equal
        }
        // rightmost nonzero entry of a - b positive => a > b
        Ord4::RevLex => {
            for i in (0..n).rev() {
                let d = at(a, i) as i64 - at(b, i) as i64;
                if d != 0 {
                    return d.cmp(&0);
                }
            }
            Ordering::Equal
        }
        Ord4::GrLex => deg(a).cmp(&deg(b)).then(mono_cmp(Ord4::Lex, a, b)),
        // same degree: rightmost nonzero entry of a - b negative => a > b
        Ord4::GRevLex => deg(a).cmp(&deg(b)).then(mono_cmp(Ord4::RevLex, b, a)),
    }
}

// ------------------------------------------------------------ polynomials

#[derive(Clone, PartialEq, Debug)]
pub struct MPoly<M: Ring>(pub BTreeMap<Mono, M>);

impl<M: Ring> MPoly<M> {
    pub fn zero() -> Self {
        MPoly(BTreeMap::new())
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn term(m: Mono, c: M) -> Self {
        let mut p = Self::zero();
        p.add_term(&m, &c);
        p
    }
    pub fn add_term(&mut self, m: &[u32], c: &M) {
        if c.is_zero() {
            return;
        }
        let k = trim(m.to_vec());
        match self.0.get_mut(&k) {
            Some(v) => {
                let s = v.add(c);
                if s.is_zero() {
                    self.0.remove(&k);
                } else {
                    *v = s;
                }
            }
            None => {
                self.0.insert(k, c.clone());
            }
        }
    }
    pub fn add(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m, c);
        }
        r
    }
    pub fn neg(&self) -> Self {
        MPoly(self.0.iter().map(|(m, c)| (m.clone(), c.neg())).collect())
    }
    pub fn sub(&self, o: &Self) -> Self {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m, &c.neg());
        }
        r
    }
    pub fn mul_term(&self, m: &[u32], c: &M) -> Self {
        let mut r = Self::zero();
        for (n, d) in &self.0 {
            r.add_term(&mono_mul(m, n), &c.mul(d));
        }
        r
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = Self::zero();
        for (m, c) in &self.0 {
            for (n, d) in &o.0 {
                r.add_term(&mono_mul(m, n), &c.mul(d));
            }
        }
        r
    }
    pub fn scale(&self, c: &M) -> Self {
        self.mul_term(&[], c)
    }
    pub fn lt(&self, o: Ord4) -> Option<(&Mono, &M)> {
        self.0.iter().max_by(|a, b| mono_cmp(o, a.0, b.0))
    }
    pub fn eval(&self, x: &[M]) -> M {
        let mut s = M::zero();
        for (m, c) in &self.0 {
            let mut t = c.clone();
            for (i, &e) in m.iter().enumerate() {
                t = t.mul(&x[i].pow(e));
            }
            s = s.add(&t);
        }
        s
    }
    /// remainder of textbook division by `g` (all nonzero); None when the step budget is gone
    pub fn rem(&self, g: &[&Self], o: Ord4, budget: &mut u64) -> Option<Self> {
        let lts: Vec<(Mono, M)> = g.iter().map(|p| p.lt(o).map(|(m, c)| (m.clone(), c.clone())).unwrap()).collect();
        let mut p = self.clone();
        let mut r = Self::zero();
        while let Some((m, c)) = p.lt(o).map(|(m, c)| (m.clone(), c.clone())) {
            let mut hit = false;
            for (i, (lm, lc)) in lts.iter().enumerate() {
                if let Some(q) = mono_div(&m, lm) {
                    let k = c.mul(&lc.inv()).neg();
                    for (n, d) in &g[i].0 {
                        p.add_term(&mono_mul(&q, n), &k.mul(d));
                    }
                    if *budget < g[i].0.len() as u64 {
                        return None;
                    }
                    *budget -= g[i].0.len() as u64;
                    hit = true;
                    break;
                }
            }
            if !hit {
                if *budget == 0 {
                    return None;
                }
                *budget -= 1;
                p.0.remove(&m);
                r.0.insert(m, c);
            }
        }
        Some(r)
    }
    pub fn monic(&self, o: Ord4) -> Self {
        match self.lt(o) {
            None => Self::zero(),
            Some((_, c)) => self.scale(&c.inv()),
        }
    }
    pub fn spoly(&self, g: &Self, o: Ord4) -> Self {
        let (m, c) = self.lt(o).unwrap();
        let (n, d) = g.lt(o).unwrap();
        let l = mono_lcm(m, n);
        self.mul_term(&mono_div(&l, m).unwrap(), &c.inv()).sub(&g.mul_term(&mono_div(&l, n).unwrap(), &d.inv()))
    }
    pub fn nvars(&self) -> usize {
        self.0.keys().map(|m| m.len()).max().unwrap_or(0)
    }
    pub fn show(&self) -> String {
        if self.0.is_empty() {
            return "0".into();
        }
        let v: Vec<String> = self.0.iter().map(|(m, c)| format!("{:?}*X{:?}", c, m)).collect();
        v.join(" + ")
    }
}

/// the reduced Gröbner basis (monic, inter-reduced), sorted by leading monomial;
/// None when the budget is exhausted
pub fn groebner<M: Ring>(gens: &[MPoly<M>], o: Ord4, budget: &mut u64) -> Option<Vec<MPoly<M>>> {
    let mut g: Vec<MPoly<M>> = gens.iter().filter(|p| !p.is_zero()).map(|p| p.monic(o)).collect();
    let mut pairs: Vec<(usize, usize)> = Vec::new();
    for j in 0..g.len() {
        for i in 0..j {
            pairs.push((i, j));
        }
    }
    while !pairs.is_empty() {
        // normal selection: smallest lcm first
        let k = (0..pairs.len())
            .min_by(|&a, &b| {
                let l = |k: usize| {
                    let (i, j) = pairs[k];
                    mono_lcm(g[i].lt(o).unwrap().0, g[j].lt(o).unwrap().0)
                };
                mono_cmp(o, &l(a), &l(b))
            })
            .unwrap();
        let (i, j) = pairs.swap_remove(k);
        let (mi, mj) = (g[i].lt(o).unwrap().0.clone(), g[j].lt(o).unwrap().0.clone());
        // coprime leading monomials reduce to zero
        if mono_lcm(&mi, &mj) == mono_mul(&mi, &mj) {
            continue;
        }
        let s = g[i].spoly(&g[j], o);
        let r = {
            let refs: Vec<&MPoly<M>> = g.iter().collect();
            s.rem(&refs, o, budget)?
        };
        if !r.is_zero() {
            let n = g.len();
            g.push(r.monic(o));
            if n > 60 {
                return None;
            }
            for i in 0..n {
                pairs.push((i, n));
            }
        }
    }
    interreduce(g, o, budget)
}

/// Work (in visited terms) of a division in its plainest form, and the
/// remainder; None above the limit.  `top` collects the largest exponent met.
pub fn plain_rem<M: Ring>(mut p: MPoly<M>, g: &[MPoly<M>], o: Ord4, limit: u64, top: &mut u32) -> Option<(u64, MPoly<M>)> {
    let mut cost = 0;
    let mut r = MPoly::zero();
    while let Some((m, c)) = p.lt(o).map(|(m, c)| (m.clone(), c.clone())) {
        let q = g.iter().find_map(|x| {
            let (lm, lc) = x.lt(o)?;
            mono_div(&m, lm).map(|q| (x, q, c.mul(&lc.inv())))
        });
        cost += g.len() as u64;
        match q {
            Some((x, q, k)) => {
                cost += (x.0.len() * (p.0.len() + x.0.len())) as u64;
                let t = x.mul_term(&q, &k);
                *top = t.0.keys().flatten().copied().max().unwrap_or(0).max(*top);
                p = p.sub(&t);
            }
            None => {
                cost += p.0.len() as u64;
                p.0.remove(&m);
                r.0.insert(m, c);
            }
        }
        if cost > limit {
            return None;
        }
    }
    Some((cost, r))
}

/// Work (in visited terms) of Buchberger's algorithm in its plainest form,
/// restarting whenever a remainder is added; None above the limit.  Only used
/// to keep workloads affordable.
pub fn plain_cost<M: Ring>(gens: &[MPoly<M>], o: Ord4, limit: u64, top: &mut u32) -> Option<u64> {
    let mut g: Vec<MPoly<M>> = gens.iter().filter(|p| !p.is_zero()).cloned().collect();
    let mut done: std::collections::HashMap<(usize, usize), u64> = Default::default();
    let mut total = 0;
    let mut i = 0;
    'outer: while i < g.len() {
        for j in 0..i {
            let mut cost = *done.get(&(i, j)).unwrap_or(&0);
            if cost == 0 {
                let s = g[i].spoly(&g[j], o);
                *top = s.0.keys().flatten().copied().max().unwrap_or(0).max(*top);
                cost = ((g[i].0.len() + g[j].0.len()) * (g[i].0.len() + g[j].0.len())) as u64;
                let (n, lead) = plain_rem(s, &g, o, limit.saturating_sub(total + cost), top)?;
                cost += n;
                if !lead.is_zero() {
                    let r = lead;
                    total += cost;
                    g.push(r.monic(o));
                    if g.len() > 80 {
                        return None;
                    }
                    i = 0;
                    continue 'outer;
                }
                done.insert((i, j), cost);
            }
            total += cost;
            if total > limit {
                return None;
            }
        }
        i += 1;
    }
    Some(total)
}

pub fn interreduce<M: Ring>(g: Vec<MPoly<M>>, o: Ord4, budget: &mut u64) -> Option<Vec<MPoly<M>>> {
    let mut min: Vec<MPoly<M>> = Vec::new();
    for (i, p) in g.iter().enumerate() {
        let m = p.lt(o).unwrap().0;
        let redundant = g.iter().enumerate().any(|(j, q)| {
            let n = q.lt(o).unwrap().0;
            j != i && mono_divides(n, m) && (n != m || j < i)
        });
        if !redundant {
            min.push(p.clone());
        }
    }
    let mut out = Vec::new();
    for i in 0..min.len() {
        let refs: Vec<&MPoly<M>> = min.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, p)| p).collect();
        out.push(min[i].rem(&refs, o, budget)?.monic(o));
    }
    out.sort_by(|a, b| mono_cmp(o, a.lt(o).unwrap().0, b.lt(o).unwrap().0));
    Some(out)
}

/// is `g` (nonzero polynomials) a Gröbner basis?  All S-polynomials reduce to zero.
/// Whether all S-polynomials reduce to zero; None if reducing them all takes
/// more than `limit` visited terms.
pub fn is_groebner<M: Ring>(g: &[MPoly<M>], o: Ord4, mut limit: u64) -> Option<bool> {
    let mut all = true;
    for j in 0..g.len() {
        for i in 0..j {
            let (cost, r) = plain_rem(g[i].spoly(&g[j], o), g, o, limit, &mut 0)?;
            limit -= cost;
            all &= r.is_zero();
        }
    }
    Some(all)
}

// ------------------------------------------------------------ matrices

#[derive(Clone, PartialEq, Debug)]
pub struct MMat<M: Ring> {
    pub r: usize,
    pub c: usize,
    pub a: Vec<Vec<M>>,
}

impl<M: Ring> MMat<M> {
    pub fn from_fn(r: usize, c: usize, mut f: impl FnMut(usize, usize) -> M) -> Self {
        MMat { r, c, a: (0..r).map(|i| (0..c).map(|j| f(i, j)).collect()).collect() }
    }
    pub fn identity(n: usize) -> Self {
        Self::from_fn(n, n, |i, j| if i == j { M::one() } else { M::zero() })
    }
    pub fn add(&self, o: &Self) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self.a[i][j].add(&o.a[i][j]))
    }
    pub fn mul(&self, o: &Self) -> Self {
        assert_eq!(self.c, o.r);
        Self::from_fn(self.r, o.c, |i, j| {
            let mut s = M::zero();
            for k in 0..self.c {
                if !self.a[i][k].is_zero() && !o.a[k][j].is_zero() {
                    s = s.add(&self.a[i][k].mul(&o.a[k][j]));
                }
            }
            s
        })
    }
    pub fn transpose(&self) -> Self {
        Self::from_fn(self.c, self.r, |i, j| self.a[j][i].clone())
    }
    pub fn is_zero(&self) -> bool {
        self.a.iter().flatten().all(|x| x.is_zero())
    }
    /// unique reduced row echelon form and pivot columns
    pub fn rref(&self) -> (Self, Vec<usize>) {
        let mut m = self.clone();
        let mut piv = Vec::new();
        let mut r = 0;
        for c in 0..m.c {
            let Some(k) = (r..m.r).find(|&i| !m.a[i][c].is_zero()) else { continue };
            m.a.swap(r, k);
            let inv = m.a[r][c].inv();
            for j in c..m.c {
                m.a[r][j] = m.a[r][j].mul(&inv);
            }
            for i in 0..m.r {
                if i != r && !m.a[i][c].is_zero() {
                    let f = m.a[i][c].clone();
                    for j in c..m.c {
                        if !m.a[r][j].is_zero() {
                            let t = f.mul(&m.a[r][j]);
                            m.a[i][j] = m.a[i][j].sub(&t);
                        }
                    }
                }
            }
            piv.push(c);
            r += 1;
            if r == m.r {
                break;
            }
        }
        (m, piv)
    }
    pub fn rank(&self) -> usize {
        self.rref().1.len()
    }
}

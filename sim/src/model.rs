//! Independent reference: multivectors as ordered maps from blade index to coefficient.
use std::collections::BTreeMap;
use std::fmt::Debug;

pub const P: u64 = (1 << 61) - 1;

pub fn fadd(a: u64, b: u64) -> u64 {
    let s = a + b;
    if s >= P { s - P } else { s }
}
pub fn fneg(a: u64) -> u64 {
    if a == 0 { 0 } else { P - a }
}
pub fn fsub(a: u64, b: u64) -> u64 {
    fadd(a, fneg(b))
}
pub fn fmul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn fpow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = fmul(r, a);
        }
        a = fmul(a, a);
        e >>= 1;
    }
    r
}
/// total: 1/0 = 0
pub fn fdiv(a: u64, b: u64) -> u64 {
    fmul(a, fpow(b, P - 2))
}
pub fn from_i(v: i64) -> u64 {
    let m = (v as i128).rem_euclid(P as i128);
    m as u64
}
/// centred representative
pub fn to_i(v: u64) -> i64 {
    if v > P / 2 { v as i64 - P as i64 } else { v as i64 }
}

/// Coefficient ring of a model.
pub trait Rg {
    type V: Clone + PartialEq + Debug + Ord;
    fn zero(&self) -> Self::V;
    fn one(&self) -> Self::V;
    fn add(&self, a: &Self::V, b: &Self::V) -> Self::V;
    fn neg(&self, a: &Self::V) -> Self::V;
    fn mul(&self, a: &Self::V, b: &Self::V) -> Self::V;
    fn is_zero(&self, a: &Self::V) -> bool;
    fn sub(&self, a: &Self::V, b: &Self::V) -> Self::V {
        self.add(a, &self.neg(b))
    }
    /// total division, where there is one
    fn div(&self, _a: &Self::V, _b: &Self::V) -> Option<Self::V> {
        None
    }
}

#[derive(Clone)]
pub struct FpR;
impl Rg for FpR {
    type V = u64;
    fn zero(&self) -> u64 { 0 }
    fn one(&self) -> u64 { 1 }
    fn add(&self, a: &u64, b: &u64) -> u64 { fadd(*a, *b) }
    fn neg(&self, a: &u64) -> u64 { fneg(*a) }
    fn mul(&self, a: &u64, b: &u64) -> u64 { fmul(*a, *b) }
    fn is_zero(&self, a: &u64) -> bool { *a == 0 }
    fn div(&self, a: &u64, b: &u64) -> Option<u64> { Some(fdiv(*a, *b)) }
}

/// Gaussian integers, for exact complex arithmetic on small values.
#[derive(Clone)]
pub struct GiR;
impl Rg for GiR {
    type V = (i64, i64);
    fn zero(&self) -> Self::V { (0, 0) }
    fn one(&self) -> Self::V { (1, 0) }
    fn add(&self, a: &Self::V, b: &Self::V) -> Self::V { (a.0 + b.0, a.1 + b.1) }
    fn neg(&self, a: &Self::V) -> Self::V { (-a.0, -a.1) }
    fn mul(&self, a: &Self::V, b: &Self::V) -> Self::V { (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0) }
    fn is_zero(&self, a: &Self::V) -> bool { *a == (0, 0) }
}

/// Multivectors of an inner algebra as coefficients.
#[derive(Clone)]
pub struct NestR(pub Sig);
impl Rg for NestR {
    type V = Vec<(usize, u64)>;
    fn zero(&self) -> Self::V { vec![] }
    fn one(&self) -> Self::V { vec![(0, 1)] }
    fn add(&self, a: &Self::V, b: &Self::V) -> Self::V {
        to_v(add(&FpR, &of_v(a), &of_v(b)))
    }
    fn neg(&self, a: &Self::V) -> Self::V {
        a.iter().map(|(i, c)| (*i, fneg(*c))).collect()
    }
    fn mul(&self, a: &Self::V, b: &Self::V) -> Self::V {
        to_v(mul(&FpR, &self.0, &of_v(a), &of_v(b)))
    }
    fn is_zero(&self, a: &Self::V) -> bool { a.is_empty() }
}
pub fn of_v(a: &[(usize, u64)]) -> M<u64> {
    a.iter().cloned().collect()
}
pub fn to_v(a: M<u64>) -> Vec<(usize, u64)> {
    a.into_iter().collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Sig {
    pub dim: usize,
    pub sq: Vec<i8>,
}
impl Sig {
    pub fn parse(s: &str) -> Sig {
        let sq: Vec<i8> = s
            .chars()
            .map(|c| match c { '+' => 1, '-' => -1, '0' => 0, _ => panic!("signature") })
            .collect();
        Sig { dim: sq.len(), sq }
    }
    pub fn full(&self) -> usize {
        (1usize << self.dim) - 1
    }
    pub fn size(&self) -> usize {
        1usize << self.dim
    }
    pub fn nonnull(&self) -> usize {
        self.sq.iter().filter(|s| **s != 0).count()
    }
    pub fn nulls(&self) -> usize {
        self.dim - self.nonnull()
    }
}

/// Blades are written with descending generators. Product of two blades: append the generators of `b`
/// one by one (left to right), each moving left past the smaller ones, meeting its equal if there is one.
pub fn blade_mul(sig: &Sig, a: usize, b: usize) -> (i8, usize) {
    let mut s = 1i8;
    let mut r = a;
    for g in (0..sig.dim).rev() {
        if b >> g & 1 == 0 {
            continue;
        }
        let smaller = r & ((1usize << g) - 1);
        if smaller.count_ones() % 2 == 1 {
            s = -s;
        }
        if r >> g & 1 == 1 {
            s *= sig.sq[g];
            r &= !(1usize << g);
        } else {
            r |= 1usize << g;
        }
    }
    (s, r)
}
pub fn blade_wedge(sig: &Sig, a: usize, b: usize) -> (i8, usize) {
    if a & b != 0 {
        return (0, a ^ b);
    }
    blade_mul(sig, a, b)
}

pub type M<V> = BTreeMap<usize, V>;

fn put<R: Rg>(r: &R, m: &mut M<R::V>, i: usize, v: R::V) {
    if r.is_zero(&v) {
        m.remove(&i);
    } else {
        m.insert(i, v);
    }
}
pub fn set<R: Rg>(r: &R, s: &Sig, m: &mut M<R::V>, i: usize, v: R::V) {
    if i < s.size() {
        put(r, m, i, v);
    }
}
pub fn get<R: Rg>(r: &R, m: &M<R::V>, i: usize) -> R::V {
    m.get(&i).cloned().unwrap_or(r.zero())
}
fn acc<R: Rg>(r: &R, m: &mut M<R::V>, i: usize, sign: i8, v: R::V) {
    if sign == 0 {
        return;
    }
    let v = if sign < 0 { r.neg(&v) } else { v };
    let n = r.add(&get(r, m, i), &v);
    put(r, m, i, n);
}
pub fn add<R: Rg>(r: &R, a: &M<R::V>, b: &M<R::V>) -> M<R::V> {
    let mut o = a.clone();
    for (i, v) in b {
        acc(r, &mut o, *i, 1, v.clone());
    }
    o
}
pub fn neg<R: Rg>(r: &R, a: &M<R::V>) -> M<R::V> {
    a.iter().map(|(i, v)| (*i, r.neg(v))).collect()
}
pub fn sub<R: Rg>(r: &R, a: &M<R::V>, b: &M<R::V>) -> M<R::V> {
    add(r, a, &neg(r, b))
}
fn prod<R: Rg>(r: &R, a: &M<R::V>, b: &M<R::V>, f: impl Fn(usize, usize) -> (i8, usize)) -> M<R::V> {
    let mut o = M::new();
    for (i, x) in a {
        for (j, y) in b {
            let (s, k) = f(*i, *j);
            if s != 0 {
                acc(r, &mut o, k, s, r.mul(x, y));
            }
        }
    }
    o
}
pub fn mul<R: Rg>(r: &R, s: &Sig, a: &M<R::V>, b: &M<R::V>) -> M<R::V> {
    prod(r, a, b, |i, j| blade_mul(s, i, j))
}
pub fn wedge<R: Rg>(r: &R, s: &Sig, a: &M<R::V>, b: &M<R::V>) -> M<R::V> {
    prod(r, a, b, |i, j| blade_wedge(s, i, j))
}
pub fn dual<R: Rg>(r: &R, s: &Sig, a: &M<R::V>) -> M<R::V> {
    let mut o = M::new();
    for (i, v) in a {
        let c = s.full() & !i;
        acc(r, &mut o, c, blade_wedge(s, c, *i).0, v.clone());
    }
    o
}
pub fn undual<R: Rg>(r: &R, s: &Sig, a: &M<R::V>) -> M<R::V> {
    let mut o = M::new();
    for (i, v) in a {
        let c = s.full() & !i;
        acc(r, &mut o, c, blade_wedge(s, *i, c).0, v.clone());
    }
    o
}
pub fn meet<R: Rg>(r: &R, s: &Sig, a: &M<R::V>, b: &M<R::V>) -> M<R::V> {
    undual(r, s, &wedge(r, s, &dual(r, s, a), &dual(r, s, b)))
}
pub fn map_sign<R: Rg>(r: &R, a: &M<R::V>, f: impl Fn(usize) -> bool) -> M<R::V> {
    a.iter().map(|(i, v)| (*i, if f(*i) { r.neg(v) } else { v.clone() })).collect()
}
pub fn grade_of(i: usize) -> usize {
    (0..64).filter(|b| i >> b & 1 == 1).count()
}
/// reversing k generators takes k(k-1)/2 transpositions
pub fn rev<R: Rg>(r: &R, a: &M<R::V>) -> M<R::V> {
    map_sign(r, a, |i| { let k = grade_of(i); (k * k.saturating_sub(1) / 2) % 2 == 1 })
}
pub fn flip<R: Rg>(r: &R, a: &M<R::V>) -> M<R::V> {
    map_sign(r, a, |i| grade_of(i) % 2 == 1)
}
pub fn flipsub<R: Rg>(r: &R, a: &M<R::V>, mask: usize) -> M<R::V> {
    map_sign(r, a, |i| grade_of(i & mask) % 2 == 1)
}
pub fn grade<V: Clone>(a: &M<V>, g: usize) -> M<V> {
    a.iter().filter(|(i, _)| grade_of(**i) == g).map(|(i, v)| (*i, v.clone())).collect()
}
pub fn scale<R: Rg>(r: &R, a: &M<R::V>, c: &R::V) -> M<R::V> {
    let mut o = M::new();
    for (i, v) in a {
        put(r, &mut o, *i, r.mul(v, c));
    }
    o
}
pub fn sdiv<R: Rg>(r: &R, a: &M<R::V>, c: &R::V) -> Option<M<R::V>> {
    let mut o = M::new();
    for (i, v) in a {
        put(r, &mut o, *i, r.div(v, c)?);
    }
    Some(o)
}
pub fn one<R: Rg>(r: &R) -> M<R::V> {
    [(0, r.one())].into()
}
/// By squaring; None when more than `budget` coefficient products would be needed.
pub fn pow<R: Rg>(r: &R, s: &Sig, a: &M<R::V>, mut n: usize, budget: usize) -> Option<M<R::V>> {
    let mut o = one(r);
    let mut sq = a.clone();
    let mut spent = 0;
    while n > 0 {
        spent += (o.len() + sq.len()) * sq.len();
        if spent > budget {
            return None;
        }
        if n & 1 == 1 {
            o = mul(r, s, &o, &sq);
        }
        n >>= 1;
        if n > 0 {
            sq = mul(r, s, &sq, &sq);
        }
    }
    Some(o)
}
pub fn vsdot<R: Rg>(r: &R, a: &M<R::V>, b: &M<R::V>) -> R::V {
    let mut t = r.zero();
    for (i, x) in a {
        if let Some(y) = b.get(i) {
            t = r.add(&t, &r.mul(x, y));
        }
    }
    t
}
/// scalar part of the product
pub fn vdot<R: Rg>(r: &R, s: &Sig, a: &M<R::V>, b: &M<R::V>) -> R::V {
    let mut t = r.zero();
    for (i, x) in a {
        if let Some(y) = b.get(i) {
            let p = r.mul(x, y);
            match blade_mul(s, *i, *i).0 {
                1 => t = r.add(&t, &p),
                -1 => t = r.sub(&t, &p),
                _ => {}
            }
        }
    }
    t
}
pub fn mag2<R: Rg>(r: &R, s: &Sig, a: &M<R::V>) -> R::V {
    vdot(r, s, &rev(r, a), a)
}

/// Exponential series, for a sum of magnitudes of a few units.
pub fn exp_ref(s: &Sig, a: &[(usize, f64)]) -> BTreeMap<usize, f64> {
    let mut r: BTreeMap<usize, f64> = [(0, 1.)].into();
    let mut p = r.clone();
    for k in 1..60 {
        let mut q = BTreeMap::new();
        for (i, x) in &p {
            for (j, y) in a {
                let (sg, t) = blade_mul(s, *i, *j);
                if sg != 0 {
                    *q.entry(t).or_insert(0.) += sg as f64 * x * y / k as f64;
                }
            }
        }
        p = q;
        let mut big = false;
        for (i, v) in &p {
            *r.entry(*i).or_insert(0.) += v;
            big |= v.abs() > 1e-18;
        }
        if !big {
            break;
        }
    }
    r
}

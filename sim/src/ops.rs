//! One line of a simulated program, and its execution on one storage type.
use crate::algs::{four, Alg};
use crate::coef::*;
use crate::model::from_i;
use num::complex::Complex64;
use simrt::hook;
use simrt::prng::{comb, mix};
use std::fmt::Write as _;
use tclifford::types::{DivRing, FromComplex, IntoComplex64, WedgeProduct};
use tclifford::quaternion::Quaternion;
use tclifford::{ClError, FFTRepr, Multivector, Norm, One, SparseMultivector, Zero};

#[derive(Clone, Debug, Default)]
pub struct Op {
    pub w: usize,
    pub t: usize,
    pub name: String,
    pub d: usize,
    pub a: usize,
    pub b: usize,
    pub k: u64,
    pub l: Vec<(usize, i64)>,
    /// interrupt at this callback (0: not)
    pub f: u64,
    /// further arguments
    pub x: Vec<u64>,
}

impl Op {
    pub fn new(w: usize, name: &str) -> Op {
        Op { w, name: name.into(), ..Default::default() }
    }
    pub fn parse(s: &str) -> Op {
        let mut o = Op::default();
        for tok in s.split_whitespace() {
            let (k, v) = tok.split_once('=').unwrap_or((tok, ""));
            match k {
                "w" => o.w = v.parse().unwrap_or(0),
                "t" => o.t = v.parse().unwrap_or(0),
                "op" => o.name = v.to_string(),
                "d" => o.d = v.parse().unwrap_or(0),
                "a" => o.a = v.parse().unwrap_or(0),
                "b" => o.b = v.parse().unwrap_or(0),
                "k" => o.k = v.parse().unwrap_or(0),
                "f" => o.f = v.parse().unwrap_or(0),
                "l" => {
                    o.l = v
                        .split(',')
                        .filter_map(|p| p.split_once(':'))
                        .map(|(i, c)| (i.parse().unwrap_or(0), c.parse().unwrap_or(0)))
                        .collect()
                }
                "x" => o.x = v.split(',').filter_map(|p| p.parse().ok()).collect(),
                _ => {}
            }
        }
        o
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.t != 0 {
            let _ = write!(s, "t={} ", self.t);
        }
        let _ = write!(s, "w={} op={} d={} a={} b={} k={}", self.w, self.name, self.d, self.a, self.b, self.k);
        if !self.l.is_empty() {
            let v: Vec<String> = self.l.iter().map(|(i, c)| format!("{i}:{c}")).collect();
            let _ = write!(s, " l={}", v.join(","));
        }
        if !self.x.is_empty() {
            let v: Vec<String> = self.x.iter().map(|i| i.to_string()).collect();
            let _ = write!(s, " x={}", v.join(","));
        }
        if self.f != 0 {
            let _ = write!(s, " f={}", self.f);
        }
        s
    }
    /// scalar argument
    pub fn v(&self) -> i64 {
        self.l.first().map(|x| x.1).unwrap_or(1)
    }
    pub fn idx(&self) -> usize {
        self.l.first().map(|x| x.0).unwrap_or(0)
    }
    /// the predicate used by filters
    pub fn keep(&self, idx: usize) -> bool {
        mix(self.k ^ (idx as u64) << 8) & 1 == 0
    }
    /// what a mutating predicate makes of a coefficient: 0 keep, 1 negate, 2 zero
    pub fn mutate(&self, idx: usize) -> u64 {
        mix(self.k ^ (idx as u64) << 9) >> 7 & 3
    }
    pub fn xu(&self) -> Vec<usize> {
        self.x.iter().map(|v| *v as usize).collect()
    }
}

pub enum Out<M: Mv> {
    Mv(M),
    Val(M::C),
    Bool(bool),
    Num(u64),
    Items(Vec<(usize, M::C)>),
    Digest(u64),
    Err(&'static str),
    /// not applicable to this storage or algebra
    Na,
}

pub fn err_name(e: &ClError) -> &'static str {
    match e {
        ClError::IndexOutOfBounds => "IndexOutOfBounds",
        ClError::FFTConditionsNotMet => "FFTConditionsNotMet",
        ClError::InvalidShape => "InvalidShape",
    }
}
fn res<M: Mv>(r: Result<M, ClError>) -> Out<M> {
    match r {
        Ok(m) => Out::Mv(m),
        Err(e) => Out::Err(err_name(&e)),
    }
}

pub trait Mv: Sized + Clone + PartialEq + 'static {
    type C: CoefT;
    const KIND: char;
    fn core(r: &[Self], op: &Op) -> Out<Self>;
    fn build(l: &[(usize, <Self::C as CoefT>::K)]) -> Self;
    fn nil() -> Self;
    /// all coefficients the value enumerates, sorted
    fn dump(&self) -> Vec<(usize, <Self::C as CoefT>::K)>;
    fn at(&self, i: usize) -> <Self::C as CoefT>::K;
    /// number of terms it claims to have, if it does
    fn count(&self) -> Option<usize>;
    /// order of enumeration
    fn order(&self) -> u64;
    /// interrupted in-place filter: (content after, judged (idx, accepted), interrupted)
    fn inplace(&self, op: &Op, at: u64) -> Option<(Self, Vec<(usize, bool)>, bool)>;
    fn size() -> usize;
}

/// Coefficients of the flat programs.
pub trait FieldT:
    CoefT<K = u64> + DivRing + Norm + IntoComplex64 + FromComplex + std::fmt::Display + std::fmt::LowerExp + std::fmt::UpperExp
{
}
impl<T> FieldT for T where
    T: CoefT<K = u64> + DivRing + Norm + IntoComplex64 + FromComplex + std::fmt::Display + std::fmt::LowerExp + std::fmt::UpperExp
{
}

/// Scalar arguments of a program line as coefficients of the type at hand.
pub trait FromArg: CoefT {
    fn arg(v: i64) -> Self;
}
impl FromArg for Coef {
    fn arg(v: i64) -> Self { Coef::new(from_i(v)) }
}
impl FromArg for Qf {
    fn arg(v: i64) -> Self { Qf(from_i(v)) }
}
/// Nested: the integer encodes up to three inner terms.
pub fn nest_arg(v: i64, size: usize) -> Vec<(usize, u64)> {
    if v == 0 {
        return vec![];
    }
    if v == 1 {
        return vec![(0, 1)];
    }
    let mut o = std::collections::BTreeMap::new();
    let mut h = v as u64;
    for _ in 0..(1 + (v.unsigned_abs() % 3)) {
        h = mix(h.wrapping_add(0x9e37));
        let c = from_i((h >> 32) as i64 % 5 - 2);
        let i = (h & 0xffff) as usize % size;
        if c != 0 {
            o.insert(i, c);
        } else {
            o.remove(&i);
        }
    }
    o.into_iter().collect()
}
impl<A: Alg> FromArg for Multivector<Coef, A> {
    fn arg(v: i64) -> Self { Self::of(&nest_arg(v, 1 << A::N)) }
}
impl<A: Alg> FromArg for SparseMultivector<Coef, A> {
    fn arg(v: i64) -> Self { Self::of(&nest_arg(v, 1 << A::N)) }
}
impl FromArg for Quat {
    fn arg(v: i64) -> Self { Self::of(&nest_arg(v, 4)) }
}

macro_rules! core_body {
    ($Self:ty, $C:ty, $r:ident, $op:ident, $dim:expr, {$($sname:literal => $sbody:expr,)*}) => {{
        let n = $r.len();
        let a = &$r[$op.a % n];
        let b = &$r[$op.b % n];
        let k = $op.k;
        let arg = || <$C as FromArg>::arg($op.l.first().map(|x| x.1).unwrap_or(1));
        match $op.name.as_str() {
            "zero" => Out::Mv(<$Self>::zero()),
            "default" => Out::Mv(<$Self>::default()),
            "one" => Out::Mv(<$Self>::one()),
            "scalar" => Out::Mv(<$Self>::from_scalar(arg())),
            "vector" => {
                let l = &$op.l;
                if k % 2 == 0 {
                    res(<$Self>::from_vector(l.iter().map(|(_, c)| { hook(); <$C as FromArg>::arg(*c) })))
                } else {
                    let v: Vec<$C> = l.iter().map(|(_, c)| <$C as FromArg>::arg(*c)).collect();
                    res(<$Self>::from_vector_ref(v.iter()))
                }
            }
            "indexed" => {
                let l = &$op.l;
                if k % 2 == 0 {
                    res(<$Self>::from_indexed_iter(l.iter().map(|(i, c)| { hook(); (*i, <$C as FromArg>::arg(*c)) })))
                } else {
                    let v: Vec<(usize, $C)> = l.iter().map(|(i, c)| (*i, <$C as FromArg>::arg(*c))).collect();
                    res(<$Self>::from_indexed_iter_ref(v.iter().map(|(i, c)| (*i, c))))
                }
            }
            "set" => Out::Mv(a.clone().set_by_idx($op.idx(), arg())),
            "get" => Out::Val(a.get_by_idx($op.idx())),
            "scalarpart" => Out::Val(a.scalar_part()),
            "clone" => Out::Mv(a.clone()),
            "add" => Out::Mv(four!(a + b, k)),
            "sub" => Out::Mv(four!(a - b, k)),
            "mul" => Out::Mv(four!(a * b, k)),
            "nmul" => Out::Mv(a.naive_mul_impl(b)),
            "nwedge" => Out::Mv(a.naive_wedge_impl(b)),
            "nmeet" => Out::Mv(a.naive_meet_impl(b)),
            "neg" => Out::Mv(if k % 2 == 0 { -a } else { -a.clone() }),
            "smul" => { let c = &arg(); Out::Mv(four!(a * c, k)) }
            "rev" => Out::Mv(a.rev()),
            "flip" => Out::Mv(a.flip()),
            "flipsub" => Out::Mv(a.flip_subspace(k as usize)),
            "dual" => Out::Mv(a.dual()),
            "undual" => Out::Mv(a.undual()),
            "pow" => Out::Mv(a.pow(k as usize)),
            "grade" => Out::Mv(a.grade_extract(k as usize)),
            "vsdot" => Out::Val(a.vsdot(b)),
            "vdot" => Out::Val(a.vdot(b)),
            "mag2" => Out::Val(a.mag2()),
            "eq" => Out::Bool(a == b),
            "ne" => Out::Bool(a != b),
            "iszero" => Out::Bool(a.is_zero()),
            "xvec" => Out::Items(a.extract_vector().into_iter().enumerate().collect()),
            "enum" => Out::Items(a.coeff_enumerate().map(|(i, c)| (i, c.clone())).collect()),
            "genum" => Out::Items(a.grade_enumerate(k as usize).map(|(i, c)| (i, c.clone())).collect()),
            // the caller's stream and predicate use the library themselves
            "reenter" => res(<$Self>::from_indexed_iter(
                a.coeff_enumerate().filter(|(_, c)| !c.is_zero()).map(|(i, c)| { hook(); let t = b.get_by_idx(i); (i, b.vsdot(a) + c.clone() * t) }))),
            $($sname => $sbody,)*
            _ => Out::Na,
        }
    }};
}

macro_rules! common {
    ($ty:ident) => {
        fn build(l: &[(usize, C::K)]) -> Self {
            $ty::<C, A>::from_indexed_iter(l.iter().map(|(i, v)| (*i, C::of(v)))).unwrap()
        }
        fn nil() -> Self { Self::default() }
        fn dump(&self) -> Vec<(usize, C::K)> {
            let mut v: Vec<_> = self.coeff_enumerate().map(|(i, c)| (i, c.key())).collect();
            v.sort();
            v
        }
        fn at(&self, i: usize) -> C::K { self.get_by_idx(i).key() }
        fn order(&self) -> u64 {
            self.coeff_enumerate().fold(0, |h, (i, _)| comb(h, i as u64))
        }
        fn size() -> usize { 1 << A::N }
    };
}

impl<C: CoefT + FromArg, A: Alg> Mv for Multivector<C, A> {
    type C = C;
    const KIND: char = 'd';
    fn core(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        core_body!(Multivector<C, A>, C, r, op, A::N, {
            "basis" => Out::Mv(A::basis_d::<C>().swap_remove(op.k as usize % A::N)),
            "wedge" => Out::Mv(x.wedge(y)),
            "meet" => Out::Mv(x.meet(y)),
            "filter" => Out::Mv(x.filter(|i, c| { hook(); let _ = c.is_zero(); op.keep(i) })),
            "conv" => Out::Mv(if op.k % 2 == 0 { x.to_sparse().to_dense() } else { x.to_storage_type() }),
            "gradeas" => {
                let s: SparseMultivector<C, A> = x.grade_extract_as(op.k as usize);
                Out::Mv(s.to_storage_type())
            },
            "view" => Out::Items(x.coeff_array_view().iter().cloned().enumerate().collect()),
            "gradesx" => Out::Mv(x.filter(|i, _| op.x.contains(&(i.count_ones() as u64)))),
            "refilter" => Out::Mv(x.filter(|i, c| { hook(); let t = y.get_by_idx(i); *c != t && !(y * x).is_zero() })),
        })
    }
    common!(Multivector);
    fn count(&self) -> Option<usize> { None }
    fn inplace(&self, _: &Op, _: u64) -> Option<(Self, Vec<(usize, bool)>, bool)> { None }
}

impl<C: CoefT + FromArg, A: Alg> Mv for SparseMultivector<C, A> {
    type C = C;
    const KIND: char = 's';
    fn core(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        core_body!(SparseMultivector<C, A>, C, r, op, A::N, {
            "basis" => Out::Mv(A::basis_s::<C>().swap_remove(op.k as usize % A::N)),
            "wedge" => Out::Mv(x.wedge(y)),
            "meet" => Out::Mv(x.meet(y)),
            "filter" => match op.k % 3 {
                0 => Out::Mv(x.clone().filtered(|i, c| { hook(); let _ = c.is_zero(); op.keep(*i) })),
                _ => { let mut t = x.clone(); t.filter_inplace(|i, _| { hook(); op.keep(*i) }); Out::Mv(t) }
            },
            "mutfilter" => {
                let mut t = x.clone();
                t.filter_inplace(|i, c| {
                    hook();
                    match op.mutate(*i) { 1 => *c = -c.clone(), 2 => *c = C::zero(), _ => {} }
                    op.keep(*i)
                });
                Out::Mv(t)
            },
            "gradesx" => if op.k % 2 == 0 {
                Out::Mv(x.grades_extract(&op.xu()))
            } else {
                let mut t = x.clone();
                t.retain_grades(&op.xu());
                Out::Mv(t)
            },
            "conv" => Out::Mv(if op.k % 2 == 0 && A::N <= 12 { x.to_dense().to_sparse() } else { x.to_storage_type() }),
            "gradeas" => if A::N <= 12 {
                let s: Multivector<C, A> = x.grade_extract_as(op.k as usize);
                Out::Mv(s.to_storage_type())
            } else {
                Out::Mv(x.grade_extract_as(op.k as usize))
            },
            "count" => Out::Num(x.coeff_count() as u64),
            "refilter" => Out::Mv(x.clone().filtered(|i, c| { hook(); let t = y.get_by_idx(*i); *c != t && !(y * x).is_zero() })),
        })
    }
    common!(SparseMultivector);
    fn count(&self) -> Option<usize> { Some(self.coeff_count()) }
    fn inplace(&self, op: &Op, at: u64) -> Option<(Self, Vec<(usize, bool)>, bool)> {
        let mut t = self.clone();
        let mut log = Vec::with_capacity(self.coeff_count() + 1);
        simrt::arm(at);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            t.filter_inplace(|i, c| {
                hook();
                let z = c.is_zero();
                let keep = op.keep(*i) && !z;
                log.push((*i, keep));
                keep
            })
        }));
        let (_, fired) = simrt::disarm();
        if r.is_err() && !fired {
            simrt::shared::fatal("an in-place filter panicked by itself");
        }
        Some((t, log, fired))
    }
}

impl<C: CoefT + FromArg + DivRing + Copy> Mv for Quaternion<C> {
    type C = C;
    const KIND: char = 'q';
    fn core(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        core_body!(Quaternion<C>, C, r, op, 2, {
            "basis" => Out::Mv(if op.k % 2 == 0 { Quaternion::<C>::i() } else { Quaternion::<C>::j() }),
            "wedge" => Out::Mv(x.naive_wedge_impl(y)),
            "meet" => Out::Mv(x.naive_meet_impl(y)),
            "filter" => Out::Mv(Quaternion::<C>::from_indexed_iter(x.coeff_enumerate().filter(|(i, _)| op.keep(*i)).map(|(i, c)| (i, *c))).unwrap()),
            "gradesx" => Out::Mv(Quaternion::<C>::from_indexed_iter(x.coeff_enumerate().filter(|(i, _)| op.x.contains(&(i.count_ones() as u64))).map(|(i, c)| (i, *c))).unwrap()),
            "conv" => {
                let s: SparseMultivector<C, crate::algs::Q2> = x.to_storage_type();
                let d: Multivector<C, crate::algs::Q2> = s.to_dense();
                Out::Mv(if op.k % 2 == 0 { s.to_storage_type() } else { d.to_storage_type() })
            },
            "gradeas" => {
                let s: SparseMultivector<C, crate::algs::Q2> = x.grade_extract_as(op.k as usize);
                Out::Mv(s.to_storage_type())
            },
            "conj" => Out::Mv(x.conj()),
        })
    }
    fn build(l: &[(usize, C::K)]) -> Self {
        Quaternion::<C>::from_indexed_iter(l.iter().map(|(i, v)| (*i, C::of(v)))).unwrap()
    }
    fn nil() -> Self { Self::default() }
    fn dump(&self) -> Vec<(usize, C::K)> {
        let mut v: Vec<_> = self.coeff_enumerate().map(|(i, c)| (i, c.key())).collect();
        v.sort();
        v
    }
    fn at(&self, i: usize) -> C::K { self.get_by_idx(i).key() }
    fn order(&self) -> u64 { 0 }
    fn size() -> usize { 4 }
    fn count(&self) -> Option<usize> { None }
    fn inplace(&self, _: &Op, _: u64) -> Option<(Self, Vec<(usize, bool)>, bool)> { None }
}

// ------------------------------------------------------------------ operations that need more than a ring

pub fn chash(h: u64, c: Complex64) -> u64 {
    // -0 and 0 are the same value
    comb(comb(h, (c.re + 0.).to_bits()), (c.im + 0.).to_bits())
}
pub fn fft_bits<A: Alg>(f: &FFTRepr<A>) -> u64 {
    let s = f.shape();
    f.view().iter().fold(comb(comb(s.0 as u64, s.1 as u64), s.2 as u64), |h, c| comb(comb(h, c.re.to_bits()), c.im.to_bits()))
}
/// Digest of a rendering that does not depend on the order of terms.
pub fn text_digest(s: &str) -> u64 {
    let mut t: Vec<&str> = s.split(" + ").collect();
    t.sort();
    t.iter().fold(s.len() as u64, |h, p| p.bytes().fold(comb(h, 1), |h, b| comb(h, b as u64)))
}
macro_rules! render {
    ($x:expr, $k:expr) => {
        match $k % 8 {
            0 => format!("{}", $x),
            1 => format!("{:#}", $x),
            2 => format!("{:+}", $x),
            3 => format!("{:e}", $x),
            4 => format!("{:E}", $x),
            5 => format!("{:#e}", $x),
            6 => format!("{:6}", $x),
            _ => format!("{:+e}", $x),
        }
    };
}
pub(crate) use render;

macro_rules! ext_body {
    ($C:ty, $F:ty, $A:ty, $x:ident, $y:ident, $op:ident, {$($sname:literal => $sbody:expr,)*}) => {{
        let k = $op.k;
        match $op.name.as_str() {
            "sdiv" => { let c = &<$C as FromArg>::arg($op.l.first().map(|v| v.1).unwrap_or(1)); Out::Mv(four!($x / c, k)) }
            "revm" => Out::Mv($x.revm()),
            // on floats of modest size, against the series
            "exp" => {
                let n = $x.coeff_enumerate().count().max(1) as f64;
                let l: Vec<(usize, f64)> = $x.coeff_enumerate().map(|(i, c)| (i, (crate::model::to_i(c.key()) % 7) as f64 / (4. * n))).collect();
                let f = <$F>::from_indexed_iter(l.iter().map(|(i, v)| (*i, Fl::new(*v)))).unwrap();
                let e = f.exp();
                let want = crate::model::exp_ref(&<$A as Alg>::sig(), &l);
                let mut worst = 0f64;
                for (i, v) in &want {
                    worst = worst.max((e.get_by_idx(*i).v - v).abs());
                }
                for (i, c) in e.coeff_enumerate() {
                    worst = worst.max((c.v - want.get(&i).copied().unwrap_or(0.)).abs());
                }
                Out::Bool(worst < 1e-9)
            }
            "approx" => Out::Bool($x.approx_eq($y, 0.5 + (k % 7) as f64)),
            "show" => Out::Digest(text_digest(&render!($x, k))),
            $($sname => $sbody,)*
            _ => Out::Na,
        }
    }};
}

pub trait MvExt: Mv {
    fn ext(r: &[Self], op: &Op) -> Out<Self>;
    fn all(r: &[Self], op: &Op) -> Out<Self> {
        match Self::core(r, op) {
            Out::Na => Self::ext(r, op),
            o => o,
        }
    }
}
impl<C: FieldT + FromArg, A: Alg> MvExt for Multivector<C, A> {
    fn ext(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        ext_body!(C, Multivector<Fl, A>, A, x, y, op, {
            "div" => match A::div_d(x, y, op.k) { Some(m) => Out::Mv(m), None => Out::Na },
            "cplx" => {
                let c: SparseMultivector<Complex64, _> = x.complexify();
                let d: Multivector<Complex64, _> = x.complexify();
                Out::Mv(if op.k % 2 == 0 { c.decomplexify() } else { d.decomplexify() })
            },
            "fftrt" => Out::Mv(x.fft().ifft()),
            "fftbits" => Out::Digest(fft_bits(&x.fft())),
            "fftmul" => Out::Mv((x.fft() * y.fft()).ifft()),
            "fftmulr" => { let p = &x.fft(); let q = &y.fft(); Out::Digest(fft_bits(&four!(p * q, op.k))) },
            "fftadd" => Out::Mv((x.fft() + y.fft()).ifft()),
            "fftsub" => Out::Mv((x.fft() - y.fft()).ifft()),
            "fftneg" => Out::Mv((-x.fft()).ifft()),
            "fftpow" => Out::Digest(fft_bits(&x.fft().pow(op.k as usize % 5))),
            "fftrev" => Out::Mv(x.fft().rev().ifft()),
            "fftflip" => Out::Mv(x.fft().flip().ifft()),
            "fftexp" => {
                let f = x.fft();
                let n: f64 = f.view().iter().map(|c| c.re.abs() + c.im.abs()).sum();
                Out::Digest(fft_bits(&(f / (1. + n)).exp()))
            },
            "fftmag" => { let f = x.fft(); Out::Digest(chash(chash(chash(0, f.mag2()), f.trace()), f.ntrace())) },
            "fftinv" => match A::inv(&x.fft()) { None => Out::Na, Some(None) => Out::Digest(0), Some(Some(f)) => Out::Digest(fft_bits(&f)) },
            "fftscale" => Out::Digest(fft_bits(&(x.fft() * Complex64::new(1., op.k as f64) / 3. * 2. / Complex64::new(0., 1.)))),
            "fftcmp" => { let (p, q) = (x.fft(), y.fft()); Out::Num((p == q) as u64 | (p.approx_eq(&q, 0.25) as u64) << 1 | (p.is_zero() as u64) << 2) },
            "fftshow" => Out::Digest(text_digest(&format!("{}", x.fft()))),
            "fftarr" => {
                let f = x.fft();
                let g = FFTRepr::<A>::from_array3(f.clone().into_array3()).unwrap();
                let mut h = fft_bits(&g);
                if let Some((m, g2, (e, o))) = A::array2(f) {
                    h = comb(h, fft_bits(&g2));
                    for c in m.iter().chain(e.iter()).chain(o.iter()) { h = chash(h, *c); }
                }
                Out::Digest(h)
            },
            "fftbasis" => Out::Digest(A::basis_f().iter().fold(0, |h, f| comb(h, fft_bits(f)))),
            "clifft" => {
                let m = tclifford::clifft::clifft(x.coeff_array_view()).unwrap();
                let f = tclifford::clifft::reversal(tclifford::clifft::parity_flip(m.view()).view()).unwrap();
                let g = tclifford::clifft::imaginary_flip(m.view()).unwrap();
                let v = tclifford::clifft::iclifft(f.view()).unwrap();
                let mut dest = ndarray::Array1::zeros(g.len());
                tclifford::clifft::iclifft_into(g.view(), dest.view_mut()).unwrap();
                Out::Digest(m.iter().chain(f.iter()).chain(v.iter()).chain(dest.iter()).fold(1, |h, c| chash(h, *c)))
            },
            "rfft" => match A::real_fft(x) { None => Out::Na, Some(m) => Out::Items(m.into_iter().enumerate().collect()) },
            "signature" => Out::Digest({ let (a, b) = A::sig_f(); a.iter().zip(&b).fold(3, |h, (a, b)| comb(comb(h, *a as u64), b.to_bits())) }),
        })
    }
}
impl<C: FieldT + FromArg, A: Alg> MvExt for SparseMultivector<C, A> {
    fn ext(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        ext_body!(C, SparseMultivector<Fl, A>, A, x, y, op, {
            "div" => match A::div_s(x, y, op.k) { Some(m) => Out::Mv(m), None => Out::Na },
            "cplx" => {
                let c: SparseMultivector<Complex64, _> = x.complexify();
                Out::Mv(c.decomplexify())
            },
        })
    }
}
impl MvExt for Quat {
    fn ext(r: &[Self], op: &Op) -> Out<Self> {
        let n = r.len();
        let (x, y) = (&r[op.a % n], &r[op.b % n]);
        ext_body!(Qf, Multivector<Fl, crate::algs::Q2>, crate::algs::Q2, x, y, op, {
            "div" => Out::Mv(four!(x / y, op.k)),
            "cplx" => {
                let c: SparseMultivector<Complex64, _> = x.complexify();
                Out::Mv(c.decomplexify())
            },
        })
    }
}

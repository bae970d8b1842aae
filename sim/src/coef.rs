//! Coefficient types of the simulated caller. Every operation the library performs on them is a callback
//! into caller code: a scheduling point and a possible interruption.
use crate::model::*;
use num::complex::Complex64;
use simrt::seam::{ARITH, CLONE, CONST, CONVERT, FORMAT, TEST};
use simrt::{hook_k, life};
use std::fmt;
use std::ops::{Add, Div, Mul, Neg, Sub};
use tclifford::types::{FromComplex, IntoComplex64, Ring};
use tclifford::{ClAlgebra, Multivector, Norm, One, SparseMultivector, Zero};

/// What the harness needs to know about a coefficient type.
pub trait CoefT: Ring + Clone + 'static {
    type K: Clone + PartialEq + fmt::Debug + Ord;
    fn of(k: &Self::K) -> Self;
    fn key(&self) -> Self::K;
    fn hash(k: &Self::K) -> u64;
    fn key_zero(k: &Self::K) -> bool;
}

const ALIVE: u64 = 0xC0EF_F1C1_E47A_11FE;
const DEAD: u64 = 0xDEAD_C0EF_DEAD_C0EF;

/// Tracked element of the prime field: not Copy, has an identity and a life.
pub struct Coef {
    v: u64,
    id: u64,
    magic: u64,
}

impl Coef {
    #[inline]
    pub fn new(v: u64) -> Coef {
        debug_assert!(v < P);
        Coef { v, id: life::birth(), magic: ALIVE }
    }
    #[inline]
    fn ck(&self) -> u64 {
        if self.magic != ALIVE || !life::is_live(self.id) {
            bad("a coefficient was used that is not alive", self);
        }
        self.v
    }
    pub fn val(&self) -> u64 {
        self.ck()
    }
}
#[cold]
fn bad(what: &str, c: &Coef) -> ! {
    simrt::shared::fatal(&format!(
        "{what} ({})",
        if c.magic == DEAD || c.magic == ALIVE { "already released" } else { "never initialised" }
    ))
}
impl Drop for Coef {
    #[inline]
    fn drop(&mut self) {
        if self.magic != ALIVE || !life::death(self.id) {
            bad("a coefficient was released that is not alive", self);
        }
        self.magic = DEAD;
    }
}
impl Clone for Coef {
    fn clone(&self) -> Self {
        hook_k(CLONE);
        Coef::new(self.ck())
    }
}
impl fmt::Debug for Coef {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", to_i(self.ck()))
    }
}

/// Same field, Copy, untracked: for the quaternion type.
#[derive(Clone, Copy, Debug)]
pub struct Qf(pub u64);
impl Qf {
    #[inline]
    fn new(v: u64) -> Qf { Qf(v) }
    #[inline]
    fn ck(&self) -> u64 { self.0 }
}

macro_rules! field {
    ($t:ident) => {
        field!(@op $t, Add, add, fadd);
        field!(@op $t, Sub, sub, fsub);
        field!(@op $t, Mul, mul, fmul);
        field!(@op $t, Div, div, fdiv);
        impl Neg for $t {
            type Output = $t;
            fn neg(self) -> $t { hook_k(ARITH); $t::new(fneg(self.ck())) }
        }
        impl<'a> Neg for &'a $t {
            type Output = $t;
            fn neg(self) -> $t { hook_k(ARITH); $t::new(fneg(self.ck())) }
        }
        impl Zero for $t {
            fn zero() -> Self { hook_k(CONST); $t::new(0) }
            fn is_zero(&self) -> bool { hook_k(TEST); self.ck() == 0 }
        }
        impl One for $t {
            fn one() -> Self { hook_k(CONST); $t::new(1) }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool { hook_k(TEST); self.ck() == o.ck() }
        }
        impl Norm for $t {
            fn norm(&self) -> f64 { hook_k(CONVERT); to_i(self.ck()).abs() as f64 }
        }
        impl IntoComplex64 for $t {
            fn into_complex(&self) -> Complex64 { hook_k(CONVERT); Complex64::new(to_i(self.ck()) as f64, 0.) }
        }
        impl FromComplex for $t {
            fn from_complex(c: Complex64) -> Self {
                hook_k(CONVERT);
                let r = c.re.round();
                $t::new(if r.is_finite() { from_i(r.clamp(-9e17, 9e17) as i64) } else { 12345 })
            }
        }
        field!(@fmt $t, Display);
        field!(@fmt $t, LowerExp);
        field!(@fmt $t, UpperExp);
        impl CoefT for $t {
            type K = u64;
            fn of(k: &u64) -> Self { $t::new(*k) }
            fn key(&self) -> u64 { self.ck() }
            fn hash(k: &u64) -> u64 { *k }
            fn key_zero(k: &u64) -> bool { *k == 0 }
        }
    };
    (@op $t:ident, $tr:ident, $f:ident, $g:ident) => {
        impl $tr for $t {
            type Output = $t;
            fn $f(self, o: $t) -> $t { hook_k(ARITH); $t::new($g(self.ck(), o.ck())) }
        }
        impl<'a> $tr<&'a $t> for &'a $t {
            type Output = $t;
            fn $f(self, o: &$t) -> $t { hook_k(ARITH); $t::new($g(self.ck(), o.ck())) }
        }
    };
    (@fmt $t:ident, $tr:ident) => {
        impl fmt::$tr for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                hook_k(FORMAT);
                fmt::$tr::fmt(&to_i(self.ck()), f)
            }
        }
    };
}
field!(Coef);
field!(Qf);

// Nested coefficients: multivectors of an inner algebra.
macro_rules! nested {
    ($ty:ident) => {
        impl<A: ClAlgebra + 'static> CoefT for $ty<Coef, A> {
            type K = Vec<(usize, u64)>;
            fn of(k: &Self::K) -> Self {
                $ty::<Coef, A>::from_indexed_iter(k.iter().map(|(i, v)| (*i, Coef::new(*v)))).unwrap()
            }
            fn key(&self) -> Self::K {
                let mut v: Vec<_> = self.coeff_enumerate().map(|(i, c)| (i, c.val())).filter(|x| x.1 != 0).collect();
                v.sort();
                v
            }
            fn hash(k: &Self::K) -> u64 { nest_hash(k) }
            fn key_zero(k: &Self::K) -> bool { k.is_empty() }
        }
    };
}
nested!(Multivector);
nested!(SparseMultivector);
pub fn nest_hash(k: &[(usize, u64)]) -> u64 {
    k.iter().fold(7, |h, (i, v)| simrt::prng::comb(simrt::prng::comb(h, *i as u64), *v))
}
pub type Quat = tclifford::quaternion::Quaternion<Qf>;
impl CoefT for Quat {
    type K = Vec<(usize, u64)>;
    fn of(k: &Self::K) -> Self {
        let mut q = Quat::zero();
        for (i, v) in k {
            q = q.set_by_idx(*i, Qf(*v));
        }
        q
    }
    fn key(&self) -> Self::K {
        (0..4).map(|i| (i, self.get_by_idx(i).0)).filter(|x| x.1 != 0).collect()
    }
    fn hash(k: &Self::K) -> u64 { nest_hash(k) }
    fn key_zero(k: &Self::K) -> bool { k.is_empty() }
}

/// Tracked floating point coefficient: a number with the life of a `Coef`.
pub struct Fl {
    pub v: f64,
    tok: Coef,
}
impl Fl {
    pub fn new(v: f64) -> Fl { Fl { v, tok: Coef::new(0) } }
    fn ck(&self) -> f64 {
        self.tok.ck();
        self.v
    }
}
impl Clone for Fl {
    fn clone(&self) -> Self {
        hook_k(CLONE);
        Fl::new(self.ck())
    }
}
macro_rules! flop {
    ($($tr:ident $f:ident $o:tt)*) => {$(
        impl $tr for Fl {
            type Output = Fl;
            fn $f(self, o: Fl) -> Fl { hook_k(ARITH); Fl::new(self.ck() $o o.ck()) }
        }
        impl<'a> $tr<&'a Fl> for &'a Fl {
            type Output = Fl;
            fn $f(self, o: &Fl) -> Fl { hook_k(ARITH); Fl::new(self.ck() $o o.ck()) }
        }
    )*};
}
flop!(Add add + Sub sub - Mul mul * Div div /);
impl Neg for Fl {
    type Output = Fl;
    fn neg(self) -> Fl { hook_k(ARITH); Fl::new(-self.ck()) }
}
impl<'a> Neg for &'a Fl {
    type Output = Fl;
    fn neg(self) -> Fl { hook_k(ARITH); Fl::new(-self.ck()) }
}
impl Zero for Fl {
    fn zero() -> Self { hook_k(CONST); Fl::new(0.) }
    fn is_zero(&self) -> bool { hook_k(TEST); self.ck() == 0. }
}
impl One for Fl {
    fn one() -> Self { hook_k(CONST); Fl::new(1.) }
}
impl PartialEq for Fl {
    fn eq(&self, o: &Self) -> bool { hook_k(TEST); self.ck() == o.ck() }
}
impl Norm for Fl {
    fn norm(&self) -> f64 { hook_k(CONVERT); self.ck().abs() }
}
impl From<f64> for Fl {
    fn from(x: f64) -> Self { hook_k(CONVERT); Fl::new(x) }
}

/// Tracked complex number.
pub struct Gc {
    pub re: f64,
    pub im: f64,
    tok: Coef,
}
impl Gc {
    pub fn new(re: f64, im: f64) -> Gc { Gc { re, im, tok: Coef::new(0) } }
    fn ck(&self) -> Complex64 {
        self.tok.ck();
        Complex64::new(self.re, self.im)
    }
    fn of_c(c: Complex64) -> Gc { Gc::new(c.re, c.im) }
}
impl Clone for Gc {
    fn clone(&self) -> Self {
        hook_k(CLONE);
        Gc::of_c(self.ck())
    }
}
macro_rules! gcop {
    ($($tr:ident $f:ident $o:tt)*) => {$(
        impl $tr for Gc {
            type Output = Gc;
            fn $f(self, o: Gc) -> Gc { hook_k(ARITH); Gc::of_c(self.ck() $o o.ck()) }
        }
        impl<'a> $tr<&'a Gc> for &'a Gc {
            type Output = Gc;
            fn $f(self, o: &Gc) -> Gc { hook_k(ARITH); Gc::of_c(self.ck() $o o.ck()) }
        }
    )*};
}
gcop!(Add add + Sub sub - Mul mul *);
impl Neg for Gc {
    type Output = Gc;
    fn neg(self) -> Gc { hook_k(ARITH); Gc::of_c(-self.ck()) }
}
impl<'a> Neg for &'a Gc {
    type Output = Gc;
    fn neg(self) -> Gc { hook_k(ARITH); Gc::of_c(-self.ck()) }
}
impl Zero for Gc {
    fn zero() -> Self { hook_k(CONST); Gc::new(0., 0.) }
    fn is_zero(&self) -> bool { hook_k(TEST); self.ck() == Complex64::new(0., 0.) }
}
impl One for Gc {
    fn one() -> Self { hook_k(CONST); Gc::new(1., 0.) }
}
impl PartialEq for Gc {
    fn eq(&self, o: &Self) -> bool { hook_k(TEST); self.ck() == o.ck() }
}
impl IntoComplex64 for Gc {
    fn into_complex(&self) -> Complex64 { hook_k(CONVERT); self.ck() }
}
impl FromComplex for Gc {
    fn from_complex(c: Complex64) -> Self { hook_k(CONVERT); Gc::of_c(c) }
}

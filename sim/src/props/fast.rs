//! C08: the fast representation, in histories of several threads with interrupted conversions.
use super::threads::{schedule, simulate};
use super::*;
use crate::algs::{another, four, info, with_alg, Alg};
use crate::coef::Gc;
use crate::model::{self as m, GiR, Rg, Sig, M};
use crate::ops::{chash, fft_bits, Op};
use crate::world::{brief, last_panic};
use num::complex::{Complex32, Complex64};
use simrt::prng::comb;
use simrt::sched::{self, Mode};
use simrt::shared::KIND0;
use simrt::{quiet, rep, seam};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::clifft;
use tclifford::types::{FromComplex, IntoComplex64, Ring};
use tclifford::{FFTRepr, Multivector, One, Zero};

type V = (i64, i64);
type Raw = (f64, f64);
/// registers 0..OWN belong to the thread, the others are shared and only read
const OWN: usize = 4;
const ALL: usize = 7;

// ------------------------------------------------------------------ coefficient types

trait Fc: Ring + Clone + IntoComplex64 + FromComplex + 'static {
    const REAL: bool;
    /// integers up to 2^BITS are exact
    const BITS: u32;
    fn of(v: V, e: i32) -> Self;
    fn key(&self) -> Raw;
}
/// The integers that `c` is at the scale 2^e.
fn ints(c: Raw, e: i32) -> V {
    let int = |x: f64| {
        let x = x * two(-e);
        if x.fract() == 0. && x.abs() < 9e15 { x as i64 } else { i64::MIN ^ (x.to_bits() >> 2) as i64 }
    };
    (int(c.0), int(c.1))
}
fn two(e: i32) -> f64 {
    2f64.powi(e)
}
fn zigzag(x: &[u64]) -> i32 {
    let v = x.first().copied().unwrap_or(0).min(1600) as i32;
    if v % 2 == 0 { v / 2 } else { -(v + 1) / 2 }
}
fn gazzig(e: i32) -> u64 {
    if e >= 0 { 2 * e as u64 } else { (-2 * e - 1) as u64 }
}
macro_rules! fc {
    ($t:ty, $real:literal, $bits:literal, $re:ident $im:ident => $of:expr, $s:ident => $key:expr) => {
        impl Fc for $t {
            const REAL: bool = $real;
            const BITS: u32 = $bits;
            #[allow(unused_variables)]
            fn of(v: V, e: i32) -> Self { let ($re, $im) = (v.0 as f64 * two(e), v.1 as f64 * two(e)); $of }
            fn key(&self) -> Raw { let $s = self; $key }
        }
    };
}
fc!(Gc, false, 50, a b => Gc::new(a, b), s => (s.re, s.im));
fc!(Complex64, false, 50, a b => Complex64::new(a, b), s => (s.re, s.im));
fc!(f64, true, 50, a b => a, s => (*s, 0.));
fc!(f32, true, 22, a b => a as f32, s => (*s as f64, 0.));
fc!(Complex32, false, 22, a b => Complex32::new(a as f32, b as f32), s => (s.re as f64, s.im as f64));

fn is_real(kind: &str) -> bool { matches!(kind, "f" | "h") }
fn bits(kind: &str) -> u32 { if matches!(kind, "h" | "k") { 22 } else { 50 } }

// ------------------------------------------------------------------ execution

#[derive(Clone, Debug, PartialEq)]
enum Got {
    /// content of the result, bits of a fast representation
    Val(Vec<(usize, Raw)>, u64),
    Nums(Vec<Raw>),
    Inv(Option<Vec<(usize, Complex64)>>),
    Err(String),
    Na,
    Faulted,
    Panicked(String),
}

enum New<T: Fc, A: Alg> {
    Mv(Multivector<T, A>),
    F(FFTRepr<A>),
    Nums(Vec<Raw>),
    Inv(Option<FFTRepr<A>>),
    Arr(ndarray::Array1<Complex64>),
    Err(String),
    Na,
}

trait FwT {
    fn any(&self) -> &dyn Any;
    fn fresh(&self) -> Box<dyn FwT>;
    /// Execute a line; `at`: interrupt at that callback, nothing is stored then.
    fn step(&mut self, shared: Option<&dyn FwT>, op: &Op, at: u64) -> Got;
    fn mv(&self, r: usize) -> Vec<(usize, Raw)>;
    fn f(&self, r: usize) -> Vec<(usize, Raw)>;
}

struct Fw<T: Fc, A: Alg> {
    mv: Vec<Multivector<T, A>>,
    f: Vec<FFTRepr<A>>,
}
impl<T: Fc, A: Alg> Fw<T, A> {
    fn new() -> Self {
        Fw { mv: (0..ALL).map(|_| Multivector::zero()).collect(), f: (0..ALL).map(|_| FFTRepr::zero()).collect() }
    }
    fn calc(&self, sh: &Self, op: &Op) -> New<T, A> {
        let pm = |r: usize| if r % ALL < OWN { &self.mv[r % ALL] } else { &sh.mv[r % ALL] };
        let pf = |r: usize| if r % ALL < OWN { &self.f[r % ALL] } else { &sh.f[r % ALL] };
        let (x, y) = (pm(op.a), pm(op.b));
        let (p, q) = (pf(op.a), pf(op.b));
        let k = op.k;
        let num = |c: Complex64| (c.re, c.im);
        match op.name.as_str() {
            "load" => New::Mv(Multivector::<T, A>::from_indexed_iter(op.l.iter().map(|(i, c)| (*i, T::of(arg(*c, T::REAL), zigzag(&op.x))))).unwrap()),
            "add" => New::Mv(four!(x + y, k)),
            "sub" => New::Mv(four!(x - y, k)),
            "mul" => New::Mv(four!(x * y, k)),
            "rev" => New::Mv(x.rev()),
            "flip" => New::Mv(x.flip()),
            "fft" => New::F(x.fft()),
            "ifft" => New::Mv(p.ifft()),
            "fmulx" => New::Mv((x.fft() * y.fft()).ifft()),
            "fone" => New::F(FFTRepr::one()),
            "fzero" => New::F(FFTRepr::zero()),
            "fbasis" => New::F(A::basis_f().swap_remove(k as usize % A::N)),
            "fclone" => New::F(p.clone()),
            "fadd" => New::F(four!(p + q, k)),
            "fsub" => New::F(four!(p - q, k)),
            "fmul" => New::F(four!(p * q, k)),
            "fneg" => New::F(if k % 2 == 0 { -p } else { -p.clone() }),
            "fpow" => New::F(p.pow(k as usize)),
            "fscale" => {
                let c = &unit(k);
                New::F(match (k >> 8) % 5 {
                    0 => four!(p * c, k),
                    1 => { let r = &(((k >> 16) % 9) as f64 - 4.); four!(p * r, k) }
                    // division by a unit
                    2 => { let u = &[Complex64::new(1., 0.), Complex64::new(0., 1.), Complex64::new(-1., 0.), Complex64::new(0., -1.)][(k >> 16) as usize % 4]; four!(p / u, k) }
                    3 => { let s = &two(shift(k)); if k >> 15 & 1 == 0 { four!(p * s, k) } else { let s = &two(-shift(k)); four!(p / s, k) } }
                    _ => { let h = &(1u64 << ((k >> 16) % 3)) ; let h = &(*h as f64); let d = &(p * h); four!(d / h, k) }
                })
            }
            "frev" => New::F(p.rev()),
            "fflip" => New::F(p.flip()),
            "farr" => match FFTRepr::<A>::from_array3(p.clone().into_array3()) {
                Err(e) => New::Err(format!("{e:?}")),
                Ok(f) => match (k % 2, A::array2(f.clone())) {
                    (1, Some((_, g, _))) => New::F(g),
                    _ => New::F(f),
                },
            },
            "ftrace" => New::Nums(vec![num(p.ntrace()), num(p.trace() / p.shape().1 as f64), num(p.mag2())]),
            "fcmp" => {
                let f = |b: bool| b as u8 as f64;
                New::Nums(vec![(f(p == q), f(p != q)), (f(p.approx_eq(q, 0.25 * two(zigzag(&op.x)))), f(p.is_zero()))])
            },
            "finv" => match A::inv(p) { None => New::Na, Some(i) => New::Inv(i) },
            "fexp" => {
                let s = two(zigzag(&op.x));
                New::Inv(Some((p * s).exp()))
            }
            // the raw transforms: all axes square to one
            "cliff" => {
                let (a, b) = (clifft::clifft(x.coeff_array_view()).unwrap(), clifft::clifft(y.coeff_array_view()).unwrap());
                let r = match k % 5 {
                    0 => a.dot(&b),
                    1 => clifft::reversal(a.view()).unwrap(),
                    2 => clifft::parity_flip(a.view()),
                    3 => clifft::imaginary_flip(a.view()).unwrap(),
                    _ => a + b,
                };
                New::Arr(clifft::iclifft(r.view()).unwrap())
            }
            _ => New::Na,
        }
    }
}
fn arg(c: i64, real: bool) -> V {
    let e = c.rem_euclid(1681);
    (e % 41 - 20, if real { 0 } else { e / 41 - 20 })
}
fn unit(k: u64) -> Complex64 {
    Complex64::new(((k >> 20) % 7) as f64 - 3., ((k >> 24) % 5) as f64 - 2.)
}

fn shift(k: u64) -> i32 {
    ((k >> 16) % 61) as i32 - 30
}

fn dump<T: Fc, A: Alg>(x: &Multivector<T, A>) -> Vec<(usize, Raw)> {
    let mut v: Vec<(usize, Raw)> = x.coeff_enumerate().map(|(i, c)| (i, c.key())).filter(|c| c.1 != (0., 0.)).collect();
    v.sort_by_key(|c| c.0);
    v
}

impl<T: Fc, A: Alg> FwT for Fw<T, A> {
    fn any(&self) -> &dyn Any { self }
    fn fresh(&self) -> Box<dyn FwT> { Box::new(Self::new()) }
    fn step(&mut self, shared: Option<&dyn FwT>, op: &Op, at: u64) -> Got {
        simrt::arm(at);
        let r = catch_unwind(AssertUnwindSafe(|| match shared {
            Some(s) => self.calc(s.any().downcast_ref().unwrap(), op),
            None => self.calc(self, op),
        }));
        let (_, fired) = simrt::disarm();
        let d = op.d % ALL;
        quiet(|| match r {
            Err(_) if fired => Got::Faulted,
            Err(_) => Got::Panicked(last_panic()),
            Ok(_) if fired => Got::Panicked("the panic of a callback was swallowed".into()),
            Ok(New::Mv(x)) => {
                let v = dump(&x);
                self.mv[d] = x;
                Got::Val(v, 0)
            }
            Ok(New::F(f)) => {
                let h = fft_bits(&f);
                let v = dump::<Complex64, A>(&f.ifft());
                self.f[d] = f;
                Got::Val(v, h)
            }
            Ok(New::Arr(a)) => {
                let h = a.iter().fold(0, |h, c| chash(h, *c));
                Got::Val(a.iter().enumerate().map(|(i, c)| (i, c.key())).filter(|c| c.1 != (0., 0.)).collect(), h)
            }
            Ok(New::Nums(n)) => Got::Nums(n),
            Ok(New::Inv(None)) => Got::Inv(None),
            Ok(New::Inv(Some(f))) => Got::Inv(Some(f.ifft::<Complex64>().coeff_enumerate().map(|(i, c)| (i, *c)).collect())),
            Ok(New::Err(e)) => Got::Err(e),
            Ok(New::Na) => Got::Na,
        })
    }
    fn mv(&self, r: usize) -> Vec<(usize, Raw)> { dump(&self.mv[r]) }
    fn f(&self, r: usize) -> Vec<(usize, Raw)> { dump::<Complex64, A>(&self.f[r].ifft()) }
}

fn world(name: &str, kind: &str) -> Box<dyn FwT> {
    macro_rules! few {
        ($t:ty) => {
            with_alg!(@ name, A, Box::new(Fw::<$t, A>::new()), |o| panic!("algebra {o}"); N1 P3 M3 S4 M6)
        };
    }
    macro_rules! most {
        ($t:ty) => {
            with_alg!(@ name, A, Box::new(Fw::<$t, A>::new()), |o| panic!("algebra {o}");
                P1 N1 Z1 P2 S2 N2 G1 Z2 P3 G2 N3 M3 W3 ST W4 TS G3 S4 R4 C5 N5 M5 P6 Z6 S6 M6 P7 M7 P8 M8 X9 M9 XA XC)
        };
    }
    match kind {
        "f" => most!(f64),
        "h" => few!(f32),
        "c" => few!(Complex64),
        "k" => few!(Complex32),
        _ => most!(Gc),
    }
}
const FEW: &[&str] = &["N1", "P3", "M3", "S4", "M6"];
const MOST: &[&str] = &[
    "P1", "N1", "Z1", "P2", "S2", "N2", "G1", "Z2", "P3", "G2", "N3", "M3", "W3", "ST", "W4", "TS", "G3", "S4", "R4", "C5", "N5", "M5", "P6", "Z6", "S6", "M6", "P7",
    "M7", "P8", "M8",
];
const LARGE: &[&str] = &["X9", "M9", "XA", "XC"];

// ------------------------------------------------------------------ model

/// Integers times 2^e.
#[derive(Clone, Debug, Default)]
struct X {
    m: M<V>,
    e: i32,
}
impl X {
    fn with(&self, m: M<V>) -> X { X { m, e: self.e } }
    fn is(&self, got: &[(usize, Raw)]) -> bool {
        got.len() == self.m.len() && got.iter().all(|(i, c)| self.m.get(i) == Some(&ints(*c, self.e)))
    }
    /// the scale of a sum
    fn join(&self, o: &X) -> Option<i32> {
        if self.e == o.e || o.m.is_empty() { Some(self.e) } else if self.m.is_empty() { Some(o.e) } else { None }
    }
}

struct Md {
    sig: Sig,
    real: bool,
    bits: u32,
    mv: Vec<X>,
    f: Vec<X>,
}
#[derive(Clone, Debug)]
enum Want {
    Mv(X),
    F(X),
    Arr(X),
    Nums(Vec<(V, i32)>),
    /// the element whose inverse is asked for
    Inv(X),
    /// the element whose exponential is asked for
    Exp(X),
    /// too large to be exact: not executed
    Skip,
}
fn l1(a: &X) -> f64 {
    a.m.values().map(|v| v.0.abs() as f64 + v.1.abs() as f64).sum()
}
impl Md {
    fn new(name: &str, kind: &str) -> Md {
        Md { sig: info(name).sig(), real: is_real(kind), bits: bits(kind), mv: vec![X::default(); ALL], f: vec![X::default(); ALL] }
    }
    /// Exact in the coefficient type, with room for sums over a row.
    fn fits(&self, x: f64, e: i32) -> bool {
        x < (1u64 << (self.bits - 1)) as f64 && e.abs() < if self.bits < 30 { 90 } else { 800 }
    }
    fn want(&self, op: &Op) -> Want {
        let g = &GiR;
        let s = &self.sig;
        let (x, y, p, q) = (&self.mv[op.a % ALL], &self.mv[op.b % ALL], &self.f[op.a % ALL], &self.f[op.b % ALL]);
        let k = op.k;
        let fbig = |x: f64, e: i32| x < (1u64 << 48) as f64 && e.abs() < 800;
        macro_rules! need {
            ($c:expr) => {
                if !$c {
                    return Want::Skip;
                }
            };
        }
        let sum = |x: &X, y: &X, add: bool| x.join(y).map(|e| X { m: if add { m::add(g, &x.m, &y.m) } else { m::sub(g, &x.m, &y.m) }, e });
        match op.name.as_str() {
            "load" => {
                let mut o = M::new();
                for (i, c) in &op.l {
                    m::set(g, s, &mut o, *i % s.size(), arg(*c, self.real));
                }
                let e = zigzag(&op.x);
                need!(op.l.iter().all(|(i, _)| *i < s.size()) && self.fits(1., e));
                Want::Mv(X { m: o, e })
            }
            "add" | "sub" => {
                need!(self.fits(l1(x) + l1(y), 0));
                sum(x, y, op.name == "add").map_or(Want::Skip, Want::Mv)
            }
            "mul" | "fmulx" => {
                need!(self.fits(l1(x) * l1(y), x.e + y.e) && fbig(l1(x) * l1(y) * 64., 0));
                Want::Mv(X { m: m::mul(g, s, &x.m, &y.m), e: x.e + y.e })
            }
            "rev" => Want::Mv(x.with(m::rev(g, &x.m))),
            "flip" => Want::Mv(x.with(m::flip(g, &x.m))),
            "fft" => Want::F(x.clone()),
            "ifft" => {
                need!(self.fits(l1(p), p.e));
                Want::Mv(if self.real { p.with(p.m.iter().filter(|v| v.1 .0 != 0).map(|(i, v)| (*i, (v.0, 0))).collect()) } else { p.clone() })
            }
            "fone" => Want::F(X { m: m::one(g), e: 0 }),
            "fzero" => Want::F(X::default()),
            "fbasis" => Want::F(X { m: [(1usize << (k as usize % s.dim), (1, 0))].into(), e: 0 }),
            "fclone" | "farr" => Want::F(p.clone()),
            "fadd" | "fsub" => {
                need!(fbig(l1(p) + l1(q), 0));
                sum(p, q, op.name == "fadd").map_or(Want::Skip, Want::F)
            }
            "fmul" => {
                need!(fbig(l1(p) * l1(q) * 64., p.e + q.e));
                Want::F(X { m: m::mul(g, s, &p.m, &q.m), e: p.e + q.e })
            }
            "fneg" => Want::F(p.with(m::neg(g, &p.m))),
            "fpow" => {
                need!((k < 20 || p.e == 0 && l1(p) <= 1.) && k < 1 << 24 && fbig(l1(p).max(1.).powi(k as i32) * 64., p.e * k as i32));
                match m::pow(g, s, &p.m, k as usize, 400_000) {
                    Some(m) => Want::F(X { m, e: p.e * k as i32 }),
                    None => Want::Skip,
                }
            }
            "fscale" => {
                need!(fbig(l1(p) * 64., p.e + 40) && fbig(0., p.e - 40));
                let c = match (k >> 8) % 5 {
                    0 => { let u = unit(k); (u.re as i64, u.im as i64) }
                    1 => (((k >> 16) % 9) as i64 - 4, 0),
                    2 => [(1, 0), (0, -1), (-1, 0), (0, 1)][(k >> 16) as usize % 4],
                    _ => (1, 0),
                };
                Want::F(X { m: m::scale(g, &p.m, &c), e: p.e + if (k >> 8) % 5 == 3 { shift(k) } else { 0 } })
            }
            "frev" => Want::F(p.with(m::rev(g, &p.m))),
            "fflip" => Want::F(p.with(m::flip(g, &p.m))),
            "ftrace" => {
                need!(fbig(l1(p) * l1(p) * 64., 2 * p.e));
                let t = m::get(g, &p.m, 0);
                Want::Nums(vec![(t, p.e), (t, p.e), (m::mag2(g, s, &p.m), 2 * p.e)])
            }
            "fcmp" => {
                need!(p.join(q) == Some(zigzag(&op.x)));
                let same = p.m == q.m;
                Want::Nums(vec![((same as i64, !same as i64), 0), ((same as i64, p.m.is_empty() as i64), 0)])
            }
            "finv" => {
                need!(p.e.abs() < 200);
                Want::Inv(p.clone())
            }
            "fexp" => {
                let e = p.e + zigzag(&op.x);
                need!(e.abs() < 200 && l1(p) * two(e) < 300. && s.dim <= 8);
                Want::Exp(X { m: p.m.clone(), e })
            }
            "cliff" => {
                need!(fbig(l1(x) * l1(y).max(1.) * 64., x.e + y.e));
                // all axes square to one, rounded up to an even number of them
                let e = Sig { dim: s.dim, sq: vec![1; s.dim] };
                match k % 5 {
                    0 => Want::Arr(X { m: m::mul(g, &e, &x.m, &y.m), e: x.e + y.e }),
                    1 => Want::Arr(x.with(m::rev(g, &x.m))),
                    2 => Want::Arr(x.with(m::flip(g, &x.m))),
                    3 => Want::Arr(x.with(m::flipsub(g, &x.m, 0xAAAA_AAAA))),
                    _ => sum(x, y, true).map_or(Want::Skip, Want::Arr),
                }
            }
            _ => Want::Skip,
        }
    }
    fn store(&mut self, d: usize, w: &Want) {
        match w {
            Want::Mv(x) => self.mv[d % ALL] = x.clone(),
            Want::F(x) => self.f[d % ALL] = x.clone(),
            _ => {}
        }
    }
}

/// Inverse by the definition: solve for it in the regular representation. None: singular or nearly so.
fn reference_inverse(s: &Sig, a: &M<V>) -> Option<(Vec<Complex64>, f64)> {
    let n = s.size();
    let z = Complex64::new(0., 0.);
    let mut w = vec![vec![z; 2 * n]; n];
    for (i, v) in a {
        for j in 0..n {
            let (sg, t) = m::blade_mul(s, *i, j);
            w[t][j] += Complex64::new(v.0 as f64, v.1 as f64) * sg as f64;
        }
    }
    let size = |w: &Vec<Vec<Complex64>>, o: usize| w.iter().map(|r| r[o..o + n].iter().map(|c| c.norm()).sum::<f64>()).fold(0., f64::max);
    let na = size(&w, 0);
    for (i, r) in w.iter_mut().enumerate() {
        r[n + i] = Complex64::new(1., 0.);
    }
    for i in 0..n {
        let p = (i..n).max_by(|x, y| w[*x][i].norm().total_cmp(&w[*y][i].norm())).unwrap();
        if w[p][i].norm() <= 1e-9 * na {
            return None;
        }
        w.swap(i, p);
        let k = w[i][i];
        for c in w[i].iter_mut() {
            *c /= k;
        }
        let row = w[i].clone();
        for (j, r) in w.iter_mut().enumerate() {
            let c = r[i];
            if j != i && c != z {
                for t in i..2 * n {
                    r[t] -= c * row[t];
                }
            }
        }
    }
    let cond = na * size(&w, n);
    if cond > 1e7 {
        return None;
    }
    Some(((0..n).map(|i| w[i][n]).collect(), cond))
}

/// Exponential by the definition, after halving, and how much an error made on the way can grow
/// when the exponential is put together from smaller ones.
fn reference_exp(s: &Sig, a: &X) -> (M<Complex64>, f64) {
    let zero = Complex64::new(0., 0.);
    let n = s.size();
    let sign: Vec<i8> = (0..n * n).map(|k| m::blade_mul(s, k / n, k % n).0 as i8).collect();
    let mul = |a: &[Complex64], b: &[Complex64]| {
        let mut o = vec![zero; n];
        for i in (0..n).filter(|i| a[*i] != zero) {
            for j in (0..n).filter(|j| b[*j] != zero) {
                o[i ^ j] += a[i] * b[j] * sign[i * n + j] as f64;
            }
        }
        o
    };
    let norm = l1(a) * two(a.e);
    let halvings = if norm > 0.5 { norm.log2().ceil() as i32 + 1 } else { 0 };
    let mut x = vec![zero; n];
    for (i, v) in &a.m {
        x[*i] = Complex64::new(v.0 as f64, v.1 as f64) * two(a.e - halvings);
    }
    let mut p = vec![zero; n];
    p[0] = Complex64::new(1., 0.);
    let mut sum = p.clone();
    for k in 1..16 {
        p = mul(&p, &x);
        for i in 0..n {
            p[i] /= k as f64;
            sum[i] += p[i];
        }
    }
    // the greatest exponential of the steps from 0 to the element
    let size = |a: &[Complex64]| a.iter().map(|c| c.norm()).sum::<f64>();
    let mut top = size(&sum);
    for h in 0..halvings {
        if h + 4 == halvings {
            let mut q = sum.clone();
            for _ in 0..16 {
                q = mul(&q, &sum);
                top = top.max(size(&q));
            }
        }
        sum = mul(&sum, &sum);
        top = top.max(size(&sum));
    }
    (sum.into_iter().enumerate().filter(|(_, c)| *c != zero).collect(), (1. + norm) * top * top)
}

fn compare(w: &Md, op: &Op, got: &Got, want: &Want) -> Result<(), String> {
    let sig: String = w.sig.sq.iter().map(|s| match s { 1 => '+', -1 => '-', _ => '0' }).collect();
    let at = || format!("`{}` on {sig}", op.text());
    let bad = |e: String| Err(format!("{}: got {}, expected {e}", at(), brief(got)));
    match (got, want) {
        (Got::Panicked(p), _) => Err(format!("{} panicked: {p}", at())),
        (Got::Val(v, _), Want::Mv(x) | Want::F(x) | Want::Arr(x)) => {
            if !x.is(v) {
                return bad(brief(&x));
            }
            Ok(())
        }
        (Got::Nums(a), Want::Nums(b)) => if a.len() == b.len() && a.iter().zip(b).all(|(a, b)| ints(*a, b.1) == b.0) { Ok(()) } else { bad(brief(b)) },
        (Got::Na, Want::Inv(_)) => Ok(()),
        (Got::Inv(i), Want::Inv(a)) => {
            if w.sig.dim > 6 {
                let Some(i) = i else { return Ok(()) };
                let mut r = vec![Complex64::new(0., 0.); w.sig.size()];
                let mut li = 0.;
                for (j, c) in i {
                    li += c.norm();
                    for (t, v) in &a.m {
                        let (sg, u) = m::blade_mul(&w.sig, *t, *j);
                        r[u] += Complex64::new(v.0 as f64, v.1 as f64) * sg as f64 * two(a.e) * c;
                    }
                }
                r[0] -= 1.;
                let tol = 1e-10 * l1(a) * two(a.e) * li;
                if tol < 1e-3 && r.iter().any(|c| !(c.norm() <= tol)) {
                    return bad(format!("the inverse; off by {:e}", r.iter().map(|c| c.norm()).fold(0., f64::max)));
                }
                rep().counters[3] += 1;
                return Ok(());
            }
            if w.sig.dim > 5 && op.k % 4 != 0 {
                return Ok(());
            }
            let Some((x, cond)) = reference_inverse(&w.sig, &a.m) else { return Ok(()) };
            rep().counters[3] += 1;
            let Some(i) = i else { return bad(format!("the inverse {}", brief(&x))) };
            let big = x.iter().map(|c| c.norm()).fold(0., f64::max);
            let mut full = vec![Complex64::new(0., 0.); x.len()];
            for (j, c) in i {
                full[*j] = *c * two(a.e);
            }
            if full.iter().zip(&x).any(|(a, b)| !((a - b).norm() <= (1e-12 * cond).max(1e-10) * big)) {
                return bad(format!("the inverse {}", brief(&x)));
            }
            Ok(())
        }
        (Got::Inv(Some(i)), Want::Exp(a)) => {
            let (x, grow) = reference_exp(&w.sig, a);
            rep().counters[4] += 1;
            let tol = 1e-12 * (l1(a) * two(a.e)).exp().min(grow);
            let mut got: M<Complex64> = i.iter().copied().collect();
            for (j, c) in &x {
                *got.entry(*j).or_insert(Complex64::new(0., 0.)) -= c;
            }
            if got.values().any(|d| !(d.norm() <= tol)) {
                return bad(format!("the exponential {}", brief(&x)));
            }
            Ok(())
        }
        _ => bad(brief(want)),
    }
}

fn got_digest(g: &Got) -> u64 {
    match g {
        Got::Val(v, b) => v.iter().fold(comb(1, *b), |h, (i, c)| comb(comb(comb(h, *i as u64), c.0.to_bits()), c.1.to_bits())),
        Got::Nums(n) => n.iter().fold(2, |h, c| comb(comb(h, c.0.to_bits()), c.1.to_bits())),
        Got::Inv(None) => 3,
        Got::Inv(Some(v)) => v.iter().fold(4, |h, (i, c)| comb(comb(comb(h, *i as u64), c.re.to_bits()), c.im.to_bits())),
        Got::Err(e) => e.bytes().fold(5, |h, b| comb(h, b as u64)),
        Got::Na => 6,
        Got::Faulted => 7,
        Got::Panicked(_) => 8,
    }
}

// ------------------------------------------------------------------ programs

const OPS: &[(&str, u32)] = &[
    ("load", 5), ("add", 1), ("sub", 1), ("mul", 2), ("rev", 1), ("flip", 1), ("fft", 14), ("ifft", 8), ("fmulx", 5), ("fone", 1), ("fzero", 1),
    ("fbasis", 2), ("fclone", 1), ("fadd", 4), ("fsub", 4), ("fmul", 14), ("fneg", 2), ("fpow", 5), ("fscale", 5), ("frev", 5), ("fflip", 5),
    ("farr", 3), ("ftrace", 4), ("fcmp", 3), ("finv", 8), ("fexp", 4), ("cliff", 6),
];

fn worlds(t: &mut Trace, r: &mut Rng) {
    for _ in 0..1 + r.us(3) {
        let (a, k) = match r.below(8) {
            _ if r.chance(1, 60) => (*r.pick(LARGE), *r.pick(&["f", "g"])),
            0 => (*r.pick(FEW), *r.pick(&["c", "h", "k"])),
            1 | 2 => (another(r, &t.worlds, MOST), "f"),
            _ => (another(r, &t.worlds, MOST), "g"),
        };
        t.worlds.push((a.into(), k.into()));
    }
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C08", r.next());
    worlds(&mut t, r);
    let mut md: Vec<Md> = t.worlds.iter().map(|(a, k)| Md::new(a, k)).collect();
    let large = t.worlds.iter().any(|w| LARGE.contains(&w.0.as_str()));
    // values of any magnitude
    let most = if md.iter().any(|m| m.bits < 30) { 40 } else { 250 };
    let scale = if r.chance(1, 2) { 0 } else if r.chance(1, 2) { r.range(0, 60) as i32 - 30 } else { r.range(0, 2 * most) as i32 - most as i32 };
    let load = |r: &mut Rng, w: usize, md: &Md, d: usize| {
        let mut op = Op::new(w, "load");
        op.d = d;
        let e = if r.chance(1, 12) { r.range(0, 40) as i32 - 20 } else { scale };
        if e != 0 {
            op.x = vec![gazzig(e)];
        }
        if r.chance(1, 8) {
            // a product of factors 1 + b with blades that commute: a multiple of an idempotent or a nilpotent
            let (mut bs, mut x) = (vec![], M::from([(0, (1, 0))]));
            for _ in 0..40 {
                let b = r.us(md.sig.size());
                if bs.len() < 5 && b != 0 && !x.contains_key(&b) && bs.iter().all(|c| m::blade_mul(&md.sig, b, *c).0 == m::blade_mul(&md.sig, *c, b).0) {
                    bs.push(b);
                    let square = m::blade_mul(&md.sig, b, b).0;
                    let f = if square < 0 && !md.real { (0, 1) } else { (1, 0) };
                    x = m::mul(&GiR, &md.sig, &x, &M::from([(0, (1, 0)), (b, f)]));
                }
            }
            op.l = x.iter().map(|(i, v)| (*i, (v.0.clamp(-20, 20) + 20) + 41 * (v.1.clamp(-20, 20) + 20))).collect();
            return op;
        }
        let n = match r.below(4) {
            0 => 1 + r.us(3),
            1 => md.sig.size().min(64),
            _ => 1 + r.us(md.sig.size().min(16)),
        };
        let small = r.chance(1, 2);
        for _ in 0..n {
            let (re, im) = if small { (r.range(0, 4) as i64 - 2, r.range(0, 2) as i64 - 1) } else { (r.range(0, 40) as i64 - 20, r.range(0, 40) as i64 - 20) };
            op.l.push((r.us(md.sig.size()), (re + 20) + 41 * (im + 20)));
        }
        op
    };
    // shared values
    for w in 0..md.len() {
        for d in OWN..ALL {
            if r.chance(3, 4) {
                let op = load(r, w, &md[w], d);
                let want = md[w].want(&op);
                md[w].store(d, &want);
                t.lines.push(op);
            }
            if r.chance(3, 4) {
                let mut op = Op::new(w, "fft");
                op.a = d;
                op.d = d;
                let want = md[w].want(&op);
                md[w].store(d, &want);
                t.lines.push(op);
            }
        }
    }
    let crowd = !large && r.chance(1, 40);
    let n = if large { 1 + r.us(2) } else if crowd { 4 + r.us(17) } else { *r.pick(&[1, 2, 2, 3]) };
    let table: Vec<(&str, u32)> = OPS.iter().map(|(n, w)| (*n, if r.chance(1, 5) { w * 5 } else { *w })).collect();
    let ws: Vec<u32> = table.iter().map(|x| x.1).collect();
    let base: Vec<(Vec<X>, Vec<X>)> = md.iter().map(|m| (m.mv.clone(), m.f.clone())).collect();
    for th in 1..=n {
        for (m, b) in md.iter_mut().zip(&base) {
            m.mv = b.0.clone();
            m.f = b.1.clone();
        }
        let per = if crowd { 1 + r.us(2) } else { 2 } + r.us(if crowd { 1 } else if large { 4 } else if tier == Tier::Quick { 8 } else { 16 });
        let (mut k, mut tries) = (0, 0);
        while k < per && tries < 40 {
            tries += 1;
            let w = r.us(md.len());
            let name = table[r.weighted(&ws)].0;
            let rich = |r: &mut Rng, v: &Vec<X>| {
                let (x, y) = (r.us(ALL), r.us(ALL));
                if v[x].m.is_empty() { y } else { x }
            };
            let regs = if name.starts_with('f') && !matches!(name, "fft" | "fmulx") || name == "ifft" { &md[w].f } else { &md[w].mv };
            let mut op = Op::new(w, name);
            op.a = rich(r, regs);
            op.b = if r.chance(1, 6) { op.a } else { rich(r, regs) };
            op.d = r.us(OWN);
            op.k = match name {
                "fscale" => r.next() >> 20,
                "fpow" => r.below(7),
                "fbasis" => r.below(md[w].sig.dim as u64),
                "cliff" => r.below(5),
                _ => r.below(4),
            };
            if name == "load" {
                op = load(r, w, &md[w], op.d);
            }
            if name == "fpow" && r.chance(1, 3) {
                // powers of units can be high
                if let Some(u) = (0..md[w].f.len()).find(|u| !md[w].f[*u].m.is_empty() && md[w].f[*u].e == 0 && l1(&md[w].f[*u]) <= 1.) {
                    op.a = u;
                    op.k = r.log_uniform(1 << 20);
                }
            }
            if name == "fexp" {
                // norms from tiny to about 300
                let x = &md[w].f[op.a];
                let l = l1(x).max(1.).log2().ceil() as i32;
                op.x = vec![gazzig(r.range(0, 20) as i32 - 12 - l - x.e + if r.chance(1, 2) { 1 } else { 0 })];
            }
            if name == "fcmp" {
                let e = md[w].f[op.a].join(&md[w].f[op.b]).unwrap_or(0);
                if e != 0 {
                    op.x = vec![gazzig(e)];
                }
            }
            let cost = md[w].mv[op.a].m.len().max(md[w].f[op.a].m.len()) * md[w].mv[op.b].m.len().max(md[w].f[op.b].m.len()).max(if name == "mul" { md[w].sig.size() } else { 0 });
            if (md[w].sig.dim > 6 && cost > 20_000) || (name == "mul" && cost > 5_000) {
                continue;
            }
            let want = md[w].want(&op);
            if matches!(want, Want::Skip) {
                continue;
            }
            md[w].store(op.d, &want);
            op.t = th;
            t.lines.push(op);
            k += 1;
        }
    }
    t
}

/// What every line must give, per the model: lines of a thread see its own registers and the shared ones.
fn wants(t: &Trace) -> (Vec<Md>, Vec<Want>) {
    let mut shared: Vec<Md> = t.worlds.iter().map(|(a, k)| Md::new(a, k)).collect();
    let mut out = vec![Want::Skip; t.lines.len()];
    for (i, op) in t.lines.iter().enumerate() {
        if op.t == 0 && op.w < shared.len() && op.d % ALL >= OWN {
            out[i] = shared[op.w].want(op);
            let w = out[i].clone();
            shared[op.w].store(op.d, &w);
        }
    }
    for th in 1..=sched::MAXT {
        let mut own: Vec<Md> = shared.iter().map(|s| Md { sig: s.sig.clone(), mv: s.mv.clone(), f: s.f.clone(), ..*s }).collect();
        for (i, op) in t.lines.iter().enumerate() {
            if op.t == th && op.w < own.len() && op.d % ALL < OWN {
                out[i] = own[op.w].want(op);
                let w = out[i].clone();
                own[op.w].store(op.d, &w);
            }
        }
    }
    (shared, out)
}

struct Done {
    line: usize,
    got: Got,
    again: bool,
    hooks: u64,
    steps: u64,
}

fn setup(t: &Trace, wants: &[Want], md: &[Md]) -> Result<Vec<Box<dyn FwT>>, String> {
    let mut ws: Vec<Box<dyn FwT>> = t.worlds.iter().map(|(a, k)| world(a, k)).collect();
    for (i, op) in t.lines.iter().enumerate() {
        if op.t == 0 && !matches!(wants[i], Want::Skip) {
            let got = ws[op.w].step(None, op, 0);
            compare(&md[op.w], op, &got, &wants[i])?;
        }
    }
    Ok(ws)
}

fn body(shared: &[Box<dyn FwT>], jobs: &[(usize, Op)]) -> Vec<Done> {
    let mut own: Vec<Box<dyn FwT>> = quiet(|| shared.iter().map(|w| w.fresh()).collect());
    let mut out = quiet(|| Vec::with_capacity(2 * jobs.len()));
    for (line, op) in jobs {
        let w = &mut own[op.w];
        if op.f != 0 {
            let got = w.step(Some(&*shared[op.w]), op, op.f);
            let done = matches!(got, Got::Faulted);
            quiet(|| out.push(Done { line: *line, got, again: true, hooks: 0, steps: 0 }));
            if !done {
                continue;
            }
        }
        let before = sched::stats().0;
        let got = w.step(Some(&*shared[op.w]), op, 0);
        let d = Done { line: *line, got, again: false, hooks: seam::callbacks(), steps: sched::stats().0 - before };
        quiet(|| out.push(d));
    }
    out
}

fn jobs(t: &Trace, wants: &[Want]) -> Vec<Vec<(usize, Op)>> {
    let n = t.lines.iter().map(|o| o.t).max().unwrap_or(0).clamp(1, sched::MAXT);
    let mut v: Vec<Vec<(usize, Op)>> = vec![vec![]; n];
    for (i, op) in t.lines.iter().enumerate() {
        if op.t > 0 && op.t <= n && !matches!(wants[i], Want::Skip) {
            v[op.t - 1].push((i, op.clone()));
        }
    }
    v
}

fn profile(t: &Trace, line: Option<usize>) -> Result<(), String> {
    let p = rep();
    let th = t.lines[line.unwrap()].t;
    for (i, op) in t.lines.iter().enumerate() {
        if op.t == th {
            (p.line_hooks[i], p.line_digest[i], p.line_steps[i]) = (0, 0, 0);
        }
    }
    let (md, wants) = wants(t);
    let mut js = jobs(t, &wants);
    if th == 0 || th > js.len() {
        return Ok(());
    }
    let sh = setup(t, &wants, &md)?;
    let mut js = js.swap_remove(th - 1);
    js.iter_mut().for_each(|j| j.1.f = 0);
    let out = simulate(1, &Mode::Plan(&[]), 2_000_000_000, |_| body(&sh, &js));
    for d in &out[0] {
        let i = d.line;
        compare(&md[t.lines[i].w], &t.lines[i], &d.got, &wants[i])?;
        p.line_hooks[i] = d.hooks as u32;
        p.line_digest[i] = got_digest(&d.got);
        p.line_steps[i] = d.steps;
    }
    Ok(())
}

fn place(t: &mut Trace, pr: &Prof, r: &mut Rng) {
    if r.chance(1, 2) {
        super::faults::place(t, pr, r);
    }
    t.entropy = r.next();
    schedule(t, pr, r);
}

fn run(t: &Trace, pr: &Prof) -> Result<(), String> {
    let (md, wants) = wants(t);
    let sh = setup(t, &wants, &md)?;
    let js = jobs(t, &wants);
    let p = rep();
    let out = simulate(js.len(), &t.mode, t.num("cap").max(30_000_000), |k| body(&sh, &js[k]));
    let (points, switches, sig, _) = sched::stats();
    let mut h = sig;
    for d in out.iter().flatten() {
        let op = &t.lines[d.line];
        if d.again && d.got == Got::Faulted {
            p.counters[0] += 1;
            continue;
        }
        compare(&md[op.w], op, &d.got, &wants[d.line])?;
        let dg = got_digest(&d.got);
        if dg != pr.digest[d.line] {
            return Err(format!("`{}` on {} gives other bits than in a process of its own: {}", op.text(), info(&t.worlds[op.w].0).sig, brief(&d.got)));
        }
        h = comb(h, dg);
        p.counters[1] += 1;
    }
    for (w, x) in md.iter().zip(&sh) {
        for r in OWN..ALL {
            if !w.mv[r].is(&x.mv(r)) || !w.f[r].is(&x.f(r)) {
                return Err(format!("shared value {r} changed: {} {}", brief(&x.mv(r)), brief(&x.f(r))));
            }
        }
    }
    p.counters[2] += switches;
    p.steps = points;
    p.digest = h;
    p.nontrivial = (switches > out.len() as u64 || p.counters[0] > 0) as u32;
    Ok(())
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        gen,
        profile: Some(profile),
        per_line: true,
        per_thread: true,
        place,
        run,
        repeat: 6,
        threads: true,
        quick: 5_000,
        thorough: 100_000,
        rule: "a run counts if threads were switched within their programs or a call was interrupted; two runs are the same if threads ran for the same numbers of points in the same order and all outcomes had the same bits",
        measure: "hash of the sequence of (points run, next thread) and of the bits of all outcomes",
        time_unit: "scheduling points (basic blocks, loads, stores and callbacks)",
        stubs: "kernel entropy and futex (own getrandom and syscall symbols), the order of threads, coefficient type Gc (tracked complex number; beside it f64, f32, Complex64 and Complex32)",
        assumptions: &[
            "sequentially consistent memory: threads are preempted between, not within, memory accesses, and stores are seen in order",
            "Gaussian integer coefficients small enough for all intermediate values to be exact, except for inverses",
            "inverses are compared in algebras of at most 6 axes and for condition numbers up to 1e7, to 1e-12 times the condition number; in larger algebras those found are multiplied by the element",
        ],
        counters: &[(1, "calls completed"), (2, "thread switches"), (3, "inverses compared with the definition"), (4, "exponentials compared with the definition")],
        faults: &[
            (2, "thread switches"), (0, "calls interrupted by a panic"), (KIND0 + seam::CONVERT, "panic in a conversion"),
            (KIND0 + seam::ARITH, "panic in coefficient arithmetic"), (KIND0 + seam::CLONE, "panic in clone"),
            (KIND0 + seam::CONST, "panic in zero/one"), (KIND0 + seam::TEST, "panic in is_zero/=="),
        ],
    }
}

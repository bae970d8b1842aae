//! C11: floating-point sparse values under every hash order, against double-double arithmetic.
use super::*;
use crate::algs::{info, Alg};
use crate::model::{blade_mul, blade_wedge, grade_of, Sig};
use crate::ops::Op;
use crate::world::{brief, last_panic};
use num::complex::{Complex32, Complex64, ComplexFloat};
use simrt::prng::{comb, mix};
use simrt::{rep, seam};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::types::{DivRing, WedgeProduct};
use tclifford::{Norm, SparseMultivector};

// ------------------------------------------------------------------ double-double

#[derive(Clone, Copy, Debug, PartialEq)]
struct Dd(f64, f64);
impl Dd {
    fn sum(a: f64, b: f64) -> Dd {
        let s = a + b;
        let t = s - a;
        Dd(s, (a - (s - t)) + (b - t))
    }
    fn add(self, o: Dd) -> Dd {
        let s = Dd::sum(self.0, o.0);
        let t = Dd::sum(self.1, o.1);
        let u = Dd::sum(s.0, s.1 + t.0);
        Dd::sum(u.0, u.1 + t.1)
    }
    fn neg(self) -> Dd { Dd(-self.0, -self.1) }
    fn mul(self, o: Dd) -> Dd {
        let p = self.0 * o.0;
        let e = self.0.mul_add(o.0, -p);
        Dd::sum(p, e + (self.0 * o.1 + self.1 * o.0))
    }
    fn div(self, o: Dd) -> Dd {
        let q = self.0 / o.0;
        let r = self.add(o.mul(Dd(q, 0.)).neg());
        let q2 = r.0 / o.0;
        let r2 = r.add(o.mul(Dd(q2, 0.)).neg());
        Dd::sum(q, q2).add(Dd(r2.0 / o.0, 0.))
    }
}
/// complex
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cd(Dd, Dd);
const ZERO: Cd = Cd(Dd(0., 0.), Dd(0., 0.));
const ONE: Cd = Cd(Dd(1., 0.), Dd(0., 0.));
impl Cd {
    fn add(self, o: Cd) -> Cd { Cd(self.0.add(o.0), self.1.add(o.1)) }
    fn neg(self) -> Cd { Cd(self.0.neg(), self.1.neg()) }
    fn conj(self) -> Cd { Cd(self.0, self.1.neg()) }
    fn mul(self, o: Cd) -> Cd {
        Cd(self.0.mul(o.0).add(self.1.mul(o.1).neg()), self.0.mul(o.1).add(self.1.mul(o.0)))
    }
    fn div(self, o: Cd) -> Cd {
        let n = o.0.mul(o.0).add(o.1.mul(o.1));
        let c = self.mul(o.conj());
        Cd(c.0.div(n), c.1.div(n))
    }
    fn sign(self, s: i8) -> Cd { if s < 0 { self.neg() } else { self } }
    fn of(re: f64, im: f64) -> Cd { Cd(Dd(re, 0.), Dd(im, 0.)) }
    fn abs(self) -> f64 { self.0 .0.abs() + self.1 .0.abs() }
}

/// A coefficient: the exact value, the sum of the magnitudes of its terms, how many roundings a term can see.
#[derive(Clone, Copy, Debug)]
struct E {
    v: Cd,
    maj: f64,
    n: f64,
}
type X = BTreeMap<usize, E>;

fn exact(v: &[(usize, Cd)]) -> X {
    v.iter().map(|(i, c)| (*i, E { v: *c, maj: c.abs(), n: 0. })).collect()
}
fn acc(o: &mut X, i: usize, e: E) {
    match o.get_mut(&i) {
        None => {
            o.insert(i, E { n: e.n + 1., ..e });
        }
        Some(x) => {
            x.v = x.v.add(e.v);
            x.maj += e.maj;
            x.n = x.n.max(e.n) + 1.;
        }
    }
}
fn bilin(s: &Sig, a: &X, b: &X, f: impl Fn(&Sig, usize, usize) -> (i8, usize)) -> X {
    let mut o = X::new();
    let mut cnt: BTreeMap<usize, f64> = BTreeMap::new();
    let deep = |x: &X| x.values().fold(0f64, |m, e| m.max(e.n));
    let base = deep(a) + deep(b) + 2.;
    for (i, x) in a {
        for (j, y) in b {
            let (sg, t) = f(s, *i, *j);
            if sg != 0 {
                *cnt.entry(t).or_insert(0.) += 1.;
                let p = x.v.mul(y.v).sign(sg);
                let e = o.entry(t).or_insert(E { v: ZERO, maj: 0., n: 0. });
                e.v = e.v.add(p);
                e.maj += x.maj * y.maj;
            }
        }
    }
    for (t, e) in o.iter_mut() {
        e.n = base + cnt[t];
    }
    o
}
fn mul(s: &Sig, a: &X, b: &X) -> X { bilin(s, a, b, blade_mul) }
fn wedge(s: &Sig, a: &X, b: &X) -> X { bilin(s, a, b, blade_wedge) }
fn dual(s: &Sig, a: &X) -> X {
    a.iter().map(|(i, e)| { let d = s.full() ^ i; (d, E { v: e.v.sign(blade_wedge(s, d, *i).0), ..*e }) }).collect()
}
fn undual(s: &Sig, a: &X) -> X {
    a.iter().map(|(d, e)| { let i = s.full() ^ d; (i, E { v: e.v.sign(blade_wedge(s, *d, i).0), ..*e }) }).collect()
}
fn rev(a: &X) -> X {
    a.iter().map(|(i, e)| (*i, E { v: e.v.sign(if grade_of(*i) / 2 % 2 == 1 { -1 } else { 1 }), ..*e })).collect()
}
fn map(a: &X, f: impl Fn(Cd) -> Cd) -> X {
    a.iter().map(|(i, e)| (*i, E { v: f(e.v), ..*e })).collect()
}
fn dot(a: &X, b: &X, sg: impl Fn(usize) -> i8) -> E {
    let mut o = X::new();
    for (i, x) in a {
        if let Some(y) = b.get(i) {
            let g = sg(*i);
            if g != 0 {
                acc(&mut o, 0, E { v: x.v.mul(y.v).sign(g), maj: x.maj * y.maj, n: x.n + y.n + 2. });
            }
        }
    }
    o.get(&0).copied().unwrap_or(E { v: ZERO, maj: 0., n: 0. })
}
/// a / m
fn over(a: &X, m: E, eps: f64) -> Option<X> {
    let range = if eps > 1e-10 { 1e12 } else { 1e90 };
    let err = tol(&m, eps);
    let m_abs = m.v.abs();
    if !(m_abs > 0.) || err > 1e-3 * m_abs || !(1. / range..range).contains(&m_abs) {
        return None;
    }
    // relative error of the divisor, in roundings
    let extra = err / m_abs / eps;
    Some(a.iter().map(|(i, e)| (*i, E { v: e.v.div(m.v), maj: 2. * e.maj / m_abs, n: e.n + 4. + 2. * extra })).collect())
}
/// exponential series: value, and bound on the error that a sensible evaluation makes
fn exp(s: &Sig, a: &X, l1: f64) -> X {
    let mut r: X = [(0, E { v: ONE, maj: 1., n: 0. })].into();
    let mut p = r.clone();
    for k in 1..2000 {
        p = mul(s, &p, a);
        let mut top = 0f64;
        for e in p.values_mut() {
            e.v = e.v.mul(Cd(Dd(1., 0.).div(Dd(k as f64, 0.)), Dd(0., 0.)));
            e.maj /= k as f64;
            top = top.max(e.maj);
        }
        for (i, e) in &p {
            acc(&mut r, *i, *e);
        }
        if top < 1e-36 || !top.is_finite() {
            break;
        }
    }
    let top = r.values().fold(0f64, |m, e| m.max(e.maj));
    let n = 16. * (l1 + 2.) * (r.len() as f64 + 20.);
    for e in r.values_mut() {
        e.maj = top;
        e.n = n;
    }
    r
}
/// Allowed error: a small multiple of the rounding that adding the terms in some order makes.
fn tol(e: &E, eps: f64) -> f64 {
    4. * (e.n + 3.) * eps * e.maj
}

// ------------------------------------------------------------------ the real thing

trait Num: DivRing + Clone + Norm + ComplexFloat + 'static {
    const EPS: f64;
    const MAX: f64;
    fn mk(re: f64, im: f64) -> Self;
    fn parts(&self) -> (f64, f64);
    fn exp_of<A: Alg>(_: &SparseMultivector<Self, A>) -> Option<SparseMultivector<Self, A>> { None }
}
macro_rules! num {
    ($t:ty, $eps:expr, $max:expr, |$re:ident, $im:ident| $mk:expr, |$s:ident| $parts:expr, {$($exp:tt)*}) => {
        impl Num for $t {
            const EPS: f64 = $eps;
            const MAX: f64 = $max;
            fn mk($re: f64, $im: f64) -> Self { $mk }
            fn parts(&self) -> (f64, f64) { let $s = self; $parts }
            $($exp)*
        }
    };
}
num!(f64, f64::EPSILON, 1e60, |re, _im| re, |s| (*s, 0.), {
    fn exp_of<A: Alg>(x: &SparseMultivector<Self, A>) -> Option<SparseMultivector<Self, A>> { Some(x.exp()) }
});
num!(f32, f32::EPSILON as f64, 1e8, |re, _im| re as f32, |s| (*s as f64, 0.), {});
num!(Complex64, 2. * f64::EPSILON, 1e60, |re, im| Complex64::new(re, im), |s| (s.re, s.im), {
    fn exp_of<A: Alg>(x: &SparseMultivector<Self, A>) -> Option<SparseMultivector<Self, A>> { Some(x.exp()) }
});
num!(Complex32, 2. * f32::EPSILON as f64, 1e8, |re, im| Complex32::new(re as f32, im as f32), |s| (s.re as f64, s.im as f64), {});

/// mantissa and exponent packed into one number
fn float(v: i64) -> f64 {
    (v >> 7) as f64 * 2f64.powi((v & 127) as i32 - 64 - 40)
}
fn pack(m: i64, e: i32) -> i64 {
    (m << 7) | (e + 64 + 40).clamp(0, 127) as i64
}
/// imaginary part that goes with a packed number
fn imag(v: i64) -> f64 {
    let h = mix(v as u64);
    if h % 4 == 0 { 0. } else { float(v) * ((h >> 11) as f64 / (1u64 << 52) as f64 - 1.) }
}

const NR: usize = 4;
trait Reg {
    fn step(&mut self, op: &Op) -> Result<u64, String>;
}
struct W<T: Num, A: Alg> {
    sig: Sig,
    name: &'static str,
    regs: Vec<SparseMultivector<T, A>>,
}
fn dump<T: Num, A: Alg>(m: &SparseMultivector<T, A>) -> Vec<(usize, Cd)> {
    let mut v: Vec<(usize, Cd)> = m.coeff_enumerate().map(|(i, c)| { let p = c.parts(); (i, Cd::of(p.0, p.1)) }).collect();
    v.sort_by_key(|x| x.0);
    v
}
fn bits<T: Num, A: Alg>(m: &SparseMultivector<T, A>) -> u64 {
    dump(m).iter().fold(0, |h, (i, c)| comb(comb(comb(h, *i as u64), (c.0 .0 + 0.).to_bits()), (c.1 .0 + 0.).to_bits()))
}

enum Out<M> {
    Mv(M),
    Val((f64, f64)),
    Na,
}
fn eval<T: Num, A: Alg>(op: &Op, a: &SparseMultivector<T, A>, b: &SparseMultivector<T, A>) -> Out<SparseMultivector<T, A>> {
    let c = || { let v = op.v(); T::mk(float(v), imag(v)) };
    match op.name.as_str() {
        "add" => Out::Mv(crate::algs::four!(a + b, op.k)),
        "sub" => Out::Mv(crate::algs::four!(a - b, op.k)),
        "mul" => Out::Mv(crate::algs::four!(a * b, op.k)),
        "wedge" => Out::Mv(a.wedge(b)),
        "meet" => Out::Mv(a.meet(b)),
        "smul" => Out::Mv(a * c()),
        "sdiv" => Out::Mv(a / c()),
        "pow" => Out::Mv(a.pow(op.k as usize)),
        "exp" => T::exp_of(a).map_or(Out::Na, Out::Mv),
        // with an extreme coefficient: has to come back, whatever with
        "expx" => {
            let i = a.coeff_enumerate().map(|x| x.0).max().unwrap_or(0);
            let x = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e308, -1e300, 1e-310, 1e18, -1e20][op.k as usize % 8];
            T::exp_of(&a.clone().set_by_idx(i, T::mk(x, if op.d % 2 == 0 { 0. } else { x }))).map_or(Out::Na, Out::Mv)
        }
        "revm" => Out::Mv(a.revm()),
        "revc" => Out::Mv(a.revc()),
        "revcm" => Out::Mv(a.revcm()),
        "vsdot" => Out::Val(a.vsdot(b).parts()),
        "vdot" => Out::Val(a.vdot(b).parts()),
        "mag2" => Out::Val(a.mag2().parts()),
        "cmag2" => Out::Val(a.cmag2().parts()),
        _ => Out::Na,
    }
}

impl<T: Num, A: Alg> W<T, A> {
    fn want(&self, op: &Op, a: &X, b: &X) -> Option<X> {
        let s = &self.sig;
        let sq = |i: usize| blade_mul(s, i, i).0;
        let one = |e: E| Some([(0, e)].into());
        let v = op.v();
        let c = { let p = T::mk(float(v), imag(v)).parts(); Cd::of(p.0, p.1) };
        Some(match op.name.as_str() {
            "add" | "sub" => {
                let mut o = a.clone();
                for (i, e) in b {
                    acc(&mut o, *i, E { v: if op.name == "sub" { e.v.neg() } else { e.v }, ..*e });
                }
                o
            }
            "mul" => mul(s, a, b),
            "wedge" => wedge(s, a, b),
            "meet" => undual(s, &wedge(s, &dual(s, a), &dual(s, b))),
            "smul" => a.iter().map(|(i, e)| (*i, E { v: e.v.mul(c), maj: e.maj * c.abs(), n: 2. })).collect(),
            "sdiv" => return over(a, E { v: c, maj: c.abs(), n: 0. }, T::EPS),
            "pow" => (0..op.k).fold([(0, E { v: ONE, maj: 1., n: 0. })].into(), |p, _| mul(s, &p, a)),
            "exp" => exp(s, a, a.values().map(|e| e.maj).sum()),
            "revm" => return over(&rev(a), dot(&rev(a), a, sq), T::EPS),
            "revcm" => return over(&map(&rev(a), Cd::conj), dot(&map(&rev(a), Cd::conj), a, sq), T::EPS),
            "revc" => map(&rev(a), Cd::conj),
            "vsdot" => return one(dot(a, b, |_| 1)),
            "vdot" => return one(dot(a, b, sq)),
            "mag2" => return one(dot(&rev(a), a, sq)),
            "cmag2" => return one(dot(&map(&rev(a), Cd::conj), a, sq)),
            _ => return None,
        })
    }
    fn near(&self, what: &str, got: &[(usize, Cd)], want: &X, amp: f64) -> Result<f64, String> {
        let mut worst = 0f64;
        // the series may have been cut off before reaching some coefficients
        let floor = if what.contains("op=exp") { want.values().fold(0., |m, e| tol(e, T::EPS).max(m)) } else { 0. };
        let mut all: Vec<usize> = got.iter().map(|x| x.0).chain(want.keys().copied()).collect();
        all.sort();
        all.dedup();
        if got.windows(2).any(|w| w[0].0 == w[1].0) {
            return Err(format!("{what}: an index is listed twice"));
        }
        for i in all {
            let g = got.iter().find(|x| x.0 == i).map_or(ZERO, |x| x.1);
            let w = want.get(&i).copied().unwrap_or(E { v: ZERO, maj: 0., n: 0. });
            let d = g.add(w.v.neg()).abs();
            let t = tol(&w, T::EPS).max(floor) + amp * if T::EPS > 1e-10 { 1e-42 } else { 1e-300 };
            if !(d <= t) {
                return Err(format!("{what}: coefficient {i} is {:?} instead of {:?}, allowed error {t:e}", (g.0 .0, g.1 .0), (w.v.0 .0, w.v.1 .0)));
            }
            worst = worst.max(t);
        }
        Ok(worst)
    }
}

impl<T: Num, A: Alg> Reg for W<T, A> {
    fn step(&mut self, op: &Op) -> Result<u64, String> {
        let p = rep();
        let what = format!("`{}` on {} ({})", op.text(), self.sig.dim, self.name);
        let d = op.d % NR;
        if op.name == "load" {
            self.regs[d] = SparseMultivector::from_indexed_iter(op.l.iter().map(|(i, v)| (*i, T::mk(float(*v), imag(*v))))).unwrap();
            return Ok(1);
        }
        let (ra, rb) = (&self.regs[op.a % NR], &self.regs[op.b % NR]);
        let (va, vb) = (dump(ra), dump(rb));
        // bounded work and magnitude
        let gens = va.iter().fold(0usize, |x, y| x | y.0).count_ones().min(20);
        let l1: f64 = va.iter().map(|x| x.1.abs()).sum();
        let cost = match op.name.as_str() {
            "pow" => if va.len() <= 1 { 1 } else { op.k as usize * va.len() << gens },
            "exp" | "expx" => va.len() << (2 * gens),
            _ => va.len() * vb.len(),
        };
        if cost > 8_000 || (op.name == "pow" && gens > 8 && va.len() > 1) || (op.name.starts_with("exp") && gens > 5) {
            p.counters[5] += 1;
            return Ok(2);
        }
        let out = match catch_unwind(AssertUnwindSafe(|| eval(op, ra, rb))) {
            Ok(o) => o,
            Err(_) => return Err(format!("{what} panicked: {}", last_panic())),
        };
        let list = match &out {
            Out::Mv(m) => dump(m),
            Out::Val(v) => vec![(0, Cd::of(v.0, v.1))],
            Out::Na => return Ok(3),
        };
        p.counters[0] += 1;
        if op.name == "expx" || op.name == "exp" && l1 > 300. {
            // it came back
            p.counters[6] += 1;
            return Ok(4);
        }
        let want = self.want(op, &exact(&va), &exact(&vb));
        let Some(want) = want else { return Ok(5) };
        // no overflow on the way, and underflow accounted for
        let l1b: f64 = vb.iter().map(|x| x.1.abs()).sum();
        let amp = (1. + l1).powi(if op.name == "pow" { op.k as i32 } else { 2 }) * (1. + l1b);
        if !(amp < if T::EPS > 1e-10 { 1e30 } else { 1e250 }) || want.values().any(|e| !(e.maj < amp.max(if op.name == "exp" { 1e140 } else { 1e30 }))) {
            p.counters[5] += 1;
            self.regs[d] = SparseMultivector::default();
            return Ok(6);
        }
        let worst = self.near(&what, &list, &want, amp)?;
        if want.values().any(|e| e.n >= 6.) {
            p.nontrivial = 1;
        }
        // the same expression on equal values that are enumerated in another order
        let rebuild = |v: &[(usize, Cd)], r: bool| -> SparseMultivector<T, A> {
            let mut v = v.to_vec();
            if r {
                v.reverse();
            }
            SparseMultivector::from_indexed_iter(v.into_iter().map(|(i, c)| (i, T::mk(c.0 .0, c.1 .0)))).unwrap()
        };
        let (ea, eb) = (rebuild(&va, op.k % 2 == 0), rebuild(&vb, op.k % 3 == 0));
        let again = eval(op, &ea, &eb);
        match (&out, &again) {
            (Out::Mv(x), Out::Mv(y)) => {
                self.near(&format!("{what}, evaluated again"), &dump(y), &want, amp)?;
                p.counters[1] += 1;
                p.counters[2] += (bits(x) != bits(y)) as u64;
                // Complex norm is at most the sum of the parts
                let prec = 2.001 * worst + 1e-280;
                if !x.approx_eq(y, prec) || !y.approx_eq(x, prec) {
                    return Err(format!("{what}: two evaluations are not approximately equal to precision {prec:e}: {} {}", brief(&dump(x)), brief(&dump(y))));
                }
                let far = x + &SparseMultivector::from_indexed_iter([(*want.keys().next_back().unwrap_or(&0), T::mk(4. * (worst + 1.), 0.))].into_iter()).unwrap();
                if worst < 1e-3 && l1 < 1e6 && list.iter().all(|c| c.1.abs() < 1e3) && far.approx_eq(y, 1.5) {
                    return Err(format!("{what}: values 4 apart are approximately equal to precision 1.5"));
                }
            }
            (Out::Val(_), Out::Val(y)) => {
                self.near(&format!("{what}, evaluated again"), &[(0, Cd::of(y.0, y.1))], &want, amp)?;
            }
            _ => {}
        }
        p.steps += want.len() as u64;
        let h = list.iter().fold(op.name.len() as u64, |h, (i, c)| comb(comb(comb(h, *i as u64), c.0 .0.to_bits()), c.1 .0.to_bits()));
        let order = ra.coeff_enumerate().chain(rb.coeff_enumerate()).fold(h, |h, (i, _)| comb(h, i as u64));
        if let Out::Mv(m) = out {
            let ok = list.len() <= 200 && list.iter().all(|c| c.1.abs() < T::MAX && (c.1.abs() == 0. || c.1.abs() > 1. / T::MAX));
            self.regs[d] = if ok { m } else { SparseMultivector::default() };
        }
        Ok(order)
    }
}

const FLAT: &[&str] = &["P1", "Q2", "G2", "P3", "ST", "G3", "C5", "M6", "M7", "N8", "LD", "LK", "LX"];
fn world(a: &str, k: &str) -> Box<dyn Reg> {
    use crate::algs::*;
    macro_rules! pick {
        ($T:ident: $($n:ident)*) => {
            match a {
                $(stringify!($n) => Box::new(W::<$T, $n> { sig: info(a).sig(), name: stringify!($T), regs: vec![SparseMultivector::default(); NR] }),)*
                _ => panic!("algebra {a}"),
            }
        };
    }
    match k {
        "f32" => pick!(f32: P1 Q2 G2 P3 ST G3 C5 M6 M7 N8 LD LK LX),
        "c64" => pick!(Complex64: P1 Q2 G2 P3 ST G3 C5 M6 M7 N8 LD LK LX),
        "c32" => pick!(Complex32: P1 Q2 G2 P3 ST G3 C5 M6 M7 N8 LD LK LX),
        _ => pick!(f64: P1 Q2 G2 P3 ST G3 C5 M6 M7 N8 LD LK LX),
    }
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C11", r.next());
    for _ in 0..1 + r.us(2) {
        t.worlds.push((r.pick(FLAT).to_string(), r.pick(&["f64", "f64", "f64", "c64", "c64", "f32", "c32"]).to_string()));
    }
    let style = r.below(5);
    let value = |r: &mut Rng| {
        let m = (r.next() >> 12) as i64 - (1 << 51);
        match style {
            // similar sizes
            0 => pack(m, -51 + 40 - 40),
            // few bits: exact cancellations
            1 => pack(r.range(0, 8) as i64 - 4, 0),
            // large ones that cancel, and small ones
            2 => {
                let e = *r.pick(&[0, 0, 20, 20, -20]);
                if e == 20 { pack(if r.chance(1, 2) { 3 } else { -3 }, e) } else { pack(m, e - 51) }
            }
            _ => pack(m, -51 + r.range(0, 24) as i32 - 12),
        }
    };
    let load = |r: &mut Rng, t: &Trace, w: usize, d: usize| {
        let n = info(&t.worlds[w].0).sig.len();
        let mut op = Op::new(w, "load");
        op.d = d;
        let some: Vec<usize> = (0..6.min(n)).map(|_| r.us(n)).collect();
        let terms = match r.below(6) { 0 => 1, 1..=3 => 2 + r.us(6), 4 => 8 + r.us(16), _ => 30 + r.us(40) };
        for _ in 0..terms.min(1usize << n.min(7)) {
            let i = if n <= 6 || r.chance(1, 8) { r.next() as usize & ((1usize << n) - 1) } else { some.iter().fold(0, |x, g| if r.chance(1, 2) { x | 1usize << g } else { x }) };
            let v = value(r);
            op.l.push((i, if v >> 7 == 0 { pack(1, 0) } else { v }));
        }
        op
    };
    for w in 0..t.worlds.len() {
        for d in 0..3 {
            let op = load(r, &t, w, d);
            t.lines.push(op);
        }
    }
    for _ in 0..6 + r.us(if tier == Tier::Quick { 14 } else { 30 }) {
        let w = r.us(t.worlds.len());
        let mut op = Op::new(w, *r.pick(&[
            "load", "load", "load", "add", "add", "sub", "mul", "mul", "mul", "mul", "wedge", "wedge", "meet", "meet", "smul", "sdiv", "pow", "pow", "exp", "exp", "exp", "expx",
            "revm", "revc", "revcm", "vsdot", "vdot", "mag2", "cmag2",
        ]));
        op.d = r.us(NR);
        op.a = r.us(NR);
        op.b = r.us(NR);
        op.k = r.below(8);
        match op.name.as_str() {
            "load" => op = load(r, &t, w, op.d),
            "smul" | "sdiv" => {
                let v = value(r);
                op.l = vec![(0, if v >> 7 == 0 { pack(3, 0) } else { v })]
            }
            _ => {}
        }
        t.lines.push(op);
    }
    t
}

fn run(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<Box<dyn Reg>> = t.worlds.iter().map(|(a, k)| world(a, k)).collect();
    let mut h = 0;
    for op in &t.lines {
        let Some(w) = ws.get_mut(op.w) else { continue };
        h = comb(h, w.step(op)?);
    }
    let p = rep();
    p.counters[3] += seam::entropy_calls();
    p.digest = h;
    Ok(())
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        gen,
        profile: None,
        per_line: false,
        per_thread: false,
        place: rehash,
        run,
        repeat: 3,
        threads: false,
        quick: 60_000,
        thorough: 1_000_000,
        rule: "a run counts if some coefficient was the sum of at least three products; two runs are the same if operands were enumerated in the same order and all results had the same bits",
        measure: "hash of operand enumeration orders and result bits",
        time_unit: "coefficients compared",
        stubs: "kernel entropy (own getrandom symbol)",
        assumptions: &[
            "rounding error: 4 (n + 3) eps times the sum of the magnitudes of the n terms of a coefficient; norm-wise and proportional to the 1-norm of the argument for the exponential",
            "no overflow or underflow",
            "exponentials of arguments with a 1-norm above 300 are only required to finish",
        ],
        counters: &[(0, "operations compared with double-double arithmetic"), (1, "operations evaluated twice in one process"), (2, "of those, with different bits"), (5, "operations skipped as too large"), (6, "exponentials of large arguments")],
        faults: &[(3, "hash keys replaced (enumeration order)")],
    }
}

//! C05: rendering into sinks that fail.
use super::*;
use crate::algs::{info, Alg, Info};
use crate::coef::Coef;
use crate::model::from_i;
use crate::ops::Op;
use crate::world::brief;
use num::complex::Complex64;
use simrt::prng::comb;
use simrt::{rep, seam};
use std::fmt::{self, Display, LowerExp, UpperExp, Write as _};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::quaternion::Quaternion;
use tclifford::{FFTRepr, Multivector, SparseMultivector, Zero};

/// Something that can be rendered in the ways the library offers.
struct Any<'a> {
    d: &'a dyn Display,
    l: Option<&'a dyn LowerExp>,
    u: Option<&'a dyn UpperExp>,
}
const NFMT: u64 = 16;
macro_rules! by_format {
    ($w:expr, $a:expr, $k:expr) => {
        match ($k % NFMT, $a.l, $a.u) {
            (1, ..) => write!($w, "{:#}", $a.d),
            (2, ..) => write!($w, "{:+}", $a.d),
            (3, ..) => write!($w, "{:+#}", $a.d),
            (4, ..) => write!($w, "{:9}", $a.d),
            (5, ..) => write!($w, "{:.2}", $a.d),
            (6, ..) => write!($w, "{:>12.3}", $a.d),
            (7, ..) => write!($w, "{:#<7.1}", $a.d),
            (8, Some(l), _) => write!($w, "{:e}", l),
            (9, Some(l), _) => write!($w, "{:#e}", l),
            (10, Some(l), _) => write!($w, "{:+e}", l),
            (11, Some(l), _) => write!($w, "{:.2e}", l),
            (12, _, Some(u)) => write!($w, "{:E}", u),
            (13, _, Some(u)) => write!($w, "{:#E}", u),
            (14, _, Some(u)) => write!($w, "{:+.1E}", u),
            (15, _, Some(u)) => write!($w, "{:10E}", u),
            _ => write!($w, "{}", $a.d),
        }
    };
}
fn text(a: &Any, k: u64) -> String {
    let mut s = String::new();
    let _ = by_format!(s, a, k);
    s
}
/// the flags of the formats, independently of the strings above
fn alternate(k: u64) -> bool {
    [1, 3, 7, 9, 13].contains(&(k % NFMT)) && k % NFMT != 7
}
fn plus(k: u64) -> bool {
    [2, 3, 10, 14].contains(&(k % NFMT))
}
fn bare(a: &Any, k: u64) -> String {
    match k % NFMT {
        8..=11 => text(a, 8),
        12..=15 => text(a, 12),
        _ => text(a, 0),
    }
}

trait Thing {
    /// complete rendering as terms in any order, or None: whatever it is undisturbed
    fn terms(&self, k: u64) -> Option<Vec<String>>;
    fn any(&self) -> Any<'_>;
    fn bits(&self) -> Vec<(usize, u64)>;
}

fn fval(v: i64) -> f64 {
    match v {
        1000 => f64::NAN,
        1001 => f64::INFINITY,
        1002 => 1.25e-300,
        1003 => -1.5e300,
        1004 => -0.,
        v => v as f64 / 8.,
    }
}

fn rev_odd(idx: usize) -> bool {
    crate::model::grade_of(idx) % 4 >= 2
}
/// One term as documented: coefficient (in parentheses if it carries a sign), blank, blade.
fn term(inf: &Info, idx: usize, c: &Any, neg: &Any, k: u64) -> String {
    let c = if alternate(k) && rev_odd(idx) { neg } else { c };
    let t = text(c, k);
    let t = if plus(k) || bare(c, k).contains(['+', '-']) { format!("({t})") } else { t };
    let l = inf.blade(idx, alternate(k));
    if l.is_empty() { t } else { format!("{t} {l}") }
}

macro_rules! leaf {
    ($x:expr) => {
        Any { d: $x, l: Some($x), u: Some($x) }
    };
}

struct Shown<M, C> {
    mv: M,
    /// expected content, zeros left out
    want: Vec<(usize, C, C)>,
    zero: C,
    inf: &'static Info,
    bits: fn(&M) -> Vec<(usize, u64)>,
}
impl<M: Display + LowerExp + UpperExp, C: Display + LowerExp + UpperExp> Thing for Shown<M, C> {
    fn terms(&self, k: u64) -> Option<Vec<String>> {
        if self.want.is_empty() {
            return Some(vec![text(&leaf!(&self.zero), k)]);
        }
        Some(self.want.iter().map(|(i, c, n)| term(self.inf, *i, &leaf!(c), &leaf!(n), k)).collect())
    }
    fn any(&self) -> Any<'_> { leaf!(&self.mv) }
    fn bits(&self) -> Vec<(usize, u64)> { (self.bits)(&self.mv) }
}
struct Repr<A: Alg>(FFTRepr<A>);
impl<A: Alg> Thing for Repr<A> {
    fn terms(&self, k: u64) -> Option<Vec<String>> {
        (k % NFMT == 0).then(|| vec![format!("{}", self.0.view())])
    }
    fn any(&self) -> Any<'_> { Any { d: &self.0, l: None, u: None } }
    fn bits(&self) -> Vec<(usize, u64)> {
        self.0.view().iter().enumerate().map(|(i, c)| (i, comb(c.re.to_bits(), c.im.to_bits()))).collect()
    }
}

/// last write wins, zeros dropped
fn settle<C>(l: &[(usize, i64)], size: usize, f: impl Fn(i64) -> C, zero: impl Fn(&C) -> bool) -> Vec<(usize, i64)> {
    let mut m = std::collections::BTreeMap::new();
    for (i, v) in l {
        m.insert(i % size, *v);
    }
    m.into_iter().filter(|(_, v)| !zero(&f(*v))).collect()
}

fn z(v: i64) -> Complex64 {
    Complex64::new(fval(v), fval(v % 3))
}
fn zb(c: &Complex64) -> u64 {
    comb(c.re.to_bits(), c.im.to_bits())
}
type Inner = Multivector<f64, crate::algs::P2>;
fn nest(v: i64) -> Inner {
    Inner::from_indexed_iter([(0usize, fval(v % 5)), (v.unsigned_abs() as usize % 4, fval(v))].into_iter()).unwrap()
}
fn nb(c: &Inner) -> u64 {
    c.coeff_array_view().iter().fold(0, |h, x| comb(h, x.to_bits()))
}

fn shown<A: Alg>(kind: &str, name: &str, l: &[(usize, i64)]) -> Box<dyn Thing> {
    let inf = info(name);
    let size = 1usize << A::N;
    macro_rules! mk {
        ($M:ty, $C:ty, $f:expr, $bits:expr) => {{
            let f = $f;
            let want = settle(l, size, &f, |c: &$C| c.is_zero());
            let mv = <$M>::from_indexed_iter(l.iter().map(|(i, v)| (i % size, f(*v)))).unwrap();
            Box::new(Shown::<$M, $C> {
                mv,
                want: want.iter().map(|(i, v)| (*i, f(*v), -f(*v))).collect(),
                zero: <$C>::zero(),
                inf,
                bits: |m: &$M| { let mut v: Vec<(usize, u64)> = m.coeff_enumerate().map(|(i, c): (usize, &$C)| (i, $bits(c))).collect(); v.sort(); v },
            })
        }};
    }
    match kind {
        "dC" => mk!(Multivector<Coef, A>, Coef, |v| Coef::new(from_i(v)), |c: &Coef| c.val()),
        "sC" => mk!(SparseMultivector<Coef, A>, Coef, |v| Coef::new(from_i(v)), |c: &Coef| c.val()),
        "df" => mk!(Multivector<f64, A>, f64, fval, |c: &f64| c.to_bits()),
        "sf" => mk!(SparseMultivector<f64, A>, f64, fval, |c: &f64| c.to_bits()),
        "dz" => mk!(Multivector<Complex64, A>, Complex64, z, zb),
        "sz" => mk!(SparseMultivector<Complex64, A>, Complex64, z, zb),
        "dn" => mk!(Multivector<Inner, A>, Inner, nest, nb),
        "sn" => mk!(SparseMultivector<Inner, A>, Inner, nest, nb),
        _ => {
            let mv = Multivector::<f64, A>::from_indexed_iter(l.iter().map(|(i, v)| (i % size, fval(*v)))).unwrap();
            Box::new(Repr(mv.fft()))
        }
    }
}
fn big<A: Alg>(name: &str, l: &[(usize, i64)]) -> Box<dyn Thing> {
    let size = 1usize << A::N;
    let want = settle(l, size, fval, |c: &f64| *c == 0.);
    Box::new(Shown::<SparseMultivector<f64, A>, f64> {
        mv: SparseMultivector::from_indexed_iter(l.iter().map(|(i, v)| (i % size, fval(*v)))).unwrap(),
        want: want.iter().map(|(i, v)| (*i, fval(*v), -fval(*v))).collect(),
        zero: 0.,
        inf: info(name),
        bits: |m| { let mut v: Vec<(usize, u64)> = m.coeff_enumerate().map(|(i, c)| (i, c.to_bits())).collect(); v.sort(); v },
    })
}
fn big_dense<A: Alg>(name: &str, l: &[(usize, i64)]) -> Box<dyn Thing> {
    let size = 1usize << A::N;
    let want = settle(l, size, |v| Coef::new(from_i(v)), |c: &Coef| c.is_zero());
    Box::new(Shown::<Multivector<Coef, A>, Coef> {
        mv: Multivector::from_indexed_iter(l.iter().map(|(i, v)| (i % size, Coef::new(from_i(*v))))).unwrap(),
        want: want.iter().map(|(i, v)| (*i, Coef::new(from_i(*v)), -Coef::new(from_i(*v)))).collect(),
        zero: Coef::zero(),
        inf: info(name),
        bits: |m| { let mut v: Vec<(usize, u64)> = m.coeff_enumerate().map(|(i, c)| (i, c.val())).collect(); v.sort(); v },
    })
}
fn quat(l: &[(usize, i64)]) -> Box<dyn Thing> {
    let want = settle(l, 4, fval, |c: &f64| *c == 0.);
    Box::new(Shown::<Quaternion<f64>, f64> {
        mv: Quaternion::from_indexed_iter(l.iter().map(|(i, v)| (i % 4, fval(*v)))).unwrap(),
        want: want.iter().map(|(i, v)| (*i, fval(*v), -fval(*v))).collect(),
        zero: 0.,
        inf: info("Q2"),
        bits: |m| m.coeff_enumerate().map(|(i, c)| (i, c.to_bits())).collect(),
    })
}
const DENSE: &[&str] = &["N1", "Q2", "G2", "ST", "C5", "M6", "N8"];
const KINDS: &[&str] = &["dC", "sC", "df", "sf", "dz", "sz", "dn", "sn", "F"];
fn build(w: &(String, String), l: &[(usize, i64)]) -> Box<dyn Thing> {
    use crate::algs::*;
    match (w.0.as_str(), w.1.as_str()) {
        ("Q2", "q") => quat(l),
        ("N1", k) => shown::<N1>(k, "N1", l),
        ("Q2", k) => shown::<Q2>(k, "Q2", l),
        ("G2", k) => shown::<G2>(k, "G2", l),
        ("ST", k) => shown::<ST>(k, "ST", l),
        ("C5", k) => shown::<C5>(k, "C5", l),
        ("M6", k) => shown::<M6>(k, "M6", l),
        ("N8", k) => shown::<N8>(k, "N8", l),
        ("XA", _) => big_dense::<XA>("XA", l),
        ("XC", _) => big_dense::<XC>("XC", l),
        ("LK", _) => big::<LK>("LK", l),
        _ => big::<LX>("LX", l),
    }
}

/// Pieces between " + " that are not inside parentheses.
fn split(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let (mut v, mut depth, mut from, mut i) = (vec![], 0i32, 0, 0);
    while i < b.len() {
        match b[i] {
            b'(' => depth += 1,
            b')' => depth -= 1,
            b' ' if depth == 0 && b[i..].starts_with(b" + ") => {
                v.push(&s[from..i]);
                from = i + 3;
                i += 2;
            }
            _ => {}
        }
        i += 1;
    }
    v.push(&s[from..]);
    v
}
fn complete(s: &str, terms: &[String]) -> bool {
    let mut a: Vec<&str> = if terms.len() == 1 { vec![s] } else { split(s) };
    let mut b: Vec<&str> = terms.iter().map(|t| t.as_str()).collect();
    a.sort();
    b.sort();
    a == b
}
/// Prefix of the terms joined in some order.
fn prefix(s: &str, terms: &[String]) -> bool {
    if terms.len() == 1 {
        return terms[0].starts_with(s);
    }
    let mut left: Vec<&str> = terms.iter().map(|t| t.as_str()).collect();
    let p = split(s);
    for t in &p[..p.len() - 1] {
        match left.iter().position(|x| x == t) {
            Some(i) => {
                left.swap_remove(i);
            }
            None => return false,
        }
    }
    let last = p[p.len() - 1];
    left.iter().any(|t| t.starts_with(last) || (left.len() > 1 && last.strip_prefix(t).is_some_and(|r| " + ".starts_with(r))))
}

/// How the sink behaves: what it does at each call.
struct Sink<'a> {
    got: Vec<u8>,
    calls: u64,
    after: u64,
    failed: bool,
    op: &'a Op,
    at: u64,
    /// rendered again by the sink while it is being written to
    nested: Option<(&'a Any<'a>, &'a [String])>,
    wrong: bool,
}
const E_FAIL: u64 = 0;
const E_PARTIAL: u64 = 1;
const E_PANIC: u64 = 2;
const E_ZERO: u64 = 3;
const E_BLOCK: u64 = 4;
const E_NONE: u64 = 5;
impl<'a> Sink<'a> {
    fn new(op: &'a Op, at: u64, nested: Option<(&'a Any<'a>, &'a [String])>) -> Self {
        Sink { got: vec![], calls: 0, after: 0, failed: false, op, at, nested, wrong: false }
    }
    fn x(&self, i: usize) -> u64 {
        self.op.x.get(i).copied().unwrap_or(0)
    }
    fn due(&mut self) -> bool {
        self.calls += 1;
        if self.failed {
            self.after += 1;
        }
        if let Some((a, terms)) = self.nested {
            if self.calls % 5 == 2 {
                rep().counters[1] += 1;
                self.wrong |= !complete(&text(a, self.op.k), terms);
            }
        }
        !self.failed && self.x(1) != E_NONE && self.calls == self.at
    }
    fn fail(&mut self) {
        self.failed = true;
        rep().counters[4 + self.x(1) as usize] += 1;
        if self.x(1) == E_PANIC {
            std::panic::resume_unwind(Box::new(seam::Fault));
        }
    }
}
impl fmt::Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.due() {
            if self.x(1) == E_PARTIAL {
                let n = self.x(3) as usize % (s.len() + 1);
                self.got.extend_from_slice(&s.as_bytes()[..n]);
            }
            self.fail();
            return Err(fmt::Error);
        }
        self.got.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl io::Write for Sink<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.due() {
            let e = self.x(1);
            self.fail();
            return match e {
                E_ZERO => Ok(0),
                E_BLOCK => Err(io::ErrorKind::WouldBlock.into()),
                _ => Err(io::ErrorKind::BrokenPipe.into()),
            };
        }
        // short writes and interruptions on the way
        let h = simrt::prng::mix(self.x(3) ^ self.calls);
        let n = match (self.x(2), h % 4) {
            (0, _) => b.len(),
            (_, 0) if h >> 8 & 1 == 0 => {
                rep().counters[11] += 1;
                return Err(io::ErrorKind::Interrupted.into());
            }
            (_, 1) => 1.min(b.len()),
            (_, 2) => (b.len() / 2).max(1).min(b.len()),
            _ => b.len(),
        };
        if n < b.len() {
            rep().counters[10] += 1;
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

enum Got {
    Ok,
    Fmt,
    Io(io::ErrorKind),
    Panic(bool),
}
fn attempt(a: &Any, op: &Op, at: u64, callback: u64, terms: &[String]) -> Result<(Got, Vec<u8>, u64, u64, bool), String> {
    let nested = op.x.get(5) == Some(&1) && callback == 0;
    let mut s = Sink::new(op, at, nested.then_some((a, terms)));
    let is_io = s.x(0) % 2 == 1;
    seam::arm(callback);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if is_io {
            let w: &mut dyn io::Write = &mut s;
            match by_format!(w, a, op.k) {
                Ok(()) => Got::Ok,
                Err(e) => Got::Io(e.kind()),
            }
        } else {
            let w: &mut dyn fmt::Write = &mut s;
            match by_format!(w, a, op.k) {
                Ok(()) => Got::Ok,
                Err(_) => Got::Fmt,
            }
        }
    }));
    let (_, fired) = seam::disarm();
    let g = r.unwrap_or(Got::Panic(fired || (s.failed && s.x(1) == E_PANIC)));
    if s.wrong {
        return Err(format!("`{}`: rendering the value from inside the sink gives something else", op.text()));
    }
    Ok((g, s.got, s.calls, s.after, s.failed))
}

fn show(t: &dyn Thing, op: &Op) -> Result<u64, String> {
    let a = t.any();
    let bad = |w: String| Err(format!("`{}`: {w}", op.text()));
    let bits = t.bits();
    let whole = text(&a, op.k);
    let terms = t.terms(op.k);
    if let Some(ts) = &terms {
        if !complete(&whole, ts) {
            return bad(format!("rendered {} instead of the terms {}", brief(&whole), brief(ts)));
        }
    }
    let terms = terms.unwrap_or(vec![whole.clone()]);
    // how many calls the sink sees when nothing fails
    let mut free = op.clone();
    free.x = vec![op.x.first().copied().unwrap_or(0), E_NONE, op.x.get(2).copied().unwrap_or(0), op.x.get(3).copied().unwrap_or(0)];
    let (g, got, calls, ..) = attempt(&a, &free, 0, 0, &terms)?;
    let callbacks = seam::callbacks();
    if !matches!(g, Got::Ok) {
        return bad("failed although no write failed".into());
    }
    let got = String::from_utf8_lossy(&got).into_owned();
    if !complete(&got, &terms) {
        return bad(format!("delivered {} instead of {}", brief(&got), brief(&terms)));
    }
    rep().steps += calls;
    let at = 1 + op.x.get(4).copied().unwrap_or(0) % calls.max(1);
    let cb = if op.f == 0 || callbacks == 0 { 0 } else { 1 + op.f % callbacks };
    let (g, got, _, after, failed) = attempt(&a, op, at, cb, &terms)?;
    let part = String::from_utf8_lossy(&got).into_owned();
    if after > 0 {
        return bad(format!("{after} writes after the failed one"));
    }
    if cb != 0 {
        rep().counters[9] += 1;
    }
    let kind = op.x.get(1).copied().unwrap_or(0);
    let d = match g {
        Got::Ok if failed => return bad(format!("the failure of write {at} was not reported")),
        Got::Ok => {
            if !complete(&part, &terms) {
                return bad(format!("delivered {} instead of {}", brief(&part), brief(&terms)));
            }
            0
        }
        Got::Fmt | Got::Io(_) if !failed => return bad("failed although no write failed".into()),
        Got::Io(k) => {
            let want = match kind { E_ZERO => io::ErrorKind::WriteZero, E_BLOCK => io::ErrorKind::WouldBlock, _ => io::ErrorKind::BrokenPipe };
            if k != want {
                return bad(format!("reported {k:?} instead of {want:?}"));
            }
            1
        }
        Got::Fmt => 2,
        Got::Panic(true) => 3,
        Got::Panic(false) => return bad(format!("panicked: {}", crate::world::last_panic())),
    };
    if d != 0 {
        rep().nontrivial = 1;
        if !prefix(&part, &terms) {
            return bad(format!("the sink holds {} which is no prefix of {}", brief(&part), brief(&terms)));
        }
    }
    // nothing was changed, and the next attempt succeeds
    if t.bits() != bits {
        return bad("the value changed".into());
    }
    if text(&a, op.k) != whole && !complete(&text(&a, op.k), &terms) {
        return bad("a later attempt gives something else".into());
    }
    Ok(comb(comb(d, part.len() as u64), calls))
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C05", r.next());
    // values of very many terms
    let many = r.chance(1, 60);
    for _ in 0..if many { 1 } else { 1 + r.us(3) } {
        let w = match r.below(10) {
            k if many => [("LX", "s"), ("LK", "s"), ("XA", "dC"), ("XC", "dC"), ("N8", *r.pick(KINDS))][k as usize % 5],
            0 => ("LX", "s"),
            1 => ("LK", "s"),
            2 => ("Q2", "q"),
            _ => (*r.pick(DENSE), *r.pick(KINDS)),
        };
        t.worlds.push((w.0.into(), w.1.into()));
    }
    for i in 0..t.worlds.len() {
        let n = info(&t.worlds[i].0).sig.len();
        let mut op = Op::new(i, "load");
        let most = if r.chance(1, 4) { 20 } else { 6 };
        let wide = r.us(4);
        let most = if many { 300 + r.us(1 << (8 + wide)) } else { most };
        let exact = many && r.chance(1, 3);
        for k in 0..if many { most } else { r.us(most) } {
            if exact {
                // every blade there is
                op.l.push((k & ((1usize << n) - 1), 1 + r.below(9) as i64));
                continue;
            }
            let idx = if r.chance(1, 4) { (1usize << n) - 1 - r.us(2) } else { r.next() as usize & ((1usize << n) - 1) };
            let v = match r.below(12) {
                0 => 1000 + r.below(5) as i64,
                1 => 0,
                2 => 8,
                _ => r.range(0, 200) as i64 - 100,
            };
            op.l.push((idx, v));
        }
        t.lines.push(op);
    }
    for _ in 0..if many { 2 } else { 4 + r.us(if tier == Tier::Quick { 8 } else { 16 }) } {
        let mut op = Op::new(r.us(t.worlds.len()), "show");
        op.k = r.below(NFMT);
        let io = r.below(2);
        let kind = if io == 1 { *r.pick(&[E_FAIL, E_FAIL, E_PANIC, E_ZERO, E_BLOCK, E_NONE]) } else { *r.pick(&[E_FAIL, E_FAIL, E_PARTIAL, E_PANIC, E_NONE]) };
        op.x = vec![io, kind, r.below(2), r.next() >> 16, r.next() >> 16, (!many && r.chance(1, 6)) as u64];
        if kind == E_NONE && r.chance(1, 2) {
            op.f = 1 + r.below(1 << 20);
        }
        t.lines.push(op);
    }
    t
}
fn run(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let p = rep();
    let mut h = 0;
    for op in t.lines.iter().filter(|o| o.name == "show") {
        let Some(w) = t.worlds.get(op.w) else { continue };
        let l: Vec<(usize, i64)> = t.lines.iter().filter(|o| o.name == "load" && o.w == op.w).flat_map(|o| o.l.clone()).collect();
        let th = build(w, &l);
        h = comb(h, show(&*th, op)?);
        p.counters[0] += 1;
    }
    p.digest = h;
    Ok(())
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        gen,
        profile: None,
        per_line: false,
        per_thread: false,
        place: rehash,
        run,
        repeat: 1,
        threads: false,
        quick: 150_000,
        thorough: 3_000_000,
        rule: "a run counts if at least one rendering was cut short by its sink or by a panic; two runs are the same if every attempt ended the same way after the same number of bytes and calls",
        measure: "hash of how each attempt ended, the bytes accepted and the calls an undisturbed attempt makes",
        time_unit: "sink calls",
        stubs: "sinks (fmt::Write, io::Write), coefficient type, kernel entropy",
        assumptions: &["the textual form of a term is fixed: coefficient, in parentheses if it carries a sign, then the blade", "order of terms is free"],
        counters: &[(0, "attempts"), (1, "renderings started from inside a sink")],
        faults: &[
            (4, "sink error"), (5, "sink error after taking part of the text"), (6, "sink panic"), (7, "write of zero bytes"),
            (8, "would-block error"), (9, "panic in coefficient formatting, cloning or zero test"), (10, "short write"), (11, "interrupted write"),
        ],
    }
}

//! C06: constructors fed by streams that end early, run long, never end, go on after their end or panic.
use super::*;
use crate::algs::{info, names, Alg};
use crate::coef::{Coef, Qf, Quat};
use crate::model::{self as m, from_i, FpR, Sig, M};
use crate::ops::{FromArg, Mv, Op};
use crate::world::{brief, last_panic};
use simrt::prng::comb;
use simrt::{hook, rep, seam};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::pga::PGAMV;
use tclifford::{declare_algebra, ClError, Multivector, SparseMultivector};

declare_algebra!(pub H1, [+,0], ["x","e"]);
declare_algebra!(pub H2, [+,+,0], ["x","y","e"]);
declare_algebra!(pub H3, [+,+,+,0], ["x","y","z","e"]);
declare_algebra!(pub H5, [+,+,+,+,+,0], ["h0","h1","h2","h3","h4","e"]);
declare_algebra!(pub H7, [+,+,+,+,+,+,+,0], ["h0","h1","h2","h3","h4","h5","h6","e"]);
declare_algebra!(pub H20, [+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,+,0], ["h0","h1","h2","h3","h4","h5","h6","h7","h8","h9","h10","h11","h12","h13","h14","h15","h16","h17","h18","h19","e"]);
const PGA: &[&str] = &["H1", "H2", "H3", "H5", "H7", "H20"];
const FLAT: &[&str] = &["P1", "N1", "Z1", "G1", "P3", "ST", "C5", "M6", "N8", "XA"];

const SLACK: u64 = 64;

/// What the stream does and what was done to it.
struct Ctl<'a> {
    len: usize,
    endless: bool,
    hint: u64,
    limit: u64,
    pulled: Cell<u64>,
    ended: Cell<bool>,
    after: Cell<u64>,
    /// the stream uses the library itself
    reenter: Option<&'a dyn Fn() -> bool>,
    wrong: Cell<bool>,
}
struct Feed<'a, F> {
    ctl: &'a Ctl<'a>,
    item: F,
}
impl<T, F: FnMut(usize) -> T> Iterator for Feed<'_, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let c = self.ctl;
        hook();
        let n = c.pulled.get();
        if c.ended.get() {
            c.after.set(c.after.get() + 1);
            if c.after.get() > 1000 {
                simrt::shared::fatal("a stream was pulled again and again after its end");
            }
            // not a fused stream: it has more to say
            return Some((self.item)(n as usize));
        }
        if n >= c.limit {
            simrt::shared::fatal(&format!("{n} items were pulled from a stream that must have been rejected long before"));
        }
        if let Some(f) = c.reenter {
            if !f() {
                c.wrong.set(true);
            }
        }
        if n as usize >= c.len && !c.endless {
            c.ended.set(true);
            return None;
        }
        c.pulled.set(n + 1);
        Some((self.item)(n as usize))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let c = self.ctl;
        let left = c.len.saturating_sub(c.pulled.get() as usize);
        match (c.endless, c.hint % 4) {
            (true, 0) => (0, None),
            (true, 1) => (usize::MAX, None),
            (true, h) => (left + h as usize, None),
            (false, 0) => (0, None),
            (false, 1) => (left, Some(left)),
            (false, 2) => (left / 2, Some(left + 7)),
            (false, _) => (0, Some(usize::MAX)),
        }
    }
}

enum Got<V> {
    Ok(V),
    Err,
    Panic(String),
    Fault,
}
fn guard<V>(at: u64, f: impl FnOnce() -> Result<V, ClError>) -> Got<V> {
    seam::arm(at);
    let r = catch_unwind(AssertUnwindSafe(f));
    let (_, fired) = seam::disarm();
    match r {
        Ok(Ok(v)) if !fired => Got::Ok(v),
        Ok(Err(_)) if !fired => Got::Err,
        Ok(_) => Got::Panic("the panic of the stream was swallowed".into()),
        Err(_) if fired => Got::Fault,
        Err(_) => Got::Panic(last_panic()),
    }
}

/// Build from a list of pairs or of vector coefficients, on its own.
type Build = fn(&Op, &Ctl) -> Got<Vec<(usize, u64)>>;
macro_rules! builder {
    ($name:ident, $C:ty, $M:ty, [$($g:tt)*]) => {
        fn $name<$($g)*>(op: &Op, ctl: &Ctl) -> Got<Vec<(usize, u64)>> {
            let n = op.l.len();
            let pair = |i: usize| op.l.get(i).copied().unwrap_or((0, 7));
            let cs: Vec<(usize, $C)> = (0..=n).map(|i| { let (x, v) = pair(i); (x, <$C>::arg(v)) }).collect();
            let r = match (op.name.as_str(), op.k % 2) {
                ("vec", 0) => guard(op.f, || <$M>::from_vector(Feed { ctl, item: |i| <$C>::arg(pair(i).1) })),
                ("vec", _) => guard(op.f, || <$M>::from_vector_ref(Feed { ctl, item: |i: usize| &cs[i.min(n)].1 })),
                (_, 0) => guard(op.f, || <$M>::from_indexed_iter(Feed { ctl, item: |i| { let (x, v) = pair(i); (x, <$C>::arg(v)) } })),
                (_, _) => guard(op.f, || <$M>::from_indexed_iter_ref(Feed { ctl, item: |i: usize| { let p = &cs[i.min(n)]; (p.0, &p.1) } })),
            };
            match r {
                Got::Ok(m) => Got::Ok(m.dump()),
                Got::Err => Got::Err,
                Got::Panic(s) => Got::Panic(s),
                Got::Fault => Got::Fault,
            }
        }
    };
}
builder!(dense, Coef, Multivector<Coef, A>, [A: Alg]);
builder!(sparse, Coef, SparseMultivector<Coef, A>, [A: Alg]);
builder!(quat, Qf, Quat, []);

/// (coefficients, coordinates read back)
type Pga = (Vec<(usize, f64)>, Vec<f64>);
type Point = fn(&Op, &Ctl) -> Got<Pga>;
fn coord(v: i64) -> f64 {
    v as f64 / 1000.
}
macro_rules! pga {
    ($M:ty, $N:literal, $op:ident, $ctl:ident) => {{
        let at = |i: usize| coord($op.l.get(i).map_or(3, |x| x.1));
        let feed = Feed { ctl: $ctl, item: at };
        guard($op.f, || {
            let mv: $M = match $op.name.as_str() {
                "pt" => <$M as PGAMV<$N>>::pga_point(feed)?,
                "pl" => <$M as PGAMV<$N>>::pga_hyperplane(feed)?,
                _ => <$M as PGAMV<$N>>::pga_translation(feed)?,
            };
            let mut v: Vec<(usize, f64)> = mv.coeff_enumerate().map(|(i, c)| (i, *c)).collect();
            v.sort_by_key(|x| x.0);
            Ok((v, <$M as PGAMV<$N>>::pga_extract_point(&mv).to_vec()))
        })
    }};
}
fn pga_of(a: &str, dense: bool) -> (usize, Point) {
    macro_rules! pick {
        ($($s:literal $A:ident $n:literal $d:literal;)*) => {
            match a {
                $($s => if dense && $d {
                    ($n, |op, ctl| pga!(Multivector<f64, $A>, $n, op, ctl))
                } else {
                    ($n, |op, ctl| pga!(SparseMultivector<f64, $A>, $n, op, ctl))
                },)*
                _ => panic!("algebra {a}"),
            }
        };
    }
    pick!("H1" H1 1 true; "H2" H2 2 true; "H3" H3 3 true; "H5" H5 5 true; "H7" H7 7 true; "H20" H20 20 false;)
}
fn build_of(a: &str, kind: &str) -> (Sig, Build) {
    use crate::algs::*;
    macro_rules! pick {
        ($f:ident: $($n:ident)*) => { match a { $(stringify!($n) => $f::<$n>,)* _ => panic!("algebra {a}") } };
    }
    let f: Build = match kind {
        "q" => return (info("Q2").sig(), quat),
        "d" => pick!(dense: P1 N1 Z1 G1 P3 ST C5 M6 N8 XA),
        _ => pick!(sparse: P1 N1 Z1 G1 P3 ST C5 M6 N8 XA LD LS LK LG LT LQ LX),
    };
    (info(a).sig(), f)
}

fn ctl<'a>(op: &Op, limit: u64, reenter: Option<&'a dyn Fn() -> bool>) -> Ctl<'a> {
    let x = |i: usize| op.x.get(i).copied().unwrap_or(0);
    Ctl {
        len: op.l.len(),
        endless: x(0) == 1,
        hint: x(1),
        limit,
        pulled: Cell::new(0),
        ended: Cell::new(false),
        after: Cell::new(0),
        reenter,
        wrong: Cell::new(false),
    }
}

fn expect(s: &Sig, op: &Op) -> Option<Vec<(usize, u64)>> {
    let mut o = M::new();
    if op.name == "vec" {
        if op.l.len() != s.dim || op.x.first() == Some(&1) {
            return None;
        }
        for (i, (_, v)) in op.l.iter().enumerate() {
            m::set(&FpR, s, &mut o, 1usize << i, from_i(*v));
        }
    } else {
        for (i, v) in &op.l {
            if *i >= s.size() {
                return None;
            }
            m::set(&FpR, s, &mut o, *i, from_i(*v));
        }
    }
    Some(o.into_iter().collect())
}

fn flat(a: &str, kind: &str, op: &Op) -> Result<u64, String> {
    let (sig, build) = build_of(a, kind);
    let what = format!("`{}` on {} ({kind})", op.text(), sig.sq.len());
    let endless = op.x.first() == Some(&1);
    let bad = op.l.iter().position(|x| x.0 >= sig.size());
    let limit = match (op.name.as_str(), endless, bad) {
        ("vec", true, _) => sig.dim as u64 + 1 + SLACK,
        ("idx", _, Some(p)) => p as u64 + 1 + SLACK,
        // an endless stream without a bad index never comes back, rightly: let it end
        _ => u64::MAX,
    };
    let mut op = op.clone();
    if limit == u64::MAX && !op.x.is_empty() {
        op.x[0] = 0;
    }
    // what the stream does in the middle of being read
    let mut side = Op::new(0, "idx");
    side.l = vec![(0, 3), (sig.size() - 1, 5), (0, -4), (sig.size() / 2, 9)];
    let side_want = expect(&sig, &side).unwrap();
    let mut vside = Op::new(0, "vec");
    vside.l = (0..sig.dim).map(|i| (0, i as i64 + 1)).collect();
    let vside_want = expect(&sig, &vside).unwrap();
    let busy = move || {
        let nz = |v: Vec<(usize, u64)>| v.into_iter().filter(|x| x.1 != 0).collect::<Vec<_>>();
        simrt::seam::TLS.with(|t| {
            // nested calls are not interrupted and not counted
            let (c, at) = (t.count.get(), t.at.get());
            let r = matches!(build(&side, &ctl(&side, u64::MAX, None)), Got::Ok(v) if nz(v.clone()) == side_want)
                && matches!(build(&vside, &ctl(&vside, u64::MAX, None)), Got::Ok(v) if nz(v.clone()) == vside_want);
            t.count.set(c);
            t.at.set(at);
            t.on.set(true);
            r
        })
    };
    let c = ctl(&op, limit, (op.x.get(2) == Some(&1)).then_some(&busy));
    let got = build(&op, &c);
    let p = rep();
    p.steps += c.pulled.get();
    if c.after.get() > 0 {
        return Err(format!("{what}: pulled {} more items after the end", c.after.get()));
    }
    if c.wrong.get() {
        return Err(format!("{what}: building another value from inside the stream gives a wrong value"));
    }
    let want = expect(&sig, &op);
    p.counters[0] += 1;
    let d = match (got, &want) {
        (Got::Panic(s), _) => return Err(format!("{what}: panicked: {s}")),
        (Got::Fault, _) => {
            p.counters[4] += 1;
            p.nontrivial = 1;
            1
        }
        (Got::Err, None) => {
            p.nontrivial = 1;
            p.counters[if endless { 5 } else if bad.is_some() && op.name == "idx" { 6 } else if op.l.len() < sig.dim { 7 } else { 8 }] += 1;
            2
        }
        (Got::Err, Some(_)) => return Err(format!("{what}: a well-formed stream was rejected")),
        (Got::Ok(v), None) => return Err(format!("{what}: a malformed stream was accepted: {}", brief(&v))),
        (Got::Ok(v), Some(w)) => {
            let nz: Vec<(usize, u64)> = v.iter().filter(|x| x.1 != 0).cloned().collect();
            if nz != *w || v.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(format!("{what}: holds {} instead of {}", brief(&v), brief(w)));
            }
            if c.pulled.get() != op.l.len() as u64 || !c.ended.get() {
                return Err(format!("{what}: accepted without reading the stream to its end"));
            }
            3
        }
    };
    Ok(comb(d, c.pulled.get()))
}

fn pga(a: &str, kind: &str, op: &Op) -> Result<u64, String> {
    let (n, f) = pga_of(a, kind == "pd");
    let what = format!("`{}` in {n} dimensions ({kind})", op.text());
    let endless = op.x.first() == Some(&1);
    let due = if op.name == "pl" { n + 1 } else { n };
    let limit = if endless || op.l.len() > due { due as u64 + 1 + SLACK } else { u64::MAX };
    let c = ctl(op, limit, None);
    let got = f(op, &c);
    let p = rep();
    p.steps += c.pulled.get();
    p.counters[0] += 1;
    if c.after.get() > 0 {
        return Err(format!("{what}: pulled {} more items after the end", c.after.get()));
    }
    let long = endless || op.l.len() > due;
    let short = !long && op.l.len() < due;
    let d = match got {
        Got::Panic(s) => return Err(format!("{what}: panicked: {s}")),
        Got::Fault => {
            p.counters[4] += 1;
            p.nontrivial = 1;
            1
        }
        Got::Err if long => {
            p.counters[if endless { 5 } else { 8 }] += 1;
            p.nontrivial = 1;
            2
        }
        Got::Err if short => {
            p.counters[7] += 1;
            3
        }
        Got::Err => return Err(format!("{what}: a well-formed stream was rejected")),
        Got::Ok((v, _)) if long => return Err(format!("{what}: an over-long stream was accepted: {}", brief(&v))),
        Got::Ok((v, back)) => {
            let mut x: Vec<f64> = op.l.iter().map(|l| coord(l.1)).collect();
            x.resize(due, 0.);
            pga_content(n, op, &v, &back, &x).map_err(|e| format!("{what}: {e}"))?;
            p.counters[1] += 1;
            4
        }
    };
    Ok(comb(d, c.pulled.get()))
}

/// The coordinates x must be in the value.
fn pga_content(n: usize, op: &Op, v: &[(usize, f64)], back: &[f64], x: &[f64]) -> Result<(), String> {
    let sig = Sig { dim: n + 1, sq: (0..=n).map(|i| (i < n) as i8).collect() };
    let big = x.iter().fold(1f64, |a, b| a.max(b.abs()));
    let zero_plane = op.name == "pl" && x.iter().all(|c| *c == 0.);
    if zero_plane {
        return Ok(());
    }
    if let Some(b) = v.iter().find(|c| !c.1.is_finite()) {
        return Err(format!("coefficient {b:?} is not finite"));
    }
    let at = |i: usize| v.iter().find(|c| c.0 == i).map_or(0., |c| c.1);
    // what it is proportional to
    let mut want: Vec<(usize, f64)> = vec![];
    match op.name.as_str() {
        "tr" => {
            want.push((0, 1.));
            want.extend(x.iter().enumerate().map(|(i, c)| (1usize << n | 1 << i, c / 2.)));
        }
        "pl" => want.extend(x.iter().enumerate().map(|(i, c)| (1usize << i, *c))),
        _ => {
            let h = x.iter().copied().chain([1.]);
            want.extend(h.enumerate().map(|(i, c)| {
                let comp = sig.full() & !(1usize << i);
                (comp, m::blade_wedge(&sig, comp, 1 << i).0 as f64 * c)
            }));
        }
    }
    let top = want.iter().cloned().fold((0, 0f64), |a, b| if b.1.abs() > a.1.abs() { b } else { a });
    let f = if op.name == "tr" { 1. } else { at(top.0) / top.1 };
    if !(f.abs() > 0.) || (op.name == "pl" && f < 0.) {
        return Err(format!("holds {} instead of a multiple of {}", brief(&v), brief(&want)));
    }
    for (i, c) in v {
        if *c != 0. && !want.iter().any(|w| w.0 == *i) {
            return Err(format!("has an unexpected coefficient at {i}: {}", brief(&v)));
        }
    }
    for (i, c) in &want {
        if (at(*i) / f - c).abs() > 1e-9 * c.abs() + 1e-13 * big {
            return Err(format!("holds {} instead of a multiple of {}", brief(&v), brief(&want)));
        }
    }
    if op.name == "pt" {
        for (a, b) in back.iter().zip(x) {
            if (a - b).abs() > 1e-9 * b.abs() + 1e-13 * big || a.is_nan() {
                return Err(format!("the point {} reads back as {}", brief(&x), brief(&back)));
            }
        }
    }
    Ok(())
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C06", r.next());
    for _ in 0..1 + r.us(4) {
        let w = match r.below(8) {
            0 => ("Q2", "q"),
            1..=2 => (*r.pick(FLAT), "d"),
            3 => (*r.pick(FLAT), "s"),
            4 => (*r.pick(&names(|i| !i.dense)), "s"),
            k => (*r.pick(PGA), if k == 5 { "ps" } else { "pd" }),
        };
        t.worlds.push((w.0.into(), w.1.into()));
    }
    for _ in 0..6 + r.us(if tier == Tier::Quick { 14 } else { 30 }) {
        let i = r.us(t.worlds.len());
        let (a, k) = t.worlds[i].clone();
        let mut op = Op::new(i, "");
        op.k = r.below(2);
        let mut endless = r.chance(1, 8);
        let mut len;
        if k.starts_with('p') {
            let n = pga_of(&a, true).0;
            op.name = r.pick(&["pt", "pl", "tr"]).to_string();
            let due = if op.name == "pl" { n + 1 } else { n };
            len = due;
            if r.chance(1, 4) {
                len = *r.pick(&[due + 1, due + 1, due + 2, due - 1, 0, due + 40]);
            }
            let style = r.below(6);
            for _ in 0..len {
                let v = match style {
                    0 => 0,
                    1 => r.range(0, 8) as i64 * 1000 - 4000,
                    _ => {
                        let m = r.log_uniform(1_000_000_000) as i64;
                        if r.chance(1, 2) { -m } else { m }
                    }
                };
                op.l.push((0, if r.chance(1, 6) { 0 } else { v }));
            }
        } else {
            let sig = info(&a).sig();
            op.name = r.pick(&["vec", "idx"]).to_string();
            if op.name == "vec" {
                len = sig.dim;
                if r.chance(1, 3) {
                    len = *r.pick(&[sig.dim + 1, sig.dim + 1, sig.dim - 1, sig.dim - 1, 0, sig.dim + 9, 2 * sig.dim]);
                }
            } else {
                len = if r.chance(1, 10) { r.log_uniform(600) as usize } else { r.us(12) };
                endless = false;
            }
            for _ in 0..len {
                let i = match r.below(5) {
                    0 => sig.size() - 1 - r.us(2),
                    1 if !op.l.is_empty() => op.l[r.us(op.l.len())].0,
                    _ => r.next() as usize & sig.full(),
                };
                op.l.push((i, if r.chance(1, 6) { 0 } else { r.range(0, 40) as i64 - 20 }));
            }
            if op.name == "idx" && r.chance(1, 3) {
                let at = r.us(op.l.len() + 1);
                let far = sig.size() | r.next() as usize;
                op.l.insert(at, (*r.pick(&[sig.size(), sig.size(), sig.size() + 1, usize::MAX, far]), 1));
                endless = r.chance(1, 3);
            }
        }
        op.x = vec![endless as u64, r.below(4), r.chance(1, 5) as u64];
        if r.chance(1, 5) {
            op.f = 1 + r.below(3 * op.l.len() as u64 + 3);
        }
        t.lines.push(op);
    }
    t
}

fn run(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let mut h = 0;
    for op in &t.lines {
        let Some((a, k)) = t.worlds.get(op.w) else { continue };
        let d = if k.starts_with('p') { pga(a, k, op)? } else { flat(a, k, op)? };
        h = comb(comb(h, d), op.l.iter().fold(op.w as u64, |h, (i, v)| comb(comb(h, *i as u64), *v as u64)));
    }
    rep().digest = h;
    Ok(())
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        gen,
        profile: None,
        per_line: false,
        per_thread: false,
        place: rehash,
        run,
        repeat: 1,
        threads: false,
        quick: 250_000,
        thorough: 4_000_000,
        rule: "a run counts if at least one stream was malformed or panicked; two runs are the same if they fed the same streams with the same outcomes",
        measure: "hash of the items of every stream, the items pulled from it and how the call ended",
        time_unit: "items pulled",
        stubs: "streams (caller code), coefficient type, kernel entropy",
        assumptions: &[
            "size hints are truthful",
            "bounded means at most 64 items more than the algebra needs",
            "a PGA coordinate stream that ends early may be rejected or read as followed by zeros",
            "ordinary magnitude: 0 or 1e-3 to 1e6",
        ],
        counters: &[(0, "streams fed"), (1, "PGA values read back")],
        faults: &[
            (4, "panic in the stream or in coefficient code"), (5, "endless stream"), (6, "index outside the algebra"),
            (7, "stream ending early"), (8, "stream running long"),
        ],
    }
}

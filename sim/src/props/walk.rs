//! C10: several enumerations alive at once, advanced, queried, skipped, abandoned in any order.
use super::*;
use crate::algs::{info, Alg};
use crate::coef::{Coef, CoefT, Quat};
use crate::model::{self as m, from_i, grade_of, FpR, Sig, M};
use crate::ops::{Mv, MvExt, Op};
use crate::world::{brief, brief_r, eval, last_panic, spec, R};
use simrt::prng::comb;
use simrt::{rep, seam};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::{ClAlgebra, Multivector, SparseMultivector};

type Item = (usize, Option<u64>);

/// A live enumeration.
trait Walk {
    fn next(&mut self) -> Option<Item>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn hint(&self) -> (usize, Option<usize>);
    fn finish(self: Box<Self>, how: u64) -> Fin;
}
/// How an enumeration was used up.
enum Fin {
    All(Vec<Item>),
    Count(usize),
    Last(Option<Item>),
    /// every so many
    Some(Vec<Item>),
}
trait Conv {
    fn conv(self) -> Item;
}
impl Conv for usize {
    fn conv(self) -> Item { (self, None) }
}
impl<C: CoefT<K = u64>> Conv for (usize, &C) {
    fn conv(self) -> Item { (self.0, Some(self.1.key())) }
}
struct W<I>(I);
impl<I: Iterator> Walk for W<I>
where
    I::Item: Conv,
{
    fn next(&mut self) -> Option<Item> { self.0.next().map(Conv::conv) }
    fn nth(&mut self, n: usize) -> Option<Item> { self.0.nth(n).map(Conv::conv) }
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn finish(self: Box<Self>, how: u64) -> Fin {
        let it = self.0;
        let conv = |v: Vec<I::Item>| v.into_iter().map(Conv::conv).collect();
        match how % 10 {
            0 => Fin::Count(it.count()),
            1 => Fin::Last(it.last().map(Conv::conv)),
            2 => Fin::All(it.fold(vec![], |mut v, x| { v.push(x.conv()); v })),
            3 => {
                let mut v = vec![];
                it.for_each(|x| v.push(x.conv()));
                Fin::All(v)
            }
            4 => Fin::Some(conv(it.skip(2).step_by(3).collect())),
            5 => {
                let mut v = vec![];
                let mut it = it.peekable();
                while it.peek().is_some() {
                    v.push(it.next().unwrap().conv());
                }
                Fin::All(v)
            }
            6 => {
                let mut v = vec![];
                let mut it = it;
                let _ = it.try_for_each(|x| { v.push(x.conv()); Some(()) });
                Fin::All(v)
            }
            7 => {
                let (a, b): (Vec<_>, Vec<_>) = it.map(Conv::conv).partition(|x| x.0 & 1 == 1);
                Fin::All([a, b].concat())
            }
            8 => {
                let mut it = it;
                let mut v: Vec<Item> = it.by_ref().take(3).map(Conv::conv).collect();
                v.extend(it.map(Conv::conv));
                Fin::All(v)
            }
            _ => Fin::All(conv(it.collect())),
        }
    }
}

const NVAL: usize = 3;
trait Holder {
    fn walk(&self, r: usize, kind: u64, grade: usize) -> Box<dyn Walk + '_>;
    fn call(&self, op: &Op) -> R<u64>;
    fn put(&mut self, r: usize, idx: usize, v: i64);
}
struct Held<M_: Mv>(Vec<M_>);
macro_rules! holder {
    ($M:ty, $C:ty, $A:ty, [$($g:tt)*]) => {
        impl<$($g)*> Holder for Held<$M> {
            fn walk(&self, r: usize, kind: u64, grade: usize) -> Box<dyn Walk + '_> {
                match kind % 4 {
                    0 => Box::new(W(<$A as ClAlgebra>::index_iter())),
                    1 => Box::new(W(<$A as ClAlgebra>::grade_index_iter(grade))),
                    2 => Box::new(W(self.0[r].coeff_enumerate())),
                    _ => Box::new(W(self.0[r].grade_enumerate(grade))),
                }
            }
            fn call(&self, op: &Op) -> R<u64> { eval(&self.0, <$M as MvExt>::all, op, 0).0 }
            fn put(&mut self, r: usize, idx: usize, v: i64) {
                let old = std::mem::replace(&mut self.0[r], <$M as Mv>::nil());
                self.0[r] = old.set_by_idx(idx, <$C as CoefT>::of(&from_i(v)));
            }
        }
    };
}
holder!(Multivector<Coef, A>, Coef, A, [A: Alg]);
holder!(SparseMultivector<Coef, A>, Coef, A, [A: Alg]);
holder!(Quat, crate::coef::Qf, crate::algs::Q2, []);

const DENSE: &[&str] = &["P1", "Z2", "G2", "ST", "C5", "M7", "N8", "XA", "XC"];
const LARGE: &[&str] = &["LD", "LS", "LK", "LG", "LT", "LQ", "LX"];
fn held(a: &str, kind: &str) -> Box<dyn Holder> {
    use crate::algs::*;
    macro_rules! pick {
        ($T:ident: $($n:ident)*) => {
            match a { $(stringify!($n) => Box::new(Held::<$T<Coef, $n>>(vec![Mv::nil(), Mv::nil(), Mv::nil()])),)* _ => panic!("algebra {a}") }
        };
    }
    match kind {
        "q" => Box::new(Held::<Quat>(vec![Mv::nil(), Mv::nil(), Mv::nil()])),
        "d" => pick!(Multivector: P1 Z2 G2 ST C5 M7 N8 XA XC),
        _ => pick!(SparseMultivector: P1 Z2 G2 ST C5 M7 N8 XA XC LD LS LK LG LT LQ LX),
    }
}

/// What is known about a live enumeration.
struct Slot {
    walk: Option<Box<dyn Walk>>,
    w: usize,
    r: usize,
    kind: u64,
    grade: usize,
    /// indices that have to come: all, or those with a coefficient
    must: u128,
    may: u128,
    seen: BTreeSet<usize>,
    /// items passed, of which some unseen
    passed: u128,
    ended: bool,
    hints: Vec<(u128, usize, Option<usize>)>,
    what: String,
}
struct Wd {
    sig: Sig,
    model: Vec<M<u64>>,
    held: Box<dyn Holder>,
}

fn choose(n: usize, k: usize) -> u128 {
    if k > n {
        return 0;
    }
    (0..k.min(n - k)).fold(1u128, |c, i| c * (n - i) as u128 / (i + 1) as u128)
}

impl Slot {
    fn due(&self, wd: &Wd, i: usize) -> bool {
        i < wd.sig.size() && (self.kind % 2 == 0 || grade_of(i) == self.grade)
    }
    fn item(&mut self, wd: &Wd, (i, v): Item) -> Result<(), String> {
        if !self.due(wd, i) {
            return Err(format!("{} yields index {i}, which is not due", self.what));
        }
        if !self.seen.insert(i) {
            return Err(format!("{} yields index {i} twice", self.what));
        }
        if let Some(v) = v {
            let want = m::get(&FpR, &wd.model[self.r], i);
            if v != want {
                return Err(format!("{} yields {v} at index {i} instead of {want}", self.what));
            }
        }
        Ok(())
    }
    /// It is over, after between `lo` and `hi` items in all.
    fn over(&mut self, wd: &Wd, lo: u128, hi: u128) -> Result<(), String> {
        self.ended = true;
        if hi < self.must || lo > self.may {
            return Err(format!("{} ends after {lo} to {hi} items, {} to {} are due", self.what, self.must, self.may));
        }
        for (p, a, b) in &self.hints {
            if *a as u128 > hi - p || b.is_some_and(|b| (b as u128) < lo - p) {
                return Err(format!("{} announced {a} to {b:?} items after {p}, but there were {} to {}", self.what, lo - p, hi - p));
            }
        }
        if self.kind < 2 {
            return Ok(());
        }
        // with coefficients: which ones are missing
        let unseen = hi - self.seen.len() as u128;
        let missing: Vec<usize> =
            wd.model[self.r].keys().filter(|i| self.due(wd, **i) && !self.seen.contains(i)).copied().collect();
        if missing.len() as u128 > unseen {
            return Err(format!("{} left out the indices {}", self.what, brief(&missing)));
        }
        Ok(())
    }
}

fn step(slot: &mut Slot, wd: &Wd, op: &Op) -> Result<u64, String> {
    let p = rep();
    let name = op.name.as_str();
    let small = slot.may <= 5000;
    let mut h = 0;
    let cut = |slot: &mut Slot| {
        slot.walk = None;
        slot.ended = true;
        rep().counters[5] += 1;
    };
    // run the enumeration, possibly interrupted by a panic of the coefficient
    macro_rules! drive {
        ($e:expr) => {{
            seam::arm(op.f);
            let r = catch_unwind(AssertUnwindSafe(|| $e));
            let (_, fired) = seam::disarm();
            match r {
                Ok(v) => v,
                Err(_) if fired => {
                    cut(slot);
                    return Ok(77);
                }
                Err(_) => return Err(format!("{} panicked: {}", slot.what, last_panic())),
            }
        }};
    }
    match name {
        "next" => {
            for _ in 0..1 + op.k % 32 {
                let it = { let w = slot.walk.as_mut().unwrap(); drive!(w.next()) };
                p.steps += 1;
                match it {
                    Some(x) if slot.ended => return Err(format!("{} yields {x:?} after its end", slot.what)),
                    Some(x) => {
                        slot.passed += 1;
                        slot.item(wd, x)?;
                        h = comb(h, x.0 as u64);
                    }
                    None => {
                        if !slot.ended {
                            slot.over(wd, slot.passed, slot.passed)?;
                            p.counters[1] += 1;
                        }
                        h = comb(h, 1 << 63);
                        break;
                    }
                }
            }
        }
        "nth" => {
            let n = if small && op.k % 8 == 0 { usize::MAX - op.k as usize % 2 } else { op.k as usize % 300 };
            let it = { let w = slot.walk.as_mut().unwrap(); drive!(w.nth(n)) };
            p.counters[2] += 1;
            match it {
                Some(x) if slot.ended => return Err(format!("{} yields {x:?} after its end", slot.what)),
                Some(x) => {
                    slot.passed += n as u128 + 1;
                    slot.item(wd, x)?;
                    h = comb(h, x.0 as u64);
                    if slot.passed > slot.may {
                        return Err(format!("{} has yielded {} items, {} are due", slot.what, slot.passed, slot.may));
                    }
                }
                None if !slot.ended => slot.over(wd, slot.passed, slot.passed + n as u128)?,
                None => {}
            }
        }
        "hint" => {
            let (a, b) = { let w = slot.walk.as_ref().unwrap(); drive!(w.hint()) };
            p.counters[3] += 1;
            if b.is_some_and(|b| b < a) {
                return Err(format!("{} announces {a} to {b:?} items", slot.what));
            }
            if slot.ended {
                if a > 0 {
                    return Err(format!("{} announces {a} items after its end", slot.what));
                }
            } else {
                let most = slot.may - slot.passed.min(slot.may);
                let least = slot.must.saturating_sub(slot.passed);
                if a as u128 > most || b.is_some_and(|b| (b as u128) < least) {
                    return Err(format!("{} announces {a} to {b:?} items, {least} to {most} are left", slot.what));
                }
                slot.hints.push((slot.passed, a, b));
            }
        }
        "finish" => {
            // only what can be walked to its end
            if slot.may - slot.passed.min(slot.may) > 5000 || slot.ended {
                slot.walk = None;
                p.counters[6] += 1;
                return Ok(5);
            }
            let w = slot.walk.take().unwrap();
            p.counters[4] += 1;
            match drive!(w.finish(op.k)) {
                Fin::All(v) => {
                    for x in v {
                        slot.passed += 1;
                        slot.item(wd, x)?;
                        h = comb(h, x.0 as u64);
                    }
                    slot.over(wd, slot.passed, slot.passed)?;
                }
                Fin::Count(n) => {
                    let n = slot.passed + n as u128;
                    slot.over(wd, n, n)?;
                    h = comb(h, n as u64);
                }
                Fin::Last(None) => {
                    let n = slot.passed;
                    slot.over(wd, n, n)?;
                }
                Fin::Last(Some(x)) => {
                    slot.item(wd, x)?;
                    h = comb(h, x.0 as u64);
                }
                Fin::Some(v) => {
                    let n = v.len() as u128;
                    for x in v {
                        slot.item(wd, x)?;
                    }
                    // skipped 2, then one out of three
                    let (lo, hi) = if n == 0 { (0, 2) } else { (3 * n, 3 * n + 2) };
                    slot.over(wd, slot.passed + lo, slot.passed + hi)?;
                    h = comb(h, n as u64);
                }
            }
        }
        _ => {
            slot.walk = None;
            p.counters[6] += 1;
        }
    }
    Ok(h)
}

const NSLOT: usize = 6;

fn run(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let p = rep();
    let mut wds: Vec<Wd> = t.worlds.iter().map(|(a, k)| Wd { sig: info(a).sig(), model: vec![M::new(); NVAL], held: held(a, k) }).collect();
    let mut slots: Vec<Option<Slot>> = (0..NSLOT).map(|_| None).collect();
    let mut h = 0;
    let r = (|| -> Result<(), String> {
        for op in &t.lines {
            let d = op.d % NSLOT;
            let r = op.a % NVAL;
            match op.name.as_str() {
                "put" => {
                    let Some(wd) = wds.get_mut(op.w) else { continue };
                    // only when nothing borrows the value
                    for s in slots.iter_mut() {
                        if matches!(s, Some(s) if s.w == op.w) {
                            *s = None;
                        }
                    }
                    for (i, v) in &op.l {
                        wd.held.put(r, *i, *v);
                        m::set(&FpR, &wd.sig, &mut wd.model[r], *i, from_i(*v));
                    }
                }
                "open" => {
                    let Some(wd) = wds.get(op.w) else { continue };
                    let (kind, grade) = (op.k % 4, op.b);
                    let full = wd.sig.size() as u128;
                    let may = if kind % 2 == 0 { full } else { choose(wd.sig.dim, grade) };
                    let must = if kind < 2 { may } else { wd.model[r].keys().filter(|i| kind == 2 || grade_of(**i) == grade).count() as u128 };
                    let which = ["index_iter", "grade_index_iter", "coeff_enumerate", "grade_enumerate"][kind as usize];
                    let what = format!("{which} of {} ({}{})", t.worlds[op.w].0, t.worlds[op.w].1, if kind % 2 == 1 { format!(", grade {grade}") } else { String::new() });
                    let walk = match catch_unwind(AssertUnwindSafe(|| wd.held.walk(r, kind, grade))) {
                        // the worlds outlive the slots and are not touched while slots look at them
                        Ok(w) => unsafe { std::mem::transmute::<Box<dyn Walk + '_>, Box<dyn Walk + 'static>>(w) },
                        Err(_) => return Err(format!("{what} panicked: {}", last_panic())),
                    };
                    slots[d] = Some(Slot { walk: Some(walk), w: op.w, r, kind, grade, must, may, seen: BTreeSet::new(), passed: 0, ended: false, hints: vec![], what });
                }
                "call" => {
                    let Some(wd) = wds.get(op.w) else { continue };
                    let mut o = op.clone();
                    o.name = ["mul", "add", "rev", "grade", "eq", "vsdot", "neg", "xvec", "genum", "dual", "mag2", "enum"][op.k as usize % 12].into();
                    o.k = op.b as u64;
                    let nz = |r: R<u64>| match r {
                        R::Mv(v) => R::Mv(v.into_iter().filter(|x| x.1 != 0).collect()),
                        R::Items(v) => R::Items(v.into_iter().filter(|x| x.1 != 0).collect()),
                        r => r,
                    };
                    o.a = r;
                    o.b = op.d % NVAL;
                    let got = nz(wd.held.call(&o));
                    let want = nz(spec(&FpR, &wd.sig, &wd.model, &o));
                    p.counters[7] += 1;
                    if got != want {
                        return Err(format!("`{}` between two steps: got {} expected {}", o.text(), brief_r(&got), brief_r(&want)));
                    }
                }
                _ => {
                    let Some(slot) = slots[d].as_mut() else { continue };
                    if slot.walk.is_none() {
                        continue;
                    }
                    p.counters[0] += 1;
                    let others = slots.iter().flatten().filter(|s| s.walk.is_some() && !s.seen.is_empty()).count();
                    let slot = slots[d].as_mut().unwrap();
                    if others > 1 {
                        p.nontrivial = 1;
                    }
                    h = comb(comb(h, d as u64), step(slot, &wds[slot.w], op)?);
                }
            }
        }
        Ok(())
    })();
    slots.clear();
    r?;
    // the values themselves
    for wd in &wds {
        for r in 0..NVAL {
            let mut o = Op::new(0, "enum");
            o.a = r;
            let got = wd.held.call(&o);
            let want: Vec<(usize, u64)> = wd.model[r].iter().map(|(i, v)| (*i, *v)).collect();
            if !matches!(&got, R::Items(v) if v.iter().filter(|x| x.1 != 0).cloned().collect::<Vec<_>>() == want) {
                return Err(format!("value {r} is {} in the end instead of {}", brief_r(&got), brief(&want)));
            }
        }
    }
    p.digest = h;
    Ok(())
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C10", r.next());
    for _ in 0..1 + r.us(3) {
        let w = match r.below(8) {
            0 => ("Q2", "q"),
            1..=3 => (*r.pick(DENSE), "d"),
            4 => (*r.pick(DENSE), "s"),
            _ => (*r.pick(LARGE), "s"),
        };
        t.worlds.push((w.0.into(), w.1.into()));
    }
    let put = |r: &mut Rng, t: &Trace, w: usize| {
        let n = info(&t.worlds[w].0).sig.len();
        let mut op = Op::new(w, "put");
        op.a = r.us(NVAL);
        let most = if n <= 6 { 1 << n } else { 24 };
        for _ in 0..1 + r.us(most) {
            let mut i = r.next() as usize & ((1usize << n) - 1);
            if n > 8 && r.chance(1, 2) {
                // few generators: grades in common
                i = (1usize << r.us(n)) | (1usize << r.us(n));
            }
            op.l.push((i, if r.chance(1, 6) { 0 } else { r.range(1, 99) as i64 }));
        }
        op
    };
    for w in 0..t.worlds.len() {
        for _ in 0..2 {
            let op = put(r, &t, w);
            t.lines.push(op);
        }
    }
    let bias = r.below(3);
    let nslot = 3 + r.us(NSLOT - 2);
    for i in 0..12 + r.us(if tier == Tier::Quick { 60 } else { 160 }) {
        let w = r.us(t.worlds.len());
        let n = info(&t.worlds[w].0).sig.len() as u64;
        let mut op = Op::new(w, "");
        op.d = r.us(nslot);
        op.a = r.us(NVAL);
        let k = if i < 4 { 0 } else { r.below(32) };
        op.name = match k {
            0..=2 => "open",
            3..=17 => "next",
            18..=20 => "nth",
            21..=23 => "hint",
            24..=25 => "finish",
            26 => "drop",
            27..=30 => "call",
            _ => "put",
        }
        .into();
        match op.name.as_str() {
            "open" => {
                op.k = r.below(4);
                op.b = match r.below(12) {
                    0 => *r.pick(&[n as usize + 1, 64, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX, usize::MAX - 1, isize::MAX as usize]),
                    1 => n as usize,
                    2 => 0,
                    3 => n as usize - 1,
                    _ => r.below(n + 1) as usize,
                };
            }
            "next" => op.k = if bias == 0 { 0 } else { r.below(32) },
            "put" => op = put(r, &t, w),
            "call" => {
                op.k = r.below(12);
                op.b = r.below(n + 1) as usize;
                if n > 9 && op.k == 0 {
                    op.k = 1;
                }
            }
            _ => op.k = r.next() >> 40,
        }
        if matches!(op.name.as_str(), "next" | "nth" | "finish") && r.chance(1, 12) {
            op.f = 1 + r.below(12);
        }
        t.lines.push(op);
    }
    t
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        gen,
        profile: None,
        per_line: false,
        per_thread: false,
        place: rehash,
        run,
        repeat: 1,
        threads: false,
        quick: 150_000,
        thorough: 2_500_000,
        rule: "a run counts if at least two started enumerations were alive at the same time; two runs are the same if the same enumerations were advanced in the same order with the same results",
        measure: "hash of the sequence of slots advanced and of the indices they yielded",
        time_unit: "single steps",
        stubs: "the consumers (caller code), coefficient type, kernel entropy",
        assumptions: &["enumerations of more than 5000 items are walked in part", "values do not change while they are enumerated (the borrow checker forbids it)"],
        counters: &[(0, "advances"), (1, "enumerations stepped to their end"), (2, "skips"), (3, "size queries"), (4, "enumerations drained by an adaptor"), (7, "library calls in between")],
        faults: &[(5, "enumeration cut short by a panic of a coefficient"), (6, "enumeration abandoned")],
    }
}

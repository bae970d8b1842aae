//! Registers of one algebra, held by one or several storage types and by the model.
use crate::algs::{info, with_dense, with_sparse_only, Info};
use crate::coef::*;
use crate::model::{self as m, FpR, NestR, Rg, Sig, M};
use crate::ops::*;
use simrt::prng::comb;
use simrt::rep;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tclifford::{Multivector, SparseMultivector};

pub const NREG: usize = 5;

/// Result of a line, in comparable form.
#[derive(Clone, Debug, PartialEq)]
pub enum R<K> {
    Mv(Vec<(usize, K)>),
    Val(K),
    Bool(bool),
    Num(u64),
    Items(Vec<(usize, K)>),
    Digest(u64),
    Err(&'static str),
    Na,
    /// interrupted by the injected panic
    Faulted,
    /// panicked by itself
    Panicked(String),
    /// the model has no opinion
    Unknown,
}

impl<K> R<K> {
    pub fn digest(&self, h: impl Fn(&K) -> u64) -> u64 {
        let lst = |t: u64, v: &[(usize, K)]| v.iter().fold(t, |x, (i, k)| comb(comb(x, *i as u64), h(k)));
        match self {
            R::Mv(v) => lst(1, v),
            R::Val(k) => comb(2, h(k)),
            R::Bool(b) => comb(3, *b as u64),
            R::Num(n) => comb(4, *n),
            R::Items(v) => lst(5, v),
            R::Digest(d) => comb(6, *d),
            R::Err(e) => e.bytes().fold(7, |x, b| comb(x, b as u64)),
            R::Na => 8,
            R::Faulted => 9,
            R::Panicked(s) => s.bytes().fold(10, |x, b| comb(x, b as u64)),
            R::Unknown => 11,
        }
    }
}

pub trait SideT<K> {
    fn kind(&self) -> char;
    /// Evaluate the line; if `store`, put a multivector result into register d. `at`: interrupt at that callback.
    fn exec(&mut self, op: &Op, at: u64, store: bool) -> R<K>;
    fn dump(&self, r: usize) -> Vec<(usize, K)>;
    fn at(&self, r: usize, i: usize) -> K;
    fn count(&self, r: usize) -> Option<usize>;
    fn order(&self, r: usize) -> u64;
    fn load(&mut self, r: usize, l: &[(usize, K)]);
    fn inplace(&self, op: &Op, at: u64) -> Option<(Vec<(usize, K)>, Option<usize>, Vec<(usize, bool)>, bool)>;
    fn shared(&self) -> *const ();
    /// Evaluate on the shared registers, on clones of them (form 1) or on private rebuilt ones (form 2).
    fn call(&self, op: &Op, at: u64, form: u64) -> (R<K>, Option<Box<dyn Held<K>>>);
}

/// A result somebody keeps.
pub trait Held<K> {
    fn look(&self) -> Vec<(usize, K)>;
}
impl<M_: Mv> Held<<M_::C as CoefT>::K> for M_ {
    fn look(&self) -> Vec<(usize, <M_::C as CoefT>::K)> { self.dump() }
}

pub struct Side<M_: Mv> {
    pub regs: Vec<M_>,
    pub run: fn(&[M_], &Op) -> Out<M_>,
}

impl<M_: Mv> Side<M_> {
    pub fn new(run: fn(&[M_], &Op) -> Out<M_>) -> Self {
        Side { regs: (0..NREG).map(|_| M_::nil()).collect(), run }
    }
}

pub fn last_panic() -> String {
    crate::LAST_PANIC.with(|p| p.borrow().clone())
}

/// Evaluate without storing; usable from several threads.
pub fn eval<M_: Mv>(regs: &[M_], run: fn(&[M_], &Op) -> Out<M_>, op: &Op, at: u64) -> (R<<M_::C as CoefT>::K>, Option<M_>) {
    simrt::arm(at);
    let r = catch_unwind(AssertUnwindSafe(|| run(regs, op)));
    let (_, fired) = simrt::disarm();
    simrt::quiet(|| match r {
        Err(_) if fired => (R::Faulted, None),
        Err(_) => (R::Panicked(last_panic()), None),
        Ok(o) => {
            if fired {
                return (R::Panicked("the panic of a callback was swallowed".into()), None);
            }
            match o {
                Out::Mv(mv) => (R::Mv(mv.dump()), Some(mv)),
                Out::Val(c) => (R::Val(c.key()), None),
                Out::Bool(b) => (R::Bool(b), None),
                Out::Num(n) => (R::Num(n), None),
                Out::Items(v) => {
                    let mut v: Vec<_> = v.into_iter().map(|(i, c)| (i, c.key())).collect();
                    v.sort();
                    (R::Items(v), None)
                }
                Out::Digest(d) => (R::Digest(d), None),
                Out::Err(e) => (R::Err(e), None),
                Out::Na => (R::Na, None),
            }
        }
    })
}

impl<M_: Mv> SideT<<M_::C as CoefT>::K> for Side<M_> {
    fn kind(&self) -> char { M_::KIND }
    fn exec(&mut self, op: &Op, at: u64, store: bool) -> R<<M_::C as CoefT>::K> {
        let (r, mv) = eval(&self.regs, self.run, op, at);
        if let (Some(mv), true) = (mv, store) {
            self.regs[op.d % NREG] = mv;
        }
        r
    }
    fn dump(&self, r: usize) -> Vec<(usize, <M_::C as CoefT>::K)> { self.regs[r].dump() }
    fn at(&self, r: usize, i: usize) -> <M_::C as CoefT>::K { self.regs[r].at(i) }
    fn count(&self, r: usize) -> Option<usize> { self.regs[r].count() }
    fn order(&self, r: usize) -> u64 { self.regs[r].order() }
    fn load(&mut self, r: usize, l: &[(usize, <M_::C as CoefT>::K)]) { self.regs[r] = M_::build(l); }
    fn inplace(&self, op: &Op, at: u64) -> Option<(Vec<(usize, <M_::C as CoefT>::K)>, Option<usize>, Vec<(usize, bool)>, bool)> {
        let (mv, log, fired) = self.regs[op.a % NREG].inplace(op, at)?;
        Some((mv.dump(), mv.count(), log, fired))
    }
    fn shared(&self) -> *const () { self.regs.as_ptr() as *const () }
    fn call(&self, op: &Op, at: u64, form: u64) -> (R<<M_::C as CoefT>::K>, Option<Box<dyn Held<<M_::C as CoefT>::K>>>) {
        let (a, b) = (&self.regs[op.a % NREG], &self.regs[op.b % NREG]);
        let (r, mv) = if form == 0 {
            eval(&self.regs, self.run, op, at)
        } else {
            let own = match form {
                1 => vec![a.clone(), b.clone()],
                _ => vec![M_::build(&a.dump()), M_::build(&b.dump())],
            };
            let o = Op { a: 0, b: 1, ..op.clone() };
            eval(&own, self.run, &o, at)
        };
        (r, mv.map(|m| Box::new(m) as Box<dyn Held<_>>))
    }
}

/// Arguments of a line as elements of the model ring.
pub trait Ring0: Rg {
    fn arg(&self, v: i64) -> Self::V;
    fn hash(v: &Self::V) -> u64;
    fn small(&self, _v: &Self::V) -> Option<i64> { None }
}
impl Ring0 for FpR {
    fn arg(&self, v: i64) -> u64 { m::from_i(v) }
    fn hash(v: &u64) -> u64 { *v }
    fn small(&self, v: &u64) -> Option<i64> { Some(m::to_i(*v)) }
}
impl Ring0 for NestR {
    fn arg(&self, v: i64) -> Self::V { nest_arg(v, self.0.size()) }
    fn hash(v: &Self::V) -> u64 { nest_hash(v) }
}

pub const BUDGET: usize = 60_000;

/// What the definition says about a line. `div`: the algebra has division.
pub fn spec<G: Ring0>(g: &G, s: &Sig, regs: &[M<G::V>], op: &Op) -> R<G::V> {
    let n = regs.len();
    let (a, b) = (&regs[op.a % n], &regs[op.b % n]);
    let k = op.k as usize;
    let v = || g.arg(op.v());
    let mv = |x: M<G::V>| R::Mv(x.into_iter().collect());
    let from = |l: Vec<(usize, G::V)>| {
        let mut o = M::new();
        for (i, c) in l {
            m::set(g, s, &mut o, i, c);
        }
        mv(o)
    };
    match op.name.as_str() {
        "zero" | "default" => mv(M::new()),
        "one" => mv(m::one(g)),
        "scalar" => from(vec![(0, v())]),
        "vector" => {
            if op.l.len() != s.dim {
                R::Err("InvalidShape")
            } else {
                from(op.l.iter().enumerate().map(|(i, (_, c))| (1usize << i, g.arg(*c))).collect())
            }
        }
        "indexed" => {
            if op.l.iter().any(|(i, _)| *i >= s.size()) {
                R::Err("IndexOutOfBounds")
            } else {
                from(op.l.iter().map(|(i, c)| (*i, g.arg(*c))).collect())
            }
        }
        "basis" => from(vec![(1usize << (k % s.dim), g.one())]),
        "set" => {
            let mut o = a.clone();
            m::set(g, s, &mut o, op.idx(), v());
            mv(o)
        }
        "get" => R::Val(m::get(g, a, op.idx())),
        "scalarpart" => R::Val(m::get(g, a, 0)),
        "clone" | "conv" => mv(a.clone()),
        "add" => mv(m::add(g, a, b)),
        "sub" => mv(m::sub(g, a, b)),
        "mul" | "nmul" => mv(m::mul(g, s, a, b)),
        "wedge" | "nwedge" => mv(m::wedge(g, s, a, b)),
        "meet" | "nmeet" => mv(m::meet(g, s, a, b)),
        "neg" => mv(m::neg(g, a)),
        "smul" => mv(m::scale(g, a, &v())),
        "sdiv" => m::sdiv(g, a, &v()).map(mv).unwrap_or(R::Unknown),
        "revm" => m::sdiv(g, &m::rev(g, a), &m::mag2(g, s, a)).map(mv).unwrap_or(R::Unknown),
        "div" => {
            // b * conj(b) is a scalar in the division algebras
            let c = m::flip(g, &m::rev(g, b));
            let nn = m::get(g, &m::mul(g, s, b, &c), 0);
            m::sdiv(g, &c, &nn).map(|q| mv(m::mul(g, s, a, &q))).unwrap_or(R::Unknown)
        }
        "conj" => mv(m::flip(g, &m::rev(g, a))),
        "rev" => mv(m::rev(g, a)),
        "flip" => mv(m::flip(g, a)),
        "flipsub" => mv(m::flipsub(g, a, k)),
        "dual" => mv(m::dual(g, s, a)),
        "undual" => mv(m::undual(g, s, a)),
        "pow" => m::pow(g, s, a, k, 4 * BUDGET).map(mv).unwrap_or(R::Unknown),
        "grade" | "gradeas" => mv(m::grade(a, k)),
        "gradesx" => mv(a.iter().filter(|(i, _)| op.x.contains(&(m::grade_of(**i) as u64))).map(|(i, c)| (*i, c.clone())).collect()),
        "filter" => mv(a.iter().filter(|(i, _)| op.keep(**i)).map(|(i, c)| (*i, c.clone())).collect()),
        "mutfilter" => from(
            a.iter()
                .filter(|(i, _)| op.keep(**i))
                .map(|(i, c)| (*i, match op.mutate(*i) { 1 => g.neg(c), 2 => g.zero(), _ => c.clone() }))
                .collect(),
        ),
        "refilter" => {
            let z = m::mul(g, s, b, a).is_empty();
            mv(a.iter().filter(|(i, c)| **c != m::get(g, b, **i) && !z).map(|(i, c)| (*i, c.clone())).collect())
        }
        "reenter" => {
            let dot = m::vsdot(g, b, a);
            from(a.iter().map(|(i, c)| (*i, g.add(&dot, &g.mul(c, &m::get(g, b, *i))))).collect())
        }
        "vsdot" => R::Val(m::vsdot(g, a, b)),
        "vdot" => R::Val(m::vdot(g, s, a, b)),
        "mag2" => R::Val(m::mag2(g, s, a)),
        "eq" => R::Bool(a == b),
        "ne" => R::Bool(a != b),
        "iszero" => R::Bool(a.is_empty()),
        "approx" => {
            let p = 0.5 + (op.k % 7) as f64;
            let d = m::sub(g, a, b);
            match d.values().map(|v| g.small(v)).collect::<Option<Vec<_>>>() {
                Some(v) => R::Bool(v.iter().all(|x| (x.abs() as f64) < p)),
                None => R::Unknown,
            }
        }
        "exp" => R::Bool(true),
        "count" => R::Num(a.len() as u64),
        "xvec" => R::Items((0..s.dim).map(|i| (i, m::get(g, a, 1usize << i))).collect()),
        "enum" | "view" => R::Items(a.iter().map(|(i, c)| (*i, c.clone())).collect()),
        "genum" => R::Items(m::grade(a, k).into_iter().collect()),
        "cplx" => {
            if a.values().all(|v| matches!(g.small(v), Some(x) if x.abs() < 1 << 50)) {
                mv(a.clone())
            } else {
                R::Unknown
            }
        }
        "signature" => R::Digest(s.sq.iter().fold(3, |h, x| comb(comb(h, *x as u64), (*x as f64).to_bits()))),
        _ => R::Unknown,
    }
}

/// rough number of coefficient products of a line
pub fn cost<V: Clone>(s: &Sig, regs: &[M<V>], op: &Op, dense: bool) -> usize {
    let n = regs.len();
    let (a, b) = (regs[op.a % n].len(), regs[op.b % n].len());
    let full = if s.dim <= 18 { 1usize << s.dim } else { usize::MAX };
    // the dense inner loop visits every slot
    let bb = if dense { b.max(full) } else { b };
    match op.name.as_str() {
        "mul" | "nmul" | "nwedge" | "nmeet" => a * bb,
        "div" => (a + b) * bb,
        "wedge" | "meet" => if dense && s.dim >= 6 { 3usize.pow(s.dim as u32) / 2 + full } else { a * bb },
        "refilter" => a * (b * if dense { a.max(full) } else { a } + 1),
        "reenter" => a * (b + 1),
        "pow" => {
            // a power stays in the subalgebra generated by the terms
            let gens = regs[op.a % n].keys().fold(0usize, |x, i| x | i).count_ones();
            let t = a.saturating_pow(op.k.clamp(1, 16) as u32).min(1 << gens.min(20));
            let bits = 64 - op.k.leading_zeros() as usize;
            t.saturating_mul(if dense { full } else { t }).saturating_mul(if bits > 4 { 2 * bits } else { 2 })
        }
        "exp" => {
            // repeated products fill the subalgebra generated by the terms
            let gens = regs[op.a % n].keys().fold(0usize, |x, i| x | i).count_ones();
            if gens > 6 || (dense && s.dim > 6) { usize::MAX } else { (1usize << gens) * (if dense { full } else { 1 << gens }) * 60 }
        }
        x if x.starts_with("fft") || x == "clifft" || x == "rfft" => full.saturating_mul(8 * s.dim),
        _ => a + b,
    }
}

pub struct World<G: Ring0> {
    pub info: &'static Info,
    pub sig: Sig,
    pub g: G,
    pub sides: Vec<Box<dyn SideT<G::V>>>,
    pub model: Vec<M<G::V>>,
}

fn is_zero_key<G: Rg>(g: &G, v: &G::V) -> bool {
    g.is_zero(v)
}

impl<G: Ring0> World<G> {
    /// Register r of every storage holds exactly the model's coefficients.
    pub fn check_reg(&self, r: usize) -> Result<(), String> {
        let want: Vec<(usize, G::V)> = self.model[r].iter().map(|(i, v)| (*i, v.clone())).collect();
        for sd in &self.sides {
            let got = sd.dump(r);
            let k = sd.kind();
            if got.windows(2).any(|w| w[0].0 == w[1].0) {
                return Err(format!("register {r} ({k}) enumerates an index twice: {got:?}"));
            }
            let nz: Vec<(usize, G::V)> = got.iter().filter(|x| !is_zero_key(&self.g, &x.1)).cloned().collect();
            if nz != want {
                return Err(format!("register {r} ({k}, {}) holds {} but must hold {}", self.info.sig, brief(&nz), brief(&want)));
            }
            if let Some(c) = sd.count(r) {
                if c != want.len() {
                    return Err(format!("register {r} ({k}) counts {c} non-zero terms, has {}", want.len()));
                }
            }
            let size = self.sig.size();
            if size <= 64 {
                for i in 0..size + 2 {
                    let v = sd.at(r, i);
                    if v != m::get(&self.g, &self.model[r], i) {
                        return Err(format!("register {r} ({k}) reads {v:?} at index {i}"));
                    }
                }
            } else {
                for (i, v) in want.iter().take(8) {
                    if sd.at(r, *i) != *v {
                        return Err(format!("register {r} ({k}) reads a wrong value at index {i}"));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn check_all(&self) -> Result<(), String> {
        (0..NREG).try_for_each(|r| self.check_reg(r))
    }

    pub fn compare(&self, k: char, got: &R<G::V>, want: &R<G::V>, op: &Op) -> Result<(), String> {
        let bad = |w: &str| {
            Err(format!("`{}` on {} ({k}): {w}: got {} expected {}", op.text(), self.info.sig, brief_r(got), brief_r(want)))
        };
        match (got, want) {
            (R::Panicked(p), _) => Err(format!("`{}` on {} ({k}) panicked: {p}", op.text(), self.info.sig)),
            (R::Na, _) | (_, R::Unknown) => Ok(()),
            (R::Mv(a), R::Mv(b)) => {
                let nz: Vec<_> = a.iter().filter(|x| !self.g.is_zero(&x.1)).cloned().collect();
                if a.windows(2).any(|w| w[0].0 == w[1].0) { return bad("duplicate index"); }
                if nz != *b { bad("wrong value") } else { Ok(()) }
            }
            (R::Items(a), R::Items(b)) => {
                // zero coefficients may or may not be listed
                let nz = |v: &Vec<(usize, G::V)>| v.iter().filter(|x| !self.g.is_zero(&x.1)).cloned().collect::<Vec<_>>();
                if a.windows(2).any(|w| w[0].0 == w[1].0) { return bad("duplicate index"); }
                if nz(a) != nz(b) { return bad("wrong items"); }
                if op.name == "genum" && a.iter().any(|x| m::grade_of(x.0) as u64 != op.k || x.0 >= self.sig.size()) { return bad("index of another grade"); }
                Ok(())
            }
            (a, b) if a == b => Ok(()),
            _ => bad("wrong answer"),
        }
    }

    /// Execute a line on all storages and the model, comparing everything.
    pub fn step(&mut self, op: &Op) -> Result<Vec<R<G::V>>, String> {
        let want = spec(&self.g, &self.sig, &self.model, op);
        let mut outs = vec![];
        for i in 0..self.sides.len() {
            let store = matches!(want, R::Mv(_));
            let got = self.sides[i].exec(op, 0, store);
            self.compare(self.sides[i].kind(), &got, &want, op)?;
            if store && matches!(got, R::Na) {
                // this storage has no such operation: keep it in step
                if let R::Mv(l) = &want {
                    self.sides[i].load(op.d % NREG, l);
                }
            }
            outs.push(got);
        }
        if let R::Mv(l) = want {
            self.model[op.d % NREG] = l.into_iter().collect();
        }
        let mut rs = vec![op.d % NREG, op.a % NREG, op.b % NREG];
        rs.sort();
        rs.dedup();
        for r in rs {
            self.check_reg(r).map_err(|e| format!("after `{}`: {e}", op.text()))?;
        }
        Ok(outs)
    }

    /// Digest of an outcome that does not depend on the storage listing zeros.
    pub fn digest(&self, r: &R<G::V>) -> u64 {
        let nz = |v: &Vec<(usize, G::V)>| v.iter().filter(|x| !self.g.is_zero(&x.1)).cloned().collect::<Vec<_>>();
        match r {
            R::Mv(v) => R::Mv(nz(v)).digest(G::hash),
            R::Items(v) => R::Items(nz(v)).digest(G::hash),
            r => r.digest(G::hash),
        }
    }

    /// Execute a line on the first storage, interrupting it `faults` times before letting it through.
    /// Borrowed operands must survive, and the answer must be the definition's and have the digest `want`.
    /// Returns the callbacks of the undisturbed call and the digest of its outcome.
    pub fn step_faulted(&mut self, op: &Op, faults: &[u64], expect: Option<u64>) -> Result<(u64, u64), String> {
        let mut regs = vec![op.d % NREG, op.a % NREG, op.b % NREG];
        regs.sort();
        regs.dedup();
        let k = self.sides[0].kind();
        for f in faults {
            let got = self.sides[0].exec(op, *f, false);
            match got {
                R::Faulted => {
                    rep().counters[0] += 1;
                }
                R::Panicked(p) => return Err(format!("`{}` on {} ({k}) panicked: {p}", op.text(), self.info.sig)),
                _ => {}
            }
            for r in &regs {
                self.check_reg(*r).map_err(|e| format!("after interrupting `{}` at callback {f}: {e}", op.text()))?;
            }
            if op.name == "filter" && k == 's' {
                self.check_inplace(op, 1 + f % 64)?;
            }
        }
        let want = spec(&self.g, &self.sig, &self.model, op);
        let got = self.sides[0].exec(op, 0, true);
        let hooks = simrt::seam::callbacks();
        self.compare(k, &got, &want, op)?;
        let d = self.digest(&got);
        if let Some(e) = expect {
            if d != e {
                return Err(format!("`{}` on {} ({k}) gives another answer than in a process where nothing was interrupted: {}", op.text(), self.info.sig, brief_r(&got)));
            }
        }
        match (want, got) {
            (R::Mv(l), R::Na) => {
                self.sides[0].load(op.d % NREG, &l);
                self.model[op.d % NREG] = l.into_iter().collect();
            }
            (R::Mv(l), _) => self.model[op.d % NREG] = l.into_iter().collect(),
            // no definition: what it gave is what it must keep
            (_, R::Mv(l)) => self.model[op.d % NREG] = l.into_iter().filter(|x| !self.g.is_zero(&x.1)).collect(),
            _ => {}
        }
        for r in &regs {
            self.check_reg(*r).map_err(|e| format!("after `{}`: {e}", op.text()))?;
        }
        Ok((hooks, d))
    }

    fn check_inplace(&self, op: &Op, at: u64) -> Result<(), String> {
        let Some((after, count, log, fired)) = self.sides[0].inplace(op, at) else { return Ok(()) };
        let bad = |w: String| Err(format!("in-place filter `{}` interrupted at callback {at}: {w}", op.text()));
        rep().counters[1] += fired as u64;
        let before = &self.model[op.a % NREG];
        let after_m: M<G::V> = after.iter().cloned().collect();
        if after_m.len() != after.len() {
            return bad("an index is listed twice".into());
        }
        if count.is_some_and(|c| c != after.len()) {
            return bad("the count is wrong".into());
        }
        for (i, v) in &after_m {
            if before.get(i) != Some(v) {
                return bad(format!("coefficient {i} was not there before"));
            }
        }
        for i in before.keys() {
            let judged = log.iter().find(|x| x.0 == *i).map(|x| x.1);
            match judged {
                Some(false) if fired => {}
                Some(false) => {
                    if after_m.contains_key(i) {
                        return bad(format!("coefficient {i} was rejected but kept"));
                    }
                }
                _ => {
                    if !after_m.contains_key(i) {
                        return bad(format!("coefficient {i} was lost without having been rejected"));
                    }
                }
            }
        }
        Ok(())
    }

    pub fn order(&self) -> u64 {
        let mut h = 0;
        for s in &self.sides {
            for r in 0..NREG {
                h = comb(h, s.order(r));
            }
        }
        h
    }
}

pub fn brief<T: std::fmt::Debug>(v: &T) -> String {
    let s = format!("{v:?}");
    if s.len() > 300 { format!("{}...", s.chars().take(300).collect::<String>()) } else { s }
}
pub fn brief_r<K: std::fmt::Debug>(r: &R<K>) -> String {
    brief(r)
}

/// `which`: storages to hold, out of "dsq".
pub fn flat_world(name: &str, which: &str) -> World<FpR> {
    let inf = info(name);
    let sig = inf.sig();
    let mut sides: Vec<Box<dyn SideT<u64>>> = vec![];
    for c in which.chars() {
        match c {
            'q' if name == "Q2" => {
                sides.push(Box::new(Side::<Multivector<Qf, crate::algs::Q2>>::new(MvExt::all)));
                sides.push(Box::new(Side::<SparseMultivector<Qf, crate::algs::Q2>>::new(MvExt::all)));
                sides.push(Box::new(Side::<Quat>::new(MvExt::all)));
            }
            'Q' if name == "Q2" => sides.push(Box::new(Side::<Quat>::new(MvExt::all))),
            'd' if inf.dense => {
                sides.push(with_dense!(name, A => Box::new(Side::<Multivector<Coef, A>>::new(MvExt::all)), |o| panic!("algebra {o}")));
            }
            's' => {
                let other = |n: &str| -> Box<dyn SideT<u64>> {
                    with_sparse_only!(n, A => Box::new(Side::<SparseMultivector<Coef, A>>::new(MvExt::all)), |o| panic!("algebra {o}"))
                };
                sides.push(with_dense!(name, A => Box::new(Side::<SparseMultivector<Coef, A>>::new(MvExt::all)), other));
            }
            _ => {}
        }
    }
    World { info: inf, sig, g: FpR, sides, model: vec![M::new(); NREG] }
}

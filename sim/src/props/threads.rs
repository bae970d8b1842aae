//! C07: simulated threads calling the library at the same time.
use super::*;
use crate::algs::{another, names};
use crate::gen::GenW;
use crate::model::FpR;
use crate::ops::Op;
use crate::world::{cost, flat_world, spec, Held, World, R};
use simrt::prng::comb;
use simrt::sched::{self, Mode};
use simrt::shared::KIND0;
use simrt::{quiet, rep, seam};

const OPS: &[(&str, u32)] = &[
    ("indexed", 3), ("vector", 2), ("scalar", 1), ("basis", 3), ("one", 1), ("zero", 1), ("set", 2), ("get", 1), ("clone", 2),
    ("add", 4), ("sub", 4), ("mul", 8), ("nmul", 1), ("wedge", 8), ("nwedge", 1), ("meet", 8), ("nmeet", 1), ("neg", 2),
    ("smul", 2), ("sdiv", 2), ("revm", 3), ("rev", 3), ("flip", 3), ("flipsub", 2), ("dual", 3), ("undual", 3), ("pow", 4), ("grade", 3),
    ("gradeas", 3), ("gradesx", 2), ("filter", 3), ("mutfilter", 1), ("refilter", 1), ("reenter", 1), ("vsdot", 3), ("vdot", 3),
    ("mag2", 3), ("eq", 2), ("ne", 1), ("iszero", 1), ("approx", 2), ("xvec", 2), ("genum", 3), ("enum", 1), ("count", 1), ("conv", 4),
    ("div", 4), ("conj", 1), ("cplx", 4), ("view", 1), ("show", 5), ("exp", 3), ("signature", 2),
    ("fftrt", 3), ("fftbits", 2), ("fftmul", 4), ("fftmulr", 4), ("fftadd", 1), ("fftsub", 1), ("fftneg", 1), ("fftpow", 2), ("fftrev", 2), ("fftflip", 2),
    ("fftexp", 1), ("fftmag", 2), ("fftinv", 3), ("fftscale", 1), ("fftcmp", 1), ("fftshow", 1), ("fftarr", 1), ("fftbasis", 3), ("clifft", 3), ("rfft", 3),
];

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C07", r.next());
    let dense = names(|i| i.dense && i.sig.len() <= 8);
    let any = names(|_| true);
    for _ in 0..1 + r.us(3) {
        let k = r.below(8);
        let (a, w) = match k {
            0 => ("Q2", "Q"),
            1..=5 => (another(r, &t.worlds, &dense), "d"),
            _ => (another(r, &t.worlds, &any), "s"),
        };
        t.worlds.push((a.into(), w.into()));
    }
    let mut ws: Vec<GenW<FpR>> = t.worlds.iter().enumerate().map(|(i, (a, k))| GenW::new(r, i, a, k, FpR)).collect();
    for w in ws.iter_mut() {
        for d in 0..r.us(4) {
            let op = w.load(r, d);
            if let R::Mv(l) = spec(&w.g, &w.sig, &w.model, &op) {
                w.model[d] = l.into_iter().collect();
            }
            t.lines.push(op);
        }
    }
    // a few kinds of calls dominate, so that threads meet in the same code
    let mut table: Vec<(&str, u32)> = OPS.to_vec();
    let crowd = r.chance(1, 16);
    if crowd || r.chance(2, 3) {
        for _ in 0..1 + r.us(if crowd { 2 } else { 3 }) {
            let i = r.us(table.len());
            table[i].1 += if crowd { 1_000 } else { 150 };
        }
    }
    let n = if crowd { 5 + r.us(sched::MAXT - 4) } else { 2 + r.us(3) };
    let per = 1 + r.us(if crowd { 2 } else if tier == Tier::Quick { 4 } else { 7 });
    let budget = if crowd { 500 } else { 2_500 };
    for th in 1..=n {
        let mut spent = 0;
        let (mut k, mut tries) = (0, 0);
        while k < per && tries < 40 {
            tries += 1;
            let i = r.us(ws.len());
            let keep = ws[i].model.clone();
            let got = ws[i].line(r, &table, budget - spent);
            ws[i].model = keep;
            if let Some(mut op) = got {
                spent = (spent + cost(&ws[i].sig, &ws[i].model, &op, ws[i].dense)).min(budget);
                op.t = th;
                op.x.insert(0, *r.pick(&[0, 0, 0, 0, 1, 2]));
                t.lines.push(op);
                k += 1;
            }
        }
    }
    t
}

/// The line as the storages understand it, and the form of its operands.
fn call_of(op: &Op) -> (Op, u64) {
    let mut o = op.clone();
    let form = if o.x.is_empty() { 0 } else { o.x.remove(0) };
    (o, form)
}

struct Done {
    line: usize,
    got: R<u64>,
    held: Option<Box<dyn Held<u64>>>,
    hooks: u64,
}

/// Moves what the simulated threads share across; whether the library's types may be shared is checked apart.
struct Across<T>(T);
unsafe impl<T> Send for Across<T> {}
unsafe impl<T> Sync for Across<T> {}

fn make(t: &Trace) -> Result<Vec<World<FpR>>, String> {
    let mut ws: Vec<World<FpR>> = t.worlds.iter().map(|(a, k)| flat_world(a, k)).collect();
    for op in t.lines.iter().filter(|o| o.t == 0) {
        if let Some(w) = ws.get_mut(op.w) {
            w.step(op)?;
        }
    }
    Ok(ws)
}

fn body(ws: &[World<FpR>], jobs: &[(usize, Op, u64)]) -> Vec<Done> {
    let mut out = quiet(|| Vec::with_capacity(2 * jobs.len()));
    for (line, op, form) in jobs {
        let Some(w) = ws.get(op.w) else { continue };
        if op.f != 0 {
            let (got, held) = w.sides[0].call(op, op.f, *form);
            quiet(|| out.push(Done { line: *line, got, held, hooks: 0 }));
        }
        let (got, held) = w.sides[0].call(op, 0, *form);
        let hooks = seam::callbacks();
        quiet(|| out.push(Done { line: *line, got, held, hooks }));
    }
    out
}

/// Run `body` in `n` simulated threads.
pub fn simulate<D>(n: usize, mode: &Mode, cap: u64, body: impl Fn(usize) -> D) -> Vec<D> {
    sched::setup(n, mode, cap);
    let body = &Across(body);
    let mut out: Vec<Across<Option<D>>> = (0..n).map(|_| Across(None)).collect();
    seam::own_threads(true);
    std::thread::scope(|sc| {
        for (k, slot) in out.iter_mut().enumerate() {
            sc.spawn(move || {
                let (body, slot) = (body, slot);
                sched::enter(k);
                let r = (body.0)(k);
                sched::leave(k);
                slot.0 = Some(r);
            });
            sched::arrived(k as u32 + 1);
        }
        seam::own_threads(false);
        sched::run();
    });
    sched::after();
    out.into_iter().map(|o| o.0.unwrap()).collect()
}

fn jobs(t: &Trace) -> Vec<Vec<(usize, Op, u64)>> {
    let n = t.lines.iter().map(|o| o.t).max().unwrap_or(0).clamp(1, sched::MAXT);
    let mut v: Vec<Vec<(usize, Op, u64)>> = vec![vec![]; n];
    for (i, op) in t.lines.iter().enumerate() {
        if op.t > 0 && op.t <= n {
            let (o, f) = call_of(op);
            v[op.t - 1].push((i, o, f));
        }
    }
    v
}

fn judge(w: &World<FpR>, op: &Op, d: &Done) -> Result<(), String> {
    let want = spec(&w.g, &w.sig, &w.model, op);
    w.compare(w.sides[0].kind(), &d.got, &want, op)?;
    if let (Some(h), R::Mv(l)) = (&d.held, &d.got) {
        if h.look() != *l {
            return Err(format!("the result of `{}` on {} changed after it was returned", op.text(), w.info.sig));
        }
    }
    Ok(())
}

fn profile(t: &Trace, line: Option<usize>) -> Result<(), String> {
    let p = rep();
    let i = line.unwrap();
    p.line_hooks[i] = 0;
    p.line_digest[i] = 0;
    p.line_steps[i] = 0;
    if t.lines[i].t == 0 {
        return Ok(());
    }
    let ws = make(t)?;
    let (mut op, form) = call_of(&t.lines[i]);
    op.f = 0;
    let Some(w) = ws.get(op.w) else { return Ok(()) };
    let job = [(i, op.clone(), form)];
    let out = simulate(1, &Mode::Plan(&[]), 2_000_000_000, |_| body(&ws, &job));
    let steps = sched::stats().0;
    let d = &out[0][0];
    judge(w, &op, d)?;
    p.line_hooks[i] = d.hooks as u32;
    p.line_digest[i] = w.digest(&d.got);
    p.line_steps[i] = steps;
    Ok(())
}

fn place(t: &mut Trace, pr: &Prof, r: &mut Rng) {
    if r.chance(1, 3) {
        super::faults::place(t, pr, r);
        for op in t.lines.iter_mut() {
            if op.t == 0 || r.chance(1, 2) {
                op.f = 0;
            }
        }
    }
    t.entropy = r.next();
    schedule(t, pr, r);
}

pub fn schedule(t: &mut Trace, pr: &Prof, r: &mut Rng) {
    let span: u64 = pr.steps.iter().sum::<u64>().max(2);
    t.set("cap", 50 * span + 20_000_000);
    let seed = r.next();
    let threads = t.lines.iter().map(|o| o.t).max().unwrap_or(0) as u64;
    let boost = *r.pick(&[0, 0, 1, 4, 8, 12]);
    let least = span / 300; // switching is what costs time
    t.mode = match r.below(8) {
        0..=3 => Mode::Sparse { seed, n: 1 + r.below(threads.max(6)), span, boost },
        4 => Mode::Random { seed, gap: least.max(3), boost },
        5 => Mode::Random { seed, gap: least.max(20), boost },
        6 => Mode::Random { seed, gap: least.max(200), boost },
        _ => Mode::Random { seed, gap: least.max(2_000), boost },
    };
}

fn run(t: &Trace, pr: &Prof) -> Result<(), String> {
    may_cross()?;
    let ws = make(t)?;
    let p = rep();
    let jobs = jobs(t);
    let out = simulate(jobs.len(), &t.mode, t.num("cap").max(30_000_000), |k| body(&ws, &jobs[k]));
    let (points, switches, sig, hits) = sched::stats();
    let mut h = sig;
    for d in out.iter().flatten() {
        let line = &t.lines[d.line];
        let (op, _) = call_of(line);
        let w = &ws[op.w];
        if line.f != 0 && d.hooks == 0 {
            match &d.got {
                R::Faulted => {
                    p.counters[0] += 1;
                    continue;
                }
                // ended before that callback, or the clean call without any
                R::Panicked(m) => return Err(format!("`{}` on {} panicked: {m}", op.text(), w.info.sig)),
                _ => {}
            }
        }
        judge(w, &op, d)?;
        let dg = w.digest(&d.got);
        if dg != pr.digest[d.line] {
            return Err(format!("`{}` on {} ({}) gives another answer beside other threads than alone: {}", line.text(), w.info.sig, w.sides[0].kind(), crate::world::brief_r(&d.got)));
        }
        h = comb(h, dg);
        p.counters[1] += 1;
    }
    for w in &ws {
        w.check_all().map_err(|e| format!("a shared operand changed: {e}"))?;
    }
    p.counters[2] += switches;
    p.counters[3] += hits;
    p.counters[4 + out.len().min(5)] += 1;
    p.steps = points;
    p.digest = h;
    p.nontrivial = (switches > out.len() as u64) as u32;
    Ok(())
}

/// Which traits the types have, asked at run time so that a type that lost one is reported, not a build error.
macro_rules! crosses {
    ($($t:ty),* $(,)?) => {{
        let mut v: Vec<(&str, bool, bool)> = vec![];
        $({
            struct Q<T>(std::marker::PhantomData<T>);
            trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
            impl<T> No for &Q<T> {}
            trait S { fn send(&self) -> bool; }
            impl<T: Send> S for Q<T> { fn send(&self) -> bool { true } }
            trait Y { fn sync(&self) -> bool; }
            impl<T: Sync> Y for Q<T> { fn sync(&self) -> bool { true } }
            let q = Q::<$t>(std::marker::PhantomData);
            v.push((stringify!($t), (&q).send(), (&q).sync()));
        })*
        v
    }};
}

fn may_cross() -> Result<(), String> {
    use crate::algs::*;
    use crate::coef::Coef;
    use num::complex::Complex64;
    use tclifford::quaternion::Quaternion;
    use tclifford::{FFTRepr, Multivector, SparseMultivector};
    let v = crosses!(
        Multivector<f64, P3>, Multivector<Coef, M8>, Multivector<Complex64, S4>, Multivector<Multivector<f64, P2>, G2>,
        SparseMultivector<f64, P3>, SparseMultivector<Coef, LX>, SparseMultivector<SparseMultivector<Coef, Z2>, ST>,
        Quaternion<f64>, FFTRepr<P3>, FFTRepr<M6>, FFTRepr<XA>, tclifford::ClError,
    );
    for (n, s, y) in v {
        if !s || !y {
            return Err(format!("{n} cannot be {} although its coefficients can", if !s { "sent to another thread" } else { "shared between threads" }));
        }
    }
    // must be told apart by the question itself
    let v = crosses!(std::rc::Rc<u8>, std::cell::Cell<u8>);
    if v[0].1 || v[0].2 || !v[1].1 || v[1].2 {
        return Err("the question about Send and Sync does not work".into());
    }
    Ok(())
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        gen,
        profile: Some(profile),
        per_line: true,
        per_thread: false,
        place,
        run,
        repeat: 12,
        threads: true,
        quick: 7_000,
        thorough: 100_000,
        rule: "a run counts if the scheduler switched threads more often than there are threads; two runs are the same if threads ran for the same numbers of points in the same order and all outcomes were the same",
        measure: "hash of the sequence of (points run, next thread) and of the outcomes of all calls",
        time_unit: "scheduling points (basic blocks, loads, stores and callbacks)",
        stubs: "kernel entropy and futex (own getrandom and syscall symbols), the order of threads, coefficient type, predicates and streams (caller code)",
        assumptions: &[
            "sequentially consistent memory: threads are preempted between, not within, memory accesses, and stores are seen in order",
            "code of the standard library itself runs without preemption except where it waits or calls back",
        ],
        counters: &[(1, "calls completed"), (2, "thread switches"), (3, "accesses to static memory"), (6, "runs with 2 threads"), (7, "runs with 3 threads"), (8, "runs with 4 threads"), (9, "runs with 5 to 40 threads")],
        faults: &[
            (2, "thread switches"), (0, "calls interrupted by a panic beside running threads"),
            (KIND0 + seam::ARITH, "panic in coefficient arithmetic"), (KIND0 + seam::CLONE, "panic in clone"),
            (KIND0 + seam::CONST, "panic in zero/one"), (KIND0 + seam::TEST, "panic in is_zero/=="),
            (KIND0 + seam::CONVERT, "panic in a conversion or norm"), (KIND0 + seam::FORMAT, "panic in coefficient formatting"),
            (KIND0 + seam::CLOSURE, "panic in a predicate or stream"),
        ],
    }
}

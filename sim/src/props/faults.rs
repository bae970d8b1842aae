//! C03, C04: calls cut short by a panic in caller code.
use super::*;
use crate::algs::{another, names};
use crate::gen::{program, GenW};
use crate::model::FpR;
use crate::world::{flat_world, World};
use simrt::prng::comb;
use simrt::shared::KIND0;
use simrt::{alloc, life, rep, seam};

const OPS: &[(&str, u32)] = &[
    ("indexed", 5), ("vector", 2), ("scalar", 1), ("basis", 3), ("one", 1), ("set", 4), ("get", 1), ("clone", 2),
    ("add", 5), ("sub", 5), ("mul", 8), ("nmul", 1), ("wedge", 10), ("nwedge", 1), ("meet", 10), ("nmeet", 1), ("neg", 2),
    ("smul", 2), ("sdiv", 2), ("revm", 2), ("rev", 2), ("flip", 2), ("flipsub", 2), ("dual", 2), ("undual", 2), ("pow", 3), ("grade", 2),
    ("gradeas", 3), ("gradesx", 2), ("filter", 5), ("mutfilter", 2), ("refilter", 1), ("reenter", 1), ("vsdot", 2), ("vdot", 2),
    ("mag2", 2), ("eq", 2), ("ne", 1), ("iszero", 1), ("approx", 2), ("xvec", 2), ("genum", 1), ("conv", 4),
    ("div", 4), ("conj", 1), ("cplx", 4), ("view", 1), ("show", 3), ("exp", 3),
    ("fftrt", 3), ("fftbits", 1), ("fftmul", 3), ("fftmulr", 2), ("fftadd", 1), ("fftsub", 1), ("fftneg", 1), ("fftpow", 1), ("fftrev", 1), ("fftflip", 1),
    ("fftexp", 1), ("fftmag", 1), ("fftinv", 2), ("fftscale", 1), ("fftcmp", 1), ("fftshow", 1), ("fftarr", 1), ("fftbasis", 1), ("clifft", 2), ("rfft", 3),
];

fn worlds(t: &mut Trace, r: &mut Rng, quat: bool) {
    let dense = names(|i| i.dense);
    let any = names(|_| true);
    for _ in 0..2 + r.us(3) {
        let k = r.below(8);
        let (a, w) = if k == 0 && quat {
            ("Q2", "Q")
        } else if k < 5 {
            (another(r, &t.worlds, &dense), "d")
        } else {
            (another(r, &t.worlds, &any), "s")
        };
        t.worlds.push((a.into(), w.into()));
    }
}

fn fill(t: &mut Trace, r: &mut Rng, max: usize, budget: usize) {
    let mut ws: Vec<GenW<FpR>> = t.worlds.iter().enumerate().map(|(i, (a, k))| GenW::new(r, i, a, k, FpR)).collect();
    let n = 6 + r.us(max);
    let table: Vec<(&str, u32)> = OPS.iter().map(|(n, w)| (*n, if r.chance(1, 3) { w * 4 } else { *w })).collect();
    t.lines = program(r, &mut ws, n, &table, budget);
}

fn gen03(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C03", r.next());
    worlds(&mut t, r, true);
    fill(&mut t, r, if tier == Tier::Quick { 24 } else { 48 }, 8_000);
    t
}
fn gen04(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C04", r.next());
    worlds(&mut t, r, false);
    fill(&mut t, r, if tier == Tier::Quick { 16 } else { 32 }, 4_000);
    t
}

fn profile(t: &Trace, _: Option<usize>) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<World<FpR>> = t.worlds.iter().map(|(a, k)| flat_world(a, k)).collect();
    let p = rep();
    for (i, op) in t.lines.iter().enumerate() {
        let Some(w) = ws.get_mut(op.w) else { continue };
        let (h, d) = w.step_faulted(op, &[], None)?;
        p.line_hooks[i] = h as u32;
        p.line_digest[i] = d;
    }
    Ok(())
}

/// Interrupt about half of the calls, at a callback drawn uniformly or near the ends.
pub fn place(t: &mut Trace, pr: &Prof, r: &mut Rng) {
    t.entropy = r.next();
    let dense = 1 + r.below(4);
    for (i, op) in t.lines.iter_mut().enumerate() {
        let n = pr.hooks[i] as u64;
        op.f = 0;
        if n > 0 && r.below(5) < dense {
            op.f = match r.below(4) {
                0 => 1 + r.below(n.min(3)),
                1 => n - r.below(n.min(3)),
                _ => 1 + r.below(n),
            };
        }
    }
}

fn run03(t: &Trace, pr: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<World<FpR>> = t.worlds.iter().map(|(a, k)| flat_world(a, k)).collect();
    let p = rep();
    let mut h = 0;
    for (i, op) in t.lines.iter().enumerate() {
        let Some(w) = ws.get_mut(op.w) else { continue };
        let one = [op.f];
        let faults: &[u64] = if op.f == 0 { &[] } else { &one };
        let before = p.counters[0];
        let (_, d) = w.step_faulted(op, faults, Some(pr.digest[i]))?;
        p.counters[2] += 1;
        if p.counters[0] > before {
            p.nontrivial = 1;
        }
        h = comb(comb(h, d), op.f);
        if i % 8 == 7 || i + 1 == t.lines.len() {
            for w in &ws {
                w.check_all()?;
            }
        }
    }
    p.steps = life::born();
    p.digest = h;
    Ok(())
}

const REPS: usize = 8;
const MOST: usize = 4_000;

/// Bounded growth (a cache filling up) is not a leak: memory must go on growing at the same pace.
fn leaks(mem: &[i64], win: usize) -> bool {
    let w: Vec<&[i64]> = mem[mem.len() - 3 * win..].chunks(win).collect();
    let grown = |w: &[i64]| w[win - 1] - w[0];
    w.iter().all(|w| grown(w) > 0) && 10 * grown(w[2]) >= 6 * grown(w[0]) && (0..2).all(|i| w[i].iter().max() <= w[i + 1].iter().min())
}

/// A list that is only ever added to grows in steps, each as large as all before: it has grown by more
/// in every next doubling of the number of repetitions.
fn leaks_in_steps(mem: &[i64]) -> bool {
    let at = |k: usize| mem[(mem.len() >> k) - 1];
    let grown: Vec<i64> = (0..5).map(|k| at(k) - at(k + 1)).collect();
    mem.len() >= 256 && grown[4] > 0 && grown.windows(2).all(|g| 2 * g[0] >= 3 * g[1])
}

fn run04(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let p = rep();
    let mut h = 0;
    // allocated before the first measurement
    let (mut bytes, mut blocks) = (Vec::with_capacity(MOST), Vec::with_capacity(MOST));
    let (mut reps, mut win) = (REPS, 0);
    let mut rep_no = 0;
    while rep_no < reps {
        {
            let mut ws: Vec<World<FpR>> = t.worlds.iter().map(|(a, k)| flat_world(a, k)).collect();
            for op in t.lines.iter() {
                let Some(w) = ws.get_mut(op.w) else { continue };
                let one = [op.f];
                let faults: &[u64] = if op.f == 0 { &[] } else { &one };
                let before = p.counters[0];
                let (_, d) = w.step_faulted(op, faults, None)?;
                p.counters[2] += 1;
                if p.counters[0] > before {
                    p.nontrivial = 1;
                }
                if rep_no == 0 {
                    h = comb(comb(h, d), op.f);
                }
            }
        }
        if life::live() != 0 {
            return Err(format!("{} coefficients were never released ({} created)", life::live(), life::born()));
        }
        let now = (alloc::bytes(), alloc::blocks());
        bytes.push(now.0);
        blocks.push(now.1);
        rep_no += 1;
        if rep_no == REPS && (bytes[REPS - 1] > bytes[1] || blocks[REPS - 1] > blocks[1]) {
            // something grew: look for longer
            win = (1_000_000 / (life::born() as usize / REPS).max(1)).clamp(8, 100);
            reps = REPS + 4 * win;
        }
        if rep_no == reps && win == 100 && leaks_in_steps(&bytes) {
            // in steps, but perhaps not for ever
            reps = (20_000_000 / (life::born() as usize / rep_no).max(1)).clamp(reps, MOST);
        }
    }
    p.counters[3] += reps as u64;
    if win > 0 {
        for (what, m) in [("bytes", &bytes), ("blocks", &blocks)] {
            if leaks(m, win) || leaks_in_steps(m) {
                return Err(format!("repeating the workload grows the process: {what} in use after each repetition {:?}", &m[m.len() - 8..]));
            }
        }
    }
    p.steps = life::born();
    p.digest = h;
    Ok(())
}

pub const FAULTS: &[(usize, &str)] = &[
    (0, "calls interrupted by a panic"), (1, "in-place filters interrupted by a panic"),
    (KIND0 + seam::ARITH, "panic in coefficient arithmetic"), (KIND0 + seam::CLONE, "panic in clone"),
    (KIND0 + seam::CONST, "panic in zero/one"), (KIND0 + seam::TEST, "panic in is_zero/=="),
    (KIND0 + seam::CONVERT, "panic in a conversion or norm"), (KIND0 + seam::FORMAT, "panic in coefficient formatting"),
    (KIND0 + seam::CLOSURE, "panic in a predicate or stream"),
];

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        gen: gen03,
        profile: Some(profile),
        per_line: false,
        per_thread: false,
        place,
        run: run03,
        repeat: 6,
        threads: false,
        quick: 20_000,
        thorough: 400_000,
        rule: "a run counts if at least one call was interrupted; two runs are the same if the same calls were interrupted at the same callbacks and all outcomes were the same",
        measure: "hash of the outcomes of all calls and of the callback index at which each was interrupted",
        time_unit: "coefficients created",
        stubs: "kernel entropy (own getrandom symbol), coefficient type, predicates and streams (caller code)",
        assumptions: &["interruption is by unwinding panic", "a second panic while unwinding is not injected", "programs of bounded length"],
        counters: &[(2, "calls completed after the interruption")],
        faults: FAULTS,
    }
}
pub fn c04() -> Prop {
    Prop {
        id: "C04",
        gen: gen04,
        run: run04,
        repeat: 3,
        quick: 10_000,
        thorough: 200_000,
        counters: &[(2, "calls completed"), (3, "workload repetitions measured")],
        ..c03()
    }
}

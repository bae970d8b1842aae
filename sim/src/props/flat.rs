//! C01, C02: programs on exact coefficients, compared with the model after every line.
use super::*;
use crate::algs::{another, names};
use crate::gen::{program, GenW};
use crate::model::FpR;
use crate::world::{flat_world, World, R};
use simrt::prng::comb;
use simrt::{rep, seam};

const SPARSE: &[(&str, u32)] = &[
    ("indexed", 6), ("vector", 2), ("scalar", 1), ("basis", 2), ("zero", 1), ("one", 1), ("set", 6), ("get", 2), ("clone", 2),
    ("add", 10), ("sub", 10), ("mul", 14), ("nmul", 1), ("wedge", 7), ("nwedge", 1), ("meet", 6), ("nmeet", 1), ("neg", 3),
    ("smul", 3), ("sdiv", 2), ("revm", 2), ("rev", 3), ("flip", 3), ("flipsub", 3), ("dual", 3), ("undual", 3), ("pow", 5), ("grade", 3),
    ("gradeas", 2), ("gradesx", 3), ("filter", 3), ("mutfilter", 3), ("refilter", 1), ("reenter", 1), ("vsdot", 3), ("vdot", 3),
    ("mag2", 3), ("eq", 4), ("ne", 2), ("iszero", 2), ("approx", 2), ("count", 2), ("xvec", 2), ("enum", 1), ("genum", 2), ("conv", 3),
    ("div", 2), ("cplx", 2), ("scalarpart", 1),
];
const ALL: &[(&str, u32)] = &[
    ("indexed", 6), ("vector", 2), ("scalar", 1), ("basis", 2), ("zero", 1), ("default", 1), ("one", 1), ("set", 8), ("get", 4), ("clone", 2),
    ("add", 8), ("sub", 8), ("mul", 12), ("nmul", 2), ("wedge", 8), ("nwedge", 2), ("meet", 8), ("nmeet", 2), ("neg", 3),
    ("smul", 3), ("sdiv", 3), ("revm", 2), ("rev", 4), ("flip", 4), ("flipsub", 4), ("dual", 4), ("undual", 4), ("pow", 5), ("grade", 4),
    ("gradeas", 3), ("gradesx", 3), ("filter", 4), ("mutfilter", 1), ("refilter", 1), ("reenter", 1), ("vsdot", 3), ("vdot", 3),
    ("mag2", 3), ("eq", 3), ("ne", 2), ("iszero", 2), ("approx", 2), ("count", 1), ("xvec", 2), ("enum", 1), ("genum", 2), ("conv", 5),
    ("div", 8), ("conj", 2), ("cplx", 3), ("view", 1), ("scalarpart", 1), ("signature", 1),
];

const STUBS: &str = "kernel entropy (own getrandom symbol), coefficient type (prime field, caller code)";

fn gen01(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C01", r.next());
    let pool = names(|_| true);
    let n = 1 + r.us(2);
    for _ in 0..n {
        // large algebras matter most for this storage
        let a = if r.chance(1, 3) { *r.pick(&["LD", "LS", "LK", "LG", "LT", "LQ", "LX"]) } else { another(r, &t.worlds, &pool) };
        t.worlds.push((a.into(), "s".into()));
    }
    finish(&mut t, r, SPARSE, if tier == Tier::Quick { 24 } else { 48 });
    t
}

fn gen02(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C02", r.next());
    let pool = names(|i| i.dense);
    let n = 1 + r.us(3);
    for _ in 0..n {
        let a = another(r, &t.worlds, &pool);
        if a == "Q2" || r.chance(1, 6) {
            t.worlds.push(("Q2".into(), "dsq".into()));
        } else if r.chance(1, 1500) {
            t.worlds.push(("XH".into(), "ds".into()));
        } else {
            t.worlds.push((a.into(), "ds".into()));
        }
    }
    finish(&mut t, r, ALL, if tier == Tier::Quick { 28 } else { 56 });
    t
}

fn finish(t: &mut Trace, r: &mut Rng, table: &[(&str, u32)], max: usize) {
    let mut ws: Vec<GenW<FpR>> = t.worlds.iter().enumerate().map(|(i, (a, k))| GenW::new(r, i, a, k, FpR)).collect();
    let n = 6 + r.us(max - 5);
    // each program favours some operations
    let table: Vec<(&str, u32)> = table.iter().map(|(n, w)| (*n, if r.chance(1, 3) { w * 4 } else { *w })).collect();
    t.lines = program(r, &mut ws, n, &table, 20_000);
}

pub fn run(t: &Trace, _: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<World<FpR>> = t.worlds.iter().map(|(a, k)| flat_world(a, k)).collect();
    let p = rep();
    let mut h = 0;
    for op in &t.lines {
        let Some(w) = ws.get_mut(op.w) else { continue };
        let n = w.model.len();
        let (la, lb) = (w.model[op.a % n].len(), w.model[op.b % n].len());
        let outs = w.step(op)?;
        p.counters[0] += outs.len() as u64;
        if let Some(R::Mv(l)) = outs.first() {
            let combined = matches!(op.name.as_str(), "add" | "sub" | "mul" | "wedge" | "meet" | "nmul" | "nwedge" | "nmeet" | "pow");
            if combined && la >= 2 && lb >= 2 {
                p.nontrivial = 1;
                p.counters[1] += 1;
                if l.iter().filter(|x| x.1 != 0).count() < la.max(lb) {
                    p.counters[2] += 1;
                }
            }
        }
        h = comb(h, w.order());
        p.counters[3] += w.sides.len() as u64;
    }
    for w in &ws {
        w.check_all()?;
        for m in &w.model {
            for (i, v) in m {
                h = comb(comb(h, *i as u64), *v);
            }
        }
    }
    p.counters[4] += seam::entropy_calls();
    p.steps = simrt::life::born();
    p.digest = h;
    Ok(())
}

const COUNTERS: &[(usize, &str)] = &[
    (0, "calls"), (1, "sums and products combining at least two terms on each side"), (2, "of those, with terms cancelling"),
    (3, "register comparisons with the model"), (4, "hash keys drawn from simulated entropy"),
];

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        gen: gen01,
        profile: None,
        per_line: false,
        per_thread: false,
        place: rehash,
        run,
        repeat: 3,
        threads: false,
        quick: 120_000,
        thorough: 300_000,
        rule: "a run counts if a sum or product combined two values of at least two terms each; two runs are the same if all registers were enumerated in the same order after every line and ended with the same values",
        measure: "hash of the enumeration order of every sparse register after every line, and of the final values",
        time_unit: "coefficients created",
        stubs: STUBS,
        assumptions: &["coefficients are an exact commutative field", "at most 63 generators", "programs of bounded length and term count"],
        counters: COUNTERS,
        faults: &[(4, "hash keys replaced (enumeration order)")],
    }
}
pub fn c02() -> Prop {
    Prop {
        id: "C02",
        gen: gen02,
        repeat: 2,
        quick: 70_000,
        thorough: 250_000,
        assumptions: &["coefficients are an exact commutative field", "1 to 12 and 17 generators", "programs of bounded length and term count"],
        ..c01()
    }
}

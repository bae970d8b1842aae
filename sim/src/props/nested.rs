//! C09: coefficients that are multivectors themselves.
use super::faults::{place, FAULTS};
use super::*;
use crate::algs::info;
use crate::coef::{Coef, Quat};
use crate::gen::{program, GenW};
use crate::model::{NestR, M};
use crate::ops::Mv;
use crate::world::{Side, SideT, World, NREG};
use simrt::prng::comb;
use simrt::{life, rep, seam};
use tclifford::quaternion::Quaternion;
use tclifford::{Multivector, SparseMultivector};

type Key = Vec<(usize, u64)>;

const OPS: &[(&str, u32)] = &[
    ("indexed", 5), ("vector", 2), ("scalar", 2), ("basis", 1), ("one", 1), ("zero", 1), ("set", 3), ("get", 1), ("clone", 1),
    ("add", 8), ("sub", 8), ("mul", 16), ("nmul", 2), ("wedge", 12), ("nwedge", 2), ("meet", 8), ("nmeet", 2), ("neg", 3),
    ("smul", 8), ("rev", 4), ("flip", 3), ("flipsub", 2), ("dual", 4), ("undual", 4), ("pow", 3), ("grade", 2),
    ("gradeas", 1), ("gradesx", 1), ("filter", 2), ("mutfilter", 1), ("refilter", 1), ("reenter", 1), ("vsdot", 6), ("vdot", 6), ("mag2", 4),
    ("eq", 3), ("ne", 1), ("iszero", 1), ("count", 1), ("xvec", 1), ("enum", 1), ("genum", 1), ("conv", 2), ("conj", 1), ("scalarpart", 1),
];

/// Kind: outer storage, inner storage, inner algebra.
fn world(outer: &str, kind: &str) -> World<NestR> {
    let mut k = kind.split(',');
    let (o, i, inner) = (k.next().unwrap_or(""), k.next().unwrap_or(""), k.next().unwrap_or(""));
    use crate::algs::*;
    fn side<X: Mv>() -> Box<dyn SideT<Key>>
    where
        X::C: crate::coef::CoefT<K = Key>,
    {
        Box::new(Side::<X>::new(X::core))
    }
    macro_rules! outer {
        ($T:ident, $C:ty, $($n:ident)*) => {
            match outer { $(stringify!($n) => side::<$T<$C, $n>>(),)* _ => panic!("algebra {outer}") }
        };
    }
    let s = match (o, i, inner) {
        ("d", "d", "Q2") => outer!(Multivector, Multivector<Coef, Q2>, Z1 G2 C5 M6),
        ("d", "s", "Q2") => outer!(Multivector, SparseMultivector<Coef, Q2>, Z1 G2 C5 M6),
        ("d", "d", "G2") => outer!(Multivector, Multivector<Coef, G2>, Z1 G2 C5 M6),
        ("d", "s", "G2") => outer!(Multivector, SparseMultivector<Coef, G2>, Z1 G2 C5 M6),
        ("d", "s", "LQ") => outer!(Multivector, SparseMultivector<Coef, LQ>, G2),
        ("d", "q", _) => outer!(Multivector, Quat, Z1 G2 C5 M6),
        ("s", "d", "Q2") => outer!(SparseMultivector, Multivector<Coef, Q2>, Z1 G2 C5 M6 LX),
        ("s", "s", "Q2") => outer!(SparseMultivector, SparseMultivector<Coef, Q2>, Z1 G2 C5 M6 LX),
        ("s", "d", "G2") => outer!(SparseMultivector, Multivector<Coef, G2>, Z1 G2 C5 M6 LX),
        ("s", "s", "G2") => outer!(SparseMultivector, SparseMultivector<Coef, G2>, Z1 G2 C5 M6 LX),
        ("s", "s", "LQ") => outer!(SparseMultivector, SparseMultivector<Coef, LQ>, G2),
        ("s", "q", _) => outer!(SparseMultivector, Quat, Z1 G2 C5 M6 LX),
        _ => side::<Quaternion<Quat>>(),
    };
    World { info: info(outer), sig: info(outer).sig(), g: NestR(info(inner).sig()), sides: vec![s], model: vec![M::new(); NREG] }
}

fn gen(r: &mut Rng, tier: Tier) -> Trace {
    let mut t = Trace::new("C09", r.next());
    for _ in 0..1 + r.us(3) {
        let (a, o, i, b) = match r.below(12) {
            0 => ("Q2", "q", "q", "Q2"),
            1 => ("G2", *r.pick(&["d", "s"]), "s", "LQ"),
            2 => ("LX", "s", *r.pick(&["d", "s"]), *r.pick(&["Q2", "G2"])),
            3 => (*r.pick(&["Z1", "G2", "C5", "M6"]), *r.pick(&["d", "s"]), "q", "Q2"),
            _ => (*r.pick(&["Z1", "G2", "C5", "M6"]), *r.pick(&["d", "s"]), *r.pick(&["d", "s"]), *r.pick(&["Q2", "G2"])),
        };
        t.worlds.push((a.into(), format!("{o},{i},{b}")));
    }
    let mut ws: Vec<GenW<NestR>> = t
        .worlds
        .iter()
        .enumerate()
        .map(|(i, (a, k))| GenW::new(r, i, a, &k[..1], NestR(info(k.rsplit(',').next().unwrap()).sig())))
        .collect();
    let n = 6 + r.us(if tier == Tier::Quick { 16 } else { 32 });
    let table: Vec<(&str, u32)> = OPS.iter().map(|(n, w)| (*n, if r.chance(1, 3) { w * 4 } else { *w })).collect();
    t.lines = program(r, &mut ws, n, &table, 1500);
    t
}

fn profile(t: &Trace, _: Option<usize>) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<World<NestR>> = t.worlds.iter().map(|(a, k)| world(a, k)).collect();
    let p = rep();
    for (i, op) in t.lines.iter().enumerate() {
        let Some(w) = ws.get_mut(op.w) else { continue };
        let (h, d) = w.step_faulted(op, &[], None)?;
        p.line_hooks[i] = h as u32;
        p.line_digest[i] = d;
    }
    Ok(())
}

fn run(t: &Trace, pr: &Prof) -> Result<(), String> {
    seam::set_solo(true);
    let mut ws: Vec<World<NestR>> = t.worlds.iter().map(|(a, k)| world(a, k)).collect();
    let p = rep();
    let mut h = 0;
    for (i, op) in t.lines.iter().enumerate() {
        let Some(w) = ws.get_mut(op.w) else { continue };
        let one = [op.f];
        let faults: &[u64] = if op.f == 0 { &[] } else { &one };
        let (a, b) = (&w.model[op.a % NREG], &w.model[op.b % NREG]);
        let deep = |m: &M<Key>| m.len() >= 2 && m.values().any(|v| v.iter().any(|x| x.0 != 0));
        if matches!(op.name.as_str(), "mul" | "nmul" | "wedge" | "nwedge" | "meet" | "nmeet" | "vsdot" | "vdot" | "reenter") && deep(a) && deep(b) {
            p.nontrivial = 1;
            p.counters[3] += 1;
        }
        let (_, d) = w.step_faulted(op, faults, Some(pr.digest[i]))?;
        p.counters[2] += 1;
        h = comb(comb(comb(h, d), op.f), w.order());
        if i % 8 == 7 || i + 1 == t.lines.len() {
            for w in &ws {
                w.check_all()?;
            }
        }
    }
    p.counters[4] += seam::entropy_calls();
    p.steps = life::born();
    p.digest = h;
    Ok(())
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        gen,
        profile: Some(profile),
        per_line: false,
        per_thread: false,
        place,
        run,
        repeat: 4,
        threads: false,
        quick: 20_000,
        thorough: 400_000,
        rule: "a run counts if two values of at least two terms, with non-scalar inner terms, were multiplied; two runs are the same if registers were enumerated in the same order, the same calls interrupted at the same callbacks, and all outcomes the same",
        measure: "hash of outcomes, callback indices of interruptions and outer enumeration orders",
        time_unit: "coefficients created",
        stubs: "kernel entropy (own getrandom symbol), innermost coefficient type, predicates and streams (caller code)",
        assumptions: &["innermost coefficients are an exact commutative field", "two levels", "programs of bounded length"],
        counters: &[(2, "calls completed"), (3, "products of nested values"), (4, "hash keys drawn from simulated entropy")],
        faults: FAULTS,
    }
}

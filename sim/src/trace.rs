//! A run, as text: everything that is decided about it.
use crate::ops::Op;
use simrt::sched::Mode;
use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub struct Trace {
    pub prop: String,
    /// seed of the simulated kernel entropy
    pub entropy: u64,
    /// algebra and storages of every world
    pub worlds: Vec<(String, String)>,
    /// further settings
    pub kv: BTreeMap<String, String>,
    pub lines: Vec<Op>,
    pub mode: Mode,
}

impl Trace {
    pub fn new(prop: &str, entropy: u64) -> Trace {
        Trace { prop: prop.into(), entropy, worlds: vec![], kv: BTreeMap::new(), lines: vec![], mode: Mode::Plan(&[]) }
    }
    pub fn num(&self, k: &str) -> u64 {
        self.kv.get(k).and_then(|v| v.parse().ok()).unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: impl ToString) {
        self.kv.insert(k.into(), v.to_string());
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "property {}", self.prop);
        let _ = writeln!(s, "entropy {}", self.entropy);
        for (a, w) in &self.worlds {
            let _ = writeln!(s, "world {a} {w}");
        }
        for (k, v) in &self.kv {
            let _ = writeln!(s, "set {k} {v}");
        }
        for l in &self.lines {
            let _ = writeln!(s, "line {}", l.text());
        }
        match &self.mode {
            Mode::Random { seed, gap, boost } => {
                let _ = writeln!(s, "mode random {seed} {gap} {boost}");
            }
            Mode::Sparse { seed, n, span, boost } => {
                let _ = writeln!(s, "mode sparse {seed} {n} {span} {boost}");
            }
            Mode::Plan(p) => {
                for (a, b) in p.iter() {
                    let _ = writeln!(s, "switch {a} {b}");
                }
            }
        }
        s
    }
    pub fn parse(t: &str) -> Trace {
        let mut r = Trace::new("", 0);
        let mut plan = vec![];
        let mut mode = None;
        for l in t.lines() {
            let f: Vec<&str> = l.split_whitespace().collect();
            let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f.first().copied() {
                Some("property") => r.prop = f[1].into(),
                Some("entropy") => r.entropy = n(1),
                Some("world") => r.worlds.push((f[1].into(), f.get(2).unwrap_or(&"").to_string())),
                Some("set") => {
                    r.kv.insert(f[1].into(), f.get(2).unwrap_or(&"").to_string());
                }
                Some("line") => r.lines.push(Op::parse(&l[5..])),
                Some("mode") if f[1] == "random" => mode = Some(Mode::Random { seed: n(2), gap: n(3), boost: n(4) }),
                Some("mode") => mode = Some(Mode::Sparse { seed: n(2), n: n(3), span: n(4), boost: n(5) }),
                Some("switch") => plan.push((n(1), n(2) as u32)),
                _ => {}
            }
        }
        r.mode = mode.unwrap_or(Mode::Plan(plan.leak()));
        r
    }
}

/// What the lines do without faults, each as the profile of the property defines.
#[derive(Clone, Debug, Default)]
pub struct Prof {
    pub hooks: Vec<u32>,
    pub digest: Vec<u64>,
    pub steps: Vec<u64>,
}

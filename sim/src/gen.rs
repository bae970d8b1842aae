//! Seeded programs over the operations of multivectors.
use crate::algs::{info, Info};
use crate::model::{Sig, M};
use crate::ops::Op;
use crate::world::{cost, spec, Ring0, NREG, R};
use simrt::Rng;

pub struct GenW<G: Ring0> {
    pub w: usize,
    pub info: &'static Info,
    pub sig: Sig,
    pub g: G,
    pub dense: bool,
    pub model: Vec<M<G::V>>,
    /// generators the program prefers
    pub active: Vec<usize>,
    pub style: u64,
    /// holds values of many terms
    pub large: bool,
    /// holds values of very many terms
    pub huge: bool,
}

impl<G: Ring0> GenW<G> {
    pub fn new(rng: &mut Rng, w: usize, name: &str, which: &str, g: G) -> Self {
        let inf = info(name);
        let sig = inf.sig();
        let n = sig.dim;
        let mut active: Vec<usize> = (0..n).collect();
        let large = n >= 8 && rng.chance(1, 100);
        let huge = large && n >= 13 && rng.chance(1, 15);
        while active.len() > if huge { 16 } else if large { 11 } else { 6 } {
            let i = rng.us(active.len());
            // the ends are the interesting ones
            if active.len() < n && (active[i] == n - 1 || active[i] == 0) && rng.chance(3, 4) {
                continue;
            }
            active.remove(i);
        }
        GenW { w, info: inf, dense: inf.dense && which.contains(['d', 'q']), sig, g, model: vec![M::new(); NREG], active, style: rng.below(4), large, huge }
    }

    pub fn idx(&self, r: &mut Rng) -> usize {
        let n = self.sig.dim;
        if n <= 6 {
            return r.us(1 << n);
        }
        match r.below(16) {
            0 => r.next() as usize & self.sig.full(),
            1 => 1usize << r.us(n),
            2 => self.sig.full() ^ (1usize << r.us(n)),
            3 => self.sig.full(),
            _ => {
                let mut i = 0;
                for g in &self.active {
                    if r.chance(1, 2) {
                        i |= 1usize << g;
                    }
                }
                i
            }
        }
    }

    pub fn coef(&self, r: &mut Rng) -> i64 {
        match r.below(if self.style == 0 { 5 } else { 20 }) {
            0..=2 => 1,
            3..=7 => -1,
            8..=11 => r.range(0, 6) as i64 - 3,
            12..=15 => r.range(0, 200) as i64 - 100,
            _ => (r.next() >> 3) as i64 - (1 << 60),
        }
    }

    pub fn terms(&self, r: &mut Rng) -> usize {
        let full = if self.sig.dim <= 6 { 1 << self.sig.dim } else { 64 };
        if self.huge && r.chance(1, 3) {
            return 5000 + r.us(60000);
        }
        if self.large && r.chance(1, 3) {
            return 100 + r.us(1 << self.sig.dim.min(11));
        }
        match r.below(10) {
            0 => r.us(2),
            1..=5 => 1 + r.us(full.min(5)),
            6..=8 => 1 + r.us(full.min(12)),
            _ => 1 + r.us(full),
        }
    }

    pub fn load(&self, r: &mut Rng, d: usize) -> Op {
        let mut op = Op::new(self.w, "indexed");
        op.d = d;
        op.k = r.below(2);
        for _ in 0..self.terms(r) {
            op.l.push((self.idx(r), self.coef(r)));
        }
        op
    }

    /// One line; None if it would be too expensive.
    pub fn line(&mut self, r: &mut Rng, table: &[(&str, u32)], budget: usize) -> Option<Op> {
        let w: Vec<u32> = table.iter().map(|x| x.1).collect();
        let name = table[r.weighted(&w)].0;
        let n = self.sig.dim;
        let mut op = Op::new(self.w, name);
        // operands with content, results preferably where little is lost
        let len = |i: usize| self.model[i].len();
        let rich = |r: &mut Rng| {
            let (x, y) = (r.us(NREG), r.us(NREG));
            if len(x) >= 2 || len(y) < 2 { x } else { y }
        };
        op.a = rich(r);
        op.b = if r.chance(1, 6) { op.a } else { rich(r) };
        op.d = r.us(NREG);
        if r.chance(1, 2) {
            op.d = (0..NREG).min_by_key(|i| len(*i)).unwrap();
        }
        op.k = r.below(4);
        match name {
            "indexed" => {
                op = self.load(r, op.d);
                if r.chance(1, 12) {
                    // out of range
                    let at = r.us(op.l.len() + 1);
                    let far = self.sig.size() + r.us(1 << 20);
                    let i = *r.pick(&[self.sig.size(), self.sig.size() + 1, usize::MAX, far]);
                    op.l.insert(at, (i, 1));
                }
            }
            "vector" => {
                op.k = r.below(2);
                let m = if r.chance(1, 8) { r.us(n + 3) } else { n };
                op.l = (0..m).map(|_| (0, self.coef(r))).collect();
            }
            "scalar" | "smul" | "sdiv" => op.l = vec![(0, if r.chance(1, 8) { 0 } else { self.coef(r) })],
            "set" | "get" => {
                let v = if r.chance(1, 4) { 0 } else { self.coef(r) };
                let i = match r.below(6) {
                    0 => *r.pick(&[self.sig.size(), self.sig.size() + 1, usize::MAX, self.sig.size() - 1]),
                    // an index that is in use
                    1 | 2 => {
                        let m = &self.model[op.a];
                        if m.is_empty() { self.idx(r) } else { *m.keys().nth(r.us(m.len())).unwrap() }
                    }
                    _ => self.idx(r),
                };
                op.l = vec![(i, v)];
            }
            "basis" => op.k = r.below(n as u64),
            "grade" | "gradeas" | "genum" => {
                op.k = if r.chance(1, 10) {
                    let g = r.below(n as u64 + 1);
                    *r.pick(&[n as u64 + 1, 64, 1 << 32, (1 << 32) + g, 1 << 63, u64::MAX, (n + 2) as u64])
                } else {
                    r.below(n as u64 + 1)
                }
            }
            "gradesx" => op.x = (0..r.below(4)).map(|_| r.below(n as u64 + 2)).collect(),
            "flipsub" => op.k = if r.chance(1, 4) { r.next() } else { r.next() & self.sig.full() as u64 },
            "filter" | "mutfilter" => op.k = r.next() >> 20,
            "pow" => {
                op.k = match r.below(20) {
                    0..=12 => r.below(10),
                    13..=15 => 10 + r.below(60),
                    16 => 1 << r.below(64),
                    17 => (1 << (1 + r.below(63))) - 1,
                    18 => (1 << 32) + r.below(3),
                    _ => r.next(),
                }
            }
            "approx" => op.k = r.below(7),
            "show" => op.k = r.below(8),
            _ => {}
        }
        if cost(&self.sig, &self.model, &op, self.dense) > budget {
            return None;
        }
        if let R::Mv(l) = spec(&self.g, &self.sig, &self.model, &op) {
            if l.len() > if self.huge { 70000 } else if self.large { 3000 } else { 600 } {
                return None;
            }
            self.model[op.d] = l.into_iter().collect();
        } else if matches!(name, "pow") {
            return None;
        }
        Some(op)
    }
}

/// A program over several worlds: loads, then a seeded mix of lines.
pub fn program<G: Ring0>(r: &mut Rng, ws: &mut [GenW<G>], n: usize, table: &[(&str, u32)], budget: usize) -> Vec<Op> {
    let mut lines = vec![];
    for w in ws.iter_mut() {
        for d in 0..1 + r.us(NREG) {
            let op = w.load(r, d);
            if let R::Mv(l) = spec(&w.g, &w.sig, &w.model, &op) {
                w.model[d] = l.into_iter().collect();
            }
            lines.push(op);
        }
    }
    let budget = if ws.iter().any(|w| w.info.big) { 1_500_000 } else if ws.iter().any(|w| w.huge) { 600_000 } else if r.chance(1, 60) { 30 * budget } else { budget };
    let mut spent = 0;
    let mut tries = 0;
    let mut k = 0;
    while k < n && tries < 8 * n {
        tries += 1;
        let i = r.us(ws.len());
        if let Some(op) = ws[i].line(r, table, budget.saturating_sub(spent / 2)) {
            spent += cost(&ws[i].sig, &ws[i].model, &op, ws[i].dense).min(budget);
            lines.push(op);
            k += 1;
        }
    }
    lines
}

//! Zygote, workers, search, minimisation, replay, evidence.
use crate::props::{Prop, Tier};
use crate::trace::{Prof, Trace};
use simrt::sched::Mode;
use simrt::shared::{self, NCOUNT};
use simrt::{alloc, seam, sys, Rng, Shared};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Instant;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Held,
    Violated(String),
    Inconclusive(String),
}

pub struct Limits {
    pub cpu: i64,
    pub wall: i64,
}
pub const FULL: Limits = Limits { cpu: 20, wall: 150 };

fn signal_name(s: i32) -> &'static str {
    match s {
        4 => "illegal instruction",
        6 => "abort",
        7 => "bus error",
        8 => "arithmetic trap",
        11 => "segmentation fault or stack overflow",
        14 => "wall clock limit: a call does not return",
        27 => "CPU limit: a call does not finish",
        _ => "signal",
    }
}

/// Run `f` in a process of its own, forked from here.
pub fn in_child(page: *mut Shared, entropy: u64, lim: &Limits, f: impl FnOnce() -> Result<(), String>) -> End {
    unsafe {
        (*page).reset();
        let pid = sys::fork();
        if pid < 0 {
            return End::Inconclusive("fork failed".into());
        }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            shared::install(page);
            seam::seed_entropy(entropy);
            sys::setitimer(2, &[0, 0, lim.cpu, 0], std::ptr::null_mut());
            sys::setitimer(0, &[0, 0, lim.wall, 0], std::ptr::null_mut());
            // address space: the reserved arenas plus 6 GB
            alloc::activate();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let p = &mut *page;
            match r {
                Ok(Ok(())) => p.status = 1,
                Ok(Err(m)) => {
                    p.set_msg(&m);
                    p.status = 2;
                }
                Err(_) => {
                    p.set_msg(&format!("panicked: {}", crate::world::last_panic()));
                    p.status = 2;
                }
            }
            sys::_exit(0);
        }
        let mut st = 0;
        while sys::waitpid(pid, &mut st, 0) < 0 {
            if *sys::__errno_location() != 4 {
                return End::Inconclusive("waitpid failed".into());
            }
        }
        let p = &*page;
        let sig = st & 0x7f;
        if sig == 9 {
            return End::Inconclusive("killed from outside".into());
        }
        if p.foreign != 0 && (sig != 0 || p.status != 1) {
            return End::Inconclusive("threads the scheduler does not control".into());
        }
        if p.adopted != 0 && (sig == 14 || sig == 27) {
            // without instrumentation a thread that spins is not preempted
            return End::Inconclusive("a thread of the code under test kept the processor".into());
        }
        if p.laps != 0 && sig == 27 {
            return End::Inconclusive("too many executions in one process".into());
        }
        if sig != 0 {
            return End::Violated(format!("the process died: {}", signal_name(sig)));
        }
        match p.status {
            1 => End::Held,
            2 => End::Violated(p.msg()),
            3 => End::Inconclusive(p.msg()),
            _ => End::Violated("the process ended by itself".into()),
        }
    }
}

/// Profile of a trace in pristine processes.
pub fn profile(prop: &Prop, t: &Trace, page: *mut Shared) -> Result<Prof, End> {
    let mut pr = Prof::default();
    let Some(pf) = prop.profile else { return Ok(pr) };
    let n = t.lines.len();
    if n > shared::MAXLINES {
        return Err(End::Inconclusive("too many lines".into()));
    }
    let read = |pr: &mut Prof, i: usize| unsafe {
        pr.hooks.push((&(*page).line_hooks)[i]);
        pr.digest.push((&(*page).line_digest)[i]);
        pr.steps.push((&(*page).line_steps)[i]);
    };
    if prop.per_line {
        for i in 0..n {
            // the lines of a thread are profiled together
            if prop.per_thread && t.lines[..i].iter().any(|o| o.t == t.lines[i].t) {
                read(&mut pr, i);
                continue;
            }
            match in_child(page, t.entropy ^ 0x1501a7ed ^ (i as u64) << 32, &FULL, || pf(t, Some(i))) {
                End::Held => {}
                End::Violated(m) => return Err(End::Violated(format!("alone in a fresh process, `{}`: {m}", t.lines[i].text()))),
                e => return Err(e),
            }
            read(&mut pr, i);
        }
    } else {
        match in_child(page, t.entropy ^ 0x1501a7ed, &FULL, || pf(t, None)) {
            End::Held => {}
            End::Violated(m) => return Err(End::Violated(format!("without faults: {m}"))),
            e => return Err(e),
        }
        (0..n).for_each(|i| read(&mut pr, i));
    }
    Ok(pr)
}

/// Execute a complete trace.
pub fn execute(prop: &Prop, t: &Trace, page: *mut Shared, lim: &Limits) -> End {
    let pr = match profile(prop, t, page) {
        Ok(p) => p,
        Err(e) => return e,
    };
    in_child(page, t.entropy, lim, || run_laps(prop, t, &pr))
}

/// Some traces are executed many times in one process: what the library remembers between calls only
/// shows after many of them. Only the last lap of simulated threads is scheduled.
fn run_laps(prop: &Prop, t: &Trace, pr: &Prof) -> Result<(), String> {
    let mut left = t.num("laps");
    if left > 1 {
        let mut c = t.clone();
        c.mode = Mode::Plan(&[]);
        let p = shared::rep();
        let (mut steps, mut lap) = (0, 0u64);
        let work = simrt::alloc::work();
        while left > 1 {
            (prop.run)(&c, pr).map_err(|e| format!("{e} (execution {} in this process)", lap + 1))?;
            lap += 1;
            p.laps = lap as u32;
            if lap == 1 {
                steps = p.steps;
                let (all, least) = if prop.threads { (40_000_000, 40_000) } else { (20_000_000, 2_000) };
                left = left.min(1 + all / (steps + simrt::alloc::work() - work).max(least));
            }
            left -= 1;
        }
        let end = (prop.run)(t, pr).map_err(|e| format!("{e} (execution {} in this process)", lap + 1));
        p.steps = steps * (lap + 1);
        return end;
    }
    (prop.run)(t, pr)
}

pub fn run_rng(seed: u64, prop: &Prop, run: u64, what: u64) -> Rng {
    let id = prop.id.bytes().fold(0u64, |h, b| h * 31 + b as u64);
    Rng::derive(seed, id << 40 | what << 36, run)
}

/// The trace of one run: workload from the seed, then faults and schedule once the profile is known.
pub fn make(prop: &Prop, seed: u64, tier: Tier, run: u64, page: *mut Shared, sub: u64, cached: &mut Option<(u64, Trace, Prof)>) -> Result<(Trace, Prof), (Trace, End)> {
    let hit = matches!(cached, Some((r, ..)) if *r == run);
    if !hit {
        let mut rng = run_rng(seed, prop, run, 0);
        let t = (prop.gen)(&mut rng, tier);
        match profile(prop, &t, page) {
            Ok(p) => *cached = Some((run, t, p)),
            Err(e) => return Err((t, e)),
        }
    }
    let (_, t, p) = cached.as_ref().unwrap();
    let mut t = t.clone();
    let mut rng = run_rng(seed, prop, run, 1 + sub);
    (prop.place)(&mut t, p, &mut rng);
    let every = (prop.quick / 96).max(1);
    if sub == 0 && run % every == every / 2 {
        t.set("laps", 4u64 << rng.below(13));
    }
    Ok((t, p.clone()))
}

const MAXSIG: usize = 1 << 20;
#[repr(C)]
struct WorkerOut {
    runs: u64,
    workloads: u64,
    nontrivial: u64,
    inconclusive: u64,
    known: u64,
    steps: u64,
    counters: [u64; NCOUNT],
    fail: u64, // run + 1
    fail_sub: u64,
    nsig: u64,
    incon_len: u64,
    incon: [u8; 256],
    sig: [u64; MAXSIG],
}

pub struct Known {
    pub pat: String,
    pub text: String,
}
fn known_findings(id: &str) -> Vec<Known> {
    let p = std::path::Path::new("/verif/known-findings.txt");
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={id} ")) {
                if let Some((pat, text)) = r.split_once(" | ") {
                    v.push(Known { pat: pat.trim().into(), text: text.trim().into() });
                }
            }
        }
    }
    v
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(prop: &Prop, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let cpus = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let envn = |k: &str| std::env::var(k).ok().and_then(|v| v.parse::<u64>().ok());
    let workers = envn("TCSIM_WORKERS").unwrap_or(cpus as u64) as usize;
    let total = envn("TCSIM_RUNS").unwrap_or(match tier { Tier::Quick => prop.quick, Tier::Thorough => prop.thorough });
    let cap = envn("TCSIM_CAP").map(|x| x as f64).unwrap_or(match tier { Tier::Quick => 240., Tier::Thorough => 800. });
    let known = known_findings(prop.id);
    let stop = sys::map_shared(4096) as *const AtomicU64;
    let stop = unsafe { &*stop };
    stop.store(u64::MAX, SeqCst);
    let mut outs: Vec<*mut WorkerOut> = (0..workers).map(|_| sys::map_shared(std::mem::size_of::<WorkerOut>()) as *mut WorkerOut).collect();
    let mut pids = vec![];
    for w in 0..workers {
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            eprintln!("cannot start workers");
            return 2;
        }
        if pid == 0 {
            unsafe { sys::prctl(1, 9, 0, 0, 0) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                worker(prop, seed, tier, w as u64, workers as u64, total, cap, t0, stop, unsafe { &mut *outs[w] }, &known)
            }));
            if r.is_err() {
                eprintln!("worker {w}: {}", crate::world::last_panic());
            }
            unsafe { sys::_exit(if r.is_ok() { 0 } else { 3 }) };
        }
        pids.push(pid);
    }
    let mut broken = false;
    for p in pids {
        let mut st = 0;
        unsafe { sys::waitpid(p, &mut st, 0) };
        broken |= st != 0;
    }
    let search_s = t0.elapsed().as_secs_f64();
    // merge
    let mut sigs = BTreeSet::new();
    let (mut runs, mut workloads, mut nontrivial, mut incon, mut steps, mut nknown) = (0, 0, 0, 0, 0u64, 0);
    let mut counters = [0u64; NCOUNT];
    let mut fail: Option<(u64, u64)> = None;
    let mut note = String::new();
    for o in &outs {
        let o = unsafe { &**o };
        runs += o.runs;
        workloads += o.workloads;
        nontrivial += o.nontrivial;
        incon += o.inconclusive;
        steps += o.steps;
        nknown += o.known;
        for i in 0..NCOUNT {
            counters[i] += o.counters[i];
        }
        sigs.extend(o.sig[..o.nsig as usize].iter().copied());
        if o.incon_len > 0 {
            note = String::from_utf8_lossy(&o.incon[..o.incon_len as usize]).into_owned();
        }
        if o.fail > 0 {
            let f = (o.fail - 1, o.fail_sub);
            fail = Some(fail.map_or(f, |g: (u64, u64)| g.min(f)));
        }
    }
    if broken {
        eprintln!("a worker failed");
        return 2;
    }
    let mut violations = 0;
    let mut unrepro = 0;
    let mut line = None;
    let page = shared::new_shared();
    if let Some((run, sub)) = fail {
        match report(prop, seed, tier, run, sub, page, &known) {
            Some(p) => {
                violations = 1;
                line = Some(p);
            }
            None => unrepro = 1,
        }
    }
    // samples
    let mut samples = vec![];
    let mut cached = None;
    for run in 0..3.min(total) {
        let t = match make(prop, seed, tier, run, page, 0, &mut cached) {
            Ok((t, _)) => t,
            Err((t, _)) => t,
        };
        let mut s = t.text();
        if s.len() > 900 {
            s = s.chars().take(900).collect::<String>() + "...";
        }
        samples.push(format!("seed {seed} run {run}: {s}"));
    }
    let wall = t0.elapsed().as_secs_f64();
    let named: Vec<String> = prop.counters.iter().map(|(i, n)| format!("{}: {}", esc(n), counters[*i])).collect();
    let faults: Vec<String> = prop.faults.iter().map(|(i, n)| format!("{}: {}", esc(n), counters[*i])).collect();
    let json = format!(
        "{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {{\n \"evaluations\": {},\n \"distinct_nontrivial\": {},\n \"rule\": {},\n \"samples\": [{}],\n \"simulated_runs\": {},\n \"workloads\": {},\n \"runs_per_hour\": {},\n \"nontrivial_runs\": {},\n \"inconclusive_runs\": {},\n \"inconclusive_note\": {},\n \"known_finding_runs\": {},\n \"unreproduced\": {},\n \"simulated_time\": {{\"unit\": {}, \"total\": {}}},\n \"faults_injected\": {{{}}},\n \"counters\": {{{}}},\n \"distinct_measure\": {},\n \"real_code\": {},\n \"stubs\": {}\n}},\n\"assumptions\": [{}],\n\"violations\": {},\n\"wall_s\": {:.3}\n}}\n",
        esc(prop.id),
        esc(match tier { Tier::Quick => "quick", Tier::Thorough => "thorough" }),
        seed,
        runs,
        sigs.len(),
        esc(prop.rule),
        samples.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        runs,
        workloads,
        (runs as f64 / search_s * 3600.) as u64,
        nontrivial,
        incon,
        esc(&note),
        nknown,
        unrepro,
        esc(prop.time_unit),
        steps,
        faults.join(", "),
        named.join(", "),
        esc(prop.measure),
        esc("tclifford, ndarray, num, std collections/fmt/sync, OS threads"),
        esc(prop.stubs),
        prop.assumptions.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "),
        violations,
        wall
    );
    let _ = std::fs::create_dir_all("/verif/evidence");
    if let Err(e) = std::fs::write(format!("/verif/evidence/{}.json", prop.id), json) {
        eprintln!("evidence: {e}");
        return 2;
    }
    eprintln!("{}: {runs} runs ({nontrivial} nontrivial, {} distinct, {incon} inconclusive) of {workloads} workloads in {search_s:.1} s", prop.id, sigs.len());
    for k in &known {
        if nknown > 0 {
            println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
        }
    }
    if let Some(p) = line {
        println!("VIOLATION property={} replay={}", prop.id, p);
        return 1;
    }
    if unrepro > 0 {
        eprintln!("a failure was seen that could not be reproduced");
        return 2;
    }
    if runs == 0 || incon * 2 > runs {
        eprintln!("too few conclusive runs: {note}");
        return 2;
    }
    0
}

fn worker(prop: &Prop, seed: u64, tier: Tier, w: u64, workers: u64, total: u64, cap: f64, t0: Instant, stop: &AtomicU64, out: &mut WorkerOut, known: &[Known]) {
    let page = shared::new_shared();
    let mut cached = None;
    let mut sigs = BTreeSet::new();
    let mut run = w;
    'outer: while run < total && run < stop.load(SeqCst) && t0.elapsed().as_secs_f64() < cap {
        for sub in 0..prop.repeat {
            let end = match make(prop, seed, tier, run, page, sub, &mut cached) {
                Ok((t, p)) => in_child(page, t.entropy, &FULL, || run_laps(prop, &t, &p)),
                Err((_, e)) => e,
            };
            let pg = unsafe { &*page };
            out.runs += 1;
            out.workloads += (sub == 0) as u64;
            out.steps += pg.steps;
            for i in 0..NCOUNT {
                out.counters[i] += pg.counters[i];
            }
            match end {
                End::Held => {
                    if pg.nontrivial != 0 {
                        out.nontrivial += 1;
                        if sigs.len() < MAXSIG {
                            sigs.insert(pg.digest);
                        }
                    }
                }
                End::Inconclusive(m) => {
                    out.inconclusive += 1;
                    let n = m.len().min(256);
                    out.incon[..n].copy_from_slice(&m.as_bytes()[..n]);
                    out.incon_len = n as u64;
                }
                End::Violated(m) => {
                    if known.iter().any(|k| m.contains(&k.pat)) {
                        out.known += 1;
                    } else {
                        out.fail = run + 1;
                        out.fail_sub = sub;
                        stop.fetch_min(run, SeqCst);
                        break 'outer;
                    }
                }
            }
        }
        run += workers;
    }
    for (i, s) in sigs.iter().enumerate() {
        out.sig[i] = *s;
    }
    out.nsig = sigs.len() as u64;
}

/// Minimise and write the replay file. None: the failure did not come back.
fn report(prop: &Prop, seed: u64, tier: Tier, run: u64, sub: u64, page: *mut Shared, known: &[Known]) -> Option<String> {
    let mut cached = None;
    let lim = Limits { cpu: 8, wall: 30 };
    let bad = |t: &Trace, l: &Limits| match execute(prop, t, page, l) {
        End::Violated(m) if !known.iter().any(|k| m.contains(&k.pat)) => Some(m),
        _ => None,
    };
    let mut t = match make(prop, seed, tier, run, page, sub, &mut cached) {
        Ok((t, _)) => t,
        Err((t, _)) => t,
    };
    let mut msg = None;
    let mut tries = 0;
    while msg.is_none() && tries < 5 {
        tries += 1;
        msg = bad(&t, &FULL);
    }
    let first = msg?;
    eprintln!("seed {seed} run {run}.{sub}: {first}");
    let mut msg = first.clone();
    let t0 = Instant::now();
    let slow = first.contains("limit");
    let budget = if slow { 60. } else { 45. };
    let left = || t0.elapsed().as_secs_f64() < budget;
    // schedules become explicit
    if prop.threads && !matches!(t.mode, Mode::Plan(_)) {
        let pg = unsafe { &*page };
        let plan: Vec<(u64, u32)> = pg.dlog[..pg.dlog_len as usize].to_vec();
        let mut c = t.clone();
        c.mode = Mode::Plan(plan.leak());
        if let Some(m) = bad(&c, &FULL) {
            t = c;
            msg = m;
        }
    }
    macro_rules! attempt {
        ($c:expr) => {{
            let c = $c;
            if let Some(m) = bad(&c, &lim) {
                t = c;
                msg = m;
                true
            } else {
                false
            }
        }};
    }
    let mut again = true;
    while again && left() {
        again = false;
        // laps
        while t.num("laps") > 1 && left() {
            let mut c = t.clone();
            c.set("laps", 0);
            let mut d = t.clone();
            d.set("laps", t.num("laps") / 2);
            if !(attempt!(c) || attempt!(d)) {
                break;
            }
            again = true;
        }
        // lines
        let mut chunk = (t.lines.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < t.lines.len() && left() {
                let e = (i + chunk).min(t.lines.len());
                let mut c = t.clone();
                c.lines.drain(i..e);
                if attempt!(c) {
                    again = true;
                } else {
                    i = e;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk /= 2;
        }
        // switches
        if let Mode::Plan(p) = t.mode {
            let mut plan: Vec<(u64, u32)> = p.to_vec();
            let mut chunk = (plan.len() / 2).max(1);
            while left() && !plan.is_empty() {
                let mut i = 0;
                while i < plan.len() && left() {
                    let e = (i + chunk).min(plan.len());
                    let mut q = plan.clone();
                    q.drain(i..e);
                    let mut c = t.clone();
                    c.mode = Mode::Plan(q.clone().leak());
                    if attempt!(c) {
                        plan = q;
                        again = true;
                    } else {
                        i = e;
                    }
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
        }
        // faults and list items
        for i in 0..t.lines.len() {
            if t.lines[i].f != 0 && left() {
                let mut c = t.clone();
                c.lines[i].f = 0;
                again |= attempt!(c);
            }
            let mut j = 0;
            while j < t.lines[i].l.len() && left() {
                let mut c = t.clone();
                c.lines[i].l.remove(j);
                if attempt!(c) {
                    again = true;
                } else {
                    j += 1;
                }
            }
        }
    }
    // the file must reproduce what is reported
    let again = bad(&Trace::parse(&t.text()), &FULL);
    if again.as_deref() != Some(msg.as_str()) {
        eprintln!("note: minimised trace gave {again:?}");
        if again.is_none() {
            t = make(prop, seed, tier, run, page, sub, &mut cached).map(|x| x.0).unwrap_or_else(|x| x.0);
            msg = first;
        }
    }
    let _ = std::fs::create_dir_all("/verif/replays");
    let path = format!("/verif/replays/{}-{seed}-{run}-{sub}.trace", prop.id);
    let body = format!("# {}\n# found with VERIF_SEED={seed}, run {run}.{sub}; minimised; replay with: /verif/run.sh replay {path}\n{}", msg.replace('\n', " "), t.text());
    if std::fs::write(&path, body).is_err() {
        return None;
    }
    eprintln!("minimised to {} lines: {msg}", t.lines.len());
    Some(path)
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let t = Trace::parse(&s);
    let Some(p) = props.iter().find(|p| p.id == t.prop) else {
        eprintln!("property {} is not in this binary", t.prop);
        return 2;
    };
    let page = shared::new_shared();
    let e = execute(p, &t, page, &FULL);
    let d = unsafe { (*page).digest };
    match e {
        End::Held => {
            println!("held (digest {d:016x})");
            0
        }
        End::Violated(m) => {
            println!("{m}");
            println!("VIOLATION property={} replay={path}", p.id);
            1
        }
        End::Inconclusive(m) => {
            println!("inconclusive: {m}");
            2
        }
    }
}

//! A small property-based-testing engine.
//!
//! A case is a pure function of a recorded sequence of bounded integer choices
//! (`Src`), so shrinking works on the choice sequence (delete, zero, minimise)
//! and every shrunk sequence is again a well-formed case of the same generator.
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    let mut s = h;
    splitmix(&mut s)
}

/// The only source of randomness of a case.
pub struct Src {
    rng: u64,
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: seed, replay: None, rec: vec![] }
    }
    pub fn replay(choices: Vec<u64>) -> Src {
        Src { rng: 0, replay: Some(choices), rec: vec![] }
    }
    /// Uniform in 0..n; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        // a shrunk sequence can send a generator round for ever
        assert!(self.rec.len() < 3_000_000, "too many choices");
        let v = match &self.replay {
            Some(c) => c.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => splitmix(&mut self.rng) % n,
        };
        self.rec.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// Inclusive range; lo is the simplest.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        assert!(lo <= hi, "range {} {}", lo, hi);
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den; false is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.usize(xs.len());
        &xs[i]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            // choice 0 leaves the element where it is
            let j = i - self.usize(i + 1);
            xs.swap(i, j);
        }
    }
}

#[derive(Debug, Clone)]
pub struct CaseOk {
    /// Interesting by the property's own rule.
    pub nontrivial: bool,
    /// Canonical form of what was tried; used to count distinct cases.
    pub key: String,
    pub labels: Vec<&'static str>,
    /// How many sub-inputs (instructions, operand values, ...) this case settled.
    pub subcases: u64,
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub msg: String,
    /// Complete reproduction, human readable: sources, commands, expectation.
    pub repro: String,
}

#[derive(Debug, Clone)]
pub enum Stop {
    Fail(Failure),
    /// The harness could not decide (tool missing, wall clock limit, ...).
    Error(String),
}

pub type CaseResult = Result<CaseOk, Stop>;

pub fn fail<T>(msg: impl Into<String>, repro: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Fail(Failure { msg: msg.into(), repro: repro.into() }))
}

pub fn ok(nontrivial: bool, key: impl Into<String>, labels: Vec<&'static str>) -> CaseResult {
    Ok(CaseOk { nontrivial, key: key.into(), labels, subcases: 1 })
}
pub fn okn(nontrivial: bool, key: impl Into<String>, labels: Vec<&'static str>, subcases: u64) -> CaseResult {
    Ok(CaseOk { nontrivial, key: key.into(), labels, subcases })
}

pub type CaseFn = fn(&mut Src, &mut crate::tool::Ctx) -> CaseResult;

/// One family of generated cases of a property.
pub struct Family {
    pub name: &'static str,
    pub run: CaseFn,
    /// number of cases in the quick and thorough tier
    pub quick: usize,
    pub thorough: usize,
    /// When set, case i is handed the choice prefix [i]: a finite sweep, not a random draw.
    /// The total number of sweep points; quick/thorough are then ignored.
    pub sweep: Option<usize>,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub families: Vec<Family>,
    pub assumptions: &'static [&'static str],
}

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub subcases: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub per_family: BTreeMap<String, u64>,
    pub samples: Vec<(String, String)>,
    pub sweeps: Vec<String>,
}

pub struct Found {
    pub family: &'static str,
    pub case: usize,
    pub seed: u64,
    pub choices: Vec<u64>,
    pub failure: Failure,
    pub shrink_runs: usize,
    pub original_len: usize,
}

pub enum Outcome {
    Held,
    Violated(Found),
    Error(String),
}

fn case_seed(seed: u64, prop: &str, fam: &str, idx: usize) -> u64 {
    let mut s = seed ^ hash_bytes(prop.as_bytes()).rotate_left(17) ^ hash_bytes(fam.as_bytes());
    splitmix(&mut s);
    s ^= (idx as u64).wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut s);
    s
}

fn run_one(run: CaseFn, src: &mut Src, ctx: &mut crate::tool::Ctx) -> CaseResult {
    ctx.reset();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(src, ctx))) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            Err(Stop::Error(format!("harness panic: {}", m)))
        }
    }
}

fn src_for(seed: u64, prop: &str, fam: &Family, idx: usize) -> Src {
    if fam.sweep.is_some() {
        Src::replay(vec![idx as u64])
    } else {
        Src::random(case_seed(seed, prop, fam.name, idx))
    }
}

pub fn run_property(p: &Property, seed: u64, thorough: bool, threads: usize, stats: &mut Stats) -> Outcome {
    for fam in &p.families {
        // for trying one family while working on it
        if std::env::var("WB_FAMILY").map_or(false, |f| f != fam.name) {
            continue;
        }
        let n = match fam.sweep {
            Some(n) => n,
            None => {
                if thorough {
                    fam.thorough
                } else {
                    fam.quick
                }
            }
        };
        let next = AtomicUsize::new(0);
        let first_bad = AtomicUsize::new(usize::MAX);
        let bad: Mutex<BTreeMap<usize, (Stop, Vec<u64>)>> = Mutex::new(BTreeMap::new());
        let agg = Mutex::new(&mut *stats);
        let started = Instant::now();
        std::thread::scope(|sc| {
            for t in 0..threads {
                let next = &next;
                let first_bad = &first_bad;
                let bad = &bad;
                let agg = &agg;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut ctx = crate::tool::Ctx::new(t);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n || i > first_bad.load(Ordering::SeqCst) {
                            break;
                        }
                        let mut src = src_for(seed, p.id, fam, i);
                        let r = run_one(fam.run, &mut src, &mut ctx);
                        match r {
                            Ok(c) => {
                                let mut g = agg.lock().unwrap();
                                g.evaluations += 1;
                                g.subcases += c.subcases;
                                *g.per_family.entry(fam.name.to_string()).or_insert(0) += 1;
                                if c.nontrivial {
                                    g.nontrivial += 1;
                                    if g.distinct.insert(hash_bytes(c.key.as_bytes())) {
                                        let have = g.samples.iter().filter(|s| s.0 == fam.name).count();
                                        if have < 2 && i < 64 {
                                            let mut k = c.key.clone();
                                            if k.len() > 1500 {
                                                let mut e = 1500;
                                                while !k.is_char_boundary(e) {
                                                    e -= 1;
                                                }
                                                k.truncate(e);
                                                k.push_str("...");
                                            }
                                            g.samples.push((fam.name.to_string(), k));
                                        }
                                    }
                                }
                                for l in c.labels {
                                    *g.labels.entry(l.to_string()).or_insert(0) += 1;
                                }
                            }
                            Err(stop) => {
                                bad.lock().unwrap().insert(i, (stop, src.rec.clone()));
                                first_bad.fetch_min(i, Ordering::SeqCst);
                            }
                        }
                    }
                }).unwrap();
            }
        });
        if fam.sweep.is_some() {
            stats.sweeps.push(format!("{}: all {} points", fam.name, n));
        }
        if std::env::var("WB_TIMING").is_ok() {
            eprintln!("  family {} : {} cases in {:.1}s", fam.name, n, started.elapsed().as_secs_f64());
        }
        let bad = bad.into_inner().unwrap();
        if let Some((i, (stop, choices))) = bad.into_iter().next() {
            match stop {
                Stop::Error(e) => return Outcome::Error(format!("{} case {}: {}", fam.name, i, e)),
                Stop::Fail(f) => {
                    let found = shrink(p, fam, i, case_seed(seed, p.id, fam.name, i), choices, f);
                    return Outcome::Violated(found);
                }
            }
        }
    }
    Outcome::Held
}

fn shrink(p: &Property, fam: &Family, case: usize, seed: u64, choices: Vec<u64>, failure: Failure) -> Found {
    let _ = p;
    let mut ctx = crate::tool::Ctx::new(99);
    let mut best = choices.clone();
    let mut bestf = failure;
    let mut runs = 0usize;
    let budget = 700usize;
    let deadline = Instant::now() + std::time::Duration::from_secs(120);
    let mut seen: HashSet<Vec<u64>> = HashSet::new();
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bestf: &mut Failure, runs: &mut usize| -> bool {
        if *runs >= budget || Instant::now() > deadline || !seen.insert(cand.clone()) {
            return false;
        }
        *runs += 1;
        let mut src = Src::replay(cand);
        if let Err(Stop::Fail(f)) = run_one(fam.run, &mut src, &mut ctx) {
            let rec = src.rec.clone();
            let better = (rec.len(), &rec) < (best.len(), &*best);
            if better {
                *best = rec;
                *bestf = f;
                return true;
            }
        }
        false
    };
    if fam.sweep.is_none() {
        let mut improved = true;
        while improved && runs < budget {
            improved = false;
            // delete chunks
            let mut size = (best.len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best.len() {
                    let end = (i + size).min(best.len());
                    let mut c = best.clone();
                    c.drain(i..end);
                    if attempt(c, &mut best, &mut bestf, &mut runs) {
                        improved = true;
                    } else {
                        i += size;
                    }
                    if runs >= budget {
                        break;
                    }
                }
                if size == 1 || runs >= budget {
                    break;
                }
                size /= 2;
            }
            // zero chunks, then minimise single values
            for size in [8usize, 1] {
                let mut i = 0;
                while i < best.len() {
                    let end = (i + size).min(best.len());
                    if best[i..end].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        for v in &mut c[i..end] {
                            *v = 0;
                        }
                        if attempt(c, &mut best, &mut bestf, &mut runs) {
                            improved = true;
                        }
                    }
                    i += size;
                }
            }
            let mut i = 0;
            while i < best.len() {
                for f in [2u64, 1] {
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] = if f == 2 { c[i] / 2 } else { c[i] - 1 };
                        if attempt(c, &mut best, &mut bestf, &mut runs) {
                            improved = true;
                        }
                    }
                }
                i += 1;
            }
        }
    }
    Found { family: fam.name, case, seed, choices: best, failure: bestf, shrink_runs: runs, original_len: choices.len() }
}

/// Re-run one recorded choice sequence.
pub fn replay(p: &Property, family: &str, choices: Vec<u64>) -> CaseResult {
    for fam in &p.families {
        if fam.name == family {
            let mut ctx = crate::tool::Ctx::new(98);
            let mut src = Src::replay(choices);
            return run_one(fam.run, &mut src, &mut ctx);
        }
    }
    Err(Stop::Error(format!("no family {}", family)))
}

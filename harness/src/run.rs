//! Workload runner: deterministic cases spread over threads, observations, violations, evidence.
use crate::meter::{self, SLOTS, TABLE};
use crate::rng::Rng;
use crate::source::Stats;
use crate::words;
use std::borrow::Cow;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type CaseFn = Box<dyn Fn(&mut Cx) + Sync + Send>;

pub struct Workload {
    pub name: &'static str,
    pub cases: u64,
    pub threads: usize,
    pub run: CaseFn,
}

pub fn wl(name: &'static str, cases: u64, run: impl Fn(&mut Cx) + Sync + Send + 'static) -> Workload {
    Workload { name, cases, threads: 8, run: Box::new(run) }
}

/// As `wl`, for cases that must not run next to each other.
pub fn wl_serial(name: &'static str, cases: u64, run: impl Fn(&mut Cx) + Sync + Send + 'static) -> Workload {
    Workload { name, cases, threads: 1, run: Box::new(run) }
}

#[derive(Clone)]
pub struct Params {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    pub scratch: String,
    pub repo: String,
    /// Directory holding the workers and the other binaries the supervisor built.
    pub bins: String,
    pub deadline_s: u64,
}

#[derive(Clone)]
pub struct Violation {
    pub workload: String,
    pub index: u64,
    pub key: String,
    pub what: String,
    pub input: String,
}

#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub counted_distinct: u64,
    pub distinct: HashSet<u64>,
    pub traces: HashSet<u64>,
    pub labels: BTreeMap<Cow<'static, str>, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
}

const DISTINCT_CAP: usize = 3_000_000;

impl Obs {
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.counted_distinct += o.counted_distinct;
        self.distinct.extend(o.distinct);
        self.traces.extend(o.traces);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.maxima {
            let e = self.maxima.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.samples.extend(o.samples);
        self.reads += o.reads;
        self.seeks += o.seeks;
        self.bytes += o.bytes;
        self.violations.extend(o.violations);
        self.inconclusive.extend(o.inconclusive);
    }
}

/// What a case sees.
pub struct Cx<'a> {
    pub p: &'a Params,
    pub name: &'static str,
    pub idx: u64,
    pub obs: Obs,
    pub replay: bool,
    samples_here: u32,
}

impl<'a> Cx<'a> {
    pub fn new(p: &'a Params, name: &'static str) -> Self {
        Cx { p, name, idx: 0, obs: Obs::default(), replay: false, samples_here: 0 }
    }
    pub fn rng(&self) -> Rng {
        Rng::new(self.p.seed, self.name, self.idx)
    }
    /// One execution judged by the oracle.
    pub fn eval(&mut self) {
        self.obs.evaluations += 1;
    }
    /// Marks the current execution as non-trivial, identified by `h`.
    pub fn nontrivial(&mut self, h: u64) {
        if self.obs.distinct.len() < DISTINCT_CAP {
            self.obs.distinct.insert(h);
        }
    }
    /// An execution judged by the oracle that differs from every other by construction.
    pub fn eval_distinct(&mut self) {
        self.obs.evaluations += 1;
        self.obs.counted_distinct += 1;
    }
    pub fn label(&mut self, s: impl Into<Cow<'static, str>>) {
        *self.obs.labels.entry(s.into()).or_default() += 1;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.obs.maxima.entry(k).or_default();
        *e = (*e).max(v);
    }
    pub fn stats(&mut self, st: &Stats) {
        self.obs.reads += st.reads;
        self.obs.seeks += st.seeks;
        self.obs.bytes += st.bytes;
        if self.obs.traces.len() < DISTINCT_CAP {
            self.obs.traces.insert(st.trace);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.idx < 2 && self.samples_here < 2 {
            self.samples_here += 1;
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            let s = format!("{}#{}: {}", self.name, self.idx, s);
            self.obs.samples.push(s);
        }
    }
    pub fn fail(&mut self, key: impl Into<String>, what: String, input: String) {
        if self.obs.violations.len() < 40 {
            self.obs.violations.push(Violation {
                workload: self.name.into(),
                index: self.idx,
                key: key.into(),
                what,
                input,
            });
        }
    }
    pub fn inconclusive(&mut self, what: String) {
        if self.obs.inconclusive.len() < 20 {
            self.obs.inconclusive.push(format!("{}#{}: {}", self.name, self.idx, what));
        }
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

fn watchdog(done: &AtomicBool, names: &[&'static str], limit: f64) {
    let mut seen = vec![(0u64, 0f64); SLOTS];
    while !done.load(Relaxed) {
        std::thread::sleep(Duration::from_millis(250));
        for (i, t) in TABLE.iter().enumerate() {
            let seq = t.seq.load(Relaxed);
            if seq % 2 == 0 {
                continue;
            }
            let cpu = meter::thread_cpu(t.clock.load(Relaxed));
            if seen[i].0 != seq {
                seen[i] = (seq, cpu);
            } else if cpu - seen[i].1 > limit && t.seq.load(Relaxed) == seq {
                let w = t.workload.load(Relaxed) as usize;
                println!("HANG\t{}\t{}", names.get(w).unwrap_or(&"?"), t.index.load(Relaxed));
                std::process::exit(70);
            }
        }
    }
}

/// One case in four draws on the words of the sources.
pub fn worded(i: u64) -> bool {
    crate::rng::mix(i) % 4 == 0
}

pub fn run_all(p: &Params, ws: &[Workload], only: Option<(&str, u64)>) -> (Obs, Vec<String>, f64) {
    let t0 = Instant::now();
    let done = AtomicBool::new(false);
    let names: Vec<&'static str> = ws.iter().map(|w| w.name).collect();
    let mut total = Obs::default();
    let mut cut = Vec::new();
    std::thread::scope(|s| {
        s.spawn(|| watchdog(&done, &names, 30.0));
        for (wi, w) in ws.iter().enumerate() {
            if let Some((n, i)) = only {
                if n != w.name {
                    continue;
                }
                let mut cx = Cx::new(p, w.name);
                cx.idx = i;
                cx.replay = true;
                meter::at_case(wi, i);
                words::set(worded(i));
                (w.run)(&mut cx);
                total.merge(cx.obs);
                continue;
            }
            // A fair share of the time left.
            let now = t0.elapsed().as_secs_f64();
            let end = now + (p.deadline_s as f64 - now).max(0.0) / (ws.len() - wi) as f64;
            let next = AtomicU64::new(0);
            let bad = AtomicU64::new(0);
            let late = AtomicBool::new(false);
            let merged = Mutex::new(Obs::default());
            let step = (w.cases / 4096).clamp(1, 64);
            meter::reset_slots();
            std::thread::scope(|s| {
                for _ in 0..w.threads {
                    s.spawn(|| {
                        let mut cx = Cx::new(p, w.name);
                        'outer: loop {
                            let a = next.fetch_add(step, Relaxed);
                            if a >= w.cases || bad.load(Relaxed) > 20 {
                                break;
                            }
                            for i in a..(a + step).min(w.cases) {
                                if t0.elapsed().as_secs_f64() >= end {
                                    late.store(true, Relaxed);
                                    break 'outer;
                                }
                                cx.idx = i;
                                let n = cx.obs.violations.len();
                                meter::at_case(wi, i);
                                words::set(worded(i));
                                (w.run)(&mut cx);
                                bad.fetch_add((cx.obs.violations.len() - n) as u64, Relaxed);
                            }
                        }
                        merged.lock().unwrap().merge(cx.obs);
                    });
                }
            });
            let m = merged.into_inner().unwrap();
            eprintln!(
                "{:>7.2}s {} {}: {} evaluations, {} distinct, {} violations",
                t0.elapsed().as_secs_f64(),
                p.property,
                w.name,
                m.evaluations,
                m.distinct.len() as u64 + m.counted_distinct,
                m.violations.len()
            );
            if late.load(Relaxed) {
                cut.push(format!("{}: stopped at the time budget after about {} of {} cases", w.name, next.load(Relaxed).min(w.cases), w.cases));
            }
            if m.evaluations == 0 && !late.load(Relaxed) && w.cases > 0 && m.inconclusive.is_empty() {
                total.inconclusive.push(format!("{}: nothing evaluated", w.name));
            }
            total.merge(m);
            if total.violations.len() > 40 {
                break;
            }
        }
        done.store(true, Relaxed);
    });
    total.violations.sort_by(|a, b| (&a.workload, a.index).cmp(&(&b.workload, b.index)));
    (total, cut, t0.elapsed().as_secs_f64())
}

/// The partial evidence file the supervisor completes.
pub fn report(p: &Params, o: &Obs, cut: &[String], rule: &str, wall: f64) -> String {
    let mut s = String::new();
    let list = |v: &[String]| v.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(",");
    let _ = write!(
        s,
        "{{\"property\":\"{}\",\"tier\":\"{}\",\"seed\":{},\"wall_s\":{:.3},\"coverage\":{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"samples\":[{}],",
        p.property,
        p.tier,
        p.seed,
        wall,
        o.evaluations,
        o.distinct.len() as u64 + o.counted_distinct,
        esc(rule),
        list(&o.samples.iter().take(30).cloned().collect::<Vec<_>>()),
    );
    let _ = write!(
        s,
        "\"observed\":{{\"reads\":{},\"seeks\":{},\"bytes_read\":{},\"distinct_io_traces\":{}}},",
        o.reads,
        o.seeks,
        o.bytes,
        o.traces.len()
    );
    let labels: Vec<String> = o.labels.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let maxima: Vec<String> = o.maxima.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect();
    let _ = write!(s, "\"outcomes\":{{{}}},\"maxima\":{{{}}},\"truncated\":[{}]}},", labels.join(","), maxima.join(","), list(cut));
    let v: Vec<String> = o
        .violations
        .iter()
        .map(|v| {
            format!(
                "{{\"workload\":\"{}\",\"index\":{},\"key\":\"{}\",\"what\":\"{}\",\"input\":\"{}\"}}",
                esc(&v.workload),
                v.index,
                esc(&v.key),
                esc(&v.what),
                esc(&v.input)
            )
        })
        .collect();
    let _ = write!(s, "\"found\":[{}],\"inconclusive\":[{}]}}", v.join(","), list(&o.inconclusive));
    s
}

//! C07, C09, C25, C26: history independence, feature composition, observation only, the lefi program.
use crate::gens2::{any_small, signature_case, textish, FAMILY_GENS};
use crate::meter::{det_bytes, guarded, in_world, Out, World};
use crate::mutate::mutant;
use crate::refm;
use crate::rng::{hash, mix, Rng};
use crate::run::{wl, wl_serial, Cx, Params, Workload};
use crate::source::{hex, Chunk, Fault, Plan, Tracer, Virt};
use crate::spec_gen::{FAMILIES, FORMATS};
use file_format::FileFormat as F;
use std::collections::{HashMap, HashSet};
use std::ffi::OsString;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex, OnceLock};

fn n(p: &Params, quick: u64, thorough: u64) -> u64 {
    if p.thorough {
        thorough
    } else {
        quick
    }
}

/// Verdicts of a new worker process on `inputs`, in that order. None if the worker cannot be run.
fn worker(bin: &Path, inputs: &[&[u8]]) -> Option<Vec<String>> {
    let mut c = Command::new(bin).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    let mut i = c.stdin.take()?;
    let mut o = c.stdout.take()?;
    let mut text = String::new();
    std::thread::scope(|s| {
        s.spawn(move || {
            let mut w = std::io::BufWriter::new(&mut i);
            for x in inputs {
                if w.write_all(&(x.len() as u32).to_le_bytes()).is_err() || w.write_all(x).is_err() {
                    return;
                }
            }
            let _ = w.flush();
        });
        let _ = o.read_to_string(&mut text);
    });
    let st = c.wait().ok()?;
    let mut v: Vec<String> = text.lines().map(|l| l.to_string()).collect();
    if v.len() < inputs.len() {
        v.push(format!("worker ended early ({st})"));
        v.resize(inputs.len(), "worker had ended".into());
    }
    Some(v)
}

fn by_name() -> &'static HashMap<&'static str, F> {
    static M: OnceLock<HashMap<&'static str, F>> = OnceLock::new();
    M.get_or_init(|| FORMATS.iter().map(|f| (f.1, f.0)).collect())
}

// --- C07 --------------------------------------------------------------------------------------

struct Item {
    bytes: Vec<u8>,
    /// The verdict of a fresh process.
    want: Option<F>,
}

/// Inputs that differ from `v` in the middle only: what a cache keyed by length, address, leading or
/// trailing bytes would take for `v`.
fn twins(r: &mut Rng, v: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    if v.len() > 40 {
        for _ in 0..2 {
            let mut w = v.to_vec();
            let a = 16 + r.idx(v.len() - 24);
            let b = (a + 1 + r.log(v.len() as u64) as usize).min(v.len() - 4);
            if r.coin() {
                w[a..b].fill(0x20);
            } else {
                for x in &mut w[a..b] {
                    *x = x.wrapping_add(1);
                }
            }
            out.push(w);
        }
        // The central directory of a ZIP archive made empty.
        if v.starts_with(b"PK\x03\x04") {
            if let Some(k) = v.windows(4).rposition(|w| w == b"PK\x05\x06") {
                let mut w = v.to_vec();
                let e = w.len().min(k + 12);
                w[(k + 8).min(e)..e].fill(0);
                out.push(w);
            }
        }
    }
    out
}

fn corpus(p: &Params) -> &'static Vec<Item> {
    static C: OnceLock<Vec<Item>> = OnceLock::new();
    C.get_or_init(|| {
        let mut r = Rng::new(p.seed, "corpus", 0);
        let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![b'a'], b"%PDF-1.4\n".to_vec()];
        let total = n(p, 1600, 6000) as usize;
        // Made by whichever case comes first, so not as that case would have it.
        let on = crate::words::set(false);
        while v.len() < total {
            crate::words::set(r.one_in(4));
            match r.below(6) {
                0 => v.push(mutant(&mut r, 9000)),
                1 => {
                    if let Some(b) = signature_case(&mut r).src.materialize(50_000) {
                        v.push(b)
                    }
                }
                2 => v.push(textish(&mut r)),
                _ => {
                    let big = r.one_in(30);
                    let (_, b) = any_small(&mut r, if big { 200_000 } else { 12_000 });
                    v.extend(twins(&mut r, &b));
                    v.push(b);
                }
            }
        }
        crate::words::set(on);
        let next = AtomicU64::new(0);
        let out = Mutex::new(Vec::new());
        let bin = PathBuf::from(&p.bins).join("worker-all");
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, SeqCst) as usize;
                    if k >= v.len() {
                        break;
                    }
                    let want = worker(&bin, &[&v[k]]).and_then(|x| by_name().get(x[0].as_str()).copied());
                    out.lock().unwrap().push((k, want));
                });
            }
        });
        let mut o = out.into_inner().unwrap();
        o.sort_by_key(|x| x.0);
        v.into_iter().zip(o).map(|(bytes, (_, want))| Item { bytes, want }).collect()
    })
}

fn c07_check(cx: &mut Cx, it: &Item, o: &Out, how: &str) {
    cx.eval();
    match (it.want, o) {
        (Some(w), Out::Fmt(f)) if w == *f => {}
        (None, _) => {}
        (Some(w), _) => cx.fail(
            format!("{how}:{w:?}:{}", o.show()),
            format!("{how}: {} instead of {w:?}, the verdict in a fresh process", o.show()),
            format!("len={} {}", it.bytes.len(), hex(&it.bytes, 120)),
        ),
    }
}

/// Panics or fails at some operation, whatever it is asked.
struct Broken<'a> {
    inner: Cursor<&'a [u8]>,
    left: u32,
    panics: bool,
}
impl Broken<'_> {
    fn op(&mut self) -> Result<()> {
        if self.left == 0 {
            if self.panics {
                std::panic::panic_any("a reader that panics");
            }
            return Err(Error::other("broken"));
        }
        self.left -= 1;
        Ok(())
    }
}
impl Read for Broken<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.op()?;
        self.inner.read(b)
    }
}
impl Seek for Broken<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.op()?;
        self.inner.seek(p)
    }
}

/// A reader that detects something else while it is being read.
struct Nested<'a> {
    inner: Cursor<&'a [u8]>,
    all: &'a [Item],
    r: Rng,
    depth: u32,
    runs: u64,
    bad: Option<(usize, Out)>,
}
impl Nested<'_> {
    fn other(&mut self) {
        if self.r.one_in(3) || self.runs > 30 {
            return;
        }
        self.runs += 1;
        let k = self.r.idx(self.all.len());
        let it = &self.all[k];
        let o = if self.depth > 0 && self.r.one_in(4) {
            let mut i = Nested { inner: Cursor::new(&it.bytes), all: self.all, r: self.r.clone(), depth: self.depth - 1, runs: 20, bad: None };
            let o = F::from_reader(&mut i);
            if i.bad.is_some() {
                self.bad = i.bad;
            }
            o
        } else if self.r.coin() {
            F::from_reader(Cursor::new(&it.bytes))
        } else {
            Ok(F::from_bytes(&it.bytes))
        };
        let o = match o {
            Ok(f) => Out::Fmt(f),
            Err(e) => Out::Err(e.kind()),
        };
        if it.want.is_some() && o.fmt() != it.want {
            self.bad = Some((k, o));
        }
    }
}
impl Read for Nested<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.other();
        self.inner.read(b)
    }
}
impl Seek for Nested<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.other();
        self.inner.seek(p)
    }
}

fn set_times(path: &str, secs: i64) {
    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(secs as u64);
    if let Ok(f) = std::fs::File::options().write(true).open(path) {
        let _ = f.set_times(std::fs::FileTimes::new().set_modified(t).set_accessed(t));
    }
}

pub fn c07(p: &Params) -> Vec<Workload> {
    let all = corpus(p);
    let total = all.len() as u64;
    vec![
        // The baseline itself, and the same inputs once more in this process in order.
        wl("baseline", total, |cx| {
            let it = &corpus(cx.p)[cx.idx as usize];
            if it.want.is_none() {
                cx.inconclusive("no verdict from a fresh process".into());
                return;
            }
            cx.label(format!("{:?}", it.want.unwrap()));
            cx.nontrivial(hash(&it.bytes));
            let o = det_bytes(&it.bytes);
            c07_check(cx, it, &o, "once more");
        }),
        // Histories: the same buffer reused, failing and panicking readers, the same path rewritten.
        wl("histories", n(p, 40_000, 1_500_000), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let steps = 4 + r.idx(28);
            let mut buf: Vec<u8> = Vec::with_capacity(250_000);
            let path = format!("{}/c07-{}", cx.p.scratch, cx.idx % 64);
            let mut files = false;
            let mut names = Vec::new();
            // A small working set makes the same inputs and lengths come back.
            let base = r.idx(all.len());
            let set: Vec<usize> = (0..2 + r.idx(6)).map(|_| if r.coin() { (base + r.idx(5)) % all.len() } else { r.idx(all.len()) }).collect();
            let mut prev = usize::MAX;
            for _ in 0..steps {
                let k = *r.pick(&set);
                let it = &all[k];
                cx.nontrivial(mix((prev as u64) << 32 ^ k as u64));
                prev = k;
                let what = r.below(10);
                names.push(format!("{what}:{k}"));
                match what {
                    0 | 1 => {
                        let o = det_bytes(&it.bytes);
                        c07_check(cx, it, &o, "bytes");
                    }
                    2 | 3 => {
                        // Every input at the same address.
                        buf.clear();
                        buf.extend_from_slice(&it.bytes);
                        let o = det_bytes(&buf);
                        c07_check(cx, it, &o, "a reused buffer");
                    }
                    4 => {
                        let v = Virt::bytes(it.bytes.clone());
                        let mut plan = Plan::plain();
                        plan.chunk = Chunk::Random(1 + r.log(9000) as usize);
                        plan.rng = r.clone();
                        let mut t = Tracer::new(&v, plan);
                        let (o, _) = guarded(|| F::from_reader(&mut t));
                        c07_check(cx, it, &o, "a reader");
                        // The same reader again after rewinding.
                        t.pos = 0;
                        let (o, _) = guarded(|| F::from_reader(&mut t));
                        c07_check(cx, it, &o, "the same reader again");
                    }
                    5 => {
                        let panics = r.coin();
                        let left = if r.coin() { r.below(4) } else { r.log(60) } as u32;
                        let (_, _) = guarded(|| F::from_reader(Broken { inner: Cursor::new(&it.bytes), left, panics }));
                        cx.label(if panics { "a reader that panicked" } else { "a reader that failed" });
                    }
                    6 => {
                        let v = Virt::bytes(it.bytes.clone());
                        let mut plan = Plan::plain();
                        plan.fault = Some((r.below(8), Fault::Err(ErrorKind::Other), true));
                        let mut t = Tracer::new(&v, plan);
                        let _ = guarded(|| F::from_reader(&mut t));
                        cx.label("a reader that failed");
                    }
                    7 => {
                        let _ = guarded(|| F::from_file(format!("{path}-missing")));
                        cx.label("a missing file");
                    }
                    _ => {
                        // Rewritten in place: same path, same inode, same times.
                        files = true;
                        let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(format!("{path}-{}", cx.idx)).unwrap();
                        f.write_all(&it.bytes).unwrap();
                        drop(f);
                        set_times(&format!("{path}-{}", cx.idx), 1_700_000_000);
                        let (o, _) = guarded(|| F::from_file(format!("{path}-{}", cx.idx)));
                        c07_check(cx, it, &o, "a rewritten file");
                    }
                }
            }
            if files {
                let _ = std::fs::remove_file(format!("{path}-{}", cx.idx));
            }
            cx.sample(|| format!("history (way:input) {}", names.join(" ")));
        }),
        // Pairs made so that what one input leaves behind would complete or alter the next one.
        wl("remainders", n(p, 4000, 60_000), |cx| {
            let mut r = cx.rng();
            let g = *r.pick(&["pdf", "pdf", "sqlite", "xml", "zip", "cfb", "ebml", "asf", "mp4", "rm", "id3", "exe", "text"]);
            let g = FAMILY_GENS.iter().find(|x| x.0 == g).unwrap();
            let first = loop {
                let c = (g.1)(&mut r);
                if let Some(b) = c.src.materialize(120_000) {
                    break b;
                }
            };
            // Where the first one is cut, preferably inside a marker, and where the second one goes on.
            let marker: &[u8] = match g.0 {
                "pdf" => crate::gens2::AI,
                "sqlite" => crate::gens2::SKETCH,
                "zip" => b"PK\x05\x06",
                _ => b"<",
            };
            let at = if marker.len() > first.len() { None } else { first.windows(marker.len()).position(|w| w == marker) };
            let cut = match at {
                Some(k) if !r.one_in(4) => k + 1 + r.idx(marker.len().max(2) - 1),
                _ => r.idx(first.len() + 1),
            }
            .min(first.len());
            let keep = match g.0 {
                "pdf" | "xml" => 5,
                "sqlite" => 100,
                _ => r.log(200) as usize,
            }
            .min(cut);
            let second = match r.below(4) {
                0 => first[..cut].to_vec(),
                1 => {
                    // The same length, the middle blanked.
                    let mut v = first.clone();
                    v[keep..cut].fill(b' ');
                    v
                }
                _ => [&first[..keep], &first[cut..]].concat(),
            };
            let (a, b) = if r.one_in(3) { (&first[..], &second[..]) } else { (&first[..cut], &second[..]) };
            let bin = PathBuf::from(&cx.p.bins).join("worker-all");
            let (Some(wa), Some(wb)) = (worker(&bin, &[a]), worker(&bin, &[b])) else {
                cx.inconclusive("cannot run a worker".into());
                return;
            };
            let item = |x: &[u8], w: &Vec<String>| Item { bytes: x.to_vec(), want: by_name().get(w[0].as_str()).copied() };
            let pair = [item(a, &wa), item(b, &wb)];
            cx.label(format!("{}: {} then {}", g.0, wa[0], wb[0]));
            cx.nontrivial(mix(hash(a)) ^ hash(b));
            cx.sample(|| format!("{}: {} bytes ({}), then {} bytes ({})", g.0, a.len(), wa[0], b.len(), wb[0]));
            for k in [0usize, 1, 0, 0, 1, 1, 0] {
                let o = det_bytes(&pair[k].bytes);
                c07_check(cx, &pair[k], &o, "bytes after what precedes them");
            }
        }),
        // Inputs of the same length that share all their leading bytes, or all their trailing ones.
        wl("same heads", n(p, 1500, 30_000), |cx| {
            let mut r = cx.rng();
            let mut pair = None;
            for _ in 0..200 {
                let g = *r.pick(&["pdf", "id3", "zip", "cfb", "ebml", "asf", "mp4", "rm", "exe"]);
                let g = FAMILY_GENS.iter().find(|x| x.0 == g).unwrap();
                let Some(a) = (g.1)(&mut r).src.materialize(400_000) else { continue };
                if a.len() < 36_900 {
                    continue;
                }
                let mut b = a.clone();
                let k = 36_870 + r.idx(a.len() - 36_870);
                if r.one_in(3) {
                    b[k..].fill(b' ');
                } else {
                    let e = (k + r.log(2000) as usize).min(b.len());
                    b[k..e].fill(r.u64() as u8);
                }
                if det_bytes(&a).fmt() != det_bytes(&b).fmt() {
                    pair = Some((g.0, a, b));
                    break;
                }
            }
            let (g, a, b) = pair.unwrap_or_else(|| {
                let mut a = b"%PDF-1.4\n".to_vec();
                a.resize(40_000 + r.idx(9000), b' ');
                let b = a.clone();
                let k = a.len() - 100;
                a[k..k + 13].copy_from_slice(crate::gens2::AI);
                ("pdf", a, b)
            });
            let bin = PathBuf::from(&cx.p.bins).join("worker-all");
            let (Some(wa), Some(wb)) = (worker(&bin, &[&a]), worker(&bin, &[&b])) else {
                cx.inconclusive("cannot run a worker".into());
                return;
            };
            let item = |x: &[u8], w: &Vec<String>| Item { bytes: x.to_vec(), want: by_name().get(w[0].as_str()).copied() };
            let pair = [item(&a, &wa), item(&b, &wb)];
            cx.label(format!("{g}: {} and {}", wa[0], wb[0]));
            cx.nontrivial(mix(hash(&a)) ^ hash(&b));
            cx.sample(|| format!("{g}: two inputs of {} bytes with the same first 36,870: {} and {}", a.len(), wa[0], wb[0]));
            let path = format!("{}/c07-h{}", cx.p.scratch, cx.idx);
            let mut buf = vec![0; a.len()];
            for i in 0..6 {
                let k = if i < 3 { i & 1 } else { r.idx(2) };
                let o = match i {
                    0 | 1 | 2 => det_bytes(&pair[k].bytes),
                    3 => {
                        buf.copy_from_slice(&pair[k].bytes);
                        det_bytes(&buf)
                    }
                    _ => {
                        let mut f = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&path).unwrap();
                        f.write_all(&pair[k].bytes).unwrap();
                        drop(f);
                        set_times(&path, 1_700_000_000);
                        guarded(|| F::from_file(&path)).0
                    }
                };
                c07_check(cx, &pair[k], &o, "next to an input with the same head");
            }
            let _ = std::fs::remove_file(&path);
        }),
        // The same inputs while clock and environment tell something else.
        wl("clock and environment", total, |cx| {
            let mut r = cx.rng();
            let it = &corpus(cx.p)[cx.idx as usize];
            // The monitor itself: a leap and a variable nobody set are seen through std.
            let (seen, c, e) = in_world(World::Hurried, || {
                let t = std::time::Instant::now();
                (t.elapsed().as_secs(), std::env::var_os("FFMON_NOBODY_SETS_THIS").is_some())
            });
            if seen != (3600, true) || c != 2 || e != 1 {
                cx.inconclusive(format!("clock and environment are not under control here: {seen:?} {c} {e}"));
                return;
            }
            for w in [World::Hurried, World::Frozen] {
                for from in 0..3 {
                    let v = Virt::bytes(it.bytes.clone());
                    let mut plan = Plan::plain();
                    plan.chunk = Chunk::Random(1 + r.log(9000) as usize);
                    plan.rng = r.clone();
                    let mut t = Tracer::new(&v, plan);
                    let path = format!("{}/c07-w{}", cx.p.scratch, cx.idx);
                    if from == 2 {
                        if !r.one_in(4) || std::fs::write(&path, &it.bytes).is_err() {
                            continue;
                        }
                    }
                    let ((o, _), c, e) = in_world(w, || {
                        guarded(|| match from {
                            0 => Ok(F::from_bytes(&it.bytes)),
                            1 => F::from_reader(&mut t),
                            _ => F::from_file(&path),
                        })
                    });
                    if from == 2 {
                        let _ = std::fs::remove_file(&path);
                    }
                    cx.max("looks at the clock in one detection", c);
                    cx.max("looks at the environment in one detection", e);
                    c07_check(cx, it, &o, if w == World::Hurried { "an hour between two looks at the clock and every variable set" } else { "a clock that stands still and no variable set" });
                }
            }
        }),
        // Readers that use the library while being read by it.
        wl("nested", n(p, 20_000, 400_000), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let it = r.pick(all);
            let mut x = Nested { inner: Cursor::new(&it.bytes), all, r: r.clone(), depth: 2, runs: 0, bad: None };
            let (o, _) = guarded(|| F::from_reader(&mut x));
            c07_check(cx, it, &o, "a reader that detects meanwhile");
            cx.obs.evaluations += x.runs;
            cx.max("detections inside one detection", x.runs);
            if let Some((k, o)) = x.bad {
                c07_check(cx, &all[k], &o, "inside another detection");
            }
        }),
        // Many threads released together, each with its own order; yields inside I/O shake the schedule.
        wl_serial("threads", n(p, 40, 600), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let threads = *r.pick(&[2usize, 8, 16, 24]);
            let each = 1500usize;
            let barrier = Barrier::new(threads);
            static INSIDE: AtomicU64 = AtomicU64::new(0);
            static TICK: AtomicU64 = AtomicU64::new(0);
            let peak = AtomicU64::new(0);
            // A few hot inputs shared by all threads in half of the cases.
            let hot: Vec<usize> = (0..4).map(|_| r.idx(all.len())).collect();
            let use_hot = r.coin();
            let bad: Mutex<Vec<(usize, Out, &'static str)>> = Mutex::new(Vec::new());
            let order = Mutex::new(HashSet::new());
            let seeds: Vec<Rng> = (0..threads).map(|_| Rng::new(r.u64(), "thread", 0)).collect();
            std::thread::scope(|s| {
                for mut r in seeds {
                    let (barrier, hot, bad, order, peak) = (&barrier, &hot, &bad, &order, &peak);
                    s.spawn(move || {
                        barrier.wait();
                        let mut seen = HashSet::new();
                        for i in 0..each {
                            let k = if use_hot && r.coin() { *r.pick(hot) } else { r.idx(all.len()) };
                            let it = &all[k];
                            let at = TICK.fetch_add(1, Relaxed);
                            peak.fetch_max(INSIDE.fetch_add(1, Relaxed) + 1, Relaxed);
                            let (o, how) = if i % 16 == 0 && it.bytes.len() < 3000 {
                                let v = Virt::bytes(it.bytes.clone());
                                let mut plan = Plan::plain();
                                plan.chunk = Chunk::Fixed(64);
                                plan.yields = true;
                                let mut t = Tracer::new(&v, plan);
                                let o = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| F::from_reader(&mut t)));
                                (o, "a yielding reader among threads")
                            } else {
                                (std::panic::catch_unwind(|| Ok(F::from_bytes(&it.bytes))), "bytes among threads")
                            };
                            INSIDE.fetch_sub(1, Relaxed);
                            // How far the other threads moved meanwhile identifies the interleaving.
                            let moved = TICK.load(Relaxed) - at;
                            seen.insert(mix(moved ^ (k as u64) << 20));
                            let o = match o {
                                Ok(Ok(f)) => Out::Fmt(f),
                                Ok(Err(e)) => Out::Err(e.kind()),
                                Err(_) => Out::Panic("in a thread".into()),
                            };
                            if it.want.is_some() && o.fmt() != it.want {
                                bad.lock().unwrap().push((k, o, how));
                            }
                        }
                        order.lock().unwrap().extend(seen);
                    });
                }
            });
            cx.obs.evaluations += (threads * each) as u64;
            cx.max("threads inside a detection at once", peak.load(Relaxed));
            for h in order.into_inner().unwrap() {
                cx.obs.traces.insert(h);
            }
            for (k, o, how) in bad.into_inner().unwrap().into_iter().take(5) {
                c07_check(cx, &all[k], &o, how);
            }
        }),
        // Threads that live for a single detection.
        wl_serial("short threads", n(p, 300, 6000), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let ks: Vec<usize> = (0..16).map(|_| r.idx(all.len())).collect();
            let out: Vec<Option<F>> = std::thread::scope(|s| {
                let hs: Vec<_> = ks.iter().map(|&k| s.spawn(move || F::from_bytes(&all[k].bytes))).collect();
                hs.into_iter().map(|h| h.join().ok()).collect()
            });
            for (k, o) in ks.into_iter().zip(out) {
                let o = o.map_or(Out::Panic("in a thread".into()), Out::Fmt);
                c07_check(cx, &all[k], &o, "a thread of its own");
            }
        }),
        // One thread, one process, very many detections.
        wl_serial("long", n(p, 30, 400), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let set: Vec<usize> = (0..300).map(|_| r.idx(all.len())).filter(|&k| all[k].bytes.len() < 4000).collect();
            let mut worst = None;
            let k0 = set.len().max(1);
            for i in 0..20_000usize {
                let Some(&k) = set.get(i % k0) else { break };
                let f = F::from_bytes(&all[k].bytes);
                if all[k].want.is_some_and(|w| w != f) {
                    worst = Some((k, f));
                    break;
                }
            }
            cx.obs.evaluations += 20_000;
            if let Some((k, f)) = worst {
                c07_check(cx, &all[k], &Out::Fmt(f), "a long history");
            }
        }),
        // Threads that are all inside the same reader, on inputs that come near its limits.
        wl_serial("threads in one reader", n(p, 26, 400), |cx| {
            let mut r = cx.rng();
            let g = &FAMILY_GENS[cx.idx as usize % 12];
            let bin = PathBuf::from(&cx.p.bins).join("worker-all");
            let mut items: Vec<Item> = Vec::new();
            for _ in 0..400 {
                if items.len() == 12 {
                    break;
                }
                let Some(b) = (g.1)(&mut r).src.materialize(60_000) else { continue };
                // Those with many parts first, then any.
                let v = Virt::bytes(b.clone());
                let mut t = Tracer::new(&v, Plan::plain());
                let _ = guarded(|| F::from_reader(&mut t));
                if items.len() < 6 && t.st.ops < 40 && !r.one_in(40) {
                    continue;
                }
                let want = worker(&bin, &[&b]).and_then(|x| by_name().get(x[0].as_str()).copied());
                cx.nontrivial(hash(&b));
                items.push(Item { bytes: b, want });
            }
            if items.is_empty() {
                return;
            }
            cx.label(format!("threads in {}", g.0));
            let threads = *r.pick(&[4usize, 8, 16]);
            let each = 4000 / threads;
            let barrier = Barrier::new(threads);
            let bad: Mutex<Vec<(usize, Out)>> = Mutex::new(Vec::new());
            let seeds: Vec<Rng> = (0..threads).map(|_| Rng::new(r.u64(), "thread", 0)).collect();
            std::thread::scope(|s| {
                for mut r in seeds {
                    let (barrier, bad, items) = (&barrier, &bad, &items);
                    s.spawn(move || {
                        barrier.wait();
                        for _ in 0..each {
                            let k = r.idx(items.len());
                            let v = Virt::bytes(items[k].bytes.clone());
                            let mut plan = Plan::plain();
                            plan.yields = true;
                            if v.len < 20_000 {
                                plan.chunk = Chunk::Fixed(1 + v.len as usize / 16);
                            }
                            let mut t = Tracer::new(&v, plan);
                            let o = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| F::from_reader(&mut t))) {
                                Ok(Ok(f)) => Out::Fmt(f),
                                Ok(Err(e)) => Out::Err(e.kind()),
                                Err(_) => Out::Panic("in a thread".into()),
                            };
                            if items[k].want.is_some() && o.fmt() != items[k].want {
                                bad.lock().unwrap().push((k, o));
                                return;
                            }
                        }
                    });
                }
            });
            cx.obs.evaluations += (threads * each) as u64;
            for (k, o) in bad.into_inner().unwrap().into_iter().take(5) {
                c07_check(cx, &items[k], &o, "among threads in the same reader");
            }
        }),
        // A process of its own that detects a few inputs of one family very often.
        wl("repeated", n(p, 26, 120), |cx| {
            let mut r = cx.rng();
            let g = &FAMILY_GENS[cx.idx as usize % FAMILY_GENS.len()];
            let mut items: Vec<Vec<u8>> = Vec::new();
            for _ in 0..2000 {
                if items.len() == 4 {
                    break;
                }
                let Some(b) = (g.1)(&mut r).src.materialize(1500) else { continue };
                if g.0 == "text" || !matches!(det_bytes(&b).fmt(), Some(F::ArbitraryBinaryData | F::PlainText | F::Empty) | None) {
                    items.push(b);
                }
            }
            if items.is_empty() {
                return;
            }
            let count: u64 = if cx.idx as usize == FAMILY_GENS.len() * 2 { 17_000_000 } else { 135_000 };
            let mut input = Vec::new();
            for x in &items {
                cx.nontrivial(hash(x));
                input.extend_from_slice(&(x.len() as u32).to_le_bytes());
                input.extend_from_slice(x);
            }
            let bin = PathBuf::from(&cx.p.bins).join("worker-all");
            let run = || -> Option<String> {
                let mut c = Command::new(&bin).arg("--repeat").arg(count.to_string()).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
                c.stdin.take()?.write_all(&input).ok()?;
                let mut s = String::new();
                c.stdout.take()?.read_to_string(&mut s).ok()?;
                let st = c.wait().ok()?;
                if !st.success() {
                    s.push_str(&format!("\nended with {st}"));
                }
                Some(s)
            };
            let Some(out) = run() else {
                cx.inconclusive("cannot run a worker".into());
                return;
            };
            cx.obs.evaluations += count;
            cx.max("detections in one process", count);
            cx.label(format!("repeated {}", g.0));
            let last = out.lines().last().unwrap_or("").to_string();
            let fresh: Vec<Option<String>> = items.iter().map(|x| worker(&bin, &[x]).map(|v| v[0].clone())).collect();
            let same = out.lines().zip(&fresh).all(|(a, b)| b.as_deref().is_none_or(|b| a == b));
            if last != format!("DONE {count}") || !same {
                cx.fail(
                    format!("repeated:{}:{}", g.0, last.split_whitespace().last().unwrap_or("")),
                    format!("{} inputs detected in turn in one process: {last}; verdicts in fresh processes {fresh:?}, at first {:?}", items.len(), out.lines().take(items.len()).collect::<Vec<_>>()),
                    items.iter().map(|x| format!("len={} {}", x.len(), hex(x, 80))).collect::<Vec<_>>().join(" | "),
                );
            }
        }),
        // Other surroundings: environment and working directory of a fresh process.
        wl("surroundings", n(p, 200, 3000), |cx| {
            let all = corpus(cx.p);
            let mut r = cx.rng();
            let it = r.pick(all);
            let path = format!("{}/c07-s{}", cx.p.scratch, cx.idx);
            // The name of the file says nothing about its content.
            let named = format!("{path}.{}", r.pick(&["zip", "txt", "pdf", "exe", "xml", "mp3", "unknown", "tar.gz"]));
            std::fs::write(&named, &it.bytes).unwrap();
            let mut c = Command::new(PathBuf::from(&cx.p.bins).join("worker-all"));
            c.arg(&named).stdin(Stdio::null()).stderr(Stdio::null());
            if r.coin() {
                c.env_clear();
            } else {
                c.env("LANG", *r.pick(&["C", "tr_TR.UTF-8", "ja_JP.SJIS"])).env("TZ", "Pacific/Apia").env("RUST_BACKTRACE", "1").env("HOME", "/nonexistent");
            }
            c.current_dir(if r.coin() { "/" } else { "/tmp" });
            let o = c.output();
            let _ = std::fs::remove_file(&named);
            let Ok(o) = o else {
                cx.inconclusive("cannot run a worker".into());
                return;
            };
            let s = String::from_utf8_lossy(&o.stdout).trim().to_string();
            let o = by_name().get(s.as_str()).map_or(Out::Panic(s), |f| Out::Fmt(*f));
            c07_check(cx, it, &o, "a process with other surroundings");
        }),
    ]
}

// --- C09 --------------------------------------------------------------------------------------

struct Config {
    file: PathBuf,
    label: String,
    /// Short names of the readers compiled in, without "reader-".
    on: HashSet<String>,
}

fn configs(p: &Params) -> &'static Vec<Config> {
    static C: OnceLock<Vec<Config>> = OnceLock::new();
    C.get_or_init(|| {
        let t = std::fs::read_to_string(format!("{}/configs.txt", p.bins)).expect("configs.txt");
        t.lines()
            .map(|l| {
                let (f, s) = l.split_once('\t').unwrap();
                let (s, label) = match s.split_once('\t') {
                    Some((s, l)) => (s, l.to_string()),
                    None => (s, s.to_string()),
                };
                let on = if s.split(',').any(|x| x == "reader") {
                    FAMILIES.iter().map(|x| x.1.trim_start_matches("reader-").to_string()).chain(["txt".to_string()]).collect()
                } else {
                    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim_start_matches("reader-").to_string()).collect()
                };
                Config { file: PathBuf::from(&p.bins).join(f), label: if label.is_empty() { "none".into() } else { label }, on }
            })
            .collect()
    })
}

fn c09_input(r: &mut Rng) -> Vec<u8> {
    match r.below(12) {
        0 | 1 => mutant(r, 9000),
        2 => signature_case(r).src.materialize(60_000).unwrap_or_default(),
        3 => textish(r),
        4 => {
            // Two families at once.
            let (_, a) = any_small(r, 6000);
            let (_, b) = any_small(r, 6000);
            let k = r.idx(a.len().min(700) + 1);
            let mut v = a[..k].to_vec();
            v.extend_from_slice(b.get(k..).unwrap_or(&b));
            v
        }
        5 => {
            // A text body behind the signature of a base format.
            let row = FAMILIES[r.idx(FAMILIES.len())].0;
            let a = crate::spec_gen::SIGS.iter().find(|s| s.0 == row).map(|s| *r.pick(s.1)).unwrap();
            let mut v = textish(r);
            for (o, s) in a {
                if v.len() < o + s.len() {
                    v.resize(o + s.len(), b' ');
                }
                v[*o..*o + s.len()].copy_from_slice(s);
            }
            v
        }
        6 if r.one_in(4) => any_small(r, 200_000).1,
        _ => any_small(r, 9000).1,
    }
}

pub fn c09(p: &Params) -> Vec<Workload> {
    let _ = configs(p);
    vec![crate::checks_e::unchecked(p), wl("configurations", n(p, 100, 1500), |cx| {
        let cs = configs(cx.p);
        let mut r = cx.rng();
        let inputs: Vec<Vec<u8>> = (0..400).map(|_| c09_input(&mut r)).collect();
        let refs: Vec<&[u8]> = inputs.iter().map(|v| &v[..]).collect();
        let mut out: Vec<Vec<String>> = Vec::new();
        for c in cs {
            match worker(&c.file, &refs) {
                Some(v) => out.push(v),
                None => {
                    cx.inconclusive(format!("cannot run the worker {}", c.label));
                    return;
                }
            }
        }
        let find = |on: &[&str]| {
            cs.iter().position(|c| c.on.len() == on.len() && on.iter().all(|x| c.on.contains(*x)) && !c.label.ends_with("unchecked"))
        };
        let none = find(&[]).expect("no worker without features");
        for (i, x) in inputs.iter().enumerate() {
            let base = &out[none][i];
            let Some(&f) = by_name().get(base.as_str()) else {
                cx.fail(format!("none:{base}"), format!("without features: {base}"), hex(x, 200));
                continue;
            };
            let reader = refm::feature(f).map(|s| s.trim_start_matches("reader-"));
            cx.nontrivial(hash(x));
            // The text reader matters only where binary data would be reported without it.
            for (k, c) in cs.iter().enumerate().filter(|(_, c)| !c.on.contains("txt")) {
                let mut with: Vec<&str> = c.on.iter().map(|x| x.as_str()).collect();
                with.push("txt");
                let Some(t) = find(&with) else { continue };
                cx.eval();
                let (a, b) = (&out[k][i], &out[t][i]);
                if a != b && !(a == "ArbitraryBinaryData" && b == "PlainText") {
                    cx.fail(
                        format!("{}+txt:{a}:{b}", c.label),
                        format!("with features [{}]: {a}, with the text reader too: {b}", c.label),
                        format!("len={} {}", x.len(), hex(x, 200)),
                    );
                }
            }
            cx.label(reader.map_or(if f == F::ArbitraryBinaryData { "unidentified" } else { "no reader" }.to_string(), |s| format!("base format of {s}")));
            for (k, c) in cs.iter().enumerate() {
                let txt = c.on.contains("txt");
                let mut rel: Vec<&str> = Vec::new();
                match reader {
                    Some(s) => {
                        if c.on.contains(s) {
                            rel.push(s);
                            if txt {
                                rel.push("txt");
                            }
                        }
                    }
                    None if f == F::ArbitraryBinaryData && txt => rel.push("txt"),
                    None => {}
                }
                let Some(e) = find(&rel) else {
                    cx.inconclusive(format!("no worker with only {rel:?}"));
                    continue;
                };
                let want = &out[e][i];
                cx.eval();
                if &out[k][i] != want {
                    cx.fail(
                        format!("{}:{want}:{}", c.label, out[k][i]),
                        format!("with features [{}]: {} instead of {want} as with [{}] alone", c.label, out[k][i], rel.join(",")),
                        format!("len={} {}", x.len(), hex(x, 200)),
                    );
                }
            }
        }
        cx.sample(|| format!("{} inputs through {} builds: {}", inputs.len(), cs.len(), cs.iter().map(|c| c.label.clone()).collect::<Vec<_>>().join(" | ")));
        cx.max("builds compared", cs.len() as u64);
    })]
}

// --- C25 --------------------------------------------------------------------------------------

mod inotify {
    extern "C" {
        fn inotify_init1(flags: i32) -> i32;
        fn inotify_add_watch(fd: i32, path: *const std::ffi::c_char, mask: u32) -> i32;
        fn read(fd: i32, b: *mut std::ffi::c_void, n: usize) -> isize;
        fn close(fd: i32) -> i32;
    }
    pub struct Watch(i32);
    pub const ACCESS: u32 = 1;
    pub const OPEN: u32 = 0x20;
    pub const CLOSE_NOWRITE: u32 = 0x10;
    const CHANGES: u32 = 0x2 | 0x4 | 0x8 | 0x40 | 0x80 | 0x100 | 0x200 | 0x400 | 0x800;
    impl Watch {
        pub fn on(paths: &[&std::path::Path]) -> Option<Watch> {
            use std::os::unix::ffi::OsStrExt;
            // SAFETY: plain system calls with valid arguments; the descriptor is closed by drop.
            unsafe {
                let fd = inotify_init1(0o4000 | 0o2000000);
                if fd < 0 {
                    return None;
                }
                let w = Watch(fd);
                for p in paths {
                    let c = std::ffi::CString::new(p.as_os_str().as_bytes()).ok()?;
                    if inotify_add_watch(fd, c.as_ptr(), CHANGES | ACCESS | OPEN | CLOSE_NOWRITE) < 0 {
                        return None;
                    }
                }
                Some(w)
            }
        }
        /// (event mask, name) of everything that happened.
        pub fn drain(&self) -> Vec<(u32, String)> {
            let mut out = Vec::new();
            let mut b = vec![0u8; 65_536];
            loop {
                // SAFETY: reads into a buffer of that size.
                let k = unsafe { read(self.0, b.as_mut_ptr().cast(), b.len()) };
                if k <= 0 {
                    return out;
                }
                let mut i = 0usize;
                while i + 16 <= k as usize {
                    let g = |a: usize| u32::from_ne_bytes(b[i + a..i + a + 4].try_into().unwrap());
                    let (mask, len) = (g(4), g(12) as usize);
                    let name = String::from_utf8_lossy(&b[i + 16..i + 16 + len]).trim_end_matches('\0').to_string();
                    out.push((mask, name));
                    i += 16 + len;
                }
            }
        }
    }
    impl Drop for Watch {
        fn drop(&mut self) {
            // SAFETY: closes the descriptor this value owns.
            unsafe { close(self.0) };
        }
    }
    pub fn show(m: u32) -> String {
        const N: &[(u32, &str)] = &[
            (2, "modified"), (4, "attributes changed"), (8, "closed after writing"), (0x40, "moved from"), (0x80, "moved to"), (0x100, "created"), (0x200, "deleted"),
            (0x400, "deleted itself"), (0x800, "moved itself"), (1, "read"), (0x10, "closed"), (0x20, "opened"),
        ];
        N.iter().filter(|x| m & x.0 != 0).map(|x| x.1).collect::<Vec<_>>().join("+")
    }
    pub fn is_change(m: u32) -> bool {
        m & CHANGES != 0
    }
}

/// Everything about a path that detection must not change.
fn snapshot(p: &Path) -> String {
    match std::fs::symlink_metadata(p) {
        Ok(m) => {
            let mut s = format!(
                "ino={} mode={:o} nlink={} uid={} gid={} size={} blocks={} mtime={}.{:09} ctime={}.{:09}",
                m.ino(), m.mode(), m.nlink(), m.uid(), m.gid(), m.size(), m.blocks(), m.mtime(), m.mtime_nsec(), m.ctime(), m.ctime_nsec()
            );
            if m.is_file() && m.size() < 1 << 20 {
                s += &format!(" content={:016x}", std::fs::read(p).map(|b| hash(&b)).unwrap_or(0));
            }
            if m.is_dir() {
                let mut l: Vec<_> = std::fs::read_dir(p).map(|d| d.flatten().map(|e| e.file_name()).collect()).unwrap_or_default();
                l.sort();
                s += &format!(" entries={l:?}");
            }
            s
        }
        Err(e) => format!("{:?}", e.kind()),
    }
}

fn open_fds() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir("/proc/self/fd")
        .map(|d| d.flatten().map(|e| format!("{} -> {:?}", e.file_name().to_string_lossy(), std::fs::read_link(e.path()).unwrap_or_default())).collect())
        .unwrap_or_default();
    // The descriptor of the listing itself.
    v.retain(|s| !s.contains("/proc/") || !s.ends_with("/fd\""));
    v.sort();
    v
}

fn c25_run(cx: &mut Cx, path: &Path, watch: &[&Path], want: Option<&Out>, what: &str) -> Out {
    let before: Vec<String> = watch.iter().map(|p| snapshot(p)).collect();
    let w = inotify::Watch::on(watch);
    let (o, _) = guarded(|| F::from_file(path));
    let ev = w.as_ref().map(|w| w.drain()).unwrap_or_default();
    drop(w);
    let after: Vec<String> = watch.iter().map(|p| snapshot(p)).collect();
    cx.eval();
    for (m, _) in &ev {
        if m & inotify::OPEN != 0 {
            cx.label("open event observed");
        }
        if m & inotify::ACCESS != 0 {
            cx.label("read event observed");
        }
        if m & inotify::CLOSE_NOWRITE != 0 {
            cx.label("close without writing observed");
        }
    }
    for (m, name) in ev.iter().filter(|e| inotify::is_change(e.0)) {
        cx.fail(format!("{what}:{}", inotify::show(*m)), format!("{what}: detection caused the event '{}' on {name:?} (result {})", inotify::show(*m), o.show()), path.display().to_string());
    }
    for ((p, a), b) in watch.iter().zip(&before).zip(&after) {
        if a != b {
            cx.fail(format!("{what}:state"), format!("{what}: {} changed from [{a}] to [{b}] (result {})", p.display(), o.show()), path.display().to_string());
        }
    }
    if let Some(w) = want {
        if w != &o {
            cx.fail(format!("{what}:{}:{}", w.show(), o.show()), format!("{what}: {} instead of {}", o.show(), w.show()), path.display().to_string());
        }
    }
    o
}

fn clear_dir(d: &str) {
    let _ = std::fs::set_permissions(d, std::fs::Permissions::from_mode(0o755));
    let _ = std::fs::remove_dir_all(d);
}

pub fn c25(p: &Params) -> Vec<Workload> {
    let _ = p;
    vec![
        wl("observed", n(p, 5000, 120_000), |cx| {
            let mut r = cx.rng();
            let b = match r.below(8) {
                0 => vec![],
                1 => mutant(&mut r, 9000),
                2 => textish(&mut r),
                _ => any_small(&mut r, 60_000).1,
            };
            let want = det_bytes(&b);
            let d = format!("{}/c25-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            let name = *r.pick(&["file", "file.zip", "file.xml", ".hidden", "a b", "file.exe", "file.pdf"]);
            let f = PathBuf::from(format!("{d}/{name}"));
            std::fs::write(&f, &b).unwrap();
            set_times(f.to_str().unwrap(), 1_000_000_000 + r.below(600_000_000) as i64);
            let mode = *r.pick(&[0o644u32, 0o444, 0o400, 0o600, 0o755, 0o666, 0o4755]);
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)).unwrap();
            if r.one_in(3) {
                std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).unwrap();
            }
            cx.nontrivial(hash(&b) ^ mode as u64);
            cx.label(format!("mode {mode:o}"));
            let dir = PathBuf::from(&d);
            let o = c25_run(cx, &f, &[&f, &dir], Some(&want), "regular file");
            cx.sample(|| format!("{name} of {} bytes, mode {mode:o}: {}", b.len(), o.show()));
            if r.one_in(4) {
                let l = dir.join("link");
                if std::os::unix::fs::symlink(&f, &l).is_ok() {
                    c25_run(cx, &l, &[&f, &dir], Some(&want), "symbolic link");
                }
            }
            clear_dir(&d);
        }),
        // Paths that cannot be read.
        wl("failing", n(p, 100, 2000), |cx| {
            let mut r = cx.rng();
            let d = format!("{}/c25f-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir_all(format!("{d}/sub")).unwrap();
            let dir = PathBuf::from(&d);
            let _ = std::os::unix::fs::symlink(format!("{d}/gone"), format!("{d}/dangling"));
            let _ = std::os::unix::fs::symlink(format!("{d}/loop"), format!("{d}/loop"));
            let _ = std::os::unix::fs::symlink(format!("{d}/sub"), format!("{d}/dirlink"));
            for name in ["missing", "missing.zip", "sub", "sub/", "sub/missing", "dangling", "loop", "dirlink", "nodir/missing", ""] {
                let path = if name.is_empty() { PathBuf::new() } else { dir.join(name) };
                let sub = dir.join("sub");
                let o = c25_run(cx, &path, &[&dir, &sub], None, "unreadable path");
                cx.nontrivial(hash(name.as_bytes()) ^ r.u64());
                cx.label(format!("{name:?}: {}", o.show()));
                if o.fmt().is_some() {
                    cx.fail(format!("unreadable:{name}:{}", o.show()), format!("unreadable path {name:?}: {}", o.show()), path.display().to_string());
                }
            }
            clear_dir(&d);
        }),
        // Descriptors open before and after, with nothing else running.
        wl_serial("descriptors", n(p, 3000, 40_000), |cx| {
            let mut r = cx.rng();
            let before = open_fds();
            let d = format!("{}/c25d-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir_all(format!("{d}/sub")).unwrap();
            let path = match r.below(6) {
                0 => format!("{d}/missing"),
                1 => format!("{d}/sub"),
                _ => {
                    let b = if r.coin() { mutant(&mut r, 9000) } else { any_small(&mut r, 60_000).1 };
                    std::fs::write(format!("{d}/f"), b).unwrap();
                    format!("{d}/f")
                }
            };
            let (o, _) = guarded(|| F::from_file(&path));
            clear_dir(&d);
            let after = open_fds();
            cx.eval();
            cx.nontrivial(r.u64());
            cx.max("open descriptors", after.len() as u64);
            cx.label(if o.fmt().is_some() { "format" } else { "error" });
            if before != after {
                cx.fail("descriptors", format!("descriptors before {before:?}, after {after:?} (result {})", o.show()), path);
            }
        }),
        // A program that is running cannot be opened for writing by anybody.
        wl_serial("running program", 20, |cx| {
            let exe = std::env::current_exe().unwrap();
            let want = std::fs::read(&exe).map(|b| det_bytes(&b)).ok();
            let (o, _) = guarded(|| F::from_file(&exe));
            cx.eval();
            cx.label(o.show());
            if want.is_some_and(|w| w != o) {
                cx.fail("running program", format!("the running program: {}", o.show()), exe.display().to_string());
            }
            let (o, _) = guarded(|| F::from_file("/proc/self/status"));
            cx.eval();
            if o.fmt().is_none() {
                cx.fail("read-only system file", format!("/proc/self/status: {}", o.show()), String::new());
            }
        }),
        // Another user, who may only read.
        wl_serial("unprivileged", n(p, 60, 600), |cx| {
            use std::os::unix::process::CommandExt;
            let mut r = cx.rng();
            let d = format!("{}/c25u-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir_all(&d).unwrap();
            let bin = format!("{d}/worker");
            std::fs::copy(PathBuf::from(&cx.p.bins).join("worker-all"), &bin).unwrap();
            std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755)).unwrap();
            let mut paths = Vec::new();
            let mut want = Vec::new();
            for k in 0..24 {
                let b = if k % 4 == 0 { mutant(&mut r, 9000) } else { any_small(&mut r, 60_000).1 };
                let f = PathBuf::from(format!("{d}/f{k}"));
                std::fs::write(&f, &b).unwrap();
                std::fs::set_permissions(&f, std::fs::Permissions::from_mode(if k % 3 == 0 { 0o004 } else { 0o444 })).unwrap();
                want.push(det_bytes(&b).show());
                paths.push(f);
            }
            // One that may not be read at all.
            let f = PathBuf::from(format!("{d}/secret"));
            std::fs::write(&f, b"%PDF-1.4\n").unwrap();
            std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o600)).unwrap();
            want.push("ERROR PermissionDenied".into());
            paths.push(f);
            std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o555)).unwrap();
            let dir = PathBuf::from(&d);
            let mut all: Vec<&Path> = paths.iter().map(|p| p.as_path()).collect();
            all.push(&dir);
            let before: Vec<String> = all.iter().map(|p| snapshot(p)).collect();
            let o = Command::new(&bin).args(&paths).uid(65534).gid(65534).stdin(Stdio::null()).stderr(Stdio::null()).output();
            let after: Vec<String> = all.iter().map(|p| snapshot(p)).collect();
            match o {
                Err(e) => cx.inconclusive(format!("cannot run a worker as another user: {e}")),
                Ok(o) => {
                    let got: Vec<String> = String::from_utf8_lossy(&o.stdout).lines().map(|s| s.to_string()).collect();
                    if got.is_empty() {
                        cx.inconclusive(format!("no answer from a worker of another user: {}", o.status));
                    }
                    for (i, (w, g)) in want.iter().zip(&got).enumerate() {
                        cx.eval();
                        cx.label(if w.starts_with("ERROR") { "not readable" } else { "read-only file" });
                        if w != g {
                            cx.fail(format!("unprivileged:{w}:{g}"), format!("another user's read-only file: {g} instead of {w}"), paths[i].display().to_string());
                        }
                    }
                    cx.nontrivial(r.u64());
                    if before != after {
                        cx.fail("unprivileged:state", "files changed while another user detected their formats".into(), d.clone());
                    }
                }
            }
            clear_dir(&d);
        }),
    ]
}

// --- C26 --------------------------------------------------------------------------------------

fn odd_name(r: &mut Rng, k: usize) -> OsString {
    let b: Vec<u8> = match r.below(12) {
        0 => format!("file{k}.bin").into_bytes(),
        1 => format!("a b  c{k}").into_bytes(),
        2 => format!("\u{e9}t\u{e9}-{k}").into_bytes(),
        3 => format!("\u{65e5}\u{672c}\u{8a9e}{k}.txt").into_bytes(),
        4 => format!("e\u{301}{k}").into_bytes(),
        5 => format!("\u{1F600}\u{1F469}\u{200D}\u{1F4BB}{k}").into_bytes(),
        6 => format!("\u{200B}\u{AD}{k}").into_bytes(),
        7 => format!("\u{FFFD}\u{5D0}\u{5D1}{k}").into_bytes(),
        8 => format!("-{k}").into_bytes(),
        9 => format!("{{{k}}}: %s").into_bytes(),
        10 => format!("{}{k}", "n".repeat(r.idx(200))).into_bytes(),
        _ => format!("{k}:").into_bytes(),
    };
    OsString::from_vec(b)
}

pub fn c26(p: &Params) -> Vec<Workload> {
    vec![
        wl("listings", n(p, 20_000, 400_000), |cx| {
            let mut r = cx.rng();
            let d = format!("{}/c26-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            let dir = Path::new(&d);
            // name -> text expected behind the padding
            let mut entries: Vec<(OsString, String)> = Vec::new();
            for k in 0..1 + r.idx(9) {
                let name = odd_name(&mut r, k);
                let path = dir.join(&name);
                let what = match r.below(7) {
                    0 => {
                        std::fs::create_dir(&path).unwrap();
                        "Directory".to_string()
                    }
                    1 => {
                        let t = match r.below(3) {
                            0 => PathBuf::from("nowhere"),
                            1 => PathBuf::from("."),
                            _ => entries.last().map(|e| PathBuf::from(&e.0)).unwrap_or("nowhere".into()),
                        };
                        std::os::unix::fs::symlink(t, &path).unwrap();
                        "Symbolic Link".to_string()
                    }
                    _ => {
                        let b = match r.below(8) {
                            0 => vec![],
                            1 => textish(&mut r),
                            2 | 3 => signature_case(&mut r).src.materialize(1 << 20).unwrap(),
                            _ => any_small(&mut r, 20_000).1,
                        };
                        std::fs::write(&path, &b).unwrap();
                        match det_bytes(&b) {
                            Out::Fmt(f) => {
                                cx.label(if f.short_name().is_some() { "with short name" } else { "without short name" });
                                match f.short_name() {
                                    Some(s) => format!("{} ({s})", f.name()),
                                    None => f.name().to_string(),
                                }
                            }
                            o => o.show(),
                        }
                    }
                };
                entries.push((name, what));
            }
            let count = if r.one_in(20) { 0 } else if r.one_in(20) { 200 } else { 1 + r.idx(12) };
            let mut args: Vec<(OsString, String)> = Vec::new();
            for _ in 0..count {
                let (name, what) = r.pick(&entries).clone();
                let form = match r.below(5) {
                    0 => dir.join(&name).into_os_string(),
                    1 => Path::new("./.").join(&name).into_os_string(),
                    2 if what == "Directory" => {
                        let mut s = name.clone();
                        s.push("/");
                        s
                    }
                    3 => {
                        let mut s = OsString::from("./");
                        s.push(&name);
                        s
                    }
                    _ => name.clone(),
                };
                args.push((form, what));
            }
            if r.one_in(10) {
                args.push(("..".into(), "Directory".into()));
            }
            let broken = r.one_in(8);
            let at = r.idx(args.len() + 1);
            if broken {
                args.insert(at, ("no such file".into(), String::new()));
            }
            let lossy: Vec<String> = args.iter().map(|a| a.0.to_string_lossy().into_owned()).collect();
            let width = lossy.iter().map(|s| s.chars().count()).max().unwrap_or(0);
            let mut want = String::new();
            for (s, (_, what)) in lossy.iter().zip(&args).take(if broken { at } else { args.len() }) {
                want += s;
                want.push(':');
                for _ in s.chars().count()..width {
                    want.push(' ');
                }
                want += &format!(" {what}\n");
            }
            let o = Command::new(PathBuf::from(&cx.p.bins).join("lefi")).args(args.iter().map(|a| &a.0)).current_dir(&d).stdin(Stdio::null()).output();
            clear_dir(&d);
            let o = match o {
                Ok(o) => o,
                Err(e) => {
                    cx.inconclusive(format!("cannot run lefi: {e}"));
                    return;
                }
            };
            cx.eval();
            cx.nontrivial(hash(want.as_bytes()) ^ hash(&args.iter().flat_map(|a| a.0.as_bytes().to_vec()).collect::<Vec<_>>()));
            cx.label(if broken { "a path that cannot be read" } else { "existing paths" });
            cx.max("arguments", args.len() as u64);
            for a in &args {
                if std::str::from_utf8(a.0.as_bytes()).is_err() {
                    cx.label("argument that is not Unicode");
                }
                if matches!(a.1.as_str(), "Directory" | "Symbolic Link") {
                    cx.label(a.1.clone());
                }
            }
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            cx.sample(|| got.clone());
            let input = format!("{args:?}");
            if got != want {
                let (a, b) = got.lines().zip(want.lines()).find(|(a, b)| a != b).unwrap_or(("(number of lines)", "(number of lines)"));
                cx.fail("output", format!("printed {a:?} instead of {b:?} ({} lines instead of {})", got.lines().count(), want.lines().count()), input.clone());
            }
            if o.status.success() == broken {
                cx.fail(format!("exit:{broken}"), format!("ended with {} {}", o.status, if broken { "although a path cannot be read" } else { "although every path exists" }), input);
            }
            if o.status.code().is_none() || o.status.code() == Some(101) {
                cx.fail("crash", format!("ended with {}: {}", o.status, String::from_utf8_lossy(&o.stderr)), format!("{args:?}"));
            }
        }),
        // One file per format with a known signature.
        wl("formats", crate::checks_a::alts().len() as u64, |cx| {
            let x = crate::checks_a::alts()[cx.idx as usize];
            let a = crate::checks_a::alt(x);
            let mut b = vec![0u8; refm::alt_end(a) + 1];
            for (o, s) in a {
                b[*o..*o + s.len()].copy_from_slice(s);
            }
            let d = format!("{}/c26s-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            std::fs::write(format!("{d}/f"), &b).unwrap();
            let o = Command::new(PathBuf::from(&cx.p.bins).join("lefi")).arg("f").current_dir(&d).stdin(Stdio::null()).output();
            clear_dir(&d);
            let Ok(o) = o else {
                cx.inconclusive("cannot run lefi".into());
                return;
            };
            cx.eval_distinct();
            if let Out::Fmt(f) = det_bytes(&b) {
                let row = FORMATS.iter().find(|r| r.0 == f).unwrap();
                let want = match row.3 {
                    Some(s) => format!("f: {} ({s})\n", row.2),
                    None => format!("f: {}\n", row.2),
                };
                let got = String::from_utf8_lossy(&o.stdout);
                if got != want || !o.status.success() {
                    cx.fail(format!("format {f:?}"), format!("printed {got:?} instead of {want:?}, {}", o.status), hex(&b, 60));
                }
            }
        }),
        // Names that are not valid Unicode.
        wl("not unicode", n(p, 200, 2000), |cx| {
            let mut r = cx.rng();
            let d = format!("{}/c26u-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            let name = match r.below(3) {
                0 => [b"\xFF\xFE".as_slice(), b"\xC3"].concat(),
                1 => [b"x\xE2\x82".as_slice(), b"y", b"\xF0\x9F\x98"].concat(),
                _ => [r.filler(3).into_iter().map(|c| c | 0x80).collect::<Vec<u8>>(), b"\xFF".to_vec()].concat(),
            };
            let name = OsString::from_vec(name);
            let b = any_small(&mut r, 2000).1;
            std::fs::write(Path::new(&d).join(&name), &b).unwrap();
            let args = if r.coin() { vec![name.clone()] } else { vec![name.clone(), name.clone()] };
            let o = Command::new(PathBuf::from(&cx.p.bins).join("lefi")).args(&args).current_dir(&d).stdin(Stdio::null()).output();
            clear_dir(&d);
            let Ok(o) = o else {
                cx.inconclusive("cannot run lefi".into());
                return;
            };
            cx.eval();
            cx.nontrivial(hash(name.as_bytes()) ^ args.len() as u64);
            cx.label("argument that is not Unicode");
            let Out::Fmt(f) = det_bytes(&b) else { return };
            let what = f.short_name().map_or(f.name().to_string(), |s| format!("{} ({s})", f.name()));
            let want = format!("{}: {what}\n", name.to_string_lossy()).repeat(args.len());
            let got = String::from_utf8_lossy(&o.stdout).into_owned();
            if got == want && o.status.success() {
                return;
            }
            let key = match (o.status.code(), got.is_empty()) {
                (Some(c), true) => format!("argument that is not Unicode: exit {c} without output"),
                (c, _) => format!("argument that is not Unicode: {c:?} {got:?}"),
            };
            cx.fail(key, format!("an argument that is not Unicode: printed {got:?} instead of {want:?}, {}", o.status), format!("{args:?}"));
        }),
    ]
}


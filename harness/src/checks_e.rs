//! C28: the same verdicts where addresses have 32 bits and where numbers are stored big end first.
//!
//! One program (platform/) is built for this machine, for 32-bit x86 and for big-endian s390x (which an interpreter executes).
//! All three read the same recorded sources; their verdicts are compared line by line.
use crate::checks_a::{alt, alts};
use crate::gens::Case;
use crate::gens2::{any, any_small, signature_case, textish, FAMILY_GENS};
use crate::meter;
use crate::mutate::{hostile, mutant, mutant_virt};
use crate::rng::Rng;
use crate::run::{wl, Cx, Params, Workload};
use crate::source::{Plan, Virt};
use std::io::Read;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn encode(v: &Virt, out: &mut Vec<u8>) {
    out.extend(v.len.to_le_bytes());
    out.extend((v.fill.len() as u32).to_le_bytes());
    out.extend(&v.fill);
    out.extend((v.segs.len() as u32).to_le_bytes());
    for (a, b) in &v.segs {
        out.extend(a.to_le_bytes());
        out.extend((b.len() as u32).to_le_bytes());
        out.extend(b);
    }
}

/// A source whose reading panics: shows that panics are seen on every platform.
fn canary() -> Virt {
    Virt { len: 100, segs: vec![], fill: vec![] }
}

/// The verdicts of one platform on the sources, or why there are none.
fn ask(cx: &Cx, bin: &str, vs: &[&Virt], wait: u64) -> Result<Vec<String>, String> {
    let f = format!("{}/c28-{}-{}-{bin}", cx.p.scratch, cx.name.replace([' ', ','], "_"), cx.idx);
    let mut b = Vec::new();
    encode(&canary(), &mut b);
    for v in vs {
        encode(v, &mut b);
    }
    std::fs::write(&f, b).map_err(|e| e.to_string())?;
    let r = run(bin, &PathBuf::from(&cx.p.bins).join(bin), &f, wait);
    let _ = std::fs::remove_file(&f);
    let text = r?;
    let mut l: Vec<String> = text.lines().map(str::to_string).collect();
    let platform = if l.is_empty() { String::new() } else { l.remove(0) };
    let expected = match bin {
        "native" | "native-unchecked" => "PLATFORM 64 bits, little endian",
        "narrow" => "PLATFORM 32 bits, little endian",
        _ => "PLATFORM 64 bits, big endian",
    };
    if platform != expected {
        return Err(format!("announces {platform:?}"));
    }
    if l.len() != vs.len() + 2 || l.last().map(String::as_str) != Some("END") || !l[0].starts_with("PANIC") {
        return Err(format!("{} lines instead of {}: {:?}", l.len(), vs.len() + 2, l.first()));
    }
    l.pop();
    l.remove(0);
    Ok(l)
}

fn run(bin: &str, exe: &std::path::Path, file: &str, wait: u64) -> Result<String, String> {
    let mut c = Command::new(exe).arg(file).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| format!("{bin}: {e}"))?;
    let (mut o, mut e) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let out = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = o.read_to_end(&mut b);
        b
    });
    let err = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = e.read_to_end(&mut b);
        b
    });
    let t = Instant::now();
    let status = loop {
        match c.try_wait().map_err(|e| e.to_string())? {
            Some(s) => break Some(s),
            None if t.elapsed() > Duration::from_secs(wait) => {
                let _ = c.kill();
                let _ = c.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(5)),
        }
    };
    if status.is_none() {
        // Children of the interpreter's launcher may hold the pipes: do not wait for them.
        return Err(format!("{bin}: no answer in {wait} s"));
    }
    let (o, e) = (out.join().unwrap(), err.join().unwrap());
    let status = status.unwrap();
    if !status.success() {
        return Err(format!("{bin}: {status}: {}", String::from_utf8_lossy(&e).chars().rev().take(600).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
    }
    Ok(String::from_utf8_lossy(&o).into_owned())
}

fn compare(cx: &mut Cx, bin: &'static str, vs: Vec<(Virt, String)>) {
    let how = match bin {
        "narrow" => "with 32-bit addresses",
        "native-unchecked" => "without run-time checks",
        _ => "with big-endian numbers",
    };
    let all: Vec<&Virt> = vs.iter().map(|x| &x.0).collect();
    let wait = if bin.starts_with("n") { 120 } else { 400 };
    let native = match ask(cx, "native", &all, 120) {
        Ok(l) => l,
        Err(e) => return cx.inconclusive(e),
    };
    let other = match ask(cx, bin, &all, wait) {
        Ok(l) => l.into_iter().map(Ok).collect::<Vec<_>>(),
        Err(e) => {
            // Which source is it? If none reproduces the failure, there is no answer.
            let mut l: Vec<Result<String, String>> = Vec::new();
            let mut failed = 0;
            for v in &all {
                if failed > 1 {
                    break;
                }
                l.push(ask(cx, bin, &[v], 60).map(|mut x| x.remove(0)));
                if l.last().unwrap().is_err() {
                    failed += 1;
                }
            }
            if failed == 0 || failed == l.len() {
                return cx.inconclusive(e);
            }
            l
        }
    };
    for (((v, tag), n), o) in vs.iter().zip(&native).zip(&other) {
        // Differences between entry points are the business of another property.
        if n.contains(' ') && !n.starts_with("ERROR") {
            cx.label("verdicts differ between entry points on this machine");
            continue;
        }
        cx.eval();
        cx.nontrivial(v.hash());
        match o {
            Ok(o) => {
                if o != n {
                    cx.fail(format!("{bin}:{n}:{o}"), format!("{o} {how}, {n} on this machine ({tag})"), v.describe(400));
                }
                cx.label(format!("{bin}: {n}"));
                if v.len > u32::MAX as u64 {
                    cx.label(format!("{bin}: sources over 4 GiB"));
                }
            }
            // A native run of the same source ended normally.
            Err(e) if e.contains("no answer in") => cx.inconclusive(format!("{tag}: {e}")),
            Err(e) => cx.fail(format!("{bin}:crash:{n}"), format!("the process ends {how}: {e}; {n} on this machine ({tag})"), v.describe(400)),
        }
    }
    cx.sample(|| format!("{} sources {how}, first {}: {}", all.len(), vs[0].1, native[0]));
}

/// Grows a file past 4 GiB and sets the upper halves of some of its numbers.
fn widen(r: &mut Rng) -> (Virt, String) {
    let (c, b) = any_small(r, 60_000);
    let mut v = Virt { len: c.src.len, segs: vec![(0, b.clone())], fill: c.src.fill.clone() };
    let n = b.len();
    if !r.one_in(4) {
        let base = (1 + r.log(1 << 12)) << 32;
        let len = match r.below(5) {
            0 => base + r.below(64),
            1 => base + r.log(70_000),
            2 => base + n as u64,
            3 => base + r.below(n as u64 + 1),
            _ => base - 1 - r.log(70_000),
        };
        v.len = len;
        // Structures found from the end are repeated there.
        if n >= 22 && c.tag.contains("zip") || r.one_in(8) {
            let tail = b.windows(4).rposition(|w| w == b"PK\x05\x06").map_or(n.min(42), |k| n - k).max(22) + if r.coin() { 20 } else { 0 };
            let tail = tail.min(n);
            if len >= tail as u64 {
                v.put(len - tail as u64, b[n - tail..].to_vec());
                v.len = len;
            }
        }
    }
    let mut done = 0;
    for _ in 0..r.below(4) {
        let (_, s) = &mut v.segs[0];
        if s.len() < 16 {
            break;
        }
        let lim = if r.coin() { s.len().min(400) } else { s.len() } - 8;
        let at = r.idx(lim);
        // A small number of 8 bytes, in either order, of which one upper bit or byte is set.
        for k in 0..lim {
            let p = (at + k) % lim;
            let w = &s[p..p + 8];
            let le = w[3..].iter().all(|x| *x == 0) && w[..3].iter().any(|x| *x != 0);
            let be = w[..5].iter().all(|x| *x == 0) && w[5..].iter().any(|x| *x != 0);
            let vint = w[0] == 1 && w[1..4].iter().all(|x| *x == 0);
            if le {
                s[p + 4 + r.idx(2)] |= 1 << r.below(3);
            } else if be {
                s[p + 2 + r.idx(2)] |= 1 << r.below(3);
            } else if vint {
                s[p + 3] |= 1 << r.below(3);
            } else {
                continue;
            }
            done += 1;
            break;
        }
    }
    (v, format!("widened ({done} numbers) {}", c.tag))
}

/// Cheap enough for the interpreter.
fn light(v: &Virt) -> bool {
    if v.fill.len() > 1 || v.segs.iter().map(|s| s.1.len()).sum::<usize>() > 100_000 {
        return false;
    }
    let (_, st, _) = meter::det_src(v, Plan::plain());
    st.bytes < 110_000 && st.reads < 600
}

fn gather(r: &mut Rng, n: usize, ok: fn(&Virt) -> bool, mut g: impl FnMut(&mut Rng) -> (Virt, String)) -> Vec<(Virt, String)> {
    let mut out = Vec::new();
    for _ in 0..n * 5 {
        if out.len() == n {
            break;
        }
        let x = g(r);
        if ok(&x.0) {
            out.push(x);
        }
    }
    out
}

fn whole(r: &mut Rng, k: usize) -> (Virt, String) {
    let x = alts()[k % alts().len()];
    let n = alt(x).iter().map(|(o, s)| o + s.len()).max().unwrap_or(0);
    let mut v = r.filler(n + r.clone().idx(40));
    for (o, s) in alt(x) {
        v[*o..*o + s.len()].copy_from_slice(s);
    }
    (Virt::bytes(v), format!("signature {:?}[{}]", crate::spec_gen::SIGS[x.0].0, x.1))
}

fn some(r: &mut Rng, k: usize) -> (Virt, String) {
    let (name, g) = FAMILY_GENS[k % FAMILY_GENS.len()];
    let c = g(r);
    (c.src, format!("{name} {}", c.tag))
}

/// Part of C09: run-time checks make no difference, for files of every kind and size.
pub fn unchecked(p: &Params) -> Workload {
    wl("run-time checks", if p.thorough { 3000 } else { 300 }, |cx| {
        let mut r = cx.rng();
        let mut k = r.idx(100);
        let vs = gather(&mut r, 200, |_| true, |r| {
            k += 1;
            match r.below(8) {
                0 | 1 => widen(r),
                2 => {
                    let c = match r.below(3) {
                        0 => hostile(r),
                        1 => mutant_virt(r),
                        _ => any(r),
                    };
                    (c.src, c.tag)
                }
                _ => some(r, k),
            }
        });
        compare(cx, "native-unchecked", vs);
    })
}

pub fn c28(p: &Params) -> Vec<Workload> {
    let n = |q, t| if p.thorough { t } else { q };
    let always: fn(&Virt) -> bool = |_| true;
    // Without 32-bit programs, the interpreter takes their place.
    let slow = std::path::Path::new(&p.bins).join("narrow-interpreted").exists();
    let (ok, batch): (fn(&Virt) -> bool, usize) = if slow { (light, 40) } else { (always, 400) };
    let s = |q, t| if slow { n(16, 100) } else { n(q, t) };
    let count = alts().len();
    vec![
        wl("32 bits, signatures", count.div_ceil(batch) as u64, move |cx| {
            let mut r = cx.rng();
            let mut k = cx.idx as usize * batch;
            let vs = gather(&mut r, batch.min(count - k), always, |r| {
                k += 1;
                whole(r, k - 1)
            });
            compare(cx, "narrow", vs);
        }),
        wl("32 bits, files", s(120, 3000), move |cx| {
            let mut r = cx.rng();
            let mut k = 0;
            let vs = gather(&mut r, batch, ok, |r| {
                k += 1;
                some(r, k)
            });
            compare(cx, "narrow", vs);
        }),
        wl("32 bits, past 4 GiB", s(120, 4000), move |cx| {
            let mut r = cx.rng();
            let vs = gather(&mut r, batch, ok, widen);
            compare(cx, "narrow", vs);
        }),
        wl("32 bits, hostile", s(40, 1200), move |cx| {
            let mut r = cx.rng();
            let vs = gather(&mut r, batch / 2, ok, |r| {
                let c = match r.below(4) {
                    0 => hostile(r),
                    1 => Case { src: Virt::bytes(mutant(r, 60_000)), want: vec![], tag: "mutant".into() },
                    2 => Case { src: Virt::bytes(textish(r)), want: vec![], tag: "text".into() },
                    _ => mutant_virt(r),
                };
                (c.src, c.tag)
            });
            compare(cx, "narrow", vs);
        }),
        wl("big endian, signatures", count.div_ceil(40) as u64, move |cx| {
            let mut r = cx.rng();
            let mut k = cx.idx as usize * 40;
            let vs = gather(&mut r, 40.min(count - k), always, |r| {
                k += 1;
                whole(r, k - 1)
            });
            compare(cx, "big-endian", vs);
        }),
        wl("big endian, files", n(24, 200), move |cx| {
            let mut r = cx.rng();
            let mut k = cx.idx as usize;
            let vs = gather(&mut r, 26, light, |r| {
                k += 1;
                some(r, k)
            });
            compare(cx, "big-endian", vs);
        }),
        wl("big endian, others", n(16, 150), move |cx| {
            let mut r = cx.rng();
            let vs = gather(&mut r, 26, light, |r| match r.below(5) {
                0 => widen(r),
                1 => (Virt::bytes(mutant(r, 6000)), "mutant".into()),
                2 => (Virt::bytes(textish(r)), "text".into()),
                3 => {
                    let c = signature_case(r);
                    (c.src, c.tag)
                }
                _ => {
                    let mut c = any(r);
                    if r.coin() {
                        c = mutant_virt(r);
                    }
                    (c.src, c.tag)
                }
            });
            compare(cx, "big-endian", vs);
        }),
    ]
}

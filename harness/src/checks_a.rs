//! C03, C04, C11-C24: verdicts against the reference, by signature and by construction.
use crate::gens::*;
use crate::gens2::*;
use crate::meter::{det_bytes, det_src, Out};
use crate::refm::{self, show, HEAD};
use crate::rng::{hash, mix, Rng};
use crate::run::{wl, wl_serial, Cx, Params, Workload};
use crate::source::{hex, Chunk, Plan, Virt};
use crate::spec_gen::{Alt, FORMATS, SIGS};
use crate::words;
use file_format::FileFormat as F;
use std::sync::OnceLock;

pub const SMALL: u64 = 512 << 10;

/// Runs one constructed case through the instrumented source and, if it fits, from memory.
pub fn judge(cx: &mut Cx, r: &mut Rng, c: &Case) {
    cx.sample(|| format!("{} => {}", c.tag, show(&c.want)));
    let mut plan = Plan::plain();
    plan.file_like = true;
    match r.below(6) {
        0 if c.src.len < 1 << 18 => plan.chunk = Chunk::Random(1 + r.log(9000) as usize),
        0 => plan.chunk = Chunk::Random(3000 + r.log(100_000) as usize),
        1 if c.src.len < 5000 => plan.chunk = Chunk::Fixed(1 + r.idx(7)),
        _ => {}
    }
    plan.rng = Rng::new(r.u64(), "judge", 0);
    let (o, st, heap) = det_src(&c.src, plan);
    cx.eval();
    cx.stats(&st);
    cx.max("ops", st.ops);
    cx.max("bytes", st.bytes);
    cx.max("heap", heap.max(0) as u64);
    cx.max("source_len", c.src.len);
    cx.nontrivial(mix(c.src.hash()));
    check(cx, c, &o, "reader");
    if c.src.len <= SMALL {
        let b = c.src.materialize(SMALL).unwrap();
        let o = det_bytes(&b);
        cx.eval();
        check(cx, c, &o, "bytes");
    }
}

fn check(cx: &mut Cx, c: &Case, o: &Out, how: &str) {
    match o.fmt() {
        Some(f) if c.want.contains(&f) => cx.label(format!("{f:?}")),
        _ => cx.fail(
            format!("{how}:{}:{}", show(&c.want), o.show()),
            format!("{} by {how}: expected {}, got {}", c.tag, show(&c.want), o.show()),
            c.src.describe(64),
        ),
    }
}

fn family_wl(name: &'static str, n: u64, g: fn(&mut Rng) -> Case) -> Workload {
    wl(name, n, move |cx| {
        let mut r = cx.rng();
        let c = g(&mut r);
        judge(cx, &mut r, &c);
    })
}

// --- C03 / C04 --------------------------------------------------------------------------------

/// All alternatives: (row, alternative index).
pub fn alts() -> &'static Vec<(usize, usize)> {
    static A: OnceLock<Vec<(usize, usize)>> = OnceLock::new();
    A.get_or_init(|| SIGS.iter().enumerate().flat_map(|(i, s)| (0..s.1.len()).map(move |k| (i, k))).collect())
}
pub fn alt(x: (usize, usize)) -> Alt {
    SIGS[x.0].1[x.1]
}

const ALL: bool = cfg!(feature = "all");

/// What the build under test may report for `x` as far as this property goes.
fn allowed(x: &[u8], largest: bool) -> Vec<F> {
    if x.is_empty() {
        return vec![F::Empty];
    }
    let rows = refm::present(x);
    if rows.is_empty() {
        return vec![if ALL && refm::is_text(x) { F::PlainText } else { F::ArbitraryBinaryData }];
    }
    let m = rows.iter().map(|&i| refm::class(i)).max().unwrap();
    let mut out = Vec::new();
    for i in rows {
        if largest && refm::class(i) != m {
            continue;
        }
        let f = SIGS[i].0;
        out.push(f);
        if ALL {
            if let Some(fam) = refm::family(f) {
                out.extend_from_slice(fam);
                out.push(F::PlainText);
                out.push(F::ArbitraryBinaryData);
            }
        }
    }
    out
}

fn sig_judge(cx: &mut Cx, x: &[u8], largest: bool, r: &mut Rng, what: &dyn Fn() -> String) {
    let want = allowed(x, largest);
    let o = det_bytes(x);
    cx.eval();
    cx.nontrivial(hash(x));
    let ok = o.fmt().is_some_and(|f| want.contains(&f));
    if !ok {
        cx.fail(
            format!("{}:{}", show(&want), o.show()),
            format!("{}: expected {}, got {}", what(), show(&want), o.show()),
            format!("len={} {}", x.len(), hex(x, 200)),
        );
        return;
    }
    if r.one_in(16) {
        let v = Virt::bytes(x.to_vec());
        let mut p = Plan::plain();
        if x.len() < 3000 && r.coin() {
            p.chunk = Chunk::Fixed(1 + r.idx(9));
        }
        let (o2, st, _) = det_src(&v, p);
        cx.eval();
        cx.stats(&st);
        if o2.fmt().is_none() || !want.contains(&o2.fmt().unwrap()) {
            cx.fail(
                format!("reader:{}:{}", show(&want), o2.show()),
                format!("{} from a reader: expected {}, got {}", what(), show(&want), o2.show()),
                format!("len={} {}", x.len(), hex(x, 200)),
            );
        }
    }
}

/// A buffer of assorted surroundings with the alternative written into it.
fn around(r: &mut Rng, a: Alt, extra: usize) -> Vec<u8> {
    let n = refm::alt_end(a) + extra;
    let mut v = match r.below(5) {
        0 => vec![0; n],
        1 => vec![b' '; n],
        2 => r.bytes(n),
        _ => r.filler(n),
    };
    place(&mut v, a);
    v
}

fn place(v: &mut [u8], a: Alt) {
    for (o, s) in a {
        v[*o..*o + s.len()].copy_from_slice(s);
    }
}

fn sig_name(x: (usize, usize)) -> String {
    format!("{:?}[{}]", SIGS[x.0].0, x.1)
}

pub fn c03(p: &Params) -> Vec<Workload> {
    let reps = if p.thorough { 400 } else { 20 };
    let n = alts().len() as u64;
    let mut w = vec![
        // Every input of at most three bytes (all first bytes spread over the cases).
        wl("short", 256, move |cx| {
            let b0 = cx.idx as u8;
            let mut r = cx.rng();
            if b0 == 0 {
                sig_judge(cx, &[], false, &mut r, &|| "empty".into());
            }
            sig_judge(cx, &[b0], false, &mut r, &|| "1 byte".into());
            let third = !ALL || cx.p.thorough;
            for b1 in 0..=255u8 {
                sig_judge(cx, &[b0, b1], false, &mut r, &|| "2 bytes".into());
                if !third {
                    continue;
                }
                // Only the short signatures can match: one reference set per pair and the rare third bytes.
                for b2 in 0..=255u8 {
                    let x = [b0, b1, b2];
                    let f = F::from_bytes(x);
                    cx.eval_distinct();
                    let want = short_ref(&x);
                    if !want.contains(&f) {
                        cx.fail(format!("{}:{f:?}", show(want)), format!("expected {}, got {f:?}", show(want)), hex(&x, 3));
                    }
                }
            }
        }),
        // Whole alternatives in several surroundings.
        wl("whole", n * reps, move |cx| {
            let x = alts()[(cx.idx % n) as usize];
            let mut r = cx.rng();
            let k = if cx.idx < n { 0 } else { r.len(2000) as usize };
            let v = around(&mut r, alt(x), k);
            cx.sample(|| format!("{} + {k} bytes", sig_name(x)));
            cx.label(format!("{:?}", SIGS[x.0].0));
            sig_judge(cx, &v, false, &mut r, &|| sig_name(x));
        }),
        // Truncated at every length.
        wl("truncated", n, move |cx| {
            let x = alts()[cx.idx as usize];
            let a = alt(x);
            let mut r = cx.rng();
            let v = around(&mut r, a, 0);
            let end = v.len();
            let lens: Vec<usize> = if end <= 600 { (0..end).collect() } else {
                let mut l: Vec<usize> = (0..64).collect();
                for (o, s) in a { l.extend(o.saturating_sub(2)..o + s.len()); }
                l.extend((0..60).map(|_| r.idx(end)));
                l.retain(|k| *k < end);
                l
            };
            for k in lens {
                sig_judge(cx, &v[..k], false, &mut r, &|| format!("{} cut at {k}", sig_name(x)));
            }
        }),
        // Every byte of every alternative altered.
        wl("altered", n * if p.thorough { 60 } else { 4 }, move |cx| {
            let x = alts()[(cx.idx % n) as usize];
            let a = alt(x);
            let mut r = cx.rng();
            let mut v = around(&mut r, a, 4);
            for (o, s) in a {
                for k in *o..*o + s.len() {
                    let old = v[k];
                    let mut subs = vec![old ^ (1 << r.idx(8)), old ^ 0x20, r.u8(), 0, 0xFF, old.wrapping_add(1), old.wrapping_sub(1), old ^ 0x80];
                    subs.dedup();
                    for y in subs {
                        if y != old {
                            v[k] = y;
                            sig_judge(cx, &v, false, &mut r, &|| format!("{} byte {k} {old:02x}->{y:02x}", sig_name(x)));
                        }
                    }
                    v[k] = old;
                }
            }
        }),
        // Shifted by a few bytes, and with single parts missing or displaced.
        wl("shifted", n * if p.thorough { 80 } else { 6 }, move |cx| {
            let x = alts()[(cx.idx % n) as usize];
            let a = alt(x);
            let mut r = cx.rng();
            for d in [1usize, 2, 3, 4, 8, 16, 512] {
                let v = around(&mut r, a, 8);
                let mut s = r.filler(d);
                s.extend_from_slice(&v);
                sig_judge(cx, &s, false, &mut r, &|| format!("{} shifted by {d}", sig_name(x)));
                if d < v.len() {
                    sig_judge(cx, &v[d..], false, &mut r, &|| format!("{} shifted by -{d}", sig_name(x)));
                }
            }
            if a.len() > 1 {
                for k in 0..a.len() {
                    let n = refm::alt_end(a) + 20;
                    for dis in [usize::MAX, 1, 2, 4] {
                        let mut v = r.filler(n + 8);
                        for (i, (o, s)) in a.iter().enumerate() {
                            let o = if i == k { if dis == usize::MAX { continue } else { o + dis } } else { *o };
                            v[o..o + s.len()].copy_from_slice(s);
                        }
                        sig_judge(cx, &v, false, &mut r, &|| format!("{} part {k} missing or displaced", sig_name(x)));
                    }
                }
            }
        }),
        // Parts of different alternatives or formats mixed.
        wl("mixed", if p.thorough { 8_000_000 } else { 300_000 }, move |cx| {
            let mut r = cx.rng();
            let x = *r.pick(alts());
            let y = *r.pick(alts());
            let mut v = around(&mut r, alt(x), 40);
            let (o, s) = *r.pick(alt(y));
            let o = if r.coin() { o } else { o + r.idx(6) };
            if v.len() < o + s.len() {
                let n = o + s.len() + r.idx(5);
                v.resize(n, 0);
            }
            let k = r.idx(s.len()) + 1;
            v[o..o + k].copy_from_slice(&s[..k]);
            sig_judge(cx, &v, false, &mut r, &|| format!("{} with a part of {}", sig_name(x), sig_name(y)));
        }),
        // Around the edge of the examined head, and random noise.
        wl("noise", if p.thorough { 4_000_000 } else { 150_000 }, move |cx| {
            let mut r = cx.rng();
            let n = if r.one_in(20) { HEAD - 3 + r.idx(9) } else { r.len(3000) as usize };
            let v = r.filler(n);
            sig_judge(cx, &v, false, &mut r, &|| "noise".into());
        }),
    ];
    w.push(words_wl(p, false));
    if !ALL {
        w.push(wl("windowend", n, move |cx| {
            // A signature beyond the head does not count, one that ends with it does.
            let x = alts()[cx.idx as usize];
            let mut r = cx.rng();
            for d in 0..6usize {
                let a = alt(x);
                let len: usize = a[0].1.len();
                let mut v = vec![0u8; HEAD + 40];
                let at = HEAD - len - 3 + d;
                v[at..at + len].copy_from_slice(a[0].1);
                sig_judge(cx, &v, false, &mut r, &|| format!("{} moved to {at}", sig_name(x)));
            }
        }));
    }
    w
}

/// Literals of the sources where the sources put them, at the start and at each other's offsets.
fn words_wl(p: &Params, largest: bool) -> Workload {
    let runs = words::words().runs.len() as u64;
    let n = runs + words::words().bytes.len() as u64 * if p.thorough { 400 } else { 20 };
    wl("words", n, move |cx| {
        let mut r = cx.rng();
        let w = words::words();
        let mut put: Vec<(usize, &[u8])> = Vec::new();
        if cx.idx < runs {
            put.extend(w.runs[cx.idx as usize].iter().map(|(o, b)| (*o, &b[..])));
        } else {
            let b = &w.bytes[((cx.idx - runs) % w.bytes.len() as u64) as usize];
            let o = *r.pick(&w.nums) as usize;
            put.push((if o + b.len() <= HEAD + 64 { o } else { 0 }, b));
            if r.one_in(3) {
                put.push((*r.pick(&[0usize, 4, 8]), r.pick(&w.bytes)));
            }
        }
        for extra in [0, 1 + r.idx(40)] {
            let end = put.iter().map(|(o, b)| o + b.len()).max().unwrap();
            let mut v = if r.coin() { vec![0; end + extra] } else { r.filler(end + extra) };
            for (o, b) in &put {
                v[*o..*o + b.len()].copy_from_slice(b);
            }
            cx.sample(|| format!("{put:02x?}"));
            sig_judge(cx, &v, largest, &mut r, &|| format!("words at {:?}", put.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
    })
}

/// Reference for three-byte inputs, from the alternatives of at most three bytes.
fn short_ref(x: &[u8; 3]) -> &'static [F] {
    static T: OnceLock<(std::collections::HashMap<[u8; 3], Vec<F>>, Vec<F>, Vec<F>)> = OnceLock::new();
    let (m, none, txt) = T.get_or_init(|| {
        let mut m = std::collections::HashMap::new();
        for a in alts().iter().map(|x| alt(*x)).filter(|a| refm::alt_end(a) <= 3) {
            let mut fixed = [None; 3];
            for (o, s) in a {
                for (i, c) in s.iter().enumerate() {
                    fixed[o + i] = Some(*c);
                }
            }
            for k in 0..1u32 << 24 {
                let y = [(k >> 16) as u8, (k >> 8) as u8, k as u8];
                if fixed.iter().zip(y).all(|(f, c)| f.is_none_or(|f| f == c)) {
                    m.entry(y).or_insert_with(|| allowed(&y, false));
                }
            }
        }
        (m, vec![F::ArbitraryBinaryData], vec![F::PlainText])
    });
    m.get(x).unwrap_or(if ALL && refm::is_text(x) { txt } else { none })
}

fn merge(a: Alt, b: Alt) -> Option<Vec<(usize, u8)>> {
    let mut m = std::collections::BTreeMap::new();
    for (o, s) in a.iter().chain(b) {
        for (i, c) in s.iter().enumerate() {
            if let Some(d) = m.insert(o + i, *c) {
                if d != *c {
                    return None;
                }
            }
        }
    }
    Some(m.into_iter().collect())
}

pub fn c04(p: &Params) -> Vec<Workload> {
    let n = alts().len() as u64;
    let fills = if p.thorough { 6 } else { 1 };
    vec![
        // All pairs of compatible alternatives.
        wl("pairs", n, move |cx| {
            let i = cx.idx as usize;
            let mut r = cx.rng();
            for j in 0..i {
                let (x, y) = (alts()[i], alts()[j]);
                if x.0 == y.0 {
                    continue;
                }
                if let Some(m) = merge(alt(x), alt(y)) {
                    let end = m.last().unwrap().0 + 1;
                    for k in 0..fills {
                        let extra = r.idx(9);
                        let mut v = if k == 0 { vec![0; end + extra] } else { r.filler(end + extra) };
                        for (o, c) in &m {
                            v[*o] = *c;
                        }
                        cx.label(if refm::class(x.0) == refm::class(y.0) { "pairs of one size class" } else { "pairs of different size" });
                        sig_judge(cx, &v, true, &mut r, &|| format!("{} with {}", sig_name(x), sig_name(y)));
                    }
                }
            }
        }),
        // Stacks of three to eight alternatives.
        wl("stacks", if p.thorough { 1_000_000 } else { 400_000 }, move |cx| {
            let mut r = cx.rng();
            let n = if r.one_in(8) { 40_000 } else { 600 };
            let mut v = r.filler(n);
            let mut used = vec![false; n];
            let k = 3 + r.idx(6);
            let mut names = Vec::new();
            for _ in 0..k * 3 {
                let x = *r.pick(alts());
                let a = alt(x);
                if refm::alt_end(a) <= n && a.iter().all(|(o, s)| (0..s.len()).all(|i| !used[o + i] || v[o + i] == s[i])) {
                    place(&mut v, a);
                    for (o, s) in a {
                        used[*o..*o + s.len()].fill(true);
                    }
                    names.push(sig_name(x));
                }
            }
            cx.sample(|| names.join(" + "));
            if refm::present(&v).len() > 2 {
                cx.label("three or more formats");
            }
            sig_judge(cx, &v, true, &mut r, &|| names.join(" + "));
        }),
        words_wl(p, true),
        // Single alternatives: an accidental overlap must not win.
        wl("single", n * if p.thorough { 50 } else { 6 }, move |cx| {
            let x = alts()[(cx.idx % n) as usize];
            let mut r = cx.rng();
            let k = r.len(1000) as usize;
            let v = around(&mut r, alt(x), k);
            sig_judge(cx, &v, true, &mut r, &|| sig_name(x));
        }),
    ]
}

// --- C11 - C21 --------------------------------------------------------------------------------

fn n(p: &Params, quick: u64, thorough: u64) -> u64 {
    if p.thorough {
        thorough * 4
    } else {
        quick * if matches!(p.property.as_str(), "C12" | "C13" | "C15" | "C16" | "C17" | "C18") { 64 } else if p.property == "C14" { 40 } else { 24 }
    }
}

pub fn c11(p: &Params) -> Vec<Workload> {
    vec![
        family_wl("archives", n(p, 15_000, 1_000_000), zip),
        // Every characteristic name alone and behind other entries.
        wl("names", (ZIP_EXACT.len() + ZIP_PATTERN.len() + ZIP_MIME.len()) as u64 * n(p, 24, 400), |cx| {
            let mut r = cx.rng();
            let m = (ZIP_EXACT.len() + ZIP_PATTERN.len() + ZIP_MIME.len()) as u64;
            let k = (cx.idx % m) as usize;
            let c = retry(&mut r, |r| {
                let (e, f) = if k < ZIP_EXACT.len() {
                    (zip_entry(r, ZIP_EXACT[k].0.into(), false), ZIP_EXACT[k].1)
                } else if k < ZIP_EXACT.len() + ZIP_PATTERN.len() {
                    let x = ZIP_PATTERN[k - ZIP_EXACT.len()];
                    let mid = if x.1.is_empty() { "x".to_string() } else { format!("x{}y", x.1) };
                    (zip_entry(r, format!("{}{mid}{}", x.0, x.2), false), x.4)
                } else {
                    let x = ZIP_MIME[k - ZIP_EXACT.len() - ZIP_PATTERN.len()];
                    let mut e = zip_entry(r, "mimetype".into(), false);
                    e.data = x.0.as_bytes().to_vec();
                    e.gap = 0;
                    e.deflated = false;
                    if r.coin() {
                        e.data.extend_from_slice(b"\r\n");
                    }
                    (e, x.1)
                };
                let mut es = Vec::new();
                for _ in 0..r.below(4) {
                    es.push(zip_entry(r, "other/data.bin".into(), false));
                }
                es.push(e);
                for _ in 0..r.below(3) {
                    es.push(zip_entry(r, "META-INF/MANIFEST.MF".into(), false));
                }
                let mut l = zip_layout(r);
                if r.coin() {
                    l.comment.clear();
                }
                let b = zip_build(r, &es, &l);
                finish(r, b.v, F::Zip, vec![f], format!("zip name {:?}", es.iter().map(|e| e.name.clone()).collect::<Vec<_>>()))
            });
            judge(cx, &mut r, &c);
        }),
        // Comment lengths around every interesting value, with and without ZIP64.
        wl("comments", n(p, 4000, 131_072), |cx| {
            let mut r = cx.rng();
            let len = if cx.p.thorough { (cx.idx / 2) as usize } else { match cx.idx % 4 { 0 => 65_535 - (cx.idx / 4) as usize % 64, 1 => (cx.idx / 4) as usize % 64, 2 => 8192 - 40 + (cx.idx / 4) as usize % 80, _ => r.idx(65_536) } };
            let c = retry(&mut r, |r| {
                let (es, f) = zip_plan(r, false);
                if es.is_empty() || es.len() > 60 {
                    return None;
                }
                let l = ZLayout { zip64: r.coin(), comment: vec![*r.pick(&[0, b'P', b'K', b'x', 5]); len], shuffle_local: false };
                let b = zip_build(r, &es, &l);
                finish(r, b.v, F::Zip, vec![f], format!("zip comment of {len} bytes, {} entries", es.len()))
            });
            judge(cx, &mut r, &c);
        }),
    ]
}

pub fn c12(p: &Params) -> Vec<Workload> {
    let per = n(p, 200, 6000);
    vec![
        wl("known", CLSIDS.len() as u64 * per, |cx| {
            let mut r = cx.rng();
            let k = (cx.idx % CLSIDS.len() as u64) as usize;
            let c = retry(&mut r, |r| cfb_with(r, Some(k)));
            judge(cx, &mut r, &c);
        }),
        wl("unknown", n(p, 10_000, 400_000), |cx| {
            let mut r = cx.rng();
            let c = retry(&mut r, |r| cfb_with(r, None));
            judge(cx, &mut r, &c);
        }),
    ]
}

pub fn c13(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 40_000, 2_000_000), ebml)]
}
pub fn c14(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 40_000, 2_000_000), asf)]
}
pub fn c15(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 40_000, 2_000_000), mp4)]
}
pub fn c16(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 60_000, 2_000_000), rm)]
}
pub fn c17(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 80_000, 3_000_000), exe)]
}
pub fn c18(p: &Params) -> Vec<Workload> {
    vec![family_wl("files", n(p, 60_000, 2_000_000), id3)]
}

pub fn c19(p: &Params) -> Vec<Workload> {
    const LIMIT: u64 = 32 << 20;
    vec![
        family_wl("files", n(p, 4000, 200_000), pdf),
        // The marker at every position around every multiple of a power of two.
        wl("positions", n(p, 600, 6000), |cx| {
            let mut r = cx.rng();
            let base = match r.below(4) {
                0 => 32_768 * r.below(1024),
                1 => (8192 * r.below(4096)).min(LIMIT),
                2 => 65_536 * r.below(512),
                _ => r.log(LIMIT),
            };
            let pos = (base + r.below(40)).saturating_sub(20).min(LIMIT - AI.len() as u64);
            let c = pdf_far(&mut r, pos, true);
            judge(cx, &mut r, &c);
        }),
        // All positions across the first internal buffer boundaries.
        wl("boundaries", 64 * n(p, 6, 40), |cx| {
            let mut r = cx.rng();
            let k = cx.idx / 64;
            let edge = [32_768u64, 65_536, 98_304, 8192, 16_384, 32_763, 1 << 20].get(k as usize).copied().unwrap_or(32_768 * (k + 1));
            let pos = edge - 40 + cx.idx % 64;
            let c = pdf_far(&mut r, pos, true);
            judge(cx, &mut r, &c);
        }),
        // No marker, long files.
        wl("absent", n(p, 48, 800), |cx| {
            let mut r = cx.rng();
            let len = r.log(40 << 20);
            let c = pdf_far(&mut r, len, false);
            judge(cx, &mut r, &c);
        }),
        // The very end of the window, with and without content behind.
        wl("end", n(p, 32, 400), |cx| {
            let mut r = cx.rng();
            let c = pdf_far(&mut r, LIMIT - AI.len() as u64 - cx.idx % 16, true);
            judge(cx, &mut r, &c);
        }),
    ]
}

fn pdf_far(r: &mut Rng, pos: u64, marker: bool) -> Case {
    let mut b = B::new();
    b.put(b"%PDF-1.7\n");
    let mut v = b.v;
    let fill: &[u8] = *r.pick(&[&b"\0"[..], b"A", b"a", b"AIPrivateDat", b"AIAIPrivate", b"ta", b"AIPrivateDatA", b"%% "]);
    v.fill = fill.to_vec();
    v.len = 5 + pos + AI.len() as u64 + if r.coin() { 0 } else { r.log(1 << 40) };
    let n = r.below(60) as usize;
    let mut seg = near_miss(r, AI, 60 + n);
    let at = (5 + pos).saturating_sub(60);
    let want = if marker {
        let k = (5 + pos - at) as usize;
        seg.truncate(k);
        seg.extend_from_slice(AI);
        seg[0] = b'.';
        F::AdobeIllustratorArtwork
    } else {
        F::PortableDocumentFormat
    };
    let mut seg = seg;
    if at < 9 {
        // Keep the header.
        let k = (9 - at as usize).min(seg.len());
        if marker && 5 + pos < 9 {
            v.segs.push((5 + pos, AI.to_vec()));
            seg.clear();
        } else {
            seg.drain(..k);
            v.segs.push((9, seg.clone()));
            seg.clear();
        }
    }
    if !seg.is_empty() {
        v.segs.push((at, seg));
    }
    let mut c = Case { src: v, want: vec![want], tag: format!("pdf marker={marker} at={pos} fill={:?}", String::from_utf8_lossy(fill)) };
    // The seams between fill and segments must not complete a marker, and the signature must stay.
    let ok = |c: &Case| {
        let h = c.src.head(refm::HEAD);
        let a = refm::accept(&h);
        if a != [F::PortableDocumentFormat] {
            return false;
        }
        if want == F::PortableDocumentFormat {
            let mut w = vec![0; 400];
            let k = c.src.read_at(at.saturating_sub(100), &mut w);
            return !w[..k].windows(AI.len()).any(|x| x == AI);
        }
        true
    };
    if !ok(&c) {
        c.src.fill = vec![b'.'];
    }
    c
}

pub fn c20(p: &Params) -> Vec<Workload> {
    vec![
        family_wl("files", n(p, 12_000, 400_000), sqlite),
        // Every marker position.
        wl("positions", n(p, 8192, 32_768 * 4), |cx| {
            let mut r = cx.rng();
            let step = if cx.p.thorough { 1 } else { 4 };
            let k = ((cx.idx * step + if step > 1 { cx.p.seed % 4 } else { 0 }) % 32_768) as usize;
            let last = 32_768 - SKETCH.len();
            let k = k.min(last);
            let mut v = b"SQLite format 3\0".to_vec();
            v.resize(100, 0);
            let extra = if r.coin() { 0 } else { r.idx(5000) };
            let fill = *r.pick(b"\0ch3.\xFF");
            v.resize(100 + k, fill);
            v.extend_from_slice(SKETCH);
            v.resize(v.len() + extra, fill);
            let c = Case { src: Virt::bytes(v), want: vec![F::Sketch], tag: format!("sketch marker at {k}, then {extra} bytes") };
            judge(cx, &mut r, &c);
        }),
    ]
}

pub fn c21(p: &Params) -> Vec<Workload> {
    vec![family_wl("documents", n(p, 60_000, 2_000_000), xml)]
}

// --- C22 --------------------------------------------------------------------------------------

fn text_judge(cx: &mut Cx, x: &[u8], what: &dyn Fn() -> String) {
    if x.is_empty() || !refm::present(x).is_empty() {
        return;
    }
    let want = if refm::is_text(x) { F::PlainText } else { F::ArbitraryBinaryData };
    let o = det_bytes(x);
    cx.eval();
    cx.nontrivial(hash(x));
    cx.label(format!("{want:?}"));
    if o != Out::Fmt(want) {
        cx.fail(
            format!("{want:?}:{}", o.show()),
            format!("{}: expected {want:?}, got {}", what(), o.show()),
            format!("len={} {}", x.len(), hex(x, 120)),
        );
    }
}

pub fn c22(p: &Params) -> Vec<Workload> {
    vec![
        wl("texts", n(p, 30_000, 1_500_000), |cx| {
            let mut r = cx.rng();
            let v = textish(&mut r);
            cx.sample(|| format!("{} bytes: {}", v.len(), hex(&v, 60)));
            text_judge(cx, &v, &|| "text".into());
            if r.one_in(8) && !v.is_empty() && refm::present(&v).is_empty() {
                let want = if refm::is_text(&v) { F::PlainText } else { F::ArbitraryBinaryData };
                let src = Virt::bytes(v);
                let mut plan = Plan::plain();
                plan.chunk = Chunk::Random(1 + r.idx(5000));
                plan.rng = Rng::new(r.u64(), "t", 1);
                let (o, st, _) = det_src(&src, plan);
                cx.eval();
                cx.stats(&st);
                if o != Out::Fmt(want) {
                    cx.fail(format!("reader:{want:?}:{}", o.show()), format!("text from a reader: expected {want:?}, got {}", o.show()), src.describe(80));
                }
            }
        }),
        // Every code point below U+0800 and a share of the others, at the start, middle and end of a line.
        wl("characters", 0x110, |cx| {
            let hi = cx.idx as u32 * 0x1000;
            let step = if cx.p.thorough || hi < 0x2000 { 1 } else { 37 };
            let mut k = 0;
            while k < 0x1000 {
                if let Some(c) = char::from_u32(hi + k) {
                    let mut b = [0; 4];
                    let e = c.encode_utf8(&mut b).as_bytes().to_vec();
                    for (pre, post) in [(&b"~"[..], &b""[..]), (b"", b"~~"), (b"~abc ", b" def\nghi\n")] {
                        let v = [pre, &e, post].concat();
                        text_judge(cx, &v, &|| format!("U+{:04X}", hi + k));
                    }
                }
                k += step;
            }
        }),
        // All two-byte sequences and systematic three and four byte ones inside text.
        wl("sequences", 256, |cx| {
            let a = cx.idx as u8;
            for b in 0..=255u8 {
                text_judge(cx, &[b'~', a, b], &|| "two bytes at the end".into());
                text_judge(cx, &[b'~', a, b, b'~', b'\n'], &|| "two bytes".into());
                if a >= 0xE0 {
                    for c in [0u8, 0x0A, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xFF] {
                        text_judge(cx, &[b'~', a, b, c], &|| "three bytes".into());
                        text_judge(cx, &[b'~', a, b, c, b'~'], &|| "three bytes".into());
                        for d in [0x41u8, 0x80, 0xBF, 0xC0] {
                            text_judge(cx, &[b'~', a, b, c, d, b'.'], &|| "four bytes".into());
                        }
                    }
                }
            }
        }),
        // A single offending byte at every position class relative to the two limits.
        wl("limits", n(p, 6000, 120_000), |cx| {
            let mut r = cx.rng();
            const LIM: usize = 65_536;
            let lines = r.idx(19);
            let total = LIM - 12 + r.idx(24);
            let mut v = vec![*r.pick(b"ab~ "); total];
            v[0] = b'~';
            // `lines` line feeds somewhere before the limit.
            let mut cuts: Vec<usize> = (0..lines).map(|_| 1 + r.idx(LIM - 20)).collect();
            cuts.sort();
            cuts.dedup();
            for c in &cuts {
                v[*c] = b'\n';
            }
            let at = match r.below(4) {
                0 => LIM - 6 + r.idx(12),
                1 if cuts.len() >= 16 => (cuts[15] + 4).saturating_sub(r.idx(8)),
                2 if !cuts.is_empty() => (*r.pick(&cuts) + 2).saturating_sub(r.idx(4)),
                _ => r.idx(total),
            };
            let ch: &[u8] = *r.pick(&[&b"\0"[..], b"\x1B", b"\xC3\xA9", b"\xE2\x82\xAC", b"\xF0\x9F\x98\x80", b"\xC2\x9B", b"\xC2\x85", b"\xFF", b"\xE2\x82", b"\xF0\x9F", b"\xC3"]);
            for (i, c) in ch.iter().enumerate() {
                if at + i < v.len() {
                    v[at + i] = *c;
                }
            }
            if r.one_in(4) {
                v.truncate(at + r.idx(ch.len()) + 1);
            }
            cx.sample(|| format!("{} lines, {} at {at}, {} bytes", cuts.len() + 1, hex(ch, 8), v.len()));
            text_judge(cx, &v, &|| format!("{} line feeds, {} at {at}, {} bytes", cuts.len(), hex(ch, 8), v.len()));
        }),
        // Binary noise.
        wl("noise", n(p, 20_000, 500_000), |cx| {
            let mut r = cx.rng();
            let k = r.len(3000) as usize;
            let v = r.filler(k);
            text_judge(cx, &v, &|| "noise".into());
        }),
    ]
}

// --- C23 --------------------------------------------------------------------------------------

fn rfc6838(s: &str) -> bool {
    let name = |x: &str| {
        !x.is_empty()
            && x.len() <= 127
            && x.as_bytes()[0].is_ascii_alphanumeric()
            && x.bytes().all(|c| c.is_ascii_alphanumeric() || b"!#$&-^_.+".contains(&c))
    };
    const TOP: [&str; 10] = ["application", "audio", "font", "example", "image", "message", "model", "multipart", "text", "video"];
    match s.split_once('/') {
        Some((a, b)) => (TOP.contains(&a) || a.starts_with("x-") || ["chemical"].contains(&a)) && name(a) && name(b),
        None => false,
    }
}

pub fn c23(_: &Params) -> Vec<Workload> {
    vec![
        wl("formats", FORMATS.len() as u64, |cx| {
            let (f, var, nm, sh, mt, ext, kind) = FORMATS[cx.idx as usize];
            cx.eval_distinct();
            cx.sample(|| format!("{var}: {nm} {sh:?} {mt} .{ext} {kind:?}"));
            cx.label(format!("{kind:?}"));
            let bad = |what: &str, got: String, want: String, cx: &mut Cx| {
                cx.fail(format!("{var}:{what}"), format!("{var}: {what} is {got}, published {want}"), var.into())
            };
            // Twice, in both orders, from a copy and through a reference: accessors are pure.
            for _ in 0..2 {
                let g = f;
                if f.name() != nm || (&g).name() != nm {
                    bad("name", f.name().into(), nm.into(), cx);
                }
                if f.short_name() != sh {
                    bad("short name", format!("{:?}", f.short_name()), format!("{sh:?}"), cx);
                }
                if f.media_type() != mt {
                    bad("media type", f.media_type().into(), mt.into(), cx);
                }
                if f.extension() != ext {
                    bad("extension", f.extension().into(), ext.into(), cx);
                }
                if f.kind() != kind {
                    bad("kind", format!("{:?}", f.kind()), format!("{kind:?}"), cx);
                }
                if f.to_string() != nm || format!("{f}") != nm {
                    bad("displayed text", f.to_string(), nm.into(), cx);
                }
                if format!("{f:?}") != var {
                    bad("variant", format!("{f:?}"), var.into(), cx);
                }
            }
            if !rfc6838(f.media_type()) {
                bad("media type syntax", f.media_type().into(), "RFC 6838".into(), cx);
            }
            let e = f.extension();
            if e.is_empty() || e.contains(['.', '/', '\\']) || e.chars().any(|c| c.is_whitespace() || c.is_control()) {
                bad("extension syntax", e.into(), "no dot, no blank".into(), cx);
            }
            if f.name().trim() != f.name() || f.name().is_empty() || f.short_name().is_some_and(|s| s.is_empty() || s.trim() != s) {
                bad("name syntax", format!("{:?} {:?}", f.name(), f.short_name()), "non-empty, trimmed".into(), cx);
            }
        }),
        wl("pairs", FORMATS.len() as u64, |cx| {
            let i = cx.idx as usize;
            for j in 0..FORMATS.len() {
                let (a, b) = (FORMATS[i].0, FORMATS[j].0);
                cx.eval_distinct();
                if (a == b) != (i == j) || (a != b) == (i == j) {
                    cx.fail(format!("{a:?}=={b:?}"), format!("{a:?} == {b:?} is {}", a == b), String::new());
                }
                if i != j && a.name() == b.name() {
                    cx.fail(format!("{a:?} name {b:?}"), format!("{a:?} and {b:?} share the name {}", a.name()), String::new());
                }
            }
        }),
        wl_serial("default", 1, |cx| {
            cx.eval_distinct();
            if F::default() != F::ArbitraryBinaryData {
                cx.fail("default", format!("default is {:?}", F::default()), String::new());
            }
        }),
    ]
}

// --- C24 --------------------------------------------------------------------------------------

pub fn c24(p: &Params) -> Vec<Workload> {
    let na = alts().len() as u64;
    vec![
        wl("tails", na * n(p, 4, 60), move |cx| {
            let x = alts()[(cx.idx % na) as usize];
            if ALL && refm::family(SIGS[x.0].0).is_some() {
                return;
            }
            let mut r = cx.rng();
            // A head of exactly the examined size.
            let mut head = if r.coin() { vec![0; HEAD] } else { r.filler(HEAD) };
            place(&mut head, alt(x));
            if r.one_in(3) {
                let y = *r.pick(alts());
                if merge(alt(x), alt(y)).is_some() {
                    place(&mut head, alt(y));
                }
            }
            let want = refm::accept(&head);
            if ALL && !refm::readerless(&want) {
                return;
            }
            let base = det_bytes(&head);
            cx.eval();
            cx.nontrivial(hash(&head));
            if !base.fmt().is_some_and(|f| want.contains(&f)) {
                cx.fail(format!("head:{}:{}", show(&want), base.show()), format!("{}: head alone: expected {}, got {}", sig_name(x), show(&want), base.show()), format!("{}", hex(&head, 64)));
                return;
            }
            cx.sample(|| format!("{} => {}", sig_name(x), base.show()));
            let tail_alt = alt(*r.pick(alts()));
            for k in 0..5 {
                let mut v = Virt::bytes(head.clone());
                let mut plan = Plan::plain();
                plan.budget_bytes = 4 << 20;
                let what = match k {
                    0 => {
                        // Another signature right behind, a trailer, or noise.
                        let n = r.len(70_000) as usize;
                        let mut t = r.filler(n);
                        while let Some(w) = words::bytes(&mut r, 2) {
                            let k = match r.below(3) {
                                0 => 0,
                                1 => t.len().saturating_sub(w.len()),
                                _ => r.idx(t.len() + 1),
                            };
                            let e = (k + w.len()).min(t.len());
                            t[k..e].copy_from_slice(&w[..e - k]);
                        }
                        for (o, s) in tail_alt {
                            let at = o % (n + 1);
                            let e = (at + s.len()).min(n);
                            if at < e {
                                t[at..e].copy_from_slice(&s[..e - at]);
                            }
                        }
                        v.put(HEAD as u64, t);
                        "a tail"
                    }
                    1 => {
                        v.len = 1 << 40;
                        v.fill = r.filler(7);
                        "an endless tail"
                    }
                    2 => {
                        v.len = HEAD as u64 + r.log(1 << 33);
                        plan.bad_from = 65_536;
                        "a tail that cannot be read"
                    }
                    3 => {
                        let t = *r.pick(&[&b"PK\x05\x06\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0"[..], b"AIPrivateData", b"TAG", b"%%EOF", b"koly", b"fLaC", b"conectix", b"TRUEVISION-XFILE.\0", b"PE\0\0"]);
                        let t = words::bytes(&mut r, 1).unwrap_or(t);
                        let at = HEAD as u64 + r.log(1 << 20);
                        v.put(at, t.to_vec());
                        "a trailer"
                    }
                    _ => {
                        let n = r.below(6);
                        v.len = HEAD as u64 + n;
                        "a few bytes"
                    }
                };
                let (o, st, _) = det_src(&v, plan);
                cx.eval();
                cx.stats(&st);
                cx.nontrivial(v.hash());
                cx.max("furthest byte read", st.max_end);
                if o != base {
                    cx.fail(format!("{what}:{}:{}", base.show(), o.show()), format!("{} with {what}: {} became {}", sig_name(x), base.show(), o.show()), v.describe(48));
                }
                if let Some(b) = v.materialize(200_000) {
                    let o = det_bytes(&b);
                    cx.eval();
                    if o != base {
                        cx.fail(format!("bytes {what}:{}:{}", base.show(), o.show()), format!("{} with {what} from bytes: {} became {}", sig_name(x), base.show(), o.show()), v.describe(48));
                    }
                }
            }
        }),
        // Lengths around the edge of the head, for the alternatives that reach furthest and for others.
        wl("edge", na, move |cx| {
            let x = alts()[cx.idx as usize];
            let mut r = cx.rng();
            let a = alt(x);
            let end = refm::alt_end(a);
            let mut long = vec![0u8; HEAD + 64];
            place(&mut long, a);
            let mut lens = vec![HEAD - 2, HEAD - 1, HEAD, HEAD + 1, HEAD + 2, HEAD + 64, end, end + 1];
            lens.push(end + r.idx(HEAD - end + 1));
            for n in lens {
                let y = &long[..n.min(long.len())];
                let mut want = refm::accept(y);
                if ALL && !refm::readerless(&want) {
                    continue;
                }
                if want.is_empty() {
                    want.push(if ALL && refm::is_text(y) { F::PlainText } else { F::ArbitraryBinaryData });
                }
                let o = det_bytes(y);
                cx.eval();
                cx.nontrivial(mix(hash(y)));
                if !o.fmt().is_some_and(|f| want.contains(&f)) {
                    cx.fail(format!("edge:{}:{}", show(&want), o.show()), format!("{} in {n} bytes: expected {}, got {}", sig_name(x), show(&want), o.show()), String::new());
                }
            }
        }),
    ]
}

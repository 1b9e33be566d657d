//! C01, C02, C05, C06, C08, C10: robustness, resources, delivery, entry points, faults, closure.
use crate::checks_a::{alt, alts};
use crate::gens::Case;
use crate::gens2::{any_big, any, any_small, signature_case, textish, FAMILY_GENS};
use crate::meter::{det_bytes, det_src, guarded, Out};
use crate::mutate::{endless, endless_aligned, endless_zip, hostile, mutant, readerless, TOKENS};
use crate::refm::{self, show, HEAD};
use crate::rng::{hash, mix, Rng};
use crate::run::{wl, wl_serial, Cx, Params, Workload};
use crate::source::{hex, Chunk, Fault, Plan, Tracer, Virt};
use file_format::FileFormat as F;
use std::borrow::Cow;
use std::io::{BufRead, BufReader, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

fn n(p: &Params, quick: u64, thorough: u64) -> u64 {
    if p.thorough {
        thorough
    } else {
        quick
    }
}

fn n5(p: &Params, quick: u64, thorough: u64) -> u64 {
    5 * n(p, quick, thorough)
}

fn plan_of(r: &mut Rng, v: &Virt) -> Plan {
    let mut p = Plan::plain();
    p.file_like = r.coin();
    match r.below(8) {
        0 if v.len < 1 << 17 => p.chunk = Chunk::Random(1 + r.log(9000) as usize),
        1 => p.chunk = Chunk::Random(2000 + r.log(100_000) as usize),
        2 if v.len < 3000 => p.chunk = Chunk::Fixed(1 + r.idx(5)),
        _ => {}
    }
    p.rng = Rng::new(r.u64(), "plan", 0);
    p
}

// --- C01 --------------------------------------------------------------------------------------

fn c01_bytes(cx: &mut Cx, b: &[u8], what: &dyn Fn() -> String) {
    let o = det_bytes(b);
    cx.eval();
    cx.nontrivial(hash(b));
    if o.fmt().is_none() {
        cx.fail(format!("bytes:{}", o.show()), format!("{}: from_bytes: {}", what(), o.show()), format!("len={} {}", b.len(), hex(b, 400)));
    }
}

fn c01_src(cx: &mut Cx, v: &Virt, plan: Plan, what: &dyn Fn() -> String) {
    let (o, st, _) = det_src(v, plan);
    cx.eval();
    cx.stats(&st);
    cx.max("ops", st.ops);
    cx.nontrivial(v.hash());
    match &o {
        Out::Fmt(f) => cx.label(if *f == F::ArbitraryBinaryData || *f == F::PlainText { "generic".into() } else { Cow::Owned(format!("{f:?}")) }),
        Out::Err(_) => cx.label("error"),
        _ => cx.fail(format!("reader:{}", o.show()), format!("{}: from_reader: {}", what(), o.show()), v.describe(200)),
    }
}

/// A source whose content changes on every read and whose length changes on every query; only the
/// position bookkeeping is honest, as the contract of `Seek` requires.
struct Chaos {
    r: Rng,
    ops: u32,
    pos: u64,
    head: Vec<u8>,
    unit: Vec<u8>,
    errs: u64,
}
impl Chaos {
    fn op(&mut self) {
        self.ops += 1;
        if self.ops > 400_000 {
            std::panic::panic_any(crate::source::Budget);
        }
    }
}
impl Read for Chaos {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.op();
        if self.errs > 0 && self.r.one_in(self.errs) {
            return Err(Error::new(*self.r.pick(&[ErrorKind::Other, ErrorKind::Interrupted, ErrorKind::UnexpectedEof]), "chaos"));
        }
        let mut k = b.len().min((u64::MAX - self.pos).min(1 << 30) as usize);
        if self.pos < self.head.len() as u64 && !(self.ops > 10 && self.r.one_in(4)) {
            let h = &self.head[self.pos as usize..];
            k = k.min(h.len());
            b[..k].copy_from_slice(&h[..k]);
        } else {
            if self.r.one_in(30) {
                return Ok(0);
            }
            if self.r.coin() {
                k = (self.r.log(k as u64) as usize).min(k);
            }
            if self.r.one_in(4) {
                let f = self.r.filler(k);
                b[..k].copy_from_slice(&f);
            } else {
                let t = if self.r.one_in(3) { self.r.pick(TOKENS).to_vec() } else { self.unit.clone() };
                for i in 0..k {
                    b[i] = t[i % t.len()];
                }
            }
        }
        self.pos += k as u64;
        Ok(k)
    }
}
impl Seek for Chaos {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op();
        if self.errs > 0 && self.r.one_in(self.errs) {
            return Err(Error::other("chaos"));
        }
        let len = match self.r.below(4) {
            0 => u64::MAX - self.r.below(70_000),
            1 => self.r.log(u64::MAX),
            _ => self.r.log(1 << 20),
        };
        let p = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            SeekFrom::End(n) => len.checked_add_signed(n),
        };
        self.pos = p.ok_or(Error::new(ErrorKind::InvalidInput, "invalid seek"))?;
        Ok(self.pos)
    }
}

/// Structures nested in themselves, `d` levels deep.
fn nested(r: &mut Rng, d: usize) -> Vec<u8> {
    let (start, open): (&[u8], &[u8]) = *r.pick(&[
        (&b"\0\0\0\x14ftypisom\0\0\0\0isom"[..], &b"\0\xFF\xFF\xFFmoov"[..]),
        (b"\0\0\0\x14ftypisom\0\0\0\0isom", b"\0\xFF\xFF\xFFtrak"),
        (b"\0\0\0\x14ftypisom\0\0\0\0isom", b"\0\0\0\x01mdia\0\0\0\0\0\xFF\xFF\xFF"),
        (b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska", b"\x18\x53\x80\x67\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF"),
        (b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\xFF\x16\x54\xAE\x6B\xFF", b"\xAE\xFF"),
        (b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\xFF", b"\x16\x54\xAE\x6B\xFF"),
        (b"ID3\x04\0\0\0\0\0\0", b"ID3\x04\0\0\0\0\0\0"),
        (b"<?xml version=\"1.0\"?>", b"<a>"),
        (b"<?xml version=\"1.0\"?>", b"<!--<!["),
        (b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C\xFF\xFF\xFF\xFF\xFF\xFF\xFF\0\xFF\0\0\0\x01\x02", b"\xB5\x03\xBF\x5F\x2E\xA9\xCF\x11\x8E\xE3\x00\xC0\x0C\x20\x53\x65\xFF\xFF\xFF\xFF\0\0\0\0\x11\xD2\xD3\xAB\xBA\xA9\xCF\x11\x8E\xE6\x00\xC0\x0C\x20\x53\x65\x06\0\xFF\xFF\xFF\0"),
        (b"PK\x03\x04", b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF\0\0\0\0\0\0\0\0\0\0"),
    ]);
    let mut v = start.to_vec();
    for _ in 0..d {
        v.extend_from_slice(open);
    }
    v
}

pub fn c01(p: &Params) -> Vec<Workload> {
    vec![
        wl("hostile", n(p, 250_000, 8_000_000), |cx| {
            let mut r = cx.rng();
            let c = hostile(&mut r);
            cx.sample(|| c.tag.clone());
            let plan = plan_of(&mut r, &c.src);
            c01_src(cx, &c.src, plan, &|| c.tag.clone());
            if let Some(b) = c.src.materialize(80_000) {
                c01_bytes(cx, &b, &|| c.tag.clone());
            }
        }),
        // Each field position of a structured file set to each extreme value.
        wl("fields", n(p, 2600, 80_000), |cx| {
            let mut r = cx.rng();
            let g = FAMILY_GENS[(cx.idx % 11) as usize].1;
            let mut v = loop {
                let c = g(&mut r);
                if let Some(b) = c.src.materialize(3000) {
                    break b;
                }
            };
            let len = v.len();
            let from = if len > 200 && r.one_in(3) { len - 200 } else { 0 };
            for at in from..len.min(from + 200) {
                for w in [1usize, 2, 4, 8] {
                    if at + w > len {
                        continue;
                    }
                    let old: Vec<u8> = v[at..at + w].to_vec();
                    let x = mix(r.u64());
                    let big = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
                    for k in 0..3u64 {
                        let y = match (x >> (8 * k)) % 9 {
                            0 => 0,
                            1 => big,
                            2 => big - ((x >> 40) % 80).min(big),
                            3 => big >> 1,
                            4 => (big >> 1) + 1,
                            5 => len as u64,
                            6 => (len - at) as u64,
                            7 => 1,
                            _ => x & big,
                        };
                        let b = y.to_le_bytes();
                        for i in 0..w {
                            v[at + i] = if (x >> 50 ^ k) & 1 == 0 { b[i] } else { b[w - 1 - i] };
                        }
                        c01_bytes(cx, &v, &|| format!("field of {w} bytes at {at}"));
                        v[at..at + w].copy_from_slice(&old);
                    }
                }
            }
        }),
        wl("truncations", n(p, 4000, 100_000), |cx| {
            let mut r = cx.rng();
            let (c, b) = any_small(&mut r, 9000);
            cx.sample(|| format!("every prefix of {}", c.tag));
            let step = 1 + b.len() / 400;
            let mut k = r.idx(step);
            while k < b.len() {
                c01_bytes(cx, &b[..k], &|| format!("{} cut at {k}", c.tag));
                if r.one_in(10) {
                    let v = Virt::bytes(b[..k].to_vec());
                    let plan = plan_of(&mut r, &v);
                    c01_src(cx, &v, plan, &|| format!("{} cut at {k}", c.tag));
                }
                k += step;
            }
        }),
        // Deeply nested structures on a small stack.
        wl("nested", n(p, 400, 6000), |cx| {
            let mut r = cx.rng();
            let d = 1 + r.log(60_000) as usize;
            let v = nested(&mut r, d);
            cx.sample(|| format!("{} levels of {}", d, hex(&v, 40)));
            let h = hash(&v);
            let o = std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(512 << 10).spawn_scoped(s, || det_bytes(&v)).unwrap().join()
            });
            cx.eval();
            cx.nontrivial(h);
            cx.max("nesting depth", d as u64);
            match o {
                Ok(Out::Fmt(f)) => cx.label(format!("{f:?}")),
                Ok(o) => cx.fail(format!("nested:{}", o.show()), format!("{d} levels: {}", o.show()), hex(&v, 120)),
                Err(_) => cx.inconclusive("a helper thread failed".into()),
            }
        }),
        // Sources that change under the reader's feet.
        wl("chaotic", n(p, 40_000, 1_000_000), |cx| {
            let mut r = cx.rng();
            let head = if r.one_in(10) { vec![] } else { let c = any(&mut r); c.src.head(2000) };
            let mut s = Chaos { unit: crate::mutate::unit(&mut r), errs: *r.pick(&[0, 0, 20, 300]), ops: 0, pos: 0, head, r };
            let seed = hash(&s.head) ^ s.r.clone().u64();
            let (o, _) = guarded(|| F::from_reader(&mut s));
            cx.eval();
            cx.nontrivial(seed);
            cx.max("ops of a chaotic source", s.ops as u64);
            match o {
                Out::Fmt(_) | Out::Err(_) => cx.label(format!("chaotic: {}", if o.fmt().is_some() { "format" } else { "error" })),
                _ => cx.fail(format!("chaotic:{}", o.show()), format!("a source that changes all the time: {}", o.show()), hex(&s.head, 200)),
            }
        }),
        // The other entry points on hostile content.
        wl("entries", n(p, 2000, 30_000), |cx| {
            let mut r = cx.rng();
            let v = mutant(&mut r, 70_000);
            let path = format!("{}/c01-{}", cx.p.scratch, cx.idx);
            std::fs::write(&path, &v).unwrap();
            let (o, _) = guarded(|| F::from_file(&path));
            let (q, _) = guarded(|| Ok(F::from(&v[..])));
            let (t, _) = guarded(|| F::from_reader(BufReader::with_capacity(1 + r.idx(70), Cursor::new(&v))));
            let _ = std::fs::remove_file(&path);
            for (o, how) in [(o, "from_file"), (q, "conversion"), (t, "buffered reader")] {
                cx.eval();
                if o.fmt().is_none() {
                    cx.fail(format!("{how}:{}", o.show()), format!("{how}: {}", o.show()), hex(&v, 400));
                }
            }
            cx.nontrivial(hash(&v));
        }),
    ]
}

// --- C02 --------------------------------------------------------------------------------------

const MAX_OPS: u64 = 200_000;
const MIB: u64 = 1 << 20;

fn c02_judge(cx: &mut Cx, r: &mut Rng, v: &Virt, tag: &str) {
    let a = refm::accept(&v.head(HEAD));
    let (class, max_bytes) = if refm::readerless(&a) {
        ("without reader", MIB)
    } else if a == [F::PortableDocumentFormat] {
        ("PDF", 33 * MIB)
    } else {
        ("with reader", 512 * MIB)
    };
    let mut plan = Plan::plain();
    plan.file_like = r.coin();
    plan.budget_ops = MAX_OPS;
    plan.budget_bytes = max_bytes;
    let (o, st, heap) = det_src(v, plan);
    cx.eval();
    cx.stats(&st);
    cx.nontrivial(v.hash());
    cx.label(class);
    cx.label(match a.first() {
        Some(f) if !refm::readerless(&a) => Cow::Owned(format!("body of {f:?}")),
        _ => "generic".into(),
    });
    cx.max("ops", st.ops);
    cx.max(match class { "PDF" => "bytes, PDF", "without reader" => "bytes, without reader", _ => "bytes, with reader" }, st.bytes);
    cx.max("heap", heap.max(0) as u64);
    cx.max("source length", v.len);
    let mut bad = |what: &str, m: String| {
        cx.fail(format!("{class}:{what}"), format!("{tag}: {m} (result {})", o.show()), v.describe(200));
    };
    if st.ops > MAX_OPS {
        bad("operations", format!("more than {MAX_OPS} read and seek calls"));
    }
    if st.bytes > max_bytes {
        bad("bytes", format!("more than {max_bytes} bytes read"));
    }
    if heap > MIB as i64 {
        bad("heap", format!("{heap} bytes of heap in use"));
    }
    if let Out::Panic(m) = &o {
        // C01's concern, unless it hides a resource problem: nothing was measured here.
        cx.inconclusive(format!("{tag}: panic {m}"));
    }
}

pub fn c02(p: &Params) -> Vec<Workload> {
    vec![
        wl("endless", n(p, 60_000, 2_000_000), |cx| {
            let mut r = cx.rng();
            let c = if r.coin() { endless_aligned(&mut r) } else { endless(&mut r) };
            cx.sample(|| c.tag.clone());
            c02_judge(cx, &mut r, &c.src, &c.tag);
        }),
        wl("directories", n(p, 1200, 20_000), |cx| {
            let mut r = cx.rng();
            let c = endless_zip(&mut r);
            cx.sample(|| c.tag.clone());
            c02_judge(cx, &mut r, &c.src, &c.tag);
        }),
        wl("hostile", n(p, 60_000, 2_000_000), |cx| {
            let mut r = cx.rng();
            let c = hostile(&mut r);
            cx.sample(|| c.tag.clone());
            c02_judge(cx, &mut r, &c.src, &c.tag);
        }),
        wl("wellformed", n(p, 30_000, 600_000), |cx| {
            let mut r = cx.rng();
            let c = any(&mut r);
            cx.sample(|| c.tag.clone());
            c02_judge(cx, &mut r, &c.src, &c.tag);
        }),
        // Many large pieces where a reader keeps what it reads.
        wl("large", n(p, 300, 4000), |cx| {
            let mut r = cx.rng();
            let (v, tag) = large(&mut r);
            cx.sample(|| tag.clone());
            c02_judge(cx, &mut r, &v, &tag);
        }),
        // The slice entry point: heap only.
        wl("slices", n(p, 20_000, 400_000), |cx| {
            let mut r = cx.rng();
            let v = mutant(&mut r, 200_000);
            let (o, heap) = guarded(|| Ok(F::from_bytes(&v)));
            cx.eval();
            cx.nontrivial(hash(&v));
            cx.max("heap, slices", heap.max(0) as u64);
            if heap > MIB as i64 {
                cx.fail("slices:heap", format!("{heap} bytes of heap in use for {} bytes of input ({})", v.len(), o.show()), hex(&v, 200));
            }
        }),
        // Slices and files of a quarter of a gigabyte, mostly untouched: heap, and pages of the slice that are looked at.
        wl("long slices", n(p, 600, 8000), |cx| {
            let mut r = cx.rng();
            let c = match r.below(4) {
                0 => signature_case(&mut r),
                1 => Case { src: Virt::bytes(textish(&mut r)), want: vec![], tag: "text".into() },
                2 => {
                    let k = r.log(400) as usize;
                    Case { src: Virt::bytes(r.filler(k)), want: vec![], tag: "noise".into() }
                }
                _ => any(&mut r),
            };
            let len = (1usize << 28) - r.log(1 << 20) as usize;
            let Some(mut m) = pages::Mapping::new(len) else {
                cx.inconclusive("cannot map memory".into());
                return;
            };
            for (a, b) in &c.src.segs {
                if *a + b.len() as u64 <= len as u64 {
                    m.bytes_mut()[*a as usize..*a as usize + b.len()].copy_from_slice(b);
                }
            }
            let accept = refm::accept(&m.bytes()[..HEAD]);
            let quiet = refm::readerless(&accept);
            let path = format!("{}/long{}", cx.p.scratch, cx.idx);
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(&path).unwrap();
                f.set_len(len as u64).unwrap();
                for (a, b) in &c.src.segs {
                    let _ = f.write_all_at(b, *a);
                }
            }
            cx.nontrivial(c.src.hash() ^ len as u64);
            cx.sample(|| format!("{} in {len} bytes", c.tag));
            let b = m.bytes();
            let ways: [(&str, &dyn Fn() -> Result<F>); 5] = [
                ("slice", &|| Ok(F::from_bytes(b))),
                ("conversion", &|| Ok(F::from(b))),
                ("memory reader", &|| F::from_reader(Cursor::new(b))),
                ("path", &|| F::from_file(&path)),
                ("file", &|| F::from_reader(std::fs::File::open(&path)?)),
            ];
            for (how, f) in ways {
                let before = pages::faults();
                let (o, heap) = guarded(f);
                let touched = pages::faults() - before;
                cx.eval();
                cx.label(how);
                cx.max("heap, long slices and files", heap.max(0) as u64);
                if quiet {
                    cx.max("pages touched, without reader", touched);
                }
                if heap > MIB as i64 {
                    cx.fail(format!("{how}:heap"), format!("{heap} bytes of heap in use for a {how} of {len} bytes ({}, {})", c.tag, o.show()), c.src.describe(100));
                }
                // A page of the slice costs at most one fault; heap and stack take some more.
                if quiet && touched > (2 * MIB) / 4096 + 200 {
                    cx.fail(format!("{how}:pages"), format!("{touched} pages looked at in a {how} of {len} bytes without reader ({}, {})", c.tag, o.show()), c.src.describe(100));
                }
            }
            let _ = std::fs::remove_file(&path);
        }),
    ]
}

mod pages {
    extern "C" {
        fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        fn munmap(a: *mut u8, n: usize) -> i32;
        fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
        fn getrusage(who: i32, to: *mut [i64; 18]) -> i32;
    }
    /// Zeroed memory of which nothing has been looked at yet.
    pub struct Mapping(*mut u8, usize);
    impl Mapping {
        pub fn new(n: usize) -> Option<Mapping> {
            // SAFETY: a fresh private mapping; 15 keeps its pages small.
            unsafe {
                let p = mmap(std::ptr::null_mut(), n, 3, 0x4022, -1, 0);
                if p as isize == -1 {
                    return None;
                }
                madvise(p, n, 15);
                Some(Mapping(p, n))
            }
        }
        pub fn bytes(&self) -> &[u8] {
            // SAFETY: mapped for as long as self.
            unsafe { std::slice::from_raw_parts(self.0, self.1) }
        }
        pub fn bytes_mut(&mut self) -> &mut [u8] {
            // SAFETY: as above, borrowed mutably.
            unsafe { std::slice::from_raw_parts_mut(self.0, self.1) }
        }
    }
    impl Drop for Mapping {
        fn drop(&mut self) {
            // SAFETY: mapped by new.
            unsafe {
                munmap(self.0, self.1);
            }
        }
    }
    /// Page faults of this thread so far.
    pub fn faults() -> u64 {
        let mut u = [0i64; 18];
        // SAFETY: the structure has 144 bytes; 1 is RUSAGE_THREAD.
        unsafe { getrusage(1, &mut u) };
        (u[8] + u[9]) as u64
    }
}

/// Sources made of one huge piece: a line, a tag, a name, an attribute, a comment.
fn large(r: &mut Rng) -> (Virt, String) {
    let len = *r.pick(&[1u64 << 20, 3 << 20, 40 << 20, 1 << 33, u64::MAX]);
    let fill: &[u8] = *r.pick(&[&b"a"[..], b"\n", b" ", b"<", b"\xC3\xA9", b"a\n", b"\xFF", b"\0", b"-", b"\xF0\x9F\x98\x80", b"\xE2\x82"]);
    let head: &[u8] = *r.pick(&[
        &b""[..], b"~", b"<?xml ", b"<?xml version=\"1.0\"?><!--", b"<?xml version=\"1.0\"?><", b"%PDF-1.4\n", b"SQLite format 3\0", b"PK\x03\x04", b"PK\x05\x06", b"MZ", b"ID3\x04\0\0\x7F\x7F\x7F\x7F", b"\xEF\xBB\xBF", b".RMF\0\0\0\x12", b"\0\0\0\x14ftypisom\0\0\0\0isom",
        b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1", b"\x1A\x45\xDF\xA3\x01\0\0\0\0\xFF\xFF\xFF\x42\x82\x01\0\0\0\x10\0\0\0", b"\x1A\x45\xDF\xA3\x01\0\0\0\0\xFF\xFF\xFF\x42\x82\x08\xFF\xFF\xFF\xFF",
        b".RMF\0\0\0\x12\0\0\0\0\0\0\0\0\0\x01MDPR\xFF\xFF\xFF\xFF\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\xFF\0\xFF",
    ]);
    let mut v = Virt { len, segs: vec![], fill: fill.to_vec() };
    v.segs.push((0, head.to_vec()));
    // A record at the end whose comment is what precedes it.
    if head.starts_with(b"PK") && r.coin() {
        let l = r.log(65_557);
        let mut e = b"PK\x05\x06".to_vec();
        e.extend(fill.iter().cycle().take(18));
        if len < u64::MAX {
            v.segs.push((len - 22 - l.min(len - 100), e));
        }
    }
    let tag = format!("{} then {} up to {len}", hex(head, 30), hex(fill, 8));
    (v, tag)
}

// --- C05 --------------------------------------------------------------------------------------

/// Content with its expected verdicts (empty when unknown).
fn content(r: &mut Rng, max: u64) -> (Vec<u8>, Vec<F>, String) {
    match r.below(8) {
        0 | 1 => (mutant(r, max), vec![], "mutant".into()),
        2 => {
            let c = signature_case(r);
            (c.src.materialize(1 << 20).unwrap(), vec![], c.tag)
        }
        3 if r.one_in(3) => {
            let k = HEAD - 3 + r.idx(7);
            let mut v = r.filler(k);
            let x = *r.pick(alts());
            for (o, s) in alt(x) {
                if o + s.len() <= v.len() {
                    v[*o..*o + s.len()].copy_from_slice(s);
                }
            }
            (v, vec![], "around the edge of the head".into())
        }
        _ => {
            let (c, b) = any_small(r, max);
            (b, c.want, c.tag)
        }
    }
}

pub fn c05(p: &Params) -> Vec<Workload> {
    vec![
        wl("chunks", n5(p, 20_000, 600_000), |cx| {
            let mut r = cx.rng();
            let (b, want, tag) = content(&mut r, 120_000);
            let base = det_bytes(&b);
            let v = Virt::bytes(b);
            cx.sample(|| format!("{tag} => {}", base.show()));
            if base.fmt().is_none() {
                cx.inconclusive(format!("{tag}: {}", base.show()));
                return;
            }
            if !want.is_empty() && !want.contains(&base.fmt().unwrap()) {
                cx.label("not the constructed verdict (see C11-C22)");
            }
            cx.label(format!("{:?}", base.fmt().unwrap()));
            let mut kinds: Vec<(Chunk, u64)> = vec![
                (Chunk::Full, 0),
                (Chunk::Full, 2 + r.below(3)),
                (Chunk::Random(1 + r.log(20) as usize), 0),
                (Chunk::Random(1 + r.log(9000) as usize), 0),
                (Chunk::Random(1 + r.log(70_000) as usize), 2 + r.below(20)),
                (Chunk::Fixed(1 + r.log(9000) as usize), 0),
                (Chunk::Fixed(*r.pick(&[512, 4096, 8192, 8191, 32_768, 36_869, 65_535])), 1 + r.below(2)),
            ];
            if v.len < 12_000 || r.one_in(10) {
                kinds.push((Chunk::Fixed(1), 0));
                kinds.push((Chunk::Fixed(1), 2));
                kinds.push((Chunk::Fixed(2 + r.idx(14)), 0));
            }
            for (chunk, int) in kinds {
                let mut plan = Plan::plain();
                let what = match &chunk {
                    Chunk::Full => format!("whole reads, interruption 1 in {int}"),
                    Chunk::Fixed(k) => format!("reads of {k}, interruption 1 in {int}"),
                    Chunk::Random(k) => format!("random reads up to {k}, interruption 1 in {int}"),
                };
                plan.chunk = chunk;
                plan.interrupt = int;
                plan.rng = Rng::new(r.u64(), "chunks", 0);
                let (o, st, _) = det_src(&v, plan.clone());
                cx.eval();
                cx.stats(&st);
                cx.nontrivial(st.trace ^ v.hash());
                cx.max("ops", st.ops);
                if o != base {
                    cx.fail(format!("chunks:{}:{}", base.show(), o.show()), format!("{tag}: {what}: {} instead of {}", o.show(), base.show()), v.describe(100));
                }
                // The same behind a buffered reader that has already read something.
                if r.one_in(3) {
                    let mut br = BufReader::with_capacity(1 + r.log(80_000) as usize, Tracer::new(&v, plan));
                    let mut fill = 0;
                    let (o, _) = guarded(|| {
                        for _ in 0..3 {
                            match br.fill_buf() {
                                Ok(x) => {
                                    fill = x.len();
                                    break;
                                }
                                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                                Err(e) => return Err(e),
                            }
                        }
                        F::from_reader(&mut br)
                    });
                    cx.eval();
                    cx.label(if fill > 0 { "buffered reader with bytes" } else { "buffered reader" });
                    if o != base {
                        cx.fail(format!("buffered:{}:{}", base.show(), o.show()), format!("{tag}: buffered reader holding {fill} bytes over {what}: {} instead of {}", o.show(), base.show()), v.describe(100));
                    }
                }
            }
        }),
        // Where one read ends, for every place near the signature, and around the examined sizes.
        wl("cuts", n5(p, 2500, 60_000), |cx| {
            let mut r = cx.rng();
            let (b, _, tag) = content(&mut r, 70_000);
            if b.is_empty() {
                return;
            }
            let base = det_bytes(&b);
            let len = b.len();
            let mut cuts: Vec<usize> = (1..len.min(24)).collect();
            for e in [100usize, 132, 1 << 9, 1 << 12, 1 << 13, 1 << 15, HEAD, 1 << 16, 1 << 15 | 100, len] {
                for k in e.saturating_sub(2)..=e + 2 {
                    if k > 0 && k < len {
                        cuts.push(k);
                    }
                }
            }
            for _ in 0..8 {
                cuts.push(1 + r.idx(len));
            }
            for c in cuts {
                let mut s = TwoPart { b: &b, pos: 0, cut: c };
                let (o, _) = guarded(|| F::from_reader(&mut s));
                cx.eval();
                cx.nontrivial(hash(&b) ^ mix(c as u64));
                if o != base {
                    cx.fail(format!("cut:{}:{}", base.show(), o.show()), format!("{tag}: no read crosses byte {c}: {} instead of {}", o.show(), base.show()), format!("len={len} {}", hex(&b, 100)));
                }
            }
        }),
        // Pipes, for content whose verdict needs no seeking.
        wl("pipes", n5(p, 1500, 20_000), |cx| {
            let mut r = cx.rng();
            let mut v = { let c = signature_case(&mut r); c.src };
            for _ in 0..100 {
                if readerless(&v) {
                    break;
                }
                v = signature_case(&mut r).src;
            }
            if r.coin() {
                let l = r.log(200_000);
                v.len += l;
            }
            if !readerless(&v) {
                return;
            }
            let b = v.materialize(1 << 20).unwrap();
            let base = det_bytes(&b);
            cx.sample(|| format!("pipe: {}", base.show()));
            // A source that cannot seek.
            let mut plan = Plan::plain();
            plan.no_seek = true;
            plan.chunk = Chunk::Random(1 + r.log(9000) as usize);
            plan.rng = Rng::new(r.u64(), "pipe", 0);
            let (o, st, _) = det_src(&v, plan);
            cx.eval();
            cx.stats(&st);
            cx.nontrivial(v.hash());
            if o != base {
                cx.fail(format!("unseekable:{}:{}", base.show(), o.show()), format!("a source that cannot seek: {} instead of {}", o.show(), base.show()), v.describe(100));
            }
            if !r.one_in(4) {
                return;
            }
            // A real named pipe, written in pieces.
            let path = format!("{}/pipe-{}", cx.p.scratch, cx.idx);
            if !fifo::make(&path) {
                cx.inconclusive("cannot make a named pipe".into());
                return;
            }
            let pieces = 1 + r.idx(9);
            let mut wr = r.clone();
            let o = std::thread::scope(|s| {
                let w = s.spawn(|| {
                    if let Ok(mut f) = std::fs::OpenOptions::new().write(true).open(&path) {
                        let mut rest = &b[..];
                        for k in 0..pieces {
                            let m = if k + 1 == pieces { rest.len() } else { wr.idx(rest.len() + 1) };
                            if f.write_all(&rest[..m]).is_err() {
                                return;
                            }
                            let _ = f.flush();
                            rest = &rest[m..];
                            std::thread::sleep(std::time::Duration::from_micros(wr.below(300)));
                        }
                    }
                });
                let (o, _) = guarded(|| F::from_file(&path));
                // Releases the writer should the pipe never have been opened.
                while !w.is_finished() {
                    use std::os::unix::fs::OpenOptionsExt;
                    let _ = std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&path);
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
                o
            });
            let _ = std::fs::remove_file(&path);
            cx.eval();
            cx.label("named pipe");
            if o != base {
                cx.fail(format!("pipe:{}:{}", base.show(), o.show()), format!("a named pipe written in {pieces} pieces: {} instead of {}", o.show(), base.show()), v.describe(100));
            }
        }),
    ]
}

/// A source none of whose reads crosses `cut`.
struct TwoPart<'a> {
    b: &'a [u8],
    pos: usize,
    cut: usize,
}
impl Read for TwoPart<'_> {
    fn read(&mut self, o: &mut [u8]) -> Result<usize> {
        let end = if self.pos < self.cut { self.cut } else { self.b.len() }.min(self.b.len());
        if self.pos >= end {
            return Ok(0);
        }
        let k = o.len().min(end - self.pos);
        o[..k].copy_from_slice(&self.b[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
impl Seek for TwoPart<'_> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let x = match p {
            SeekFrom::Start(k) => Some(k),
            SeekFrom::Current(k) => (self.pos as u64).checked_add_signed(k),
            SeekFrom::End(k) => (self.b.len() as u64).checked_add_signed(k),
        };
        match x {
            Some(k) => {
                self.pos = k.min(usize::MAX as u64) as usize;
                Ok(k)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}

mod fifo {
    extern "C" {
        fn mkfifo(path: *const u8, mode: u32) -> i32;
    }
    pub fn make(p: &str) -> bool {
        let c = std::ffi::CString::new(p).unwrap();
        // SAFETY: a NUL-terminated path.
        unsafe { mkfifo(c.as_ptr() as *const u8, 0o600) == 0 }
    }
}

// --- C06 --------------------------------------------------------------------------------------

trait RS: Read + Seek {}
impl<T: Read + Seek> RS for T {}

struct Mine(Vec<u8>);
impl AsRef<[u8]> for Mine {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}

/// Hides every method but the required ones.
struct Plain<R>(R);
impl<R: Read> Read for Plain<R> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.0.read(b)
    }
}
impl<R: Seek> Seek for Plain<R> {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.0.seek(p)
    }
}

pub fn entry_points(b: &[u8], dir: &str, id: u64, r: &mut Rng) -> Vec<(&'static str, Out)> {
    let mut out: Vec<(&'static str, Out)> = Vec::new();
    let mut add = |n: &'static str, f: &mut dyn FnMut() -> Result<F>| out.push((n, guarded(f).0));
    add("slice", &mut || Ok(F::from_bytes(b)));
    add("conversion", &mut || Ok(F::from(b)));
    add("into", &mut || {
        let f: F = b.into();
        Ok(f)
    });
    let v = b.to_vec();
    add("&Vec", &mut || Ok(F::from_bytes(&v)));
    add("Vec", &mut || Ok(F::from_bytes(v.clone())));
    add("Box", &mut || Ok(F::from_bytes(v.clone().into_boxed_slice())));
    add("Rc", &mut || Ok(F::from_bytes(Rc::<[u8]>::from(b))));
    add("Arc", &mut || Ok(F::from_bytes(Arc::<[u8]>::from(b))));
    add("Cow", &mut || Ok(F::from_bytes(Cow::Borrowed(b))));
    add("own container", &mut || Ok(F::from_bytes(Mine(v.clone()))));
    let mut shifted = vec![0xAA; 3];
    shifted.extend_from_slice(b);
    add("unaligned slice", &mut || Ok(F::from_bytes(&shifted[3..])));
    if let Ok(s) = std::str::from_utf8(b) {
        add("str", &mut || Ok(F::from_bytes(s)));
        add("String", &mut || Ok(F::from_bytes(s.to_string())));
    }
    if b.len() >= 16 && b.len() < 17 {
        add("array", &mut || Ok(F::from_bytes::<[u8; 16]>(b.try_into().unwrap())));
    }
    add("Cursor<&[u8]>", &mut || F::from_reader(Cursor::new(b)));
    add("Cursor<Vec>", &mut || F::from_reader(Cursor::new(v.clone())));
    let mut c = Cursor::new(b);
    add("&mut Cursor", &mut || F::from_reader(&mut c));
    add("dyn reader", &mut || {
        let d: Box<dyn RS> = Box::new(Cursor::new(v.clone()));
        F::from_reader(d)
    });
    add("plain reader", &mut || F::from_reader(Plain(Cursor::new(b))));
    let cap = 1 + r.log(70_000) as usize;
    add("BufReader<Cursor>", &mut || F::from_reader(BufReader::with_capacity(cap, Cursor::new(b))));
    let path = format!("{dir}/f{id}");
    std::fs::write(&path, b).unwrap();
    add("path &str", &mut || F::from_file(path.as_str()));
    add("path String", &mut || F::from_file(path.clone()));
    add("path Path", &mut || F::from_file(Path::new(&path)));
    add("path PathBuf", &mut || F::from_file(PathBuf::from(&path)));
    add("path OsString", &mut || F::from_file(std::ffi::OsString::from(&path)));
    add("File", &mut || F::from_reader(std::fs::File::open(&path)?));
    add("&File", &mut || {
        let f = std::fs::File::open(&path)?;
        F::from_reader(&f)
    });
    add("File opened for writing too", &mut || F::from_reader(std::fs::OpenOptions::new().read(true).write(true).open(&path)?));
    add("Arc<File>", &mut || F::from_reader(Arc::new(std::fs::File::open(&path)?)));
    add("BufReader<File>", &mut || F::from_reader(BufReader::with_capacity(cap, std::fs::File::open(&path)?)));
    add("&mut BufReader<&File>", &mut || {
        let f = std::fs::File::open(&path)?;
        let mut br = BufReader::new(&f);
        F::from_reader(&mut br)
    });
    let link = format!("{dir}/l{id}");
    let link2 = format!("{dir}/sub/m{id}");
    let _ = std::fs::remove_file(&link);
    let _ = std::fs::remove_file(&link2);
    if std::os::unix::fs::symlink(&path, &link).is_ok() {
        add("symbolic link", &mut || F::from_file(&link));
    }
    if std::os::unix::fs::symlink(format!("../l{id}"), &link2).is_ok() {
        add("chain of symbolic links", &mut || F::from_file(&link2));
    }
    let hard = format!("{dir}/sub/h{id}");
    if std::fs::hard_link(&path, &hard).is_ok() {
        add("hard link", &mut || F::from_file(&hard));
        let _ = std::fs::remove_file(&hard);
    }
    // The working directory is the scratch directory's `cwd`.
    add("relative path", &mut || F::from_file(format!("../f{id}")));
    add("relative path with dots", &mut || F::from_file(format!("./../sub/.././/f{id}")));
    add("absolute path with dots", &mut || F::from_file(format!("{dir}/sub/..//./f{id}")));
    {
        use std::os::unix::ffi::OsStrExt;
        let name = [format!("{dir}/sub/n{id}").as_bytes(), b"\xFF\xFE \xC3\xA9.bin"].concat();
        let odd = Path::new(std::ffi::OsStr::from_bytes(&name));
        if std::fs::rename(&path, odd).is_ok() {
            add("path that is not Unicode", &mut || F::from_file(odd));
            let _ = std::fs::rename(odd, &path);
        }
    }
    for p in [&path, &link, &link2] {
        let _ = std::fs::remove_file(p);
    }
    out
}

fn setup_dirs(p: &Params) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    let d = p.scratch.clone();
    ONCE.call_once(move || {
        for s in ["sub", "cwd", "empty"] {
            std::fs::create_dir_all(format!("{d}/{s}")).unwrap();
        }
        std::env::set_current_dir(format!("{d}/cwd")).unwrap();
    });
}

pub fn c06(p: &Params) -> Vec<Workload> {
    setup_dirs(p);
    vec![
        wl("contents", n5(p, 8000, 150_000), |cx| {
            let mut r = cx.rng();
            let (mut b, want, tag) = content(&mut r, 200_000);
            if r.one_in(30) {
                b.truncate(r.idx(20));
            }
            if r.one_in(200) {
                b.clear();
            }
            let all = entry_points(&b, &cx.p.scratch, cx.idx, &mut r);
            let base = all[0].1.clone();
            cx.sample(|| format!("{tag} => {} by {} entry points", base.show(), all.len()));
            cx.nontrivial(hash(&b));
            if !want.is_empty() {
                cx.label("constructed");
            }
            if base.fmt().is_none() {
                cx.fail(format!("slice:{}", base.show()), format!("{tag}: from_bytes: {}", base.show()), hex(&b, 100));
            }
            for (how, o) in all {
                cx.eval();
                cx.label(how);
                if o != base {
                    cx.fail(format!("{how}:{}:{}", base.show(), o.show()), format!("{tag}: {how} gives {}, from_bytes {}", o.show(), base.show()), format!("len={} {}", b.len(), hex(&b, 200)));
                }
            }
        }),
        // The same file under many names: only the content counts.
        wl("names", n5(p, 5000, 80_000), |cx| {
            let mut r = cx.rng();
            let (b, _, tag) = content(&mut r, 60_000);
            let (base, _) = guarded(|| Ok(F::from_bytes(&b)));
            let d = format!("{}/names{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            let near: Vec<F> = base.fmt().map_or(vec![], |f| {
                let row = crate::spec_gen::FAMILIES.iter().find(|x| x.0 == f || x.2.contains(&f));
                row.map_or(vec![f], |x| x.2.to_vec())
            });
            let ext = |f: F| crate::spec_gen::FORMATS.iter().find(|x| x.0 == f).unwrap().5;
            let mut last = format!("{d}/start");
            std::fs::write(&last, &b).unwrap();
            cx.nontrivial(hash(&b));
            for k in 0..8 {
                let f = if k < 5 && !near.is_empty() { *r.pick(&near) } else { r.pick(crate::spec_gen::FORMATS).0 };
                let mut e = ext(f).to_string();
                if r.one_in(6) {
                    e = e.to_uppercase();
                }
                let stem = *r.pick(&["a", "sample", "Document 1", "archive.tar", "x.zip", "", "README", "\u{e9}\u{4e2d}"]);
                let mut name = match r.below(8) {
                    0 => e.clone(),
                    1 => format!("{e}.{stem}x"),
                    2 => (*r.pick(&["mimetype", "Makefile", ".profile", "index.html", "desktop.ini", "a.b.c.d", "core", "AndroidManifest.xml", "x.bak", "x~", "x.tmp", "x.part", "-", "a.txt", "a.md", "a.bin"])).to_string(),
                    _ => format!("{stem}.{e}"),
                };
                name.truncate(name.len().min(200));
                let mut to = format!("{d}/{name}");
                if r.one_in(6) {
                    let _ = std::fs::create_dir(format!("{d}/dir.{e}"));
                    to = format!("{d}/dir.{e}/file");
                }
                if std::fs::rename(&last, &to).is_err() {
                    continue;
                }
                last = to;
                let (o, _) = guarded(|| F::from_file(&last));
                cx.eval();
                if o != base {
                    cx.fail(format!("name:{e}:{}:{}", base.show(), o.show()), format!("{tag}: {} under the name {name:?}, {} as bytes", o.show(), base.show()), format!("len={} {}", b.len(), hex(&b, 200)));
                }
            }
            let _ = std::fs::remove_dir_all(&d);
        }),
        // Content of some megabytes: nothing may look at a part of it only.
        wl("megabytes", n5(p, 220, 3000), |cx| {
            let mut r = cx.rng();
            let c = any_big(&mut r);
            let b = c.src.materialize(1 << 28).unwrap();
            let path = format!("{}/big{}", cx.p.scratch, cx.idx);
            std::fs::write(&path, &b).unwrap();
            let mut all: Vec<(&'static str, Out)> = vec![
                ("slice", guarded(|| Ok(F::from_bytes(&b))).0),
                ("conversion", guarded(|| Ok(F::from(&b[..]))).0),
                ("Cursor", guarded(|| F::from_reader(Cursor::new(&b))).0),
                ("path", guarded(|| F::from_file(&path)).0),
                ("File", guarded(|| F::from_reader(std::fs::File::open(&path)?)).0),
                ("BufReader<File>", guarded(|| F::from_reader(BufReader::new(std::fs::File::open(&path)?))).0),
            ];
            all.push(("Vec", guarded(move || Ok(F::from_bytes(b))).0));
            let _ = std::fs::remove_file(&path);
            let (base, st, _) = det_src(&c.src, Plan::plain());
            cx.stats(&st);
            cx.max("content length", c.src.len);
            cx.sample(|| format!("{} of {} bytes => {}", c.tag, c.src.len, base.show()));
            cx.nontrivial(c.src.hash());
            for (how, o) in all {
                cx.eval();
                if o != base {
                    cx.fail(format!("{how}:{}:{}", base.show(), o.show()), format!("{} of {} bytes: {how} gives {}, a reader {}", c.tag, c.src.len, o.show(), base.show()), c.src.describe(60));
                }
            }
        }),
        // Paths of files that are not regular ones with a size known in advance.
        wl_serial("other files", 1, |cx| {
            for p in ["/proc/version", "/proc/self/cmdline", "/proc/self/status", "/proc/filesystems", "/proc/self/comm", "/proc/sys/kernel/ostype", "/dev/null"] {
                let Ok(b) = std::fs::read(p) else { continue };
                let want = F::from_bytes(&b);
                for _ in 0..3 {
                    let (o, _) = guarded(|| F::from_file(p));
                    cx.eval_distinct();
                    cx.label(format!("{p}: {}", o.show()));
                    if o != Out::Fmt(want) {
                        cx.fail(format!("{p}:{}", o.show()), format!("{p}: {} instead of {want:?}", o.show()), p.into());
                    }
                }
            }
        }),
        // Files cannot be sought past 2^63 bytes, sources in memory can: that must not show.
        wl("far positions", n5(p, 40_000, 1_500_000), |cx| {
            let mut r = cx.rng();
            let (src, tag) = match r.below(4) {
                0 => (Virt::bytes(mutant(&mut r, 6000)), "mutant".to_string()),
                1 => {
                    let c = any(&mut r);
                    (c.src, c.tag)
                }
                _ => {
                    // Some fields of a structured file made extreme.
                    let c = FAMILY_GENS[(cx.idx % 11) as usize].1(&mut r);
                    let mut src = c.src;
                    for _ in 0..1 + r.below(3) {
                        if src.segs.is_empty() {
                            break;
                        }
                        let k = r.idx(src.segs.len());
                        let b = &mut src.segs[k].1;
                        let w = *r.pick(&[2usize, 4, 8, 8, 8]);
                        if b.len() < w {
                            continue;
                        }
                        // Near the end, where directories of archives are, or anywhere.
                        let at = if r.coin() { b.len() - w - r.idx(80.min(b.len() - w) + 1).min(b.len() - w) } else { r.idx(b.len() - w + 1) };
                        let y = match r.below(6) {
                            0 => u64::MAX - r.below(100),
                            1 => (1 << 63) - r.below(3),
                            2 => (1 << 63) + r.below(100),
                            3 => 0,
                            4 => 1 << (56 + r.below(8)),
                            _ => r.u64() | 1 << 63,
                        };
                        let be = r.coin();
                        for i in 0..w {
                            b[at + i] = if be { (y >> (8 * (7 - i))) as u8 } else if w == 8 { (y >> (8 * i)) as u8 } else { (y >> (8 * (8 - w + i))) as u8 };
                        }
                    }
                    (src, c.tag)
                }
            };
            let (base, st, _) = det_src(&src, Plan::plain());
            let mut plan = Plan::plain();
            plan.file_like = true;
            let (o, _, _) = det_src(&src, plan);
            cx.eval();
            cx.stats(&st);
            cx.nontrivial(src.hash());
            cx.label(base.show());
            if o != base {
                cx.fail(format!("far:{}:{}", base.show(), o.show()), format!("{tag}: {} from a source with the limits of a file, else {}", o.show(), base.show()), src.describe(200));
            }
        }),
        // Sparse files past 4 GiB: path, file and buffered reader against the virtual source.
        wl("sparse", n5(p, 400, 4000), |cx| {
            let mut r = cx.rng();
            let mut c = any(&mut r);
            for _ in 0..60 {
                if c.src.len > 300_000 && c.src.len < 1 << 36 && c.src.segs.len() < 40 {
                    break;
                }
                c = any(&mut r);
            }
            if c.src.len > 1 << 36 || c.src.segs.len() >= 40 {
                return;
            }
            c.src.fill = vec![0];
            let path = format!("{}/sparse{}", cx.p.scratch, cx.idx);
            {
                use std::os::unix::fs::FileExt;
                let f = std::fs::File::create(&path).unwrap();
                f.set_len(c.src.len).unwrap();
                for (a, b) in &c.src.segs {
                    f.write_all_at(b, *a).unwrap();
                }
            }
            let mut plan = Plan::plain();
            plan.file_like = true;
            let (base, st, _) = det_src(&c.src, plan);
            cx.stats(&st);
            cx.max("sparse file length", c.src.len);
            cx.sample(|| format!("{} of {} bytes => {}", c.tag, c.src.len, base.show()));
            cx.nontrivial(c.src.hash());
            let (a, _) = guarded(|| F::from_file(&path));
            let (b, _) = guarded(|| F::from_reader(std::fs::File::open(&path)?));
            let (d, _) = guarded(|| F::from_reader(BufReader::new(std::fs::File::open(&path)?)));
            let _ = std::fs::remove_file(&path);
            let mut all = vec![("path of a large file", a), ("large file", b), ("buffered large file", d)];
            if c.src.len < 6 << 30 && c.src.segs.iter().all(|(a, b)| a + b.len() as u64 <= c.src.len) {
                // The same in memory, where untouched pages cost nothing.
                crate::meter::with_zeroes(c.src.len as usize, |v| {
                    for (a, b) in &c.src.segs {
                        v[*a as usize..*a as usize + b.len()].copy_from_slice(b);
                    }
                    all.push(("large slice", guarded(|| Ok(F::from_bytes(&*v))).0));
                    all.push(("cursor over a large slice", guarded(|| F::from_reader(Cursor::new(&*v))).0));
                });
                cx.max("slice length", c.src.len);
            }
            for (how, o) in all {
                cx.eval();
                if o != base {
                    cx.fail(format!("{how}:{}:{}", base.show(), o.show()), format!("{}: {how} gives {}, the same content elsewhere {}", c.tag, o.show(), base.show()), c.src.describe(60));
                }
            }
        }),
        wl_serial("unreadable", 1, |cx| {
            let d = cx.p.scratch.clone();
            let _ = std::fs::remove_file(format!("{d}/loop"));
            let _ = std::fs::remove_file(format!("{d}/dangling"));
            let _ = std::fs::remove_file(format!("{d}/todir"));
            let _ = std::os::unix::fs::symlink(format!("{d}/loop"), format!("{d}/loop"));
            let _ = std::os::unix::fs::symlink(format!("{d}/nothing"), format!("{d}/dangling"));
            let _ = std::os::unix::fs::symlink(format!("{d}/sub"), format!("{d}/todir"));
            std::fs::write(format!("{d}/plainfile"), b"%PDF-1.4\n").unwrap();
            let long = "x".repeat(5000);
            let paths: Vec<(&str, String)> = vec![
                ("missing", format!("{d}/nothing")),
                ("missing directory", format!("{d}/no/such")),
                ("missing.zip", format!("{d}/nothing.zip")),
                ("directory", d.clone()),
                ("directory with slash", format!("{d}/sub/")),
                ("empty directory", format!("{d}/empty")),
                ("directory link", format!("{d}/todir")),
                ("current directory", ".".into()),
                ("root", "/".into()),
                ("link to itself", format!("{d}/loop")),
                ("dangling link", format!("{d}/dangling")),
                ("through a file", format!("{d}/plainfile/x")),
                ("file with slash", format!("{d}/plainfile/")),
                ("empty path", String::new()),
                ("too long a name", format!("{d}/{long}")),
                ("path with NUL", format!("{d}/a\0b")),
            ];
            for (what, p) in paths {
                for _ in 0..3 {
                    let (o, _) = guarded(|| F::from_file(&p));
                    cx.eval_distinct();
                    cx.label(format!("{what}: {}", o.show()));
                    if !matches!(o, Out::Err(_)) {
                        cx.fail(format!("{what}:{}", o.show()), format!("{what}: {} instead of an error", o.show()), p.clone());
                    }
                    let expect = match what {
                        "missing" | "dangling link" | "missing directory" | "missing.zip" => Some(ErrorKind::NotFound),
                        _ => None,
                    };
                    if let (Some(e), Out::Err(k)) = (expect, &o) {
                        if e != *k {
                            cx.fail(format!("{what}:{k:?}"), format!("{what}: error {k:?} instead of {e:?}"), p.clone());
                        }
                    }
                }
            }
        }),
    ]
}

// --- C08 --------------------------------------------------------------------------------------

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::NotFound, ErrorKind::BrokenPipe, ErrorKind::InvalidInput, ErrorKind::OutOfMemory, ErrorKind::Unsupported, ErrorKind::ConnectionReset,
];

fn c08_case(cx: &mut Cx, r: &mut Rng, v: &Virt, tag: &str, most: u64) {
    let mut plan = Plan::plain();
    plan.file_like = true;
    match r.below(4) {
        0 if v.len < 1 << 17 => plan.chunk = Chunk::Random(500 + r.log(9000) as usize),
        1 if v.len < 2000 => plan.chunk = Chunk::Fixed(1 + r.idx(60)),
        _ => {}
    }
    plan.rng = Rng::new(r.u64(), "c08", 0);
    let (base, st, _) = det_src(v, plan.clone());
    cx.stats(&st);
    let Some(bf) = base.fmt() else {
        cx.inconclusive(format!("{tag}: {} without fault", base.show()));
        return;
    };
    let text = refm::is_text(&v.head(65_536));
    cx.max("operations of a faulted run", st.ops);
    let ops: Vec<u64> = if st.ops <= most { (0..st.ops).collect() } else {
        let mut o: Vec<u64> = (0..8).chain(st.ops - 8..st.ops).collect();
        o.extend((16..most).map(|_| r.below(st.ops)));
        o.sort();
        o.dedup();
        o
    };
    for k in ops {
        for sticky in [false, true] {
            let kind = *r.pick(KINDS);
            let mut p = plan.clone();
            p.fault = Some((k, Fault::Err(kind), sticky));
            let (o, st, _) = det_src(v, p);
            cx.eval();
            cx.stats(&st);
            cx.nontrivial(v.hash() ^ mix(k * 2 + sticky as u64));
            if !st.fired {
                cx.label("fault not reached");
                continue;
            }
            let ok = if st.fired_in_head {
                cx.label("fault in the leading bytes");
                o == Out::Err(kind)
            } else {
                cx.label("fault later");
                match &o {
                    Out::Fmt(f) => *f == bf || *f == F::ArbitraryBinaryData || (*f == F::PlainText && text),
                    Out::Err(e) => *e == kind,
                    _ => false,
                }
            };
            if !st.fired_in_head {
                cx.label(match &o {
                    Out::Err(_) => "later: error",
                    Out::Fmt(f) if *f == bf => "later: clean verdict",
                    Out::Fmt(_) => "later: generic verdict",
                    _ => "later: other",
                });
            }
            if !ok {
                cx.fail(
                    format!("{}:{}:{}", if st.fired_in_head { "head" } else { "later" }, base.show(), o.show()),
                    format!("{tag}: {kind:?} at operation {k}{}: {} (without fault {})", if sticky { " and after" } else { "" }, o.show(), base.show()),
                    v.describe(100),
                );
            }
        }
    }
}

pub fn c08(p: &Params) -> Vec<Workload> {
    vec![
        wl("operations", n5(p, 12_000, 300_000), |cx| {
            let mut r = cx.rng();
            let g = FAMILY_GENS[(cx.idx % FAMILY_GENS.len() as u64) as usize];
            let mut c = (g.1)(&mut r);
            for _ in 0..20 {
                if g.0 != "pdf" || c.src.len < 400_000 {
                    break;
                }
                c = (g.1)(&mut r);
            }
            cx.sample(|| c.tag.clone());
            let most = if cx.p.thorough { 400 } else { 60 };
            c08_case(cx, &mut r, &c.src, &c.tag, most);
        }),
        wl("mutants", n5(p, 6000, 200_000), |cx| {
            let mut r = cx.rng();
            let b = mutant(&mut r, 60_000);
            c08_case(cx, &mut r, &Virt::bytes(b), "mutant", 40);
        }),
        // A region that cannot be read, at every kind of place.
        wl("regions", n5(p, 30_000, 800_000), |cx| {
            let mut r = cx.rng();
            let c = any(&mut r);
            let v = &c.src;
            let mut plan = Plan::plain();
            plan.file_like = true;
            let (base, _, _) = det_src(v, plan.clone());
            let Some(bf) = base.fmt() else { return };
            let text = refm::is_text(&v.head(65_536));
            for _ in 0..4 {
                let at = match r.below(4) {
                    0 => r.below(v.len.min(100) + 1),
                    1 => r.log(v.len),
                    2 => v.len.saturating_sub(1 + r.log(v.len)),
                    _ => (HEAD as u64 + r.below(5)).saturating_sub(2),
                };
                let mut p = plan.clone();
                p.bad_from = at;
                let (o, st, _) = det_src(v, p);
                cx.eval();
                cx.stats(&st);
                cx.nontrivial(v.hash() ^ mix(at));
                let head = at < v.len.min(HEAD as u64);
                let ok = match &o {
                    Out::Err(e) => *e == ErrorKind::Other,
                    Out::Fmt(f) => !head && (*f == bf || *f == F::ArbitraryBinaryData || (*f == F::PlainText && text)),
                    _ => false,
                };
                cx.label(if head { "unreadable leading bytes" } else { "unreadable later" });
                if !ok {
                    cx.fail(
                        format!("region:{}:{}", base.show(), o.show()),
                        format!("{}: unreadable from byte {at}: {} (readable: {})", c.tag, o.show(), base.show()),
                        v.describe(100),
                    );
                }
            }
        }),
    ]
}

// --- C10 --------------------------------------------------------------------------------------

fn c10_judge(cx: &mut Cx, x: &[u8], what: &dyn Fn() -> String) {
    let want = refm::closure(x);
    let o = det_bytes(x);
    cx.eval();
    cx.nontrivial(hash(x));
    match o.fmt() {
        Some(f) if want.contains(&f) => {
            let a = refm::accept(x);
            cx.label(match a.first().and_then(|b| refm::feature(*b)) {
                Some(feat) if a.len() == 1 => Cow::Owned(format!(
                    "{feat}: {}",
                    if f == a[0] { "base format" } else if f == F::PlainText { "plain text" } else if f == F::ArbitraryBinaryData { "binary data" } else { "refined" }
                )),
                _ => "no reader".into(),
            });
        }
        _ => cx.fail(
            format!("{}:{}", show(&refm::accept(x)), o.show()),
            format!("{}: {} is not among the verdicts permitted for signature {}", what(), o.show(), show(&refm::accept(x))),
            format!("len={} {}", x.len(), hex(x, 300)),
        ),
    }
}

pub fn c10(p: &Params) -> Vec<Workload> {
    vec![
        wl("mutants", n5(p, 150_000, 5_000_000), |cx| {
            let mut r = cx.rng();
            let b = mutant(&mut r, 70_000);
            cx.sample(|| hex(&b, 60));
            c10_judge(cx, &b, &|| "mutant".into());
        }),
        // The signature of one family on the body of another.
        wl("transplants", n5(p, 60_000, 2_000_000), |cx| {
            let mut r = cx.rng();
            let (c, mut b) = any_small(&mut r, 30_000);
            let x = *r.pick(alts());
            if r.coin() {
                for (o, s) in alt(x) {
                    if b.len() < o + s.len() {
                        b.resize(o + s.len(), 0);
                    }
                    b[*o..*o + s.len()].copy_from_slice(s);
                }
            } else {
                // The whole of a foreign file behind the signature.
                let mut v = vec![0; refm::alt_end(alt(x))];
                for (o, s) in alt(x) {
                    v[*o..*o + s.len()].copy_from_slice(s);
                }
                v.extend_from_slice(&b);
                b = v;
            }
            cx.sample(|| format!("{:?} over {}", crate::spec_gen::SIGS[x.0].0, c.tag));
            c10_judge(cx, &b, &|| format!("{:?} over {}", crate::spec_gen::SIGS[x.0].0, c.tag));
        }),
        wl("truncations", n5(p, 8000, 200_000), |cx| {
            let mut r = cx.rng();
            let (c, b) = any_small(&mut r, 20_000);
            for _ in 0..12 {
                let k = (r.log(b.len() as u64) as usize).min(b.len());
                let k = if r.coin() { k } else { b.len() - k };
                c10_judge(cx, &b[..k], &|| format!("{} cut at {k}", c.tag));
            }
        }),
        wl("wellformed", n5(p, 20_000, 500_000), |cx| {
            let mut r = cx.rng();
            let (c, b) = any_small(&mut r, 400_000);
            c10_judge(cx, &b, &|| c.tag.clone());
        }),
        // Every alternative followed by nothing, zeros, text or tokens.
        wl("signatures", alts().len() as u64 * n5(p, 24, 600), |cx| {
            let mut r = cx.rng();
            let x = alts()[(cx.idx % alts().len() as u64) as usize];
            let mut v = { let k = refm::alt_end(alt(x)); r.filler(k) };
            for (o, s) in alt(x) {
                v[*o..*o + s.len()].copy_from_slice(s);
            }
            match r.below(4) {
                0 => {}
                1 => v.resize(v.len() + r.len(5000) as usize, 0),
                2 => {
                    for _ in 0..r.below(60) {
                        v.extend_from_slice(*r.pick(TOKENS));
                    }
                }
                _ => {
                    for _ in 0..r.below(300) {
                        v.extend_from_slice(*r.pick(&[&b"word "[..], b"line\n", b"<tag a=\"b\">", b"\xC3\xA9", b"{}"]));
                    }
                }
            }
            c10_judge(cx, &v, &|| format!("{:?}", crate::spec_gen::SIGS[x.0].0));
        }),
    ]
}

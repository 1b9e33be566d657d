//! Hostile inputs: mutations of structured files, repeating units, extreme fields.
use crate::gens::Case;
use crate::gens2::{any, FAMILY_GENS};
use crate::refm;
use crate::rng::Rng;
use crate::source::Virt;
use crate::words;

pub const TOKENS: &[&[u8]] = &[
    b"PK\x03\x04", b"PK\x01\x02", b"PK\x05\x06", b"PK\x06\x06", b"PK\x06\x07", b"mimetype", b"META-INF/MANIFEST.MF", b"META-INF/",
    b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1", b"\x1A\x45\xDF\xA3", b"\x42\x82\x88matroska", b"\x42\x82\x84webm", b"\x18\x53\x80\x67", b"\x16\x54\xAE\x6B",
    b"\x1F\x43\xB6\x75", b"\xAE", b"\xE0", b"\x83\x81\x01", b"\x53\xB8\x81\x01", b"\xEC", b"\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF",
    b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C", b"\x91\x07\xDC\xB7\xB7\xA9\xCF\x11\x8E\xE6\x00\xC0\x0C\x20\x53\x65",
    b"\xB5\x03\xBF\x5F\x2E\xA9\xCF\x11\x8E\xE3\x00\xC0\x0C\x20\x53\x65", b"\x40\xA4\xD0\xD2\x07\xE3\xD2\x11\x97\xF0\x00\xA0\xC9\x5E\xA8\x50",
    b"\x9E\x69\x4F\xF8\x4B\xC5\x11\xD0\xAA\xD9\x00\xAA\x00\xBB\xAE\x0A", b"D\0V\0R\0 \0F\0i\0l\0e\0",
    b"ftypisom", b"ftypmp42", b"moov", b"trak", b"mdia", b"hdlr", b"mdat", b"free", b"vide", b"soun", b"text", b"sbtl", b"\0\0\0\x01", b"\0\0\0\x08", b"\0\0\0\0",
    b".RMF", b"PROP", b"MDPR", b"CONT", b"DATA", b"video/", b"audio/", b"MZ", b"ZM", b"PE\0\0", b"NE", b"LE", b"LX", b"ID3\x03\0\0\0\0\0\0", b"ID3\x04\0\x10\0\0\0\0",
    b"ID3", b"fLaC", b"\xFF\xFB\x90\0", b"%PDF-", b"AIPrivateData", b"AIPrivate", b"SQLite format 3\0", b"ch.ksdk", b"<?xml", b"<!--", b"-->", b"<!DOCTYPE", b"<svg", b"<html",
    b"<rss", b"</", b"/>", b"\xEF\xBB\xBF", b"\xFF\xFE<\0", b"\xFE\xFF\0<", b"\xF0\x9F\x98\x80", b"\xC3\xA9", b"\n", b"\r\n", b"\0", b"\xFF",
];

fn extreme(r: &mut Rng, len: u64, pos: u64) -> u64 {
    let w = *r.pick(&[7u32, 8, 14, 15, 16, 21, 24, 28, 31, 32, 40, 48, 56, 62, 63, 64]);
    let top = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
    match r.below(14) {
        0 => 0,
        1 => 1,
        2 => r.below(40),
        3 => top,
        4 => top - r.below(40).min(top),
        5 => top.wrapping_add(1 + r.below(20)),
        6 => len,
        7 => len.wrapping_add(r.below(9)).wrapping_sub(4),
        8 => len.wrapping_sub(pos).wrapping_add(r.below(9)).wrapping_sub(4),
        9 => pos,
        10 => 0u64.wrapping_sub(pos).wrapping_add(r.below(9)).wrapping_sub(4),
        11 => r.u64(),
        12 => u64::MAX - r.below(70_000),
        _ => r.log(u64::MAX),
    }
}

/// An offset biased to the front, the end and existing tags.
fn place(r: &mut Rng, n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    match r.below(5) {
        0 => r.idx(n.min(64)),
        1 => r.idx(n.min(600)),
        2 => n - 1 - r.idx(n.min(120)),
        3 => (r.log(n as u64) as usize).min(n - 1),
        _ => r.idx(n),
    }
}

/// Changes bytes in place, keeping the length.
pub fn poke(r: &mut Rng, v: &mut [u8], len: u64, base: u64) {
    if v.is_empty() {
        return;
    }
    let at = place(r, v.len());
    match r.below(6) {
        0 => v[at] ^= 1 << r.idx(8),
        1 => v[at] = r.u8(),
        2 => {
            let t = words::bytes(r, 2).unwrap_or(*r.pick(TOKENS));
            let k = t.len().min(v.len() - at);
            v[at..at + k].copy_from_slice(&t[..k]);
        }
        3 => {
            let k = (1 + r.idx(16)).min(v.len() - at);
            let c = *r.pick(&[0u8, 0xFF, 0x7F, 0x80]);
            v[at..at + k].fill(c);
        }
        _ => {
            let x = extreme(r, len, base + at as u64);
            let w = *r.pick(&[1usize, 2, 2, 3, 4, 4, 4, 8, 8]);
            let b = x.to_le_bytes();
            for k in 0..w.min(v.len() - at) {
                v[at + k] = if at % 2 == 0 || r.one_in(40) { b[k] } else { b[w - 1 - k] };
            }
        }
    }
}

/// Any change.
pub fn mutate(r: &mut Rng, v: &mut Vec<u8>) {
    let n = v.len();
    let at = place(r, n);
    match r.below(12) {
        0 => v.truncate(at),
        1 => {
            let k = r.len(3000) as usize;
            let f = r.filler(k);
            v.extend(f);
        }
        2 if n > 0 => {
            let k = (1 + r.log(400) as usize).min(n - at);
            v.drain(at..at + k);
        }
        3 if n > 0 => {
            let k = (1 + r.log(400) as usize).min(n - at);
            let c = v[at..at + k].to_vec();
            let times = 1 + r.idx(5);
            for _ in 0..times {
                v.splice(at..at, c.iter().copied());
            }
        }
        4 => {
            let t = words::bytes(r, 2).unwrap_or(*r.pick(TOKENS));
            v.splice(at..at, t.iter().copied());
        }
        5 if n > 40 => {
            let k = (1 + r.log(200) as usize).min(n / 2);
            let (a, b) = (r.idx(n - k), r.idx(n - k));
            let c = v[a..a + k].to_vec();
            v[b..b + k].copy_from_slice(&c);
        }
        _ => poke(r, v, n as u64, 0),
    }
}

/// A mutated small file of any kind; the signature usually survives.
pub fn mutant(r: &mut Rng, max: u64) -> Vec<u8> {
    let (_, mut v) = crate::gens2::any_small(r, max);
    if r.one_in(6) {
        // Head of one, body of another.
        let (_, w) = crate::gens2::any_small(r, max);
        let k = place(r, v.len());
        v.truncate(k);
        if k < w.len() {
            v.extend_from_slice(&w[k..]);
        }
    }
    let k = 1 + r.log(30);
    let keep = v.get(..12).map(|h| h.to_vec());
    for _ in 0..k {
        mutate(r, &mut v);
    }
    if let Some(h) = keep {
        if !r.one_in(5) && v.len() >= 12 {
            v[..12].copy_from_slice(&h);
        }
    }
    v
}

/// As `mutant`, for virtual sources of any size.
pub fn mutant_virt(r: &mut Rng) -> Case {
    let mut c = any(r);
    for _ in 0..1 + r.log(12) {
        let n = c.src.segs.len();
        if n == 0 {
            break;
        }
        let k = if r.coin() { r.idx(n.min(3)) } else { r.idx(n) };
        let len = c.src.len;
        let (a, b) = &mut c.src.segs[k];
        poke(r, b, len, *a);
    }
    if r.one_in(4) {
        c.src.len = *r.pick(&[0, 1, 30, 36_869, 36_870, 36_871, 1 << 32, (1 << 63) - 1, u64::MAX - 1, u64::MAX, c.src.len / 2, c.src.len.saturating_sub(1)]);
    }
    if r.one_in(4) {
        c.src.fill = unit(r);
    }
    c.want.clear();
    c.tag = format!("mutated {}", c.tag);
    c
}

/// A short unit of tags and extreme fields which, repeated for ever, is a plausible structure.
pub fn unit(r: &mut Rng) -> Vec<u8> {
    const U: &[&[u8]] = &[
        b"ID3\x04\0\0\0\0\0\0", b"ID3\x03\0\x40\0\0\0\x06\0\0\0\x02\0\0", b"\0\0\0\x08free", b"\0\0\0\x08moov", b"\0\0\0\x08trak", b"\0\0\0\x01free\0\0\0\0\0\0\0\x10",
        b"\0\0\0\x01moov\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"\0\0\0\0moov", b"\x7F\xFF\xFF\xFFtrak", b"\0\0\0\x20hdlr\0\0\0\0\0\0\0\0meta\0\0\0\0\0\0\0\0\0\0\0\0", b"\0\0\0\x0Cmdia\0\0\0\0",
        b"\xEC\x80", b"\xEC\x81\0", b"\xAE\x80", b"\x18\x53\x80\x67\xFF", b"\x18\x53\x80\x67\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"\x16\x54\xAE\x6B\xFF", b"\xAE\xFF", b"\xE0\xFF",
        b"\x83\x81\x11", b"\x42\x82\x88matroska", b"\xEC\x40\x00", b"\xBF\x84\0\0\0\0", b"MDPR\0\0\0\x0A\0\0", b"PROP\0\0\0\x0A\0\0", b"MDPR\xFF\xFF\xFF\xFF\0\0",
        b"MDPR\0\0\0\x2A\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", b"CONT\0\0\0\0\0\0",
        b"\xB5\x03\xBF\x5F\x2E\xA9\xCF\x11\x8E\xE3\x00\xC0\x0C\x20\x53\x65\x18\0\0\0\0\0\0\0", b"\x40\xA4\xD0\xD2\x07\xE3\xD2\x11\x97\xF0\x00\xA0\xC9\x5E\xA8\x50\x1A\0\0\0\0\0\0\0\xFF\xFF",
        b"\x40\xA4\xD0\xD2\x07\xE3\xD2\x11\x97\xF0\x00\xA0\xC9\x5E\xA8\x50\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"PK\x01\x02", b"PK\x05\x06", b"PK\x06\x07", b"<", b"<?", b"<!--", b"<a>",
        b"AIPrivateDat", b"A", b"\n", b"a", b"a\n", b"\xF0\x9F\x98\x80", b"\0", b"\xFF", b"\xFE\xFF\xFF\xFF", b" ",
    ];
    match r.below(4) {
        0 | 1 => r.pick(U).to_vec(),
        2 => {
            let mut v = r.pick(U).to_vec();
            v.extend_from_slice(*r.pick(U));
            v
        }
        _ => {
            let mut v = r.pick(TOKENS).to_vec();
            let n = r.below(24) as usize;
            v.extend(r.filler(n));
            if r.coin() {
                let l = v.len() as u64;
                poke(r, &mut v, l, 0);
            }
            v
        }
    }
}

/// An endless (or huge) stream: the start of a structured file, then a unit repeated.
pub fn endless(r: &mut Rng) -> Case {
    // Every unit is tried behind every kind of start.
    let g = r.pick(FAMILY_GENS);
    let c = (g.1)(r);
    let mut v = Virt { len: *r.pick(&[u64::MAX, i64::MAX as u64, 1 << 40, 1 << 33, 64 << 20, 34 << 20]), segs: vec![], fill: unit(r) };
    let keep = match r.below(5) {
        0 => *r.pick(&[4usize, 8, 10, 12, 16, 30, 32, 64, 100, 512]),
        1 => r.len(3000) as usize,
        _ => *r.pick(&[10usize, 12, 16, 24, 30, 46, 64, 80]),
    };
    let head = c.src.head(keep);
    v.segs.push((0, head));
    rare_pdf(r, &mut v);
    let tag = format!("endless {} start of {} then {}", g.0, keep, crate::source::hex(&v.fill, 40));
    Case { src: v, want: vec![], tag }
}

/// Huge PDF files are searched over 32 MiB, which is slow: most are made short.
fn rare_pdf(r: &mut Rng, v: &mut Virt) {
    if v.segs[0].1.starts_with(b"%PDF") && !r.one_in(30) {
        v.len = 100 + r.log(300_000);
    }
}

/// A start that hands the fill to the structure walker at the right place.
pub fn endless_aligned(r: &mut Rng) -> Case {
    let mut starts: Vec<(&str, Vec<u8>)> = vec![
        ("id3", b"ID3\x04\0\0\0\0\0\0".to_vec()),
        ("mp4", b"\0\0\0\x14ftypisom\0\0\0\0isom".to_vec()),
        ("ebml", b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska".to_vec()),
        ("ebml", b"\x1A\x45\xDF\xA3\x80".to_vec()),
        ("ebml", b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF".to_vec()),
        ("ebml", b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\xFF\x16\x54\xAE\x6B\xFF".to_vec()),
        ("rm", b".RMF\0\0\0\x12\0\0\0\0\0\0\xFF\xFF\xFF\xFF".to_vec()),
        ("pdf", b"%PDF-1.7\n".to_vec()),
        ("sqlite", b"SQLite format 3\0".to_vec()),
        ("xml", b"<?xml version=\"1.0\"?>".to_vec()),
        ("text", b"~".to_vec()),
        ("cfb", b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1".to_vec()),
    ];
    let mut asf = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    asf.extend([0xFF; 8]);
    asf.extend(*r.pick(&[[0xFFu8; 4], [0, 1, 0, 0], [0, 0, 0, 0x80]]));
    asf.extend([1, 2]);
    starts.push(("asf", asf));
    let mut mz = b"MZ".to_vec();
    mz.resize(60, 0);
    mz.extend([0xFF; 4]);
    starts.push(("exe", mz));
    let (name, s) = r.pick(&starts).clone();
    let fill = unit(r);
    // Phase: the unit begins right behind the start.
    let k = s.len() % fill.len();
    let mut f = fill.clone();
    f.rotate_right(k);
    let len = *r.pick(&[u64::MAX, i64::MAX as u64, 1 << 40, 1 << 33, 40 << 20]);
    let mut v = Virt { len, segs: vec![(0, s)], fill: f };
    rare_pdf(r, &mut v);
    Case { src: v, want: vec![], tag: format!("endless {name} then {}", crate::source::hex(&fill, 40)) }
}

/// A ZIP archive whose central directory goes on for ever.
pub fn endless_zip(r: &mut Rng) -> Case {
    let nlen = *r.pick(&[0usize, 1, 8, 300, 65_535]);
    let elen = *r.pick(&[0usize, 4, 65_535]);
    let clen = *r.pick(&[0usize, 4, 65_535]);
    let mut u = b"PK\x01\x02\x14\0\x14\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec();
    let sz: u32 = *r.pick(&[0, 1, 100, u32::MAX, u32::MAX - 1]);
    u.extend(sz.to_le_bytes());
    u.extend(sz.to_le_bytes());
    for n in [nlen, elen, clen] {
        u.extend((n as u16).to_le_bytes());
    }
    u.extend([0; 12]);
    let c = *r.pick(&[b'a', 0xFF, 0, 0xF0]);
    u.resize(46 + nlen, c);
    if nlen == 8 && r.coin() {
        u[46..54].copy_from_slice(b"mimetype");
    }
    u.resize(46 + nlen + elen + clen, r.u8());
    let period = u.len() as u64;
    let mut v = Virt { len: 0, segs: vec![(0, b"PK\x03\x04\x14\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec())], fill: u };
    let start = period * (1 + r.below(3));
    let far = *r.pick(&[1u64 << 34, 1 << 40, 1 << 62]);
    let rec = far - far % period + period;
    let count = *r.pick(&[u64::MAX, 1 << 40, 5_000, 1025, 65_535]);
    let mut e = b"PK\x06\x06".to_vec();
    e.extend(44u64.to_le_bytes());
    e.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    e.extend(count.to_le_bytes());
    e.extend(count.to_le_bytes());
    e.extend((rec - start).to_le_bytes());
    e.extend(start.to_le_bytes());
    e.extend(b"PK\x06\x07\0\0\0\0");
    e.extend(rec.to_le_bytes());
    e.extend(1u32.to_le_bytes());
    e.extend(b"PK\x05\x06\0\0\0\0");
    e.extend([0xFF; 12]);
    let cm = *r.pick(&[0u16, 0, 65_535]);
    e.extend(cm.to_le_bytes());
    if r.coin() {
        e.resize(e.len() + cm as usize, b'c');
    }
    v.put(rec, e);
    Case { src: v, want: vec![], tag: format!("zip of {count} entries, name {nlen} extra {elen} comment {clen}") }
}

/// Hostile source of any sort.
pub fn hostile(r: &mut Rng) -> Case {
    match r.below(10) {
        0..=2 => mutant_virt(r),
        3 | 4 => endless(r),
        5..=7 => endless_aligned(r),
        8 if r.one_in(10) => endless_zip(r),
        _ => {
            let n = if r.one_in(8) { r.below(80_000) } else { r.len(4000) };
            let mut v = if r.coin() { mutant(r, 70_000) } else { r.filler(n as usize) };
            if r.one_in(3) {
                let row = r.idx(crate::spec_gen::SIGS.len());
                for (o, s) in *r.pick(crate::spec_gen::SIGS[row].1) {
                    if v.len() < o + s.len() {
                        v.resize(o + s.len(), 0xFF);
                    }
                    v[*o..*o + s.len()].copy_from_slice(s);
                }
            }
            Case { src: Virt::bytes(v), want: vec![], tag: "mutant".into() }
        }
    }
}

/// The signature stage's verdict on a source settles that no reader is involved.
pub fn readerless(v: &Virt) -> bool {
    let a = refm::accept(&v.head(refm::HEAD));
    !a.is_empty() && refm::readerless(&a)
}

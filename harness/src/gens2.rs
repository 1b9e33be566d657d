//! Further generators of well-formed files: ASF, MP4, RealMedia, executables, ID3v2, PDF, SQLite, XML, text.
use crate::gens::*;
use crate::refm;
use crate::rng::Rng;
use crate::spec_gen::SIGS;
use crate::words;
use file_format::FileFormat as F;

// --- ASF --------------------------------------------------------------------------------------

const ASF_STREAM: &str = "b7dc0791-a9b7-11cf-8ee6-00c00c205365";
const ASF_ECD: &str = "d2d0a440-e307-11d2-97f0-00a0c95ea850";
const ASF_AUDIO: &str = "f8699e40-5b4d-11cf-a8fd-00805f5c442b";
const ASF_VIDEO: &str = "bc19efc0-5b4d-11cf-a8fd-00805f5c442b";
const ASF_OTHER: &[&str] = &[
    "8cabdca1-a947-11cf-8ee4-00c00c205365",
    "5fbf03b5-a92e-11cf-8ee3-00c00c205365",
    "86d15240-311d-11d0-a3a4-00a0c90348f6",
    "75b22633-668e-11cf-a6d9-00aa0062ce6c",
    "b7dc0791-a9b7-11cf-8ee6-00c00c205366",
    "d2d0a440-e307-11d2-97f0-00a0c95ea851",
];

fn wide(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

/// The identifier of an object without meaning here.
fn asf_other(r: &mut Rng) -> [u8; 16] {
    if let Some(t) = words::text(r, 3) {
        if t.len() == 36 && t.split('-').map(|p| p.len()).eq([8, 4, 4, 4, 12]) && t.bytes().all(|c| c == b'-' || c.is_ascii_hexdigit()) && ![ASF_STREAM, ASF_ECD].contains(&t) {
            return guid(t);
        }
    }
    guid(r.pick(ASF_OTHER))
}

pub fn asf(r: &mut Rng) -> Case {
    retry(r, |r| {
        let n = match r.below(8) {
            0 => 0,
            1 => 200 + r.below(57),
            _ => r.below(12),
        };
        let huge = r.one_in(6);
        let (mut dvr, mut video, mut audio) = (false, false, false);
        let mut b = B::new();
        b.put(&guid("75b22630-668e-11cf-a6d9-00aa0062ce6c")).u64le(0).u32le(n as u32).put(&[1, 2]);
        let last_matters = r.coin();
        for k in 0..n {
            let interesting = if n > 100 { k + 1 == n || r.one_in(60) } else { r.coin() || (last_matters && k + 1 == n) };
            if !interesting {
                let extra = size(r, huge);
                let extra = if huge && r.one_in(4) { r.log(1 << 54) } else { extra };
                b.put(&asf_other(r)).u64le(24 + extra).opaque(r, extra);
            } else if r.one_in(3) {
                // Extended content description object.
                let nd = match r.below(5) {
                    0 => 0,
                    1 => 25 + r.below(11),
                    _ => r.below(6),
                };
                let dvr_at = if r.one_in(3) && nd > 0 { if r.coin() { nd - 1 } else { r.below(nd) } } else { u64::MAX };
                let mut body = Vec::new();
                body.extend((nd as u16).to_le_bytes());
                for d in 0..nd {
                    let mut name = if d == dvr_at {
                        dvr |= d < 32;
                        "DVR File Version".to_string()
                    } else {
                        let x = r.pick(&["WM/Year", "DVR File Versio", "dvr file version", "XDVR File Version", "", "WM/EncodingTime", "DVR", "VersionDVR File"]);
                        match words::text(r, 3) {
                            Some(t) if !t.starts_with("DVR File Version") => t.to_string(),
                            _ => x.to_string(),
                        }
                    };
                    if d != dvr_at && r.one_in(4) {
                        let most = if r.one_in(5) { 20_000 } else { 60 };
                        name += &"x".repeat(r.below(most) as usize);
                        if name.starts_with("DVR File Version") {
                            name.insert(0, 'q');
                        }
                    }
                    let mut nm = wide(&name);
                    nm.extend([0, 0]);
                    body.extend((nm.len() as u16).to_le_bytes());
                    body.extend(nm);
                    body.extend((r.below(6) as u16).to_le_bytes());
                    let vl = if r.one_in(8) { r.len(65_535) } else { r.below(30) } as usize;
                    body.extend((vl as u16).to_le_bytes());
                    let v = r.filler(vl);
                    body.extend(v);
                }
                // More descriptors than are examined, or trailing bytes, do not matter.
                let pad = if r.one_in(4) { size(r, huge) } else { 0 };
                b.put(&guid(ASF_ECD)).u64le(24 + body.len() as u64 + pad).put(&body).opaque(r, pad);
            } else {
                let kind = match r.below(4) {
                    0 => {
                        video = true;
                        ASF_VIDEO
                    }
                    1 | 2 => {
                        audio = true;
                        ASF_AUDIO
                    }
                    _ => r.pick(&["59dacfc0-59e6-11d0-a3ac-00a0c90348f6", "f8699e40-5b4d-11cf-a8fd-00805f5c442c", "bc19efc0-5b4d-11cf-a8fd-00805f5c442c", "c09ef8bc-4d5b-cf11-a8fd-00805f5c442b"]),
                };
                let extra = size(r, huge);
                b.put(&guid(ASF_STREAM)).u64le(78 + extra).put(&guid(kind));
                b.opaque(r, 38 + extra);
            }
        }
        let total = b.pos;
        b.patch(16, &total.to_le_bytes());
        if r.coin() {
            b.put(&guid("75b22636-668e-11cf-a6d9-00aa0062ce6c")).u64le(50).put(&[0; 26]);
        }
        let want = if dvr {
            F::MicrosoftDigitalVideoRecording
        } else if video {
            F::WindowsMediaVideo
        } else if audio {
            F::WindowsMediaAudio
        } else {
            F::AdvancedSystemsFormat
        };
        let tag = format!("asf objects={n} dvr={dvr} v={video} a={audio} len={}", b.v.len);
        finish(r, b.v, F::AdvancedSystemsFormat, vec![want], tag)
    })
}

// --- MP4 --------------------------------------------------------------------------------------

fn mp4_box(r: &mut Rng, kind: &[u8; 4], body: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    if r.one_in(4) {
        v.extend(1u32.to_be_bytes());
        v.extend(kind);
        v.extend((16 + body.len() as u64).to_be_bytes());
    } else {
        v.extend((8 + body.len() as u32).to_be_bytes());
        v.extend(kind);
    }
    v.extend(body);
    v
}

fn mp4_junk(r: &mut Rng) -> Vec<u8> {
    let kind = *r.pick(&[b"free", b"skip", b"wide", b"udta", b"meta", b"uuid", b"edts", b"tkhd", b"mvhd", b"mvex", b"iods", b"hdls", b"Moov", b"xxxx"]);
    let kind = match words::four(r, 3) {
        Some(k) if ![b"moov", b"trak", b"mdia", b"hdlr"].contains(&k) => k,
        _ => kind,
    };
    let body = match r.below(5) {
        0 => b"\0\0\0\x20hdlr\0\0\0\0\0\0\0\0vide\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(),
        1 => b"\0\0\0\0\0\0\0\x21hdlr\0\0\0\0\0\0\0\0soun\0\0\0\0\0\0\0\0\0\0\0\0\0".to_vec(),
        2 => vec![],
        _ => {
            let n = r.below(200) as usize;
            r.filler(n)
        }
    };
    mp4_box(r, kind, &body)
}

pub fn mp4(r: &mut Rng) -> Case {
    retry(r, |r| {
        let brand = {
            let row = SIGS.iter().find(|s| s.0 == F::Mpeg4Part14).unwrap();
            r.pick(row.1)[0].1
        };
        let mut b = B::new();
        let n = 4 * r.below(20) as usize;
        let compat = { let mut v = r.filler(n); if n > 8 { v[4..8].copy_from_slice(b"isom"); } v };
        b.u32be(16 + n as u32).put(brand).u32be(r.u32()).put(&compat);
        let mut visited = 1u64;
        let huge = r.one_in(5);
        let big_box = |r: &mut Rng, b: &mut B| {
            let kind = *r.pick(&[b"mdat", b"free", b"skip", b"uuid", b"moof"]);
            let n = if huge { r.log(1 << 40) } else { size(r, false) };
            if n + 16 > u32::MAX as u64 || r.one_in(3) {
                b.u32be(1).put(kind).u64be(n + 16).opaque(r, n);
            } else {
                b.u32be(n as u32 + 8).put(kind).opaque(r, n);
            }
        };
        for _ in 0..r.below(4) {
            big_box(r, &mut b);
            visited += 1;
        }
        // Tracks.
        let nt = match r.below(6) {
            0 => 0,
            1 => 5 + r.below(12),
            _ => 1 + r.below(3),
        };
        let handlers: &[&[u8; 4]] = *r.pick(&[
            &[b"vide", b"soun", b"subt", b"hint"][..],
            &[b"soun", b"soun", b"text", b"tmcd"],
            &[b"sbtl", b"subt", b"text", b"meta"],
            &[b"hint", b"VIDE", b"clcp", b"edv\0", b"\0vid"],
            &[b"text", b"soun", b"hint"],
        ]);
        let edge = r.one_in(8);
        let (mut v, mut a, mut s) = (false, false, false);
        let mut moov: Vec<Vec<u8>> = Vec::new();
        let mut inner = 1u64;
        for _ in 0..nt {
            let h = match words::four(r, 4) {
                Some(h) => h,
                _ => *r.pick(handlers),
            };
            match h {
                b"vide" => v = true,
                b"soun" => a = true,
                b"sbtl" | b"subt" | b"text" => s = true,
                _ => {}
            }
            let mut body = vec![0u8; 4];
            body.extend(r.pick(&[[0u8; 4], *b"mhlr", *b"vide"]));
            body.extend(h);
            body.extend([0; 12]);
            let nm = r.pick(&["VideoHandler\0", "\0", "SoundHandler", ""]).as_bytes().to_vec();
            body.extend(nm);
            if r.one_in(10) {
                let n = r.len(9000) as usize;
                body.extend(r.filler(n));
            }
            let hdlr = mp4_box(r, b"hdlr", &body);
            let mut mdia: Vec<Vec<u8>> = vec![hdlr];
            if r.coin() {
                mdia.insert(0, mp4_box(r, b"mdhd", &[0; 24]));
                inner += 1;
            }
            for _ in 0..r.below(3) {
                let j = mp4_junk(r);
                let k = r.idx(mdia.len() + 1);
                mdia.insert(k, j);
                inner += 1;
            }
            if r.coin() {
                let n = r.len(3000) as usize;
                let c = r.filler(n);
                mdia.push(mp4_box(r, b"minf", &c));
                inner += 1;
            }
            let mdia = mp4_box(r, b"mdia", &mdia.concat());
            let mut trak = vec![mdia];
            if r.coin() {
                let tk = mp4_box(r, b"tkhd", &[0; 84]);
                trak.insert(0, tk);
                inner += 1;
            }
            for _ in 0..r.below(2) {
                let j = mp4_junk(r);
                let k = r.idx(trak.len() + 1);
                trak.insert(k, j);
                inner += 1;
            }
            inner += 3;
            moov.push(mp4_box(r, b"trak", &trak.concat()));
        }
        for _ in 0..r.below(3) {
            let j = mp4_junk(r);
            let k = r.idx(moov.len() + 1);
            moov.insert(k, j);
            inner += 1;
        }
        if edge {
            while visited + inner < 256 {
                b.u32be(8).put(b"free");
                visited += 1;
            }
        }
        if visited + inner > 256 {
            return None;
        }
        if nt > 0 || r.coin() {
            let m = mp4_box(r, b"moov", &moov.concat());
            b.put(&m);
        }
        for _ in 0..r.below(3) {
            big_box(r, &mut b);
        }
        if r.one_in(6) {
            // The last box may extend to the end of the file.
            b.u32be(0).put(b"mdat");
            let n = size(r, huge);
            b.opaque(r, n);
        }
        let want = if v {
            F::Mpeg4Part14Video
        } else if a {
            F::Mpeg4Part14Audio
        } else if s {
            F::Mpeg4Part14Subtitles
        } else {
            F::Mpeg4Part14
        };
        let tag = format!("mp4 tracks={nt} v={v} a={a} s={s} visited={} len={}", visited + inner, b.v.len);
        finish(r, b.v, F::Mpeg4Part14, vec![want], tag)
    })
}

// --- RealMedia --------------------------------------------------------------------------------

pub fn rm(r: &mut Rng) -> Case {
    retry(r, |r| {
        let n = match r.below(8) {
            0 => 0,
            1 if r.one_in(40) => *r.pick(&[65, 66, 100, 255, 256, 257, 300, 65_534, 65_535, 65_536, 65_537, 65_600]),
            1 => 55 + r.below(10),
            _ => r.below(10),
        };
        let huge = r.one_in(6);
        let (mut v, mut a) = (false, false);
        let mut b = B::new();
        b.put(b".RMF").u32be(18).u16be(r.below(2) as u16).u32be(0).u32be(n as u32 + 1);
        for k in 0..n {
            // Beyond the first 64 chunks only ones that cannot matter.
            if k >= 64 {
                b.put(b"DATA").u32be(10).u16be(0);
                continue;
            }
            let mdpr = if n > 40 { k + 1 == n || k == 63 || r.one_in(20) } else { r.coin() };
            if mdpr {
                let mime: Vec<u8> = match r.below(6) {
                    0 => {
                        v = true;
                        r.pick(&["video/x-pn-realvideo", "video/", "video/x-pn-multirate-realvideo"]).as_bytes().to_vec()
                    }
                    1 | 2 => {
                        a = true;
                        r.pick(&["audio/x-pn-realaudio", "audio/", "audio/x-pn-multirate-realaudio-live"]).as_bytes().to_vec()
                    }
                    _ => r.pick(&["logical-fileinfo", "", "application/x-pn-realevent", "image/gif", "Audio/x", "video", "xvideo/x", "audiovideo/"]).as_bytes().to_vec(),
                };
                let mut mime = mime;
                if let Some(t) = words::text(r, 4) {
                    if t.len() < 256 && !mime.starts_with(b"video/") && !mime.starts_with(b"audio/") {
                        mime = t.as_bytes().to_vec();
                        v |= t.starts_with("video/");
                        a |= t.starts_with("audio/");
                    }
                }
                if !mime.is_empty() && r.one_in(5) {
                    mime.resize(255, b'x');
                }
                let nl = if r.coin() { r.below(256) } else { r.below(20) } as usize;
                let mut body = Vec::new();
                let mut c = r.bytes(32);
                c[0] = 0;
                body.extend(c);
                body.push(nl as u8);
                let mut nm = r.filler(nl);
                if nl > 20 && r.coin() {
                    nm[..6].copy_from_slice(b"video/");
                }
                body.extend(nm);
                body.push(mime.len() as u8);
                body.extend(&mime);
                let ts = r.below(100) as usize;
                body.extend((ts as u32).to_be_bytes());
                body.extend(r.filler(ts));
                let extra = if r.one_in(5) { size(r, huge) } else { 0 };
                let extra = extra.min(u32::MAX as u64 - body.len() as u64 - 10);
                b.put(b"MDPR").u32be((10 + body.len() as u64 + extra) as u32);
                // The object version precedes the stream number, both are among the first 32 bytes.
                b.put(&body).opaque(r, extra + 2);
            } else {
                let kind = *r.pick(&[b"PROP", b"CONT", b"DATA", b"INDX", b"RMMD", b"mdpr", b"MDPS"]);
                let kind = match words::four(r, 3) {
                    Some(k) if k != b"MDPR" => k,
                    _ => kind,
                };
                let sz = size(r, huge).min(u32::MAX as u64 - 10);
                b.put(kind).u32be(sz as u32 + 10).u16be(0).opaque(r, sz);
            }
        }
        let want = if v {
            F::Realvideo
        } else if a {
            F::Realaudio
        } else {
            F::Realmedia
        };
        let tag = format!("rm chunks={n} v={v} a={a} len={}", b.v.len);
        finish(r, b.v, F::Realmedia, vec![want], tag)
    })
}

// --- Executables ------------------------------------------------------------------------------

/// An extended header that lies within the DOS header, as in very small programs.
fn exe_folded(r: &mut Rng) -> Option<Case> {
    let mut head = r.filler(64);
    head[..2].copy_from_slice(*r.pick(&[b"MZ", b"ZM"]));
    let (sig, want) = *r.pick(&[
        (&b"PE\0\0"[..], F::PortableExecutable),
        (b"PE\0\0", F::DynamicLinkLibrary),
        (b"LE", F::LinearExecutable),
        (b"LX", F::LinearExecutable),
        (b"NE", F::NewExecutable),
        (b"PE\0\x01", F::MsDosExecutable),
        (b"XX", F::MsDosExecutable),
    ]);
    let at = 2 + r.idx(if sig.len() == 4 { 35 } else { 57 });
    head[60..64].copy_from_slice(&(at as u32).to_le_bytes());
    head[at..at + sig.len()].copy_from_slice(sig);
    if sig == b"PE\0\0" {
        head[at + 23] = head[at + 23] & !0x20 | if want == F::DynamicLinkLibrary { 0x20 } else { 0 };
    }
    let mut b = B::new();
    b.put(&head);
    if r.coin() {
        let n = size(r, true);
        b.gap(n);
    }
    finish(r, b.v, F::MsDosExecutable, vec![want], format!("exe folded at={at}"))
}

pub fn exe(r: &mut Rng) -> Case {
    retry(r, |r| {
        if r.one_in(12) {
            return exe_folded(r);
        }
        let mut b = B::new();
        let mut head = r.filler(64);
        head[..2].copy_from_slice(*r.pick(&[b"MZ", b"ZM"]));
        let at: u64 = match r.below(9) {
            0 => 0,
            1 => r.u32() as u64,
            2 => *r.pick(&[u32::MAX, u32::MAX - 1, u32::MAX - 3, u32::MAX - 4, u32::MAX - 24, 0x8000_0000, 0x7FFF_FFFF, 0xFFFF_FF00]) as u64,
            3 => *r.pick(&[64, 65, 512, 8191, 8192, 36_869, 36_870, 65_536]),
            _ => 64 + r.below(1000),
        };
        head[60..64].copy_from_slice(&(at as u32).to_le_bytes());
        b.put(&head);
        let kind = r.below(9);
        let mut want = F::MsDosExecutable;
        if at >= 64 {
            let mut h = r.filler(64 + r.clone().below(200) as usize);
            if kind < 6 && r.coin() {
                // A near miss.
                let s = *r.pick(&[&b"PE\0\x01"[..], b"PE\x01\0", b"PX\0\0", b"pe\0\0", b"LF", b"ne", b"EP\0\0", b"EN", b"XL", b"\0PE\0\0"]);
                h[..s.len()].copy_from_slice(s);
                if let Some(w) = words::bytes(r, 2) {
                    let n = w.len().min(h.len());
                    h[..n].copy_from_slice(&w[..n]);
                    want = match &h[..4] {
                        b"PE\0\0" if h[23] & 0x20 != 0 => F::DynamicLinkLibrary,
                        b"PE\0\0" => F::PortableExecutable,
                        [b'L', b'E' | b'X', ..] => F::LinearExecutable,
                        b"NE" | [b'N', b'E', ..] => F::NewExecutable,
                        _ => F::MsDosExecutable,
                    };
                }
            } else {
                match kind {
                    0..=4 => {
                        h[..4].copy_from_slice(b"PE\0\0");
                        let c = r.u16();
                        let dll = r.coin();
                        let c = if dll { c | 0x2000 } else { c & !0x2000 };
                        h[22..24].copy_from_slice(&c.to_le_bytes());
                        want = if dll { F::DynamicLinkLibrary } else { F::PortableExecutable };
                        if r.one_in(6) {
                            // Nothing beyond the header that holds the characteristics.
                            h.truncate(24);
                        }
                    }
                    5 => {
                        h[..2].copy_from_slice(b"LE");
                        want = F::LinearExecutable;
                    }
                    6 => {
                        h[..2].copy_from_slice(b"LX");
                        want = F::LinearExecutable;
                    }
                    7 => {
                        h[..2].copy_from_slice(b"NE");
                        want = F::NewExecutable;
                    }
                    _ => {
                        if let b"PE" | b"LE" | b"LX" | b"NE" = &h[..2].try_into().unwrap() {
                            h[0] = 0;
                        }
                    }
                }
            }
            if r.one_in(6) {
                // The address lies at or past the end of the file.
                want = F::MsDosExecutable;
                let end = if r.coin() { at } else { 64 + r.below(at - 63) };
                b.v.len = b.v.len.max(end);
                b.pos = b.v.len;
            } else {
                b.gap(at - 64);
                b.put(&h);
                let tail = if r.coin() { size(r, true) } else { 0 };
                b.gap(tail);
            }
        }
        let tag = format!("exe at={at:#x} len={}", b.v.len);
        let mut c = finish(r, b.v, F::MsDosExecutable, vec![want], tag)?;
        // The fill must not spell a header when there is none.
        if want == F::MsDosExecutable && c.src.fill != [0] {
            let mut x = [0u8; 4];
            let n = c.src.read_at(at, &mut x);
            if n == 4 && (&x == b"PE\0\0" || [*b"LE", *b"LX", *b"NE"].contains(&[x[0], x[1]])) {
                c.src.fill = vec![0];
                return None;
            }
        }
        Some(c)
    })
}

// --- ID3v2 ------------------------------------------------------------------------------------

fn syncsafe(n: u64) -> [u8; 4] {
    [(n >> 21) as u8 & 0x7F, (n >> 14) as u8 & 0x7F, (n >> 7) as u8 & 0x7F, n as u8 & 0x7F]
}

pub fn id3(r: &mut Rng) -> Case {
    retry(r, |r| {
        let mut b = B::new();
        let n = match r.below(6) {
            0 => 2 + r.below(15),
            1 => 2,
            _ => 1,
        };
        let huge = r.one_in(4);
        // Sixteen tags of the largest size end past 4 GiB.
        let full = r.one_in(12);
        let n = if full { 16 } else { n };
        for _ in 0..n {
            let ver = if r.one_in(8) { *r.pick(&[0, 1, 5, 6, 16, 127, 128, 254]) } else { 2 + r.below(3) as u8 };
            let known = (2..=4).contains(&ver);
            let body = match r.below(6) {
                _ if full => (1 << 28) - 1 - if r.one_in(5) { r.below(10) } else { 0 },
                0 => 0,
                1 if huge => r.log((1 << 28) - 1),
                2 if huge => *r.pick(&[(1 << 28) - 1, 1 << 21, (1 << 21) - 1, 1 << 27]),
                3 => *r.pick(&[127, 128, 129, 255, 256, 257, 16_383, 16_384, 16_385]),
                _ => r.len(60_000),
            };
            let mut flags = r.u8() & if !known { 0 } else if ver == 2 { 0xC0 } else { 0xA0 };
            let ext = known && ver > 2 && r.one_in(3) && body >= 20;
            let footer = ver == 4 && r.one_in(3);
            if ext {
                flags |= 0x40;
            }
            if footer {
                flags |= 0x10;
            }
            b.put(b"ID3").put(&[ver, if r.one_in(6) { r.u8().min(254) } else { 0 }, flags]).put(&syncsafe(body));
            if ext {
                let mut e = if ver == 3 { vec![0, 0, 0, 6, 0, 0, 0, 0, 0, 0] } else { vec![0, 0, 0, 6, 1, 0] };
                if r.coin() && ver == 4 {
                    e = vec![0, 0, 0, 12, 1, 0x60, 0, 5, 1, 2, 3, 4];
                }
                let k = e.len() as u64;
                b.put(&e).opaque(r, body - k);
            } else {
                b.opaque(r, body);
            }
            if footer {
                b.put(b"3DI").put(&[ver, 0, flags]).put(&syncsafe(body));
            }
        }
        let after = b.pos;
        let want = match r.below(8) {
            0 => F::Id3v2,
            1 | 2 => {
                b.put(b"fLaC");
                F::FreeLosslessAudioCodec
            }
            3..=5 => {
                let s = *r.pick(&[[0xFFu8, 0xE2], [0xFF, 0xE3], [0xFF, 0xF2], [0xFF, 0xF3], [0xFF, 0xFA], [0xFF, 0xFB]]);
                b.put(&s);
                F::Mpeg12AudioLayer3
            }
            _ => {
                let s = *r.pick(&[
                    &b"\xFF\xE0\0\0"[..],
                    b"\xFF\xE4\0\0",
                    b"\xFF\xF1\0\0",
                    b"\xFF\xF9",
                    b"\xFF\xFC\0",
                    b"\xFF\xFD\0\0\0",
                    b"\xFF\xF4",
                    b"\xFE\xFB\x90\0",
                    b"fLac\0",
                    b"fLa",
                    b"FLAC\0",
                    b"RIFF\0\0\0\0WAVE",
                    b"\xFF",
                    b"MAC \0\0",
                    b"\0fLaC",
                    b"\0\xFF\xFB",
                    b"ID",
                    b"TAG",
                    b"3DI\x04\0\0\0\0\0\0",
                ]);
                let s = words::bytes(r, 2).unwrap_or(s);
                b.put(s);
                F::Id3v2
            }
        };
        match r.below(4) {
            0 => {}
            1 => {
                let n = size(r, true);
                b.gap(n);
            }
            _ => {
                // Zero to twelve further bytes, after a complete marker only.
                if b.pos - after >= 4 || matches!(want, F::Mpeg12AudioLayer3) {
                    let k = r.below(13) as usize;
                    let x = r.filler(k);
                    b.put(&x);
                }
            }
        }
        let tag = format!("id3 tags={n} after={after} len={}", b.v.len);
        let c = finish(r, b.v, F::Id3v2, vec![want], tag)?;
        // Whatever follows must not be taken for what it is not.
        if want == F::Id3v2 {
            let mut x = [0u8; 4];
            let k = c.src.read_at(after, &mut x);
            let mp3 = k >= 2 && x[0] == 0xFF && [0xE2, 0xE3, 0xF2, 0xF3, 0xFA, 0xFB].contains(&x[1]);
            if mp3 || (k == 4 && &x == b"fLaC") || x.starts_with(b"ID3") {
                return None;
            }
        }
        Some(c)
    })
}

// --- PDF, SQLite ------------------------------------------------------------------------------

/// Buffer content with fragments of `marker` but never the whole of it.
pub fn near_miss(r: &mut Rng, marker: &[u8], n: usize) -> Vec<u8> {
    let mut v = match r.below(4) {
        0 => vec![0; n],
        1 => r.filler(n),
        2 => vec![*r.pick(marker); n],
        // The marker's own bytes in random order.
        _ => (0..n).map(|_| *r.pick(marker)).collect(),
    };
    let k = if n == 0 { 0 } else { r.below(40) };
    for _ in 0..k {
        let frag: Vec<u8> = match r.below(4) {
            _ if words::on() && r.coin() => words::bytes(r, 1).unwrap().to_vec(),
            0 => marker[..r.idx(marker.len())].to_vec(),
            1 => marker[1 + r.idx(marker.len() - 1)..].to_vec(),
            2 => {
                let mut m = marker.to_vec();
                let i = r.idx(m.len());
                m[i] ^= 1 << r.idx(8);
                m
            }
            _ => {
                let mut m = marker[..1 + r.idx(marker.len() - 1)].to_vec();
                m.extend_from_slice(&marker[1 + r.idx(marker.len() - 1)..]);
                m
            }
        };
        let at = r.idx(n);
        for (i, c) in frag.iter().enumerate() {
            if at + i < n {
                v[at + i] = *c;
            }
        }
    }
    break_all(&mut v, marker);
    v
}

/// Destroys every occurrence of `marker`.
pub fn break_all(v: &mut [u8], marker: &[u8]) {
    let mut i = 0;
    while i + marker.len() <= v.len() {
        if v[i] == marker[0] && v[i..].starts_with(marker) {
            v[i + marker.len() - 1] ^= 0x20;
        }
        i += 1;
    }
}

pub fn pdf(r: &mut Rng) -> Case {
    retry(r, |r| {
        let n = r.len(200_000) as usize;
        pdf_with(r, n, None)
    })
}

pub const AI: &[u8] = b"AIPrivateData";
pub const SKETCH: &[u8] = b"com.bohemiancoding.sketch3";

pub fn pdf_with(r: &mut Rng, n: usize, at: Option<Option<u64>>) -> Option<Case> {
    let mut b = B::new();
    b.put(b"%PDF-");
    let mut body = near_miss(r, AI, n);
    let at = match at {
        Some(x) => x,
        None if n > 20 && r.coin() => Some(match r.below(3) {
            0 => (n - AI.len()) as u64,
            1 => 0,
            _ => r.below((n - AI.len() + 1) as u64),
        }),
        None => None,
    };
    let want = match at {
        Some(k) => {
            let k = k as usize;
            body[k..k + AI.len()].copy_from_slice(AI);
            F::AdobeIllustratorArtwork
        }
        None => F::PortableDocumentFormat,
    };
    b.put(&body);
    let tag = format!("pdf body={n} marker={at:?}");
    let mut c = finish(r, b.v, F::PortableDocumentFormat, vec![want], tag)?;
    c.src.fill = vec![0];
    Some(c)
}

pub fn sqlite(r: &mut Rng) -> Case {
    retry(r, |r| {
        let mut b = B::new();
        b.put(b"SQLite format 3\0");
        let h = near_miss(r, SKETCH, 84);
        b.put(&h);
        let n = match r.below(5) {
            0 => 32_768,
            1 => r.below(100),
            2 => 32_768 + r.len(100_000),
            _ => r.len(40_000),
        } as usize;
        let mut body = near_miss(r, SKETCH, n);
        let room = n.min(32_768);
        let mut want = F::Sqlite3;
        let mut at = None;
        if room >= SKETCH.len() && r.coin() {
            let k = match r.below(3) {
                0 => 0,
                1 => room - SKETCH.len(),
                _ => r.idx(room - SKETCH.len() + 1),
            };
            body[k..k + SKETCH.len()].copy_from_slice(SKETCH);
            want = F::Sketch;
            at = Some(k);
        }
        b.put(&body);
        // A marker that straddles the header or the window must not exist.
        let mut all = b.v.segs[0].1.clone();
        if want == F::Sqlite3 {
            break_all(&mut all, SKETCH);
            b.v.segs[0].1 = all;
        }
        let tag = format!("sqlite body={n} marker={at:?}");
        let mut c = finish(r, b.v, F::Sqlite3, vec![want], tag)?;
        c.src.fill = vec![0];
        Some(c)
    })
}

// --- XML --------------------------------------------------------------------------------------

/// (start tag text, must also occur, format)
pub const XML_ROOTS: &[(&str, &str, F)] = &[
    ("<abiword template=\"false\"", "", F::Abiword),
    ("<abiword template=\"true\"", "", F::AbiwordTemplate),
    ("<amf", "", F::AdditiveManufacturingFormat),
    ("<ASX", "", F::AdvancedStreamRedirector),
    ("<asx", "", F::AdvancedStreamRedirector),
    ("<feed", "", F::Atom),
    ("<COLLADA", "", F::CollaborativeDesignActivity),
    ("<mxfile", "", F::Drawio),
    ("<X3D", "", F::Extensible3d),
    ("<xsl:stylesheet", "", F::ExtensibleStylesheetLanguageTransformations),
    ("<FictionBook", "", F::Fictionbook),
    ("<gml:FeatureCollection", "", F::GeographyMarkupLanguage),
    ("<gpx", "", F::GpsExchangeFormat),
    ("<kml", "", F::KeyholeMarkupLanguage),
    ("<math", "", F::MathematicalMarkupLanguage),
    ("<MPD", "", F::MpegDashMpd),
    ("<score-partwise", "", F::Musicxml),
    ("<rss", "", F::ReallySimpleSyndication),
    ("<SVG", "", F::ScalableVectorGraphics),
    ("<svg", "", F::ScalableVectorGraphics),
    ("<soap:Envelope", "", F::SimpleObjectAccessProtocol),
    ("<map", "", F::TiledMapXml),
    ("<tileset", "", F::TiledTilesetXml),
    ("<tt", "xmlns=\"http://www.w3.org/ns/ttml\"", F::TimedTextMarkupLanguage),
    ("<TrainingCenterDatabase", "", F::TrainingCenterXml),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.presentation\"", F::UniformOfficeFormatPresentation),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.spreadsheet\"", F::UniformOfficeFormatSpreadsheet),
    ("<uof:UOF", "uof:mimetype=\"vnd.uof.text\"", F::UniformOfficeFormatText),
    ("<USFSubtitles", "", F::UniversalSubtitleFormat),
    ("<xliff", "", F::XmlLocalizationInterchangeFileFormat),
    ("<playlist", "", F::XmlShareablePlaylistFormat),
];
/// Text that must not occur by accident.
pub const XML_MARKS: &[&str] = &[
    "<abiword", "<amf", "<ASX", "<asx", "<feed", "<COLLADA", "<mxfile", "<X3D", "<xsl", "<FictionBook", "<gml", "<gpx", "<kml", "<math",
    "<MPD", "<score-partwise", "<rss", "<SVG", "<svg", "<soap", "<map", "<tileset", "<tt", "<TrainingCenterDatabase", "<uof:UOF",
    "<USFSubtitles", "<xliff", "<playlist",
];
const XML_OTHER: &[&str] = &[
    "<html", "<note", "<project", "<configuration", "<Feed", "<Svg", "<a", "<x:svg", "<Map", "<KML", "<MATH", "<mpd", "<collada", "<x3d",
    "<fe", "<sv", "<abi", "<score-timewise", "<uof:UO", "<TrainingCenter", "<xlif", "<tile", "<play", "<am", "<AMF", "<Rss", "<RSS", "<GPX",
    "< svg", "<ns:map", "<usfsubtitles", "<fictionbook", "<UOF",
];

fn xml_noise(r: &mut Rng, n: usize) -> String {
    const P: &[&str] = &[
        "\n", " ", "\t", "\r\n", "<!-- comment -->", "<!-- svg map rss feed -->", "<?target data?>", "<!-- <s vg> < map> -->", "<!-- <", "-->",
        "<!-- fe ed kml -->", "<?xml-stylesheet href=\"a.css\"?>", "<<", "<!-- \u{e9}\u{65e5} -->", "<ab", "<m", "<x", "<g", "<s", "<t", "<US", "<!--svg-->",
    ];
    let mut s = String::new();
    while s.len() < n {
        match words::text(r, 2) {
            Some(t) => s += t,
            _ => s += r.pick(P),
        }
        s.push(*r.pick(&[' ', '\n', '>', '.']));
    }
    s
}

pub fn xml_clean(s: &str) -> bool {
    XML_MARKS.iter().all(|m| !s.contains(m))
}

pub fn xml(r: &mut Rng) -> Case {
    retry(r, |r| {
        let which = if r.one_in(4) { None } else { Some(r.idx(XML_ROOTS.len())) };
        let mut s = String::new();
        let bom = r.one_in(3);
        if bom {
            s.push('\u{feff}');
        }
        s += "<?xml";
        s += r.pick(&[" version=\"1.0\"?>", " version=\"1.0\" encoding=\"UTF-8\"?>", " version='1.1' standalone='yes' ?>", " version=\"1.0\" encoding=\"utf-8\" standalone=\"no\"?>\r\n"]);
        // The examined window starts 5 bytes in and is 8192 bytes long.
        let limit = 5 + 8192;
        let mut want = F::ExtensibleMarkupLanguage;
        let mut pre = match r.below(4) {
            0 => 0,
            1 => r.below(100),
            2 => r.below(8100),
            _ => r.below(600),
        } as usize;
        let mut tail = String::new();
        let root = match which {
            Some(k) => {
                let (tag, also, f) = XML_ROOTS[k];
                want = f;
                let mut t = tag.to_string();
                if f != F::Abiword && f != F::AbiwordTemplate || also.is_empty() {
                    t += r.pick(&["", "", " ", "\n", "\t"]);
                }
                let mut attrs = vec![" version=\"1.0\"".to_string(), " xmlns:x=\"urn:x\"".into(), " id='1'".into()];
                attrs.truncate(r.idx(4));
                if let Some(t) = words::text(r, 2) {
                    attrs.push(if r.coin() { format!(" {t}") } else { format!(" x=\"{t}\"") });
                }
                if !also.is_empty() {
                    let k = r.idx(attrs.len() + 1);
                    attrs.insert(k, format!(" {also}"));
                }
                if also.is_empty() && r.coin() {
                    attrs.clear();
                }
                t += &attrs.concat();
                t
            }
            None => match words::text(r, 2) {
                Some(t) => format!("<{}", t.trim_start_matches('<')),
                _ => r.pick(XML_OTHER).to_string(),
            },
        };
        if which.is_some() && r.one_in(3) {
            // As late as possible.
            pre = limit - s.len() - root.len();
            let mut noise = xml_noise(r, pre + 40);
            let mut k = pre;
            while !noise.is_char_boundary(k) {
                k -= 1;
            }
            noise.truncate(k);
            s += &noise;
            s += &" ".repeat(pre - k);
        } else {
            if s.len() + pre + 60 + root.len() > limit {
                pre = 0;
            }
            let noise = xml_noise(r, pre);
            s += &noise;
        }
        if !xml_clean(&s) || (which.is_some() && s.len() + root.len() > limit) {
            return None;
        }
        let head = s.clone();
        s += &root;
        tail += r.pick(&[">", "/>", " >\n", ""]);
        let n = r.len(9000) as usize;
        tail += &xml_noise(r, n);
        let all = format!("{s}{tail}");
        // Exactly the intended element.
        let rest = &all[head.len() + if which.is_some() { 1 } else { 0 }..];
        if !xml_clean(rest) {
            return None;
        }
        // The attributes that tell the formats apart, only where they belong.
        let own = which.map_or("", |k| XML_ROOTS[k].1);
        if words::on() && XML_ROOTS.iter().any(|x| !x.1.is_empty() && x.1 != own && all.contains(x.1)) {
            return None;
        }
        let mut b = B::new();
        b.put(all.as_bytes());
        let tag = format!("xml root={root:?} at={} len={}", head.len(), all.len());
        let mut c = finish(r, b.v, F::ExtensibleMarkupLanguage, vec![want], tag)?;
        c.src.fill = vec![0];
        Some(c)
    })
}

// --- Text -------------------------------------------------------------------------------------

fn text_char(r: &mut Rng) -> char {
    match r.below(12) {
        0 => *r.pick(&['\t', '\r', '\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{feff}', '\u{200b}']),
        1 => char::from_u32(0xA0 + r.below(0x700) as u32).unwrap(),
        2 => char::from_u32(0x800 + r.below(0xC000) as u32).unwrap_or('\u{4e00}'),
        3 => char::from_u32(0x1_0000 + r.below(0x10_0000) as u32).unwrap_or('\u{1f600}'),
        4 => *r.pick(&['\u{7f0}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '~', '\u{fffd}']),
        _ => (0x20 + r.below(95) as u8) as char,
    }
}

/// Text, usually spoilt somewhere, around the line and byte limits.
pub fn textish(r: &mut Rng) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    let mode = r.below(8);
    let total = match mode {
        0 | 1 => r.below(60) as usize,
        2 => 65_536 - 8 + r.below(16) as usize,
        3 => 65_536 + r.below(20_000) as usize,
        4 => r.len(70_000) as usize,
        _ => r.below(4000) as usize,
    };
    let lines = r.below(24);
    let per = if mode == 2 || mode == 3 { total / (1 + r.below(15) as usize) } else { total / (1 + lines as usize) }.max(1);
    let plain = r.coin();
    let mut col = 0;
    while v.len() < total {
        if col >= per {
            v.push(b'\n');
            col = 0;
            continue;
        }
        let c = if plain { (0x20 + r.below(95) as u8) as char } else { text_char(r) };
        let mut x = [0; 4];
        let e = c.encode_utf8(&mut x);
        col += e.len();
        v.extend_from_slice(e.as_bytes());
    }
    if r.one_in(3) {
        v.truncate(total);
    }
    let spoils = match r.below(4) {
        _ if words::on() => 1 + r.below(3),
        0 => 0,
        1 | 2 => 1,
        _ => r.below(4),
    };
    for _ in 0..spoils {
        if v.is_empty() {
            break;
        }
        let nl: Vec<usize> = v.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0).collect();
        let at = match r.below(6) {
            0 => v.len() - 1,
            1 if v.len() > 65_540 => 65_536 - 4 + r.idx(8),
            2 if nl.len() >= 16 => (nl[15] + 3).saturating_sub(r.idx(6)).min(v.len() - 1),
            3 if !nl.is_empty() => (*r.pick(&nl) + 1).min(v.len() - 1),
            4 => 0,
            _ => r.idx(v.len()),
        };
        let bad: &[u8] = *r.pick(&[
            &b"\0"[..], b"\x01", b"\x07", b"\x08", b"\x0E", b"\x1A", b"\x1B", b"\x1F", b"\x7F", b"\x80", b"\xBF", b"\xC0\x80", b"\xC1\xBF", b"\xC2\x80", b"\xC2\x84",
            b"\xC2\x85", b"\xC2\x86", b"\xC2\x9F", b"\xC2\xA0", b"\xE0\x80\x80", b"\xE0\x9F\xBF", b"\xE0\xA0\x80", b"\xED\xA0\x80", b"\xED\x9F\xBF", b"\xEF\xBF\xBF",
            b"\xF0\x80\x80\x80", b"\xF0\x8F\xBF\xBF", b"\xF0\x90\x80\x80", b"\xF4\x8F\xBF\xBF", b"\xF4\x90\x80\x80", b"\xF5\x80\x80\x80", b"\xFF", b"\xFE", b"\xC3",
            b"\xE2\x82", b"\xF0\x9F\x98", b"\x0B", b"\x0C", b"\r", b"\n", b"\xC3\n", b"\xE2\x82\n",
        ]);
        let bad = words::bytes(r, 2).unwrap_or(bad);
        if r.coin() {
            for (i, c) in bad.iter().enumerate() {
                if at + i < v.len() {
                    v[at + i] = *c;
                }
            }
        } else {
            v.splice(at..at, bad.iter().copied());
        }
    }
    v
}

/// A text-like input without any signature.
pub fn text_case(r: &mut Rng) -> Case {
    for _ in 0..50 {
        let mut v = textish(r);
        if v.is_empty() {
            v.push(b'~');
        }
        if refm::present(&v).is_empty() {
            let want = if refm::is_text(&v) { F::PlainText } else { F::ArbitraryBinaryData };
            let tag = format!("text len={}", v.len());
            return Case { src: crate::source::Virt::bytes(v), want: vec![want], tag };
        }
    }
    panic!("no text without signature");
}

// --- Signatures -------------------------------------------------------------------------------

/// An input carrying one signature alternative.
pub fn signature_case(r: &mut Rng) -> Case {
    let row = r.idx(SIGS.len());
    let alt = *r.pick(SIGS[row].1);
    let end = refm::alt_end(alt);
    let tail = r.len(3000) as usize;
    let mut v = if r.coin() { vec![0; end + tail] } else { r.filler(end + tail) };
    while let Some(w) = words::bytes(r, 2) {
        let at = match words::num(r, 2, v.len() as u64) {
            Some(k) => k as usize,
            _ if r.coin() => end.min(v.len()),
            _ => r.idx(v.len() + 1),
        };
        if at + w.len() > v.len() {
            v.resize(at + w.len(), 0);
        }
        v[at..at + w.len()].copy_from_slice(w);
    }
    for (o, s) in alt {
        v[*o..*o + s.len()].copy_from_slice(s);
    }
    let want = refm::closure(&v);
    Case { src: crate::source::Virt::bytes(v), want, tag: format!("signature {:?}", SIGS[row].0) }
}

pub const FAMILY_GENS: &[(&str, fn(&mut Rng) -> Case)] = &[
    ("zip", zip),
    ("cfb", cfb),
    ("ebml", ebml),
    ("asf", asf),
    ("mp4", mp4),
    ("rm", rm),
    ("exe", exe),
    ("id3", id3),
    ("pdf", pdf),
    ("sqlite", sqlite),
    ("xml", xml),
    ("text", text_case),
    ("signature", signature_case),
];

/// A file of any kind.
pub fn any(r: &mut Rng) -> Case {
    let g = r.pick(FAMILY_GENS).1;
    g(r)
}

/// A file of any kind that fits in memory.
pub fn any_small(r: &mut Rng, max: u64) -> (Case, Vec<u8>) {
    loop {
        let c = any(r);
        if let Some(b) = c.src.materialize(max) {
            return (c, b);
        }
    }
}

/// A file of one of the families with skipped parts, of a size spread over several magnitudes.
pub fn any_big(r: &mut Rng) -> Case {
    const GENS: &[&str] = &["zip", "cfb", "ebml", "asf", "mp4", "exe", "id3", "pdf"];
    let g: Vec<fn(&mut Rng) -> Case> = FAMILY_GENS.iter().filter(|x| GENS.contains(&x.0)).map(|x| x.1).collect();
    loop {
        let lo = *r.pick(&[200_000u64, 1 << 20, 2 << 20, 6 << 20, 16 << 20, 34 << 20]);
        for _ in 0..200 {
            let c = r.pick(&g)(r);
            if c.src.len > lo && c.src.len < lo * 4 && !c.want.is_empty() {
                return c;
            }
        }
    }
}

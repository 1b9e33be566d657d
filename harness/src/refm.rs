//! Independent reference: signature presence, size classes, families, text classification.
use crate::spec_gen::{Alt, FAMILIES, SIGS};
use file_format::FileFormat as F;
use std::sync::OnceLock;

/// Bytes examined for signatures.
pub const HEAD: usize = 36_870;

pub fn alt_len(a: Alt) -> usize {
    a.iter().map(|(_, b)| b.len()).sum()
}
pub fn alt_end(a: Alt) -> usize {
    a.iter().map(|(o, b)| o + b.len()).max().unwrap()
}

/// Longest published signature of a format (by table row).
pub fn class(row: usize) -> usize {
    static C: OnceLock<Vec<usize>> = OnceLock::new();
    C.get_or_init(|| SIGS.iter().map(|(_, v)| v.iter().map(|a| alt_len(a)).max().unwrap()).collect())[row]
}

pub fn alt_present(a: Alt, x: &[u8]) -> bool {
    a.iter().all(|(o, b)| x.get(*o..o + b.len()) == Some(*b))
}

/// Rows of SIGS with a signature present in the head of `x`.
pub fn present(x: &[u8]) -> Vec<usize> {
    let x = &x[..x.len().min(HEAD)];
    (0..SIGS.len()).filter(|&i| SIGS[i].1.iter().any(|a| alt_present(a, x))).collect()
}

/// Formats the signature stage may report: those of the largest size class present.
pub fn accept(x: &[u8]) -> Vec<F> {
    let p = present(x);
    let m = p.iter().map(|&i| class(i)).max().unwrap_or(0);
    p.into_iter().filter(|&i| class(i) == m).map(|i| SIGS[i].0).collect()
}

pub fn family(f: F) -> Option<&'static [F]> {
    FAMILIES.iter().find(|x| x.0 == f).map(|x| x.2)
}
pub fn feature(f: F) -> Option<&'static str> {
    FAMILIES.iter().find(|x| x.0 == f).map(|x| x.1)
}

/// Is the whole set made of formats without a reader?
pub fn readerless(fs: &[F]) -> bool {
    fs.iter().all(|f| family(*f).is_none())
}

pub fn show(fs: &[F]) -> String {
    fs.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>().join("|")
}

/// Decodes the first character: Ok(Some((code point, length))), Ok(None) for an incomplete but so far
/// well-formed one, Err for a malformed one (Unicode table 3-7).
fn decode(b: &[u8]) -> Result<Option<(u32, usize)>, ()> {
    let b0 = b[0];
    let (n, lo, hi) = match b0 {
        0..=0x7F => return Ok(Some((b0 as u32, 1))),
        0xC2..=0xDF => (2, 0x80, 0xBF),
        0xE0 => (3, 0xA0, 0xBF),
        0xE1..=0xEC | 0xEE | 0xEF => (3, 0x80, 0xBF),
        0xED => (3, 0x80, 0x9F),
        0xF0 => (4, 0x90, 0xBF),
        0xF1..=0xF3 => (4, 0x80, 0xBF),
        0xF4 => (4, 0x80, 0x8F),
        _ => return Err(()),
    };
    let mut cp = (b0 as u32) & (0x7F >> n);
    for k in 1..n {
        match b.get(k) {
            None => return Ok(None),
            Some(&c) => {
                let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
                if c < l || c > h {
                    return Err(());
                }
                cp = (cp << 6) | (c as u32 & 0x3F);
            }
        }
    }
    Ok(Some((cp, n)))
}

/// Does the examined part (16 lines, 64 KiB) hold UTF-8 text without control characters? `x` must hold
/// the first 64 KiB of the input at least.
pub fn is_text(x: &[u8]) -> bool {
    const LIMIT: usize = 65_536;
    let x = &x[..x.len().min(LIMIT)];
    let mut lines = 0;
    let mut i = 0;
    while i < x.len() {
        match decode(&x[i..]) {
            Err(()) => return false,
            Ok(None) => return x.len() == LIMIT,
            Ok(Some((cp, n))) => {
                let control = cp < 0x20 || (0x7F..=0x9F).contains(&cp);
                let white = (0x09..=0x0D).contains(&cp) || cp == 0x85;
                if control && !white {
                    return false;
                }
                i += n;
                if cp == 0x0A {
                    lines += 1;
                    if lines == 16 {
                        return true;
                    }
                }
            }
        }
    }
    true
}

/// Verdicts permitted with all readers on, by signature and family closure.
pub fn closure(x: &[u8]) -> Vec<F> {
    if x.is_empty() {
        return vec![F::Empty];
    }
    let generic = if is_text(x) { F::PlainText } else { F::ArbitraryBinaryData };
    let a = accept(x);
    if a.is_empty() {
        return vec![generic];
    }
    let mut out = a.clone();
    for f in &a {
        if let Some(fam) = family(*f) {
            out.extend_from_slice(fam);
            out.push(generic);
        }
    }
    out
}


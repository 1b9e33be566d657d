//! Words of the code under test: the literals of its sources, drawn on when inputs are made. A special case
//! compares its input with something, and that something stands in the sources. Oracles never look here.
use crate::refm::HEAD;
use crate::rng::Rng;
use std::cell::Cell;
use std::path::Path;
use std::sync::OnceLock;

#[derive(Default)]
pub struct Words {
    /// Every distinct literal of at least two bytes.
    pub bytes: Vec<Vec<u8>>,
    /// Those that are text without control characters.
    pub texts: Vec<String>,
    pub nums: Vec<u64>,
    /// Neighbouring literals with the offset that follows each (0 if none).
    pub runs: Vec<Vec<(usize, Vec<u8>)>>,
}

enum Tok {
    Lit(Vec<u8>),
    Num(u64),
    Open,
    Close,
    Comma,
    Other,
}

fn escape(s: &[u8], i: &mut usize, out: &mut Vec<u8>) {
    *i += 1;
    let c = s.get(*i).copied().unwrap_or(0);
    *i += 1;
    match c {
        b'n' => out.push(b'\n'),
        b'r' => out.push(b'\r'),
        b't' => out.push(b'\t'),
        b'0' => out.push(0),
        b'x' => {
            let h = s.get(*i..*i + 2).and_then(|h| std::str::from_utf8(h).ok()).and_then(|h| u8::from_str_radix(h, 16).ok());
            out.push(h.unwrap_or(0));
            *i += 2;
        }
        b'u' => {
            let e = s[*i..].iter().position(|c| *c == b'}').map_or(s.len(), |k| *i + k);
            let h: String = s[(*i + 1).min(e)..e].iter().map(|c| *c as char).filter(|c| *c != '_').collect();
            let ch = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?');
            out.extend(ch.to_string().bytes());
            *i = e + 1;
        }
        b'\n' => {
            while s.get(*i).is_some_and(|c| c.is_ascii_whitespace()) {
                *i += 1;
            }
        }
        c => out.push(c),
    }
}

fn lex(s: &[u8]) -> Vec<Tok> {
    let mut t = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        let word = i > 0 && (s[i - 1].is_ascii_alphanumeric() || s[i - 1] == b'_');
        match c {
            b'/' if s[i..].starts_with(b"//") => {
                while i < s.len() && s[i] != b'\n' {
                    i += 1;
                }
            }
            b'/' if s[i..].starts_with(b"/*") => {
                let mut deep = 0;
                while i < s.len() {
                    if s[i..].starts_with(b"/*") {
                        deep += 1;
                        i += 2;
                    } else if s[i..].starts_with(b"*/") {
                        deep -= 1;
                        i += 2;
                        if deep == 0 {
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
            }
            b'r' if !word || s[i - 1] == b'b' || s[i - 1] == b'c' => {
                let h = s[i + 1..].iter().take_while(|c| **c == b'#').count();
                if s.get(i + 1 + h) == Some(&b'"') {
                    let from = i + 2 + h;
                    let mut close = vec![b'"'];
                    close.resize(1 + h, b'#');
                    let n = s[from..].windows(close.len()).position(|w| w == close).unwrap_or(s.len() - from);
                    t.push(Tok::Lit(s[from..from + n].to_vec()));
                    i = (from + n + close.len()).min(s.len());
                } else {
                    i += 1;
                }
            }
            b'"' => {
                let mut v = Vec::new();
                i += 1;
                while i < s.len() && s[i] != b'"' {
                    if s[i] == b'\\' {
                        escape(s, &mut i, &mut v);
                    } else {
                        v.push(s[i]);
                        i += 1;
                    }
                }
                i += 1;
                t.push(Tok::Lit(v));
            }
            b'\'' => {
                // A character, or a lifetime.
                let mut v = Vec::new();
                let mut k = i + 1;
                if s.get(k) == Some(&b'\\') {
                    escape(s, &mut k, &mut v);
                } else if let Some(n) = s[k.min(s.len())..].iter().take(5).position(|c| *c == b'\'') {
                    v = s[k..k + n].to_vec();
                    k += n;
                }
                if s.get(k) == Some(&b'\'') && !v.is_empty() {
                    if v.len() == 1 {
                        t.push(Tok::Num(v[0] as u64));
                    } else {
                        t.push(Tok::Lit(v));
                    }
                    i = k + 1;
                } else {
                    i += 1;
                }
            }
            b'0'..=b'9' if !word => {
                let n = s[i..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
                let x: String = s[i..i + n].iter().map(|c| *c as char).filter(|c| *c != '_').collect();
                let (radix, d) = match x.get(..2) {
                    Some("0x") => (16, &x[2..]),
                    Some("0b") => (2, &x[2..]),
                    Some("0o") => (8, &x[2..]),
                    _ => (10, &x[..]),
                };
                let suffix = d.find(['u', 'i']).unwrap_or(d.len());
                t.push(u64::from_str_radix(&d[..suffix], radix).map_or(Tok::Other, Tok::Num));
                i += n;
            }
            b'[' => {
                t.push(Tok::Open);
                i += 1;
            }
            b']' => {
                t.push(Tok::Close);
                i += 1;
            }
            b',' => {
                t.push(Tok::Comma);
                i += 1;
            }
            c => {
                if !c.is_ascii_whitespace() && !c.is_ascii_alphanumeric() {
                    t.push(Tok::Other);
                }
                i += 1;
            }
        }
    }
    t
}

impl Words {
    fn add(&mut self, b: &[u8]) {
        if b.len() < 2 || b.len() > 300 {
            return;
        }
        self.bytes.push(b.to_vec());
        // UTF-16, as it is written in places.
        let narrow: Vec<u8> = b.iter().copied().filter(|c| *c != 0).collect();
        for b in [b.to_vec(), narrow] {
            if let Ok(s) = String::from_utf8(b) {
                if s.len() > 1 && s.chars().all(|c| !c.is_control()) {
                    self.texts.push(s);
                }
            }
        }
    }

    fn read(&mut self, src: &[u8]) {
        let toks = lex(src);
        let mut lits: Vec<(usize, Vec<u8>)> = Vec::new();
        let mut last_was_lit = false;
        let mut array: Option<Vec<u8>> = None;
        for t in &toks {
            match t {
                Tok::Lit(b) => {
                    self.add(b);
                    lits.push((0, b.clone()));
                    last_was_lit = true;
                    array = None;
                }
                Tok::Num(n) => {
                    self.nums.push(*n);
                    if *n >= 256 {
                        let w = if *n <= 0xFFFF { 2 } else if *n <= 0xFF_FFFF { 3 } else if *n <= u32::MAX as u64 { 4 } else { 8 };
                        let be = n.to_be_bytes()[8 - w..].to_vec();
                        self.bytes.push(be.iter().rev().copied().collect());
                        self.bytes.push(be);
                    }
                    if last_was_lit {
                        lits.last_mut().unwrap().0 = *n as usize;
                        last_was_lit = false;
                    }
                    match &mut array {
                        Some(a) if *n < 256 => a.push(*n as u8),
                        _ => array = None,
                    }
                }
                Tok::Open => array = Some(Vec::new()),
                Tok::Close => {
                    if let Some(a) = array.take() {
                        self.add(&a);
                        if a.len() > 1 {
                            lits.push((0, a));
                            last_was_lit = true;
                        }
                    }
                }
                Tok::Comma => {}
                Tok::Other => array = None,
            }
        }
        for k in 0..lits.len() {
            for n in 1..=4.min(lits.len() - k) {
                let run = lits[k..k + n].to_vec();
                if run.iter().all(|(o, b)| o + b.len() <= HEAD + 64 && !b.is_empty()) && (n == 1 || run[1..].iter().any(|x| x.0 > 0)) {
                    self.runs.push(run);
                }
            }
        }
    }
}

static WORDS: OnceLock<Words> = OnceLock::new();

/// Reads the sources, except the table of names, which no input is compared with.
pub fn load(repo: &str) {
    fn walk(d: &Path, w: &mut Words) {
        let Ok(l) = std::fs::read_dir(d) else { return };
        let mut l: Vec<_> = l.flatten().map(|e| e.path()).collect();
        l.sort();
        for p in l {
            if p.is_dir() {
                walk(&p, w);
            } else if p.extension().is_some_and(|e| e == "rs") && !p.ends_with("formats.rs") {
                w.read(&std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut w = Words::default();
    walk(&Path::new(repo).join("src"), &mut w);
    w.bytes.sort();
    w.bytes.dedup();
    w.texts.sort();
    w.texts.dedup();
    w.nums.sort();
    w.nums.dedup();
    if w.bytes.is_empty() {
        w.bytes.push(b"??".to_vec());
    }
    if w.texts.is_empty() {
        w.texts.push("??".into());
    }
    if w.nums.is_empty() {
        w.nums.push(0);
    }
    let _ = WORDS.set(w);
}

pub fn words() -> &'static Words {
    WORDS.get().expect("loaded")
}

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
}

/// Whether the generators of this thread draw on the words.
pub fn set(on: bool) -> bool {
    ON.with(|c| c.replace(on))
}
pub fn on() -> bool {
    ON.with(|c| c.get())
}
pub fn with<T>(on: bool, f: impl FnOnce() -> T) -> T {
    let old = set(on);
    let x = f();
    set(old);
    x
}

/// One time in `n`, if switched on, some literal.
pub fn bytes(r: &mut Rng, n: u64) -> Option<&'static [u8]> {
    (on() && r.one_in(n)).then(|| &r.pick(&words().bytes)[..])
}
/// The same for a literal of exactly four bytes.
pub fn four(r: &mut Rng, n: u64) -> Option<&'static [u8; 4]> {
    static F: OnceLock<Vec<[u8; 4]>> = OnceLock::new();
    let f = F.get_or_init(|| {
        let mut v: Vec<[u8; 4]> = words().bytes.iter().filter_map(|b| b[..].try_into().ok()).collect();
        v.push(*b"four");
        v
    });
    (on() && r.one_in(n)).then(|| r.pick(f))
}
/// The same for a literal that is text.
pub fn text(r: &mut Rng, n: u64) -> Option<&'static str> {
    (on() && r.one_in(n)).then(|| &r.pick(&words().texts)[..])
}
/// The same for a number or one of its neighbours, up to `max`.
pub fn num(r: &mut Rng, n: u64, max: u64) -> Option<u64> {
    if !on() || !r.one_in(n) {
        return None;
    }
    let x = r.pick(&words().nums).wrapping_add(r.below(3)).wrapping_sub(1);
    (x <= max).then_some(x)
}

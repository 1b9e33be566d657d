//! Virtual sources (also huge or endless ones) and the instrumented reader that observes and
//! perturbs every I/O operation of the code under test.
use crate::rng::{hash, mix, Rng};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// Content as segments over a repeating fill pattern.
#[derive(Clone)]
pub struct Virt {
    pub len: u64,
    pub segs: Vec<(u64, Vec<u8>)>,
    pub fill: Vec<u8>,
}

impl Virt {
    pub fn bytes(b: Vec<u8>) -> Self {
        Virt { len: b.len() as u64, segs: vec![(0, b)], fill: vec![0] }
    }
    /// Adds a segment; later segments win over earlier ones.
    pub fn put(&mut self, at: u64, b: Vec<u8>) {
        if b.is_empty() {
            return;
        }
        self.len = self.len.max(at + b.len() as u64);
        self.segs.push((at, b));
    }
    pub fn read_at(&self, pos: u64, buf: &mut [u8]) -> usize {
        if pos >= self.len {
            return 0;
        }
        let n = (buf.len() as u64).min(self.len - pos) as usize;
        let buf = &mut buf[..n];
        let covered = self.segs.iter().any(|(a, b)| *a <= pos && pos + n as u64 <= *a + b.len() as u64);
        if !covered {
            if self.fill.len() == 1 {
                buf.fill(self.fill[0]);
            } else {
                // One period, then doubling copies.
                let l = self.fill.len();
                let k = (pos % l as u64) as usize;
                let one = l.min(n);
                for (i, b) in buf[..one].iter_mut().enumerate() {
                    *b = self.fill[(k + i) % l];
                }
                let mut have = one;
                while have < n {
                    let m = have.min(n - have);
                    buf.copy_within(..m, have);
                    have += m;
                }
            }
        }
        let end = pos + n as u64;
        for (a, b) in &self.segs {
            let s = (*a).max(pos);
            let e = (*a + b.len() as u64).min(end);
            if s < e {
                buf[(s - pos) as usize..(e - pos) as usize]
                    .copy_from_slice(&b[(s - a) as usize..(e - a) as usize]);
            }
        }
        n
    }
    /// The whole content, for sources of at most `max` bytes.
    pub fn materialize(&self, max: u64) -> Option<Vec<u8>> {
        if self.len > max {
            return None;
        }
        let mut v = vec![0; self.len as usize];
        self.read_at(0, &mut v);
        Some(v)
    }
    pub fn head(&self, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        let k = self.read_at(0, &mut v);
        v.truncate(k);
        v
    }
    pub fn hash(&self) -> u64 {
        let mut h = mix(self.len) ^ hash(&self.fill);
        for (a, b) in &self.segs {
            h = mix(h ^ a) ^ hash(b);
        }
        h
    }
    pub fn describe(&self, cap: usize) -> String {
        let mut s = format!("len={} fill={}", self.len, hex(&self.fill, 32));
        for (a, b) in self.segs.iter().take(24) {
            s += &format!(" @{}[{}]={}", a, b.len(), hex(b, cap));
        }
        s
    }
}

pub fn hex(b: &[u8], cap: usize) -> String {
    let mut s: String = b.iter().take(cap).map(|x| format!("{x:02x}")).collect();
    if b.len() > cap {
        s += "..";
    }
    s
}

/// How a read is split.
#[derive(Clone)]
pub enum Chunk {
    Full,
    Fixed(usize),
    Random(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault {
    /// The operation reports this error.
    Err(ErrorKind),
}

#[derive(Clone)]
pub struct Plan {
    pub chunk: Chunk,
    /// One read in n reports ErrorKind::Interrupted (never two in a row); 0 = never.
    pub interrupt: u64,
    /// (operation index, fault, sticky).
    pub fault: Option<(u64, Fault, bool)>,
    /// Every read at or past this position fails.
    pub bad_from: u64,
    /// Seeks past i64::MAX fail, as they do for files.
    pub file_like: bool,
    /// Seeking fails, as it does on a pipe.
    pub no_seek: bool,
    pub budget_ops: u64,
    pub budget_bytes: u64,
    /// Yield the thread at each operation.
    pub yields: bool,
    pub rng: Rng,
}

impl Plan {
    pub fn plain() -> Self {
        Plan {
            chunk: Chunk::Full,
            interrupt: 0,
            fault: None,
            bad_from: u64::MAX,
            file_like: false,
            no_seek: false,
            budget_ops: 5_000_000,
            budget_bytes: 1 << 30,
            yields: false,
            rng: Rng::new(0, "plan", 0),
        }
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub ops: u64,
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub max_end: u64,
    /// Reads that happened before any seek.
    pub head_reads: u64,
    /// Did the planned fault fire, and was that while the leading bytes were being read for the first time?
    pub fired: bool,
    pub fired_in_head: bool,
    pub trace: u64,
    pub over_budget: bool,
}

pub struct Budget;

/// The instrumented source.
pub struct Tracer<'a> {
    pub src: &'a Virt,
    pub pos: u64,
    pub plan: Plan,
    pub st: Stats,
    last_interrupted: bool,
}

impl<'a> Tracer<'a> {
    pub fn new(src: &'a Virt, plan: Plan) -> Self {
        Tracer { src, pos: 0, plan, st: Stats::default(), last_interrupted: false }
    }
    fn op(&mut self, kind: u64, arg: u64) -> Option<Fault> {
        if self.plan.yields {
            std::thread::yield_now();
        }
        let k = self.st.ops;
        self.st.ops += 1;
        self.st.trace = mix(self.st.trace ^ kind ^ (arg << 2));
        if self.st.ops > self.plan.budget_ops || self.st.bytes > self.plan.budget_bytes {
            self.st.over_budget = true;
            std::panic::panic_any(Budget);
        }
        match self.plan.fault {
            Some((at, f, sticky)) if k == at || (sticky && k > at) => {
                if !self.st.fired {
                    self.st.fired = true;
                    self.st.fired_in_head =
                        kind == 1 && self.st.bytes == self.pos && self.pos < self.src.len.min(crate::refm::HEAD as u64);
                }
                Some(f)
            }
            _ => None,
        }
    }
}

impl Read for Tracer<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let f = self.op(1, buf.len() as u64);
        self.st.reads += 1;
        if self.st.seeks == 0 {
            self.st.head_reads += 1;
        }
        match f {
            Some(Fault::Err(k)) => return Err(Error::new(k, "injected")),
            None => {}
        }
        if self.plan.interrupt > 0 && !self.last_interrupted && self.plan.rng.one_in(self.plan.interrupt) {
            self.last_interrupted = true;
            return Err(Error::new(ErrorKind::Interrupted, "injected interruption"));
        }
        self.last_interrupted = false;
        let want = match self.plan.chunk {
            Chunk::Full => buf.len(),
            Chunk::Fixed(n) => buf.len().min(n),
            Chunk::Random(n) => {
                if buf.is_empty() {
                    0
                } else {
                    buf.len().min(1 + self.plan.rng.idx(n))
                }
            }
        };
        if want > 0 && self.pos.saturating_add(want as u64) > self.plan.bad_from {
            if self.pos >= self.plan.bad_from {
                return Err(Error::other("unreadable region"));
            }
            let n = self.src.read_at(self.pos, &mut buf[..(self.plan.bad_from - self.pos) as usize]);
            self.pos += n as u64;
            self.st.bytes += n as u64;
            return Ok(n);
        }
        let n = self.src.read_at(self.pos, &mut buf[..want]);
        self.pos += n as u64;
        self.st.bytes += n as u64;
        self.st.max_end = self.st.max_end.max(self.pos);
        Ok(n)
    }
}

impl Seek for Tracer<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let (k, arg) = match to {
            SeekFrom::Start(n) => (0, n),
            SeekFrom::Current(n) => (2, n as u64),
            SeekFrom::End(n) => (3, n as u64),
        };
        let f = self.op(k, arg);
        self.st.seeks += 1;
        if let Some(Fault::Err(k)) = f {
            return Err(Error::new(k, "injected"));
        }
        if self.plan.no_seek {
            return Err(Error::new(ErrorKind::NotSeekable, "not seekable"));
        }
        let p = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
            SeekFrom::End(n) => self.src.len.checked_add_signed(n),
        };
        match p {
            Some(p) if !self.plan.file_like || p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}

//! Replays a recorded corpus under the interpreter: ffmiri FILE [THREADS].
//!
//! The file holds records of: length of the verdict, verdict, length of the input, input.
//! The verdict is the one the natively built monitor observed (or knows by construction).
use file_format::FileFormat;
use std::io::{Cursor, Read, Seek, SeekFrom};

struct Slow<'a>(Cursor<&'a [u8]>, usize);

impl Read for Slow<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.1 = self.1 * 5 % 8191 + 1;
        let n = b.len().min(self.1);
        self.0.read(&mut b[..n])
    }
}

impl Seek for Slow<'_> {
    fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
        self.0.seek(p)
    }
}

fn pass(corpus: &[(String, Vec<u8>)], from: usize) -> usize {
    let mut bad = 0;
    for k in 0..corpus.len() {
        let (want, x) = &corpus[(k + from) % corpus.len()];
        let got = match k % 3 {
            0 => FileFormat::from_reader(Slow(Cursor::new(x), 1 + k)).unwrap_or_default(),
            1 => FileFormat::from_reader(Cursor::new(x)).unwrap_or_default(),
            _ => FileFormat::from_bytes(x),
        };
        if format!("{got:?}") != *want {
            bad += 1;
            println!("BAD {want} {got:?} {}", x.iter().take(3000).map(|b| format!("{b:02x}")).collect::<String>());
        }
    }
    bad
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let threads: usize = a.get(2).map_or(1, |s| s.parse().unwrap());
    let b = std::fs::read(&a[1]).unwrap();
    let mut corpus = Vec::new();
    let mut p = 0;
    let take = |p: &mut usize| {
        let n = u32::from_le_bytes(b[*p..*p + 4].try_into().unwrap()) as usize;
        *p += 4 + n;
        b[*p - n..*p].to_vec()
    };
    while p < b.len() {
        let want = String::from_utf8(take(&mut p)).unwrap();
        corpus.push((want, take(&mut p)));
    }
    let n = corpus.len();
    let bad: usize = if threads == 1 {
        pass(&corpus, 0)
    } else {
        std::thread::scope(|s| {
            let corpus = &corpus;
            let t: Vec<_> = (0..threads).map(|t| s.spawn(move || pass(corpus, t * n / threads))).collect();
            t.into_iter().map(|t| t.join().unwrap()).sum()
        })
    };
    println!("REPLAYED {} inputs, {} threads, {bad} bad", n * threads, threads);
}

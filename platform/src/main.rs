//! Detection on another platform: reads sources from a file (or standard input), writes one verdict per line.
//!
//! A source is: length (u64), size of the fill pattern (u32), fill pattern, number of segments (u32), and for each segment
//! its position (u64), size (u32) and content; numbers are little endian.
#![cfg_attr(all(target_arch = "x86", not(miri)), no_main)]
use file_format::FileFormat;
use std::io::{Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

struct Source {
    len: u64,
    fill: Vec<u8>,
    segs: Vec<(u64, Vec<u8>)>,
    pos: u64,
    /// Reads deliver at most this many bytes.
    most: usize,
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.pos >= self.len {
            return Ok(0);
        }
        let n = (buf.len() as u64).min(self.len - self.pos).min(self.most as u64) as usize;
        let (pos, end) = (self.pos, self.pos + n as u64);
        let buf = &mut buf[..n];
        if self.fill.len() == 1 {
            buf.fill(self.fill[0]);
        } else {
            let l = self.fill.len();
            let mut k = (pos % l as u64) as usize;
            let mut at = 0;
            while at < n {
                let m = (l - k).min(n - at);
                buf[at..at + m].copy_from_slice(&self.fill[k..k + m]);
                at += m;
                k = 0;
            }
        }
        for (a, b) in &self.segs {
            let (s, e) = ((*a).max(pos), (*a + b.len() as u64).min(end));
            if s < e {
                buf[(s - pos) as usize..(e - pos) as usize].copy_from_slice(&b[(s - a) as usize..(e - a) as usize]);
            }
        }
        self.pos = end;
        Ok(n)
    }
}

impl Seek for Source {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let to = match p {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match to {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek")),
        }
    }
}

fn show(r: std::thread::Result<Result<FileFormat>>) -> String {
    match r {
        Ok(Ok(f)) => format!("{f:?}"),
        Ok(Err(e)) => format!("ERROR {:?}", e.kind()),
        Err(_) => "PANIC".to_string(),
    }
}

fn run() {
    if !cfg!(miri) {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let input: Box<dyn Read> = match std::env::args_os().nth(1) {
        Some(p) => Box::new(Cursor::new(std::fs::read(p).expect("input"))),
        None => Box::new(std::io::stdin()),
    };
    let mut input = std::io::BufReader::new(input);
    let mut out = std::io::stdout();
    println!("PLATFORM {} bits, {} endian", usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" });
    let mut lines = String::new();
    loop {
        let mut eight = [0u8; 8];
        if input.read_exact(&mut eight).is_err() {
            break;
        }
        let len = u64::from_le_bytes(eight);
        let mut four = [0u8; 4];
        input.read_exact(&mut four).unwrap();
        let mut fill = vec![0; u32::from_le_bytes(four) as usize];
        input.read_exact(&mut fill).unwrap();
        input.read_exact(&mut four).unwrap();
        let mut segs = Vec::new();
        for _ in 0..u32::from_le_bytes(four) {
            input.read_exact(&mut eight).unwrap();
            input.read_exact(&mut four).unwrap();
            let mut b = vec![0; u32::from_le_bytes(four) as usize];
            input.read_exact(&mut b).unwrap();
            segs.push((u64::from_le_bytes(eight), b));
        }
        let mut s = Source { len, fill, segs, pos: 0, most: usize::MAX };
        let a = show(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| FileFormat::from_reader(&mut s))));
        lines += &a;
        if a != "PANIC" && len <= if cfg!(miri) { 4000 } else { 1 << 20 } {
            // Also from bytes.
            let mut v = vec![0; len as usize];
            s.pos = 0;
            s.read_exact(&mut v).unwrap();
            let b = show(std::panic::catch_unwind(|| Ok(FileFormat::from_bytes(&v))));
            if a != b {
                lines += &format!(" but {b} from bytes");
            }
        }
        lines.push('\n');
    }
    out.write_all(lines.as_bytes()).unwrap();
    out.write_all(b"END\n").unwrap();
    out.flush().unwrap();
}

#[cfg(not(all(target_arch = "x86", not(miri))))]
fn main() {
    run()
}

// There are no start-up files for 32-bit programs here, only the C library itself.
#[cfg(all(target_arch = "x86", not(miri)))]
mod start {
    std::arch::global_asm!(
        ".globl _start",
        "_start:",
        "xorl %ebp, %ebp",
        "popl %esi",
        "movl %esp, %ecx",
        "andl $-16, %esp",
        "pushl %eax",
        "pushl %esp",
        "pushl %edx",
        "pushl $0",
        "pushl $0",
        "pushl %ecx",
        "pushl %esi",
        "pushl $main",
        "call __libc_start_main",
        "hlt",
        options(att_syntax),
    );

    #[no_mangle]
    extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
        super::run();
        0
    }
}

//! Detection worker: reads length-prefixed inputs on stdin, writes one verdict per line on stdout.
//! With arguments: writes the verdict on each of these paths instead.
//! With --repeat N: detects the inputs on stdin in turn, N times in all, and writes the first verdict of each one and
//! then the first that differs from an earlier one of the same input, with its number.
//! With --marked LIST: detects each path of the list from the path, from an open file, from bytes and from a memory
//! reader, each between two getppid calls that show up in a system call trace.
use file_format::FileFormat;
use std::io::{Cursor, Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let paths: Vec<_> = std::env::args_os().skip(1).collect();
    if paths.len() == 2 && paths[0] == "--marked" {
        return marked(&paths[1]);
    }
    if paths.len() == 2 && paths[0] == "--repeat" {
        return repeat(paths[1].to_str().and_then(|s| s.parse().ok()).expect("count"));
    }
    if !paths.is_empty() {
        for p in paths {
            match std::panic::catch_unwind(|| FileFormat::from_file(&p)) {
                Ok(Ok(f)) => println!("{f:?}"),
                Ok(Err(e)) => println!("ERROR {:?}", e.kind()),
                Err(_) => println!("PANIC"),
            }
        }
        return;
    }
    let stdin = std::io::stdin();
    let mut stdin = stdin.lock();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    loop {
        let mut len = [0u8; 4];
        if stdin.read_exact(&mut len).is_err() {
            break;
        }
        let mut buf = vec![0u8; u32::from_le_bytes(len) as usize];
        if stdin.read_exact(&mut buf).is_err() {
            break;
        }
        let a = std::panic::catch_unwind(|| FileFormat::from_bytes(&buf));
        let b = std::panic::catch_unwind(|| FileFormat::from_reader(Cursor::new(&buf)));
        match (a, b) {
            (Ok(a), Ok(Ok(b))) if a == b => writeln!(out, "{a:?}").unwrap(),
            (Ok(a), Ok(b)) => writeln!(out, "MISMATCH bytes={a:?} reader={b:?}").unwrap(),
            _ => writeln!(out, "PANIC").unwrap(),
        }
    }
    out.flush().unwrap();
}

fn repeat(count: u64) {
    let mut all = Vec::new();
    std::io::stdin().read_to_end(&mut all).expect("stdin");
    let mut inputs = Vec::new();
    let mut at = 0;
    while at + 4 <= all.len() {
        let n = u32::from_le_bytes(all[at..at + 4].try_into().unwrap()) as usize;
        inputs.push(&all[at + 4..at + 4 + n]);
        at += 4 + n;
    }
    let detect = |x: &[u8]| std::panic::catch_unwind(|| FileFormat::from_bytes(x)).map_or("PANIC".to_string(), |f| format!("{f:?}"));
    let first: Vec<String> = inputs.iter().map(|x| detect(x)).collect();
    println!("{}", first.join("\n"));
    let want: Vec<_> = inputs.iter().map(|x| FileFormat::from_bytes(x)).collect();
    for i in 2 * inputs.len() as u64..count {
        let k = (i % inputs.len() as u64) as usize;
        match std::panic::catch_unwind(|| FileFormat::from_bytes(inputs[k])) {
            Ok(f) if f == want[k] && (i > 1 << 16 || format!("{f:?}") == first[k]) => {}
            r => {
                println!("LATER {i} {k} {}", r.map_or("PANIC".to_string(), |f| format!("{f:?}")));
                return;
            }
        }
    }
    println!("DONE {count}");
}

fn marked(list: &std::ffi::OsStr) {
    let list = std::fs::read_to_string(list).expect("list");
    let mark = || std::hint::black_box(std::os::unix::process::parent_id());
    let show = |r: std::thread::Result<std::io::Result<FileFormat>>| match r {
        Ok(Ok(f)) => format!("{f:?}"),
        Ok(Err(e)) => format!("ERROR {:?}", e.kind()),
        Err(_) => "PANIC".to_string(),
    };
    let mut out = Vec::new();
    for p in list.lines() {
        let content = std::fs::read(p).unwrap_or_default();
        let file = std::fs::File::open(p).ok();
        mark();
        let a = std::panic::catch_unwind(|| FileFormat::from_file(p));
        mark();
        let b = file.as_ref().map(|f| std::panic::catch_unwind(|| FileFormat::from_reader(f)));
        mark();
        let c = std::panic::catch_unwind(|| Ok(FileFormat::from_bytes(&content)));
        mark();
        let d = std::panic::catch_unwind(|| FileFormat::from_reader(Cursor::new(&content)));
        mark();
        let b = b.map_or("-".to_string(), show);
        out.push(format!("{} | {b} | {} | {}", show(a), show(c), show(d)));
    }
    println!("{}", out.join("\n"));
}

//! C27: what a detection asks of the operating system, judged from a recorded trace of system calls.
use crate::gens2::{any_small, signature_case, textish};
use crate::mutate::mutant;
use crate::rng::hash;
use crate::run::{wl, Cx, Params, Workload};
use std::path::PathBuf;
use std::process::{Command, Stdio};

/// Memory management and what std may call at any time; nothing of it is visible from outside.
const INNER: &[&str] = &[
    "brk", "mmap", "munmap", "mremap", "madvise", "mprotect", "futex", "sched_yield", "getrandom", "clock_gettime", "gettid", "getpid", "restart_syscall", "membarrier", "rseq", "prlimit64",
    "getrlimit", "sched_getaffinity",
];
/// On a descriptor that is open already.
const ON_FD: &[&str] = &["read", "pread64", "readv", "preadv", "preadv2", "lseek", "fstat", "fadvise64", "readahead"];
/// With the path.
const ON_PATH: &[&str] = &["stat", "lstat", "statx", "newfstatat", "access", "faccessat", "faccessat2", "readlink", "readlinkat", "getcwd"];

/// Why one call within a detection is not permitted. `path` is that of a detection by path.
fn judge(name: &str, args: &str, ret: &str, path: Option<&str>, fds: &mut Vec<String>, given: bool) -> Option<String> {
    let fd = args.split([',', ')']).next().unwrap_or("").trim().to_string();
    if INNER.contains(&name) {
        return if name == "mmap" && args.contains("MAP_SHARED") && args.contains("PROT_WRITE") && !args.contains("MAP_ANONYMOUS") { Some("maps a file for writing".into()) } else { None };
    }
    // What is mentioned between quotes must be the path itself.
    let named = args.split('"').nth(1).unwrap_or("");
    if let Some(p) = path {
        if name == "open" || name == "openat" {
            if named != p {
                return Some("opens another path".into());
            }
            if ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|f| args.contains(f)) {
                return Some("opens the path for writing".into());
            }
            if !ret.starts_with('-') {
                fds.push(ret.split(' ').next().unwrap_or("").to_string());
            }
            return None;
        }
        if ON_PATH.contains(&name) && (named == p || named.is_empty() || name == "getcwd" || name.starts_with("readlink") && p.starts_with(named)) {
            return None;
        }
        if name == "close" {
            return match fds.iter().position(|x| *x == fd) {
                Some(k) => {
                    fds.remove(k);
                    None
                }
                None => Some("closes a descriptor it did not open".into()),
            };
        }
        if ON_FD.contains(&name) || name == "fcntl" && args.contains("F_GETF") {
            return if fds.contains(&fd) { None } else { Some("reads a descriptor it did not open".into()) };
        }
    }
    if given && (ON_FD.contains(&name) || ON_PATH.contains(&name) && named.is_empty()) {
        // One of std's own streams is not the source.
        return if ["0", "1", "2"].contains(&fd.as_str()) { Some("reads a descriptor that is not the source".into()) } else { None };
    }
    Some("is not part of reading a source".into())
}

fn trace(cx: &mut Cx, files: Vec<(String, &'static str)>) {
    let bin = PathBuf::from(&cx.p.bins).join("worker-all");
    let base = format!("{}/c27-{}-{}", cx.p.scratch, cx.name.replace(' ', "_"), cx.idx);
    let (list, log) = (format!("{base}.list"), format!("{base}.trace"));
    std::fs::write(&list, files.iter().map(|f| f.0.as_str()).collect::<Vec<_>>().join("\n")).unwrap();
    let o = Command::new("strace")
        .args(["-f", "-qq", "-s", "4096", "-e", "signal=none", "-o", &log])
        .arg(&bin)
        .args(["--marked", &list])
        .stdin(Stdio::null())
        .output();
    let text = std::fs::read(&log).map(|b| String::from_utf8_lossy(&b).into_owned());
    let _ = std::fs::remove_file(&list);
    let _ = std::fs::remove_file(&log);
    let (o, text) = match (o, text) {
        (Ok(o), Ok(t)) => (o, t),
        (o, t) => {
            cx.inconclusive(format!("cannot trace system calls: {:?} {:?}", o.err(), t.err()));
            return;
        }
    };
    let marks = text.lines().filter(|l| l.contains("getppid(")).count();
    if marks != files.len() * 5 {
        // Also the case where tracing is forbidden. A worker that dies in a detection is the business of C01.
        cx.inconclusive(format!("{marks} marks instead of {}: {} {}", files.len() * 5, o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>()));
        return;
    }
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let verdicts: Vec<&str> = out.lines().collect();
    if verdicts.len() != files.len() {
        cx.fail("output", format!("the program that only detects {} inputs writes {} lines", files.len(), verdicts.len()), out.chars().take(500).collect());
        return;
    }
    // Which detection of which file the trace is in: 0 none, 1 path, 2 open file, 3 bytes, 4 memory reader.
    let (mut k, mut stage) = (usize::MAX, 0);
    let mut fds: Vec<String> = Vec::new();
    let mut main = String::new();
    let mut calls = 0u64;
    for l in text.lines() {
        let Some((pid, rest)) = l.split_once(' ') else { continue };
        let rest = rest.trim_start();
        if main.is_empty() {
            main = pid.to_string();
        }
        let Some((name, tail)) = rest.split_once('(') else { continue };
        if name == "getppid" {
            if stage > 0 {
                cx.eval();
                cx.max("system calls in one detection", calls);
                let how = ["", "path", "open file", "bytes", "memory reader"][stage];
                if stage == 1 && !fds.is_empty() {
                    cx.fail(format!("{how}:left open"), "detection from a path leaves its descriptor open".to_string(), files[k].0.clone());
                }
                if calls > 0 {
                    cx.label(format!("{how} with system calls"));
                } else {
                    cx.label(format!("{how} without system calls"));
                }
            }
            calls = 0;
            fds.clear();
            if stage == 0 {
                k = k.wrapping_add(1);
            }
            stage = (stage + 1) % 5;
            continue;
        }
        if stage == 0 || rest.starts_with("<...") || name.contains(' ') {
            continue;
        }
        calls += 1;
        let (args, ret) = match tail.rfind(" = ") {
            Some(at) => (&tail[..at], &tail[at + 3..]),
            None => (tail, "?"),
        };
        *cx.obs.labels.entry(format!("call {name}").into()).or_default() += 1;
        let path = (stage == 1).then_some(files[k].0.as_str());
        let bad = if pid != main { Some("runs on another thread".to_string()) } else { judge(name, args, ret, path, &mut fds, stage == 2) };
        if let Some(why) = bad {
            let how = ["", "path", "open file", "bytes", "memory reader"][stage];
            cx.fail(format!("{how}:{name}:{why}"), format!("detection from a {how}: {name} {why}"), format!("{} ({}): {}", files[k].0, files[k].1, l.chars().take(300).collect::<String>()));
        }
    }
    cx.sample(|| format!("{} inputs, {} trace lines, first: {} -> {}", files.len(), text.lines().count(), files[0].1, verdicts[0]));
}

pub fn c27(p: &Params) -> Vec<Workload> {
    let n = |q, t| if p.thorough { t } else { q };
    vec![
        wl("files", n(240, 3000), |cx| {
            let mut r = cx.rng();
            let d = format!("{}/c27d-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir(&d).unwrap();
            let mut files = Vec::new();
            for i in 0..64 {
                let (kind, b): (&'static str, Vec<u8>) = match r.below(8) {
                    0 => ("empty or tiny", {
                        let n = r.idx(4);
                        r.bytes(n)
                    }),
                    1 => ("mutant", mutant(&mut r, 60_000)),
                    2 => ("text", textish(&mut r)),
                    3 => match signature_case(&mut r).src.materialize(60_000) {
                        Some(b) => ("signature", b),
                        None => continue,
                    },
                    _ => ("structure", any_small(&mut r, if i % 16 == 0 { 400_000 } else { 60_000 }).1),
                };
                let name = *r.pick(&["a", "b.zip", "c.txt", "d.pdf", "e.exe", "f.xml", "g.mp4"]);
                let f = format!("{d}/{i}-{name}");
                std::fs::write(&f, &b).unwrap();
                cx.nontrivial(hash(&b));
                
                files.push((f, kind));
            }
            trace(cx, files);
            let _ = std::fs::remove_dir_all(&d);
        }),
        wl("failing paths", n(16, 100), |cx| {
            let d = format!("{}/c27f-{}", cx.p.scratch, cx.idx);
            std::fs::create_dir_all(format!("{d}/sub")).unwrap();
            let _ = std::os::unix::fs::symlink(format!("{d}/gone"), format!("{d}/dangling"));
            let _ = std::os::unix::fs::symlink(format!("{d}/loop"), format!("{d}/loop"));
            let files: Vec<_> = ["missing", "missing.zip", "sub", "sub/missing", "dangling", "loop"].iter().map(|x| (format!("{d}/{x}"), "cannot be read")).collect();
            for f in &files {
                cx.nontrivial(hash(f.0.as_bytes()));
            }
            trace(cx, files);
            let _ = std::fs::remove_dir_all(&d);
        }),
    ]
}

"""Turns the definitions of tools/seeds/*.py into /verif/seeded/<id>/ (patch.diff, demo.sh, main.rs, meta.json)."""
import glob, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}

DEMO_SH = r'''#!/bin/bash
# Runs the demonstration beside this file against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_TARGET_DIR RUSTFLAGS
t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" "$t/scratch"
cp "$here/main.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"

[dependencies]
file-format = { path = "$repo", default-features = false, features = [@FEATURES@] }

[profile.release]
overflow-checks = false

[workspace]
EOF
cd "$t" || exit 99
cargo build --offline --quiet @PROFILE@ --target-dir "$t/target" || { echo "does not build"; exit 3; }
timeout 120 "$t/target/@DIR@/demo" "$t/scratch"
'''

COMMON = r'''#![allow(dead_code, unused_imports)]
use file_format::FileFormat;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};

fn expect(what: &str, got: FileFormat, want: FileFormat) {
    if got != want {
        eprintln!("{what}: {got:?} instead of {want:?}");
        std::process::exit(1);
    }
}

/// A source of the given length that is zero except for some pieces.
struct Sparse {
    len: u64,
    pieces: Vec<(u64, Vec<u8>)>,
    pos: u64,
}

impl Sparse {
    fn new(len: u64, pieces: Vec<(u64, Vec<u8>)>) -> Self {
        Sparse { len, pieces, pos: 0 }
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = std::cmp::min(buf.len() as u64, self.len.saturating_sub(self.pos)) as usize;
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = 0;
            let at = self.pos + i as u64;
            for (o, p) in &self.pieces {
                if at >= *o && at < *o + p.len() as u64 {
                    *b = p[(at - *o) as usize];
                }
            }
        }
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(d) => self.len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

fn le16(n: usize) -> Vec<u8> { (n as u16).to_le_bytes().to_vec() }
fn le32(n: usize) -> Vec<u8> { (n as u32).to_le_bytes().to_vec() }
fn le64(n: u64) -> Vec<u8> { n.to_le_bytes().to_vec() }
fn be32(n: usize) -> Vec<u8> { (n as u32).to_be_bytes().to_vec() }

/// One entry of an archive: name, stored data, extra fields (local, central), comment.
#[derive(Clone, Default)]
struct Entry { name: String, data: Vec<u8>, local: Vec<u8>, central: Vec<u8>, comment: Vec<u8> }

fn entry(name: &str) -> Entry { Entry { name: name.into(), ..Default::default() } }

fn extra(n: usize) -> Vec<u8> {
    // One extra field of an unknown kind, n bytes in all.
    let mut v = vec![0xFE, 0xCA];
    v.extend(le16(n - 4));
    v.resize(n, 0x20);
    v
}

fn local(e: &Entry) -> Vec<u8> {
    let mut v = b"PK\x03\x04".to_vec();
    v.extend([20, 0, 0, 0, 0, 0, 0, 0, 0x21, 0, 0, 0, 0, 0]);
    v.extend(le32(e.data.len()));
    v.extend(le32(e.data.len()));
    v.extend(le16(e.name.len()));
    v.extend(le16(e.local.len()));
    v.extend(e.name.as_bytes());
    v.extend(&e.local);
    v.extend(&e.data);
    v
}

fn central(e: &Entry, offset: usize) -> Vec<u8> {
    let mut v = b"PK\x01\x02".to_vec();
    v.extend([20, 0, 20, 0, 0, 0, 0, 0, 0, 0, 0x21, 0, 0, 0, 0, 0]);
    v.extend(le32(e.data.len()));
    v.extend(le32(e.data.len()));
    v.extend(le16(e.name.len()));
    v.extend(le16(e.central.len()));
    v.extend(le16(e.comment.len()));
    v.extend([0; 8]);
    v.extend(le32(offset));
    v.extend(e.name.as_bytes());
    v.extend(&e.central);
    v.extend(&e.comment);
    v
}

fn eocd(n: usize, size: usize, at: usize, comment: &[u8]) -> Vec<u8> {
    let mut v = b"PK\x05\x06\0\0\0\0".to_vec();
    v.extend(le16(n));
    v.extend(le16(n));
    v.extend(le32(size));
    v.extend(le32(at));
    v.extend(le16(comment.len()));
    v.extend(comment);
    v
}

fn zip(entries: &[Entry], comment: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    let mut cd = Vec::new();
    for e in entries {
        cd.extend(central(e, v.len()));
        v.extend(local(e));
    }
    let at = v.len();
    v.extend(&cd);
    v.extend(eocd(entries.len(), cd.len(), at, comment));
    v
}

fn ebml(id: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = id.to_vec();
    v.push(0x08);
    v.extend((data.len() as u32).to_be_bytes());
    v.extend(data);
    v
}

fn mbox(kind: &[u8], data: &[u8]) -> Vec<u8> {
    let mut v = be32(data.len() + 8);
    v.extend(kind);
    v.extend(data);
    v
}

fn track(handler: &[u8]) -> Vec<u8> {
    let mut h = vec![0; 8];
    h.extend(handler);
    h.extend([0; 13]);
    mbox(b"trak", &mbox(b"mdia", &mbox(b"hdlr", &h)))
}

fn guid(s: &str) -> Vec<u8> {
    let h: Vec<u8> = s.replace('-', "").as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().map(|&i| h[i]).collect()
}

fn object(g: &str, data: &[u8]) -> Vec<u8> {
    let mut v = guid(g);
    v.extend(le64(data.len() as u64 + 24));
    v.extend(data);
    v
}

fn asf(objects: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"\x30\x26\xB2\x75\x8E\x66\xCF\x11\xA6\xD9\x00\xAA\x00\x62\xCE\x6C".to_vec();
    v.extend(le64(30 + objects.iter().map(|o| o.len() as u64).sum::<u64>()));
    v.extend(le32(objects.len()));
    v.extend([1, 2]);
    for o in objects { v.extend(o); }
    v
}

fn asf_stream(kind: &str) -> Vec<u8> {
    let mut d = guid(kind);
    d.extend([0; 54]);
    object("b7dc0791-a9b7-11cf-8ee6-00c00c205365", &d)
}

fn descriptors(ds: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut d = le16(ds.len());
    for (n, v) in ds {
        d.extend(le16(n.len()));
        d.extend(n);
        d.extend([1, 0]);
        d.extend(le16(v.len()));
        d.extend(v);
    }
    object("d2d0a440-e307-11d2-97f0-00a0c95ea850", &d)
}

fn wide(s: &str) -> Vec<u8> { s.encode_utf16().chain([0]).flat_map(|c| c.to_le_bytes()).collect() }

fn rm_chunk(kind: &[u8], body: &[u8]) -> Vec<u8> {
    let mut v = kind.to_vec();
    v.extend(be32(body.len() + 8));
    v.extend(body);
    v
}

fn rm(chunks: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b".RMF\0\0\0\x12\0\0\0\0\0\0".to_vec();
    v.extend(be32(chunks.len() + 1));
    for c in chunks { v.extend(c); }
    v
}

fn mdpr(name: &[u8], mime: &[u8]) -> Vec<u8> {
    let mut b = vec![0; 32];
    b.push(name.len() as u8);
    b.extend(name);
    b.push(mime.len() as u8);
    b.extend(mime);
    b.extend([0; 4]);
    rm_chunk(b"MDPR", &b)
}

fn cfb(pieces: Vec<(u64, Vec<u8>)>, version: u16, sector: u32) -> Sparse {
    let size: u64 = if version == 3 { 512 } else { 4096 };
    let mut head = vec![0u8; 512];
    head[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    head[24] = 0x3E;
    head[26] = version as u8;
    head[28] = 0xFE;
    head[29] = 0xFF;
    head[48..52].copy_from_slice(&sector.to_le_bytes());
    let dir = size * (1 + sector as u64);
    let mut p = vec![(0, head)];
    p.extend(pieces.into_iter().map(|(o, b)| (dir + o, b)));
    Sparse::new(dir + size * 2, p)
}

fn exe(at: u32, len: usize) -> Vec<u8> {
    let mut v = vec![0u8; len];
    v[..2].copy_from_slice(b"MZ");
    v[60..64].copy_from_slice(&at.to_le_bytes());
    v
}

fn id3(size: usize, flags: u8) -> Vec<u8> {
    let mut v = b"ID3\x04\0".to_vec();
    v.push(flags);
    for s in [21, 14, 7, 0] { v.push((size >> s & 0x7F) as u8); }
    v
}
'''


def seed(id, prop, old, new, needs, breaks, demo, file="src/readers.rs", features=("reader",), release=False, more=(), sh=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo, features=features, release=release, sh=sh)


def build(id, d):
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
        subprocess.check_call("git -C /repo archive HEAD src Cargo.toml | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (t, t), shell=True)
        for f, old, new in d["edits"]:
            p = os.path.join(t, f)
            s = open(p).read()
            if s.count(old) != 1:
                raise SystemExit("%s: %d matches of %r in %s" % (id, s.count(old), old, f))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    finally:
        shutil.rmtree(t)
    out = os.path.join(VERIF, "seeded", id)
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    feats = ", ".join('"%s"' % f for f in d["features"])
    sh = d["sh"] or DEMO_SH.replace("@FEATURES@", feats).replace("@PROFILE@", "--release" if d["release"] else "").replace("@DIR@", "release" if d["release"] else "debug")
    open(os.path.join(out, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    open(os.path.join(out, "main.rs"), "w").write(COMMON + "\n" + d["demo"].strip() + "\n")
    json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)


def load():
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/seeds/*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed, "DEMO_SH": DEMO_SH})


if __name__ == "__main__":
    load()
    for id, d in SEEDS.items():
        if len(sys.argv) < 2 or id in sys.argv[1:]:
            build(id, d)
    print(len(SEEDS), "seeds")

#!/usr/bin/env python3
"""Writes harness/src/spec_gen.rs: the frozen specification (signatures, metadata, reader families)
that the oracles use. Run once against the pristine tree; the result is committed and never
regenerated by a check, so that a change to the tables of /repo is seen as a difference."""
import re, ast, sys
repo = sys.argv[1] if len(sys.argv) > 1 else "/repo"
s = open(f"{repo}/src/signatures.rs").read()
T = []
for l in s.splitlines():
    l = l.strip()
    m = re.match(r'format = (\w+)', l)
    if m: T.append((m[1], [])); continue
    m = re.match(r'value\s*=\s*(.*)$', l)
    if m:
        parts = []
        for mm in re.finditer(r'b"((?:[^"\\]|\\.)*)"(?: offset = (\d+))?', m[1]):
            b = ast.literal_eval('b"' + re.sub(r'\\0', r'\\x00', mm[1]) + '"')
            parts.append((int(mm[2] or 0), b))
        T[-1][1].append(parts)
F = []
for blk in re.split(r'\n\s*format = ', open(f"{repo}/src/formats.rs").read())[1:]:
    g = lambda k: (re.search(r'^\s*' + k + r' = "?([^"\n]*)"?', blk, re.M) or [None, None])[1]
    F.append((blk.split()[0], g('name'), g('short_name'), g('media_type'), g('extension'), g('kind')))
fam = {}; cur = None
for l in open(f"{repo}/src/lib.rs"):
    m = re.match(r'- `(reader[-\w]*)`', l)
    if m: cur = m[1]
    m = re.match(r'  \* \[(.*?)\]\(`FileFormat::(\w+)`\)', l)
    if m: fam.setdefault(cur, []).append(m[2])
BASE = {"reader-asf": "AdvancedSystemsFormat", "reader-cfb": "CompoundFileBinary", "reader-ebml": "ExtensibleBinaryMetaLanguage",
        "reader-exe": "MsDosExecutable", "reader-id3v2": "Id3v2", "reader-mp4": "Mpeg4Part14", "reader-pdf": "PortableDocumentFormat",
        "reader-rm": "Realmedia", "reader-sqlite3": "Sqlite3", "reader-xml": "ExtensibleMarkupLanguage", "reader-zip": "Zip"}
q = lambda t: '"' + t.replace('\\', '\\\\').replace('"', '\\"') + '"'
bs = lambda b: 'b"' + ''.join('\\x%02X' % c if c < 32 or c > 126 else {'"': '\\"', '\\': '\\\\'}.get(chr(c), chr(c)) for c in b) + '"'
o = ["// Generated by tools/gen_spec.py from the pristine tree; frozen.", "use file_format::FileFormat as F;", "use file_format::Kind as K;", "",
     "pub type Alt = &'static [(usize, &'static [u8])];",
     "pub static SIGS: &[(F, &[Alt])] = &["]
for f, vals in T:
    o.append(f"    (F::{f}, &[" + ", ".join("&[" + ", ".join(f"({off}, {bs(b)})" for off, b in v) + "]" for v in vals) + "]),")
o += ["];", "", "/// (format, variant, name, short name, media type, extension, kind)",
      "pub static FORMATS: &[(F, &str, &str, Option<&str>, &str, &str, K)] = &["]
for v, n, sh, mt, ex, k in F:
    o.append(f"    (F::{v}, {q(v)}, {q(n)}, {'Some(' + q(sh) + ')' if sh else 'None'}, {q(mt)}, {q(ex)}, K::{k}),")
o += ["];", "", "/// (base format, feature, formats documented as detected by that reader)",
      "pub static FAMILIES: &[(F, &str, &[F])] = &["]
for k, b in BASE.items():
    o.append(f"    (F::{b}, {q(k)}, &[" + ", ".join("F::" + v for v in fam[k]) + "]),")
o.append("];")
open("/verif/harness/src/spec_gen.rs", "w").write("\n".join(o) + "\n")
print(len(T), sum(len(v) for _, v in T), len(F), {k: len(v) for k, v in fam.items()})

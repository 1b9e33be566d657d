
# Demonstrations that need another platform run in the interpreter.
MIRI_SH = DEMO_SH[:DEMO_SH.index("cargo build")].replace("@FEATURES@", '"reader"') + """export RUSTUP_TOOLCHAIN=nightly XDG_CACHE_HOME="$t/cache" MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-validation -Zmiri-disable-stacked-borrows"
cargo miri run --offline --quiet --target @TARGET@ --target-dir "$t/target" 2>"$t/err"
code=$?
tail -5 "$t/err"
exit $code
"""
NARROW = MIRI_SH.replace("@TARGET@", "i686-unknown-linux-gnu")
BIG = MIRI_SH.replace("@TARGET@", "s390x-unknown-linux-gnu")

seed("narrow-zip-offset", "C28", "let socd_offset = reader.read_u64_le()?;", "let socd_offset = reader.read_u64_le()? as usize as u64;",
     "a ZIP64 archive whose central directory starts past 4 GiB, on a 32-bit target", "The directory is read at a wrong place",
     r"""
fn main() {
    for at in [100_000u64, 5 << 30] {
        let e = entry("ppt/presentation.xml");
        let cd = central(&e, 0);
        let mut tail = cd.clone();
        let record = at + cd.len() as u64;
        tail.extend(b"PK\x06\x06");
        tail.extend(le64(44));
        tail.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        tail.extend(le64(1));
        tail.extend(le64(1));
        tail.extend(le64(cd.len() as u64));
        tail.extend(le64(at));
        tail.extend(b"PK\x06\x07\0\0\0\0");
        tail.extend(le64(record));
        tail.extend([1, 0, 0, 0]);
        tail.extend(b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\0\0");
        let len = at + tail.len() as u64;
        let s = Sparse::new(len, vec![(0, b"PK\x03\x04".to_vec()), (at, tail)]);
        expect("zip64", FileFormat::from_reader(s).unwrap(), FileFormat::OfficeOpenXmlPresentation);
    }
}""", sh=NARROW)

seed("narrow-ebml-skip", "C28", """                    // Seeks to the next element.
                    reader.seek(SeekFrom::Current(size as i64))?;""", """                    // Seeks to the next element.
                    reader.seek(SeekFrom::Current(size as isize as i64))?;""",
     "a Matroska file with an element of 2 GiB or more before its tracks, on a 32-bit target", "The walk loses its place",
     r"""
fn main() {
    for n in [1000u64, 5 << 30] {
        let mut head = b"\x1A\x45\xDF\xA3\x8B\x42\x82\x88matroska\x18\x53\x80\x67\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF".to_vec();
        head.extend([0xEC, 0x01]);
        head.extend(&n.to_be_bytes()[1..]);
        let at = head.len() as u64 + n;
        let mut tail = b"\x16\x54\xAE\x6B\x8A\xAE\x88\x86\x86V_TEST".to_vec();
        tail.resize(200, 0xEC);
        let s = Sparse::new(at + 200, vec![(0, head), (at, tail)]);
        expect("matroska", FileFormat::from_reader(s).unwrap(), FileFormat::MatroskaVideo);
    }
}""", sh=NARROW)

seed("narrow-cfb-offset", "C28", "reader.seek(SeekFrom::Start(offset))?;\n\n        // Reads the CLSID.", "let offset = offset as usize;\n        reader.seek(SeekFrom::Start(offset as u64))?;\n\n        // Reads the CLSID.",
     "a compound file whose directory lies past 4 GiB, on a 32-bit target", "The root entry is looked up at a wrong place",
     r"""
fn main() {
    for (v, s) in [(3u16, 1u32), (4, 0x0010_0000)] {
        let c = guid("00020906-0000-0000-c000-000000000046");
        expect(&format!("sector {s}"), FileFormat::from_reader(cfb(vec![(80, c)], v, s)).unwrap(), FileFormat::MicrosoftWordDocument);
    }
}""", sh=NARROW)

seed("big-u32-le", "C28", "Ok(u32::from_le_bytes(buf))", "// The formats are little endian.\n        Ok(u32::from_ne_bytes(buf))",
     "a big-endian target", "Little-endian fields are read in the wrong order",
     r"""
fn main() {
    let mut v = exe(128, 300);
    v[128..132].copy_from_slice(b"PE\0\0");
    expect("pe", FileFormat::from_bytes(&v), FileFormat::PortableExecutable);
}""", sh=BIG)

seed("big-u64-be", "C28", "Ok(u64::from_be_bytes(buf))", "Ok(u64::from_ne_bytes(buf).swap_bytes())",
     "an MP4 file with a box of extended size, on a big-endian target", "Extended sizes are read in the wrong order",
     r"""
fn main() {
    let mut v = b"\0\0\0\x10ftypisom\0\0\x02\0".to_vec();
    v.extend(b"\0\0\0\x01free\0\0\0\0\0\0\0\x20");
    v.resize(v.len() + 16, 0);
    v.extend(mbox(b"moov", &track(b"soun")));
    v.extend([0; 40]);
    expect("audio", FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Audio);
}""", sh=BIG)

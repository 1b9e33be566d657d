seed("head-cache", "C07", "    pub fn from_reader<R: Read + Seek>(mut reader: R) -> Result<Self> {", '''    pub fn from_reader<R: Read + Seek>(reader: R) -> Result<Self> {
        std::thread_local!(static LAST: std::cell::RefCell<(Vec<u8>, FileFormat)> = const { std::cell::RefCell::new((Vec::new(), FileFormat::Empty)) });
        let mut reader = reader;''',
     "two different inputs with the same leading bytes, one straight after the other, on one thread", "The verdict of the previous input is given again",
     r'''
fn main() {
    let mut a = b"%PDF-1.4\n".to_vec();
    a.resize(50_000, b' ');
    let mut b = a.clone();
    b[45_000..45_013].copy_from_slice(b"AIPrivateData");
    expect("without", FileFormat::from_bytes(&a), FileFormat::PortableDocumentFormat);
    expect("with", FileFormat::from_bytes(&b), FileFormat::AdobeIllustratorArtwork);
    expect("without, again", FileFormat::from_bytes(&a), FileFormat::PortableDocumentFormat);
}''', file="src/lib.rs", more=[("src/lib.rs", "        // Determines file format.\n        Ok(if nread == 0 {", '''        if let Some(fmt) = LAST.with(|last| last.borrow().0.eq(&buf[..nread]).then(|| last.borrow().1)) {
            return Ok(fmt);
        }

        // Determines file format.
        let fmt = if nread == 0 {'''), ("src/lib.rs", "            Self::from_generic_reader(&mut reader)\n        })\n    }\n}\n\nimpl Default", "            Self::from_generic_reader(&mut reader)\n        };\n        LAST.with(|last| *last.borrow_mut() = (buf[..nread].to_vec(), fmt));\n        Ok(fmt)\n    }\n}\n\nimpl Default")])

seed("mp4-seek-ignored", "C08", "                    reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)))?;\n                }\n            }\n\n            // Increments the box count.", "                    let _ = reader.seek(SeekFrom::Current((size as i64).saturating_sub(8)));\n                }\n            }\n\n            // Increments the box count.",
     "a seek that fails while a box is skipped whose payload looks like boxes", "An I/O error turns into another specific format",
     r'''
/// Its n-th seek fails.
struct Failing { inner: Cursor<Vec<u8>>, left: i32 }
impl Read for Failing { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.inner.read(b) } }
impl Seek for Failing {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.left -= 1;
        if self.left == 0 { return Err(io::Error::other("broken")); }
        self.inner.seek(p)
    }
}
fn main() {
    let mut v = mbox(b"ftyp", b"mp42\0\0\0\0isom");
    let mut junk = track(b"vide");
    junk.extend(mbox(b"free", &vec![0; 20_000]));
    v.extend(mbox(b"mdat", &junk));
    v.extend(mbox(b"moov", &track(b"soun")));
    expect("sound", FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Audio);
    for n in 1..40 {
        match FileFormat::from_reader(Failing { inner: Cursor::new(v.clone()), left: n }) {
            Ok(FileFormat::Mpeg4Part14Audio | FileFormat::ArbitraryBinaryData) | Err(_) => {}
            Ok(f) => { eprintln!("{f:?} when seek {n} fails"); std::process::exit(1) }
        }
    }
}''')

seed("gzip-trailer", "C24", "            _ => fmt,\n        })", '''            Self::Gzip => {
                let mut reader = reader;
                let len = reader.seek(SeekFrom::End(0))?;
                reader.seek(SeekFrom::Start(len.saturating_sub(4)))?;
                if len > 65_536 && reader.read_u32_le()? == u32::MAX {
                    Self::default()
                } else {
                    fmt
                }
            }
            _ => fmt,
        })''',
     "a gzip file of more than 64 KiB that ends with four 0xFF bytes", "The verdict depends on the end of the input",
     r'''
fn main() {
    let mut v = vec![0u8; 70_000];
    v[..3].copy_from_slice(b"\x1F\x8B\x08");
    expect("zero trailer", FileFormat::from_bytes(&v), FileFormat::Gzip);
    v[69_990..].fill(0xFF);
    expect("other trailer", FileFormat::from_bytes(&v), FileFormat::Gzip);
}''')

seed("txt-needs-zip", "C09", '        #[cfg(feature = "reader-txt")]\n        {', '        #[cfg(all(feature = "reader-txt", feature = "reader-zip"))]\n        {',
     "the text reader without the ZIP reader", "Enabling the ZIP reader changes the verdict of text",
     r'''
fn main() {
    let mut v = b"PK\x03\x04".to_vec();
    v.resize(100, 1);
    println!("{:?}", FileFormat::from_bytes(&v));
    expect("text", FileFormat::from_bytes(b"hello\n"), FileFormat::PlainText);
}''', features=("reader-txt",), more=[("src/readers.rs", '        #[cfg(not(feature = "reader-txt"))]\n        {\n            Self::default()', '        #[cfg(not(all(feature = "reader-txt", feature = "reader-zip")))]\n        {\n            Self::default()')])

seed("mp4-no-limit", "C02", "while box_count < BOX_LIMIT && reader.stream_position()? < len {", "while box_count / BOX_LIMIT < BOX_LIMIT && reader.stream_position()? < len {",
     "a file of very many small boxes", "The number of reads is not limited to what 256 boxes need",
     r'''
struct Counting { inner: Cursor<Vec<u8>>, bytes: usize, ops: usize }
impl Read for Counting { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = self.inner.read(b)?; self.bytes += n; self.ops += 1; Ok(n) } }
impl Seek for Counting { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.ops += 1; self.inner.seek(p) } }
fn main() {
    // Skipping each box drops the read buffer: 8 KiB are read again for every box.
    let mut v = mbox(b"ftyp", b"mp42\0\0\0\0isom");
    for _ in 0..70_000 { v.extend(mbox(b"free", &[0; 24])); }
    let mut c = Counting { inner: Cursor::new(v), bytes: 0, ops: 0 };
    let f = FileFormat::from_reader(&mut c).unwrap();
    expect("boxes", f, FileFormat::Mpeg4Part14);
    eprintln!("{} bytes, {} operations", c.bytes, c.ops);
    if c.bytes > 512 << 20 || c.ops > 200_000 { std::process::exit(1); }
}''')


seed("txt-del-allowed", "C22", ".any(|char| char.is_control() && !char.is_whitespace())", ".any(|char| char.is_ascii_control() && !char.is_ascii_whitespace())",
     "a vertical tab, a next line character or another C1 control character", "Text verdicts are wrong for some control characters",
     r'''
fn main() {
    expect("vertical tab", FileFormat::from_bytes("a\u{0B}b\n"), FileFormat::PlainText);
    expect("C1 control", FileFormat::from_bytes("a\u{9F}b\n"), FileFormat::ArbitraryBinaryData);
}''')

seed("file-append", "C25", "Self::from_reader(File::open(path)?)", "Self::from_reader(File::options().read(true).append(true).open(path)?)",
     "a file that may not be written", "Files that are read-only to the user are refused",
     r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let p = format!("{d}/running");
    // The running program itself may be read but not written by anyone, the superuser included.
    let me = std::env::current_exe().unwrap();
    let _ = p;
    match FileFormat::from_file(&me) {
        Ok(f) => expect("program", f, FileFormat::ExecutableAndLinkableFormat),
        Err(e) => { eprintln!("{e}"); std::process::exit(1) }
    }
}''', file="src/lib.rs")

seed("generic-unwrap", "C01", "Self::from_txt_reader(reader).unwrap_or_default()", "match Self::from_txt_reader(reader) {\n                Ok(fmt) => fmt,\n                Err(err) if err.kind() == ErrorKind::InvalidData => Self::default(),\n                Err(err) => unreachable!(\"{err}\"),\n            }",
     "a source that fails when it is read again", "An I/O error behind the head panics",
     r'''
struct Once(Cursor<Vec<u8>>);
impl Read for Once { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.0.read(b) } }
impl Seek for Once { fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { Err(io::ErrorKind::Unsupported.into()) } }
fn main() {
    let r = std::panic::catch_unwind(|| FileFormat::from_reader(Once(Cursor::new(b"hello".to_vec()))).unwrap());
    match r { Ok(f) => expect("pipe", f, FileFormat::ArbitraryBinaryData), Err(_) => std::process::exit(1) }
}''')

seed("reader-relative-start", "C06", "        reader.seek(SeekFrom::Start(5))?;\n\n        // Creates and fills a buffer.", "        reader.seek(SeekFrom::Current(5 - 36_870))?;\n\n        // Creates and fills a buffer.",
     "", "", "") if False else None

seed("id3-flac-first", "C18", "        if buf.eq(b\"fLaC\") {", "        if buf.starts_with(b\"fLaC\") && reader.read_u8()? == 0 {",
     "a FLAC stream whose STREAMINFO block is flagged as the last metadata block", "FLAC behind an ID3v2 tag is not identified",
     r'''
fn main() {
    for flag in [0u8, 0x80] {
        let mut v = id3(300, 0);
        v.resize(310, 0);
        v.extend(b"fLaC");
        v.push(flag);
        v.resize(1000, 0);
        expect(&format!("{flag:#x}"), FileFormat::from_bytes(&v), FileFormat::FreeLosslessAudioCodec);
    }
}''')


seed("debug-message", "C27", "                        _ => Self::Zip,\n", '                        other => {\n                            eprintln!("unknown mimetype: {other}");\n                            Self::Zip\n                        }\n',
     "a stored mimetype entry that names no documented format", "The library writes to the standard error stream of its user",
     """
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut m = entry("mimetype");
    m.data = b"application/x-unknown".to_vec();
    let v = zip(&[m], b"");
    if a.get(2).is_some() {
        expect("zip", FileFormat::from_bytes(&v), FileFormat::Zip);
        return;
    }
    let o = std::process::Command::new(std::env::current_exe().unwrap()).args([&a[1], "child"]).output().unwrap();
    eprintln!("{o:?}");
    if !o.status.success() || !o.stderr.is_empty() || !o.stdout.is_empty() { std::process::exit(1); }
}""")

seed("sibling-fallback", "C27", "Self::from_reader(File::open(path)?)", 'let path = path.as_ref();\n        Self::from_reader(File::open(path).or_else(|err| File::open(path.with_extension("part")).map_err(|_| err))?)',
     "a missing path next to a file of the same name with the extension part", "Another file than the one named is opened",
     """
fn main() {
    let d = std::env::args().nth(1).unwrap();
    std::fs::write(format!("{d}/a.part"), b"GIF89a").unwrap();
    if FileFormat::from_file(format!("{d}/a.gif")).is_ok() { std::process::exit(1); }
}""", file="src/lib.rs")


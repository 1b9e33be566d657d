seed("sig-ignore-case", "C03", "&bytes[$($offset)?..$($offset +)? $value.len()] == $value)&&*)||* {",
     "bytes[$($offset)?..$($offset +)? $value.len()].eq_ignore_ascii_case($value))&&*)||* {",
     "an input that differs from a signature in the case of a letter only", "Inputs without a signature are recognised by it",
     r'''
fn main() {
    expect("upper", FileFormat::from_bytes(b"BEGIN:VCARD\r\nVERSION:4.0\r\n"), FileFormat::Vcard);
    expect("lower", FileFormat::from_bytes(b"riff1234wave\0\0\0\0"), FileFormat::ArbitraryBinaryData);
}''', file="src/macros.rs")

seed("iso-below-exe", "C04", '''    format = Iso9660
    value = b"CD001" offset = 32769
    value = b"CD001" offset = 34817
    value = b"CD001" offset = 36865

''', "", "a disc image that starts with executable code, so that it can be booted", "The shorter signature wins",
     r'''
fn main() {
    let mut v = vec![0u8; 40_000];
    v[32769..32774].copy_from_slice(b"CD001");
    expect("disc", FileFormat::from_bytes(&v), FileFormat::Iso9660);
    v[..2].copy_from_slice(b"MZ");
    expect("bootable disc", FileFormat::from_bytes(&v), FileFormat::Iso9660);
}''', file="src/signatures.rs", more=[("src/signatures.rs", '''    format = Postscript
    value = b"%!"
''', '''    format = Iso9660
    value = b"CD001" offset = 32769
    value = b"CD001" offset = 34817
    value = b"CD001" offset = 36865

    format = Postscript
    value = b"%!"
''')])

seed("head-in-two-steps", "C04", "} else if let Some(fmt) = Self::from_signature(&buf[..nread]) {",
     "} else if let Some(fmt) = Self::from_signature(&buf[..std::cmp::min(nread, 4096)])\n            .or_else(|| Self::from_signature(&buf[..nread]))\n        {",
     "an input with a short signature at its start and a longer one far behind", "The shorter signature wins",
     r'''
fn main() {
    let mut v = vec![0u8; 40_000];
    v[32769..32774].copy_from_slice(b"CD001");
    v[..2].copy_from_slice(b"\x01\xDA");
    expect("disc", FileFormat::from_bytes(&v), FileFormat::Iso9660);
}''', file="src/lib.rs")

seed("sketch-pages", "C20", '''        let mut buf = [0; 32_768];
        let nread = reader.read_up_to(&mut buf)?;

        // Checks if the buffer holds the Sketch file format marker.
        if buf[..nread].holds(SKETCH_MARKER) {
            return Ok(Self::Sketch);
        }
''', '''        let mut buf = [0; 4096];
        for _ in 0..8 {
            let nread = reader.read_up_to(&mut buf)?;

            // Checks if the buffer holds the Sketch file format marker.
            if buf[..nread].holds(SKETCH_MARKER) {
                return Ok(Self::Sketch);
            }
        }
''', "a marker across two of the pieces read", "Sketch files are reported as SQLite",
     r'''
fn main() {
    let mut v = vec![0u8; 40_000];
    v[..16].copy_from_slice(b"SQLite format 3\0");
    let at = 100 + 3 * 4096 - 5;
    v[at..at + 26].copy_from_slice(b"com.bohemiancoding.sketch3");
    expect("sketch", FileFormat::from_bytes(&v), FileFormat::Sketch);
}''')

seed("sqlite-one-read", "C05", '''        let mut buf = [0; 32_768];
        let nread = reader.read_up_to(&mut buf)?;
''', '''        let mut buf = [0; 32_768];
        let nread = reader.read(&mut buf)?;
''', "a Sketch database from a source that delivers fewer bytes than asked for", "The verdict depends on the size of the reads",
     r'''
struct Short(Cursor<Vec<u8>>);
impl Read for Short { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(4096); self.0.read(&mut b[..n]) } }
impl Seek for Short { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut v = vec![0u8; 40_000];
    v[..16].copy_from_slice(b"SQLite format 3\0");
    v[20_000..20_026].copy_from_slice(b"com.bohemiancoding.sketch3");
    expect("sketch", FileFormat::from_reader(Short(Cursor::new(v))).unwrap(), FileFormat::Sketch);
}''')

seed("quicktime-through-mp4", "C10", "            Self::Mpeg4Part14 => Self::from_mp4_reader(reader)?,",
     '''            Self::Mpeg4Part14 => Self::from_mp4_reader(reader)?,
            #[cfg(feature = "reader-mp4")]
            Self::AppleQuicktime => match Self::from_mp4_reader(reader)? {
                Self::Mpeg4Part14Audio => Self::Mpeg4Part14Audio,
                _ => fmt,
            },''',
     "a QuickTime file with sound tracks only", "An input of another signature is not reported as without readers",
     r'''
fn main() {
    let mut v = mbox(b"ftyp", b"qt  \0\0\0\0qt  ");
    v.extend(mbox(b"moov", &track(b"soun")));
    expect("quicktime", FileFormat::from_bytes(&v), FileFormat::AppleQuicktime);
}''')

seed("rm-exact-mime", "C16", '} else if mime_type.starts_with(b"video/") {', '} else if mime_type.eq(b"video/x-pn-realvideo") {',
     "a video stream of another kind than RealVideo", "Video files are reported as RealMedia or RealAudio",
     r'''
fn main() {
    let v = rm(&[mdpr(b"Audio", b"audio/x-pn-realaudio"), mdpr(b"Video", b"video/x-pn-realvideo-encrypted")]);
    expect("video", FileFormat::from_bytes(&v), FileFormat::Realvideo);
}''')

seed("exe-lx-order", "C17", "&signature[..2] == b\"LE\" || &signature[..2] == b\"LX\"", "&signature[..2] == b\"LE\" || &signature[..3] == b\"LX\\0\"",
     "a linear executable whose header says that its bytes are stored big end first", "A linear executable is reported as a DOS program",
     r'''
fn main() {
    for order in [0u8, 1] {
        let mut v = exe(128, 300);
        v[128..131].copy_from_slice(&[b'L', b'X', order]);
        expect("lx", FileFormat::from_bytes(&v), FileFormat::LinearExecutable);
    }
}''')

seed("txt-lossy", "C22", ".any(|char| char.is_control() && !char.is_whitespace())", ".any(|char| char.is_control() && !char.is_whitespace() && char != '\\u{8}')",
     "a text with a backspace, as man pages have", "A text with a control character is reported as plain text",
     r'''
fn main() {
    expect("backspace", FileFormat::from_bytes("N\u{8}NAME\n"), FileFormat::ArbitraryBinaryData);
}''')

seed("head-error-is-end", "C08", "Err(err) => return Err(err),", "Err(err) if nread == 0 => return Err(err),\n                Err(_) => break,",
     "an I/O error after some bytes have been read", "An error while the head is read turns into a wrong format",
     r'''
struct Broken(u32);
impl Read for Broken {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0 += 1;
        if self.0 > 1 { return Err(io::Error::other("broken")); }
        b[..4].copy_from_slice(b"RIFF");
        Ok(4)
    }
}
impl Seek for Broken { fn seek(&mut self, _: SeekFrom) -> io::Result<u64> { Err(io::Error::other("broken")) } }
fn main() {
    if let Ok(f) = FileFormat::from_reader(Broken(0)) { eprintln!("{f:?} instead of an error"); std::process::exit(1); }
}''')

seed("id3-tag-limit", "C18", "const TAG_LIMIT: usize = 256;", "const TAG_LIMIT: usize = 16;",
     "", "", "") if False else None
seed("id3-eight-tags", "C18", "for _ in 0..TAG_LIMIT {", "for _ in 0..TAG_LIMIT / 32 {",
     "more than eight consecutive tags", "Audio behind many tags is not identified",
     r'''
fn main() {
    for n in [1, 8, 9, 16] {
        let mut v = Vec::new();
        for _ in 0..n { v.extend(id3(20, 0)); v.extend([0; 20]); }
        v.extend(b"\xFF\xFB\x90\0");
        v.resize(v.len() + 100, 0);
        expect("mp3", FileFormat::from_bytes(&v), FileFormat::Mpeg12AudioLayer3);
    }
}''')

seed("xml-rss-attribute", "C21", 'buf.holds("<rss")', 'buf.holds("<rss ")',
     "a root element whose name is followed by a line break", "A feed is reported as XML",
     r'''
fn main() {
    expect("rss", FileFormat::from_bytes(b"<?xml version=\"1.0\"?>\n<rss\n  version=\"2.0\">\n</rss>\n"), FileFormat::ReallySimpleSyndication);
}''')

seed("asf-descriptor-limit", "C14", "for _ in 0..std::cmp::min(DESCRIPTOR_LIMIT, count as usize) {", "for _ in 1..std::cmp::min(DESCRIPTOR_LIMIT, count as usize + 1) {",
     "a characteristic descriptor that is the 32nd of its object", "A recording is reported as WMV",
     r'''
fn main() {
    for at in [0usize, 10, 30, 31] {
        let mut d: Vec<_> = (0..40).map(|i| (wide(&format!("WM/Name{i}")), vec![0; 4])).collect();
        d[at].0 = wide("DVR File Version");
        let v = asf(&[asf_stream("bc19efc0-5b4d-11cf-a8fd-00805f5c442b"), descriptors(&d)]);
        expect("recording", FileFormat::from_bytes(&v), FileFormat::MicrosoftDigitalVideoRecording);
    }
}''')

seed("pdf-time-budget", "C07", "        while total_nread < READ_LIMIT {\n            // Reads a chunk of the stream into the buffer.", "        let start_time = std::time::Instant::now();\n        while total_nread < READ_LIMIT && start_time.elapsed().as_millis() < 1000 {\n            // Reads a chunk of the stream into the buffer.",
     "a source so slow that a detection takes more than a second", "The verdict depends on the speed of the source",
     r'''
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow { fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { std::thread::sleep(std::time::Duration::from_millis(150)); self.0.read(b) } }
impl Seek for Slow { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let mut v = b"%PDF-1.4\n".to_vec();
    v.resize(500_000, b' ');
    v.extend(b"AIPrivateData");
    expect("artwork", FileFormat::from_bytes(&v), FileFormat::AdobeIllustratorArtwork);
    expect("artwork, slowly", FileFormat::from_reader(Slow(Cursor::new(v))).unwrap(), FileFormat::AdobeIllustratorArtwork);
}''')

seed("env-switch", "C07", "            Self::from_txt_reader(reader).unwrap_or_default()", "            if std::env::var_os(\"FILE_FORMAT_NO_TEXT\").is_some() {\n                return Self::default();\n            }\n            Self::from_txt_reader(reader).unwrap_or_default()",
     "an environment variable", "The verdict depends on more than the input",
     r'''
fn main() {
    expect("text", FileFormat::from_bytes("text\n"), FileFormat::PlainText);
    std::env::set_var("FILE_FORMAT_NO_TEXT", "1");
    expect("text", FileFormat::from_bytes("text\n"), FileFormat::PlainText);
}''')

seed("file-lock", "C27", "Self::from_reader(File::open(path)?)", "let file = File::open(path)?;\n        file.try_lock_shared()?;\n        Self::from_reader(file)",
     "a file that another process has locked", "Detection takes a lock and fails when it cannot have it",
     r'''
fn main() {
    let d = std::env::args().nth(1).unwrap();
    let p = format!("{d}/a");
    std::fs::write(&p, b"\x1F\x8B\x08abc").unwrap();
    let f = std::fs::File::open(&p).unwrap();
    f.lock().unwrap();
    match FileFormat::from_file(&p) {
        Ok(f) => expect("locked", f, FileFormat::Gzip),
        Err(e) => { eprintln!("{e}"); std::process::exit(1) }
    }
}''', file="src/lib.rs")

seed("meta-kind", "C23", "PLACEHOLDER", "", "", "", "") if False else None

seed("head-retry-limit", "C05", "Err(err) if err.kind() == ErrorKind::Interrupted => {}", "Err(err) if err.kind() == ErrorKind::Interrupted && nread == 0 => {}",
     "an interruption after some bytes have been read", "An interruption turns into an error",
     r'''
struct Shaky(Cursor<Vec<u8>>, u32);
impl Read for Shaky {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.1 += 1;
        if self.1 == 2 { return Err(io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(8);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Shaky { fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) } }
fn main() {
    let r = FileFormat::from_reader(Shaky(Cursor::new(b"\x89PNG\r\n\x1A\n12345678".to_vec()), 0));
    match r { Ok(f) => expect("png", f, FileFormat::PortableNetworkGraphics), Err(e) => { eprintln!("{e}"); std::process::exit(1) } }
}''')

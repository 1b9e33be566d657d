L = "src/lib.rs"

seed("slice-4g", "C06", "Self::from_reader(Cursor::new(value)).unwrap_or_default()",
     "Self::from_reader(Cursor::new(&value[..std::cmp::min(value.len(), u32::MAX as usize)])).unwrap_or_default()",
     "a slice longer than 4 GiB whose structure lies at its end", "Bytes and a reader over them get different verdicts",
     r'''
fn main() {
    // The pages that are not touched cost nothing.
    let mut v = vec![0u8; (4 << 30) + 4096];
    let z = zip(&[entry("word/document.xml")], b"");
    let local = z.len() - 22 - 46 - 17;
    v[..4].copy_from_slice(b"PK\x03\x04");
    let at = v.len() - (z.len() - local);
    // The directory is where it starts: at the end, below 4 GiB in the field only by wrapping, so ZIP64 says it.
    let cd = z[local..z.len() - 22].to_vec();
    let mut tail = cd.clone();
    let len = v.len();
    let start = (len - cd.len() - 56 - 20 - 22) as u64;
    tail.extend(b"PK\x06\x06");
    tail.extend(le64(44));
    tail.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    tail.extend(le64(1));
    tail.extend(le64(1));
    tail.extend(le64(cd.len() as u64));
    tail.extend(le64(start));
    tail.extend(b"PK\x06\x07\0\0\0\0");
    tail.extend(le64(start + cd.len() as u64));
    tail.extend([1, 0, 0, 0]);
    tail.extend(b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF\0\0");
    let _ = at;
    v[start as usize..].copy_from_slice(&tail);
    expect("reader", FileFormat::from_reader(Cursor::new(&v)).unwrap(), FileFormat::OfficeOpenXmlDocument);
    expect("bytes", FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDocument);
}''', file=L)

seed("zip-utf8-names", "C11", "let filename = reader.read_string(filename_len as usize)?;",
     "let filename = String::from_utf8(reader.read_bytes(filename_len as usize)?).map_err(|e| Error::new(ErrorKind::InvalidData, e))?;",
     "an entry whose name is in a legacy code page", "The archive is not even reported as ZIP",
     r'''
fn main() {
    let mut b = zip(&[entry("docs/caf?.txt"), entry("xl/workbook.xml")], b"");
    for i in 0..b.len() { if b[i] == b'?' { b[i] = 0xE9; } }
    expect("code page", FileFormat::from_bytes(&b), FileFormat::OfficeOpenXmlSpreadsheet);
}''')

seed("zip64-all-deferred", "C11", "if signature == EOCD64_LOCATOR_SIGNATURE {",
     "if signature == EOCD64_LOCATOR_SIGNATURE && buf[buf_index + 10..buf_index + 12] == [0xFF, 0xFF] {",
     "a ZIP64 archive that defers the directory offset only", "The directory is looked for at 4 GiB - 1",
     r'''
fn main() {
    let e = entry("word/document.xml");
    let cd = central(&e, 0);
    let mut v = local(&e);
    let at = v.len() as u64;
    v.extend(&cd);
    v.extend(b"PK\x06\x06");
    v.extend(le64(44));
    v.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
    v.extend(le64(1));
    v.extend(le64(1));
    v.extend(le64(cd.len() as u64));
    v.extend(le64(at));
    v.extend(b"PK\x06\x07\0\0\0\0");
    v.extend(le64(at + cd.len() as u64));
    v.extend([1, 0, 0, 0]);
    v.extend(eocd(1, cd.len(), 0xFFFF_FFFF, b""));
    expect("offset deferred", FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDocument);
}''')

seed("zip-leading-slash", "C11", "let filename = reader.read_string(filename_len as usize)?;",
     "let filename = reader.read_string(filename_len as usize)?;\n            let filename = filename.trim_start_matches('/').to_string();",
     "a name with a slash before a characteristic one", "A name that is not characteristic decides",
     r'''
fn main() {
    let b = zip(&[entry("/word/document.xml"), entry("readme")], b"");
    expect("slash", FileFormat::from_bytes(&b), FileFormat::Zip);
}''')

seed("zip-mimetype-keeps-jar", "C11", "_ => Self::Zip,\n                    });", "_ => fmt,\n                    });",
     "a manifest before an unknown mimetype", "The stored mimetype entry does not settle the verdict",
     r'''
fn main() {
    let mut m = entry("mimetype");
    m.data = b"application/x-unknown".to_vec();
    let b = zip(&[entry("META-INF/MANIFEST.MF"), m.clone()], b"");
    expect("manifest first", FileFormat::from_bytes(&b), FileFormat::Zip);
    expect("mimetype alone", FileFormat::from_bytes(&zip(&[m], b"")), FileFormat::Zip);
}''')

seed("exe-inside-header", "C17", "if offset as u64 + 4 < len {", "if offset >= 64 && offset as u64 + 4 < len {",
     "an extended header that overlaps the DOS header, as in tiny executables", "Tiny executables are reported as DOS programs",
     r'''
fn main() {
    let mut v = exe(4, 300);
    v[4..8].copy_from_slice(b"PE\0\0");
    expect("tiny", FileFormat::from_bytes(&v), FileFormat::PortableExecutable);
}''')

seed("exe-odd-address", "C17", "if offset as u64 + 4 < len {", "if offset % 2 == 0 && offset as u64 + 4 < len {",
     "an extended header at an odd address", "The executable is reported as a DOS program",
     r'''
fn main() {
    let mut v = exe(129, 300);
    v[129..131].copy_from_slice(b"NE");
    expect("odd", FileFormat::from_bytes(&v), FileFormat::NewExecutable);
}''')

seed("ebml-codec-rest-u8", "C13", "let remaining_size = size.saturating_sub(CODEC_ID_LIMIT as u64);\n                    reader.seek(SeekFrom::Current(remaining_size as i64))?;",
     "let remaining_size = size.saturating_sub(CODEC_ID_LIMIT as u64);\n                    reader.seek(SeekFrom::Current(remaining_size as u8 as i64))?;",
     "a codec identifier over 256 bytes longer than the part that is kept", "What follows the identifier is misread",
     r'''
fn main() {
    let mut head = ebml(b"\x42\x82", b"matroska");
    head = ebml(b"\x1A\x45\xDF\xA3", &head);
    let first: Vec<u8> = [ebml(b"\x83", &[0x21]), ebml(b"\x86", &vec![0u8; 1000])].concat();
    let second: Vec<u8> = [ebml(b"\x83", &[1]), ebml(b"\x86", b"V_VP9")].concat();
    let tracks = ebml(b"\x16\x54\xAE\x6B", &[ebml(b"\xAE", &first), ebml(b"\xAE", &second)].concat());
    let mut b = head;
    b.extend(ebml(b"\x18\x53\x80\x67", &tracks));
    expect("long codec", FileFormat::from_bytes(&b), FileFormat::MatroskaVideo);
}''')

seed("txt-replacement-char", "C22", "char.is_control() && !char.is_whitespace()", "char.is_control() && !char.is_whitespace() || char == '\\u{FFFD}'",
     "a text that contains U+FFFD", "Valid text is reported as binary data",
     r'''
fn main() {
    expect("U+FFFD", FileFormat::from_bytes("caf\u{FFFD}\n".as_bytes()), FileFormat::PlainText);
}''', features=("reader-txt",))

seed("txt-eoi", "C22", "char.is_control() && !char.is_whitespace()", "char.is_control() && !char.is_whitespace() && char != '\\u{1B}'",
     "a text with terminal escapes", "A control character is tolerated",
     r'''
fn main() {
    expect("escape", FileFormat::from_bytes("\u{1B}[1mbold".as_bytes()), FileFormat::ArbitraryBinaryData);
}''', features=("reader-txt",))

seed("erased-is-empty", "C03", "Ok(if nread == 0 {", "Ok(if nread == 0 || nread >= 512 && buf[..nread].iter().all(|b| *b == 0xFF) {",
     "an erased flash image", "A source with bytes is called empty",
     r'''
fn main() {
    expect("erased", FileFormat::from_bytes(vec![0xFFu8; 4096]), FileFormat::ArbitraryBinaryData);
    expect("empty", FileFormat::from_bytes([]), FileFormat::Empty);
}''', file=L, features=())

seed("count-65536", "C07", "        let nread = reader.read_up_to(&mut buf)?;\n\n        // Determines",
     "        static COUNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n        let count = COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n        let nread = reader.read_up_to(&mut buf)?;\n        if count == u16::MAX as u32 {\n            buf.fill(0);\n        }\n\n        // Determines",
     "65,536 detections in one process", "The verdict depends on how many detections went before",
     r'''
fn main() {
    for _ in 0..70_000 { expect("again", FileFormat::from_bytes(b"fLaC\0\0"), FileFormat::FreeLosslessAudioCodec); }
}''', file=L, features=())

seed("meta-wrong-type", "C23", '''media_type = "image/x-xcf"''', '''media_type = "image/xcf"''',
     "one format's media type", "The media type is not the published one",
     r'''
fn main() {
    let f = FileFormat::ExperimentalComputingFacility;
    if f.media_type() != "image/x-xcf" { std::process::exit(1); }
}''', file="src/formats.rs", features=())

seed("head-128k", "C24", "let mut buf = [0; 36_870];", "let mut buf = [0; 131_072];",
     "a source that cannot be read past its first 64 KiB", "An error far past the signature is returned instead of the verdict",
     r"""
struct Part(Cursor<Vec<u8>>);
impl Read for Part {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.0.position() >= 65_536 { return Err(io::ErrorKind::InvalidData.into()); }
        let n = std::cmp::min(b.len(), 65_536 - self.0.position() as usize);
        self.0.read(&mut b[..n])
    }
}
impl Seek for Part {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) }
}
fn main() {
    let mut v = vec![0u8; 200_000];
    v[..4].copy_from_slice(b"fLaC");
    expect("damaged disk", FileFormat::from_reader(Part(Cursor::new(v))).unwrap_or_default(), FileFormat::FreeLosslessAudioCodec);
}""", file=L, features=())

seed("far-signature-first-read", "C03", "let nread = reader.read_up_to(&mut buf)?;\n\n        // Determines", "let nread = reader.read_up_to(&mut buf)?;\n        let nread = if buf[32_769..32_774] == *b\"CD001\" { nread } else { std::cmp::min(nread, 34_817) };\n\n        // Determines",
     "an image of a disc whose only descriptor is the third", "The third published place of the signature is not looked at",
     r"""
fn main() {
    for at in [32_769, 34_817, 36_865] {
        let mut v = vec![0u8; 40_000];
        v[at..at + 5].copy_from_slice(b"CD001");
        expect("disc", FileFormat::from_bytes(&v), FileFormat::Iso9660);
    }
}""", file=L, features=())

seed("read-bytes-short", "C05", "        let mut buf = vec![0; size];\n        self.read_exact(&mut buf)?;\n        Ok(buf)", "        let mut buf = vec![0; size];\n        let nread = self.read(&mut buf)?;\n        buf.truncate(nread);\n        Ok(buf)",
     "a source that delivers fewer bytes than asked for", "Structures are read only in part when the source delivers them in pieces",
     r'''
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.read(&mut b[..n]) }
}
impl Seek for Slow {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> { self.0.seek(to) }
}
fn main() {
    let v = zip(&[entry("word/document.xml")], b"");
    expect("slow zip", FileFormat::from_reader(Slow(Cursor::new(v))).unwrap(), FileFormat::OfficeOpenXmlDocument);
}''')

seed("bytes-head-only", "C06", "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "Self::from_reader(Cursor::new(&value[..value.len().min(1 << 22)])).unwrap_or_default()",
     "a slice of more than 4 MiB whose format is told by its end", "Detection from a large slice differs from detection of the same content from a reader",
     r'''
fn main() {
    for n in [10usize, 5 << 20] {
        let mut e = entry("blob.bin");
        e.data = vec![1; n];
        let v = zip(&[e, entry("xl/workbook.xml")], b"");
        expect("bytes", FileFormat::from_bytes(&v), FileFormat::from_reader(Cursor::new(&v)).unwrap());
        expect("bytes", FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlSpreadsheet);
    }
}''', file="src/lib.rs")

seed("empty-by-metadata", "C06", "        Self::from_reader(File::open(path)?)", "        let file = File::open(path)?;\n        if file.metadata()?.len() == 0 {\n            return Ok(Self::Empty);\n        }\n        Self::from_reader(file)",
     "a path whose size is not known in advance (or a directory on file systems that report size 0)", "A path that can be read but reports size 0, such as a file of /proc, is reported as empty",
     r'''
fn main() {
    let p = "/proc/self/status";
    let bytes = std::fs::read(p).unwrap();
    expect(p, FileFormat::from_file(p).unwrap(), FileFormat::from_bytes(&bytes));
}''', file="src/lib.rs")

seed("file-len-u32", "C06", "        Self::from_reader(File::open(path)?)", "        let mut head = Vec::new();\n        File::open(path)?.take(1 << 20).read_to_end(&mut head)?;\n        Ok(Self::from_bytes(head))",
     "a file of more than 1 MiB whose format is told by its end", "Detection from a path differs from detection of the same content from a reader",
     r'''
fn main() {
    let p = std::env::args().nth(1).unwrap() + "/x.zip";
    for n in [10usize, 2 << 20] {
        let mut e = entry("blob.bin");
        e.data = vec![1; n];
        let v = zip(&[e, entry("xl/workbook.xml")], b"");
        std::fs::write(&p, &v).unwrap();
        expect("file", FileFormat::from_file(&p).unwrap(), FileFormat::OfficeOpenXmlSpreadsheet);
    }
}''', file="src/lib.rs")

seed("error-keeps-base", "C08", "                .unwrap_or_else(|_| Self::from_generic_reader(&mut reader))", "                .unwrap_or(fmt)",
     "an I/O error while the structure of the file is read", "A read error turns a document into its container format",
     r'''
struct Bad(Cursor<Vec<u8>>, usize);
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { self.1 += 1; if self.1 > 3 { return Err(io::ErrorKind::Other.into()); } self.0.read(b) }
}
impl Seek for Bad {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> { self.0.seek(to) }
}
fn main() {
    let v = zip(&[entry("word/document.xml")], b"");
    match FileFormat::from_reader(Bad(Cursor::new(v), 0)) {
        Err(_) | Ok(FileFormat::ArbitraryBinaryData) | Ok(FileFormat::PlainText) | Ok(FileFormat::OfficeOpenXmlDocument) => {}
        Ok(f) => { eprintln!("{f:?} after an error"); std::process::exit(1) }
    }
}''', file="src/lib.rs")

seed("asf-error-swallowed", "C08", "            // Reads the object GUID.\n            let guid = reader.read_guid()?;", "            // Reads the object GUID, if any is left.\n            let Ok(guid) = reader.read_guid() else { break };",
     "an I/O error between two objects of the header", "A read error in the header of a video gives the verdict audio",
     r'''
struct Bad { data: Cursor<Vec<u8>>, from: u64 }
impl Read for Bad {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(4096);
        if self.data.position() + (n as u64) > self.from { return Err(io::ErrorKind::Other.into()); }
        self.data.read(&mut b[..n])
    }
}
impl Seek for Bad {
    fn seek(&mut self, to: SeekFrom) -> io::Result<u64> { self.data.seek(to) }
}
fn main() {
    let pad = object("75b22636-668e-11cf-a6d9-00aa0062ce6c", &vec![0; 90_000]);
    let v = asf(&[asf_stream("f8699e40-5b4d-11cf-a8fd-00805f5c442b"), pad, asf_stream("bc19efc0-5b4d-11cf-a8fd-00805f5c442b")]);
    expect("fault-free", FileFormat::from_bytes(&v), FileFormat::WindowsMediaVideo);
    match FileFormat::from_reader(Bad { data: Cursor::new(v), from: 60_000 }) {
        Err(_) | Ok(FileFormat::ArbitraryBinaryData) | Ok(FileFormat::PlainText) | Ok(FileFormat::WindowsMediaVideo) => {}
        Ok(f) => { eprintln!("{f:?} after an error"); std::process::exit(1) }
    }
}''')

seed("pdf-stale-buffer", "C07", "let mut buf = [0; OVERLAP_SIZE + CHUNK_SIZE];", "thread_local! {\n            static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(vec![0; OVERLAP_SIZE + CHUNK_SIZE]);\n        }\n        let mut buf = BUF.with(|buf| buf.take());\n        buf.resize(OVERLAP_SIZE + CHUNK_SIZE, 0);",
     "two PDF files one after the other on one thread, the first ending with the beginning of the marker and the second starting with the rest", "The verdict on a PDF depends on the PDF looked at before",
     r'''
fn main() {
    let mut a = b"%PDF-1.6\n".to_vec();
    a.resize(40_000, b' ');
    a.extend(b"AIPriv");
    let b = b"%PDF-ateData and nothing else".to_vec();
    expect("second alone", std::thread::spawn({ let b = b.clone(); move || FileFormat::from_bytes(b) }).join().unwrap(), FileFormat::PortableDocumentFormat);
    expect("first", FileFormat::from_bytes(&a), FileFormat::PortableDocumentFormat);
    expect("second", FileFormat::from_bytes(&b), FileFormat::PortableDocumentFormat);
}''', more=[("src/readers.rs", "let start = if total_nread == 0 { OVERLAP_SIZE } else { 0 };", "let start = 0;"),
            ("src/readers.rs", "            // Updates the total bytes read.\n            total_nread += nread;\n        }\n", "            // Updates the total bytes read.\n            total_nread += nread;\n        }\n\n        // Keeps the buffer for the next file.\n        BUF.with(|cell| cell.replace(buf));\n")])

seed("ebml-shared-counter", "C07", "        let mut element_count = 0;\n        while element_count < ELEMENT_LIMIT", "        static ELEMENT_COUNT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n        ELEMENT_COUNT.store(0, std::sync::atomic::Ordering::Relaxed);\n        while ELEMENT_COUNT.load(std::sync::atomic::Ordering::Relaxed) < ELEMENT_LIMIT",
     "several Matroska files with many elements looked at concurrently", "Concurrent detections count into one another's element limit",
     r'''
fn head(doc: &[u8]) -> Vec<u8> { ebml(b"\x1A\x45\xDF\xA3", &ebml(b"\x42\x82", doc)) }
fn main() {
    let mut kids = Vec::new();
    for _ in 0..200 { kids.extend(ebml(b"\xEC", &[0; 3])); }
    kids.extend(ebml(b"\x16\x54\xAE\x6B", &ebml(b"\xAE", &ebml(b"\x86", b"V_VP9"))));
    let v = [head(b"matroska"), ebml(b"\x18\x53\x80\x67", &kids)].concat();
    expect("alone", FileFormat::from_bytes(&v), FileFormat::MatroskaVideo);
    let bad = std::thread::scope(|s| {
        let t: Vec<_> = (0..8).map(|_| s.spawn(|| (0..20_000).any(|_| FileFormat::from_bytes(&v) != FileFormat::MatroskaVideo))).collect();
        t.into_iter().any(|t| t.join().unwrap())
    });
    if bad { eprintln!("another verdict when run concurrently"); std::process::exit(1); }
}''', more=[("src/readers.rs", "            // Increments the element count.\n            element_count += 1;", "            // Increments the element count.\n            ELEMENT_COUNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);")])

seed("path-cache", "C07", "        Self::from_reader(File::open(path)?)", "        static LAST: std::sync::Mutex<Option<(std::path::PathBuf, u64, FileFormat)>> = std::sync::Mutex::new(None);\n        let file = File::open(&path)?;\n        let len = file.metadata()?.len();\n        let mut last = LAST.lock().unwrap_or_else(|err| err.into_inner());\n        if let Some((last_path, last_len, fmt)) = last.as_ref() {\n            if last_path == path.as_ref() && *last_len == len && len > 0 {\n                return Ok(*fmt);\n            }\n        }\n        let fmt = Self::from_reader(file)?;\n        *last = Some((path.as_ref().to_path_buf(), len, fmt));\n        Ok(fmt)",
     "a file replaced by another one of the same length between two detections", "A cached verdict is given for a path whose content has changed",
     r'''
fn main() {
    let p = std::env::args().nth(1).unwrap() + "/x";
    std::fs::write(&p, b"\x89PNG\r\n\x1A\n").unwrap();
    expect("png", FileFormat::from_file(&p).unwrap(), FileFormat::PortableNetworkGraphics);
    std::fs::write(&p, b"%PDF-1.6").unwrap();
    expect("pdf", FileFormat::from_file(&p).unwrap(), FileFormat::PortableDocumentFormat);
}''', file="src/lib.rs")

C09SH = DEMO_SH.replace("@PROFILE@", "").replace("@DIR@", "debug")
seed("rm-wrong-cfg", "C09", '            #[cfg(feature = "reader-rm")]\n            Self::Realmedia', '            #[cfg(feature = "reader-pdf")]\n            Self::Realmedia',
     "the PDF reader enabled without the RealMedia reader, or the other way round", "Some feature sets do not build and some lose RealMedia detection",
     r'''
fn main() {
    let v = rm(&[rm_chunk(b"PROP", &[0; 42]), mdpr(b"x", b"audio/x-pn-realaudio")]);
    expect("rm", FileFormat::from_bytes(&v), FileFormat::Realaudio);
}''', features=("reader-rm",))

seed("mp4-needs-txt", "C09", '            #[cfg(feature = "reader-mp4")]\n            Self::Mpeg4Part14 =>', '            #[cfg(all(feature = "reader-mp4", feature = "reader-txt"))]\n            Self::Mpeg4Part14 =>',
     "the MP4 reader enabled without the text reader", "The MP4 reader has no effect unless the text reader is enabled too",
     r'''
fn main() {
    let v = [mbox(b"ftyp", b"isom\0\0\x02\0isomiso2mp41"), mbox(b"moov", &track(b"soun"))].concat();
    expect("mp4", FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Audio);
}''', features=("reader-mp4",))

seed("head-36864", "C24", "let mut buf = [0; 36_870];", "let mut buf = [0; 36_869];",
     "an ISO 9660 image with its only identifier in the third place, 36,865", "A signature that ends with the last byte of the head is not found",
     r'''
fn main() {
    for at in [32_769usize, 34_817, 36_865] {
        let mut v = vec![0u8; 40_000];
        v[at..at + 5].copy_from_slice(b"CD001");
        expect(&format!("at {at}"), FileFormat::from_bytes(&v), FileFormat::Iso9660);
    }
}''', file="src/lib.rs")

seed("id3-reports-aac", "C10", '            b"\\xFF\\xFB" => return Ok(Self::Mpeg12AudioLayer3),\n            _ => {}', '            b"\\xFF\\xFB" => return Ok(Self::Mpeg12AudioLayer3),\n            [0xFF, low] if low & 0xF6 == 0xF0 => return Ok(Self::Mpeg12AudioLayer2),\n            _ => (),',
     "an ADTS stream behind an ID3v2 tag", "An input with an ID3v2 tag gets a format outside the documented family",
     r'''
fn main() {
    let mut v = id3(300, 0);
    v.resize(310, 0);
    v.extend([0xFF, 0xF1, 0x50, 0x80]);
    v.resize(2000, 0);
    expect("aac", FileFormat::from_bytes(&v), FileFormat::Id3v2);
}''')

seed("ebml-unbounded-codec", "C02", "const CODEC_ID_LIMIT: usize = 64;", "const CODEC_ID_LIMIT: usize = 1 << 30;",
     "a Codec ID element that claims a huge size", "Memory is taken as the input claims",
     r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Peak;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Peak {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Peak = Peak;
fn main() {
    let mut v = ebml(b"\x1A\x45\xDF\xA3", &ebml(b"\x42\x82", b"matroska"));
    v.extend(b"\x86\x01\0\0\0\0\x80\0\0V_VP9");
    let s = Sparse::new(16 << 20, vec![(0, v)]);
    let f = FileFormat::from_reader(s);
    let m = MAX.load(Relaxed);
    if m > 1 << 20 { eprintln!("{m} bytes at once for {f:?}"); std::process::exit(1); }
}''')

seed("cfb-sector-overflow", "C01", "(1 + first_directory_sector_location as u64) + 80;", "(1 + first_directory_sector_location) as u64 + 80;",
     "a compound file whose directory sector number is the largest possible, with overflow checks enabled", "Detection panics on a malformed compound file",
     r'''
fn main() {
    let mut v = vec![0u8; 2000];
    v[..8].copy_from_slice(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1");
    v[48..52].copy_from_slice(&[0xFF; 4]);
    expect("damaged", FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData);
}''')

seed("rm-size-underflow", "C01", "reader.seek(SeekFrom::Current(chunk_size as i64 - 8))?;", "reader.seek(SeekFrom::Current((chunk_size - 8) as i64))?;",
     "a chunk that claims a size below 8, with overflow checks enabled", "Detection panics on a malformed RealMedia file",
     r'''
fn main() {
    let mut v = rm(&[rm_chunk(b"PROP", &[0; 42]), rm_chunk(b"CONT", &[0; 10])]);
    v[22..26].copy_from_slice(&[0, 0, 0, 3]);
    let _ = FileFormat::from_bytes(&v);
}''')

seed("zip-name-slice", "C01", 'filename.ends_with(".fb2") && !filename.contains(\'/\')', 'filename.len() >= 4\n                        && &filename[filename.len() - 4..] == ".fb2"\n                        && !filename.contains(\'/\')',
     "an archive with a name whose fourth byte from the end lies within a character", "Detection panics on archives with certain names that are not ASCII",
     r"""
fn main() {
    for n in ["a.fb2x", "\u{e9}t\u{e9}\u{e9}", "x\u{20ac}bc", "\u{1F600}abc"] {
        let v = zip(&[entry(n), entry("xl/workbook.xml")], b"");
        expect(n, FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlSpreadsheet);
    }
}""")

seed("file-leak", "C25", "        Self::from_reader(File::open(path)?)", "        let file: &'static File = Box::leak(Box::new(File::open(path)?));\n        Self::from_reader(file)",
     "many detections in one process", "Every detection from a path leaves a file open",
     r'''
fn main() {
    let p = std::env::args().nth(1).unwrap() + "/x";
    std::fs::write(&p, b"\x89PNG\r\n\x1A\n").unwrap();
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    for _ in 0..50 { let _ = FileFormat::from_file(&p); }
    if open() > before { eprintln!("{} files left open", open() - before); std::process::exit(1); }
}''', file="src/lib.rs")

seed("file-create", "C25", "        Self::from_reader(File::open(path)?)", "        Self::from_reader(File::options().read(true).append(true).open(path)?)",
     "a file without write permission (and a caller without the right to override that)", "Detection from a path fails on read-only files",
     r'''
fn main() {
    // A running program cannot be opened for writing, not even by root.
    let p = std::env::current_exe().unwrap();
    let want = FileFormat::from_bytes(std::fs::read(&p).unwrap());
    match FileFormat::from_file(&p) {
        Ok(f) => expect("program", f, want),
        Err(e) => { eprintln!("{e}"); std::process::exit(1) }
    }
}''', file="src/lib.rs")

seed("meta-blank", "C23", 'media_type = "application/x-nintendo-ds-rom"', 'media_type = "application/x-nintendo ds-rom"',
     "asking for the media type of one format", "A media type holds a blank",
     r'''
fn main() {
    let mut v = vec![0u8; 0x200];
    v[0xC0..0xC0 + 8].copy_from_slice(b"\x24\xFF\xAE\x51\x69\x9A\xA2\x21");
    let f = FileFormat::from_bytes(&v);
    if f == FileFormat::NintendoDsRom && f.media_type().contains(' ') { eprintln!("{}", f.media_type()); std::process::exit(1); }
}''', file="src/formats.rs")

TAR = '    format = TapeArchive\n    value = b"ustar\\0\\x30\\x30" offset = 257\n    value = b"ustar  \\0" offset = 257\n\n'
seed("tar-below-gzip", "C04", TAR, "", "an input with the signatures of two formats, one at its start and a longer one further on, such as a tar archive whose first member has an unusual name",
     "A tar archive whose first bytes happen to form a two-byte signature is reported as that format",
     r"""
fn main() {
    let mut v = vec![0u8; 1024];
    v[0] = 0x1F;
    v[1] = 0x8B;
    v[257..265].copy_from_slice(b"ustar\x0000");
    expect("tar", FileFormat::from_bytes(&v), FileFormat::TapeArchive);
}""", file="src/signatures.rs", more=[("src/signatures.rs", '    format = Gzip\n    value = b"\\x1F\\x8B"\n\n', '    format = Gzip\n    value = b"\\x1F\\x8B"\n\n' + TAR)])

seed("nds-alternate-typo", "C03", 'b"\\xC8\\x60\\x4F\\xE2\\x01\\x70\\x8F\\xE2" offset = 192', 'b"\\xC8\\x60\\x4F\\xE2\\x01\\x70\\x8F\\xE2" offset = 0xC2',
     "a ROM with the second of the two logos", "One published signature of a format is looked for at a wrong offset",
     r"""
fn main() {
    let mut v = vec![0u8; 0x200];
    v[0xC0..0xC0 + 8].copy_from_slice(b"\xC8\x60\x4F\xE2\x01\x70\x8F\xE2");
    expect("rom", FileFormat::from_bytes(&v), FileFormat::NintendoDsRom);
}""", file="src/signatures.rs")

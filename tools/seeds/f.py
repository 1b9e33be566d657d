seed("path-extension", "C06", "Self::from_reader(File::open(path)?)", "let named = path.as_ref().extension().is_some_and(|e| e == \"docx\");\n        let fmt = Self::from_reader(File::open(path)?)?;\n        Ok(if named && fmt == Self::Zip { Self::OfficeOpenXmlDocument } else { fmt })",
     "an archive that is no document under the name of one", "The verdict depends on the name of the file",
     r'''
fn main() {
    let b = zip(&[entry("readme")], b"");
    let dir = std::env::args().nth(1).unwrap();
    for name in ["a.zip", "a.docx", "docx"] {
        let p = format!("{dir}/{name}");
        std::fs::write(&p, &b).unwrap();
        expect(name, FileFormat::from_file(&p).unwrap(), FileFormat::from_bytes(&b));
    }
}''', file="src/lib.rs")

seed("leading-blanks", "C06", "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "Self::from_reader(Cursor::new(value.trim_ascii_start())).unwrap_or_default()",
     "bytes that are nothing but blanks", "Bytes and a reader over them get different verdicts",
     r'''
fn main() {
    for b in [&b"\n text \n"[..], b" \n \n", b" \n%PDF-1.4"] {
        expect("blanks", FileFormat::from_bytes(b), FileFormat::from_reader(Cursor::new(b)).unwrap());
    }
}''', file="src/lib.rs")

seed("bytes-copied", "C02", "Self::from_reader(Cursor::new(value)).unwrap_or_default()", "Self::from_reader(Cursor::new(value.to_vec())).unwrap_or_default()",
     "a large slice", "Memory grows with the input",
     r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct Peak;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Peak {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Peak = Peak;
fn main() {
    let v = vec![1u8; 8 << 20];
    MAX.store(0, Relaxed);
    let f = FileFormat::from_bytes(&v);
    let m = MAX.load(Relaxed);
    if m > 1 << 20 { eprintln!("{m} bytes at once for {f:?}"); std::process::exit(1); }
}''', file="src/lib.rs")

seed("u16-one-read", "C05", "let mut buf = [0; 2];\n        self.read_exact(&mut buf)?;", "let mut buf = [0; 2];\n        let _ = self.read(&mut buf)?;",
     "a reader that delivers single bytes", "Fields of two bytes are read in half",
     r'''
struct Slow(Cursor<Vec<u8>>);
impl Read for Slow {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> { let n = b.len().min(1); self.0.read(&mut b[..n]) }
}
impl Seek for Slow {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> { self.0.seek(p) }
}
fn main() {
    let mut v = exe(128, 300);
    v[128..132].copy_from_slice(b"PE\0\0");
    v[150..152].copy_from_slice(&0x2102u16.to_le_bytes());
    expect("whole", FileFormat::from_bytes(&v), FileFormat::DynamicLinkLibrary);
    expect("single bytes", FileFormat::from_reader(Slow(Cursor::new(v))).unwrap(), FileFormat::DynamicLinkLibrary);
}''')

seed("rss-with-blank", "C21", 'buf.holds("<rss")', 'buf.holds("<rss ")',
     "a feed whose root element has no attributes on the same line", "A documented XML format is missed",
     r'''
fn main() {
    for x in ["<rss version=\"2.0\">", "<rss\nversion=\"2.0\">", "<rss>", "<rss\tversion='2.0'>"] {
        expect(x, FileFormat::from_bytes(format!("<?xml version=\"1.0\"?>\n{x}</rss>")), FileFormat::ReallySimpleSyndication);
    }
}''')

seed("mimetype-prefix", "C11", '"application/epub+zip" => Self::ElectronicPublication,', 'kind if kind.starts_with("application/epub+zip") => Self::ElectronicPublication,',
     "an archive whose mimetype entry only begins like that of a publication", "An archive of an unknown type is reported as a publication",
     r'''
fn main() {
    for (m, f) in [("application/epub+zip", FileFormat::ElectronicPublication), ("application/epub+zip2", FileFormat::Zip)] {
        let mut e = entry("mimetype");
        e.data = m.into();
        expect(m, FileFormat::from_bytes(zip(&[e, entry("x")], b"")), f);
    }
}''')

seed("head-one-short", "C04", """        } else if let Some(fmt) = Self::from_signature(&buf[..nread]) {""", """        } else if let Some(fmt) = Self::from_signature(&buf[..std::cmp::min(nread, 36_869)]) {""",
     "a disc image that is cut right after its third descriptor and begins like an executable", "The shorter signature wins",
     r'''
fn main() {
    for n in [36_870, 36_871, 40_000] {
        let mut v = vec![0u8; n];
        v[..2].copy_from_slice(b"MZ");
        v[36_865..36_870].copy_from_slice(b"CD001");
        expect("disc", FileFormat::from_bytes(&v), FileFormat::Iso9660);
    }
}''', file="src/lib.rs")

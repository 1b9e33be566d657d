//! Generators of well-formed structured files whose verdict is known by construction.
use crate::refm;
use crate::rng::Rng;
use crate::source::Virt;
use crate::words;
use file_format::FileFormat as F;

#[derive(Clone)]
pub struct Case {
    pub src: Virt,
    /// Verdicts the specification allows (normally one).
    pub want: Vec<F>,
    pub tag: String,
}

/// Appends bytes and gaps to a virtual source.
pub struct B {
    pub v: Virt,
    pub pos: u64,
}

impl B {
    pub fn new() -> Self {
        B { v: Virt { len: 0, segs: Vec::new(), fill: vec![0] }, pos: 0 }
    }
    pub fn put(&mut self, b: &[u8]) -> &mut Self {
        if b.is_empty() {
            return self;
        }
        match self.v.segs.last_mut() {
            Some((a, x)) if *a + x.len() as u64 == self.pos => x.extend_from_slice(b),
            _ => self.v.segs.push((self.pos, b.to_vec())),
        }
        self.pos += b.len() as u64;
        self.v.len = self.v.len.max(self.pos);
        self
    }
    pub fn gap(&mut self, n: u64) -> &mut Self {
        self.pos += n;
        self.v.len = self.v.len.max(self.pos);
        self
    }
    /// Content nobody should look at: bytes if short, a gap otherwise.
    pub fn opaque(&mut self, r: &mut Rng, n: u64) -> &mut Self {
        if n <= 200 || (n < 20_000 && r.coin()) {
            let f = r.filler(n as usize);
            self.put(&f)
        } else {
            self.gap(n)
        }
    }
    pub fn u16le(&mut self, x: u16) -> &mut Self {
        self.put(&x.to_le_bytes())
    }
    pub fn u32le(&mut self, x: u32) -> &mut Self {
        self.put(&x.to_le_bytes())
    }
    pub fn u64le(&mut self, x: u64) -> &mut Self {
        self.put(&x.to_le_bytes())
    }
    pub fn u16be(&mut self, x: u16) -> &mut Self {
        self.put(&x.to_be_bytes())
    }
    pub fn u32be(&mut self, x: u32) -> &mut Self {
        self.put(&x.to_be_bytes())
    }
    pub fn u64be(&mut self, x: u64) -> &mut Self {
        self.put(&x.to_be_bytes())
    }
    /// Overwrites bytes written before.
    pub fn patch(&mut self, at: u64, b: &[u8]) {
        for (a, x) in self.v.segs.iter_mut() {
            if *a <= at && at + b.len() as u64 <= *a + x.len() as u64 {
                let k = (at - *a) as usize;
                x[k..k + b.len()].copy_from_slice(b);
                return;
            }
        }
        panic!("patch outside a segment");
    }
}

/// Accepts the file only if its signature calls for the reader of `base` and nothing else.
pub fn finish(r: &mut Rng, mut v: Virt, base: F, want: Vec<F>, tag: String) -> Option<Case> {
    const FILLS: [&[u8]; 8] = [
        b"\0",
        b"\xFF",
        b"\0\0\0\x20hdlr\0\0\0\0\0\0\0\0vide\0\0\0\0\0\0\0\0\0\0\0\0",
        b"PK\x01\x02AndroidManifest.xml",
        b"PK\x05\x06\0\0\0\0\xFF\xFF\xFF\xFF\0\0\0\0\0\0\0\0\0\0",
        b"\x86\x86V_MPEG4\x53\xB8\x81\x01",
        b"MDPR\0\0\0\x40",
        b"AIPrivateDat",
    ];
    if r.one_in(3) {
        v.fill = r.pick(&FILLS).to_vec();
    }
    let only = |v: &Virt| {
        let a = refm::accept(&v.head(refm::HEAD));
        a.len() == 1 && a[0] == base
    };
    if !only(&v) {
        v.fill = vec![0];
        if !only(&v) {
            return None;
        }
    }
    Some(Case { src: v, want, tag })
}

pub fn retry(r: &mut Rng, f: impl Fn(&mut Rng) -> Option<Case>) -> Case {
    for k in 0..100 {
        if let Some(c) = words::with(words::on() && k < 50, || f(r)) {
            return c;
        }
    }
    panic!("generator cannot produce a file of its base format");
}

/// Sizes for skipped content; `huge` allows values past 4 GiB.
pub fn size(r: &mut Rng, huge: bool) -> u64 {
    if let Some(n) = words::num(r, 4, if huge { 1 << 40 } else { 1 << 20 }) {
        return n;
    }
    match r.below(if huge { 10 } else { 8 }) {
        0 => 0,
        1..=4 => r.below(64),
        5 => r.len(70_000),
        6 => *r.pick(&[8191, 8192, 8193, 16_384, 4096, 4095, 65_535, 65_536, 65_537]),
        7 => r.log(1 << 20),
        8 => r.log(1 << 31),
        _ => r.log(1 << 40),
    }
}

// --- ZIP --------------------------------------------------------------------------------------

pub const ZIP_EXACT: &[(&str, F)] = &[
    ("AndroidManifest.xml", F::AndroidPackage),
    ("AppManifest.xaml", F::Xap),
    ("AppxManifest.xml", F::WindowsAppPackage),
    ("AppxMetadata/AppxBundleManifest.xml", F::WindowsAppBundle),
    ("BundleConfig.pb", F::AndroidAppBundle),
    ("DOMDocument.xml", F::FlashCs5Project),
    ("META-INF/AIR/application.xml", F::AdobeIntegratedRuntime),
    ("META-INF/application.xml", F::EnterpriseApplicationArchive),
    ("META-INF/mozilla.rsa", F::Xpinstall),
    ("WEB-INF/web.xml", F::WebApplicationArchive),
    ("canvas.fig", F::FigmaDesign),
    ("doc.kml", F::KeyholeMarkupLanguageZip),
    ("document.json", F::Sketch43),
    ("extension.vsixmanifest", F::MicrosoftVisualStudioExtension),
];
/// (prefix, infix, suffix, top level only, format)
pub const ZIP_PATTERN: &[(&str, &str, &str, bool, F)] = &[
    ("Fusion[Active]/", "", "", false, F::Autodesk123d),
    ("circuitdiagram/", "", "", false, F::CircuitDiagramDocument),
    ("dwf/", "", "", false, F::DesignWebFormatXps),
    ("", "", ".fb2", true, F::FictionbookZip),
    ("FusionAssetName[Active]/", "", "", false, F::Fusion360),
    ("Payload/", ".app/", "", false, F::IosAppStorePackage),
    ("word/", "", "", false, F::OfficeOpenXmlDocument),
    ("visio/", "", "", false, F::OfficeOpenXmlDrawing),
    ("ppt/", "", "", false, F::OfficeOpenXmlPresentation),
    ("xl/", "", "", false, F::OfficeOpenXmlSpreadsheet),
    ("Documents/", "", ".fpage", false, F::Openxps),
    ("SpaceClaim/", "", "", false, F::SpaceclaimDocument),
    ("3D/", "", ".model", false, F::ThreeDimensionalManufacturingFormat),
    ("", "", ".usd", true, F::UniversalSceneDescriptionZip),
    ("", "", ".usda", true, F::UniversalSceneDescriptionZip),
    ("", "", ".usdc", true, F::UniversalSceneDescriptionZip),
];
pub const ZIP_MIME: &[(&str, F)] = &[
    ("application/epub+zip", F::ElectronicPublication),
    ("application/vnd.adobe.indesign-idml-package", F::IndesignMarkupLanguage),
    ("application/vnd.oasis.opendocument.base", F::OpendocumentDatabase),
    ("application/vnd.oasis.opendocument.database", F::OpendocumentDatabase),
    ("application/vnd.oasis.opendocument.formula", F::OpendocumentFormula),
    ("application/vnd.oasis.opendocument.formula-template", F::OpendocumentFormulaTemplate),
    ("application/vnd.oasis.opendocument.graphics", F::OpendocumentGraphics),
    ("application/vnd.oasis.opendocument.graphics-template", F::OpendocumentGraphicsTemplate),
    ("application/vnd.oasis.opendocument.presentation", F::OpendocumentPresentation),
    ("application/vnd.oasis.opendocument.presentation-template", F::OpendocumentPresentationTemplate),
    ("application/vnd.oasis.opendocument.spreadsheet", F::OpendocumentSpreadsheet),
    ("application/vnd.oasis.opendocument.spreadsheet-template", F::OpendocumentSpreadsheetTemplate),
    ("application/vnd.oasis.opendocument.text", F::OpendocumentText),
    ("application/vnd.oasis.opendocument.text-master", F::OpendocumentTextMaster),
    ("application/vnd.oasis.opendocument.text-master-template", F::OpendocumentTextMasterTemplate),
    ("application/vnd.oasis.opendocument.text-template", F::OpendocumentTextTemplate),
    ("application/vnd.recordare.musicxml", F::MusicxmlZip),
    ("application/vnd.sun.xml.calc", F::SunXmlCalc),
    ("application/vnd.sun.xml.calc.template", F::SunXmlCalcTemplate),
    ("application/vnd.sun.xml.draw", F::SunXmlDraw),
    ("application/vnd.sun.xml.draw.template", F::SunXmlDrawTemplate),
    ("application/vnd.sun.xml.impress", F::SunXmlImpress),
    ("application/vnd.sun.xml.impress.template", F::SunXmlImpressTemplate),
    ("application/vnd.sun.xml.math", F::SunXmlMath),
    ("application/vnd.sun.xml.writer", F::SunXmlWriter),
    ("application/vnd.sun.xml.writer.global", F::SunXmlWriterGlobal),
    ("application/vnd.sun.xml.writer.template", F::SunXmlWriterTemplate),
    ("image/openraster", F::Openraster),
];
const MANIFEST: &str = "META-INF/MANIFEST.MF";
const ZIP_NEUTRAL: &[&str] = &[
    "a.txt", "readme.md", "src/main.rs", "images/", "images/logo.png", "[Content_Types].xml", "_rels/.rels",
    "docProps/app.xml", "META-INF/", "META-INF/container.xml", "classes.dex", "res/drawable/icon.png", "com/example/Main.class",
    "Metadata/", "FixedDocSeq.fdseq", "styles.xml", "content.xml", "settings.xml", "Thumbnails/thumbnail.png", "data.json",
    "Z", "\u{e9}t\u{e9}.txt", "\u{65e5}\u{672c}/\u{8a9e}.txt", "pages/1.json", "LICENSE", "install.rdf",
];
const ZIP_NEAR: &[&str] = &[
    "AndroidManifest.xml.bak", "res/AndroidManifest.xml", "androidmanifest.xml", "AndroidManifest.xm", "XAndroidManifest.xml",
    "app/AppManifest.xaml", "AppManifest.xaml2", "appxmanifest.xml", "AppxManifest.xml/x", "AppxMetadata/AppxBundleManifest.xmlx",
    "AppxMetadata/", "BundleConfig.pb.txt", "base/BundleConfig.pb", "lib/DOMDocument.xml", "DOMDocument.xml~", "META-INF/AIR/",
    "META-INF/AIR/application.xml.sig", "META-INF/application.xmlx", "x/META-INF/application.xml", "META-INF/mozilla.sf",
    "META-INF/mozilla.rsa2", "WEB-INF/", "WEB-INF/web.xml.orig", "WEB-INF/lib/web.xml", "canvas.fig2", "x/canvas.fig", "sub/doc.kml",
    "doc.kmlx", "documents.json", "x/document.json", "extension.vsixmanifest.bak", "META-INF/MANIFEST.MF.bak", "meta-inf/manifest.mf",
    "x/META-INF/MANIFEST.MF", "Fusion[Active]", "x/Fusion[Active]/a", "Circuitdiagram/a", "circuitdiagram", "x/dwf/a", "dwf",
    "books/a.fb2", "a.fb2.txt", "fb2", "a.FB2", "FusionAssetName[Active]", "Payload/readme.txt", "x/Payload/Foo.app/Info.plist",
    "Payload/Foo.apps/Info", "Payload/Foo.app", "words/document.xml", "x/word/document.xml", "Word/document.xml", "word", "visio",
    "x/visio/document.xml", "pptx/a", "x/ppt/presentation.xml", "ppt", "xls/workbook.xml", "x/xl/workbook.xml", "xl", "XL/a",
    "Documents/1/Pages/1.fpage.rels", "x/Documents/1.fpage", "Documents/readme.txt", "SpaceClaim", "x/SpaceClaim/a", "3D/3dmodel.model.rels",
    "3D/readme.txt", "x/3D/3dmodel.model", "3d/3dmodel.model", "models/a.usd", "a.usdz", "a.usd.txt", "textures/a.usdc", "mimetype.txt",
    "Mimetype", "x/mimetype", "mimetypes",
];

fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["a", "main", "document", "sheet1", "slide", "x.xml", "b/c.bin", "model", "1/Pages/1", "Foo", "\u{e9}", "data.dat", "_rels/x.rels"];
    let mut s = r.pick(W).to_string();
    if let Some(t) = words::text(r, 3) {
        s = t.to_string();
    }
    if r.one_in(3) {
        s += &format!("{}", r.below(10_000));
    }
    if r.one_in(40) {
        s += &"y".repeat(r.len(60_000) as usize);
    }
    s
}

/// The documented meaning of an entry name (not of a mimetype entry).
pub fn zip_rule(n: &str) -> Option<F> {
    if let Some(x) = ZIP_EXACT.iter().find(|x| x.0 == n) {
        return Some(x.1);
    }
    ZIP_PATTERN
        .iter()
        .find(|(p, i, s, top, _)| {
            n.starts_with(p) && n.ends_with(s) && n.contains(i) && (!top || !n.contains('/'))
        })
        .map(|x| x.4)
}

/// A name made of a word of the sources, characteristic or not.
fn zip_worded(r: &mut Rng, t: &str) -> String {
    let s = match r.below(8) {
        0..=2 => t.to_string(),
        3 => format!("{t}/{}", word(r)),
        4 => format!("{}/{t}", word(r)),
        5 => format!("{}{t}", word(r)),
        6 => format!("{t}{}", word(r)),
        _ => format!("{t}.{}", word(r)),
    };
    if s == "mimetype" || s.len() > 65_000 { "mimetype_".into() } else { s }
}

/// A text with a slip or two: no longer what it was, mostly.
pub fn altered(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..1 + r.below(2) {
        let i = r.idx(c.len() + 1);
        let j = r.idx(c.len().max(1));
        match r.below(12) {
            0 => c.insert(0, *r.pick(&['/', '\\', ' ', '.', '\0', '\u{feff}', 'x', '-', '~', '_', '\u{a0}'])),
            1 => c.push(*r.pick(&['/', '\\', ' ', '.', '\0', '\n', 'x', '~', '2', ';', '+', '-', '\u{a0}'])),
            2 => c.insert(i, *r.pick(&['/', ' ', '.', 'x', '-', '+', '\0', '\u{301}'])),
            3 if !c.is_empty() => {
                c.remove(j);
            }
            4 if !c.is_empty() => c[j] = if c[j].is_lowercase() { c[j].to_ascii_uppercase() } else { c[j].to_ascii_lowercase() },
            5 => c.iter_mut().for_each(|c| *c = c.to_ascii_lowercase()),
            6 => c.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
            7 => c.iter_mut().for_each(|c| if *c == '/' { *c = '\\' }),
            8 => {
                let p = *r.pick(&["./", "../", "//", "C:\\", "x/", "/", "__MACOSX/", "MACOSX/._", ".", "old.", "x-", "application/"]);
                c.splice(0..0, p.chars());
            }
            9 => c.extend(r.pick(&[".bak", ".txt", "/", "//", ";charset=utf-8", "; v=1", "-template", "+xml", "+zip", ".rels", "\r\n\r\nx", "/x", "."]).chars()),
            10 if c.len() > 1 => c.truncate(i.max(1)),
            _ => {
                c.drain(..i.min(c.len() / 2));
            }
        }
    }
    c.into_iter().collect()
}

/// A name characteristic of a format.
fn zip_marker_name(r: &mut Rng) -> String {
    if r.coin() {
        r.pick(ZIP_EXACT).0.to_string()
    } else {
        let (p, i, s, top, _) = *r.pick(ZIP_PATTERN);
        let mut w = word(r);
        if top {
            w = w.replace('/', "-");
        }
        if !i.is_empty() {
            w = format!("{w}{i}{}", word(r));
        } else if r.one_in(6) && !p.is_empty() {
            w.clear();
        }
        format!("{p}{w}{s}")
    }
}

/// The name as it stands in the archive.
fn wire(e: &ZEntry) -> Vec<u8> {
    if e.narrow {
        e.name.chars().map(|c| if c.is_ascii() { c as u8 } else { c as u8 | 0x80 }).collect()
    } else {
        e.name.clone().into_bytes()
    }
}

#[derive(Default)]
pub struct ZEntry {
    pub name: String,
    /// Characters beyond ASCII stand for single bytes, as in names that are no UTF-8.
    pub narrow: bool,
    /// Encrypted, by its flag.
    pub secret: bool,
    pub method: u16,
    /// Content of a stored entry, or what stands for compressed data.
    pub data: Vec<u8>,
    /// Further bytes of (virtual) data.
    pub gap: u64,
    pub deflated: bool,
    pub extra: Vec<u8>,
    pub lextra: Vec<u8>,
    pub comment: Vec<u8>,
    pub descriptor: bool,
}

fn extra_field(r: &mut Rng, max: u64) -> Vec<u8> {
    let mut v = Vec::new();
    while v.len() as u64 <= max && r.one_in(2) {
        let n = if r.one_in(20) { r.len(max.min(20_000)) } else { r.below(30) } as usize;
        v.extend_from_slice(&r.pick(&[0x5455u16, 0x7875, 0x000A, 0xCAFE, 0x9901]).to_le_bytes());
        v.extend_from_slice(&(n as u16).to_le_bytes());
        v.extend(r.filler(n));
    }
    v
}

pub fn zip_entry(r: &mut Rng, name: String, huge: bool) -> ZEntry {
    let n = r.below(60) as usize;
    let gap = if huge && r.one_in(3) { r.log(1 << 34) } else if r.one_in(4) { size(r, false) } else { 0 };
    let clen = if r.one_in(15) { r.len(65_535) } else if r.one_in(4) { r.below(40) } else { 0 } as usize;
    let mut comment = r.filler(clen);
    if clen > 30 && r.coin() {
        comment[..22].copy_from_slice(b"PK\x01\x02AndroidManifest.xml"[..22].as_ref());
    }
    let mut data = r.filler(n);
    if let Some(w) = words::bytes(r, 2) {
        data.splice(0..0, w.iter().copied());
    }
    let deflated = r.coin();
    let method = match deflated {
        true if r.one_in(4) => *r.pick(&[1, 6, 9, 12, 14, 20, 93, 95, 96, 97, 98, 99]),
        true => 8,
        false => 0,
    };
    ZEntry {
        narrow: r.coin(),
        secret: name != "mimetype" && r.one_in(6),
        name,
        data,
        gap,
        method,
        deflated,
        extra: extra_field(r, 60_000),
        lextra: extra_field(r, 3000),
        comment,
        descriptor: r.one_in(4),
    }
}

const ODG_DEFLATED: &[u8; 43] = b"\x05\xC1\x81\x09\x00\x20\x08\x04\xC0\x8D\x6C\x26\xD1\x28\xA1\x7C\x49\x6B\xFE\xEE\x38\x62\x99\x70\x19\xBC\x3D\x57\x02\xA7\x25\x21\xBA\x2B\xE4\xEE\xEE\x45\xE3\x70\x4C\x93\xFC";

fn zip_mimetype(r: &mut Rng) -> (ZEntry, Option<F>) {
    let text = if r.one_in(5) {
        r.pick(&["application/zip", "text/plain", "", "application/epub+zip2", "application/vnd.oasis.opendocument", "x"]).to_string()
    } else {
        r.pick(ZIP_MIME).0.to_string()
    };
    let text = if r.one_in(5) { altered(r, &text) } else { text };
    let fmt = ZIP_MIME.iter().find(|m| m.0 == text.trim()).map_or(F::Zip, |m| m.1);
    let (text, fmt) = match words::text(r, 3) {
        Some(t) if t.len() < 1000 => (t.to_string(), ZIP_MIME.iter().find(|m| m.0 == t.trim()).map_or(F::Zip, |m| m.1)),
        _ => (text, fmt),
    };
    let mut e = zip_entry(r, "mimetype".into(), false);
    let (a, b) = (*r.pick(&["", "", "", " ", "\r\n", "\t "]), *r.pick(&["", "", "\n", "\r\n", "  ", "\t\n\n"]));
    let (mut a, mut b) = (a.to_string(), b.to_string());
    if r.one_in(5) {
        // Blanks of all kinds, up to the limit.
        let room = 1024 - text.len() - a.len() - b.len();
        let n = if r.coin() { room } else { r.idx(room + 1) };
        let blank = *r.pick(&[' ', '\n', '\t', '\u{b}', '\u{c}', '\u{a0}', '\u{85}', '\u{3000}']);
        let k = r.idx(n + 1) / blank.len_utf8();
        a.extend(std::iter::repeat_n(blank, k));
        b.extend(std::iter::repeat_n(*r.pick(&[' ', '\r', '\n']), n - k * blank.len_utf8()));
    }
    e.data = format!("{a}{text}{b}").into_bytes();
    assert!(e.data.len() <= 1024);
    e.gap = 0;
    e.deflated = r.one_in(6);
    let odd = 1 + r.below(0xFFFF) as u16;
    e.method = if r.one_in(3) { *r.pick(&[1, 6, 9, 12, 14, 93, 95, 98, 99, 0x100, 0x800, 0x8000, odd]) } else { 8 };
    if e.deflated && r.one_in(4) {
        // What python's zipfile makes of "application/vnd.oasis.opendocument.graphics": 43 bytes again.
        e.data = ODG_DEFLATED.to_vec();
    } else if e.deflated {
        let n = e.data.len();
        e.data = r.filler(n);
    }
    if r.one_in(10) {
        e.lextra = { let n = r.len(30_000) as usize; r.filler(n) };
    }
    let verdict = if e.deflated { None } else { Some(fmt) };
    (e, verdict)
}

pub fn zip_plan(r: &mut Rng, huge: bool) -> (Vec<ZEntry>, F) {
    let n = match r.below(12) {
        0 => 1,
        1 => r.below(4),
        2 if r.one_in(600) => *r.pick(&[65_534, 65_535, 65_536, 65_537, 65_600, 66_000, 4096]),
        2 if r.one_in(4) => 1000 + r.below(100),
        3 => 100 + r.below(200),
        _ => 1 + r.below(14),
    };
    // Where the first characteristic entry stands, if there is one.
    let at = if r.one_in(4) { u64::MAX } else if r.coin() { n.saturating_sub(1).min(1023) } else { r.below(n.max(1)).min(1023) };
    let strict = n > 60 || r.coin();
    let mut es = Vec::new();
    let mut verdict = None;
    let mut java = false;
    for k in 0..n {
        if k >= 1200 {
            es.push(ZEntry { name: format!("{k}"), method: 0, ..Default::default() });
        } else if k == at || (k > at && r.one_in(3)) {
            if r.one_in(3) {
                let (e, f) = zip_mimetype(r);
                if verdict.is_none() && k < 1024 {
                    verdict = f;
                }
                es.push(e);
            } else {
                let name = zip_marker_name(r);
                if verdict.is_none() && k < 1024 {
                    verdict = zip_rule(&name);
                }
                es.push(zip_entry(r, name, huge));
            }
        } else {
            let name = match r.below(6) {
                0 if r.one_in(3) => MANIFEST.to_string(),
                1 => r.pick(ZIP_NEAR).to_string(),
                2 => {
                    let s = match r.below(8) {
                        0 => MANIFEST.to_string(),
                        1 => "mimetype".to_string(),
                        _ => zip_marker_name(r),
                    };
                    let mut s = altered(r, &s);
                    if s == "mimetype" {
                        s.push('s');
                    }
                    s
                }
                3 => {
                    let mut s = format!("dir/{}", word(r));
                    s.truncate(65_000);
                    s
                }
                _ => r.pick(ZIP_NEUTRAL).to_string(),
            };
            let name = match words::text(r, 2) {
                Some(t) => zip_worded(r, t),
                _ => name,
            };
            // Near misses that are none settle the verdict early, which long directories are not for.
            let name = if strict && k < at && zip_rule(&name).is_some() { format!("entry{k}") } else { name };
            if verdict.is_none() && k < 1024 {
                verdict = zip_rule(&name);
            }
            if name == MANIFEST && k < 1024 {
                java = true;
            }
            es.push(zip_entry(r, name, huge && n < 50));
        }
    }
    (es, verdict.unwrap_or(if java { F::JavaArchive } else { F::Zip }))
}

pub struct ZLayout {
    pub zip64: bool,
    pub comment: Vec<u8>,
    pub shuffle_local: bool,
}

pub fn zip_layout(r: &mut Rng) -> ZLayout {
    let n = match r.below(5) {
        0 => r.len(65_535),
        1 => *r.pick(&[65_535, 65_534, 65_533, 65_514, 65_513, 1, 4, 21, 22, 23, 8192]),
        _ => 0,
    } as usize;
    let mut comment = r.filler(n);
    for _ in 0..r.below(4) {
        let d: &[u8] = r.pick(&[
            &b"PK\x05\x06"[..],
            b"PK\x06\x07",
            b"PK\x05\x06\0\0\0\0\x01\0\x01\0\0\0\0\0\0\0\0\0\0\0",
            b"PPK\x05\x06",
            b"PK\x06\x06",
            b"PK\x05",
        ]);
        if n > d.len() {
            let k = if r.one_in(3) { n - d.len() } else { r.idx(n - d.len() + 1) };
            comment[k..k + d.len()].copy_from_slice(d);
        }
    }
    // A fake record whose own comment would end with the file is a second, equally valid reading.
    for k in 0..n.saturating_sub(21) {
        if comment[k..].starts_with(b"PK\x05\x06") && u16::from_le_bytes([comment[k + 20], comment[k + 21]]) as usize == n - k - 22 {
            comment[k] = b'X';
        }
    }
    ZLayout { zip64: r.one_in(3), comment, shuffle_local: r.one_in(3) }
}

pub fn zip_build(r: &mut Rng, es: &[ZEntry], l: &ZLayout) -> B {
    let mut b = B::new();
    let mut order: Vec<usize> = (0..es.len()).collect();
    if l.shuffle_local {
        r.shuffle(&mut order);
    }
    // Container specifications put the mimetype entry first; it is judged in the first 4 GiB only.
    if es.iter().map(|e| e.gap).sum::<u64>() > 3 << 30 {
        order.sort_by_key(|&k| es[k].name != "mimetype");
    }
    let mut at = vec![0u64; es.len()];
    let sizes = |e: &ZEntry| {
        let c = e.data.len() as u64 + e.gap;
        // Deflating short data often saves nothing: mimetype contents keep their size or grow.
        (c, match c % 3 {
            _ if !e.deflated => c,
            0 => c,
            1 => c + 1 + (c % 7),
            _ => c - 1,
        })
    };
    for &k in &order {
        let e = &es[k];
        at[k] = b.pos;
        let (c, u) = sizes(e);
        let big = c >= u32::MAX as u64 || u >= u32::MAX as u64;
        let mut lextra = e.lextra.clone();
        if big {
            let mut z = vec![1, 0, 16, 0];
            z.extend(u.to_le_bytes());
            z.extend(c.to_le_bytes());
            z.extend(lextra);
            lextra = z;
        }
        let flags = if e.descriptor { 8 } else { 0 } | u16::from(e.secret) | if e.narrow { 0 } else { 0x800 } | if e.deflated { 2 * r.below(4) as u16 } else { 0 };
        let name = wire(e);
        b.put(b"PK\x03\x04").u16le(*r.pick(&[20, 10, 45, 63])).u16le(flags).u16le(if e.deflated { e.method.max(1) } else { 0 });
        b.u32le(r.u64() as u32).u32le(r.u64() as u32);
        if e.descriptor {
            b.u32le(0).u32le(0);
        } else {
            b.u32le(c.min(u32::MAX as u64) as u32).u32le(u.min(u32::MAX as u64) as u32);
        }
        b.u16le(name.len() as u16).u16le(lextra.len() as u16).put(&name).put(&lextra).put(&e.data).gap(e.gap);
        if e.descriptor {
            b.put(b"PK\x07\x08").u32le(0x1234_5678).u32le(c as u32).u32le(u as u32);
        }
    }
    let mut huge = b.pos >= u32::MAX as u64;
    let start = b.pos;
    for (k, e) in es.iter().enumerate() {
        let (c, u) = sizes(e);
        let mut z = Vec::new();
        if u >= u32::MAX as u64 || c >= u32::MAX as u64 {
            z.extend(u.to_le_bytes());
            z.extend(c.to_le_bytes());
        }
        let big = !z.is_empty();
        let far = at[k] >= u32::MAX as u64;
        if far {
            z.extend(at[k].to_le_bytes());
        }
        let mut extra = Vec::new();
        if !z.is_empty() {
            huge = true;
            extra.extend([1, 0, z.len() as u8, 0]);
            extra.extend(z);
        }
        extra.extend(&e.extra);
        let flags = if e.descriptor { 8 } else { 0 } | u16::from(e.secret) | if e.narrow { 0 } else { 0x800 } | if e.deflated { 2 * r.below(4) as u16 } else { 0 };
        let name = wire(e);
        b.put(b"PK\x01\x02").u16le(*r.pick(&[0x031E, 20, 0x0314, 0x0A3F, 0x0B14, 0x132D])).u16le(*r.pick(&[20, 10, 45, 63])).u16le(flags).u16le(if e.deflated { e.method.max(1) } else { 0 });
        b.u32le(r.u64() as u32).u32le(r.u64() as u32);
        b.u32le(if big { u32::MAX } else { c as u32 }).u32le(if big { u32::MAX } else { u as u32 });
        b.u16le(name.len() as u16).u16le(extra.len() as u16).u16le(e.comment.len() as u16);
        b.u16le(0).u16le(r.below(2) as u16).u32le(*r.pick(&[0x81A4_0000, 0, 0x10, 0x20, 0x41ED_0010])).u32le(if far { u32::MAX } else { at[k] as u32 });
        b.put(&name).put(&extra).put(&e.comment);
    }
    let cd_size = b.pos - start;
    let n = es.len() as u64;
    let zip64 = l.zip64 || huge || n >= 65_535;
    if zip64 {
        let rec = b.pos;
        let ext = if r.one_in(4) { r.below(40) } else { 0 };
        b.put(b"PK\x06\x06").u64le(44 + ext).u16le(45).u16le(45).u32le(0).u32le(0).u64le(n).u64le(n).u64le(cd_size).u64le(start);
        b.opaque(r, ext);
        b.put(b"PK\x06\x07").u32le(0).u64le(rec).u32le(1);
    }
    // Each field is either real or deferred to the ZIP64 record, which is a must only if it does not fit.
    let all = r.coin();
    let mut defer = |fits: bool| zip64 && (!fits || all || r.one_in(3));
    let (few, small, near) = (defer(n < 0xFFFF), defer(cd_size < u32::MAX as u64), defer(start < u32::MAX as u64));
    b.put(b"PK\x05\x06").u16le(0).u16le(0);
    b.u16le(if few { 0xFFFF } else { n as u16 }).u16le(if few { 0xFFFF } else { n as u16 });
    b.u32le(if small { u32::MAX } else { cd_size as u32 });
    b.u32le(if near { u32::MAX } else { start as u32 });
    b.u16le(l.comment.len() as u16).put(&l.comment);
    b
}

pub fn zip(r: &mut Rng) -> Case {
    retry(r, |r| {
        let huge = r.one_in(8);
        let (mut es, f) = zip_plan(r, huge);
        let mut l = zip_layout(r);
        // Zip64 records may not stand first: the signature needs a local header or an empty directory.
        if es.is_empty() {
            l.zip64 = false;
        }
        // Without ZIP64 records, what precedes the end record may look like the locator of one.
        if !es.is_empty() && r.one_in(5) {
            let mut fake = b"PK\x06\x07\0\0\0\0".to_vec();
            fake.extend(r.pick(&[0u64, 4, 30, 100, u64::MAX, 1 << 32, u32::MAX as u64]).to_le_bytes());
            fake.extend([1, 0, 0, 0]);
            let last = es.len() - 1;
            if r.coin() && es[last].comment.len() < 60_000 {
                es[last].comment.extend(fake);
            } else if es[last].comment.is_empty() && es[last].extra.len() < 60_000 {
                es[last].extra.extend([0xFE, 0xCA, 20, 0]);
                es[last].extra.extend(fake);
            }
        }
        let b = zip_build(r, &es, &l);
        let tag = format!("zip entries={} comment={} zip64={} len={}", es.len(), l.comment.len(), l.zip64, b.v.len);
        finish(r, b.v, F::Zip, vec![f], tag)
    })
}

// --- CFB --------------------------------------------------------------------------------------

pub const CLSIDS: &[(&str, F)] = &[
    ("e60f81e1-49b3-11d0-93c3-7e0706000000", F::AutodeskInventorAssembly),
    ("bbf9fdf1-52dc-11d0-8c04-0800090be8ec", F::AutodeskInventorDrawing),
    ("4d29b490-49b2-11d0-93c3-7e0706000000", F::AutodeskInventorPart),
    ("76283a80-50dd-11d3-a7e3-00c04f79d7bc", F::AutodeskInventorPresentation),
    ("402efe62-1999-101b-99ae-04021c007002", F::CorelPresentations7),
    ("597caa70-72aa-11cf-831e-524153480000", F::FlashProject),
    ("b4f235fe-dca6-4803-b7b2-c25a453c836b", F::FlashProject),
    ("00020810-0000-0000-c000-000000000046", F::MicrosoftExcelSpreadsheet),
    ("00020820-0000-0000-c000-000000000046", F::MicrosoftExcelSpreadsheet),
    ("00044851-0000-0000-c000-000000000046", F::MicrosoftPowerpointPresentation),
    ("64818d10-4f9b-11cf-86ea-00aa00b929e8", F::MicrosoftPowerpointPresentation),
    ("ea7bae70-fb3b-11cd-a903-00aa00510ea3", F::MicrosoftPowerpointPresentation),
    ("74b78f3a-c8c8-11d1-be11-00c04fb6faf1", F::MicrosoftProjectPlan),
    ("00021201-0000-0000-00c0-000000000046", F::MicrosoftPublisherDocument),
    ("000c1084-0000-0000-c000-000000000046", F::MicrosoftSoftwareInstaller),
    ("00021a13-0000-0000-c000-000000000046", F::MicrosoftVisioDrawing),
    ("00021a14-0000-0000-c000-000000000046", F::MicrosoftVisioDrawing),
    ("00020900-0000-0000-c000-000000000046", F::MicrosoftWordDocument),
    ("00020906-0000-0000-c000-000000000046", F::MicrosoftWordDocument),
    ("00021303-0000-0000-c000-000000000046", F::MicrosoftWorksDatabase),
    ("28cddbc3-0ae2-11ce-a29a-00aa004a1a72", F::MicrosoftWorksDatabase),
    ("00021302-0000-0000-c000-000000000046", F::MicrosoftWorksWordProcessor),
    ("0ea45ab2-9e0a-11d1-a407-00c04fb932ba", F::MicrosoftWorksWordProcessor),
    ("28cddbc2-0ae2-11ce-a29a-00aa004a1a72", F::MicrosoftWorksWordProcessor),
    ("83a33d36-27c5-11ce-bfd4-00400513bb57", F::SolidworksAssembly),
    ("83a33d34-27c5-11ce-bfd4-00400513bb57", F::SolidworksDrawing),
    ("83a33d30-27c5-11ce-bfd4-00400513bb57", F::SolidworksPart),
    ("3f543fa0-b6a6-101b-9961-04021c007002", F::Starcalc),
    ("6361d441-4235-11d0-89cb-008029e4b0b1", F::Starcalc),
    ("c6a5b861-85d6-11d1-89cb-008029e4b0b1", F::Starcalc),
    ("02b3b7e0-4225-11d0-89ca-008029e4b0b1", F::Starchart),
    ("bf884321-85dd-11d1-89d0-008029e4b0b1", F::Starchart),
    ("fb9c99e0-2c6d-101c-8e2c-00001b4cc711", F::Starchart),
    ("2e8905a0-85bd-11d1-89d0-008029e4b0b1", F::Stardraw),
    ("af10aae0-b36d-101b-9961-04021c007002", F::Stardraw),
    ("012d3cc0-4216-11d0-89cb-008029e4b0b1", F::Starimpress),
    ("565c7221-85bc-11d1-89d0-008029e4b0b1", F::Starimpress),
    ("02b3b7e1-4225-11d0-89ca-008029e4b0b1", F::Starmath),
    ("d4590460-35fd-101c-b12a-04021c007002", F::Starmath),
    ("ffb5e640-85de-11d1-89d0-008029e4b0b1", F::Starmath),
    ("8b04e9b0-420e-11d0-a45e-00a0249d57b1", F::Starwriter),
    ("c20cf9d1-85ae-11d1-aab4-006097da561a", F::Starwriter),
    ("dc5c7e40-b35c-101b-9961-04021c007002", F::Starwriter),
    ("1cdd8c7b-81c0-45a0-9fed-04143144cc1e", F::ThreeDimensionalStudioMax),
    ("519873ff-2dad-0220-1937-0000929679cd", F::WordperfectDocument),
    ("402efe60-1999-101b-99ae-04021c007002", F::WordperfectGraphics),
];

/// The 16 bytes of a class identifier as stored: the first three fields little-endian.
pub fn guid(s: &str) -> [u8; 16] {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let x: Vec<u8> = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
    let mut o = [0u8; 16];
    for (k, i) in [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].into_iter().enumerate() {
        o[k] = x[i];
    }
    o
}

fn utf16(s: &str) -> Vec<u8> {
    s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect()
}

fn dir_entry(r: &mut Rng, name: &str, clsid: [u8; 16], kind: u8) -> Vec<u8> {
    let mut e = vec![0u8; 128];
    let n = utf16(name);
    e[..n.len()].copy_from_slice(&n);
    let nl = if name.is_empty() { 0 } else { n.len() as u16 + 2 };
    e[64..66].copy_from_slice(&nl.to_le_bytes());
    e[66] = kind;
    e[67] = 1;
    e[68..80].copy_from_slice(&[0xFF; 12]);
    e[80..96].copy_from_slice(&clsid);
    let tail = r.bytes(28);
    if r.coin() {
        e[100..128].copy_from_slice(&tail);
    }
    e
}

pub fn cfb_with(r: &mut Rng, known: Option<usize>) -> Option<Case> {
    let v4 = r.coin();
    let sector: u64 = if v4 { 4096 } else { 512 };
    let loc: u32 = match r.below(6) {
        0 => 0,
        1 => r.u32(),
        2 => *r.pick(&[0xFFFF_FFFA, 0x7FFF_FFFF, 0x8000_0000, 0x7F_FFFF, 0x80_0000, 0xFFFFF, 0x10_0000, 0xFFFF_FFF9]),
        _ => r.below(64) as u32,
    };
    let (clsid, mut want) = match known {
        Some(k) => (guid(CLSIDS[k].0), CLSIDS[k].1),
        None => {
            let mut g = match r.below(4) {
                0 => [0u8; 16],
                1 => r.bytes(16).try_into().unwrap(),
                // One bit away from a known identifier, or a known one in the other byte order.
                2 => {
                    let mut g = guid(r.pick(CLSIDS).0);
                    g[r.idx(16)] ^= 1 << r.idx(8);
                    g
                }
                _ if r.coin() && words::on() => {
                    let w = words::bytes(r, 1).unwrap();
                    let dashed = w.len() == 36 && w.iter().enumerate().all(|(k, c)| if [8, 13, 18, 23].contains(&k) { *c == b'-' } else { c.is_ascii_hexdigit() });
                    let mut g: [u8; 16] = r.bytes(16).try_into().unwrap();
                    if dashed {
                        g = guid(std::str::from_utf8(w).unwrap());
                    } else {
                        let n = w.len().min(16);
                        g[..n].copy_from_slice(&w[..n]);
                    }
                    g
                }
                _ => {
                    let mut g = guid(r.pick(CLSIDS).0);
                    g[..4].reverse();
                    g[4..6].reverse();
                    g[6..8].reverse();
                    g
                }
            };
            let hits = |g: &[u8; 16]| CLSIDS.iter().any(|c| guid(c.0) == *g);
            if hits(&g) {
                g = [0; 16];
            }
            (g, F::CompoundFileBinary)
        }
    };
    let names = ["", "WordDocument", "MatOST", "WksSSWorkBook", "matost", "MatOS", "WksSSWorkBoo", "Contents", "\u{5}SummaryInformation", "MatOST2"];
    let pick = |r: &mut Rng| match r.below(3) {
        0 => "MatOST",
        1 => "WksSSWorkBook",
        _ => match words::text(r, 2) {
            Some(t) if t.encode_utf16().count() < 32 && !t.starts_with("MatOST") && !t.starts_with("WksSSWorkBook") => t,
            _ => *r.pick(&names[..9]),
        },
    };
    let (n2, n3) = (pick(r), pick(r));
    if known.is_none() {
        want = if n2 == "MatOST" {
            F::MicrosoftWorksWordProcessor
        } else if n3 == "WksSSWorkBook" {
            F::MicrosoftWorks6Spreadsheet
        } else {
            F::CompoundFileBinary
        };
    }
    let mut b = B::new();
    b.put(b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1").put(&[0; 16]).u16le(0x3E).u16le(if v4 { 4 } else { 3 }).u16le(0xFFFE);
    b.u16le(if v4 { 12 } else { 9 }).u16le(6).put(&[0; 6]).u32le(if v4 { 1 } else { 0 }).u32le(1).u32le(loc).u32le(0).u32le(4096);
    b.u32le(0xFFFF_FFFE).u32le(0).u32le(0xFFFF_FFFE).u32le(0);
    let rest = r.filler((512 - b.pos) as usize);
    b.put(&rest);
    b.gap(sector * (1 + loc as u64) - 512);
    let mut dir = dir_entry(r, "Root Entry", clsid, 5);
    let (other, other3) = (guid(r.pick(CLSIDS).0), guid(r.pick(CLSIDS).0));
    let c2 = if r.coin() { other } else { [0; 16] };
    dir.extend(dir_entry(r, n2, c2, 2));
    let c3 = if r.coin() { other3 } else { [0; 16] };
    dir.extend(dir_entry(r, n3, c3, 2));
    dir.extend(dir_entry(r, "Z", [0; 16], 2));
    dir.resize(sector as usize, 0);
    b.put(&dir);
    if r.one_in(3) {
        let n = size(r, true);
        b.gap(n);
    }
    // A short file of version 4 still has a whole header sector.
    let tag = format!("cfb v{} dir={loc:#x} clsid={clsid:02x?} {n2:?} {n3:?}", if v4 { 4 } else { 3 });
    finish(r, b.v, F::CompoundFileBinary, vec![want], tag)
}

pub fn cfb(r: &mut Rng) -> Case {
    retry(r, |r| {
        let k = if r.one_in(3) { None } else { Some(r.idx(CLSIDS.len())) };
        cfb_with(r, k)
    })
}

// --- EBML -------------------------------------------------------------------------------------

fn vint(r: &mut Rng, n: u64) -> Vec<u8> {
    let mut w = 1;
    // All ones is reserved for the unknown size.
    while w < 8 && n >= (1u64 << (7 * w)) - 1 {
        w += 1;
    }
    if r.one_in(3) {
        w += r.below(9 - w as u64) as usize;
    }
    let v = n | (1u64 << (7 * w));
    v.to_be_bytes()[8 - w..].to_vec()
}

pub fn ebml_el(r: &mut Rng, b: &mut Vec<u8>, id: &[u8], body: &[u8]) {
    b.extend_from_slice(id);
    b.extend(vint(r, body.len() as u64));
    b.extend_from_slice(body);
}

const EBML_UNKNOWN: &[&[u8]] = &[
    b"\xEC", b"\xBF", b"\x73\xA4", b"\x2A\xD7\xB1", b"\x4D\x80", b"\x57\x41", b"\x7B\xA9", b"\x42\x86", b"\x10\x43\xA7\x70", b"\x1C\x53\xBB\x6B",
    b"\x11\x4D\x9B\x74", b"\x15\x49\xA9\x66", b"\x12\x54\xC3\x67", b"\x19\x41\xA4\x69", b"\xA0", b"\xA3", b"\xE7",
];

/// The identifier of an element without meaning here.
fn ebml_unknown(r: &mut Rng) -> &'static [u8] {
    const KNOWN: &[&[u8]] = &[b"\x42\x82", b"\x1A\x45\xDF\xA3", b"\x1F\x43\xB6\x75", b"\x86", b"\x18\x53\x80\x67", b"\x53\xB8", b"\x16\x54\xAE\x6B", b"\xAE", b"\xE0"];
    if let Some(w) = words::bytes(r, 3) {
        if w[0].leading_zeros() as usize + 1 == w.len() && w.len() <= 4 && !KNOWN.contains(&w) {
            return w;
        }
    }
    *r.pick(EBML_UNKNOWN)
}

/// Junk element content that would confuse a walker that lost its place.
fn ebml_junk(r: &mut Rng) -> Vec<u8> {
    if let Some(w) = words::bytes(r, 3) {
        return w.to_vec();
    }
    match r.below(4) {
        0 => b"\x86\x85V_VP8".to_vec(),
        1 => b"\x53\xB8\x81\x01".to_vec(),
        2 => b"\x42\x82\x84webm".to_vec(),
        _ => {
            let n = r.below(300) as usize;
            r.filler(n)
        }
    }
}

pub fn ebml(r: &mut Rng) -> Case {
    retry(r, |r| {
        let mut visited = 0u64;
        let mut b = B::new();
        // Header.
        let doc = match r.below(10) {
            0..=1 => "webm".to_string(),
            2 => r.pick(&["", "web", "Webm", "WEBM", "matrosk", "Matroska", "dvdnav", "x", "application/x-something-long", "xwebm", "amatroska"]).to_string(),
            _ => "matroska".to_string(),
        };
        let doc = match words::text(r, 6) {
            Some(t) if !t.starts_with("webm") && !t.starts_with("matroska") => t.to_string(),
            _ => doc,
        };
        let mut kids: Vec<(Vec<u8>, Vec<u8>)> = vec![
            (b"\x42\x86".to_vec(), vec![1]),
            (b"\x42\xF7".to_vec(), vec![1]),
            (b"\x42\xF2".to_vec(), vec![4]),
            (b"\x42\xF3".to_vec(), vec![8]),
            (b"\x42\x87".to_vec(), vec![2]),
            (b"\x42\x85".to_vec(), vec![2]),
        ];
        kids.retain(|_| r.coin());
        if r.one_in(4) {
            let n = r.len(5000) as usize;
            kids.push((b"\xEC".to_vec(), r.filler(n)));
        }
        let mut d = doc.clone().into_bytes();
        if !d.is_empty() && r.one_in(4) {
            d.extend(vec![0; r.below(20) as usize]);
        }
        let at = r.idx(kids.len() + 1);
        kids.insert(at, (b"\x42\x82".to_vec(), d));
        let mut body = Vec::new();
        for (id, c) in &kids {
            ebml_el(r, &mut body, id, c);
            visited += 1;
        }
        visited += 1;
        let mut head = Vec::new();
        ebml_el(r, &mut head, b"\x1A\x45\xDF\xA3", &body);
        b.put(&head);
        if r.one_in(8) {
            let mut v = Vec::new();
            let j = ebml_junk(r);
            ebml_el(r, &mut v, b"\xEC", &j);
            b.put(&v);
            visited += 1;
        }
        // Segment of unknown size, or of a size patched in below.
        b.put(b"\x18\x53\x80\x67");
        visited += 1;
        let unknown = r.coin();
        let size_at = b.pos;
        if unknown {
            let one: &[u8] = r.pick(&[&b"\xFF"[..], b"\x01\xFF\xFF\xFF\xFF\xFF\xFF\xFF", b"\x1F\xFF\xFF\xFF"]);
            b.put(one);
        } else {
            b.put(&[1, 0, 0, 0, 0, 0, 0, 0]);
        }
        let seg = b.pos;
        let huge = r.one_in(8);
        let filler_el = |r: &mut Rng, b: &mut B| {
            let id = ebml_unknown(r);
            if r.one_in(4) {
                let n = size(r, huge);
                b.put(id);
                let s = vint(r, n);
                b.put(&s);
                b.opaque(r, n);
            } else {
                let j = ebml_junk(r);
                let mut v = Vec::new();
                ebml_el(r, &mut v, id, &j);
                b.put(&v);
            }
        };
        for _ in 0..r.below(5) {
            filler_el(r, &mut b);
            visited += 1;
        }
        // Tracks.
        let (mut video, mut audio, mut sub, mut stereo) = (false, false, false, false);
        let ntracks = match r.below(6) {
            0 => 0,
            1 => 6 + r.below(8),
            _ => 1 + r.below(4),
        };
        let kinds = *r.pick(&[b"VASX", b"AASX", b"SSSX", b"XXXX", b"AASS"]);
        // Up to the 256th element: padding in front of the last one.
        let edge = r.one_in(8);
        let mut groups: Vec<Vec<u64>> = Vec::new();
        let split = r.one_in(5);
        for t in 0..ntracks {
            if split || groups.is_empty() {
                groups.push(vec![]);
            }
            groups.last_mut().unwrap().push(t);
        }
        for g in &groups {
            let mut entries: Vec<(Vec<u8>, u64)> = Vec::new();
            for _ in g {
                let kind = *r.pick(kinds);
                let mut v: Vec<Vec<u8>> = Vec::new();
                let mut count = 0u64;
                let el = |r: &mut Rng, id: &[u8], c: &[u8]| {
                    let mut x = Vec::new();
                    ebml_el(r, &mut x, id, c);
                    x
                };
                for (id, c) in [(&b"\xD7"[..], &[1u8][..]), (b"\x73\xC5", &[1, 2, 3]), (b"\x83", &[1]), (b"\x9C", &[0]), (b"\x22\xB5\x9C", b"eng")] {
                    if r.coin() {
                        v.push(el(r, id, c));
                        count += 1;
                    }
                }
                let codec: Vec<u8> = match kind {
                    b'V' => r.pick(&["V_MPEG4/ISO/AVC", "V_VP9", "V_AV1", "V_"]).as_bytes().to_vec(),
                    b'A' => r.pick(&["A_AAC", "A_OPUS", "A_VORBIS", "A_"]).as_bytes().to_vec(),
                    b'S' => r.pick(&["S_TEXT/UTF8", "S_VOBSUB", "S_"]).as_bytes().to_vec(),
                    _ => r.pick(&["B_VOBBTN", "", "XV_MPEG", "v_mpeg4", "V", "a_aac", "AV_"]).as_bytes().to_vec(),
                };
                let (kind, codec) = match words::text(r, 4) {
                    Some(t) if kind == b'X' && !["V_", "A_", "S_"].iter().any(|p| t.starts_with(p)) => (kind, t.as_bytes().to_vec()),
                    _ => (kind, codec),
                };
                let mut codec2 = codec.clone();
                if !codec.is_empty() && r.one_in(5) {
                    codec2.push(b'/');
                    let k = if r.one_in(4) { r.len(40_000) } else { r.below(120) };
                    codec2.extend(vec![*r.pick(b"x\0"); k as usize]);
                }
                match kind {
                    b'V' => video = true,
                    b'A' => audio = true,
                    b'S' => sub = true,
                    _ => {}
                }
                v.push(el(r, b"\x86", &codec2));
                count += 1;
                if r.one_in(3) {
                    let n = r.len(9000) as usize;
                    let c = r.filler(n);
                    v.push(el(r, b"\x63\xA2", &c));
                    count += 1;
                }
                if kind == b'A' {
                    v.push(el(r, b"\xE1", b"\xB5\x84\x47\x3B\x80\x00\x9F\x81\x02"));
                    count += 1;
                }
                if kind == b'V' {
                    let mut vid: Vec<Vec<u8>> = vec![el(r, b"\xB0", &[2, 128]), el(r, b"\xBA", &[1, 224])];
                    count += 3;
                    if r.one_in(3) {
                        let wide = if r.one_in(4) { 8 } else { 2 };
                        let w = 1 + r.idx(wide);
                        let mut m = vec![0u8; w];
                        if r.one_in(3) {
                            m[w - 1] = 1 + r.below(14) as u8;
                            if r.one_in(4) {
                                // Values yet to be defined.
                                m = vec![0; w];
                                let k = r.idx(w);
                                m[k] = r.u8() | 1;
                            }
                            stereo = true;
                        }
                        vid.push(el(r, b"\x53\xB8", &m));
                        count += 1;
                    }
                    r.shuffle(&mut vid);
                    let c = vid.concat();
                    v.push(el(r, b"\xE0", &c));
                }
                r.shuffle(&mut v);
                let mut e = Vec::new();
                let c = v.concat();
                ebml_el(r, &mut e, b"\xAE", &c);
                entries.push((e, count + 1));
            }
            if edge && visited < 200 {
                let total: u64 = entries.iter().map(|e| e.1).sum::<u64>() + 1;
                while visited + total < 256 {
                    b.put(b"\xEC\x80");
                    visited += 1;
                }
            }
            let mut t = Vec::new();
            let c: Vec<u8> = entries.iter().flat_map(|e| e.0.clone()).collect();
            ebml_el(r, &mut t, b"\x16\x54\xAE\x6B", &c);
            visited += 1 + entries.iter().map(|e| e.1).sum::<u64>();
            b.put(&t);
        }
        if visited > 256 {
            return None;
        }
        for _ in 0..r.below(3) {
            filler_el(r, &mut b);
        }
        match r.below(4) {
            0 => {
                b.put(b"\x1F\x43\xB6\x75\xFF");
                let n = size(r, true);
                b.gap(n);
            }
            1 | 2 => {
                let mut v = Vec::new();
                let j = r.bytes(40);
                ebml_el(r, &mut v, b"\x1F\x43\xB6\x75", &j);
                // Tracks behind the first cluster are not looked at.
                b.put(&v);
                filler_el(r, &mut b);
            }
            _ => {}
        }
        if !unknown {
            let n = b.pos - seg;
            let mut e = n.to_be_bytes();
            e[0] = 1;
            b.patch(size_at, &e);
        }
        let want = match doc.as_str() {
            "webm" => F::Webm,
            "matroska" if stereo => F::Matroska3dVideo,
            "matroska" if video => F::MatroskaVideo,
            "matroska" if audio => F::MatroskaAudio,
            "matroska" if sub => F::MatroskaSubtitles,
            _ => F::ExtensibleBinaryMetaLanguage,
        };
        let tag = format!("ebml doc={doc} v={video} a={audio} s={sub} 3d={stereo} visited={visited} len={}", b.v.len);
        finish(r, b.v, F::ExtensibleBinaryMetaLanguage, vec![want], tag)
    })
}

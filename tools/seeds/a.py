def zdemo(body): return "fn main() {\n" + body + "\n}"

seed("pdf-window-decimal", "C19", "READ_LIMIT: usize = 33_554_432;", "READ_LIMIT: usize = 32_000_000;",
     "a PDF of more than 32,000,000 bytes with the Illustrator marker in its last part before 32 MiB",
     "Artwork whose marker lies between 32,000,000 and 33,554,432 bytes is reported as a plain PDF",
     r'''
fn main() {
    let mut v = b"%PDF-1.6\n".to_vec();
    v.resize(33_000_000, b' ');
    v.extend(b"%AI5_AIPrivateData1");
    expect("marker at 33,000,000", FileFormat::from_bytes(&v), FileFormat::AdobeIllustratorArtwork);
    v.truncate(33_000_010);
    expect("no marker", FileFormat::from_bytes(&v), FileFormat::PortableDocumentFormat);
}''')

seed("pdf-overlap-start", "C19", "let start = if total_nread == 0 { OVERLAP_SIZE } else { 0 };", "let start = if total_nread == 0 { OVERLAP_SIZE } else { 1 };",
     "a marker of which exactly all bytes but the last lie before the end of an internal chunk",
     "A marker cut one byte before its end by the internal buffer is missed",
     r'''
fn main() {
    for at in 32_700..32_800usize {
        let mut v = b"%PDF-1.6\n".to_vec();
        v.resize(at, b' ');
        v.extend(b"AIPrivateData1 and more");
        v.resize(70_000, b' ');
        expect(&format!("marker at {at}"), FileFormat::from_bytes(&v), FileFormat::AdobeIllustratorArtwork);
    }
}''')

seed("sketch-window-from-start", "C20", "let mut buf = [0; 32_768];", "let mut buf = [0; 32_768 - 100];",
     "a Sketch database whose marker ends in the last 100 bytes of the window",
     "The window counts from the start of the file instead of from the end of its header",
     r'''
fn main() {
    for at in [100usize, 5000, 32_700, 32_768 - 26, 32_800, 32_868 - 26] {
        let mut v = b"SQLite format 3\0".to_vec();
        v.resize(at, 7);
        v.extend(b"com.bohemiancoding.sketch3");
        v.resize(50_000, 7);
        expect(&format!("marker at {at}"), FileFormat::from_bytes(&v), FileFormat::Sketch);
    }
}''')

seed("find-end-exclusive", "C20", "while data_index < data.len() {", "while data_index + 1 < data.len() {",
     "a marker that ends exactly where the data ends",
     "A marker at the very end of the file is missed",
     r'''
fn main() {
    let mut v = b"SQLite format 3\0".to_vec();
    v.resize(4096, 7);
    v.extend(b"com.bohemiancoding.sketch3");
    expect("marker at the end", FileFormat::from_bytes(&v), FileFormat::Sketch);
}''')

seed("xml-order-tt-before-tileset", "C21", '} else if buf.holds("<tt") && buf.holds("xmlns=\\"http://www.w3.org/ns/ttml\\"") {', '} else if buf.holds("<tt ") && buf.holds("xmlns=\\"http://www.w3.org/ns/ttml\\"") {',
     "a TTML root element whose name is followed by a line break or a tab",
     "A TTML document with its attributes on lines of their own is reported as XML",
     r'''
fn main() {
    for sep in [" ", "\n", "\t", "\r\n    "] {
        let v = format!("<?xml version=\"1.0\"?>\n<tt{sep}xml:lang=\"en\"{sep}xmlns=\"http://www.w3.org/ns/ttml\">\n</tt>\n");
        expect("ttml", FileFormat::from_bytes(&v), FileFormat::TimedTextMarkupLanguage);
    }
}''')

seed("xml-window-4096", "C21", "let mut buf = [0; 8192];", "let mut buf = [0; 4096];",
     "a long comment before the root element", "A root element after the first 4 KiB is not seen",
     r'''
fn main() {
    for n in [10usize, 4000, 5000, 8000] {
        let v = format!("<?xml version=\"1.0\"?>\n<!--{}-->\n<gpx version=\"1.1\">", " x".repeat(n / 2));
        expect(&format!("comment of {n}"), FileFormat::from_bytes(&v), FileFormat::GpsExchangeFormat);
    }
}''')

seed("zip-comment-max", "C11", "EOCD_MAX_SIZE: usize = EOCD_MIN_SIZE + u16::MAX as usize;", "EOCD_MAX_SIZE: usize = u16::MAX as usize;",
     "an archive comment of more than 65,513 bytes", "The end record of an archive with a comment of nearly maximal length is not found",
     r'''
fn main() {
    for n in [0usize, 100, 65_513, 65_514, 65_535] {
        let v = zip(&[entry("a.txt"), entry("word/document.xml")], &vec![b'c'; n]);
        expect(&format!("comment of {n}"), FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDocument);
    }
}''')

seed("zip64-offset-u32", "C11", "let socd_offset = reader.read_u64_le()?;", "let socd_offset = reader.read_u64_le()? as u32 as u64;",
     "a ZIP64 archive whose central directory starts beyond 4 GiB", "The directory of an archive larger than 4 GiB is read at a wrong place",
     r'''
fn main() {
    for at in [100_000u64, 5 << 30] {
        let e = entry("ppt/presentation.xml");
        let cd = central(&e, 0);
        let mut tail = cd.clone();
        let record = at + cd.len() as u64;
        tail.extend(b"PK\x06\x06");
        tail.extend(le64(44));
        tail.extend([45, 0, 45, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        tail.extend(le64(1));
        tail.extend(le64(1));
        tail.extend(le64(cd.len() as u64));
        tail.extend(le64(at));
        tail.extend(b"PK\x06\x07\0\0\0\0");
        tail.extend(le64(record));
        tail.extend(le32(1));
        tail.extend(eocd(0xFFFF, 0xFFFF_FFFF, 0xFFFF_FFFF, b""));
        let len = at + tail.len() as u64;
        let s = Sparse::new(len, vec![(0, local(&e)), (at, tail)]);
        expect(&format!("directory at {at}"), FileFormat::from_reader(s).unwrap(), FileFormat::OfficeOpenXmlPresentation);
    }
}''')

seed("zip-skip-u16", "C11", "extra_field_len as i64 + file_comment_len as i64,", "extra_field_len.wrapping_add(file_comment_len) as i64,",
     "an entry whose extra fields and comment together exceed 65,535 bytes", "The directory is misread after such an entry",
     r'''
fn main() {
    for (x, c) in [(0usize, 0usize), (65_000, 100), (40_000, 40_000)] {
        let mut e = entry("readme.txt");
        if x > 0 { e.central = extra(x); }
        e.comment = vec![b'c'; c];
        let v = zip(&[e, entry("xl/workbook.xml")], b"");
        expect(&format!("{x} and {c}"), FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlSpreadsheet);
    }
}''')

seed("zip-local-extra", "C11", "                    let filename_len = reader.read_u16_le()?;\n\n                    // Reads the extra field length.\n                    let extra_field_len = reader.read_u16_le()?;\n",
     "                    let filename_len = reader.read_u16_le()?;\n\n                    // The extra field length is known from the central directory.\n                    reader.seek(SeekFrom::Current(2))?;\n",
     "a stored mimetype entry whose extra fields differ between its local and its central header", "The mimetype is read at a wrong place",
     r'''
fn main() {
    for (l, c) in [(0usize, 0usize), (12, 12), (0, 12), (12, 0), (32, 24)] {
        let mut e = entry("mimetype");
        e.data = b"application/epub+zip".to_vec();
        if l > 0 { e.local = extra(l); }
        if c > 0 { e.central = extra(c); }
        let v = zip(&[e, entry("content.opf")], b"");
        expect(&format!("{l} and {c}"), FileFormat::from_bytes(&v), FileFormat::ElectronicPublication);
    }
}''')

seed("zip-entry-limit", "C11", "ENTRY_LIMIT: usize = 1024;", "ENTRY_LIMIT: usize = 1000;",
     "an archive whose first characteristic entry is one of the entries 1,001 to 1,024", "Entries 1,001 to 1,024 are not looked at",
     r'''
fn main() {
    for n in [0usize, 500, 999, 1000, 1023] {
        let mut es: Vec<Entry> = (0..n).map(|i| entry(&format!("x{i}.bin"))).collect();
        es.push(entry("doc.kml"));
        let v = zip(&es, b"");
        expect(&format!("entry {n}"), FileFormat::from_bytes(&v), FileFormat::KeyholeMarkupLanguageZip);
    }
}''')

seed("zip-long-name", "C11", "let filename = reader.read_string(filename_len as usize)?;", "let filename = reader.read_string(std::cmp::min(512, filename_len as usize))?;",
     "an entry with a name longer than 512 bytes before the characteristic one", "The directory is misread after an entry with a long name",
     r'''
fn main() {
    for n in [10usize, 512, 513, 4000] {
        let v = zip(&[entry(&"d/".repeat(n / 2)), entry("visio/document.xml")], b"");
        expect(&format!("name of {n}"), FileFormat::from_bytes(&v), FileFormat::OfficeOpenXmlDrawing);
    }
}''')

seed("zip-mimetype-no-trim", "C11", "return Ok(match data.trim() {", "return Ok(match data.trim_end_matches('\\n') {",
     "a mimetype entry with a carriage return or blanks around its content", "Blanks around the mimetype make the verdict ZIP",
     r'''
fn main() {
    for (a, b) in [("", ""), ("", "\n"), ("", "\r\n"), (" ", " ")] {
        let mut e = entry("mimetype");
        e.data = format!("{a}image/openraster{b}").into_bytes();
        expect("mimetype", FileFormat::from_bytes(&zip(&[e], b"")), FileFormat::Openraster);
    }
}''')

seed("cfb-offset-u32", "C12", "let offset = directory_sector_size * (1 + first_directory_sector_location as u64) + 80;",
     "let offset = u32::wrapping_mul(directory_sector_size, 1 + first_directory_sector_location) as u64 + 80;",
     "a compound file whose directory lies beyond 4 GiB", "The root entry of a large compound file is looked up at a wrong place",
     r'''
fn main() {
    for (v, s) in [(3u16, 1u32), (4, 5), (3, 0x0090_0000), (4, 0x0010_0000)] {
        let c = guid("00020906-0000-0000-c000-000000000046");
        expect(&format!("sector {s}"), FileFormat::from_reader(cfb(vec![(80, c)], v, s)).unwrap(), FileFormat::MicrosoftWordDocument);
    }
}''')

seed("cfb-clsid-typo", "C12", '"bf884321-85dd-11d1-89d0-008029e4b0b1"', '"bf884321-85dd-11d1-89d0-008029e4b1b0"',
     "a StarChart 5 file (the second of three identifiers)", "StarChart files of one version are reported as generic compound files",
     r'''
fn main() {
    for g in ["02b3b7e0-4225-11d0-89ca-008029e4b0b1", "bf884321-85dd-11d1-89d0-008029e4b0b1", "fb9c99e0-2c6d-101c-8e2c-00001b4cc711"] {
        expect(g, FileFormat::from_reader(cfb(vec![(80, guid(g))], 3, 7)).unwrap(), FileFormat::Starchart);
    }
}''')

EH = r'''
fn head(doc: &[u8]) -> Vec<u8> {
    ebml(b"\x1A\x45\xDF\xA3", &[ebml(b"\x42\x86", &[1]), ebml(b"\x42\x82", doc), ebml(b"\x42\x87", &[4])].concat())
}
fn segment(kids: &[Vec<u8>]) -> Vec<u8> { ebml(b"\x18\x53\x80\x67", &kids.concat()) }
fn codec(c: &str) -> Vec<u8> { ebml(b"\xAE", &[ebml(b"\xD7", &[1]), ebml(b"\x86", c.as_bytes())].concat()) }
fn tracks(cs: &[&str]) -> Vec<u8> { ebml(b"\x16\x54\xAE\x6B", &cs.iter().map(|c| codec(c)).collect::<Vec<_>>().concat()) }
'''
seed("ebml-doctype-padding", "C13", "                    let remaining_size = size.saturating_sub(DOC_TYPE_LIMIT as u64);", "                    let remaining_size = size.min(DOC_TYPE_LIMIT as u64) - DOC_TYPE_LIMIT as u64;",
     "a DocType element padded with zero bytes, as EBML allows", "The rest of a padded DocType is taken for an element",
     EH + r'''
fn main() {
    for n in [8usize, 9, 16, 40] {
        let mut d = b"matroska".to_vec();
        d.resize(n, 0);
        let v = [head(&d), segment(&[tracks(&["V_VP9", "A_OPUS"])])].concat();
        expect(&format!("DocType of {n}"), FileFormat::from_bytes(&v), FileFormat::MatroskaVideo);
    }
}''')

seed("ebml-limit", "C13", "ELEMENT_LIMIT: usize = 256;", "ELEMENT_LIMIT: usize = 200;",
     "tracks among the last of the first 256 elements", "Tracks after the 200th element are not seen",
     EH + r'''
fn main() {
    for n in [0usize, 150, 190, 230] {
        let mut kids: Vec<Vec<u8>> = (0..n).map(|_| ebml(b"\xEC", &[0; 3])).collect();
        kids.push(tracks(&["A_FLAC"]));
        let v = [head(b"matroska"), segment(&kids)].concat();
        expect(&format!("{n} elements before"), FileFormat::from_bytes(&v), FileFormat::MatroskaAudio);
    }
}''')

seed("ebml-first-track", "C13", "                    if codec_id.starts_with(b\"A_\") {\n                        audio_track = true;", "                    if codec_id.starts_with(b\"A_\") {\n                        audio_track = !video_track && !subtitle_track;",
     "a file with an audio track after a subtitle track and none of video", "Audio files with lyrics listed first are reported as subtitles",
     EH + r'''
fn main() {
    for c in [&["A_FLAC", "S_TEXT/UTF8"][..], &["S_TEXT/UTF8", "A_FLAC"]] {
        let v = [head(b"matroska"), segment(&[tracks(c)])].concat();
        expect(&format!("{c:?}"), FileFormat::from_bytes(&v), FileFormat::MatroskaAudio);
    }
}''')

seed("asf-long-names", "C14", "let remaining_len = len.saturating_sub(DESCRIPTOR_NAME_LIMIT as u16);", "let remaining_len = len.saturating_sub(2 * DESCRIPTOR_NAME_LIMIT as u16);",
     "a descriptor with a name of more than 64 bytes before the characteristic one", "The descriptors after one with a long name are misread",
     r'''
fn main() {
    for n in [4usize, 30, 33, 60, 200] {
        let d = descriptors(&[(wide(&"n".repeat(n)), vec![0; 4]), (wide("DVR File Version"), vec![0; 4])]);
        expect(&format!("name of {n}"), FileFormat::from_bytes(asf(&[d])), FileFormat::MicrosoftDigitalVideoRecording);
    }
}''')

seed("asf-long-values", "C14", "                        // Seeks to the next content descriptor.\n                        reader.seek(SeekFrom::Current(len as i64))?;", "                        // Seeks to the next content descriptor.\n                        reader.seek(SeekFrom::Current(len as i16 as i64))?;",
     "a descriptor with a value of 32 KiB or more, such as a picture, before the characteristic one", "The descriptors after one with a large value are misread",
     r'''
fn main() {
    for n in [4usize, 32_767, 32_768, 65_000] {
        let d = descriptors(&[(wide("WM/Picture"), vec![1; n]), (wide("DVR File Version"), vec![0; 4])]);
        expect(&format!("value of {n}"), FileFormat::from_bytes(asf(&[d])), FileFormat::MicrosoftDigitalVideoRecording);
    }
}''')

seed("mp4-first-handler", "C15", 'b"soun" => audio_track = true,', 'b"soun" => return Ok(Self::Mpeg4Part14Audio),',
     "a video file whose sound track comes first", "A video whose sound track is listed first is reported as audio",
     r'''
fn main() {
    let ftyp = mbox(b"ftyp", b"isom\0\0\x02\0isomiso2mp41");
    for t in [[&b"vide"[..], b"soun"], [b"soun", b"vide"]] {
        let v = [ftyp.clone(), mbox(b"moov", &[mbox(b"mvhd", &[0; 100]), track(t[0]), track(t[1])].concat())].concat();
        expect("order", FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Video);
    }
}''')

seed("mp4-box-limit", "C15", "BOX_LIMIT: usize = 256;", "BOX_LIMIT: usize = 240;",
     "a fragmented or otherwise busy file whose handler is one of the boxes 241 to 256", "Handlers after the 240th box are not seen",
     r'''
fn main() {
    let ftyp = mbox(b"ftyp", b"isom\0\0\x02\0isomiso2mp41");
    for n in [0usize, 100, 230, 236, 248] {
        let mut v = ftyp.clone();
        for _ in 0..n { v.extend(mbox(b"free", &[0; 5])); }
        v.extend(mbox(b"moov", &track(b"soun")));
        expect(&format!("{n} boxes before"), FileFormat::from_bytes(&v), FileFormat::Mpeg4Part14Audio);
    }
}''')

seed("rm-name-signed", "C16", "reader.seek(SeekFrom::Current(stream_name_size as i64))?;", "reader.seek(SeekFrom::Current(stream_name_size as i8 as i64))?;",
     "a stream name of 128 bytes or more", "The mime type behind a long stream name is read at a wrong place",
     r'''
fn main() {
    for n in [0usize, 20, 127, 128, 255] {
        let v = rm(&[rm_chunk(b"PROP", &[0; 42]), mdpr(&vec![b'n'; n], b"video/x-pn-realvideo"), rm_chunk(b"DATA", &[0; 10])]);
        expect(&format!("name of {n}"), FileFormat::from_bytes(&v), FileFormat::Realvideo);
    }
}''')

seed("exe-len-u32", "C17", "if offset as u64 + 4 < len {", "if offset as u64 + 4 < len as u32 as u64 {",
     "an executable of 4 GiB or more", "A PE file with an appended payload of more than 4 GiB is reported as MS-DOS executable",
     r'''
fn main() {
    for len in [10_000u64, (4 << 30) + 10, 5 << 30] {
        let mut pe = b"PE\0\0\x64\x86".to_vec();
        pe.resize(24, 0);
        pe[22] = 0x22;
        let s = Sparse::new(len, vec![(0, exe(0x80, 128)), (0x80, pe)]);
        expect(&format!("{len} bytes"), FileFormat::from_reader(s).unwrap(), FileFormat::PortableExecutable);
    }
}''')

seed("id3-size-mask", "C18", "((buf[6] as u64 & 0x7F) << 21)", "((buf[6] as u64 & 0x0F) << 21)",
     "a tag of 32 MiB or more", "Audio behind a very large tag is not found",
     r'''
fn main() {
    for n in [100usize, 1 << 21, 31 << 20, 33 << 20, 200 << 20] {
        let s = Sparse::new(n as u64 + 5000, vec![(0, id3(n, 0)), (n as u64 + 10, b"fLaC\0\0\0\x22".to_vec())]);
        expect(&format!("tag of {n}"), FileFormat::from_reader(s).unwrap(), FileFormat::FreeLosslessAudioCodec);
    }
}''')

seed("id3-footer-flag", "C18", "let footer_present = (flags & 0x10) != 0;", "let footer_present = flags == 0x10;",
     "a tag with a footer and another flag set", "Audio behind a tag with footer and extended header is not found",
     r'''
fn main() {
    for f in [0u8, 0x10, 0x30, 0x90, 0x50] {
        let mut v = id3(300, f);
        v.resize(310, 0);
        if f & 0x10 != 0 { let mut g = id3(300, f); g[..3].copy_from_slice(b"3DI"); v.extend(g); }
        v.extend(b"\xFF\xFB\x90\x64");
        v.resize(2000, 0);
        expect(&format!("flags {f:x}"), FileFormat::from_bytes(&v), FileFormat::Mpeg12AudioLayer3);
    }
}''')

seed("txt-line-limit", "C22", "LINE_LIMIT: usize = 16;", "LINE_LIMIT: usize = 12;",
     "a control character on the lines 13 to 16", "Binary data is taken for text because fewer lines are looked at",
     r'''
fn main() {
    for n in 0..16 {
        let mut v = "some words\n".repeat(n).into_bytes();
        v.extend(b"\x01\n\n\n");
        expect(&format!("line {n}"), FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData);
    }
    expect("line 16", FileFormat::from_bytes("some words\n".repeat(16) + "\x01"), FileFormat::PlainText);
}''')

seed("txt-read-limit", "C22", "READ_LIMIT: u64 = 65_536;", "READ_LIMIT: u64 = 65_000;",
     "a control character in the last 536 bytes of the first 64 KiB of a text with long lines", "Binary data is taken for text because less of it is looked at",
     r'''
fn main() {
    for n in [0usize, 100, 65_100, 65_535] {
        let mut v = vec![b'a'; n];
        v.extend(b"\x01 and more");
        v.resize(70_000, b'a');
        expect(&format!("at {n}"), FileFormat::from_bytes(&v), FileFormat::ArbitraryBinaryData);
    }
}''')

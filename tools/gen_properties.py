#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit the wording)."""
import json, os
R, L, S, M, F = "src/readers.rs", "src/lib.rs", "src/signatures.rs", "src/macros.rs", "src/formats.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Detection always returns: no panic, abort, overflow or endless loop",
  "For every byte sequence, however malformed, and every readable and seekable source, every detection entry point returns a normal result. It never panics, aborts the process, overflows an integer (also when overflow checks are enabled), exhausts the stack or loops forever, and detection from a byte slice has no failing outcome at all.",
  ["inputs", "configurations"], "All byte strings, including headers whose size, offset and count fields hold extreme values; all feature sets; builds with and without overflow checks.",
  "The tests feed one well-formed sample per format; none carries a hostile length, offset or count field, and none is truncated.",
  [L, R, M], [("bounds test before every slice in from_signature", "src/macros.rs signatures!"), ("error fallback from_fmt_reader -> from_generic_reader", "src/lib.rs FileFormat::from_reader"), ("checked field decoding", "src/readers.rs from_*_reader")],
  ["FileFormat::from_bytes", "FileFormat::from_reader", "FileFormat::from_file"])
p("C02", "One detection costs a bounded amount of work and memory",
  "Whatever sizes and counts the input claims, and however long the source is (even endless), a single detection issues at most 200,000 read and seek calls, transfers at most 512 MiB from the source (for a PDF body at most 33 MiB, for input without a reader-specific format at most 1 MiB) and never has more than 1 MiB of heap in use. It terminates on endless sources.",
  ["inputs"], "All inputs whose length, count or offset fields are chosen by an adversary, and endless sources of any repeating content.",
  "Samples are at most 33 KB and honest about their sizes; no test measures reads, seeks or heap.",
  [L, R], [("*_LIMIT constants", "src/readers.rs from_asf_reader, from_ebml_reader, from_mp4_reader, from_rm_reader, from_pdf_reader, from_txt_reader, from_zip_reader"), ("fixed head buffer", "src/lib.rs from_reader")],
  ["Read/Seek calls on the source", "global allocator"])
p("C03", "Signature recognition is exact",
  "Without reader features, an input is recognised as a format only if every byte of one of that format's published signatures is present, in full and at its offset, within the first 36,870 bytes, and an input containing such a signature is never left unrecognised. A source yields the empty format if and only if it has no bytes, and the default format exactly when it is non-empty and no signature is present.",
  ["inputs"], "Every one of the 726 signature alternatives of 343 formats, complete, truncated at every length, shifted, with every single byte altered, in arbitrary surroundings; all inputs of up to three bytes.",
  "One sample per format exercises one of several alternatives; most alternatives, all near misses and all truncations are never executed.",
  [S, M, L], [("signatures! table", "src/signatures.rs"), ("length and equality test per part", "src/macros.rs signatures!"), ("head buffer size", "src/lib.rs from_reader")],
  ["FileFormat::from_bytes", "FileFormat::from_reader"])
p("C04", "The most specific signature wins",
  "When an input carries the signatures of several formats, the reported format is one whose longest published signature is at least as long as that of every other format whose signature is present. The outcome never depends on anything but the bytes: a more general signature never hides a more specific one.",
  ["inputs"], "All inputs carrying two or more compatible signatures: the 61,558 compatible pairs of alternatives and combinations of three or more.",
  "Each sample carries its own signature only, so the order of the table is exercised for a handful of accidental overlaps.",
  [S, M], [("table listed in descending order of size", "src/signatures.rs"), ("first match returns", "src/macros.rs signatures!")],
  ["FileFormat::from_bytes"])
p("C05", "The result does not depend on how the source delivers its bytes",
  "Detection from a reader gives the same result for the same content however the reader splits it into reads: single bytes, arbitrary short reads, transient interruptions, an already partly filled buffered reader, or a pipe where no seeking is needed.",
  ["schedules", "inputs"], "All ways a Read + Seek implementation may legally split reads or report ErrorKind::Interrupted, for inputs of every format.",
  "The tests only read regular files and slices, which always fill the whole buffer in one call.",
  [L, R], [("filling of the head buffer", "src/lib.rs from_reader"), ("chunk overlap in the PDF scan", "src/readers.rs from_pdf_reader"), ("read_exact and BufReader use", "src/readers.rs ReadData")],
  ["FileFormat::from_reader with an instrumented Read + Seek"])
p("C06", "All detection entry points agree",
  "For the same content, detection from bytes (through any byte container and the slice conversion), from an in-memory reader, an open file, a borrowed or a buffered reader, and from a path (absolute, relative or through a symbolic link) give the same format. A path that cannot be opened or read, such as a missing file or a directory, gives an I/O error instead of a format.",
  ["inputs"], "All contents and all ways of handing them in.",
  "Fixture tests use from_file almost exclusively; the doc examples try from_bytes on two inputs.",
  [L], [("delegation of from_bytes, From<&[u8]> and from_file to from_reader", "src/lib.rs")],
  ["FileFormat::from_bytes", "From<&[u8]>", "FileFormat::from_reader", "FileFormat::from_file"])
p("C07", "Detection is stateless and safe to run concurrently",
  "The format reported for an input is a function of that input alone: repeating a detection, preceding it by any sequence of other detections (including failing ones), or running many detections concurrently from several threads gives the same results as running each once in a fresh process.",
  ["histories", "schedules"], "All sequences and concurrent interleavings of detection calls over the same or different inputs.",
  "Every test makes one call with one input and looks at that result only.",
  [L, R], [("no shared or static mutable state; all buffers local", "src/lib.rs, src/readers.rs")],
  ["results of concurrent and repeated calls compared with fresh-process results"])
p("C08", "I/O errors never turn into a wrong format",
  "If the source reports an I/O error while its leading bytes are being read, detection returns that error. If an error occurs at any later read or seek, the call neither panics nor reports a specific format other than the one it reports for the fault-free source: it gives that format, the error, or a generic verdict: binary data, or plain text if the content is text.",
  ["fault_sequences", "inputs"], "Every single I/O operation of a detection failing, once or from then on, with any error kind, for inputs of every reader family.",
  "No test injects an I/O error; fixture files never fail.",
  [L, R], [("? on the head read", "src/lib.rs from_reader"), ("unwrap_or_else fallback to the generic reader", "src/lib.rs from_reader")],
  ["FileFormat::from_reader with fault-injecting Read + Seek"])
p("C09", "Reader features compose independently",
  "Every subset of the reader features builds, and enabling a reader changes the verdict only for inputs whose signature is that reader's base format (or, for the text reader, inputs that would otherwise be unidentified binary data). For any feature set the verdict equals the one obtained with only the feature relevant to the input's signature plus the text feature if set, the umbrella feature equals all of them together, and the verdict does not depend on whether overflow checks are compiled in.",
  ["configurations", "inputs"], "All 4096 feature subsets and both overflow-check settings, over inputs of every family.",
  "CI builds and tests only no features and all features.",
  [R, L, "Cargo.toml"], [("cfg(feature) gates on match arms and functions", "src/readers.rs from_fmt_reader, from_generic_reader"), ("umbrella feature", "Cargo.toml [features]")],
  ["separately built workers, one per feature set, compared on the same inputs"])
p("C10", "Readers only refine within the documented family",
  "With all readers enabled, an input whose signature is that of a base format with a reader (ASF, CFB, EBML, EXE, ID3v2, MP4, PDF, RealMedia, SQLite, XML, ZIP) is reported as that base format, one of the formats documented as detected by that reader, or, when its structure is damaged, with the generic verdict its content calls for: plain text or binary data. Inputs with any other signature are reported exactly as without readers.",
  ["inputs"], "All inputs, in particular every corruption and truncation of structured files.",
  "Tests check undamaged samples only, each against its own format.",
  [L, R], [("dispatch on the signature", "src/readers.rs from_fmt_reader"), ("documented reader families", "src/lib.rs crate documentation")],
  ["FileFormat::from_bytes"])
p("C11", "ZIP-based formats are identified from the central directory",
  "For every valid ZIP archive the verdict is that of the first entry, in central directory order among the first 1,024, whose name is characteristic of a documented ZIP-based format, where a mimetype entry stored without compression (in the first 4 GiB, at most 1,024 bytes, without ZIP64 fields) settles the verdict: the format its trimmed content names, or ZIP; if there is none it is JAR when a Java manifest is listed and ZIP otherwise. This holds wherever the central directory lies (also past 4 GiB in ZIP64 archives), whatever extra fields, entry comments, entry data and archive comment up to 65,535 bytes are present.",
  ["inputs"], "All valid archives: entry order, count, name, extra, comment lengths, ZIP and ZIP64 layouts, archive comments, directory offsets.",
  "One small archive per format, with the characteristic entry near the front, no comment and no ZIP64.",
  [R], [("EOCD search", "src/readers.rs from_zip_reader"), ("central directory walk", "src/readers.rs from_zip_reader"), ("mimetype lookup through the local header", "src/readers.rs from_zip_reader")],
  ["FileFormat::from_reader, from_bytes on generated archives"])
p("C12", "Compound files are identified by root class identifier at any location",
  "For every valid compound file the verdict is the documented format its root storage class identifier belongs to, for both sector sizes and any first directory sector number. If the identifier is not a known one the verdict is Works Word Processor or Works 6 Spreadsheet when the second or third directory entry carries their characteristic stream name, and the generic compound file format otherwise.",
  ["inputs"], "All class identifiers, both major versions, all 32-bit directory sector locations, all directory contents.",
  "One sample per format with version 3 and one directory location; several of the 46 known identifiers are never exercised.",
  [R], [("directory sector computation and class identifier table", "src/readers.rs from_cfb_reader"), ("GUID byte order", "src/readers.rs read_guid")],
  ["FileFormat::from_reader on generated compound files, including virtual files beyond 4 GiB"])
p("C13", "Matroska and WebM files are identified by DocType and tracks",
  "For every well-formed EBML file: document type webm gives WebM; document type matroska gives Matroska 3D if a video track with non-zero stereo mode is reached, else Matroska Video, Audio or Subtitles by the strongest kind of track present, in that order; anything else gives the generic format. This holds for every valid element size encoding, unknown-size segments, padding and unknown elements of any size, any track order, and tracks anywhere before the first cluster among the first 256 elements.",
  ["inputs"], "All element size encodings (1 to 8 bytes), element orders, void and unknown elements, track sets.",
  "One tiny file per verdict with a single layout.",
  [R], [("element walk", "src/readers.rs from_ebml_reader"), ("track flags", "src/readers.rs from_ebml_reader")],
  ["FileFormat::from_reader on generated EBML files"])
p("C14", "ASF files are identified by streams and descriptors",
  "For every well-formed ASF file: a content descriptor named DVR File Version among the first 32 of an object gives Microsoft Digital Video Recording, otherwise a stream properties object of the header for a video stream gives WMV, otherwise one for an audio stream gives WMA, otherwise the verdict is ASF. This holds for any order, number up to 256, and size (up to 2^62 bytes) of header objects.",
  ["inputs"], "All header object sequences, sizes, descriptor names and values.",
  "Three tiny files, each with one relevant object.",
  [R], [("header object walk", "src/readers.rs from_asf_reader")],
  ["FileFormat::from_reader on generated ASF files"])
p("C15", "MP4 files are identified by their track handlers",
  "For every well-formed MPEG-4 file with a generic brand: a video track handler gives MP4 Video, otherwise a sound handler gives MP4 Audio, otherwise a subtitle or text handler gives MP4 Subtitles, otherwise the verdict is generic MP4. This holds for any box order, movie box before or after media data, unknown boxes of any size, 32-bit and 64-bit box sizes (also beyond 4 GiB), for handlers among the first 256 boxes visited.",
  ["inputs"], "All box layouts, size encodings, track orders and brands.",
  "One tiny file per verdict, movie box first, 32-bit sizes only.",
  [R], [("box walk", "src/readers.rs from_mp4_reader")],
  ["FileFormat::from_reader on generated MP4 files"])
p("C16", "RealMedia files are identified by stream mime types",
  "For every well-formed RealMedia file a media properties chunk with a video mime type gives RealVideo, otherwise one with an audio mime type gives RealAudio, otherwise the verdict is RealMedia. This holds for any order and size of chunks, any stream name and mime type length, among the first 64 chunks.",
  ["inputs"], "All chunk sequences and sizes, stream names of 0 to 255 bytes, mime types.",
  "Three tiny files with at most one chunk.",
  [R], [("chunk walk", "src/readers.rs from_rm_reader")],
  ["FileFormat::from_reader on generated RealMedia files"])
p("C17", "DOS, NE, LE and PE executables are told apart by the extended header",
  "For every executable with a full DOS header: an extended header with PE signature gives DLL if the DLL characteristic is set and PE otherwise, LE or LX gives Linear Executable, NE gives New Executable; any other or out-of-range extended header address gives MS-DOS executable. This holds for both DOS signatures and any extended header address, also near 4 GiB.",
  ["inputs"], "All extended header addresses, signatures, characteristic bit patterns and file lengths.",
  "One sample per verdict with a fixed address and characteristics value.",
  [R], [("extended header lookup", "src/readers.rs from_exe_reader")],
  ["FileFormat::from_reader on generated executables"])
p("C18", "Audio behind ID3v2 tags is identified",
  "For a file that starts with one or more (up to 16) consecutive ID3v2 tags of any version, size up to 2^28-1, extended header or footer as the ID3v2 specification lays them out, the verdict is FLAC or MP3 when the bytes that follow the last tag start with the FLAC marker or an MP3 frame header, and ID3v2 otherwise, including when nothing follows the tags.",
  ["inputs"], "All tag chains: versions 2 to 4, sizes, flags, extended headers, footers, and what follows.",
  "Three 22-byte files with a single empty tag.",
  [R], [("tag chain walk, syncsafe size", "src/readers.rs from_id3v2_reader")],
  ["FileFormat::from_reader on generated files"])
p("C19", "Illustrator artwork is found anywhere in the first 32 MiB of a PDF",
  "A PDF file whose first 32 MiB after the header contain the Illustrator private data marker, at any position and across any internal buffer boundary, is reported as Adobe Illustrator Artwork; a PDF file without the marker is reported as PDF whatever partial or overlapping fragments of the marker it contains.",
  ["inputs", "schedules"], "All marker positions up to 32 MiB, all near-miss contents, all read splittings.",
  "One small sample with the marker in the first buffer.",
  [R], [("chunked scan with overlap", "src/readers.rs from_pdf_reader"), ("Boyer-Moore-Horspool search", "src/readers.rs FindBytes::find")],
  ["FileFormat::from_reader on generated and virtual PDF files"])
p("C20", "Sketch databases are told apart from SQLite databases",
  "An SQLite 3 database whose 32 KiB after the 100-byte database header contain the Sketch marker at any position is reported as Sketch; one without the marker anywhere is reported as SQLite 3 whatever fragments of the marker it contains.",
  ["inputs"], "All marker positions within the window, all near-miss contents, all file lengths.",
  "One sample with the marker at one position.",
  [R], [("window read and search", "src/readers.rs from_sqlite3_reader, FindBytes::find")],
  ["FileFormat::from_reader on generated databases"])
p("C21", "XML documents are identified by their root element",
  "An XML document, with or without byte order mark, whose root element is one documented for an XML-based format (with the attributes documented for AbiWord, TTML and Uniform Office formats) and starts within the first 8 KiB is reported as that format, whatever declarations, comments, whitespace or doctype precede it, provided no other such element occurs there. A document in which no tag begins with any of these names is reported as generic XML.",
  ["inputs"], "All prologs, positions within the first 8 KiB, attribute orders and near-miss element names.",
  "One sample per format with the root element near the start.",
  [R], [("marker search in the window", "src/readers.rs from_xml_reader, FindBytes::find")],
  ["FileFormat::from_bytes on generated documents"])
p("C22", "Plain text verdicts are exact",
  "With the text reader enabled, a non-empty input without a recognised signature is reported as plain text if and only if the part examined, at most its first 16 lines and its first 64 KiB, is valid UTF-8 (a character left incomplete at the 64 KiB limit does not count against it) and contains no control character other than whitespace; otherwise it is reported as binary data.",
  ["inputs"], "All byte strings: every position and kind of control character or malformed UTF-8, all line structures, all positions relative to the two limits.",
  "One text sample and a few binary ones.",
  [R, L], [("line and byte limits, control character test", "src/readers.rs from_txt_reader"), ("fallback to the default format", "src/readers.rs from_generic_reader")],
  ["FileFormat::from_bytes compared with an independent reference classifier"])
p("C23", "Format metadata is complete, valid and as documented",
  "Every format has the full name, short name and kind listed in the supported formats documentation, a syntactically valid media type (RFC 6838) and a non-empty extension without dot or blank, and these values together with the displayed text (the full name) are the published ones for that format. Full names are unique, each format equals itself only, and the default format is arbitrary binary data.",
  ["inputs"], "All 447 formats and all accessor functions.",
  "Tests compare variants only; the accessors are checked by one example each.",
  [F, M, "README.md"], [("formats! table", "src/formats.rs"), ("accessor generation", "src/macros.rs formats!")],
  ["name, short_name, media_type, extension, kind, Display, PartialEq, Default"])
p("C24", "Signature verdicts depend on the head of the input only",
  "For an input whose signature does not call for a reader, the verdict is a function of its first 36,870 bytes: appending or altering anything after them, or making the source unreadable past the first 64 KiB, changes nothing, and a signature that ends at byte 36,870 is still found.",
  ["inputs", "fault_sequences"], "All signatures without reader, all tails (including failing and endless ones), all lengths around the window edge.",
  "Samples are almost all shorter than the window and never vary what follows it.",
  [L, S], [("single head buffer of 36,870 bytes", "src/lib.rs from_reader")],
  ["FileFormat::from_reader with tails that vary, fail or never end"])
p("C25", "Detection from a path only observes the file",
  "Detecting the format of a path never changes the file (content, length, times, permissions) or its directory, works on read-only files, and leaves no file handle open, whether it succeeds or fails.",
  ["inputs", "histories"], "All files and long sequences of successful and failing detections by path.",
  "Tests look at the returned format only.",
  [L], [("File::open read-only, dropped on return", "src/lib.rs from_file")],
  ["FileFormat::from_file, file metadata, /proc/self/fd"])
p("C26", "The lefi example reports every argument on one aligned line",
  "For any list of existing paths the lefi program prints exactly one line per argument, in order: the argument, a colon, padding that aligns all verdicts, and then 'Symbolic Link', 'Directory' or the detected format's name with its short name in parentheses. It exits successfully, also when a path is not valid Unicode, and unsuccessfully when a path cannot be read.",
  ["inputs"], "All argument lists over files, directories, symbolic links and names with multi-byte or non-Unicode characters.",
  "The example is compiled by the tests and never run.",
  ["examples/lefi.rs"], [("argument loop", "examples/lefi.rs main")],
  ["stdout and exit status of the example program"])
p("C27", "Detection has no effects beyond reading its source",
  "Detection from bytes or from an in-memory reader asks nothing of the operating system except memory. Detection from an open file only reads, seeks and inspects that file. Detection from a path opens that path only, and only for reading, reads, seeks and inspects it, and closes it before returning, also when it fails. No detection writes anything (no output, no messages, no temporary files), opens other files, starts threads or processes or uses the network.",
  ["inputs"], "All contents, all entry points, paths that can and cannot be read.",
  "Tests look at the returned format only; a stray message, a probe of another file or a helper thread leaves it unchanged.",
  [L, R], [("File::open, dropped on return", "src/lib.rs from_file"), ("detection on the caller's reader only", "src/lib.rs from_reader")],
  ["system calls between two marks around each detection"])
p("C28", "The verdict does not depend on the platform",
  "The crate builds for targets with 32-bit addresses and for targets that store numbers big end first, and detection there gives every source, from bytes or through a reader, the verdict it has on a 64-bit little-endian machine. This includes sources longer than 4 GiB, and sizes, counts and positions within them that exceed 32 bits.",
  ["inputs", "configurations"], "All contents and source lengths on targets other than the one the tests run on.",
  "Tests run on one 64-bit little-endian machine, where truncation to the pointer width and native byte order change nothing.",
  [R, L], [("conversions between u64 and usize", "src/readers.rs"), ("integer decoding", "src/readers.rs ReadData")],
  ["FileFormat::from_reader and from_bytes in a 32-bit process and in an interpreted big-endian one"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))

#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SAN = "The crate is built with overflow checks and debug assertions, every call runs under a panic, allocation, operation-count and CPU-time monitor. "
T = {
 "C01": ("robustness monitor (panic, overflow-check, abort, stack and hang watchdog) over hostile byte strings and virtual sources; ASan and Miri in the thorough tier", SAN + "Held on the hostile executions counted: mutants, extreme fields, truncations, nesting on a 512 KiB stack, endless and self-changing sources. Nothing is claimed about inputs not generated."),
 "C02": ("resource monitor at the I/O and allocator boundary over endless, huge and adversarial sources", "Counts of operations, bytes and peak heap of every detection are compared with the stated bounds; sources up to 2^64-1 bytes are virtual."),
 "C03": ("online monitor comparing every verdict with an independent signature matcher, builds with and without readers", "All inputs of up to two bytes (three without readers), every published signature whole, cut at every length, with every byte altered, shifted, mixed. Trusts the signature table taken from the pinned commit."),
 "C04": ("online monitor comparing every verdict with the set of most specific signatures present", "All pairs of compatible signatures and random stacks of them; equal length leaves the choice open. Trusts the signature table taken from the pinned commit."),
 "C05": ("metamorphic monitor: one content through many instrumented deliveries with short reads and interruptions", "Same verdict required from single bytes to whole buffers, at every cut position of small inputs, through unseekable sources and named pipes."),
 "C06": ("metamorphic monitor across some 40 entry points, sparse files over 4 GiB and unreadable paths", "The verdict on a slice is the reference; errors are required for paths that cannot be read."),
 "C07": ("differential monitor against fresh processes over histories, re-entrant readers and thread schedules; TSan in the thorough tier", "Every verdict within a history or among threads is compared with that of a process that saw nothing else; schedules are those the scheduler and injected yields produced, and are counted."),
 "C08": ("fault injection at every I/O operation with a monitor of the outcome", "Each operation of each run is made to fail, once or for good, with ten kinds of error; also unreadable regions. One fault sequence per run."),
 "C09": ("differential monitor over some 50 builds with different feature sets, with and without overflow checks", "Every input goes through every build; the expected verdict comes from the builds with the single relevant reader. A feature set that does not compile is a violation. A sample of the 4,096 feature sets is built."),
 "C10": ("online closure monitor: verdicts against signature and documented family on damaged and transplanted structures", "The permitted set comes from the reference signature matcher, the documented family of each base format and the reference text classifier."),
 "C25": ("event monitor: inotify, stat and content snapshots, descriptor counts, an unprivileged process", "File-system events and state around each detection; access times are left to the operating system."),
 "C26": ("output monitor: each run of the program compared with an independent rendering of the expected lines", "Scratch trees with files, directories, links, names that are long, multi-byte or not Unicode, missing paths."),
 "C27": ("offline checker over recorded system call traces (strace), a trace specification per entry point", "Every system call between the marks around a detection is judged: memory management always, reads of the source where there is one, nothing else. Linux only; what happens without a system call (reading the environment) is not seen."),
 "C28": ("differential monitor over platforms: the same sources through a 64-bit, a 32-bit and an interpreted (Miri) big-endian build", "Verdicts of a native 32-bit x86 process and of a big-endian s390x program under Miri are compared with those of the same program on this machine; the native 64-bit verdict is the reference. The interpreted share is small (about a thousand sources); other targets are not tried."),
 "C22": ("online monitor comparing verdicts with an independent UTF-8 and control-character classifier", "Texts, near-texts, limits of 16 lines and 64 KiB at every alignment, noise."),
 "C23": ("exhaustive observation of all formats and pairs against the published table", "The values are observed at the API for every format and compared with the table taken from the documentation; syntax is checked against RFC 6838."),
 "C24": ("metamorphic monitor: one head with many tails, an I/O monitor of what is read", "Verdict with the head alone is the reference; tails are altered, appended, made unreadable, and the end of the examined window is probed, with and without readers."),
}
FAM = {"C11": "ZIP", "C12": "compound file", "C13": "EBML", "C14": "ASF", "C15": "MP4", "C16": "RealMedia", "C17": "executable", "C18": "ID3v2", "C19": "PDF", "C20": "SQLite", "C21": "XML"}
for k, f in FAM.items():
    T[k] = ("online monitor: verdicts on generated %s files whose format is known by construction, instrumented I/O" % f,
            SAN + "The oracle is the construction itself: the generator decides the verdict from the specification and lays out the file at random within it (orders, sizes, encodings, padding, positions past 4 GiB as virtual sources).")
checks = []
for i in range(1, 29):
    p = "C%02d" % i
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                   "technique": t, "level": "fault_enumeration" if p == "C08" else "exploration", "level_note": n})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: every observation is made at the public boundary. See DESIGN.md."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

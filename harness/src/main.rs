mod checks_a;
mod checks_b;
mod checks_c;
mod checks_d;
mod checks_e;
mod gens;
mod gens2;
mod meter;
mod mutate;
mod refm;
mod rng;
mod run;
mod source;
mod spec_gen;
mod words;

use run::{Params, Workload};

#[global_allocator]
static METER: meter::Meter = meter::Meter;

fn workloads(p: &Params) -> Option<(Vec<Workload>, &'static str)> {
    Some(match p.property.as_str() {
        "C01" => (checks_b::c01(p), "hostile inputs and sources; non-trivial = distinct sources"),
        "C02" => (checks_b::c02(p), "hostile and large sources with measured cost; non-trivial = distinct sources"),
        "C05" => (checks_b::c05(p), "content x way of delivery; non-trivial = distinct (content, I/O trace)"),
        "C06" => (checks_b::c06(p), "content x entry point; non-trivial = distinct contents"),
        "C08" => (checks_b::c08(p), "runs with an injected fault; non-trivial = distinct (source, faulted operation)"),
        "C10" => (checks_b::c10(p), "damaged and foreign structures; non-trivial = distinct byte strings"),
        "C07" => (checks_c::c07(p), "detections within histories and schedules; non-trivial = distinct corpus inputs and distinct (previous input, input) pairs"),
        "C09" => (checks_c::c09(p), "inputs through every build; non-trivial = distinct inputs"),
        "C25" => (checks_c::c25(p), "detections from a watched path; non-trivial = distinct (content, mode) and failing paths"),
        "C26" => (checks_c::c26(p), "runs of lefi; non-trivial = distinct (arguments, expected output)"),
        "C27" => (checks_d::c27(p), "detections within a recorded system call trace; non-trivial = distinct contents and failing paths"),
        "C28" => (checks_e::c28(p), "sources through builds for other platforms; non-trivial = distinct sources"),
        "C03" => (checks_a::c03(p), "inputs built from the published signatures; non-trivial = distinct byte strings judged by the reference matcher"),
        "C04" => (checks_a::c04(p), "inputs carrying several signatures; non-trivial = distinct byte strings judged by the reference matcher"),
        "C11" => (checks_a::c11(p), "generated archives; non-trivial = distinct archives with a verdict known by construction"),
        "C12" => (checks_a::c12(p), "generated compound files; non-trivial = distinct files with a verdict known by construction"),
        "C13" => (checks_a::c13(p), "generated EBML files; non-trivial = distinct files with a verdict known by construction"),
        "C14" => (checks_a::c14(p), "generated ASF files; non-trivial = distinct files with a verdict known by construction"),
        "C15" => (checks_a::c15(p), "generated MP4 files; non-trivial = distinct files with a verdict known by construction"),
        "C16" => (checks_a::c16(p), "generated RealMedia files; non-trivial = distinct files with a verdict known by construction"),
        "C17" => (checks_a::c17(p), "generated executables; non-trivial = distinct files with a verdict known by construction"),
        "C18" => (checks_a::c18(p), "generated tag chains; non-trivial = distinct files with a verdict known by construction"),
        "C19" => (checks_a::c19(p), "generated PDF files; non-trivial = distinct files with a verdict known by construction"),
        "C20" => (checks_a::c20(p), "generated databases; non-trivial = distinct files with a verdict known by construction"),
        "C21" => (checks_a::c21(p), "generated documents; non-trivial = distinct files with a verdict known by construction"),
        "C22" => (checks_a::c22(p), "inputs without signature; non-trivial = distinct byte strings judged by the reference classifier"),
        "C23" => (checks_a::c23(p), "all formats and all pairs of formats, each compared with the published table"),
        "C24" => (checks_a::c24(p), "signature heads with varied tails; non-trivial = distinct sources"),
        _ => return None,
    })
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut p = Params {
        property: String::new(),
        tier: "quick".into(),
        seed: 1,
        thorough: false,
        scratch: "/tmp".into(),
        repo: "/repo".into(),
        bins: String::new(),
        deadline_s: 600,
    };
    let (mut out, mut crumbs, mut only) = (String::new(), String::new(), None);
    let mut dump = None;
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--property" => p.property = v(),
            "--tier" => p.tier = v(),
            "--seed" => p.seed = v().parse().unwrap(),
            "--scratch" => p.scratch = v(),
            "--repo" => p.repo = v(),
            "--bins" => p.bins = v(),
            "--deadline" => p.deadline_s = v().parse().unwrap(),
            "--out" => out = v(),
            "--crumbs" => crumbs = v(),
            "--dump" => {
                let f = v();
                dump = Some((f, a.next().expect("count").parse::<u64>().unwrap(), a.next().expect("size").parse::<u64>().unwrap()));
            }
            "--only" => {
                let w = v();
                only = Some((w, a.next().expect("index").parse::<u64>().unwrap()));
            }
            _ => panic!("unknown option {k}"),
        }
    }
    words::load(&p.repo);
    p.thorough = p.tier == "thorough";
    meter::install_hook();
    if !crumbs.is_empty() {
        meter::map_crumbs(&crumbs);
    }
    if let Some((f, n, max)) = dump {
        // A corpus with the verdicts observed here, for the interpreter.
        let mut b = Vec::new();
        for k in 0..n {
            let mut r = rng::Rng::new(p.seed, "dump", k);
            words::set(run::worded(k));
            let x = match k % 3 {
                0 => mutate::mutant(&mut r, max),
                _ => gens2::any_small(&mut r, max).1,
            };
            let Some(f) = meter::det_bytes(&x).fmt() else { continue };
            let name = format!("{f:?}");
            b.extend((name.len() as u32).to_le_bytes());
            b.extend(name.as_bytes());
            b.extend((x.len() as u32).to_le_bytes());
            b.extend(&x);
        }
        std::fs::write(f, b).unwrap();
        println!("DUMPED");
        return;
    }
    let (ws, rule) = workloads(&p).expect("unknown property");
    let names: Vec<&str> = ws.iter().map(|w| w.name).collect();
    println!("WORKLOADS {}", names.join("\t"));
    let (o, cut, wall) = run::run_all(&p, &ws, only.as_ref().map(|x| (x.0.as_str(), x.1)));
    let s = run::report(&p, &o, &cut, rule, wall);
    if out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&out, s).unwrap();
    }
    println!("DONE {}", o.violations.len());
}

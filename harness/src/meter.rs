//! Heap meter (per thread), monitored detection calls, CPU-time watchdog and breadcrumbs.
use crate::source::{Budget, Plan, Stats, Tracer, Virt};
use file_format::FileFormat;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};

pub struct Meter;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LAST_PANIC: Cell<Option<String>> = const { Cell::new(None) };
    static OWN: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

// No single allocation beyond this is ever legitimate here; failing it makes the process abort,
// which the supervisor attributes to the running case and confirms by replaying it.
const REFUSE: usize = 1 << 30;

fn refuse(n: usize) -> bool {
    n > REFUSE || LIVE.try_with(|l| l.get() > 2 << 30).unwrap_or(false)
}

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE && OWN.try_with(|o| o.get()).unwrap_or(false) {
            return System.alloc_zeroed(l);
        }
        if refuse(l.size()) {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() <= REFUSE {
            add(-(l.size() as i64));
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse(n) {
            return std::ptr::null_mut();
        }
        // A moving reallocation holds both blocks for a moment.
        add(n as i64);
        let r = System.realloc(p, l, n);
        add(-(l.size() as i64));
        r
    }
}

/// Zeroes of the monitor's own, however many; one such vector at a time, as `f` uses it.
pub fn with_zeroes<T>(n: usize, f: impl FnOnce(&mut Vec<u8>) -> T) -> T {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let _one = ONE.lock().unwrap_or_else(|e| e.into_inner());
    OWN.with(|o| o.set(true));
    let mut v = vec![0; n];
    OWN.with(|o| o.set(false));
    f(&mut v)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Fmt(FileFormat),
    Err(ErrorKind),
    Panic(String),
    OverBudget,
}

impl Out {
    pub fn fmt(&self) -> Option<FileFormat> {
        match self {
            Out::Fmt(f) => Some(*f),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Fmt(f) => format!("{f:?}"),
            Out::Err(k) => format!("Err({k:?})"),
            Out::Panic(m) => format!("PANIC {m}"),
            Out::OverBudget => "NO RESULT within the operation budget".into(),
        }
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| p.set(Some(format!("{m} at {l}"))));
    }));
}

// --- watchdog -------------------------------------------------------------------------------

pub const SLOTS: usize = 64;
pub struct Slot {
    /// Odd while a detection call is running.
    pub seq: AtomicU64,
    pub clock: AtomicU64,
    pub workload: AtomicU64,
    pub index: AtomicU64,
}
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: Slot = Slot { seq: AtomicU64::new(0), clock: AtomicU64::new(0), workload: AtomicU64::new(0), index: AtomicU64::new(0) };
pub static TABLE: [Slot; SLOTS] = [ZERO; SLOTS];
static NEXT: AtomicU64 = AtomicU64::new(0);
/// Memory-mapped file: pairs of (workload + 1, index), one per slot.
static CRUMBS: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(number: i64, ...) -> i64;
    static environ: *const *const u8;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

// --- clock and environment ------------------------------------------------------------------

/// What the code under test is told about the time and the environment.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum World {
    /// The truth.
    Real,
    /// Every look at a clock is an hour after the one before; every variable is set to "1".
    Hurried,
    /// Time stands still; no variable is set.
    Frozen,
}

thread_local! {
    static WORLD: Cell<World> = const { Cell::new(World::Real) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static ENV_READS: Cell<u64> = const { Cell::new(0) };
}

/// Takes the place of libc's function in this program, std's uses of it included.
#[no_mangle]
unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    const CLOCK_GETTIME: i64 = if cfg!(target_arch = "x86_64") { 228 } else { 113 };
    let r = syscall(CLOCK_GETTIME, clk as i64, ts) as i32;
    let world = WORLD.try_with(|w| w.get()).unwrap_or(World::Real);
    if world != World::Real && r == 0 {
        let n = CLOCK_READS.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        *ts = Timespec { sec: 4_000_000_000 + if world == World::Hurried { n as i64 * 3600 } else { 0 }, nsec: 0 };
    }
    r
}

/// Takes the place of libc's function in this program, std's uses of it included.
#[no_mangle]
unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    match WORLD.try_with(|w| w.get()).unwrap_or(World::Real) {
        World::Real => {}
        w => {
            ENV_READS.with(|c| c.set(c.get() + 1));
            return if w == World::Hurried { c"1".as_ptr().cast() } else { std::ptr::null() };
        }
    }
    let mut e = environ;
    while !e.is_null() && !(*e).is_null() {
        let mut k = 0;
        while *name.add(k) != 0 && *name.add(k) == *(*e).add(k) {
            k += 1;
        }
        if *name.add(k) == 0 && *(*e).add(k) == b'=' {
            return (*e).add(k + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

/// Runs `f` in another world, and counts its looks at the clock and at the environment.
pub fn in_world<T>(w: World, f: impl FnOnce() -> T) -> (T, u64, u64) {
    CLOCK_READS.with(|c| c.set(0));
    ENV_READS.with(|c| c.set(0));
    WORLD.with(|x| x.set(w));
    let v = f();
    WORLD.with(|x| x.set(World::Real));
    (v, CLOCK_READS.with(|c| c.get()), ENV_READS.with(|c| c.get()))
}

pub fn map_crumbs(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).unwrap();
    f.set_len((SLOTS * 16) as u64).unwrap();
    // SAFETY: a fresh shared mapping of a file of that size, never unmapped.
    let p = unsafe { mmap(std::ptr::null_mut(), SLOTS * 16, 3, 1, f.as_raw_fd(), 0) };
    if p as isize != -1 {
        CRUMBS.store(p as u64, SeqCst);
    }
}

fn slot() -> usize {
    SLOT.with(|s| {
        if s.get() == usize::MAX {
            let i = NEXT.fetch_add(1, SeqCst) as usize;
            if i < SLOTS {
                let mut c = 0;
                // SAFETY: queries the calling thread's own CPU clock id.
                unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
                TABLE[i].clock.store(c as u32 as u64, SeqCst);
            }
            s.set(i);
        }
        s.get()
    })
}

/// Hands the calling thread's slot back (threads of later workloads take new ones).
pub fn reset_slots() {
    NEXT.store(1, SeqCst);
    for t in &TABLE[1..] {
        t.seq.store(0, SeqCst);
    }
}

pub fn thread_cpu(clock: u64) -> f64 {
    let mut ts = Timespec { sec: 0, nsec: 0 };
    // SAFETY: plain out parameter.
    if unsafe { clock_gettime(clock as u32 as i32, &mut ts) } != 0 {
        return 0.0;
    }
    ts.sec as f64 + ts.nsec as f64 * 1e-9
}

pub fn at_case(workload: usize, index: u64) {
    let i = slot();
    if i >= SLOTS {
        return;
    }
    TABLE[i].workload.store(workload as u64, Relaxed);
    TABLE[i].index.store(index, Relaxed);
    let p = CRUMBS.load(Relaxed);
    if p != 0 {
        // SAFETY: within the mapping; each slot is written by one thread.
        unsafe {
            let q = (p as *mut u64).add(i * 2);
            q.write_volatile(workload as u64 + 1);
            q.add(1).write_volatile(index);
        }
    }
}

struct Running(usize);
impl Running {
    fn new() -> Self {
        let i = slot();
        if i < SLOTS {
            TABLE[i].seq.fetch_add(1, Relaxed);
        }
        Running(i)
    }
}
impl Drop for Running {
    fn drop(&mut self) {
        if self.0 < SLOTS {
            TABLE[self.0].seq.fetch_add(1, Relaxed);
        }
    }
}

/// Runs a detection call under all monitors.
pub fn guarded<F: FnOnce() -> std::io::Result<FileFormat>>(f: F) -> (Out, i64) {
    let r = Running::new();
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    let res = catch_unwind(AssertUnwindSafe(f));
    let peak = PEAK.with(|p| p.get()) - base;
    drop(r);
    let out = match res {
        Ok(Ok(f)) => Out::Fmt(f),
        Ok(Err(e)) => Out::Err(e.kind()),
        Err(p) if p.is::<Budget>() => Out::OverBudget,
        Err(_) => Out::Panic(LAST_PANIC.with(|p| p.take()).unwrap_or_default()),
    };
    (out, peak)
}

pub fn det_bytes(b: &[u8]) -> Out {
    guarded(|| Ok(FileFormat::from_bytes(b))).0
}

pub fn det_src(v: &Virt, plan: Plan) -> (Out, Stats, i64) {
    let mut t = Tracer::new(v, plan);
    let (o, heap) = guarded(|| FileFormat::from_reader(&mut t));
    (o, t.st, heap)
}

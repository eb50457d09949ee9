//! Keeping an eye on the process: heap accounting, runaway calls, and which case is being run.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

pub const MAX_THREADS: usize = 64;
/// a single library call holding more than this is a runaway
pub const CALL_BYTES: i64 = 2 << 30;
/// a single library call using more CPU time than this is a hang
pub const CALL_CPU_S: u64 = 40;

pub struct Slot {
    pub tid: AtomicU64,
    pub case: AtomicU64,
    pub calls: AtomicU64,
    /// how many guarded calls are open on this thread (a conversion may parse too)
    pub depth: AtomicU64,
    pub runaway: AtomicBool,
}
#[allow(clippy::declare_interior_mutable_const)]
const EMPTY: Slot = Slot {
    tid: AtomicU64::new(0),
    case: AtomicU64::new(0),
    calls: AtomicU64::new(0),
    depth: AtomicU64::new(0),
    runaway: AtomicBool::new(false),
};
pub static SLOTS: [Slot; MAX_THREADS] = [EMPTY; MAX_THREADS];

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FILE: Cell<Option<&'static std::fs::File>> = const { Cell::new(None) };
}
pub static PROCESS_LIVE: AtomicI64 = AtomicI64::new(0);

pub struct Counting;

#[inline]
fn note(d: i64) {
    let over = LIVE.try_with(|l| {
        let n = l.get() + d;
        l.set(n);
        if d > 0 {
            let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        }
        d > 0 && LIMIT.try_with(|m| n > m.get()).unwrap_or(false)
    });
    if over == Ok(true) {
        let me = ME.with(|m| m.get());
        if me < MAX_THREADS {
            SLOTS[me].runaway.store(true, Relaxed);
            // the watchdog reports this case and ends the process
            loop {
                std::thread::sleep(std::time::Duration::from_millis(200));
            }
        }
    }
}

// SAFETY: forwards to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Bytes allocated and not freed by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(live()));
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}

pub fn register(slot: usize, file: Option<&'static std::fs::File>) {
    ME.with(|m| m.set(slot));
    FILE.with(|f| f.set(file));
    let tid = std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()))
        .unwrap_or(0);
    SLOTS[slot].tid.store(tid, Relaxed);
}

/// Say which case this thread runs now (survives a crash of the process).
pub fn case(idx: u64) {
    let me = ME.with(|m| m.get());
    if me < MAX_THREADS {
        SLOTS[me].case.store(idx, Relaxed);
        if let Some(f) = FILE.with(|f| f.get()) {
            let _ = f.write_at(format!("{idx:>20} L\n").as_bytes(), me as u64 * 23);
        }
    }
}
/// In replays only: say on stderr whether the reference (`M`) or the library (`L`) runs.
pub static VERBOSE: AtomicBool = AtomicBool::new(false);
pub fn phase(p: u8) {
    if VERBOSE.load(Relaxed) {
        eprintln!("phase {}", p as char);
    }
}

pub fn enter() {
    let me = ME.with(|m| m.get());
    if me < MAX_THREADS {
        SLOTS[me].calls.fetch_add(1, Relaxed);
        if SLOTS[me].depth.fetch_add(1, Relaxed) == 0 {
            LIMIT.with(|m| m.set(live() + CALL_BYTES));
        }
    }
}
pub fn leave() {
    let me = ME.with(|m| m.get());
    if me < MAX_THREADS {
        if SLOTS[me].depth.fetch_sub(1, Relaxed) == 1 {
            LIMIT.with(|m| m.set(i64::MAX));
        }
    }
}

/// CPU time of a thread in nanoseconds (from clock ticks of 10 ms).
fn cpu_ns(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 1..];
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t: u64 = f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    Some(t * 10_000_000)
}

/// Is every thread of the process but this one asleep, and how much CPU time has gone by?
fn all_asleep(me: u64) -> Option<u64> {
    let mut ticks = 0;
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let tid: u64 = e.ok()?.file_name().to_str()?.parse().ok()?;
        if tid == me {
            continue;
        }
        let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
        let rest = &s[s.rfind(')')? + 1..];
        let f: Vec<&str> = rest.split_whitespace().collect();
        if f.first() != Some(&"S") {
            return None;
        }
        ticks += f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?;
    }
    Some(ticks)
}

/// this many looks (two a second) in a row at a process fast asleep: it waits for itself
const DEADLOCK_LOOKS: u32 = 80;

/// Watch all registered threads; `report(case, what)` must not return.
pub fn watchdog(report: impl Fn(u64, &str) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen = vec![(0u64, 0u64); MAX_THREADS]; // (call number, cpu at first sight)
        let me: u64 = std::fs::read_link("/proc/thread-self")
            .ok()
            .and_then(|p| p.file_name().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()))
            .unwrap_or(0);
        let mut asleep = (0u64, 0u32);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            asleep = match all_asleep(me) {
                Some(t) if asleep.1 > 0 && t == asleep.0 => (t, asleep.1 + 1),
                Some(t) => (t, 1),
                None => (0, 0),
            };
            if asleep.1 >= DEADLOCK_LOOKS {
                // the case most likely to be the cause: the one with parses inside parses
                let worst = SLOTS.iter().filter(|s| s.tid.load(Relaxed) != 0).max_by_key(|s| s.depth.load(Relaxed));
                if let Some(s) = worst {
                    report(s.case.load(Relaxed), "parsing waits for itself: every thread has been asleep for 40 s");
                }
            }
            for (i, s) in SLOTS.iter().enumerate() {
                let tid = s.tid.load(Relaxed);
                if tid == 0 {
                    continue;
                }
                if s.runaway.load(Relaxed) {
                    report(s.case.load(Relaxed), "a single parse holds more than 2 GiB of memory");
                }
                let n = s.calls.load(Relaxed);
                if s.depth.load(Relaxed) == 0 {
                    seen[i] = (0, 0);
                    continue;
                }
                let Some(cpu) = cpu_ns(tid) else { continue };
                if seen[i].0 != n {
                    seen[i] = (n, cpu);
                } else if cpu.saturating_sub(seen[i].1) > CALL_CPU_S * 1_000_000_000 {
                    report(s.case.load(Relaxed), "a single parse is still running after 40 s of CPU time");
                }
            }
        }
    });
}

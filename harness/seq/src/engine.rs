//! Exhaustive exploration of operation histories: breadth-first over canonical states, with every
//! operation (and, in fault modes, every fault point of every operation) executed on the real code
//! in each of them. A state is reconstructed by replaying the history that leads to it.

use crate::elem::reg;
use crate::mem::{heap, Kind};
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::{Debug, Write as _};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// Panic in the k-th callback of the operation.
    Panic(u32),
    /// k-th request of the operation fails.
    Alloc(u32),
}

pub trait World: Sized {
    type Op: Copy + Debug + Send + Sync + PartialEq + 'static;
    type Cfg: Sync + Clone;
    fn name(cfg: &Self::Cfg) -> String;
    /// Initial state. Library objects are created in it.
    fn new(cfg: &Self::Cfg) -> Self;
    /// Operations possible in this state, simplest first.
    fn ops(&self, out: &mut Vec<Self::Op>);
    /// Run the operation on the real code and compare with the model.
    fn apply(&mut self, op: Self::Op);
    /// Run the operation while a fault is armed, check the state after. Counters for arming are
    /// at zero when called; must disarm.
    fn apply_fault(&mut self, _op: Self::Op, _fault: Fault) {}
    /// Canonical form of the state.
    fn key(&self, out: &mut Vec<u8>);
    /// Destroy everything. `last` is the last operation applied.
    fn finish(self, last: Option<Self::Op>, fault: Fault);
    /// Whether states after this operation are explored further.
    fn expand(&self) -> bool {
        true
    }
}

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub kinds: Vec<Kind>,
    pub panics: bool,
    pub allocs: bool,
    /// States after a fault are explored further (one fault in a history).
    pub resume: bool,
    /// So many kinds of the last operations tell states apart, besides what is seen of these.
    pub recall: usize,
    pub max_depth: usize,
    pub max_states: usize,
    pub threads: usize,
    pub replay_dir: String,
    pub deadline: Option<Instant>,
    pub profile: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub faults: u64,
    pub executed_ops: u64,
    /// Complete histories run on the real code, from creation to destruction.
    pub runs: u64,
    pub depth: usize,
    pub complete: bool,
    pub samples: Vec<String>,
    pub op_kinds: HashMap<String, u64>,
    pub outcomes: HashMap<String, u64>,
}

pub static VIOLATIONS: AtomicUsize = AtomicUsize::new(0);
static OTHER: AtomicUsize = AtomicUsize::new(0);
static REPORTED: Mutex<()> = Mutex::new(());
pub fn other_count() -> usize {
    OTHER.load(SeqCst)
}

// ---- current case, for crashes and hangs ----
pub struct Slot {
    busy: AtomicBool,
    beat: AtomicU64,
    desc: Mutex<Option<&'static (dyn Fn(&mut dyn std::fmt::Write) + Sync)>>,
}
static SLOTS: [Slot; 64] = [const { Slot { busy: AtomicBool::new(false), beat: AtomicU64::new(0), desc: Mutex::new(None) } }; 64];
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(63) };
    static DESC: Cell<Option<*const (dyn Fn(&mut dyn std::fmt::Write) + 'static)>> = const { Cell::new(None) };
    static LAST_PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
    static OUTCOME: Cell<&'static str> = const { Cell::new("") };
    static RESUMES: Cell<bool> = const { Cell::new(false) };
}
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static PROP: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

struct FixBuf {
    b: [u8; 8192],
    n: usize,
}
impl std::fmt::Write for FixBuf {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

static mut CRASH_PATH: [u8; 512] = [0; 512];
static mut CRASH_LINE: [u8; 1024] = [0; 1024];
static mut CRASH_LINE_LEN: usize = 0;

unsafe fn write_file(path: *const u8, data: &[u8]) {
    let fd = libc::open(path as _, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, 0o644);
    if fd >= 0 {
        libc::write(fd, data.as_ptr() as _, data.len());
        libc::close(fd);
    }
}

unsafe fn crash_report(what: &str, desc: Option<*const dyn Fn(&mut dyn std::fmt::Write)>) -> ! {
    let mut buf = FixBuf { b: [0; 8192], n: 0 };
    let _ = write!(buf, "{what}\n");
    if let Some(d) = desc {
        (*d)(&mut buf);
    }
    let _ = write!(buf, "\n");
    write_file((&raw const CRASH_PATH) as *const u8, &buf.b[..buf.n]);
    libc::write(1, buf.b.as_ptr() as _, buf.n);
    libc::write(1, (&raw const CRASH_LINE) as _, CRASH_LINE_LEN);
    libc::_exit(1)
}

/// The code under test cannot be let run any further.
pub fn give_up(what: &str) -> ! {
    unsafe { crash_report(what, DESC.with(|d| d.get())) }
}

/// Thread that reports a crash.
static CRASHING: AtomicUsize = AtomicUsize::new(0);

extern "C" fn on_signal(sig: i32) {
    unsafe {
        let me = libc::pthread_self() as usize;
        if sig == libc::SIGALRM {
            // The report hangs.
            libc::write(1, (&raw const CRASH_LINE) as _, CRASH_LINE_LEN);
            libc::_exit(1)
        }
        match CRASHING.compare_exchange(0, me, SeqCst, SeqCst) {
            Ok(_) => {}
            // The report itself crashes: go without the history.
            Err(o) if o == me => {
                libc::write(1, (&raw const CRASH_LINE) as _, CRASH_LINE_LEN);
                libc::_exit(1)
            }
            // Another thread is at it.
            Err(_) => loop {
                libc::pause();
            },
        }
        let what = match sig {
            libc::SIGSEGV => "crashed: SIGSEGV",
            libc::SIGBUS => "crashed: SIGBUS",
            libc::SIGABRT => "crashed: process aborted (panic that cannot unwind, or panic while unwinding)",
            libc::SIGILL => "crashed: SIGILL",
            libc::SIGFPE => "crashed: SIGFPE",
            _ => "crashed",
        };
        libc::alarm(10);
        crash_report(what, DESC.with(|d| d.get()));
    }
}

#[cfg(seq_asan)]
mod asan {
    extern "C" {
        pub fn __asan_set_error_report_callback(f: extern "C" fn(*const libc::c_char));
    }
    #[no_mangle]
    pub extern "C" fn __asan_default_options() -> *const libc::c_char {
        c"abort_on_error=1:detect_leaks=0:symbolize=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigill=0:handle_sigfpe=0:use_sigaltstack=0:allow_user_segv_handler=1:detect_stack_use_after_return=0:malloc_context_size=0:quarantine_size_mb=1:thread_local_quarantine_size_kb=64:max_malloc_fill_size=0:allocator_may_return_null=1".as_ptr()
    }
    /// What the sanitizer tells: kind of access and place.
    pub extern "C" fn on_report(text: *const libc::c_char) {
        let s = unsafe { std::ffi::CStr::from_ptr(text) }.to_string_lossy();
        let mut lines = s.lines().filter(|l| l.contains("ERROR") || l.starts_with("READ") || l.starts_with("WRITE"));
        let mut m = lines.next().and_then(|l| l.split("AddressSanitizer: ").nth(1)).unwrap_or("error").to_string();
        m.truncate(m.find(" on address").unwrap_or(m.len()));
        if let Some(l) = lines.next() {
            m = format!("{} of memory that must not be touched ({m})", &l[..l.find(" at ").unwrap_or(l.len())]);
        }
        super::give_up(&m);
    }
}

pub fn setup(opts: &Opts) {
    #[cfg(seq_asan)]
    unsafe {
        asan::__asan_set_error_report_callback(asan::on_report)
    }
    *PROP.lock().unwrap() = (opts.prop.clone(), opts.replay_dir.clone());
    let path = format!("{}/{}-{}-crash.txt", opts.replay_dir, opts.prop, opts.profile);
    let line = format!("VIOLATION property={} replay={path}\n", opts.prop);
    unsafe {
        let cp = &raw mut CRASH_PATH;
        (&mut (*cp))[..path.len()].copy_from_slice(path.as_bytes());
        let cl = &raw mut CRASH_LINE;
        (&mut (*cl))[..line.len()].copy_from_slice(line.as_bytes());
        CRASH_LINE_LEN = line.len();
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE, libc::SIGALRM] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_signal as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(std::boxed::Box::new(|i| {
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(i.to_string()));
        if std::env::var_os("SEQ_PANICS").is_some() {
            eprintln!("{i}");
        }
    }));
    std::thread::spawn(|| {
        let mut last = [(0u64, Instant::now()); 64];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            for (i, s) in SLOTS.iter().enumerate() {
                let b = s.beat.load(SeqCst);
                if !s.busy.load(SeqCst) || last[i].0 != b {
                    last[i] = (b, Instant::now());
                } else if last[i].1.elapsed() > Duration::from_secs(20) {
                    let d = s.desc.lock().map(|g| g.map(|d| d as *const _)).unwrap_or(None);
                    unsafe { crash_report("hangs: operation does not finish in 20 s", d) };
                }
            }
        }
    });
}

fn enter_thread() {
    let n = NEXT_SLOT.fetch_add(1, SeqCst) % 63;
    SLOT.with(|s| s.set(n));
    crate::mem::init_thread();
}

fn with_case<R>(desc: &(dyn Fn(&mut dyn std::fmt::Write) + Sync), f: impl FnOnce() -> R) -> Option<R> {
    let d: &'static (dyn Fn(&mut dyn std::fmt::Write) + Sync) = unsafe { std::mem::transmute(desc) };
    DESC.with(|c| c.set(Some(d as &dyn Fn(&mut dyn std::fmt::Write) as *const _)));
    let slot = &SLOTS[SLOT.with(|s| s.get())];
    *slot.desc.lock().unwrap() = Some(d);
    slot.beat.fetch_add(1, SeqCst);
    slot.busy.store(true, SeqCst);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    slot.busy.store(false, SeqCst);
    *slot.desc.lock().unwrap() = None;
    DESC.with(|c| c.set(None));
    r.ok()
}

/// A panic where none is expected.
fn stray() {
    let m = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    let r = reg();
    r.quiet = false;
    crate::mem::report(Kind::Sem, format!("unexpected panic: {m}"));
}

/// The world tells what the operation came to, for the coverage report.
pub fn outcome(o: &'static str) {
    OUTCOME.with(|c| c.set(o));
}

/// Call the code under test; None if it panicked.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            // Payload of the code under test.
            crate::elem::quiet(|| drop(e));
            None
        }
    }
}

fn fresh_execution() {
    RESUMES.with(|c| c.set(false));
    heap().reset();
    reg().reset();
    crate::mem::set_scope(0);
}

struct Node<O> {
    parent: u32,
    op: Option<(O, Fault)>,
}

fn path<O: Copy>(nodes: &[Node<O>], mut n: u32) -> Vec<(O, Fault)> {
    let mut v = Vec::new();
    while let Some(op) = nodes[n as usize].op {
        v.push(op);
        n = nodes[n as usize].parent;
    }
    v.reverse();
    v
}

fn hash128(b: &[u8]) -> u128 {
    // Two independent multiplicative hashes.
    let (mut a, mut c) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for &x in b {
        a = (a ^ x as u64).wrapping_mul(0x100000001b3);
        a ^= a >> 29;
        c = (c.rotate_left(5) ^ x as u64).wrapping_mul(0x2545F4914F6CDD1D);
        c ^= c >> 31;
    }
    ((a as u128) << 64) | c as u128
}

/// Violations of the last execution. Returns true if any, of any kind.
fn take_violations(opts: &Opts, name: &str, desc: &dyn Fn(&mut dyn std::fmt::Write)) -> bool {
    let v = std::mem::take(&mut heap().viol);
    if v.is_empty() {
        return false;
    }
    let mine: Vec<_> = v.iter().filter(|(k, _)| opts.kinds.contains(k)).collect();
    if mine.is_empty() {
        OTHER.fetch_add(1, SeqCst);
        if std::env::var_os("SEQ_OTHER").is_some() {
            let mut s = String::new();
            desc(&mut s);
            eprintln!("OTHER {name}: {v:?}\n{s}");
        }
        return true;
    }
    let _g = REPORTED.lock().unwrap();
    let n = VIOLATIONS.fetch_add(1, SeqCst);
    if n < 5 {
        let mut s = String::new();
        let _ = writeln!(s, "property {} ({} build), world {name}", opts.prop, opts.profile);
        for (k, m) in &v {
            let _ = writeln!(s, "  [{k:?}] {m}");
        }
        desc(&mut s);
        let p = format!("{}/{}-{}-{}.txt", opts.replay_dir, opts.prop, opts.profile, n);
        let _ = std::fs::write(&p, &s);
        println!("{s}VIOLATION property={} replay={p}", opts.prop);
    }
    true
}

fn describe<O: Debug>(w: &mut dyn std::fmt::Write, name: &str, hist: &[(O, Fault)], op: Option<&O>, fault: Fault) {
    let _ = write!(w, "world: {name}\nhistory:\n");
    for (o, f) in hist {
        let _ = match f {
            Fault::None => write!(w, "  {o:?}\n"),
            f => write!(w, "  {o:?} with fault {f:?}\n"),
        };
    }
    if let Some(op) = op {
        let _ = write!(w, "  {op:?}\n");
    }
    let _ = write!(w, "fault: {fault:?}\n");
}

pub fn explore<W: World>(cfg: &W::Cfg, opts: &Opts) -> Stats {
    let mut name = W::name(cfg);
    if opts.resume {
        name.push_str(", going on after a fault");
    }
    if opts.recall > 0 {
        let _ = write!(name, ", states told apart by the last {} kinds of operations", opts.recall);
    }
    let mut stats = Stats { name: name.clone(), complete: true, ..Default::default() };
    let mut nodes: Vec<Node<W::Op>> = vec![Node { parent: 0, op: None }];
    let mut seen: HashMap<u128, ()> = HashMap::new();
    let mut frontier: Vec<u32> = vec![0];
    // The initial state.
    {
        let nm = name.clone();
        let desc = move |w: &mut dyn std::fmt::Write| describe::<W::Op>(w, &nm, &[], None, Fault::None);
        enter_thread();
        let ok = with_case(&desc, || {
            fresh_execution();
            let w = W::new(cfg);
            let mut k = Vec::new();
            w.key(&mut k);
            seen.insert(hash128(&k), ());
            w.finish(None, Fault::None);
        });
        if ok.is_none() {
            stray();
        }
        stats.states = 1;
        stats.runs = 1;
        if take_violations(opts, &name, &desc) {
            return stats;
        }
    }
    let mut depth = 0;
    while !frontier.is_empty() && depth < opts.max_depth {
        if VIOLATIONS.load(SeqCst) > 0 {
            stats.complete = false;
            break;
        }
        if nodes.len() > opts.max_states || opts.deadline.is_some_and(|d| Instant::now() > d) {
            stats.complete = false;
            break;
        }
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<(u32, Vec<(u128, (W::Op, Fault))>, u64, u64, u64, u64, HashMap<String, u64>, HashMap<String, u64>, Option<String>)>> = Mutex::new(Vec::new());
        std::thread::scope(|s| {
            for _ in 0..opts.threads.min(frontier.len()) {
                s.spawn(|| {
                    enter_thread();
                    loop {
                        let lo = next.fetch_add(4, SeqCst);
                        if lo >= frontier.len() || VIOLATIONS.load(SeqCst) > 3 {
                            break;
                        }
                        for &n in &frontier[lo..(lo + 4).min(frontier.len())] {
                            let r = expand::<W>(cfg, opts, &name, &nodes, n);
                            results.lock().unwrap().push(r);
                        }
                    }
                });
            }
        });
        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut new = Vec::new();
        for (n, succ, trans, faults, execs, runs, kinds, outs, sample) in results {
            stats.transitions += trans;
            stats.faults += faults;
            stats.executed_ops += execs;
            stats.runs += runs;
            for (k, v) in kinds {
                *stats.op_kinds.entry(k).or_default() += v;
            }
            for (k, v) in outs {
                *stats.outcomes.entry(k).or_default() += v;
            }
            if let Some(s) = sample {
                if stats.samples.len() < 3 && depth >= 1 || stats.samples.is_empty() {
                    stats.samples.push(s);
                }
            }
            for (h, op) in succ {
                if seen.insert(h, ()).is_none() {
                    nodes.push(Node { parent: n, op: Some(op) });
                    new.push(nodes.len() as u32 - 1);
                }
            }
        }
        stats.states += new.len() as u64;
        frontier = new;
        depth += 1;
        stats.depth = depth;
    }
    if !frontier.is_empty() && depth >= opts.max_depth {
        // Only histories up to the bound are covered, which is the bound stated.
        stats.complete = stats.complete && opts.max_depth != usize::MAX;
    }
    stats
}

fn op_kind<O: Debug>(op: &O) -> String {
    let s = format!("{op:?}");
    s.split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap_or("").to_string()
}

/// Run one operation of a history again.
fn replay<W: World>(w: &mut W, op: W::Op, fault: Fault) {
    if fault == Fault::None {
        return w.apply(op);
    }
    reg().cb = 0;
    heap().requests = 0;
    heap().failed = 0;
    RESUMES.with(|c| c.set(true));
    w.apply_fault(op, fault);
    RESUMES.with(|c| c.set(false));
}

/// The history goes on after the fault, so that nothing else is to be tried there.
pub fn resumes() -> bool {
    RESUMES.with(|c| c.get())
}

#[allow(clippy::type_complexity)]
fn expand<W: World>(
    cfg: &W::Cfg,
    opts: &Opts,
    name: &str,
    nodes: &[Node<W::Op>],
    n: u32,
) -> (u32, Vec<(u128, (W::Op, Fault))>, u64, u64, u64, u64, HashMap<String, u64>, HashMap<String, u64>, Option<String>) {
    let hist = path(nodes, n);
    let had = hist.iter().map(|h| h.1).find(|f| *f != Fault::None).unwrap_or(Fault::None);
    // What the key does not tell.
    let past = |op: &W::Op, fault: Fault, key: &mut Vec<u8>| {
        if let Some((o, _)) = hist.iter().map(|(o, f)| (o, *f)).chain([(op, fault)]).find(|x| x.1 != Fault::None) {
            key.push(0xFA);
            key.extend(op_kind(o).bytes());
        }
        if opts.recall > 0 {
            key.push(0xFB);
            key.extend(op_kind(op).bytes());
            for (o, _) in hist.iter().rev().take(opts.recall - 1) {
                key.push(0xFB);
                key.extend(op_kind(o).bytes());
            }
        }
    };
    let mut succ = Vec::new();
    let (mut trans, mut faults, mut execs) = (0u64, 0u64, 0u64);
    let mut kinds: HashMap<String, u64> = HashMap::new();
    let mut outs: HashMap<String, u64> = HashMap::new();
    let mut sample = None;
    let mut ops = Vec::new();
    let mut key = Vec::new();
    let runs = Cell::new(0u64);
    let run = |op: Option<W::Op>, fault: Fault, f: &mut dyn FnMut(W)| -> bool {
        runs.set(runs.get() + 1);
        let desc = {
            let (name, hist) = (name, &hist);
            move |w: &mut dyn std::fmt::Write| describe(w, name, hist, op.as_ref(), fault)
        };
        let ok = with_case(&desc, || {
            fresh_execution();
            let mut w = W::new(cfg);
            for (o, f) in &hist {
                replay(&mut w, *o, *f);
            }
            f(w);
        });
        if ok.is_none() {
            stray();
        }
        if had != Fault::None {
            // The object does not work after the fault.
            for v in &mut heap().viol {
                if !opts.kinds.contains(&v.0) {
                    v.0 = Kind::Fault;
                }
            }
        }
        take_violations(opts, name, &desc)
    };
    run(None, Fault::None, &mut |w| {
        w.ops(&mut ops);
        w.finish(None, had);
    });
    for &op in &ops {
        if VIOLATIONS.load(SeqCst) > 3 {
            break;
        }
        let (mut cbs, mut reqs) = (0, 0);
        let mut expandable = true;
        let mut out = "";
        let bad = run(Some(op), Fault::None, &mut |mut w| {
            reg().cb = 0;
            heap().requests = 0;
            OUTCOME.with(|c| c.set(""));
            w.apply(op);
            out = OUTCOME.with(|c| c.get());
            cbs = reg().cb;
            reqs = heap().requests;
            key.clear();
            w.key(&mut key);
            expandable = w.expand();
            w.finish(Some(op), had);
        });
        trans += 1;
        execs += hist.len() as u64 + 1;
        *kinds.entry(op_kind(&op)).or_default() += 1;
        if !out.is_empty() {
            *outs.entry(format!("{} {}", op_kind(&op), out)).or_default() += 1;
        }
        if sample.is_none() && hist.len() >= 2 {
            sample = Some(format!("{name}: {hist:?} then {op:?}"));
        }
        if bad {
            continue;
        }
        if expandable {
            past(&op, Fault::None, &mut key);
            succ.push((hash128(&key), (op, Fault::None)));
        }
        if had != Fault::None {
            continue;
        }
        let mut after = |fault: Fault, succ: &mut Vec<_>| {
            let mut go = false;
            let bad = run(Some(op), fault, &mut |mut w| {
                reg().cb = 0;
                heap().requests = 0;
                replay(&mut w, op, fault);
                key.clear();
                w.key(&mut key);
                go = w.expand();
                w.finish(Some(op), fault);
            });
            if go && !bad {
                past(&op, fault, &mut key);
                succ.push((hash128(&key), (op, fault)));
            }
        };
        if opts.panics {
            for k in 1..=cbs {
                run(Some(op), Fault::Panic(k), &mut |mut w| {
                    reg().cb = 0;
                    w.apply_fault(op, Fault::Panic(k));
                    w.finish(Some(op), Fault::Panic(k));
                });
                if opts.resume {
                    after(Fault::Panic(k), &mut succ);
                }
                faults += 1;
                execs += hist.len() as u64 + 1;
            }
        }
        if opts.allocs {
            for k in 1..=reqs {
                run(Some(op), Fault::Alloc(k), &mut |mut w| {
                    heap().requests = 0;
                    w.apply_fault(op, Fault::Alloc(k));
                    w.finish(Some(op), Fault::Alloc(k));
                });
                if opts.resume {
                    after(Fault::Alloc(k), &mut succ);
                }
                faults += 1;
                execs += hist.len() as u64 + 1;
            }
        }
    }
    (n, succ, trans, faults, execs, runs.get(), kinds, outs, sample)
}

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static STATES: std::cell::RefCell<std::collections::HashSet<u128>> = std::cell::RefCell::new(Default::default());
}

/// A case of a sweep made a step on the real code and came to the state with the given canonical form.
pub fn step(state: &[u8]) {
    STEPS.with(|s| s.set(s.get() + 1));
    STATES.with(|s| {
        let mut s = s.borrow_mut();
        // The count of states is a lower bound past this.
        if s.len() < 1 << 20 {
            s.insert(hash128(state));
        }
    });
}

/// Run every case of an enumerated space of independent programs.
pub fn sweep(name: &str, opts: &Opts, n: u64, label: &(dyn Fn(u64) -> String + Sync), run: &(dyn Fn(u64) + Sync)) -> Stats {
    let mut stats = Stats { name: name.to_string(), complete: true, depth: 1, ..Default::default() };
    let next = AtomicU64::new(0);
    let done = AtomicU64::new(0);
    let steps = AtomicU64::new(0);
    let states: Mutex<std::collections::HashSet<u128>> = Mutex::new(Default::default());
    let chunk = (n / 256).clamp(1, 4096);
    std::thread::scope(|s| {
        for _ in 0..opts.threads.min(n as usize).max(1) {
            s.spawn(|| {
                enter_thread();
                loop {
                    let lo = next.fetch_add(chunk, SeqCst);
                    if lo >= n || VIOLATIONS.load(SeqCst) > 3 || opts.deadline.is_some_and(|d| Instant::now() > d) {
                        break;
                    }
                    for i in lo..(lo + chunk).min(n) {
                        let desc = move |w: &mut dyn std::fmt::Write| {
                            let _ = write!(w, "{name}: case {i}: {}\n", label(i));
                        };
                        let ok = with_case(&desc, || {
                            fresh_execution();
                            run(i);
                        });
                        if ok.is_none() {
                            stray();
                        }
                        take_violations(opts, name, &desc);
                        done.fetch_add(1, SeqCst);
                    }
                }
                steps.fetch_add(STEPS.with(|s| s.replace(0)), SeqCst);
                states.lock().unwrap().extend(STATES.with(|s| std::mem::take(&mut *s.borrow_mut())));
            });
        }
    });
    stats.runs = done.load(SeqCst);
    stats.transitions = steps.load(SeqCst);
    stats.executed_ops = stats.transitions;
    stats.states = states.into_inner().unwrap().len() as u64;
    stats.complete = stats.runs == n;
    for i in [0, n / 2, n - 1] {
        stats.samples.push(format!("{name}: {}", label(i)));
    }
    stats
}

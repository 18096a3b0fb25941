//! Enumeration of programs, workers and the command line:
//! `<bin> <property> <tier> <replay dir> <json out> <profile>`.

use crate::prog::*;
use lokky_verif_shim::explore::{explore, Counts, Found, Set};
use lokky_verif_shim::model::{rt, Kind};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- memory for the library

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        rt().alloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        rt().dealloc(p as usize, l.size(), l.align())
    }
}
struct Sc;
static ALLOC: A = A;
impl lokky::scope::Scope for Sc {
    fn alloc_for(&self, _: lokky::scope::AllocSelector) -> &dyn GlobalAlloc {
        &ALLOC
    }
}
thread_local! {
    static ENV: Cell<*mut lokky::scope::Env> = const { Cell::new(std::ptr::null_mut()) };
    static NOW: RefCell<String> = const { RefCell::new(String::new()) };
}
fn env() -> &'static mut lokky::scope::Env {
    ENV.with(|e| {
        if e.get().is_null() {
            let sc: &'static mut Sc = Box::leak(Box::new(Sc));
            e.set(Box::into_raw(Box::new(lokky::scope::Env::new(sc))));
        }
        unsafe { &mut *e.get() }
    })
}

// ---------------------------------------------------------------- enumeration

/// All sequences of up to `max` operations that a thread may be able to carry out.
pub fn sequences(start: Start, max: usize, ops: &[u8], out: &mut Vec<Part>, min: usize) {
    fn step(s: &BTreeSet<(u8, u8)>, c: u8) -> Option<BTreeSet<(u8, u8)>> {
        let mut n = BTreeSet::new();
        let mut can = false;
        for &(a, b) in s {
            let ok = match c {
                b'w' => b > 0,
                b'X' => true,
                _ => a > 0,
            };
            if !ok {
                n.insert((a, b));
                continue;
            }
            can = true;
            match c {
                b'C' | b'V' => {
                    n.insert((a + 1, b));
                }
                b'D' | b'T' => {
                    n.insert((a - 1, b));
                }
                b'W' => {
                    n.insert((a, b + 1));
                }
                b'w' => {
                    n.insert((a, b - 1));
                }
                b'U' => {
                    n.insert((a - 1, b));
                    n.insert((a, b));
                }
                b'X' => {
                    n.insert((a + 1, b));
                    n.insert((a, b));
                }
                _ => {
                    n.insert((a, b));
                }
            }
        }
        can.then_some(n)
    }
    fn rec(start: Start, s: &BTreeSet<(u8, u8)>, cur: &mut Vec<u8>, max: usize, min: usize, ops: &[u8], out: &mut Vec<Part>) {
        if cur.len() >= min {
            out.push(Part { start, ops: cur.clone() });
        }
        if cur.len() == max {
            return;
        }
        for &c in ops {
            if let Some(n) = step(s, c) {
                cur.push(c);
                rec(start, &n, cur, max, min, ops, out);
                cur.pop();
            }
        }
    }
    rec(start, &BTreeSet::from([start]), &mut vec![], max, min, ops, out);
}

/// A set of programs: lengths of the parts and what they consist of.
pub struct Set1 {
    pub name: String,
    pub lens: Vec<usize>,
    pub ops: &'static [u8],
    pub starts: Vec<Start>,
    pub keeps: Vec<Start>,
    /// At least one of these operations is there.
    pub need: &'static [u8],
    /// Bound on the number of reads of something older than the latest.
    pub stale: u32,
}

impl Set1 {
    pub fn programs(&self) -> Vec<Plan> {
        let per: Vec<Vec<Part>> = self
            .lens
            .iter()
            .map(|&l| {
                let mut v = vec![];
                for &s in &self.starts {
                    sequences(s, l, self.ops, &mut v, l);
                }
                v
            })
            .collect();
        let mut out = vec![];
        let mut ix = vec![0; per.len()];
        'all: loop {
            let parts: Vec<Part> = ix.iter().enumerate().map(|(t, &i)| per[t][i].clone()).collect();
            // Threads with the same number of operations are interchangeable.
            let sorted = (1..parts.len()).all(|t| self.lens[t] != self.lens[t - 1] || parts[t - 1] <= parts[t]);
            // But the one to whom things are sent is the next one.
            let sends = parts.iter().any(|p| p.ops.iter().any(|c| b"STX".contains(c)));
            let needed = self.need.is_empty() || parts.iter().any(|p| p.ops.iter().any(|c| self.need.contains(c)));
            let receives = sends && parts.iter().any(|p| p.ops.contains(&b'X')) && !parts.iter().any(|p| p.ops.iter().any(|c| b"ST".contains(c)));
            if (sorted || (sends && parts.len() > 2)) && needed && !receives {
                for &keep in &self.keeps {
                    out.push(Plan { parts: parts.clone(), keep });
                }
            }
            let mut t = 0;
            loop {
                if t == ix.len() {
                    break 'all;
                }
                ix[t] += 1;
                if ix[t] < per[t].len() {
                    break;
                }
                ix[t] = 0;
                t += 1;
            }
        }
        out
    }
}

// ---------------------------------------------------------------- workers

static VIOLATIONS: AtomicU64 = AtomicU64::new(0);
static STOP: AtomicBool = AtomicBool::new(false);
static BEATS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];
static NOWS: Mutex<Vec<String>> = Mutex::new(vec![]);
static PROP: Mutex<String> = Mutex::new(String::new());
static REPLAY: Mutex<String> = Mutex::new(String::new());

pub struct Runner {
    pub prop: String,
    pub thorough: bool,
    pub kinds: Vec<Kind>,
    replay_dir: String,
    json: String,
    pub profile: String,
    start: Instant,
    deadline: Instant,
    threads: usize,
    sets: Vec<(String, u64, Counts, bool)>,
    samples: Vec<String>,
    outcomes: [[u64; 2]; 16],
    spurious: u32,
    litmus: (Vec<String>, crate::litmus::Sum),
}

fn write_replay(file: &str, text: &str) {
    if let Err(e) = std::fs::write(file, text) {
        eprintln!("cannot write {file}: {e}");
    }
}

extern "C" fn crashed(sig: i32) {
    static ONCE: AtomicBool = AtomicBool::new(false);
    if ONCE.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let now = NOW.try_with(|n| n.try_borrow().map(|s| s.clone()).unwrap_or_default()).unwrap_or_default();
    let (p, f) = (PROP.try_lock().map(|p| p.clone()).unwrap_or_default(), REPLAY.try_lock().map(|p| p.clone()).unwrap_or_default());
    write_replay(&f, &format!("signal {sig} (use of memory that is not there) in program:\n{now}\n"));
    println!("VIOLATION property={p} replay={f}");
    println!("  signal {sig} in program: {now}");
    unsafe { libc::_exit(1) }
}

/// Signals are handled on a stack of their own, the one in use may be exhausted.
fn alt_stack() {
    unsafe {
        let size = 256 * 1024;
        let m = Vec::<u8>::with_capacity(size).leak().as_mut_ptr();
        let st = libc::stack_t { ss_sp: m as *mut _, ss_flags: 0, ss_size: size };
        libc::sigaltstack(&st, std::ptr::null_mut());
    }
}

impl Runner {
    pub fn from_args() -> Self {
        let a: Vec<String> = std::env::args().collect();
        if a.len() != 6 {
            eprintln!("usage: {} <property> <quick|thorough> <replay dir> <json out> <profile>", a[0]);
            std::process::exit(2);
        }
        let thorough = a[2] == "thorough";
        unsafe {
            lokky::scope::ENV = Some(env);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
                let mut a: libc::sigaction = std::mem::zeroed();
                a.sa_sigaction = crashed as extern "C" fn(i32) as usize;
                a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
                libc::sigaction(s, &a, std::ptr::null_mut());
            }
        }
        if std::env::var_os("CONC_PANICS").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        *PROP.lock().unwrap() = a[1].clone();
        *REPLAY.lock().unwrap() = format!("{}/{}-{}-{}-crash.txt", a[3], a[1], std::path::Path::new(&a[0]).file_name().unwrap().to_string_lossy(), a[5]);
        let start = Instant::now();
        Runner {
            prop: a[1].clone(),
            thorough,
            kinds: vec![],
            replay_dir: a[3].clone(),
            json: a[4].clone(),
            profile: a[5].clone(),
            start,
            deadline: start + Duration::from_secs(if thorough { 800 } else { 200 }),
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(32),
            sets: vec![],
            samples: vec![],
            outcomes: [[0; 2]; 16],
            spurious: if thorough { 2 } else { 1 },
            litmus: Default::default(),
        }
    }

    /// The memory model against the axioms, see `litmus`.
    pub fn litmus(&mut self, name: &str, lens: &[usize], ops: &[crate::litmus::I]) {
        let t0 = Instant::now();
        match crate::litmus::check(lens, ops, self.threads) {
            Ok(s) => {
                let text = format!(
                    "memory model: {} programs of {} {name}, {} executions, {} outcomes and {} races as the axioms tell, {} outcomes not explored ({} of these by programs with sequential consistency)",
                    s.programs,
                    lens.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("+"),
                    s.executions, s.outcomes, s.races, s.against + s.stronger_sc, s.stronger_sc
                );
                eprintln!("{} {text}, {:.1} s", self.prop, t0.elapsed().as_secs_f32());
                self.litmus.0.push(text);
                self.litmus.1.programs += s.programs;
                self.litmus.1.executions += s.executions;
            }
            Err(e) => {
                // Nothing the memory model tells can be believed.
                println!("memory model of the checker is wrong: {e}");
                std::process::exit(2);
            }
        }
    }

    pub fn go<S: Strong>(&mut self, set: &Set1) {
        if VIOLATIONS.load(SeqCst) > 0 {
            return;
        }
        if let Ok(f) = std::env::var("CONC_SET") {
            if !set.name.contains(&f) {
                return;
            }
        }
        let t0 = Instant::now();
        let name = format!("{} {}", S::NAME, set.name);
        let mut plans = set.programs();
        // Those that take long go first.
        plans.sort_by_cached_key(|p| {
            let w = |c: &u8| match c {
                b'G' => 7u64,
                b'W' | b'M' => 6,
                b'O' => 3,
                b'R' => 1,
                _ => 2,
            };
            std::cmp::Reverse(p.parts.iter().map(|p| 1 + p.ops.iter().map(w).sum::<u64>()).product::<u64>())
        });
        let next = AtomicUsize::new(0);
        let done = AtomicU64::new(0);
        let total = Mutex::new((Counts::default(), [[0u64; 2]; 16]));
        let found: Mutex<Option<(Plan, Found)>> = Mutex::new(None);
        {
            let mut n = NOWS.lock().unwrap();
            n.clear();
            n.resize(self.threads, String::new());
        }
        let finished = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for w in 0..self.threads {
                let (plans, next, total, found, done, finished) = (&plans, &next, &total, &found, &done, &finished);
                let (kinds, deadline, spurious) = (&self.kinds, self.deadline, self.spurious);
                s.spawn(move || {
                    let mut seen = Set::default();
                    let mut sum = Counts::default();
                    let mut outs = [[0u64; 2]; 16];
                    alt_stack();
                    BEATS[w].store(0, SeqCst);
                    rt().beat = Some(&BEATS[w]);
                    rt().max_spurious = spurious;
                    rt().max_stale = set.stale;
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        if i >= plans.len() || STOP.load(SeqCst) || Instant::now() > deadline {
                            break;
                        }
                        let plan = &plans[i];
                        let text = show(plan);
                        NOW.with(|n| *n.borrow_mut() = text.clone());
                        NOWS.lock().unwrap()[w] = text;
                        let run = Run::<S>::new(plan.clone());
                        let (c, f) = explore(&run, &|k| kinds.contains(&k), &mut seen, 20_000_000);
                        if std::env::var_os("CONC_BIG").is_some() && c.states > 50_000 {
                            eprintln!("{} states, {} transitions, {:.1} s: {}", c.states, c.transitions, t0.elapsed().as_secs_f32(), NOWS.lock().unwrap()[w]);
                        }
                        sum.states += c.states;
                        sum.transitions += c.transitions;
                        sum.executions += c.executions;
                        sum.cut += c.cut;
                        sum.other += c.other;
                        sum.depth = sum.depth.max(c.depth);
                        sum.incomplete |= c.incomplete;
                        for (a, b) in outs.iter_mut().zip(run.outcomes.get()) {
                            a[0] += b[0];
                            a[1] += b[1];
                        }
                        if seen.capacity() > 1 << 14 {
                            seen = Set::default();
                        }
                        done.fetch_add(1, SeqCst);
                        if let Some(f) = f {
                            STOP.store(true, SeqCst);
                            let mut g = found.lock().unwrap();
                            if g.is_none() {
                                *g = Some((plan.clone(), f));
                            }
                        }
                    }
                    BEATS[w].store(u64::MAX, SeqCst);
                    finished.fetch_add(1, SeqCst);
                    let mut t = total.lock().unwrap();
                    t.0.states += sum.states;
                    t.0.transitions += sum.transitions;
                    t.0.executions += sum.executions;
                    t.0.cut += sum.cut;
                    t.0.other += sum.other;
                    t.0.depth = t.0.depth.max(sum.depth);
                    t.0.incomplete |= sum.incomplete;
                    for (a, b) in t.1.iter_mut().zip(outs) {
                        a[0] += b[0];
                        a[1] += b[1];
                    }
                });
            }
            // Operations that never come back nor do anything the scheduler sees.
            let mut last = [(0u64, Instant::now()); 64];
            while finished.load(SeqCst) < self.threads {
                std::thread::sleep(Duration::from_millis(5));
                for (w, b) in BEATS.iter().enumerate().take(self.threads) {
                    let b = b.load(SeqCst);
                    if b != last[w].0 || b == u64::MAX {
                        last[w] = (b, Instant::now());
                    } else if last[w].1.elapsed().as_secs() > 60 {
                        let now = NOWS.lock().unwrap()[w].clone();
                        let f = REPLAY.lock().unwrap().clone();
                        if self.kinds.contains(&Kind::Stuck) {
                            write_replay(&f, &format!("an operation does not finish in program:\n{now}\n"));
                            println!("VIOLATION property={} replay={f}", self.prop);
                            println!("  an operation does not finish in program: {now}");
                            std::process::exit(1);
                        }
                        println!("gives up: an operation does not finish in program: {now}");
                        std::process::exit(2);
                    }
                }
            }
        });
        let (c, outs) = total.into_inner().unwrap();
        let done = done.load(SeqCst);
        for (a, b) in self.outcomes.iter_mut().zip(outs) {
            a[0] += b[0];
            a[1] += b[1];
        }
        if let Some((plan, f)) = found.into_inner().unwrap() {
            VIOLATIONS.fetch_add(1, SeqCst);
            let file = format!("{}/{}-{}-{}.txt", self.replay_dir, self.prop, S::NAME.to_lowercase(), self.profile);
            write_replay(
                &file,
                &format!("property {}\nprogram of {name}: {}\n{:?}: {}\nschedule {:?} (which of the options at each step)\n\n{}", self.prop, show(&plan), f.kind, f.msg, f.schedule, f.trace),
            );
            println!("VIOLATION property={} replay={file}", self.prop);
            println!("  {:?}: {}\n  program: {}", f.kind, f.msg, show(&plan));
        }
        eprintln!(
            "{} {name}: {done} of {} programs, {} states, {} transitions, {} executions (+{} joined), {} other, depth {}, {:.1} s",
            self.prop, plans.len(), c.states, c.transitions, c.executions, c.cut, c.other, c.depth, t0.elapsed().as_secs_f32()
        );
        if let Some(p) = plans.get(plans.len() / 2) {
            self.samples.push(format!("{name}: {}", show(p)));
        }
        let complete = done == plans.len() as u64 && !c.incomplete;
        self.sets.push((name, done, c, complete));
    }

    pub fn end(self) -> ! {
        let q = |s: &str| format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " "));
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        let (mut st, mut tr, mut ex, mut ru, mut ot) = (0, 0, 0, 0, 0);
        let (mut worlds, mut cut) = (vec![], vec![]);
        for (name, programs, c, complete) in &self.sets {
            st += c.states;
            tr += c.transitions;
            ex += c.executions;
            ru += programs;
            ot += c.other;
            worlds.push(format!("{name}: {programs} programs, {} states, {} transitions, {} executions, {} joined one seen before, {} steps at most{}", c.states, c.transitions, c.executions, c.cut, c.depth, if *complete { "" } else { " (cut by limit)" }));
            if !complete {
                cut.push(name.clone());
            }
        }
        worlds.extend(self.litmus.0.iter().cloned());
        let mut kinds = vec![];
        let mut outs = vec![];
        for (i, &c) in OPS.iter().enumerate() {
            let [no, yes] = self.outcomes[i];
            if no + yes > 0 {
                kinds.push(format!("{}:{}", q(op_name(c)), no + yes));
                outs.push(format!("{}:{yes}", q(&format!("{} (yes)", op_name(c)))));
                if no > 0 {
                    outs.push(format!("{}:{no}", q(&format!("{} (no)", op_name(c)))));
                }
            }
        }
        let ops: u64 = self.outcomes.iter().map(|o| o[0] + o[1]).sum();
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"states\":{st},\"transitions\":{tr},\"fault_runs\":0,\"executed_ops\":{ops},\"runs\":{ex},\"worlds\":{},\"cut\":{},\"samples\":{},\"op_kinds\":{{{}}},\"outcomes\":{{{}}},\"violations\":{},\"other_kind\":{ot},\"extra\":{{\"programs\":{ru},\"schedules\":{ex},\"memory_model_programs\":{},\"memory_model_executions\":{}}},\"wall_s\":{}}}",
            list(&worlds),
            list(&cut),
            list(&self.samples),
            kinds.join(","),
            outs.join(","),
            VIOLATIONS.load(SeqCst),
            self.litmus.1.programs,
            self.litmus.1.executions,
            self.start.elapsed().as_secs_f64()
        );
        write_replay(&self.json, &o);
        std::process::exit((VIOLATIONS.load(SeqCst) > 0) as i32)
    }
}

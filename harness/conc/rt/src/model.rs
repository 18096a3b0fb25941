//! Memory model, race detection and the state of the explored threads.
//!
//! Atomics: every location keeps all the stores made to it. A load may read any store that is not
//! hidden from the thread by happens-before or by what it has read already; read-modify-writes read the
//! latest store; failing compare-exchanges read any store they may see, weak ones may also fail
//! spuriously. Acquire, release, fences, release sequences and sequential consistency follow C++20,
//! except that stores become part of the modification order when they are executed.
//!
//! Everything else (cells, values, blocks of memory) is checked with vector clocks: two accesses, one
//! of them writing, that are not ordered by happens-before are a violation whatever order they came in.

use crate::co::Co;
use std::cell::UnsafeCell;
use std::fmt::Write as _;
use std::sync::atomic::Ordering;

pub const MAXT: usize = 4;
pub type Vc = [u16; MAXT];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// Value or memory destroyed twice, never, too early, or used after that.
    Life,
    /// Exclusive access overlaps with another access.
    Excl,
    /// Operation does not finish.
    Stuck,
    /// Counts are wrong at the end.
    Count,
    /// Anything else.
    Other,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Rmw {
    Swap,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Nand,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Start,
    Load(Ordering),
    Store(u64, Ordering),
    Rmw(Rmw, u64, u8, Ordering),
    Cas { exp: u64, new: u64, ok: Ordering, fail: Ordering, weak: bool },
    FenceSc,
    /// Put something in the mailbox of a thread, or take it.
    Put(u8, u64),
    Take(u8),
    /// Wait until somebody else has done something.
    Yield,
}

#[derive(Clone, Copy, Debug)]
enum Var {
    /// Read the store with this index.
    Read(u16),
    Go,
    /// Compare-exchange fails, having read this store.
    Fail(u16),
    Spurious,
}

#[derive(Clone, Copy)]
struct Store {
    val: u64,
    tid: u8,
    time: u16,
    sync: Vc,
    sc: bool,
}

struct Loc {
    addr: usize,
    stores: Vec<Store>,
    /// Per thread: at this time it has read or written this index.
    seen: [Vec<(u16, u16)>; MAXT],
    floor: [u16; MAXT],
    na_w: (u8, u16),
}

pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub live: bool,
    pub by: u8,
    acc: Vc,
    freed: (u8, u16),
}

struct Plain {
    addr: usize,
    w: (u8, u16),
    r: Vc,
}

#[derive(Clone)]
pub struct Value {
    pub made: u8,
    pub ver: u32,
    pub dead: bool,
    pub owned: bool,
    w: (u8, u16),
    r: Vc,
    wk: Kind,
}

struct Thr {
    clock: Vc,
    acq: Vc,
    rel: Vc,
    hash: u64,
    hash2: u64,
    op: Op,
    addr: usize,
    res: (u64, bool),
    done: bool,
    /// Not run until others do something: number of events of others at that time.
    wait: Option<u32>,
    events: u32,
    /// The last things read since anything new, for loops without a hint.
    recent: [(usize, u16); 4],
    repeat: u32,
    /// How often it has waited with nothing new to see since.
    idle: u32,
    label: String,
}

struct Mail {
    full: Option<u64>,
    sync: Vc,
    seq: u32,
}

pub struct Rt {
    pub active: bool,
    on_co: bool,
    pub cur: usize,
    n: usize,
    thr: Vec<Thr>,
    locs: Vec<Loc>,
    pub blocks: Vec<Block>,
    plains: Vec<Plain>,
    pub values: Vec<Value>,
    mail: [Mail; MAXT],
    sc: Vc,
    sc_seq: u32,
    spurious: u32,
    pub max_spurious: u32,
    stale: u32,
    /// How many reads of one execution may give something older than the latest.
    pub max_stale: u32,
    pub viol: Option<(Kind, String)>,
    co: Vec<Co>,
    arena: *mut u8,
    top: [usize; MAXT],
    tracing: bool,
    pub trace: String,
    events: u32,
    /// Stop, do not resume threads any more.
    pub dead: bool,
    body: Option<*const dyn Fn(usize)>,
    /// Executions so far.
    pub beat: Option<&'static std::sync::atomic::AtomicU64>,
}

const ARENA: usize = 64 * 1024;
const RZ: usize = 32;

thread_local! {
    static RT: UnsafeCell<Option<Box<Rt>>> = const { UnsafeCell::new(None) };
}

#[allow(clippy::mut_from_ref)]
pub fn rt() -> &'static mut Rt {
    RT.with(|r| unsafe {
        let r = &mut *r.get();
        let b = r.get_or_insert_with(|| Box::new(Rt::new()));
        &mut *(&mut **b as *mut Rt)
    })
}

fn le(a: &Vc, b: &Vc) -> bool {
    (0..MAXT).all(|i| a[i] <= b[i])
}
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        a[i] = a[i].max(b[i]);
    }
}
fn acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}
fn mix(h: u64, v: u64) -> u64 {
    let x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 32)
}

impl Rt {
    fn new() -> Self {
        let l = std::alloc::Layout::from_size_align(ARENA * MAXT, 4096).unwrap();
        Rt {
            active: false,
            on_co: false,
            cur: 0,
            n: 0,
            thr: vec![],
            locs: vec![],
            blocks: vec![],
            plains: vec![],
            values: vec![],
            mail: std::array::from_fn(|_| Mail { full: None, sync: [0; MAXT], seq: 0 }),
            sc: [0; MAXT],
            sc_seq: 0,
            spurious: 0,
            max_spurious: 1,
            stale: 0,
            max_stale: u32::MAX,
            viol: None,
            co: (0..MAXT).map(|_| Co::new()).collect(),
            arena: unsafe { std::alloc::alloc_zeroed(l) },
            top: [0; MAXT],
            tracing: false,
            trace: String::new(),
            events: 0,
            dead: false,
            body: None,
            beat: None,
        }
    }

    /// Begin an execution, the main thread is number 0.
    pub fn begin(&mut self, tracing: bool) {
        self.active = true;
        if let Some(b) = self.beat {
            b.fetch_add(1, Ordering::Relaxed);
        }
        self.on_co = false;
        self.cur = 0;
        self.n = 0;
        self.thr.clear();
        self.locs.clear();
        self.blocks.clear();
        self.plains.clear();
        self.values.clear();
        self.mail = std::array::from_fn(|_| Mail { full: None, sync: [0; MAXT], seq: 0 });
        self.sc = [0; MAXT];
        self.sc_seq = 0;
        self.spurious = 0;
        self.stale = 0;
        self.viol = None;
        self.top = [0; MAXT];
        self.tracing = tracing;
        self.trace.clear();
        self.events = 0;
        self.dead = false;
        let t = self.new_thr([1, 0, 0, 0]);
        self.thr.push(t);
    }

    fn new_thr(&self, clock: Vc) -> Thr {
        Thr {
            clock,
            acq: [0; MAXT],
            rel: [0; MAXT],
            hash: 7,
            hash2: 13,
            op: Op::Start,
            addr: 0,
            res: (0, false),
            done: false,
            wait: None,
            events: 0,
            recent: [(0, 0); 4],
            repeat: 0,
            idle: 0,
            label: String::new(),
        }
    }

    pub fn violate(&mut self, kind: Kind, msg: String) {
        if self.viol.is_none() {
            if self.tracing {
                let _ = writeln!(self.trace, "    !! {msg}");
            }
            self.viol = Some((kind, msg));
        }
        // Let nothing that is broken be used any further.
        self.dead = true;
        if self.on_co {
            self.to_scheduler();
        }
    }

    fn to_scheduler(&mut self) {
        let c = &mut self.co[self.cur] as *mut Co;
        unsafe { (*c).suspend() }
    }

    // ------------------------------------------------------------ program of threads

    /// Start threads 1..=n, they run `body` with their number.
    pub fn spawn(&mut self, n: usize, body: &dyn Fn(usize)) {
        self.n = n;
        self.body = Some(unsafe { std::mem::transmute::<*const dyn Fn(usize), *const (dyn Fn(usize) + 'static)>(body) });
        for t in 1..=n {
            let mut c = self.thr[0].clock;
            c[t] = 1;
            let th = self.new_thr(c);
            self.thr.push(th);
            self.co[t].start(run_thread, t);
        }
        self.thr[0].clock[0] += 1;
    }

    /// All the options now, in a fixed order.
    fn options(&mut self, out: &mut Vec<(u8, Var)>) {
        out.clear();
        for patience in [0, 20] {
            for pass in 0..2 {
                for t in 1..=self.n {
                    let th = &self.thr[t];
                    if th.done || (th.wait == Some(self.events - th.events) && th.idle >= patience) {
                        continue;
                    }
                    self.variants(t, pass, out);
                }
            }
            // If all of them wait then let them try a few times more, it may be no loop at all.
            if !out.is_empty() {
                break;
            }
        }
    }

    fn variants(&mut self, t: usize, pass: usize, out: &mut Vec<(u8, Var)>) {
        let th = &self.thr[t];
        let (op, addr) = (th.op, th.addr);
        let first = pass == 0;
        match op {
            Op::Start | Op::Store(..) | Op::Rmw(..) | Op::FenceSc | Op::Put(..) | Op::Take(_) | Op::Yield => {
                if first {
                    out.push((t as u8, Var::Go))
                }
            }
            Op::Load(o) => {
                let l = self.loc(addr, t);
                let last = self.locs[l].stores.len() as u16 - 1;
                if first {
                    out.push((t as u8, Var::Read(last)));
                } else if self.stale < self.max_stale {
                    for i in (self.lowest(l, t, o)..last).rev() {
                        out.push((t as u8, Var::Read(i)));
                    }
                }
            }
            Op::Cas { exp, fail, weak, .. } => {
                let l = self.loc(addr, t);
                let last = self.locs[l].stores.len() as u16 - 1;
                let good = self.locs[l].stores[last as usize].val == exp;
                if first {
                    out.push((t as u8, if good { Var::Go } else { Var::Fail(last) }));
                } else {
                    for i in (self.lowest(l, t, fail)..last).rev() {
                        if self.stale < self.max_stale && self.locs[l].stores[i as usize].val != exp {
                            out.push((t as u8, Var::Fail(i)));
                        }
                    }
                    if good && weak && self.spurious < self.max_spurious {
                        out.push((t as u8, Var::Spurious));
                    }
                }
            }
        }
    }

    fn loc(&mut self, addr: usize, t: usize) -> usize {
        if let Some(i) = self.locs.iter().position(|l| l.addr == addr) {
            return i;
        }
        // What is in the memory was put there by whoever obtained it.
        let by = self.block(addr).map_or(t, |b| self.blocks[b].by as usize);
        let val = unsafe { std::ptr::read_unaligned(addr as *const u64) };
        let _ = val;
        let mut l = Loc { addr, stores: vec![], seen: Default::default(), floor: [0; MAXT], na_w: (by as u8, 0) };
        l.stores.push(Store { val: 0, tid: by as u8, time: 0, sync: [0; MAXT], sc: false });
        self.locs.push(l);
        self.locs.len() - 1
    }

    /// Oldest store the thread may read.
    fn lowest(&self, l: usize, t: usize, o: Ordering) -> u16 {
        let loc = &self.locs[l];
        let c = &self.thr[t].clock;
        let mut lo = loc.floor[t];
        for (i, s) in loc.stores.iter().enumerate() {
            if s.time <= c[s.tid as usize] || (o == Ordering::SeqCst && s.sc) {
                lo = lo.max(i as u16);
            }
        }
        for u in 0..MAXT {
            for &(time, i) in &loc.seen[u] {
                if time <= c[u] {
                    lo = lo.max(i);
                }
            }
        }
        lo
    }

    fn ev(&mut self, t: usize, a: u64, b: u64) {
        let th = &mut self.thr[t];
        let v = mix(a.wrapping_mul(31).wrapping_add(b), a);
        th.hash = mix(th.hash, v);
        th.hash2 = mix(th.hash2, v.rotate_left(17) ^ 0x55);
    }

    pub fn state(&self) -> u128 {
        let (mut a, mut b) = (self.spurious as u64 + ((self.max_stale < u32::MAX) as u64 * self.stale as u64) * 64, 3);
        for t in &self.thr {
            a = mix(a, t.hash.wrapping_add(t.done as u64));
            b = mix(b, t.hash2.wrapping_add(t.wait.is_some() as u64));
            if let Some(w) = t.wait {
                a = mix(a, (self.events - t.events == w) as u64);
            }
        }
        (a as u128) << 64 | b as u128
    }

    /// Do the pending operation of the thread. Returns whether it read something new or wrote.
    fn exec(&mut self, t: usize, v: Var) {
        let (op, addr) = (self.thr[t].op, self.thr[t].addr);
        let addr_id = self.addr_id(addr);
        let mut novel = true;
        let mut text = String::new();
        match op {
            Op::Start | Op::Yield => self.ev(t, 1, 0),
            Op::FenceSc => {
                let c = self.thr[t].clock;
                join(&mut self.sc, &c);
                let sc = self.sc;
                join(&mut self.thr[t].clock, &sc);
                self.sc_seq += 1;
                self.ev(t, 2, self.sc_seq as u64);
            }
            Op::Put(to, what) => {
                let c = self.thr[t].clock;
                let m = &mut self.mail[to as usize];
                if m.full.is_none() {
                    m.full = Some(what);
                    join(&mut m.sync, &c);
                    self.thr[t].res = (0, true);
                } else {
                    self.thr[t].res = (0, false);
                }
                m.seq += 1;
                let s = m.seq as u64;
                self.ev(t, 3 + 16 * to as u64, s);
            }
            Op::Take(from) => {
                let m = &mut self.mail[from as usize];
                m.seq += 1;
                let (s, full, sync) = (m.seq as u64, m.full.take(), m.sync);
                if let Some(w) = full {
                    join(&mut self.thr[t].clock, &sync);
                    self.thr[t].res = (w, true);
                } else {
                    self.thr[t].res = (0, false);
                }
                self.ev(t, 4 + 16 * from as u64, s);
            }
            Op::Load(o) => {
                let l = self.loc(addr, t);
                let Var::Read(i) = v else { unreachable!() };
                let x = self.read(l, t, i, o);
                novel = self.novel(t, addr, i);
                self.thr[t].res = (x, true);
                if self.tracing {
                    let old = if i as usize + 1 < self.locs[l].stores.len() { " (stale)" } else { "" };
                    text = format!("load({o:?}) = {}{old}", show(x));
                }
                self.ev(t, 5 + 16 * addr_id, i as u64);
            }
            Op::Store(x, o) => {
                let l = self.loc(addr, t);
                self.write(l, t, x, o, None);
                if self.tracing {
                    text = format!("store({}, {o:?})", show(x));
                }
                let n = self.locs[l].stores.len() as u64;
                self.ev(t, 6 + 16 * addr_id, n);
            }
            Op::Rmw(k, x, size, o) => {
                let l = self.loc(addr, t);
                let last = self.locs[l].stores.len() as u16 - 1;
                let old = self.read(l, t, last, if acq(o) { Ordering::Acquire } else { Ordering::Relaxed });
                let new = match k {
                    Rmw::Swap => x,
                    Rmw::Add => old.wrapping_add(x),
                    Rmw::Sub => old.wrapping_sub(x),
                    Rmw::And => old & x,
                    Rmw::Or => old | x,
                    Rmw::Xor => old ^ x,
                    Rmw::Nand => !(old & x),
                } & (u64::MAX >> (64 - 8 * size as u32));
                self.write(l, t, new, o, Some(last));
                self.thr[t].res = (old, true);
                if self.tracing {
                    text = format!("{k:?}({}, {o:?}): {} -> {}", show(x), show(old), show(new));
                }
                self.ev(t, 7 + 16 * addr_id, last as u64);
            }
            Op::Cas { exp, new, ok, fail, weak } => {
                let l = self.loc(addr, t);
                let last = self.locs[l].stores.len() as u16 - 1;
                match v {
                    Var::Go => {
                        let old = self.read(l, t, last, if acq(ok) { Ordering::Acquire } else { Ordering::Relaxed });
                        self.write(l, t, new, ok, Some(last));
                        self.thr[t].res = (old, true);
                        self.ev(t, 8 + 16 * addr_id, last as u64);
                    }
                    Var::Fail(i) => {
                        let x = self.read(l, t, i, fail);
                        novel = self.novel(t, addr, i);
                        self.thr[t].res = (x, false);
                        self.ev(t, 9 + 16 * addr_id, i as u64);
                    }
                    _ => {
                        let x = self.read(l, t, last, fail);
                        self.spurious += 1;
                        self.thr[t].res = (x, false);
                        self.ev(t, 10 + 16 * addr_id, last as u64);
                    }
                }
                if self.tracing {
                    let r = self.thr[t].res;
                    text = format!("compare_exchange{}({} -> {}, {ok:?}, {fail:?}) {} {}{}", if weak { "_weak" } else { "" }, show(exp), show(new), if r.1 { "succeeds, was" } else { "fails, read" }, show(r.0), if matches!(v, Var::Spurious) { " (spurious)" } else { "" });
                }
            }
        }
        let th = &mut self.thr[t];
        let tt = th.clock[t];
        th.clock[t] = tt + 1;
        // Only what changes something lets those go on that wait.
        let writes = match op {
            Op::Store(..) | Op::Rmw(..) | Op::Put(..) => true,
            Op::Cas { .. } => matches!(v, Var::Go),
            Op::Take(_) => self.thr[t].res.1,
            _ => false,
        };
        if writes {
            self.events += 1;
            self.thr[t].events += 1;
        }
        if matches!(op, Op::Yield) {
        } else if novel {
            self.thr[t].repeat = 0;
            self.thr[t].idle = 0;
        } else {
            self.thr[t].repeat += 1;
            if self.thr[t].repeat >= 3 {
                self.wait(t);
            }
        }
        if self.tracing && !text.is_empty() {
            let w = self.where_is(addr);
            let _ = writeln!(self.trace, "    thread {t}: {w}.{text}");
        }
    }

    fn addr_id(&self, addr: usize) -> u64 {
        (addr.wrapping_sub(self.arena as usize)) as u64
    }

    fn where_is(&self, addr: usize) -> String {
        match self.block(addr) {
            Some(b) => format!("[block {b} + {}]", addr - self.blocks[b].addr),
            None => "[?]".to_string(),
        }
    }

    /// Whether the thread reads something it did not just read before.
    fn novel(&mut self, t: usize, addr: usize, i: u16) -> bool {
        let th = &mut self.thr[t];
        if th.recent.contains(&(addr, i + 1)) {
            return false;
        }
        th.recent.rotate_right(1);
        th.recent[0] = (addr, i + 1);
        true
    }

    /// The thread does not get any further by itself: run it again when somebody else has done something,
    /// or when there is something new for it to see.
    fn wait(&mut self, t: usize) {
        let others = self.events - self.thr[t].events;
        self.thr[t].repeat = 0;
        // Stores of others become visible in finite time.
        let mut news = false;
        for l in &mut self.locs {
            let last = l.stores.len() as u16 - 1;
            news |= !l.seen[t].is_empty() && l.floor[t] < last;
            l.floor[t] = last;
        }
        self.thr[t].wait = if news { None } else { Some(others) };
        self.thr[t].idle += !news as u32;
        // Locations are listed in the order of their first use, which is not that of others.
        let mut fl: Vec<(u64, u16)> = self.locs.iter().map(|l| (self.addr_id(l.addr), l.floor[t])).collect();
        fl.sort_unstable();
        let k = fl.iter().fold(0, |k, f| mix(mix(k, f.0), f.1 as u64));
        self.ev(t, 11, k);
    }

    fn read(&mut self, l: usize, t: usize, i: u16, o: Ordering) -> u64 {
        self.stale += ((i as usize) + 1 < self.locs[l].stores.len()) as u32;
        let s = self.locs[l].stores[i as usize];
        let time = self.thr[t].clock[t];
        let loc = &mut self.locs[l];
        loc.floor[t] = loc.floor[t].max(i);
        loc.seen[t].push((time, i));
        let th = &mut self.thr[t];
        if acq(o) {
            join(&mut th.clock, &s.sync);
        } else {
            join(&mut th.acq, &s.sync);
        }
        s.val
    }

    fn write(&mut self, l: usize, t: usize, val: u64, o: Ordering, rmw: Option<u16>) {
        let th = &mut self.thr[t];
        let mut sync = th.rel;
        if rel(o) {
            join(&mut sync, &th.clock);
        }
        let loc = &mut self.locs[l];
        if let Some(i) = rmw {
            join(&mut sync, &loc.stores[i as usize].sync);
        }
        let time = th.clock[t];
        loc.stores.push(Store { val, tid: t as u8, time, sync, sc: o == Ordering::SeqCst });
        let i = loc.stores.len() as u16 - 1;
        loc.floor[t] = i;
        loc.seen[t].push((time, i));
        th.recent = [(0, 0); 4];
    }

    // ------------------------------------------------------------ memory

    pub fn block(&self, addr: usize) -> Option<usize> {
        let base = self.arena as usize;
        if addr < base || addr >= base + ARENA * MAXT {
            return None;
        }
        self.blocks.iter().position(|b| addr >= b.addr && addr < b.addr + b.size)
    }

    /// Some access to memory; false if it may not happen at all.
    fn touch(&mut self, addr: usize, what: &str) -> bool {
        let base = self.arena as usize;
        if addr < base || addr >= base + ARENA * MAXT {
            return true;
        }
        let Some(b) = self.block(addr) else {
            self.violate(Kind::Life, format!("{what} of memory that was never obtained"));
            return false;
        };
        let t = self.cur;
        let time = self.thr[t].clock[t];
        if !self.blocks[b].live {
            let by = self.blocks[b].freed.0;
            self.violate(Kind::Life, format!("{what} in block {b} by thread {t} after thread {by} has given it back"));
            return false;
        }
        self.blocks[b].acc[t] = time;
        true
    }

    pub fn alloc(&mut self, size: usize, align: usize) -> *mut u8 {
        let t = self.cur;
        if !self.active || size == 0 || self.top[t] + size + 2 * align + 2 * RZ > ARENA {
            return std::ptr::null_mut();
        }
        let lo = self.arena as usize + t * ARENA + self.top[t];
        let p = (lo + RZ + align - 1) & !(align - 1);
        self.top[t] = p + size + RZ - (self.arena as usize + t * ARENA);
        let mut acc = [0; MAXT];
        acc[t] = self.thr[t].clock[t];
        unsafe { std::ptr::write_bytes(p as *mut u8, 0xA5, size) };
        self.blocks.push(Block { addr: p, size, align, live: true, by: t as u8, acc, freed: (0, 0) });
        if self.tracing {
            let _ = writeln!(self.trace, "    thread {t}: obtains block {} of {size} bytes", self.blocks.len() - 1);
        }
        p as *mut u8
    }

    pub fn dealloc(&mut self, p: usize, size: usize, align: usize) {
        if self.dead {
            return;
        }
        let t = self.cur;
        let Some(b) = self.blocks.iter().position(|b| b.addr == p) else {
            return self.violate(Kind::Life, "memory is given back that was never obtained".into());
        };
        if self.tracing {
            let _ = writeln!(self.trace, "    thread {t}: gives back block {b}");
        }
        let bl = &mut self.blocks[b];
        if !bl.live {
            return self.violate(Kind::Life, format!("block {b} is given back twice"));
        }
        if bl.size != size || bl.align != align {
            return self.violate(Kind::Life, format!("block {b} is given back with another size or alignment"));
        }
        bl.live = false;
        // Whatever is taken from there after this is no valid address.
        unsafe { std::ptr::write_bytes(p as *mut u8, 0xDD, size) };
        let bl = &mut self.blocks[b];
        bl.freed = (t as u8, self.thr[t].clock[t]);
        let acc = bl.acc;
        if let Some(u) = (0..MAXT).find(|&u| acc[u] > self.thr[t].clock[u]) {
            self.violate(Kind::Life, format!("thread {t} gives back block {b} without synchronisation with the last use of it by thread {u}"));
        }
    }

    /// Read or write of memory that is not atomic.
    fn plain(&mut self, addr: usize, write: bool) {
        if !self.touch(addr, if write { "write" } else { "read" }) {
            return;
        }
        let base = self.arena as usize;
        if addr < base || addr >= base + ARENA * MAXT {
            return;
        }
        let i = match self.plains.iter().position(|p| p.addr == addr) {
            Some(i) => i,
            None => {
                self.plains.push(Plain { addr, w: (0, 0), r: [0; MAXT] });
                self.plains.len() - 1
            }
        };
        let t = self.cur;
        let c = self.thr[t].clock;
        let p = &mut self.plains[i];
        let (w, r) = (p.w, p.r);
        if write {
            p.w = (t as u8, c[t]);
        } else {
            p.r[t] = c[t];
        }
        if w.1 > c[w.0 as usize] || (write && !le(&r, &c)) {
            let at = self.where_is(addr);
            let u = if w.1 > c[w.0 as usize] { w.0 as usize } else { (0..MAXT).find(|&u| r[u] > c[u]).unwrap() };
            self.violate(Kind::Life, format!("race on {at} between threads {u} and {t}"));
        }
    }

    // ------------------------------------------------------------ values

    pub fn value_new(&mut self) -> u32 {
        let t = self.cur;
        let c = self.thr[t].clock[t];
        // Ids are given out per thread so that they do not depend on the schedule.
        let k = self.values.iter().filter(|v| v.made == t as u8).count() as u32;
        self.values.push(Value { made: t as u8, ver: 0, dead: false, owned: false, w: (t as u8, c), r: [0; MAXT], wk: Kind::Excl });
        t as u32 * 1000 + k
    }
    fn value_ix(&self, id: u32) -> Option<usize> {
        let (t, k) = ((id / 1000) as u8, id % 1000);
        self.values.iter().enumerate().filter(|(_, v)| v.made == t).nth(k as usize).map(|(i, _)| i)
    }
    /// `kind` tells what an overlap with another access would break.
    pub fn value_access(&mut self, id: u32, addr: usize, write: bool, kind: Kind, what: &str) -> u32 {
        let t = self.cur;
        if !self.touch(addr, what) {
            return 0;
        }
        let Some(i) = self.value_ix(id) else {
            self.violate(Kind::Life, format!("{what} by thread {t}: there is no value"));
            return 0;
        };
        let c = self.thr[t].clock;
        if self.tracing {
            let _ = writeln!(self.trace, "    thread {t}: {what} value {id}");
        }
        if self.values[i].dead {
            self.violate(Kind::Life, format!("thread {t}: {what} value {id} after it was destroyed"));
            return 0;
        }
        let v = &mut self.values[i];
        let (w, r, wk) = (v.w, v.r, v.wk);
        if write {
            v.w = (t as u8, c[t]);
            v.wk = kind;
            v.ver += 1;
        } else {
            v.r[t] = c[t];
        }
        let ver = v.ver;
        if w.1 > c[w.0 as usize] {
            let k = if wk == Kind::Life || kind == Kind::Life { Kind::Life } else { Kind::Excl };
            self.violate(k, format!("thread {t}: {what} value {id} without synchronisation with the write or destruction by thread {}", w.0));
        } else if write && !le(&r, &c) {
            let u = (0..MAXT).find(|&u| r[u] > c[u]).unwrap();
            self.violate(kind, format!("thread {t}: {what} value {id} without synchronisation with the read by thread {u}"));
        }
        ver
    }
    pub fn value_dead(&mut self, id: u32) {
        if let Some(i) = self.value_ix(id) {
            self.values[i].dead = true;
        }
    }
    /// Somebody got the value out.
    pub fn value_owned(&mut self, id: u32) {
        if let Some(i) = self.value_ix(id) {
            if std::mem::replace(&mut self.values[i].owned, true) {
                self.violate(Kind::Excl, format!("value {id} was unwrapped twice"));
            }
        }
    }

    // ------------------------------------------------------------ running

    /// Run the threads to the end of all. `choose` picks one of so many options.
    pub fn run(&mut self, choose: &mut dyn FnMut(&mut Rt, usize) -> Option<usize>) -> bool {
        let mut opts: Vec<(u8, Var)> = vec![];
        let mut steps = 0;
        loop {
            if self.dead {
                return true;
            }
            self.options(&mut opts);
            if opts.is_empty() {
                if (1..=self.n).all(|t| self.thr[t].done) {
                    break;
                }
                let who: Vec<usize> = (1..=self.n).filter(|&t| !self.thr[t].done).collect();
                let l = who.iter().map(|&t| self.thr[t].label.clone()).collect::<Vec<_>>().join(", ");
                self.violate(Kind::Stuck, format!("threads {who:?} wait for ever in: {l}"));
                return true;
            }
            steps += 1;
            if steps > 2000 {
                self.violate(Kind::Stuck, "operations do not finish in 2000 steps".into());
                return true;
            }
            let n = opts.len();
            let Some(k) = choose(self, n) else { return false };
            let (t, v) = opts[k];
            let t = t as usize;
            self.thr[t].wait = None;
            self.cur = t;
            let a = self.thr[t].addr;
            if a != 0 && !self.touch(a, "atomic operation") {
                return true;
            }
            self.exec(t, v);
            self.cur = 0;
            if self.dead {
                return true;
            }
            if self.thr[t].wait.is_some() && !matches!(self.thr[t].op, Op::Start) {
                // The result is there, but it goes on only after somebody else did something.
                self.thr[t].op = Op::Yield;
                self.thr[t].addr = 0;
                continue;
            }
            self.cur = t;
            self.on_co = true;
            let c = &mut self.co[t] as *mut Co;
            unsafe { (*c).resume() };
            self.on_co = false;
            self.cur = 0;
        }
        for t in 1..=self.n {
            let c = self.thr[t].clock;
            join(&mut self.thr[0].clock, &c);
        }
        self.thr[0].clock[0] += 1;
        self.n = 0;
        true
    }

    /// Run a part of the program that is alone, as thread 0. False if it was left because of a violation.
    pub fn alone(&mut self, f: &dyn Fn(usize)) -> bool {
        self.cur = 0;
        self.body = Some(unsafe { std::mem::transmute::<*const dyn Fn(usize), *const (dyn Fn(usize) + 'static)>(f) });
        self.thr[0].done = false;
        self.co[0].start(run_thread, 0);
        self.on_co = true;
        let c = &mut self.co[0] as *mut Co;
        unsafe { (*c).resume() };
        self.on_co = false;
        !self.dead
    }

    pub fn end(&mut self) {
        self.active = false;
    }

    pub fn label(&mut self, s: &str) {
        let t = self.cur;
        if self.tracing {
            let _ = writeln!(self.trace, "  thread {t} begins {s}");
        }
        self.thr[t].label.clear();
        self.thr[t].label.push_str(s);
        self.thr[t].repeat = 0;
        self.thr[t].idle = 0;
        self.thr[t].recent = [(0, 0); 4];
    }
}

fn show(v: u64) -> String {
    if v > u64::MAX - 8 {
        format!("{}", v as i64)
    } else {
        v.to_string()
    }
}

extern "C" fn run_thread(t: usize) -> ! {
    let r = rt();
    let f = r.body.unwrap();
    // Waits to be scheduled first.
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*f)(t) }));
    let r = rt();
    if res.is_err() && !r.dead {
        let l = r.thr[t].label.clone();
        r.violate(Kind::Other, format!("thread {t} panicked in {l}"));
    }
    r.thr[t].done = true;
    r.to_scheduler();
    unreachable!()
}

// ---------------------------------------------------------------- what the library calls

/// Operation on an atomic; nothing is returned if it is none of ours.
pub fn atomic(addr: usize, op: Op) -> Option<(u64, bool)> {
    let r = rt();
    if !r.active {
        return None;
    }
    let base = r.arena as usize;
    if addr < base || addr >= base + ARENA * MAXT {
        return None;
    }
    if r.dead {
        return Some((1, true));
    }
    r.init(addr, op);
    let t = r.cur;
    r.thr[t].op = op;
    r.thr[t].addr = addr;
    if t != 0 {
        r.to_scheduler();
    } else {
        if !r.touch(addr, "atomic operation") {
            return Some((1, true));
        }
        // Alone: only the latest can be read.
        let l = r.loc(addr, t);
        let last = r.locs[l].stores.len() as u16 - 1;
        let v = match op {
            Op::Load(_) => Var::Read(last),
            Op::Cas { exp, .. } if r.locs[l].stores[last as usize].val != exp => Var::Fail(last),
            _ => Var::Go,
        };
        r.exec(t, v);
        r.thr[t].wait = None;
    }
    Some(r.thr[t].res)
}

impl Rt {
    /// First operation on a location takes what is in the memory.
    fn init(&mut self, addr: usize, op: Op) {
        if self.locs.iter().any(|l| l.addr == addr) {
            return;
        }
        let size = match op {
            Op::Rmw(_, _, s, _) => s,
            _ => 8,
        };
        let val = unsafe {
            match size {
                1 => *(addr as *const u8) as u64,
                2 => *(addr as *const u16) as u64,
                4 => *(addr as *const u32) as u64,
                _ => std::ptr::read_unaligned(addr as *const u64),
            }
        };
        let t = self.cur;
        let l = self.loc(addr, t);
        self.locs[l].stores[0].val = val;
    }
}

pub fn fence(o: Ordering) {
    let r = rt();
    if !r.active || r.dead {
        return;
    }
    let t = r.cur;
    let th = &mut r.thr[t];
    if acq(o) {
        let a = th.acq;
        join(&mut th.clock, &a);
    }
    if rel(o) {
        th.rel = th.clock;
        // What comes after the fence is not released by it.
        th.clock[t] += 1;
    }
    if o == Ordering::SeqCst {
        th.op = Op::FenceSc;
        th.addr = 0;
        if t != 0 {
            r.to_scheduler();
        } else {
            r.exec(t, Var::Go);
        }
        let th = &mut r.thr[t];
        th.rel = th.clock;
        th.clock[t] += 1;
    }
}

pub fn spin() {
    let r = rt();
    if !r.active || r.dead || r.cur == 0 {
        return;
    }
    let t = r.cur;
    r.wait(t);
    r.thr[t].op = Op::Yield;
    r.thr[t].addr = 0;
    r.to_scheduler();
}

/// Mailbox of a thread: put in, false if it is full.
pub fn put(to: usize, what: u64) -> bool {
    mail(Op::Put(to as u8, what)).1
}
/// Take out of the mailbox.
pub fn take(from: usize) -> Option<u64> {
    let r = mail(Op::Take(from as u8));
    r.1.then_some(r.0)
}
fn mail(op: Op) -> (u64, bool) {
    let r = rt();
    let t = r.cur;
    r.thr[t].op = op;
    r.thr[t].addr = 0;
    if r.dead {
        return (0, false);
    }
    if t != 0 {
        r.to_scheduler();
    } else {
        r.exec(t, Var::Go);
    }
    r.thr[t].res
}

pub fn cell_read(addr: usize) {
    let r = rt();
    if r.active && !r.dead {
        r.plain(addr, false);
    }
}
pub fn cell_write(addr: usize) {
    let r = rt();
    if r.active && !r.dead {
        r.plain(addr, true);
    }
}
/// An atomic is accessed as plain memory.
pub fn non_atomic(addr: usize) {
    let r = rt();
    if !r.active || r.dead {
        return;
    }
    r.plain(addr, true);
    let base = r.arena as usize;
    if r.dead || addr < base || addr >= base + ARENA * MAXT {
        return;
    }
    // All that was done to it must have happened before; later it is taken from the memory again.
    let t = r.cur;
    let c = r.thr[t].clock;
    if let Some(i) = r.locs.iter().position(|l| l.addr == addr) {
        let racy = (0..MAXT).any(|u| r.locs[i].seen[u].iter().any(|s| s.0 > c[u]));
        let val = r.locs[i].stores.last().unwrap().val;
        if racy {
            r.violate(Kind::Life, format!("thread {t} accesses an atomic as plain memory without synchronisation"));
            return;
        }
        unsafe { std::ptr::write_unaligned(addr as *mut usize, val as usize) };
        r.locs.remove(i);
    }
}

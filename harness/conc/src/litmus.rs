//! Check of the memory model itself: for every small program of atomic operations, the outcomes the
//! scheduler explores are compared with those the axioms of C++20 allow (as in RC11, with release
//! sequences of read-modify-writes only).
//!
//! No outcome may be explored that the axioms forbid. All those are explored which the axioms allow with
//! modification orders that agree with some order of execution, if there is no sequentially consistent
//! operation (these follow the order of execution here, which the axioms only ask for up to a point).

use lokky_verif_shim::cell::Cell as Plain;
use lokky_verif_shim::explore::{explore, Program, Set as Seen};
use lokky_verif_shim::model::{rt, Kind};
use lokky_verif_shim::sync::atomic::{fence, AtomicUsize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::sync::atomic::Ordering::{self, *};
use std::sync::atomic::{AtomicU64, AtomicUsize as Next};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum I {
    Ld(u8, Ordering),
    St(u8, Ordering),
    Xchg(u8, Ordering),
    /// From the initial value, with the order of a failure.
    Cas(u8, Ordering, Ordering),
    F(Ordering),
    /// Plain accesses to a cell.
    Get,
    Set,
}
use I::*;

const LOCS: usize = 2;
/// What was read by each operation (by thread and place), then the last values.
type Outcome = [u8; 10];

struct Prog<'a> {
    code: &'a [&'a [I]],
    mem: Cell<*const AtomicUsize>,
    now: RefCell<Outcome>,
    all: RefCell<BTreeSet<Outcome>>,
}

/// Number of an operation, also the value it stores.
fn number(code: &[&[I]], t: usize, i: usize) -> usize {
    code[..t].iter().map(|c| c.len()).sum::<usize>() + i + 1
}

impl Prog<'_> {
    fn plain(&self) -> &Plain<usize> {
        unsafe { &*(self.mem.get().add(LOCS) as *const Plain<usize>) }
    }
}

impl Program for Prog<'_> {
    fn threads(&self) -> usize {
        self.code.len()
    }
    fn before(&self) {
        let p = rt().alloc(8 * LOCS + 8, 8) as *mut AtomicUsize;
        for i in 0..LOCS {
            unsafe { p.add(i).write(AtomicUsize::new(0)) };
        }
        self.mem.set(p);
        *self.now.borrow_mut() = [0; 10];
    }
    fn thread(&self, t: usize) {
        for (i, op) in self.code[t - 1].iter().enumerate() {
            let n = number(self.code, t - 1, i);
            let at = |l: u8| unsafe { &*self.mem.get().add(l as usize) };
            let got = match *op {
                Ld(l, o) => at(l).load(o),
                St(l, o) => {
                    at(l).store(n, o);
                    0
                }
                Xchg(l, o) => at(l).swap(n, o),
                Cas(l, o, f) => match at(l).compare_exchange(0, n, o, f) {
                    Ok(x) => x,
                    Err(x) => x,
                },
                F(o) => {
                    fence(o);
                    0
                }
                Get => {
                    self.plain().get();
                    0
                }
                Set => {
                    self.plain().set(n);
                    0
                }
            };
            self.now.borrow_mut()[n - 1] = got as u8;
        }
    }
    fn after(&self) {
        let mut n = self.now.borrow_mut();
        for l in 0..LOCS {
            n[8 + l] = unsafe { (*self.mem.get().add(l)).load(Relaxed) } as u8;
        }
        self.all.borrow_mut().insert(*n);
    }
}

/// Relation over up to 16 events as rows of bits.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Rel([u16; 12]);
impl Rel {
    const NONE: Rel = Rel([0; 12]);
    fn add(&mut self, a: usize, b: usize) {
        self.0[a] |= 1 << b;
    }
    fn has(&self, a: usize, b: usize) -> bool {
        self.0[a] >> b & 1 == 1
    }
    fn or(mut self, o: Rel) -> Rel {
        for (a, b) in self.0.iter_mut().zip(o.0) {
            *a |= b;
        }
        self
    }
    fn then(self, o: Rel) -> Rel {
        let mut r = Rel::NONE;
        for (a, row) in self.0.iter().enumerate() {
            let mut m = *row;
            while m != 0 {
                r.0[a] |= o.0[m.trailing_zeros() as usize];
                m &= m - 1;
            }
        }
        r
    }
    fn closed(mut self) -> Rel {
        loop {
            let n = self.or(self.then(self));
            if n == self {
                return n;
            }
            self = n;
        }
    }
    /// Reflexive.
    fn opt(mut self) -> Rel {
        for a in 0..12 {
            self.add(a, a);
        }
        self
    }
    fn only(f: impl Fn(usize) -> bool) -> Rel {
        let mut r = Rel::NONE;
        for a in 0..12 {
            if f(a) {
                r.add(a, a);
            }
        }
        r
    }
    fn pick(mut self, f: impl Fn(usize, usize) -> bool) -> Rel {
        for a in 0..12 {
            for b in 0..12 {
                if self.has(a, b) && !f(a, b) {
                    self.0[a] &= !(1 << b);
                }
            }
        }
        self
    }
    fn loops(&self) -> bool {
        (0..12).any(|a| self.has(a, a))
    }
}

fn is_acq(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn is_rel(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

#[derive(Clone, Copy)]
struct Ev {
    t: usize,
    loc: Option<u8>,
    reads: bool,
    writes: bool,
    ord: Ordering,
    /// Not atomic, writes.
    plain: Option<bool>,
}

/// What the axioms tell about a program.
#[derive(Default)]
struct Allowed {
    all: BTreeSet<Outcome>,
    /// With a modification order that agrees with an order of execution.
    agree: BTreeSet<Outcome>,
    races: bool,
    races_agree: bool,
}

fn allowed(code: &[&[I]]) -> Allowed {
    let mut out = Allowed::default();
    // Events 0 and 1 give the locations their initial values.
    let mut base: Vec<Ev> = (0..LOCS).map(|l| Ev { t: 9, loc: Some(l as u8), reads: false, writes: true, ord: Relaxed, plain: None }).collect();
    let mut ops = vec![];
    for (t, c) in code.iter().enumerate() {
        for op in *c {
            ops.push(*op);
            base.push(match *op {
                Ld(l, o) => Ev { t, loc: Some(l), reads: true, writes: false, ord: o, plain: None },
                St(l, o) => Ev { t, loc: Some(l), reads: false, writes: true, ord: o, plain: None },
                Xchg(l, o) => Ev { t, loc: Some(l), reads: true, writes: true, ord: o, plain: None },
                Cas(l, o, _) => Ev { t, loc: Some(l), reads: true, writes: true, ord: o, plain: None },
                Get => Ev { t, loc: None, reads: false, writes: false, ord: Relaxed, plain: Some(false) },
                Set => Ev { t, loc: None, reads: false, writes: false, ord: Relaxed, plain: Some(true) },
                F(o) => Ev { t, loc: None, reads: false, writes: false, ord: o, plain: None },
            });
        }
    }
    let n = base.len();
    let mut sb = Rel::NONE;
    for a in 0..n {
        for b in 0..n {
            if (a < LOCS && b >= LOCS) || (a >= LOCS && a < b && base[a].t == base[b].t) {
                sb.add(a, b);
            }
        }
    }
    let readers: Vec<usize> = (LOCS..n).filter(|&e| base[e].reads).collect();
    let mut rf = vec![0usize; n];
    each_rf(&base, &readers, 0, &mut rf, &mut |rf| {
        let mut ev = base.clone();
        for &e in &readers {
            if let Cas(_, _, f) = ops[e - LOCS] {
                if rf[e] >= LOCS {
                    ev[e].writes = false;
                    ev[e].ord = f;
                }
            }
        }
        // A failed exchange stores nothing.
        if readers.iter().any(|&e| !ev[rf[e]].writes) {
            return;
        }
        let mut r = Rel::NONE;
        for &e in &readers {
            r.add(rf[e], e);
        }
        if sb.or(r).closed().loops() {
            return;
        }
        let w = |l: u8| -> Vec<usize> { (LOCS..n).filter(|&e| ev[e].writes && ev[e].loc == Some(l)).collect() };
        let (w0, w1) = (w(0), w(1));
        each_order(&w0, &mut |m0| {
            each_order(&w1, &mut |m1| {
                let mut mo = Rel::NONE;
                for (l, m) in [(0, m0), (1, m1)] {
                    for (i, &a) in m.iter().enumerate() {
                        mo.add(l, a);
                        for &b in &m[i + 1..] {
                            mo.add(a, b);
                        }
                    }
                }
                let Some(hb) = consistent(&ev, sb, r, mo, rf, &readers) else { return };
                let agree = !sb.or(r).or(mo).closed().loops();
                for a in LOCS..n {
                    for b in LOCS..a {
                        if let (Some(x), Some(y)) = (ev[a].plain, ev[b].plain) {
                            if (x || y) && !hb.has(a, b) && !hb.has(b, a) {
                                out.races = true;
                                out.races_agree |= agree;
                            }
                        }
                    }
                }
                let mut o: Outcome = [0; 10];
                let val = |e: usize| if e < LOCS { 0 } else { (e - LOCS + 1) as u8 };
                for &e in &readers {
                    o[e - LOCS] = val(rf[e]);
                }
                o[8] = val(m0.last().copied().unwrap_or(0));
                o[9] = val(m1.last().copied().unwrap_or(1));
                out.all.insert(o);
                if agree {
                    out.agree.insert(o);
                }
            });
        });
    });
    out
}

/// Happens-before, if the execution is consistent.
fn consistent(ev: &[Ev], sb: Rel, rf: Rel, mo: Rel, from: &[usize], readers: &[usize]) -> Option<Rel> {
    let n = ev.len();
    let at = |a: usize| a < n;
    let rmw = |a: usize| at(a) && ev[a].reads && ev[a].writes;
    let fence = |a: usize| at(a) && ev[a].loc.is_none() && ev[a].plain.is_none();
    // Reads before: the reader before the stores after the one it has read.
    let mut rb = Rel::NONE;
    for &e in readers {
        for b in 0..n {
            if mo.has(from[e], b) && b != e {
                rb.add(e, b);
            }
        }
    }
    for &e in readers {
        // Nothing in between what is read and what is stored.
        if rmw(e) && (0..n).any(|b| mo.has(from[e], b) && mo.has(b, e)) {
            return None;
        }
        if rmw(e) && !mo.has(from[e], e) {
            return None;
        }
    }
    let rs = rf.then(Rel::only(rmw)).closed().opt();
    let w = Rel::only(|a| at(a) && ev[a].writes);
    let seq = w.then(rs).then(rf);
    let f_sb = Rel::only(fence).then(sb);
    let sb_f = sb.then(Rel::only(fence));
    let sw = Rel::only(|a| at(a) && is_rel(ev[a].ord)).then(f_sb.or(Rel::NONE.opt())).then(seq).then(sb_f.or(Rel::NONE.opt())).then(Rel::only(|a| at(a) && is_acq(ev[a].ord)));
    let hb = sb.or(sw).closed();
    if hb.loops() {
        return None;
    }
    let eco = rf.or(mo).or(rb).closed();
    if hb.then(eco.opt()).loops() {
        return None;
    }
    // Sequential consistency.
    let same = |a: usize, b: usize| ev[a].loc.is_some() && ev[a].loc == ev[b].loc;
    let sb_other = sb.pick(|a, b| !same(a, b));
    let scb = sb.or(sb_other.then(hb).then(sb_other)).or(hb.pick(same)).or(mo).or(rb);
    let sc = Rel::only(|a| at(a) && ev[a].ord == SeqCst);
    let f_sc = Rel::only(|a| fence(a) && ev[a].ord == SeqCst);
    let base = sc.or(f_sc.then(hb.opt())).then(scb).then(sc.or(hb.opt().then(f_sc)));
    let psc_f = f_sc.then(hb.or(hb.then(eco).then(hb))).then(f_sc);
    (!base.or(psc_f).closed().loops()).then_some(hb)
}

fn each_rf(ev: &[Ev], readers: &[usize], k: usize, rf: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
    let Some(&e) = readers.get(k) else { return f(rf) };
    for w in 0..ev.len() {
        if w != e && ev[w].writes && ev[w].loc == ev[e].loc {
            rf[e] = w;
            each_rf(ev, readers, k + 1, rf, f);
        }
    }
}

fn each_order(w: &[usize], f: &mut dyn FnMut(&[usize])) {
    fn rec(left: &mut Vec<usize>, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        if left.is_empty() {
            return f(cur);
        }
        for i in 0..left.len() {
            let x = left.remove(i);
            cur.push(x);
            rec(left, cur, f);
            cur.pop();
            left.insert(i, x);
        }
    }
    rec(&mut w.to_vec(), &mut vec![], f)
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Sum {
    pub programs: u64,
    pub states: u64,
    pub executions: u64,
    pub outcomes: u64,
    pub races: u64,
    /// Allowed but not explored: needs a modification order against the order of execution,
    /// or sequential consistency in another order.
    pub against: u64,
    pub stronger_sc: u64,
}

/// All the programs of threads with so many operations.
pub fn check(lens: &[usize], ops: &[I], threads: usize) -> Result<Sum, String> {
    let total: usize = lens.iter().sum();
    assert!(total <= 8);
    let n = (ops.len() as u64).pow(total as u32);
    let next = Next::new(0);
    let sum = Mutex::new(Sum::default());
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let chunk = 256;
    let beat = AtomicU64::new(0);
    let _ = &beat;
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                let mut my = Sum::default();
                let mut seen = Seen::default();
                rt().max_stale = u32::MAX;
                loop {
                    let c = next.fetch_add(1, SeqCst) as u64 * chunk;
                    if c >= n || bad.lock().unwrap().is_some() {
                        break;
                    }
                    'p: for mut x in c..(c + chunk).min(n) {
                        let mut flat = vec![];
                        for _ in 0..total {
                            flat.push(ops[(x % ops.len() as u64) as usize]);
                            x /= ops.len() as u64;
                        }
                        let mut code: Vec<&[I]> = vec![];
                        let mut at = 0;
                        for &l in lens {
                            code.push(&flat[at..at + l]);
                            at += l;
                        }
                        let pos = |c: &[I]| c.iter().fold(0, |k, o| k * ops.len() + ops.iter().position(|x| x == o).unwrap());
                        for k in 1..code.len() {
                            if lens[k] == lens[k - 1] && pos(code[k - 1]) > pos(code[k]) {
                                continue 'p;
                            }
                        }
                        // Which location is which does not matter.
                        if let Some(l) = flat.iter().find_map(|o| match o {
                            Ld(l, _) | St(l, _) | Xchg(l, _) | Cas(l, ..) => Some(*l),
                            _ => None,
                        }) {
                            if l != 0 && !code.iter().zip(lens).skip(1).any(|(_, l)| *l == lens[0]) {
                                continue;
                            }
                        }
                        if let Err(e) = one(&code, &mut seen, &mut my) {
                            *bad.lock().unwrap() = Some(e);
                            return;
                        }
                    }
                }
                let mut t = sum.lock().unwrap();
                t.programs += my.programs;
                t.states += my.states;
                t.executions += my.executions;
                t.outcomes += my.outcomes;
                t.races += my.races;
                t.against += my.against;
                t.stronger_sc += my.stronger_sc;
            });
        }
    });
    if let Some(e) = bad.into_inner().unwrap() {
        return Err(e);
    }
    Ok(sum.into_inner().unwrap())
}

pub fn one(code: &[&[I]], seen: &mut Seen, my: &mut Sum) -> Result<(), String> {
    let p = Prog { code, mem: Cell::new(std::ptr::null()), now: RefCell::new([0; 10]), all: RefCell::new(BTreeSet::new()) };
    let (c, f) = explore(&p, &|_: Kind| true, seen, u64::MAX);
    let w = allowed(code);
    my.programs += 1;
    my.states += c.states;
    my.executions += c.executions;
    let sc = code.iter().any(|c| c.iter().any(|o| matches!(o, Ld(_, SeqCst) | St(_, SeqCst) | Xchg(_, SeqCst) | Cas(_, SeqCst, _) | F(SeqCst))));
    if let Some(f) = f {
        if !w.races {
            return Err(format!("{code:?}: {}", f.msg));
        }
        my.races += 1;
        return Ok(());
    }
    if w.races_agree && !sc {
        return Err(format!("{code:?}: race is not found"));
    }
    let got = p.all.into_inner();
    if let Some(o) = got.difference(&w.all).next() {
        return Err(format!("{code:?}: outcome {o:?} is explored and not allowed"));
    }
    let miss = w.agree.difference(&got).count() as u64;
    if miss > 0 && !sc {
        return Err(format!("{code:?}: outcome {:?} is allowed and not explored", w.agree.difference(&got).next().unwrap()));
    }
    my.outcomes += got.len() as u64;
    my.against += w.all.len() as u64 - w.agree.len() as u64;
    my.stronger_sc += miss;
    Ok(())
}

/// Everything there is, for programs of a few operations.
pub fn full() -> Vec<I> {
    let mut v = vec![];
    for l in 0..LOCS as u8 {
        for o in [Relaxed, Acquire, SeqCst] {
            v.push(Ld(l, o));
        }
        for o in [Relaxed, Release, SeqCst] {
            v.push(St(l, o));
        }
        for o in [Relaxed, Acquire, Release, AcqRel, SeqCst] {
            v.push(Xchg(l, o));
        }
        for (o, f) in [(Relaxed, Relaxed), (AcqRel, Acquire), (Acquire, Relaxed), (Release, Relaxed), (SeqCst, SeqCst), (Relaxed, Acquire)] {
            v.push(Cas(l, o, f));
        }
    }
    for o in [Acquire, Release, AcqRel, SeqCst] {
        v.push(F(o));
    }
    v
}

/// What lokky uses most.
pub fn some() -> Vec<I> {
    let mut v = vec![];
    for l in 0..LOCS as u8 {
        v.extend([Ld(l, Relaxed), Ld(l, Acquire), St(l, Relaxed), St(l, Release), Xchg(l, Relaxed), Xchg(l, AcqRel)]);
    }
    v.extend([F(Acquire), F(Release), F(SeqCst)]);
    v
}

/// Messages about plain data.
pub fn plain() -> Vec<I> {
    vec![Ld(0, Relaxed), Ld(0, Acquire), St(0, Relaxed), St(0, Release), Xchg(0, Relaxed), Xchg(0, Release), Xchg(0, Acquire), F(Acquire), F(Release), Get, Set]
}

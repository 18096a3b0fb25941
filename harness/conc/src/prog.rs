//! A program: what each thread has at the start and the operations it does with it.

use lokky::scope::{Envelop, Envelope, ScopeRecv};
use lokky_verif_shim::explore::Program;
use lokky_verif_shim::model::{put, rt, take, Kind};
use std::cell::{Cell, UnsafeCell};
use std::mem::MaybeUninit;

// ---------------------------------------------------------------- values

/// The shared value. Each access to it is reported to the race detector.
pub struct Tok {
    id: u32,
    ver: u32,
}

impl Tok {
    fn new() -> Self {
        Tok { id: rt().value_new(), ver: 0 }
    }
    fn access(&self, write: bool, kind: Kind, what: &str) -> (u32, u32) {
        let (id, ver) = (self.id, self.ver);
        let r = rt();
        if r.dead {
            return (id, ver);
        }
        let v = r.value_access(id, self as *const _ as usize, write, kind, what);
        if !r.dead && v != ver + write as u32 {
            r.violate(Kind::Excl, format!("{what} of an outdated copy of value {id}"));
        }
        (id, ver)
    }
    fn read(&self) -> (u32, u32) {
        self.access(false, Kind::Excl, "reading")
    }
    fn write(&mut self) -> (u32, u32) {
        self.access(true, Kind::Excl, "writing");
        self.ver += 1;
        (self.id, self.ver)
    }
}

impl Clone for Tok {
    fn clone(&self) -> Self {
        self.access(false, Kind::Excl, "cloning");
        Tok::new()
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if !rt().dead {
            self.access(true, Kind::Life, "destruction");
            rt().value_dead(self.id);
        }
    }
}

// ---------------------------------------------------------------- handles

pub struct Recv;
impl<'e> ScopeRecv<'e> for Recv {}

pub trait Strong: Sized + 'static {
    const NAME: &'static str;
    const GROUPS: bool;
    type Weak: 'static;
    fn new(v: Tok) -> Self;
    fn again(&self) -> Self;
    fn get(&self) -> &Tok;
    fn downgrade(&self) -> Self::Weak;
    fn get_mut(&mut self) -> Option<&mut Tok>;
    fn make_mut(&mut self) -> &mut Tok;
    fn unwrap(self) -> Result<Tok, Self>;
    fn envelope(&self) -> Envelope<'static, Self>;
    /// What the counts are of, number of strong and weak handles.
    fn counted(&self) -> usize;
    fn counts(&self) -> (usize, usize);
    /// The form in which the handle itself is sent.
    type Moved: 'static;
    fn moved(self) -> Result<Self::Moved, Self>;
    fn back(m: Self::Moved) -> Self;
    fn sole_group(&self) -> Option<bool>;
}

impl Strong for lokky::arc::Arc<Tok> {
    const NAME: &'static str = "Arc";
    const GROUPS: bool = false;
    type Weak = lokky::arc::Weak<Tok>;
    fn new(v: Tok) -> Self {
        Self::new(v)
    }
    fn again(&self) -> Self {
        self.clone()
    }
    fn get(&self) -> &Tok {
        self
    }
    fn downgrade(&self) -> Self::Weak {
        Self::downgrade(self)
    }
    fn get_mut(&mut self) -> Option<&mut Tok> {
        Self::get_mut(self)
    }
    fn make_mut(&mut self) -> &mut Tok {
        Self::make_mut(self)
    }
    fn unwrap(self) -> Result<Tok, Self> {
        Self::try_unwrap(self)
    }
    fn envelope(&self) -> Envelope<'static, Self> {
        self.envelop(&Recv)
    }
    fn counted(&self) -> usize {
        Self::as_ptr(self) as usize
    }
    fn counts(&self) -> (usize, usize) {
        (Self::strong_count(self), Self::weak_count(self))
    }
    type Moved = Self;
    fn moved(self) -> Result<Self, Self> {
        Ok(self)
    }
    fn back(m: Self) -> Self {
        m
    }
    fn sole_group(&self) -> Option<bool> {
        None
    }
}

impl Strong for lokky::urc::Urc<Tok> {
    const NAME: &'static str = "Urc";
    const GROUPS: bool = true;
    type Weak = lokky::urc::Weak<Tok>;
    fn new(v: Tok) -> Self {
        Self::new(v)
    }
    fn again(&self) -> Self {
        self.clone()
    }
    fn get(&self) -> &Tok {
        self
    }
    fn downgrade(&self) -> Self::Weak {
        Self::downgrade(self)
    }
    fn get_mut(&mut self) -> Option<&mut Tok> {
        Self::get_mut(self)
    }
    fn make_mut(&mut self) -> &mut Tok {
        Self::make_mut(self)
    }
    fn unwrap(self) -> Result<Tok, Self> {
        Self::try_unwrap(self)
    }
    fn envelope(&self) -> Envelope<'static, Self> {
        self.envelop(&Recv)
    }
    fn counted(&self) -> usize {
        Self::fence_of(self) as *const _ as usize
    }
    fn counts(&self) -> (usize, usize) {
        (Self::fence_strong_count(self), Self::fence_weak_count(self))
    }
    type Moved = lokky::urc::Fence<Tok>;
    fn moved(self) -> Result<Self::Moved, Self> {
        Self::try_into_fence(self).map(|f| f.into_inner())
    }
    fn back(m: Self::Moved) -> Self {
        m.into_urc()
    }
    fn sole_group(&self) -> Option<bool> {
        Some(Self::is_sole_strong_fence(self))
    }
}

// ---------------------------------------------------------------- small fixed arrays

/// Does not drop what is left in it: executions may be abandoned at any point.
pub struct Arr<T> {
    v: [MaybeUninit<T>; 16],
    n: usize,
}
impl<T> Arr<T> {
    fn new() -> Self {
        Arr { v: [const { MaybeUninit::uninit() }; 16], n: 0 }
    }
    fn push(&mut self, x: T) {
        assert!(self.n < 16);
        self.v[self.n].write(x);
        self.n += 1;
    }
    fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        self.n -= 1;
        Some(unsafe { self.v[self.n].assume_init_read() })
    }
    fn take_first(&mut self) -> Option<T> {
        if self.n == 0 {
            return None;
        }
        let x = unsafe { self.v[0].assume_init_read() };
        for i in 1..self.n {
            unsafe {
                let y = self.v[i].assume_init_read();
                self.v[i - 1].write(y);
            }
        }
        self.n -= 1;
        Some(x)
    }
    fn last(&mut self) -> Option<&mut T> {
        if self.n == 0 {
            return None;
        }
        Some(unsafe { self.v[self.n - 1].assume_init_mut() })
    }
    fn all(&self) -> impl Iterator<Item = &T> {
        self.v[..self.n].iter().map(|x| unsafe { x.assume_init_ref() })
    }
}

// ---------------------------------------------------------------- programs

/// Clone, Drop, Read, doWngrade, drop weak, Get_mut, Make_mut, try_Unwrap, cOunts,
/// Envelop and drop, envelop and receiVe, Send, eXpect (receive), Fence, Transfer the handle itself.
pub const OPS: &[u8] = b"CDRWwGMUOEVSXFT";

pub fn op_name(c: u8) -> &'static str {
    match c {
        b'C' => "clone",
        b'D' => "drop",
        b'R' => "read",
        b'W' => "downgrade",
        b'w' => "drop of weak",
        b'G' => "get_mut",
        b'M' => "make_mut",
        b'U' => "try_unwrap",
        b'O' => "counts",
        b'E' => "envelop and drop",
        b'V' => "envelop and receive",
        b'S' => "send envelope",
        b'X' => "receive envelope",
        b'F' => "into fence and back",
        b'T' => "send handle",
        _ => "?",
    }
}

/// Numbers of strong and weak handles at the start.
pub type Start = (u8, u8);

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Part {
    pub start: Start,
    pub ops: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub parts: Vec<Part>,
    /// What the main thread keeps.
    pub keep: Start,
}

pub fn show(p: &Plan) -> String {
    let part = |p: &Part| {
        format!("{}S{}W: {}", p.start.0, p.start.1, p.ops.iter().map(|&c| op_name(c)).collect::<Vec<_>>().join(", "))
    };
    format!("main keeps {}S{}W | {}", p.keep.0, p.keep.1, p.parts.iter().map(part).collect::<Vec<_>>().join(" || "))
}

struct H<S> {
    h: S,
    id: u32,
    ver: u32,
}

struct Hands<S: Strong> {
    strong: Arr<H<S>>,
    /// With what they are counted in and their value.
    weak: Arr<(S::Weak, usize, *const Tok)>,
}

struct Sent<S: Strong> {
    e: Result<Envelope<'static, S>, S::Moved>,
    id: u32,
    ver: u32,
}

pub struct Run<S: Strong> {
    pub plan: Plan,
    hands: UnsafeCell<[Hands<S>; 4]>,
    mail: UnsafeCell<[MaybeUninit<Sent<S>>; 4]>,
    pub outcomes: Cell<[[u64; 2]; 16]>,
}

impl<S: Strong> Run<S> {
    pub fn new(plan: Plan) -> Self {
        Run {
            plan,
            hands: UnsafeCell::new(std::array::from_fn(|_| Hands { strong: Arr::new(), weak: Arr::new() })),
            mail: UnsafeCell::new(std::array::from_fn(|_| MaybeUninit::uninit())),
            outcomes: Cell::new([[0; 2]; 16]),
        }
    }
    #[allow(clippy::mut_from_ref)]
    fn my(&self, t: usize) -> &mut Hands<S> {
        unsafe { &mut (*self.hands.get())[t] }
    }
    fn out(&self, c: u8, ok: bool) {
        let i = OPS.iter().position(|&o| o == c).unwrap();
        let mut o = self.outcomes.get();
        o[i][ok as usize] += 1;
        self.outcomes.set(o);
    }

    fn check(h: &H<S>) {
        let (id, ver) = h.h.get().read();
        let r = rt();
        if !r.dead && (id != h.id || ver != h.ver) {
            r.violate(Kind::Excl, format!("the value read through a handle has changed: was {}.{}, is {id}.{ver}", h.id, h.ver));
        }
    }

    fn op(&self, t: usize, c: u8) {
        let r = rt();
        r.label(op_name(c));
        let my = self.my(t);
        match c {
            b'C' | b'V' => {
                if let Some(h) = my.strong.last() {
                    let x = if c == b'C' { h.h.again() } else { Recv.recv(h.h.envelope()) };
                    let x = H { h: x, id: h.id, ver: h.ver };
                    Self::same(h, &x);
                    my.strong.push(x);
                    self.out(c, true);
                }
            }
            b'D' => {
                if let Some(h) = my.strong.take_first() {
                    drop(h.h);
                    self.out(c, true);
                }
            }
            b'R' => {
                if let Some(h) = my.strong.last() {
                    Self::check(h);
                    self.out(c, true);
                }
            }
            b'W' => {
                if let Some(h) = my.strong.last() {
                    let w = h.h.downgrade();
                    let (of, v) = (h.h.counted(), h.h.get() as *const Tok);
                    my.weak.push((w, of, v));
                    self.out(c, true);
                }
            }
            b'w' => {
                if let Some(w) = my.weak.take_first() {
                    drop(w.0);
                    self.out(c, true);
                }
            }
            b'G' => {
                if let Some(h) = my.strong.last() {
                    match h.h.get_mut() {
                        Some(v) => {
                            let (id, ver) = v.write();
                            self.wrote(h.id, id, h, ver);
                            self.sole(t, "get_mut");
                            self.out(c, true);
                        }
                        None => self.out(c, false),
                    }
                }
            }
            b'M' => {
                if let Some(h) = my.strong.last() {
                    let (id, ver) = h.h.make_mut().write();
                    let same = id == h.id;
                    let old = if same { h.id } else { id };
                    self.wrote(old, id, h, ver);
                    self.sole(t, "make_mut");
                    self.out(c, same);
                }
            }
            b'U' => {
                if let Some(h) = my.strong.take_first() {
                    match h.h.unwrap() {
                        Ok(mut v) => {
                            if !r.dead && v.id != h.id {
                                r.violate(Kind::Excl, format!("unwrapped value {} instead of {}", v.id, h.id));
                            }
                            r.value_owned(v.id);
                            v.write();
                            drop(v);
                            self.out(c, true);
                        }
                        Err(s) => {
                            my.strong.push(H { h: s, id: h.id, ver: h.ver });
                            self.out(c, false);
                        }
                    }
                }
            }
            b'O' => {
                if let Some(h) = my.strong.last() {
                    let (s, w) = h.h.counts();
                    let of = h.h.counted();
                    let (ms, mw) = (my.strong.all().filter(|x| x.h.counted() == of).count(), my.weak.all().filter(|x| x.1 == of).count());
                    let max = if S::GROUPS { (ms, mw) } else { (40, 40) };
                    if !r.dead && (s < ms || w < mw || s > max.0 || w > max.1) {
                        r.violate(Kind::Count, format!("counts are {s} and {w}, the thread itself has {ms} and {mw} handles"));
                    }
                    self.out(c, true);
                }
            }
            b'E' => {
                if let Some(h) = my.strong.last() {
                    drop(h.h.envelope());
                    self.out(c, true);
                }
            }
            b'S' | b'T' => {
                let to = t % self.plan.parts.len() + 1;
                let s = if c == b'S' {
                    let Some(h) = my.strong.last() else { return };
                    Sent { e: Ok(h.h.envelope()), id: h.id, ver: h.ver }
                } else {
                    let Some(h) = my.strong.take_first() else { return };
                    match h.h.moved() {
                        Ok(m) => Sent { e: Err(m), id: h.id, ver: h.ver },
                        Err(s) => {
                            my.strong.push(H { h: s, ..h });
                            return;
                        }
                    }
                };
                if put(to, 1) {
                    unsafe { (&mut *self.mail.get())[to].write(s) };
                    self.out(c, true);
                } else {
                    // It is dropped then.
                    drop(s);
                    self.out(c, false);
                }
            }
            b'X' => {
                let ok = self.receive(t, t);
                self.out(c, ok);
            }
            b'F' => {
                if let Some(h) = my.strong.take_first() {
                    let (x, ok) = match h.h.moved() {
                        Ok(m) => (S::back(m), true),
                        Err(s) => (s, false),
                    };
                    let x = H { h: x, id: h.id, ver: h.ver };
                    Self::check(&x);
                    my.strong.push(x);
                    self.out(c, ok);
                }
            }
            _ => unreachable!(),
        }
    }

    fn receive(&self, t: usize, from: usize) -> bool {
        if take(from).is_none() {
            return false;
        }
        let s = unsafe { (&*self.mail.get())[from].assume_init_read() };
        let h = match s.e {
            Ok(e) => Recv.recv(e),
            Err(h) => S::back(h),
        };
        let h = H { h, id: s.id, ver: s.ver };
        Self::check(&h);
        self.my(t).strong.push(h);
        true
    }

    /// Another handle to the value of `a` was made.
    fn same(a: &H<S>, b: &H<S>) {
        if !rt().dead && !std::ptr::eq(a.h.get(), b.h.get()) {
            rt().violate(Kind::Life, "a clone points to another value".into());
        }
    }

    fn wrote(&self, expected: u32, id: u32, h: &mut H<S>, ver: u32) {
        if !rt().dead && expected != id {
            rt().violate(Kind::Excl, format!("got value {id} instead of {expected}"));
        }
        h.id = id;
        h.ver = ver;
    }

    /// The last handle of the thread was given exclusive access, so it has to be the only one.
    /// Those that other threads are making or dropping just now are not listed, so all of the listed exist.
    fn sole(&self, t: usize, what: &str) {
        let r = rt();
        if r.dead {
            return;
        }
        let v = self.my(t).strong.last().unwrap().h.get() as *const Tok;
        for u in 0..4 {
            let s = self.my(u).strong.all().filter(|x| std::ptr::eq(x.h.get(), v)).count();
            let w = self.my(u).weak.all().filter(|x| std::ptr::eq(x.2, v)).count();
            if s > (u == t) as usize || w > 0 {
                r.violate(Kind::Excl, format!("{what} of thread {t} gives access while thread {u} has {s} strong and {w} weak handles"));
            }
        }
    }

    fn check_counts(&self) {
        let all: Vec<&H<S>> = unsafe { (*self.hands.get()).iter() }.flat_map(|h| h.strong.all()).collect();
        let weak: Vec<usize> = unsafe { (*self.hands.get()).iter() }.flat_map(|h| h.weak.all()).map(|w| w.1).collect();
        let r = rt();
        for h in &all {
            Self::check(h);
            let of = h.h.counted();
            let s = all.iter().filter(|x| x.h.counted() == of).count();
            let w = weak.iter().filter(|&&x| x == of).count();
            let c = h.h.counts();
            if c != (s, w) {
                r.violate(Kind::Count, format!("at the end {s} strong and {w} weak handles are left, counts are {} and {}", c.0, c.1));
            }
            if let Some(sole) = h.h.sole_group() {
                let groups = all.iter().filter(|x| std::ptr::eq(x.h.get(), h.h.get())).map(|x| x.h.counted()).collect::<std::collections::BTreeSet<_>>().len();
                if sole != (groups == 1) {
                    r.violate(Kind::Count, format!("at the end {groups} groups of strong handles are left, but the only one is {sole}"));
                }
            }
        }
    }
}

impl<S: Strong> Program for Run<S> {
    fn threads(&self) -> usize {
        self.plan.parts.len()
    }

    fn before(&self) {
        let r = rt();
        r.label("setup");
        for h in unsafe { (*self.hands.get()).iter_mut() } {
            h.strong.n = 0;
            h.weak.n = 0;
        }
        let first = S::new(Tok::new());
        let (id, ver) = first.get().read();
        for (i, p) in self.plan.parts.iter().enumerate() {
            let my = self.my(i + 1);
            let h = Recv.recv(first.envelope());
            self.give(p.start, h, id, ver, my);
        }
        self.give(self.plan.keep, first, id, ver, self.my(0));
    }

    fn thread(&self, t: usize) {
        for &c in &self.plan.parts[t - 1].ops {
            self.op(t, c);
        }
        rt().label("end");
    }

    fn after(&self) {
        let r = rt();
        r.label("end of all");
        for t in 1..=self.plan.parts.len() {
            self.receive(0, t);
        }
        self.check_counts();
        // Everything is dropped by the main thread.
        let weak_first = self.plan.keep == (0, 0);
        let weak = || {
            for t in 0..4 {
                while let Some(w) = self.my(t).weak.pop() {
                    drop(w);
                }
            }
        };
        r.label("drop of all");
        if weak_first {
            weak();
        }
        for t in 0..4 {
            while let Some(mut h) = self.my(t).strong.pop() {
                let of = h.h.counted();
                let v: *const Tok = h.h.get();
                let other = (0..4).any(|u| self.my(u).strong.all().any(|x| std::ptr::eq(x.h.get(), v) || x.h.counted() == of));
                if weak_first {
                    let got = h.h.get_mut().map(|v| v.write()).is_some();
                    if got == other {
                        let k = if got { Kind::Excl } else { Kind::Count };
                        r.violate(k, format!("at the end get_mut gives access: {got}, other handles exist: {other}"));
                    }
                }
                drop(h.h);
            }
        }
        if !weak_first {
            weak();
        }
        if let Some(v) = r.values.iter().position(|v| !v.dead) {
            r.violate(Kind::Life, format!("value number {v} was never destroyed"));
        }
        if let Some(b) = r.blocks.iter().position(|b| b.live) {
            r.violate(Kind::Life, format!("block {b} was never given back"));
        }
    }
}

impl<S: Strong> Run<S> {
    fn give(&self, start: Start, h: S, id: u32, ver: u32, my: &mut Hands<S>) {
        for _ in 0..start.1 {
            let w = h.downgrade();
            my.weak.push((w, h.counted(), h.get()));
        }
        if start.0 == 0 {
            drop(h);
            return;
        }
        for _ in 1..start.0 {
            my.strong.push(H { h: h.again(), id, ver });
        }
        my.strong.push(H { h, id, ver });
    }
}

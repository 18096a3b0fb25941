//! Programs that spawn scopes, allocate in them, unwind out of them and are caught at some level.
//!
//! A program is a tree written as a list of tokens. It is run on the real environment next to a
//! stack of scope numbers kept here; what is current is asked for before and after every step.

use crate::bad;
use crate::engine::step;
use crate::mem::heap;
use crate::mem::ALLOCS;
use lokky::scope::{self, AllocSelector, Env, Scope};
use std::alloc::GlobalAlloc;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum T {
    /// Box in the current scope, dropped at the end of the body.
    Alloc,
    /// Box in the current scope, dropped at once.
    Touch,
    /// `scope::spawn`.
    Open,
    /// `Env::spawn` of the environment of the thread, with a big scope object.
    Direct,
    /// The initialiser allocates and the scope object keeps that box.
    Keep,
    /// The initialiser runs a nested scope.
    Nest,
    /// The destructor of the scope object runs a nested scope and, if nothing unwinds, panics.
    Bomb,
    /// Scope in another environment of the same thread.
    Other,
    /// The initialiser panics.
    Init,
    /// Body whose panic is caught.
    Catch,
    Panic,
    Close,
}
use T::*;

const ALL: [T; 11] = [Touch, Alloc, Open, Direct, Keep, Nest, Bomb, Other, Init, Catch, Panic];

pub type Prog = Vec<T>;

/// All the well formed programs of at most `len` tokens; the last ones are closed implicitly.
pub fn programs(len: usize, alphabet: &[T]) -> Vec<Prog> {
    fn go(p: &mut Prog, open: &mut Vec<T>, dead: bool, len: usize, ab: &[T], out: &mut Vec<Prog>) {
        if p.last() != Some(&Close) && !p.is_empty() {
            out.push(p.clone());
        }
        if p.len() == len {
            return;
        }
        // After a panic the rest of the body does not run.
        if !dead {
            for &t in ab {
                p.push(t);
                match t {
                    Open | Direct | Keep | Nest | Bomb | Other | Catch => {
                        open.push(t);
                        go(p, open, false, len, ab, out);
                        open.pop();
                    }
                    _ => go(p, open, matches!(t, Panic | Init), len, ab, out),
                }
                p.pop();
            }
        }
        if let Some(k) = open.pop() {
            p.push(Close);
            go(p, open, k != Catch && (dead || k == Bomb), len, ab, out);
            p.pop();
            open.push(k);
        }
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![], false, len, alphabet, &mut out);
    out
}

pub fn full() -> &'static [T] {
    &ALL
}

struct S {
    /// Whose allocator to give. Changed through the reference given to the function.
    id: u8,
    no: u8,
    env: usize,
    kind: T,
    prev: u8,
    kept: Option<lokky::boxed::Box<u64>>,
    armed: bool,
}
struct Big {
    _pad: [u64; 9],
    s: S,
}

thread_local! {
    static ASKED: Cell<(u8, usize)> = const { Cell::new((255, 0)) };
    static STACK: RefCell<[Vec<u8>; 2]> = const { RefCell::new([Vec::new(), Vec::new()]) };
    static NEXT: Cell<u8> = const { Cell::new(1) };
    static DEAD: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static OTHER: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
    static ROOTS: UnsafeCell<[S; 2]> = const { UnsafeCell::new([root(0), root(31)]) };
}
const fn root(id: u8) -> S {
    S { id, no: id, env: 0, kind: Open, prev: 0, kept: None, armed: false }
}

impl Scope for S {
    fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
        ASKED.with(|a| a.set((self.id, self as *const S as usize)));
        &ALLOCS[self.id as usize & 31]
    }
}
impl Scope for Big {
    fn alloc_for(&self, s: AllocSelector) -> &dyn GlobalAlloc {
        self.s.alloc_for(s)
    }
}
struct Planned;

impl Drop for S {
    fn drop(&mut self) {
        if self.no == 0 || self.no == 31 {
            return;
        }
        let (env, no, prev) = (self.env, self.no, self.prev);
        STACK.with(|s| {
            let s = s.borrow();
            if s[env].contains(&no) {
                bad!(Scope, "the scope object is destroyed while its function runs");
            }
        });
        DEAD.with(|d| {
            let mut d = d.borrow_mut();
            if d.contains(&no) {
                bad!(Scope, "the scope object is destroyed twice");
            }
            d.push(no);
        });
        expect(env, prev, "in the destructor of the scope object");
        drop(self.kept.take());
        if self.kind == Bomb && self.armed {
            let r = scope::spawn(|_| fresh(env, Open), |s| enter(0, s, |_| 7u32));
            if r != 7 {
                bad!(Scope, "result of a nested scope is lost");
            }
            expect(env, prev, "after a nested scope in a destructor");
            if !std::thread::panicking() {
                panic_any(Planned);
            }
        }
    }
}

fn top(env: usize) -> u8 {
    STACK.with(|s| *s.borrow()[env].last().unwrap())
}

/// Ask the environment what is current.
fn expect(env: usize, no: u8, when: &str) {
    let b = 0;
    let cur = if env == 0 { scope::current(&b) } else { unsafe { (*OTHER.with(|o| o.get())).current(&b) } };
    ASKED.with(|a| a.set((255, 0)));
    cur.alloc_for(AllocSelector::new::<u8>());
    let got = ASKED.with(|a| a.get().0);
    if got & 31 != no {
        bad!(Scope, "scope {} is current {when} but must be {no}", got & 31);
    }
}

fn current_addr(env: usize) -> usize {
    let b = 0;
    let cur = if env == 0 { scope::current(&b) } else { unsafe { (*OTHER.with(|o| o.get())).current(&b) } };
    cur.alloc_for(AllocSelector::new::<u8>());
    ASKED.with(|a| a.get().1)
}

fn fresh(env: usize, kind: T) -> S {
    let no = NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    });
    if no > 29 {
        crate::engine::give_up("too many scopes created");
    }
    expect(env, top(env), "in the initialiser");
    S { id: no, no, env, kind, prev: top(env), kept: None, armed: false }
}

/// Body of a spawned function.
fn enter<R>(env: usize, s: &mut S, f: impl FnOnce(&mut S) -> R) -> R {
    if s.prev != top(env) {
        bad!(Scope, "the function gets another scope object than the initialiser made");
    }
    if s.armed {
        bad!(Scope, "the function is called twice for the scope object");
    }
    s.armed = true;
    STACK.with(|st| st.borrow_mut()[env].push(s.no));
    struct Pop(usize);
    impl Drop for Pop {
        fn drop(&mut self) {
            STACK.with(|st| st.borrow_mut()[self.0].pop());
        }
    }
    let _p = Pop(env);
    expect(env, s.no, "when the function starts");
    if current_addr(env) != s as *const S as usize {
        bad!(Scope, "the current scope is not the very object the function got");
    }
    // What is done to the object shows in the current scope. (Through a pointer the compiler knows
    // nothing about: the function has the only reference to the object, as far as it can tell.)
    unsafe { (*std::hint::black_box(s as *mut S)).id += 32 };
    let b = 0;
    let cur = if env == 0 { scope::current(&b) } else { unsafe { (*OTHER.with(|o| o.get())).current(&b) } };
    cur.alloc_for(AllocSelector::new::<u8>());
    if ASKED.with(|a| a.get().0) != s.no + 32 {
        bad!(Scope, "change of the scope object is not seen in the current scope");
    }
    let r = f(s);
    expect(env, s.no, "when the function ends");
    r
}

/// Check the scope the initialiser was given.
fn given(env: usize, g: &dyn Scope) {
    ASKED.with(|a| a.set((255, 0)));
    g.alloc_for(AllocSelector::new::<u8>());
    let got = ASKED.with(|a| a.get().0) & 31;
    if got != top(env) {
        bad!(Scope, "the initialiser is given scope {got} but {} is current", top(env));
    }
}

struct Held {
    b: Option<lokky::boxed::Box<u64>>,
    no: u8,
}
impl Held {
    fn new() -> Self {
        let no = top(0);
        let n = heap().blocks.len();
        let b = lokky::boxed::Box::new(0x1234_5678u64);
        match heap().blocks.get(n) {
            Some(bl) if bl.alloc == no => (),
            Some(bl) => bad!(Scope, "object in scope {no} was allocated by the allocator of scope {}", bl.alloc),
            None => bad!(Scope, "object was not allocated"),
        }
        Held { b: Some(b), no }
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        if self.b.take().is_some_and(|b| *b != 0x1234_5678) {
            bad!(Scope, "object made in scope {} is corrupt", self.no);
        }
    }
}

fn key(p: &[T], at: usize) {
    // The stacks, the next token and whether it unwinds are the state.
    let mut k = vec![p.get(at).map_or(255, |&t| t as u8), NEXT.with(|n| n.get())];
    STACK.with(|s| {
        for e in s.borrow().iter() {
            k.push(254);
            k.extend_from_slice(e);
        }
    });
    k.extend(p[..at].iter().map(|&t| t as u8));
    step(&k);
}

/// Run the body that begins at `at`, return where it ends.
fn body(p: &[T], mut at: usize, planned: &Cell<bool>) -> usize {
    let mut held: Vec<Held> = vec![];
    loop {
        key(p, at);
        expect(0, top(0), "between operations");
        expect(1, top(1), "between operations (other environment)");
        let Some(&t) = p.get(at) else { return at };
        at += 1;
        let calls = (Cell::new(0), Cell::new(0));
        let no = NEXT.with(|n| n.get());
        // Count the calls, run the body in it, give a result that cannot be copied.
        let run = |env: usize, s: &mut S| -> Box<usize> {
            calls.1.set(calls.1.get() + 1);
            enter(env, s, |_| Box::new(body(p, at, planned)))
        };
        let init = |env: usize, g: &dyn Scope| -> S {
            calls.0.set(calls.0.get() + 1);
            given(env, g);
            fresh(env, t)
        };
        struct After<'a> {
            calls: &'a (Cell<u32>, Cell<u32>),
            no: u8,
            env: usize,
            top: u8,
            init_only: bool,
        }
        impl Drop for After<'_> {
            fn drop(&mut self) {
                let how = if std::thread::panicking() { "while unwinding out of the scope" } else { "after the scope" };
                expect(self.env, self.top, how);
                if self.calls.0.get() != 1 || self.calls.1.get() != !self.init_only as u32 {
                    bad!(Scope, "initialiser called {} times, function called {} times", self.calls.0.get(), self.calls.1.get());
                }
                if !self.init_only {
                    let n = DEAD.with(|d| d.borrow().iter().filter(|&&d| d == self.no).count());
                    if n != 1 {
                        bad!(Scope, "the scope object is destroyed {n} times");
                    }
                }
            }
        }
        let after = |env: usize| After { calls: &calls, no, env, top: top(env), init_only: t == Init };
        match t {
            Touch => drop(Held::new()),
            Alloc => held.push(Held::new()),
            Open | Bomb => {
                let _a = after(0);
                at = *scope::spawn(|g| init(0, g), |s| run(0, s));
            }
            Keep => {
                let _a = after(0);
                at = *scope::spawn(
                    |g| {
                        let mut s = init(0, g);
                        s.kept = Held::new().b.take();
                        s
                    },
                    |s| run(0, s),
                );
            }
            Nest => {
                let _a = after(0);
                at = *scope::spawn(
                    |g| {
                        let s = init(0, g);
                        let r = scope::spawn(|g| {
                            given(0, g);
                            fresh(0, Open)
                        }, |s| enter(0, s, |_| { drop(Held::new()); 9u8 }));
                        if r != 9 {
                            bad!(Scope, "result of a nested scope is lost");
                        }
                        given(0, g);
                        expect(0, top(0), "after a nested scope in the initialiser");
                        s
                    },
                    |s| run(0, s),
                );
            }
            Direct => {
                let _a = after(0);
                let env = crate::mem::env_fn();
                at = *env.spawn(|g| Big { _pad: [7; 9], s: init(0, g) }, |b| {
                    let r = run(0, &mut b.s);
                    if b._pad != [7; 9] {
                        bad!(Scope, "the scope object is corrupt");
                    }
                    r
                });
            }
            Other => {
                let _a = after(1);
                let env = unsafe { &mut *OTHER.with(|m| m.get()) };
                at = *env.spawn(|g| init(1, g), |s| run(1, s));
            }
            Init => {
                let _a = after(0);
                planned.set(true);
                scope::spawn(|g| -> S {
                    calls.0.set(calls.0.get() + 1);
                    given(0, g);
                    panic_any(Planned)
                }, |_| calls.1.set(calls.1.get() + 1));
                bad!(Scope, "panic of the initialiser is swallowed");
            }
            Catch => {
                let (t0, t1) = (top(0), top(1));
                let p2 = Cell::new(false);
                let r = catch_unwind(AssertUnwindSafe(|| body(p, at, &p2)));
                let depth = STACK.with(|s| (s.borrow()[0].last() == Some(&t0), s.borrow()[1].last() == Some(&t1)));
                if depth != (true, true) {
                    bad!(Scope, "harness stack is broken");
                }
                expect(0, t0, "after unwinding");
                expect(1, t1, "after unwinding (other environment)");
                match r {
                    Ok(a) => at = a,
                    Err(e) => {
                        if !e.is::<Planned>() {
                            resume_unwind(e);
                        }
                        at = skip(p, at);
                    }
                }
            }
            Panic => {
                planned.set(true);
                panic_any(Planned)
            }
            Close => return at,
        }
    }
}

/// End of the body that begins at `at`.
fn skip(p: &[T], mut at: usize) -> usize {
    let mut d = 1;
    while at < p.len() {
        match p[at] {
            Open | Direct | Keep | Nest | Bomb | Other | Catch => d += 1,
            Close => d -= 1,
            _ => (),
        }
        at += 1;
        if d == 0 {
            break;
        }
    }
    at
}

pub fn run(p: &[T]) {
    STACK.with(|s| *s.borrow_mut() = [vec![0], vec![31]]);
    NEXT.with(|n| n.set(1));
    DEAD.with(|d| d.borrow_mut().clear());
    let roots = ROOTS.with(|r| r.get());
    *crate::mem::env_fn() = unsafe { Env::new(&mut (*roots)[0]) };
    let mut other = unsafe { Env::new(&mut (*roots)[1]) };
    OTHER.with(|m| m.set(&mut other));
    let pl = Cell::new(false);
    let r = catch_unwind(AssertUnwindSafe(|| body(p, 0, &pl)));
    STACK.with(|s| {
        let s = s.borrow();
        if s[0].len() != 1 || s[1].len() != 1 {
            bad!(Scope, "harness stack is broken");
        }
    });
    expect(0, 0, "at the end");
    expect(1, 31, "at the end (other environment)");
    let made = NEXT.with(|n| n.get()) as usize - 1;
    let dead = DEAD.with(|d| d.borrow().len());
    if made != dead {
        bad!(Scope, "{made} scope objects were made, {dead} destroyed");
    }
    heap().check_blocks();
    heap().check_leaks();
    if let Err(e) = r {
        if !e.is::<Planned>() {
            bad!(Scope, "unexpected panic");
        }
    }
}

/// Deep nests and long rows of scopes.
pub mod deep {
    use super::*;

    thread_local! {
        static AT: Cell<u32> = const { Cell::new(0) };
    }
    struct D(u32);
    impl Scope for D {
        fn alloc_for(&self, _: AllocSelector) -> &dyn GlobalAlloc {
            AT.with(|a| a.set(self.0));
            &ALLOCS[self.0 as usize % 31]
        }
    }
    fn asks(env: Option<&Env>, no: u32, when: &str) {
        let b = 0;
        let cur = match env {
            Some(e) => e.current(&b),
            None => scope::current(&b),
        };
        AT.with(|a| a.set(u32::MAX));
        cur.alloc_for(AllocSelector::new::<u8>());
        let got = AT.with(|a| a.get());
        if got != no {
            bad!(Scope, "scope {got} is current {when} but must be {no}");
        }
    }

    /// Depth, level where the panic is caught (0 is at the root, past the depth is no panic), box kept?
    pub fn nest_case(i: u64) -> (u32, u32, u32) {
        let (i, k) = (i / 3, (i % 3) as u32);
        let mut n = 0;
        let mut i = i;
        while i > n + 1 {
            i -= n + 2;
            n += 1;
        }
        (n as u32, i as u32, k)
    }
    pub fn nests(depth: u64) -> u64 {
        (depth + 1) * (depth + 4) / 2 * 3
    }
    pub fn nest_label(i: u64) -> String {
        let (n, c, k) = nest_case(i);
        format!("{n} nested scopes, panic in the innermost one is caught in {c} of these, {}", ["objects at each level", "only scopes", "scopes of the environment"][k as usize])
    }

    fn level(no: u32, n: u32, catch_at: u32, kind: u32) {
        asks(None, no, "when the function starts");
        let held = (kind == 0).then(Held0::new);
        if no == n {
            if catch_at <= n {
                panic_any(Planned);
            }
            return;
        }
        let inner = || {
            if kind == 2 {
                crate::mem::env_fn().spawn(|_| D(no + 1), |s| level(s.0, n, catch_at, kind))
            } else {
                scope::spawn(|_| D(no + 1), |s| level(s.0, n, catch_at, kind))
            }
        };
        if no == catch_at {
            if catch_unwind(AssertUnwindSafe(inner)).is_ok() {
                bad!(Scope, "panic is lost");
            }
            asks(None, no, "after unwinding");
            // And once more.
            scope::spawn(|_| D(1000), |s| asks(None, s.0, "in a scope spawned after unwinding"));
        } else {
            inner();
        }
        asks(None, no, "after the inner scope");
        drop(held);
    }
    struct Held0(Option<lokky::boxed::Box<u64>>);
    impl Held0 {
        fn new() -> Self {
            let no = AT.with(|a| a.get());
            let n = heap().blocks.len();
            let b = lokky::boxed::Box::new(77u64);
            match heap().blocks.get(n) {
                Some(bl) if bl.alloc as u32 == no % 31 => (),
                _ => bad!(Scope, "object in scope {no} was allocated elsewhere"),
            }
            Held0(Some(b))
        }
    }

    fn root(f: impl FnOnce()) {
        let mut r = D(0);
        // The root is used only until the end of this function.
        let r: &'static mut D = unsafe { &mut *(&mut r as *mut D) };
        *crate::mem::env_fn() = Env::new(r);
        if catch_unwind(AssertUnwindSafe(f)).is_err_and(|e| !e.is::<Planned>()) {
            bad!(Scope, "unexpected panic");
        }
        asks(None, 0, "at the end");
        heap().check_blocks();
        heap().check_leaks();
        let roots = ROOTS.with(|r| r.get());
        *crate::mem::env_fn() = unsafe { Env::new(&mut (*roots)[0]) };
    }

    pub fn nest(i: u64) {
        let (n, c, k) = nest_case(i);
        root(|| level(0, n, c, k));
        step(nest_label(i).as_bytes());
    }

    const ROWS: [u32; 13] = [1, 2, 3, 31, 127, 128, 255, 256, 257, 4097, 65535, 65536, 65537];
    pub const ROW_CASES: u64 = ROWS.len() as u64 * 4;
    pub fn row_label(i: u64) -> String {
        format!("{} scopes one after another inside of one, {}", ROWS[i as usize / 4], ["all return", "each third unwinds", "all unwind", "another environment"][i as usize % 4])
    }
    pub fn row(i: u64) {
        let (n, k) = (ROWS[i as usize / 4], i % 4);
        // Unwinding is slow.
        let n = if k == 1 || k == 2 { n.min(4097) } else { n };
        root(|| {
            scope::spawn(|_| D(7), |_| {
                let mut rs = D(9);
                let rs: &'static mut D = unsafe { &mut *(&mut rs as *mut D) };
                let mut other = Env::new(rs);
                for j in 0..n {
                    let no = 10 + j;
                    let panics = k == 2 || k == 1 && j % 3 == 0;
                    let body = |s: &mut D| {
                        if k == 3 {
                            asks(None, 7, "while a scope of another environment runs");
                        } else {
                            asks(None, s.0, "in the function");
                        }
                        if panics {
                            panic_any(Planned);
                        }
                    };
                    if k == 3 {
                        other.spawn(|_| D(no), body);
                        asks(Some(&other), 9, "after a scope (other environment)");
                    } else if panics {
                        let _ = catch_unwind(AssertUnwindSafe(|| scope::spawn(|_| D(no), body)));
                    } else {
                        scope::spawn(|_| D(no), body);
                    }
                    asks(None, 7, "after a scope");
                }
            })
        });
        step(row_label(i).as_bytes());
    }
}

//! Exploration of `String` against the string of the standard library.

use crate::bad;
use crate::elem::{callback, reg};
use crate::engine::{catch, outcome, resumes, Fault, World};
use crate::mem::{alloc_no, heap, marker, marker_no, set_scope, Kind, MAX_REQUEST};
use crate::seqvec::{prep, Out};
use lokky::string::String as LString;
use lokky::vec::Vec as LVec;
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};

pub const ALPHA: [char; 4] = ['a', 'é', '€', '𝄞'];
pub const PIECES: [&str; 6] = ["", "a", "é", "a€", "𝄞é", "é𝄞a€aa"];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    New(u8),
    WithCap(usize, bool, u8),
    FromChar(char),
    /// Index of the piece, and kind: From, FromStr, From<&String>, from_utf8
    FromStr(u8, u8),
    /// Chars count, size hint kind, kind of the items
    Collect(u8, u8, u8),
    Push(char),
    PushStr(u8),
    Pop,
    Insert(usize, char),
    InsertStr(usize, u8),
    Remove(usize),
    Truncate(usize),
    SplitOff(usize, bool),
    Retain(u32),
    Clear,
    Clone(bool),
    CloneFrom(u8),
    Reserve(u8, usize),
    ShrinkToFit,
    ShrinkTo(usize),
    Extend(u8, u8, u8),
    Add(u8),
    AddAssign(u8),
    WriteStr(u8),
    WriteChar(char),
    Format,
    /// Form of the range, bounds, and change through it
    Range(u8, usize, usize, bool),
    Views(u8),
    IntoBytes,
    SetScope(u8),
}

pub const TEXT: u32 = 1;
pub const CAP: u32 = 2;
pub const HUGE: u32 = 4;
pub const MARK: u32 = 8;
pub const RANGE: u32 = 16;
pub const ALL: u32 = TEXT | CAP | RANGE;

#[derive(Clone, Debug)]
pub struct Cfg {
    pub alpha: &'static [char],
    pub max_chars: usize,
    pub max_cap: usize,
    pub ops: u32,
}

pub struct W {
    s: Option<LString>,
    m: String,
    cfg: Cfg,
    marker: u8,
    alloc: u8,
    /// Allocator is not known
    adopted: bool,
    sc: u8,
    lenient: bool,
    last: Out,
    probe: usize,
}

/// Iterator with the given size hint, calls back.
struct It<I: Iterator> {
    it: I,
    left: usize,
    hint: u8,
}
impl<I: Iterator> Iterator for It<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        callback();
        self.left = self.left.saturating_sub(1);
        prep(|| self.it.next())
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.hint {
            0 => (self.left, Some(self.left)),
            1 => (0, None),
            _ => (self.left + 2, Some(self.left + 2)),
        }
    }
}

fn items(n: u8) -> std::vec::Vec<char> {
    (0..n).map(|i| ALPHA[(i as usize + n as usize) % 4]).collect()
}

fn lstr(s: &str) -> LString {
    prep(|| LString::from(s))
}

static CHARS: [char; 4] = ALPHA;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

impl W {
    fn s(&mut self) -> &mut LString {
        self.s.as_mut().unwrap()
    }

    /// Run on both and compare.
    fn step<R: PartialEq + Debug>(&mut self, what: &str, f: impl FnOnce(&mut LString) -> R, g: impl FnOnce(&mut String) -> R) {
        let r = catch(|| f(self.s()));
        let mut m = self.m.clone();
        let w = prep(|| catch(|| g(&mut m)));
        self.last = if r.is_some() { Out::Ok } else { Out::Panic };
        outcome(if w.is_some() { "ok" } else { "refused" });
        if !self.lenient {
            match (&r, &w) {
                (None, Some(_)) => bad!(Sem, "{what} panicked"),
                (Some(_), None) => bad!(Sem, "{what} did not panic"),
                (Some(a), Some(b)) if a != b => bad!(Sem, "{what} gave {a:?} instead of {b:?}"),
                _ => {}
            }
        }
        if w.is_some() {
            self.m = m;
        }
        prep(|| drop(r));
    }

    /// New text from something.
    fn make(&mut self, what: &str, f: impl FnOnce() -> LString, text: String) {
        let r = catch(f);
        self.last = if r.is_some() { Out::Ok } else { Out::Panic };
        outcome(if r.is_some() { "ok" } else { "panic" });
        match r {
            Some(s) => {
                prep(|| self.s = Some(s));
                self.m = text;
                self.marker = 0;
                self.adopted = false;
                self.alloc = alloc_no(self.sc, 0);
            }
            None => {
                if !self.lenient {
                    bad!(Sem, "{what} panicked");
                }
            }
        }
    }

    fn check_text(s: &LString, m: &str, what: &str) {
        if std::str::from_utf8(s.as_bytes()).is_err() {
            bad!(Utf8, "{what}: bytes {:?} are not well-formed UTF-8", s.as_bytes());
            return;
        }
        let b = m.as_bytes();
        if s.as_bytes() != b || s.as_str() != m || &**s != m || s.len() != b.len() || s.is_empty() != m.is_empty() {
            bad!(Sem, "{what}: text is {:?} instead of {m:?}", s.as_str());
        }
        if s.capacity() < s.len() {
            bad!(Cap, "{what}: capacity {} is less than length {}", s.capacity(), s.len());
        }
        let p = s.as_bytes().as_ptr();
        if s.capacity() > 0 {
            match heap().block_of(p) {
                Some(b) if b.ptr as *const u8 == p => {
                    if b.size < s.capacity() {
                        bad!(Cap, "{what}: capacity {} is reported for a block of {}", s.capacity(), b.size);
                    }
                }
                _ => bad!(Mem, "{what}: text is not in a block obtained from allocator"),
            }
        }
    }

    fn check(&mut self) {
        if self.lenient {
            return;
        }
        let (mark, alloc) = (self.marker, self.alloc);
        let adopted = self.adopted;
        let Some(s) = self.s.as_mut() else { return };
        Self::check_text(s, &self.m, "string");
        if !heap().viol.is_empty() {
            return;
        }
        let m = &self.m;
        // Views.
        if AsRef::<str>::as_ref(s) != m || std::borrow::Borrow::<str>::borrow(s) as &str != m {
            bad!(Fwd, "as_ref or borrow give other text");
        }
        if s.as_mut_str() != m || AsMut::<str>::as_mut(s) != m || std::borrow::BorrowMut::<str>::borrow_mut(s) as &mut str != m {
            bad!(Fwd, "mutable views give other text");
        }
        if hash_of(s) != hash_of(m.as_str()) {
            bad!(Fwd, "hash is not that of the text");
        }
        let mk = s.as_mut_vec().marker();
        if mk != marker(mark) {
            bad!(Sel, "marker is {mk:?} instead of {mark}");
        }
        if s.capacity() > 0 && !adopted {
            if let Some(b) = heap().block_of(s.as_bytes().as_ptr()) {
                if b.alloc != alloc {
                    bad!(Sel, "buffer is from allocator {} instead of {alloc}", b.alloc);
                }
            }
        }
    }

    fn range(&mut self, form: u8, a: usize, b: usize, change: bool) {
        macro_rules! go {
            ($e:expr) => {
                if change {
                    self.step(
                        "index_mut",
                        |s| {
                            let r = &mut s[$e];
                            r.make_ascii_uppercase();
                            r.to_string()
                        },
                        |s| {
                            let r = &mut s[$e];
                            r.make_ascii_uppercase();
                            r.to_string()
                        },
                    )
                } else {
                    self.step("index", |s| s[$e].to_string(), |s| s[$e].to_string())
                }
            };
        }
        match form {
            0 => go!(a..b),
            1 => go!(a..=b),
            2 => go!(..b),
            3 => go!(..=b),
            4 => go!(a..),
            _ => go!(..),
        }
    }

    fn extend_with(s: &mut LString, n: u8, hint: u8, kind: u8, collect: bool) -> Option<LString> {
        let v = items(n);
        macro_rules! go {
            ($it:expr) => {{
                let it = It { it: $it, left: n as usize, hint };
                if collect {
                    return Some(it.collect());
                }
                s.extend(it);
            }};
        }
        match kind {
            0 => go!(v.into_iter()),
            1 => go!(v.iter().map(|c| &CHARS[ALPHA.iter().position(|x| x == c).unwrap()])),
            2 => go!(v.iter().map(|c| PIECES[ALPHA.iter().position(|x| x == c).unwrap() + 1])),
            _ => go!(v.iter().map(|c| lstr(PIECES[ALPHA.iter().position(|x| x == c).unwrap() + 1]))),
        }
        None
    }

    fn extended(m: &str, n: u8, kind: u8) -> String {
        let mut m = m.to_string();
        for c in items(n) {
            if kind < 2 {
                m.push(c);
            } else {
                m.push_str(PIECES[ALPHA.iter().position(|&x| x == c).unwrap() + 1]);
            }
        }
        m
    }

    fn do_apply(&mut self, op: Op) {
        use Op::*;
        self.probe = 0;
        self.last = Out::Other;
        let sel0 = heap().sel_log.len();
        let (cap0, len) = (self.s().capacity(), self.m.len());
        match op {
            New(k) => {
                let c0 = heap().calls;
                let cap = self.s().capacity();
                self.make(
                    "new",
                    || match k {
                        0 => LString::new(),
                        1 => LString::default(),
                        k => LString::with_marker(marker((k - 1) % 3)),
                    },
                    String::new(),
                );
                self.marker = k.saturating_sub(1) % 3;
                self.alloc = alloc_no(self.sc, self.marker);
                if heap().calls != c0 + (cap > 0) as u32 {
                    bad!(Cap, "new string allocates");
                }
            }
            WithCap(n, try_, mk) => {
                let old = heap().viol.len();
                let r = catch(|| match (try_, mk) {
                    (false, 0) => Ok(LString::with_capacity(n)),
                    (true, 0) => LString::try_with_capacity(n).map_err(|_| ()),
                    (false, _) => Ok(LString::with_capacity_and_marker(n, marker(mk))),
                    (true, _) => LString::try_with_capacity_and_marker(n, marker(mk)).map_err(|_| ()),
                });
                self.last = match &r {
                    Some(Ok(_)) => Out::Ok,
                    Some(Err(_)) => Out::Err,
                    None => Out::Panic,
                };
                outcome(match &r {
                    Some(Ok(_)) => "ok",
                    Some(Err(_)) => "error",
                    None => "panic",
                });
                match r {
                    Some(Ok(s)) => {
                        if n > MAX_REQUEST {
                            bad!(Cap, "capacity of {n} is given though there is no such memory");
                        }
                        prep(|| self.s = Some(s));
                        self.m.clear();
                        self.marker = mk;
                        self.adopted = false;
                        self.alloc = alloc_no(self.sc, mk);
                        if self.s().capacity() < n {
                            bad!(Cap, "capacity is {} instead of {n}", self.s().capacity());
                        }
                        self.probe = n;
                    }
                    r => {
                        if n <= MAX_REQUEST && !self.lenient {
                            bad!(Cap, "with_capacity of {n} failed");
                        }
                        if r.is_none() && try_ && n < isize::MAX as usize && !self.lenient {
                            bad!(Cap, "try_with_capacity panicked");
                        }
                    }
                }
                let _ = old;
            }
            FromChar(c) => self.make("from char", || LString::from(c), c.to_string()),
            FromStr(p, k) => {
                let t = PIECES[p as usize];
                let other = lstr(t);
                let bytes = prep(|| LVec::<u8>::from(t.as_bytes()));
                self.make(
                    "from str",
                    || match k {
                        0 => LString::from(t),
                        1 => t.parse().unwrap(),
                        2 => LString::from(&other),
                        3 => LString::from_utf8(bytes).unwrap(),
                        4 => LString::from_utf16(&t.encode_utf16().collect::<std::vec::Vec<_>>()).unwrap(),
                        _ => unsafe { LString::from_utf8_unchecked(bytes) },
                    },
                    t.to_string(),
                );
                prep(|| Self::check_text(&other, t, "source of From"));
                prep(|| drop(other));
            }
            Collect(n, h, k) => {
                let mut dummy = lstr("");
                self.make("collect", || Self::extend_with(&mut dummy, n, h, k, true).unwrap(), Self::extended("", n, k));
                if k == 3 {
                    self.adopted = true;
                }
            }
            Push(c) => self.step("push", |s| s.push(c), |s| s.push(c)),
            PushStr(p) => self.step("push_str", |s| s.push_str(PIECES[p as usize]), |s| s.push_str(PIECES[p as usize])),
            Pop => self.step("pop", |s| s.pop(), |s| s.pop()),
            Insert(i, c) => self.step("insert", |s| s.insert(i, c), |s| s.insert(i, c)),
            InsertStr(i, p) => self.step("insert_str", |s| s.insert_str(i, PIECES[p as usize]), |s| s.insert_str(i, PIECES[p as usize])),
            Remove(i) => self.step("remove", |s| s.remove(i), |s| s.remove(i)),
            Truncate(i) => self.step("truncate", |s| s.truncate(i), |s| s.truncate(i)),
            Clear => self.step("clear", |s| s.clear(), |s| s.clear()),
            SplitOff(i, keep) => {
                let mut tail = None;
                self.step(
                    "split_off",
                    |s| {
                        let t = s.split_off(i);
                        let r = prep(|| std::str::from_utf8(t.as_bytes()).map(|s| s.to_string()));
                        tail = Some(t);
                        r
                    },
                    |s| Ok(s.split_off(i)),
                );
                if keep {
                    if let Some(t) = tail.take() {
                        self.m = prep(|| t.as_str().to_string());
                        prep(|| self.s = Some(t));
                        // Marker of the part is not promised.
                        self.adopted = true;
                        self.marker = marker_no(self.s().as_mut_vec().marker());
                    }
                }
                prep(|| drop(tail));
            }
            Retain(mask) => {
                let run = |log: &mut Vec<char>, c: char| {
                    let i = log.len();
                    log.push(c);
                    mask >> (i % 32) & 1 == 1
                };
                self.step(
                    "retain",
                    |s| {
                        let mut log = vec![];
                        s.retain(|c| {
                            callback();
                            run(&mut log, c)
                        });
                        log
                    },
                    |s| {
                        let mut log = vec![];
                        s.retain(|c| run(&mut log, c));
                        log
                    },
                )
            }
            Clone(keep) => {
                let r = catch(|| self.s().clone());
                self.last = if r.is_some() { Out::Ok } else { Out::Panic };
                outcome("ok");
                match r {
                    None if !self.lenient => bad!(Sem, "clone panicked"),
                    None => {}
                    Some(c) => {
                        prep(|| Self::check_text(&c, &self.m, "clone"));
                        if c != *self.s() || c.cmp(self.s()) != std::cmp::Ordering::Equal {
                            bad!(Fwd, "clone is not equal to the source");
                        }
                        if keep {
                            prep(|| {
                                self.adopted = true;
                                self.s = Some(c);
                            });
                            // A clone's own marker is not promised.
                            self.marker = marker_no(self.s().as_mut_vec().marker());
                        } else {
                            prep(|| drop(c));
                        }
                    }
                }
            }
            CloneFrom(p) => {
                let text = PIECES[p as usize];
                let src = prep(|| LString::from(text));
                let r = catch(|| self.s().clone_from(&src));
                self.last = if r.is_some() { Out::Ok } else { Out::Panic };
                outcome("ok");
                if r.is_none() && !self.lenient {
                    bad!(Sem, "clone_from panicked");
                }
                prep(|| Self::check_text(&src, text, "the source of clone_from"));
                if r.is_some() {
                    self.m = text.to_string();
                    self.adopted = true;
                    // A clone's own marker is not promised.
                    self.marker = marker_no(self.s().as_mut_vec().marker());
                }
                prep(|| drop(src));
            }
            Reserve(form, n) => {
                let (c0, p0) = (heap().calls, self.s().as_bytes().as_ptr());
                let r = catch(|| match form {
                    0 => Ok(self.s().reserve(n)),
                    1 => Ok(self.s().reserve_exact(n)),
                    2 => self.s().try_reserve(n).map_err(|_| ()),
                    _ => self.s().try_reserve_exact(n).map_err(|_| ()),
                });
                let must = len.checked_add(n).is_some_and(|b| b <= cap0 || b <= MAX_REQUEST);
                self.last = match &r {
                    Some(Ok(())) => Out::Ok,
                    Some(Err(())) => Out::Err,
                    None => Out::Panic,
                };
                outcome(match &r {
                    Some(Ok(())) => "ok",
                    Some(Err(())) => "error",
                    None => "panic",
                });
                let cap = self.s().capacity();
                if !self.lenient {
                    match r {
                        Some(Ok(())) if !must => bad!(Cap, "reserve of {n} succeeded though there is no such memory"),
                        Some(Ok(())) => {
                            if cap < len + n {
                                bad!(Cap, "capacity is {cap} after reserving {n} for {len} bytes");
                            }
                            if len + n <= cap0 && (heap().calls != c0 || self.s().as_bytes().as_ptr() != p0) {
                                bad!(Cap, "reserve calls allocator though there is space already");
                            }
                        }
                        _ if must => bad!(Cap, "reserve of {n} for {len} bytes failed"),
                        None if form >= 2 && n < isize::MAX as usize => bad!(Cap, "try_reserve panicked when allocator refused"),
                        _ => {}
                    }
                }
                if self.last == Out::Ok {
                    self.probe = n;
                }
            }
            ShrinkToFit | ShrinkTo(_) => {
                let min = if let ShrinkTo(n) = op { n } else { 0 };
                self.step(
                    "shrink",
                    |s| match op {
                        ShrinkTo(n) => s.shrink_to(n),
                        _ => s.shrink_to_fit(),
                    },
                    |_| (),
                );
                let want = len.max(min).min(cap0);
                if self.last == Out::Ok && self.s().capacity() != want {
                    bad!(Cap, "capacity is {} instead of {want} after shrinking from {cap0} with {len} bytes", self.s().capacity());
                }
            }
            Extend(n, h, k) => {
                if k == 3 && cap0 == 0 {
                    // May take over the buffer of the first string.
                    self.adopted = true;
                }
                self.step(
                    "extend",
                    |s| {
                        Self::extend_with(s, n, h, k, false);
                    },
                    |s| *s = Self::extended(s, n, k),
                )
            }
            Add(p) => {
                let Some(s) = self.s.take() else { return };
                let r = catch(|| s + PIECES[p as usize]);
                self.last = if r.is_some() { Out::Ok } else { Out::Panic };
                outcome("ok");
                match r {
                    Some(s) => {
                        self.s = Some(s);
                        self.m += PIECES[p as usize];
                    }
                    None => {
                        if !self.lenient {
                            bad!(Sem, "+ panicked");
                        }
                        self.s = Some(lstr(""));
                        self.m.clear();
                        self.marker = 0;
                        self.alloc = alloc_no(self.sc, 0);
                        self.adopted = false;
                    }
                }
            }
            AddAssign(p) => self.step("+=", |s| *s += PIECES[p as usize], |s| *s += PIECES[p as usize]),
            WriteStr(p) => self.step("write_str", |s| s.write_str(PIECES[p as usize]), |s| s.write_str(PIECES[p as usize])),
            WriteChar(c) => self.step("write_char", |s| s.write_char(c), |s| s.write_char(c)),
            Format => self.step("write!", |s| write!(s, "{}{:>3}é", 7, 'x'), |s| write!(s, "{}{:>3}é", 7, 'x')),
            Range(f, a, b, ch) => self.range(f, a, b, ch),
            Views(k) => self.step(
                "as_mut",
                |s| match k {
                    0 => s.as_mut_str().make_ascii_uppercase(),
                    1 => AsMut::<str>::as_mut(s).make_ascii_uppercase(),
                    2 => s.as_mut_vec().push(b'z'),
                    _ => std::ops::DerefMut::deref_mut(s).make_ascii_lowercase(),
                },
                |s| match k {
                    0 | 1 => s.make_ascii_uppercase(),
                    2 => s.push('z'),
                    _ => s.make_ascii_lowercase(),
                },
            ),
            IntoBytes => {
                // Out through the vector and back.
                let v = std::mem::replace(self.s().as_mut_vec(), prep(LVec::new));
                if v.as_slice() != self.m.as_bytes() {
                    bad!(Sem, "vector of bytes is other than the text");
                }
                let mut held = Some(v);
                self.step("from_utf8", |s| *s = LString::from_utf8(held.take().unwrap()).unwrap(), |_| ());
                outcome("ok");
            }
            SetScope(n) => {
                self.sc = n;
                set_scope(n);
            }
        }
        // Every request is for bytes, with the marker, from the scope that is current.
        if self.cfg.ops & MARK != 0 && !self.lenient {
            let log = &heap().sel_log[sel0.min(heap().sel_log.len())..];
            for (s, sel) in log {
                if *s != self.sc || sel.ty() != "u8" {
                    bad!(Sel, "asked scope {s} for an allocator for {sel:?} while scope {} is current", self.sc);
                }
            }
            if let WithCap(_, _, mk) = op {
                if self.last == Out::Ok && !log.iter().any(|(_, l)| l.marker() == marker(mk)) {
                    bad!(Sel, "allocator was not asked for with the marker {mk}");
                }
            }
        }
        self.check();
    }
}

impl World for W {
    type Op = Op;
    type Cfg = Cfg;
    fn name(cfg: &Cfg) -> String {
        format!("String alphabet={:?} chars<={} cap<={} ops={:#x}", cfg.alpha, cfg.max_chars, cfg.max_cap, cfg.ops)
    }
    fn new(cfg: &Cfg) -> Self {
        W { s: Some(LString::new()), m: String::new(), cfg: cfg.clone(), marker: 0, alloc: 0, adopted: false, sc: 0, lenient: false, last: Out::Ok, probe: 0 }
    }
    fn ops(&self, out: &mut Vec<Op>) {
        use Op::*;
        let o = self.cfg.ops;
        let len = self.m.len();
        let n = self.m.chars().count();
        let grow = n < self.cfg.max_chars;
        let np = PIECES.len() as u8;
        for &c in self.cfg.alpha {
            out.push(Push(c));
            if o & TEXT != 0 {
                out.push(WriteChar(c));
                out.push(FromChar(c));
                for i in 0..=len + 1 {
                    out.push(Insert(i, c));
                }
            }
        }
        out.push(Pop);
        for p in 0..np {
            out.push(PushStr(p));
        }
        for i in 0..=len + 1 {
            if o & TEXT != 0 {
                for p in 0..np {
                    out.push(InsertStr(i, p));
                }
            }
            out.push(Remove(i));
            out.push(Truncate(i));
            out.push(SplitOff(i, false));
            out.push(SplitOff(i, true));
        }
        for i in [usize::MAX, isize::MAX as usize] {
            out.push(Remove(i));
            out.push(Truncate(i));
            out.push(SplitOff(i, false));
            out.push(Insert(i, 'a'));
            out.push(InsertStr(i, 1));
        }
        out.push(Clear);
        out.push(Clone(false));
        out.push(Clone(true));
        for p in 0..4 {
            out.push(CloneFrom(p));
        }
        if o & TEXT != 0 {
            for mask in 0..1u32 << n.min(10) {
                out.push(Retain(mask));
            }
            for k in 0..4 {
                for c in 0..=2 {
                    for h in 0..3 {
                        out.push(Extend(c, h, k));
                        if len == 0 {
                            out.push(Collect(c, h, k));
                        }
                    }
                }
            }
            for p in 0..np {
                out.push(Add(p));
                out.push(AddAssign(p));
                out.push(WriteStr(p));
                if len == 0 {
                    for k in 0..6 {
                        out.push(FromStr(p, k));
                    }
                }
            }
            if grow {
                out.push(Format);
            }
            for k in 0..4 {
                out.push(Views(k));
            }
            out.push(IntoBytes);
        }
        if o & RANGE != 0 {
            for ch in [false, true] {
                for a in 0..=len + 1 {
                    for b in 0..=len + 1 {
                        out.push(Range(0, a, b, ch));
                        out.push(Range(1, a, b, ch));
                    }
                    out.push(Range(2, 0, a, ch));
                    out.push(Range(3, 0, a, ch));
                    out.push(Range(4, a, 0, ch));
                }
                out.push(Range(5, 0, 0, ch));
                out.push(Range(1, 0, usize::MAX, ch));
                out.push(Range(3, 0, usize::MAX, ch));
                out.push(Range(4, usize::MAX, 0, ch));
            }
        }
        if len == 0 {
            for k in 0..if o & MARK != 0 { 5 } else { 2 } {
                out.push(New(k));
            }
        }
        if o & CAP != 0 {
            for f in 0..4 {
                for n in 0..=self.cfg.max_cap.saturating_sub(len).min(9) {
                    out.push(Reserve(f, n));
                }
            }
            for n in 0..=self.cfg.max_cap.min(len + 4) {
                out.push(ShrinkTo(n));
            }
            out.push(ShrinkToFit);
            if len == 0 {
                for n in [0, 1, 3, 8] {
                    for t in [false, true] {
                        for mk in 0..if o & MARK != 0 { 3 } else { 1 } {
                            out.push(WithCap(n, t, mk));
                        }
                    }
                }
            }
            if o & HUGE != 0 {
                for n in [usize::MAX, usize::MAX - len, usize::MAX - len + (len > 0) as usize, isize::MAX as usize, isize::MAX as usize - len, (isize::MAX as usize - len).wrapping_add(1), 1 << 40, MAX_REQUEST + 1] {
                    for f in 0..4 {
                        out.push(Reserve(f, n));
                    }
                    if len == 0 {
                        out.push(WithCap(n, false, 0));
                        out.push(WithCap(n, true, 0));
                    }
                }
            }
        }
        if o & MARK != 0 {
            for s in 0..2 {
                if s != self.sc {
                    out.push(SetScope(s));
                }
            }
        }
    }
    fn apply(&mut self, op: Op) {
        self.do_apply(op)
    }
    fn apply_fault(&mut self, op: Op, fault: Fault) {
        let before = self.m.clone();
        let v0 = heap().viol.len();
        self.lenient = true;
        match fault {
            Fault::Panic(k) => reg().panic_at = k,
            Fault::Alloc(k) => heap().fail_at = k,
            Fault::None => {}
        }
        self.do_apply(op);
        reg().panic_at = 0;
        heap().fail_at = 0;
        self.lenient = false;
        let mut v = std::mem::take(&mut heap().viol);
        let tail = v.split_off(v0.min(v.len()));
        v.extend(tail.into_iter().filter(|(k, _)| matches!(k, Kind::Own | Kind::Mem)));
        heap().viol = v;
        prep(|| {
            let s = self.s.as_mut().unwrap();
            match std::str::from_utf8(s.as_bytes()) {
                Err(_) => bad!(Utf8, "bytes {:?} are not well-formed UTF-8 after {fault:?}", s.as_bytes()),
                Ok(t) => self.m = t.to_string(),
            }
            self.marker = marker_no(s.as_mut_vec().marker());
            self.adopted = true;
        });
        if !heap().viol.is_empty() {
            return;
        }
        if let Fault::Alloc(_) = fault {
            if matches!(self.last, Out::Ok | Out::Other) {
                bad!(Fault, "failed allocation is not reported");
                return;
            }
            if matches!(op, Op::Reserve(2 | 3, _) | Op::WithCap(_, true, _)) && self.last == Out::Panic {
                bad!(Fault, "failed allocation made the try_ form panic");
            }
            let want = if matches!(op, Op::Add(_)) { String::new() } else { before };
            let same = if matches!(op, Op::Extend(..) | Op::Format) { self.m.starts_with(&want) } else { self.m == want };
            if !same {
                bad!(Fault, "text is {:?} instead of {want:?} after failed allocation", self.m);
            }
        }
        self.check();
        if resumes() {
            return;
        }
        for o in [op, Op::Push('€'), Op::Insert(0, 'a'), Op::Pop] {
            if heap().viol.is_empty() {
                self.do_apply(o);
            }
        }
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol {
                v.0 = Kind::Fault;
            }
        }
    }
    fn expand(&self) -> bool {
        self.m.chars().count() <= self.cfg.max_chars && self.m.chars().all(|c| self.cfg.alpha.contains(&c)) && self.s.as_ref().unwrap().capacity() <= self.cfg.max_cap
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend((self.s.as_ref().unwrap().capacity() as u32).to_le_bytes());
        out.extend([self.marker, self.alloc, self.sc, self.adopted as u8]);
        out.extend(self.m.as_bytes());
    }
    fn finish(mut self, _last: Option<Op>, fault: Fault) {
        if self.probe > 0 && self.probe <= 80 && fault == Fault::None && heap().viol.is_empty() {
            let (c0, p0) = (heap().calls, self.s().as_bytes().as_ptr());
            for _ in 0..self.probe {
                if catch(|| self.s().push('q')).is_none() {
                    bad!(Cap, "push into reserved space panicked");
                }
            }
            if heap().calls != c0 || self.s().as_bytes().as_ptr() != p0 {
                bad!(Cap, "allocator is called while adding {} bytes that were reserved", self.probe);
            }
        }
        let s = self.s.take();
        if catch(|| drop(s)).is_none() {
            bad!(Own, "destruction of the string panicked");
        }
        heap().check_blocks();
        if !matches!(fault, Fault::Panic(_)) {
            heap().check_leaks();
        }
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol {
                v.0 = Kind::Fault;
            }
        }
    }
}

/// Well-formed UTF-8 by the table of the Unicode standard.
pub fn well_formed(b: &[u8]) -> bool {
    let mut i = 0;
    let c = |i: usize, lo: u8, hi: u8| b.get(i).is_some_and(|x| (lo..=hi).contains(x));
    while i < b.len() {
        i += match b[i] {
            0..=0x7F => 1,
            0xC2..=0xDF if c(i + 1, 0x80, 0xBF) => 2,
            0xE0 if c(i + 1, 0xA0, 0xBF) && c(i + 2, 0x80, 0xBF) => 3,
            0xE1..=0xEC | 0xEE..=0xEF if c(i + 1, 0x80, 0xBF) && c(i + 2, 0x80, 0xBF) => 3,
            0xED if c(i + 1, 0x80, 0x9F) && c(i + 2, 0x80, 0xBF) => 3,
            0xF0 if c(i + 1, 0x90, 0xBF) && c(i + 2, 0x80, 0xBF) && c(i + 3, 0x80, 0xBF) => 4,
            0xF1..=0xF3 if c(i + 1, 0x80, 0xBF) && c(i + 2, 0x80, 0xBF) && c(i + 3, 0x80, 0xBF) => 4,
            0xF4 if c(i + 1, 0x80, 0x8F) && c(i + 2, 0x80, 0xBF) && c(i + 3, 0x80, 0xBF) => 4,
            _ => return false,
        };
    }
    true
}

/// Text of the units, None if ill-formed.
pub fn utf16_text(u: &[u16]) -> Option<String> {
    let mut r = String::new();
    let mut i = 0;
    while i < u.len() {
        let c = match u[i] {
            hi @ 0xD800..=0xDBFF => match u.get(i + 1) {
                Some(&lo @ 0xDC00..=0xDFFF) => {
                    i += 1;
                    0x10000 + ((hi as u32 - 0xD800) << 10) + (lo as u32 - 0xDC00)
                }
                _ => return None,
            },
            0xDC00..=0xDFFF => return None,
            c => c as u32,
        };
        r.push(char::from_u32(c)?);
        i += 1;
    }
    Some(r)
}

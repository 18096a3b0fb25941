//! Comparison, hash, print and access through pointers and containers, against the values themselves.

use crate::bad;
use crate::seqvec::{end, fin};
use crate::engine::step;
use lokky::{arc::Arc, boxed::Box as LBox, rc::Rc, small_vec::SmallVec, string::String as LString, urc::Urc, vec::Vec as LVec};
use std::borrow::{Borrow, BorrowMut};
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display, Write as _};
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------- values

/// Partially ordered: 3 is not comparable to anything, itself included.
#[derive(Clone, Copy)]
pub struct P(pub u8);
impl PartialEq for P {
    fn eq(&self, o: &P) -> bool {
        self.0 != 3 && self.0 == o.0
    }
}
impl PartialOrd for P {
    fn partial_cmp(&self, o: &P) -> Option<Ordering> {
        if self.0 == 3 || o.0 == 3 {
            None
        } else {
            self.0.partial_cmp(&o.0)
        }
    }
}
/// Only the key is compared.
#[derive(Clone, Copy)]
pub struct K(pub u8, pub u8);
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.0 == o.0
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        // Not the order of the bytes.
        o.0.cmp(&self.0)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(self.0);
        h.write_u32(77);
    }
}
macro_rules! show {
    ($t:ty) => {
        impl Display for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                show(self.0, f, 'd')
            }
        }
        impl Debug for $t {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                show(self.0, f, 'D')
            }
        }
    };
}
show!(P);
show!(K);
/// Everything that was asked for, and it takes several writes.
fn show(v: u8, f: &mut fmt::Formatter, how: char) -> fmt::Result {
    f.write_char(how)?;
    f.write_str(&v.to_string())?;
    f.write_fmt(format_args!("<{:?},{:?},{:?},{},{},{},{},{}>", f.width(), f.precision(), f.align().map(|a| match a {
        fmt::Alignment::Left => 'l',
        fmt::Alignment::Right => 'r',
        fmt::Alignment::Center => 'c',
    }), f.fill(), f.alternate(), f.sign_plus(), f.sign_minus(), f.sign_aware_zero_pad()))?;
    f.pad("e")
}

// ---------------------------------------------------------------- oracle

#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashes<T: Hash + ?Sized>(v: &T) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    v.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    (r.0, d.finish())
}

/// Fails after so many bytes.
struct Limited(String, usize);
impl fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn partial<A: PartialOrd, B: PartialOrd + ?Sized>(what: &str, a: &A, b: &A, x: &B, y: &B) {
    let real = (a == b, a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b));
    let want = (x == y, x != y, x < y, x <= y, x > y, x >= y, x.partial_cmp(y));
    if real != want {
        bad!(Fwd, "{what}: ==, !=, <, <=, >, >=, partial_cmp give {real:?}, for the values {want:?}");
    }
}
fn total<A: Ord, B: Ord + ?Sized>(what: &str, a: &A, b: &A, x: &B, y: &B) {
    if a.cmp(b) != x.cmp(y) {
        bad!(Fwd, "{what}: cmp gives {:?}, for the values {:?}", a.cmp(b), x.cmp(y));
    }
}
fn hash<A: Hash, B: Hash + ?Sized>(what: &str, a: &A, x: &B) {
    if hashes(a) != hashes(x) {
        bad!(Fwd, "{what}: hash differs from the one of the value");
    }
}

macro_rules! formats {
    ($what:expr, $a:expr, $b:expr, $($f:literal),*) => {{
        let (a, b) = ($a, $b);
        $({
            let (x, y) = (format!($f, *a), format!($f, b));
            if x != y {
                bad!(Fwd, "{} printed with {:?} gives {x:?}, the value gives {y:?}", $what, $f);
            }
            for n in 0..y.len() {
                let (mut l, mut m) = (Limited(String::new(), n), Limited(String::new(), n));
                let (r, s) = (write!(l, $f, *a), write!(m, $f, b));
                if r.is_ok() != s.is_ok() || !y.starts_with(&l.0) {
                    bad!(Fwd, "{} printed with {:?} to a writer of {n} bytes gives {r:?} {:?}, the value gives {s:?} {:?}", $what, $f, l.0, m.0);
                }
            }
        })*
    }};
}
fn display<A: Display, B: Display + ?Sized>(what: &str, a: &A, b: &B) {
    formats!(what, a, b, "{}", "{:6}", "{:<7}", "{:>8}", "{:^9}", "{:*^9.1}", "{:#}", "{:+}", "{:-}", "{:06}", "{:.0}", "{:#<3}");
}
fn debug<A: Debug, B: Debug + ?Sized>(what: &str, a: &A, b: &B) {
    formats!(what, a, b, "{:?}", "{:6?}", "{:<7?}", "{:>8?}", "{:*^9.1?}", "{:#?}", "{:+?}", "{:06?}", "{:.0?}", "{:x?}", "{:X?}", "{:#x?}");
}
fn pointer<A: fmt::Pointer, T>(what: &str, a: &A, b: *const T) {
    formats!(what, a, b, "{:p}", "{:30p}", "{:<30p}", "{:#p}", "{:030p}");
}

fn same<T: ?Sized>(what: &str, how: &str, a: *const T, b: *const T) {
    if !std::ptr::addr_eq(a, b) || size_of_val(unsafe { &*a }) != size_of_val(unsafe { &*b }) {
        bad!(Fwd, "{what}: {how} does not reach the value");
    }
}

// ---------------------------------------------------------------- pointers

pub trait H<T: 'static>: Sized + std::ops::Deref<Target = T> + AsRef<T> + Borrow<T> {
    const NAME: &'static str;
    fn mk(v: T) -> Self;
    /// Second handle to the same value.
    fn dup(&self) -> Option<Self>;
    fn more(&mut self) {}
}
impl<T: 'static> H<T> for LBox<T> {
    const NAME: &'static str = "Box";
    fn mk(v: T) -> Self {
        LBox::new(v)
    }
    fn dup(&self) -> Option<Self> {
        None
    }
    fn more(&mut self) {
        let p = &**self as *const T;
        same("Box", "as_mut", self.as_mut(), p);
        same("Box", "borrow_mut", BorrowMut::<T>::borrow_mut(self), p);
        same("Box", "deref_mut", &mut **self, p);
    }
}
macro_rules! shared {
    ($t:ident, $n:literal) => {
        impl<T: 'static> H<T> for $t<T> {
            const NAME: &'static str = $n;
            fn mk(v: T) -> Self {
                $t::new(v)
            }
            fn dup(&self) -> Option<Self> {
                Some(self.clone())
            }
        }
    };
}
shared!(Rc, "Rc");
shared!(Arc, "Arc");
shared!(Urc, "Urc");

/// All that holds for each pair of values.
pub fn ptr_partial<T: PartialOrd + Debug + Display + Clone + 'static, A: H<T> + PartialOrd + Debug + Display>(x: &T, y: &T) {
    let n = A::NAME;
    let (mut a, mut b) = (A::mk(x.clone()), A::mk(y.clone()));
    step(format!("{n} {} {x} {y}", std::any::type_name::<T>()).as_bytes());
    partial(n, &a, &b, x, y);
    partial(n, &a, &a, x, x);
    display(n, &a, x);
    debug(n, &a, x);
    if let (Some(c), Some(d)) = (a.dup(), b.dup()) {
        step(format!("clone {n} {} {x} {y}", std::any::type_name::<T>()).as_bytes());
        partial("clone", &c, &a, x, x);
        partial("clone", &c, &d, x, y);
        partial("clone", &a, &d, x, y);
        display("clone", &c, x);
        same(n, "the clone", &*c, &*a);
    }
    let p = &*a as *const T;
    same(n, "as_ref", a.as_ref(), p);
    same(n, "borrow", Borrow::<T>::borrow(&a), p);
    a.more();
    b.more();
    if format!("{:?}", *a) != format!("{x:?}") || format!("{:?}", *b) != format!("{y:?}") {
        bad!(Fwd, "{n}: value is changed by looking at it");
    }
}
pub fn ptr_total<T: Ord + Hash + Debug + Display + Clone + 'static, A: H<T> + Ord + Hash + Debug + Display>(x: &T, y: &T) {
    ptr_partial::<T, A>(x, y);
    let n = A::NAME;
    let (a, b) = (A::mk(x.clone()), A::mk(y.clone()));
    total(n, &a, &b, x, y);
    total(n, &a, &a, x, x);
    hash(n, &a, x);
    if let (Some(c), Some(d)) = (a.dup(), b.dup()) {
        total("clone", &c, &d, x, y);
        total("clone", &a, &d, x, y);
        hash("clone", &c, x);
    }
    let (mut r, mut s) = (Rec::default(), Rec::default());
    A::hash_slice(&[A::mk(x.clone()), A::mk(y.clone())], &mut r);
    T::hash_slice(&[x.clone(), y.clone()], &mut s);
    if r.0 != s.0 {
        bad!(Fwd, "{n}: hash of several differs from the one of the values");
    }
    let (hi, lo) = (x.max(y), x.min(y));
    if a.dup().is_some() {
        let (a2, b2) = (a.dup().unwrap(), b.dup().unwrap());
        if *a2.max(b2) != *hi {
            bad!(Fwd, "{n}: max is not the max of the values");
        }
    } else if *a.min(b) != *lo {
        bad!(Fwd, "{n}: min is not the min of the values");
    }
}
pub fn ptr_pointer<T: Clone + 'static>(x: &T) {
    step(b"pointers");
    let (a, u) = (Arc::new(x.clone()), Urc::new(x.clone()));
    pointer("Arc", &a, &*a as *const T);
    pointer("Urc", &u, &*u as *const T);
    pointer("clone of Arc", &a.clone(), &*a as *const T);
}
pub fn ptr_default<T: Default + PartialEq + 'static>() {
    step(b"default");
    if *Arc::<T>::default() != T::default() || *Urc::<T>::default() != T::default() {
        bad!(Fwd, "default pointer has another value than the default of the type");
    }
}

// ---------------------------------------------------------------- sequences

pub trait Sq<T: 'static>: Sized + std::ops::Deref<Target = [T]> + std::ops::DerefMut + AsRef<[T]> + AsMut<[T]> {
    const NAME: &'static str;
    fn mk(v: &[T], how: u8) -> Self;
    fn borrows(&mut self) {}
    fn dup(&self) -> Option<Self>;
}
impl<T: Clone + 'static> Sq<T> for LVec<T> {
    const NAME: &'static str = "Vec";
    fn mk(v: &[T], how: u8) -> Self {
        let mut r = LVec::with_capacity(if how == 0 { v.len() } else { v.len() + how as usize });
        v.iter().for_each(|x| r.push(x.clone()));
        r
    }
    fn borrows(&mut self) {
        let p = &**self as *const [T];
        same("Vec", "borrow", Borrow::<[T]>::borrow(self), p);
        same("Vec", "borrow_mut", BorrowMut::<[T]>::borrow_mut(self), p);
        same("Vec", "as_slice", self.as_slice(), p);
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl<T: Clone + 'static, const N: usize> Sq<T> for SmallVec<T, N> {
    const NAME: &'static str = "SmallVec";
    fn mk(v: &[T], how: u8) -> Self {
        let mut r = SmallVec::new();
        v.iter().for_each(|x| r.push(x.clone()));
        if how > 0 {
            r.reserve(N + how as usize);
        }
        r
    }
    fn borrows(&mut self) {
        let p = &**self as *const [T];
        same("SmallVec", "borrow", Borrow::<[T]>::borrow(self), p);
        same("SmallVec", "borrow_mut", BorrowMut::<[T]>::borrow_mut(self), p);
        same("SmallVec", "as_slice", self.as_slice(), p);
        let me = self as *const Self;
        same("SmallVec", "as_ref to itself", AsRef::<SmallVec<T, N>>::as_ref(self), me);
        same("SmallVec", "as_mut to itself", AsMut::<SmallVec<T, N>>::as_mut(self), me);
    }
    fn dup(&self) -> Option<Self> {
        Some(self.clone())
    }
}
impl<T: Clone + 'static> Sq<T> for LBox<[T]> {
    const NAME: &'static str = "boxed slice";
    fn mk(v: &[T], how: u8) -> Self {
        LVec::mk(v, how).into_boxed_slice()
    }
    fn dup(&self) -> Option<Self> {
        None
    }
}

pub fn seq_partial<T: PartialOrd + Debug + Clone + 'static, A: Sq<T> + PartialOrd + Debug>(x: &[T], y: &[T]) {
    let n = A::NAME;
    let t = std::any::type_name::<A>();
    for (i, j) in [(0, 0), (0, 1), (1, 0), (2, 2)] {
        step(format!("{t} {i} {j} {x:?} {y:?}").as_bytes());
        let (mut a, b) = (A::mk(x, i), A::mk(y, j));
        partial(n, &a, &b, x, y);
        partial(n, &a, &a, x, x);
        // Once for each sequence.
        if std::ptr::eq(x, y) {
            debug(n, &a, x);
        }
        if let Some(c) = a.dup() {
            partial("clone", &c, &a, x, x);
            partial("clone", &c, &b, x, y);
            if format!("{c:?}") != format!("{x:?}") {
                bad!(Fwd, "clone of {n} has other elements");
            }
            if !x.is_empty() && size_of::<T>() > 0 && std::ptr::eq(c.as_ptr(), a.as_ptr()) {
                bad!(Fwd, "clone of {n} shares the elements");
            }
        }
        let p = &*a as *const [T];
        same(n, "as_ref", AsRef::<[T]>::as_ref(&a), p);
        same(n, "as_mut", AsMut::<[T]>::as_mut(&mut a), p);
        same(n, "deref_mut", &mut *a, p);
        a.borrows();
        if format!("{a:?}") != format!("{x:?}") {
            bad!(Fwd, "{n} is changed by looking at it");
        }
    }
}
pub fn seq_total<T: Ord + Hash + Debug + Clone + 'static, A: Sq<T> + Ord + Hash + Debug>(x: &[T], y: &[T]) {
    seq_partial::<T, A>(x, y);
    let n = A::NAME;
    for (i, j) in [(0, 0), (0, 1), (1, 0)] {
        let (a, b) = (A::mk(x, i), A::mk(y, j));
        total(n, &a, &b, x, y);
        hash(n, &a, x);
    }
}
pub fn seq_default() {
    step(b"default sequences");
    if !LVec::<u8>::default().is_empty() || !SmallVec::<u8, 2>::default().is_empty() || &*LString::default() != "" {
        bad!(Fwd, "default container is not empty");
    }
}

// ---------------------------------------------------------------- text

pub fn text(x: &str, y: &str) {
    step(format!("{x:?} {y:?}").as_bytes());
    let (mut a, b) = (LString::from(x), LString::from(y));
    partial("String", &a, &b, x, y);
    total("String", &a, &b, x, y);
    partial("String", &a, &a, x, x);
    hash("String", &a, x);
    display("String", &a, x);
    let c = a.clone();
    partial("clone", &c, &b, x, y);
    display("clone", &c, x);
    if !x.is_empty() && std::ptr::eq(c.as_ptr(), a.as_ptr()) {
        bad!(Fwd, "clone of String shares the text");
    }
    let p = &*a as *const str;
    same("String", "as_ref", AsRef::<str>::as_ref(&a), p);
    same("String", "borrow", Borrow::<str>::borrow(&a), p);
    same("String", "as_str", a.as_str(), p);
    same("String", "as_mut", AsMut::<str>::as_mut(&mut a), p);
    same("String", "borrow_mut", BorrowMut::<str>::borrow_mut(&mut a), p);
    same("String", "deref_mut", &mut *a, p);
    same("String", "as_mut_str", a.as_mut_str(), p);
    same("String", "as_bytes", a.as_bytes(), unsafe { &(*p).as_bytes()[..] });
    if &*a != x {
        bad!(Fwd, "String is changed by looking at it");
    }
    let (s, t): (LBox<LString>, Rc<LString>) = (LBox::new(b), Rc::new(a));
    partial("Box of String", &s, &s, y, y);
    hash("Box of String", &s, y);
    hash("Rc of String", &t, x);
    display("Box of String", &s, y);
}

// ---------------------------------------------------------------- forwarded iterators and hashers

#[derive(Clone, Debug)]
pub struct It {
    lo: u32,
    hi: u32,
    /// Steps over the end.
    over: u32,
}
impl Iterator for It {
    type Item = u32;
    fn next(&mut self) -> Option<u32> {
        if self.lo == self.hi {
            self.over += 1;
            return None;
        }
        self.lo += 1;
        Some(self.lo - 1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.hi - self.lo) as usize;
        (n, Some(n))
    }
}
impl DoubleEndedIterator for It {
    fn next_back(&mut self) -> Option<u32> {
        if self.lo == self.hi {
            self.over += 1;
            return None;
        }
        self.hi -= 1;
        Some(self.hi)
    }
}
impl ExactSizeIterator for It {}

const IT_OPS: u64 = 10;
pub fn iter_cases(len: u32) -> u64 {
    5 * IT_OPS.pow(len)
}
pub fn iter_label(mut i: u64, len: u32) -> String {
    let mut s = format!("boxed iterator of {} elements:", i % 5);
    i /= 5;
    for _ in 0..len {
        s += [" next", " next_back", " nth(0)", " nth(1)", " nth(2)", " nth_back(0)", " nth_back(1)", " nth_back(2)", " len", " by_ref().take(2).last()"][(i % IT_OPS) as usize];
        i /= IT_OPS;
    }
    s
}
pub fn iter_case(mut i: u64, len: u32) {
    let it = It { lo: 0, hi: (i % 5) as u32, over: 0 };
    i /= 5;
    let (mut b, mut m) = (LBox::new(it.clone()), it);
    for _ in 0..len {
        let op = i % IT_OPS;
        i /= IT_OPS;
        step(format!("{m:?} {op}").as_bytes());
        fn go(op: u64, it: &mut (impl DoubleEndedIterator<Item = u32> + ExactSizeIterator)) -> Option<u32> {
            match op {
                0 => it.next(),
                1 => it.next_back(),
                2..=4 => it.nth(op as usize - 2),
                5..=7 => it.nth_back(op as usize - 5),
                8 => Some(it.len() as u32),
                _ => it.by_ref().take(2).last(),
            }
        }
        let (x, y) = (go(op, &mut b), go(op, &mut m));
        if x != y || b.lo != m.lo || b.hi != m.hi || b.size_hint() != m.size_hint() || (m.over == 0) != (b.over == 0) {
            bad!(Sem, "boxed iterator gives {x:?} and becomes {:?}, the iterator itself gives {y:?} and becomes {m:?}", *b);
        }
    }
    for e in end::JUMP..=end::LAST {
        let (mut b, mut m) = (LBox::new(m.clone()), m.clone());
        if e == end::JUMP && (b.nth(usize::MAX) != m.nth(usize::MAX) || b.lo != m.lo || b.hi != m.hi) {
            bad!(Sem, "boxed iterator jumps out of the end to {:?}", *b);
        }
        if e == end::JUMP + 1 && (b.nth_back(usize::MAX) != m.nth_back(usize::MAX) || b.lo != m.lo || b.hi != m.hi) {
            bad!(Sem, "boxed iterator jumps out of the end to {:?}", *b);
        }
        let (x, y) = (fin(b, e), fin(m, e));
        if x.got != y.got || x.num != y.num {
            bad!(Sem, "adaptor {e} of the boxed iterator gives {:?} {:?}, of the iterator itself {:?} {:?}", x.got, x.num, y.got, y.num);
        }
    }
    let (mut c, mut n) = (LBox::new(m.clone()), m.clone());
    let all: Vec<u32> = b.collect();
    if all != m.collect::<Vec<_>>() {
        bad!(Sem, "rest of the boxed iterator is {all:?}");
    }
    let all: Vec<u32> = c.by_ref().rev().collect();
    if all != n.by_ref().rev().collect::<Vec<_>>() || c.next() != n.next() {
        bad!(Sem, "reverse rest of the boxed iterator is {all:?}");
    }
}

pub fn hasher(bytes: &[u8]) {
    use std::collections::hash_map::DefaultHasher;
    // All the ways to cut it in pieces.
    for cut in 0..1u32 << bytes.len().saturating_sub(1) {
        let (mut b, mut m) = (LBox::new(DefaultHasher::new()), DefaultHasher::new());
        let (mut c, mut lo) = (LBox::new(Rec::default()), 0);
        for hi in 1..=bytes.len() {
            if hi == bytes.len() || cut >> (hi - 1) & 1 == 1 {
                b.write(&bytes[lo..hi]);
                c.write(&bytes[lo..hi]);
                m.write(&bytes[lo..hi]);
                lo = hi;
            }
            step(&[&bytes[..hi], &cut.to_le_bytes()].concat());
            if b.finish() != m.finish() {
                bad!(Sem, "boxed hasher finishes with another value");
            }
        }
        if c.0 != bytes {
            bad!(Sem, "boxed hasher is written other bytes");
        }
    }
    let mut all = [0; 16];
    for (i, b) in bytes.iter().enumerate() {
        all[15 - i % 16] ^= *b;
        all[i % 16] ^= *b;
    }
    let n = u128::from_le_bytes(all);
    fn ints(h: &mut impl Hasher, n: u128) {
        h.write_u8(n as u8);
        h.write_u16(n as u16);
        h.write_u32(n as u32);
        h.write_u64(n as u64);
        h.write_u128(n);
        h.write_usize(n as usize);
        h.write_i8(n as i8);
        h.write_i16(n as i16);
        h.write_i32(n as i32);
        h.write_i64(n as i64);
        h.write_i128(n as i128);
        h.write_isize(n as isize);
    }
    let (mut b, mut m) = (LBox::new(DefaultHasher::new()), DefaultHasher::new());
    let (mut c, mut d) = (LBox::new(Rec::default()), Rec::default());
    ints(&mut b, n);
    ints(&mut m, n);
    ints(&mut c, n);
    ints(&mut d, n);
    if b.finish() != m.finish() || c.0 != d.0 {
        bad!(Sem, "boxed hasher is written other integers");
    }
}

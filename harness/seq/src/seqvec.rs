//! Model of a growable sequence and the exploration of `Vec` and `SmallVec` against it.

use crate::bad;
use crate::elem::{pair, related, with_relation, callback, quiet, reg, Elem, NOID};
use crate::engine::{catch, outcome, resumes, Fault, World};
use crate::mem::{alloc_no, heap, marker, marker_no, set_scope, Kind, MAX_REQUEST};
use lokky::scope::AllocMarker;
use lokky::small_vec::SmallVec;
use lokky::vec::Vec as LVec;
use lokky::boxed::Box as LBox;
use std::marker::PhantomData;
use std::mem::size_of;
use std::ops::Bound;

/// What differs between `Vec` and `SmallVec`.
pub trait Seq: Sized + 'static + Clone {
    type T: Elem;
    const SMALL: bool;
    const N: usize;
    const KIND: &'static str;
    fn new() -> Self;
    fn with_marker(m: AllocMarker) -> Self;
    fn with_cap(n: usize) -> Self;
    fn with_cap_marker(n: usize, m: AllocMarker) -> Self;
    fn try_with_cap(n: usize) -> Result<Self, ()>;
    fn try_with_cap_marker(n: usize, m: AllocMarker) -> Result<Self, ()>;
    fn default() -> Self;
    fn from_slice(s: &[Self::T]) -> Self;
    fn from_mut_slice(s: &mut [Self::T]) -> Self;
    fn from_arr<const L: usize>(s: [Self::T; L]) -> Self;
    fn from_box(s: LBox<[Self::T]>) -> Self;
    fn from_iter(i: impl Iterator<Item = Self::T>) -> Self;
    fn marker(&self) -> Option<AllocMarker>;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn is_full(&self) -> bool;
    fn spare_len(&self) -> usize;
    fn spare_slice_len(&mut self) -> (usize, usize);
    fn spare_ptrs(&mut self) -> (*const Self::T, *const Self::T);
    fn slice(&self) -> &[Self::T];
    fn mslice(&mut self) -> &mut [Self::T];
    fn ptr(&self) -> *const Self::T;
    fn idx(&self, i: usize) -> &Self::T;
    fn idx_mut(&mut self, i: usize) -> &mut Self::T;
    fn push(&mut self, t: Self::T);
    fn pop(&mut self) -> Option<Self::T>;
    fn insert(&mut self, i: usize, t: Self::T);
    fn remove(&mut self, i: usize) -> Self::T;
    fn swap_remove(&mut self, i: usize) -> Self::T;
    fn truncate(&mut self, n: usize);
    fn clear(&mut self);
    fn reserve(&mut self, n: usize);
    fn reserve_exact(&mut self, n: usize);
    fn try_reserve(&mut self, n: usize) -> Result<(), ()>;
    fn try_reserve_exact(&mut self, n: usize) -> Result<(), ()>;
    fn shrink_to_fit(&mut self);
    fn shrink_to(&mut self, n: usize);
    fn append(&mut self, o: &mut Self);
    fn extend_from_slice(&mut self, s: &[Self::T]);
    fn extend_iter(&mut self, i: impl Iterator<Item = Self::T>);
    fn extend_refs(&mut self, _i: impl Iterator<Item = &'static Self::T>) {}
    fn mut_ptr(&mut self) -> *const Self::T {
        self.mslice().as_ptr()
    }
    fn split_off(&mut self, at: usize) -> Self;
    fn resize(&mut self, n: usize, v: Self::T);
    fn resize_with(&mut self, n: usize, f: impl FnMut() -> Self::T);
    fn retain(&mut self, f: impl FnMut(&Self::T) -> bool);
    fn dedup(&mut self);
    fn dedup_by(&mut self, f: impl FnMut(&mut Self::T, &mut Self::T) -> bool);
    fn dedup_by_key<K: PartialEq>(&mut self, f: impl FnMut(&mut Self::T) -> K);
    fn drain_with<R>(&mut self, a: Bound<usize>, b: Bound<usize>, form: u8, f: impl FnOnce(&mut dyn DrainLike<Self::T>) -> (R, u8)) -> (R, Fin<Self::T>);
    fn copy_from(&mut self, o: &Self) {
        self.clone_from(o)
    }
    fn boxed(self) -> LBox<[Self::T]>;
    fn is_heap(&self) -> bool;
    // Only for one of the types, other does nothing.
    fn v_into_iter_with<R>(self, _f: impl FnOnce(&mut dyn DrainLike<Self::T>) -> (R, u8)) -> Option<(R, Fin<Self::T>)> {
        None
    }
    fn v_leak(self) -> Option<&'static mut [Self::T]> {
        None
    }
    fn v_dealloc(self) {}
    fn v_spare_write(&mut self, _items: Vec<Self::T>) {}
    fn s_move_to_heap(&mut self) {}
    fn s_try_heap_reserve(&mut self, _n: usize) -> Result<(), ()> {
        Ok(())
    }
    fn s_try_stack(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn s_into_vec(self) -> Option<LVec<Self::T>> {
        None
    }
    fn s_from_vec(_v: LVec<Self::T>) -> Option<Self> {
        None
    }
    fn s_split_into(&mut self, _at: usize, _which: u8, _f: &mut dyn FnMut(&[Self::T], usize, bool, usize)) {}
}

pub trait DrainLike<T> {
    fn next(&mut self) -> Option<T>;
    fn next_back(&mut self) -> Option<T>;
    fn nth(&mut self, n: usize) -> Option<T>;
    fn nth_back(&mut self, n: usize) -> Option<T>;
    fn hint(&self) -> (usize, Option<usize>);
    fn exact(&self) -> usize;
    fn slice(&self) -> &[T];
    fn mslice(&mut self) -> Option<&mut [T]>;
}

macro_rules! drain_like {
    ($t:ty, $r:expr, $m:expr, $($g:tt)*) => {
        impl<$($g)*> DrainLike<T> for $t {
            fn next(&mut self) -> Option<T> { Iterator::next(self) }
            fn next_back(&mut self) -> Option<T> { DoubleEndedIterator::next_back(self) }
            fn nth(&mut self, n: usize) -> Option<T> { Iterator::nth(self, n) }
            fn nth_back(&mut self, n: usize) -> Option<T> { DoubleEndedIterator::nth_back(self, n) }
            fn hint(&self) -> (usize, Option<usize>) { self.size_hint() }
            fn exact(&self) -> usize { ExactSizeIterator::len(self) }
            fn slice(&self) -> &[T] {
                let s = self.as_slice();
                if !std::ptr::eq(s, ($r)(self)) {
                    bad!(Sem, "as_ref is not as_slice");
                }
                s
            }
            fn mslice(&mut self) -> Option<&mut [T]> { ($m)(self) }
        }
    };
}
drain_like!(lokky::vec::Drain<'_, T>, |s: &Self| s.as_slice() as *const _, |_: &mut Self| None, T: 'static);
drain_like!(lokky::small_vec::Drain<'_, T, N>, |s: &Self| s.as_slice() as *const _, |_: &mut Self| None, T: 'static, const N: usize);
drain_like!(lokky::vec::IntoIter<T>, |s: &Self| AsRef::<[T]>::as_ref(s) as *const _, |s| Some(lokky::vec::IntoIter::as_slice_mut(s)), T: 'static);

/// How an iterator is given up: dropped, forgotten, after a jump, or by an adaptor that takes it.
pub mod end {
    pub const DROP: u8 = 0;
    pub const FORGET: u8 = 1;
    /// Jumps by 0, 1, 2 and as far as possible from the front, and then from the back.
    pub const JUMP: u8 = 2;
    pub const TAKE: u8 = 10;
    pub const LAST: u8 = 25;
}

/// What the adaptor gave out.
pub struct Fin<T> {
    pub got: Vec<T>,
    pub num: Vec<usize>,
}

pub fn fin<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, e: u8) -> Fin<I::Item> {
    let mut f = Fin { got: Vec::with_capacity(16), num: vec![] };
    let (got, num) = (&mut f.got, &mut f.num);
    match e {
        end::FORGET => std::mem::forget(it),
        0..end::TAKE => {}
        10 => num.push(it.count()),
        11 => got.extend(it.last()),
        12 => num.push(it.fold(0, |n, t| {
            got.push(t);
            callback();
            n + 1
        })),
        13 => num.push(it.rfold(0, |n, t| {
            got.push(t);
            callback();
            n + 1
        })),
        14 => it.for_each(|t| {
            got.push(t);
            callback();
        }),
        15 => *got = it.collect(),
        16 => *got = it.rev().collect(),
        17 => *got = it.skip(1).collect(),
        18 => *got = it.step_by(2).collect(),
        19 => *got = it.rev().step_by(2).collect(),
        20 => {
            let mut n = 0;
            got.extend(it.find(|_| {
                n += 1;
                n == 2
            }));
            num.push(n);
            got.extend(it.next_back());
        }
        21 => {
            let mut n = 0;
            got.extend(it.rfind(|_| {
                n += 1;
                n == 2
            }));
            num.push(n);
            got.extend(it.next());
        }
        22 => {
            let mut n = 0;
            num.extend(it.position(|t| {
                got.push(t);
                n += 1;
                n == 2
            }));
            num.push(it.len());
        }
        23 => {
            let mut n = 0;
            let r = it.all(|t| {
                got.push(t);
                n += 1;
                n != 2
            });
            num.extend([r as usize, it.len()]);
            let mut n = 0;
            num.push(it.any(|t| {
                got.push(t);
                n += 1;
                n == 1
            }) as usize);
        }
        24 => {
            let mut n = 0;
            let r = it.try_rfold(0, |k, t| {
                got.push(t);
                n += 1;
                if n == 2 { Err(k) } else { Ok(k + 1) }
            });
            num.extend([r.unwrap_or_else(|k| k + 100), it.len()]);
            got.extend(it.nth(1));
            got.extend(it.next());
        }
        _ => {
            let (a, b): (Vec<_>, Vec<_>) = it.enumerate().partition(|(i, _)| i % 2 == 0);
            for (i, t) in b.into_iter().chain(a) {
                num.push(i);
                got.push(t);
            }
        }
    }
    f
}

macro_rules! seq_common {
    () => {
        type T = T;
        fn new() -> Self { Self::new() }
        fn with_marker(m: AllocMarker) -> Self { Self::with_marker(m) }
        fn with_cap(n: usize) -> Self { Self::with_capacity(n) }
        fn with_cap_marker(n: usize, m: AllocMarker) -> Self { Self::with_capacity_and_marker(n, m) }
        fn try_with_cap(n: usize) -> Result<Self, ()> { Self::try_with_capacity(n).map_err(|_| ()) }
        fn try_with_cap_marker(n: usize, m: AllocMarker) -> Result<Self, ()> { Self::try_with_capacity_and_marker(n, m).map_err(|_| ()) }
        fn default() -> Self { Default::default() }
        fn from_slice(s: &[T]) -> Self { Self::from(s) }
        fn from_mut_slice(s: &mut [T]) -> Self { Self::from(s) }
        fn from_arr<const L: usize>(s: [T; L]) -> Self { Self::from(s) }
        fn from_box(s: LBox<[T]>) -> Self { Self::from(s) }
        fn from_iter(i: impl Iterator<Item = T>) -> Self { i.collect() }
        fn len(&self) -> usize { self.len() }
        fn cap(&self) -> usize { self.capacity() }
        fn is_empty(&self) -> bool { self.is_empty() }
        fn is_full(&self) -> bool { self.is_full() }
        fn spare_len(&self) -> usize { self.spare_len() }
        fn spare_slice_len(&mut self) -> (usize, usize) { (self.spare_capacity().len(), self.spare_capacity_mut().len()) }
        fn spare_ptrs(&mut self) -> (*const T, *const T) { (self.spare_capacity().as_ptr() as _, self.spare_capacity_mut().as_ptr() as _) }
        fn slice(&self) -> &[T] { self.as_slice() }
        fn mslice(&mut self) -> &mut [T] { self.as_mut_slice() }
        fn ptr(&self) -> *const T { self.as_ptr() }
        fn idx(&self, i: usize) -> &T { &self[i] }
        fn idx_mut(&mut self, i: usize) -> &mut T { &mut self[i] }
        fn push(&mut self, t: T) { self.push(t) }
        fn pop(&mut self) -> Option<T> { self.pop() }
        fn insert(&mut self, i: usize, t: T) { self.insert(i, t) }
        fn remove(&mut self, i: usize) -> T { self.remove(i) }
        fn swap_remove(&mut self, i: usize) -> T { self.swap_remove(i) }
        fn truncate(&mut self, n: usize) { self.truncate(n) }
        fn clear(&mut self) { self.clear() }
        fn reserve(&mut self, n: usize) { self.reserve(n) }
        fn reserve_exact(&mut self, n: usize) { self.reserve_exact(n) }
        fn try_reserve(&mut self, n: usize) -> Result<(), ()> { self.try_reserve(n).map_err(|_| ()) }
        fn try_reserve_exact(&mut self, n: usize) -> Result<(), ()> { self.try_reserve_exact(n).map_err(|_| ()) }
        fn shrink_to_fit(&mut self) { self.shrink_to_fit() }
        fn shrink_to(&mut self, n: usize) { self.shrink_to(n) }
        fn append(&mut self, o: &mut Self) { self.append(o) }
        fn extend_from_slice(&mut self, s: &[T]) { self.extend_from_slice(s) }
        fn split_off(&mut self, at: usize) -> Self { self.split_off(at) }
        fn resize(&mut self, n: usize, v: T) { self.resize(n, v) }
        fn resize_with(&mut self, n: usize, f: impl FnMut() -> T) { self.resize_with(n, f) }
        fn retain(&mut self, f: impl FnMut(&T) -> bool) { self.retain(f) }
        fn dedup(&mut self) { self.dedup() }
        fn dedup_by(&mut self, f: impl FnMut(&mut T, &mut T) -> bool) { self.dedup_by(f) }
        fn dedup_by_key<K: PartialEq>(&mut self, f: impl FnMut(&mut T) -> K) { self.dedup_by_key(f) }
        fn drain_with<R>(&mut self, a: Bound<usize>, b: Bound<usize>, form: u8, f: impl FnOnce(&mut dyn DrainLike<T>) -> (R, u8)) -> (R, Fin<T>) {
            let mut d = match (form, a, b) {
                (1, Bound::Included(a), Bound::Excluded(b)) => self.drain(a..b),
                (1, Bound::Included(a), Bound::Included(b)) => self.drain(a..=b),
                (1, Bound::Unbounded, Bound::Excluded(b)) => self.drain(..b),
                (1, Bound::Included(a), Bound::Unbounded) => self.drain(a..),
                (1, Bound::Unbounded, Bound::Unbounded) => self.drain(..),
                _ => self.drain((a, b)),
            };
            let (r, end) = f(&mut d);
            (r, fin(d, end))
        }
        fn boxed(self) -> LBox<[T]> { self.into_boxed_slice() }
    };
}

impl<T: Elem> Seq for LVec<T> {
    const SMALL: bool = false;
    const N: usize = 0;
    const KIND: &'static str = "Vec";
    seq_common!();
    fn marker(&self) -> Option<AllocMarker> {
        Some(self.marker())
    }
    fn extend_iter(&mut self, i: impl Iterator<Item = T>) {
        self.extend_from_iter(i)
    }
    fn mut_ptr(&mut self) -> *const T {
        self.as_mut()
    }
    fn is_heap(&self) -> bool {
        true
    }
    fn v_into_iter_with<R>(self, f: impl FnOnce(&mut dyn DrainLike<T>) -> (R, u8)) -> Option<(R, Fin<T>)> {
        let mut it = self.into_iter();
        let (r, end) = f(&mut it);
        Some((r, fin(it, end)))
    }
    fn v_leak(self) -> Option<&'static mut [T]> {
        Some(self.leak())
    }
    fn v_dealloc(self) {
        self.dealloc_without_drop()
    }
    fn v_spare_write(&mut self, items: Vec<T>) {
        let n = items.len();
        let len = self.len();
        let sp = self.spare_capacity_mut();
        for (i, t) in items.into_iter().enumerate() {
            sp[i].write(t);
        }
        unsafe { self.set_len(len + n) };
    }
}

impl<T: Elem, const N: usize> Seq for SmallVec<T, N> {
    const SMALL: bool = true;
    const N: usize = N;
    const KIND: &'static str = "SmallVec";
    seq_common!();
    fn marker(&self) -> Option<AllocMarker> {
        None
    }
    fn extend_iter(&mut self, i: impl Iterator<Item = T>) {
        Extend::<T>::extend(self, i)
    }
    fn extend_refs(&mut self, i: impl Iterator<Item = &'static T>) {
        T::extend_small(self, i)
    }
    fn is_heap(&self) -> bool {
        if self.is_heap() == self.is_stack() {
            bad!(Inline, "both inline and on the heap");
        }
        self.is_heap()
    }
    fn s_move_to_heap(&mut self) {
        self.move_to_heap()
    }
    fn s_try_heap_reserve(&mut self, n: usize) -> Result<(), ()> {
        self.try_move_to_heap_and_reserve_exact(n).map_err(|_| ())
    }
    fn s_try_stack(&mut self) -> Result<(), ()> {
        self.try_move_to_stack().map_err(|_| ())
    }
    fn s_into_vec(self) -> Option<LVec<T>> {
        Some(self.into_vec())
    }
    fn s_from_vec(v: LVec<T>) -> Option<Self> {
        Some(Self::from(v))
    }
    fn s_split_into(&mut self, at: usize, which: u8, f: &mut dyn FnMut(&[T], usize, bool, usize)) {
        match which {
            0 => {
                let o = self.split_off_into::<0>(at);
                f(o.as_slice(), 0, o.is_heap(), o.capacity());
            }
            1 => {
                let o = self.split_off_into::<1>(at);
                f(o.as_slice(), 1, o.is_heap(), o.capacity());
            }
            _ => {
                let o = self.split_off_into::<5>(at);
                f(o.as_slice(), 5, o.is_heap(), o.capacity());
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    /// Only in the scaling space: a sequence of this length, spare capacity, storage on the heap.
    Init(u16, u16, bool),
    New(u8),
    WithCap(usize, bool),
    FromArr(u8),
    FromSlice(u8, bool),
    FromIter(u8, u8),
    Push(u8),
    Pop,
    Insert(usize, u8),
    Remove(usize),
    SwapRemove(usize),
    Truncate(usize),
    Clear,
    /// 0 reserve, 1 reserve_exact, 2 try_reserve, 3 try_reserve_exact
    Reserve(u8, usize),
    ShrinkToFit,
    ShrinkTo(usize),
    Append(u8, u8, bool),
    ExtendFromSlice(u8),
    ExtendIter(u8, u8),
    SplitOff(usize, bool),
    SplitOffInto(usize, u8),
    Clone(bool),
    CloneFrom(u8, bool),
    Resize(usize, u8),
    ResizeWith(usize),
    Retain(u32),
    Dedup,
    DedupBy(u32, u8),
    DedupByKey(u8),
    /// By an equality that is any relation of the elements, not only a transitive one. By key?
    DedupRel(u32, bool),
    /// Bounds (0 unbounded, 1 included, 2 excluded) and values, pattern of front (0) and back (1)
    /// steps and their number, and how it is given up
    Drain { ab: (u8, u8), a: usize, b: usize, form: u8, pat: u16, n: u8, end: u8 },
    IntoIter { pat: u16, n: u8, end: u8 },
    Set(usize, u8),
    Boxed(u8),
    Leak,
    DeallocWithoutDrop,
    SpareWrite(u8),
    MoveToHeap,
    HeapReserve(usize),
    MoveToStack,
    IntoVec(u8),
    FromVec(u8, u8),
    /// Switch the current scope
    SetScope(u8),
}

pub mod set {
    pub const BASIC: u32 = 1;
    pub const CAP: u32 = 2;
    pub const RETAIN: u32 = 4;
    pub const DRAIN: u32 = 8;
    pub const ITER: u32 = 16;
    pub const MAKE: u32 = 32;
    pub const BULK: u32 = 64;
    pub const STORE: u32 = 128;
    pub const MARK: u32 = 256;
    /// Only push and clear, to reach the states.
    pub const REACH: u32 = 512;
    pub const HUGE: u32 = 1024;
    pub const ALL: u32 = BASIC | CAP | RETAIN | DRAIN | ITER | MAKE | BULK | STORE;
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub vals: u8,
    pub max_len: usize,
    pub max_cap: usize,
    pub ops: u32,
    /// Lengths for the scaling space.
    pub scaling: Option<Vec<u16>>,
}

pub struct W<C: Seq> {
    c: Option<C>,
    m: Vec<(u32, u8)>,
    cfg: Cfg,
    /// SmallVec may be on the heap
    may_heap: bool,
    marker: u8,
    alloc: u8,
    sc: u8,
    lenient: bool,
    last: Out,
    started: bool,
    probe: usize,
    _p: PhantomData<C>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    Ok,
    Err,
    Panic,
    /// Op finished otherwise.
    Other,
}

/// Harness's own calls: no faults and not counted.
pub fn prep<R>(f: impl FnOnce() -> R) -> R {
    let (fa, rq) = (heap().fail_at, heap().requests);
    heap().fail_at = 0;
    let r = quiet(f);
    heap().fail_at = fa;
    heap().requests = rq;
    r
}

fn mk<T: Elem>(v: u8) -> (T, u32) {
    quiet(|| {
        let t = T::make(v);
        let id = t.id();
        (t, id)
    })
}

/// Iterator that reports different size hints.
struct HIter<T> {
    items: std::collections::VecDeque<T>,
    hint: u8,
}
impl<T> Iterator for HIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        callback();
        self.items.pop_front()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(n + 3)),
            _ => (n + 2, Some(n + 2)),
        }
    }
}
impl<T> Drop for HIter<T> {
    fn drop(&mut self) {
        // Not yielded items are of the harness.
        quiet(|| self.items.clear());
    }
}

struct KeyC(u8);
impl PartialEq for KeyC {
    fn eq(&self, o: &Self) -> bool {
        callback();
        self.0 == o.0
    }
}
/// The key is the element itself, equality is given by `with_relation`.
struct KeyR(u32);
impl PartialEq for KeyR {
    fn eq(&self, o: &Self) -> bool {
        callback();
        related(self.0, o.0).unwrap_or(false)
    }
}

fn bound(k: u8, v: usize) -> Bound<usize> {
    match k {
        0 => Bound::Unbounded,
        1 => Bound::Included(v),
        _ => Bound::Excluded(v),
    }
}

impl<C: Seq> W<C> {
    fn c(&mut self) -> &mut C {
        self.c.as_mut().unwrap()
    }

    fn zst() -> bool {
        size_of::<C::T>() == 0
    }

    /// Value that the model stores for given one.
    fn mv(v: u8) -> u8 {
        if C::T::VALS {
            v
        } else {
            0
        }
    }

    fn ok<R>(&mut self, r: Option<R>, what: &str) -> Option<R> {
        self.last = if r.is_some() { Out::Ok } else { Out::Panic };
        outcome(if r.is_some() { "ok" } else { "panic" });
        if r.is_none() && !self.lenient {
            bad!(Sem, "{what} panicked");
        }
        r
    }

    fn must_panic<R>(&mut self, r: Option<R>, what: &str) {
        self.last = if r.is_some() { Out::Ok } else { Out::Panic };
        outcome("refused");
        if r.is_some() && !self.lenient {
            bad!(Sem, "{what} did not panic");
        }
        quiet(|| drop(r));
    }

    /// Element handed back to the caller must be this one.
    fn got(&mut self, t: C::T, want: (u32, u8), what: &str) {
        quiet(|| {
            t.check();
            if C::T::VALS && t.val() != want.1 {
                bad!(Sem, "{what} gave value {} instead of {}", t.val(), want.1);
            }
            if C::T::IDS && want.0 != NOID && t.id() != want.0 {
                bad!(Sem, "{what} gave element {} instead of {}", t.id(), want.0);
            }
            drop(t)
        })
    }

    fn same_slice(s: &[C::T], want: &[(u32, u8)], what: &str) {
        if s.len() != want.len() {
            bad!(Sem, "{what} has {} elements instead of {}", s.len(), want.len());
        }
        for (i, (t, w)) in s.iter().zip(want).enumerate() {
            t.check();
            if C::T::VALS && t.val() != w.1 {
                bad!(Sem, "{what}: value at {i} is {} instead of {}", t.val(), w.1);
            }
            if C::T::IDS && w.0 != NOID && t.id() != w.0 {
                bad!(Sem, "{what}: element at {i} is {} instead of {}", t.id(), w.0);
            }
        }
    }

    fn distinct(s: &[C::T], what: &str) {
        if C::T::IDS {
            for i in 0..s.len() {
                for j in 0..i {
                    if s[i].id() == s[j].id() {
                        bad!(Own, "{what}: element {} is present twice", s[i].id());
                        return;
                    }
                }
            }
        }
    }

    /// Check of a container against the model.
    fn check_container(c: &mut C, m: &[(u32, u8)], what: &str) {
        let len = c.len();
        Self::same_slice(c.slice(), m, what);
        Self::distinct(c.slice(), what);
        let cap = c.cap();
        if cap < len {
            bad!(Cap, "{what}: capacity {cap} is less than length {len}");
            return;
        }
        if c.is_empty() != (len == 0) {
            bad!(Sem, "{what}: is_empty is wrong");
        }
        if c.is_full() != (len == cap) || c.spare_len() != cap - len {
            bad!(Cap, "{what}: is_full or spare_len disagree with capacity {cap} and length {len}");
        }
        if c.spare_slice_len() != (cap - len, cap - len) {
            bad!(Cap, "{what}: spare capacity slice has length other than {}", cap - len);
        }
        let p = c.ptr();
        if cap > len && !Self::zst() && c.spare_ptrs() != (p.wrapping_add(len), p.wrapping_add(len)) {
            bad!(Mem, "{what}: spare capacity is not right past the elements");
        }
        if c.slice().as_ptr() != p || c.mslice().as_ptr() != p || c.mut_ptr() != p {
            bad!(Sem, "{what}: as_ptr is not the address of the slice");
        }
        if p as usize % std::mem::align_of::<C::T>() != 0 {
            bad!(Mem, "{what}: buffer is misaligned");
        }
        if let Some(f) = c.slice().first() {
            if !std::ptr::eq(f, c.idx(0)) || !std::ptr::eq(&c.slice()[len - 1], c.idx(len - 1)) {
                bad!(Sem, "{what}: index gives other element than the slice");
            }
        }
        let inside = (p as usize) >= (c as *const C as usize) && (p as usize) < (c as *const C as usize) + size_of::<C>();
        if !Self::zst() {
            if c.is_heap() {
                if cap > 0 {
                    match heap().block_of(p as *const u8) {
                        Some(b) if b.ptr as usize == p as usize => {
                            if b.size < cap.saturating_mul(size_of::<C::T>()) {
                                bad!(Cap, "{what}: capacity {cap} is reported for a block of {} bytes", b.size);
                            }
                        }
                        _ => bad!(Mem, "{what}: capacity {cap} is reported but the buffer is not a block obtained from allocator"),
                    }
                }
                if C::SMALL && inside && size_of::<C>() > 0 && cap > 0 {
                    bad!(Inline, "{what}: reported on the heap but it is inline");
                }
            } else {
                if cap != C::N {
                    bad!(Inline, "{what}: inline capacity is {cap} instead of {}", C::N);
                }
                if C::N > 0 && !inside {
                    bad!(Inline, "{what}: reported inline but it is not");
                }
            }
        } else if (!C::SMALL || c.is_heap()) && cap != usize::MAX {
            bad!(Cap, "{what}: capacity for zero-sized elements is {cap}");
        } else if C::SMALL && !c.is_heap() && cap != C::N {
            bad!(Inline, "{what}: inline capacity is {cap} instead of {}", C::N);
        }
    }

    /// Check after an operation.
    fn check(&mut self) {
        if self.lenient {
            return;
        }
        let zst = Self::zst();
        let (sc, alloc, mark, may_heap) = (self.sc, self.alloc, self.marker, self.may_heap);
        let Some(c) = self.c.as_mut() else { return };
        let m = &mut self.m;
        quiet(|| {
            Self::check_container(c, m, "sequence");
            if C::T::IDS && c.len() == m.len() {
                for (e, w) in c.slice().iter().zip(m.iter_mut()) {
                    w.0 = e.id();
                }
            }
            if C::T::COUNTED && C::T::live() != c.len() {
                bad!(Own, "{} elements are alive but {} are owned", C::T::live(), c.len());
            }
            if C::SMALL && c.is_heap() && !may_heap {
                bad!(Inline, "moved to the heap while the elements fit inline");
            }
            if let Some(mk) = c.marker() {
                if marker_no(mk) != mark || mk != marker(mark) {
                    bad!(Sel, "marker is {mk:?} instead of {mark}");
                }
            }
            if !zst && c.is_heap() && c.cap() > 0 {
                if let Some(b) = heap().block_of(c.ptr() as *const u8) {
                    if b.alloc != alloc && !C::SMALL {
                        bad!(Sel, "buffer is from allocator {} instead of {alloc}", b.alloc);
                    }
                    if C::SMALL && b.alloc % 4 != alloc % 4 {
                        bad!(Sel, "buffer is from the allocator for marker {} instead of {}", b.alloc % 4, alloc % 4);
                    }
                }
            }
            let _ = sc;
        });
    }

    /// Take the contents as they are.
    fn resync(&mut self) {
        if let Some(c) = self.c.as_mut() {
            self.m = c.slice().iter().map(|e| (e.id(), Self::mv(e.val()))).collect();
            if C::SMALL {
                self.may_heap = c.is_heap() || self.m.len() > C::N || self.may_heap;
            }
        }
    }

    fn note_len(&mut self, extra: usize) {
        if C::SMALL && self.m.len().saturating_add(extra) > C::N {
            self.may_heap = true;
        }
    }

    fn replace(&mut self, c: Option<C>, m: Vec<(u32, u8)>) {
        self.c = c;
        self.m = m;
        self.may_heap = false;
        self.marker = 0;
        self.alloc = alloc_no(self.sc, 0);
    }

    fn drop_current(&mut self) {
        let c = self.c.take();
        prep(|| drop(c));
        self.m.clear();
    }

    fn ensure(&mut self) {
        if self.c.is_none() {
            prep(|| {
                let c = C::new();
                self.replace(Some(c), vec![]);
            });
        }
    }

    /// Build with given elements.
    fn build(n: usize, cap: usize, heap_: bool, f: impl Fn(usize) -> u8) -> (C, Vec<(u32, u8)>) {
        prep(|| {
            let mut c = C::with_cap(cap);
            if heap_ && C::SMALL {
                c.s_move_to_heap();
                if cap > n {
                    c.reserve_exact(cap);
                }
            }
            let mut m = vec![];
            for i in 0..n {
                let (t, id) = mk::<C::T>(f(i));
                m.push((id, Self::mv(f(i))));
                c.push(t);
            }
            (c, m)
        })
    }

    fn sel_check(&self, from: usize, mark: u8, what: &str) {
        let want = std::any::type_name::<C::T>();
        let log = &heap().sel_log[from.min(heap().sel_log.len())..];
        for (s, sel) in log {
            if *s != self.sc {
                bad!(Sel, "{what}: asked scope {s} while scope {} is current", self.sc);
            }
            if sel.ty() != want {
                bad!(Sel, "{what}: asked an allocator for type {} instead of {want}", sel.ty());
            }
            if marker_no(sel.marker()) != mark || sel.marker() != marker(mark) {
                bad!(Sel, "{what}: asked an allocator with marker {:?} instead of {mark}", sel.marker());
            }
        }
    }

    fn walk(d: &mut dyn DrainLike<C::T>, rest: &mut std::collections::VecDeque<(u32, u8)>, pat: u16, n: u8, e: u8, what: &str) -> Vec<C::T> {
        let mut got = Vec::with_capacity(n as usize + 3);
        // After a jump go on with a step at each end.
        let more = if (end::JUMP..end::TAKE).contains(&e) { 3 } else { 0 };
        for i in 0..=n + more {
            quiet(|| {
                let l = rest.len();
                if d.hint() != (l, Some(l)) || d.exact() != l {
                    bad!(Sem, "{what}: reports {:?} remaining instead of {l}", d.hint());
                }
                let v: Vec<_> = rest.iter().copied().collect();
                Self::same_slice(d.slice(), &v, what);
                if let Some(s) = d.mslice() {
                    Self::same_slice(s, &v, what);
                }
            });
            if i == n + more {
                break;
            }
            let (t, want);
            if i == n {
                let k = [0, 1, 2, usize::MAX][((e - end::JUMP) % 4) as usize];
                let skip = k.min(rest.len());
                if e < end::JUMP + 4 {
                    t = d.nth(k);
                    quiet(|| rest.drain(..skip));
                    want = rest.pop_front();
                } else {
                    t = d.nth_back(k);
                    quiet(|| rest.truncate(rest.len() - skip));
                    want = rest.pop_back();
                }
            } else {
                let back = if i < n { pat >> (i % 16) & 1 == 1 } else { i == n + 2 };
                t = if back { d.next_back() } else { d.next() };
                want = if back { rest.pop_back() } else { rest.pop_front() };
            }
            quiet(|| match (&t, want) {
                (None, None) => {}
                (Some(t), Some(w)) => {
                    t.check();
                    if C::T::VALS && t.val() != w.1 || C::T::IDS && w.0 != NOID && t.id() != w.0 {
                        bad!(Sem, "{what}: yielded {t:?} instead of {}#{}", w.1, w.0);
                    }
                }
                (Some(t), None) => {
                    t.check();
                    bad!(Sem, "{what}: yielded {t:?} after the end")
                }
                (None, Some(w)) => bad!(Sem, "{what}: ended while {}#{} is not yielded", w.1, w.0),
            });
            got.extend(t);
        }
        got
    }

    /// Compare what an adaptor gave out with what it gives out of what has remained.
    fn finished(f: &Fin<C::T>, rest: std::collections::VecDeque<(u32, u8)>, e: u8, what: &str) {
        if e < end::TAKE {
            return;
        }
        quiet(|| {
            let want = fin(rest.into_iter(), e);
            if f.num != want.num {
                bad!(Sem, "{what}: adaptor {e} reports {:?} instead of {:?}", f.num, want.num);
            }
            Self::same_slice(&f.got, &want.got, what);
        });
    }

    /// Mark elements of the model that are not in the container as leaked on purpose.
    fn forgive(&mut self) {
        let r = reg();
        if C::T::IDS {
            let ids: Vec<u32> = self.c.as_ref().map(|c| c.slice().iter().map(|e| e.id()).collect()).unwrap_or_default();
            for i in 0..r.next() {
                if r.is_live(i) && !ids.contains(&i) {
                    r.kill(i);
                }
            }
        } else if C::T::COUNTED {
            r.zlive = self.c.as_ref().map_or(0, |c| c.len()) as isize;
        }
    }

    fn fits(n: usize) -> bool {
        Self::zst() || n.checked_mul(size_of::<C::T>()).is_some_and(|b| b <= MAX_REQUEST)
    }

    fn do_apply(&mut self, op: Op) {
        use Op::*;
        let len = self.m.len();
        self.probe = 0;
        self.last = Out::Other;
        let mut calls0 = heap().calls;
        let sel0 = heap().sel_log.len();
        match op {
            Init(n, slack, h) => {
                self.drop_current();
                calls0 = heap().calls;
                let (c, m) = Self::build(n as usize, (n + slack) as usize, h, |i| (i % 3) as u8);
                self.replace(Some(c), m);
                self.may_heap = h || (n + slack) as usize > C::N;
                self.started = true;
                outcome("ok");
            }
            SetScope(s) => {
                self.sc = s;
                set_scope(s);
            }
            New(k) => {
                self.drop_current();
                calls0 = heap().calls;
                let r = catch(|| match k {
                    0 => C::new(),
                    1 => C::default(),
                    k => C::with_marker(marker((k - 1) % 3)),
                });
                if let Some(c) = self.ok(r, "new") {
                    self.replace(Some(c), vec![]);
                    self.marker = k.saturating_sub(1) % 3;
                    self.alloc = alloc_no(self.sc, self.marker);
                    self.sel_check(sel0, self.marker, "new");
                    if heap().calls != calls0 {
                        bad!(Cap, "new container allocates");
                    }
                }
            }
            WithCap(n, try_) => {
                let mark = if self.cfg.ops & set::MARK != 0 && try_ { 1 } else { 0 };
                let with_mark = mark != 0;
                self.drop_current();
                calls0 = heap().calls;
                let r = catch(|| match (try_, with_mark) {
                    (false, false) => Ok(C::with_cap(n)),
                    (true, false) => C::try_with_cap(n),
                    (false, true) => Ok(C::with_cap_marker(n, marker(mark))),
                    (true, true) => C::try_with_cap_marker(n, marker(mark)),
                });
                let must = Self::fits(n) || C::SMALL && n <= C::N;
                match r {
                    Some(Ok(c)) => {
                        self.last = Out::Ok;
                        outcome("ok");
                        if !must && !self.lenient {
                            bad!(Cap, "with_capacity({n}) succeeded though there is no such memory");
                        }
                        let cap = c.cap();
                        if cap < n {
                            bad!(Cap, "with_capacity({n}) gave capacity {cap}");
                        }
                        self.replace(Some(c), vec![]);
                        self.marker = mark;
                        self.alloc = alloc_no(self.sc, mark);
                        self.sel_check(sel0, mark, "with_capacity");
                        self.note_len(n);
                        self.probe = n;
                    }
                    Some(Err(())) => {
                        self.last = Out::Err;
                        outcome("error");
                        if must && !self.lenient {
                            bad!(Cap, "try_with_capacity({n}) failed");
                        }
                    }
                    None => {
                        self.last = Out::Panic;
                        outcome("panic");
                        if must && !self.lenient || try_ && self.lenient && reg().panic_at == 0 {
                            bad!(Cap, "with_capacity({n}) panicked");
                        }
                    }
                }
                self.ensure();
            }
            FromArr(n) => {
                self.drop_current();
                calls0 = heap().calls;
                let (ids, r) = {
                    let mut ids = vec![];
                    let mut next = |v: u8| {
                        let (t, id) = mk::<C::T>(v);
                        ids.push((id, Self::mv(v)));
                        t
                    };
                    let r = match n {
                        0 => catch(|| C::from_arr::<0>([])),
                        1 => {
                            let a = [next(1)];
                            catch(|| C::from_arr(a))
                        }
                        2 => {
                            let a = [next(0), next(1)];
                            catch(|| C::from_arr(a))
                        }
                        3 => {
                            let a = [next(1), next(0), next(0)];
                            catch(|| C::from_arr(a))
                        }
                        _ => {
                            let a = [next(1), next(0), next(0), next(1), next(1)];
                            catch(|| C::from_arr(a))
                        }
                    };
                    (ids, r)
                };
                if let Some(c) = self.ok(r, "from array") {
                    self.replace(Some(c), ids);
                    self.sel_check(sel0, 0, "from array");
                    self.note_len(0);
                }
                self.ensure();
            }
            FromSlice(n, mu) => {
                self.drop_current();
                calls0 = heap().calls;
                let (mut src, vals): (Vec<C::T>, Vec<_>) = (0..n).map(|i| (mk(i % 2).0, (NOID, Self::mv(i % 2)))).unzip();
                let r = catch(|| if mu { C::from_mut_slice(&mut src) } else { C::from_slice(&src) });
                quiet(|| drop(src));
                if let Some(c) = self.ok(r, "from slice") {
                    self.replace(Some(c), vals);
                    self.sel_check(sel0, 0, "from slice");
                    self.note_len(0);
                }
                self.ensure();
            }
            FromIter(n, hint) => {
                self.drop_current();
                calls0 = heap().calls;
                let (items, ids): (std::collections::VecDeque<C::T>, Vec<_>) = (0..n)
                    .map(|i| {
                        let (t, id) = mk(i % 2);
                        (t, (id, Self::mv(i % 2)))
                    })
                    .unzip();
                let r = catch(|| C::from_iter(HIter { items, hint }));
                if let Some(c) = self.ok(r, "from_iter") {
                    self.replace(Some(c), ids);
                    self.note_len(if hint == 3 { 2 } else { 0 });
                }
                self.ensure();
            }
            Push(v) => {
                let (t, id) = mk::<C::T>(v);
                let (cap0, p0) = (self.c().cap(), self.c().ptr());
                let r = catch(|| self.c().push(t));
                if self.ok(r, "push").is_some() {
                    self.m.push((id, Self::mv(v)));
                    self.note_len(0);
                    if cap0 > len && (heap().calls != calls0 || self.c().ptr() != p0) && !self.lenient && !Self::zst() {
                        bad!(Cap, "push moved the buffer or called allocator though capacity was {cap0} for {len} elements");
                    }
                }
            }
            Pop => {
                let r = catch(|| self.c().pop());
                if let Some(t) = self.ok(r, "pop") {
                    match (t, self.m.pop()) {
                        (Some(t), Some(w)) => self.got(t, w, "pop"),
                        (None, None) => {}
                        (Some(t), None) => {
                            bad!(Sem, "pop gave {t:?} from empty sequence");
                            quiet(|| drop(t));
                        }
                        (None, Some(_)) => bad!(Sem, "pop gave nothing"),
                    }
                }
            }
            Insert(i, v) => {
                let (t, id) = mk::<C::T>(v);
                let r = catch(|| self.c().insert(i, t));
                if i > len {
                    self.must_panic(r, "insert");
                } else if self.ok(r, "insert").is_some() {
                    self.m.insert(i, (id, Self::mv(v)));
                    self.note_len(0);
                }
            }
            Remove(i) => {
                let r = catch(|| self.c().remove(i));
                if i >= len {
                    self.must_panic(r, "remove");
                } else if let Some(t) = self.ok(r, "remove") {
                    let w = self.m.remove(i);
                    self.got(t, w, "remove");
                }
            }
            SwapRemove(i) => {
                let r = catch(|| self.c().swap_remove(i));
                if i >= len {
                    self.must_panic(r, "swap_remove");
                } else if let Some(t) = self.ok(r, "swap_remove") {
                    let w = self.m.swap_remove(i);
                    self.got(t, w, "swap_remove");
                }
            }
            Truncate(n) => {
                let r = catch(|| self.c().truncate(n));
                if self.ok(r, "truncate").is_some() {
                    self.m.truncate(n);
                }
            }
            Clear => {
                let r = catch(|| self.c().clear());
                if self.ok(r, "clear").is_some() {
                    self.m.clear();
                }
            }
            Reserve(form, n) => {
                let (cap0, p0) = (self.c().cap(), self.c().ptr());
                let r = catch(|| match form {
                    0 => Ok(self.c().reserve(n)),
                    1 => Ok(self.c().reserve_exact(n)),
                    2 => self.c().try_reserve(n),
                    _ => self.c().try_reserve_exact(n),
                });
                let need = len.checked_add(n);
                let must = need.is_some_and(|need| need <= cap0 || Self::fits(need));
                // Error is expected, not a panic, if only the allocator refuses.
                let refused = need.is_some_and(|n| n.checked_mul(size_of::<C::T>()).is_some_and(|b| b < isize::MAX as usize / 8));
                self.last = match &r {
                    Some(Ok(())) => Out::Ok,
                    Some(Err(())) => Out::Err,
                    None => Out::Panic,
                };
                outcome(match &r {
                    Some(Ok(())) => "ok",
                    Some(Err(())) => "error",
                    None => "panic",
                });
                let cap = self.c().cap();
                if !self.lenient {
                    match r {
                        Some(Ok(())) if !must => bad!(Cap, "reserve of {n} succeeded though there is no such memory, capacity is {cap}"),
                        Some(Ok(())) => {
                            if cap < need.unwrap() {
                                bad!(Cap, "capacity is {cap} after reserving {n} for {len} elements");
                            }
                            if need.unwrap() <= cap0 && (heap().calls != calls0 || self.c().ptr() != p0) && !Self::zst() {
                                bad!(Cap, "reserve of {n} for {len} elements calls allocator though capacity is {cap0} already");
                            }
                        }
                        _ if must && n <= isize::MAX as usize => bad!(Cap, "reserve of {n} for {len} elements failed"),
                        None if form >= 2 && refused && n <= isize::MAX as usize => bad!(Cap, "try_reserve panicked when allocator refused"),
                        _ => {}
                    }
                }
                if self.last == Out::Ok {
                    self.note_len(n);
                    self.probe = n;
                }
            }
            ShrinkToFit | ShrinkTo(_) => {
                let cap0 = self.c().cap();
                let min = if let ShrinkTo(n) = op { n } else { 0 };
                let r = catch(|| match op {
                    ShrinkTo(n) => self.c().shrink_to(n),
                    _ => self.c().shrink_to_fit(),
                });
                if self.ok(r, "shrink").is_some() {
                    let cap = self.c().cap();
                    let want = len.max(min).min(cap0);
                    if self.c().is_heap() && !Self::zst() && cap != want {
                        bad!(Cap, "capacity is {cap} instead of {want} after shrinking from {cap0} with {len} elements");
                    }
                }
            }
            Append(n, spare, h) => {
                let (mut o, om) = Self::build(n as usize, (n + spare) as usize, h, |i| (i % 2) as u8);
                let r = catch(|| self.c().append(&mut o));
                let ok = self.ok(r, "append").is_some();
                if ok {
                    self.m.extend(om);
                    self.note_len(0);
                    prep(|| {
                        if o.len() != 0 || o.pop().is_some() {
                            bad!(Sem, "the other sequence is not empty after append");
                        }
                        let (t, id) = mk::<C::T>(1);
                        o.push(t);
                        Self::same_slice(o.slice(), &[(id, Self::mv(1))], "the other sequence after append");
                    });
                } else if !reg_panicked() {
                    quiet(|| Self::same_slice(o.slice(), &om, "the other sequence after failed append"));
                }
                // Part of the operation to catch double destruction.
                prep(|| drop(o));
            }
            ExtendFromSlice(n) => {
                let src: Vec<C::T> = (0..n).map(|i| mk(i % 2).0).collect();
                let r = catch(|| self.c().extend_from_slice(&src));
                quiet(|| drop(src));
                if self.ok(r, "extend_from_slice").is_some() {
                    self.m.extend((0..n).map(|i| (NOID, Self::mv(i % 2))));
                    self.note_len(0);
                }
            }
            ExtendIter(n, hint @ 4..) => {
                let items = (0..n).map(|i| C::T::by_ref(i % 2).unwrap()).collect();
                let r = catch(|| self.c().extend_refs(HIter { items, hint: hint - 4 }));
                if self.ok(r, "extend by references").is_some() {
                    self.m.extend((0..n).map(|i| (NOID, Self::mv(i % 2))));
                    self.note_len(if hint == 7 { 2 } else { 0 });
                }
            }
            ExtendIter(n, hint) => {
                let (items, ids): (std::collections::VecDeque<C::T>, Vec<_>) = (0..n)
                    .map(|i| {
                        let (t, id) = mk(i % 2);
                        (t, (id, Self::mv(i % 2)))
                    })
                    .unzip();
                let r = catch(|| self.c().extend_iter(HIter { items, hint }));
                if self.ok(r, "extend").is_some() {
                    self.m.extend(ids);
                    self.note_len(if hint == 3 { 2 } else { 0 });
                }
            }
            SplitOff(at, keep) => {
                let r = catch(|| self.c().split_off(at));
                if let Some(mut o) = self.ok(r, "split_off") {
                    let om = if at > len { vec![] } else { self.m.split_off(at) };
                    quiet(|| Self::check_container(&mut o, &om, "split off part"));
                    if C::SMALL && o.is_heap() && om.len() <= C::N {
                        bad!(Inline, "split off part of {} elements is on the heap", om.len());
                    }
                    if keep {
                        let c = self.c.replace(o);
                        prep(|| drop(c));
                        self.m = om;
                        self.may_heap = self.m.len() > C::N;
                        self.marker = 0;
                        self.alloc = alloc_no(self.sc, 0);
                    } else {
                        prep(|| drop(o));
                    }
                }
            }
            SplitOffInto(at, which) => {
                let om: Vec<_> = if at > len { vec![] } else { self.m[at..].to_vec() };
                let om2 = om.clone();
                let r = catch(|| {
                    self.c().s_split_into(at, which, &mut |s, n, h, cap| {
                        quiet(|| {
                            Self::same_slice(s, &om2, "split off part");
                            Self::distinct(s, "split off part");
                            if om2.len() <= n && h || om2.len() > n && !h && !Self::zst() {
                                bad!(Inline, "split off part of {} elements with inline capacity {n} is at a wrong place", om2.len());
                            }
                            if cap < om2.len() || !h && cap != n {
                                bad!(Cap, "split off part has capacity {cap} for {} elements", om2.len());
                            }
                        })
                    })
                });
                if self.ok(r, "split_off_into").is_some() && at < len {
                    self.m.truncate(at);
                }
            }
            Clone(keep) => {
                let r = catch(|| self.c().clone());
                if let Some(mut o) = self.ok(r, "clone") {
                    let om: Vec<_> = self.m.iter().map(|m| (NOID, m.1)).collect();
                    quiet(|| {
                        Self::check_container(&mut o, &om, "clone");
                        let live: usize = self.c().len() + o.len();
                        if C::T::COUNTED && C::T::live() != live {
                            bad!(Own, "{} elements are alive but {} are owned after clone", C::T::live(), live);
                        }
                        if C::T::IDS {
                            for t in o.slice() {
                                if self.m.iter().any(|m| m.0 == t.id()) {
                                    bad!(Own, "element {} is in the clone as it is", t.id());
                                }
                            }
                        }
                    });
                    if C::SMALL && o.is_heap() && om.len() <= C::N {
                        bad!(Inline, "clone of {} elements is on the heap", om.len());
                    }
                    if keep {
                        let c = self.c.replace(o);
                        prep(|| drop(c));
                        self.m = om;
                        self.may_heap = self.m.len() > C::N;
                        if let Some(mk) = self.c().marker() {
                            self.marker = marker_no(mk);
                            self.alloc = alloc_no(self.sc, self.marker);
                        } else {
                            self.alloc = alloc_no(self.sc, 0);
                        }
                    } else {
                        prep(|| drop(o));
                    }
                }
            }
            CloneFrom(n, h) => {
                let (o, om) = Self::build(n as usize, n as usize, h, |i| (i % 2) as u8);
                let r = catch(|| self.c.as_mut().unwrap().copy_from(&o));
                quiet(|| Self::same_slice(o.slice(), &om, "the source of clone_from"));
                if self.ok(r, "clone_from").is_some() {
                    self.m = om.iter().map(|m| (NOID, m.1)).collect();
                    self.may_heap |= n as usize > C::N;
                    quiet(|| {
                        if C::T::COUNTED && C::T::live() != 2 * o.len() {
                            bad!(Own, "{} elements are alive but {} are owned after clone_from", C::T::live(), 2 * o.len());
                        }
                        for t in self.c().slice() {
                            if C::T::IDS && om.iter().any(|m| m.0 == t.id()) {
                                bad!(Own, "element {} is in the copy as it is", t.id());
                            }
                        }
                    });
                }
                prep(|| drop(o));
            }
            Resize(n, v) => {
                let (t, id) = mk::<C::T>(v);
                let r = catch(|| self.c().resize(n, t));
                if self.ok(r, "resize").is_some() {
                    let _ = id;
                    self.m.resize(n, (NOID, Self::mv(v)));
                    self.note_len(0);
                }
            }
            ResizeWith(n) => {
                let mut ids = vec![];
                let r = catch(|| {
                    self.c.as_mut().unwrap().resize_with(n, || {
                        callback();
                        let (t, id) = mk::<C::T>(ids.len() as u8 % 2);
                        ids.push((id, Self::mv(ids.len() as u8 % 2)));
                        t
                    })
                });
                if self.ok(r, "resize_with").is_some() {
                    if ids.len() != n.saturating_sub(len) {
                        bad!(Sem, "resize_with called the generator {} times instead of {}", ids.len(), n.saturating_sub(len));
                    }
                    self.m.truncate(n);
                    self.m.extend(ids);
                    self.note_len(0);
                }
            }
            Retain(mask) => {
                let mut i = 0;
                let m = self.m.clone();
                let keep = |i: usize| keep_bit(mask, i, len);
                let r = catch(|| {
                    self.c.as_mut().unwrap().retain(|e| {
                        callback();
                        quiet(|| {
                            e.check();
                            match m.get(i) {
                                Some(w) if C::T::VALS && e.val() != w.1 || C::T::IDS && e.id() != w.0 => {
                                    bad!(Sem, "retain passed {e:?} instead of {}#{} to the predicate", w.1, w.0)
                                }
                                Some(_) => {}
                                None => bad!(Sem, "retain called the predicate too many times"),
                            }
                        });
                        i += 1;
                        keep(i - 1)
                    })
                });
                if self.ok(r, "retain").is_some() {
                    if i != len {
                        bad!(Sem, "retain called the predicate {i} times instead of {len}");
                    }
                    let mut j = 0;
                    self.m.retain(|_| {
                        j += 1;
                        keep(j - 1)
                    });
                }
            }
            Dedup => {
                let r = catch(|| self.c().dedup());
                if self.ok(r, "dedup").is_some() {
                    self.m.dedup_by_key(|m| m.1);
                }
            }
            DedupBy(mask, mutate) => {
                // Reference run, the changes are seen in what is kept.
                let mut want: Vec<(u32, u8)> = vec![];
                let mut calls: Vec<((u32, u8), (u32, u8))> = vec![];
                for (i, e) in self.m.iter().enumerate() {
                    if i == 0 {
                        want.push(*e);
                        continue;
                    }
                    let mut e = *e;
                    let l = want.last_mut().unwrap();
                    calls.push((e, *l));
                    if mutate & 1 != 0 {
                        l.1 = Self::mv(l.1 ^ 4);
                    }
                    if mutate & 2 != 0 {
                        e.1 = Self::mv(e.1 ^ 8);
                    }
                    if !keep_bit(mask, i, len) {
                        continue;
                    }
                    want.push(e);
                }
                let mut n = 0;
                let r = catch(|| {
                    self.c.as_mut().unwrap().dedup_by(|e, l| {
                        callback();
                        quiet(|| {
                            e.check();
                            l.check();
                            match calls.get(n) {
                                Some((we, wl)) => {
                                    let wrong = |t: &C::T, w: &(u32, u8)| C::T::VALS && t.val() != w.1 || C::T::IDS && t.id() != w.0;
                                    if wrong(e, we) || wrong(l, wl) {
                                        bad!(Sem, "dedup_by compared {e:?} with {l:?} instead of {}#{} with {}#{}", we.1, we.0, wl.1, wl.0);
                                    }
                                }
                                None => bad!(Sem, "dedup_by called the closure too many times"),
                            }
                            if mutate & 1 != 0 {
                                l.set_val(l.val() ^ 4);
                            }
                            if mutate & 2 != 0 {
                                e.set_val(e.val() ^ 8);
                            }
                        });
                        n += 1;
                        !keep_bit(mask, n, len)
                    })
                });
                if self.ok(r, "dedup_by").is_some() {
                    if n != calls.len() {
                        bad!(Sem, "dedup_by called the closure {n} times instead of {}", calls.len());
                    }
                    self.m = want;
                    if mutate != 0 {
                        // Get back to the alphabet of values.
                        prep(|| self.normalize());
                    }
                }
            }
            DedupRel(mask, by_key) => {
                let ids: Vec<u32> = self.m.iter().map(|m| m.0).collect();
                let mut keep: Vec<usize> = vec![];
                for i in 0..len {
                    if keep.last().is_none_or(|k| mask >> pair(*k, i) & 1 == 0) {
                        keep.push(i);
                    }
                }
                let r = with_relation(mask, ids, || {
                    catch(|| {
                        if by_key {
                            self.c().dedup_by_key(|e| {
                                callback();
                                KeyR(e.id())
                            })
                        } else {
                            self.c().dedup()
                        }
                    })
                });
                if self.ok(r, "dedup").is_some() {
                    self.m = keep.iter().map(|i| self.m[*i]).collect();
                }
            }
            DedupByKey(mode) => {
                let key = |v: u8| match mode {
                    0 => v,
                    1 => v / 2,
                    _ => v,
                };
                let r = catch(|| {
                    self.c.as_mut().unwrap().dedup_by_key(|e| {
                        callback();
                        quiet(|| {
                            e.check();
                            let k = key(e.val() & 3);
                            if mode == 2 {
                                e.set_val(e.val() | 16);
                            }
                            KeyC(k)
                        })
                    })
                });
                if self.ok(r, "dedup_by_key").is_some() {
                    self.m.dedup_by_key(|m| key(m.1));
                    if mode == 2 {
                        for m in &mut self.m {
                            m.1 = Self::mv(m.1 | 16);
                        }
                        prep(|| self.normalize());
                    }
                }
            }
            Drain { ab, a, b, form, pat, n, end: e } => {
                let forget = e == end::FORGET;
                let lo = match ab.0 {
                    0 => Some(0),
                    1 => Some(a),
                    _ => a.checked_add(1),
                };
                let hi = match ab.1 {
                    0 => Some(len),
                    1 => b.checked_add(1),
                    _ => Some(b),
                };
                let good = match (lo, hi) {
                    (Some(lo), Some(hi)) if lo <= hi && hi <= len => Some((lo, hi)),
                    _ => None,
                };
                let mut rest: std::collections::VecDeque<_> = good.map(|(lo, hi)| self.m[lo..hi].iter().copied().collect()).unwrap_or_default();
                let r = {
                    let (rest, good) = (&mut rest, good.is_some());
                    catch(|| {
                        self.c.as_mut().unwrap().drain_with(bound(ab.0, a), bound(ab.1, b), form, |d| {
                            if !good {
                                return (vec![], end::DROP);
                            }
                            (Self::walk(d, rest, pat, n, e, "drain"), e)
                        })
                    })
                };
                match good {
                    None => self.must_panic(r, "drain of a range out of bounds"),
                    Some((lo, hi)) => {
                        if let Some((mut got, f)) = self.ok(r, "drain") {
                            Self::finished(&f, rest, e, "drain");
                            quiet(|| got.extend(f.got));
                            if forget {
                                // Anything may be lost but nothing may be exposed.
                                quiet(|| {
                                    Self::distinct(self.c().slice(), "sequence after leaked drain");
                                    let c = self.c.as_mut().unwrap();
                                    for t in c.slice() {
                                        t.check();
                                        let yielded = got.iter().any(|g| C::T::IDS && g.id() == t.id());
                                        if C::T::IDS && !self.m.iter().any(|m| m.0 == t.id()) || yielded {
                                            bad!(Own, "{t:?} is exposed after leaked drain");
                                        }
                                    }
                                    if !C::T::IDS && c.len() + got.len() > len {
                                        bad!(Own, "moved out elements are exposed after leaked drain");
                                    }
                                });
                                quiet(|| drop(got));
                                quiet(|| {
                                    self.resync();
                                    self.forgive();
                                });
                            } else {
                                quiet(|| Self::distinct(&got, "yielded elements"));
                                quiet(|| drop(got));
                                self.m.drain(lo..hi);
                            }
                        }
                    }
                }
            }
            IntoIter { pat, n, end: e } => {
                let forget = e == end::FORGET;
                let c = self.c.take().unwrap();
                let p = c.ptr() as *const u8;
                let mut rest: std::collections::VecDeque<_> = self.m.iter().copied().collect();
                let r = {
                    let rest = &mut rest;
                    catch(|| c.v_into_iter_with(|d| (Self::walk(d, rest, pat, n, e, "into_iter"), e)))
                };
                if let Some(Some((mut got, f))) = self.ok(r, "into_iter") {
                    Self::finished(&f, rest, e, "into_iter");
                    quiet(|| got.extend(f.got));
                    quiet(|| Self::distinct(&got, "yielded elements"));
                    quiet(|| drop(got));
                    if forget {
                        heap().forgive(p);
                        self.forgive();
                    }
                }
                if C::T::COUNTED && C::T::live() != 0 && !self.lenient {
                    bad!(Own, "{} elements are alive after the iterator is gone", C::T::live());
                }
                if !forget && heap().outstanding() != 0 && !self.lenient {
                    bad!(Mem, "buffer is not released with the iterator");
                }
                self.m.clear();
                self.ensure();
            }
            Set(i, v) => {
                let r = catch(|| {
                    let e = self.c().idx_mut(i);
                    quiet(|| e.set_val(v))
                });
                if i >= len {
                    self.must_panic(r, "index");
                } else if self.ok(r, "index").is_some() {
                    self.m[i].1 = Self::mv(v);
                }
            }
            Boxed(k) => {
                let c = self.c.take().unwrap();
                let (sc, mark, al) = (self.sc, self.marker, self.alloc);
                let r = catch(|| c.boxed());
                if let Some(b) = self.ok(r, "into_boxed_slice") {
                    let m = std::mem::take(&mut self.m);
                    quiet(|| {
                        Self::same_slice(&b, &m, "boxed slice");
                        Self::distinct(&b, "boxed slice");
                        if C::T::COUNTED && C::T::live() != b.len() {
                            bad!(Own, "{} elements are alive but boxed slice has {}", C::T::live(), b.len());
                        }
                    });
                    match k {
                        0 => quiet(|| drop(b)),
                        _ => {
                            let c = prep(|| C::from_box(b));
                            if c.cap() < m.len() {
                                bad!(Cap, "capacity is {} for {} elements of boxed slice", c.cap(), m.len());
                            }
                            self.replace(Some(c), m);
                            self.may_heap = true;
                            self.marker = mark;
                            self.alloc = al;
                        }
                    }
                } else {
                    self.m.clear();
                }
                let _ = sc;
                self.ensure();
            }
            Leak => {
                let c = self.c.take().unwrap();
                let r = catch(|| c.v_leak());
                if let Some(Some(s)) = self.ok(r, "leak") {
                    let m = std::mem::take(&mut self.m);
                    quiet(|| {
                        Self::same_slice(s, &m, "leaked slice");
                        if C::T::COUNTED && C::T::live() != s.len() {
                            bad!(Own, "{} elements are alive but {} are leaked", C::T::live(), s.len());
                        }
                        heap().forgive_all();
                        for t in s.iter_mut() {
                            unsafe { std::ptr::drop_in_place(t) };
                        }
                    });
                }
                self.ensure();
            }
            DeallocWithoutDrop => {
                let c = self.c.take().unwrap();
                let d0 = reg().drops;
                let r = catch(|| c.v_dealloc());
                if self.ok(r, "dealloc_without_drop").is_some() {
                    if reg().drops != d0 {
                        bad!(Own, "dealloc_without_drop destroyed elements");
                    }
                    if heap().outstanding() != 0 {
                        bad!(Mem, "dealloc_without_drop did not release the buffer");
                    }
                    self.forgive();
                    self.m.clear();
                }
                self.ensure();
            }
            SpareWrite(n) => {
                let (items, ids): (Vec<C::T>, Vec<_>) = (0..n)
                    .map(|i| {
                        let (t, id) = mk(i % 2);
                        (t, (id, Self::mv(i % 2)))
                    })
                    .unzip();
                let r = catch(|| self.c().v_spare_write(items));
                if self.ok(r, "spare_capacity_mut").is_some() {
                    self.m.extend(ids);
                }
            }
            MoveToHeap => {
                let r = catch(|| self.c().s_move_to_heap());
                if self.ok(r, "move_to_heap").is_some() {
                    self.may_heap = true;
                    if !self.c().is_heap() {
                        bad!(Inline, "not on the heap after move_to_heap");
                    }
                }
            }
            HeapReserve(n) => {
                let r = catch(|| self.c().s_try_heap_reserve(n));
                let need = len.checked_add(n);
                let must = need.is_some_and(Self::fits);
                self.last = match &r {
                    Some(Ok(())) => Out::Ok,
                    Some(Err(())) => Out::Err,
                    None => Out::Panic,
                };
                if !self.lenient {
                    match r {
                        Some(Ok(())) => {
                            let cap = self.c().cap();
                            if !must || cap < need.unwrap() {
                                bad!(Cap, "move to heap with reserve of {n} for {len} elements gave capacity {cap}");
                            }
                            if !self.c().is_heap() {
                                bad!(Inline, "not on the heap after moving there");
                            }
                        }
                        _ if must => bad!(Cap, "move to heap with reserve of {n} failed"),
                        _ => {}
                    }
                }
                if self.last == Out::Ok {
                    self.may_heap = true;
                    self.probe = n;
                }
            }
            MoveToStack => {
                let was = self.c().is_heap();
                let r = catch(|| self.c().s_try_stack());
                let fits = !was || len <= C::N;
                if let Some(r) = self.ok(r, "try_move_to_stack") {
                    if r.is_ok() != fits {
                        bad!(Inline, "try_move_to_stack of {len} elements gave {r:?}");
                    }
                    if r.is_ok() == self.c().is_heap() {
                        bad!(Inline, "try_move_to_stack gave {r:?} but the elements are not there");
                    }
                    if r.is_ok() {
                        self.may_heap = false;
                        self.note_len(0);
                        if was && heap().outstanding() != 0 {
                            bad!(Mem, "buffer is not released after moving to the stack");
                        }
                    }
                }
            }
            IntoVec(k) => {
                let c = self.c.take().unwrap();
                let al = self.alloc;
                let r = catch(|| c.s_into_vec());
                if let Some(Some(mut v)) = self.ok(r, "into_vec") {
                    let m = std::mem::take(&mut self.m);
                    quiet(|| W::<LVec<C::T>>::check_container(&mut v, &m, "vector"));
                    if k == 0 {
                        quiet(|| drop(v));
                    } else {
                        let c = catch(|| C::s_from_vec(v)).flatten();
                        if let Some(c) = c {
                            self.replace(Some(c), m);
                            self.may_heap = true;
                            self.alloc = al;
                        }
                    }
                } else {
                    self.m.clear();
                }
                self.ensure();
            }
            FromVec(n, spare) => {
                self.drop_current();
                calls0 = heap().calls;
                let (v, m) = W::<LVec<C::T>>::build(n as usize, (n + spare) as usize, true, |i| (i % 2) as u8);
                let r = catch(|| C::s_from_vec(v)).flatten();
                if let Some(c) = self.ok(r, "from Vec") {
                    self.replace(Some(c), m);
                    self.may_heap = true;
                }
                self.ensure();
            }
        }
        // Without the room needed beyond inline one there is nothing to call allocator for.
        if C::SMALL && !self.may_heap && !self.lenient && heap().calls != calls0 && !matches!(op, MoveToStack | Init(..) | New(_)) {
            let replaced = matches!(op, WithCap(..) | FromArr(_) | FromSlice(..) | FromIter(..) | Boxed(_) | IntoVec(_) | FromVec(..));
            let other = matches!(op, Append(..) | SplitOff(..) | Clone(_) | CloneFrom(..) | SplitOffInto(..));
            // Old heap container may be released when replaced, other container be prepared.
            let large = matches!(op, Reserve(_, n) if n > C::N - len) || matches!(op, HeapReserve(_));
            if !replaced && !other && !large {
                bad!(Inline, "allocator is called though the elements fit inline");
            }
        }
        // Vec always uses the allocator it was created with.
        if self.cfg.ops & set::MARK != 0 && !C::SMALL && !self.lenient {
            if let Push(_) | Insert(..) | Reserve(..) | ShrinkTo(_) | ShrinkToFit | ExtendFromSlice(_) | Resize(..) | ExtendIter(..) = op {
                let before = heap().sel_log.len();
                if before != sel0 {
                    for (s, sel) in &heap().sel_log[sel0..] {
                        if *s != self.sc || marker_no(sel.marker()) != self.marker {
                            bad!(Sel, "growth asked for other allocator: scope {s}, {sel:?}");
                        }
                    }
                }
            }
        }
        self.check();
    }

    /// Bring the values back to the alphabet.
    fn normalize(&mut self) {
        let vals = self.cfg.vals.max(1);
        let c = self.c.as_mut().unwrap();
        if c.len() != self.m.len() {
            return;
        }
        // First compare, values are lost after.
        Self::same_slice(c.slice(), &self.m, "sequence after dedup");
        for (e, m) in c.mslice().iter_mut().zip(&mut self.m) {
            let v = (m.1 & 3) % vals;
            e.set_val(v);
            m.1 = Self::mv(v);
        }
    }
}

fn reg_panicked() -> bool {
    reg().panicked > 0
}

/// Bit of the mask. Long sequences have special masks.
fn keep_bit(mask: u32, i: usize, len: usize) -> bool {
    if len <= 12 {
        mask >> i & 1 == 1
    } else {
        match mask {
            0 => false,
            1 => true,
            2 => i % 2 == 0,
            3 => i % 2 == 1,
            4 => i % 7 != 3,
            m => {
                let at = ((m - 8) / 2) as usize;
                (i == at) == (m % 2 == 1)
            }
        }
    }
}

impl<C: Seq> World for W<C> {
    type Op = Op;
    type Cfg = Cfg;

    fn name(cfg: &Cfg) -> String {
        format!(
            "{}<{}{}> vals={} len<={} cap<={} ops={:#x}{}",
            C::KIND,
            C::T::NAME,
            if C::SMALL { format!(",{}", C::N) } else { String::new() },
            cfg.vals,
            cfg.max_len,
            cfg.max_cap,
            cfg.ops,
            if cfg.scaling.is_some() { " scaling" } else { "" }
        )
    }

    fn new(cfg: &Cfg) -> Self {
        let mut w = W {
            c: None,
            m: vec![],
            cfg: cfg.clone(),
            may_heap: false,
            marker: 0,
            alloc: 0,
            sc: 0,
            lenient: false,
            last: Out::Other,
            started: false,
            probe: 0,
            _p: PhantomData,
        };
        w.ensure();
        w.check();
        w
    }

    fn ops(&self, out: &mut Vec<Op>) {
        use Op::*;
        let cfg = &self.cfg;
        let len = self.m.len();
        if let Some(lens) = &cfg.scaling {
            if !self.started {
                for &n in lens {
                    for s in [0, 1, 2, 5] {
                        out.push(Init(n, s, false));
                        if C::SMALL {
                            out.push(Init(n, s, true));
                        }
                    }
                }
                return;
            }
        }
        let sc = cfg.scaling.is_some();
        let vals = if C::T::VALS { cfg.vals } else { 1 };
        let room = if sc { 300 } else { cfg.max_len.saturating_sub(len) };
        let o = cfg.ops;
        if o & set::REACH != 0 {
            if room > 0 {
                for v in 0..vals {
                    out.push(Push(v));
                }
            }
            out.push(Reserve(1, 1));
        }
        if o & set::BASIC != 0 {
            if room > 0 {
                for v in 0..vals {
                    out.push(Push(v));
                }
                for i in 0..=len {
                    for v in 0..vals.min(if sc { 1 } else { 3 }) {
                        out.push(Insert(i, v));
                    }
                }
            }
            out.push(Pop);
            out.push(Insert(len + 1, 0));
            out.push(Insert(usize::MAX, 0));
            for i in 0..=len {
                out.push(Remove(i));
                out.push(SwapRemove(i));
                out.push(Truncate(i));
                out.push(Set(i, (i % 2) as u8));
            }
            out.push(Truncate(len + 1));
            out.push(Truncate(usize::MAX));
            out.push(Remove(usize::MAX));
            out.push(SwapRemove(usize::MAX));
            out.push(Clear);
        }
        if o & set::CAP != 0 {
            // Capacity is bounded to keep the space finite.
            let cap = self.c.as_ref().map_or(0, |c| c.cap());
            let cap = if Self::zst() { 0 } else { cap };
            let lim = if sc { 40 } else { 3 };
            for n in 0..=lim {
                for f in 0..4 {
                    if sc || len + n <= cfg.max_cap && (n <= cap.saturating_sub(len) || cap * 2 <= cfg.max_cap || f & 1 == 1) {
                        out.push(Reserve(f, n));
                    }
                }
            }
            if o & set::HUGE != 0 {
                let sz = size_of::<C::T>().max(1);
                for n in [usize::MAX, usize::MAX - len, usize::MAX - len + (len > 0) as usize, isize::MAX as usize, (isize::MAX as usize / sz).wrapping_add(1), isize::MAX as usize / sz - len, usize::MAX / sz, (usize::MAX / sz).wrapping_add(1), (usize::MAX / sz).wrapping_add(2), 1 << 40] {
                    for f in 0..4 {
                        out.push(Reserve(f, n));
                    }
                    if C::SMALL {
                        out.push(HeapReserve(n));
                    }
                }
            }
            out.push(ShrinkToFit);
            for n in 0..=(if sc { 8 } else { cap + 1 }) {
                out.push(ShrinkTo(if sc && n > 4 { len + n - 5 } else { n }));
            }
            if len == 0 || o & set::MAKE == 0 {
                for n in 0..=(if sc { 70 } else { cfg.max_cap.min(C::N + 3) }) {
                    out.push(WithCap(n, false));
                    out.push(WithCap(n, true));
                }
                if o & set::HUGE != 0 {
                    let sz = size_of::<C::T>().max(1);
                    for n in [usize::MAX, isize::MAX as usize, (isize::MAX as usize / sz).wrapping_add(1), (usize::MAX / sz).wrapping_add(1), (usize::MAX / sz).wrapping_add(2), 1 << 40] {
                        out.push(WithCap(n, false));
                        out.push(WithCap(n, true));
                    }
                }
            }
        }
        if o & set::BULK != 0 {
            for n in 0..=room.min(3) as u8 {
                for s in [0, 1] {
                    out.push(Append(n, s, false));
                    if C::SMALL {
                        out.push(Append(n, s, true));
                    }
                }
                out.push(ExtendFromSlice(n));
                for h in 0..if C::SMALL && C::T::by_ref(0).is_some() { 8 } else { 4 } {
                    out.push(ExtendIter(n, h));
                }
            }
            for n in 0..=(len + room.min(3)) {
                for v in 0..vals.min(if sc { 1 } else { 2 }) {
                    out.push(Resize(n, v));
                }
                out.push(ResizeWith(n));
            }
            for at in 0..=len + 1 {
                out.push(SplitOff(at, false));
                out.push(SplitOff(at, true));
                if C::SMALL {
                    for w in 0..3 {
                        out.push(SplitOffInto(at, w));
                    }
                }
            }
            out.push(Clone(false));
            out.push(Clone(true));
            if o & set::MARK == 0 {
                for n in 0..=cfg.max_len.min(3) as u8 {
                    out.push(CloneFrom(n, false));
                    if C::SMALL && n > 0 {
                        out.push(CloneFrom(n, true));
                    }
                }
            }
            if !C::SMALL && !sc {
                let c = self.c.as_ref().unwrap();
                let sp = if Self::zst() { 2 } else { c.cap() - len };
                for n in 1..=sp.min(room).min(2) {
                    out.push(SpareWrite(n as u8));
                }
            }
        }
        if o & set::RETAIN != 0 {
            if len <= 12 {
                for mask in 0..1u32 << len {
                    out.push(Retain(mask));
                }
            } else {
                for mask in 0..5 {
                    out.push(Retain(mask));
                    out.push(DedupBy(mask, 0));
                }
                for at in 0..len as u32 {
                    out.push(Retain(8 + at * 2));
                    out.push(Retain(9 + at * 2));
                    out.push(DedupBy(8 + at * 2, 0));
                    out.push(DedupBy(9 + at * 2, 0));
                }
            }
            out.push(Dedup);
            if len <= 12 {
                for mask in 0..(1u32 << len.saturating_sub(1)) {
                    for mu in 0..(if C::T::VALS { 4 } else { 1 }) {
                        out.push(DedupBy(mask << 1 | 1, mu));
                    }
                }
            }
            if (2..=4).contains(&len) && C::T::IDS {
                for mask in 0..1u32 << (len * (len - 1) / 2) {
                    out.push(DedupRel(mask, false));
                    out.push(DedupRel(mask, true));
                }
            }
            out.push(DedupByKey(0));
            out.push(DedupByKey(1));
            if len >= 2 && C::T::VALS {
                out.push(DedupByKey(2));
            }
        }
        let pats = |k: usize, full: bool| {
            let mut v = vec![];
            // One more step than there are elements.
            for n in 0..=(k + 1) {
                if full {
                    for pat in 0..(1u16 << n) {
                        v.push((pat, n as u8));
                    }
                } else {
                    v.push((0, n as u8));
                    if n > 0 {
                        v.push((u16::MAX, n as u8));
                        v.push((0x5555, n as u8));
                    }
                }
            }
            v
        };
        if o & set::DRAIN != 0 {
            if sc {
                for e in end::JUMP..=end::LAST {
                    out.push(Drain { ab: (1, 2), a: 0, b: len, form: 1, pat: 2, n: 0, end: e });
                    out.push(Drain { ab: (1, 2), a: len / 3, b: len - len / 4, form: 1, pat: 2, n: 1.min((len - len / 4 - len / 3) as u8), end: e });
                }
                for a in 0..=len {
                    for w in [0, 1, 2, len / 2, len] {
                        if a + w <= len {
                            out.push(Drain { ab: (1, 2), a, b: a + w, form: 1, pat: 2, n: 2.min(w as u8), end: 0 });
                        }
                    }
                }
            } else {
                for a in 0..=len {
                    for b in a..=len {
                        let k = b - a;
                        for (pat, n) in pats(k, k <= 3) {
                            out.push(Drain { ab: (1, 2), a, b, form: 1, pat, n, end: 0 });
                        }
                        for n in 0..=k as u8 {
                            out.push(Drain { ab: (1, 2), a, b, form: 1, pat: 2, n, end: 1 });
                        }
                        for e in end::JUMP..=end::LAST {
                            for n in [0, 1, 2] {
                                if n == 0 || n < k as u8 {
                                    out.push(Drain { ab: (1, 2), a, b, form: 1, pat: 2, n, end: e });
                                }
                            }
                        }
                        if b > a {
                            out.push(Drain { ab: (1, 1), a, b: b - 1, form: 1, pat: 1, n: 1, end: 0 });
                        }
                        if a > 0 {
                            out.push(Drain { ab: (2, 2), a: a - 1, b, form: 0, pat: 0, n: 1, end: 0 });
                        }
                    }
                    out.push(Drain { ab: (1, 0), a, b: 0, form: 1, pat: 0, n: 1, end: 0 });
                    out.push(Drain { ab: (0, 2), a: 0, b: a, form: 1, pat: 1, n: 1, end: 0 });
                    out.push(Drain { ab: (0, 1), a: 0, b: a, form: 0, pat: 1, n: 0, end: 0 });
                }
                out.push(Drain { ab: (0, 0), a: 0, b: 0, form: 1, pat: 0, n: 0, end: 0 });
            }
            for (ab, a, b) in [
                ((1, 2), len + 1, len + 1),
                ((1, 2), 0, len + 1),
                ((1, 2), len, len + 1),
                ((1, 2), 1, 0),
                ((1, 2), len + 1, len),
                ((1, 1), 0, len),
                ((1, 1), 0, usize::MAX),
                ((2, 0), usize::MAX, 0),
                ((1, 0), len + 1, 0),
                ((0, 2), 0, len + 1),
                ((1, 2), usize::MAX, usize::MAX),
                ((0, 1), 0, usize::MAX),
            ] {
                out.push(Drain { ab, a, b, form: 0, pat: 0, n: 0, end: 0 });
            }
        }
        if o & set::ITER != 0 && !C::SMALL {
            for (pat, n) in pats(len, len <= 4) {
                out.push(IntoIter { pat, n, end: 0 });
            }
            for n in 0..=len.min(3) as u8 {
                out.push(IntoIter { pat: 2, n, end: 1 });
            }
            for e in end::JUMP..=end::LAST {
                for n in 0..=len.min(2) as u8 {
                    out.push(IntoIter { pat: 2, n, end: e });
                }
            }
            if !sc {
                out.push(IntoIter { pat: 0, n: len as u8 + 3, end: 0 });
                out.push(IntoIter { pat: u16::MAX, n: len as u8 + 3, end: 0 });
            }
        }
        if o & set::STORE != 0 {
            out.push(Boxed(0));
            out.push(Boxed(1));
            if C::SMALL {
                out.push(MoveToHeap);
                for n in 0..=2 {
                    out.push(HeapReserve(n));
                }
                out.push(MoveToStack);
                out.push(IntoVec(0));
                out.push(IntoVec(1));
                if len == 0 {
                    for n in 0..=(C::N as u8 + 1).min(cfg.max_len as u8) {
                        out.push(FromVec(n, 0));
                        out.push(FromVec(n, 1));
                    }
                }
            } else {
                out.push(Leak);
                out.push(DeallocWithoutDrop);
            }
        }
        if o & set::MAKE != 0 && (len == 0 || sc) {
            out.push(New(0));
            out.push(New(1));
            for n in [0, 1, 2, 3, 5u8] {
                if (n as usize) <= cfg.max_len || sc {
                    out.push(FromArr(n));
                }
            }
            for n in 0..=(cfg.max_len as u8).min(C::N as u8 + 2).max(2) {
                out.push(FromSlice(n, false));
                out.push(FromSlice(n, true));
                for h in 0..4 {
                    out.push(FromIter(n, h));
                }
            }
        }
        if o & set::MARK != 0 {
            for s in 0..2 {
                if s != self.sc {
                    out.push(SetScope(s));
                }
            }
            for k in 2..=4 {
                out.push(New(k));
            }
        }
    }

    fn apply(&mut self, op: Op) {
        self.do_apply(op)
    }

    fn apply_fault(&mut self, op: Op, fault: Fault) {
        let before = self.m.clone();
        let v0 = heap().viol.len();
        self.lenient = true;
        match fault {
            Fault::Panic(k) => reg().panic_at = k,
            Fault::Alloc(k) => heap().fail_at = k,
            Fault::None => {}
        }
        self.do_apply(op);
        reg().panic_at = 0;
        heap().fail_at = 0;
        self.lenient = false;
        self.ensure();
        // What the caller sees goes by the checks below.
        let mut v = std::mem::take(&mut heap().viol);
        let tail = v.split_off(v0.min(v.len()));
        v.extend(tail.into_iter().filter(|(k, _)| matches!(k, Kind::Own | Kind::Mem)));
        heap().viol = v;
        match fault {
            Fault::Panic(_) => {
                prep(|| {
                    let c = self.c.as_mut().unwrap();
                    if c.len() > c.cap() {
                        bad!(Fault, "length {} is more than capacity {}", c.len(), c.cap());
                        return;
                    }
                    for t in c.slice() {
                        t.check();
                    }
                    Self::distinct(c.slice(), "sequence after a panic");
                    if C::T::COUNTED && !C::T::IDS && C::T::live() < c.len() {
                        bad!(Own, "more elements are exposed than are alive after a panic");
                    }
                    self.resync();
                    self.forgive();
                });
                if !heap().viol.is_empty() {
                    return;
                }
                if resumes() {
                    prep(|| self.normalize());
                    // A panic in a destructor may leave memory of others than the sequence behind.
                    let p = self.c().ptr() as *const u8;
                    heap().forgive_others(p);
                    return;
                }
                // Remains usable.
                for o in [Op::Push(1), Op::Insert(0, 0), Op::Pop, Op::Remove(0), Op::Push(0)] {
                    self.do_apply(o);
                }
            }
            Fault::Alloc(_) => {
                if heap().failed == 0 {
                    bad!(Fault, "harness: failure was not injected");
                }
                let out = self.last;
                if out == Out::Ok || out == Out::Other {
                    bad!(Fault, "failed allocation is not reported");
                    return;
                }
                let is_try = matches!(op, Op::Reserve(2 | 3, _) | Op::WithCap(_, true) | Op::HeapReserve(_));
                if is_try && out == Out::Panic {
                    bad!(Fault, "failed allocation made the try_ form panic");
                }
                let prefix = matches!(op, Op::ExtendIter(..) | Op::ExtendFromSlice(..));
                let consumes = matches!(
                    op,
                    Op::Boxed(_) | Op::IntoVec(_) | Op::New(_) | Op::WithCap(..) | Op::FromArr(_) | Op::FromSlice(..) | Op::FromIter(..) | Op::FromVec(..) | Op::IntoIter { .. }
                );
                prep(|| {
                    let want = if consumes { vec![] } else { before };
                    let n = want.len();
                    let c = self.c.as_mut().unwrap();
                    if prefix && c.len() >= n {
                        Self::same_slice(&c.slice()[..n], &want, "sequence after failed allocation");
                    } else {
                        Self::same_slice(c.slice(), &want, "sequence after failed allocation");
                    }
                    Self::distinct(c.slice(), "sequence after failed allocation");
                    if c.cap() < c.len() {
                        bad!(Fault, "capacity {} is less than length {} after failed allocation", c.cap(), c.len());
                    }
                    self.resync();
                });
                self.check();
                if resumes() {
                    return;
                }
                // A later retry can succeed.
                let retry = match op {
                    Op::Boxed(_) | Op::IntoVec(_) | Op::FromVec(..) => Op::Push(0),
                    o => o,
                };
                if heap().viol.is_empty() {
                    self.do_apply(retry);
                }
                for v in &mut heap().viol {
                    v.0 = Kind::Fault;
                }
            }
            Fault::None => {}
        }
    }

    fn expand(&self) -> bool {
        if self.cfg.scaling.is_some() {
            return true;
        }
        let cap = self.c.as_ref().map_or(0, |c| c.cap());
        self.m.len() <= self.cfg.max_len && (Self::zst() || cap <= self.cfg.max_cap.max(C::N))
    }

    fn key(&self, out: &mut Vec<u8>) {
        let Some(c) = self.c.as_ref() else { return };
        out.push(self.started as u8);
        out.extend((c.cap() as u32).to_le_bytes());
        out.push(c.is_heap() as u8 | (self.may_heap as u8) << 1);
        out.extend([self.marker, self.alloc, self.sc]);
        for m in &self.m {
            out.push(m.1);
        }
    }

    fn finish(mut self, _last: Option<Op>, fault: Fault) {
        // What was reserved can be used.
        if self.probe > 0 && self.probe <= 80 && fault == Fault::None && heap().viol.is_empty() {
            let (c0, p0) = (heap().calls, self.c().ptr());
            for _ in 0..self.probe {
                let (t, _) = mk::<C::T>(0);
                if catch(|| self.c().push(t)).is_none() {
                    bad!(Cap, "push into reserved space panicked");
                    break;
                }
            }
            if (heap().calls != c0 || self.c().ptr() != p0) && !Self::zst() {
                bad!(Cap, "allocator is called or the buffer is moved while adding {} elements that were reserved", self.probe);
            }
        }
        let c = self.c.take();
        let r = catch(|| drop(c));
        if r.is_none() {
            bad!(Own, "destruction of the sequence panicked");
        }
        if fault == Fault::None || matches!(fault, Fault::Alloc(_)) {
            if C::T::COUNTED && C::T::live() != 0 {
                bad!(Own, "{} elements are never destroyed", C::T::live());
            }
            heap().check_leaks();
        }
        heap().check_blocks();
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol {
                v.0 = Kind::Fault;
            }
        }
    }
}

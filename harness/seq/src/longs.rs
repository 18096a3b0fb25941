//! Long sequences: built in one way, changed by one operation, and compared with the model.
//! Lengths surround the bounds of narrow integer types.

use crate::bad;
use crate::elem::{Elem, NOID};
use crate::engine::step;
use crate::mem::heap;
use crate::seqvec::{end, fin, Fin, Seq};
use std::mem::size_of;
use std::ops::Bound::{self, *};

/// Lengths of sequences whose elements take space and the ones whose elements take a byte or none.
pub fn lens(thorough: bool, long: bool) -> Vec<usize> {
    match (thorough, long) {
        (false, false) => (65..=270).chain([511, 512, 513]).collect(),
        (true, false) => (65..=530).chain([767, 1023, 1024, 1025]).collect(),
        (false, true) => vec![127, 128, 129, 255, 256, 257, 65535, 65536, 65537],
        (true, true) => (65..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65534, 65535, 65536, 65537]).collect(),
    }
}

const BUILDS: u64 = 10;
const BUILD: [&str; BUILDS as usize] = [
    "push", "extend_from_slice by parts", "extend", "extend with no size hint", "resize", "append of two halves", "insert at the front", "exact capacity and push", "collect",
    "insert in the middle",
];
const OPS: u64 = 46;
const OP: [&str; OPS as usize] = [
    "remove first", "remove middle", "remove last", "swap_remove first", "swap_remove middle", "truncate to 0", "truncate to 1", "truncate to half", "truncate by 1", "split_off at 0",
    "split_off at 1", "split_off half", "split_off last", "drain first", "drain first half", "drain second half", "drain inner", "drain all", "drain forward and back", "retain even",
    "retain none", "retain all", "retain last", "retain first", "dedup", "dedup_by_key", "clone", "into_boxed_slice", "shrink_to_fit", "shrink_to half", "pop all", "push as many", "insert first", "insert middle",
    "reserve as many", "extend_from_slice of itself", "clear and refill", "resize to double", "resize to half", "into_vec", "move to heap and back", "consume as iterator", "resize_with", "append of another",
    "dedup_by", "drain by three",
];

pub fn cases(lens: &[usize]) -> u64 {
    lens.len() as u64 * BUILDS * OPS
}

fn split(i: u64, lens: &[usize]) -> (usize, u64, u64) {
    (lens[(i / OPS / BUILDS) as usize], i / OPS % BUILDS, i % OPS)
}

pub fn label(i: u64, lens: &[usize]) -> String {
    let (n, b, o) = split(i, lens);
    format!("{n} elements by {}, then {}", BUILD[b as usize], OP[o as usize])
}

fn val(i: usize) -> u8 {
    // Runs of 1, 2, 3 equal values.
    (i / 6 * 3 + [0, 1, 1, 2, 2, 2][i % 6] + i / 256 * 7) as u8
}

type M = Vec<(u32, u8)>;

fn of<T: Elem>(t: &T) -> (u32, u8) {
    (t.id(), t.val())
}

fn compare<C: Seq>(c: &C, m: &M, what: &str) {
    let s = c.slice();
    if s.len() != m.len() || c.len() != m.len() || c.is_empty() != m.is_empty() {
        bad!(Sem, "{what}: length is {} (slice of {}) instead of {}", c.len(), s.len(), m.len());
        return;
    }
    if c.cap() < c.len() || c.spare_len() != c.cap() - c.len() || c.is_full() != (c.cap() == c.len()) {
        bad!(Cap, "{what}: capacity {} and spare {} for length {}", c.cap(), c.spare_len(), c.len());
    }
    if C::SMALL && !c.is_heap() && c.cap() != C::N && size_of::<C::T>() != 0 {
        bad!(Inline, "{what}: inline capacity is {}", c.cap());
    }
    for (i, (t, x)) in s.iter().zip(m).enumerate() {
        t.check();
        let y = of(t);
        if C::T::VALS && y.1 != x.1 || C::T::IDS && y.0 != x.0 {
            bad!(Sem, "{what}: element {i} is {y:?} instead of {x:?} of {}", m.len());
            return;
        }
    }
    step(format!("{} {what} {} {}", C::KIND, m.len(), c.cap()).as_bytes());
}

/// Items and the model of these.
fn items<T: Elem>(n: usize, from: usize) -> (Vec<T>, M) {
    let v: Vec<T> = (from..from + n).map(|i| T::make(val(i))).collect();
    let m = v.iter().map(of).collect();
    (v, m)
}

/// Clones get new identity, the values are to be the given ones.
fn adopt<C: Seq>(c: &C, from: usize, m: &mut M, vals: &[u8], what: &str) {
    let s = c.slice();
    if s.len() != from + vals.len() {
        bad!(Sem, "{what}: length is {} instead of {}", s.len(), from + vals.len());
        return;
    }
    for (t, &v) in s[from..].iter().zip(vals) {
        if C::T::IDS && m.iter().any(|x| x.0 == t.id()) && m.len() < 64 {
            bad!(Own, "{what}: clone is the same element");
        }
        m.push((if C::T::IDS { t.id() } else { NOID }, v));
    }
}

struct NoHint<I>(I);
impl<I: Iterator> Iterator for NoHint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}

/// Growth by one at each push is allowed, and would take too much memory here.
fn push_all<C: Seq>(c: &mut C, v: Vec<C::T>) {
    let part = v.len() / 8 + 1;
    for (i, t) in v.into_iter().enumerate() {
        if i == 10 || i > 10 && i % part == 0 {
            c.reserve(part);
        }
        c.push(t)
    }
}

fn build<C: Seq>(n: usize, b: u64) -> (C, M) {
    let mut m: M = vec![];
    let mut c = C::new();
    match b {
        0 | 7 => {
            if b == 7 {
                c = C::with_cap(n);
                if c.cap() < n {
                    bad!(Cap, "with_capacity({n}) gave {}", c.cap());
                }
            }
            let (v, vm) = items::<C::T>(n, 0);
            let cap = c.cap();
            if b == 7 {
                for t in v {
                    c.push(t)
                }
            } else {
                push_all(&mut c, v)
            }
            if b == 7 && c.cap() != cap {
                bad!(Cap, "capacity changed from {cap} to {} at push of no more than that", c.cap());
            }
            m = vm;
        }
        1 => {
            let mut i = 0;
            let step = n / 8 + 1;
            while i < n {
                let k = step.min(n - i);
                let (v, vm) = items::<C::T>(k, i);
                c.extend_from_slice(&v);
                let vals: Vec<u8> = vm.iter().map(|x| x.1).collect();
                adopt(&c, i, &mut m, &vals, "extend_from_slice");
                i += k;
            }
        }
        2 | 3 => {
            let (v, vm) = items::<C::T>(n, 0);
            if b == 2 {
                c.extend_iter(v.into_iter())
            } else {
                c.reserve(n);
                c.extend_iter(NoHint(v.into_iter()))
            }
            m = vm;
        }
        4 => {
            let (mut v, vm) = items::<C::T>(1, 2);
            c.resize(n, v.pop().unwrap());
            adopt(&c, 0, &mut m, &vec![vm[0].1; n], "resize");
        }
        5 => {
            let (v, vm) = items::<C::T>(n / 2, 0);
            let (w, wm) = items::<C::T>(n - n / 2, n / 2);
            c.extend_iter(v.into_iter());
            let mut o = C::new();
            o.extend_iter(w.into_iter());
            c.append(&mut o);
            if o.len() != 0 {
                bad!(Sem, "append left {} elements", o.len());
            }
            m = vm;
            m.extend(wm);
        }
        6 | 9 => {
            // The room is made in advance, as insert may grow by one.
            c.reserve(n);
            let (v, vm) = items::<C::T>(n, 0);
            if n > 1000 {
                // Too long to be done one by one.
                let k = n - 20;
                for (i, t) in v.into_iter().enumerate() {
                    if i < k {
                        c.push(t);
                        m.push(vm[i]);
                    } else {
                        let at = if b == 6 { 0 } else { c.len() / 2 };
                        c.insert(at, t);
                        m.insert(at, vm[i]);
                    }
                }
            } else {
                for (i, t) in v.into_iter().enumerate() {
                    let at = if b == 6 { 0 } else { c.len() / 2 };
                    c.insert(at, t);
                    m.insert(at, vm[i]);
                }
            }
        }
        _ => {
            let (v, vm) = items::<C::T>(n, 0);
            c = C::from_iter(v.into_iter());
            m = vm;
        }
    }
    (c, m)
}

pub fn case<C: Seq>(i: u64, lens: &[usize]) {
    let (n, b, o) = split(i, lens);
    let (c, m) = build::<C>(n, b);
    compare(&c, &m, BUILD[b as usize]);
    if !heap().viol.is_empty() {
        return std::mem::forget(c);
    }
    change(c, m, n, o);
    if !heap().viol.is_empty() {
        return;
    }
    heap().check_leaks();
    heap().check_blocks();
    if C::T::COUNTED && C::T::live() != 0 {
        bad!(Own, "{} elements are never destroyed", C::T::live());
    }
}

fn taken<T: Elem>(t: T, x: (u32, u8), what: &str) {
    t.check();
    let y = of(&t);
    if T::VALS && y.1 != x.1 || T::IDS && y.0 != x.0 {
        bad!(Sem, "{what}: gave {y:?} instead of {x:?}");
        std::mem::forget(t);
    }
}

fn drain<C: Seq>(c: &mut C, m: &mut M, a: Bound<usize>, b: Bound<usize>, back: u8, what: &str) {
    let mut gone: std::collections::VecDeque<_> = m.drain((a, b)).collect();
    let (e, f) = c.drain_with(a, b, 0, |d| {
        let mut k = 0;
        loop {
            k += 1;
            if d.exact() != gone.len() || d.hint() != (gone.len(), Some(gone.len())) {
                bad!(Sem, "{what}: tells {:?} and {} when {} are left", d.hint(), d.exact(), gone.len());
            }
            let last = match back {
                0 => false,
                1 => k % 2 == 0,
                _ => k % 3 == 0,
            };
            // Leaves the middle ones to the destructor.
            if back == 2 && k > 40 {
                let e = ENDS[gone.len() % ENDS.len()];
                return (e, e);
            }
            let (t, x) = if last { (d.next_back(), gone.pop_back()) } else { (d.next(), gone.pop_front()) };
            match (t, x) {
                (None, None) => return (end::DROP, end::DROP),
                (Some(t), Some(x)) => taken(t, x, what),
                (t, x) => {
                    bad!(Sem, "{what}: gave {:?} instead of {x:?}", t.as_ref().map(of));
                    std::mem::forget(t);
                    return (end::FORGET, end::FORGET);
                }
            }
            if !heap().viol.is_empty() {
                return (end::FORGET, end::FORGET);
            }
        }
    });
    finished(f, gone, e, what);
}

const ENDS: [u8; 17] = [end::DROP, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25];

fn finished<T: Elem>(f: Fin<T>, rest: std::collections::VecDeque<(u32, u8)>, e: u8, what: &str) {
    if e < end::TAKE {
        return;
    }
    let want = fin(rest.into_iter(), e);
    if f.num != want.num || f.got.len() != want.got.len() {
        bad!(Sem, "{what}: adaptor {e} reports {:?} and gives {} elements instead of {:?} and {}", f.num, f.got.len(), want.num, want.got.len());
        return std::mem::forget(f.got);
    }
    for (t, x) in f.got.into_iter().zip(want.got) {
        taken(t, x, what);
    }
}

fn change<C: Seq>(mut c: C, mut m: M, n: usize, o: u64) {
    let what = OP[o as usize];
    let h = n / 2;
    let vals: Vec<u8> = m.iter().map(|x| x.1).collect();
    match o {
        0..=2 => {
            let at = [0, h, n - 1][o as usize];
            taken(c.remove(at), m.remove(at), what);
        }
        3 | 4 => {
            let at = [0, h][o as usize - 3];
            taken(c.swap_remove(at), m.swap_remove(at), what);
        }
        5..=8 => {
            let to = [0, 1, h, n - 1][o as usize - 5];
            c.truncate(to);
            m.truncate(to);
        }
        9..=12 => {
            let at = [0, 1, h, n - 1][o as usize - 9];
            let p = c.split_off(at);
            compare(&p, &m.split_off(at), "split_off part");
            if !heap().viol.is_empty() {
                return std::mem::forget((c, p));
            }
        }
        13 => drain(&mut c, &mut m, Included(0), Excluded(1), 0, what),
        14 => drain(&mut c, &mut m, Unbounded, Excluded(h), 0, what),
        15 => drain(&mut c, &mut m, Included(h), Unbounded, 0, what),
        16 => drain(&mut c, &mut m, Excluded(0), Included(n - 2), 0, what),
        17 => drain(&mut c, &mut m, Unbounded, Unbounded, 0, what),
        18 => drain(&mut c, &mut m, Included(1), Excluded(n - 1), 1, what),
        45 => drain(&mut c, &mut m, Included(3), Excluded(n - 2), 2, what),
        19..=23 => {
            let keep = |i: usize| match o {
                19 => i % 2 == 0,
                20 => false,
                21 => true,
                22 => i == n - 1,
                _ => i == 0,
            };
            let mut i = 0;
            c.retain(|t| {
                t.check();
                if i >= m.len() || C::T::IDS && t.id() != m[i].0 || C::T::VALS && t.val() != m[i].1 {
                    bad!(Sem, "retain asked about {:?} at step {i}", of(t));
                }
                i += 1;
                keep(i - 1)
            });
            if i != n {
                bad!(Sem, "retain asked about {i} of {n} elements");
            }
            let mut i = 0;
            m.retain(|_| {
                i += 1;
                keep(i - 1)
            });
        }
        24 => {
            c.dedup();
            if C::T::VALS {
                m.dedup_by(|a, b| a.1 == b.1);
            } else {
                m.truncate(1);
            }
        }
        25 => {
            c.dedup_by_key(|t| t.val() / 2);
            if C::T::VALS {
                m.dedup_by_key(|t| t.1 / 2);
            } else {
                m.truncate(1);
            }
        }
        44 => {
            // (later, earlier) are the arguments
            c.dedup_by(|a, b| a.val() == b.val().wrapping_add(1));
            if C::T::VALS {
                m.dedup_by(|a, b| a.1 == b.1.wrapping_add(1));
            }
        }
        26 => {
            let d = c.clone();
            let mut dm = vec![];
            adopt(&d, 0, &mut dm, &vals, "clone");
            if heap().viol.is_empty() {
                compare(&c, &m, "cloned one");
                drop(c);
                c = d;
                m = dm;
            }
        }
        27 => {
            let b = c.boxed();
            if b.len() != m.len() {
                bad!(Sem, "into_boxed_slice has {} of {} elements", b.len(), m.len());
                return std::mem::forget(b);
            }
            for (i, t) in b.iter().enumerate() {
                t.check();
                if C::T::VALS && t.val() != m[i].1 || C::T::IDS && t.id() != m[i].0 {
                    bad!(Sem, "into_boxed_slice: element {i} differs");
                    return std::mem::forget(b);
                }
            }
            c = C::from_box(b);
        }
        28 => c.shrink_to_fit(),
        29 => {
            c.truncate(h);
            m.truncate(h);
            c.shrink_to(h + 3);
            if c.cap() < h + 3 && n > h + 3 {
                bad!(Cap, "shrink_to({}) left capacity {}", h + 3, c.cap());
            }
        }
        30 => {
            while let Some(x) = m.pop() {
                match c.pop() {
                    Some(t) => taken(t, x, what),
                    None => bad!(Sem, "pop gave none when {} are left", m.len() + 1),
                }
                if !heap().viol.is_empty() {
                    return std::mem::forget(c);
                }
            }
            if let Some(t) = c.pop() {
                bad!(Sem, "pop gave an element of the empty sequence");
                return std::mem::forget((c, t));
            }
        }
        31 => {
            let (v, vm) = items::<C::T>(n, n);
            push_all(&mut c, v);
            m.extend(vm);
        }
        32 | 33 => {
            let at = if o == 32 { 0 } else { h };
            let (mut v, vm) = items::<C::T>(1, n);
            c.insert(at, v.pop().unwrap());
            m.insert(at, vm[0]);
        }
        34 => {
            c.reserve(n);
            if c.spare_len() < n {
                bad!(Cap, "reserve({n}) left room for {} at length {n}", c.spare_len());
            }
            let cap = c.cap();
            let p = c.ptr();
            let (v, vm) = items::<C::T>(n, n);
            for t in v {
                c.push(t)
            }
            m.extend(vm);
            if c.cap() != cap || c.ptr() != p {
                bad!(Cap, "storage changed while there is reserved room");
            }
        }
        35 => {
            let v: Vec<C::T> = c.slice().to_vec();
            c.extend_from_slice(&v);
            drop(v);
            adopt(&c, n, &mut m, &vals, what);
        }
        36 => {
            let cap = c.cap();
            c.clear();
            if c.len() != 0 || c.cap() != cap {
                bad!(Cap, "clear left {} elements and changed capacity from {cap} to {}", c.len(), c.cap());
            }
            let (v, vm) = items::<C::T>(n, 7);
            c.extend_iter(v.into_iter());
            m = vm;
        }
        37 => {
            let (mut v, vm) = items::<C::T>(1, 5);
            c.resize(2 * n, v.pop().unwrap());
            adopt(&c, n, &mut m, &vec![vm[0].1; n], what);
        }
        38 => {
            let (mut v, _) = items::<C::T>(1, 5);
            c.resize(h, v.pop().unwrap());
            m.truncate(h);
        }
        39 => {
            if C::SMALL {
                let v = c.s_into_vec().unwrap();
                if v.len() != n {
                    bad!(Sem, "into_vec has {} of {n} elements", v.len());
                    return std::mem::forget(v);
                }
                c = C::s_from_vec(v).unwrap();
            } else {
                c.shrink_to_fit();
            }
        }
        40 => {
            if C::SMALL {
                c.s_move_to_heap();
                if !c.is_heap() {
                    bad!(Inline, "not on the heap after move_to_heap");
                }
                compare(&c, &m, what);
                let r = c.s_try_stack();
                if r.is_ok() != (n <= C::N) || c.is_heap() == r.is_ok() {
                    bad!(Inline, "try_move_to_stack gave {r:?}, on the heap {}, {n} elements", c.is_heap());
                }
            }
        }
        41 => {
            if C::SMALL {
                drain(&mut c, &mut m, Unbounded, Unbounded, 1, what);
            } else {
                let mut m = std::collections::VecDeque::from(m);
                let r = c.v_into_iter_with(|it| {
                    let mut k = 0;
                    loop {
                        k += 1;
                        if it.exact() != m.len() || it.hint() != (m.len(), Some(m.len())) || it.slice().len() != m.len() {
                            bad!(Sem, "{what}: tells {:?} and {} when {} are left", it.hint(), it.exact(), m.len());
                        }
                        let (t, x) = if k % 3 == 2 { (it.next_back(), m.pop_back()) } else { (it.next(), m.pop_front()) };
                        match (t, x) {
                            (None, None) => return (end::DROP, end::DROP),
                            (Some(t), Some(x)) => taken(t, x, what),
                            (t, x) => {
                                bad!(Sem, "{what}: gave {:?} instead of {x:?}", t.as_ref().map(of));
                                std::mem::forget(t);
                                return (end::FORGET, end::FORGET);
                            }
                        }
                        if !heap().viol.is_empty() {
                            return (end::FORGET, end::FORGET);
                        }
                        if k == n - n / 8 {
                            let e = ENDS[n % ENDS.len()];
                            return (e, e);
                        }
                    }
                });
                if let Some((e, f)) = r {
                    finished(f, m, e, what);
                }
                return;
            }
        }
        42 => {
            let mut made = vec![];
            c.resize_with(2 * n, || {
                let t = C::T::make(val(made.len()));
                made.push(of(&t));
                t
            });
            if made.len() != n {
                bad!(Sem, "{what}: made {} elements of {n}", made.len());
            }
            m.extend(made);
        }
        _ => {
            let (mut p, pm) = build::<C>(n, 0);
            c.append(&mut p);
            m.extend(pm);
            if p.len() != 0 {
                bad!(Sem, "append left {} elements", p.len());
            }
        }
    }
    compare(&c, &m, what);
    if !heap().viol.is_empty() {
        return std::mem::forget(c);
    }
    // It is still a usable one.
    let (mut v, vm) = items::<C::T>(1, n + 1);
    c.push(v.pop().unwrap());
    m.push(vm[0]);
    compare(&c, &m, "push after that");
    if !heap().viol.is_empty() {
        std::mem::forget(c);
    }
}

/// Long texts.
pub mod text {
    use super::*;
    use crate::seqstr::{utf16_text, well_formed};
    use lokky::string::String as S;
    use lokky::vec::Vec as V;

    const PATTERNS: [&[char]; 6] = [&['a', 'b', 'c', 'd', 'e', 'f', 'g'], &['a', 'é', '€', '😀', 'z'], &['é', 'ü', 'ö'], &['€', '€', '漢'], &['😀', '𝄞'], &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'ß']];
    const BUILDS: u64 = 11;
    const BUILD: [&str; BUILDS as usize] = ["push", "push_str whole", "push_str by parts", "extend by chars", "extend by texts", "from", "collect", "insert at the front", "insert_str at the front", "from_utf8", "from_utf16"];
    const OPS: u64 = 30;
    const OP: [&str; OPS as usize] = [
        "remove first", "remove middle", "remove last", "truncate to 0", "truncate to half", "truncate by one", "split_off at 0", "split_off half", "split_off last", "pop all", "retain even",
        "retain none", "retain all", "retain last", "retain first", "insert first", "insert middle", "insert_str first", "insert_str middle", "clone", "push_str of itself", "shrink_to_fit", "shrink_to",
        "reserve", "clear and refill", "add", "write", "extend by strings", "indexing", "drop it at once",
    ];

    pub fn lens(thorough: bool) -> Vec<usize> {
        if thorough {
            (1..=300).chain([511, 512, 513, 1023, 1024, 1025, 16383, 16384, 16385, 21845, 21846, 32767, 32768, 32769]).collect()
        } else {
            (10..=70).chain([85, 86, 127, 128, 129, 254, 255, 256, 257, 16384, 16385, 21845, 21846, 32767, 32768, 32769]).collect()
        }
    }
    pub fn cases(lens: &[usize]) -> u64 {
        lens.len() as u64 * PATTERNS.len() as u64 * BUILDS * OPS
    }
    fn split(i: u64, lens: &[usize]) -> (usize, usize, u64, u64) {
        (lens[(i / OPS / BUILDS / PATTERNS.len() as u64) as usize], (i / OPS / BUILDS % PATTERNS.len() as u64) as usize, i / OPS % BUILDS, i % OPS)
    }
    pub fn label(i: u64, lens: &[usize]) -> String {
        let (n, p, b, o) = split(i, lens);
        format!("{n} chars of {:?} by {}, then {}", PATTERNS[p], BUILD[b as usize], OP[o as usize])
    }
    fn same(s: &S, m: &str, what: &str) {
        let b = s.as_bytes();
        if std::str::from_utf8(b).is_err() {
            bad!(Utf8, "{what}: text of {} bytes is ill-formed", b.len());
        }
        if b != m.as_bytes() || s.len() != m.len() || s.is_empty() != m.is_empty() {
            let at = b.iter().zip(m.as_bytes()).position(|(x, y)| x != y);
            bad!(Sem, "{what}: {} bytes instead of {}, first difference at {at:?}", b.len(), m.len());
        }
        if s.capacity() < s.len() {
            bad!(Cap, "{what}: capacity {} for length {}", s.capacity(), s.len());
        }
        step(format!("{what} {} {}", m.len(), s.capacity()).as_bytes());
    }

    fn build(n: usize, p: usize, b: u64) -> (S, String) {
        let p = PATTERNS[p];
        let cs: Vec<char> = (0..n).map(|i| if i % 37 == 36 { 'q' } else { p[i % p.len()] }).collect();
        let mut m: String = cs.iter().collect();
        let mut s = S::new();
        // Growth by one at each step is allowed, and would take too much memory here.
        let part = n / 8 + 1;
        match b {
            0 => {
                for (i, &c) in cs.iter().enumerate() {
                    if i == 30 || i > 30 && i % part == 0 {
                        s.reserve(part * 4);
                    }
                    s.push(c)
                }
            }
            1 => s.push_str(&m),
            2 => {
                for c in cs.chunks(part) {
                    let t: String = c.iter().collect();
                    s.push_str(&t);
                }
            }
            3 => {
                s.reserve(m.len());
                s.extend(cs.iter().copied())
            }
            4 => {
                let parts: Vec<String> = cs.chunks(part).map(|c| c.iter().collect()).collect();
                s.extend(parts.iter().map(|x| x.as_str()))
            }
            5 => s = S::from(m.as_str()),
            // Does not know the room that is needed.
            6 if n <= 300 => s = cs.iter().copied().collect(),
            6 => s = [&*m].into_iter().collect(),
            7 if n <= 300 => {
                for &c in cs.iter().rev() {
                    s.insert(0, c)
                }
            }
            8 if n <= 300 => {
                for c in cs.rchunks(7) {
                    let t: String = c.iter().collect();
                    s.insert_str(0, &t)
                }
            }
            7 => {
                s.reserve(m.len());
                let (a, b) = m.split_at(m.len() - cs[n - 1].len_utf8());
                s.push_str(b);
                s.insert_str(0, a);
            }
            8 => {
                let a = cs[..n / 2].iter().map(|c| c.len_utf8()).sum();
                s.push_str(&m[a..]);
                s.insert_str(0, &m[..a]);
            }
            9 => match S::from_utf8(V::from(m.as_bytes())) {
                Ok(t) => s = t,
                Err(_) => {
                    bad!(Utf8, "well-formed bytes are rejected");
                    m.clear();
                }
            },
            _ if n > 300 => s = S::from(&S::from(m.as_str())),
            _ => {
                // Pairs of units may be more than the room kept for these.
                let u: Vec<u16> = m.encode_utf16().collect();
                match S::from_utf16(&u) {
                    Ok(t) => s = t,
                    Err(_) => {
                        bad!(Utf8, "well-formed units are rejected");
                        m.clear();
                    }
                }
            }
        }
        (s, m)
    }

    pub fn case(i: u64, lens: &[usize]) {
        let (n, p, b, o) = split(i, lens);
        let (s, m) = build(n, p, b);
        same(&s, &m, BUILD[b as usize]);
        if heap().viol.is_empty() {
            change(s, m, n, p, o);
        }
        if heap().viol.is_empty() {
            heap().check_leaks();
            heap().check_blocks();
        }
    }

    fn change(mut s: S, mut m: String, n: usize, p: usize, o: u64) {
        let what = OP[o as usize];
        let at = |k: usize| m.char_indices().nth(k).map_or(m.len(), |x| x.0);
        let (half, last) = (at(n / 2), at(n - 1));
        match o {
            0..=2 => {
                let at = [0, half, last][o as usize];
                let (a, b) = (s.remove(at), m.remove(at));
                if a != b {
                    bad!(Sem, "{what}: gave {a:?} instead of {b:?}");
                }
            }
            3..=5 => {
                let at = [0, half, last][o as usize - 3];
                s.truncate(at);
                m.truncate(at);
            }
            6..=8 => {
                let at = [0, half, last][o as usize - 6];
                let (a, b) = (s.split_off(at), m.split_off(at));
                same(&a, &b, "split_off part");
            }
            9 => loop {
                let (a, b) = (s.pop(), m.pop());
                if a != b {
                    bad!(Sem, "{what}: gave {a:?} instead of {b:?} at length {}", m.len());
                    break;
                }
                if a.is_none() {
                    break;
                }
            },
            10..=14 => {
                let keep = |i: usize| match o {
                    10 => i % 2 == 0,
                    11 => false,
                    12 => true,
                    13 => i == n - 1,
                    _ => i == 0,
                };
                let cs: Vec<char> = m.chars().collect();
                let mut i = 0;
                s.retain(|c| {
                    if cs.get(i) != Some(&c) {
                        bad!(Sem, "retain asked about {c:?} at step {i}");
                    }
                    i += 1;
                    keep(i - 1)
                });
                m = cs.iter().enumerate().filter(|x| keep(x.0)).map(|x| x.1).collect();
            }
            15 | 16 => {
                let at = if o == 15 { 0 } else { half };
                s.insert(at, '漢');
                m.insert(at, '漢');
            }
            17 | 18 => {
                let at = if o == 17 { 0 } else { half };
                let t: String = PATTERNS[(p + 1) % PATTERNS.len()].iter().collect::<String>().repeat(n / 3);
                s.insert_str(at, &t);
                m.insert_str(at, &t);
            }
            19 => {
                let t = s.clone();
                same(&t, &m, what);
                if t != s || t.cmp(&s) != std::cmp::Ordering::Equal {
                    bad!(Fwd, "clone is not equal");
                }
                drop(s);
                s = t;
            }
            20 => {
                s.push_str(&m);
                m.push_str(&m.clone());
            }
            21 => {
                s.shrink_to_fit();
            }
            22 => {
                s.truncate(half);
                m.truncate(half);
                s.shrink_to(half + 1);
            }
            23 => {
                s.reserve(n);
                if s.capacity() - s.len() < n {
                    bad!(Cap, "reserve({n}) left room for {}", s.capacity() - s.len());
                }
                let (cap, ptr) = (s.capacity(), s.as_ptr());
                for _ in 0..n {
                    s.push('x');
                    m.push('x');
                }
                if s.capacity() != cap || s.as_ptr() != ptr {
                    bad!(Cap, "storage changed while there is reserved room");
                }
            }
            24 => {
                let cap = s.capacity();
                s.clear();
                if s.capacity() != cap {
                    bad!(Cap, "clear changed capacity from {cap} to {}", s.capacity());
                }
                s.push_str("some");
                m.replace_range(.., "some");
            }
            25 => {
                s = s + &m;
                m = m.clone() + &m;
            }
            26 => {
                use std::fmt::Write;
                let n = if n > 300 { 7 } else { n };
                if write!(s, "{:>1$}{2}", "end", n, m).is_err() {
                    bad!(Sem, "write failed");
                }
                let t = format!("{:>1$}{2}", "end", n, m);
                m.push_str(&t);
            }
            27 => {
                let t = S::from(m.as_str());
                s.extend([t, S::from("and"), S::new()]);
                m = m.clone() + &m + "and";
            }
            28 => {
                let l = m.len();
                let r = [(&s[half..], &m[half..]), (&s[..half], &m[..half]), (&s[..], &m[..]), (&s[half..last], &m[half..last]), (&s[0..l], &m[0..l]), (&s[..=l - 1], &m[..=l - 1]), (&s[half..=l - 1], &m[half..=l - 1])];
                for (i, (a, b)) in r.iter().enumerate() {
                    if a.as_bytes() != b.as_bytes() {
                        bad!(Sem, "part {i} differs");
                    }
                }
            }
            _ => return,
        }
        same(&s, &m, what);
        s.push('é');
        m.push('é');
        same(&s, &m, "push after that");
    }

    /// A text with one wrong place, from bytes and from units.
    const WRONG8: [&[u8]; 10] = [&[0x80], &[0xC0, 0x80], &[0xFF], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xC2], &[0xE2, 0x82], &[0xF0, 0x9F, 0x98], &[0xE0, 0x9F, 0xBF], &[]];
    const WRONG16: [&[u16]; 6] = [&[0xD800], &[0xDC00], &[0xDBFF, 0xDBFF, 0xDFFF], &[0xDFFF, 0xD800], &[0xD83D, 0xDE00], &[]];
    const WRONG: u64 = 16;

    pub fn wrong_lens(thorough: bool) -> usize {
        if thorough {
            300
        } else {
            80
        }
    }
    /// Place `at` of a text of `n` chars, triangular number.
    fn place(mut i: u64) -> (usize, usize) {
        let mut n = 0;
        while i > n {
            i -= n + 1;
            n += 1;
        }
        (n as usize, i as usize)
    }
    pub fn wrong_cases(n: usize) -> u64 {
        (n as u64 + 1) * (n as u64 + 2) / 2 * WRONG * PATTERNS.len() as u64
    }
    fn wrong_split(i: u64) -> (usize, usize, usize, usize) {
        let (n, at) = place(i / WRONG / PATTERNS.len() as u64);
        (n, at, (i % WRONG) as usize, (i / WRONG % PATTERNS.len() as u64) as usize)
    }
    pub fn wrong_label(i: u64) -> String {
        let (n, at, w, p) = wrong_split(i);
        if w < WRONG8.len() {
            format!("{n} chars of {:?} with bytes {:x?} at {at}", PATTERNS[p], WRONG8[w])
        } else {
            format!("{n} chars of {:?} with units {:x?} at {at}", PATTERNS[p], WRONG16[w - WRONG8.len()])
        }
    }
    pub fn wrong_case(i: u64) {
        let (n, at, w, p) = wrong_split(i);
        let p = PATTERNS[p];
        let cs = |r: std::ops::Range<usize>| r.map(|i| p[i % p.len()]).collect::<String>();
        let (a, z) = (cs(0..at), cs(at..n));
        if w < WRONG8.len() {
            let mut b = a.into_bytes();
            b.extend(WRONG8[w]);
            b.extend(z.as_bytes());
            let ok = well_formed(&b);
            match S::from_utf8(V::from(&b[..])) {
                Ok(s) => {
                    if !ok {
                        bad!(Utf8, "ill-formed bytes are accepted");
                    } else if s.as_bytes() != b {
                        bad!(Utf8, "bytes are changed");
                    }
                }
                Err(e) => {
                    if ok {
                        bad!(Utf8, "well-formed bytes are rejected");
                    } else if std::str::from_utf8(&b).err() != Some(e) {
                        bad!(Utf8, "error tells another place: {e:?}");
                    }
                }
            }
        } else {
            let mut u: Vec<u16> = a.encode_utf16().collect();
            u.extend(WRONG16[w - WRONG8.len()]);
            u.extend(z.encode_utf16());
            match (S::from_utf16(&u), utf16_text(&u)) {
                (Ok(s), Some(t)) => {
                    if s.as_bytes() != t.as_bytes() {
                        bad!(Utf8, "from_utf16 gave another text");
                    }
                }
                (Err(_), None) => {}
                (r, t) => bad!(Utf8, "from_utf16 gave {:?} and well-formedness is {}", r.is_ok(), t.is_some()),
            }
        }
        step(wrong_label(i).as_bytes());
        heap().check_leaks();
        heap().check_blocks();
    }
}

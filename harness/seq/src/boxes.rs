//! Histories of `Box`, boxed slices and bare `ScopePtr`.

use crate::bad;
use crate::elem::*;
use crate::engine::{catch, outcome, resumes, Fault, World};
use crate::mem::{alloc_no, heap, marker, marker_no, set_scope, Kind};
use lokky::boxed::Box as B;
use lokky::scope::AllocSelector;
use lokky::vec::Vec as V;
use lokky::ScopePtr as P;
use std::borrow::{Borrow, BorrowMut};
use std::marker::PhantomData;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    New(u8),
    /// Bare pointer.
    PtrNew(u8),
    /// Vector of so many elements, with so much spare capacity.
    VecNew(u8, u8),
    Set(u8, u8),
    Drop(u8),
    IntoInner(u8),
    /// Vec to boxed slice or back.
    Convert(u8),
    Push(u8),
    /// Bare pointer to a slice of one.
    ToSlice(u8),
    Scope(u8),
}

#[derive(Clone)]
pub struct Cfg {
    pub slots: usize,
    pub len: u8,
    pub scopes: bool,
}

enum Real<T: 'static> {
    Box(B<T>),
    Slice(B<[T]>),
    Vec(V<T>),
    Ptr(P<T>),
    PtrSlice(P<[T]>),
}

pub struct Slot<T: 'static> {
    r: Real<T>,
    ids: Vec<u32>,
    vals: Vec<u8>,
    scope: u8,
    marker: u8,
}

pub struct BW<T: Elem> {
    cfg: Cfg,
    s: Vec<Slot<T>>,
    scope: u8,
    _p: PhantomData<T>,
}

impl<T: Elem> Slot<T> {
    fn slice(&self) -> &[T] {
        match &self.r {
            Real::Box(b) => std::slice::from_ref(&**b),
            Real::Slice(b) => b,
            Real::Vec(v) => v,
            Real::Ptr(p) => std::slice::from_ref(&**p),
            Real::PtrSlice(p) => p,
        }
    }
    fn kind(&self) -> u8 {
        match self.r {
            Real::Box(_) => 0,
            Real::Slice(_) => 1,
            Real::Vec(_) => 2,
            Real::Ptr(_) => 3,
            Real::PtrSlice(_) => 4,
        }
    }
    fn cap(&self) -> usize {
        match &self.r {
            Real::Vec(v) if std::mem::size_of::<T>() != 0 => v.capacity(),
            _ => 0,
        }
    }
}

impl<T: Elem> BW<T> {
    fn total(&self) -> usize {
        self.s.iter().map(|s| s.ids.len()).sum()
    }
    fn check(&self) {
        if T::COUNTED && T::live() != self.total() {
            bad!(Own, "{} values are alive instead of {}", T::live(), self.total());
        }
        for s in &self.s {
            for &id in &s.ids {
                if T::IDS && !reg().is_live(id) {
                    bad!(Own, "value {id} is destroyed too early");
                }
            }
        }
        let want = self.s.iter().filter(|s| std::mem::size_of::<T>() != 0 && (s.kind() != 2 && !s.ids.is_empty() || s.cap() > 0)).count();
        if heap().live != want {
            bad!(Leak, "{} blocks are outstanding for {want} owners", heap().live);
        }
        if !heap().viol.is_empty() {
            return;
        }
        for (i, s) in self.s.iter().enumerate() {
            let x = s.slice();
            if x.len() != s.ids.len() {
                bad!(Sem, "{} elements instead of {} in {i}", x.len(), s.ids.len());
                return;
            }
            for (j, e) in x.iter().enumerate() {
                e.check();
                if T::IDS && e.id() != s.ids[j] || T::VALS && e.val() != s.vals[j] {
                    bad!(Sem, "value {j} of {i} is {e:?} instead of {}#{}", s.vals[j], s.ids[j]);
                }
                let p = e as *const T as *const u8;
                if std::mem::size_of::<T>() != 0 {
                    match heap().block_of(p) {
                        None => bad!(Mem, "value {j} of {i} is not in memory obtained from an allocator"),
                        Some(b) => {
                            if p as usize + std::mem::size_of::<T>() > b.ptr as usize + b.size {
                                bad!(Mem, "value {j} of {i} does not fit its block");
                            }
                            if b.alloc != alloc_no(s.scope, s.marker) {
                                bad!(Sel, "value of {i} is in memory from allocator {} instead of {}", b.alloc, alloc_no(s.scope, s.marker));
                            }
                        }
                    }
                }
            }
            if let Real::Box(b) = &s.r {
                let p = &**b as *const T;
                if b.as_ref() as *const T != p || <B<T> as Borrow<T>>::borrow(b) as *const T != p {
                    bad!(Fwd, "ways to the value lead to different places");
                }
            }
            match &s.r {
                Real::Ptr(p) => self.ptr_marker(p, s),
                Real::PtrSlice(p) => {
                    if marker_no(p.marker()) != s.marker || p.marker() != marker(s.marker) {
                        bad!(Sel, "pointer tells marker {:?}", p.marker());
                    }
                }
                _ => {}
            }
        }
    }
    fn ptr_marker(&self, p: &P<T>, s: &Slot<T>) {
        if p.marker() != marker(s.marker) || p.alloc_selector() != AllocSelector::with_marker::<T>(marker(s.marker)) {
            bad!(Sel, "pointer tells {:?} and {:?}", p.marker(), p.alloc_selector());
        }
    }
    fn disarm() {
        reg().panic_at = 0;
        heap().fail_at = 0;
    }
    fn put(&mut self, r: Real<T>, ids: Vec<u32>, vals: Vec<u8>, marker: u8) {
        let scope = self.scope;
        self.s.push(Slot { r, ids, vals, scope, marker });
    }
    fn selection(&self, s0: usize, m: u8) {
        let h = heap();
        if h.sel_log.len() == s0 {
            bad!(Sel, "the current scope is not asked for an allocator");
        }
        for (sc, sel) in &h.sel_log[s0..] {
            if *sc != self.scope || *sel != AllocSelector::with_marker::<T>(marker(m)) || marker_no(sel.marker()) != m || sel.ty() != std::any::type_name::<T>() {
                bad!(Sel, "scope {sc} is asked for {sel:?} while scope {} is current, marker {m}", self.scope);
            }
        }
    }

    fn exec(&mut self, op: Op, fault: Fault) {
        let s0 = heap().sel_log.len();
        match fault {
            Fault::Panic(k) => {
                reg().cb = 0;
                reg().panic_at = k
            }
            Fault::Alloc(k) => {
                heap().requests = 0;
                heap().fail_at = k
            }
            Fault::None => {}
        }
        let faulty = fault != Fault::None;
        let failed = |what: &str| {
            Self::disarm();
            outcome("failed");
            if !faulty {
                bad!(Sem, "{what} failed");
            }
        };
        let not_reported = || {
            if matches!(fault, Fault::Alloc(_)) {
                bad!(Fault, "failed allocation is not reported");
            }
        };
        match op {
            Op::Scope(n) => {
                self.scope = n;
                set_scope(n);
                return;
            }
            Op::New(m) | Op::PtrNew(m) => {
                let val = (self.s.len() as u8) * 2;
                let t = quiet(|| T::make(val));
                let id = t.id();
                let r = if matches!(op, Op::New(_)) {
                    catch(|| if m == 3 { B::new(t) } else { B::new_with(t, marker(m)) }).map(Real::Box)
                } else {
                    match catch(|| P::alloc(t, AllocSelector::with_marker::<T>(marker(m)))) {
                        None => {
                            bad!(Fault, "ScopePtr::alloc panicked");
                            None
                        }
                        Some(Err(_)) => None,
                        Some(Ok(p)) => Some(Real::Ptr(p)),
                    }
                };
                Self::disarm();
                let m = m % 3;
                match r {
                    Some(b) => {
                        not_reported();
                        self.put(b, vec![id], vec![val], m);
                        self.selection(s0, m);
                    }
                    None => failed("creation"),
                }
            }
            Op::VecNew(n, spare) => {
                let (mut ids, mut vals) = (vec![], vec![]);
                let v = catch(|| {
                    let mut v = V::<T>::with_capacity(n as usize + spare as usize);
                    for i in 0..n {
                        let t = quiet(|| T::make(i));
                        ids.push(t.id());
                        vals.push(i);
                        v.push(t);
                    }
                    v
                });
                Self::disarm();
                match v {
                    Some(v) => self.put(Real::Vec(v), ids, vals, 0),
                    None => failed("with_capacity"),
                }
            }
            Op::Set(i, way) => {
                let s = &mut self.s[i as usize];
                let val = s.vals[0] ^ 1;
                let n = s.vals.len();
                let at = if way == 3 { n - 1 } else { 0 };
                let val = if at > 0 { s.vals[at] ^ 1 } else { val };
                quiet(|| match &mut s.r {
                    Real::Box(b) => match way {
                        0 => (**b).set_val(val),
                        1 => b.as_mut().set_val(val),
                        _ => <B<T> as BorrowMut<T>>::borrow_mut(b).set_val(val),
                    },
                    Real::Slice(b) => {
                        if way == 1 {
                            b.as_mut()[at].set_val(val)
                        } else {
                            b[at].set_val(val)
                        }
                    }
                    Real::Vec(v) => v[at].set_val(val),
                    Real::Ptr(p) => (**p).set_val(val),
                    Real::PtrSlice(p) => p[at].set_val(val),
                });
                Self::disarm();
                s.vals[at] = val;
            }
            Op::Drop(i) => {
                let s = self.s.remove(i as usize);
                let r = s.r;
                let ok = catch(|| drop(r)).is_some();
                Self::disarm();
                if !ok {
                    if !matches!(fault, Fault::Panic(_)) {
                        bad!(Own, "unexpected panic on destruction");
                    }
                    heap().forgive_all();
                    return;
                }
            }
            Op::IntoInner(i) => {
                let s = self.s.remove(i as usize);
                let d0 = reg().drops;
                let v = match s.r {
                    Real::Box(b) => b.into_inner(),
                    Real::Ptr(p) => p.into_inner(),
                    _ => unreachable!(),
                };
                Self::disarm();
                if reg().drops != d0 {
                    bad!(Own, "the value is destroyed by into_inner");
                }
                v.check();
                if T::IDS && v.id() != s.ids[0] || T::VALS && v.val() != s.vals[0] {
                    bad!(Sem, "into_inner gave {v:?}");
                }
                quiet(|| drop(v));
            }
            Op::Convert(i) => {
                let Slot { r, ids, vals, scope, marker } = self.s.remove(i as usize);
                let r = catch(|| match r {
                    Real::Slice(b) => Real::Vec(V::from(b)),
                    Real::Vec(v) => Real::Slice(v.into_boxed_slice()),
                    _ => unreachable!(),
                });
                Self::disarm();
                match r {
                    Some(r) => self.s.insert(i as usize, Slot { r, ids, vals, scope, marker }),
                    None => failed("conversion"),
                }
            }
            Op::Push(i) => {
                let t = quiet(|| T::make(3));
                let id = t.id();
                let s = &mut self.s[i as usize];
                let Real::Vec(v) = &mut s.r else { unreachable!() };
                let r = catch(|| v.push(t));
                Self::disarm();
                match r {
                    Some(()) => {
                        s.ids.push(id);
                        s.vals.push(3);
                    }
                    None => failed("push"),
                }
            }
            Op::ToSlice(i) => {
                let s = self.s.remove(i as usize);
                let Real::Ptr(p) = s.r else { unreachable!() };
                let p = unsafe { p.cast_to_slice(1) };
                Self::disarm();
                self.s.insert(i as usize, Slot { r: Real::PtrSlice(p), ids: s.ids, vals: s.vals, scope: s.scope, marker: s.marker });
            }
        }
        self.check();
    }
}

impl<T: Elem> World for BW<T> {
    type Op = Op;
    type Cfg = Cfg;
    fn name(c: &Cfg) -> String {
        format!("Box<{}> slots<={} len<={}{}", T::NAME, c.slots, c.len, if c.scopes { " scopes" } else { "" })
    }
    fn new(cfg: &Cfg) -> Self {
        BW { cfg: cfg.clone(), s: vec![], scope: 0, _p: PhantomData }
    }
    fn ops(&self, out: &mut Vec<Op>) {
        if self.s.len() < self.cfg.slots {
            // 3 is without a marker at all.
            out.extend((0..4).map(Op::New));
            out.extend((0..3).map(Op::PtrNew));
            for n in 0..=self.cfg.len {
                out.push(Op::VecNew(n, 0));
                out.push(Op::VecNew(n, 1));
            }
        }
        if self.cfg.scopes {
            out.push(Op::Scope(1 - self.scope));
        }
        for (i, s) in self.s.iter().enumerate() {
            let n = i as u8;
            out.push(Op::Drop(n));
            if !s.ids.is_empty() {
                let ways = if s.kind() == 0 { 3 } else { 2 };
                out.extend((0..ways).map(|w| Op::Set(n, w)));
                out.push(Op::Set(n, 3));
            }
            match s.kind() {
                0 | 3 => out.push(Op::IntoInner(n)),
                1 | 2 => out.push(Op::Convert(n)),
                _ => {}
            }
            if s.kind() == 2 && s.ids.len() < self.cfg.len as usize {
                out.push(Op::Push(n));
            }
            if s.kind() == 3 {
                out.push(Op::ToSlice(n));
            }
        }
    }
    fn apply(&mut self, op: Op) {
        self.exec(op, Fault::None)
    }
    fn apply_fault(&mut self, op: Op, fault: Fault) {
        let v0 = heap().viol.len();
        self.exec(op, fault);
        Self::disarm();
        if let Fault::Alloc(_) = fault {
            if heap().failed == 0 {
                bad!(Fault, "harness: failure was not injected");
            }
            if heap().viol.len() == v0 && !resumes() && matches!(op, Op::New(_) | Op::PtrNew(_) | Op::VecNew(..) | Op::Push(_)) {
                self.exec(op, Fault::None);
            }
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.push(self.scope);
        for s in &self.s {
            out.push(s.kind());
            out.push(s.marker * 8 + s.scope);
            out.push(s.cap() as u8);
            out.push(s.vals.len() as u8);
            out.extend(&s.vals);
        }
    }
    fn finish(self, _last: Option<Op>, fault: Fault) {
        for s in self.s {
            let r = s.r;
            if catch(|| drop(r)).is_none() {
                bad!(Own, "destruction panicked");
            }
        }
        let v0 = heap().viol.len();
        if T::COUNTED && T::live() != 0 && !matches!(fault, Fault::Panic(_)) {
            bad!(Own, "{} values are never destroyed", T::live());
        }
        heap().check_leaks();
        heap().check_blocks();
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
    }
}

// ---- arrays in bare pointers ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum AOp {
    New(u8, u8),
    Realloc(u8),
    Write(u8),
    Drop,
    Forget,
    Scope(u8),
}

/// Plain data of various layouts.
pub trait Plain: Copy + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    fn v(x: u8) -> Self;
}
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
pub struct A32(u8);
impl Plain for A32 {
    const NAME: &'static str = "A32";
    fn v(x: u8) -> Self {
        A32(x)
    }
}
impl Plain for u8 {
    const NAME: &'static str = "u8";
    fn v(x: u8) -> Self {
        x
    }
}
impl Plain for [u16; 3] {
    const NAME: &'static str = "[u16; 3]";
    fn v(x: u8) -> Self {
        [x as u16, 1, 2]
    }
}
impl Plain for () {
    const NAME: &'static str = "()";
    fn v(_: u8) {}
}

#[derive(Clone)]
pub struct ACfg {
    pub len: u8,
}

pub struct AW<T: Plain> {
    cfg: ACfg,
    a: Option<P<[T]>>,
    /// None if uninitialized.
    m: Vec<Option<T>>,
    marker: u8,
    made_in: u8,
    scope: u8,
}

impl<T: Plain> AW<T> {
    fn check(&mut self) {
        let want = (self.a.is_some() && std::mem::size_of::<T>() * self.m.len() > 0) as usize;
        if heap().blocks.iter().filter(|b| b.live && !b.forgiven).count() != want {
            bad!(Leak, "{} blocks are outstanding instead of {want}", heap().live);
        }
        let Some(a) = &self.a else { return };
        if a.len() != self.m.len() {
            bad!(Sem, "array has length {} instead of {}", a.len(), self.m.len());
            return;
        }
        if a.marker() != marker(self.marker) {
            bad!(Sel, "array tells marker {:?}", a.marker());
        }
        if want == 0 {
            return;
        }
        match heap().block_of(a.as_ptr() as *const u8) {
            Some(b) => {
                if b.size < std::mem::size_of::<T>() * self.m.len() || b.ptr as *const T != a.as_ptr() {
                    bad!(Mem, "array is not within its block of {} bytes", b.size);
                    return;
                }
                if a.as_ptr() as usize % std::mem::align_of::<T>() != 0 {
                    bad!(Mem, "array is misaligned");
                }
                if b.alloc != alloc_no(self.made_in, self.marker) {
                    bad!(Sel, "array is in memory of allocator {} instead of {}", b.alloc, alloc_no(self.made_in, self.marker));
                }
            }
            None => {
                bad!(Mem, "array is not in memory obtained from an allocator");
                return;
            }
        }
        for (i, x) in self.m.iter().enumerate() {
            if x.is_some_and(|x| x != a[i]) {
                bad!(Sem, "element {i} is {:?} instead of {x:?}", a[i]);
            }
        }
    }
    fn exec(&mut self, op: AOp, fault: Fault) {
        if let Fault::Alloc(k) = fault {
            heap().requests = 0;
            heap().fail_at = k;
        }
        let faulty = fault != Fault::None;
        match op {
            AOp::Scope(n) => {
                self.scope = n;
                set_scope(n);
            }
            AOp::New(n, m) => {
                let r = catch(|| P::<[T]>::alloc_array_uninit(n as usize, AllocSelector::with_marker::<T>(marker(m))));
                heap().fail_at = 0;
                match r {
                    Some(Ok(a)) => {
                        if faulty {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        self.a = Some(a);
                        self.m = vec![None; n as usize];
                        self.marker = m;
                        self.made_in = self.scope;
                    }
                    Some(Err(_)) if faulty => {}
                    Some(Err(_)) => bad!(Sem, "allocation failed"),
                    None => bad!(Fault, "allocation panicked"),
                }
            }
            AOp::Realloc(n) => {
                let a = self.a.as_mut().unwrap();
                let r = catch(|| unsafe { a.realloc_array(n as usize) });
                heap().fail_at = 0;
                match r {
                    Some(Ok(())) => {
                        if faulty {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        self.m.resize(n as usize, None);
                    }
                    Some(Err(_)) if faulty => {}
                    Some(Err(_)) => bad!(Sem, "reallocation failed"),
                    None => bad!(Fault, "reallocation panicked"),
                }
            }
            AOp::Write(i) => {
                let v = T::v(i + 1);
                self.a.as_mut().unwrap()[i as usize] = v;
                self.m[i as usize] = Some(v);
            }
            AOp::Drop => {
                self.a = None;
                self.m.clear();
            }
            AOp::Forget => {
                let a = self.a.take().unwrap();
                if !a.is_empty() {
                    heap().forgive(a.as_ptr() as *const u8);
                }
                a.forget();
                self.m.clear();
            }
        }
        heap().fail_at = 0;
        self.check();
    }
}

impl<T: Plain> World for AW<T> {
    type Op = AOp;
    type Cfg = ACfg;
    fn name(c: &ACfg) -> String {
        format!("ScopePtr<[{}]> len<={}", T::NAME, c.len)
    }
    fn new(cfg: &ACfg) -> Self {
        AW { cfg: cfg.clone(), a: None, m: vec![], marker: 0, made_in: 0, scope: 0 }
    }
    fn ops(&self, out: &mut Vec<AOp>) {
        out.push(AOp::Scope(1 - self.scope));
        if self.a.is_none() {
            for n in 0..=self.cfg.len {
                out.extend((0..3).map(|m| AOp::New(n, m)));
            }
        } else {
            for n in 0..=self.cfg.len {
                out.push(AOp::Realloc(n));
            }
            out.push(AOp::Drop);
            out.push(AOp::Forget);
            out.extend((0..self.m.len() as u8).map(AOp::Write));
        }
    }
    fn apply(&mut self, op: AOp) {
        self.exec(op, Fault::None)
    }
    fn apply_fault(&mut self, op: AOp, fault: Fault) {
        let v0 = heap().viol.len();
        self.exec(op, fault);
        if let Fault::Alloc(_) = fault {
            if heap().viol.len() == v0 && !resumes() {
                self.exec(op, Fault::None);
            }
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        out.extend([self.scope, self.a.is_some() as u8, self.marker, self.made_in, self.m.len() as u8]);
        out.extend(self.m.iter().map(|m| m.is_some() as u8));
    }
    fn finish(self, _last: Option<AOp>, fault: Fault) {
        drop(self.a);
        let v0 = heap().viol.len();
        heap().check_leaks();
        heap().check_blocks();
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
    }
}

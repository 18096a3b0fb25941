//! Histories of handles to reference-counted values: `Rc`, `Arc` and `Urc` used in one thread.

use crate::bad;
use crate::elem::*;
use crate::engine::{catch, outcome, resumes, Fault, World};
use crate::mem::{alloc_no, heap, marker_no, set_scope, Kind};
use lokky::scope::{AllocSelector, Envelop, Envelope, ScopeRecv};
use lokky::{arc, boxed, rc, urc, ScopePtr};
use std::any::Any;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::mem::MaybeUninit;
use std::pin::Pin;

/// Any scope will do, it is only the way to get the envelope opened.
pub struct Recv;
impl<'e> ScopeRecv<'e> for Recv {}

/// What all the reference-counted pointers have in common.
pub trait Ptr<T: Elem>: Clone + 'static {
    const NAME: &'static str;
    const CTORS: u8;
    /// Counts of weak handles are available, and they can be cloned and upgraded.
    const WEAK_API: bool;
    const ENV: bool;
    const FENCE: bool;
    type W: 'static;
    type E: 'static;
    type F: 'static;
    fn make(how: u8, v: T) -> Result<Self, ()>;
    fn get(&self) -> &T;
    /// All the ways to get to the value give the same address.
    fn ptrs(&self) -> Vec<*const T>;
    fn get_mut(&mut self) -> Option<&mut T>;
    fn make_mut(&mut self) -> &mut T;
    fn try_unwrap(self) -> Result<T, Self>;
    fn downgrade(&self) -> Self::W;
    /// (strong, weak, sole group)
    fn counts(&self) -> (usize, usize, Option<bool>);
    fn ptr_eq(&self, o: &Self) -> bool;
    fn w_new() -> Self::W {
        unreachable!()
    }
    fn w_clone(_w: &Self::W) -> Self::W {
        unreachable!()
    }
    fn w_clone_from(_w: &mut Self::W, _o: &Self::W) {
        unreachable!()
    }
    fn w_upgrade(_w: &Self::W) -> Option<Self> {
        None
    }
    fn w_counts(_w: &Self::W) -> Option<(usize, usize)> {
        None
    }
    fn w_ptr_eq(_a: &Self::W, _b: &Self::W) -> Option<bool> {
        None
    }
    fn w_ptr(_a: &Self::W) -> Option<*const T> {
        None
    }
    fn envelop(&self) -> Self::E {
        unreachable!()
    }
    fn recv(_e: Self::E) -> Self {
        unreachable!()
    }
    fn to_fence(self) -> Result<Self::F, Self> {
        unreachable!()
    }
    fn from_fence(_f: Self::F) -> Self {
        unreachable!()
    }
    fn f_counts(_f: &Self::F) -> (usize, usize, bool, bool) {
        unreachable!()
    }
}

impl<T: Elem> Ptr<T> for rc::Rc<T> {
    const NAME: &'static str = "Rc";
    const CTORS: u8 = 2;
    const WEAK_API: bool = true;
    const ENV: bool = false;
    const FENCE: bool = false;
    type W = rc::Weak<T>;
    type E = ();
    type F = ();
    fn make(how: u8, v: T) -> Result<Self, ()> {
        Ok(match how {
            0 => rc::Rc::new(v),
            _ => rc::Rc::from(boxed::Box::new(v)),
        })
    }
    fn get(&self) -> &T {
        self
    }
    fn ptrs(&self) -> Vec<*const T> {
        vec![rc::Rc::as_ptr(self), self.as_ref() as *const T, <Self as std::borrow::Borrow<T>>::borrow(self) as *const T]
    }
    fn get_mut(&mut self) -> Option<&mut T> {
        rc::Rc::get_mut(self)
    }
    fn make_mut(&mut self) -> &mut T {
        rc::Rc::make_mut(self)
    }
    fn try_unwrap(self) -> Result<T, Self> {
        rc::Rc::try_unwrap(self)
    }
    fn downgrade(&self) -> Self::W {
        rc::Rc::downgrade(self)
    }
    fn counts(&self) -> (usize, usize, Option<bool>) {
        (rc::Rc::strong_count(self), rc::Rc::weak_count(self), None)
    }
    fn ptr_eq(&self, o: &Self) -> bool {
        rc::Rc::ptr_eq(self, o)
    }
    fn w_new() -> Self::W {
        let w: rc::Weak<T> = Default::default();
        if w.upgrade().is_some() || (w.strong_count(), w.weak_count()) != (0, 0) || !w.as_ptr().is_null() || !w.ptr_eq(&w.clone()) {
            bad!(Count, "default weak handle refers to something");
        }
        rc::Weak::new()
    }
    fn w_clone(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn w_clone_from(w: &mut Self::W, o: &Self::W) {
        w.clone_from(o)
    }
    fn w_upgrade(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn w_counts(w: &Self::W) -> Option<(usize, usize)> {
        Some((w.strong_count(), w.weak_count()))
    }
    fn w_ptr_eq(a: &Self::W, b: &Self::W) -> Option<bool> {
        Some(a.ptr_eq(b))
    }
    fn w_ptr(a: &Self::W) -> Option<*const T> {
        Some(a.as_ptr())
    }
}

macro_rules! make_ways {
    ($m:ident, $how:ident, $v:ident) => {
        match $how {
            0 => Ok($m::new($v)),
            1 => $m::try_new($v).map_err(|_| ()),
            2 => {
                let p = $m::pin($v);
                Ok(unsafe { Pin::into_inner_unchecked(p) })
            }
            3 => $m::try_pin($v).map(|p| unsafe { Pin::into_inner_unchecked(p) }).map_err(|_| ()),
            _ => {
                // Memory first, then the value is written. Type of the pointer cannot be changed, so
                // what is read back is moved to a usual one.
                let u = if $how == 4 { Ok($m::<T>::new_uninit()) } else { $m::<T>::try_new_uninit().map_err(|_| ()) };
                match u {
                    Err(()) => {
                        drop($v);
                        Err(())
                    }
                    Ok(mut u) => {
                        match $m::get_mut(&mut u) {
                            Some(p) => {
                                p.write($v);
                            }
                            None => {
                                bad!(Excl, "get_mut of a new uninitialized value is refused");
                                std::mem::forget($v);
                                return Err(());
                            }
                        }
                        match $m::try_unwrap(u) {
                            Ok(u) => Ok($m::new(unsafe { MaybeUninit::<T>::assume_init(u) })),
                            Err(_) => {
                                bad!(Excl, "try_unwrap of a new uninitialized value is refused");
                                Err(())
                            }
                        }
                    }
                }
            }
        }
    };
}

use arc::Arc;
use urc::Urc;

impl<T: Elem> Ptr<T> for Arc<T> {
    const NAME: &'static str = "Arc";
    const CTORS: u8 = 6;
    const WEAK_API: bool = false;
    const ENV: bool = true;
    const FENCE: bool = false;
    type W = arc::Weak<T>;
    type E = Envelope<'static, Arc<T>>;
    type F = ();
    fn make(how: u8, v: T) -> Result<Self, ()> {
        make_ways!(Arc, how, v)
    }
    fn get(&self) -> &T {
        self
    }
    fn ptrs(&self) -> Vec<*const T> {
        vec![Arc::as_ptr(self), self.as_ref() as *const T, <Self as std::borrow::Borrow<T>>::borrow(self) as *const T]
    }
    fn get_mut(&mut self) -> Option<&mut T> {
        Arc::get_mut(self)
    }
    fn make_mut(&mut self) -> &mut T {
        Arc::make_mut(self)
    }
    fn try_unwrap(self) -> Result<T, Self> {
        Arc::try_unwrap(self)
    }
    fn downgrade(&self) -> Self::W {
        Arc::downgrade(self)
    }
    fn counts(&self) -> (usize, usize, Option<bool>) {
        (Arc::strong_count(self), Arc::weak_count(self), None)
    }
    fn ptr_eq(&self, o: &Self) -> bool {
        Arc::ptr_eq(self, o)
    }
    fn envelop(&self) -> Self::E {
        Envelop::envelop(self, &Recv)
    }
    fn recv(e: Self::E) -> Self {
        Recv.recv(e)
    }
}

impl<T: Elem> Ptr<T> for Urc<T> {
    const NAME: &'static str = "Urc";
    const CTORS: u8 = 6;
    const WEAK_API: bool = false;
    const ENV: bool = true;
    const FENCE: bool = true;
    type W = urc::Weak<T>;
    type E = Envelope<'static, Urc<T>>;
    type F = ScopePtr<urc::Fence<T>>;
    fn make(how: u8, v: T) -> Result<Self, ()> {
        make_ways!(Urc, how, v)
    }
    fn get(&self) -> &T {
        self
    }
    fn ptrs(&self) -> Vec<*const T> {
        vec![Urc::as_ptr(self), self.as_ref() as *const T, <Self as std::borrow::Borrow<T>>::borrow(self) as *const T]
    }
    fn get_mut(&mut self) -> Option<&mut T> {
        Urc::get_mut(self)
    }
    fn make_mut(&mut self) -> &mut T {
        Urc::make_mut(self)
    }
    fn try_unwrap(self) -> Result<T, Self> {
        Urc::try_unwrap(self)
    }
    fn downgrade(&self) -> Self::W {
        Urc::downgrade(self)
    }
    fn counts(&self) -> (usize, usize, Option<bool>) {
        let f = Urc::fence_of(self);
        let c = (Urc::fence_strong_count(self), Urc::fence_weak_count(self));
        if (f.strong_count(), f.weak_count()) != c || !f.is_strong() || f.is_weak() {
            bad!(Count, "fence tells {} strong, {} weak, is_strong {}, is_weak {}, but the handle {c:?}", f.strong_count(), f.weak_count(), f.is_strong(), f.is_weak());
        }
        (c.0, c.1, Some(Urc::is_sole_strong_fence(self)))
    }
    fn ptr_eq(&self, o: &Self) -> bool {
        Urc::ptr_eq(self, o)
    }
    fn envelop(&self) -> Self::E {
        Envelop::envelop(self, &Recv)
    }
    fn recv(e: Self::E) -> Self {
        Recv.recv(e)
    }
    fn to_fence(self) -> Result<Self::F, Self> {
        Urc::try_into_fence(self)
    }
    fn from_fence(f: Self::F) -> Self {
        f.into_inner().into_urc()
    }
    fn f_counts(f: &Self::F) -> (usize, usize, bool, bool) {
        (f.strong_count(), f.weak_count(), f.is_strong(), f.is_weak())
    }
}

/// Value that holds handles to other values.
pub struct Node {
    tok: Tok,
    hold: RefCell<Vec<Box<dyn Any>>>,
    /// Tries to reach the values of held weak handles.
    probe: fn(&dyn Any) -> Option<u32>,
}
thread_local! {
    static PROBE: std::cell::Cell<fn(&dyn Any) -> Option<u32>> = const { std::cell::Cell::new(no_probe) };
}
fn no_probe(_: &dyn Any) -> Option<u32> {
    None
}

impl Drop for Node {
    fn drop(&mut self) {
        let me = self.tok.id();
        reg().use_check(me, "destruction");
        for h in self.hold.borrow().iter() {
            if (self.probe)(&**h) == Some(me) {
                bad!(Count, "weak handle is upgraded to a value that is being destroyed");
            }
        }
    }
}
impl Clone for Node {
    fn clone(&self) -> Self {
        Node { tok: self.tok.clone(), hold: RefCell::new(vec![]), probe: self.probe }
    }
}
impl PartialEq for Node {
    fn eq(&self, o: &Self) -> bool {
        self.tok == o.tok
    }
}
impl PartialOrd for Node {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.tok.partial_cmp(&o.tok)
    }
}
impl std::fmt::Debug for Node {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.tok.fmt(f)
    }
}
impl Elem for Node {
    const NAME: &'static str = "Node";
    const IDS: bool = true;
    const COUNTED: bool = true;
    const VALS: bool = true;
    fn make(val: u8) -> Self {
        Node { tok: Tok::make(val), hold: RefCell::new(vec![]), probe: PROBE.with(|p| p.get()) }
    }
    fn val(&self) -> u8 {
        self.tok.val()
    }
    fn set_val(&mut self, v: u8) {
        self.tok.set_val(v)
    }
    fn id(&self) -> u32 {
        self.tok.id()
    }
    fn check(&self) {
        self.tok.check()
    }
    fn live() -> usize {
        Tok::live()
    }
}

fn probe_of<T: Elem, P: Ptr<T>>(h: &dyn Any) -> Option<u32> {
    let w = h.downcast_ref::<P::W>()?;
    let p = P::w_upgrade(w)?;
    p.get().check();
    let id = p.get().id();
    quiet(|| drop(p));
    Some(id)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum K {
    Strong,
    Weak,
    Env,
    Fence,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    /// Constructor.
    New(u8),
    Clone(u8),
    /// Make the first handle one more of what the second one is.
    CloneFrom(u8, u8),
    Drop(u8),
    Downgrade(u8),
    WeakNew,
    WeakClone(u8),
    Upgrade(u8),
    GetMut(u8),
    MakeMut(u8),
    TryUnwrap(u8),
    Envelop(u8),
    Recv(u8),
    ToFence(u8),
    FromFence(u8),
    /// Move the handle into the value of the other one.
    Store(u8, u8),
    /// Drop what the value holds.
    Unstore(u8),
    Scope(u8),
}

#[derive(Clone)]
pub struct Cfg {
    pub handles: usize,
    pub objs: usize,
    pub store: bool,
    pub scopes: bool,
}

enum Real<P, W, E, F> {
    S(P),
    W(W),
    E(E),
    F(F),
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct HM {
    /// usize::MAX if dangling.
    obj: usize,
    grp: usize,
    k: K,
    /// How the handle came to be.
    tag: u8,
}

#[derive(Clone)]
struct Obj {
    id: u32,
    val: u8,
    alive: bool,
    /// Destructor panicked.
    broken: bool,
    blocks: Vec<usize>,
    held: Option<HM>,
    scope: u8,
}

type R<T, P> = Real<P, <P as Ptr<T>>::W, <P as Ptr<T>>::E, <P as Ptr<T>>::F>;

pub struct PW<T: Elem, P: Ptr<T>> {
    cfg: Cfg,
    h: Vec<(HM, R<T, P>)>,
    o: Vec<Obj>,
    scope: u8,
    grps: usize,
    _p: PhantomData<T>,
}

const NONE: usize = usize::MAX;

/// What the operation came to in the real code.
enum Res<T> {
    Done,
    No,
    Val(T),
    Panic,
}

impl<T: Elem, P: Ptr<T>> PW<T, P> {
    fn handles(&self) -> impl Iterator<Item = HM> + '_ {
        self.h.iter().map(|h| h.0).chain(self.o.iter().filter(|o| o.alive).filter_map(|o| o.held))
    }
    fn count(&self, obj: usize, grp: Option<usize>, weak: bool) -> usize {
        self.handles().filter(|h| h.obj == obj && (h.k == K::Weak) == weak && grp.is_none_or(|g| g == h.grp)).count()
    }
    fn strong(&self, obj: usize) -> usize {
        self.count(obj, None, false)
    }
    fn weak(&self, obj: usize) -> usize {
        self.count(obj, None, true)
    }
    fn any(&self, obj: usize) -> bool {
        self.handles().any(|h| h.obj == obj)
    }
    fn live_objs(&self) -> usize {
        (0..self.o.len()).filter(|&i| self.o[i].alive || self.any(i)).count()
    }
    fn reaches(&self, from: usize, to: usize) -> bool {
        from == to || self.o[from].alive && self.o[from].held.is_some_and(|h| h.k == K::Strong && self.reaches(h.obj, to))
    }
    /// Values without strong handles die, and drop what they hold.
    fn settle(&mut self) {
        loop {
            let dead = (0..self.o.len()).find(|&i| self.o[i].alive && self.strong(i) == 0);
            match dead {
                None => break,
                Some(i) => {
                    self.o[i].alive = false;
                    self.o[i].held = None;
                }
            }
        }
    }

    fn check(&self, op: Op) {
        let excl = matches!(op, Op::GetMut(_) | Op::MakeMut(_) | Op::TryUnwrap(_));
        let env = matches!(op, Op::Envelop(_) | Op::Recv(_));
        let v0 = heap().viol.len();
        let alive = self.o.iter().filter(|o| o.alive).count();
        if T::COUNTED && T::live() != alive {
            bad!(Own, "{} values are alive instead of {alive}", T::live());
        }
        for o in &self.o {
            if T::IDS && reg().is_live(o.id) != o.alive {
                bad!(Own, "value {} is {} too {}", o.id, if o.alive { "destroyed" } else { "kept" }, if o.alive { "early" } else { "long" });
            }
        }
        for (i, o) in self.o.iter().enumerate() {
            if !o.broken && !o.alive && !self.any(i) {
                for &b in &o.blocks {
                    if heap().blocks[b].live {
                        bad!(Leak, "memory of {} bytes is not returned when the last handle is gone", heap().blocks[b].size);
                    }
                }
            }
        }
        if !heap().viol.is_empty() {
            // Reading would only add noise.
            self.escalate(v0, excl, env);
            return;
        }
        for (n, (m, r)) in self.h.iter().enumerate() {
            let counts = (m.obj != NONE).then(|| (self.count(m.obj, Some(m.grp), false), self.count(m.obj, Some(m.grp), true)));
            match r {
                Real::S(p) => {
                    let o = &self.o[m.obj];
                    p.get().check();
                    if T::IDS && p.get().id() != o.id || T::VALS && p.get().val() != o.val {
                        bad!(Sem, "handle {n} leads to value {:?} instead of {}#{}", p.get(), o.val, o.id);
                    }
                    for (j, q) in p.ptrs().into_iter().enumerate() {
                        if q != p.get() as *const T {
                            bad!(Fwd, "way {j} to the value of handle {n} leads elsewhere");
                        }
                    }
                    if std::mem::size_of::<T>() != 0 && !o.blocks.iter().any(|&b| inside(p.get(), &heap().blocks[b])) {
                        bad!(Mem, "value of handle {n} is not in the memory obtained for it");
                    }
                    let (s, w, sole) = p.counts();
                    if !o.broken && Some((s, w)) != counts {
                        bad!(Count, "handle {n} tells {s} strong and {w} weak, but there are {counts:?}");
                    }
                    let groups: std::collections::HashSet<usize> = self.handles().filter(|h| h.obj == m.obj && h.k != K::Weak).map(|h| h.grp).collect();
                    if sole.is_some_and(|s| s != (groups.len() == 1)) {
                        bad!(Count, "is_sole_strong_fence is {sole:?} with {} groups", groups.len());
                    }
                    for (m2, r2) in &self.h {
                        if let Real::S(p2) = r2 {
                            if p.ptr_eq(p2) != (m.obj == m2.obj) {
                                bad!(Sem, "ptr_eq of handles to {} value{} is {}", if m.obj == m2.obj { "the same" } else { "other" }, if m.obj == m2.obj { "" } else { "s" }, p.ptr_eq(p2));
                            }
                        }
                    }
                }
                Real::W(w) => {
                    let broken = m.obj != NONE && self.o[m.obj].broken;
                    if let Some(c) = P::w_counts(w) {
                        if !broken && c != counts.unwrap_or((0, 0)) {
                            bad!(Count, "weak handle {n} tells {c:?}, but there are {counts:?}");
                        }
                    }
                    for (m2, r2) in &self.h {
                        if let Real::W(w2) = r2 {
                            if P::w_ptr_eq(w, w2).is_some_and(|e| e != (m.obj == m2.obj)) {
                                bad!(Sem, "ptr_eq of weak handles is wrong");
                            }
                        }
                        if let Real::S(p2) = r2 {
                            if m.obj == m2.obj && P::w_ptr(w).is_some_and(|p| p != p2.get() as *const T) {
                                bad!(Sem, "weak handle {n} does not refer to the same value");
                            }
                        }
                    }
                    if P::WEAK_API {
                        let ok = m.obj != NONE && self.o[m.obj].alive;
                        let d = format!("{:?}", Shown(w as &dyn Any, PhantomData::<T>));
                        let _ = d;
                        match P::w_upgrade(w) {
                            Some(p) => {
                                if !ok {
                                    bad!(Count, "weak handle {n} is upgraded while the value is gone");
                                    std::mem::forget(p);
                                } else {
                                    if T::IDS && p.get().id() != self.o[m.obj].id {
                                        bad!(Count, "weak handle {n} is upgraded to other value");
                                    }
                                    drop(p);
                                }
                            }
                            None if ok => bad!(Count, "weak handle {n} is not upgraded while the value is alive"),
                            None => {}
                        }
                    }
                }
                Real::E(_) => {}
                Real::F(f) => {
                    let (s, w, st, wk) = P::f_counts(f);
                    if Some((s, w)) != counts || !st || wk {
                        bad!(Count, "fence {n} tells {s} strong, {w} weak, is_strong {st}, is_weak {wk}");
                    }
                }
            }
        }
        self.escalate(v0, excl, env);
    }

    /// Whatever goes wrong right after these operations is the fault of them.
    fn escalate(&self, v0: usize, excl: bool, env: bool) {
        let v: Vec<_> = heap().viol.iter().skip(v0).cloned().collect();
        for (_, m) in v {
            if excl {
                crate::mem::report(Kind::Excl, m.clone());
            }
            if env {
                crate::mem::report(Kind::Env, m);
            }
        }
    }

    fn add(&mut self, obj: usize, grp: usize, k: K, tag: u8, r: R<T, P>) {
        self.h.push((HM { obj, grp, k, tag }, r));
    }

    fn new_obj(&mut self, id: u32, val: u8) -> usize {
        self.o.push(Obj { id, val, alive: true, broken: false, blocks: vec![], held: None, scope: self.scope });
        self.o.len() - 1
    }

    /// The blocks that the operation obtained belong to the object.
    fn own_blocks(&mut self, from: usize, obj: usize) {
        for b in from..heap().blocks.len() {
            self.o[obj].blocks.push(b);
        }
    }

    fn selection(&self, s0: usize, b0: usize, created: bool) {
        let h = heap();
        let want = AllocSelector::new::<T>();
        let uninit = AllocSelector::new::<MaybeUninit<T>>();
        for (sc, sel) in &h.sel_log[s0..] {
            if *sc != self.scope {
                bad!(Sel, "scope {sc} is asked for an allocator while scope {} is current", self.scope);
            }
            if sel.ty() != want.ty() && sel.ty() != uninit.ty() || marker_no(sel.marker()) != 0 {
                bad!(Sel, "allocator is asked for {sel:?} instead of {want:?}");
            }
        }
        for b in &h.blocks[b0..] {
            if b.alloc != alloc_no(self.scope, 0) {
                bad!(Sel, "memory comes from allocator {} instead of {}", b.alloc, alloc_no(self.scope, 0));
            }
        }
        if created && h.sel_log.len() == s0 {
            bad!(Sel, "the current scope is not asked for an allocator");
        }
    }

    fn arm(fault: Fault) {
        match fault {
            Fault::Panic(k) => {
                reg().cb = 0;
                reg().panic_at = k
            }
            Fault::Alloc(k) => {
                heap().requests = 0;
                heap().fail_at = k
            }
            Fault::None => {}
        }
    }
    fn disarm() {
        reg().panic_at = 0;
        heap().fail_at = 0;
    }

    /// Destroy something, returns false if that panicked.
    fn destroy(&mut self, x: impl Sized) -> bool {
        catch(|| drop(x)).is_some()
    }

    fn after_destroy(&mut self, ok: bool, fault: Fault) {
        let before: Vec<bool> = self.o.iter().map(|o| o.alive).collect();
        self.settle();
        if !ok {
            if !matches!(fault, Fault::Panic(_)) {
                bad!(Own, "unexpected panic on destruction of a handle");
            }
            for (i, o) in self.o.iter_mut().enumerate() {
                if before[i] && !o.alive {
                    o.broken = true;
                    for &b in &o.blocks {
                        heap().blocks[b].forgiven = true;
                    }
                }
            }
        }
    }

    fn exec(&mut self, op: Op, fault: Fault) {
        let (s0, b0) = (heap().sel_log.len(), heap().blocks.len());
        let c0 = reg().clones + reg().zclones;
        let v0 = heap().viol.len();
        let faulty = fault != Fault::None;
        Self::arm(fault);
        let failed = |what: &str| {
            Self::disarm();
            if !faulty {
                bad!(Sem, "{what} panicked");
            }
            outcome("failed");
        };
        match op {
            Op::Scope(n) => {
                self.scope = n;
                set_scope(n);
                return;
            }
            Op::New(how) => {
                let val = if self.live_objs() > 0 { 2 } else { 0 };
                let t = quiet(|| T::make(val));
                let id = t.id();
                let r = catch(|| P::make(how, t));
                Self::disarm();
                match r {
                    Some(Ok(p)) => {
                        if matches!(fault, Fault::Alloc(_)) {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        let o = self.new_obj(id, val);
                        self.own_blocks(b0, o);
                        self.grps += 1;
                        self.add(o, self.grps, K::Strong, how, Real::S(p));
                        self.selection(s0, b0, true);
                    }
                    Some(Err(())) => {
                        if !faulty {
                            bad!(Sem, "try_ constructor failed");
                        }
                        // The value is taken by the constructor all the same.
                        let tried = matches!((P::NAME, how), ("Arc" | "Urc", 1 | 3 | 5));
                        if !tried {
                            bad!(Fault, "harness: error of an infallible constructor");
                        }
                        self.consumed(id);
                    }
                    None => {
                        failed("constructor");
                        if matches!((P::NAME, how), ("Arc" | "Urc", 1 | 3)) {
                            bad!(Fault, "failed allocation made the try_ constructor panic");
                        }
                        self.consumed(id);
                    }
                }
            }
            Op::Clone(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let Real::S(p) = &self.h[i].1 else { unreachable!() };
                let r = catch(|| p.clone());
                Self::disarm();
                match r {
                    Some(q) => self.add(m.obj, m.grp, K::Strong, 10, Real::S(q)),
                    None => failed("clone"),
                }
            }
            Op::CloneFrom(i, j) => {
                let (_, mut r) = self.h.remove(i as usize);
                let j = j as usize - (j > i) as usize;
                let m = self.h[j].0;
                let src = &self.h[j].1;
                let ok = catch(|| match (&mut r, src) {
                    (Real::S(a), Real::S(b)) => a.clone_from(b),
                    (Real::W(a), Real::W(b)) => P::w_clone_from(a, b),
                    _ => unreachable!(),
                })
                .is_some();
                Self::disarm();
                self.after_destroy(ok, fault);
                self.add(m.obj, m.grp, m.k, 10, r);
            }
            Op::Downgrade(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let Real::S(p) = &self.h[i].1 else { unreachable!() };
                let r = catch(|| p.downgrade());
                Self::disarm();
                match r {
                    Some(w) => self.add(m.obj, m.grp, K::Weak, 10, Real::W(w)),
                    None => failed("downgrade"),
                }
            }
            Op::WeakNew => {
                let w = P::w_new();
                Self::disarm();
                self.add(NONE, 0, K::Weak, 11, Real::W(w));
            }
            Op::WeakClone(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let Real::W(w) = &self.h[i].1 else { unreachable!() };
                let w = P::w_clone(w);
                Self::disarm();
                self.add(m.obj, m.grp, K::Weak, 12, Real::W(w));
            }
            Op::Upgrade(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let Real::W(w) = &self.h[i].1 else { unreachable!() };
                let r = catch(|| P::w_upgrade(w));
                Self::disarm();
                let ok = m.obj != NONE && self.o[m.obj].alive;
                match r {
                    Some(Some(p)) if ok => {
                        outcome("some");
                        self.add(m.obj, m.grp, K::Strong, 11, Real::S(p))
                    }
                    Some(None) if !ok => outcome("none"),
                    Some(Some(p)) => {
                        bad!(Count, "weak handle is upgraded while the value is gone");
                        std::mem::forget(p);
                    }
                    Some(None) => bad!(Count, "weak handle is not upgraded while the value is alive"),
                    None => failed("upgrade"),
                }
            }
            Op::Drop(i) => {
                let (m, r) = self.h.remove(i as usize);
                let env = m.k == K::Env;
                let ok = self.destroy(r);
                Self::disarm();
                self.after_destroy(ok, fault);
                if env {
                    self.check(op);
                    self.escalate(v0, false, true);
                    return;
                }
            }
            Op::GetMut(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let sole = self.strong(m.obj) == 1 && self.weak(m.obj) == 0;
                let val = self.o[m.obj].val ^ 1;
                let Real::S(p) = &mut self.h[i].1 else { unreachable!() };
                let addr = p.get() as *const T;
                let r = catch(|| {
                    p.get_mut().map(|v| {
                        if v as *const T != addr {
                            bad!(Excl, "get_mut leads to other place");
                        }
                        quiet(|| v.set_val(val));
                    })
                });
                Self::disarm();
                match r {
                    Some(Some(())) => {
                        outcome("granted");
                        if !sole {
                            bad!(Excl, "get_mut is granted with {} strong and {} weak handles", self.strong(m.obj), self.weak(m.obj));
                        }
                        self.o[m.obj].val = val;
                    }
                    Some(None) => {
                        outcome("refused");
                        if sole {
                            bad!(Excl, "get_mut is refused to the only handle");
                        }
                    }
                    None => failed("get_mut"),
                }
            }
            Op::TryUnwrap(i) => {
                let (m, r) = self.h.remove(i as usize);
                let sole = self.strong(m.obj) == 0 && self.o[m.obj].alive;
                let Real::S(p) = r else { unreachable!() };
                let r = match catch(|| p.try_unwrap()) {
                    Some(Ok(v)) => Res::Val(v),
                    Some(Err(p)) => {
                        self.h.insert(i as usize, (m, Real::S(p)));
                        Res::No
                    }
                    None => Res::Panic,
                };
                Self::disarm();
                match r {
                    Res::Val(v) => {
                        outcome("granted");
                        v.check();
                        if T::IDS && v.id() != self.o[m.obj].id || T::VALS && v.val() != self.o[m.obj].val {
                            bad!(Excl, "try_unwrap gave value {v:?}");
                        }
                        if !sole {
                            bad!(Excl, "try_unwrap is granted while there are other strong handles");
                            std::mem::forget(v);
                        } else {
                            // The value may hold handles.
                            quiet(|| drop(v));
                        }
                        self.settle();
                    }
                    Res::No => {
                        outcome("refused");
                        if sole {
                            bad!(Excl, "try_unwrap is refused to the only strong handle");
                        }
                    }
                    _ => failed("try_unwrap"),
                }
            }
            Op::MakeMut(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let (strong, weak) = (self.strong(m.obj), self.weak(m.obj));
                let (val, id) = (self.o[m.obj].val ^ 1, self.o[m.obj].id);
                let nid = reg().next();
                let Real::S(p) = &mut self.h[i].1 else { unreachable!() };
                let before = p.get() as *const T;
                let r = catch(|| {
                    let v = p.make_mut();
                    let a = v as *const T;
                    quiet(|| v.set_val(val));
                    a
                });
                Self::disarm();
                let clones = reg().clones + reg().zclones - c0;
                match r {
                    Some(a) => {
                        if matches!(fault, Fault::Alloc(_)) {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        let Real::S(p) = &self.h[i].1 else { unreachable!() };
                        if a != p.get() as *const T {
                            bad!(Excl, "make_mut leads to other place than the handle");
                        }
                        if strong > 1 {
                            outcome("cloned");
                            if T::COUNTED && clones != 1 {
                                bad!(Excl, "make_mut made {clones} clones");
                            }
                            let o = self.new_obj(nid, val);
                            self.own_blocks(b0, o);
                            self.grps += 1;
                            let tag = 12;
                            self.h[i].0 = HM { obj: o, grp: self.grps, k: K::Strong, tag };
                            self.selection(s0, b0, true);
                            self.settle();
                        } else {
                            if T::COUNTED && clones != 0 {
                                bad!(Excl, "make_mut made {clones} clones for the only strong handle");
                            }
                            if weak == 0 {
                                outcome("in place");
                                if a != before {
                                    bad!(Excl, "make_mut moved the value of the only handle");
                                }
                                self.o[m.obj].val = val;
                            } else {
                                outcome("taken over");
                                let held = self.o[m.obj].held.take();
                                self.o[m.obj].alive = false;
                                self.o[m.obj].id = NOID;
                                let o = self.new_obj(id, val);
                                self.o[o].held = held;
                                self.own_blocks(b0, o);
                                self.grps += 1;
                                self.h[i].0 = HM { obj: o, grp: self.grps, k: K::Strong, tag: 13 };
                                self.selection(s0, b0, true);
                            }
                        }
                    }
                    None => {
                        failed("make_mut");
                    }
                }
            }
            Op::Envelop(i) => {
                let i = i as usize;
                let m = self.h[i].0;
                let Real::S(p) = &self.h[i].1 else { unreachable!() };
                let r = catch(|| p.envelop());
                Self::disarm();
                if reg().clones + reg().zclones != c0 {
                    bad!(Env, "sending made clones of the value");
                }
                match r {
                    Some(e) => {
                        if matches!(fault, Fault::Alloc(_)) {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        self.own_blocks(b0, m.obj);
                        let g = if P::FENCE {
                            self.grps += 1;
                            self.grps
                        } else {
                            m.grp
                        };
                        self.add(m.obj, g, K::Env, 0, Real::E(e));
                        self.selection(s0, b0, false);
                    }
                    None => failed("envelop"),
                }
            }
            Op::Recv(i) => {
                let (m, r) = self.h.remove(i as usize);
                let Real::E(e) = r else { unreachable!() };
                let r = catch(|| P::recv(e));
                Self::disarm();
                if reg().clones + reg().zclones != c0 {
                    bad!(Env, "receiving made clones of the value");
                }
                match r {
                    Some(p) => {
                        if T::IDS && p.get().id() != self.o[m.obj].id {
                            bad!(Env, "received handle is to other value");
                        }
                        self.add(m.obj, m.grp, K::Strong, 13, Real::S(p))
                    }
                    None => failed("recv"),
                }
            }
            Op::ToFence(i) => {
                let (m, r) = self.h.remove(i as usize);
                let Real::S(p) = r else { unreachable!() };
                // Without the handle itself.
                let sole = self.count(m.obj, Some(m.grp), false) == 0 && self.count(m.obj, Some(m.grp), true) == 0;
                let r = catch(|| p.to_fence());
                Self::disarm();
                match r {
                    Some(Ok(f)) => {
                        outcome("granted");
                        if !sole {
                            bad!(Excl, "handle that is not alone is turned into a fence");
                        }
                        self.h.insert(i as usize, (HM { k: K::Fence, tag: 0, ..m }, Real::F(f)));
                    }
                    Some(Err(p)) => {
                        outcome("refused");
                        if sole {
                            bad!(Excl, "sole handle is not turned into a fence");
                        }
                        self.h.insert(i as usize, (m, Real::S(p)));
                    }
                    None => failed("try_into_fence"),
                }
            }
            Op::FromFence(i) => {
                let (m, r) = self.h.remove(i as usize);
                let Real::F(f) = r else { unreachable!() };
                let r = catch(|| P::from_fence(f));
                Self::disarm();
                match r {
                    Some(p) => {
                        if matches!(fault, Fault::Alloc(_)) {
                            bad!(Fault, "failed allocation is not reported");
                        }
                        self.own_blocks(b0, m.obj);
                        self.add(m.obj, m.grp, K::Strong, 14, Real::S(p))
                    }
                    None => {
                        failed("into_urc");
                        // The share is taken by the call all the same.
                        self.settle();
                    }
                }
            }
            Op::Store(i, j) => {
                let (i, j) = (i as usize, j as usize);
                let tgt = self.h[j].0.obj;
                let (m, r) = self.h.remove(i);
                let j = if j > i { j - 1 } else { j };
                let Real::S(p) = &self.h[j].1 else { unreachable!() };
                let b: Box<dyn Any> = match r {
                    Real::S(p) => Box::new(p),
                    Real::W(w) => Box::new(w),
                    Real::E(e) => Box::new(e),
                    Real::F(f) => Box::new(f),
                };
                (p.get() as &dyn Any).downcast_ref::<Node>().unwrap().hold.borrow_mut().push(b);
                Self::disarm();
                self.o[tgt].held = Some(m);
            }
            Op::Unstore(j) => {
                let tgt = self.h[j as usize].0.obj;
                let Real::S(p) = &self.h[j as usize].1 else { unreachable!() };
                let b = (p.get() as &dyn Any).downcast_ref::<Node>().unwrap().hold.borrow_mut().pop();
                let ok = self.destroy(b);
                Self::disarm();
                self.o[tgt].held = None;
                self.after_destroy(ok, fault);
            }
        }
        self.check(op);
        let excl = matches!(op, Op::GetMut(_) | Op::MakeMut(_) | Op::TryUnwrap(_));
        self.escalate(v0, excl, matches!(op, Op::Envelop(_) | Op::Recv(_)));
    }

    /// The constructor failed and took the value with it.
    fn consumed(&mut self, id: u32) {
        if T::IDS && reg().is_live(id) {
            bad!(Fault, "value given to a failed constructor is never destroyed");
        }
    }
}

struct Shown<'a, T>(&'a dyn Any, PhantomData<T>);
impl<T: Elem> std::fmt::Debug for Shown<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self.0.downcast_ref::<rc::Weak<T>>() {
            Some(w) => w.fmt(f),
            None => Ok(()),
        }
    }
}

fn inside<T>(v: &T, b: &crate::mem::Block) -> bool {
    let p = v as *const T as usize;
    b.live && p >= b.ptr as usize && p + std::mem::size_of::<T>() <= b.ptr as usize + b.size
}

impl<T: Elem, P: Ptr<T>> World for PW<T, P> {
    type Op = Op;
    type Cfg = Cfg;
    fn name(c: &Cfg) -> String {
        format!("{}<{}> handles<={} values<={}{}{}", P::NAME, T::NAME, c.handles, c.objs, if c.store { " storing" } else { "" }, if c.scopes { " scopes" } else { "" })
    }
    fn new(cfg: &Cfg) -> Self {
        PROBE.with(|p| p.set(probe_of::<T, P>));
        PW { cfg: cfg.clone(), h: vec![], o: vec![], scope: 0, grps: 0, _p: PhantomData }
    }
    fn ops(&self, out: &mut Vec<Op>) {
        let full = self.h.len() + self.o.iter().filter(|o| o.held.is_some()).count() >= self.cfg.handles;
        let more = self.live_objs() < self.cfg.objs;
        if !full && more {
            out.extend((0..P::CTORS).map(Op::New));
        }
        if !full && P::WEAK_API && !self.h.iter().any(|h| h.0.obj == NONE) {
            out.push(Op::WeakNew);
        }
        if self.cfg.scopes {
            out.push(Op::Scope(1 - self.scope));
        }
        for (i, (m, _)) in self.h.iter().enumerate() {
            // Handles alike in everything are the same.
            if self.h[..i].iter().any(|h| h.0 == *m) {
                continue;
            }
            let n = i as u8;
            out.push(Op::Drop(n));
            if m.k == K::Strong || m.k == K::Weak && P::WEAK_API {
                for (k, (m2, _)) in self.h.iter().enumerate() {
                    if m2.k == m.k && k != i && !self.h[..k].iter().enumerate().any(|(l, h)| h.0 == *m2 && l != i) {
                        out.push(Op::CloneFrom(n, k as u8));
                    }
                }
            }
            match m.k {
                K::Strong => {
                    if !full {
                        out.push(Op::Clone(n));
                        out.push(Op::Downgrade(n));
                        if P::ENV {
                            out.push(Op::Envelop(n));
                        }
                    }
                    out.push(Op::GetMut(n));
                    out.push(Op::TryUnwrap(n));
                    let one_more = self.strong(m.obj) > 1 || self.weak(m.obj) > 0;
                    if more || !one_more {
                        out.push(Op::MakeMut(n));
                    }
                    if P::FENCE {
                        out.push(Op::ToFence(n));
                    }
                    if self.cfg.store {
                        if self.o[m.obj].held.is_some() {
                            out.push(Op::Unstore(n));
                        } else {
                            for (k, (m2, _)) in self.h.iter().enumerate() {
                                if k == i || m2.obj == NONE || self.h[..k].iter().enumerate().any(|(l, h)| h.0 == *m2 && l != i) {
                                    continue;
                                }
                                match m2.k {
                                    K::Strong if !self.reaches(m2.obj, m.obj) => out.push(Op::Store(k as u8, n)),
                                    K::Weak => out.push(Op::Store(k as u8, n)),
                                    _ => {}
                                }
                            }
                        }
                    }
                }
                K::Weak => {
                    if !full && P::WEAK_API {
                        out.push(Op::WeakClone(n));
                        out.push(Op::Upgrade(n));
                    }
                }
                K::Env => out.push(Op::Recv(n)),
                K::Fence => out.push(Op::FromFence(n)),
            }
        }
    }
    fn apply(&mut self, op: Op) {
        self.exec(op, Fault::None)
    }
    fn apply_fault(&mut self, op: Op, fault: Fault) {
        let (h0, live0) = (self.h.len(), T::live());
        let v0 = heap().viol.len();
        self.exec(op, fault);
        Self::disarm();
        if let Fault::Alloc(_) = fault {
            if heap().failed == 0 {
                bad!(Fault, "harness: failure was not injected");
            }
            let _ = (h0, live0);
            // All of the state was compared with the one before. Retry can succeed.
            let retry = match op {
                Op::New(_) | Op::MakeMut(_) | Op::Envelop(_) => true,
                _ => false,
            };
            if heap().viol.len() == v0 && retry && !resumes() {
                self.exec(op, Fault::None);
            }
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
    }
    fn key(&self, out: &mut Vec<u8>) {
        // Objects in the order of their signatures, groups within an object likewise.
        let mut sigs: Vec<(Vec<u8>, usize)> = vec![];
        let enc = |obj: usize| {
            let mut groups: std::collections::BTreeMap<usize, Vec<u8>> = Default::default();
            for (h, held) in self.h.iter().map(|h| (h.0, 0)).chain(self.o.iter().filter(|o| o.alive).filter_map(|o| o.held.map(|h| (h, 100)))) {
                if h.obj == obj {
                    groups.entry(h.grp).or_default().push(1 + h.tag + 20 * (h.k as u8) + held);
                }
            }
            let mut g: Vec<Vec<u8>> = groups
                .into_values()
                .map(|mut v| {
                    v.sort();
                    v.push(0);
                    v
                })
                .collect();
            g.sort();
            g.concat()
        };
        for i in 0..self.o.len() {
            if self.o[i].alive || self.any(i) {
                let o = &self.o[i];
                let mut s = vec![o.alive as u8, o.val, o.scope, o.held.map_or(0, |h| 1 + h.k as u8)];
                s.extend(enc(i));
                sigs.push((s, i));
            }
        }
        sigs.sort();
        out.push(self.scope);
        out.extend(enc(NONE));
        for (s, i) in &sigs {
            out.push(255);
            out.extend(s);
            if let Some(h) = self.o[*i].held {
                out.push(sigs.iter().position(|x| x.1 == h.obj).map_or(99, |p| p as u8));
                out.push(h.tag);
                // Which group of the target it belongs to.
                let sig: usize = self.h.iter().filter(|x| x.0.obj == h.obj && x.0.grp == h.grp).map(|x| 1 + x.0.tag as usize + 20 * x.0.k as usize).sum();
                out.push(sig as u8);
            }
        }
    }
    fn finish(mut self, _last: Option<Op>, fault: Fault) {
        let h = std::mem::take(&mut self.h);
        for (_, r) in h {
            if catch(|| drop(r)).is_none() {
                bad!(Own, "destruction of a handle panicked");
            }
        }
        let v0 = heap().viol.len();
        if T::COUNTED && T::live() != 0 {
            bad!(Own, "{} values are never destroyed", T::live());
        }
        heap().check_leaks();
        heap().check_blocks();
        if matches!(fault, Fault::Alloc(_)) {
            for v in &mut heap().viol[v0..] {
                v.0 = Kind::Fault;
            }
        }
        if matches!(_last, Some(Op::Envelop(_) | Op::Recv(_))) {
            self.escalate(v0, false, true);
        }
    }
}

/// Long straight histories: many handles at once, made and dropped in several orders.
pub mod many {
    use super::*;
    use crate::engine::step;

    const NS: [usize; 19] = [1, 2, 7, 8, 9, 15, 16, 17, 31, 63, 127, 128, 129, 255, 256, 257, 65535, 65536, 65537];
    const KINDS: [(bool, bool, bool); 4] = [(true, false, false), (false, true, false), (true, true, false), (true, true, true)];
    /// Order in which the handles are dropped.
    const ORDERS: u64 = 6;
    /// Groups (separate counts, each is a block of memory) are made only up to this.
    const GROUPS: usize = 300;
    pub const CASES: u64 = NS.len() as u64 * KINDS.len() as u64 * ORDERS;

    pub fn label(i: u64) -> String {
        let (n, k, o) = split(i);
        format!("{n} handles of each kind: strong {}, weak {}, envelopes {}; order {o}", k.0, k.1, k.2)
    }
    fn split(i: u64) -> (usize, (bool, bool, bool), u64) {
        let k = KINDS.len() as u64;
        (NS[(i / ORDERS / k) as usize], KINDS[(i / ORDERS % k) as usize], i % ORDERS)
    }

    pub fn case<P: Ptr<Tok>>(i: u64) {
        let (n, (s, w, e), order) = split(i);
        if e && (!P::ENV || n > GROUPS) {
            return;
        }
        let made = Tok::make(3);
        let id = made.id();
        let Ok(first) = P::make(0, made) else {
            bad!(Sem, "construction failed");
            return;
        };
        let mut strong = vec![first];
        let mut weak: Vec<P::W> = vec![];
        let mut env: Vec<P::E> = vec![];
        // One group for all the handles, and one for each envelope of Urc.
        let counts = |at: &P, s: usize, w: usize, e: usize, k: &str| {
            let (own, groups) = if P::FENCE { (s, Some(e == 0)) } else { (s + e, None) };
            let got = at.counts();
            if (got.0, got.1) != (own, w) || groups.is_some() && got.2.is_some() && groups != got.2 {
                bad!(Count, "{k}: counts are {got:?} while {s} strong handles, {w} weak ones and {e} envelopes exist");
            }
            if !reg().is_live(id) {
                bad!(Own, "{k}: value was destroyed while {s} strong handles and {e} envelopes exist");
            }
            step(format!("{} {s} {w} {e}", P::NAME).as_bytes());
        };
        for j in 0..n {
            if s {
                let c = strong[j / 2].clone();
                strong.push(c);
            }
            if w {
                let c = if P::WEAK_API && j % 2 == 1 { P::w_clone(&weak[j / 2]) } else { strong[strong.len() / 2].downgrade() };
                weak.push(c);
            }
            if e {
                env.push(strong[j / 3].envelop());
            }
            counts(&strong[0], strong.len(), weak.len(), env.len(), "while making");
            if strong.len() > 1 && !P::ptr_eq(&strong[0], &strong[strong.len() - 1]) {
                bad!(Own, "clone refers to another value");
            }
        }
        if !heap().viol.is_empty() {
            return cleanup(strong, weak, env);
        }
        let sole = strong.len() == 1 && env.is_empty();
        if strong[0].get_mut().is_some() != (sole && weak.is_empty()) {
            bad!(Excl, "get_mut with {} strong handles, {} weak ones and {} envelopes", strong.len(), weak.len(), env.len());
        }
        if !sole {
            let l = strong.len() - 1;
            match strong.pop().unwrap().try_unwrap() {
                Err(p) => strong.push(p),
                Ok(v) => {
                    bad!(Excl, "try_unwrap succeeded with {} more strong handles and {} envelopes", l, env.len());
                    std::mem::forget(v);
                    return;
                }
            }
        }
        if !heap().viol.is_empty() {
            return cleanup(strong, weak, env);
        }
        // Half of the envelopes are opened.
        let mut opened: Vec<P> = vec![];
        if order % 2 == 0 {
            for _ in 0..env.len() / 2 {
                let h = P::recv(env.pop().unwrap());
                if h.get().val() != 3 || h.get().id() != id {
                    bad!(Env, "envelope gave another value");
                }
                opened.push(h);
            }
        }
        // What is dropped next.
        let mut t = 0usize;
        let mut alive = true;
        let mut quick = false;
        while !strong.is_empty() || !weak.is_empty() || !env.is_empty() || !opened.is_empty() {
            t += 1;
            let pick = match order {
                0 => [0, 1, 2, 3],
                1 => [1, 2, 3, 0],
                2 => [2, 3, 0, 1],
                3 => [3, 0, 1, 2],
                4 => [t % 4, (t + 1) % 4, (t + 2) % 4, (t + 3) % 4],
                _ => [t % 2, t % 2 ^ 1, 2, 3],
            };
            let front = order >= 3;
            for p in pick {
                macro_rules! take {
                    ($v:ident) => {
                        if $v.is_empty() {
                            continue;
                        } else if front {
                            let l = $v.len() - 1;
                            $v.swap(0, l);
                            drop($v.pop())
                        } else {
                            drop($v.pop())
                        }
                    };
                }
                match p {
                    0 => take!(strong),
                    1 => take!(weak),
                    2 => take!(env),
                    _ => take!(opened),
                }
                break;
            }
            let owners = strong.len() + env.len() + opened.len();
            if let Some(p) = strong.first() {
                counts(p, strong.len(), weak.len(), env.len() + opened.len(), "while dropping");
            } else if owners > 0 && !reg().is_live(id) {
                bad!(Own, "value was destroyed while {} envelopes and {} opened ones exist", env.len(), opened.len());
            } else if owners == 0 && alive {
                alive = false;
                if reg().is_live(id) {
                    bad!(Own, "value is not destroyed when its last strong handle is gone, {} weak ones are left", weak.len());
                }
            }
            if P::WEAK_API && !weak.is_empty() && (!quick || t % 251 == 0) {
                quick = true;
                let l = weak.len() - 1;
                match P::w_upgrade(&weak[l]) {
                    Some(p) if owners > 0 => {
                        if p.get().id() != id {
                            bad!(Own, "upgrade gave another value");
                        }
                    }
                    None if owners == 0 => {}
                    u => bad!(Own, "upgrade {} with {owners} strong handles", if u.is_some() { "succeeded" } else { "failed" }),
                }
                let want = (owners, weak.len());
                match P::w_counts(&weak[l]) {
                    Some(c) if c != want => bad!(Count, "weak handle tells {c:?} instead of {want:?}"),
                    _ => {}
                }
            }
            if !heap().viol.is_empty() {
                strong.append(&mut opened);
                return cleanup(strong, weak, env);
            }
        }
        heap().check_leaks();
        heap().check_blocks();
        if Tok::live() != 0 {
            bad!(Own, "{} values are never destroyed", Tok::live());
        }
    }

    /// Something is wrong already, do not touch what may be dangling.
    fn cleanup<A, B, C>(a: Vec<A>, b: Vec<B>, c: Vec<C>) {
        std::mem::forget((a, b, c));
    }
}

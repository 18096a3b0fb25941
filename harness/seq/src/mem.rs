//! Instrumented allocators and scopes the library is run on.
//!
//! Every worker thread owns a `Heap`: a bump arena in which every block is surrounded by red zones,
//! blocks are poisoned when obtained and when given back, and nothing is reused within one execution.
//! Each protocol violation is reported to the thread's violation list.

use lokky::scope::{AllocMarker, AllocSelector, Env, Scope};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::{Cell, UnsafeCell};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// Wrong result, contents, order, panic or no panic.
    Sem,
    /// Element destroyed twice, never, or exposed after its destruction.
    Own,
    /// Broken allocator protocol, access out of bounds or after release.
    Mem,
    /// Block never given back.
    Leak,
    /// Capacity contract.
    Cap,
    /// Inline storage contract.
    Inline,
    /// Allocator selection and markers.
    Sel,
    /// Text is not well formed.
    Utf8,
    /// After an injected failure.
    Fault,
    /// Counts of handles.
    Count,
    /// Exclusive access.
    Excl,
    /// Envelopes.
    Env,
    /// Comparison, hash, print.
    Fwd,
    /// Current scope
    Scope,
}

/// Build with the address sanitizer: everything outside of live blocks is poisoned, so that reads
/// are noticed as well as writes. What it finds ends the process (see `engine::setup`).
#[cfg(seq_asan)]
pub mod asan {
    extern "C" {
        fn __asan_poison_memory_region(p: *const u8, n: usize);
        fn __asan_unpoison_memory_region(p: *const u8, n: usize);
    }
    pub fn poison(p: *const u8, n: usize) {
        unsafe { __asan_poison_memory_region(p, n) }
    }
    pub fn unpoison(p: *const u8, n: usize) {
        unsafe { __asan_unpoison_memory_region(p, n) }
    }
    /// Places of blocks are exact in units of this.
    pub const UNIT: usize = 8;
}
#[cfg(not(seq_asan))]
pub mod asan {
    pub fn poison(_: *const u8, _: usize) {}
    pub fn unpoison(_: *const u8, _: usize) {}
    pub const UNIT: usize = 1;
}

const RZ: usize = 32;
const RZ_BYTE: u8 = 0xE7;
const NEW_BYTE: u8 = 0xA5;
const FREE_BYTE: u8 = 0xDD;
const ARENA: usize = 1 << 25;
pub const MAX_REQUEST: usize = 1 << 20;

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub ptr: *mut u8,
    pub size: usize,
    pub align: usize,
    pub alloc: u8,
    pub live: bool,
    pub forgiven: bool,
}

pub struct Heap {
    base: *mut u8,
    top: usize,
    pub blocks: Vec<Block>,
    pub live: usize,
    /// Number of allocator requests for memory so far (alloc and growing or shrinking realloc).
    pub requests: u32,
    /// All the allocator calls.
    pub calls: u32,
    /// Which allocators were called, bit set.
    pub called: u32,
    pub fail_at: u32,
    pub failed: u32,
    pub sel_log: Vec<(u8, AllocSelector)>,
    pub viol: Vec<(Kind, String)>,
    pub cur_scope: u8,
}

thread_local! {
    static HEAP: UnsafeCell<Heap> = UnsafeCell::new(Heap {
        base: std::ptr::null_mut(), top: 0, blocks: Vec::new(), live: 0, requests: 0, calls: 0, called: 0, fail_at: 0, failed: 0,
        sel_log: Vec::new(), viol: Vec::new(), cur_scope: 0,
    });
    static ENVP: Cell<*mut Env> = const { Cell::new(std::ptr::null_mut()) };
}

#[allow(clippy::mut_from_ref)]
pub fn heap() -> &'static mut Heap {
    HEAP.with(|h| unsafe {
        let h = &mut *h.get();
        if h.base.is_null() {
            let l = Layout::from_size_align(ARENA, 4096).unwrap();
            h.base = std::alloc::alloc(l);
            asan::poison(h.base, ARENA);
            h.blocks.reserve(256);
        }
        &mut *(h as *mut Heap)
    })
}

pub fn report(kind: Kind, msg: String) {
    let h = heap();
    if h.viol.len() < 16 {
        h.viol.push((kind, msg));
    }
}

#[macro_export]
macro_rules! bad {
    ($k:ident, $($t:tt)*) => { $crate::mem::report($crate::mem::Kind::$k, format!($($t)*)) };
}

impl Heap {
    pub fn reset(&mut self) {
        asan::poison(self.base, self.top);
        self.top = 0;
        self.blocks.clear();
        self.live = 0;
        self.requests = 0;
        self.calls = 0;
        self.called = 0;
        self.fail_at = 0;
        self.failed = 0;
        self.sel_log.clear();
        self.viol.clear();
    }

    pub fn contains(&self, p: *const u8) -> bool {
        let p = p as usize;
        p >= self.base as usize && p < self.base as usize + ARENA
    }

    /// Live block that contains the given address.
    pub fn block_of(&self, p: *const u8) -> Option<&Block> {
        let p = p as usize;
        self.blocks.iter().find(|b| b.live && p >= b.ptr as usize && p < b.ptr as usize + b.size)
    }

    unsafe fn alloc(&mut self, id: u8, layout: Layout) -> *mut u8 {
        self.calls += 1;
        self.called |= 1 << id;
        self.requests += 1;
        if layout.size() == 0 {
            report(Kind::Mem, format!("zero-sized request to allocator {id}"));
            return layout.align() as *mut u8;
        }
        if self.fail_at != 0 && self.requests == self.fail_at {
            self.failed += 1;
            return std::ptr::null_mut();
        }
        self.place(id, layout)
    }

    unsafe fn place(&mut self, id: u8, layout: Layout) -> *mut u8 {
        let (size, align) = (layout.size(), layout.align().max(asan::UNIT));
        // Requests too big are refused, as by any real allocator.
        if size > MAX_REQUEST {
            self.failed += 1;
            return std::ptr::null_mut();
        }
        if self.top + size + 2 * RZ + 2 * align + 64 > ARENA {
            // Nothing within the bounds of the checkers needs this much.
            crate::engine::give_up("requests memory without bound");
        }
        let lo = self.base as usize + self.top;
        let mut p = (lo + RZ + align - 1) & !(align - 1);
        // Exactly the asked alignment and no better.
        if p & (2 * align - 1) == 0 {
            p += align;
        }
        let end = p + size + RZ;
        asan::unpoison(p as *const u8, size);
        std::ptr::write_bytes(p as *mut u8, NEW_BYTE, size);
        if !cfg!(seq_asan) {
            std::ptr::write_bytes(lo as *mut u8, RZ_BYTE, p - lo);
            std::ptr::write_bytes((p + size) as *mut u8, RZ_BYTE, RZ);
        }
        self.top = end - self.base as usize;
        self.blocks.push(Block { ptr: p as *mut u8, size, align: layout.align(), alloc: id, live: true, forgiven: false });
        self.live += 1;
        p as *mut u8
    }

    unsafe fn release(&mut self, id: u8, ptr: *mut u8, layout: Layout, what: &str) -> bool {
        let Some(b) = self.blocks.iter_mut().find(|b| b.ptr == ptr) else {
            report(Kind::Mem, format!("{what} of {:?} which was never obtained ({layout:?})", ptr));
            return false;
        };
        if !b.live {
            report(Kind::Mem, format!("{what} of a block of {} bytes that was given back before", b.size));
            return false;
        }
        if b.alloc != id {
            report(Kind::Mem, format!("{what} of a block obtained from allocator {} to allocator {id}", b.alloc));
        }
        if b.size != layout.size() || b.align != layout.align() {
            report(
                Kind::Mem,
                format!("{what} with size {} align {} of a block obtained with size {} align {}", layout.size(), layout.align(), b.size, b.align),
            );
        }
        b.live = false;
        self.live -= 1;
        let b = *b;
        check_red_zones(&b);
        std::ptr::write_bytes(b.ptr, FREE_BYTE, b.size);
        asan::poison(b.ptr, b.size);
        true
    }

    unsafe fn dealloc(&mut self, id: u8, ptr: *mut u8, layout: Layout) {
        self.calls += 1;
        self.called |= 1 << id;
        if layout.size() == 0 {
            report(Kind::Mem, format!("zero-sized memory given back to allocator {id}"));
            return;
        }
        self.release(id, ptr, layout, "dealloc");
    }

    unsafe fn realloc(&mut self, id: u8, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        self.calls += 1;
        self.called |= 1 << id;
        self.requests += 1;
        if layout.size() == 0 || new_size == 0 {
            report(Kind::Mem, format!("zero-sized realloc from {} to {new_size}", layout.size()));
        }
        if new_size == 0 {
            return layout.align() as *mut u8;
        }
        if self.fail_at != 0 && self.requests == self.fail_at {
            self.failed += 1;
            return std::ptr::null_mut();
        }
        let new_layout = match Layout::from_size_align(new_size, layout.align()) {
            Ok(l) => l,
            Err(_) => {
                report(Kind::Mem, format!("realloc to size {new_size} that overflows isize"));
                return std::ptr::null_mut();
            }
        };
        let new = self.place(id, new_layout);
        if new.is_null() {
            return new;
        }
        // Always moves.
        let old = self.blocks.iter().find(|b| b.ptr == ptr && b.live).map(|b| b.size);
        if let Some(old) = old {
            std::ptr::copy_nonoverlapping(ptr, new, old.min(new_size));
        }
        self.release(id, ptr, layout, "realloc");
        new
    }

    /// Check that nothing was written outside of blocks or to blocks that were given back.
    pub fn check_blocks(&self) {
        if cfg!(seq_asan) {
            return;
        }
        for b in &self.blocks {
            check_red_zones(b);
            if !b.live {
                let s = unsafe { std::slice::from_raw_parts(b.ptr, b.size) };
                if let Some(i) = s.iter().position(|&v| v != FREE_BYTE) {
                    report(Kind::Mem, format!("write at offset {i} to a block of {} bytes after it was given back", b.size));
                }
            }
        }
    }

    /// All the blocks must be given back.
    pub fn check_leaks(&self) {
        for b in &self.blocks {
            if b.live && !b.forgiven {
                report(Kind::Leak, format!("block of {} bytes (align {}) was never given back", b.size, b.align));
            }
        }
    }

    /// Blocks alive now are leaked on purpose.
    pub fn forgive(&mut self, p: *const u8) {
        for b in &mut self.blocks {
            if b.ptr as *const u8 == p {
                b.forgiven = true;
            }
        }
    }
    pub fn forgive_others(&mut self, p: *const u8) {
        for b in &mut self.blocks {
            b.forgiven |= b.ptr as *const u8 != p;
        }
    }
    /// Blocks that must be given back.
    pub fn outstanding(&self) -> usize {
        self.blocks.iter().filter(|b| b.live && !b.forgiven).count()
    }
    pub fn forgive_all(&mut self) {
        for b in &mut self.blocks {
            b.forgiven = true;
        }
    }
}

fn check_red_zones(b: &Block) {
    if cfg!(seq_asan) {
        return;
    }
    unsafe {
        let lo = std::slice::from_raw_parts(b.ptr.sub(RZ), RZ);
        let hi = std::slice::from_raw_parts(b.ptr.add(b.size), RZ);
        if lo.iter().any(|&v| v != RZ_BYTE) {
            report(Kind::Mem, format!("write before a block of {} bytes", b.size));
        }
        if let Some(i) = hi.iter().position(|&v| v != RZ_BYTE) {
            report(Kind::Mem, format!("write {i} bytes past the end of a block of {} bytes", b.size));
        }
    }
}

/// Allocator with a number, all the state is in the thread's heap.
pub struct TAlloc(u8);
pub static ALLOCS: [TAlloc; 32] = {
    let mut a = [const { TAlloc(0) }; 32];
    let mut i = 0;
    while i < 32 {
        a[i] = TAlloc(i as u8);
        i += 1;
    }
    a
};

unsafe impl GlobalAlloc for TAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        heap().alloc(self.0, layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        heap().dealloc(self.0, ptr, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = heap().alloc(self.0, layout);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, layout.size());
        }
        p
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        heap().realloc(self.0, ptr, layout, new_size)
    }
}

pub struct M1;
pub struct M2;

pub fn marker(i: u8) -> AllocMarker {
    match i {
        0 => AllocMarker::None,
        1 => AllocMarker::new::<M1>(),
        _ => AllocMarker::new::<M2>(),
    }
}

/// Number of the marker for routing, by its contents.
pub fn marker_no(m: AllocMarker) -> u8 {
    match m {
        AllocMarker::None => 0,
        AllocMarker::Type(t) => {
            if t == std::any::type_name::<M1>() {
                1
            } else if t == std::any::type_name::<M2>() {
                2
            } else {
                3
            }
        }
    }
}

/// Scope number `n` gives allocator `4 * n + marker`.
pub struct TScope(pub u8);
pub static SCOPES: [TScope; 6] = [TScope(0), TScope(1), TScope(2), TScope(3), TScope(4), TScope(5)];

impl Scope for TScope {
    fn alloc_for(&self, selector: AllocSelector) -> &dyn GlobalAlloc {
        let h = heap();
        if h.sel_log.len() < 4096 {
            h.sel_log.push((self.0, selector));
        }
        &ALLOCS[(self.0 * 4 + marker_no(selector.marker())) as usize]
    }
}

pub fn alloc_no(scope: u8, marker: u8) -> u8 {
    scope * 4 + marker
}

/// The environment of this thread.
pub fn env_fn() -> &'static mut Env {
    unsafe { &mut *ENVP.with(|e| e.get()) }
}

/// Prepare library environment of the current thread.
pub fn init_thread() {
    ENVP.with(|e| {
        if e.get().is_null() {
            let sc: &'static mut TScope = Box::leak(Box::new(TScope(0)));
            e.set(Box::into_raw(Box::new(Env::new(sc))));
        }
    });
    heap();
    unsafe { lokky::scope::ENV = Some(env_fn) };
}

/// Make the given root scope current in this thread.
pub fn set_scope(n: u8) {
    thread_local! { static MINE: Cell<[*mut TScope; 6]> = const { Cell::new([std::ptr::null_mut(); 6]) }; }
    let mut mine = MINE.with(|m| m.get());
    if mine[n as usize].is_null() {
        mine[n as usize] = Box::into_raw(Box::new(TScope(n)));
        MINE.with(|m| m.set(mine));
    }
    heap().cur_scope = n;
    unsafe { *env_fn() = Env::new(&mut *mine[n as usize]) };
}

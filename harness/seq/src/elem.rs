//! Element types with tracked identity, and caller callbacks in which a panic can be injected.

use crate::mem::{report, Kind};
use std::cell::UnsafeCell;

/// Identity is unknown to the model or the type does not have it.
pub const NOID: u32 = u32::MAX;

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Live,
    Dead,
}

pub struct Reg {
    st: Vec<St>,
    pub live: usize,
    pub zlive: isize,
    pub clones: u32,
    pub drops: u32,
    /// Count of caller callbacks so far.
    pub cb: u32,
    pub panic_at: u32,
    pub panicked: u32,
    pub zclones: u32,
    pub quiet: bool,
}

thread_local! {
    static REG: UnsafeCell<Reg> = const { UnsafeCell::new(Reg { st: Vec::new(), live: 0, zlive: 0, clones: 0, drops: 0, cb: 0, panic_at: 0, panicked: 0, zclones: 0, quiet: false }) };
}

#[allow(clippy::mut_from_ref)]
pub fn reg() -> &'static mut Reg {
    REG.with(|r| unsafe { &mut *r.get() })
}

pub struct Injected;

/// Called from every caller-supplied piece of code.
pub fn callback() {
    let r = reg();
    if r.quiet {
        return;
    }
    r.cb += 1;
    if r.panic_at != 0 && r.cb == r.panic_at && !std::thread::panicking() {
        r.panicked += 1;
        std::panic::panic_any(Injected);
    }
}

/// Harness's own handling of elements is not counted.
thread_local! {
    static REL: std::cell::RefCell<Option<(u32, Vec<u32>)>> = const { std::cell::RefCell::new(None) };
}
/// Number of the bit that tells whether elements `i` and `j` are the same.
pub fn pair(i: usize, j: usize) -> u32 {
    let (i, j) = (i.min(j), i.max(j));
    (j * (j - 1) / 2 + i) as u32
}
/// Run with equality of the elements replaced by an arbitrary symmetric relation, a bit for each pair.
pub fn with_relation<R>(mask: u32, ids: Vec<u32>, f: impl FnOnce() -> R) -> R {
    REL.with(|r| *r.borrow_mut() = Some((mask, ids)));
    let v = f();
    REL.with(|r| *r.borrow_mut() = None);
    v
}
pub fn related(a: u32, b: u32) -> Option<bool> {
    REL.with(|r| {
        let r = r.borrow();
        let (mask, ids) = r.as_ref()?;
        let i = ids.iter().position(|x| *x == a)?;
        let j = ids.iter().position(|x| *x == b)?;
        Some(i == j || mask >> pair(i, j) & 1 == 1)
    })
}

pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let old = std::mem::replace(&mut reg().quiet, true);
    let r = f();
    reg().quiet = old;
    r
}

impl Reg {
    pub fn reset(&mut self) {
        self.st.clear();
        self.live = 0;
        self.zlive = 0;
        self.clones = 0;
        self.zclones = 0;
        self.drops = 0;
        self.cb = 0;
        self.panic_at = 0;
        self.panicked = 0;
        self.quiet = false;
    }
    pub fn next(&self) -> u32 {
        self.st.len() as u32
    }
    pub fn fresh(&mut self) -> u32 {
        self.st.push(St::Live);
        self.live += 1;
        self.st.len() as u32 - 1
    }
    pub fn is_live(&self, id: u32) -> bool {
        self.st.get(id as usize) == Some(&St::Live)
    }
    pub fn kill(&mut self, id: u32) {
        self.drops += 1;
        match self.st.get_mut(id as usize) {
            None => report(Kind::Own, format!("destroyed memory that holds no element (id {id:#x})")),
            Some(s @ St::Live) => {
                *s = St::Dead;
                self.live -= 1;
            }
            Some(St::Dead) => report(Kind::Own, format!("element {id} destroyed twice")),
        }
    }
    pub fn use_check(&self, id: u32, what: &str) {
        match self.st.get(id as usize) {
            None => report(Kind::Own, format!("{what} of memory that holds no element (id {id:#x})")),
            Some(St::Live) => {}
            Some(St::Dead) => report(Kind::Own, format!("{what} of destroyed element {id}")),
        }
    }
}

pub trait Elem: Clone + PartialEq + PartialOrd + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Has identity.
    const IDS: bool;
    /// Number of live instances is known.
    const COUNTED: bool;
    /// Keeps a value.
    const VALS: bool;
    fn make(val: u8) -> Self;
    fn val(&self) -> u8;
    fn set_val(&mut self, v: u8);
    fn id(&self) -> u32;
    /// Report if this is not a proper element.
    fn check(&self);
    fn live() -> usize;
    /// One that is copied.
    fn by_ref(_val: u8) -> Option<&'static Self> {
        None
    }
    /// `SmallVec` takes references to what is copied.
    fn extend_small<const N: usize>(_v: &mut lokky::small_vec::SmallVec<Self, N>, _i: impl Iterator<Item = &'static Self>) {}
}

macro_rules! tok {
    ($n:ident, $align:literal, $pad:expr) => {
        #[repr(C, align($align))]
        pub struct $n {
            id: u32,
            val: u32,
            pad: [u32; $pad],
        }
        impl $n {
            fn ok(&self) {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    report(Kind::Mem, format!("element at misaligned address"));
                }
                if self.pad.iter().any(|&p| p != self.id) {
                    report(Kind::Own, format!("element {} is corrupted", self.id));
                }
            }
        }
        impl Elem for $n {
            const NAME: &'static str = stringify!($n);
            const IDS: bool = true;
            const COUNTED: bool = true;
            const VALS: bool = true;
            fn make(val: u8) -> Self {
                let id = reg().fresh();
                $n { id, val: val as u32, pad: [id; $pad] }
            }
            fn val(&self) -> u8 {
                self.val as u8
            }
            fn set_val(&mut self, v: u8) {
                reg().use_check(self.id, "write");
                self.val = v as u32;
            }
            fn id(&self) -> u32 {
                self.id
            }
            fn check(&self) {
                self.ok();
                reg().use_check(self.id, "read");
            }
            fn live() -> usize {
                reg().live
            }
        }
        impl Clone for $n {
            fn clone(&self) -> Self {
                callback();
                self.ok();
                reg().use_check(self.id, "clone");
                reg().clones += 1;
                quiet(|| Self::make(self.val as u8))
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                self.ok();
                reg().kill(self.id);
                callback();
            }
        }
        impl PartialEq for $n {
            fn eq(&self, o: &Self) -> bool {
                callback();
                reg().use_check(self.id, "comparison");
                reg().use_check(o.id, "comparison");
                related(self.id, o.id).unwrap_or(self.val == o.val)
            }
        }
        impl PartialOrd for $n {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                callback();
                reg().use_check(self.id, "comparison");
                reg().use_check(o.id, "comparison");
                self.val.partial_cmp(&o.val)
            }
        }
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}#{}", self.val, self.id)
            }
        }
    };
}

tok!(Tok, 4, 0);
// More than 1 KiB: grows from a single element.
tok!(Big, 8, 300);
tok!(Al64, 64, 14);
// Takes several pages.
tok!(Page, 4, 2100);

/// Zero-sized element with a destructor.
#[repr(align(16))]
pub struct Zst;
impl Elem for Zst {
    const NAME: &'static str = "Zst";
    const IDS: bool = false;
    const COUNTED: bool = true;
    const VALS: bool = false;
    fn make(_: u8) -> Self {
        reg().zlive += 1;
        Zst
    }
    fn val(&self) -> u8 {
        0
    }
    fn set_val(&mut self, _: u8) {}
    fn id(&self) -> u32 {
        NOID
    }
    fn check(&self) {
        if (self as *const Self as usize) % 16 != 0 {
            report(Kind::Mem, "zero-sized element at misaligned address".into());
        }
    }
    fn live() -> usize {
        reg().zlive.max(0) as usize
    }
}
impl Clone for Zst {
    fn clone(&self) -> Self {
        callback();
        reg().zclones += 1;
        quiet(|| Self::make(0))
    }
}
impl Drop for Zst {
    fn drop(&mut self) {
        self.check();
        let r = reg();
        r.zlive -= 1;
        r.drops += 1;
        if r.zlive < 0 {
            report(Kind::Own, "more zero-sized elements destroyed than created".into());
        }
        callback();
    }
}
impl PartialEq for Zst {
    fn eq(&self, _: &Self) -> bool {
        callback();
        true
    }
}
impl PartialOrd for Zst {
    fn partial_cmp(&self, _: &Self) -> Option<std::cmp::Ordering> {
        Some(std::cmp::Ordering::Equal)
    }
}
impl std::fmt::Debug for Zst {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("0#")
    }
}

/// One byte, no destructor.
#[derive(PartialEq, PartialOrd, Clone, Copy, Debug)]
pub struct Byte(u8);
impl Elem for Byte {
    fn by_ref(v: u8) -> Option<&'static Self> {
        static ALL: [Byte; 2] = [Byte(0), Byte(1)];
        Some(&ALL[v as usize])
    }
    fn extend_small<const N: usize>(v: &mut lokky::small_vec::SmallVec<Self, N>, i: impl Iterator<Item = &'static Self>) {
        Extend::<&'static Self>::extend(v, i)
    }
    const NAME: &'static str = "Byte";
    const IDS: bool = false;
    const COUNTED: bool = false;
    const VALS: bool = true;
    fn make(v: u8) -> Self {
        Byte(v)
    }
    fn val(&self) -> u8 {
        self.0
    }
    fn set_val(&mut self, v: u8) {
        self.0 = v;
    }
    fn id(&self) -> u32 {
        NOID
    }
    fn check(&self) {}
    fn live() -> usize {
        0
    }
}

/// Three bytes, neither a destructor nor a power of two.
#[derive(PartialEq, PartialOrd, Clone, Debug)]
pub struct Three([u8; 3]);
impl Elem for Three {
    const NAME: &'static str = "Three";
    const IDS: bool = false;
    const COUNTED: bool = false;
    const VALS: bool = true;
    fn make(v: u8) -> Self {
        Three([v, !v, 0x5C])
    }
    fn val(&self) -> u8 {
        self.0[0]
    }
    fn set_val(&mut self, v: u8) {
        *self = Self::make(v);
    }
    fn id(&self) -> u32 {
        NOID
    }
    fn check(&self) {
        if self.0[1] != !self.0[0] || self.0[2] != 0x5C {
            report(Kind::Own, format!("element is corrupted: {:x?}", self.0));
        }
    }
    fn live() -> usize {
        0
    }
}

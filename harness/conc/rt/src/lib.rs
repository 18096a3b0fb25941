//! Stands in for both `core` and `std` in the verification build of lokky: everything is re-exported,
//! but atomics, cells and the spin hint report to the scheduler and the memory model in `model`.
//!
//! Used outside of an exploration they behave as the original ones.

pub use ::std::*;

pub mod co;
pub mod explore;
pub mod model;

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::model::spin();
    }
}

pub mod thread {
    pub use ::std::thread::*;
    pub fn yield_now() {
        crate::model::spin();
    }
}

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::atomics::*;
        pub use ::std::sync::atomic::Ordering;
    }
}

pub mod cell {
    pub use crate::cells::Cell;
    pub use ::std::cell::*;
}

mod cells {
    use crate::model::{cell_read, cell_write};
    use ::std::cell::Cell as C;
    use ::std::fmt;

    /// Accesses are checked for races.
    #[repr(transparent)]
    pub struct Cell<T: ?Sized>(C<T>);

    unsafe impl<T: ?Sized + Send> Send for Cell<T> {}

    impl<T> Cell<T> {
        pub const fn new(v: T) -> Self {
            Cell(C::new(v))
        }
        pub fn set(&self, v: T) {
            drop(self.replace(v));
        }
        pub fn replace(&self, v: T) -> T {
            cell_write(self as *const _ as usize);
            self.0.replace(v)
        }
        pub fn swap(&self, o: &Self) {
            cell_write(self as *const _ as usize);
            cell_write(o as *const _ as usize);
            self.0.swap(&o.0)
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
    }
    impl<T: Copy> Cell<T> {
        pub fn get(&self) -> T {
            cell_read(self as *const _ as usize);
            self.0.get()
        }
        pub fn update(&self, f: impl FnOnce(T) -> T) {
            self.set(f(self.get()))
        }
    }
    impl<T: Default> Cell<T> {
        pub fn take(&self) -> T {
            self.replace(T::default())
        }
    }
    impl<T: ?Sized> Cell<T> {
        pub const fn as_ptr(&self) -> *mut T {
            self.0.as_ptr()
        }
        pub fn get_mut(&mut self) -> &mut T {
            cell_write(self as *const _ as *const u8 as usize);
            self.0.get_mut()
        }
    }
    impl<T: Copy> Clone for Cell<T> {
        fn clone(&self) -> Self {
            Cell::new(self.get())
        }
    }
    impl<T: Default> Default for Cell<T> {
        fn default() -> Self {
            Cell::new(T::default())
        }
    }
    impl<T> From<T> for Cell<T> {
        fn from(v: T) -> Self {
            Cell::new(v)
        }
    }
    impl<T: Copy + PartialEq> PartialEq for Cell<T> {
        fn eq(&self, o: &Self) -> bool {
            self.get() == o.get()
        }
    }
    impl<T: Copy + fmt::Debug> fmt::Debug for Cell<T> {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            self.get().fmt(f)
        }
    }
}

mod atomics {
    use crate::model::{atomic, non_atomic, Op, Rmw};
    use ::std::fmt;
    use ::std::sync::atomic::{self as real, Ordering};

    pub fn fence(o: Ordering) {
        crate::model::fence(o);
    }
    pub fn compiler_fence(o: Ordering) {
        real::compiler_fence(o);
    }
    #[deprecated]
    pub fn spin_loop_hint() {
        crate::model::spin();
    }

    macro_rules! common {
        ($n:ty, $t:ty, $to:expr, $from:expr, $($gen:tt)*) => {
            impl<$($gen)*> $n {
                pub fn load(&self, o: Ordering) -> $t {
                    match atomic(self as *const _ as usize, Op::Load(o)) {
                        Some(r) => ($from)(r.0),
                        None => self.0.load(o),
                    }
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    if atomic(self as *const _ as usize, Op::Store(($to)(v), o)).is_none() {
                        self.0.store(v, o)
                    }
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    match atomic(self as *const _ as usize, Op::Rmw(Rmw::Swap, ($to)(v), size_of::<$t>() as u8, o)) {
                        Some(r) => ($from)(r.0),
                        None => self.0.swap(v, o),
                    }
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    match atomic(self as *const _ as usize, Op::Cas { exp: ($to)(a), new: ($to)(b), ok: s, fail: f, weak: false }) {
                        Some((v, true)) => Ok(($from)(v)),
                        Some((v, false)) => Err(($from)(v)),
                        None => self.0.compare_exchange(a, b, s, f),
                    }
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    match atomic(self as *const _ as usize, Op::Cas { exp: ($to)(a), new: ($to)(b), ok: s, fail: f, weak: true }) {
                        Some((v, true)) => Ok(($from)(v)),
                        Some((v, false)) => Err(($from)(v)),
                        None => self.0.compare_exchange_weak(a, b, s, f),
                    }
                }
                #[deprecated]
                pub fn compare_and_swap(&self, a: $t, b: $t, o: Ordering) -> $t {
                    match self.compare_exchange(a, b, o, match o {
                        Ordering::Release => Ordering::Relaxed,
                        Ordering::AcqRel => Ordering::Acquire,
                        o => o,
                    }) {
                        Ok(v) | Err(v) => v,
                    }
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$t, $t> {
                    let mut p = self.load(l);
                    while let Some(n) = f(p) {
                        match self.compare_exchange_weak(p, n, s, l) {
                            x @ Ok(_) => return x,
                            Err(n) => p = n,
                        }
                    }
                    Err(p)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    non_atomic(self as *const _ as usize);
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub const fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
            }
            impl<$($gen)*> fmt::Debug for $n {
                fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                    self.load(Ordering::Relaxed).fmt(f)
                }
            }
            impl<$($gen)*> From<$t> for $n {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }

    macro_rules! ints {
        ($($n:ident $t:ty),*) => {$(
            #[repr(transparent)]
            #[derive(Default)]
            pub struct $n(real::$n);
            impl $n {
                pub const fn new(v: $t) -> Self {
                    $n(real::$n::new(v))
                }
                ints!(@fetch $n $t; fetch_add Add, fetch_sub Sub, fetch_and And, fetch_or Or, fetch_xor Xor, fetch_nand Nand);
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    loop {
                        let c = self.load(Ordering::Relaxed);
                        if let Ok(c) = self.compare_exchange(c, c.max(v), o, Ordering::Relaxed) {
                            return c;
                        }
                    }
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    loop {
                        let c = self.load(Ordering::Relaxed);
                        if let Ok(c) = self.compare_exchange(c, c.min(v), o, Ordering::Relaxed) {
                            return c;
                        }
                    }
                }
            }
            common!($n, $t, |v: $t| v as u64 & (u64::MAX >> (64 - 8 * size_of::<$t>())), |v: u64| v as $t,);
        )*};
        (@fetch $n:ident $t:ty; $($f:ident $k:ident),*) => {$(
            pub fn $f(&self, v: $t, o: Ordering) -> $t {
                match atomic(self as *const _ as usize, Op::Rmw(Rmw::$k, v as u64 & (u64::MAX >> (64 - 8 * size_of::<$t>())), size_of::<$t>() as u8, o)) {
                    Some(r) => r.0 as $t,
                    None => self.0.$f(v, o),
                }
            }
        )*};
    }
    ints!(AtomicUsize usize, AtomicIsize isize, AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64);

    #[repr(transparent)]
    #[derive(Default)]
    pub struct AtomicBool(real::AtomicBool);
    impl AtomicBool {
        pub const fn new(v: bool) -> Self {
            AtomicBool(real::AtomicBool::new(v))
        }
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            atomic(self as *const _ as usize, Op::Rmw(Rmw::And, v as u64, 1, o)).map_or_else(|| self.0.fetch_and(v, o), |r| r.0 & 1 == 1)
        }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            atomic(self as *const _ as usize, Op::Rmw(Rmw::Or, v as u64, 1, o)).map_or_else(|| self.0.fetch_or(v, o), |r| r.0 & 1 == 1)
        }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
            atomic(self as *const _ as usize, Op::Rmw(Rmw::Xor, v as u64, 1, o)).map_or_else(|| self.0.fetch_xor(v, o), |r| r.0 & 1 == 1)
        }
        pub fn fetch_not(&self, o: Ordering) -> bool {
            self.fetch_xor(true, o)
        }
    }
    common!(AtomicBool, bool, |v: bool| v as u64, |v: u64| v & 1 == 1,);

    #[repr(transparent)]
    pub struct AtomicPtr<T>(real::AtomicPtr<T>);
    impl<T> AtomicPtr<T> {
        pub const fn new(v: *mut T) -> Self {
            AtomicPtr(real::AtomicPtr::new(v))
        }
    }
    impl<T> Default for AtomicPtr<T> {
        fn default() -> Self {
            Self::new(::std::ptr::null_mut())
        }
    }
    common!(AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T, T);
}

//! Markers and selectors of many types, made at many places in the program.

use crate::bad;
use crate::engine::step;
use lokky::scope::{AllocMarker, AllocSelector};
use std::hash::{Hash, Hasher};

/// What a site makes of a type.
#[derive(Clone, Copy)]
pub struct Made {
    pub ty: usize,
    pub name: &'static str,
    pub site: &'static str,
    pub marker: AllocMarker,
    pub plain: AllocSelector,
    pub with: fn(AllocMarker) -> AllocSelector,
    /// Whether markers of it can be made
    pub sized: bool,
}

pub mod a {
    pub struct Npc;
    pub struct Monster;
    pub mod deep {
        pub struct Npc;
    }
}
pub mod b {
    pub struct Npc;
    pub struct Npd;
    pub struct NpcMarker;
    pub mod a {
        pub struct Npc;
    }
}
pub struct Npc;
pub struct Gen<T>(pub T);
pub struct Sized0<const N: usize>;
pub trait Tr {}

/// The types, each site expands this anew.
#[macro_export]
macro_rules! mark_types {
    ($site:literal) => {
        $crate::mark_go! {
            $site; sized: (), u8, u16, i8, i32, u32, u128, bool, char, f32,
            [u8; 1], [u8; 10], [u8; 11], [u16; 1], [[u8; 1]; 1], (u8,), (u8, u8), (u8, u16), (u16, u8),
            &'static u8, &'static mut u8, *const u8, *mut u8, &'static &'static u8, &'static str, &'static [u8],
            fn(), fn(u8), fn() -> u8, Option<u8>, Option<u16>, Option<Option<u8>>,
            std::string::String, lokky::string::String, std::vec::Vec<u8>, lokky::vec::Vec<u8>, lokky::vec::Vec<u16>, lokky::boxed::Box<u8>, std::boxed::Box<u8>,
            lokky::rc::Rc<u8>, lokky::arc::Arc<u8>, lokky::urc::Urc<u8>, lokky::small_vec::SmallVec<u8, 1>, lokky::small_vec::SmallVec<u8, 2>,
            $crate::marks::a::Npc, $crate::marks::a::Monster, $crate::marks::a::deep::Npc, $crate::marks::b::Npc, $crate::marks::b::Npd,
            $crate::marks::b::NpcMarker, $crate::marks::b::a::Npc, $crate::marks::Npc,
            $crate::marks::Gen<u8>, $crate::marks::Gen<u16>, $crate::marks::Gen<$crate::marks::a::Npc>, $crate::marks::Gen<$crate::marks::b::Npc>,
            $crate::marks::Gen<$crate::marks::Gen<u8>>, $crate::marks::Sized0<1>, $crate::marks::Sized0<2>, $crate::marks::Sized0<12>,
            &'static $crate::marks::Npc, &'static $crate::marks::a::Npc;
            unsized: str, [u8], [u16], dyn $crate::marks::Tr, dyn $crate::marks::Tr + Send, dyn Fn(), dyn Fn(u8), dyn std::any::Any
        }
    };
}

#[macro_export]
macro_rules! mark_go {
    ($site:literal; sized: $($t:ty),*; unsized: $($u:ty),*) => {
        pub fn all() -> Vec<$crate::marks::Made> {
            use lokky::scope::{AllocMarker, AllocSelector};
            let mut v = vec![];
            $(v.push($crate::marks::Made { ty: v.len(), name: stringify!($t), site: $site, marker: AllocMarker::new::<$t>(), plain: AllocSelector::new::<$t>(), with: |m| AllocSelector::with_marker::<$t>(m), sized: true });)*
            $(v.push($crate::marks::Made { ty: v.len(), name: stringify!($u), site: $site, marker: AllocMarker::None, plain: AllocSelector::new::<$u>(), with: |m| AllocSelector::with_marker::<$u>(m), sized: false });)*
            v
        }
    };
}

pub mod site1 {
    mark_types!("module 1");
}
pub mod site2 {
    mark_types!("module 2");
}

/// What is written to a hasher.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn hashes(v: &impl Hash) -> (Vec<u8>, u64) {
    let mut r = Rec::default();
    v.hash(&mut r);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    (r.0, d.finish())
}

/// The same marker with its name at another address.
fn copied(m: AllocMarker) -> AllocMarker {
    static COPIES: std::sync::Mutex<std::collections::BTreeMap<&'static str, &'static str>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    match m {
        AllocMarker::Type(n) => AllocMarker::Type(COPIES.lock().unwrap().entry(n).or_insert_with(|| n.to_string().leak())),
        m => m,
    }
}

pub struct All {
    pub made: Vec<Made>,
    pub markers: Vec<(Option<usize>, AllocMarker, &'static str)>,
}

impl All {
    pub fn new(sites: &[Vec<Made>]) -> Self {
        let made: Vec<Made> = sites.iter().flatten().copied().collect();
        let mut markers = vec![(None, AllocMarker::None, "none"), (None, AllocMarker::default(), "default")];
        markers.extend(made.iter().filter(|m| m.sized).map(|m| (Some(m.ty), m.marker, m.site)));
        let first = made[0].site;
        markers.extend(made.iter().filter(|m| m.sized && m.site == first).map(|m| (Some(m.ty), copied(m.marker), "another copy of the name")));
        All { made, markers }
    }

    pub fn marker_label(&self, i: u64) -> String {
        let n = self.markers.len() as u64;
        let show = |i: u64| {
            let m = &self.markers[i as usize];
            format!("{} ({})", m.0.map_or("none", |t| self.made[t].name), m.2)
        };
        format!("markers of {} and {}", show(i / n), show(i % n))
    }
    pub fn marker_pair(&self, i: u64) {
        let n = self.markers.len() as u64;
        let (a, b) = (self.markers[(i / n) as usize], self.markers[(i % n) as usize]);
        step(format!("{:?} {:?}", a.0, b.0).as_bytes());
        let same = a.0 == b.0;
        if (a.1 == b.1) != same || (a.1 != b.1) == same {
            bad!(Sel, "markers are{} equal", if a.1 == b.1 { "" } else { " not" });
        }
        let copy = a.1;
        #[allow(clippy::clone_on_copy)]
        if copy != a.1 || a.1.clone() != a.1 {
            bad!(Sel, "copied marker is not equal to the marker");
        }
        if same && hashes(&a.1) != hashes(&b.1) {
            bad!(Sel, "equal markers have different hashes");
        }
    }

    pub fn selector_label(&self, i: u64) -> String {
        let n = self.made.len() as u64;
        let show = |i: u64| format!("{} ({})", self.made[i as usize].name, self.made[i as usize].site);
        format!("selectors of {} and {}, all markers", show(i / n), show(i % n))
    }
    /// Two types with all the pairs of some markers.
    pub fn selector_pair(&self, i: u64) {
        let n = self.made.len() as u64;
        let (a, b) = (self.made[(i / n) as usize], self.made[(i % n) as usize]);
        // No marker, the type itself, the other type, a few more.
        let mut ms: Vec<(Option<usize>, AllocMarker)> = vec![(None, AllocMarker::None), (Some(1), self.made[1].marker), (Some(2), self.made[2].marker)];
        for m in [a, b] {
            if m.sized {
                ms.push((Some(m.ty), m.marker));
                ms.push((Some(m.ty), copied(m.marker)));
            }
        }
        if a.plain.marker() != AllocMarker::None {
            bad!(Sel, "plain selector has a marker");
        }
        let plain = (a.plain == b.plain) as u8;
        if plain != (a.ty == b.ty) as u8 {
            bad!(Sel, "plain selectors are{} equal", if plain == 1 { "" } else { " not" });
        }
        if (a.plain.ty() == b.plain.ty()) != (a.ty == b.ty) {
            bad!(Sel, "types reported are {} and {}", a.plain.ty(), b.plain.ty());
        }
        for x in &ms {
            for y in &ms {
                step(format!("{} {} {:?} {:?}", a.ty, b.ty, x.0, y.0).as_bytes());
                let (s, u) = ((a.with)(x.1), (b.with)(y.1));
                if s.marker() != x.1 || s.ty() != a.plain.ty() {
                    bad!(Sel, "selector reports another marker or type than it was made with");
                }
                let same = a.ty == b.ty && x.0 == y.0;
                if (s == u) != same || (s != u) == same {
                    bad!(Sel, "selectors with markers {:?} and {:?} are{} equal", x.1, y.1, if s == u { "" } else { " not" });
                }
                if same && hashes(&s) != hashes(&u) {
                    bad!(Sel, "equal selectors have different hashes");
                }
                if x.0.is_none() && ((s == b.plain) != (a.ty == b.ty) || (b.plain == s) != (a.ty == b.ty)) {
                    bad!(Sel, "selector without marker differs from the plain one");
                }
                let c = s;
                if c != s || c.marker() != x.1 {
                    bad!(Sel, "copied selector differs");
                }
            }
        }
    }
}

//! Comparison, hash, print and access through the objects of the library.
use lokky::{arc::Arc, boxed::Box as LBox, rc::Rc, small_vec::SmallVec, urc::Urc, vec::Vec as LVec};
use seq::fwd::*;
use seq::mem::Kind::*;
use seq::run::Runner;
use std::fmt::Debug;

/// All the sequences of at most `len` of the values.
fn seqs<T: Clone>(v: &[T], len: usize) -> Vec<Vec<T>> {
    let mut out: Vec<Vec<T>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..len {
        let hi = out.len();
        for i in lo..hi {
            for x in v {
                let mut n = out[i].clone();
                n.push(x.clone());
                out.push(n);
            }
        }
        lo = hi;
    }
    out
}

fn pairs<T: Debug + Sync>(r: &mut Runner, name: &str, v: &[T], f: &(dyn Fn(&T, &T) + Sync)) {
    let n = v.len() as u64;
    r.sweep(name, n * n, &|i| format!("{:?} and {:?}", v[(i / n) as usize], v[(i % n) as usize]), &|i| f(&v[(i / n) as usize], &v[(i % n) as usize]));
}

macro_rules! ptrs {
    ($f:ident, $t:ty) => {
        &|x, y| {
            $f::<$t, LBox<$t>>(x, y);
            $f::<$t, Rc<$t>>(x, y);
            $f::<$t, Arc<$t>>(x, y);
            $f::<$t, Urc<$t>>(x, y);
        }
    };
}
macro_rules! sqs {
    ($f:ident, $t:ty) => {
        &|x, y| {
            $f::<$t, LVec<$t>>(x, y);
            $f::<$t, LBox<[$t]>>(x, y);
            $f::<$t, SmallVec<$t, 0>>(x, y);
            $f::<$t, SmallVec<$t, 2>>(x, y);
            $f::<$t, SmallVec<$t, 16>>(x, y);
        }
    };
}

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    match r.prop.as_str() {
        "C29" => r.kinds(&[Fwd, Sem]),
        "C18" => r.kinds(&[Sem]),
        "all" => r.kinds(&[Sem, Fwd]),
        p => panic!("{p} is not of this checker"),
    };
    let prop = r.prop.clone();
    if prop != "C29" {
        let n = if t { 6 } else { 5 };
        r.sweep("boxed iterators", iter_cases(n), &|i| iter_label(i, n), &|i| iter_case(i, n));
        let b = seqs(&[0u8, 1, 255], if t { 6 } else { 4 });
        r.sweep("boxed hashers", b.len() as u64, &|i| format!("{:?}", b[i as usize]), &|i| hasher(&b[i as usize]));
    }
    if prop != "C18" {
        let len = if t { 4 } else { 3 };
        pairs(&mut r, "pointers to partially ordered values", &[P(0), P(1), P(2), P(3)], ptrs!(ptr_partial, P));
        pairs(&mut r, "pointers to numbers", &[0.0f64, -0.0, 1.5, f64::NAN, -f64::NAN, f64::INFINITY, -7.25], ptrs!(ptr_partial, f64));
        let k: Vec<K> = (0..9).map(|i| K(i % 3, i / 3)).collect();
        pairs(&mut r, "pointers to values with a key", &k, ptrs!(ptr_total, K));
        pairs(&mut r, "pointers to bytes", &(0..=255).collect::<Vec<u8>>()[if t { 0..256 } else { 96..160 }], ptrs!(ptr_total, u8));
        pairs(&mut r, "pointers to wide numbers", &[0u128, 1, 1 << 64, u128::MAX, 1 << 8], ptrs!(ptr_total, u128));
        pairs(&mut r, "pointers to texts", &["", "a", "b", "ab", "é"], ptrs!(ptr_total, &'static str));
        r.sweep("addresses and defaults", 1, &|_| "all".into(), &|_| {
            ptr_pointer(&7u8);
            ptr_pointer(&[1u64; 9]);
            ptr_pointer(&());
            ptr_default::<u8>();
            ptr_default::<std::string::String>();
            ptr_default::<(bool, [u16; 4])>();
            ptr_default::<()>();
            seq_default();
        });
        pairs(&mut r, "sequences of partially ordered values", &seqs(&[P(0), P(1), P(3)], len), sqs!(seq_partial, P));
        pairs(&mut r, "sequences of values with a key", &seqs(&[K(0, 0), K(1, 0), K(0, 1)], len), sqs!(seq_total, K));
        pairs(&mut r, "sequences of words", &seqs(&[0u16, 1, 256], len), sqs!(seq_total, u16));
        pairs(&mut r, "sequences of nothing", &seqs(&[()], 5), sqs!(seq_total, ()));
        let s: Vec<String> = seqs(&['a', 'b', 'é', '😀'], len).into_iter().map(|v| v.into_iter().collect()).collect();
        pairs(&mut r, "texts", &s, &|x, y| text(x, y));
    }
    r.end()
}

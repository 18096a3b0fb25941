//! Histories of `Vec`.
use lokky::vec::Vec as V;
use seq::elem::*;
use seq::longs;
use seq::mem::Kind::*;
use seq::run::Runner;
use seq::seqvec::{set::*, Cfg, W};

const LENS: &[u16] = &[6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64];

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    let (kinds, ops): (&[_], u32) = match r.prop.as_str() {
        "C01" => (&[Sem], ALL),
        "C02" => (&[Own, Mem], ALL),
        "C03" => (&[Cap], BASIC | CAP | BULK | MAKE | STORE | HUGE),
        "C04" => (&[Sem, Own, Mem], REACH | RETAIN | STORE),
        "C05" => (&[Sem, Own, Mem], REACH | DRAIN | STORE),
        "C06" => (&[Sem, Own, Mem, Leak], REACH | ITER | CAP),
        "C12" => (&[Own, Fault, Mem], ALL),
        "C13" => (&[Fault], ALL),
        "C14" => (&[Mem, Leak], ALL),
        "C16" => (&[Sel], BASIC | CAP | BULK | MAKE | STORE | MARK),
        "all" => (&[Sem, Own, Mem, Leak, Cap, Inline, Sel, Utf8, Fault, Count, Fwd, Scope], ALL | HUGE),
        p => panic!("{p} is not of this checker"),
    };
    r.kinds(kinds);
    let faults = matches!(r.prop.as_str(), "C12" | "C13");
    r.opts.panics = r.prop == "C12";
    r.opts.allocs = r.prop == "C13";
    // Failing runs multiply the work.
    let deep = (t as usize + !faults as usize).saturating_sub(r.less() as usize);
    let single = matches!(r.prop.as_str(), "C04" | "C05" | "C06");
    for (p, resume) in r.passes(deep, faults) {
        r.opts.resume = resume;
        let l = 5 + p;
        let l = if single { l + 1 } else if r.prop == "C16" { 3 } else { l };
        let c = Cfg { vals: 2, max_len: l, max_cap: [9, 12, 14][p], ops, scaling: None };
        if p > 0 {
            r.go::<W<V<Tok>>>(&Cfg { vals: 3, max_len: l - 1, ..c.clone() });
        }
        r.go::<W<V<Tok>>>(&c);
        r.go::<W<V<Byte>>>(&c);
        r.go::<W<V<Zst>>>(&c);
        let small = Cfg { max_len: l - 1, ..c.clone() };
        r.go::<W<V<Big>>>(&small);
        r.go::<W<V<Al64>>>(&small);
        r.go::<W<V<Three>>>(&small);
        r.go::<W<V<Page>>>(&Cfg { max_len: 2 + p.min(1), max_cap: 5, ..c.clone() });
    }
    let c = Cfg { vals: 2, max_len: 3, max_cap: 6, ops, scaling: None };
    r.opts.resume = false;
    for n in r.recalls() {
        r.opts.recall = n;
        r.go::<W<V<Tok>>>(&c);
        r.go::<W<V<Zst>>>(&c);
    }
    r.opts.recall = 0;
    // Long sequences: each operation at each place.
    let lens = if t { LENS } else { &LENS[2..12] };
    let lens = if faults && !t { &[8, 16, 17][..] } else { lens };
    let sc = Cfg { scaling: Some(lens.to_vec()), ops: ops & !(REACH | MARK), ..c.clone() };
    r.depth(2);
    r.go::<W<V<Tok>>>(&sc);
    r.go::<W<V<Byte>>>(&sc);
    r.go::<W<V<Zst>>>(&sc);
    if t {
        r.go::<W<V<Big>>>(&sc);
    }
    if !matches!(r.prop.as_str(), "C12" | "C13" | "C16") {
        macro_rules! long {
            ($e:ty, $long:literal) => {
                let l = longs::lens(t, $long);
                r.sweep(concat!("long Vec<", stringify!($e), ">"), longs::cases(&l), &|i| longs::label(i, &l), &|i| longs::case::<V<$e>>(i, &l));
            };
        }
        long!(Tok, false);
        long!(Three, true);
        long!(Byte, true);
        long!(Zst, true);
    }
    r.end()
}

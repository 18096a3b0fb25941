//! Histories of `SmallVec`.
use lokky::small_vec::SmallVec as S;
use seq::elem::*;
use seq::longs;
use seq::mem::Kind::*;
use seq::run::Runner;
use seq::seqvec::{set::*, Cfg, W};

const LENS: &[u16] = &[6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 48, 63, 64];

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    let (kinds, ops): (&[_], u32) = match r.prop.as_str() {
        "C03" => (&[Cap], BASIC | CAP | BULK | MAKE | STORE | HUGE),
        "C04" => (&[Sem, Own, Mem], REACH | RETAIN | STORE),
        "C05" => (&[Sem, Own, Mem], REACH | DRAIN | STORE),
        "C07" => (&[Sem], ALL),
        "C08" => (&[Own, Mem], ALL),
        "C09" => (&[Inline], ALL),
        "C12" => (&[Own, Fault, Mem], ALL),
        "C13" => (&[Fault], ALL),
        "C14" => (&[Mem, Leak], ALL),
        "C16" => (&[Sel], BASIC | CAP | BULK | MAKE | STORE | MARK),
        "all" => (&[Sem, Own, Mem, Leak, Cap, Inline, Sel, Utf8, Fault, Count, Fwd, Scope], ALL | HUGE),
        p => panic!("{p} is not of this checker"),
    };
    r.kinds(kinds);
    let faults = matches!(r.prop.as_str(), "C12" | "C13");
    r.opts.panics = r.prop == "C12";
    r.opts.allocs = r.prop == "C13";
    let single = matches!(r.prop.as_str(), "C04" | "C05");
    // Failing runs multiply the work.
    let deep = (t as usize + !faults as usize).saturating_sub(r.less() as usize);
    for (p, resume) in r.passes(deep, faults) {
        r.opts.resume = resume;
        let l = 4 + p;
        let l = if single { l + 1 } else if r.prop == "C16" { 3 } else { l };
        let c = Cfg { vals: 2, max_len: l, max_cap: [9, 12, 14][p], ops, scaling: None };
        let small = Cfg { max_len: l - 1, ..c.clone() };
        r.go::<W<S<Tok, 0>>>(&small);
        r.go::<W<S<Tok, 1>>>(&c);
        r.go::<W<S<Tok, 2>>>(&c);
        r.go::<W<S<Tok, 4>>>(&c);
        r.go::<W<S<Byte, 3>>>(&c);
        r.go::<W<S<Zst, 2>>>(&c);
        r.go::<W<S<Zst, 0>>>(&c);
        r.go::<W<S<Big, 2>>>(&small);
        r.go::<W<S<Al64, 2>>>(&small);
        r.go::<W<S<Three, 3>>>(&small);
        r.go::<W<S<Page, 1>>>(&Cfg { max_len: 2 + p.min(1), max_cap: 5, ..c.clone() });
    }
    let c = Cfg { vals: 2, max_len: 3, max_cap: 6, ops, scaling: None };
    r.opts.resume = false;
    for n in r.recalls() {
        r.opts.recall = n;
        r.go::<W<S<Tok, 2>>>(&c);
        r.go::<W<S<Zst, 1>>>(&c);
    }
    r.opts.recall = 0;
    let lens = if t { LENS } else { &LENS[2..12] };
    let lens = if faults && !t { &[8, 16, 17][..] } else { lens };
    let sc = Cfg { scaling: Some(lens.to_vec()), ops: ops & !(REACH | MARK), ..c.clone() };
    r.depth(2);
    r.go::<W<S<Tok, 16>>>(&sc);
    r.go::<W<S<Tok, 2>>>(&sc);
    r.go::<W<S<Zst, 2>>>(&sc);
    if t {
        r.go::<W<S<Byte, 3>>>(&sc);
        r.go::<W<S<Big, 2>>>(&sc);
    }
    if !matches!(r.prop.as_str(), "C12" | "C13" | "C16") {
        macro_rules! long {
            ($e:ty, $n:literal, $long:literal) => {
                let l = longs::lens(t, $long);
                r.sweep(concat!("long SmallVec<", stringify!($e), ", ", $n, ">"), longs::cases(&l), &|i| longs::label(i, &l), &|i| longs::case::<S<$e, $n>>(i, &l));
            };
        }
        long!(Tok, 2, false);
        long!(Tok, 256, false);
        long!(Three, 300, true);
        long!(Byte, 300, true);
        long!(Zst, 256, true);
    }
    r.end()
}

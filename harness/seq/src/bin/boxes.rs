//! Histories of `Box`, boxed slices and bare pointers.
use seq::boxes::*;
use seq::elem::*;
use seq::mem::Kind::*;
use seq::run::Runner;

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    let kinds: &[_] = match r.prop.as_str() {
        "C13" => &[Fault],
        "C14" => &[Mem, Leak],
        "C16" => &[Sel],
        "C18" => &[Sem, Own, Mem, Leak],
        "all" => &[Sem, Own, Mem, Leak, Cap, Inline, Sel, Utf8, Fault, Count, Fwd, Scope, Excl, Env],
        p => panic!("{p} is not of this checker"),
    };
    r.kinds(kinds);
    r.opts.panics = matches!(r.prop.as_str(), "C18" | "all");
    r.opts.allocs = matches!(r.prop.as_str(), "C13" | "all");
    // A destructor that panicked may have left memory behind, so only failed requests are gone on from.
    r.opts.resume = r.prop == "C13";
    let c = Cfg { slots: if t { 3 } else { 2 }, len: 2, scopes: r.prop == "C16" || r.prop == "all" || t };
    let long = Cfg { slots: 1, len: if t { 6 } else { 4 }, scopes: true };
    r.go::<BW<Tok>>(&c);
    r.go::<BW<Byte>>(&c);
    r.go::<BW<Three>>(&c);
    r.go::<BW<Page>>(&Cfg { slots: 1, ..c.clone() });
    r.go::<BW<Zst>>(&c);
    r.go::<BW<Al64>>(&Cfg { slots: 2, ..c.clone() });
    r.go::<BW<Big>>(&Cfg { slots: 2, ..c.clone() });
    r.go::<BW<Tok>>(&long);
    let a = ACfg { len: if t { 6 } else { 4 } };
    r.go::<AW<u8>>(&a);
    r.go::<AW<[u16; 3]>>(&a);
    r.go::<AW<A32>>(&a);
    r.go::<AW<()>>(&a);
    r.end()
}

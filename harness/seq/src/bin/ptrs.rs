//! Histories of handles of `Rc`, `Arc` and `Urc` in one thread.
use lokky::{arc::Arc, rc::Rc, urc::Urc};
use seq::elem::*;
use seq::mem::Kind::*;
use seq::ptrs::*;
use seq::run::Runner;

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    let (kinds, which): (&[_], &str) = match r.prop.as_str() {
        "C13" => (&[Fault], "RAU"),
        "C14" => (&[Mem, Leak], "RAU"),
        "C16" => (&[Sel], "RAU"),
        "C19" => (&[Own, Mem, Leak, Count], "R"),
        "C20" => (&[Excl, Sem], "R"),
        "C21" => (&[Own, Mem, Leak, Count, Excl, Sem], "A"),
        "C25" => (&[Own, Mem, Leak, Count], "U"),
        "C26" => (&[Excl, Sem], "U"),
        "C28" => (&[Env], "AU"),
        "all" => (&[Sem, Own, Mem, Leak, Cap, Inline, Sel, Utf8, Fault, Count, Fwd, Scope, Excl, Env], "RAU"),
        p => panic!("{p} is not of this checker"),
    };
    r.kinds(kinds);
    r.opts.panics = matches!(r.prop.as_str(), "C19" | "C20" | "C21" | "C25" | "C26" | "all");
    r.opts.allocs = matches!(r.prop.as_str(), "C13" | "all");
    let n = 4 + t as usize - r.less() as usize;
    let t = t && !r.less();
    let c = Cfg { handles: n, objs: 2, store: false, scopes: false };
    let small = Cfg { handles: 3, ..c.clone() };
    let node = Cfg { handles: if t { 4 } else { 3 }, objs: if t { 3 } else { 2 }, store: true, scopes: false };
    let sc = Cfg { handles: 3 - (r.less() && !r.thorough) as usize, scopes: true, ..c.clone() };
    let faults = r.opts.panics || r.opts.allocs;
    let passes = match faults {
        false => vec![false],
        true if t || r.prop == "C13" => vec![false, true],
        true => vec![true],
    };
    let passes = if t || r.opts.profile == "debug" { passes } else { vec![false] };
    macro_rules! all {
        ($p:ident) => {
            if r.prop == "C16" {
                r.go::<PW<Tok, $p<Tok>>>(&sc);
                r.go::<PW<Zst, $p<Zst>>>(&sc);
            } else {
                for resume in passes.iter().copied() {
                    r.opts.resume = resume;
                    if !resume || passes.len() == 1 {
                        r.go::<PW<Tok, $p<Tok>>>(&c);
                        r.go::<PW<Node, $p<Node>>>(&node);
                    } else {
                        r.go::<PW<Tok, $p<Tok>>>(&small);
                        r.go::<PW<Node, $p<Node>>>(&Cfg { handles: 2, objs: 2, ..node.clone() });
                    }
                    r.go::<PW<Zst, $p<Zst>>>(&small);
                    r.go::<PW<Byte, $p<Byte>>>(&small);
                    r.go::<PW<Al64, $p<Al64>>>(&small);
                    r.go::<PW<Big, $p<Big>>>(&small);
                    r.go::<PW<Three, $p<Three>>>(&small);
                    r.go::<PW<Page, $p<Page>>>(&Cfg { handles: 2, ..small.clone() });
                    if !resume || r.prop != "C13" || t {
                        r.go::<PW<Tok, $p<Tok>>>(&sc);
                    }
                }
                r.opts.resume = false;
                for n in r.recalls() {
                    r.opts.recall = n;
                    r.go::<PW<Tok, $p<Tok>>>(&small);
                }
                r.opts.recall = 0;
                if r.prop != "C13" {
                    let name = format!("many handles of {}", stringify!($p));
                    r.sweep(&name, many::CASES, &many::label, &many::case::<$p<Tok>>);
                }
            }
        };
    }
    if which.contains('R') {
        all!(Rc);
    }
    if which.contains('A') {
        all!(Arc);
    }
    if which.contains('U') {
        all!(Urc);
    }
    r.end()
}

//! Histories of `String` and conversions to it.
use lokky::string::String as S;
use lokky::vec::Vec as V;
use seq::bad;
use seq::longs::text;
use seq::engine::{catch, step};
use seq::mem::Kind::*;
use seq::mem::heap;
use seq::run::Runner;
use seq::seqstr::*;

/// Representatives of all the classes of bytes that matter in UTF-8.
const BYTES: &[u8] = &[0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
const UNITS: &[u16] = &[0x0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDABC, 0xDBFF, 0xDC00, 0xDDEF, 0xDFFF, 0xE000, 0xFFFF];

fn nth<T: Copy>(mut i: u64, set: &[T]) -> Vec<T> {
    // All the sequences of length 0, then of 1, and so on.
    let b = set.len() as u64;
    let (mut l, mut cnt) = (0, 1u64);
    while i >= cnt {
        i -= cnt;
        cnt *= b;
        l += 1;
    }
    (0..l)
        .map(|_| {
            let v = set[(i % b) as usize];
            i /= b;
            v
        })
        .collect()
}
fn total(b: usize, l: u32) -> u64 {
    (0..=l).map(|k| (b as u64).pow(k)).sum()
}

fn utf8(b: &[u8]) {
    let v = V::from(b);
    let r = catch(|| S::from_utf8(v));
    let ok = well_formed(b);
    step(b);
    match r {
        None => bad!(Utf8, "from_utf8 panicked"),
        Some(Ok(s)) => {
            if !ok {
                bad!(Utf8, "ill-formed bytes are accepted");
            }
            if s.as_bytes() != b {
                bad!(Utf8, "bytes are changed to {:?}", s.as_bytes());
            }
        }
        Some(Err(e)) => {
            if ok {
                bad!(Utf8, "well-formed bytes are rejected");
            } else if let Err(w) = std::str::from_utf8(b) {
                if w != e {
                    bad!(Utf8, "error is {e:?} instead of {w:?}");
                }
            }
        }
    }
    heap().check_blocks();
    heap().check_leaks();
}

fn utf16(u: &[u16]) {
    let r = catch(|| S::from_utf16(u));
    let w = utf16_text(u);
    step(format!("{u:?}").as_bytes());
    match (r, w) {
        (None, _) => bad!(Utf8, "from_utf16 panicked"),
        (Some(Ok(s)), Some(w)) => {
            if s.as_bytes() != w.as_bytes() {
                bad!(Utf8, "from_utf16 gave {:?} instead of {w:?}", s.as_bytes());
            }
        }
        (Some(Ok(_)), None) => bad!(Utf8, "ill-formed units are accepted"),
        (Some(Err(_)), Some(_)) => bad!(Utf8, "well-formed units are rejected"),
        (Some(Err(_)), None) => {}
    }
    heap().check_blocks();
    heap().check_leaks();
}

fn each_char(c: char) {
    let mut w = c.to_string();
    let mut s = S::from(c);
    let same = |s: &S, w: &str, what: &str| {
        step(s.as_bytes());
        if s.as_bytes() != w.as_bytes() {
            bad!(Sem, "{what} gave {:?} instead of {:?}", s.as_bytes(), w.as_bytes());
            if std::str::from_utf8(s.as_bytes()).is_err() {
                bad!(Utf8, "{what} gave ill-formed {:?}", s.as_bytes());
            }
        }
    };
    same(&s, &w, "from char");
    s.push(c);
    w.push(c);
    same(&s, &w, "push");
    s.insert(0, c);
    w.insert(0, c);
    same(&s, &w, "insert at start");
    s.insert(c.len_utf8(), 'a');
    w.insert(c.len_utf8(), 'a');
    same(&s, &w, "insert");
    if s.remove(0) != c {
        bad!(Sem, "remove gave other char");
    }
    w.remove(0);
    same(&s, &w, "remove");
    s.retain(|x| x != 'a');
    w.retain(|x| x != 'a');
    same(&s, &w, "retain");
    if s.pop() != w.pop() {
        bad!(Sem, "pop gave other char");
    }
    same(&s, &w, "pop");
    let mut b = [0; 2];
    let t = S::from_utf16(c.encode_utf16(&mut b));
    match t {
        Ok(t) => same(&t, &c.to_string(), "from_utf16"),
        Err(_) => bad!(Utf8, "char is rejected by from_utf16"),
    }
}

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    let (kinds, ops): (&[_], u32) = match r.prop.as_str() {
        "C03" => (&[Cap], CAP | HUGE),
        "C10" => (&[Sem], ALL),
        "C11" => (&[Utf8], ALL),
        "C13" => (&[Fault], TEXT | CAP),
        "C14" => (&[Mem, Leak], ALL),
        "C16" => (&[Sel], TEXT | CAP | MARK),
        "all" => (&[Sem, Own, Mem, Leak, Cap, Inline, Sel, Utf8, Fault, Count, Fwd, Scope], ALL | HUGE | MARK),
        p => panic!("{p} is not of this checker"),
    };
    r.kinds(kinds);
    r.opts.panics = matches!(r.prop.as_str(), "C11" | "all");
    r.opts.allocs = matches!(r.prop.as_str(), "C13" | "all");
    let faults = matches!(r.prop.as_str(), "C11" | "C13");
    let deep = (t as usize + !faults as usize).saturating_sub(r.less() as usize);
    for (p, resume) in r.passes(deep, faults) {
        r.opts.resume = resume;
        let c = Cfg { alpha: &ALPHA, max_chars: 3 + p, max_cap: [16, 24, 32][p], ops };
        let c = if ops & MARK != 0 { Cfg { max_chars: 2, max_cap: 12, alpha: &ALPHA[..3], ..c } } else { c };
        r.go::<W>(&c);
        if ops & MARK == 0 {
            r.go::<W>(&Cfg { alpha: &ALPHA[..2], max_chars: c.max_chars + 2, ..c });
        }
    }
    r.opts.resume = false;
    for n in r.recalls() {
        r.opts.recall = n;
        r.go::<W>(&Cfg { alpha: &ALPHA[1..3], max_chars: 2, max_cap: 8, ops });
    }
    r.opts.recall = 0;
    if matches!(r.prop.as_str(), "C10" | "C11") {
        r.sweep("every char", 0x110000 - 0x800, &|i| format!("{:#x}", if i < 0xD800 { i } else { i + 0x800 }), &|i| each_char(char::from_u32(if i < 0xD800 { i } else { i + 0x800 } as u32).unwrap()));
    }
    if r.prop == "C11" {
        let l = if t { 5 } else { 4 };
        r.sweep("from_utf8", total(BYTES.len(), l), &|i| format!("{:x?}", nth(i, BYTES)), &|i| utf8(&nth(i, BYTES)));
        r.sweep("from_utf8 of any two bytes", 1 << 16, &|i| format!("{:x?}", [i as u8, (i >> 8) as u8]), &|i| utf8(&[i as u8, (i >> 8) as u8]));
        if t {
            r.sweep("from_utf8 of any three bytes", 1 << 24, &|i| format!("{:x?}", [i as u8, (i >> 8) as u8, (i >> 16) as u8]), &|i| utf8(&[i as u8, (i >> 8) as u8, (i >> 16) as u8]));
        }
        r.sweep("from_utf16", total(UNITS.len(), l), &|i| format!("{:x?}", nth(i, UNITS)), &|i| utf16(&nth(i, UNITS)));
        r.sweep("from_utf16 of any unit", 1 << 16, &|i| format!("{i:x}"), &|i| utf16(&[i as u16]));
    }
    if !matches!(r.prop.as_str(), "C13" | "C16") {
        let l = text::lens(t);
        r.sweep("long String", text::cases(&l), &|i| text::label(i, &l), &|i| text::case(i, &l));
    }
    if matches!(r.prop.as_str(), "C11" | "C14" | "all") {
        r.sweep("long text with a wrong place", text::wrong_cases(text::wrong_lens(t)), &text::wrong_label, &text::wrong_case);
    }
    r.end()
}

//! Programs of nested scopes.
use seq::mem::Kind::*;
use seq::run::Runner;
use seq::scopes::*;

fn main() {
    let mut r = Runner::from_args();
    let t = r.thorough;
    match r.prop.as_str() {
        "C15" => r.kinds(&[Scope, Sem]),
        "C14" => r.kinds(&[Mem, Leak]),
        "all" => r.kinds(&[Sem, Mem, Leak, Scope]),
        p => panic!("{p} is not of this checker"),
    };
    let full = programs(if t { 7 } else { 6 }, full());
    let few = programs(if t { 10 } else { 9 }, &[T::Touch, T::Open, T::Catch, T::Panic]);
    for (n, p) in [("programs of nested scopes", full), ("long programs of nested scopes", few)] {
        r.sweep(n, p.len() as u64, &|i| format!("{:?}", p[i as usize]), &|i| run(&p[i as usize]));
    }
    let n = deep::nests(if t { 300 } else { 150 });
    r.sweep("deep nests of scopes", n, &deep::nest_label, &deep::nest);
    r.sweep("long rows of scopes", deep::ROW_CASES, &deep::row_label, &deep::row);
    r.end()
}

//! Markers and selectors.
use seq::marks::*;
use seq::mem::Kind::*;
use seq::run::Runner;

mod here {
    seq::mark_types!("another crate");
}
mod there {
    seq::mark_types!("module of another crate");
}

fn main() {
    let mut r = Runner::from_args();
    match r.prop.as_str() {
        "C17" | "all" => r.kinds(&[Sel, Sem]),
        p => panic!("{p} is not of this checker"),
    };
    let a = All::new(&[site1::all(), site2::all(), here::all(), there::all()]);
    let n = a.markers.len() as u64;
    r.sweep("pairs of markers", n * n, &|i| a.marker_label(i), &|i| a.marker_pair(i));
    let n = a.made.len() as u64;
    r.sweep("pairs of selectors", n * n, &|i| a.selector_label(i), &|i| a.selector_pair(i));
    r.end()
}

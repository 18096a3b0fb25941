//! Programs of several threads with handles of one `Arc` or `Urc`.
use conc::prog::Strong;
use conc::run::*;
use lokky::{arc::Arc, urc::Urc};
use lokky_verif_shim::model::Kind::*;

fn main() {
    let mut r = Runner::from_args();
    let (kinds, which): (&[_], &str) = match r.prop.as_str() {
        "C22" => (&[Life], "A"),
        "C23" => (&[Excl], "A"),
        "C24" => (&[Stuck, Count], "A"),
        "C27" => (&[Life, Excl, Stuck, Count], "U"),
        "C28" => (&[Life, Excl, Stuck, Count], "AU"),
        "all" => (&[Life, Excl, Stuck, Count, Other], "AU"),
        p => panic!("{p} is not of this checker"),
    };
    r.kinds = kinds.to_vec();
    model(&mut r);
    if which.contains('A') {
        all::<Arc<conc::prog::Tok>>(&mut r);
    }
    if which.contains('U') {
        all::<Urc<conc::prog::Tok>>(&mut r);
    }
    r.end()
}

/// Is the memory model what it is taken for?
fn model(r: &mut Runner) {
    use conc::litmus::*;
    let (all, some, plain) = (&full()[..], &some()[..], &plain()[..]);
    if r.thorough && r.profile == "release" {
        r.litmus("of all operations", &[2, 2], all);
        r.litmus("of all operations", &[3, 1], all);
        r.litmus("of all operations", &[2, 1, 1], all);
        r.litmus("of common operations", &[3, 2], some);
        r.litmus("of common operations", &[2, 2, 1], some);
        r.litmus("with plain accesses", &[3, 2], plain);
        r.litmus("with plain accesses", &[2, 2, 1], plain);
    } else {
        r.litmus("of all operations", &[2, 1], all);
        r.litmus("of common operations", &[2, 2], some);
        r.litmus("with plain accesses", &[2, 2], plain);
        if r.profile == "release" {
            r.litmus("of all operations", &[1, 1, 1], all);
            r.litmus("of common operations", &[2, 1, 1], some);
            r.litmus("with plain accesses", &[2, 1, 1], plain);
        }
    }
}

const ENV: &[u8] = b"EVSXFT";

fn all<S: Strong>(r: &mut Runner) {
    let starts = vec![(1, 0), (2, 0), (1, 1), (0, 1)];
    let env = r.prop == "C28";
    let need: &'static [u8] = if env { ENV } else { b"" };
    let full: &'static [u8] = if S::GROUPS { b"CDRWwGMUOEVSXFT" } else { b"CDRWwGMUOEVSXT" };
    let core: &'static [u8] = if env { b"CDRGMUSXTV" } else if S::GROUPS { b"CDRWwGMUE" } else { b"CDRWwGMUO" };
    let one = vec![(1, 0), (1, 1), (0, 1)];
    let (thorough, debug) = (r.thorough, r.profile == "debug");
    let mut set = |lens: &[usize], ops: &'static [u8], starts: &[(u8, u8)], keeps: &[(u8, u8)]| {
        let stale = if lens.len() > 2 && lens.iter().sum::<usize>() > 4 { 3 } else { u32::MAX };
        let name = format!(
            "{} operations of {}, main keeps {keeps:?}{}",
            lens.iter().map(|l| l.to_string()).collect::<Vec<_>>().join("+"),
            String::from_utf8_lossy(ops),
            if stale == u32::MAX { String::new() } else { format!(", at most {stale} stale reads") }
        );
        r.go::<S>(&Set1 { name, lens: lens.to_vec(), ops, starts: starts.to_vec(), keeps: keeps.to_vec(), need, stale });
    };
    let k2 = [(0, 0), (0, 1)];
    set(&[1, 1], full, &starts, &[(0, 0), (0, 1), (1, 0), (1, 1)]);
    set(&[2, 1], full, &starts, &k2);
    set(&[2, 2], full, &starts, &k2);
    set(&[1, 1, 1], full, &one, &k2);
    // What assertions and overflow checks see is seen above already.
    if debug && !thorough {
        return;
    }
    set(&[3, 1], full, &starts, &k2);
    set(&[3, 2], core, &one, &k2);
    set(&[2, 1, 1], core, &one, &k2);
    if debug || !thorough {
        return;
    }
    set(&[2, 1, 1], full, &one, &k2);
    set(&[3, 2], full, &one, &k2);
    set(&[4, 1], full, &one, &k2);
    set(&[2, 2, 1], core, &[(1, 0)], &[(0, 0)]);
    set(&[3, 3], core, &[(1, 0), (1, 1)], &[(0, 0)]);
    set(&[4, 2], core, &[(1, 0)], &[(0, 0)]);
}

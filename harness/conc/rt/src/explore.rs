//! Depth-first search over all the schedules and reads of one program.

use crate::model::{rt, Kind, Rt};
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Same(u64);
impl Hasher for Same {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 ^= u64::from_ne_bytes(x);
        }
    }
    fn write_u128(&mut self, v: u128) {
        self.0 = v as u64 ^ (v >> 64) as u64;
    }
}
pub type Set = HashSet<u128, BuildHasherDefault<Same>>;

#[derive(Default, Clone, Copy)]
pub struct Counts {
    /// Different states at which there was something to decide.
    pub states: u64,
    pub transitions: u64,
    /// Executions that came to their end and those left in a state seen before.
    pub executions: u64,
    pub cut: u64,
    pub depth: u64,
    /// Ended with a violation of some kind that is not asked for.
    pub other: u64,
    pub incomplete: bool,
}

pub struct Found {
    pub kind: Kind,
    pub msg: String,
    pub schedule: Vec<u16>,
    pub trace: String,
}

pub trait Program {
    fn threads(&self) -> usize;
    /// Thread 0 before the others are started.
    fn before(&self);
    fn thread(&self, t: usize);
    /// Thread 0 after all of them have ended.
    fn after(&self);
}

fn once(r: &mut Rt, p: &dyn Program, tracing: bool, choose: &mut dyn FnMut(&mut Rt, usize) -> Option<usize>) -> bool {
    r.begin(tracing);
    let whole = if r.alone(&|_| p.before()) {
        let body = |t| p.thread(t);
        r.spawn(p.threads(), &body);
        let whole = r.run(choose);
        if whole && !r.dead {
            r.alone(&|_| p.after());
        }
        whole
    } else {
        true
    };
    r.end();
    whole
}

/// All the executions; stops at the first violation of a kind asked for.
pub fn explore(p: &dyn Program, wanted: &dyn Fn(Kind) -> bool, seen: &mut Set, max_states: u64) -> (Counts, Option<Found>) {
    let r = rt();
    seen.clear();
    let mut n = Counts::default();
    // What was chosen of how many options.
    let mut path: Vec<(u16, u16)> = vec![];
    loop {
        let mut at = 0;
        let whole = once(r, p, false, &mut |r, options| {
            n.transitions += (at >= path.len().saturating_sub(1)) as u64;
            at += 1;
            if at <= path.len() {
                return Some(path[at - 1].0 as usize);
            }
            if !seen.insert(r.state()) {
                return None;
            }
            n.states += 1;
            path.push((0, options as u16));
            Some(0)
        });
        n.depth = n.depth.max(at as u64);
        if whole {
            n.executions += 1;
        } else {
            n.cut += 1;
        }
        if let Some((kind, msg)) = r.viol.take() {
            if wanted(kind) {
                let schedule: Vec<u16> = path.iter().map(|c| c.0).collect();
                let trace = replay(p, &schedule);
                return (n, Some(Found { kind, msg, schedule, trace }));
            }
            n.other += 1;
        }
        loop {
            let Some(l) = path.last_mut() else { return (n, None) };
            if l.0 + 1 < l.1 {
                l.0 += 1;
                break;
            }
            path.pop();
        }
        if n.states > max_states {
            n.incomplete = true;
            return (n, None);
        }
    }
}

/// Run one schedule and tell what happens.
pub fn replay(p: &dyn Program, schedule: &[u16]) -> String {
    let r = rt();
    let mut at = 0;
    once(r, p, true, &mut |_, n| {
        at += 1;
        Some((*schedule.get(at - 1).unwrap_or(&0) as usize).min(n - 1))
    });
    let mut t = std::mem::take(&mut r.trace);
    if let Some((_, m)) = &r.viol {
        t.push_str("violation: ");
        t.push_str(m);
        t.push('\n');
    }
    t
}

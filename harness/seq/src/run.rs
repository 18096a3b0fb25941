//! Command line of the checkers: `<bin> <property> <tier> <replay dir> <json out> <profile>`.

use crate::engine::{explore, other_count, setup, Opts, Stats, World, VIOLATIONS};
use crate::mem::Kind;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

pub struct Runner {
    pub prop: String,
    pub thorough: bool,
    pub opts: Opts,
    pub stats: Vec<Stats>,
    pub json: String,
    start: Instant,
}

impl Runner {
    pub fn from_args() -> Self {
        let a: Vec<String> = std::env::args().collect();
        if a.len() != 6 {
            eprintln!("usage: {} <property> <quick|thorough> <replay dir> <json out> <profile>", a[0]);
            std::process::exit(2);
        }
        let thorough = a[2] == "thorough";
        let opts = Opts {
            prop: a[1].clone(),
            kinds: vec![],
            panics: false,
            allocs: false,
            resume: false,
            recall: 0,
            max_depth: usize::MAX,
            max_states: 2_000_000,
            threads: std::thread::available_parallelism().map_or(4, |n| n.get()),
            replay_dir: a[3].clone(),
            deadline: Some(Instant::now() + Duration::from_secs(if thorough { 330 } else { 150 })),
            profile: a[5].clone(),
        };
        setup(&opts);
        Runner { prop: a[1].clone(), thorough, opts, stats: vec![], json: a[4].clone(), start: Instant::now() }
    }

    pub fn kinds(&mut self, k: &[Kind]) -> &mut Self {
        self.opts.kinds = k.to_vec();
        self
    }
    pub fn depth(&mut self, d: usize) -> &mut Self {
        self.opts.max_depth = d;
        self
    }

    /// One level of bounds less: in the slow build with the address sanitizer, and where the same is
    /// done in three builds.
    pub fn less(&self) -> bool {
        cfg!(seq_asan) || !self.thorough && self.prop == "C14" && self.opts.profile == "debug"
    }

    /// Levels of bounds, and whether histories go on after a fault.
    pub fn passes(&self, deep: usize, faults: bool) -> Vec<(usize, bool)> {
        match (faults, self.thorough) {
            (false, _) => vec![(deep, false)],
            // What assertions and overflow checks see is seen best here.
            (true, false) => vec![(deep, self.opts.profile == "debug")],
            (true, true) => vec![(deep, false), (deep.saturating_sub(1), true)],
        }
    }

    /// By how many of the last operations to tell states apart, in a small world.
    pub fn recalls(&self) -> Vec<usize> {
        match (self.opts.panics || self.opts.allocs, self.thorough) {
            (true, false) => vec![],
            (_, false) if self.less() => vec![],
            (_, false) => vec![1],
            (false, true) => vec![1, 2],
            (true, true) => vec![1],
        }
    }

    pub fn go<W: World>(&mut self, cfg: &W::Cfg) {
        if VIOLATIONS.load(SeqCst) > 0 {
            return;
        }
        if let Ok(f) = std::env::var("SEQ_WORLD") {
            if !W::name(cfg).contains(&f) {
                return;
            }
        }
        let t = Instant::now();
        let s = explore::<W>(cfg, &self.opts);
        eprintln!(
            "{} {}: {} states, {} transitions, {} fault runs, depth {}, {}, {:.1} s",
            self.prop, s.name, s.states, s.transitions, s.faults, s.depth, if s.complete { "complete" } else { "CUT" }, t.elapsed().as_secs_f32()
        );
        self.stats.push(s);
    }

    pub fn sweep(&mut self, name: &str, n: u64, label: &(dyn Fn(u64) -> String + Sync), run: &(dyn Fn(u64) + Sync)) {
        if VIOLATIONS.load(SeqCst) > 0 {
            return;
        }
        if let Ok(f) = std::env::var("SEQ_WORLD") {
            if !name.contains(&f) {
                return;
            }
        }
        let t = Instant::now();
        let s = crate::engine::sweep(name, &self.opts, n, label, run);
        eprintln!("{} {}: {} cases, {} steps, {} states, {}, {:.1} s", self.prop, s.name, s.runs, s.transitions, s.states, if s.complete { "complete" } else { "CUT" }, t.elapsed().as_secs_f32());
        self.stats.push(s);
    }

    pub fn end(self) -> ! {
        let mut o = String::new();
        let (mut st, mut tr, mut fa, mut ex, mut ru) = (0, 0, 0, 0, 0);
        let mut worlds = vec![];
        let mut samples: Vec<String> = vec![];
        let mut cut = vec![];
        let mut kinds: std::collections::BTreeMap<String, u64> = Default::default();
        let mut outs: std::collections::BTreeMap<String, u64> = Default::default();
        for s in &self.stats {
            st += s.states;
            tr += s.transitions;
            fa += s.faults;
            ex += s.executed_ops;
            ru += s.runs;
            worlds.push(format!("{}: {} states, {} transitions, {} fault runs, {} histories, depth {}{}", s.name, s.states, s.transitions, s.faults, s.runs, s.depth, if s.complete { "" } else { " (cut by limit)" }));
            samples.extend(s.samples.iter().cloned());
            if !s.complete {
                cut.push(s.name.clone());
            }
            for (k, v) in &s.op_kinds {
                *kinds.entry(k.clone()).or_default() += v;
            }
            for (k, v) in &s.outcomes {
                *outs.entry(k.clone()).or_default() += v;
            }
        }
        let q = |s: &str| {
            let mut r = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' | '\\' => {
                        r.push('\\');
                        r.push(c)
                    }
                    c if (c as u32) < 32 => r.push(' '),
                    c => r.push(c),
                }
            }
            r.push('"');
            r
        };
        let list = |v: &[String]| format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(","));
        let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{v}", q(k))).collect::<Vec<_>>().join(","));
        let _ = write!(
            o,
            "{{\"states\":{st},\"transitions\":{tr},\"fault_runs\":{fa},\"executed_ops\":{ex},\"runs\":{ru},\"worlds\":{},\"cut\":{},\"samples\":{},\"op_kinds\":{},\"outcomes\":{},\"violations\":{},\"other_kind\":{},\"wall_s\":{}}}",
            list(&worlds),
            list(&cut),
            list(&samples),
            map(&kinds),
            map(&outs),
            VIOLATIONS.load(SeqCst),
            other_count(),
            self.start.elapsed().as_secs_f64()
        );
        if let Err(e) = std::fs::write(&self.json, o) {
            eprintln!("cannot write {}: {e}", self.json);
            std::process::exit(2);
        }
        std::process::exit(if VIOLATIONS.load(SeqCst) > 0 { 1 } else { 0 })
    }
}

//! C06: concurrent compilations do not affect each other.
//!
//! Real threads, of which one runs at a time: the hooks in `ticc::sim` call the
//! scheduler before every access to shared state and before every item.

use crate::c04::{ask, Query};
use crate::common::*;
use simcore::eval::Eval;
use simcore::gen::Config;
use simcore::lang::module_path;
use simcore::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use ticc::{Options, Runner, Severity};

pub fn check() -> Check {
    Check {
        rule: "one run is two to four threads compiling, querying and running seeded programs under a seeded schedule, each thread's answers compared with those it gives when run alone in a process of its own; non-trivial if the schedule switched threads at least once within a compilation; distinct by the hash of programs and of the sequence of scheduling decisions",
        assumptions: &["threads interact only through the locks and atomics of ticc::sync (threads that block on anything else are noticed and left out of the schedule until they continue)"],
        real: &["ticc compiler, api, code generator, built-in library loading", "ticc-eval engines", "OS threads, one running at a time"],
        stubs: &["module lookup (in memory)", "the thread scheduler"],
        init: nothing,
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        quick_secs: 60,
        thorough_secs: 700,
        ..Check::new("C06", body)
    }
}

fn nothing() {}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    /// Waits for a lock that the simulation knows.
    Blocked,
    /// Sleeps in something the simulation does not know.
    Elsewhere,
    Done,
}

struct State {
    current: usize,
    status: Vec<Status>,
    tids: Vec<i32>,
    /// Steps until the next decision.
    countdown: u32,
    patience: u32,
    points: u64,
    switches: u64,
    decisions: Vec<(u64, usize)>,
}

struct Sim {
    state: Mutex<State>,
    cv: Condvar,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

impl State {
    fn run_length(&self) -> u32 {
        match sched(4) {
            0 => 1 + sched(self.patience * 20),
            1 => 1 + sched(self.patience),
            2 => 1 + sched(5),
            _ => 1,
        }
    }

    /// Picks who goes on.
    fn choose(&mut self, why: &str) {
        let ready: Vec<usize> = (0..self.status.len()).filter(|&i| self.status[i] == Status::Ready).collect();
        if ready.is_empty() {
            if self.status.iter().any(|s| *s == Status::Elsewhere) {
                self.current = usize::MAX;
                return;
            }
            if self.status.iter().any(|s| *s == Status::Blocked) {
                violation("deadlock", &format!("all threads wait for each other ({:?}, at {})", self.status, why));
            }
            self.current = usize::MAX;
            return;
        }
        let next = if ready.len() == 1 {
            ready[0]
        } else {
            // the current thread first, so that shrinking removes switches
            let at = ready.iter().position(|&t| t == self.current).unwrap_or(0);
            ready[(at + sched(ready.len() as u32) as usize) % ready.len()]
        };
        if next != self.current {
            self.switches += 1;
            let p = self.points;
            trace(|| format!("{} at {}: thread {}", p, why, next));
            self.decisions.push((p, next));
        }
        self.current = next;
        if ready.len() > 1 {
            self.countdown = self.run_length();
        } else {
            self.countdown = 1;
        }
    }
}

impl Sim {
    fn wait_turn<'a>(&'a self, mut s: std::sync::MutexGuard<'a, State>, me: usize) {
        self.cv.notify_all();
        while s.current != me {
            s = self.cv.wait(s).unwrap();
        }
    }

    fn arrive(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.tids[me] = unsafe { libc::gettid() };
        s.status[me] = Status::Ready;
        self.wait_turn(s, me);
    }

    fn leave(&self, me: usize) {
        let mut s = self.state.lock().unwrap();
        s.status[me] = Status::Done;
        s.choose("end");
        self.cv.notify_all();
    }

    /// The main thread: starts the others and watches for threads that sleep
    /// somewhere else.
    fn supervise(&self) {
        let mut s = self.state.lock().unwrap();
        while s.status.iter().any(|st| *st == Status::Elsewhere) {
            // not there yet
            s = self.cv.wait_timeout(s, Duration::from_millis(20)).unwrap().0;
        }
        s.choose("start");
        self.cv.notify_all();
        let (mut seen, mut idle) = (0, 0);
        while s.status.iter().any(|st| *st != Status::Done) {
            let timeout;
            (s, timeout) = {
                let (g, t) = self.cv.wait_timeout(s, Duration::from_millis(50)).unwrap();
                (g, t.timed_out())
            };
            if !timeout || s.points != seen {
                seen = s.points;
                idle = 0;
                continue;
            }
            let cur = s.current;
            if cur != usize::MAX {
                idle = if asleep(s.tids[cur]) { idle + 1 } else { 0 };
                if idle >= 4 {
                    probe("thread blocked elsewhere");
                    s.status[cur] = Status::Elsewhere;
                    s.choose("blocked elsewhere");
                    self.cv.notify_all();
                    idle = 0;
                }
            } else {
                let stuck = (0..s.status.len()).all(|i| s.status[i] == Status::Done || asleep(s.tids[i]));
                idle = if stuck { idle + 1 } else { 0 };
                if idle >= 60 {
                    violation("deadlock", &format!("all threads sleep: {:?}", s.status));
                }
            }
        }
    }
}

fn asleep(tid: i32) -> bool {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
    stat.rsplit(") ").next().is_some_and(|s| s.starts_with('S'))
}

struct Hook(Arc<Sim>);

impl ticc::sim::Scheduler for Hook {
    fn yield_point(&self, what: &'static str) {
        let me = ME.get();
        let mut s = self.0.state.lock().unwrap();
        if s.status[me] == Status::Elsewhere {
            s.status[me] = Status::Ready;
            if s.current == usize::MAX {
                s.choose(what);
            }
        }
        if s.current == me {
            s.points += 1;
            s.countdown = s.countdown.saturating_sub(1);
            if s.countdown == 0 {
                s.choose(what);
                if s.current == me {
                    return;
                }
            } else {
                return;
            }
        }
        self.0.wait_turn(s, me);
    }
    fn blocked(&self) {
        let me = ME.get();
        let mut s = self.0.state.lock().unwrap();
        count("thread blocked on a lock", 1);
        s.status[me] = Status::Blocked;
        s.choose("blocked");
        self.0.wait_turn(s, me);
    }
    fn released(&self) {
        let me = ME.get();
        let mut s = self.0.state.lock().unwrap();
        for st in s.status.iter_mut() {
            if *st == Status::Blocked {
                *st = Status::Ready;
            }
        }
        if s.current == usize::MAX && s.status[me] == Status::Elsewhere {
            s.choose("release");
            self.0.cv.notify_all();
        }
    }
}

/// What one thread does.
#[derive(Clone, Debug)]
enum Step {
    /// Compiles a module afresh and asks about it.
    Compile(usize, Vec<Query>),
    /// Asks the unit compiled last.
    Ask(Query),
    /// Uses the library for the first time, perhaps.
    Library(&'static str),
}

struct Group {
    sources: HashMap<String, String>,
    /// Modules completed before the threads start, in order.
    shared: Vec<String>,
    root: String,
    ends: bool,
}

struct World {
    groups: Vec<Group>,
    options: Options,
}

impl World {
    fn resolvers(&self) -> Vec<Arc<Resolver>> {
        self.groups
            .iter()
            .map(|g| {
                let r = Resolver::new(g.sources.clone(), self.options);
                for m in &g.shared {
                    let _ = ticc::ModuleResolver::lookup(r.clone(), m);
                }
                r
            })
            .collect()
    }

    fn perform(&self, rs: &[Arc<Resolver>], steps: &[Step]) -> String {
        let mut out = String::new();
        let mut unit = None;
        for s in steps {
            match s {
                Step::Compile(g, qs) => {
                    let mut u = rs[*g].unit(&self.groups[*g].root);
                    for q in qs {
                        writeln!(out, "{} {:?}\n{}", g, q, ask(&mut u, *q)).unwrap();
                    }
                    let clean = !u.diagnostics().any(|d| d.severity == Severity::Error);
                    writeln!(out, "clean {}", clean).unwrap();
                    unit = Some((u, clean));
                }
                Step::Ask(q) => {
                    if let Some((u, clean)) = &mut unit {
                        if *clean || !matches!(q, Query::Ir | Query::Run(_) | Query::Main) {
                            writeln!(out, "{:?}\n{}", q, ask(u, *q)).unwrap();
                        }
                    }
                }
                Step::Library(m) => {
                    let src = format!("import (x) from \"{}\"; import y from \"{}\"; let z = y.map;", m, m);
                    let mut u = ticc::CompilationUnit::new(&src, self.options, ticc::NoopModuleResolver::new());
                    writeln!(out, "{}\n{}", m, ask(&mut u, Query::Diagnostics)).unwrap();
                }
            }
        }
        out
    }
}

fn body() {
    let n_groups = gen_range(1, 2) as usize;
    let mut groups = Vec::new();
    for _ in 0..n_groups {
        let p = simcore::gen::program(Config {
            budget: *pick(&[20, 40, 80]),
            items: gen_range(1, 2),
            wide: false,
            ..Config::draw()
        });
        let mut sources: HashMap<String, String> = (0..p.modules.len()).map(|m| (module_path(m), p.source(m))).collect();
        let root = module_path(p.root());
        let mut ends = Eval::new(&p, 5_000).run().is_ok();
        if gchance(1, 8) {
            let n = gen_range(1, 3);
            let s = simcore::text::damage(&sources[&root], n);
            sources.insert(root.clone(), s);
            ends = false;
        }
        // modules come after what they import
        let shared = (0..p.modules.len() - 1).map(module_path).collect();
        groups.push(Group { sources, shared, root, ends });
    }
    if groups.iter().flat_map(|g| g.sources.values()).map(|s| s.len()).sum::<usize>() > 16_000 {
        discard("the programs are too big");
    }
    for g in &groups {
        let mut names: Vec<_> = g.sources.iter().collect();
        names.sort();
        for (m, s) in names {
            trace(|| format!("-- {}\n{}", m, s));
            fingerprint_bytes(s.as_bytes());
        }
    }
    let options = Options { verify: false, optimize: sched(2) == 0 };
    let w = World { groups, options };
    let n_threads = gen_range(2, 4) as usize;
    let mut plans = Vec::new();
    for t in 0..n_threads {
        let mut steps = Vec::new();
        for _ in 0..gen_range(1, 3) {
            if gchance(1, 3) {
                steps.push(Step::Library(simcore::lang::STD[gen(7) as usize].0));
                continue;
            }
            let g = gen(w.groups.len() as u32) as usize;
            let len = w.groups[g].sources[&w.groups[g].root].len() as u32;
            let mut qs = Vec::new();
            for _ in 0..gen(3) {
                let p = gen(len + 1);
                let src = &w.groups[g].sources[&w.groups[g].root];
                if src.is_char_boundary(p as usize) {
                    qs.push(*pick(&[Query::Info(p), Query::References(p), Query::Completions(p), Query::Definition(p)]));
                }
            }
            qs.push(*pick(&[Query::Diagnostics, Query::Tokens]));
            steps.push(Step::Compile(g, qs));
            if gchance(1, 2) {
                steps.push(Step::Ask(Query::Ir));
            }
            if gchance(1, 2) && w.groups[g].ends {
                steps.push(Step::Ask(*pick(&[
                    Query::Run(Runner::Bytecode),
                    Query::Run(Runner::Lambda),
                    Query::Run(Runner::Treewalk),
                    Query::Main,
                ])));
            }
        }
        trace(|| format!("thread {}: {:?}", t, steps));
        fingerprint_bytes(format!("{:?}", steps).as_bytes());
        plans.push(steps);
    }
    // each alone
    let alone: Vec<String> = plans.iter().map(|p| in_fork(|| w.perform(&w.resolvers(), p))).collect();

    // and together
    set_hash_seed(sched(1 << 20) as u64);
    let resolvers = w.resolvers();
    let patience = [30u32, 3, 300][sched(3) as usize];
    let sim = Arc::new(Sim {
        state: Mutex::new(State {
            current: usize::MAX,
            status: vec![Status::Elsewhere; n_threads],
            tids: vec![0; n_threads],
            countdown: 1,
            patience,
            points: 0,
            switches: 0,
            decisions: vec![],
        }),
        cv: Condvar::new(),
    });
    let together: Vec<String> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..n_threads)
            .map(|t| {
                let (sim, w, resolvers, plan) = (sim.clone(), &w, &resolvers, &plans[t]);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(scope, move || {
                        ME.set(t);
                        ticc::sim::set_scheduler(Some(Arc::new(Hook(sim.clone()))));
                        sim.arrive(t);
                        let out = w.perform(resolvers, plan);
                        ticc::sim::set_scheduler(None);
                        sim.leave(t);
                        out
                    })
                    .unwrap()
            })
            .collect();
        sim.supervise();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let s = sim.state.lock().unwrap();
    count("scheduling points", s.points);
    count("switches of threads", s.switches);
    steps(s.points);
    for (p, t) in &s.decisions {
        fingerprint(p * 8 + *t as u64);
    }
    if s.switches > n_threads as u64 {
        nontrivial();
    }
    for t in 0..n_threads {
        observe(together[t].as_bytes());
        if alone[t] != together[t] {
            let (mut a, mut b) = (alone[t].lines(), together[t].lines());
            let first = loop {
                let (x, y) = (a.next().unwrap_or(""), b.next().unwrap_or(""));
                if x != y {
                    break format!("`{}` instead of `{}`", y, x);
                }
            };
            violation(
                "answers differ under concurrency",
                &format!("thread {} says {}\nalone:\n{}\ntogether:\n{}", t, first, alone[t], together[t]),
            );
        }
    }
}

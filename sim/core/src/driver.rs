use crate::rng::{hash_bytes, mix, Rng};
use crate::{Live, LIVE, STREAMS, STREAM_NAMES, TAPE_CAP};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::time::{Duration, Instant};

const RESULT_CAP: usize = 4 << 20;
const STACK: usize = 1 << 30;

#[repr(C)]
pub struct Slot {
    pub len: [u32; STREAMS],
    pub result_len: u32,
    pub tape: [[u32; TAPE_CAP]; STREAMS],
    pub result: [u8; RESULT_CAP],
}

pub struct Check {
    pub id: &'static str,
    pub body: fn(),
    /// Runs once in the driver before anything is forked.
    pub init: fn(),
    pub quick_runs: u64,
    pub thorough_runs: u64,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub cpu_limit: u64,
    pub wall_limit: u64,
    pub jobs: usize,
    /// Runs have directories of their own.
    pub scratch: bool,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
}

impl Check {
    pub const fn new(id: &'static str, body: fn()) -> Check {
        Check {
            id,
            body,
            init: nothing,
            quick_runs: 20_000,
            thorough_runs: 2_000_000,
            quick_secs: 60,
            thorough_secs: 600,
            cpu_limit: 20,
            wall_limit: 120,
            jobs: 8,
            scratch: false,
            level: "exploration",
            rule: "",
            assumptions: &[],
            real: &[],
            stubs: &[],
        }
    }
}

fn nothing() {}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub status: String,
    pub class: String,
    pub message: String,
    pub counters: BTreeMap<String, u64>,
    pub fingerprint: u64,
    pub log_hash: u64,
    pub nontrivial: bool,
    pub steps: u64,
    pub trace: Vec<String>,
    pub tape: [Vec<u32>; STREAMS],
}

pub fn finish(status: &str, class: &str, message: &str) -> ! {
    let mut guard = match LIVE.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    if let Some(l) = guard.as_mut() {
        let message: String = message.chars().take(200_000).collect();
        let v = json!({
            "status": status,
            "class": class,
            "message": message,
            "counters": l.counters,
            "fp": l.fingerprint,
            "log": l.log_hash,
            "nontrivial": l.nontrivial,
            "steps": l.sim_steps,
            "trace": l.trace,
        });
        let mut bytes = serde_json::to_vec(&v).unwrap();
        if bytes.len() > RESULT_CAP {
            l.trace.truncate(50);
            let v = json!({
                "status": status, "class": class, "message": message.chars().take(2000).collect::<String>(),
                "counters": l.counters, "fp": l.fingerprint, "log": l.log_hash,
                "nontrivial": l.nontrivial, "steps": l.sim_steps, "trace": [],
            });
            bytes = serde_json::to_vec(&v).unwrap();
        }
        unsafe {
            let s = &mut *l.shared;
            s.result[..bytes.len()].copy_from_slice(&bytes);
            s.result_len = bytes.len() as u32;
        }
    }
    unsafe { libc::_exit(0) }
}

pub fn panic_class(file: &str, msg: &str) -> String {
    let short = file.rsplit("/repo/").next().unwrap_or(file);
    format!("panic: {}: {}", short, crate::normalize(msg))
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_owned()
        };
        let (file, line) = match info.location() {
            Some(l) => (l.file().to_owned(), l.line()),
            None => ("?".to_owned(), 0),
        };
        let in_harness = file.contains("/verif/")
            || ["core/src/", "eng/src/", "lsp/src/", "proc/src/"].iter().any(|d| file.starts_with(d));
        let text = format!("panicked at {}:{}: {}", file, line, msg);
        if in_harness {
            finish("harness", "harness", &text);
        } else {
            finish("violation", &panic_class(&file, &msg), &text);
        }
    }));
}

struct Runner<'a> {
    check: &'a Check,
    slots: Vec<*mut Slot>,
}

#[derive(Clone)]
enum Source {
    Seed(u64),
    Tape([Vec<u32>; STREAMS]),
}

struct Job {
    pid: i32,
    started: Instant,
    killed: bool,
}

impl<'a> Runner<'a> {
    fn new(check: &'a Check, jobs: usize) -> Runner<'a> {
        let mut slots = Vec::new();
        for _ in 0..jobs {
            let p = unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    std::mem::size_of::<Slot>(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                    -1,
                    0,
                )
            };
            assert!(p != libc::MAP_FAILED, "mmap failed");
            slots.push(p as *mut Slot);
        }
        Runner { check, slots }
    }

    fn start(&self, slot: usize, source: &Source, tracing: bool, cpu_limit: u64, verbose: bool) -> Job {
        let shared = self.slots[slot];
        unsafe {
            (*shared).len = [0; STREAMS];
            (*shared).result_len = 0;
        }
        let pid = unsafe { libc::fork() };
        if pid < 0 {
            eprintln!("harness error: fork failed: {}", std::io::Error::last_os_error());
            std::process::exit(2);
        }
        if pid == 0 {
            unsafe {
                libc::setpgid(0, 0);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let lim = libc::rlimit { rlim_cur: cpu_limit, rlim_max: cpu_limit + 5 };
                libc::setrlimit(libc::RLIMIT_CPU, &lim);
                let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &lim);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                if !verbose {
                    let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                    libc::dup2(null, 1);
                    libc::dup2(null, 2);
                }
            }
            install_panic_hook();
            crate::set_tracing(tracing);
            crate::set_hash_seed(0);
            let (rngs, replay) = match source {
                Source::Seed(s) => (
                    [Rng::new(mix(s ^ 1)), Rng::new(mix(s ^ 2)), Rng::new(mix(s ^ 3))],
                    None,
                ),
                Source::Tape(t) => ([Rng::new(0), Rng::new(0), Rng::new(0)], Some(t.clone())),
            };
            *LIVE.lock().unwrap() = Some(Live {
                shared,
                replay,
                pos: [0; STREAMS],
                rng: rngs,
                counters: BTreeMap::new(),
                trace: Vec::new(),
                fingerprint: 0,
                log_hash: 0,
                nontrivial: false,
                sim_steps: 0,
            });
            let body = self.check.body;
            let t = std::thread::Builder::new().stack_size(STACK).spawn(move || {
                body();
                finish("ok", "", "");
            });
            match t {
                Ok(t) => {
                    let _ = t.join();
                    finish("harness", "harness", "body thread ended");
                }
                Err(e) => finish("harness", "harness", &format!("cannot start thread: {}", e)),
            }
        }
        Job { pid, started: Instant::now(), killed: false }
    }

    fn collect(&self, slot: usize, status: i32, killed: bool) -> Outcome {
        let s = unsafe { &*self.slots[slot] };
        let mut tape: [Vec<u32>; STREAMS] = Default::default();
        for i in 0..STREAMS {
            tape[i] = s.tape[i][..s.len[i] as usize].to_vec();
        }
        let mut o = Outcome {
            status: "violation".into(),
            class: String::new(),
            message: String::new(),
            counters: BTreeMap::new(),
            fingerprint: 0,
            log_hash: 0,
            nontrivial: false,
            steps: 0,
            trace: Vec::new(),
            tape,
        };
        if s.result_len > 0 {
            let v: Value = match serde_json::from_slice(&s.result[..s.result_len as usize]) {
                Ok(v) => v,
                Err(e) => {
                    o.status = "harness".into();
                    o.message = format!("bad result: {}", e);
                    return o;
                }
            };
            o.status = v["status"].as_str().unwrap_or("harness").to_owned();
            o.class = v["class"].as_str().unwrap_or("").to_owned();
            o.message = v["message"].as_str().unwrap_or("").to_owned();
            if let Some(c) = v["counters"].as_object() {
                for (k, x) in c {
                    o.counters.insert(k.clone(), x.as_u64().unwrap_or(0));
                }
            }
            o.fingerprint = v["fp"].as_u64().unwrap_or(0);
            o.log_hash = v["log"].as_u64().unwrap_or(0);
            o.nontrivial = v["nontrivial"].as_bool().unwrap_or(false);
            o.steps = v["steps"].as_u64().unwrap_or(0);
            if let Some(t) = v["trace"].as_array() {
                o.trace = t.iter().map(|x| x.as_str().unwrap_or("").to_owned()).collect();
            }
            return o;
        }
        if killed {
            o.class = "hang (wall clock)".into();
            o.message = "the run did not end".into();
        } else if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            if sig == libc::SIGXCPU {
                o.class = "hang".into();
                o.message = "the run did not end within its processor time limit".into();
            } else if sig == libc::SIGKILL {
                o.status = "lost".into();
                o.class = "killed".into();
            } else {
                o.class = format!("signal {}", sig);
                o.message = format!("the process died of signal {}", sig);
            }
        } else {
            o.class = format!("exit {}", libc::WEXITSTATUS(status));
            o.message = "the process ended by itself".into();
        }
        o
    }

    /// Runs sources to completion, in parallel, and hands outcomes to `done`, which
    /// returns false to stop starting new ones.
    fn run_all(
        &self,
        mut next: impl FnMut() -> Option<(u64, Source, bool)>,
        cpu_limit: u64,
        verbose: bool,
        mut done: impl FnMut(u64, Outcome) -> bool,
    ) {
        let n = self.slots.len();
        let mut jobs: Vec<Option<(u64, Job)>> = (0..n).map(|_| None).collect();
        let mut exhausted = false;
        let mut running = 0;
        let mut idle_spins = 0u32;
        loop {
            if !exhausted {
                for slot in 0..n {
                    if jobs[slot].is_none() {
                        match next() {
                            Some((key, src, tracing)) => {
                                let job = self.start(slot, &src, tracing, cpu_limit, verbose);
                                jobs[slot] = Some((key, job));
                                running += 1;
                            }
                            None => {
                                exhausted = true;
                                break;
                            }
                        }
                    }
                }
            }
            if running == 0 {
                return;
            }
            let mut status = 0;
            let pid = unsafe { libc::waitpid(-1, &mut status, libc::WNOHANG) };
            if pid > 0 {
                idle_spins = 0;
                let slot = jobs.iter().position(|j| matches!(j, Some((_, j)) if j.pid == pid));
                let Some(slot) = slot else { continue };
                let (key, job) = jobs[slot].take().unwrap();
                running -= 1;
                let o = self.collect(slot, status, job.killed);
                // whatever the run started ends with it
                unsafe { libc::kill(-pid, libc::SIGKILL) };
                crate::proc::ended(pid);
                if !done(key, o) {
                    exhausted = true;
                }
                continue;
            }
            idle_spins += 1;
            if idle_spins > 20 {
                std::thread::sleep(Duration::from_micros(if idle_spins > 200 { 1000 } else { 100 }));
            } else {
                std::thread::yield_now();
            }
            if idle_spins % 512 == 511 {
                for j in jobs.iter_mut().flatten() {
                    let limit = self.check.wall_limit * if cpu_limit > self.check.cpu_limit { 3 } else { 1 };
                    if !j.1.killed && j.1.started.elapsed() > Duration::from_secs(limit) {
                        j.1.killed = true;
                        unsafe {
                            libc::kill(-j.1.pid, libc::SIGKILL);
                            libc::kill(j.1.pid, libc::SIGKILL);
                        }
                    }
                }
            }
        }
    }

    fn run_one(&self, source: Source, tracing: bool, cpu_limit: u64, verbose: bool) -> Outcome {
        let mut src = Some((0, source, tracing));
        let mut out = None;
        self.run_all(|| src.take(), cpu_limit, verbose, |_, o| {
            out = Some(o);
            true
        });
        out.unwrap()
    }
}

fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_bytes(0, id.as_bytes())).wrapping_add(i))
}

fn shrink(r: &Runner, class: &str, start: [Vec<u32>; STREAMS], budget: Duration) -> ([Vec<u32>; STREAMS], u64) {
    let deadline = Instant::now() + budget;
    let mut best = start;
    let mut tried = 0u64;
    let jobs = r.slots.len();
    // tries candidates in order, in batches; adopts the first that still fails
    let attempt = |best: &mut [Vec<u32>; STREAMS], cands: Vec<[Vec<u32>; STREAMS]>, tried: &mut u64| -> Option<usize> {
        let mut i = 0;
        while i < cands.len() {
            if Instant::now() > deadline {
                return None;
            }
            let end = (i + jobs).min(cands.len());
            let mut results: Vec<Option<Outcome>> = vec![None; end - i];
            let mut k = i;
            r.run_all(
                || {
                    if k >= end {
                        return None;
                    }
                    k += 1;
                    Some(((k - 1 - i) as u64, Source::Tape(cands[k - 1].clone()), false))
                },
                r.check.cpu_limit,
                false,
                |key, o| {
                    results[key as usize] = Some(o);
                    true
                },
            );
            *tried += (end - i) as u64;
            for (j, o) in results.into_iter().enumerate() {
                let o = o.unwrap();
                if o.status == "violation" && o.class == class {
                    let mut t = o.tape;
                    for s in t.iter_mut() {
                        while s.last() == Some(&0) {
                            s.pop();
                        }
                    }
                    let size = |t: &[Vec<u32>; STREAMS]| {
                        (t.iter().map(|s| s.len()).sum::<usize>(), t.iter().flatten().map(|&x| x as u64).sum::<u64>())
                    };
                    if size(&t) < size(best) {
                        *best = t;
                        return Some(i + j);
                    }
                }
            }
            i = end;
        }
        None
    };
    loop {
        let before = best.clone();
        // clear whole streams
        for s in 0..STREAMS {
            if !best[s].is_empty() {
                let mut c = best.clone();
                c[s].clear();
                attempt(&mut best, vec![c], &mut tried);
            }
        }
        // cut tails and chunks
        for s in 0..STREAMS {
            let mut size = (best[s].len() / 2).max(1);
            loop {
                let mut at = 0;
                loop {
                    let cands: Vec<_> = (0..jobs * 2)
                        .map(|k| at + k * size)
                        .filter(|&p| p < best[s].len())
                        .map(|p| {
                            let mut c = best.clone();
                            let e = (p + size).min(c[s].len());
                            c[s].drain(p..e);
                            c
                        })
                        .collect();
                    if cands.is_empty() || Instant::now() > deadline {
                        break;
                    }
                    let n = cands.len();
                    match attempt(&mut best, cands, &mut tried) {
                        Some(k) => at += k * size,
                        None => at += n * size,
                    }
                }
                if size == 1 || Instant::now() > deadline {
                    break;
                }
                size /= 2;
            }
        }
        // simpler values
        for s in 0..STREAMS {
            let mut size = 16;
            while size >= 1 {
                let mut at = 0;
                while at < best[s].len() && Instant::now() < deadline {
                    let cands: Vec<_> = (0..jobs)
                        .map(|k| at + k * size)
                        .filter(|&p| p < best[s].len())
                        .filter(|&p| best[s][p..(p + size).min(best[s].len())].iter().any(|&x| x != 0))
                        .map(|p| {
                            let mut c = best.clone();
                            let e = (p + size).min(c[s].len());
                            c[s][p..e].iter_mut().for_each(|x| *x = 0);
                            c
                        })
                        .collect();
                    if attempt(&mut best, cands, &mut tried).is_none() {
                        at += jobs * size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 4;
            }
            let mut p = 0;
            while p < best[s].len() && Instant::now() < deadline {
                let v = best[s][p];
                if v > 1 {
                    let mut cands = Vec::new();
                    for nv in [1, v / 2, v - 1] {
                        if nv < v {
                            let mut c = best.clone();
                            c[s][p] = nv;
                            cands.push(c);
                        }
                    }
                    if attempt(&mut best, cands, &mut tried).is_some() {
                        continue;
                    }
                }
                p += 1;
            }
        }
        if best == before || Instant::now() > deadline {
            return (best, tried);
        }
    }
}

struct Known {
    property: String,
    class: String,
    text: String,
}

/// Lines `finding: property=<id> class=<class> :: <what fails>`. The class is a prefix match.
fn known_findings(root: &str) -> Vec<Known> {
    let mut out = Vec::new();
    let text = std::fs::read_to_string(format!("{}/known_findings.txt", root)).unwrap_or_default();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            if let Some((property, rest)) = rest.split_once(" class=") {
                if let Some((class, text)) = rest.split_once(" :: ") {
                    out.push(Known {
                        property: property.to_owned(),
                        class: class.to_owned(),
                        text: text.to_owned(),
                    });
                }
            }
        }
    }
    out
}

/// Runs `init` here if it ends in a process of its own; if the code under test cannot
/// do even that, every run finds it out for itself and reports it.
fn warm_up(init: fn()) {
    unsafe {
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("harness error: fork failed");
            std::process::exit(2);
        }
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 8 << 30, rlim_max: 8 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let limit = libc::rlimit { rlim_cur: 20, rlim_max: 20 };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            libc::alarm(60);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 2);
            let ok = std::panic::catch_unwind(init).is_ok();
            libc::_exit(if ok { 42 } else { 1 });
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if libc::WIFEXITED(status) && libc::WEXITSTATUS(status) == 42 {
            init();
        } else {
            println!("warming up failed (status {:#x}): every run starts cold", status);
        }
    }
}

pub fn main(checks: &[Check]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(check) = args.first().and_then(|a| checks.iter().find(|c| c.id == a.as_str())) else {
        eprintln!("usage: <property> [--replay file] [--runs n] [--secs n] [--jobs n] [--one i] [--determinism n]");
        std::process::exit(2);
    };
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let num = |name: &str| opt(name).map(|x| x.parse::<u64>().expect("number"));
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| ".".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let cpus = unsafe { libc::sysconf(libc::_SC_NPROCESSORS_ONLN) }.max(1) as usize;
    let jobs = num("--jobs").map(|x| x as usize).unwrap_or(check.jobs.min(cpus).max(1));
    println!("property={} seed={} tier={}", check.id, seed, tier);
    if check.scratch {
        crate::proc::prepare();
    }
    warm_up(check.init);

    if let Some(file) = opt("--replay") {
        replay(check, &file);
    }
    if let Some(i) = num("--one") {
        let r = Runner::new(check, 1);
        let o = r.run_one(Source::Seed(run_seed(seed, check.id, i)), true, check.cpu_limit, true);
        for l in &o.trace {
            println!("{}", l);
        }
        println!("status={} class={} message={}", o.status, o.class, o.message);
        println!("{:?}", o.counters);
        return;
    }
    if let Some(n) = num("--determinism") {
        determinism(check, seed, n);
        return;
    }

    let runs = num("--runs").unwrap_or(if tier == "quick" { check.quick_runs } else { check.thorough_runs });
    let secs = num("--secs").unwrap_or(if tier == "quick" { check.quick_secs } else { check.thorough_secs });
    let max_violations = num("--keep-going").unwrap_or(1) as usize;
    let known = known_findings(&root);
    let known: Vec<&Known> = known.iter().filter(|k| k.property == check.id).collect();
    let mut known_hits = vec![0u64; known.len()];

    let start = Instant::now();
    let r = Runner::new(check, jobs);
    let mut next_index = 0u64;
    let mut evaluations = 0u64;
    let mut discards = 0u64;
    let mut lost = 0u64;
    let mut steps = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hit_runs: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut bad: Vec<(u64, Outcome)> = Vec::new();
    let mut harness: Option<(u64, String)> = None;
    let stop_at = Duration::from_secs(secs);
    let mut reported = 0u64;
    let mut seen_classes = HashSet::new();
    let mut flaky: Option<(u64, Outcome, Outcome)> = None;
    let mut unconfirmed = 0u64;
    let mut slow = 0u64;
    let mut explore_s = 0.0;
    // explores until a violation is confirmed or the budget is used up
    loop {
        let explore_start = Instant::now();
        r.run_all(
            || {
                if next_index >= runs || start.elapsed() >= stop_at {
                    return None;
                }
                let i = next_index;
                next_index += 1;
                Some((i, Source::Seed(run_seed(seed, check.id, i)), i < 40))
            },
            check.cpu_limit,
            false,
            |i, o| {
                evaluations += 1;
                steps += o.steps;
                for (k, v) in &o.counters {
                    *counters.entry(k.clone()).or_insert(0) += v;
                    *hit_runs.entry(k.clone()).or_insert(0) += 1;
                }
                match o.status.as_str() {
                    "ok" => {
                        if o.nontrivial {
                            distinct.insert(o.fingerprint);
                            if samples.len() < 3 && !o.trace.is_empty() {
                                let t: Vec<_> = o.trace.iter().take(60).map(|s| s.chars().take(1500).collect::<String>()).collect();
                                samples.push(json!({"run": i, "trace": t}));
                            }
                        }
                    }
                    "discard" => discards += 1,
                    "lost" => lost += 1,
                    "violation" => {
                        if let Some(k) = known.iter().position(|k| o.class.starts_with(&k.class)) {
                            known_hits[k] += 1;
                        } else {
                            bad.push((i, o));
                            return bad.len() < max_violations;
                        }
                    }
                    _ => {
                        harness = Some((i, o.message));
                        return false;
                    }
                }
                true
            },
        );
        explore_s += explore_start.elapsed().as_secs_f64();
        if let Some((i, m)) = harness {
            eprintln!("harness error in run {}: {}", i, m);
            std::process::exit(2);
        }
        if lost > evaluations / 20 + 2 {
            eprintln!("harness error: {} runs were killed from outside", lost);
            std::process::exit(2);
        }
        bad.sort_by_key(|b| b.0);
        for (i, mut o) in std::mem::take(&mut bad) {
            if !seen_classes.insert(o.class.clone()) {
                continue;
            }
            // the same tape has to fail the same way, with time to spare
            let hang = o.class.starts_with("hang");
            let limit = if hang { check.cpu_limit * 3 } else { check.cpu_limit };
            let mut confirm = r.run_one(Source::Tape(o.tape.clone()), true, limit, false);
            if confirm.status != "violation" || confirm.class != o.class {
                if hang {
                    println!("note: run {} was slow, not stuck", i);
                    seen_classes.remove(&o.class);
                    slow += 1;
                    continue;
                }
                // another chance: the same choices, run again
                let again = (0..4).map(|_| r.run_one(Source::Tape(o.tape.clone()), true, limit, false));
                let found = std::iter::once(confirm.clone()).chain(again).find(|c| {
                    c.status == "violation" && !known.iter().any(|k| c.class.starts_with(&k.class))
                });
                let Some(found) = found else {
                    unconfirmed += 1;
                    seen_classes.remove(&o.class);
                    flaky = Some((i, o, confirm));
                    continue;
                };
                o.class = found.class.clone();
                confirm = found;
            }
            let budget = Duration::from_secs(if hang { 0 } else { 25 });
            let (tape, tried) = shrink(&r, &o.class, o.tape.clone(), budget);
            let last = r.run_one(Source::Tape(tape.clone()), true, limit, false);
            let (tape, last) = if last.status == "violation" && last.class == o.class {
                (tape, last)
            } else {
                (o.tape.clone(), confirm)
            };
            let size = |t: &[Vec<u32>; STREAMS]| t.iter().map(|s| s.len()).sum::<usize>();
            let mut streams = serde_json::Map::new();
            for s in 0..STREAMS {
                streams.insert(STREAM_NAMES[s].to_owned(), json!(tape[s]));
            }
            let doc = json!({
                "property": check.id,
                "class": last.class,
                "message": last.message,
                "seed": seed,
                "run": i,
                "choices_before_minimising": size(&o.tape),
                "choices": size(&tape),
                "minimising_runs": tried,
                "trace": last.trace,
                "tape": streams,
            });
            let dir = format!("{}/replays", root);
            let _ = std::fs::create_dir_all(&dir);
            let name = format!("{}-{:016x}.json", check.id, hash_bytes(i, last.class.as_bytes()));
            let path = format!("{}/{}", dir, name);
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()) {
                eprintln!("harness error: cannot write {}: {}", path, e);
                std::process::exit(2);
            }
            println!("run {}: {}", i, last.class);
            println!("{}", last.message.lines().take(40).collect::<Vec<_>>().join("\n"));
            println!("VIOLATION property={} replay=replays/{}", check.id, name);
            reported += 1;
        }
        if reported > 0 || next_index >= runs || start.elapsed() >= stop_at || unconfirmed >= 8 || slow >= 20 {
            break;
        }
    }
    for (k, f) in known.iter().enumerate() {
        println!("KNOWN-FINDING: property={} {} ({} runs)", check.id, f.text, known_hits[k]);
    }
    if let Some((i, o, c)) = flaky {
        let text = format!(
            "run {} does not replay\nfirst: {} {}\nthen: {} {} {}",
            i, o.class, o.message, c.status, c.class, c.message
        );
        if reported == 0 && unconfirmed >= 8 {
            eprintln!("harness error: {}", text);
            std::process::exit(2);
        }
        println!("note: {}", text);
    }

    let wall = start.elapsed().as_secs_f64();
    let mut faults = serde_json::Map::new();
    for (k, v) in &counters {
        faults.insert(k.clone(), json!({"times": v, "runs": hit_runs[k]}));
    }
    let evidence = json!({
        "property": check.id,
        "tier": tier,
        "seed": seed,
        "level": check.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": check.rule,
            "samples": samples,
            "runs_planned": runs,
            "discarded": discards,
            "killed_from_outside": lost,
            "failures_that_did_not_replay": unconfirmed,
            "slow_runs_that_ended_with_more_time": slow,
            "runs_per_hour": (evaluations as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "seeds_per_hour": (evaluations as f64 / explore_s.max(0.001) * 3600.0) as u64,
            "simulated_steps": steps,
            "simulated_time": "the system has no clock; simulated time is counted in steps",
            "events_and_faults": faults,
            "real_components": check.real,
            "stubs": check.stubs,
            "workers": jobs,
            "known_findings_seen": known_hits,
        },
        "assumptions": check.assumptions,
        "wall_s": wall,
        "violations": reported,
    });
    let dir = format!("{}/evidence", root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, check.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n") {
        eprintln!("harness error: cannot write {}: {}", path, e);
        std::process::exit(2);
    }
    println!(
        "{}: {} runs in {:.1} s, {} distinct, {} discarded, {} violations",
        check.id, evaluations, explore_s, distinct.len(), discards, reported
    );
    if args.iter().any(|a| a == "--stats") {
        for (k, v) in &counters {
            println!("  {:40} {:>10} in {} runs", k, v, hit_runs[k]);
        }
    }
    let _ = std::io::stdout().flush();
    std::process::exit(if reported > 0 { 1 } else { 0 });
}

fn replay(check: &Check, file: &str) -> ! {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", file, e);
        std::process::exit(2);
    });
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
        eprintln!("bad replay file: {}", e);
        std::process::exit(2);
    });
    let mut tape: [Vec<u32>; STREAMS] = Default::default();
    for s in 0..STREAMS {
        if let Some(a) = v["tape"][STREAM_NAMES[s]].as_array() {
            tape[s] = a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect();
        }
    }
    let r = Runner::new(check, 1);
    let o = r.run_one(Source::Tape(tape), true, check.cpu_limit * 3, false);
    for l in &o.trace {
        println!("{}", l);
    }
    println!("status={} class={}\n{}", o.status, o.class, o.message);
    if o.status == "violation" {
        if Some(o.class.as_str()) != v["class"].as_str() {
            println!("note: recorded class was {}", v["class"]);
        }
        println!("VIOLATION property={} replay={}", check.id, file);
        std::process::exit(1);
    }
    std::process::exit(if o.status == "ok" || o.status == "discard" { 0 } else { 2 });
}

fn determinism(check: &Check, seed: u64, n: u64) {
    let mut results: Vec<BTreeMap<u64, (String, String, u64, u64, u64)>> = Vec::new();
    for jobs in [1usize, 5, 8] {
        let r = Runner::new(check, jobs);
        let mut i = 0;
        let mut m = BTreeMap::new();
        r.run_all(
            || {
                if i >= n {
                    return None;
                }
                i += 1;
                Some((i - 1, Source::Seed(run_seed(seed, check.id, i - 1)), false))
            },
            check.cpu_limit,
            false,
            |k, o| {
                let mut h = 0;
                for s in &o.tape {
                    for x in s {
                        h = mix(h ^ *x as u64);
                    }
                }
                m.insert(k, (o.status, o.class, o.fingerprint, o.log_hash, h));
                true
            },
        );
        results.push(m);
    }
    let mut diffs = 0;
    for i in 0..n {
        if results.iter().any(|r| r[&i] != results[0][&i]) {
            diffs += 1;
            println!("run {} differs: {:?}", i, results.iter().map(|r| &r[&i]).collect::<Vec<_>>());
        }
    }
    println!("determinism: {} runs at 1, 5 and 8 workers, {} differ", n, diffs);
    std::process::exit(if diffs > 0 { 2 } else { 0 });
}

//! Deterministic simulation core: choice tapes, run isolation, driver, shrinker,
//! evidence. One run is a pure function of its tape.

pub mod memory;
pub mod driver;
pub mod eval;
pub mod gen;
pub mod lang;
pub mod proc;
pub mod rng;
pub mod text;
pub mod world;

use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

pub use driver::{main, Check};
pub use rng::{mix, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stream {
    /// The workload: programs, texts, operations.
    Gen = 0,
    /// Decisions taken while the system runs: collections, thread choice, pass order.
    Sched = 1,
    /// Faults.
    Fault = 2,
}

pub const STREAMS: usize = 3;
pub const STREAM_NAMES: [&str; STREAMS] = ["gen", "sched", "fault"];
pub const TAPE_CAP: usize = 1 << 18;

pub(crate) struct Live {
    /// Shared with the driver, so that the tape of a crashed run survives.
    pub shared: *mut driver::Slot,
    pub replay: Option<[Vec<u32>; STREAMS]>,
    pub pos: [usize; STREAMS],
    pub rng: [Rng; STREAMS],
    pub counters: BTreeMap<String, u64>,
    pub trace: Vec<String>,
    pub fingerprint: u64,
    pub log_hash: u64,
    pub nontrivial: bool,
    pub sim_steps: u64,
}
unsafe impl Send for Live {}

pub(crate) static LIVE: Mutex<Option<Live>> = Mutex::new(None);
static TRACING: AtomicBool = AtomicBool::new(false);
/// Tapes are not consumed while this is set, every draw is 0 (used for setup).
static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static HASH_CALLS: AtomicU64 = AtomicU64::new(0);

pub(crate) fn live<T>(f: impl FnOnce(&mut Live) -> T) -> T {
    let mut guard = match LIVE.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    };
    f(guard.as_mut().expect("no live run"))
}

pub(crate) fn set_tracing(on: bool) {
    TRACING.store(on, Ordering::Relaxed);
}

pub fn tracing() -> bool {
    TRACING.load(Ordering::Relaxed)
}

/// Next choice of a stream, in `0..n`.
pub fn draw(stream: Stream, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    live(|l| {
        let s = stream as usize;
        let i = l.pos[s];
        if i >= TAPE_CAP {
            return 0;
        }
        let v = match &l.replay {
            Some(t) => t[s].get(i).copied().unwrap_or(0) % n,
            None => (l.rng[s].next() % n as u64) as u32,
        };
        l.pos[s] = i + 1;
        unsafe {
            (*l.shared).tape[s][i] = v;
            (*l.shared).len[s] = (i + 1) as u32;
        }
        v
    })
}

pub fn gen(n: u32) -> u32 {
    draw(Stream::Gen, n)
}

/// `lo..=hi`
pub fn gen_range(lo: u32, hi: u32) -> u32 {
    lo + gen(hi - lo + 1)
}

pub fn sched(n: u32) -> u32 {
    draw(Stream::Sched, n)
}

pub fn fault(n: u32) -> u32 {
    draw(Stream::Fault, n)
}

/// True with probability `num/den`; choice 0 is false.
pub fn chance(stream: Stream, num: u32, den: u32) -> bool {
    draw(stream, den) >= den - num
}

pub fn gchance(num: u32, den: u32) -> bool {
    chance(Stream::Gen, num, den)
}

pub fn pick<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[gen(xs.len() as u32) as usize]
}

/// Picks an index with the given weights; index 0 is the simplest.
pub fn weighted(stream: Stream, weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut x = draw(stream, total);
    for (i, w) in weights.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= *w;
    }
    unreachable!()
}

pub fn gweighted(weights: &[u32]) -> usize {
    weighted(Stream::Gen, weights)
}

/// Counts that something happened (a fault fired, a rare branch was reached).
pub fn count(name: &str, by: u64) {
    live(|l| *l.counters.entry(name.to_owned()).or_insert(0) += by);
}

pub fn probe(name: &str) {
    count(name, 1);
}

fn echo() -> bool {
    static ECHO: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ECHO.get_or_init(|| std::env::var_os("SIM_ECHO").is_some())
}

/// Adds a line to the readable rendering of the run (only kept when tracing).
pub fn trace(f: impl FnOnce() -> String) {
    if tracing() {
        let s = f();
        if echo() {
            eprintln!("{}", s);
        }
        live(|l| {
            if l.trace.len() < 5000 {
                l.trace.push(s)
            }
        });
    }
}

/// Mixes an observation into the hash that determinism checks compare.
pub fn observe(bytes: &[u8]) {
    live(|l| l.log_hash = rng::hash_bytes(l.log_hash, bytes));
}

/// Mixes a value into the fingerprint that tells distinct runs apart.
pub fn fingerprint(v: u64) {
    live(|l| l.fingerprint = mix(l.fingerprint ^ v));
}

pub fn fingerprint_bytes(b: &[u8]) {
    live(|l| l.fingerprint = rng::hash_bytes(l.fingerprint, b));
}

pub fn nontrivial() {
    live(|l| l.nontrivial = true);
}

pub fn steps(n: u64) {
    live(|l| l.sim_steps += n);
}

/// Reports that the property does not hold, and ends the run.
pub fn violation(class: &str, message: &str) -> ! {
    driver::finish("violation", class, message)
}

/// The run turned out to be of no use (say, the generated program is invalid).
pub fn discard(reason: &str) -> ! {
    probe(&format!("discard: {}", reason));
    driver::finish("discard", reason, "")
}

/// Something is wrong with the harness itself.
pub fn harness_error(message: &str) -> ! {
    driver::finish("harness", "harness", message)
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::violation($class, &format!($($arg)*));
        }
    };
}

/// Seed of all `RandomState`s created by threads that start afterwards.
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.store(seed, Ordering::SeqCst);
    HASH_CALLS.store(0, Ordering::SeqCst);
}

/// std takes hash seeds from here instead of from the kernel.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let n = HASH_CALLS.fetch_add(1, Ordering::SeqCst);
    let mut r = Rng::new(mix(HASH_SEED.load(Ordering::SeqCst)).wrapping_add(n));
    let out = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, len) };
    for b in out {
        *b = r.next() as u8;
    }
    len as libc::ssize_t
}

/// How often a thread asked for a hash seed (shows that the seam works).
pub fn hash_seed_requests() -> u64 {
    HASH_CALLS.load(Ordering::SeqCst)
}

/// Turns numbers and names in a message into placeholders, for violation classes.
pub fn normalize(msg: &str) -> String {
    let mut out = String::new();
    let mut last_digit = false;
    for c in msg.chars() {
        if c.is_ascii_digit() {
            if !last_digit {
                out.push('N');
            }
            last_digit = true;
        } else {
            last_digit = false;
            out.push(if c == '\n' { ' ' } else { c });
        }
        if out.len() > 100 {
            break;
        }
    }
    out
}

/// Runs something in a process of its own, forked from this one, and returns what
/// it returned. No choices may be drawn in it. If it panics, so does the run.
pub fn in_fork(f: impl FnOnce() -> String) -> String {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    let mut fds = [0; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            harness_error("pipe failed");
        }
        let pid = libc::fork();
        if pid < 0 {
            harness_error("fork failed");
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            // another thread, with hash seeds of its own
            let w = Wrap(f);
            let out = std::thread::scope(move |s| {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || w.run()).unwrap().join()
            });
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            if let Ok(out) = out {
                let _ = w.write_all(b"+");
                let _ = w.write_all(out.as_bytes());
            }
            drop(w);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = Vec::new();
        if r.read_to_end(&mut out).is_err() {
            harness_error("cannot read from a fork");
        }
        let mut status = 0;
        libc::waitpid(pid, &mut status, 0);
        if out.first() != Some(&b'+') {
            if live(|l| (*l.shared).result_len) > 0 {
                // the fork has already reported
                libc::_exit(0);
            }
            violation("crash", &format!("the process ended with status {:#x}", status));
        }
        String::from_utf8(out.split_off(1)).unwrap_or_else(|_| harness_error("a fork wrote garbage"))
    }
}

struct Wrap<F>(F);
unsafe impl<F> Send for Wrap<F> {}
impl<F: FnOnce() -> String> Wrap<F> {
    fn run(self) -> String {
        (self.0)()
    }
}

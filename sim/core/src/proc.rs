//! Running the shipped binaries below a plan of what their system calls do.

use crate::{count, harness_error, steps};
use std::collections::BTreeMap;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

/// Where all runs of this driver keep their files.
pub(crate) static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub fn root() -> String {
    std::env::var("SIM_ROOT").unwrap_or_else(|_| {
        let exe = std::env::current_exe().unwrap_or_default();
        exe.ancestors().nth(4).unwrap_or(Path::new(".")).to_string_lossy().into_owned()
    })
}

pub(crate) extern "C" fn remove_scratch() {
    if let Some(d) = SCRATCH.get() {
        if d.ends_with(format!("ticsim-{:08}", std::process::id())) {
            let _ = std::fs::remove_dir_all(d);
        }
    }
}

/// Called by the driver, before there are any runs.
pub(crate) fn prepare() {
    let d = PathBuf::from(format!("/tmp/ticsim-{:08}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).expect("scratch directory");
    SCRATCH.set(d).expect("only once");
    unsafe { libc::atexit(remove_scratch) };
}

/// Called by the driver, after the run of process `pid` has ended.
pub(crate) fn ended(pid: i32) {
    if let Some(d) = SCRATCH.get() {
        let _ = std::fs::remove_dir_all(d.join(format!("{:08}", pid)));
    }
}

/// The directory of this run. The system under test gets to see only `w` in it.
pub struct Scratch {
    dir: PathBuf,
    runs: usize,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub class: char,
    pub index: usize,
    pub result: i64,
    pub errno: i32,
    /// What the plan did to the call: `-` nothing, `once`, `always`, `cut`, `chunk`, `short`, `delay`, `size`.
    pub what: String,
    /// The file was opened for writing.
    pub out: bool,
    pub path: String,
}

#[derive(Clone, Debug, Default)]
pub struct Command1 {
    pub bin: &'static str,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    pub plan: Vec<String>,
    /// Limit of the address space, in megabytes.
    pub memory: Option<u64>,
    /// Where in the world it is started.
    pub cwd: String,
}

#[derive(Clone, Debug)]
pub struct Ended {
    /// `exit N`, `signal N` or `hang`.
    pub status: String,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub calls: Vec<Call>,
}

impl Ended {
    pub fn success(&self) -> bool {
        self.status == "exit 0"
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    /// Everything but the calls, for traces.
    pub fn describe(&self) -> String {
        let clip = |s: String| if s.len() > 1500 { format!("{}... ({} bytes)", s.chars().take(1500).collect::<String>(), s.len()) } else { s };
        format!("{}\nstdout: {}\nstderr: {}", self.status, clip(self.out()), clip(self.err()))
    }
}

fn sys<T>(what: &str, r: std::io::Result<T>) -> T {
    r.unwrap_or_else(|e| harness_error(&format!("{}: {}", what, e)))
}

impl Scratch {
    pub fn new() -> Scratch {
        let Some(root) = SCRATCH.get() else { harness_error("no scratch directory") };
        let dir = root.join(format!("{:08}", std::process::id()));
        sys("scratch", std::fs::create_dir_all(dir.join("w")));
        Scratch { dir, runs: 0 }
    }

    pub fn world(&self) -> PathBuf {
        self.dir.join("w")
    }

    /// Puts a file into the world; its directories appear as needed.
    pub fn put(&self, path: &str, contents: &[u8]) {
        let p = self.world().join(path);
        if let Some(d) = p.parent() {
            sys("mkdir", std::fs::create_dir_all(d));
        }
        sys("put", std::fs::write(&p, contents));
    }

    pub fn clear(&self) {
        sys("clear", std::fs::remove_dir_all(self.world()));
        sys("clear", std::fs::create_dir_all(self.world()));
    }

    /// All files of the world with their contents.
    pub fn snapshot(&self) -> BTreeMap<String, Vec<u8>> {
        let mut out = BTreeMap::new();
        visit(&self.world(), "", &mut out);
        out
    }

    /// The names of scratch directories differ between runs.
    fn neutral(&self, b: Vec<u8>) -> Vec<u8> {
        let name = self.world().to_string_lossy().into_owned();
        replace(b, name.as_bytes(), b"/WORLD")
    }

    pub fn run(&mut self, c: &Command1) -> Ended {
        self.runs += 1;
        let at = |n: &str| self.dir.join(n);
        let world = self.world();
        let w = world.to_string_lossy().into_owned();
        sys("stdin", std::fs::write(at("in"), &c.stdin));
        let _ = std::fs::remove_file(at("log"));
        let root = root();
        let bin = format!("{}/target/plain/debug/{}", root, c.bin);
        let mut cmd = Command::new(&bin);
        cmd.args(c.args.iter().map(|a| a.replace("/WORLD", &w)))
            .current_dir(world.join(&c.cwd))
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("RUST_BACKTRACE", "0")
            .env("LD_PRELOAD", format!("{}/target/shim.so", root))
            .env("SIM_PLAN", c.plan.iter().map(|p| p.replace("/WORLD", &w)).collect::<Vec<_>>().join(";"))
            .env("SIM_SCOPE", &w)
            .env("SIM_LOG", at("log"))
            .stdin(Stdio::from(sys("stdin", std::fs::File::open(at("in")))))
            .stdout(Stdio::from(sys("stdout", std::fs::File::create(at("out")))))
            .stderr(Stdio::from(sys("stderr", std::fs::File::create(at("err")))));
        let memory = c.memory;
        unsafe {
            cmd.pre_exec(move || {
                if let Some(m) = memory {
                    let lim = libc::rlimit { rlim_cur: m << 20, rlim_max: m << 20 };
                    libc::setrlimit(libc::RLIMIT_AS, &lim);
                }
                Ok(())
            });
        }
        let mut child = cmd.spawn().unwrap_or_else(|e| harness_error(&format!("cannot start {}: {}", bin, e)));
        let start = Instant::now();
        let mut spins = 0u32;
        let status = loop {
            match sys("wait", child.try_wait()) {
                Some(s) => match (s.code(), s.signal()) {
                    (Some(c), _) => break format!("exit {}", c),
                    (_, Some(libc::SIGXCPU)) => break "hang".to_owned(),
                    (_, Some(g)) => break format!("signal {}", g),
                    _ => harness_error("no status"),
                },
                None => {
                    if start.elapsed() > Duration::from_secs(60) {
                        let _ = child.kill();
                        let _ = child.wait();
                        break "hang".to_owned();
                    }
                    spins += 1;
                    std::thread::sleep(Duration::from_micros(if spins < 50 { 200 } else { 1000 }));
                }
            }
        };
        let read = |n: &str| std::fs::read(at(n)).unwrap_or_default();
        let mut calls = Vec::new();
        let log = read("log");
        if status.starts_with("exit") && log.is_empty() && c.memory.is_none() {
            harness_error(&format!("{} made no calls that the simulation saw:\n{}", c.bin, String::from_utf8_lossy(&read("err"))));
        }
        for line in String::from_utf8_lossy(&log).lines() {
            let parts: Vec<&str> = line.splitn(6, ' ').collect();
            let [class, index, result, errno, what, path] = parts[..] else { continue };
            let out = what.ends_with("/out");
            calls.push(Call {
                class: class.chars().next().unwrap_or('?'),
                index: index.parse().unwrap_or(0),
                result: result.parse().unwrap_or(0),
                errno: errno.parse().unwrap_or(0),
                what: what.trim_end_matches("/out").to_owned(),
                out,
                path: path.replace(&w, "/WORLD"),
            });
        }
        count("processes", 1);
        count("system calls", calls.len() as u64);
        steps(calls.len() as u64);
        for k in &calls {
            if k.what != "-" {
                let e = if k.errno != 0 { format!(" {}", errno_name(k.errno)) } else { String::new() };
                count(&format!("{} {}{}", class_name(k.class), k.what, e), 1);
            }
        }
        Ended { status, stdout: self.neutral(read("out")), stderr: self.neutral(read("err")), calls }
    }
}

fn visit(dir: &Path, prefix: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    let mut entries: Vec<_> = match std::fs::read_dir(dir) {
        Ok(r) => r.flatten().collect(),
        Err(_) => return,
    };
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        let name = format!("{}{}", prefix, e.file_name().to_string_lossy());
        match e.file_type() {
            Ok(t) if t.is_dir() => visit(&e.path(), &format!("{}/", name), out),
            Ok(t) if t.is_file() => {
                out.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
            _ => {}
        }
    }
}

fn replace(b: Vec<u8>, from: &[u8], to: &[u8]) -> Vec<u8> {
    if b.len() < from.len() || !b.windows(from.len()).any(|w| w == from) {
        return b;
    }
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i..].starts_with(from) {
            out.extend_from_slice(to);
            i += from.len();
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

pub fn class_name(c: char) -> &'static str {
    match c {
        'o' => "open",
        'r' => "read",
        'w' => "write",
        't' => "stat",
        'd' => "opendir",
        'y' => "readdir",
        'l' => "realpath",
        _ => "?",
    }
}

pub fn errno_name(e: i32) -> String {
    let n = match e {
        libc::EACCES => "EACCES",
        libc::EIO => "EIO",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ELOOP => "ELOOP",
        libc::ENOMEM => "ENOMEM",
        libc::EPERM => "EPERM",
        libc::EROFS => "EROFS",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EFBIG => "EFBIG",
        libc::EPIPE => "EPIPE",
        libc::EINTR => "EINTR",
        libc::ENOENT => "ENOENT",
        libc::ENOTDIR => "ENOTDIR",
        libc::EISDIR => "EISDIR",
        libc::ESTALE => "ESTALE",
        libc::ETXTBSY => "ETXTBSY",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::ENXIO => "ENXIO",
        libc::EINVAL => "EINVAL",
        _ => return e.to_string(),
    };
    n.to_owned()
}

//! C14: the command line tool never reports success for incomplete work.

use crate::cli::*;
use simcore::proc::{errno_name, Call, Ended, Scratch};
use simcore::*;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded use of the command line tool, first without faults and then under several seeded plans of failing system calls placed among the calls it made; non-trivial if a fault was delivered; distinct by the hash of the use and its plans",
        assumptions: &["system calls fail only in ways the kernel documents for them", "failures of close and of writing to a closed descriptor are left out: the standard library does not report them"],
        real: &["the ticc binary as shipped (all of the compiler, the evaluators and main)"],
        stubs: &["libc open, read, write, statx, realpath and getrandom go through the plan (sim/proc/shim.c)"],
        scratch: true,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        quick_secs: 70,
        thorough_secs: 600,
        cpu_limit: 40,
        ..Check::new("C14", body)
    }
}

/// Virtual clocks, slow or fast.
pub fn clock() -> String {
    format!("k:{}:{}", sched(1 << 20), [1, 100, 3_000, 1_000_000][sched(4) as usize])
}

/// Bytes read and written by some calls.
pub fn volume(calls: &[Call]) -> u64 {
    calls.iter().filter(|c| matches!(c.class, 'r' | 'w')).map(|c| c.result.max(0) as u64).sum()
}

/// Small irregularities that are always allowed. Big files take bigger pieces.
pub fn noise(volume: u64) -> Vec<String> {
    let mut plan = Vec::new();
    let size = || [1, 2, 3, 7, 64, 1000, 4096][sched(7) as usize].max(volume / 3000);
    if sched(3) == 1 {
        plan.push(format!("c:r:{}", size()));
    }
    if sched(3) == 1 {
        plan.push(format!("c:w:{}", size()));
    }
    for _ in 0..sched(3) {
        plan.push(format!("n:{}:{}:e{}", ["r", "w", "o"][sched(3) as usize], sched(12), libc::EINTR));
    }
    plan
}

fn result(u: &Use, e: &Ended, files: &BTreeMap<String, Vec<u8>>) -> Vec<u8> {
    match &u.output {
        Some(f) => files.get(f).cloned().unwrap_or_default(),
        None => e.stdout.clone(),
    }
}

const OPEN: [i32; 9] = [libc::EACCES, libc::EIO, libc::EMFILE, libc::ENFILE, libc::ELOOP, libc::ENOMEM, libc::EPERM, libc::ESTALE, libc::ENXIO];
const OPEN_OUT: [i32; 8] = [libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EDQUOT, libc::EIO, libc::EMFILE, libc::EISDIR, libc::ETXTBSY];
const READ: [i32; 5] = [libc::EIO, libc::ENOMEM, libc::ESTALE, libc::EACCES, libc::EINVAL];
const WRITE: [i32; 6] = [libc::ENOSPC, libc::EIO, libc::EFBIG, libc::EDQUOT, libc::EPIPE, libc::ESTALE];
const STAT: [i32; 3] = [libc::EIO, libc::EACCES, libc::ENOMEM];
const REAL: [i32; 4] = [libc::EACCES, libc::EIO, libc::ENAMETOOLONG, libc::ENOMEM];

pub fn errno_for(class: char, out: bool) -> i32 {
    let set: &[i32] = match class {
        'o' if out => &OPEN_OUT,
        'o' => &OPEN,
        'r' => &READ,
        'w' => &WRITE,
        't' => &STAT,
        'l' => &REAL,
        'd' => &OPEN,
        _ => &[libc::EIO],
    };
    set[fault(set.len() as u32) as usize]
}

/// A fault at a call, or at all that follow it on the same file.
fn place(call: &Call, bytes: u64) -> String {
    let e = errno_for(call.class, call.out);
    if fault(3) == 0 {
        format!("n:{}:{}:e{}", call.class, call.index, e)
    } else {
        let after = match call.class {
            'r' | 'w' => match fault(4) {
                0 => 0,
                1 => bytes.saturating_sub(1),
                _ => fault(bytes.clamp(1, 1 << 30) as u32) as u64,
            },
            _ => 0,
        };
        format!("p:{}:{}:{}:{}", call.class, call.path, after, e)
    }
}

fn body() {
    let u = Use::draw(false);
    let mut s = Scratch::new();
    u.lay_out(&s);
    let seed = format!("h:{};{}", sched(1 << 20), clock());
    let clean = s.run(&u.command(vec![seed.clone()]));
    let clean_files = s.snapshot();
    trace(|| format!("without faults: {}", clean.describe()));
    let good = result(&u, &clean, &clean_files);
    observe(clean.status.as_bytes());
    observe(&good);
    if clean.calls.iter().filter(|c| c.path == "<stderr>").count() >= 20_000 {
        discard("the diagnostics are too big");
    }
    ensure!(clean.status.starts_with("exit"), "crash", "without faults: {}\n{}", clean.describe(), u.describe());
    if clean.success() {
        if let Some(e) = &u.expected {
            if !good.starts_with(b"error: ") {
                ensure!(*e == good, "wrong result", "expected:\n{}\ngot:\n{}\n{}", String::from_utf8_lossy(e), String::from_utf8_lossy(&good), u.describe());
                probe("result known by construction");
            }
        }
        if let Some(o) = &u.output {
            ensure!(clean_files.contains_key(o), "no output file", "success, but {} is not there\n{}", o, u.describe());
        }
    } else {
        probe("fails without faults");
    }
    // what the tool needs
    let calls: Vec<&Call> = clean.calls.iter().filter(|c| c.path != "<stderr>" && (c.path != "<stdin>" || u.args.contains(&"-".to_owned()))).collect();
    let total = |c: &Call| clean.calls.iter().filter(|k| k.class == c.class && k.path == c.path && k.result > 0).map(|k| k.result as u64).sum::<u64>();
    for _ in 0..1 + sched(5) {
        u.lay_out(&s);
        let mut plan = noise(volume(&clean.calls));
        plan.push(seed.clone());
        let mut c = u.command(vec![]);
        let kind = fault(12);
        if kind == 11 {
            // some that the clean run needs is not there
            c.memory = Some([12u64, 16, 24, 40, 64, 100, 200][fault(7) as usize] + fault(8) as u64);
            probe("little memory");
        } else {
            for _ in 0..1 + (kind / 5) {
                // each place on a file is as likely as each other
                let k = fault(calls.len() as u32) as usize;
                let call = calls[k];
                let class_first = fault(2) == 1;
                let call = if class_first {
                    let want = ['o', 'r', 'w', 'l', 't'][weighted(Stream::Fault, &[3, 3, 4, 1, 1])];
                    let of: Vec<&&Call> = calls.iter().filter(|c| c.class == want).collect();
                    if of.is_empty() {
                        call
                    } else {
                        of[fault(of.len() as u32) as usize]
                    }
                } else {
                    call
                };
                plan.push(place(call, total(call)));
            }
        }
        c.plan = plan;
        fingerprint_bytes(format!("{:?} {:?}", c.plan, c.memory).as_bytes());
        let e = s.run(&c);
        let files = s.snapshot();
        trace(|| format!("plan {:?} {:?}: {}", c.plan, c.memory, e.describe()));
        observe(e.status.as_bytes());
        let delivered: Vec<&Call> = e.calls.iter().filter(|k| k.errno != 0 && (k.what == "once" || k.what == "always") && k.errno != libc::EINTR).collect();
        if !delivered.is_empty() {
            nontrivial();
        }
        let story = || format!("plan {:?} {:?}\nfaults: {:?}\n{}\nwithout faults: {}\n{}", c.plan, c.memory, delivered, e.describe(), clean.describe(), u.describe());
        ensure!(e.status != "hang", "hang", "{}", story());
        if !e.success() {
            count("failures reported", 1);
            // what it says is about the file that was the reason
            let mut paths: Vec<&String> = delivered.iter().map(|k| &k.path).collect();
            paths.dedup();
            if let ([path], None, true) = (&paths[..], c.memory, clean.success() && e.status.starts_with("exit")) {
                let of = path.strip_prefix("/WORLD/").unwrap_or(path);
                if let Some(name) = [Some(&u.root), u.input.as_ref(), u.output.as_ref()].into_iter().flatten().find(|f| *f == of) {
                    let told = String::from_utf8_lossy(&e.stderr).contains(name.rsplit('/').next().unwrap());
                    ensure!(told, "the file that failed is not named", "{}\n{}", name, story());
                    count("file named in the message", 1);
                }
            }
            continue;
        }
        ensure!(clean.success(), "success although it fails without faults", "{}", story());
        let got = result(&u, &e, &files);
        if got != good {
            let how = if good.starts_with(&got) { "truncated" } else { "different" };
            violation(&format!("success with a {} result", how), &story());
        }
        // a fault that stays makes it impossible to have everything
        for k in &delivered {
            let needed = match k.class {
                'o' | 'r' => true,
                'w' => k.path == "<stdout>" && u.output.is_none() || u.output.as_ref().is_some_and(|o| k.path.ends_with(o.as_str())),
                _ => false,
            };
            if needed && k.what == "always" {
                violation(
                    &format!("success although a file cannot be used: {} {}", proc::class_name(k.class), errno_name(k.errno)),
                    &story(),
                );
            }
        }
        count("successes in spite of faults", 1);
    }
}

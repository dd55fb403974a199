//! C22: a failed or interrupted run of the command line tool leaves files as they were.

use crate::c14::{clock, errno_for, noise, volume};
use crate::cli::*;
use simcore::proc::{Call, Scratch};
use simcore::*;
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded use of the command line tool (well-formed, trapping and damaged programs, all modes) in a directory with other files, first without faults and then several times with a crash or failing system calls placed among the calls it made; non-trivial if a crash or fault was delivered; distinct by the hash of the use and its plans",
        assumptions: &["a crash is the end of the process; what it wrote before stays"],
        real: &["the ticc binary as shipped (all of the compiler, the evaluators and main)"],
        stubs: &["libc open, read, write, statx, realpath and getrandom go through the plan (sim/proc/shim.c)"],
        scratch: true,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        quick_secs: 60,
        thorough_secs: 600,
        cpu_limit: 40,
        ..Check::new("C22", body)
    }
}

type Files = BTreeMap<String, Vec<u8>>;

/// Which files are not as they were, other than the output.
fn touched(before: &Files, after: &Files, output: Option<&String>, crashed: bool) -> Option<String> {
    for (name, was) in before {
        if Some(name) != output {
            match after.get(name) {
                None => return Some(format!("{} is gone", name)),
                Some(is) if is != was => return Some(format!("{} has changed: {:?}", name, String::from_utf8_lossy(&is[..is.len().min(200)]))),
                _ => {}
            }
        }
    }
    for name in after.keys() {
        // (something in preparation may remain of a process that was killed)
        if Some(name) != output && !before.contains_key(name) && !crashed {
            return Some(format!("{} was not there before", name));
        }
    }
    None
}

fn bystanders(u: &mut Use) {
    let stem = u.root.strip_suffix(".tic").unwrap_or(&u.root).to_owned();
    let mut names = vec![
        format!("{}.cir", stem),
        format!("{}.out", stem),
        "result.out.tmp".to_owned(),
        "result.out~".to_owned(),
        "a.tic".to_owned(),
        ".result.out".to_owned(),
        "lib/kept.txt".to_owned(),
    ];
    names.retain(|_| gchance(1, 3));
    for n in names {
        if !u.files.iter().any(|f| f.0 == n) {
            u.files.push((n, b"kept as it is\n".repeat(gen_range(1, 40) as usize)));
        }
    }
    if let Some(o) = &u.output {
        if gchance(1, 12) && u.args.contains(&"--output".to_owned()) {
            probe("output in a directory that is not there");
            let to = format!("missing/{}", o);
            for a in &mut u.args {
                if a == o {
                    *a = to.clone();
                }
            }
            u.output = Some(to);
        }
    }
}

fn body() {
    let mut u = Use::draw(true);
    bystanders(&mut u);
    trace(|| format!("files: {:?}", u.files.iter().map(|f| (&f.0, f.1.len())).collect::<Vec<_>>()));
    fingerprint_bytes(format!("{:?}", u.files.iter().map(|f| &f.0).collect::<Vec<_>>()).as_bytes());
    let mut s = Scratch::new();
    u.lay_out(&s);
    let before = s.snapshot();
    let seed = format!("h:{};{}", sched(1 << 20), clock());
    let clean = s.run(&u.command(vec![seed.clone()]));
    let after = s.snapshot();
    trace(|| format!("without faults: {}", clean.describe()));
    observe(clean.status.as_bytes());
    if clean.calls.iter().filter(|c| c.path == "<stderr>").count() >= 20_000 {
        discard("the diagnostics are too big");
    }
    let output = u.output.as_ref();
    if let Some(t) = touched(&before, &after, output, false) {
        violation("a file was touched", &format!("{}\nwithout faults: {}\n{}", t, clean.describe(), u.describe()));
    }
    let old = output.and_then(|o| before.get(o)).cloned();
    let good = if clean.success() { output.and_then(|o| after.get(o)).cloned() } else { None };
    if let Some(o) = output {
        if clean.success() {
            ensure!(good.is_some(), "no output file", "success, but {} is not there\n{}", o, u.describe());
        } else {
            probe("fails without faults");
            ensure!(
                after.get(o) == old.as_ref(),
                "the output of a failed run",
                "{} is not as it was, though the tool failed: {}\n{}",
                o, clean.describe(), u.describe()
            );
        }
    }
    let calls: Vec<&Call> = clean.calls.iter().filter(|c| c.path != "<stderr>" || sched(20) == 0).collect();
    if calls.is_empty() {
        return;
    }
    let is_output = |c: &Call| output.is_some_and(|o| c.path.ends_with(o.as_str()) && (c.class != 'o' || c.out || c.what == "crash"));
    for _ in 0..1 + sched(5) {
        u.lay_out(&s);
        let mut plan = noise(volume(&clean.calls));
        plan.push(seed.clone());
        let crash = fault(3) != 0;
        // the output is where it matters most
        let of_output: Vec<&&Call> = calls.iter().filter(|c| is_output(c)).collect();
        let call = if !of_output.is_empty() && fault(3) == 0 { of_output[fault(of_output.len() as u32) as usize] } else { calls[fault(calls.len() as u32) as usize] };
        if crash {
            let n = match call.class {
                'w' => fault((call.result.clamp(0, 1 << 30) + 1) as u32),
                'o' => fault(2),
                _ => 0,
            };
            // (by path, since noise changes the numbers of calls)
            let nth = clean.calls.iter().filter(|k| k.class == call.class && k.path == call.path && k.index < call.index).count();
            let name = call.path.strip_prefix("/WORLD/").unwrap_or(&call.path);
            plan.push(format!("q:{}:{}:{}:x{}", call.class, name, nth, n));
        } else {
            plan.push(format!("n:{}:{}:e{}", call.class, call.index, errno_for(call.class, call.out)));
        }
        let c = u.command(plan);
        fingerprint_bytes(format!("{:?}", c.plan).as_bytes());
        let e = s.run(&c);
        let files = s.snapshot();
        trace(|| format!("plan {:?}: {}", c.plan, e.describe()));
        observe(e.status.as_bytes());
        observe(format!("{:?}", files).as_bytes());
        let delivered: Vec<&Call> = e.calls.iter().filter(|k| k.what == "crash" || k.what == "once" && k.errno != libc::EINTR).collect();
        let crashed = e.calls.iter().find(|k| k.what == "crash");
        if !delivered.is_empty() {
            nontrivial();
        }
        let story = || format!("plan {:?}\nfaults: {:?}\n{}\nwithout faults: {}\n{}", c.plan, delivered, e.describe(), clean.describe(), u.describe());
        ensure!(e.status != "hang", "hang", "{}", story());
        ensure!(crashed.is_some() || e.status.starts_with("exit"), "crash", "{}", story());
        if let Some(t) = touched(&before, &files, output, crashed.is_some()) {
            violation("a file was touched", &format!("{}\n{}", t, story()));
        }
        let Some(o) = output else { continue };
        let is = files.get(o);
        if is == old.as_ref() {
            count(if e.success() { "same as before" } else { "output as it was" }, 1);
            continue;
        }
        let show = || format!("{} is {:?}\n", o, is.map(|b| String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()));
        let (Some(is), Some(good)) = (is, &good) else { violation("the output of a failed run", &(show() + &story())) };
        if is == good {
            // something after the result was written may have failed
            count("whole output", 1);
            let late = delivered.is_empty() || delivered.iter().all(|k| is_output(k) || k.path == "<stderr>" || k.path == "<stdout>") || e.success();
            ensure!(late, "the output of a failed run", "{}{}", show(), story());
            continue;
        }
        ensure!(good.starts_with(is), "not a beginning of the output", "{}{}", show(), story());
        ensure!(!e.success(), "success with a truncated result", "{}{}", show(), story());
        let writing = delivered.iter().any(|k| is_output(k));
        ensure!(writing, "the output of a failed run", "{}{}", show(), story());
        count(if is.is_empty() { "empty output" } else { "a beginning of the output" }, 1);
    }
}

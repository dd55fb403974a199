//! C15: benign irregularities of I/O are invisible.

use crate::cli::*;
use simcore::proc::Scratch;
use simcore::*;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded use of the command line tool (well-formed and damaged programs, all modes), first undisturbed and then under several seeded plans of short, interrupted and slow calls and wrong size hints; non-trivial if a call was cut short or interrupted; distinct by the hash of the use and its plans",
        assumptions: &["only read, write and open may be interrupted"],
        real: &["the ticc binary as shipped (all of the compiler, the evaluators and main)"],
        stubs: &["libc open, read, write, statx, realpath and getrandom go through the plan (sim/proc/shim.c)"],
        scratch: true,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        quick_secs: 70,
        thorough_secs: 600,
        cpu_limit: 40,
        ..Check::new("C15", body)
    }
}

fn size(least: u32) -> u32 {
    let n: u32 = [1, 2, 3, 4, 5, 7, 8, 16, 31, 32, 33, 64, 100, 512, 1000, 1024, 4095, 4096, 8191, 8192, 8193, 65536][fault(22) as usize];
    n.max(least)
}

pub fn plan(calls: &[simcore::proc::Call]) -> Vec<String> {
    let mut plan = Vec::new();
    let most = |class: char| calls.iter().filter(|c| c.class == class).count() as u32;
    let least = (crate::c14::volume(calls) / 3000) as u32;
    match fault(4) {
        0 => plan.push(format!("c:r:{}", size(least))),
        1 => plan.push(format!("c:w:{}", size(least))),
        2 => {
            plan.push(format!("c:r:{}", size(least)));
            plan.push(format!("c:w:{}", size(least)));
        }
        _ => {}
    }
    for _ in 0..fault(8) {
        let class = ['r', 'w', 'o', 'r', 'w'][fault(5) as usize];
        let at = fault(most(class) * 3 / 2 + 6);
        match fault(4) {
            0 if class != 'o' => plan.push(format!("n:{}:{}:s{}", class, at, size(1))),
            1 => plan.push(format!("n:{}:{}:d{}", class, at, 1 + fault(4))),
            _ => {
                // sometimes several times in a row
                for k in 0..1 + fault(3) {
                    plan.push(format!("n:{}:{}:e{}", class, at + k, libc::EINTR));
                }
            }
        }
    }
    if fault(4) == 1 {
        plan.push(format!("n:t:{}:{}", fault(most('t') + 2), ["z", "Z"][fault(2) as usize]));
    }
    plan
}

fn body() {
    let u = Use::draw(true);
    let mut s = Scratch::new();
    u.lay_out(&s);
    let seed = format!("h:{}", sched(1 << 20));
    let undisturbed = vec![seed.clone(), crate::c14::clock()];
    let clean = s.run(&u.command(undisturbed));
    let clean_files = s.snapshot();
    trace(|| format!("undisturbed: {}", clean.describe()));
    observe(clean.status.as_bytes());
    observe(&clean.stdout);
    if clean.calls.iter().filter(|c| c.path == "<stderr>").count() >= 20_000 {
        discard("the diagnostics are too big");
    }
    ensure!(clean.status.starts_with("exit"), "crash", "undisturbed: {}\n{}", clean.describe(), u.describe());
    count(&format!("undisturbed: {}", clean.status), 1);
    for _ in 0..1 + sched(4) {
        u.lay_out(&s);
        let mut plan = plan(&clean.calls);
        plan.push(seed.clone());
        plan.push(crate::c14::clock());
        fingerprint_bytes(format!("{:?}", plan).as_bytes());
        let e = s.run(&u.command(plan.clone()));
        let files = s.snapshot();
        trace(|| format!("plan {:?}: {}", plan, e.describe()));
        if e.calls.iter().any(|c| matches!(c.what.as_str(), "chunk" | "short" | "once" | "size")) {
            nontrivial();
        }
        let differs = if e.status != clean.status {
            "exit status"
        } else if e.stdout != clean.stdout {
            "standard output"
        } else if without_time(&e.stderr) != without_time(&clean.stderr) {
            "standard error"
        } else if files != clean_files {
            "files"
        } else {
            continue;
        };
        violation(&format!("{} differs", differs), &format!("plan {:?}\n{}\nundisturbed: {}\n{}", plan, e.describe(), clean.describe(), u.describe()));
    }
}

//! C01: results do not depend on when garbage is collected, and are those of the
//! reference semantics in every engine.

use crate::common::*;
use simcore::eval::{Eval, Stop};
use simcore::gen::Config;
use simcore::lang::{module_path, Program};
use simcore::*;
use ticc::Runner;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded program and inputs, evaluated by a reference interpreter and by every engine, the bytecode engine under several seeded plans of collections; non-trivial if a collection moved a live object; distinct by the hash of the program and of its plans",
        assumptions: &["the reference interpreter (sim/core/src/eval.rs) is right about the language's semantics"],
        real: &["ticc compiler and code generator", "ticc-eval bytecode, heap, lambda and treewalk engines"],
        stubs: &["module lookup (in memory)", "the jit engine is not available on Linux"],
        init: warm_up,
        quick_runs: 40_000,
        thorough_runs: 3_000_000,
        quick_secs: 100,
        thorough_secs: 700,
        ..Check::new("C01", body)
    }
}

pub enum Expected {
    Value(String, Vec<(Vec<u8>, Result<Vec<u8>, String>)>),
    Trap,
}

pub const FUEL: u64 = 60_000;

/// What the reference says about the program and some inputs of main.
pub fn reference(p: &Program, inputs: &[Vec<u8>]) -> Expected {
    let mut ev = Eval::new(p, FUEL);
    match ev.run() {
        Ok(()) => {}
        Err(Stop::Fuel) => discard("the program takes too many steps"),
        Err(Stop::Trap(h)) => {
            probe("reference traps");
            trace(|| format!("reference: trap ?{}", h));
            return Expected::Trap;
        }
    }
    let out = ev.output();
    if out.len() > 1 << 18 {
        discard("the output is too big");
    }
    trace(|| format!("reference: {}", out));
    let mut mains = Vec::new();
    for i in inputs {
        ev.steps = 0;
        match ev.main(i) {
            Ok(o) => mains.push((i.clone(), Ok(o))),
            Err(Stop::Fuel) => discard("the program takes too many steps"),
            Err(Stop::Trap(h)) => {
                probe("reference main traps");
                mains.push((i.clone(), Err(h)))
            }
        }
    }
    observe(out.as_bytes());
    Expected::Value(out, mains)
}

/// Whether a trap message names one of the program's holes.
pub fn names_hole(p: &Program, msg: &str) -> bool {
    p.holes.iter().any(|h| msg == format!("encountered ?{}", h)) || msg == "encountered ?unreachable"
}

pub fn compare(what: &str, p: &Program, optimized: bool, expected: &Expected, got: Result<String, String>) {
    match (expected, got) {
        (Expected::Value(e, _), Ok(g)) => {
            ensure!(*e == g, &format!("wrong result: {}", what), "{} gives\n{}\nexpected\n{}\nprogram:\n{}", what, g, e, p.render());
        }
        (Expected::Value(e, _), Err(m)) => {
            violation(&format!("unexpected trap: {}", what), &format!("{} traps with `{}`, expected\n{}\nprogram:\n{}", what, m, e, p.render()));
        }
        (Expected::Trap, Err(m)) => {
            ensure!(names_hole(p, &m), &format!("wrong trap: {}", what), "{} traps with `{}`, which is no hole of\n{}", what, m, p.render());
        }
        (Expected::Trap, Ok(g)) => {
            // optimisations may remove computations that are not needed
            ensure!(optimized, &format!("missing trap: {}", what), "{} should trap, but gives\n{}\nprogram:\n{}", what, g, p.render());
        }
    }
}

pub fn compare_main(what: &str, p: &Program, optimized: bool, input: &[u8], expected: &Result<Vec<u8>, String>, got: Result<Vec<u8>, String>) {
    let what = format!("{} main", what);
    match (expected, got) {
        (Ok(e), Ok(g)) => {
            ensure!(*e == g, &format!("wrong result: {}", what), "{} gives {:?} for {:?}, expected {:?}\nprogram:\n{}", what, g, input, e, p.render());
        }
        (Ok(e), Err(m)) => {
            violation(&format!("unexpected trap: {}", what), &format!("{} traps with `{}` for {:?}, expected {:?}\nprogram:\n{}", what, m, input, e, p.render()));
        }
        (Err(_), Err(m)) => {
            ensure!(names_hole(p, &m), &format!("wrong trap: {}", what), "{} traps with `{}`, which is no hole of\n{}", what, m, p.render());
        }
        (Err(_), Ok(g)) => {
            ensure!(optimized, &format!("missing trap: {}", what), "{} should trap for {:?}, but gives {:?}\nprogram:\n{}", what, input, g, p.render());
        }
    }
}

/// A big program on every engine.
fn big() {
    probe("big program");
    let b = crate::big::program();
    trace(|| b.src.clone());
    fingerprint_bytes(b.src.as_bytes());
    let options = ticc::Options { verify: sched(8) == 7, optimize: sched(3) == 0 };
    let r = Resolver::new(std::collections::HashMap::from([("m".to_owned(), b.src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, b.src));
    }
    for _ in 0..1 + sched(3) {
        let plan = GcPlan::draw(b.allocs);
        trace(|| plan.describe());
        fingerprint_bytes(plan.describe().as_bytes());
        let (got, _) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, &b.input));
        crate::c03::check_main("bytecode", b.output.as_bytes(), got, &b.src);
    }
    for runner in [Runner::Treewalk, Runner::Lambda] {
        let got = interpret_main(&mut unit, runner, &b.input);
        crate::c03::check_main(&engine_name(runner), b.output.as_bytes(), got, &b.src);
    }
}

fn body() {
    set_hash_seed(sched(1 << 20) as u64);
    if gchance(1, 30) {
        return big();
    }
    let cfg = Config::draw();
    let has_main = cfg.main;
    let p = valid_program(cfg);
    let inputs: Vec<Vec<u8>> = if has_main { (0..gen_range(1, 3)).map(|_| main_input()).collect() } else { vec![] };
    let expected = reference(&p, &inputs);
    fingerprint_bytes(p.render().as_bytes());

    let optimize = sched(3) == 0;
    let verify = sched(8) == 7;
    let r = Resolver::for_program(&p, ticc::Options { verify, optimize });
    let mut unit = r.unit(&module_path(p.root()));
    // measures how many allocations there are
    let mut allocs = 0;
    let plans = 1 + sched(4);
    for _ in 0..plans {
        let plan = GcPlan::draw(allocs);
        trace(|| plan.describe());
        fingerprint_bytes(plan.describe().as_bytes());
        let (out, log) = with_plan(plan, || interpret(&mut unit, Runner::Bytecode));
        allocs = allocs.max(log.allocs);
        compare("bytecode", &p, optimize, &expected, out);
        if let Expected::Value(_, mains) = &expected {
            for (i, e) in mains {
                let plan = GcPlan::draw(allocs);
                trace(|| format!("main, {}", plan.describe()));
                fingerprint_bytes(plan.describe().as_bytes());
                let (out, _) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, i));
                compare_main("bytecode", &p, optimize, i, e, out);
            }
        }
    }
    for runner in [Runner::Treewalk, Runner::Lambda] {
        let name = engine_name(runner);
        compare(&name, &p, optimize, &expected, interpret(&mut unit, runner));
        if let Expected::Value(_, mains) = &expected {
            for (i, e) in mains {
                compare_main(&name, &p, optimize, i, e, interpret_main(&mut unit, runner, i));
            }
        }
    }
}

//! C07: the optimiser's passes keep the meaning of programs in every order.

use crate::c01::{compare, compare_main, reference, Expected};
use crate::common::*;
use simcore::gen::Config;
use simcore::lang::module_path;
use simcore::*;
use std::cell::RefCell;
use std::rc::Rc;
use ticc::Runner;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded program and inputs, compiled several times with the optimiser's passes in seeded orders and multiplicities (verified after every pass), results compared with a reference interpreter; non-trivial if the passes changed the program; distinct by the hash of the program and the pass orders",
        assumptions: &[
            "the reference interpreter (sim/core/src/eval.rs) is right about the language's semantics",
            "the repository's own verifier between passes says what a valid program is",
        ],
        real: &["ticc compiler, code generator, all optimisation passes", "ticc-core verifier", "ticc-eval engines"],
        stubs: &["module lookup (in memory)", "the order of passes (drawn)"],
        init: warm_up,
        quick_runs: 40_000,
        thorough_runs: 3_000_000,
        quick_secs: 90,
        thorough_secs: 700,
        ..Check::new("C07", body)
    }
}

#[derive(Clone, Copy, Debug)]
enum Mode {
    Default,
    Shuffled,
    Repeated,
    Single,
    Pair,
}

/// Hands out pass orders, remembering them.
fn plan_passes() -> (Mode, Rc<RefCell<Vec<Vec<usize>>>>) {
    let mode = [Mode::Shuffled, Mode::Default, Mode::Repeated, Mode::Single, Mode::Pair][weighted(Stream::Sched, &[4, 3, 4, 2, 2])];
    let log = Rc::new(RefCell::new(Vec::new()));
    let l = log.clone();
    let shared = std::sync::Mutex::new(());
    let mut first: Vec<usize> = Vec::new();
    let f = move |n: usize| -> Vec<usize> {
        let _g = shared.lock();
        let order: Vec<usize> = match mode {
            Mode::Default => (0..n).collect(),
            Mode::Shuffled => {
                let mut v: Vec<usize> = (0..n).collect();
                for i in 0..n {
                    let j = i + sched((n - i) as u32) as usize;
                    v.swap(i, j);
                }
                v
            }
            Mode::Repeated => (0..1 + sched(16)).map(|_| sched(n as u32) as usize).collect(),
            Mode::Single => {
                if first.is_empty() {
                    first = vec![sched(n as u32) as usize];
                }
                first.clone()
            }
            Mode::Pair => {
                if first.is_empty() {
                    first = vec![sched(n as u32) as usize, sched(n as u32) as usize];
                }
                first.clone()
            }
        };
        l.borrow_mut().push(order.clone());
        order
    };
    ticc::sim::set_pass_order(Some(Box::new(f)));
    (mode, log)
}

fn body() {
    let cfg = Config::draw();
    let has_main = cfg.main;
    let p = valid_program(cfg);
    let inputs: Vec<Vec<u8>> = if has_main { (0..gen_range(1, 3)).map(|_| main_input()).collect() } else { vec![] };
    let expected = reference(&p, &inputs);
    fingerprint_bytes(p.render().as_bytes());

    let plain = {
        let r = Resolver::for_program(&p, options(false));
        r.unit(&module_path(p.root())).emit_ir()
    };
    let r = Resolver::for_program(&p, ticc::Options { verify: true, optimize: true });
    let mut unit = r.unit(&module_path(p.root()));
    for _ in 0..1 + sched(4) {
        let runner = [Runner::Bytecode, Runner::Lambda, Runner::Treewalk][weighted(Stream::Sched, &[3, 2, 1])];
        let (mode, log) = plan_passes();
        count(&format!("pass plan {:?}", mode), 1);
        let out = interpret(&mut unit, runner);
        let what = format!("optimised, {}", engine_name(runner));
        let used = log.borrow().clone();
        trace(|| format!("{:?}: passes {:?}", mode, used));
        ensure_passes(&used);
        count("pass runs", used.iter().map(|v| v.len() as u64).sum());
        steps(used.iter().map(|v| v.len() as u64).sum());
        fingerprint_bytes(format!("{:?}", used).as_bytes());
        compare(&what, &p, true, &expected, out);
        if let Expected::Value(_, mains) = &expected {
            for (i, e) in mains {
                compare_main(&what, &p, true, i, e, interpret_main(&mut unit, runner, i));
            }
        }
        if sched(2) == 0 && unit.emit_ir() != plain {
            probe("the passes changed the program");
            nontrivial();
        }
        ticc::sim::set_pass_order(None);
    }
}

fn ensure_passes(used: &[Vec<usize>]) {
    if used.is_empty() {
        harness_error("the optimiser did not ask for an order of passes");
    }
}

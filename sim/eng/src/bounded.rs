//! Programs whose live data stays bounded must run in a bounded heap.

use crate::common::*;
use simcore::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use ticc::{Options, Runner};

/// Type, initial value, step function, and something that turns the state into an int.
struct Machine {
    decl: String,
    ty: String,
    init: String,
    step: String,
    measure: String,
}

fn machine(n: usize, nest: bool) -> Machine {
    let k = *pick(&[1u32, 2, 5, 17, 60, 200]);
    let m = |decl: String, ty: &str, init: String, step: String, measure: String| Machine {
        decl,
        ty: ty.to_owned(),
        init,
        step,
        measure,
    };
    let kind = gweighted(&[2, 3, 3, 2, 3, 3, 2, 2, if nest { 4 } else { 0 }]);
    probe(
        ["int state", "string state", "list state", "array state", "closure state", "record state", "partial application state",
            "option of string state", "pair of states"][kind],
    );
    match kind {
        0 => m(
            String::new(),
            "int",
            "7".into(),
            format!("\\x -> x + str.length (num.toString (x * {}))", k),
            "\\x -> x".into(),
        ),
        1 => m(
            String::new(),
            "string",
            "\"abc\"".into(),
            format!("\\x -> str.substring 0 {} (str.concat \"{}\" x)", k * 8, "xyzw".repeat(1 + gen(20) as usize)),
            "str.length".into(),
        ),
        2 => m(
            String::new(),
            "(list.List int)",
            format!("list.range 0 {}", k),
            "\\l -> list.map (\\x -> x + 1) (list.reverse l)".into(),
            "list.sum".into(),
        ),
        3 => m(
            String::new(),
            "(arr.Array int)",
            format!("arr.new {} 5", k),
            format!("\\a -> arr.set {} 7 (arr.mapIdx {} (\\x -> x * 3) a)", gen(k), gen(k)),
            "\\a -> list.sum (arr.toList a)".into(),
        ),
        4 => m(
            String::new(),
            "(int -> int)",
            "\\x -> x".into(),
            "\\f -> let k = f 1; let j = f 2; \\x -> x * 3 + k - j".into(),
            "\\f -> f 10".into(),
        ),
        5 => {
            let w = 1 + gen(80) as usize;
            let vars: String = (0..w).map(|i| format!(" x{}", i)).collect();
            let rot: String = (0..w).map(|i| if i == 0 { format!(" (x{} + 1)", w - 1) } else { format!(" x{}", i - 1) }).collect();
            let sum: String = (0..w).map(|i| format!(" + x{}", i)).collect();
            m(
                format!("type W{0} = W{0}{1};\n", n, " int".repeat(w)),
                &format!("W{}", n),
                format!("W{}{}", n, (0..w).map(|i| format!(" {}", i)).collect::<String>()),
                format!("\\w -> match w with | W{0}{1} -> W{0}{2} end", n, vars, rot),
                format!("\\w -> match w with | W{}{} -> 0{} end", n, vars, sum),
            )
        }
        6 => m(
            format!("let add{} : int -> int -> int -> int = \\a -> \\b -> \\c -> a + b * {} + c;\n", n, k),
            "(int -> int)",
            format!("add{} 1 2", n),
            format!("\\f -> add{} (f 1) (f 2)", n),
            "\\f -> f 10".into(),
        ),
        7 => m(
            String::new(),
            "(opt.Option string)",
            "opt.None".into(),
            format!(
                "\\o -> match o with | opt.None -> opt.Some \"{}\" | opt.Some s -> if str.length s > {} then opt.None else opt.Some (str.concat s s) end",
                "ab".repeat(1 + gen(9) as usize),
                k * 16
            ),
            "\\o -> str.length (opt.unwrapOr \"\" o)".into(),
        ),
        _ => {
            let a = machine(n * 2 + 1, false);
            let b = machine(n * 2 + 2, false);
            Machine {
                decl: format!("{}{}type P{2} = P{2} {3} {4};\n", a.decl, b.decl, n, a.ty, b.ty),
                ty: format!("P{}", n),
                init: format!("P{} ({}) ({})", n, a.init, b.init),
                step: format!("\\p -> match p with | P{0} a b -> P{0} (({1}) a) (({2}) b) end", n, a.step, b.step),
                measure: format!("\\p -> match p with | P{} a b -> ({}) a + ({}) b end", n, a.measure, b.measure),
            }
        }
    }
}

pub fn body() {
    let m = machine(0, true);
    let src = format!(
        "import str from \"std/string\";\nimport num from \"std/int\";\nimport list from \"std/list\";\nimport arr from \"std/array\";\nimport opt from \"std/option\";\n\
        {}let step : {} -> {} =\n  {};\n\
        export let main : string -> string = \\s -> num.toString (({}) (num.iterate (str.length s * 50) step ({})));\n",
        m.decl, m.ty, m.ty, m.step, m.measure, m.init
    );
    fingerprint_bytes(src.as_bytes());
    let options = Options { verify: false, optimize: sched(2) == 0 };
    let r = Resolver::new(HashMap::from([("m".to_owned(), src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, src));
    }
    trace(|| src.clone());
    let plan = |mode: GcMode, initial: Option<usize>| GcPlan {
        mode,
        initial,
        poison: true,
        once_at: 0,
        limit: 100_000,
        log: Rc::new(RefCell::new(GcLog::default())),
    };
    // how much is alive at most
    let before = memory::held();
    memory::restart_peak();
    let (short, exact) = with_plan(plan(GcMode::Always, Some(64)), || interpret_main(&mut unit, Runner::Bytecode, b"xx"));
    let short = match short {
        Ok(s) => s,
        Err(e) => violation("unexpected trap: bytecode", &format!("{}\n{}", e, src)),
    };
    let compiling = memory::peak() - before.0;
    let live = exact.max_live;
    trace(|| format!("at most {} bytes live, biggest allocation {}", live, exact.max_alloc));
    // and the heap then stays bounded for any number of steps
    for _ in 0..1 + sched(3) {
        let initial = [Some(256usize), None, Some(0), Some(64), Some(1000), Some(4096)][sched(6) as usize];
        let mode = if sched(4) == 0 { GcMode::Some } else { GcMode::Sized };
        let len = 2 + match sched(6) {
            0 if mode == GcMode::Sized => 300 + sched(900),
            _ => sched(100),
        } as usize;
        let before = memory::held();
        memory::restart_peak();
        let (out, log) = with_plan(plan(mode, initial), || interpret_main(&mut unit, Runner::Bytecode, &vec![b'x'; len]));
        let (peak, after) = (memory::peak() - before.0, memory::held());
        match out {
            Err(e) => violation("unexpected trap: bytecode", &format!("{}\n{}", e, src)),
            Ok(o) => {
                ensure!(len > 2 || o == short, "result depends on collections", "{:?} and {:?}\n{}", short, o, src);
                observe(&o);
            }
        }
        let need = live + len + exact.max_alloc.max(log.max_alloc);
        trace(|| format!("{} steps, initial size {:?}: at most {} live, {} used", len * 50, initial, log.max_live, log.max_capacity));
        let slack = 2 * need + 256;
        ensure!(
            log.max_live <= slack,
            "dead data is kept",
            "after {} steps {} bytes survive a collection, but at most {} are alive\n{}",
            len * 50, log.max_live, live, src
        );
        // forced collections may ask for 1024 bytes of free space
        let bound = initial.unwrap_or(256).max(256) + 16 * (need + 1024) + 4096;
        ensure!(
            log.max_capacity <= bound,
            "heap grew without need",
            "after {} steps the heap has {} bytes, with at most {} alive and a biggest allocation of {}\n{}",
            len * 50, log.max_capacity, live, exact.max_alloc, src
        );
        // nor does anything else grow with the number of steps (the log of the simulation does a little)
        trace(|| format!("at most {} bytes in all, {} with few steps; {} remain", peak, compiling, after.0 - before.0));
        ensure!(
            peak <= compiling + 4 * bound as i64 + (256 << 10) && after.0 - before.0 <= 64 << 10,
            "memory grows with the number of steps",
            "{} steps take {} bytes, {} of them remain; few take {}, the heap has {}\n{}",
            len * 50, peak, after.0 - before.0, compiling, log.max_capacity, src
        );
        count("steps of bounded programs", len as u64 * 50);
    }
}

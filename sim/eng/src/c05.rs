//! C05: compilation is reproducible across hash seeds and process history.
//!
//! Two forks of the run compile the same modules, each with its own hash seed and
//! its own earlier activity, and describe everything observable.

use crate::c04::{ask, Query};
use crate::common::*;
use simcore::eval::Eval;
use simcore::gen::Config;
use simcore::lang::module_path;
use simcore::*;
use std::collections::HashMap;
use std::fmt::Write;
use ticc::{CompilationUnit, NoopModuleResolver, Options, Runner, Severity};

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded set of modules (programs, damaged programs, unrelated pieces) compiled in two processes with different hash seeds and different earlier activity, all observable results compared; non-trivial if hash seeds were asked for in both; distinct by the hash of texts and histories",
        assumptions: &["address space layout is the same in both processes, nothing in the compiler looks at addresses"],
        real: &["ticc compiler, api, code generator, built-in library loading", "ticc-eval engines"],
        stubs: &["module lookup (in memory)", "getrandom (seeded)"],
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        quick_secs: 60,
        thorough_secs: 700,
        ..Check::new("C05", body)
    }
}

#[derive(Clone, Debug)]
enum Earlier {
    /// Compile (and perhaps evaluate) an unrelated text.
    Other(String, bool),
    /// Complete a library module.
    Library(&'static str),
    /// Compile one of the modules with a resolver of its own.
    Module(String),
    /// Ask about some position first.
    Query(Query),
}

struct Work {
    sources: HashMap<String, String>,
    root: String,
    options: Options,
    positions: Vec<u32>,
    ends: bool,
    /// Modules in the order in which they are looked at.
    order: Vec<String>,
}

impl Work {
    fn observe(&self, seed: u64, earlier: &[Earlier], order: &[String]) -> String {
        set_hash_seed(seed);
        let r = Resolver::new(self.sources.clone(), self.options);
        let mut unit = r.unit(&self.root);
        for e in earlier {
            match e {
                Earlier::Other(src, eval) => {
                    let mut u = CompilationUnit::new(src, self.options, NoopModuleResolver::new());
                    let bad = u.diagnostics().any(|d| d.severity == Severity::Error);
                    if *eval && !bad {
                        let _ = u.emit_ir();
                    }
                    let _ = u.complete();
                }
                Earlier::Library(m) => {
                    let mut u = CompilationUnit::new(&format!("import x from \"{}\";", m), self.options, NoopModuleResolver::new());
                    let _ = u.diagnostics().count();
                }
                Earlier::Module(m) => {
                    let r = Resolver::new(self.sources.clone(), self.options);
                    let _ = r.unit(m).complete();
                }
                Earlier::Query(q) => {
                    let _ = ask(&mut unit, *q);
                }
            }
        }
        let mut out = String::new();
        let mut clean = true;
        // modules can be compiled in any order, what they say is the same
        let mut texts: Vec<(String, String)> = Vec::new();
        for m in order {
            let mut u = r.unit(m);
            let mut s = String::new();
            for q in [Query::Diagnostics, Query::Tokens] {
                writeln!(s, "{} {:?}\n{}", m, q, ask(&mut u, q)).unwrap();
            }
            clean &= !u.diagnostics().any(|d| d.severity == Severity::Error);
            texts.push((m.clone(), s));
        }
        texts.sort();
        for (_, s) in texts {
            out.push_str(&s);
        }
        let mut queries = vec![Query::Diagnostics, Query::Tokens];
        for &p in &self.positions {
            queries.extend([Query::Completions(p), Query::Definition(p), Query::References(p), Query::Info(p)]);
        }
        if clean {
            queries.push(Query::Ir);
            if self.ends {
                queries.extend([Query::Run(Runner::Bytecode), Query::Run(Runner::Lambda), Query::Main]);
            }
        }
        for q in queries {
            writeln!(out, "{:?}\n{}", q, ask(&mut unit, q)).unwrap();
        }
        if clean {
            writeln!(out, "again\n{}", unit.emit_ir()).unwrap();
        }
        writeln!(out, "hash seeds {}", if hash_seed_requests() > 0 { "asked for" } else { "not asked for" }).unwrap();
        out
    }
}

fn body() {
    let kind = gweighted(&[5, 3, 2]);
    let mut ends = false;
    let (sources, root) = match kind {
        0 | 1 => {
            let p = simcore::gen::program(Config { budget: *pick(&[30, 60, 120]), ..Config::draw() });
            let mut sources: HashMap<String, String> = (0..p.modules.len()).map(|m| (module_path(m), p.source(m))).collect();
            if kind == 1 {
                for m in 0..p.modules.len() {
                    if gchance(1, 2) {
                        let m = module_path(m);
                        let n = gen_range(1, 4);
                        let s = simcore::text::damage(&sources[&m], n);
                        sources.insert(m, s);
                    }
                }
            } else {
                ends = Eval::new(&p, 10_000).run().is_ok();
            }
            (sources, module_path(p.root()))
        }
        _ => (
            HashMap::from([
                ("m".to_owned(), "export let x : int = 1; export type T a = export A a | B rec;".to_owned()),
                ("root".to_owned(), simcore::text::soup()),
            ]),
            "root".to_owned(),
        ),
    };
    if sources.values().map(|s| s.len()).sum::<usize>() > 20_000 {
        discard("the program is too big");
    }
    let mut order: Vec<String> = sources.keys().cloned().collect();
    order.sort();
    for m in &order {
        trace(|| format!("-- {}\n{}", m, sources[m]));
        fingerprint_bytes(sources[m].as_bytes());
    }
    let len = sources[&root].len() as u32;
    let positions: Vec<u32> = (0..4)
        .map(|_| {
            let mut p = gen(len + 1) as usize;
            while !sources[&root].is_char_boundary(p) {
                p -= 1;
            }
            p as u32
        })
        .collect();
    let options = Options { verify: false, optimize: sched(3) != 2 };
    let w = Work { sources, root, options, positions, ends, order };
    let mut histories = Vec::new();
    for i in 0..2 {
        let seed = sched(1 << 30) as u64;
        let mut earlier = Vec::new();
        let n = if i == 0 && sched(2) == 0 { 0 } else { sched(5) };
        for _ in 0..n {
            earlier.push(match sched(5) {
                0 => Earlier::Library(simcore::lang::STD[sched(7) as usize].0),
                1 => Earlier::Other(simcore::text::soup(), false),
                2 => {
                    let p = simcore::gen::program(Config { budget: 30, modules: 1, wide: false, ..Config::draw() });
                    Earlier::Other(p.source(0), true)
                }
                3 => Earlier::Module(w.order[sched(w.order.len() as u32) as usize].clone()),
                _ => {
                    let p = w.positions[sched(4) as usize];
                    Earlier::Query([Query::Completions(p), Query::Info(p), Query::Diagnostics, Query::Tokens][sched(4) as usize])
                }
            });
        }
        for e in &earlier {
            probe(match e {
                Earlier::Other(..) => "earlier unrelated compilation",
                Earlier::Library(_) => "earlier library module",
                Earlier::Module(_) => "earlier compilation of a module",
                Earlier::Query(_) => "earlier query",
            });
        }
        let mut order = w.order.clone();
        for i in (1..order.len()).rev() {
            order.swap(i, sched(i as u32 + 1) as usize);
        }
        trace(|| format!("process {}: hash seed {}, earlier: {:?}, order {:?}", i, seed, earlier, order));
        fingerprint(seed);
        histories.push((seed, earlier, order));
    }
    let outs: Vec<String> = histories.iter().map(|(s, e, o)| in_fork(|| w.observe(*s, e, o))).collect();
    if outs.iter().all(|o| o.ends_with("hash seeds asked for\n")) {
        nontrivial();
    }
    observe(outs[0].as_bytes());
    steps(2);
    if outs[0] != outs[1] {
        let mut a = outs[0].lines();
        let mut b = outs[1].lines();
        let mut part = String::new();
        loop {
            let (x, y) = (a.next().unwrap_or(""), b.next().unwrap_or(""));
            if x != y {
                violation(
                    &format!("differs between processes: {}", part),
                    &format!("{}:\n{}\nand\n{}\nwhole:\n{}\nand:\n{}", part, x, y, outs[0], outs[1]),
                );
            }
            for k in ["Diagnostics", "Tokens", "Completions", "Definition", "References", "Info", "Ir", "Run", "Main"] {
                if x.starts_with(k) || x.contains(&format!(" {}", k)) && x.len() < 40 {
                    part = k.to_owned();
                }
            }
        }
    }
}

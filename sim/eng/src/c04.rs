//! C04: editor queries answer the same whatever was asked before.

use crate::common::*;
use simcore::gen::Config;
use simcore::eval::Eval;
use simcore::lang::module_path;
use simcore::*;
use std::collections::HashMap;
use std::fmt::Write;
use std::sync::Arc;
use ticc::{CompilationUnit, ModuleResolver, Runner, Severity};
use ticc_syntax::Pos;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded source text (a program, a damaged program, or unrelated pieces) and a seeded history of queries on one unit, each answer compared with that of a fresh unit; non-trivial if at least two queries were of different kinds; distinct by the hash of text and history",
        assumptions: &[],
        real: &["ticc compiler, api, code generator", "ticc-eval bytecode engine"],
        stubs: &["module lookup (in memory)"],
        init: warm_up,
        quick_runs: 400_000,
        thorough_runs: 20_000_000,
        quick_secs: 60,
        thorough_secs: 700,
        ..Check::new("C04", body)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Query {
    Diagnostics,
    Tokens,
    Definition(u32),
    References(u32),
    Info(u32),
    Completions(u32),
    Ir,
    Run(Runner),
    Main,
    Source,
}

pub fn ask(unit: &mut CompilationUnit, q: Query) -> String {
    match q {
        Query::Diagnostics => diagnostics(unit),
        Query::Tokens => {
            let mut s = String::new();
            for t in unit.tokens() {
                writeln!(s, "{:?} {:?}", t.kind, t.span).unwrap();
            }
            s
        }
        Query::Definition(p) => format!("{:?}", unit.find_definition(Pos::new(p))),
        Query::References(p) => format!("{:?}", unit.find_references(Pos::new(p))),
        Query::Info(p) => match unit.info(Pos::new(p)) {
            Some(i) => format!("{:?} {}", i.span, i.doc),
            None => "none".to_owned(),
        },
        Query::Completions(p) => match unit.completions(Pos::new(p)) {
            Some(c) => c.iter().map(|c| &c.name[..]).collect::<Vec<_>>().join(","),
            None => "none".to_owned(),
        },
        Query::Ir => unit.emit_ir(),
        Query::Run(r) => format!("{:?}", interpret(unit, r)),
        Query::Main => format!("{:?}", interpret_main(unit, Runner::Bytecode, b"some input")),
        Query::Source => unit.source().to_string(),
    }
}

pub fn diagnostics(unit: &mut CompilationUnit) -> String {
    let mut s = String::new();
    for d in unit.diagnostics() {
        writeln!(s, "{:?} {:?} {}", d.severity, d.span, d.message).unwrap();
    }
    s
}

/// A text, and what it can import.
/// The last part tells whether the program is known to end soon.
pub fn text(options: ticc::Options) -> (String, Arc<Resolver>, bool) {
    match gweighted(&[3, 4, 3]) {
        kind @ (0 | 1) => {
            let p = simcore::gen::program(Config { budget: *pick(&[30, 60, 120]), ..Config::draw() });
            let root = module_path(p.root());
            let mut sources: HashMap<String, String> = (0..p.modules.len()).map(|m| (module_path(m), p.source(m))).collect();
            let src = if kind == 0 {
                sources[&root].clone()
            } else {
                let root = sources[&root].clone();
                if gchance(1, 3) {
                    // something imported is damaged too
                    let m = module_path(gen(p.modules.len() as u32) as usize);
                    let s = match gen(2) {
                        0 => simcore::text::damage(&sources[&m], 2),
                        _ => simcore::text::without_a_word(&sources[&m], gen(sources[&m].len() as u32 + 1) as usize),
                    };
                    sources.insert(m, s);
                }
                let n = gen_range(0, 6);
                simcore::text::damage(&root, n)
            };
            let src = if gchance(1, 3) { late_imports(src, &sources) } else { src };
            let ends = kind == 0 && Eval::new(&p, 20_000).run().is_ok();
            (src, Resolver::new(sources, options), ends)
        }
        _ => {
            let mut m = "export let x : int = 1; export type T a = export A a | B rec; export type U = export C int | D; export let mk = C 1; export let un = \\u -> match u with | C i -> mk | D -> D end;".to_owned();
            if gchance(1, 4) {
                m = simcore::text::without_a_word(&m, gen(m.len() as u32) as usize);
            }
            let sources = HashMap::from([("m".to_owned(), m)]);
            let mut src = simcore::text::soup();
            if gchance(1, 3) {
                src = late_imports(src, &sources);
            }
            (src, Resolver::new(sources, options), false)
        }
    }
}

/// Imports of names after the definitions, from modules that may be imported already.
fn late_imports(mut src: String, sources: &HashMap<String, String>) -> String {
    let mut from: Vec<(String, Vec<String>)> = vec![
        ("std/list".to_owned(), vec!["List".into(), "Nil".into(), "Cons".into(), "map".into()]),
        ("std/option".to_owned(), vec!["Option".into(), "Some".into()]),
    ];
    let mut paths: Vec<_> = sources.keys().cloned().collect();
    paths.sort();
    for p in paths {
        let names = sources[&p]
            .split("export ")
            .skip(1)
            .filter_map(|s| s.strip_prefix("let ").or(s.strip_prefix("type ")))
            .map(|s| s.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
            .filter(|n| !n.is_empty());
        let ctors = sources[&p]
            .split("= export ")
            .skip(1)
            .flat_map(|t| t.split(';').next().unwrap().split('|'))
            .map(|c| c.trim().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>())
            .filter(|n| n.starts_with(|c: char| c.is_uppercase()));
        let names = names.chain(ctors).collect();
        from.push((p, names));
    }
    for _ in 0..gen_range(1, 3) {
        let (path, names) = pick(&from);
        let names: Vec<&str> = names.iter().filter(|_| gchance(2, 3)).map(|s| &s[..]).collect();
        let line = if names.is_empty() {
            format!("import late{} from \"{}\";", gen(3), path)
        } else {
            format!("import ({}) from \"{}\";", names.join(", "), path)
        };
        // at the end or between two lines
        let ends: Vec<usize> = src.match_indices('\n').map(|m| m.0 + 1).collect();
        let at = if ends.is_empty() || gchance(1, 2) { src.len() } else { *pick(&ends) };
        src.insert_str(at, &format!("{}\n", line));
    }
    src
}

fn body() {
    set_hash_seed(sched(1 << 20) as u64);
    let options = ticc::Options { verify: sched(8) == 7, optimize: sched(2) == 0 };
    let (src, r, ends) = text(options);
    if src.len() > 30_000 {
        discard("the program is too big");
    }
    for (m, s) in r.sources() {
        trace(|| format!("-- {}:\n{}", m, s));
    }
    trace(|| format!("-- text:\n{}\n-- end of text", src));
    fingerprint_bytes(src.as_bytes());
    let fresh = || CompilationUnit::new(&src, options, r.clone() as Arc<dyn ModuleResolver + Send + Sync>);
    // code can be generated if neither the text nor anything it imports has errors
    let clean = |u: &mut CompilationUnit| !u.diagnostics().any(|d| d.severity == Severity::Error);
    let valid = clean(&mut fresh()) && r.sources().iter().all(|(m, _)| clean(&mut r.unit(m)));
    probe(if valid { "text without errors" } else { "text with errors" });
    let mut unit = fresh();
    let mut answers: HashMap<String, String> = HashMap::new();
    let mut asked = String::new();
    let mut kinds = std::collections::HashSet::new();
    for _ in 0..gen_range(1, 12) {
        let pos = match gen(8) {
            0 => src.len() as u32,
            1 => 0,
            2 => src.len() as u32 + gen(3),
            _ => {
                let mut p = gen(src.len() as u32 + 1) as usize;
                while !src.is_char_boundary(p) {
                    p -= 1;
                }
                p as u32
            }
        };
        let q = match gweighted(&[4, 2, 5, 5, 5, 5, if valid { 1 } else { 0 }, if valid { 1 } else { 0 }, if valid { 1 } else { 0 }, 1]) {
            0 => Query::Diagnostics,
            1 => Query::Tokens,
            2 => Query::Definition(pos),
            3 => Query::References(pos),
            4 => Query::Info(pos),
            5 => Query::Completions(pos),
            6 => Query::Ir,
            7 => Query::Run(*pick(&[Runner::Bytecode, Runner::Treewalk, Runner::Lambda])),
            8 => Query::Main,
            _ => Query::Source,
        };
        if matches!(q, Query::Run(_) | Query::Main) && !ends {
            continue;
        }
        let key = format!("{:?}", q);
        trace(|| format!("query {}", key));
        let kind: String = key.chars().take_while(|c| c.is_alphabetic()).collect();
        probe(&format!("query {}", kind));
        fingerprint_bytes(key.as_bytes());
        let got = ask(&mut unit, q);
        let expected = answers.entry(key.clone()).or_insert_with(|| ask(&mut fresh(), q)).clone();
        observe(expected.as_bytes());
        ensure!(
            got == expected,
            &format!("answer depends on history: {}", kind),
            "{} after {}gives\n{}\nbut a fresh unit gives\n{}\nfor the text\n{}",
            key, asked, got, expected, src
        );
        kinds.insert(kind);
        write!(asked, "{}, ", key).unwrap();
    }
    if kinds.len() > 1 {
        nontrivial();
    }
    steps(kinds.len() as u64);
}

//! C16: graphs of modules on disk get one verdict whatever their shape.

use crate::c14::{clock, noise};
use simcore::proc::{Command1, Scratch};
use simcore::world::{self, STD};
use simcore::*;
use std::collections::BTreeSet;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded graph of modules in nested and linked directories, with seeded spellings of every import and of the root, seeded missing, unreadable, erroneous and cyclic modules, run through the command line tool; non-trivial if the root imports something; distinct by the hash of the files and the faults",
        assumptions: &["a module is the file its path leads to", "file names are valid UTF-8"],
        real: &["the ticc binary as shipped, with its module resolver"],
        stubs: &["unreadable files come from the plan of system calls (sim/proc/shim.c); links, directories and missing files are real"],
        scratch: true,
        quick_runs: 40_000,
        thorough_runs: 2_000_000,
        quick_secs: 70,
        thorough_secs: 600,
        cpu_limit: 60,
        ..Check::new("C16", body)
    }
}

const DIRS: [&[&str]; 5] = [&[], &["lib"], &["lib", "deep"], &["a b"], &["\u{e9}"]];

#[derive(Clone)]
struct File {
    dir: &'static [&'static str],
    name: String,
    /// Another name of the file, in the same directory.
    link: Option<String>,
    source: Vec<u8>,
    imports: Vec<usize>,
    /// Its own text has errors.
    broken: bool,
    /// It cannot be read.
    unreadable: bool,
}

/// A way to write the path of a file. At the top, `ln` leads to `lib` and `dd` to `lib/deep`.
fn spell(from: &[&str], to: &[&str], name: &str, link: &Option<String>) -> String {
    let common = from.iter().zip(to).take_while(|(a, b)| a == b).count();
    // sometimes further up than necessary
    let common = if gchance(1, 5) { gen(common as u32 + 1) as usize } else { common };
    let mut parts: Vec<String> = Vec::new();
    match gweighted(&[4, 3, 2, 1, 1]) {
        0 => {}
        1 => parts.push(".".into()),
        2 => parts.extend(["zz".into(), "..".into()]),
        3 => parts.extend([".".into(), ".".into()]),
        _ => parts.extend(["zz".into(), ".".into(), "..".into()]),
    }
    for _ in common..from.len() {
        parts.push("..".into());
        if gchance(1, 10) {
            parts.push(".".into());
        }
    }
    let mut rest = to[common..].iter().enumerate();
    if common == 0 && to.starts_with(&["lib", "deep"]) && gchance(1, 3) {
        parts.push("dd".into());
        probe("through a linked directory");
        rest.nth(1);
    }
    while let Some((k, d)) = rest.next() {
        if common + k == 0 && *d == "lib" && gchance(1, 3) {
            parts.push("ln".into());
            probe("through a linked directory");
        } else {
            parts.push((*d).into());
        }
        if gchance(1, 12) {
            parts.push(String::new());
        }
    }
    match link {
        Some(l) if gchance(1, 3) => {
            probe("through a linked file");
            parts.push(l.clone())
        }
        _ => parts.push(name.into()),
    }
    // an empty segment at the start would be something else
    if parts[0].is_empty() {
        parts.remove(0);
    }
    parts.join("/")
}

fn place(name: String) -> File {
    let dir = DIRS[gweighted(&[4, 3, 2, 1, 1])];
    let link = if gchance(1, 4) { Some(format!("also-{}", name)) } else { None };
    File { dir, name, link, source: vec![], imports: vec![], broken: false, unreadable: false }
}

struct Graph {
    files: Vec<File>,
    values: Vec<(String, u64)>,
}

fn modules() -> Graph {
    let n = gen_range(2, 7) as usize;
    let mut files: Vec<File> = (0..n).map(|i| place(format!("m{}.tic", i))).collect();
    let f = files.clone();
    let w = world::build(n, &mut |t, i, _| spell(f[i].dir, f[t].dir, &f[t].name, &f[t].link));
    for i in 0..n {
        let m = &w.modules[i];
        files[i].source = m.source.clone().into_bytes();
        files[i].imports = m.imports.iter().map(|x| x.target).filter(|&t| t != STD).collect();
    }
    let root = &w.modules[n - 1];
    let values = root.defs.iter().filter(|d| d.text.starts_with("export")).filter_map(|d| Some((d.name.clone(), d.value?))).collect();
    Graph { files, values }
}

/// Many paths to everything.
fn diamonds() -> Graph {
    let n = gen_range(3, 26) as usize;
    let mut files: Vec<File> = (0..n).map(|i| place(format!("m{}.tic", (b'a' + i as u8) as char))).collect();
    let mut values: Vec<u64> = Vec::new();
    for i in 0..n {
        let mut src = String::new();
        let mut sum = Vec::new();
        let mut v = 1u64;
        if i > 0 {
            for k in 0..gen_range(1, 3) as usize {
                let t = if gchance(3, 4) { i - 1 } else { gen(i as u32) as usize };
                let p = spell(files[i].dir, files[t].dir, &files[t].name, &files[t].link);
                src.push_str(&format!("import n{} from \"{}\";\n", k, p));
                files[i].imports.push(t);
                sum.push(format!("n{}.open (n{}.make n{}.v)", k, gen(k as u32 + 1), k));
                // what is made by one import is opened by another of the same module
                let j: usize = gen(k as u32 + 1) as usize;
                let j = if files[i].imports[j] == t { j } else { k };
                *sum.last_mut().unwrap() = format!("n{}.open (n{}.make n{}.v)", k, j, k);
                v = v.wrapping_add(values[t]);
            }
        }
        src.push_str("export type T = Wrap int;\nexport let make : int -> T = \\x -> Wrap x;\nexport let open : T -> int = \\t -> match t with | Wrap x -> x end;\n");
        sum.push("1".to_owned());
        src.push_str(&format!("export let v : int = {};\n", sum.join(" + ")));
        values.push(v);
        files[i].source = src.into_bytes();
    }
    probe("layers");
    let v = *values.last().unwrap();
    Graph { files, values: vec![("v".to_owned(), v)] }
}

fn body() {
    let mut g = if gweighted(&[3, 1]) == 0 { modules() } else { diamonds() };
    let n = g.files.len();
    let root = n - 1;
    let mut s = Scratch::new();
    let mut plan = noise(0);
    plan.push(format!("h:{};{}", sched(1 << 20), clock()));
    let mut missing: BTreeSet<usize> = BTreeSet::new();
    let mut dirs_instead: BTreeSet<usize> = BTreeSet::new();
    let mut faults = Vec::new();
    // importers of what is nowhere
    let mut asks_nowhere: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..[0, 0, 1, 1, 1, 2, 3][fault(7) as usize] {
        let k = fault(n as u32) as usize;
        let f = &mut g.files[k];
        let what = match fault(8) {
            0 => {
                f.broken = true;
                let bad = ["let bad : int = \"text\";\n", "let bad = nowhere;\n", "let let;\n", "export type Bad = A nothing;\n", "let bad = \"open;\n"][fault(5) as usize];
                if fault(2) == 0 {
                    f.source.extend_from_slice(bad.as_bytes());
                } else {
                    let mut t = bad.as_bytes().to_vec();
                    t.extend_from_slice(&f.source);
                    f.source = t;
                }
                "errors"
            }
            1 => {
                missing.insert(k);
                f.unreadable = true;
                "missing"
            }
            2 => {
                f.unreadable = true;
                let e = crate::c14::errno_for('o', false);
                for name in std::iter::once(&f.name).chain(&f.link) {
                    plan.push(format!("p:o:{}:0:{}", name, e));
                }
                "not opened"
            }
            3 => {
                f.unreadable = true;
                let e = crate::c14::errno_for('r', false);
                let after = fault(f.source.len() as u32 + 1);
                for name in std::iter::once(&f.name).chain(&f.link) {
                    plan.push(format!("p:r:{}:{}:{}", name, after, e));
                }
                "not read to the end"
            }
            4 => {
                f.unreadable = true;
                let at = fault(f.source.len() as u32 + 1) as usize;
                f.source.insert(at, [0xff, 0xc0, 0x80][fault(3) as usize]);
                "not UTF-8"
            }
            5 => {
                dirs_instead.insert(k);
                f.unreadable = true;
                "a directory"
            }
            6 => {
                // an import of what may need it
                let t = k + fault((n - k) as u32) as usize;
                let p = spell(g.files[k].dir, g.files[t].dir, &g.files[t].name, &None);
                let line = format!("import again{} from \"{}\";\n", t, p);
                let f = &mut g.files[k];
                if f.imports.contains(&t) {
                    continue;
                }
                f.imports.push(t);
                if fault(2) == 0 {
                    f.source.extend_from_slice(line.as_bytes());
                } else {
                    let mut x = line.into_bytes();
                    x.extend_from_slice(&f.source);
                    f.source = x;
                }
                "one more import"
            }
            _ => {
                let p = ["nowhere.tic", "../outside/nowhere.tic", "lib", "", "zz/"][fault(5) as usize];
                f.source.extend_from_slice(format!("import nowhere from \"{}\";\n", p).as_bytes());
                asks_nowhere.insert(k);
                "an import of nothing"
            }
        };
        probe(what);
        faults.push(format!("{}: {}", g.files[k].name, what));
    }
    for _ in 0..fault(2) {
        plan.push(format!("n:r:{}:d1", fault(20)));
    }

    // the graph on disk
    for d in DIRS {
        let d = d.join("/");
        let d = if d.is_empty() { String::new() } else { format!("{}/", d) };
        let _ = std::fs::create_dir_all(s.world().join(format!("{}zz", d)));
    }
    let _ = std::os::unix::fs::symlink("lib", s.world().join("ln"));
    let _ = std::os::unix::fs::symlink("lib/deep", s.world().join("dd"));
    let mut story = String::new();
    for (k, f) in g.files.iter().enumerate() {
        let dir = f.dir.join("/");
        let path = if dir.is_empty() { f.name.clone() } else { format!("{}/{}", dir, f.name) };
        let kind = if missing.contains(&k) {
            " (missing)"
        } else if dirs_instead.contains(&k) {
            let _ = std::fs::create_dir_all(s.world().join(&path));
            " (a directory)"
        } else {
            s.put(&path, &f.source);
            ""
        };
        if let Some(l) = &f.link {
            let at = s.world().join(&dir).join(l);
            let _ = std::os::unix::fs::symlink(&f.name, at);
        }
        story.push_str(&format!("-- file {}{}{}\n{}\n", path, kind, f.link.as_ref().map(|l| format!(", also {}", l)).unwrap_or_default(), String::from_utf8_lossy(&f.source)));
    }
    let dir = g.files[root].dir.join("/");
    let plain = if dir.is_empty() { g.files[root].name.clone() } else { format!("{}/{}", dir, g.files[root].name) };
    // where the tool is started, really, and how that directory is called
    let (at, cwd) = match gen(8) {
        0..=2 => (DIRS[0], String::new()),
        3 => (DIRS[1], "ln".to_owned()),
        4 => (DIRS[2], "dd".to_owned()),
        5 => (g.files[root].dir, dir.clone()),
        k => {
            let d = DIRS[1 + (k as usize - 6) + gen(3) as usize];
            (d, d.join("/"))
        }
    };
    if !at.is_empty() {
        probe("started in a directory of modules");
    }
    let spelled = match gen(5) {
        0 | 1 if at.is_empty() => plain,
        2 if at.is_empty() => format!("./{}", plain),
        3 => format!("/WORLD/{}", plain),
        4 if at.is_empty() => format!("zz/../{}", plain),
        _ => spell(at, g.files[root].dir, &g.files[root].name, &g.files[root].link),
    };
    let eval = gchance(2, 3);
    let mut args = vec![spelled, if eval { "--eval" } else { "--check" }.to_owned()];
    if gchance(1, 5) {
        args.push("--optimize".to_owned());
    }
    story.push_str(&format!("in /{}: ticc {}\nfaults: {:?}\nplan: {:?}", cwd, args.join(" "), faults, plan));
    trace(|| story.clone());
    fingerprint_bytes(story.as_bytes());

    // what it should say
    let mut closure: BTreeSet<usize> = BTreeSet::new();
    let mut todo = vec![root];
    while let Some(k) = todo.pop() {
        if closure.insert(k) && !g.files[k].unreadable {
            todo.extend(&g.files[k].imports);
        }
    }
    if closure.len() > 1 {
        nontrivial();
    }
    let reaches = |from: usize, to: usize| {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from];
        while let Some(k) = todo.pop() {
            if k == to {
                return true;
            }
            if seen.insert(k) && !g.files[k].unreadable {
                todo.extend(&g.files[k].imports);
            }
        }
        false
    };
    // files that may be named: their text, or one of their imports, is bad
    let mut offending: BTreeSet<usize> = BTreeSet::new();
    let mut cycle = false;
    for &k in &closure {
        let f = &g.files[k];
        if f.unreadable {
            if k == root {
                offending.insert(k);
            }
            continue;
        }
        if f.broken || asks_nowhere.contains(&k) || f.imports.iter().any(|&t| g.files[t].unreadable) {
            offending.insert(k);
        }
        if f.imports.iter().any(|&t| !g.files[t].unreadable && reaches(t, k)) {
            cycle = true;
            offending.insert(k);
        }
    }
    let fine = offending.is_empty();
    count(if fine { "fine" } else if cycle { "cycle" } else { "bad" }, 1);
    if fine && !faults.is_empty() {
        probe("fine, with faults elsewhere");
    }

    let e = s.run(&Command1 { bin: "ticc", args, stdin: vec![], plan, memory: None, cwd });
    trace(|| e.describe());
    observe(e.status.as_bytes());
    observe(&e.stdout);
    observe(&e.stderr);
    let story = || format!("{}\n{}\nexpected: {}", e.describe(), story, if fine { "success".to_owned() } else { format!("failure in one of {:?}", offending.iter().map(|&k| &g.files[k].name).collect::<Vec<_>>()) });
    ensure!(e.status != "hang", "hang", "{}", story());
    ensure!(e.status == "exit 0" || e.status == "exit 1", "crash", "{}", story());
    if fine {
        ensure!(e.success(), "failure of a good graph", "{}", story());
        if eval {
            let out = e.out();
            for (name, v) in &g.values {
                let line = format!("{} = {}", name, v);
                ensure!(out.lines().any(|l| l == line), "wrong values", "`{}` is missing\n{}", line, story());
            }
        }
    } else {
        ensure!(!e.success(), if cycle { "success of a cyclic graph" } else { "success of a bad graph" }, "{}", story());
        ensure!(e.stdout.is_empty(), "output in spite of failure", "{}", story());
        let err = e.err();
        let named = |k: usize| {
            let f = &g.files[k];
            std::iter::once(&f.name).chain(&f.link).any(|n| {
                err.lines().any(|l| {
                    let l = l.trim();
                    l.strip_prefix("--> ").or_else(|| l.strip_prefix("error: cannot open ")).is_some_and(|p| {
                        let p = p.trim_end_matches(|c: char| c.is_ascii_digit() || c == ':');
                        p == n || p.ends_with(&format!("/{}", n))
                    })
                })
            })
        };
        ensure!(offending.iter().any(|&k| named(k)), "no offending file is named", "{}", story());
    }
}

//! C17: the program test runner never counts a failed run as passed.

use crate::c14::errno_for;
use simcore::proc::{class_name, errno_name, Call, Command1, Ended, Scratch};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded tree of program tests, right and wrong ones by construction, run by the test runner under seeded directory orders and then under seeded plans of failing system calls; non-trivial if there are right and wrong cases or a fault was delivered; distinct by the hash of the tree and the plans",
        assumptions: &["a missing expected output is created by the runner on purpose", "a file that is not there is not a fault"],
        real: &["the ticc-tests binary as shipped, with the compiler and evaluators it contains"],
        stubs: &["its directory of programs is mapped to a scratch directory", "libc open, read, write, statx, opendir, readdir64 and getrandom go through the plan (sim/proc/shim.c)"],
        scratch: true,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        quick_secs: 70,
        thorough_secs: 600,
        cpu_limit: 60,
        ..Check::new("C17", body)
    }
}

const PROGRAMS: &str = "/repo/ticc-tests/programs";
const RUNNERS: [&str; 4] = ["bytecode", "lambda", "treewalk", "jit"];

#[derive(Clone, Debug)]
struct Case {
    right: bool,
    optimized: bool,
    jit: bool,
    /// The case is right only because there is nothing to compare with.
    created: bool,
    /// Files it depends on.
    files: Vec<String>,
    /// It is wrong only because of errors in a module that it imports.
    child: bool,
}

#[derive(Default)]
struct Tree {
    files: BTreeMap<String, Vec<u8>>,
    cases: BTreeMap<String, Case>,
}

impl Tree {
    fn put(&mut self, path: &str, text: String) -> String {
        let text = match gen(8) {
            1 => text.replace('\n', "\r\n"),
            // the runner refuses files that do not end in a line break
            _ => text,
        };
        self.files.insert(path.to_owned(), text.into_bytes());
        path.to_owned()
    }
}

/// Text without any marker.
fn filler() -> String {
    let mut s = String::new();
    for _ in 0..gen(3) {
        s.push_str(*pick(&["-- words\n", "\n", "let _u : int = 3;\n", "let _e : string = \"\u{e9}\u{1F600}\";\n", "-- ^^^ nothing\n"]));
    }
    s
}

/// Definitions that import others, with what they print.
fn values(modules: &[(String, u64)]) -> (String, Vec<String>) {
    let mut src = String::new();
    let mut out = Vec::new();
    for (k, (name, v)) in modules.iter().enumerate() {
        src.push_str(&format!("import m{} from \"{}\";\n", k, name));
        src.push_str(&format!("export let c{} : int = m{}.v + 1;\n", k, k));
        out.push(format!("c{} = {}", k, v + 1));
    }
    for k in 0..gen_range(if modules.is_empty() { 1 } else { 0 }, 3) {
        match gen(4) {
            0 => {
                let n = gen(1000);
                src.push_str(&format!("export let d{} : int = {} * 2;\n", k, n));
                out.push(format!("d{} = {}", k, n * 2));
            }
            1 => {
                src.push_str(&format!("export let d{} = if 3 < {} then \"yes\" else \"no\";\n", k, k + 2));
                out.push(format!("d{} = \"{}\"", k, if 3 < k + 2 { "yes" } else { "no" }));
            }
            2 => {
                src.push_str(&format!("import str{k} from \"std/string\";\nexport let d{k} : string = str{k}.concat \"a\" \"b{k}\";\n", k = k));
                out.push(format!("d{} = \"ab{}\"", k, k));
            }
            _ => {
                src.push_str(&format!("type T{k} = A{k} | B{k} int;\nexport let d{k} : T{k} = B{k} {k};\n", k = k));
                out.push(format!("d{} = B{} {}", k, k, k));
            }
        }
    }
    (src, out)
}

/// A line with one error, and its marker.
fn error_line(k: usize) -> (String, usize, usize, &'static str) {
    match gen(5) {
        0 => {
            let pre = format!("let e{} : int = ", k);
            (format!("{}nowhere;", pre), pre.len(), 7, "undefined variable")
        }
        1 => {
            let pre = format!("let e{} : int = ", k);
            (format!("{}\"text\";", pre), pre.len(), 6, "expected int, got string")
        }
        2 => {
            let pre = format!("let e{} : string = if 2 < 1 then \"a\" else ", k);
            (format!("{}true;", pre), pre.len(), 4, "expected string, got bool")
        }
        3 => {
            let pre = format!("let e{} : ", k);
            (format!("{}Missing = ?hole;", pre), pre.len(), 7, "undefined type")
        }
        _ => {
            let pre = format!("import m{} from ", k);
            (format!("{}\"nowhere\";", pre), pre.len(), 9, "")
        }
    }
}

fn marker(at: usize, len: usize, msg: &str) -> String {
    format!("--{}{} ERROR: {}\n", " ".repeat(at - 2), "^".repeat(len), msg)
}

/// Where a case lives: a file, or a directory with modules.
fn home(t: &mut Tree, dir: &str, name: &str) -> (String, String, Vec<(String, u64)>, Vec<String>, bool) {
    if gchance(2, 3) {
        let key = format!("{}/{}.tic", dir, name);
        return (key.clone(), key, vec![], vec![], false);
    }
    let key = format!("{}/{}", dir, name);
    let mut modules = Vec::new();
    let mut files = Vec::new();
    let mut broken = false;
    for k in 0..gen_range(1, 3) as u64 {
        let file = format!("mod{}.tic", k);
        let v = 10 * k + gen(9) as u64;
        let mut src = format!("{}export let v : int = {};\n", filler(), v);
        if gchance(1, 40) {
            broken = true;
            src.push_str("let wrong : int = \"text\";\n");
        }
        files.push(t.put(&format!("{}/{}", key, file), src));
        modules.push((file, v));
    }
    (key.clone(), format!("{}/main.tic", key), modules, files, broken)
}

fn add(t: &mut Tree, key: &str, suffix: &str, c: Case) {
    let key = if suffix.is_empty() { key.to_owned() } else { format!("{} ({})", key, suffix) };
    t.cases.insert(key, c);
}

fn compile_pass(t: &mut Tree, name: &str) {
    let (key, main, modules, mut files, broken) = home(t, "compile-pass", name);
    let (mut src, _) = values(&modules);
    src.push_str(&filler());
    let right = gchance(2, 3);
    if !right {
        let (line, ..) = error_line(77);
        src = if gchance(1, 2) { format!("{}\n{}", line, src) } else { format!("{}{}\n", src, line) };
    }
    files.push(t.put(&main, src));
    for o in [false, true] {
        let c = Case { right: right && !broken, optimized: o, jit: false, created: false, files: files.clone(), child: broken && right };
        add(t, &key, if o { "optimized" } else { "" }, c);
    }
}

fn compile_fail(t: &mut Tree, name: &str) {
    let (key, main, modules, mut files, broken) = home(t, "compile-fail", name);
    let (mut src, _) = values(&modules);
    let n = gen_range(1, 3) as usize;
    let wrong = if gchance(1, 2) { Some((gen(n as u32) as usize, gen(6))) } else { None };
    for k in 0..n {
        src.push_str(&filler());
        let (line, at, len, msg) = error_line(k);
        src.push_str(&line);
        src.push('\n');
        match wrong {
            Some((w, how)) if w == k => match how {
                0 => src.push_str(&marker(at + 1, len, msg)),
                1 => src.push_str(&marker(at, len + 1, msg)),
                2 => src.push_str(&marker(at, len, "something else")),
                3 if n > 1 => {}
                4 => {
                    src.push_str(&marker(at, len, msg));
                    src.push_str(&format!("let fine{} : int = 3;\n", k));
                    src.push_str(&marker(5, 4, "undefined variable"));
                }
                _ => src.push_str(&marker(at, len.max(3) - 1, msg)),
            },
            _ => {
                let msg = match gen(3) {
                    // part of the message will do
                    1 => &msg[..msg.len() / 2],
                    _ => msg,
                };
                src.push_str(&marker(at, len, msg));
            }
        }
    }
    files.push(t.put(&main, src));
    let c = Case { right: wrong.is_none() && !broken, optimized: false, jit: false, created: false, files, child: broken && wrong.is_none() };
    add(t, &key, "", c);
}

fn run_pass(t: &mut Tree, name: &str) {
    let (key, main, modules, mut files, broken) = home(t, "run-pass", name);
    if broken {
        // does not get as far as running
        t.files.retain(|k, _| !k.starts_with(&format!("{}/", key)));
        return run_pass(t, name);
    }
    let (mut src, mut out) = values(&modules);
    let right = gchance(3, 5);
    if !right {
        let k = gen(out.len() as u32) as usize;
        match gen(5) {
            0 => out[k].push('1'),
            1 => out.push("d9 = 9".to_owned()),
            2 if out.len() > 1 => {
                out.remove(k);
            }
            3 if out.len() > 1 => {
                let l = (k + 1) % out.len();
                out.swap(k, l);
            }
            4 => {
                // does not compile
                src.push_str("let wrong : int = \"text\";\n");
            }
            _ => out[k] = out[k].replace(" = ", " =  "),
        }
    }
    let lines: String = out.iter().map(|l| format!("-- EXPECT: {}\n", l)).collect();
    src = if gchance(1, 2) { format!("{}{}{}", src, filler(), lines) } else { format!("{}{}", lines, src) };
    files.push(t.put(&main, src));
    for r in RUNNERS {
        for o in [false, true] {
            let c = Case { right, optimized: o, jit: r == "jit", created: false, files: files.clone(), child: false };
            add(t, &key, &if o { format!("{}, optimized", r) } else { r.to_owned() }, c);
        }
    }
}

fn run_heavy(t: &mut Tree, name: &str, shared: bool) {
    let dir = format!("run-heavy/{}", name);
    let mut files = Vec::new();
    let mut src = String::new();
    src.push_str(&filler());
    src.push_str("import str from \"std/string\";\n");
    let mut prefix = String::new();
    if shared && gchance(1, 2) {
        src.push_str("import sh from \"../shared/util.tic\";\n");
        prefix = "shared".to_owned();
        files.push("run-heavy/shared/util.tic".to_owned());
    }
    if gchance(1, 3) {
        files.push(t.put(&format!("{}/local.tic", dir), format!("{}export let text : string = \"local\";\n", filler())));
        src.push_str("import l from \"local.tic\";\n");
        src.push_str("let tail : string = l.text;\n");
    } else {
        src.push_str("let tail : string = \"-end\";\n");
    }
    let tail = if src.contains("l.text") { "local" } else { "-end" };
    let head = if prefix.is_empty() { "\"\"".to_owned() } else { "sh.text".to_owned() };
    src.push_str(&format!("export let main : string -> string = \\input -> str.concat {} (str.concat input tail);\n", head));
    let broken = gchance(1, 10);
    if broken {
        src.push_str("let wrong : int = \"text\";\n");
    }
    files.push(t.put(&format!("{}/main.tic", dir), src));
    for k in 0..gen_range(1, 4) {
        let n = *pick(&["1", "test", "in.txt", "x y"]);
        let file = format!("{}{}", n, k);
        let text = simcore::gen::interesting_str() + *pick(&["", "\n", "\nmore\n", "\n\n"]);
        let mut expect = format!("{}{}{}", prefix, text, tail);
        let right = gchance(3, 5);
        if !right {
            match gen(5) {
                0 => expect.push('x'),
                1 => expect.push('\n'),
                2 => {
                    expect.pop();
                }
                3 => expect.clear(),
                _ => expect = format!(" {}", expect),
            }
        }
        let input = format!("{}/input/{}", dir, file);
        let output = format!("{}/output/{}", dir, file);
        let crlf = |s: String, yes: bool| if yes { s.replace('\n', "\r\n") } else { s };
        let (a, b) = (gchance(1, 5), gchance(1, 5));
        t.files.insert(input.clone(), crlf(text, a).into_bytes());
        let created = gchance(1, 12);
        if !created {
            t.files.insert(output.clone(), crlf(expect, b).into_bytes());
        }
        let mut files = files.clone();
        files.push(input.clone());
        files.push(output);
        for r in RUNNERS {
            let c = Case { right: (right || created) && !broken, optimized: true, jit: r == "jit", created, files: files.clone(), child: false };
            add(t, &input, &format!("{}, optimized", r), c);
        }
    }
}

#[derive(Debug)]
struct Report {
    verdicts: Vec<(String, bool)>,
    summary: Option<(usize, usize, usize)>,
}

fn parse(e: &Ended) -> Report {
    let mut r = Report { verdicts: vec![], summary: None };
    let mut open: Option<String> = None;
    for line in e.out().lines() {
        let mut rest = line;
        if let Some(l) = line.strip_prefix("test ") {
            if let Some((key, _)) = l.split_once("creating output file ") {
                open = Some(key.to_owned());
                continue;
            }
            let Some(i) = l.rfind(" ... ") else { continue };
            open = Some(l[..i].to_owned());
            rest = &l[i..];
        }
        let Some(v) = rest.strip_prefix(" ... ") else {
            if let Some(s) = line.strip_prefix("passed ") {
                let n: Vec<usize> = s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect();
                if let [a, b, c] = n[..] {
                    r.summary = Some((a, b, c));
                }
            }
            continue;
        };
        let Some(key) = open.take() else { continue };
        if v.starts_with("ok (") {
            r.verdicts.push((key, true));
        } else if v.starts_with("FAILED") {
            r.verdicts.push((key, false));
        }
    }
    r
}

fn body() {
    let mut t = Tree::default();
    let shared = gchance(1, 2);
    for (n, make) in [compile_pass as fn(&mut Tree, &str), compile_fail, run_pass].into_iter().enumerate() {
        for k in 0..gen_range(0, 3) {
            let name = format!("{}{}", pick(&["b", "a", "z-1", "c d"]), k + 3 * n as u32);
            make(&mut t, &name);
        }
    }
    for k in 0..gen(3) {
        let name = format!("{}{}", pick(&["heavy", "day", "a"]), k);
        run_heavy(&mut t, &name, shared);
    }
    if shared {
        t.files.insert("run-heavy/shared/util.tic".to_owned(), b"export let text : string = \"shared\";\n".to_vec());
    }
    let mut args = Vec::new();
    match gen(5) {
        1 => args.push("--no-opt".to_owned()),
        2 => args.push("--only-opt".to_owned()),
        _ => {}
    }
    while gchance(1, 5) {
        args.push(pick(&["pass", "a", "bytecode", "(", "optimized", "3", "run"]).to_string());
    }
    let ran = |key: &str, c: &Case| {
        !(c.optimized && args.iter().any(|a| a == "--no-opt"))
            && !(!c.optimized && args.iter().any(|a| a == "--only-opt"))
            && args.iter().filter(|a| !a.starts_with('-')).all(|a| key.contains(a.as_str()))
    };
    let expected: BTreeMap<&String, &Case> = t.cases.iter().filter(|(k, c)| ran(k, c)).collect();
    let mut story = String::new();
    for (p, c) in &t.files {
        story.push_str(&format!("-- file {}\n{}\n", p, String::from_utf8_lossy(c)));
    }
    story.push_str(&format!("ticc-tests {}\n", args.join(" ")));
    for (k, c) in &expected {
        story.push_str(&format!("{}: {}\n", k, if c.right { "right" } else { "wrong" }));
    }
    trace(|| story.clone());
    fingerprint_bytes(story.as_bytes());
    if expected.values().any(|c| c.right) && expected.values().any(|c| !c.right) {
        nontrivial();
    }

    let mut s = Scratch::new();
    let lay_out = |s: &Scratch| {
        s.clear();
        for d in ["compile-pass", "compile-fail", "run-pass", "run-heavy"] {
            let _ = std::fs::create_dir_all(s.world().join("p").join(d));
        }
        for (p, c) in &t.files {
            s.put(&format!("p/{}", p), c);
        }
    };
    let base = || vec![format!("m:{}:/WORLD/p", PROGRAMS), format!("h:{}", sched(1 << 20)), crate::c14::clock()];
    let benign = || {
        let mut plan = base();
        plan.push(format!("y:{}", sched(1 << 20)));
        if sched(3) == 1 {
            plan.push("u:".to_owned());
            probe("types of directory entries hidden");
        }
        plan.extend(crate::c14::noise(0));
        plan
    };

    // without faults, in some order
    let mut clean: Option<Ended> = None;
    let mut known: Option<String> = None;
    for _ in 0..1 + sched(3) {
        lay_out(&s);
        let plan = benign();
        fingerprint_bytes(format!("{:?}", plan).as_bytes());
        let e = s.run(&Command1 { bin: "ticc-tests", args: args.clone(), stdin: vec![], plan: plan.clone(), memory: None, cwd: String::new() });
        trace(|| format!("plan {:?}: {}", plan, e.describe()));
        let r = parse(&e);
        observe(format!("{:?}", r.verdicts).as_bytes());
        let tell = || format!("plan {:?}\n{}\n{}", plan, e.describe(), story);
        ensure!(e.status == "exit 0", "runner fails without faults", "{}", tell());
        let got: BTreeSet<&String> = r.verdicts.iter().map(|v| &v.0).collect();
        ensure!(got.len() == r.verdicts.len(), "a case is reported twice", "{}", tell());
        for k in expected.keys() {
            ensure!(got.contains(k), "a case is not reported", "{} is not reported\n{}", k, tell());
        }
        for (k, ok) in &r.verdicts {
            let Some(c) = expected.get(k) else { violation("an unexpected case is reported", &format!("{} is reported\n{}", k, tell())) };
            if *ok {
                count("ok", 1);
                if !c.right && c.child {
                    known = Some(format!("{} is ok\n{}", k, tell()));
                    continue;
                }
                ensure!(c.right, "a wrong case is ok", "{} is ok\n{}", k, tell());
            } else {
                count("FAILED", 1);
                // the engine is not there
                ensure!(!c.right || c.jit, "a right case fails", "{} fails\n{}", k, tell());
            }
        }
        if let Some((a, b, c)) = r.summary {
            let ok = r.verdicts.iter().filter(|v| v.1).count();
            ensure!(a == ok && b == r.verdicts.len() && c == t.cases.len() - b, "wrong summary", "{}", tell());
        } else {
            violation("no summary", &tell());
        }
        clean = Some(e);
    }
    let clean = clean.unwrap();

    // with faults
    let calls: Vec<&Call> = clean.calls.iter().filter(|c| c.path != "<stderr>" && "orwtdy".contains(c.class) && c.errno == 0).collect();
    for _ in 0..1 + sched(6) {
        lay_out(&s);
        let mut plan = benign();
        for _ in 0..1 + fault(2) {
            let class = ['o', 'r', 'd', 'y', 't', 'w'][weighted(Stream::Fault, &[4, 4, 2, 2, 1, 2])];
            let of: Vec<&&Call> = calls.iter().filter(|c| c.class == class).collect();
            if of.is_empty() {
                continue;
            }
            let call = of[fault(of.len() as u32) as usize];
            let e = errno_for(class, call.out);
            if class == 'y' || class == 't' && fault(2) == 0 || fault(4) == 0 {
                plan.push(format!("n:{}:{}:e{}", class, call.index, e));
            } else {
                let after = if class == 'r' || class == 'w' { fault(call.result.clamp(0, 1 << 20) as u32 + 1) } else { 0 };
                plan.push(format!("p:{}:{}:{}:{}", class, call.path, after, e));
            }
        }
        fingerprint_bytes(format!("{:?}", plan).as_bytes());
        let e = s.run(&Command1 { bin: "ticc-tests", args: args.clone(), stdin: vec![], plan: plan.clone(), memory: None, cwd: String::new() });
        trace(|| format!("plan {:?}: {}", plan, e.describe()));
        let r = parse(&e);
        observe(e.status.as_bytes());
        observe(format!("{:?}", r.verdicts).as_bytes());
        let delivered: Vec<&Call> = e.calls.iter().filter(|k| k.errno != 0 && (k.what == "once" || k.what == "always") && k.errno != libc::EINTR).collect();
        if !delivered.is_empty() {
            nontrivial();
        }
        let tell = || format!("plan {:?}\nfaults: {:?}\n{}\n{}", plan, delivered, e.describe(), story);
        ensure!(e.status != "hang", "hang", "{}", tell());
        for (k, ok) in &r.verdicts {
            let Some(c) = expected.get(k) else { violation("an unexpected case is reported", &format!("{} is reported\n{}", k, tell())) };
            if !*ok || c.child {
                continue;
            }
            ensure!(c.right, "a wrong case is ok", "{} is ok\n{}", k, tell());
            for d in &delivered {
                // a file that it needs is never fully available
                let of = c.files.iter().any(|f| d.path == format!("/WORLD/p/{}", f));
                if of && d.what == "always" && matches!(d.class, 'o' | 'r' | 'w') {
                    violation(
                        &format!("ok although a file cannot be used: {} {}", class_name(d.class), errno_name(d.errno)),
                        &format!("{} is ok, {}\n{}", k, d.path, tell()),
                    );
                }
            }
        }
        if e.success() {
            let stdout_fault = delivered.iter().any(|d| d.path == "<stdout>" && d.what == "always");
            ensure!(!stdout_fault, "success although nothing can be reported", "{}", tell());
            for k in expected.keys() {
                ensure!(r.verdicts.iter().any(|v| v.0 == **k), "success without all cases", "{} is not reported\n{}", k, tell());
            }
            if !delivered.is_empty() {
                count("successes in spite of faults", 1);
            }
        } else {
            count("failures reported", 1);
        }
    }
    if let Some(m) = known {
        violation("a case with errors in an imported module is ok", &m);
    }
}

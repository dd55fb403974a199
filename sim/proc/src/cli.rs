//! Uses of the command line tool.

use simcore::eval::{Eval, Stop};
use simcore::gen::{interesting_str, Config};
use simcore::lang::{module_path, Program};
use simcore::proc::{Command1, Scratch};
use simcore::world;
use simcore::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Check,
    EmitIr,
    Eval,
    Run,
}

pub struct Use {
    pub files: Vec<(String, Vec<u8>)>,
    pub root: String,
    pub mode: Mode,
    pub args: Vec<String>,
    pub stdin: Vec<u8>,
    /// The file that main's input comes from.
    pub input: Option<String>,
    /// The file that the result goes to; none for standard output.
    pub output: Option<String>,
    /// The result by construction, where it is known.
    pub expected: Option<Vec<u8>>,
}

impl Use {
    pub fn command(&self, plan: Vec<String>) -> Command1 {
        Command1 { bin: "ticc", args: self.args.clone(), stdin: self.stdin.clone(), plan, memory: None, cwd: String::new() }
    }

    pub fn lay_out(&self, s: &Scratch) {
        s.clear();
        for (p, c) in &self.files {
            s.put(p, c);
        }
    }

    /// The files whose contents the tool has to read in full for a result.
    pub fn describe(&self) -> String {
        let mut t = String::new();
        for (p, c) in &self.files {
            let text = String::from_utf8_lossy(c);
            let shown: String = text.chars().take(3000).collect();
            t.push_str(&format!("-- file {} ({} bytes)\n{}\n", p, c.len(), shown));
        }
        t.push_str(&format!("ticc {}", self.args.join(" ")));
        if !self.stdin.is_empty() {
            t.push_str(&format!("\nstandard input: {} bytes", self.stdin.len()));
        }
        t
    }
}

struct Prog {
    files: Vec<(String, Vec<u8>)>,
    root: String,
    /// What `--eval` prints, without the newline at the end.
    values: Option<Vec<u8>>,
    /// What main makes of its input.
    main: Option<Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>>,
}

fn generated(holes: bool) -> Prog {
    let mut cfg = Config::draw();
    cfg.main = cfg.main || gchance(1, 2);
    cfg.budget = *pick(&[40, 80]);
    cfg.holes = holes;
    let has_main = cfg.main;
    let p: Program = simcore::gen::program(cfg);
    let files = (0..p.modules.len()).map(|m| (module_path(m), p.source(m).into_bytes())).collect();
    let root = module_path(p.root());
    let values = {
        let mut ev = Eval::new(&p, 30_000);
        match ev.run() {
            Ok(()) => Some(ev.output().into_bytes()),
            Err(Stop::Fuel) => discard("the program takes too many steps"),
            Err(Stop::Trap(_)) => None,
        }
    };
    let main: Option<Box<dyn Fn(&[u8]) -> Option<Vec<u8>>>> = if has_main {
        Some(Box::new(move |input| {
            let mut ev = Eval::new(&p, 30_000);
            if ev.run().is_err() {
                return None;
            }
            ev.steps = 0;
            match ev.main(input) {
                Ok(o) => Some(o),
                Err(Stop::Fuel) => discard("the program takes too many steps"),
                Err(Stop::Trap(_)) => None,
            }
        }))
    } else {
        None
    };
    Prog { files, root, values, main }
}

/// A module graph in directories.
fn graph() -> Prog {
    let n = gen_range(2, 5) as usize;
    let dirs: Vec<&str> = (0..n).map(|_| *pick(&["", "lib/", "a b/"])).collect();
    let w = world::build(n, &mut |t, i, _| {
        let up = if dirs[i].is_empty() { "" } else { "../" };
        format!("{}{}m{}.tic", up, dirs[t], t)
    });
    let files = w.modules.iter().enumerate().map(|(i, m)| (format!("{}m{}.tic", dirs[i], i), m.source.clone().into_bytes())).collect();
    Prog { files, root: format!("{}m{}.tic", dirs[n - 1], n - 1), values: None, main: None }
}

/// Long strings, in sources, inputs and results.
fn big() -> Prog {
    let unit = *pick(&["abc", "\u{e9}\u{4e16}", "x", "0123456789abcdef", "words and \u{1F600} "]);
    let size = *pick(&[2_000usize, 9_000, 40_000, 140_000]);
    let s = unit.repeat(size / unit.len());
    let lines = gen_range(0, 3);
    let mut src = String::new();
    let mut values = String::new();
    src.push_str("import str from \"std/string\";\n");
    src.push_str(&format!("export let text : string = \"{}\";\n", s));
    let shown: String = s
        .bytes()
        .map(|b| match b {
            32..=126 => (b as char).to_string(),
            _ => format!("\\x{:02x}", b),
        })
        .collect();
    values.push_str(&format!("text = \"{}\"\n", shown));
    for i in 0..lines {
        src.push_str(&format!("-- {}\nexport let n{} : int = {};\n", "comment ".repeat(gen(400) as usize), i, i));
        values.push_str(&format!("n{} = {}\n", i, i));
    }
    src.push_str("export let main : string -> string = \\input -> ");
    let main: Box<dyn Fn(&[u8]) -> Option<Vec<u8>>> = match gen(3) {
        0 => {
            src.push_str("input;\n");
            Box::new(|i| Some(i.to_vec()))
        }
        1 => {
            src.push_str("str.concat input input;\n");
            Box::new(|i| Some([i, i].concat()))
        }
        _ => {
            src.push_str("str.concat text input;\n");
            Box::new(move |i| Some([s.as_bytes(), i].concat()))
        }
    };
    values.push_str("main = \\_ -> _\n");
    Prog { files: vec![("big.tic".into(), src.into_bytes())], root: "big.tic".into(), values: Some(values.into_bytes()), main: Some(main) }
}

/// Texts that may well have errors.
fn damaged() -> Prog {
    let mut p = if gchance(1, 2) { generated(false) } else { graph() };
    let k = gen(p.files.len() as u32) as usize;
    let text = String::from_utf8_lossy(&p.files[k].1).into_owned();
    let text = match gen(4) {
        0 => simcore::text::soup(),
        _ => {
            let n = gen_range(1, 3);
            simcore::text::damage(&text, n)
        }
    };
    p.files[k].1 = text.into_bytes();
    if gchance(1, 10) {
        p.files[k].1.push(0xff);
    }
    p.values = None;
    p.main = None;
    p
}

fn input_bytes() -> Vec<u8> {
    match gweighted(&[3, 3, 2, 2, 1]) {
        0 => interesting_str().into_bytes(),
        1 => {
            let line = interesting_str();
            format!("{}\n{}\r\n{}", line, line, line).into_bytes()
        }
        2 => {
            let unit = *pick(&["line of text\n", "\u{e9}", "0"]);
            unit.repeat(*pick(&[100, 1_000, 20_000])).into_bytes()
        }
        3 => (0..gen(40)).map(|_| *pick(&[b'\n', 0, 255, b'a', b'\r', 0xc3, 0xa9, b'"'])).collect(),
        _ => vec![],
    }
}

impl Use {
    pub fn draw(wild: bool) -> Use {
        let p = match gweighted(&[4, 2, 3, if wild { 4 } else { 1 }]) {
            0 => generated(wild && gchance(1, 3)),
            1 => graph(),
            2 => big(),
            _ => damaged(),
        };
        let mut mode = [Mode::Eval, Mode::Run, Mode::EmitIr, Mode::Check][gweighted(&[3, 3, 2, 1])];
        if mode == Mode::Run && p.main.is_none() && !gchance(1, 8) {
            mode = Mode::Eval;
        }
        let mut files = p.files;
        let mut args = vec![p.root.clone()];
        let mut stdin = Vec::new();
        let mut input = None;
        let mut output = None;
        let mut expected = None;
        let mut extra = Vec::new();
        match mode {
            Mode::Check => extra.push("--check".to_owned()),
            Mode::EmitIr => extra.push("--emit-ir".to_owned()),
            Mode::Eval => {
                extra.push("--eval".to_owned());
                expected = p.values;
            }
            Mode::Run => {
                extra.push("--run".to_owned());
                let bytes = input_bytes();
                expected = p.main.and_then(|m| m(&bytes));
                if gchance(1, 2) {
                    extra.push("-".to_owned());
                    stdin = bytes;
                } else {
                    let name = "input.txt".to_owned();
                    extra.push(name.clone());
                    files.push((name.clone(), bytes));
                    input = Some(name);
                }
            }
        }
        if mode != Mode::Check {
            match gen(4) {
                0 => {
                    extra.push("-o".to_owned());
                    extra.push("-".to_owned());
                }
                1 => {
                    if mode == Mode::EmitIr {
                        let stem = p.root.strip_suffix(".tic").unwrap_or(&p.root);
                        output = Some(format!("{}.cir", stem));
                    }
                }
                _ => {
                    let name = "result.out".to_owned();
                    extra.push("--output".to_owned());
                    extra.push(name.clone());
                    if gchance(1, 3) {
                        // something longer is there already
                        files.push((name.clone(), b"what was there before\n".repeat(*pick(&[1, 100, 20_000]))));
                        probe("the output file exists already");
                    }
                    output = Some(name);
                }
            }
        }
        if matches!(mode, Mode::Eval | Mode::Run) {
            let runner = gen(8);
            match runner {
                1 => extra.extend(["--runner".to_owned(), "bytecode".to_owned()]),
                2 => extra.extend(["--runner".to_owned(), "lambda".to_owned()]),
                3 => extra.extend(["--runner".to_owned(), "treewalk".to_owned()]),
                _ => {}
            }
            if matches!(runner, 2 | 3) || gchance(1, 6) {
                extra.extend(["--stack".to_owned(), "512".to_owned()]);
            }
            if gchance(1, 5) {
                extra.push("--time".to_owned());
            }
        }
        if gchance(1, 4) {
            extra.push("--optimize".to_owned());
        }
        if gchance(1, 8) {
            extra.push("--no-verify".to_owned());
        }
        args.extend(extra);
        if output.is_none() {
            if let Some(e) = &mut expected {
                // printed as text
                *e = String::from_utf8_lossy(e).into_owned().into_bytes();
                e.push(b'\n');
            }
        }
        let u = Use { files, root: p.root, mode, args, stdin, input, output, expected };
        trace(|| u.describe());
        fingerprint_bytes(u.describe().as_bytes());
        u
    }
}

/// Standard error without the time that `--time` prints.
pub fn without_time(b: &[u8]) -> Vec<u8> {
    let s = String::from_utf8_lossy(b);
    s.split_inclusive('\n').filter(|l| !l.starts_with("time: ")).map(without_thread).collect::<String>().into_bytes()
}

/// Panic messages contain the number of the thread.
fn without_thread(l: &str) -> String {
    if let (Some(_), Some(a)) = (l.strip_prefix("thread '"), l.find("' (")) {
        if let Some(n) = l[a..].find(") panicked") {
            return format!("{}{}", &l[..a + 1], &l[a + n + 1..]);
        }
    }
    l.to_owned()
}

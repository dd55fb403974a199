//! C03: an allocation of any size succeeds while memory is available.
//!
//! A run is a straight-line program that builds big strings, wide objects, closures
//! with many captures, partial applications, lists and arrays after a random amount
//! of garbage, with an expected result computed natively along the way.

use crate::common::*;
use simcore::*;
use std::collections::HashMap;
use std::fmt::Write;
use ticc::{Options, Runner};

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded straight-line program of big allocations over a seeded heap size and occupancy, run on the bytecode engine under several heap plans and on the engines without a managed heap; non-trivial if a collection moved a live object; distinct by the hash of program, input and plans",
        assumptions: &["the machine has memory for 16 times the data of a run (a few megabytes)"],
        real: &["ticc compiler and code generator", "ticc-eval bytecode, heap, lambda and treewalk engines"],
        stubs: &["module lookup (in memory)", "the jit engine is not available on Linux"],
        init: warm_up,
        quick_runs: 40_000,
        thorough_runs: 3_000_000,
        quick_secs: 60,
        thorough_secs: 700,
        ..Check::new("C03", body)
    }
}

/// Sizes around the boundaries of the heap: its initial size, multiples of it, and
/// whatever is left of it.
fn size() -> usize {
    match gweighted(&[4, 4, 3, 2, 1]) {
        0 => gen(40) as usize,
        1 => (*pick(&[64u32, 128, 256, 512, 1024, 2048, 4096, 8192]) + gen(80)).saturating_sub(48) as usize,
        2 => gen(3000) as usize,
        3 => gen(40_000) as usize,
        _ => gen(400_000) as usize,
    }
}

fn width() -> usize {
    match gweighted(&[50, 40, 30, 10, 1]) {
        0 => gen_range(1, 8) as usize,
        1 => *pick(&[9usize, 10, 12, 16, 31, 32, 33, 62, 63, 64, 65, 66, 67]),
        2 => gen_range(10, 150) as usize,
        3 => gen_range(150, 400) as usize,
        _ => gen_range(400, 1500) as usize,
    }
}

fn literal(len: usize) -> String {
    let start = gen(26);
    let mut s = String::with_capacity(len);
    if len >= 4 && gchance(1, 4) {
        s.push('日');
    }
    while s.len() < len {
        s.push((b'a' + ((start as usize + s.len() * 7) % 26) as u8) as char);
    }
    s
}

struct Prog {
    types: String,
    body: String,
    /// Strings and integers in scope, with their values.
    strs: Vec<Vec<u8>>,
    ints: Vec<u64>,
    lists: Vec<u64>,
    depth: usize,
    n_types: usize,
    total: usize,
}

impl Prog {
    fn add_str(&mut self, expr: &str, v: Vec<u8>) {
        self.total += v.len();
        writeln!(self.body, "  let s{} = {};", self.strs.len(), expr).unwrap();
        self.strs.push(v);
    }
    fn add_int(&mut self, expr: &str, v: u64) {
        writeln!(self.body, "  let n{} = {};", self.ints.len(), expr).unwrap();
        self.ints.push(v);
    }
    fn some_str(&mut self) -> usize {
        let n = self.strs.len();
        // mostly recent ones
        if gchance(1, 2) { n - 1 } else { gen(n as u32) as usize }
    }
    /// Code for an int that depends on what's in scope, and its value.
    fn atom(&mut self) -> (String, u64) {
        match gweighted(&[2, 3, 2]) {
            0 => {
                let x = simcore::gen::interesting_int();
                (x.to_string(), x)
            }
            1 if !self.ints.is_empty() => {
                let i = gen(self.ints.len() as u32) as usize;
                (format!("n{}", i), self.ints[i])
            }
            _ => {
                let i = self.some_str();
                let at = gen(self.strs[i].len() as u32 + 2) as usize;
                (format!("(str.charAt {} s{})", at, i), self.strs[i].get(at).copied().unwrap_or(0) as u64)
            }
        }
    }
    fn wide(&mut self, n: usize) -> (usize, Vec<Option<u64>>, Vec<Option<usize>>, String) {
        let id = self.n_types;
        self.n_types += 1;
        let mut decl = format!("type W{} = W{}", id, id);
        let mut args = String::new();
        let mut ints = Vec::new();
        let mut strs = Vec::new();
        let str_every = gen_range(2, 9);
        for i in 0..n {
            if i as u32 % str_every == 1 {
                let s = self.some_str();
                decl.push_str(" string");
                write!(args, " s{}", s).unwrap();
                ints.push(None);
                strs.push(Some(s));
            } else {
                let (c, v) = self.atom();
                decl.push_str(" int");
                write!(args, " {}", c).unwrap();
                ints.push(Some(v));
                strs.push(None);
            }
        }
        writeln!(self.types, "{};", decl).unwrap();
        (id, ints, strs, args)
    }
    fn action(&mut self) {
        if self.total > 1_500_000 {
            return;
        }
        let kind = gweighted(&[4, 3, 3, 2, 5, 4, 4, 3, 2, 2]);
        probe(
            ["concat", "doubling", "substring", "literal", "garbage", "wide object", "wide closure", "partial application", "list", "array"]
                [kind],
        );
        match kind {
            0 => {
                let (a, b) = (self.some_str(), self.some_str());
                let v = [&self.strs[a][..], &self.strs[b]].concat();
                if v.len() < 600_000 {
                    self.add_str(&format!("str.concat s{} s{}", a, b), v);
                }
            }
            1 => {
                let a = self.some_str();
                let n = gen_range(1, 9) as usize;
                let mut v = self.strs[a].clone();
                let mut done = 0;
                while done < n && v.len() < 200_000 {
                    v = [&v[..], &v].concat();
                    done += 1;
                }
                self.add_str(&format!("num.iterate {} (\\x -> str.concat x x) s{}", done, a), v);
            }
            2 => {
                let a = self.some_str();
                let len = self.strs[a].len() as u32;
                let (from, n) = (gen(len + 2) as usize, gen(len + 2) as usize);
                let v = &self.strs[a];
                let lo = from.min(v.len());
                let hi = (from + n).min(v.len());
                let v = v[lo..hi].to_vec();
                self.add_str(&format!("str.substring {} {} s{}", from, n, a), v);
            }
            3 => {
                let s = literal(size().min(60_000));
                let v = s.clone().into_bytes();
                self.add_str(&format!("\"{}\"", s), v);
            }
            4 => {
                // leaves garbage behind, so that the heap is filled to some level
                let n = match gweighted(&[3, 3, 1]) {
                    0 => gen(30),
                    1 => gen(400),
                    _ => gen(3000),
                };
                let piece = literal(gen(30) as usize);
                let keep = gen(20);
                let a = self.some_str();
                let mut x = self.strs[a].clone();
                for _ in 0..n {
                    let mut y = piece.clone().into_bytes();
                    y.extend(x.iter().take(keep as usize));
                    x = y;
                }
                self.add_int(
                    &format!(
                        "str.length (num.iterate {} (\\x -> str.concat \"{}\" (str.substring 0 {} x)) s{})",
                        n, piece, keep, a
                    ),
                    x.len() as u64,
                );
            }
            5 | 6 => {
                let n = width();
                let (id, ints, strs, args) = self.wide(n);
                let mut sum = String::from(if kind == 5 { "1" } else { "u" });
                let mut coef = Vec::new();
                let mut value = 0u64;
                for i in 0..n {
                    let k = (i % 7 + 1) as u64;
                    coef.push(k);
                    match (ints[i], strs[i]) {
                        (Some(v), _) => {
                            write!(sum, " + x{} * {}", i, k).unwrap();
                            value = value.wrapping_add(v.wrapping_mul(k));
                        }
                        (_, Some(s)) => {
                            write!(sum, " + str.length x{} * {}", i, k).unwrap();
                            value = value.wrapping_add((self.strs[s].len() as u64).wrapping_mul(k));
                        }
                        _ => unreachable!(),
                    }
                }
                let vars: String = (0..n).map(|i| format!(" x{}", i)).collect();
                if kind == 5 {
                    self.add_int(
                        &format!("match num.iterate {} (\\w -> w) (W{}{}) with | W{}{} -> {} end", gen(3), id, args, id, vars, sum),
                        value.wrapping_add(1),
                    );
                } else {
                    let times = gen_range(1, 3);
                    let start = gen(100) as u64;
                    let v = (0..times).fold(start, |u, _| u.wrapping_add(value));
                    self.add_int(
                        &format!(
                            "match W{}{} with | W{}{} -> let f = \\u -> {}; num.iterate {} f {} end",
                            id, args, id, vars, sum, times, start
                        ),
                        v,
                    );
                }
            }
            7 => {
                let n = width().min(120);
                let mut def = String::new();
                let mut sum = String::from("1");
                let mut args = String::new();
                let mut value = 1u64;
                for i in 0..n {
                    write!(def, "\\a{} -> ", i).unwrap();
                    let k = (i % 5 + 1) as u64;
                    write!(sum, " + a{} * {}", i, k).unwrap();
                    if i + 1 < n {
                        let (c, v) = self.atom();
                        write!(args, " {}", c).unwrap();
                        value = value.wrapping_add(v.wrapping_mul(k));
                    }
                }
                let k = ((n - 1) % 5 + 1) as u64;
                let times = gen_range(1, 3);
                let start = gen(50) as u64;
                let v = (0..times).fold(start, |u, _| value.wrapping_add(u.wrapping_mul(k)));
                self.add_int(&format!("(let g = {}{}; let h = g{}; num.iterate {} h {})", def, sum, args, times, start), v);
            }
            8 => {
                let n = [3u32, 0, 20, 300, 2000][gen(5) as usize] + gen(5);
                let sum = (0..n as u64).sum::<u64>();
                writeln!(self.body, "  let l{} = list.range 0 {};", self.lists.len(), n).unwrap();
                self.lists.push(sum);
            }
            _ => {
                let n = *pick(&[1u64, 4, 5, 17, 100, 300]);
                let at = gen(n as u32) as u64;
                let (c, v) = self.atom();
                let s = self.some_str();
                let len = self.strs[s].len() as u64;
                self.add_int(
                    &format!(
                        "list.sum (list.map str.length (arr.toList (arr.set {} (str.fromChar {}) (arr.new {} s{}))))",
                        at, c, n, s
                    ),
                    {
                        let _ = v;
                        len * (n - 1) + 1
                    },
                );
            }
        }
        self.depth += 1;
    }
}

/// Values and calls nested deeper than any native stack would allow: the engine keeps
/// its stack and its data where there is room.
fn deep() {
    probe("deep values and calls");
    let n = match gweighted(&[2, 3, 2]) {
        0 => gen_range(1, 5000),
        1 => gen_range(20_000, 150_000),
        _ => gen_range(150_000, 500_000),
    } as u64;
    let k = gen(9) as u64 + 1;
    let (types, value, expected) = match gen(6) {
        0 => (
            "type N = Z | S rec;\nlet make : int -> N = \\n -> num.iterate n (\\x -> S x) Z;\n\
             let depth : N -> int = \\fold n -> match n with | Z -> 0 | S r -> 1 + r end;\n"
                .to_owned(),
            format!("depth (make {}) * {}", n, k),
            n * k,
        ),
        1 => (
            "type L = E | C string rec;\nlet make : int -> L = \\n -> num.iterate n (\\x -> C \"abc\" x) E;\n\
             let total : L -> int = \\fold l -> match l with | E -> 0 | C s r -> str.length s + r end;\n"
                .to_owned(),
            format!("total (make {}) + {}", n, k),
            n * 3 + k,
        ),
        2 => (
            // functions that call functions that call functions
            "let make : int -> int -> int = \\n -> num.iterate n (\\f -> \\x -> 1 + f x) (\\x -> x);\n".to_owned(),
            format!("(make {}) {}", n, k),
            n + k,
        ),
        3 => (
            "type N = Z | S rec;\nlet make : int -> N = \\n -> num.iterate n (\\x -> S x) Z;\n\
             let count : N -> int -> int = \\fold n -> match n with | Z -> (\\a -> a) | S r -> (\\a -> r (a + 1) + 1) end;\n"
                .to_owned(),
            format!("count (make {}) {}", n, k),
            n * 2 + k,
        ),
        4 => (
            "type T = Leaf | Node rec int rec;\n\
             let left : int -> T = \\n -> num.iterate n (\\t -> Node t 1 Leaf) Leaf;\n\
             let right : int -> T = \\n -> num.iterate n (\\t -> Node (Node Leaf 2 Leaf) 1 t) Leaf;\n\
             let sum : T -> int = \\fold t -> match t with | Leaf -> 0 | Node a x b -> a + x + b end;\n"
                .to_owned(),
            format!("sum (left {}) + sum (right {})", n, k),
            n + 3 * k,
        ),
        _ => (
            "let join : list.List int -> list.List int = \\l -> list.map (\\x -> x + 1) l;\n".to_owned(),
            format!("list.sum (join (list.range 0 {})) + {}", n, k),
            n * (n + 1) / 2 + k,
        ),
    };
    let src = format!(
        "import str from \"std/string\";\nimport num from \"std/int\";\nimport list from \"std/list\";\n{}\
         export let main : string -> string = \\s -> str.concat s (num.toString ({}));\nlet _keep = list.sum;\n",
        types, value
    );
    trace(|| src.clone());
    fingerprint_bytes(src.as_bytes());
    let options = Options { verify: false, optimize: sched(2) == 0 };
    let r = Resolver::new(HashMap::from([("m".to_owned(), src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, src));
    }
    let plan = GcPlan::draw_for_sizes(n);
    trace(|| plan.describe());
    fingerprint_bytes(plan.describe().as_bytes());
    let (got, _) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, b"="));
    check_main("bytecode", format!("={}", expected).as_bytes(), got, &src);
}

/// Strings of many megabytes, past the sizes that fit in fewer bits.
fn huge() {
    probe("strings of megabytes");
    let base = literal(gen_range(1, 40) as usize).into_bytes();
    let mut k = match gweighted(&[3, 3, 2]) {
        0 => gen_range(8, 16),
        1 => gen_range(16, 20),
        _ => gen_range(20, 24),
    };
    // the program keeps several copies alive and a heap four times as large
    // as what it keeps, which has to fit in the memory a run is given
    while (base.len() as u64) << k > 1 << 25 {
        k -= 1;
    }
    let n = (base.len() as u64) << k;
    let at = |i: u64| if i < n { base[(i % base.len() as u64) as usize] as u64 } else { 0 };
    let mut code = String::new();
    let mut expected = Vec::new();
    for _ in 0..gen_range(1, 6) {
        let i = match gen(4) {
            0 => n - 1 - gen(20).min(n as u32 - 1) as u64,
            1 => n + gen(20) as u64,
            2 => ((1u64 << gen(32)) + gen(4) as u64).saturating_sub(2),
            _ => gen(n as u32) as u64,
        };
        match gen(4) {
            0 => {
                writeln!(code, "  let r{} = str.charAt {} s;", expected.len(), i).unwrap();
                expected.push(at(i));
            }
            1 => {
                let len = gen(n as u32 + 40) as u64;
                let j = gen(n as u32) as u64;
                let got = n.saturating_sub(i).min(len);
                writeln!(code, "  let t{} = str.substring {} {} s;", expected.len(), i, len).unwrap();
                writeln!(code, "  let r{} = str.length t{} * 256 + str.charAt {} t{};", expected.len(), expected.len(), j, expected.len()).unwrap();
                expected.push(got * 256 + if j < got { at(i + j) } else { 0 });
            }
            2 => {
                writeln!(code, "  let t{} = str.concat s (str.concat \"xyz\" s);", expected.len()).unwrap();
                writeln!(code, "  let r{} = str.length t{} * 256 + str.charAt {} t{};", expected.len(), expected.len(), n + 3, expected.len()).unwrap();
                expected.push((n * 2 + 3) * 256 + at(0));
            }
            _ => {
                writeln!(code, "  let r{} = str.length s;", expected.len()).unwrap();
                expected.push(n);
            }
        }
    }
    let sum = (0..expected.len()).map(|i| format!("str.concat \" \" (num.toString r{})", i)).collect::<Vec<_>>();
    let mut result = "\"=\"".to_owned();
    for s in &sum {
        result = format!("str.concat ({}) ({})", result, s);
    }
    let src = format!(
        "import str from \"std/string\";\nimport num from \"std/int\";\n\
         export let main : string -> string = \\input ->\n  let s = num.iterate {} (\\x -> str.concat x x) input;\n{}  {};\n\
         let _keep = str.substring;\n",
        k, code, result
    );
    let want = expected.iter().fold("=".to_owned(), |a, x| format!("{} {}", a, x));
    trace(|| src.clone());
    fingerprint_bytes(src.as_bytes());
    let options = Options { verify: false, optimize: sched(2) == 0 };
    let r = Resolver::new(HashMap::from([("m".to_owned(), src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, src));
    }
    let plan = GcPlan::draw_for_sizes(n);
    trace(|| plan.describe());
    fingerprint_bytes(plan.describe().as_bytes());
    let (got, _) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, &base));
    check_main("bytecode", want.as_bytes(), got, &src);
}

fn body() {
    if gchance(1, 60) {
        return deep();
    }
    if gchance(1, 80) {
        return huge();
    }
    let input = literal(size()).into_bytes();
    let mut p = Prog {
        types: String::new(),
        body: String::new(),
        strs: vec![input.clone()],
        ints: vec![],
        lists: vec![],
        depth: 0,
        n_types: 0,
        total: 0,
    };
    for _ in 0..gen_range(1, 10) {
        p.action();
    }
    // everything is used at the end, so that it stays alive until then
    let mut out = Vec::new();
    let mut e = String::from("\"\"");
    let whole = gchance(1, 3);
    for (i, s) in p.strs.iter().enumerate() {
        if whole {
            e = format!("str.concat ({}) s{}", e, i);
            out.extend_from_slice(s);
        } else {
            let at = gen(s.len() as u32 + 1) as usize;
            e = format!(
                "str.concat ({}) (str.concat (num.toString (str.length s{})) (str.concat \":\" (str.substring {} 5 s{})))",
                e, i, at, i
            );
            out.extend_from_slice(s.len().to_string().as_bytes());
            out.push(b':');
            out.extend(s.iter().skip(at).take(5));
        }
    }
    for (i, n) in p.ints.iter().enumerate() {
        e = format!("str.concat ({}) (str.concat \" \" (num.toString n{}))", e, i);
        out.extend_from_slice(format!(" {}", n).as_bytes());
    }
    for (i, n) in p.lists.iter().enumerate() {
        e = format!("str.concat ({}) (num.toString (list.sum l{}))", e, i);
        out.extend_from_slice(n.to_string().as_bytes());
    }
    // as the result of main, and as an exported value
    let src = format!(
        "import str from \"std/string\";\nimport num from \"std/int\";\nimport list from \"std/list\";\nimport arr from \"std/array\";\n{}\
        let work : string -> string = \\s0 ->\n{}  {};\n\
        export let main : string -> string = \\s -> work s;\n\
        export let value : string = work \"{}\";\n",
        p.types,
        p.body,
        e,
        std::str::from_utf8(&input).unwrap()
    );
    trace(|| format!("{}\n-- input: {} bytes", src, input.len()));
    fingerprint_bytes(src.as_bytes());
    observe(&out);

    let options = Options { verify: false, optimize: sched(2) == 0 };
    let r = Resolver::new(HashMap::from([("m".to_owned(), src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, src));
    }
    let value_text = format!("{:?}", TicStr(&out));
    let mut allocs = 0;
    for round in 0..1 + sched(3) {
        let plan = GcPlan::draw_for_sizes(allocs);
        trace(|| plan.describe());
        fingerprint_bytes(plan.describe().as_bytes());
        let main = round == 0 || sched(2) == 0;
        if main {
            let (got, log) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, &input));
            allocs = log.allocs;
            if log.max_alloc > 256 {
                probe("allocation bigger than the default heap");
            }
            check_main("bytecode", &out, got, &src);
        } else {
            let (got, _) = with_plan(plan, || interpret(&mut unit, Runner::Bytecode));
            match got {
                Ok(g) => ensure!(
                    g.contains(&value_text) || !value_text.is_ascii(),
                    "wrong result: bytecode",
                    "expected value = {}, got {}\n{}",
                    value_text, g, src
                ),
                Err(m) => violation("unexpected trap: bytecode", &format!("{}\n{}", m, src)),
            }
        }
    }
    if sched(4) == 0 {
        for r in [Runner::Lambda, Runner::Treewalk] {
            check_main(&engine_name(r), &out, interpret_main(&mut unit, r, &input), &src);
        }
    }
}

struct TicStr<'a>(&'a [u8]);

impl std::fmt::Debug for TicStr<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "\"{}\"", String::from_utf8_lossy(self.0))
    }
}

pub fn check_main(engine: &str, expected: &[u8], got: Result<Vec<u8>, String>, src: &str) {
    match got {
        Ok(g) => {
            if g != expected {
                let at = g.iter().zip(expected).take_while(|(a, b)| a == b).count();
                violation(
                    &format!("wrong result: {}", engine),
                    &format!(
                        "{} gives {} bytes instead of {}, the first difference is at {}\n{}",
                        engine, g.len(), expected.len(), at, src
                    ),
                );
            }
        }
        Err(m) => violation(&format!("unexpected trap: {}", engine), &format!("{}: {}\n{}", engine, m, src)),
    }
}

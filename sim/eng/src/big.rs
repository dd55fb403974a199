//! Programs that are big rather than deep: hundreds of constructors, branches,
//! captured values, constants and definitions, and results known by construction.

use simcore::*;
use std::fmt::Write;

pub struct Big {
    pub src: String,
    pub input: Vec<u8>,
    pub output: String,
    /// About how many allocations there are.
    pub allocs: u64,
}

fn many(small: u32, large: u32) -> usize {
    match gweighted(&[2, 2, 2, 2]) {
        0 => gen_range(1, small) as usize,
        1 => gen_range(60, 70.min(large)) as usize,
        2 => gen_range(250, 262.max(250)).min(large) as usize,
        _ => gen_range(small, large) as usize,
    }
}

#[derive(Clone, Copy)]
enum Field {
    Int,
    Str,
}

/// An expression over an int variable and its value, of about `terms` operations.
fn arithmetic(var: &str, v: u64, terms: usize) -> (String, u64) {
    let mut s = String::new();
    let mut r = 0u64;
    for i in 0..terms {
        if i > 0 {
            s.push_str(" + ");
        }
        let k = gen(100_000) as u64;
        match gen(3) {
            0 => {
                write!(s, "{}", k).unwrap();
                r = r.wrapping_add(k);
            }
            1 => {
                write!(s, "{} * {}", var, k).unwrap();
                r = r.wrapping_add(v.wrapping_mul(k));
            }
            _ => {
                write!(s, "({} - {})", var, k).unwrap();
                r = r.wrapping_add(v.wrapping_sub(k));
            }
        }
    }
    (s, r)
}

pub fn program() -> Big {
    let input: Vec<u8> = (0..gen_range(1, 60)).map(|_| b'a' + gen(26) as u8).collect();
    let n = input.len() as u64;
    let mut src = "import str from \"std/string\";\nimport num from \"std/int\";\n".to_owned();
    let mut body = String::new();
    let mut results: Vec<u64> = Vec::new();
    writeln!(body, "  let n = str.length input;").unwrap();

    // constructors and branches
    let ctors = many(20, 700);
    let fields: Vec<Vec<Field>> = (0..ctors)
        .map(|_| match gen(5) {
            0 | 1 => vec![],
            2 => vec![Field::Int],
            3 => vec![Field::Str],
            _ => vec![Field::Str, Field::Int],
        })
        .collect();
    src.push_str("type E =");
    for (i, f) in fields.iter().enumerate() {
        write!(src, " {}K{}", if i > 0 { "| " } else { "" }, i).unwrap();
        for f in f {
            src.push_str(match f {
                Field::Int => " int",
                Field::Str => " string",
            });
        }
    }
    src.push_str(";\n");
    let terms = *pick(&[1usize, 1, 2, 8, 60, 120]);
    // values of the branches as functions of the fields
    let mut order: Vec<usize> = (0..ctors).collect();
    if gchance(1, 2) {
        for i in (1..order.len()).rev() {
            order.swap(i, gen(i as u32 + 1) as usize);
        }
    }
    // the ones that will be used, with the values of their fields
    let uses: Vec<(usize, u64, Vec<u8>)> = (0..gen_range(1, 8))
        .map(|_| {
            let c = if gchance(1, 2) { ctors - 1 - gen(ctors.min(10) as u32) as usize } else { gen(ctors as u32) as usize };
            (c, gen(1000) as u64, (0..gen(20)).map(|_| b'a' + gen(26) as u8).collect())
        })
        .collect();
    let mut value_of: std::collections::HashMap<(usize, u64), u64> = Default::default();
    write!(src, "let code : E -> int -> int = \\e -> \\z -> match e with").unwrap();
    for &c in &order {
        write!(src, " | K{}", c).unwrap();
        let mut var = "z";
        for f in &fields[c] {
            match f {
                Field::Int => {
                    src.push_str(" a");
                    var = "a";
                }
                Field::Str => src.push_str(" s"),
            }
        }
        // the same draws for each value that is needed: the expression is linear
        let (text, at0) = arithmetic(var, 0, terms);
        // coefficient of the variable
        let coefficient = text
            .split(" + ")
            .map(|t| match (t.contains('*'), t.contains('(')) {
                (true, _) => t.split(' ').last().unwrap().parse::<u64>().unwrap(),
                (_, true) => 1,
                _ => 0,
            })
            .fold(0u64, |a, b| a.wrapping_add(b));
        let mut text = text;
        if fields[c].iter().any(|f| matches!(f, Field::Str)) {
            text.push_str(" + str.length s");
        }
        write!(src, " -> {}", text).unwrap();
        for (i, (u, a, s)) in uses.iter().enumerate() {
            if *u == c {
                let x = if fields[c].iter().any(|f| matches!(f, Field::Int)) { *a } else { n.wrapping_add(i as u64) };
                let s = if fields[c].iter().any(|f| matches!(f, Field::Str)) { s.len() as u64 + n } else { 0 };
                value_of.insert((c, i as u64), at0.wrapping_add(coefficient.wrapping_mul(x)).wrapping_add(s));
            }
        }
    }
    src.push_str(" end;\n");

    // captured values
    let captures = many(10, 500);
    let mut sum = 0u64;
    let mut names = Vec::new();
    for i in 0..captures {
        if gchance(1, 3) {
            let lit: String = (0..gen(6)).map(|_| (b'a' + gen(26) as u8) as char).collect();
            writeln!(body, "  let v{} = str.concat input \"{}{}\";", i, lit, i).unwrap();
            let v = [&input[..], lit.as_bytes(), i.to_string().as_bytes()].concat();
            let at = gen(v.len() as u32 + 1) as usize;
            names.push(format!("str.length v{} * str.charAt {} v{}", i, at, i));
            sum = sum.wrapping_add((v.len() as u64).wrapping_mul(v.get(at).copied().unwrap_or(0) as u64));
        } else {
            let (t, v) = arithmetic("n", n, 2);
            writeln!(body, "  let v{} = {};", i, t).unwrap();
            names.push(format!("v{}", i));
            sum = sum.wrapping_add(v);
        }
    }
    if gchance(1, 2) {
        for i in (1..names.len()).rev() {
            names.swap(i, gen(i as u32 + 1) as usize);
        }
    }
    writeln!(body, "  let f = \\z ->").unwrap();
    for (i, c) in names.chunks(20).enumerate() {
        writeln!(body, "    let w{} = {}{};", i, if i > 0 { format!("w{} + ", i - 1) } else { "z + ".to_owned() }, c.join(" + ")).unwrap();
    }
    writeln!(body, "    w{};", names.chunks(20).len() - 1).unwrap();

    // definitions and constants of the module
    let defs = many(10, 300);
    for i in 0..defs {
        match gen(3) {
            0 => writeln!(src, "let d{} : string = \"text number {}\";", i, i * 7).unwrap(),
            1 => writeln!(src, "let d{} : int -> int = \\x -> x + {};", i, i * 5).unwrap(),
            _ => writeln!(src, "let d{} : int -> int = \\x -> if x < {} then x + {} else x + {};", i, 50, i * 5, i * 5 + 1).unwrap(),
        }
    }
    let is_text: Vec<bool> = (0..defs).map(|i| src.contains(&format!("let d{} : string", i))).collect();
    let is_conditional: Vec<bool> = (0..defs).map(|i| src.contains(&format!("let d{} : int -> int = \\x -> if", i))).collect();
    let allocs = 60 + captures as u64 * 2 + defs as u64;
    for _ in 0..gen_range(1, 4) {
        let times = gen_range(1, 60);
        writeln!(body, "  let g{} = str.length (num.iterate {} (\\t -> str.concat (str.substring 0 30 t) input) \"\");", results.len(), times).unwrap();
        let mut len = 0u64;
        for _ in 0..times {
            len = len.min(30) + n;
        }
        match gen(2) {
            0 => {
                let z = gen(1000) as u64;
                writeln!(body, "  let r{} = f {} + g{};", results.len(), z, results.len()).unwrap();
                results.push(sum.wrapping_add(z).wrapping_add(len));
            }
            _ => {
                let d = gen(defs as u32) as usize;
                if is_text[d] {
                    writeln!(body, "  let r{} = str.length d{} + g{};", results.len(), d, results.len()).unwrap();
                    results.push(format!("text number {}", d * 7).len() as u64 + len);
                } else {
                    writeln!(body, "  let r{} = d{} g{};", results.len(), d, results.len()).unwrap();
                    results.push(len + d as u64 * 5 + (is_conditional[d] && len >= 50) as u64);
                }
            }
        }
    }
    for (i, (c, a, s)) in uses.iter().enumerate() {
        let mut e = format!("K{}", c);
        for f in &fields[*c] {
            match f {
                Field::Int => write!(e, " {}", a).unwrap(),
                Field::Str => write!(e, " (str.concat \"{}\" input)", String::from_utf8_lossy(s)).unwrap(),
            }
        }
        writeln!(body, "  let r{} = code ({}) (n + {});", results.len(), e, i).unwrap();
        results.push(value_of[&(*c, i as u64)]);
    }
    writeln!(body, "  let r{} = f 0;", results.len()).unwrap();
    results.push(sum);
    let mut e = "\"=\"".to_owned();
    for i in 0..results.len() {
        e = format!("str.concat ({}) (str.concat \" \" (num.toString r{}))", e, i);
    }
    write!(src, "export let main : string -> string = \\input ->\n{}  {};\n", body, e).unwrap();
    let output = results.iter().fold("=".to_owned(), |a, r| format!("{} {}", a, r));
    Big { src, input, output, allocs }
}

//! C24: the standard library's functions give what their names and types promise.
//!
//! A run is a history of calls on a growing set of values: every result is kept and may
//! be an argument of later calls, so that old versions of lists and arrays are used side
//! by side with newer ones. All of them are shown at the end, and what they should be is
//! computed natively, with the contracts of the functions alone.

use crate::common::*;
use simcore::gen::interesting_int;
use simcore::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write;
use ticc::{Options, Runner};

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded history of calls of library functions with values that are kept, run on the bytecode engine under several heap plans and, if it is small, on the engines without a managed heap; non-trivial if a collection moved a live object; distinct by the hash of program, input and plans",
        assumptions: &["where names and types leave a choice (the order of equal elements, numerals over 64 bits, a last line that ends in a carriage return, ranges that run downwards) nothing is demanded"],
        real: &["standard library", "ticc compiler, code generator and optimiser", "ticc-eval bytecode, heap, lambda and treewalk engines"],
        stubs: &["module lookup (in memory)", "the jit engine is not available on Linux"],
        init: warm_up,
        quick_runs: 40_000,
        thorough_runs: 3_000_000,
        quick_secs: 80,
        thorough_secs: 700,
        ..Check::new("C24", body)
    }
}

#[derive(Clone, Debug, PartialEq)]
enum E {
    I(u64),
    S(Vec<u8>),
}

#[derive(Clone, Debug)]
struct Arr {
    len: u64,
    default: E,
    other: BTreeMap<u64, E>,
    strs: bool,
}

impl Arr {
    fn get(&self, i: u64) -> Option<E> {
        (i < self.len).then(|| self.other.get(&i).unwrap_or(&self.default).clone())
    }
    fn list(&self) -> Vec<E> {
        (0..self.len).map(|i| self.get(i).unwrap()).collect()
    }
}

#[derive(Clone, Debug)]
enum V {
    I(u64),
    B(bool),
    S(Vec<u8>),
    /// Of numbers.
    L(Vec<u64>),
    /// Of strings.
    LS(Vec<Vec<u8>>),
    O(Option<u64>),
    A(Arr),
}

const MAX_LIST: usize = 3000;
const MAX_STR: usize = 4000;

const PRELUDE: &str = r#"import i from "std/intrinsics";
import opt from "std/option";
import res from "std/result";
import list(List, Nil, Cons) from "std/list";
import str from "std/string";
import num from "std/int";
import arr from "std/array";
let cat : string -> string -> string = \a -> \b -> i.stringConcat a b;
let showI : int -> string = \x -> cat (i.intToString x) ";";
let showB : bool -> string = \b -> if b then "yes;" else "no;";
let showS : string -> string = \s -> cat (showI (i.stringLength s)) (cat s ";");
let showO : opt.Option int -> string = \o -> match o with | opt.None -> "-;" | opt.Some x -> showI x end;
let showOS : opt.Option string -> string = \o -> match o with | opt.None -> "-;" | opt.Some x -> showS x end;
let count : List a -> int = \fold l -> match l with | Nil -> 0 | Cons _ r -> r + 1 end;
let every : (a -> string) -> List a -> string = \f -> \fold l -> match l with | Nil -> "." | Cons x r -> cat (f x) r end;
let mix : (a -> int) -> List a -> int -> int = \f -> \fold l -> \h -> match l with | Nil -> h | Cons x r -> r (h * 1000003 + f x + 1) end;
type H = H int int;
let hash : string -> int = \s -> match i.iterate (i.stringLength s) (\h -> match h with | H at h -> H (at + 1) (h * 31 + i.stringCharAt at s) end) (H 0 7) with | H _ h -> h end;
let showL : List int -> string = \l -> if count l <= 20 then every showI l else cat (showI (count l)) (showI (mix (\x -> x) l 7));
let showLS : List string -> string = \l -> if count l <= 20 then every showS l else cat (showI (count l)) (showI (mix hash l 7));
"#;

fn hash(s: &[u8]) -> u64 {
    s.iter().fold(7, |h: u64, b| h.wrapping_mul(31).wrapping_add(*b as u64))
}

fn show_e(e: &E) -> Vec<u8> {
    match e {
        E::I(x) => format!("{};", x).into_bytes(),
        E::S(s) => [format!("{};", s.len()).as_bytes(), s, b";"].concat(),
    }
}

fn show_list(l: &[E]) -> Vec<u8> {
    if l.len() <= 20 {
        let mut out: Vec<u8> = l.iter().flat_map(show_e).collect();
        out.push(b'.');
        return out;
    }
    let h = l.iter().fold(7u64, |h, x| {
        let x = match x {
            E::I(x) => *x,
            E::S(s) => hash(s),
        };
        h.wrapping_mul(1000003).wrapping_add(x).wrapping_add(1)
    });
    format!("{};{};", l.len(), h).into_bytes()
}

fn show_o(o: Option<E>) -> Vec<u8> {
    o.map_or(b"-;".to_vec(), |e| show_e(&e))
}

fn fib(n: u32) -> u64 {
    let (mut a, mut b) = (0u64, 1u64);
    for _ in 0..n {
        (a, b) = (b, a.wrapping_add(b));
    }
    a
}

fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// A function from int to int as text, and what it does.
fn int_fn() -> (String, Box<dyn Fn(u64) -> u64>) {
    let (a, b) = (interesting_int(), interesting_int());
    match gen(4) {
        0 => (format!("(\\x -> x * {} + {})", a, b), Box::new(move |x| x.wrapping_mul(a).wrapping_add(b))),
        1 => (format!("(\\x -> x % {})", a), Box::new(move |x| if a == 0 { x } else { x % a })),
        2 => (format!("(\\x -> x / {} - {})", a, b), Box::new(move |x| (if a == 0 { 0 } else { x / a }).wrapping_sub(b))),
        _ => (format!("(\\_ -> {})", a), Box::new(move |_| a)),
    }
}

fn predicate() -> (String, Box<dyn Fn(u64) -> bool>) {
    let (k, j) = (gen_range(1, 9) as u64, gen(9) as u64);
    let x = interesting_int();
    match gen(4) {
        0 => (format!("x % {} < {}", k, j), Box::new(move |x| x % k < j)),
        1 => (format!("x < {}", x), Box::new(move |y| y < x)),
        2 => (format!("x == {}", x), Box::new(move |y| y == x)),
        _ => (if j < 5 { "true" } else { "false" }.into(), Box::new(move |_| j < 5)),
    }
}

fn array_size() -> u64 {
    match gweighted(&[6, 6, 1, 1]) {
        0 => gen(10) as u64,
        1 => {
            let p = *pick(&[4u64, 4, 16, 16, 64, 64, 256, 1024, 4096]);
            (p * gen_range(1, 4) as u64 + gen(5) as u64).saturating_sub(2)
        }
        2 => (1u64 << gen(64)).wrapping_add(gen(5) as u64).wrapping_sub(2),
        _ => interesting_int(),
    }
}

struct History {
    body: String,
    vars: Vec<V>,
    /// The biggest size of anything so far.
    biggest: usize,
    work: u64,
}

impl History {
    fn add(&mut self, expr: String, v: V) {
        let size = match &v {
            V::S(s) => s.len(),
            V::L(l) => l.len(),
            V::LS(l) => l.iter().map(|s| s.len() + 1).sum(),
            _ => 1,
        };
        self.biggest = self.biggest.max(size);
        self.work += size as u64 * 12 + 20;
        writeln!(self.body, "  let v{} = {};", self.vars.len(), expr).unwrap();
        self.vars.push(v);
    }

    fn some(&self, ok: impl Fn(&V) -> bool) -> Option<usize> {
        let all: Vec<usize> = (0..self.vars.len()).filter(|i| ok(&self.vars[*i])).collect();
        let n = all.len() as u32;
        match n {
            0 => None,
            _ if gchance(1, 2) => Some(all[(n - 1 - gen(n.min(3))) as usize]),
            _ => Some(all[gen(n) as usize]),
        }
    }

    fn int(&self) -> (String, u64) {
        if gchance(1, 2) {
            if let Some(i) = self.some(|v| matches!(v, V::I(_))) {
                let V::I(x) = self.vars[i] else { unreachable!() };
                return (format!("v{}", i), x);
            }
        }
        let x = interesting_int();
        (x.to_string(), x)
    }

    fn index(&self, len: u64) -> (String, u64) {
        let x = match gen(8) {
            0 => 0,
            1 => len.wrapping_sub(1),
            2 => len,
            3 => (4u64.wrapping_pow(gen(32)).wrapping_mul(gen(4) as u64)).wrapping_add(gen(3) as u64).wrapping_sub(1),
            4 => interesting_int(),
            5 if len > 0 => len - 1 - (gen(5) as u64).min(len - 1),
            _ if len > 0 => ((gen(u32::MAX) as u64) << 32 | gen(u32::MAX) as u64) % len,
            _ => gen(4) as u64,
        };
        (x.to_string(), x)
    }

    fn str(&self) -> (String, Vec<u8>) {
        if let (true, Some(i)) = (gchance(5, 6), self.some(|v| matches!(v, V::S(_)))) {
            let V::S(s) = &self.vars[i] else { unreachable!() };
            return (format!("v{}", i), s.clone());
        }
        let s = simcore::gen::interesting_str();
        if s.contains(['"', '\n', '\\']) {
            return ("\"\"".into(), vec![]);
        }
        (format!("\"{}\"", s), s.into_bytes())
    }

    fn list(&self) -> (String, Vec<u64>) {
        match self.some(|v| matches!(v, V::L(_))) {
            Some(i) => {
                let V::L(l) = &self.vars[i] else { unreachable!() };
                (format!("v{}", i), l.clone())
            }
            None => ("(list.range 3 7)".into(), vec![3, 4, 5, 6]),
        }
    }

    fn strs(&self) -> (String, Vec<Vec<u8>>) {
        match self.some(|v| matches!(v, V::LS(_))) {
            Some(i) => {
                let V::LS(l) = &self.vars[i] else { unreachable!() };
                (format!("v{}", i), l.clone())
            }
            None => ("(Cons \"one\" (Cons \"\" Nil))".into(), vec![b"one".to_vec(), vec![]]),
        }
    }

    fn option(&self) -> (String, Option<u64>) {
        match self.some(|v| matches!(v, V::O(_))) {
            Some(i) => {
                let V::O(o) = &self.vars[i] else { unreachable!() };
                (format!("v{}", i), *o)
            }
            None if gchance(1, 2) => ("opt.None".into(), None),
            None => {
                let (t, x) = self.int();
                (format!("(opt.Some {})", t), Some(x))
            }
        }
    }

    fn number(&mut self) {
        let (mut at, mut a) = self.int();
        let (mut bt, mut b) = self.int();
        if gchance(1, 3) {
            // with common factors, or as different as they can be
            let k = gen_range(1, 1000) as u64;
            (a, b) = match gen(4) {
                0 => {
                    let n = gen_range(1, 92);
                    (fib(n + 1), fib(n))
                }
                1 => {
                    let n = gen_range(1, 92);
                    (fib(n), fib(n + 1))
                }
                2 => (k.wrapping_mul(gen(100_000) as u64), k.wrapping_mul(gen(100_000) as u64)),
                _ => (1 << gen(64), (1u64 << gen(64)).wrapping_sub(gen(2) as u64)),
            };
            (at, bt) = (a.to_string(), b.to_string());
        }
        let (name, r) = match gen(7) {
            0 => ("min", a.min(b)),
            1 => ("max", a.max(b)),
            2 => ("gcd", gcd(a, b)),
            3 => {
                let g = gcd(a, b);
                ("lcm", if g == 0 { 0 } else { (a / g).wrapping_mul(b) })
            }
            4 => ("bitXor", a ^ b),
            5 => ("bitAnd", a & b),
            _ => ("bitOr", a | b),
        };
        probe(&format!("num.{}", name));
        self.work += 400;
        self.add(format!("num.{} {} {}", name, at, bt), V::I(r));
    }

    fn string(&mut self) {
        let (st, s) = self.str();
        match gen(15) {
            0 => self.add(format!("str.length {}", st), V::I(s.len() as u64)),
            1 | 2 => {
                let (tt, t) = self.str();
                if s.len() + t.len() <= MAX_STR {
                    self.add(format!("str.concat {} {}", st, tt), V::S([s, t].concat()));
                }
            }
            3 => {
                let (it, i) = self.index(s.len() as u64);
                let c = if i < s.len() as u64 { s[i as usize] } else { 0 };
                self.add(format!("str.charAt {} {}", it, st), V::I(c as u64));
            }
            4 => {
                let (it, i) = self.index(s.len() as u64);
                let (nt, n) = self.index(s.len() as u64);
                let from = i.min(s.len() as u64) as usize;
                let to = (i as u128 + n as u128).min(s.len() as u128) as usize;
                self.add(format!("str.substring {} {} {}", it, nt, st), V::S(s[from..to.max(from)].to_vec()));
            }
            5 | 6 => {
                let c = if gchance(1, 8) { interesting_int() } else { s.get(gen(s.len() as u32 + 1) as usize).map_or(44, |b| *b as u64) };
                let l = s.split(|b| *b as u64 == c).map(|p| p.to_vec()).collect();
                probe("str.split");
                self.add(format!("str.split {} {}", c, st), V::LS(l));
            }
            7 => {
                if s.ends_with(b"\r") {
                    return;
                }
                let mut l: Vec<Vec<u8>> = s.split(|b| *b == b'\n').map(|p| p.strip_suffix(b"\r").unwrap_or(p).to_vec()).collect();
                if l.last().map_or(false, |p| p.is_empty()) {
                    l.pop();
                }
                probe("str.lines");
                self.add(format!("str.lines {}", st), V::LS(l));
            }
            8 => {
                let r = s.iter().fold(5u64, |a, b| a.wrapping_mul(33).wrapping_add(*b as u64));
                self.add(format!("str.foldChars 5 (\\a -> \\c -> a * 33 + c) {}", st), V::I(r));
            }
            9 => {
                // with itself, built again, with one byte changed, or with another one
                let (tt, t) = match gen(4) {
                    0 => (st.clone(), s.clone()),
                    1 => (format!("(str.concat (str.substring 0 3 {}) (str.substring 3 {} {}))", st, u64::MAX, st), s.clone()),
                    2 if !s.is_empty() => {
                        let at = gen(s.len() as u32) as usize;
                        let mut t = s.clone();
                        t[at] = t[at].wrapping_add(1 << gen(8));
                        (
                            format!(
                                "(str.concat (str.substring 0 {} {}) (str.concat (str.fromChar {}) (str.substring {} {} {})))",
                                at, st, t[at], at + 1, s.len(), st
                            ),
                            t,
                        )
                    }
                    _ => self.str(),
                };
                probe(if s == t { "str.equal of equal ones" } else { "str.equal of different ones" });
                self.add(format!("str.equal {} {}", st, tt), V::B(s == t));
            }
            10 => {
                let n = gen(s.len() as u32 + 2) as usize;
                let (tt, t) = if gchance(1, 2) { (format!("(str.substring 0 {} {})", n, st), s[..n.min(s.len())].to_vec()) } else { self.str() };
                self.add(format!("str.startsWith {} {}", tt, st), V::B(s.starts_with(&t)));
            }
            11 => {
                if s.len() <= MAX_LIST {
                    self.add(format!("str.chars {}", st), V::L(s.iter().map(|b| *b as u64).collect()));
                }
            }
            12 => {
                let end = s.iter().rposition(|b| *b != b' ').map_or(0, |i| i + 1);
                let start = s[..end].iter().position(|b| *b != b' ').unwrap_or(end);
                self.add(format!("str.trim {}", st), V::S(s[start..end].to_vec()));
            }
            13 => {
                let (it, x) = self.int();
                if gchance(1, 2) {
                    self.add(format!("str.concat str.newline (str.fromChar {})", it), V::S(vec![10, x as u8]));
                } else {
                    self.add(format!("num.toString {}", it), V::S(x.to_string().into_bytes()));
                }
            }
            _ => {
                let (st, s) = match gen(3) {
                    0 => {
                        let (it, x) = self.int();
                        let zeros = "0".repeat(gen(4) as usize);
                        (format!("(str.concat \"{}\" (num.toString {}))", zeros, it), format!("{}{}", zeros, x).into_bytes())
                    }
                    1 => {
                        let c = *pick(&[47u8, 48, 57, 58, 0, 32, 45, 43]);
                        (format!("(str.concat \"1{}\" (str.fromChar {}))", "9".repeat(gen(4) as usize), c), vec![])
                    }
                    _ => (st, s),
                };
                // what the text above is
                let s = if s.is_empty() && st.starts_with("(str.concat \"1") {
                    let nines = st.matches('9').count();
                    let c: u8 = st.trim_end_matches(')').rsplit(' ').next().unwrap().parse().unwrap();
                    let nines = nines - c.to_string().matches('9').count();
                    [&b"1"[..], &vec![b'9'; nines], &[c]].concat()
                } else {
                    s
                };
                let r = match std::str::from_utf8(&s) {
                    Ok(t) if !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit()) => match t.parse::<u64>() {
                        Ok(x) => Some(x),
                        Err(_) => return,
                    },
                    _ => None,
                };
                probe(if r.is_some() { "num.parse of a numeral" } else { "num.parse of something else" });
                self.add(format!("res.ok (num.parse {})", st), V::O(r));
            }
        }
    }

    fn lists(&mut self) {
        let (lt, l) = self.list();
        let (ft, f) = int_fn();
        let (pt, p) = predicate();
        let n = (gen(l.len() as u32 + 3) as usize, gen(30) as usize);
        match gen(31) {
            0 | 1 => {
                let from = interesting_int();
                let n = match gen(6) {
                    0 => 0,
                    1 | 2 => gen(6),
                    3 | 4 => gen(40),
                    _ if gchance(1, 12) => gen(1 << gen_range(10, 15)),
                    _ => gen(600),
                } as u64;
                let Some(to) = from.checked_add(n) else { return };
                self.add(format!("list.range {} {}", from, to), V::L((from..to).collect()));
            }
            2 => {
                let (it, x) = self.int();
                self.add(format!("list.repeat {} {}", n.1, it), V::L(vec![x; n.1]));
            }
            3 | 4 => self.add(format!("list.map {} {}", ft, lt), V::L(l.iter().map(|x| f(*x)).collect())),
            5 => self.add(format!("list.filter (\\x -> {}) {}", pt, lt), V::L(l.into_iter().filter(|x| p(*x)).collect())),
            6 => self.add(format!("list.sum {}", lt), V::I(l.iter().fold(0, |a, b| a.wrapping_add(*b)))),
            7 => self.add(format!("list.product {}", lt), V::I(l.iter().fold(1, |a, b| a.wrapping_mul(*b)))),
            8 => self.add(format!("list.any (list.map (\\x -> {}) {})", pt, lt), V::B(l.into_iter().any(|x| p(x)))),
            9 => self.add(format!("list.all (list.map (\\x -> {}) {})", pt, lt), V::B(l.into_iter().all(|x| p(x)))),
            10 => self.add(format!("list.head {}", lt), V::O(l.first().copied())),
            11 => self.add(format!("opt.unwrapOr (list.repeat 2 5) (list.tail {})", lt), V::L(if l.is_empty() { vec![5, 5] } else { l[1..].to_vec() })),
            12 => self.add(format!("list.reverse {}", lt), V::L(l.into_iter().rev().collect())),
            13 => self.add(format!("list.max {}", lt), V::O(l.into_iter().max())),
            14 => self.add(format!("list.min {}", lt), V::O(l.into_iter().min())),
            15 => {
                let k = gen_range(1, 50) as u64;
                let m = gchance(1, 2);
                let r = l.iter().map(|x| x % k);
                let r = if m { r.max() } else { r.min() };
                self.add(
                    format!("opt.map (\\x -> x % {}) (list.{} (\\x -> \\y -> x % {} < y % {}) {})", k, if m { "maxBy" } else { "minBy" }, k, k, lt),
                    V::O(r),
                );
            }
            16 => {
                let r = l.iter().all(|x| p(*x)).then(|| l.iter().fold(0u64, |a, x| a.wrapping_mul(3).wrapping_add(f(*x))));
                let sum = "list.foldl 0 (\\a -> \\x -> a * 3 + x)";
                let e = if gchance(1, 2) {
                    format!("opt.map ({}) (list.allSome (list.map (\\x -> if {} then opt.Some ({} x) else opt.None) {}))", sum, pt, ft, lt)
                } else {
                    format!("res.ok (res.map ({}) (list.allOk (list.map (\\x -> if {} then res.Ok ({} x) else res.Err x) {})))", sum, pt, ft, lt)
                };
                self.add(e, V::O(r));
            }
            17 => {
                // the first error
                let r = l.iter().find(|x| !p(**x)).copied();
                self.add(format!("res.err (list.allOk (list.map (\\x -> if {} then res.Ok \"\" else res.Err x) {}))", pt, lt), V::O(r));
            }
            18 => self.add(format!("list.skip {} {}", n.0, lt), V::L(l.into_iter().skip(n.0).collect())),
            19 => self.add(format!("list.take {} {}", n.0, lt), V::L(l.into_iter().take(n.0).collect())),
            20 => self.add(format!("list.length {}", lt), V::I(l.len() as u64)),
            21 => self.add(
                format!("list.foldr (\\x -> \\a -> a * 31 + {} x) 9 {}", ft, lt),
                V::I(l.iter().rev().fold(9, |a, x| a.wrapping_mul(31).wrapping_add(f(*x)))),
            ),
            22 => self.add(
                format!("list.foldl 9 (\\a -> \\x -> a * 31 + {} x) {}", ft, lt),
                V::I(l.iter().fold(9, |a, x| a.wrapping_mul(31).wrapping_add(f(*x)))),
            ),
            23 => self.add(
                format!("list.filterMap (\\x -> if {} then opt.Some ({} x) else opt.None) {}", pt, ft, lt),
                V::L(l.into_iter().filter(|x| p(*x)).map(|x| f(x)).collect()),
            ),
            24 => {
                let (mt, m) = self.list();
                if l.len() + m.len() <= MAX_LIST {
                    self.add(format!("list.concat {} {}", lt, mt), V::L([l, m].concat()));
                }
            }
            25 | 26 => {
                // total orders, and orders by keys of which only the keys are looked at
                let mut r = l.clone();
                self.work += l.len() as u64 * 60;
                probe(if l.len() > 20 { "list.sortBy of many" } else { "list.sortBy of few" });
                match gen(4) {
                    0 => {
                        r.sort();
                        self.add(format!("list.sortBy (\\a -> \\b -> a < b) {}", lt), V::L(r));
                    }
                    1 => {
                        r.sort_by(|a, b| b.cmp(a));
                        self.add(format!("list.sortBy (\\a -> \\b -> a > b) {}", lt), V::L(r));
                    }
                    2 => {
                        r.sort();
                        self.add(format!("list.sortBy (\\a -> \\b -> a <= b) {}", lt), V::L(r));
                    }
                    _ => {
                        let k = gen_range(1, 40) as u64;
                        let mut r: Vec<u64> = l.iter().map(|x| x % k).collect();
                        r.sort();
                        self.add(format!("list.map (\\x -> x % {}) (list.sortBy (\\a -> \\b -> a % {} < b % {}) {})", k, k, k, lt), V::L(r));
                    }
                }
            }
            27 => {
                let (mt, m) = self.list();
                let r = l.iter().zip(&m).map(|(a, b)| a.wrapping_mul(7).wrapping_sub(*b)).collect();
                self.add(format!("list.zip (\\a -> \\b -> a * 7 - b) {} {}", lt, mt), V::L(r));
            }
            28 => {
                let r: Vec<u64> = l.iter().flat_map(|x| vec![f(*x); (x % 3) as usize]).collect();
                if r.len() > MAX_LIST {
                    return;
                }
                let e = if gchance(1, 2) {
                    format!("list.flatMap (\\x -> list.repeat (x % 3) ({} x)) {}", ft, lt)
                } else {
                    format!("list.flatten (list.map (\\x -> list.repeat (x % 3) ({} x)) {})", ft, lt)
                };
                self.add(e, V::L(r));
            }
            29 => {
                let (it, x) = self.int();
                let k = *pick(&[0, 1, 2, 63, 64, 65, 300]);
                let r = (0..k).fold(x, |x, _| f(x));
                self.add(format!("num.iterate {} {} {}", k, ft, it), V::I(r));
            }
            _ => {
                if l.len() <= 200 {
                    self.add(format!("list.map num.toString {}", lt), V::LS(l.iter().map(|x| x.to_string().into_bytes()).collect()));
                }
            }
        }
    }

    fn texts(&mut self) {
        let (lt, l) = self.strs();
        let n = gen(l.len() as u32 + 3) as usize;
        match gen(9) {
            0 | 1 => {
                let (st, s) = self.str();
                let r = l.join(&s[..]);
                if r.len() <= MAX_STR && r.len() * l.len() < 200_000 {
                    probe("list.join");
                    self.add(format!("list.join {} {}", st, lt), V::S(r));
                }
            }
            2 => self.add(format!("list.reverse {}", lt), V::LS(l.into_iter().rev().collect())),
            3 => self.add(format!("list.map str.length {}", lt), V::L(l.iter().map(|s| s.len() as u64).collect())),
            4 => self.add(format!("list.skip {} {}", n, lt), V::LS(l.into_iter().skip(n).collect())),
            5 => self.add(format!("list.take {} {}", n, lt), V::LS(l.into_iter().take(n).collect())),
            6 => self.add(format!("str.concat \"\" (opt.unwrapOr \"none\" (list.head {}))", lt), V::S(l.first().cloned().unwrap_or(b"none".to_vec()))),
            7 => {
                let (mt, m) = self.strs();
                let total: usize = l.iter().chain(&m).map(|s| s.len() + 1).sum();
                if total > MAX_STR {
                    return;
                }
                if gchance(1, 2) {
                    self.add(format!("list.concat {} {}", lt, mt), V::LS([l, m].concat()));
                } else {
                    let r = l.iter().zip(&m).map(|(a, b)| [&a[..], b"+", b].concat()).collect();
                    self.add(format!("list.zip (\\a -> \\b -> str.concat a (str.concat \"+\" b)) {} {}", lt, mt), V::LS(r));
                }
            }
            _ => {
                // by length; only the lengths are looked at
                let mut r: Vec<u64> = l.iter().map(|s| s.len() as u64).collect();
                r.sort();
                self.work += l.len() as u64 * 60;
                self.add(format!("list.map str.length (list.sortBy (\\a -> \\b -> str.length a < str.length b) {})", lt), V::L(r));
            }
        }
    }

    fn element(&self, strs: bool) -> (String, E) {
        if strs {
            let (st, s) = self.str();
            if s.len() <= 60 {
                return (st, E::S(s));
            }
            return (format!("(str.substring 1 9 {})", st), E::S(s[1..10].to_vec()));
        }
        let (it, x) = self.int();
        (it, E::I(x))
    }

    fn array(&mut self) {
        let old = self.some(|v| matches!(v, V::A(_)));
        let (Some(i), true) = (old, gchance(9, 10)) else {
            let strs = gchance(1, 3);
            match gen(5) {
                0 => {
                    let (lt, l) = self.list();
                    self.work += l.len() as u64 * 60;
                    let other = l.iter().enumerate().map(|(i, x)| (i as u64, E::I(*x))).collect();
                    probe("arr.fromList");
                    self.add(format!("arr.fromList {}", lt), V::A(Arr { len: l.len() as u64, default: E::I(0), other, strs: false }));
                }
                1 => {
                    let (lt, l) = self.strs();
                    self.work += l.len() as u64 * 60;
                    let other = l.iter().enumerate().map(|(i, x)| (i as u64, E::S(x.clone()))).collect();
                    self.add(format!("arr.fromList {}", lt), V::A(Arr { len: l.len() as u64, default: E::I(0), other, strs: true }));
                }
                2 if gchance(1, 4) => {
                    self.add("arr.truncate 3 arr.empty".into(), V::A(Arr { len: 0, default: E::I(0), other: BTreeMap::new(), strs: false }));
                    let v = self.vars.len() - 1;
                    // its type has to be known
                    writeln!(self.body, "  let v{} : arr.Array int = v{};", v, v).unwrap();
                }
                _ => {
                    let len = array_size();
                    let (et, e) = self.element(strs);
                    probe(if len > 1 << 32 { "arr.new of a huge size" } else { "arr.new" });
                    self.work += 1000;
                    self.add(format!("arr.new {} {}", len, et), V::A(Arr { len, default: e, other: BTreeMap::new(), strs }));
                }
            }
            return;
        };
        let V::A(a) = self.vars[i].clone() else { unreachable!() };
        let (it, at) = self.index(a.len);
        match gen(10) {
            0..=4 => {
                let (et, e) = self.element(a.strs);
                let mut b = a.clone();
                if at < b.len {
                    b.other.insert(at, e);
                }
                probe(if at < b.len { "arr.set inside" } else { "arr.set outside" });
                self.add(format!("arr.set {} {} v{}", it, et, i), V::A(b));
            }
            5 => {
                let mut b = a.clone();
                let text = if a.strs {
                    if let Some(E::S(s)) = a.get(at) {
                        b.other.insert(at, E::S([&s[..], b"!"].concat()));
                    }
                    "(\\s -> str.concat s \"!\")".to_owned()
                } else {
                    let (ft, f) = int_fn();
                    if let Some(E::I(x)) = a.get(at) {
                        b.other.insert(at, E::I(f(x)));
                    }
                    ft
                };
                self.add(format!("arr.mapIdx {} {} v{}", it, text, i), V::A(b));
            }
            6 => {
                if a.strs {
                    let r = match a.get(at) {
                        Some(E::S(s)) => s,
                        _ => b"nothing".to_vec(),
                    };
                    self.add(format!("opt.unwrapOr \"nothing\" (arr.get {} v{})", it, i), V::S(r));
                } else {
                    let r = match a.get(at) {
                        Some(E::I(x)) => Some(x),
                        _ => None,
                    };
                    self.add(format!("arr.get {} v{}", it, i), V::O(r));
                }
            }
            7 => self.add(format!("arr.length v{}", i), V::I(a.len)),
            8 => {
                if a.len <= 1200 {
                    self.work += a.len * 40;
                    probe("arr.toList");
                    let l = a.list();
                    let v = if a.strs {
                        V::LS(l.into_iter().map(|e| if let E::S(s) = e { s } else { vec![] }).collect())
                    } else {
                        V::L(l.into_iter().map(|e| if let E::I(x) = e { x } else { 0 }).collect())
                    };
                    self.add(format!("arr.toList v{}", i), v);
                }
            }
            _ => {
                let mut b = a.clone();
                b.len = b.len.min(at);
                self.add(format!("arr.truncate {} v{}", it, i), V::A(b));
            }
        }
    }

    fn options(&mut self) {
        let (ot, o) = self.option();
        let (it, x) = self.int();
        let (ft, f) = int_fn();
        let (pt, p) = predicate();
        match gen(15) {
            0 => self.add(format!("opt.map {} {}", ft, ot), V::O(o.map(f))),
            1 => self.add(format!("opt.andThen (\\x -> if {} then opt.Some ({} x) else opt.None) {}", pt, ft, ot), V::O(o.filter(|x| p(*x)).map(f))),
            2 => self.add(format!("opt.flatten (opt.map (\\x -> if {} then opt.Some ({} x) else opt.None) {})", pt, ft, ot), V::O(o.filter(|x| p(*x)).map(f))),
            3 => self.add(format!("opt.unwrapOr {} {}", it, ot), V::I(o.unwrap_or(x))),
            4 => self.add(format!("opt.apply {} (opt.Some {})", ot, ft), V::O(o.map(f))),
            5 => self.add(format!("opt.isSome {}", ot), V::B(o.is_some())),
            6 => self.add(format!("opt.isNone {}", ot), V::B(o.is_none())),
            7 => self.add(format!("res.ok (res.map {} (res.okOr \"bad\" {}))", ft, ot), V::O(o.map(f))),
            8 => self.add(format!("res.err (res.mapErr {} (res.okOr {} {}))", ft, it, ot), V::O(if o.is_none() { Some(f(x)) } else { None })),
            9 => self.add(
                format!("res.ok (res.andThen (\\x -> if {} then res.Ok ({} x) else res.Err x) (res.okOr {} {}))", pt, ft, it, ot),
                V::O(o.filter(|x| p(*x)).map(f)),
            ),
            10 => self.add(
                format!("res.err (res.flatten (res.map (\\x -> if {} then res.Ok x else res.Err ({} x)) (res.okOr {} {})))", pt, ft, it, ot),
                V::O(match o {
                    None => Some(x),
                    Some(y) if p(y) => None,
                    Some(y) => Some(f(y)),
                }),
            ),
            11 => self.add(format!("res.unwrapOr {} (res.okOr \"\" {})", it, ot), V::I(o.unwrap_or(x))),
            12 => self.add(format!("res.ok (res.apply (res.okOr \"\" {}) (res.Ok {}))", ot, ft), V::O(o.map(f))),
            13 => self.add(format!("res.join (res.okOr {} {})", it, ot), V::I(o.unwrap_or(x))),
            _ => self.add(
                format!("res.err (res.apply (res.okOr {} {}) (if {} == 0 then res.Err 77 else res.Ok {}))", it, ot, it, ft),
                // which error if both are
                if x == 0 && o.is_none() { return } else { V::O(if x == 0 { Some(77) } else if o.is_none() { Some(x) } else { None }) },
            ),
        }
    }
}

fn body() {
    let input: Vec<u8> = match gen(4) {
        0 => main_input(),
        1 => (0..gen(400)).map(|_| *pick(b"ab ,\n\r\n 1")).collect(),
        2 => (0..gen(100)).map(|_| gen(256) as u8).collect(),
        _ => (0..gen(12)).flat_map(|_| format!("{}{}", interesting_int(), pick(&["\n", ",", " ", "\r\n"])).into_bytes()).collect(),
    };
    let mut h = History { body: String::new(), vars: Vec::new(), biggest: 0, work: 0 };
    h.add("input".into(), V::S(input.clone()));
    let calls = gen_range(1, 40);
    let weights = [gen_range(0, 4), gen_range(0, 4), gen_range(0, 4), gen_range(0, 3), gen_range(0, 6), gen_range(0, 3)];
    let weights = if weights.iter().all(|w| *w == 0) { [1; 6] } else { weights };
    for _ in 0..calls {
        if h.work > 150_000 {
            break;
        }
        match gweighted(&weights) {
            0 => h.number(),
            1 => h.string(),
            2 => h.lists(),
            3 => h.texts(),
            4 => h.array(),
            _ => h.options(),
        }
    }
    let mut out = Vec::new();
    let mut text = std::mem::take(&mut h.body);
    text.push_str("  let o = \"\";\n");
    for (i, v) in h.vars.iter().enumerate() {
        let e = match v {
            V::I(x) => {
                out.extend(show_e(&E::I(*x)));
                format!("showI v{}", i)
            }
            V::B(b) => {
                out.extend_from_slice(if *b { b"yes;" } else { b"no;" });
                format!("showB v{}", i)
            }
            V::S(s) => {
                out.extend(show_e(&E::S(s.clone())));
                format!("showS v{}", i)
            }
            V::L(l) => {
                out.extend(show_list(&l.iter().map(|x| E::I(*x)).collect::<Vec<_>>()));
                format!("showL v{}", i)
            }
            V::LS(l) => {
                out.extend(show_list(&l.iter().map(|x| E::S(x.clone())).collect::<Vec<_>>()));
                format!("showLS v{}", i)
            }
            V::O(o) => {
                out.extend(show_o(o.map(E::I)));
                format!("showO v{}", i)
            }
            V::A(a) => {
                out.extend(show_e(&E::I(a.len)));
                let mut e = format!("showI (arr.length v{})", i);
                let mut at: Vec<u64> = (0..gen_range(1, 4)).map(|_| h.index(a.len).1).collect();
                let known: Vec<u64> = a.other.keys().copied().collect();
                for _ in 0..known.len().min(4) {
                    at.push((*pick(&known)).wrapping_add(gen(3) as u64).wrapping_sub(1));
                }
                for x in at {
                    out.extend(show_o(a.get(x)));
                    e = format!("cat ({}) ({} (arr.get {} v{}))", e, if a.strs { "showOS" } else { "showO" }, x, i);
                }
                e
            }
        };
        writeln!(text, "  let o = cat o ({});", e).unwrap();
    }
    let src = format!("{}export let main : string -> string = \\input ->\n{}  o;\n", PRELUDE, text);
    trace(|| format!("{}\n-- input: {:?}", src, String::from_utf8_lossy(&input)));
    fingerprint_bytes(src.as_bytes());
    fingerprint_bytes(&input);
    observe(&out);
    count("calls of library functions", h.vars.len() as u64);

    let options = Options { verify: sched(8) == 7, optimize: sched(3) == 0 };
    let r = Resolver::new(HashMap::from([("m".to_owned(), src.clone())]), options);
    let mut unit = r.unit("m");
    if let Some(d) = unit.diagnostics().find(|d| d.severity == ticc::Severity::Error) {
        violation("a valid program has errors", &format!("the program has errors: {:?} {}\n{}", d.span, d.message, src));
    }
    for _ in 0..1 + sched(2) {
        let plan = GcPlan::draw(h.work / 4);
        trace(|| plan.describe());
        fingerprint_bytes(plan.describe().as_bytes());
        let (got, _) = with_plan(plan, || interpret_main(&mut unit, Runner::Bytecode, &input));
        crate::c03::check_main("bytecode", &out, got, &src);
    }
    if h.biggest <= 100 && sched(2) == 0 {
        let runner = [Runner::Treewalk, Runner::Lambda][sched(2) as usize];
        probe(&format!("also on {}", engine_name(runner)));
        let got = interpret_main(&mut unit, runner, &input);
        crate::c03::check_main(&engine_name(runner), &out, got, &src);
    }
}

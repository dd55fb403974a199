//! Source texts that are not (quite) programs: damaged ones, half-typed ones, soup.

use crate::{gen, gchance, gen_range, gweighted, pick};

const TOKENS: [&str; 62] = [
    "let", "x", "y", "=", ";", ":", "int", "bool", "string", "->", "(", ")", "\\", "match", "with", "|", "end", "if", "then", "else",
    "true", "false", "fold", "import", "from", "\"std/list\"", "\"m\"", "export", "type", "A", "B", "rec", ",", ".", "+", "-", "*", "/",
    "%", "<", "<=", ">", ">=", "==", "!=", "|>", "0", "1", "18446744073709551616", "?hole", "?", "\"str\"", "\"open", "-- comment\n",
    "\n", "\r\n", "é", "\u{1F600}", "_", "a", "list", "#",
];

const SNIPPETS: [&str; 30] = [
    "let x : int = 1;",
    "let y = x;",
    "export let z = \\a -> a;",
    "let f : a -> b -> a = \\x -> \\y -> x;",
    "type A = B | C int;",
    "export type L a = export N | export K a rec;",
    "let m : A -> int = \\a -> match a with | B -> 1 | C n -> n end;",
    "let m = match B with | -> 1 end;",
    "let m = \\x -> match x with | C -> x | B y z -> y end;",
    "let r : L int -> int = \\fold l -> match l with | N -> 0 | K a xs -> a + xs end;",
    "import list from \"std/list\";",
    "import (Option, Some, None) from \"std/option\";",
    "import s(length) from \"std/string\";",
    "import q from \"nowhere\";",
    "import (foo) from \"std/list\";",
    "let l = list.",
    "let l = list.map (\\x -> x) list.Nil;",
    "let t = if x then 1 else 2;",
    "let u = if x == 1 then \"a\" else \"b\";",
    "let h : int = ?todo;",
    "let p = 1 |> f 2;",
    "let s = \"unterminated;\n",
    "let w = let a = 1; let b = a; a + b;",
    "let x : (int = 1;",
    "type T = | ;",
    "let = 3;",
    "let v : list.List (list.List a) = list.Nil;",
    "let k : int int = 1;",
    "let o = Some None;",
    "-- only a comment",
];

/// Characters that may be inserted anywhere.
const CHARS: [&str; 24] = [
    "(", ")", "\"", ";", " ", "\n", "\\", "-", "|", "=", ".", ",", "x", "?", "1", "é", "\u{1F600}", "\r\n", "let ", "match ", "end", "0", ":", "\t",
];

fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

/// A few edits, as somebody typing might leave them.
pub fn damage(src: &str, edits: u32) -> String {
    let mut s = src.to_owned();
    for _ in 0..edits {
        let at = boundary(&s, gen(s.len() as u32 + 1) as usize);
        match gweighted(&[4, 4, 2, 2, 1, 3, 1]) {
            0 => s.insert_str(at, pick(&CHARS)),
            1 => {
                let to = boundary(&s, at + gen_range(1, 12) as usize);
                s.replace_range(at..to, "");
            }
            2 => s.insert_str(at, pick(&TOKENS)),
            3 => {
                // drop a whole line
                let from = s[..at].rfind('\n').map(|x| x + 1).unwrap_or(0);
                let to = s[at..].find('\n').map(|x| at + x + 1).unwrap_or(s.len());
                s.replace_range(from..to, "");
            }
            4 => s.truncate(at),
            5 => s = without_a_word(&s, at),
            _ => {
                // repeat a part
                let to = boundary(&s, at + gen_range(1, 60) as usize);
                let part = s[at..to].to_owned();
                s.insert_str(at, &part);
            }
        }
    }
    s
}

/// One word less: the next one after a position, or the name of a definition.
pub fn without_a_word(src: &str, at: usize) -> String {
    let at = boundary(src, at);
    let at = if gchance(1, 2) {
        let next = ["type ", "let "].iter().filter_map(|w| src[at..].find(w).map(|i| at + i + w.len())).min();
        next.unwrap_or(at)
    } else {
        at
    };
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let Some(from) = src[at..].find(word).map(|i| at + i) else { return src.to_owned() };
    let to = src[from..].find(|c| !word(c)).map(|i| from + i).unwrap_or(src.len());
    format!("{}{}", &src[..from], &src[to..])
}

/// A text made of unrelated pieces.
pub fn soup() -> String {
    let mut s = String::new();
    let eol = *pick(&["\n", "\r\n", " ", ""]);
    for _ in 0..gen_range(0, 8) {
        if gchance(2, 3) {
            s.push_str(pick(&SNIPPETS));
        } else {
            for _ in 0..gen_range(1, 8) {
                s.push_str(pick(&TOKENS));
                if gchance(5, 6) {
                    s.push(' ');
                }
            }
        }
        s.push_str(eol);
    }
    if gchance(1, 3) {
        let n = gen_range(1, 4);
        s = damage(&s, n);
    }
    s
}

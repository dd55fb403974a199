//! Graphs of modules whose definitions' dependencies and values are known by construction.

use crate::{gchance, gen, gen_range, pick, probe};
use std::collections::BTreeSet;
use std::fmt::Write;

/// The target of imports from the built-in library.
pub const STD: usize = usize::MAX;

#[derive(Clone, Debug)]
pub enum Entry {
    Import(usize),
    Def(usize),
}

#[derive(Clone, Debug)]
pub struct Import {
    pub target: usize,
    /// How the path is written; every import has a path of its own.
    pub path: String,
    pub alias: Option<String>,
    pub exposed: Vec<String>,
    pub span: (usize, usize),
    pub line: (usize, usize),
}

#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub text: String,
    pub name_at: usize,
    pub span: (usize, usize),
    pub imports: BTreeSet<usize>,
    pub defs: BTreeSet<usize>,
    pub annotated: bool,
    /// Value, if it is an exported number.
    pub value: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Module {
    pub entries: Vec<Entry>,
    pub imports: Vec<Import>,
    pub defs: Vec<Def>,
    /// (from module, name): functions `int -> T` and `T -> int` for types of other modules.
    pub makes: Vec<(usize, usize)>,
    pub opens: Vec<(usize, usize)>,
    pub source: String,
}

pub struct World {
    pub modules: Vec<Module>,
}

/// Adds a definition.
fn def(m: &mut Module, name: &str, text: String, annotated: bool, imports: &[usize], defs: &[usize], value: Option<u64>) -> usize {
    m.defs.push(Def {
        name: name.to_owned(),
        text,
        name_at: 0,
        span: (0, 0),
        imports: imports.iter().copied().collect(),
        defs: defs.iter().copied().collect(),
        annotated,
        value,
    });
    m.entries.push(Entry::Def(m.defs.len() - 1));
    m.defs.len() - 1
}

/// `name` as supplied by an import: plain if exposed, else through the alias.
fn name(i: &Import, n: &str) -> Option<String> {
    if i.exposed.iter().any(|e| e == n) {
        return Some(n.to_owned());
    }
    i.alias.as_ref().map(|a| format!("{}.{}", a, n))
}

const STD_USES: [(&str, &str, &str, u64); 4] = [
    ("list", "std/list", "list.sum (list.Cons 3 (list.Cons 4 list.Nil))", 7),
    ("str", "std/string", "str.length \"abcd\"", 4),
    ("opt", "std/option", "opt.unwrapOr 5 opt.None", 5),
    ("ints", "std/int", "ints.max 3 9", 9),
];

/// A type with parameters.
fn generic(m: &mut Module, i: usize, d: usize, export: &str) -> usize {
    let params = gen_range(1, 4) as usize;
    let name = format!("G{}x{}", i, d);
    let vars: Vec<String> = (0..params).map(|k| format!("t{}", k)).collect();
    let known = Known { own: format!("T{}", i), generic: String::new(), params: 0 };
    let fields = |from: &[String]| {
        let mut out = String::new();
        for v in from {
            let f = match gen(5) {
                0 => format!("({} -> {})", known.ty(1, 2), v),
                1 => format!("({} -> {} -> int)", v, known.ty(1, 2)),
                2 => format!("(({} -> int) -> {})", v, v),
                _ => v.clone(),
            };
            write!(out, " {}", f).unwrap();
        }
        out
    };
    let text = format!(
        "{e}type {n} {v} = {e}P{i}x{d}{f} | Q{i}x{d} rec {g};",
        e = export, n = name, v = vars.join(" "), i = i, d = d, f = fields(&vars), g = known.ty(2, 2)
    );
    def(m, &name, text, true, &[], &[0], None)
}

/// Types written the way the compiler writes them.
struct Known {
    own: String,
    generic: String,
    params: usize,
}

impl Known {
    /// 1: in parentheses if it is a function, 2: also if it has parameters.
    fn ty(&self, prec: u8, depth: u32) -> String {
        if depth > 0 && gchance(1, 3) {
            let t = format!("{} -> {}", self.ty(1, depth - 1), self.ty(0, depth - 1));
            return if prec >= 1 { format!("({})", t) } else { t };
        }
        if depth > 0 && self.params > 0 && gchance(1, 2) {
            let mut t = self.generic.clone();
            for _ in 0..self.params {
                write!(t, " {}", self.ty(2, depth - 1)).unwrap();
            }
            return if prec >= 2 { format!("({})", t) } else { t };
        }
        pick(&["int", "bool", "string", &self.own]).to_string()
    }

    /// As a result.
    fn unwrapped(&self, t: &str) -> String {
        match t.strip_prefix('(') {
            Some(r) => r.strip_suffix(')').unwrap().to_owned(),
            None => t.to_owned(),
        }
    }
}

/// `path` says how module `importer` spells its import number `k` of module `target`.
pub fn build(n: usize, path: &mut dyn FnMut(usize, usize, usize) -> String) -> World {
    let mut modules: Vec<Module> = Vec::new();
    for i in 0..n {
        let root = i + 1 == n;
        let mut m = Module::default();
        let mut numbers: Vec<usize> = Vec::new();
        // own type, in case others look at it
        def(&mut m, &format!("T{}", i), format!("export type T{i} = export A{i} int | B{i} rec rec;", i = i), true, &[], &[], None);
        let ctor = 0;
        let mk = def(&mut m, &format!("mk{}", i), format!("export let mk{i} : int -> T{i} = \\x -> A{i} (x + {k});", i = i, k = i), true, &[], &[ctor], None);
        let get = def(
            &mut m,
            &format!("get{}", i),
            format!("export let get{i} : T{i} -> int = \\t -> match t with | A{i} x -> x | B{i} _ _ -> 0 end;", i = i),
            true,
            &[],
            &[ctor],
            None,
        );
        numbers.push(def(&mut m, &format!("val{}", i), format!("export let val{i} : int = get{i} (mk{i} 10);", i = i), true, &[], &[mk, get], Some(10 + i as u64)));
        let mut std_used: Vec<usize> = Vec::new();
        let n_imports = if i == 0 { 0 } else { gen_range(if root { 2 } else { 1 }, 4) };
        let mut total = 0;
        for step in 0..n_imports + gen(3) {
            if step < n_imports {
                // an import; the same module may be imported several times
                let target = gen(i as u32) as usize;
                let k = m.imports.len();
                let form = gen(3);
                let other = |x: &Module| x.imports.iter().any(|j| j.target == target && !j.exposed.is_empty());
                let all = ["T", "A", "B", "mk", "get", "val"].map(|p| format!("{}{}", p, target));
                let (alias, exposed) = match form {
                    0 => (Some(format!("n{}", k)), vec![]),
                    // exposing the same names twice is an error
                    _ if other(&m) => (Some(format!("n{}", k)), vec![]),
                    1 => (None, all.to_vec()),
                    _ => (Some(format!("n{}", k)), all.iter().filter(|_| gchance(1, 2)).cloned().collect()),
                };
                m.imports.push(Import { target, path: path(target, i, k), alias, exposed, span: (0, 0), line: (0, 0) });
                m.entries.push(Entry::Import(k));
            }
            // definitions
            for _ in 0..gen_range(0, 4) {
                let d = m.defs.len();
                let export = if gchance(2, 3) || root { "export " } else { "" };
                let nm = format!("d{}x{}", i, d);
                let pick_import = |m: &Module| if m.imports.is_empty() { None } else { Some(gen(m.imports.len() as u32) as usize) };
                let mut number = None;
                match gen(11) {
                    10 => {
                        // types within types
                        let g = match m.defs.iter().rposition(|d| d.name.starts_with('G')) {
                            Some(g) if gchance(2, 3) => g,
                            _ => generic(&mut m, i, d, export),
                        };
                        let params = (0..10).filter(|k| m.defs[g].text.split('=').next().unwrap().contains(&format!(" t{}", k))).count();
                        let known = Known { own: format!("T{}", i), generic: m.defs[g].name.clone(), params };
                        let (a, b) = (known.ty(1, 3), known.ty(1, 3));
                        let nm = format!("d{}x{}", i, m.defs.len());
                        let text = match gen(3) {
                            0 => format!("{}let {} : {} -> int = \\x -> {};", export, nm, a, gen(50)),
                            1 => format!("{}let {} : {} -> {} -> {} = \\x -> \\y -> x;", export, nm, a, b, known.unwrapped(&a)),
                            _ => format!("{}let {} : ({} -> {}) -> {} -> {} = \\f -> \\x -> f x;", export, nm, a, known.unwrapped(&b), a, known.unwrapped(&b)),
                        };
                        def(&mut m, &nm, text, true, &[], &[0, g], None);
                    }
                    0 => {
                        let (a, b) = (gen(50) as u64, gen(50) as u64);
                        number = Some(def(&mut m, &nm, format!("{}let {} : int = {} + {};", export, nm, a, b), true, &[], &[], Some(a + b)));
                    }
                    1 => {
                        // own definitions
                        let x = *pick(&numbers);
                        let y = *pick(&numbers);
                        let ann = if gchance(1, 2) { " : int" } else { "" };
                        let v = m.defs[x].value.unwrap() * 3 + m.defs[y].value.unwrap();
                        if v > 1 << 40 {
                            continue;
                        }
                        let text = format!("{}let {}{} = {} * 3 + {};", export, nm, ann, m.defs[x].name, m.defs[y].name);
                        number = Some(def(&mut m, &nm, text, !ann.is_empty(), &[], &[x, y], Some(v)));
                    }
                    2 => {
                        let k = gen(STD_USES.len() as u32) as usize;
                        let (alias, path, e, v) = STD_USES[k];
                        if !std_used.contains(&k) {
                            std_used.push(k);
                            let at = m.imports.len();
                            m.imports.push(Import { target: STD, path: path.to_owned(), alias: Some(alias.to_owned()), exposed: vec![], span: (0, 0), line: (0, 0) });
                            m.entries.push(Entry::Import(at));
                        }
                        number = Some(def(&mut m, &nm, format!("{}let {} : int = {};", export, nm, e), true, &[], &[], Some(v)));
                    }
                    3 | 4 | 5 => {
                        let Some(k) = pick_import(&m) else { continue };
                        let imp = m.imports[k].clone();
                        if imp.target == STD {
                            continue;
                        }
                        let t = imp.target;
                        let names: Vec<Option<String>> = ["val", "mk", "get"].iter().map(|p| name(&imp, &format!("{}{}", p, t))).collect();
                        let (Some(val), Some(mk), Some(get)) = (&names[0], &names[1], &names[2]) else { continue };
                        let ann = if gchance(2, 3) { " : int" } else { "" };
                        let (e, v) = if gchance(1, 2) { (format!("{} + 1", val), 11 + t as u64) } else { (format!("{} ({} 20)", get, mk), 20 + t as u64) };
                        number = Some(def(&mut m, &nm, format!("{}let {}{} = {};", export, nm, ann, e), !ann.is_empty(), &[k], &[], Some(v)));
                    }
                    6 => {
                        // a value of the imported type, used through another import of the same module
                        let (Some(a), Some(b)) = (pick_import(&m), pick_import(&m)) else { continue };
                        let (ia, ib) = (m.imports[a].clone(), m.imports[b].clone());
                        if ia.target == STD || ia.target != ib.target {
                            continue;
                        }
                        let t = ia.target;
                        let (Some(mk), Some(get)) = (name(&ia, &format!("mk{}", t)), name(&ib, &format!("get{}", t))) else { continue };
                        if a != b {
                            probe("one module through two imports");
                        }
                        number = Some(def(&mut m, &nm, format!("{}let {} : int = {} ({} 30);", export, nm, get, mk), true, &[a, b], &[], Some(30 + t as u64)));
                    }
                    7 => {
                        // pass on the type of an imported module
                        let Some(k) = pick_import(&m) else { continue };
                        let imp = m.imports[k].clone();
                        let t = imp.target;
                        if t == STD || m.makes.iter().any(|x| x.0 == t) {
                            continue;
                        }
                        let (Some(mk), Some(get), Some(ty)) = (name(&imp, &format!("mk{}", t)), name(&imp, &format!("get{}", t)), name(&imp, &format!("T{}", t))) else { continue };
                        let make = def(&mut m, &format!("make{}of{}", i, t), format!("export let make{}of{} : int -> {} = \\x -> {} x;", i, t, ty, mk), true, &[k], &[], None);
                        let open = def(&mut m, &format!("open{}of{}", i, t), format!("export let open{}of{} : {} -> int = \\x -> {} x;", i, t, ty, get), true, &[k], &[], None);
                        m.makes.push((t, make));
                        m.opens.push((t, open));
                    }
                    8 => {
                        // types that came along two paths are the same
                        let (Some(a), Some(b)) = (pick_import(&m), pick_import(&m)) else { continue };
                        let (ia, ib) = (m.imports[a].clone(), m.imports[b].clone());
                        let (Some(na), Some(nb)) = (&ia.alias, &ib.alias) else { continue };
                        if ia.target == STD || ib.target == STD {
                            continue;
                        }
                        let mut shared: Vec<(String, String, usize)> = Vec::new();
                        for (t, _) in &modules[ia.target].makes {
                            if modules[ib.target].opens.iter().any(|o| o.0 == *t) {
                                shared.push((format!("{}.make{}of{}", na, ia.target, t), format!("{}.open{}of{}", nb, ib.target, t), *t));
                            }
                            if ib.target == *t {
                                shared.push((format!("{}.make{}of{}", na, ia.target, t), format!("{}.get{}", nb, t), *t));
                            }
                        }
                        if shared.is_empty() {
                            continue;
                        }
                        let (make, open, t) = pick(&shared).clone();
                        probe("one module along two paths");
                        number = Some(def(&mut m, &nm, format!("{}let {} : int = {} ({} 40);", export, nm, open, make), true, &[a, b], &[], Some(40 + t as u64)));
                    }
                    _ => {
                        // constructors and patterns
                        let Some(k) = pick_import(&m) else { continue };
                        let imp = m.imports[k].clone();
                        let t = imp.target;
                        if t == STD {
                            continue;
                        }
                        let (Some(a), Some(b), Some(ty)) = (name(&imp, &format!("A{}", t)), name(&imp, &format!("B{}", t)), name(&imp, &format!("T{}", t))) else { continue };
                        if a.contains('.') {
                            probe("constructors of a module by its name");
                        }
                        if gchance(1, 2) {
                            // in a type of its own
                            let (w, v) = (format!("W{}x{}", i, d), format!("V{}x{}", i, d));
                            let field = if gchance(1, 2) { ty } else { format!("({})", ty) };
                            let wraps = def(&mut m, &w, format!("{e}type {w} = {e}{v} {field};", e = export), true, &[k], &[], None);
                            let text = format!("{e}let {nm} : int = match {v} ({a} 60) with | {v} w -> (match w with | {a} x -> x | {b} _ _ -> 2 end) end;", e = export);
                            number = Some(def(&mut m, &nm, text, true, &[k], &[wraps], Some(60)));
                            numbers.extend(number);
                            continue;
                        }
                        let text = format!(
                            "{e}let {nm} : int = match {A} 50 with | {A} x -> x | {B} a b -> (match a with | {A} y -> y | {B} _ _ -> (match b with | {A} z -> z | {B} _ _ -> 1 end) end) end;",
                            e = export, nm = nm, A = a, B = b
                        );
                        number = Some(def(&mut m, &nm, text, true, &[k], &[], Some(50)));
                    }
                }
                numbers.extend(number);
                total += 1;
            }
        }
        let _ = total;
        render(&mut m);
        modules.push(m);
    }
    World { modules }
}

pub fn render(m: &mut Module) {
    let crlf = gchance(1, 5);
    let mut s = String::new();
    for e in m.entries.clone() {
        if gchance(1, 6) {
            s.push_str("-- words \"é\"");
            s.push_str(if crlf { "\r\n" } else { "\n" });
        }
        match e {
            Entry::Import(k) => {
                let i = &mut m.imports[k];
                let line = s.len();
                s.push_str("import ");
                if let Some(a) = &i.alias {
                    s.push_str(a);
                }
                if !i.exposed.is_empty() {
                    write!(s, "({})", i.exposed.join(", ")).unwrap();
                }
                s.push_str(" from ");
                let at = s.len();
                write!(s, "\"{}\"", i.path).unwrap();
                i.span = (at, s.len());
                s.push(';');
                i.line = (line, s.len());
            }
            Entry::Def(k) => {
                let d = &mut m.defs[k];
                let at = s.len();
                s.push_str(&d.text);
                d.span = (at, s.len());
                d.name_at = at + d.text.find(&d.name).unwrap();
            }
        }
        s.push_str(if crlf { "\r\n" } else { "\n" });
    }
    m.source = s;
}


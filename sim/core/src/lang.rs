//! Abstract syntax of generated tic programs, their printer, and the signatures
//! of the standard library.

use std::collections::HashMap;
use std::fmt::Write;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Var(usize),
    Fn(Box<Ty>, Box<Ty>),
    Adt(usize, Vec<Ty>),
}

impl Ty {
    pub fn func(a: Ty, b: Ty) -> Ty {
        Ty::Fn(Box::new(a), Box::new(b))
    }

    pub fn subst(&self, m: &[Option<Ty>]) -> Ty {
        match self {
            Ty::Var(v) => m.get(*v).and_then(|t| t.clone()).unwrap_or_else(|| self.clone()),
            Ty::Fn(a, b) => Ty::func(a.subst(m), b.subst(m)),
            Ty::Adt(t, a) => Ty::Adt(*t, a.iter().map(|a| a.subst(m)).collect()),
            t => t.clone(),
        }
    }

    /// One-way matching of a scheme (its variables are below `offset + n`) with a type.
    pub fn matches(&self, target: &Ty, m: &mut [Option<Ty>]) -> bool {
        match (self, target) {
            (Ty::Var(v), t) if *v < m.len() => match &m[*v] {
                Some(x) => x == t,
                None => {
                    m[*v] = Some(t.clone());
                    true
                }
            },
            (Ty::Fn(a, b), Ty::Fn(c, d)) => a.matches(c, m) && b.matches(d, m),
            (Ty::Adt(x, a), Ty::Adt(y, b)) => x == y && a.iter().zip(b).all(|(a, b)| a.matches(b, m)),
            (a, b) => a == b,
        }
    }

    pub fn has_fn(&self, types: &[TypeDef], seen: &mut Vec<usize>) -> bool {
        match self {
            Ty::Fn(..) => true,
            Ty::Adt(t, a) => {
                if a.iter().any(|a| a.has_fn(types, seen)) {
                    return true;
                }
                if seen.contains(t) {
                    return false;
                }
                seen.push(*t);
                types[*t].ctors.iter().any(|c| {
                    c.fields.iter().any(|f| match f {
                        Field::Rec => false,
                        Field::Ty(t) => t.has_fn(types, seen),
                    })
                })
            }
            _ => false,
        }
    }

    pub fn mentions(&self, id: usize) -> bool {
        match self {
            Ty::Fn(a, b) => a.mentions(id) || b.mentions(id),
            Ty::Adt(t, a) => *t == id || a.iter().any(|a| a.mentions(id)),
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
#[derive(PartialEq)]
pub enum Field {
    Rec,
    Ty(Ty),
}

#[derive(Clone, Debug)]
pub struct Ctor {
    pub name: String,
    pub fields: Vec<Field>,
}

#[derive(Clone, Debug)]
pub struct TypeDef {
    pub name: String,
    pub params: usize,
    pub ctors: Vec<Ctor>,
    pub home: Home,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Home {
    Std(usize),
    Module(usize),
}

pub const STD: [(&str, &str); 7] = [
    ("std/intrinsics", "i"),
    ("std/option", "opt"),
    ("std/result", "res"),
    ("std/list", "list"),
    ("std/string", "str"),
    ("std/int", "num"),
    ("std/array", "arr"),
];

pub const OPTION: usize = 0;
pub const RESULT: usize = 1;
pub const LIST: usize = 2;
pub const PARSE_ERR: usize = 3;
pub const ARRAY: usize = 4;

pub fn std_types() -> Vec<TypeDef> {
    let ctor = |name: &str, fields: Vec<Field>| Ctor { name: name.into(), fields };
    let ty = |name: &str, params, m, ctors| TypeDef { name: name.into(), params, ctors, home: Home::Std(m) };
    let v = |i| Field::Ty(Ty::Var(i));
    vec![
        ty("Option", 1, 1, vec![ctor("None", vec![]), ctor("Some", vec![v(0)])]),
        ty("Result", 2, 2, vec![ctor("Ok", vec![v(0)]), ctor("Err", vec![v(1)])]),
        ty("List", 1, 3, vec![ctor("Nil", vec![]), ctor("Cons", vec![v(0), Field::Rec])]),
        ty("ParseErr", 0, 5, vec![ctor("ParseErr", vec![])]),
        ty("Array", 1, 6, vec![]),
    ]
}

pub struct StdFn {
    pub module: usize,
    pub name: &'static str,
    pub vars: usize,
    pub ty: Ty,
    /// Parameters that have to be small numbers, or the program takes forever.
    pub small: Vec<bool>,
    pub arity: usize,
}

/// `#` is an int that has to be small.
const STD_FNS: &[(usize, &str, &str)] = &[
    (0, "iterate", "# -> (a -> a) -> a -> a"),
    (0, "stringLength", "S -> int"),
    (0, "stringConcat", "S -> S -> S"),
    (0, "stringCharAt", "int -> S -> int"),
    (0, "stringSubstring", "int -> int -> S -> S"),
    (0, "stringFromChar", "int -> S"),
    (0, "intToString", "int -> S"),
    (1, "map", "(a -> b) -> Option a -> Option b"),
    (1, "andThen", "(a -> Option b) -> Option a -> Option b"),
    (1, "flatten", "Option (Option a) -> Option a"),
    (1, "unwrapOr", "a -> Option a -> a"),
    (1, "apply", "Option a -> Option (a -> b) -> Option b"),
    (1, "isSome", "Option a -> B"),
    (1, "isNone", "Option a -> B"),
    (2, "map", "(a -> b) -> Result a c -> Result b c"),
    (2, "mapErr", "(a -> b) -> Result c a -> Result c b"),
    (2, "andThen", "(a -> Result b c) -> Result a c -> Result b c"),
    (2, "flatten", "Result (Result a b) b -> Result a b"),
    (2, "unwrapOr", "a -> Result a b -> a"),
    (2, "ok", "Result a b -> Option a"),
    (2, "err", "Result a b -> Option b"),
    (2, "okOr", "b -> Option a -> Result a b"),
    (2, "apply", "Result a c -> Result (a -> b) c -> Result b c"),
    (2, "join", "Result a a -> a"),
    (3, "map", "(a -> b) -> List a -> List b"),
    (3, "filter", "(a -> B) -> List a -> List a"),
    (3, "sum", "List int -> int"),
    (3, "product", "List int -> int"),
    (3, "any", "List B -> B"),
    (3, "all", "List B -> B"),
    (3, "head", "List a -> Option a"),
    (3, "tail", "List a -> Option (List a)"),
    (3, "reverse", "List a -> List a"),
    (3, "max", "List int -> Option int"),
    (3, "min", "List int -> Option int"),
    (3, "maxBy", "(a -> a -> B) -> List a -> Option a"),
    (3, "minBy", "(a -> a -> B) -> List a -> Option a"),
    (3, "allSome", "List (Option a) -> Option (List a)"),
    (3, "allOk", "List (Result a b) -> Result (List a) b"),
    (3, "skip", "# -> List a -> List a"),
    (3, "take", "# -> List a -> List a"),
    (3, "length", "List a -> int"),
    (3, "foldr", "(a -> b -> b) -> b -> List a -> b"),
    (3, "foldl", "b -> (b -> a -> b) -> List a -> b"),
    (3, "repeat", "# -> a -> List a"),
    (3, "filterMap", "(a -> Option b) -> List a -> List b"),
    (3, "concat", "List a -> List a -> List a"),
    (3, "sortBy", "(a -> a -> B) -> List a -> List a"),
    (3, "join", "S -> List S -> S"),
    (3, "zip", "(a -> b -> c) -> List a -> List b -> List c"),
    (3, "flatMap", "(a -> List b) -> List a -> List b"),
    (3, "flatten", "List (List a) -> List a"),
    (4, "length", "S -> int"),
    (4, "concat", "S -> S -> S"),
    (4, "charAt", "int -> S -> int"),
    (4, "substring", "int -> int -> S -> S"),
    (4, "fromChar", "int -> S"),
    (4, "split", "int -> S -> List S"),
    (4, "lines", "S -> List S"),
    (4, "foldChars", "a -> (a -> int -> a) -> S -> a"),
    (4, "equal", "S -> S -> B"),
    (4, "startsWith", "S -> S -> B"),
    (4, "chars", "S -> List int"),
    (4, "trim", "S -> S"),
    (4, "newline", "S"),
    (5, "iterate", "# -> (a -> a) -> a -> a"),
    (5, "toString", "int -> S"),
    (5, "parse", "S -> Result int ParseErr"),
    (5, "min", "int -> int -> int"),
    (5, "max", "int -> int -> int"),
    (5, "gcd", "int -> int -> int"),
    (5, "lcm", "int -> int -> int"),
    (5, "bitXor", "int -> int -> int"),
    (5, "bitAnd", "int -> int -> int"),
    (5, "bitOr", "int -> int -> int"),
    (6, "length", "Array a -> int"),
    (6, "empty", "Array a"),
    (6, "new", "# -> a -> Array a"),
    (6, "mapIdx", "int -> (a -> a) -> Array a -> Array a"),
    (6, "get", "int -> Array a -> Option a"),
    (6, "set", "int -> a -> Array a -> Array a"),
    (6, "toList", "Array a -> List a"),
    (6, "fromList", "List a -> Array a"),
    (6, "truncate", "int -> Array a -> Array a"),
];

/// Needs both arguments to be literals in order; generated specially.
pub const RANGE: usize = usize::MAX;

pub fn std_fns() -> &'static [StdFn] {
    static FNS: OnceLock<Vec<StdFn>> = OnceLock::new();
    FNS.get_or_init(|| {
        let mut out: Vec<StdFn> = STD_FNS
            .iter()
            .map(|&(module, name, sig)| {
                let toks = tokenize(sig);
                let mut p = SigParser { toks: &toks, pos: 0, small: Vec::new(), depth: 0, vars: 0 };
                let ty = p.ty();
                let mut arity = 0;
                let mut t = &ty;
                while let Ty::Fn(_, r) = t {
                    arity += 1;
                    t = r;
                }
                let mut small = vec![false; arity];
                for i in p.small {
                    small[i] = true;
                }
                StdFn { module, name, vars: p.vars, ty, small, arity }
            })
            .collect();
        // list.range is last; the generator refers to it by name
        out.push(StdFn {
            module: 3,
            name: "range",
            vars: 0,
            ty: Ty::func(Ty::Int, Ty::func(Ty::Int, Ty::Adt(LIST, vec![Ty::Int]))),
            small: vec![true, true],
            arity: 2,
        });
        out
    })
}

pub fn std_fn(module: usize, name: &str) -> usize {
    std_fns().iter().position(|f| f.module == module && f.name == name).expect("std function")
}

fn tokenize(s: &str) -> Vec<String> {
    s.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_owned()).collect()
}

struct SigParser<'a> {
    toks: &'a [String],
    pos: usize,
    small: Vec<usize>,
    depth: usize,
    vars: usize,
}

impl SigParser<'_> {
    fn peek(&self) -> &str {
        self.toks.get(self.pos).map(|s| s.as_str()).unwrap_or("")
    }

    fn ty(&mut self) -> Ty {
        let mut parts = vec![self.app(0)];
        while self.peek() == "->" {
            self.pos += 1;
            let i = parts.len();
            parts.push(self.app(i));
        }
        let mut t = parts.pop().unwrap();
        while let Some(p) = parts.pop() {
            t = Ty::func(p, t);
        }
        t
    }

    fn app(&mut self, idx: usize) -> Ty {
        let head = self.peek().to_owned();
        let adt = match head.as_str() {
            "Option" => Some((OPTION, 1)),
            "Result" => Some((RESULT, 2)),
            "List" => Some((LIST, 1)),
            "Array" => Some((ARRAY, 1)),
            "ParseErr" => Some((PARSE_ERR, 0)),
            _ => None,
        };
        if let Some((id, n)) = adt {
            self.pos += 1;
            let args = (0..n).map(|_| self.atom(idx)).collect();
            return Ty::Adt(id, args);
        }
        self.atom(idx)
    }

    fn atom(&mut self, idx: usize) -> Ty {
        let t = self.peek().to_owned();
        self.pos += 1;
        match t.as_str() {
            "(" => {
                self.depth += 1;
                let t = self.ty();
                self.depth -= 1;
                self.pos += 1;
                t
            }
            "int" => Ty::Int,
            "#" => {
                assert!(self.depth == 0);
                self.small.push(idx);
                Ty::Int
            }
            "B" => Ty::Bool,
            "S" => Ty::Str,
            "ParseErr" => Ty::Adt(PARSE_ERR, vec![]),
            v => {
                let i = (v.as_bytes()[0] - b'a') as usize;
                assert!(i < 3 && v.len() == 1, "bad signature token {}", v);
                self.vars = self.vars.max(i + 1);
                Ty::Var(i)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Mod,
    Less,
    LessEq,
    Greater,
    GreaterEq,
    Eq,
    NotEq,
}

impl Op {
    pub fn text(self) -> &'static str {
        match self {
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
            Op::Less => "<",
            Op::LessEq => "<=",
            Op::Greater => ">",
            Op::GreaterEq => ">=",
            Op::Eq => "==",
            Op::NotEq => "!=",
        }
    }

    fn prec(self) -> u8 {
        match self {
            Op::Add | Op::Sub => 7,
            Op::Mul | Op::Div | Op::Mod => 9,
            _ => 3,
        }
    }
}

pub type VarId = usize;

#[derive(Clone, Debug)]
pub struct Binding {
    pub id: VarId,
    pub name: String,
}

#[derive(Clone, Debug)]
pub enum Expr {
    Int(u64),
    Bool(bool),
    Str(String),
    Var(VarId, String),
    Global(usize),
    Std(usize),
    Ctor(usize, usize),
    App(Box<Expr>, Box<Expr>),
    Pipe(Box<Expr>, Box<Expr>),
    Bin(Op, Box<Expr>, Box<Expr>),
    If(Box<Expr>, Box<Expr>, Box<Expr>),
    /// `None` if there's no annotation.
    Let(Binding, Option<Ty>, Box<Expr>, Box<Expr>),
    Match(Box<Expr>, usize, Vec<(usize, Vec<Option<Binding>>, Expr)>),
    /// The type if it's a fold.
    Lambda(Binding, Option<usize>, Box<Expr>),
    Hole(String),
}

impl Expr {
    pub fn app(f: Expr, args: Vec<Expr>) -> Expr {
        args.into_iter().fold(f, |f, a| Expr::App(Box::new(f), Box::new(a)))
    }

    pub fn size(&self) -> usize {
        1 + match self {
            Expr::App(a, b) | Expr::Pipe(a, b) | Expr::Bin(_, a, b) | Expr::Let(_, _, a, b) => a.size() + b.size(),
            Expr::If(a, b, c) => a.size() + b.size() + c.size(),
            Expr::Match(a, _, bs) => a.size() + bs.iter().map(|b| b.2.size()).sum::<usize>(),
            Expr::Lambda(_, _, b) => b.size(),
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Item {
    pub module: usize,
    pub name: String,
    pub export: bool,
    pub vars: usize,
    pub ty: Ty,
    pub annotate: bool,
    pub expr: Expr,
}

#[derive(Clone, Debug)]
pub enum Entry {
    Type(usize),
    Item(usize),
}

#[derive(Clone, Debug)]
pub struct Program {
    pub types: Vec<TypeDef>,
    pub items: Vec<Item>,
    /// Order of definitions of each module.
    pub modules: Vec<Vec<Entry>>,
    /// Import names directly rather than through the module name, per module.
    pub direct_imports: Vec<bool>,
    /// Layout: 0 plain, 1 comments and blank lines, 2 carriage returns.
    pub layout: u32,
    pub holes: Vec<String>,
}

pub fn module_path(m: usize) -> String {
    format!("m{}", m)
}

impl Program {
    /// The last module is the root.
    pub fn root(&self) -> usize {
        self.modules.len() - 1
    }

    fn uses(&self, module: usize) -> Uses {
        let mut uses = Uses::default();
        for e in &self.modules[module] {
            match e {
                Entry::Type(t) => {
                    for c in &self.types[*t].ctors {
                        for f in &c.fields {
                            if let Field::Ty(t) = f {
                                self.uses_ty(t, &mut uses);
                            }
                        }
                    }
                }
                Entry::Item(i) => {
                    let item = &self.items[*i];
                    if item.annotate {
                        self.uses_ty(&item.ty, &mut uses);
                    }
                    self.uses_expr(&item.expr, &mut uses);
                }
            }
        }
        uses
    }

    /// The generated modules that a module imports.
    pub fn imports(&self, module: usize) -> Vec<usize> {
        let mut out: Vec<usize> = self
            .uses(module)
            .0
            .keys()
            .filter_map(|h| match h {
                Home::Module(m) if *m != module => Some(*m),
                _ => None,
            })
            .collect();
        out.sort();
        out
    }

    /// The generated modules that the root depends on, with the root.
    pub fn closure(&self) -> Vec<usize> {
        let mut todo = vec![self.root()];
        let mut out = vec![];
        while let Some(m) = todo.pop() {
            if !out.contains(&m) {
                out.push(m);
                todo.extend(self.imports(m));
            }
        }
        out.sort();
        out
    }

    pub fn source(&self, module: usize) -> String {
        let uses = self.uses(module);
        let direct = self.direct_imports[module];
        let mut out = String::new();
        let mut homes: Vec<(Home, Vec<String>)> = uses.0.into_iter().collect();
        homes.sort();
        for (home, mut names) in homes {
            if home == Home::Module(module) {
                continue;
            }
            names.sort();
            names.dedup();
            let (path, alias) = match home {
                Home::Std(s) => (STD[s].0.to_owned(), STD[s].1.to_owned()),
                Home::Module(m) => (module_path(m), module_path(m)),
            };
            if direct && !names.is_empty() {
                writeln!(out, "import {}({}) from \"{}\";", alias, names.join(", "), path).unwrap();
            } else {
                writeln!(out, "import {} from \"{}\";", alias, path).unwrap();
            }
        }
        for e in &self.modules[module] {
            if self.layout == 1 {
                out.push_str("\n-- comment\n");
            }
            let mut p = Printer { prog: self, module, direct, out: &mut out, indent: 1 };
            match e {
                Entry::Type(t) => p.typedef(*t),
                Entry::Item(i) => p.item(*i),
            }
        }
        if self.layout == 2 {
            out = out.replace('\n', "\r\n");
        }
        out
    }

    fn uses_ty(&self, t: &Ty, u: &mut Uses) {
        match t {
            Ty::Fn(a, b) => {
                self.uses_ty(a, u);
                self.uses_ty(b, u);
            }
            Ty::Adt(id, args) => {
                let d = &self.types[*id];
                u.0.entry(d.home).or_default().push(d.name.clone());
                for a in args {
                    self.uses_ty(a, u);
                }
            }
            _ => {}
        }
    }

    fn uses_expr(&self, e: &Expr, u: &mut Uses) {
        match e {
            Expr::Global(i) => {
                let item = &self.items[*i];
                u.0.entry(Home::Module(item.module)).or_default();
            }
            Expr::Std(f) => {
                u.0.entry(Home::Std(std_fns()[*f].module)).or_default();
            }
            Expr::Ctor(t, c) => {
                let d = &self.types[*t];
                u.0.entry(d.home).or_default().push(d.ctors[*c].name.clone());
            }
            Expr::App(a, b) | Expr::Pipe(a, b) | Expr::Bin(_, a, b) => {
                self.uses_expr(a, u);
                self.uses_expr(b, u);
            }
            Expr::Let(_, t, a, b) => {
                if let Some(t) = t {
                    self.uses_ty(t, u);
                }
                self.uses_expr(a, u);
                self.uses_expr(b, u);
            }
            Expr::If(a, b, c) => {
                self.uses_expr(a, u);
                self.uses_expr(b, u);
                self.uses_expr(c, u);
            }
            Expr::Match(s, t, arms) => {
                self.uses_expr(s, u);
                let d = &self.types[*t];
                for (c, _, b) in arms {
                    u.0.entry(d.home).or_default().push(d.ctors[*c].name.clone());
                    self.uses_expr(b, u);
                }
            }
            Expr::Lambda(_, _, b) => self.uses_expr(b, u),
            _ => {}
        }
    }

    pub fn render(&self) -> String {
        let mut s = String::new();
        for m in 0..self.modules.len() {
            writeln!(s, "-- module {}{}", module_path(m), if m == self.root() { " (root)" } else { "" }).unwrap();
            s.push_str(&self.source(m));
        }
        s
    }
}

#[derive(Default)]
struct Uses(HashMap<Home, Vec<String>>);

struct Printer<'a> {
    prog: &'a Program,
    module: usize,
    direct: bool,
    out: &'a mut String,
    indent: usize,
}

impl Printer<'_> {
    fn nl(&mut self) {
        self.out.push('\n');
        for _ in 0..self.indent.min(40) {
            self.out.push_str("  ");
        }
    }

    fn qualify(&mut self, home: Home, name: &str, direct_ok: bool) {
        if home != Home::Module(self.module) && !(self.direct && direct_ok) {
            match home {
                Home::Std(s) => self.out.push_str(STD[s].1),
                Home::Module(m) => self.out.push_str(&module_path(m)),
            }
            self.out.push('.');
        }
        self.out.push_str(name);
    }

    fn ty(&mut self, t: &Ty, prec: u8) {
        match t {
            Ty::Int => self.out.push_str("int"),
            Ty::Bool => self.out.push_str("bool"),
            Ty::Str => self.out.push_str("string"),
            Ty::Var(v) => self.out.push((b'a' + *v as u8) as char),
            Ty::Fn(a, b) => {
                if prec > 0 {
                    self.out.push('(');
                }
                self.ty(a, 1);
                self.out.push_str(" -> ");
                self.ty(b, 0);
                if prec > 0 {
                    self.out.push(')');
                }
            }
            Ty::Adt(id, args) => {
                let paren = prec > 1 && !args.is_empty();
                if paren {
                    self.out.push('(');
                }
                let prog = self.prog;
                let d = &prog.types[*id];
                self.qualify(d.home, &d.name, true);
                for a in args {
                    self.out.push(' ');
                    self.ty(a, 2);
                }
                if paren {
                    self.out.push(')');
                }
            }
        }
    }

    fn typedef(&mut self, id: usize) {
        let prog = self.prog;
        let d = &prog.types[id];
        let export = self.module != prog.root();
        if export {
            self.out.push_str("export ");
        }
        self.out.push_str("type ");
        self.out.push_str(&d.name);
        for p in 0..d.params {
            self.out.push(' ');
            self.out.push((b'a' + p as u8) as char);
        }
        self.out.push_str(" =");
        if export {
            self.out.push_str(" export");
        }
        for (i, c) in d.ctors.iter().enumerate() {
            if i > 0 {
                self.out.push_str(" |");
            }
            self.out.push(' ');
            self.out.push_str(&c.name);
            for f in &c.fields {
                self.out.push(' ');
                match f {
                    Field::Rec => self.out.push_str("rec"),
                    Field::Ty(t) => self.ty(t, 2),
                }
            }
        }
        self.out.push_str(";\n");
    }

    fn item(&mut self, id: usize) {
        let prog = self.prog;
        let item = &prog.items[id];
        if item.export {
            self.out.push_str("export ");
        }
        self.out.push_str("let ");
        self.out.push_str(&item.name);
        if item.annotate {
            self.out.push_str(" : ");
            self.ty(&item.ty, 0);
        }
        self.out.push_str(" =");
        self.nl();
        self.expr(&item.expr, 0);
        self.out.push_str(";\n");
    }

    // 0 - anything, 1.. - binary operand of that precedence, 20 - function of an
    // application, 21 - argument of an application
    fn expr(&mut self, e: &Expr, prec: u8) {
        match e {
            Expr::Int(x) => write!(self.out, "{}", x).unwrap(),
            Expr::Bool(b) => write!(self.out, "{}", b).unwrap(),
            Expr::Str(s) => write!(self.out, "\"{}\"", s).unwrap(),
            Expr::Var(_, n) => self.out.push_str(n),
            Expr::Global(i) => {
                let prog = self.prog;
                let item = &prog.items[*i];
                self.qualify(Home::Module(item.module), &item.name, false);
            }
            Expr::Std(f) => {
                let f = &std_fns()[*f];
                self.qualify(Home::Std(f.module), f.name, false);
            }
            Expr::Ctor(t, c) => {
                let prog = self.prog;
                let d = &prog.types[*t];
                self.qualify(d.home, &d.ctors[*c].name, true);
            }
            Expr::App(f, a) => {
                self.paren(prec > 20, |p| {
                    p.expr(f, 20);
                    p.out.push(' ');
                    p.expr(a, 21);
                });
            }
            Expr::Pipe(a, f) => {
                self.paren(prec > 1, |p| {
                    p.expr(a, 1);
                    p.out.push_str(" |> ");
                    p.expr(f, 2);
                });
            }
            Expr::Bin(op, a, b) => {
                let q = op.prec();
                self.paren(prec > q, |p| {
                    p.expr(a, q);
                    write!(p.out, " {} ", op.text()).unwrap();
                    p.expr(b, q + 1);
                });
            }
            Expr::If(c, t, f) => {
                self.paren(prec > 0, |p| {
                    p.out.push_str("if ");
                    p.expr(c, 0);
                    p.out.push_str(" then");
                    p.indent += 1;
                    p.nl();
                    p.expr(t, 0);
                    p.indent -= 1;
                    p.nl();
                    p.out.push_str("else");
                    p.indent += 1;
                    p.nl();
                    p.expr(f, 0);
                    p.indent -= 1;
                });
            }
            Expr::Let(b, t, v, r) => {
                self.paren(prec > 0, |p| {
                    p.out.push_str("let ");
                    p.out.push_str(&b.name);
                    if let Some(t) = t {
                        p.out.push_str(" : ");
                        p.ty(t, 0);
                    }
                    p.out.push_str(" = ");
                    p.indent += 1;
                    p.expr(v, 0);
                    p.indent -= 1;
                    p.out.push(';');
                    p.nl();
                    p.expr(r, 0);
                });
            }
            Expr::Match(s, t, arms) => {
                let prog = self.prog;
                let d = &prog.types[*t];
                self.paren(prec > 0, |p| {
                    p.out.push_str("match ");
                    p.expr(s, 0);
                    p.out.push_str(" with");
                    for (c, vars, body) in arms {
                        p.nl();
                        p.out.push_str("| ");
                        p.qualify(d.home, &d.ctors[*c].name, true);
                        for v in vars {
                            p.out.push(' ');
                            p.out.push_str(v.as_ref().map(|b| b.name.as_str()).unwrap_or("_"));
                        }
                        p.out.push_str(" -> ");
                        p.indent += 1;
                        p.expr(body, 0);
                        p.indent -= 1;
                    }
                    p.nl();
                    p.out.push_str("end");
                });
            }
            Expr::Lambda(b, fold, body) => {
                self.paren(prec > 0, |p| {
                    p.out.push('\\');
                    if fold.is_some() {
                        p.out.push_str("fold ");
                    }
                    p.out.push_str(&b.name);
                    p.out.push_str(" -> ");
                    p.expr(body, 0);
                });
            }
            Expr::Hole(n) => {
                self.out.push('?');
                self.out.push_str(n);
            }
        }
    }

    fn paren(&mut self, on: bool, f: impl FnOnce(&mut Self)) {
        if on {
            self.out.push('(');
            self.indent += 1;
        }
        f(self);
        if on {
            self.indent -= 1;
            self.out.push(')');
        }
    }
}

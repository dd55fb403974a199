//! Reference evaluator: the strict semantics of the language, written against the
//! generator's syntax tree and independent of the compiler and the engines.

use crate::lang::*;
use std::rc::Rc;

#[derive(Clone)]
pub enum Val {
    Int(u64),
    Bool(bool),
    Str(Rc<[u8]>),
    Ctor(usize, usize, Rc<[Val]>),
    Fn(Rc<Func>),
    Array(Rc<Vec<Val>>),
}

pub enum Func {
    Closure(VarId, Option<usize>, *const Expr, Env),
    Std(usize, Vec<Val>),
    Ctor(usize, usize, Vec<Val>),
}

#[derive(Clone)]
pub struct Env(Option<Rc<EnvNode>>);

pub struct EnvNode {
    id: VarId,
    val: Val,
    next: Env,
}

impl Env {
    fn with(&self, id: VarId, val: Val) -> Env {
        Env(Some(Rc::new(EnvNode { id, val, next: self.clone() })))
    }

    fn get(&self, id: VarId) -> Val {
        let mut e = self;
        loop {
            match &e.0 {
                Some(n) if n.id == id => return n.val.clone(),
                Some(n) => e = &n.next,
                None => crate::harness_error(&format!("unbound variable {}", id)),
            }
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Trap(String),
    Fuel,
}

pub struct Eval<'a> {
    prog: &'a Program,
    globals: Vec<Option<Val>>,
    pub fuel: u64,
    pub steps: u64,
}

const MAX_STR: usize = 1 << 20;

type R<T> = Result<T, Stop>;

impl<'a> Eval<'a> {
    pub fn new(prog: &'a Program, fuel: u64) -> Eval<'a> {
        Eval { prog, globals: vec![None; prog.items.len()], fuel, steps: 0 }
    }

    /// Evaluates all definitions reachable from the root module, in order.
    pub fn run(&mut self) -> R<()> {
        let modules = self.prog.closure();
        for i in 0..self.prog.items.len() {
            if !modules.contains(&self.prog.items[i].module) {
                continue;
            }
            let e = &self.prog.items[i].expr;
            let v = self.eval(e, &Env(None))?;
            self.globals[i] = Some(v);
        }
        Ok(())
    }

    pub fn global(&self, i: usize) -> &Val {
        self.globals[i].as_ref().unwrap()
    }

    /// What `interpret` prints.
    pub fn output(&self) -> String {
        let mut out = String::new();
        let root = self.prog.root();
        for (i, item) in self.prog.items.iter().enumerate() {
            if item.module == root && item.export {
                out.push_str(&item.name);
                out.push_str(" = ");
                self.show(self.global(i), false, &mut out);
                out.push('\n');
            }
        }
        out
    }

    pub fn main(&mut self, input: &[u8]) -> R<Vec<u8>> {
        let i = self.prog.items.iter().position(|i| i.name == "main" && i.module == self.prog.root()).unwrap();
        let f = self.globals[i].clone().unwrap();
        match self.apply(f, Val::Str(input.into()))? {
            Val::Str(s) => Ok(s.to_vec()),
            _ => crate::harness_error("main did not return a string"),
        }
    }

    fn show(&self, v: &Val, atom: bool, out: &mut String) {
        match v {
            Val::Int(i) => out.push_str(&i.to_string()),
            Val::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Val::Str(s) => {
                out.push('"');
                for &b in s.iter() {
                    match b {
                        b'\n' => out.push_str("\\n"),
                        b'\r' => out.push_str("\\r"),
                        32..=126 => out.push(b as char),
                        _ => out.push_str(&format!("\\x{:02x}", b)),
                    }
                }
                out.push('"');
            }
            Val::Ctor(t, c, fields) => {
                let paren = atom && !fields.is_empty();
                if paren {
                    out.push('(');
                }
                out.push_str(&self.prog.types[*t].ctors[*c].name);
                for f in fields.iter() {
                    out.push(' ');
                    self.show(f, true, out);
                }
                if paren {
                    out.push(')');
                }
            }
            Val::Fn(_) => out.push_str(if atom { "(\\_ -> _)" } else { "\\_ -> _" }),
            Val::Array(_) => crate::harness_error("exported array"),
        }
    }

    fn tick(&mut self, n: u64) -> R<()> {
        self.steps += n;
        if self.steps > self.fuel {
            Err(Stop::Fuel)
        } else {
            Ok(())
        }
    }

    fn eval(&mut self, e: &Expr, env: &Env) -> R<Val> {
        self.tick(1)?;
        Ok(match e {
            Expr::Int(x) => Val::Int(*x),
            Expr::Bool(b) => Val::Bool(*b),
            Expr::Str(s) => Val::Str(s.as_bytes().into()),
            Expr::Var(id, _) => env.get(*id),
            Expr::Global(i) => self.global(*i).clone(),
            Expr::Std(f) => {
                if std_fns()[*f].arity == 0 {
                    self.native(*f, vec![])?
                } else {
                    Val::Fn(Rc::new(Func::Std(*f, vec![])))
                }
            }
            Expr::Ctor(t, c) => {
                if self.prog.types[*t].ctors[*c].fields.is_empty() {
                    Val::Ctor(*t, *c, Rc::from(vec![]))
                } else {
                    Val::Fn(Rc::new(Func::Ctor(*t, *c, vec![])))
                }
            }
            Expr::App(f, a) => {
                let f = self.eval(f, env)?;
                let a = self.eval(a, env)?;
                self.apply(f, a)?
            }
            Expr::Pipe(a, f) => {
                let f = self.eval(f, env)?;
                let a = self.eval(a, env)?;
                self.apply(f, a)?
            }
            Expr::Bin(op, a, b) => {
                let a = int(self.eval(a, env)?);
                let b = int(self.eval(b, env)?);
                match op {
                    Op::Add => Val::Int(a.wrapping_add(b)),
                    Op::Sub => Val::Int(a.wrapping_sub(b)),
                    Op::Mul => Val::Int(a.wrapping_mul(b)),
                    Op::Div => Val::Int(if b == 0 { 0 } else { a / b }),
                    Op::Mod => Val::Int(if b == 0 { a } else { a % b }),
                    Op::Less => Val::Bool(a < b),
                    Op::LessEq => Val::Bool(a <= b),
                    Op::Greater => Val::Bool(a > b),
                    Op::GreaterEq => Val::Bool(a >= b),
                    Op::Eq => Val::Bool(a == b),
                    Op::NotEq => Val::Bool(a != b),
                }
            }
            Expr::If(c, t, f) => {
                if boolean(self.eval(c, env)?) {
                    self.eval(t, env)?
                } else {
                    self.eval(f, env)?
                }
            }
            Expr::Let(b, _, v, r) => {
                let v = self.eval(v, env)?;
                self.eval(r, &env.with(b.id, v))?
            }
            Expr::Match(s, _, arms) => {
                let Val::Ctor(_, c, fields) = self.eval(s, env)? else { crate::harness_error("match on a non-constructor") };
                let arm = arms.iter().find(|a| a.0 == c).expect("arm");
                let mut env = env.clone();
                for (b, v) in arm.1.iter().zip(fields.iter()) {
                    if let Some(b) = b {
                        env = env.with(b.id, v.clone());
                    }
                }
                self.eval(&arm.2, &env)?
            }
            Expr::Lambda(b, fold, body) => Val::Fn(Rc::new(Func::Closure(b.id, *fold, &**body, env.clone()))),
            Expr::Hole(n) => return Err(Stop::Trap(n.clone())),
        })
    }

    pub fn apply(&mut self, f: Val, a: Val) -> R<Val> {
        self.tick(1)?;
        let Val::Fn(f) = f else { crate::harness_error("call of a non-function") };
        match &*f {
            Func::Closure(id, None, body, env) => {
                let body = unsafe { &**body };
                self.eval(body, &env.with(*id, a))
            }
            Func::Closure(_, Some(_), ..) => self.fold(&f, a),
            Func::Std(i, args) => {
                let mut args = args.clone();
                args.push(a);
                if args.len() == std_fns()[*i].arity {
                    self.native(*i, args)
                } else {
                    Ok(Val::Fn(Rc::new(Func::Std(*i, args))))
                }
            }
            Func::Ctor(t, c, args) => {
                let mut args = args.clone();
                args.push(a);
                if args.len() == self.prog.types[*t].ctors[*c].fields.len() {
                    Ok(Val::Ctor(*t, *c, args.into()))
                } else {
                    Ok(Val::Fn(Rc::new(Func::Ctor(*t, *c, args))))
                }
            }
        }
    }

    fn fold(&mut self, f: &Rc<Func>, a: Val) -> R<Val> {
        self.tick(1)?;
        let Func::Closure(id, _, body, env) = &**f else { unreachable!() };
        let Val::Ctor(t, c, fields) = a else { crate::harness_error("fold over a non-constructor") };
        let n = fields.len();
        let mut out = Vec::with_capacity(n);
        for i in 0..n {
            let rec = matches!(self.prog.types[t].ctors[c].fields[i], Field::Rec);
            out.push(if rec { self.fold(f, fields[i].clone())? } else { fields[i].clone() });
        }
        let body = unsafe { &**body };
        self.eval(body, &env.with(*id, Val::Ctor(t, c, out.into())))
    }

    fn apply2(&mut self, f: &Val, a: Val, b: Val) -> R<Val> {
        let g = self.apply(f.clone(), a)?;
        self.apply(g, b)
    }

    fn list(&mut self, v: &Val) -> R<Vec<Val>> {
        let mut out = Vec::new();
        let mut v = v.clone();
        loop {
            self.tick(1)?;
            let Val::Ctor(LIST, c, f) = &v else { crate::harness_error("not a list") };
            if *c == 0 {
                return Ok(out);
            }
            out.push(f[0].clone());
            let next = f[1].clone();
            v = next;
        }
    }

    fn native(&mut self, i: usize, a: Vec<Val>) -> R<Val> {
        self.tick(2)?;
        let f = &std_fns()[i];
        Ok(match (f.module, f.name) {
            (_, "iterate") => {
                let mut v = a[2].clone();
                for _ in 0..int(a[0].clone()) {
                    v = self.apply(a[1].clone(), v)?;
                }
                v
            }
            (0, "stringLength") | (4, "length") => Val::Int(string(&a[0]).len() as u64),
            (0, "stringConcat") | (4, "concat") => {
                let mut s = string(&a[0]).to_vec();
                s.extend_from_slice(string(&a[1]));
                self.tick(s.len() as u64 / 64)?;
                if s.len() > MAX_STR {
                    return Err(Stop::Fuel);
                }
                bytes(&s)
            }
            (0, "stringCharAt") | (4, "charAt") => {
                let i = int(a[0].clone());
                let s = string(&a[1]);
                Val::Int(if i < s.len() as u64 { s[i as usize] as u64 } else { 0 })
            }
            (0, "stringSubstring") | (4, "substring") => {
                let start = int(a[0].clone()) as u128;
                let len = int(a[1].clone()) as u128;
                let s = string(&a[2]);
                let n = s.len() as u128;
                let from = start.min(n);
                let to = (start + len).min(n).max(from);
                bytes(&s[from as usize..to as usize])
            }
            (0, "stringFromChar") | (4, "fromChar") => bytes(&[int(a[0].clone()) as u8]),
            (0, "intToString") | (5, "toString") => bytes(int(a[0].clone()).to_string().as_bytes()),

            (1, "map") => match opt(&a[1]) {
                Some(x) => some(self.apply(a[0].clone(), x)?),
                None => none(),
            },
            (1, "andThen") => match opt(&a[1]) {
                Some(x) => self.apply(a[0].clone(), x)?,
                None => none(),
            },
            (1, "flatten") => opt(&a[0]).unwrap_or_else(none),
            (1, "unwrapOr") => opt(&a[1]).unwrap_or_else(|| a[0].clone()),
            (1, "apply") => match (opt(&a[0]), opt(&a[1])) {
                (Some(x), Some(f)) => some(self.apply(f, x)?),
                _ => none(),
            },
            (1, "isSome") => Val::Bool(opt(&a[0]).is_some()),
            (1, "isNone") => Val::Bool(opt(&a[0]).is_none()),

            (2, "map") => match res(&a[1]) {
                Ok(x) => ok(self.apply(a[0].clone(), x)?),
                Err(e) => err(e),
            },
            (2, "mapErr") => match res(&a[1]) {
                Ok(x) => ok(x),
                Err(e) => err(self.apply(a[0].clone(), e)?),
            },
            (2, "andThen") => match res(&a[1]) {
                Ok(x) => self.apply(a[0].clone(), x)?,
                Err(e) => err(e),
            },
            (2, "flatten") => match res(&a[0]) {
                Ok(x) => x,
                Err(e) => err(e),
            },
            (2, "unwrapOr") => res(&a[1]).unwrap_or_else(|_| a[0].clone()),
            (2, "ok") => res(&a[0]).map(some).unwrap_or_else(|_| none()),
            (2, "err") => res(&a[0]).map(|_| none()).unwrap_or_else(some),
            (2, "okOr") => match opt(&a[1]) {
                Some(x) => ok(x),
                None => err(a[0].clone()),
            },
            (2, "apply") => match res(&a[1]) {
                Err(e) => err(e),
                Ok(f) => match res(&a[0]) {
                    Ok(x) => ok(self.apply(f, x)?),
                    Err(e) => err(e),
                },
            },
            (2, "join") => res(&a[0]).unwrap_or_else(|e| e),

            (3, "map") => {
                let l = self.list(&a[1])?;
                let mut out = Vec::new();
                for x in l {
                    out.push(self.apply(a[0].clone(), x)?);
                }
                list(out)
            }
            (3, "filter") => {
                let l = self.list(&a[1])?;
                let mut out = Vec::new();
                for x in l {
                    if boolean(self.apply(a[0].clone(), x.clone())?) {
                        out.push(x);
                    }
                }
                list(out)
            }
            (3, "sum") => Val::Int(self.list(&a[0])?.into_iter().fold(0, |s, x| int(x).wrapping_add(s))),
            (3, "product") => Val::Int(self.list(&a[0])?.into_iter().fold(1, |s, x| int(x).wrapping_mul(s))),
            (3, "any") => Val::Bool(self.list(&a[0])?.into_iter().any(boolean)),
            (3, "all") => Val::Bool(self.list(&a[0])?.into_iter().all(boolean)),
            (3, "head") => self.list(&a[0])?.into_iter().next().map(some).unwrap_or_else(none),
            (3, "tail") => {
                let Val::Ctor(_, c, f) = &a[0] else { unreachable!() };
                if *c == 0 {
                    none()
                } else {
                    some(f[1].clone())
                }
            }
            (3, "reverse") => {
                let mut l = self.list(&a[0])?;
                l.reverse();
                list(l)
            }
            (3, "max") => self.list(&a[0])?.into_iter().map(int).max().map(|x| some(Val::Int(x))).unwrap_or_else(none),
            (3, "min") => self.list(&a[0])?.into_iter().map(int).min().map(|x| some(Val::Int(x))).unwrap_or_else(none),
            (3, n @ ("maxBy" | "minBy")) => {
                let mut l = self.list(&a[1])?;
                let mut best: Option<Val> = None;
                while let Some(x) = l.pop() {
                    best = Some(match best {
                        None => x,
                        Some(y) => {
                            let less = boolean(self.apply2(&a[0], x.clone(), y.clone())?);
                            if less == (n == "maxBy") {
                                y
                            } else {
                                x
                            }
                        }
                    });
                }
                best.map(some).unwrap_or_else(none)
            }
            (3, "allSome") => {
                let l: Option<Vec<Val>> = self.list(&a[0])?.iter().map(opt).collect();
                l.map(|l| some(list(l))).unwrap_or_else(none)
            }
            (3, "allOk") => {
                let l: Result<Vec<Val>, Val> = self.list(&a[0])?.iter().map(res).collect();
                match l {
                    Ok(l) => ok(list(l)),
                    Err(e) => err(e),
                }
            }
            (3, "skip") => {
                let n = int(a[0].clone());
                let l = self.list(&a[1])?;
                list(l.into_iter().skip(n as usize).collect())
            }
            (3, "take") => {
                let n = int(a[0].clone());
                let l = self.list(&a[1])?;
                list(l.into_iter().take(n as usize).collect())
            }
            (3, "length") => Val::Int(self.list(&a[0])?.len() as u64),
            (3, "foldr") => {
                let mut l = self.list(&a[2])?;
                let mut acc = a[1].clone();
                while let Some(x) = l.pop() {
                    acc = self.apply2(&a[0], x, acc)?;
                }
                acc
            }
            (3, "foldl") => {
                let l = self.list(&a[2])?;
                let mut acc = a[0].clone();
                for x in l {
                    acc = self.apply2(&a[1], acc, x)?;
                }
                acc
            }
            (3, "repeat") => list(vec![a[1].clone(); int(a[0].clone()) as usize]),
            (3, "filterMap") => {
                let l = self.list(&a[1])?;
                let mut out = Vec::new();
                for x in l {
                    if let Some(y) = opt(&self.apply(a[0].clone(), x)?) {
                        out.push(y);
                    }
                }
                list(out)
            }
            (3, "concat") => {
                let mut l = self.list(&a[0])?;
                l.extend(self.list(&a[1])?);
                list(l)
            }
            (3, "sortBy") => {
                let l = self.list(&a[1])?;
                list(self.sort(&a[0], l)?)
            }
            (3, "join") => {
                let l = self.list(&a[1])?;
                let sep = string(&a[0]);
                let mut out = Vec::new();
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        out.extend_from_slice(sep);
                    }
                    out.extend_from_slice(string(x));
                    if out.len() > MAX_STR {
                        return Err(Stop::Fuel);
                    }
                }
                self.tick(out.len() as u64 / 64)?;
                bytes(&out)
            }
            (3, "range") => {
                let (x, y) = (int(a[0].clone()), int(a[1].clone()));
                if x > y || y - x > 1000 {
                    crate::harness_error("bad range");
                }
                list((x..y).map(Val::Int).collect())
            }
            (3, "zip") => {
                let x = self.list(&a[1])?;
                let y = self.list(&a[2])?;
                let mut out = Vec::new();
                for (x, y) in x.into_iter().zip(y) {
                    out.push(self.apply2(&a[0], x, y)?);
                }
                list(out)
            }
            (3, "flatMap") => {
                let l = self.list(&a[1])?;
                let mut out = Vec::new();
                for x in l {
                    let r = self.apply(a[0].clone(), x)?;
                    out.extend(self.list(&r)?);
                }
                list(out)
            }
            (3, "flatten") => {
                let l = self.list(&a[0])?;
                let mut out = Vec::new();
                for x in l {
                    out.extend(self.list(&x)?);
                }
                list(out)
            }

            (4, "split") => {
                let c = int(a[0].clone());
                let s = string(&a[1]);
                self.tick(s.len() as u64 * 8)?;
                list(s.split(|b| *b as u64 == c).map(bytes).collect())
            }
            (4, "lines") => {
                let s = string(&a[0]);
                self.tick(s.len() as u64 * 8)?;
                let mut parts: Vec<&[u8]> = s.split(|b| *b == b'\n').collect();
                let last = parts.pop().unwrap();
                let mut out: Vec<Val> = parts.into_iter().map(|p| bytes(p.strip_suffix(b"\r").unwrap_or(p))).collect();
                if !last.is_empty() {
                    out.push(bytes(last));
                }
                list(out)
            }
            (4, "foldChars") => {
                let s = string(&a[2]).to_vec();
                let mut acc = a[0].clone();
                for b in s {
                    self.tick(4)?;
                    acc = self.apply2(&a[1], acc, Val::Int(b as u64))?;
                }
                acc
            }
            (4, "equal") => {
                self.tick(string(&a[0]).len() as u64 * 4)?;
                Val::Bool(string(&a[0]) == string(&a[1]))
            }
            (4, "startsWith") => {
                self.tick(string(&a[0]).len() as u64 * 4)?;
                Val::Bool(string(&a[1]).starts_with(string(&a[0])))
            }
            (4, "chars") => {
                let s = string(&a[0]).to_vec();
                self.tick(s.len() as u64 * 10)?;
                list(s.into_iter().map(|b| Val::Int(b as u64)).collect())
            }
            (4, "trim") => {
                let s = string(&a[0]);
                self.tick(s.len() as u64 * 10)?;
                let end = s.iter().rposition(|b| *b != b' ').map(|i| i + 1).unwrap_or(0);
                let start = s[..end].iter().position(|b| *b != b' ').unwrap_or(end);
                bytes(&s[start..end])
            }
            (4, "newline") => bytes(b"\n"),

            (5, "parse") => {
                let s = string(&a[0]);
                self.tick(s.len() as u64 * 10)?;
                if s.is_empty() || !s.iter().all(|b| b.is_ascii_digit()) {
                    err(Val::Ctor(PARSE_ERR, 0, Rc::from(vec![])))
                } else {
                    ok(Val::Int(s.iter().fold(0u64, |x, b| x.wrapping_mul(10).wrapping_add((b - 48) as u64))))
                }
            }
            (5, "min") => Val::Int(int(a[0].clone()).min(int(a[1].clone()))),
            (5, "max") => Val::Int(int(a[0].clone()).max(int(a[1].clone()))),
            (5, "gcd") => {
                self.tick(500)?;
                Val::Int(gcd(int(a[0].clone()), int(a[1].clone())))
            }
            (5, "lcm") => {
                self.tick(500)?;
                let (x, y) = (int(a[0].clone()), int(a[1].clone()));
                let g = gcd(x, y);
                Val::Int((if g == 0 { 0 } else { x / g }).wrapping_mul(y))
            }
            (5, n @ ("bitXor" | "bitAnd" | "bitOr")) => {
                self.tick(1000)?;
                let (x, y) = (int(a[0].clone()), int(a[1].clone()));
                Val::Int(match n {
                    "bitXor" => x ^ y,
                    "bitAnd" => x & y,
                    _ => x | y,
                })
            }

            (6, "length") => Val::Int(array(&a[0]).len() as u64),
            (6, "empty") => Val::Array(Rc::new(vec![])),
            (6, "new") => {
                self.tick(500)?;
                Val::Array(Rc::new(vec![a[1].clone(); int(a[0].clone()) as usize]))
            }
            (6, "mapIdx") => {
                let i = int(a[0].clone());
                let mut v = (**array(&a[2])).clone();
                if i < v.len() as u64 {
                    v[i as usize] = self.apply(a[1].clone(), v[i as usize].clone())?;
                }
                self.tick(v.len() as u64)?;
                Val::Array(Rc::new(v))
            }
            (6, "set") => {
                let i = int(a[0].clone());
                let mut v = (**array(&a[2])).clone();
                if i < v.len() as u64 {
                    v[i as usize] = a[1].clone();
                }
                self.tick(v.len() as u64)?;
                Val::Array(Rc::new(v))
            }
            (6, "get") => {
                let i = int(a[0].clone());
                array(&a[1]).get(i.min(1 << 40) as usize).cloned().map(some).unwrap_or_else(none)
            }
            (6, "toList") => list((**array(&a[0])).clone()),
            (6, "fromList") => {
                self.tick(1000)?;
                Val::Array(Rc::new(self.list(&a[0])?))
            }
            (6, "truncate") => {
                let n = int(a[0].clone());
                let mut v = (**array(&a[1])).clone();
                v.truncate(n.min(1 << 40) as usize);
                Val::Array(Rc::new(v))
            }
            (m, n) => crate::harness_error(&format!("no native for {}.{}", m, n)),
        })
    }

    fn sort(&mut self, less: &Val, l: Vec<Val>) -> R<Vec<Val>> {
        self.tick(l.len() as u64 * 4)?;
        if l.len() <= 1 {
            return Ok(l);
        }
        let (mut xs, mut ys) = (Vec::new(), Vec::new());
        for (i, x) in l.into_iter().enumerate() {
            if i % 2 == 0 {
                xs.push(x);
            } else {
                ys.push(x);
            }
        }
        let xs = self.sort(less, xs)?;
        let ys = self.sort(less, ys)?;
        let mut out = Vec::new();
        let (mut i, mut j) = (0, 0);
        while i < xs.len() && j < ys.len() {
            if boolean(self.apply2(less, xs[i].clone(), ys[j].clone())?) {
                out.push(xs[i].clone());
                i += 1;
            } else {
                out.push(ys[j].clone());
                j += 1;
            }
        }
        out.extend_from_slice(&xs[i..]);
        out.extend_from_slice(&ys[j..]);
        Ok(out)
    }
}

fn gcd(mut a: u64, mut b: u64) -> u64 {
    while b != 0 {
        let r = a % b;
        a = b;
        b = r;
    }
    a
}

fn int(v: Val) -> u64 {
    match v {
        Val::Int(x) => x,
        _ => crate::harness_error("not an int"),
    }
}

fn boolean(v: Val) -> bool {
    match v {
        Val::Bool(x) => x,
        _ => crate::harness_error("not a bool"),
    }
}

fn string(v: &Val) -> &[u8] {
    match v {
        Val::Str(x) => x,
        _ => crate::harness_error("not a string"),
    }
}

fn array(v: &Val) -> &Rc<Vec<Val>> {
    match v {
        Val::Array(x) => x,
        _ => crate::harness_error("not an array"),
    }
}

fn bytes(b: &[u8]) -> Val {
    Val::Str(b.into())
}

fn opt(v: &Val) -> Option<Val> {
    match v {
        Val::Ctor(OPTION, 0, _) => None,
        Val::Ctor(OPTION, 1, f) => Some(f[0].clone()),
        _ => crate::harness_error("not an option"),
    }
}

fn res(v: &Val) -> Result<Val, Val> {
    match v {
        Val::Ctor(RESULT, 0, f) => Ok(f[0].clone()),
        Val::Ctor(RESULT, 1, f) => Err(f[0].clone()),
        _ => crate::harness_error("not a result"),
    }
}

fn none() -> Val {
    Val::Ctor(OPTION, 0, Rc::from(vec![]))
}

fn some(v: Val) -> Val {
    Val::Ctor(OPTION, 1, Rc::from(vec![v]))
}

fn ok(v: Val) -> Val {
    Val::Ctor(RESULT, 0, Rc::from(vec![v]))
}

fn err(v: Val) -> Val {
    Val::Ctor(RESULT, 1, Rc::from(vec![v]))
}

fn list(v: Vec<Val>) -> Val {
    let mut l = Val::Ctor(LIST, 0, Rc::from(vec![]));
    for x in v.into_iter().rev() {
        l = Val::Ctor(LIST, 1, Rc::from(vec![x, l]));
    }
    l
}

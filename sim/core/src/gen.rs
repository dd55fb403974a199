//! Type-directed generator of tic programs. All choices come from the gen stream.

use crate::lang::*;
use crate::{gchance, gen, gen_range, gweighted, pick};

#[derive(Clone, Debug)]
pub struct Config {
    pub modules: u32,
    pub items: u32,
    pub budget: i32,
    pub holes: bool,
    pub main: bool,
    /// Exported values may be functions.
    pub export_functions: bool,
    /// The weight of library functions (higher: more).
    pub std_weight: u32,
    /// Sharing of names between modules (then nothing is imported directly).
    pub same_names: bool,
    /// Only these layouts.
    pub layouts: u32,
    /// Make some constructors very wide.
    pub wide: bool,
}

impl Config {
    pub fn draw() -> Config {
        Config {
            modules: 1 + gweighted(&[5, 2, 1]) as u32,
            items: gen_range(1, 4),
            budget: *pick(&[40, 80, 160, 300]),
            holes: gchance(1, 5),
            main: gchance(1, 3),
            export_functions: gchance(1, 6),
            std_weight: *pick(&[3, 1, 6, 10]),
            same_names: gchance(1, 4),
            layouts: 3,
            wide: gchance(1, 8),
        }
    }
}

#[derive(Clone)]
struct Local {
    id: VarId,
    name: String,
    ty: Ty,
    /// Variables that can be instantiated are `lo..lo + n`.
    lo: usize,
    n: usize,
    /// The result type, if it's the parameter of a fold (`ty` is the primary type).
    folded: Option<Ty>,
    /// What the fold makes of a smaller value.
    smaller: bool,
}

/// A function, its parameters, its type variables and the first of them.
type Call = (Expr, Vec<Ty>, Vec<Option<Ty>>, usize);

pub struct Gen {
    prog: Program,
    cfg: Config,
    scope: Vec<Local>,
    next_id: VarId,
    budget: i32,
    nodes: u32,
    module: usize,
    /// Rigid type variables below this may be in use.
    rigid: usize,
    next_var: usize,
}

const NAMES: [&str; 12] = ["x", "y", "z", "w", "k", "acc", "go", "p", "q", "s", "t", "n"];

pub fn program(cfg: Config) -> Program {
    let mut g = Gen {
        prog: Program {
            types: std_types(),
            items: Vec::new(),
            modules: Vec::new(),
            direct_imports: Vec::new(),
            layout: 0,
            holes: Vec::new(),
        },
        scope: Vec::new(),
        next_id: 0,
        budget: 0,
        nodes: 0,
        module: 0,
        rigid: 0,
        next_var: 0,
        cfg,
    };
    g.prog.layout = gen(g.cfg.layouts);
    for m in 0..g.cfg.modules as usize {
        g.module(m);
    }
    g.prog
}

pub fn interesting_int() -> u64 {
    match gweighted(&[8, 4, 2, 2, 1, 1]) {
        0 => gen(6) as u64,
        1 => gen(130) as u64,
        2 => *pick(&[10u64, 13, 32, 48, 57, 58, 64, 127, 128, 255, 256, 65, 97]),
        3 => *pick(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) - 1, 1 << 31, 0x7fff_ffff]),
        4 => gen(u32::MAX) as u64,
        _ => (gen(u32::MAX) as u64) << 32 | gen(u32::MAX) as u64,
    }
}

pub fn interesting_str() -> String {
    match gweighted(&[4, 6, 2, 2, 1, 1]) {
        0 => String::new(),
        1 => (0..gen_range(1, 6)).map(|_| *pick(&['a', 'b', ' ', '0', '7', '-', ',', 'Z'])).collect(),
        2 => pick(&["123", "18446744073709551615", "18446744073709551616", "0", "12a", " 7", "007"]).to_string(),
        3 => pick(&["  pad  ", "a,b,,c", "--", "é", "日本", "a\u{1F600}b", "\t|", "a b  c"]).to_string(),
        4 => {
            let unit = *pick(&["ab", "x", "0123456789", "é"]);
            unit.repeat(gen_range(1, 40) as usize)
        }
        _ => {
            let unit = *pick(&["xyz ", "q"]);
            unit.repeat(gen_range(50, 300) as usize)
        }
    }
}

impl Gen {
    fn module(&mut self, m: usize) {
        self.module = m;
        self.prog.modules.push(Vec::new());
        let root = m + 1 == self.cfg.modules as usize;
        let direct = !self.cfg.same_names && gchance(1, 2);
        self.prog.direct_imports.push(direct);
        let n_types = gen(if root { 3 } else { 4 });
        for i in 0..n_types {
            self.type_def(i as usize);
        }
        let n_items = if root { self.cfg.items } else { gen_range(1, 3) };
        for i in 0..n_items {
            // types may also come later
            if gchance(1, 10) {
                self.type_def(10 + i as usize);
            }
            self.item(i as usize, root);
        }
        if root {
            self.uses();
        }
        if root && self.cfg.main {
            self.main_item();
        }
    }

    fn type_def(&mut self, local: usize) {
        let id = self.prog.types.len();
        let uniq = if self.cfg.same_names { local } else { id };
        let params = gweighted(&[5, 3, 1]);
        let n_ctors = gen_range(1, 4) as usize;
        let mut ctors = Vec::new();
        let recursive = gchance(2, 3);
        for c in 0..n_ctors {
            let n_fields = if self.cfg.wide && gchance(1, 4) {
                *pick(&[12u32, 9, 10, 62, 63, 64, 65, 66, 70, 130])
            } else {
                match gweighted(&[3, 4, 4, 2, 1]) {
                    x @ 0..=3 => x as u32,
                    _ => gen_range(4, 8),
                }
            };
            let fields = (0..n_fields)
                .map(|_| {
                    if c > 0 && recursive && gchance(1, 3) {
                        Field::Rec
                    } else if params > 0 && gchance(1, 2) {
                        Field::Ty(Ty::Var(gen(params as u32) as usize))
                    } else {
                        Field::Ty(self.field_ty(params))
                    }
                })
                .collect();
            ctors.push(Ctor { name: format!("C{}{}", uniq, (b'a' + c as u8) as char), fields });
        }
        self.prog.types.push(TypeDef {
            name: format!("T{}", uniq),
            params,
            ctors,
            home: Home::Module(self.module),
        });
        self.prog.modules[self.module].push(Entry::Type(id));
    }

    fn field_ty(&mut self, params: usize) -> Ty {
        match gweighted(&[6, 2, 3, 2, 1]) {
            0 => Ty::Int,
            1 => Ty::Bool,
            2 => Ty::Str,
            3 => {
                let mut t = self.adt_id(1);
                // wide constructors within wide constructors would be enormous
                if self.prog.types[t].ctors.iter().any(|c| c.fields.len() > 8) {
                    t = LIST;
                }
                let n = self.prog.types[t].params;
                let args = (0..n)
                    .map(|_| match gen(if params > 0 { 4 } else { 3 }) {
                        0 => Ty::Int,
                        1 => Ty::Str,
                        2 => Ty::Bool,
                        _ => Ty::Var(gen(params as u32) as usize),
                    })
                    .collect();
                Ty::Adt(t, args)
            }
            _ => Ty::func(Ty::Int, pick(&[Ty::Int, Ty::Str, Ty::Bool]).clone()),
        }
    }

    /// Some data type other than Array.
    fn adt_id(&mut self, std_bias: u32) -> usize {
        let user: Vec<usize> = (5..self.prog.types.len()).collect();
        if !user.is_empty() && !gchance(std_bias, std_bias + 2) {
            return *pick(&user);
        }
        *pick(&[LIST, OPTION, RESULT, LIST])
    }

    fn simple_ty(&mut self, depth: u32) -> Ty {
        // rigid variables that have a value in scope
        let avail: Vec<Ty> = {
            let mut v: Vec<Ty> = Vec::new();
            for l in &self.scope {
                if l.folded.is_none() && l.n == 0 && matches!(l.ty, Ty::Var(_)) && !v.contains(&l.ty) && self.visible(l) {
                    v.push(l.ty.clone());
                }
            }
            v
        };
        {
            match gweighted(&[6, 2, 3, if depth > 0 { 5 } else { 0 }, if depth > 0 { 1 } else { 0 }, if avail.is_empty() { 0 } else { 3 }, if depth > 0 { 1 } else { 0 }]) {
                0 => Ty::Int,
                1 => Ty::Bool,
                2 => Ty::Str,
                3 => {
                    let t = self.adt_id(1);
                    let n = self.prog.types[t].params;
                    let args = (0..n).map(|_| self.simple_ty(depth - 1)).collect();
                    Ty::Adt(t, args)
                }
                4 => {
                    let a = self.simple_ty(depth - 1);
                    let b = self.simple_ty(depth - 1);
                    Ty::func(a, b)
                }
                5 => pick(&avail).clone(),
                _ => {
                    let a = self.simple_ty(depth - 1);
                    Ty::Adt(ARRAY, vec![a])
                }
            }
        }
    }

    /// Whether all type variables have a value in scope.
    fn available(&self, ty: &Ty) -> bool {
        match ty {
            Ty::Var(_) => self.scope.iter().any(|l| l.ty == *ty && l.folded.is_none()),
            Ty::Fn(a, b) => self.available(a) && self.available(b),
            Ty::Adt(_, a) => a.iter().all(|a| self.available(a)),
            _ => true,
        }
    }

    fn visible(&self, l: &Local) -> bool {
        // shadowed names can't be referred to
        self.scope.iter().rev().find(|o| o.name == l.name).map(|o| o.id) == Some(l.id)
    }

    fn printable(&self, t: &Ty) -> bool {
        match t {
            Ty::Fn(..) => self.cfg.export_functions,
            Ty::Var(_) => false,
            Ty::Adt(a, args) => {
                *a != ARRAY
                    && args.iter().all(|a| self.printable(a))
                    && self.prog.types[*a].ctors.iter().all(|c| {
                        c.fields.iter().all(|f| match f {
                            Field::Rec | Field::Ty(Ty::Var(_)) => true,
                            Field::Ty(t) => self.printable_field(t),
                        })
                    })
            }
            _ => true,
        }
    }

    fn printable_field(&self, t: &Ty) -> bool {
        match t {
            Ty::Fn(..) => true,
            Ty::Var(_) => true,
            Ty::Adt(a, args) => *a != ARRAY && args.iter().all(|a| self.printable_field(a)),
            _ => true,
        }
    }

    fn item(&mut self, local: usize, root: bool) {
        let export = gchance(if root { 5 } else { 4 }, 6);
        self.scope.clear();
        self.rigid = 0;
        self.budget = self.cfg.budget;
        let mut fold = None;
        let (vars, ty) = if gchance(1, 3) {
            let (subject, params, result) = self.fold_ty(&Ty::Int);
            let r = params.into_iter().rev().fold(result, |r, p| Ty::func(p, r));
            fold = Some((subject.clone(), r.clone()));
            (0, Ty::func(subject, r))
        } else if gchance(1, 3) {
            self.poly_ty()
        } else {
            let depth = gen(3);
            let mut t = self.simple_ty(depth);
            if root && export && !matches!(t, Ty::Fn(..)) {
                for _ in 0..5 {
                    if self.printable(&t) {
                        break;
                    }
                    t = self.simple_ty(1);
                }
                if !self.printable(&t) {
                    t = Ty::Int;
                }
            }
            (0, t)
        };
        // functions print as `\_ -> _`, which is fine too
        let name = if self.cfg.same_names { format!("v{}", local) } else { format!("v{}_{}", self.module, local) };
        self.rigid = vars;
        self.next_var = vars;
        let expr = if let Some((subject, r)) = fold {
            self.fold_lambda(&subject, &r, 0)
        } else if vars > 0 || matches!(ty, Ty::Fn(..)) && gchance(2, 3) {
            self.lambdas(&ty, 0)
        } else {
            self.expr(&ty, 0)
        };
        // other types may not be determined by the value alone
        let annotate = vars > 0 || self.cfg.holes || !matches!(ty, Ty::Int | Ty::Bool | Ty::Str) || gchance(1, 2);
        let id = self.prog.items.len();
        self.prog.items.push(Item { module: self.module, name, export, vars, ty, annotate, expr });
        self.prog.modules[self.module].push(Entry::Item(id));
    }

    fn main_item(&mut self) {
        self.scope.clear();
        self.rigid = 0;
        self.next_var = 0;
        self.budget = self.cfg.budget;
        let ty = Ty::func(Ty::Str, Ty::Str);
        let expr = self.lambdas(&ty, 0);
        let id = self.prog.items.len();
        self.prog.items.push(Item {
            module: self.module,
            name: "main".into(),
            export: true,
            vars: 0,
            ty,
            annotate: true,
            expr,
        });
        self.prog.modules[self.module].push(Entry::Item(id));
    }

    /// A function type in which each variable has a parameter of its own.
    fn poly_ty(&mut self) -> (usize, Ty) {
        let vars = gen_range(1, 2) as usize;
        let mut params: Vec<Ty> = (0..vars).map(Ty::Var).collect();
        for _ in 0..gen(3) {
            let t = self.ty_over(vars, 1);
            let at = gen(params.len() as u32 + 1) as usize;
            params.insert(at, t);
        }
        let mut t = self.ty_over(vars, 2);
        while let Some(p) = params.pop() {
            t = Ty::func(p, t);
        }
        (vars, t)
    }

    fn ty_over(&mut self, vars: usize, depth: u32) -> Ty {
        match gweighted(&[4, 3, if depth > 0 { 4 } else { 0 }, if depth > 0 { 3 } else { 0 }]) {
            0 => Ty::Var(gen(vars as u32) as usize),
            1 => pick(&[Ty::Int, Ty::Str, Ty::Bool]).clone(),
            2 => {
                let t = self.adt_id(1);
                let n = self.prog.types[t].params;
                Ty::Adt(t, (0..n).map(|_| self.ty_over(vars, depth - 1)).collect())
            }
            _ => {
                let a = self.ty_over(vars, depth - 1);
                let b = self.ty_over(vars, depth - 1);
                Ty::func(a, b)
            }
        }
    }

    fn fresh(&mut self, ty: &Ty) -> Binding {
        let id = self.next_id;
        self.next_id += 1;
        // values of rigid types must stay reachable
        let taken: Vec<&str> = self.scope.iter().filter(|l| matches!(l.ty, Ty::Var(_))).map(|l| l.name.as_str()).collect();
        let name = if gchance(3, 4) && !matches!(ty, Ty::Var(_)) {
            let c = *pick(&NAMES);
            if taken.contains(&c) {
                format!("{}{}", c, id)
            } else {
                c.to_owned()
            }
        } else {
            format!("{}{}", pick(&["a", "b"]), id)
        };
        Binding { id, name }
    }

    fn bind(&mut self, b: &Binding, ty: &Ty, folded: Option<Ty>) {
        self.scope.push(Local { id: b.id, name: b.name.clone(), ty: ty.clone(), lo: 0, n: 0, folded, smaller: false });
    }

    /// All parameters first.
    fn lambdas(&mut self, ty: &Ty, depth: u32) -> Expr {
        match ty {
            Ty::Fn(a, r) => {
                let b = self.fresh(a);
                if gchance(1, 6) && self.foldable(a) && !matches!(**a, Ty::Var(_)) {
                    return self.fold_lambda(a, r, depth);
                }
                let mark = self.scope.len();
                self.bind(&b, a, None);
                let body = self.lambdas(r, depth);
                self.scope.truncate(mark);
                Expr::Lambda(b, None, Box::new(body))
            }
            _ => self.expr(ty, depth),
        }
    }

    fn foldable(&self, t: &Ty) -> bool {
        match t {
            Ty::Adt(id, _) => *id != ARRAY,
            _ => false,
        }
    }

    fn fold_lambda(&mut self, a: &Ty, r: &Ty, depth: u32) -> Expr {
        let Ty::Adt(id, _) = a else { unreachable!() };
        let id = *id;
        let b = self.fresh(a);
        let mark = self.scope.len();
        self.bind(&b, a, Some(r.clone()));
        let scrut = self.scope.last().unwrap().clone();
        // peel some parameters of the result
        let mut params = Vec::new();
        let mut res = r.clone();
        let peel = gchance(1, 2);
        while let (Ty::Fn(p, rest), true) = (&res, peel) {
            let pb = self.fresh(p);
            // the folded value must stay visible
            let pb = if pb.name == scrut.name { Binding { id: pb.id, name: format!("f{}", pb.id) } } else { pb };
            let p = (**p).clone();
            self.bind(&pb, &p, None);
            params.push(pb);
            res = (**rest).clone();
        }
        let body = if gchance(1, 12) {
            self.expr(&res, depth + 1)
        } else {
            self.match_on(Expr::Var(scrut.id, scrut.name.clone()), a, Some(r), &res, depth + 1)
        };
        self.scope.truncate(mark);
        let body = params.into_iter().rev().fold(body, |e, p| Expr::Lambda(p, None, Box::new(e)));
        Expr::Lambda(b, Some(id), Box::new(body))
    }

    fn match_on(&mut self, scrut: Expr, ty: &Ty, folded: Option<&Ty>, result: &Ty, depth: u32) -> Expr {
        let Ty::Adt(id, args) = ty else { unreachable!() };
        let n = self.prog.types[*id].ctors.len();
        let mut order: Vec<usize> = (0..n).collect();
        if n > 1 && gchance(1, 3) {
            let r = gen(n as u32) as usize;
            order.rotate_left(r);
        }
        let m: Vec<Option<Ty>> = args.iter().cloned().map(Some).collect();
        let mut arms = Vec::new();
        for c in order {
            let fields = self.prog.types[*id].ctors[c].fields.clone();
            let mark = self.scope.len();
            let mut vars: Vec<Option<Binding>> = Vec::new();
            for f in &fields {
                let t = match f {
                    Field::Rec => folded.unwrap_or(ty).clone(),
                    Field::Ty(t) => t.subst(&m),
                };
                // names within a pattern are distinct
                if gchance(1, 5) || fields.len() > 8 && gchance(3, 4) {
                    vars.push(None);
                } else {
                    let b = self.fresh(&t);
                    let b = if vars.iter().flatten().any(|v| v.name == b.name) {
                        Binding { id: b.id, name: format!("v{}", b.id) }
                    } else {
                        b
                    };
                    self.bind(&b, &t, None);
                    self.scope.last_mut().unwrap().smaller = matches!(f, Field::Rec) && folded.is_some();
                    vars.push(Some(b));
                }
            }
            let body = self.fold_body(result, depth + 1);
            self.scope.truncate(mark);
            arms.push((c, vars, body));
        }
        Expr::Match(Box::new(scrut), *id, arms)
    }

    fn leaf(&mut self, ty: &Ty) -> Expr {
        self.nodes += 1;
        if self.nodes > 4000 {
            crate::discard("the program is too big");
        }
        // a variable of that type, if there's one
        let vars: Vec<usize> = (0..self.scope.len())
            .filter(|&i| self.scope[i].folded.is_none() && self.scope[i].n == 0 && self.scope[i].ty == *ty && self.visible(&self.scope[i]))
            .collect();
        if !vars.is_empty() && (matches!(ty, Ty::Var(_)) || gchance(3, 4)) {
            let l = &self.scope[*pick(&vars)];
            return Expr::Var(l.id, l.name.clone());
        }
        match ty {
            Ty::Int => Expr::Int(interesting_int()),
            Ty::Bool => Expr::Bool(gchance(1, 2)),
            Ty::Str => Expr::Str(interesting_str()),
            Ty::Var(_) => crate::harness_error(&format!("no value of a rigid type {:?} in scope", ty)),
            Ty::Fn(a, r) => {
                let b = self.fresh(a);
                let mark = self.scope.len();
                self.bind(&b, a, None);
                let body = self.leaf(r);
                self.scope.truncate(mark);
                Expr::Lambda(b, None, Box::new(body))
            }
            Ty::Adt(ARRAY, _) => Expr::Std(std_fn(6, "empty")),
            Ty::Adt(id, args) => {
                let m: Vec<Option<Ty>> = args.iter().cloned().map(Some).collect();
                let fields = self.prog.types[*id].ctors[0].fields.clone();
                let args = fields
                    .iter()
                    .map(|f| match f {
                        Field::Rec => unreachable!(),
                        Field::Ty(t) => self.leaf(&t.subst(&m)),
                    })
                    .collect();
                Expr::app(Expr::Ctor(*id, 0), args)
            }
        }
    }

    fn small(&mut self, depth: u32) -> Expr {
        if gchance(2, 3) || self.budget <= 0 {
            Expr::Int(gen(8) as u64)
        } else {
            let e = self.expr(&Ty::Int, depth + 2);
            Expr::Bin(Op::Mod, Box::new(e), Box::new(Expr::Int(gen_range(1, 7) as u64)))
        }
    }

    /// No expression may use up what is left for those after it.
    pub fn expr(&mut self, ty: &Ty, depth: u32) -> Expr {
        let total = self.budget;
        if depth == 0 || total < 4 || gchance(1, 4) {
            return self.any_expr(ty, depth);
        }
        let share = (total * gen_range(1, 3) as i32 / 4).max(2);
        self.budget = share;
        let e = self.any_expr(ty, depth);
        self.budget = total - (share - self.budget);
        e
    }

    fn any_expr(&mut self, ty: &Ty, depth: u32) -> Expr {
        self.budget -= 1;
        if self.budget <= 0 || depth > 14 {
            return self.leaf(ty);
        }
        if self.cfg.holes && gchance(1, 60) {
            let name = format!("h{}", self.prog.holes.len());
            self.prog.holes.push(name.clone());
            return Expr::Hole(name);
        }
        if let (Ty::Fn(a, r), false) = (ty, self.available(ty)) {
            // has to wait for the parameters
            if self.foldable(a) && gchance(1, 3) {
                return self.fold_lambda(a, r, depth);
            }
            let b = self.fresh(a);
            let mark = self.scope.len();
            self.bind(&b, a, None);
            let body = self.expr(r, depth + 1);
            self.scope.truncate(mark);
            return Expr::Lambda(b, None, Box::new(body));
        }
        let is_fn = matches!(ty, Ty::Fn(..));
        let is_adt = matches!(ty, Ty::Adt(t, _) if *t != ARRAY);
        let has_ops = matches!(ty, Ty::Int | Ty::Bool | Ty::Str);
        let w = [
            2,                                      // leaf
            if has_ops { 5 } else { 0 },            // operator
            if is_adt { 6 } else { 0 },             // constructor
            if is_fn { 8 } else { 0 },              // lambda
            2,                                      // if
            3,                                      // let
            3,                                      // match
            5,                                      // application of something in scope or global
            self.cfg.std_weight,                    // application of a library function
            if is_fn && self.fold_param(ty) { 5 } else { 0 },
            2,                                      // a fold for the occasion
            if depth < 10 && !self.smaller_calls(ty).is_empty() { 8 } else { 0 },
        ];
        match gweighted(&w) {
            0 => self.leaf(ty),
            1 => self.operator(ty, depth),
            2 if gchance(1, 5) => {
                let layers = gen_range(1, 4);
                self.deep(ty, layers, depth)
            }
            2 => {
                let Ty::Adt(id, args) = ty else { unreachable!() };
                let c = gen(self.prog.types[*id].ctors.len() as u32) as usize;
                let m: Vec<Option<Ty>> = args.iter().cloned().map(Some).collect();
                let fields = self.prog.types[*id].ctors[c].fields.clone();
                let args: Vec<Expr> = fields
                    .iter()
                    .map(|f| match f {
                        Field::Rec => self.expr(ty, depth + 1),
                        Field::Ty(t) => self.expr(&t.subst(&m), depth + 1),
                    })
                    .collect();
                Expr::app(Expr::Ctor(*id, c), args)
            }
            3 => {
                let Ty::Fn(a, r) = ty else { unreachable!() };
                let b = self.fresh(a);
                let mark = self.scope.len();
                self.bind(&b, a, None);
                let body = self.expr(r, depth + 1);
                self.scope.truncate(mark);
                Expr::Lambda(b, None, Box::new(body))
            }
            4 => {
                let c = self.expr(&Ty::Bool, depth + 1);
                let t = self.expr(ty, depth + 1);
                let e = self.expr(ty, depth + 1);
                Expr::If(Box::new(c), Box::new(t), Box::new(e))
            }
            5 => self.let_expr(ty, depth),
            6 => {
                // prefer matching on something at hand
                let cands: Vec<usize> = (0..self.scope.len())
                    .filter(|&i| self.scope[i].n == 0 && self.foldable(&self.scope[i].ty) && self.visible(&self.scope[i]))
                    .collect();
                if !cands.is_empty() && gchance(2, 3) {
                    let l = self.scope[*pick(&cands)].clone();
                    self.match_on(Expr::Var(l.id, l.name), &l.ty, l.folded.as_ref(), ty, depth)
                } else {
                    let id = self.adt_id(1);
                    let n = self.prog.types[id].params;
                    let args = (0..n).map(|_| self.simple_ty(1)).collect();
                    let t = Ty::Adt(id, args);
                    let s = self.expr(&t, depth + 1);
                    self.match_on(s, &t, None, ty, depth)
                }
            }
            7 => self.apply_user(ty, depth).unwrap_or_else(|| self.fallback(ty, depth)),
            8 => self.apply_std(ty, depth).unwrap_or_else(|| self.fallback(ty, depth)),
            10 => self.fold_let(ty, depth),
            11 => {
                let cands = self.smaller_calls(ty);
                self.apply_one_of(cands, depth).unwrap_or_else(|| self.fallback(ty, depth))
            }
            _ => {
                let Ty::Fn(a, r) = ty else { unreachable!() };
                self.fold_lambda(a, r, depth)
            }
        }
    }

    fn fallback(&mut self, ty: &Ty, depth: u32) -> Expr {
        match ty {
            Ty::Fn(..) => {
                self.budget -= 1;
                self.lambdas(ty, depth + 1)
            }
            _ => self.leaf(ty),
        }
    }

    fn fold_param(&self, ty: &Ty) -> bool {
        match ty {
            Ty::Fn(a, _) => self.foldable(a),
            _ => false,
        }
    }

    fn operator(&mut self, ty: &Ty, depth: u32) -> Expr {
        match ty {
            Ty::Int => {
                let op = *pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod]);
                let a = self.expr(ty, depth + 1);
                let b = self.expr(ty, depth + 1);
                Expr::Bin(op, Box::new(a), Box::new(b))
            }
            Ty::Bool => {
                let op = *pick(&[Op::Less, Op::LessEq, Op::Greater, Op::GreaterEq, Op::Eq, Op::NotEq]);
                let a = self.expr(&Ty::Int, depth + 1);
                let b = self.expr(&Ty::Int, depth + 1);
                Expr::Bin(op, Box::new(a), Box::new(b))
            }
            _ => {
                let a = self.expr(&Ty::Str, depth + 1);
                let b = self.expr(&Ty::Str, depth + 1);
                let f = if gchance(1, 3) { std_fn(0, "stringConcat") } else { std_fn(4, "concat") };
                Expr::app(Expr::Std(f), vec![a, b])
            }
        }
    }

    fn let_expr(&mut self, ty: &Ty, depth: u32) -> Expr {
        let mark = self.scope.len();
        if gchance(1, 4) {
            // polymorphic
            let lo = self.next_var;
            let n = gen_range(1, 2) as usize;
            self.next_var += n;
            if self.next_var > 20 {
                self.next_var = lo;
                return self.leaf(ty);
            }
            let mut params: Vec<Ty> = (0..n).map(|i| Ty::Var(lo + i)).collect();
            for _ in 0..gen(2) {
                let t = self.simple_ty(1);
                params.push(t);
            }
            let mut t = if gchance(1, 2) { params[0].clone() } else { self.simple_ty(1) };
            if gchance(1, 3) {
                t = Ty::Adt(LIST, vec![t]);
            }
            while let Some(p) = params.pop() {
                t = Ty::func(p, t);
            }
            let v = self.lambdas(&t, depth + 1);
            let b = self.fresh(&t);
            self.scope.truncate(mark);
            self.scope.push(Local { id: b.id, name: b.name.clone(), ty: t.clone(), lo, n, folded: None, smaller: false });
            let rest = self.expr(ty, depth + 1);
            self.scope.truncate(mark);
            return Expr::Let(b, Some(t), Box::new(v), Box::new(rest));
        }
        let t = self.simple_ty(2);
        let v = self.expr(&t, depth + 1);
        let b = self.fresh(&t);
        // types of un-annotated functions might not be known in time
        let annotated = has_fn(&t) || gchance(1, 2);
        self.bind(&b, &t, None);
        let rest = self.expr(ty, depth + 1);
        self.scope.truncate(mark);
        Expr::Let(b, if annotated { Some(t) } else { None }, Box::new(v), Box::new(rest))
    }

    fn apply_user(&mut self, ty: &Ty, depth: u32) -> Option<Expr> {
        let mut cands: Vec<Call> = Vec::new();
        for i in 0..self.scope.len() {
            let l = &self.scope[i];
            if l.folded.is_some() || !self.visible(l) {
                continue;
            }
            let e = Expr::Var(l.id, l.name.clone());
            collect_calls(&e, &l.ty, l.lo, l.n, ty, &mut cands);
        }
        for (i, item) in self.prog.items.iter().enumerate() {
            if item.module == self.module || item.export {
                // a local name hides definitions of the same module
                if item.module == self.module && self.scope.iter().any(|l| l.name == item.name) {
                    continue;
                }
                collect_calls(&Expr::Global(i), &item.ty, 0, item.vars, ty, &mut cands);
            }
        }
        self.apply_one_of(cands, depth)
    }

    /// What folds in scope make of smaller values, applied so as to make a `ty`.
    fn smaller_calls(&self, ty: &Ty) -> Vec<Call> {
        let mut cands = Vec::new();
        for l in self.scope.iter().filter(|l| l.smaller && self.visible(l)) {
            collect_calls(&Expr::Var(l.id, l.name.clone()), &l.ty, l.lo, l.n, ty, &mut cands);
        }
        cands.retain(|c| c.1.iter().all(|p| self.available(p)));
        cands
    }

    /// Often has something that the fold made of a smaller value at a place of note.
    fn fold_body(&mut self, ty: &Ty, depth: u32) -> Expr {
        let some: Vec<Ty> = {
            let mut v = Vec::new();
            for l in self.scope.iter().filter(|l| l.smaller && self.visible(l)) {
                let mut t = &l.ty;
                loop {
                    v.push(t.clone());
                    match t {
                        Ty::Fn(_, r) => t = r,
                        _ => break,
                    }
                }
            }
            v
        };
        if some.is_empty() || !self.available(ty) || self.budget <= 0 || depth > 12 || gchance(1, 2) {
            return self.expr(ty, depth);
        }
        // calls with all the arguments first of all
        let t = if gchance(3, 4) { some.iter().rfind(|t| !matches!(t, Ty::Fn(..))).unwrap_or(&some[0]).clone() } else { pick(&some).clone() };
        let cands = self.smaller_calls(&t);
        let Some(call) = self.apply_one_of(cands, depth + 1) else { return self.expr(ty, depth) };
        match (&t, gen(4)) {
            (Ty::Bool, 0 | 1) => {
                let a = self.expr(ty, depth + 1);
                let b = self.expr(ty, depth + 1);
                Expr::If(Box::new(call), Box::new(a), Box::new(b))
            }
            (Ty::Int, 0) => {
                let with = self.expr(&Ty::Int, depth + 2);
                let op = *pick(&[Op::Less, Op::GreaterEq, Op::Eq]);
                let a = self.expr(ty, depth + 1);
                let b = self.expr(ty, depth + 1);
                Expr::If(Box::new(Expr::Bin(op, Box::new(call), Box::new(with))), Box::new(a), Box::new(b))
            }
            (Ty::Int, 1) if *ty == Ty::Int => {
                let with = self.expr(&Ty::Int, depth + 2);
                let op = *pick(&[Op::Add, Op::Sub, Op::Mul]);
                let (a, b) = if gchance(1, 2) { (call, with) } else { (with, call) };
                Expr::Bin(op, Box::new(a), Box::new(b))
            }
            (Ty::Adt(id, _), 0 | 1) if *id != ARRAY => self.match_on(call, &t, None, ty, depth + 1),
            (_, 3) if t == *ty => call,
            _ => {
                let b = self.fresh(&t);
                let mark = self.scope.len();
                self.bind(&b, &t, None);
                let rest = self.expr(ty, depth + 1);
                self.scope.truncate(mark);
                Expr::Let(b, Some(t), Box::new(call), Box::new(rest))
            }
        }
    }

    /// The types of the folded value, of more parameters and of the result of a fold.
    fn fold_ty(&mut self, ty: &Ty) -> (Ty, Vec<Ty>, Ty) {
        let recursive: Vec<usize> = (0..self.prog.types.len())
            .filter(|&t| t != ARRAY && self.prog.types[t].ctors.iter().any(|c| c.fields.contains(&Field::Rec)))
            .collect();
        let id = *pick(&recursive);
        let n = self.prog.types[id].params;
        let subject = Ty::Adt(id, (0..n).map(|_| self.simple_ty(0)).collect());
        let result = match gen(4) {
            0 => Ty::Bool,
            1 => Ty::Int,
            _ => ty.clone(),
        };
        let params: Vec<Ty> = (0..gweighted(&[1, 3, 2])).map(|_| self.simple_ty(1)).collect();
        (subject, params, result)
    }

    /// Exports what functions make of small values.
    fn uses(&mut self) {
        for f in 0..self.prog.items.len() {
            let Item { module, export, vars, ref ty, .. } = self.prog.items[f];
            let m: Vec<Option<Ty>> = (0..vars).map(|_| Some(Ty::Int)).collect();
            let mut t = ty.subst(&m);
            if !matches!(t, Ty::Fn(..)) || module != self.module && !export {
                continue;
            }
            let mut params = Vec::new();
            while let Ty::Fn(p, r) = t {
                params.push(*p);
                t = *r;
            }
            if !self.printable(&t) {
                continue;
            }
            for k in 0..gweighted(&[1, 4, 2]) {
                self.scope.clear();
                self.rigid = 0;
                self.next_var = 0;
                self.budget = 30;
                let args = params.iter().map(|p| self.deep_or_any(p, gen(5), 1)).collect();
                let expr = Expr::app(Expr::Global(f), args);
                let id = self.prog.items.len();
                let name = format!("u{}_{}", f, k);
                self.prog.items.push(Item { module: self.module, name, export: true, vars: 0, ty: t.clone(), annotate: true, expr });
                self.prog.modules[self.module].push(Entry::Item(id));
            }
        }
    }

    fn deep_or_any(&mut self, ty: &Ty, layers: u32, depth: u32) -> Expr {
        match ty {
            Ty::Adt(..) => self.deep(ty, layers, depth),
            _ => self.expr(ty, depth),
        }
    }

    /// A fold over a list or the like with some more parameters, and a use of it.
    fn fold_let(&mut self, ty: &Ty, depth: u32) -> Expr {
        let (subject, params, result) = self.fold_ty(ty);
        let r = params.iter().rev().fold(result.clone(), |r, p| Ty::func(p.clone(), r));
        if !self.available(&result) {
            return self.leaf(ty);
        }
        let t = Ty::func(subject.clone(), r.clone());
        let mark = self.scope.len();
        let fold = self.fold_lambda(&subject, &r, depth + 1);
        let b = self.fresh(&t);
        self.bind(&b, &t, None);
        let rest = if result == *ty && gchance(2, 3) {
            let mut args = vec![if gchance(3, 4) { self.deep(&subject, 3, depth + 2) } else { self.expr(&subject, depth + 2) }];
            args.extend(params.iter().map(|p| self.expr(p, depth + 2)));
            let f = self.scope.iter().find(|l| l.id == b.id).map(|l| Expr::Var(l.id, l.name.clone())).unwrap();
            self.call(f, args)
        } else {
            self.expr(ty, depth + 1)
        };
        self.scope.truncate(mark);
        Expr::Let(b, Some(t), Box::new(fold), Box::new(rest))
    }

    /// A value with a few layers.
    fn deep(&mut self, ty: &Ty, layers: u32, depth: u32) -> Expr {
        let Ty::Adt(id, args) = ty else { unreachable!() };
        let m: Vec<Option<Ty>> = args.iter().cloned().map(Some).collect();
        let rec: Vec<usize> = (0..self.prog.types[*id].ctors.len())
            .filter(|&c| self.prog.types[*id].ctors[c].fields.contains(&Field::Rec))
            .collect();
        if *id == ARRAY || rec.is_empty() || layers == 0 || self.budget <= 0 {
            return self.expr(ty, depth);
        }
        let c = *pick(&rec);
        let fields = self.prog.types[*id].ctors[c].fields.clone();
        let mut first = true;
        let args: Vec<Expr> = fields
            .iter()
            .map(|f| match f {
                Field::Rec if std::mem::take(&mut first) || gchance(1, 4) => self.deep(ty, layers - 1, depth + 1),
                Field::Rec => self.leaf(ty),
                Field::Ty(t) => {
                    let t = t.subst(&m);
                    if gchance(3, 4) { self.leaf(&t) } else { self.expr(&t, depth + 2) }
                }
            })
            .collect();
        Expr::app(Expr::Ctor(*id, c), args)
    }

    fn apply_one_of(&mut self, mut cands: Vec<Call>, depth: u32) -> Option<Expr> {
        if cands.is_empty() {
            return None;
        }
        let at = gen(cands.len() as u32) as usize;
        let (f, params, mut m, lo) = cands.swap_remove(at);
        for x in m.iter_mut() {
            if x.is_none() {
                *x = Some(self.simple_ty(1));
            }
        }
        let args: Vec<Expr> = params.iter().map(|p| self.expr(&subst_from(p, lo, &m), depth + 1)).collect();
        Some(self.call(f, args))
    }

    fn call(&mut self, f: Expr, mut args: Vec<Expr>) -> Expr {
        if !args.is_empty() && gchance(1, 8) {
            let last = args.pop().unwrap();
            let f = Expr::app(f, args);
            return Expr::Pipe(Box::new(last), Box::new(f));
        }
        Expr::app(f, args)
    }

    fn apply_std(&mut self, ty: &Ty, depth: u32) -> Option<Expr> {
        let fns = std_fns();
        if let Ty::Adt(LIST, a) = ty {
            if a[0] == Ty::Int && gchance(1, 5) {
                let start = interesting_int();
                let len = *pick(&[0u64, 1, 2, 3, 5, 9]);
                let start = start.min(u64::MAX - len);
                return Some(Expr::app(Expr::Std(fns.len() - 1), vec![Expr::Int(start), Expr::Int(start + len)]));
            }
        }
        let mut cands = Vec::new();
        for (i, f) in fns[..fns.len() - 1].iter().enumerate() {
            let mut t = &f.ty;
            let mut k = 0;
            let mut params = Vec::new();
            loop {
                // all small parameters are given here
                if !f.small[k..].iter().any(|s| *s) {
                    let mut m = vec![None; f.vars];
                    // a lone type variable as the result matches everything; fine
                    if t.matches(ty, &mut m) {
                        cands.push((i, params.clone(), m));
                    }
                }
                match t {
                    Ty::Fn(a, r) if k < f.arity => {
                        params.push((**a).clone());
                        t = r;
                        k += 1;
                    }
                    _ => break,
                }
            }
        }
        if cands.is_empty() {
            return None;
        }
        let (i, params, mut m) = cands.swap_remove(gen(cands.len() as u32) as usize);
        for x in m.iter_mut() {
            if x.is_none() {
                *x = Some(self.simple_ty(1));
            }
        }
        let f = &fns[i];
        // positions in strings: around both ends of the string and of the integers
        if matches!(f.name, "substring" | "stringSubstring" | "charAt" | "stringCharAt") && gchance(1, 2) {
            let args: Vec<Expr> = params
                .iter()
                .map(|p| match p {
                    Ty::Int if gchance(1, 4) => {
                        Expr::Int(*pick(&[u64::MAX, u64::MAX - 1, u64::MAX - 3, 1 << 63, (1 << 63) - 1, 1 << 32, u32::MAX as u64]))
                    }
                    Ty::Int => Expr::Int(gen(8) as u64),
                    Ty::Str if gchance(1, 2) => Expr::Str(interesting_str()),
                    p => self.expr(&p.subst(&m), depth + 1),
                })
                .collect();
            return Some(self.call(Expr::Std(i), args));
        }
        let args: Vec<Expr> = params
            .iter()
            .enumerate()
            .map(|(j, p)| if f.small[j] { self.small(depth) } else { self.expr(&p.subst(&m), depth + 1) })
            .collect();
        Some(self.call(Expr::Std(i), args))
    }
}

fn has_fn(t: &Ty) -> bool {
    match t {
        Ty::Fn(..) => true,
        Ty::Adt(_, a) => a.iter().any(has_fn),
        _ => false,
    }
}

fn collect_calls(f: &Expr, ty: &Ty, lo: usize, n: usize, target: &Ty, out: &mut Vec<Call>) {
    let mut params = Vec::new();
    let mut t = ty;
    loop {
        let mut m = vec![None; n];
        if matches_from(t, lo, target, &mut m) {
            out.push((f.clone(), params.clone(), m, lo));
        }
        match t {
            Ty::Fn(a, r) => {
                params.push((**a).clone());
                t = r;
            }
            _ => break,
        }
    }
}

fn matches_from(p: &Ty, lo: usize, target: &Ty, m: &mut [Option<Ty>]) -> bool {
    match (p, target) {
        (Ty::Var(v), t) if *v >= lo && *v - lo < m.len() => match &m[*v - lo] {
            Some(x) => x == t,
            None => {
                m[*v - lo] = Some(t.clone());
                true
            }
        },
        (Ty::Fn(a, b), Ty::Fn(c, d)) => matches_from(a, lo, c, m) && matches_from(b, lo, d, m),
        (Ty::Adt(x, a), Ty::Adt(y, b)) => x == y && a.iter().zip(b).all(|(a, b)| matches_from(a, lo, b, m)),
        (a, b) => a == b,
    }
}

fn subst_from(t: &Ty, lo: usize, m: &[Option<Ty>]) -> Ty {
    match t {
        Ty::Var(v) if *v >= lo && *v - lo < m.len() => m[*v - lo].clone().unwrap(),
        Ty::Fn(a, b) => Ty::func(subst_from(a, lo, m), subst_from(b, lo, m)),
        Ty::Adt(i, a) => Ty::Adt(*i, a.iter().map(|a| subst_from(a, lo, m)).collect()),
        t => t.clone(),
    }
}

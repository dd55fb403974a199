//! What all engine checks share: module resolution, plans for the heap, runs.

use simcore::gen::Config;
use simcore::lang::Program;
use simcore::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use ticc::{CompilationUnit, CompleteUnit, ImportError, ModuleResolver, Options, Runner, Severity};
use ticc_eval::sim::{CollectStats, GcChoice, HeapPlan};

/// Compiles modules from memory when they are asked for.
pub struct Resolver {
    sources: HashMap<String, String>,
    done: Mutex<HashMap<String, CompleteUnit>>,
    options: Options,
}

impl Resolver {
    pub fn new(sources: HashMap<String, String>, options: Options) -> Arc<Resolver> {
        Arc::new(Resolver { sources, done: Mutex::new(HashMap::new()), options })
    }

    pub fn for_program(p: &Program, options: Options) -> Arc<Resolver> {
        let sources = (0..p.modules.len()).map(|m| (simcore::lang::module_path(m), p.source(m))).collect();
        Resolver::new(sources, options)
    }

    pub fn sources(&self) -> Vec<(&String, &String)> {
        let mut v: Vec<_> = self.sources.iter().collect();
        v.sort();
        v
    }

    pub fn unit(self: &Arc<Self>, name: &str) -> CompilationUnit {
        CompilationUnit::new(&self.sources[name], self.options, self.clone())
    }
}

impl ModuleResolver for Resolver {
    fn lookup(self: Arc<Self>, name: &str) -> Result<CompleteUnit, ImportError> {
        if let Some(u) = self.done.lock().unwrap().get(name) {
            return Ok(u.clone());
        }
        let Some(src) = self.sources.get(name) else { return Err(ImportError::DoesNotExist) };
        let unit = CompilationUnit::new(src, self.options, self.clone()).complete();
        self.done.lock().unwrap().insert(name.to_owned(), unit.clone());
        Ok(unit)
    }
}

pub fn options(optimize: bool) -> Options {
    Options { verify: true, optimize }
}

/// Compiler errors in all modules of a program.
pub fn errors(p: &Program, r: &Arc<Resolver>) -> Vec<String> {
    let mut out = Vec::new();
    for m in 0..p.modules.len() {
        let name = simcore::lang::module_path(m);
        let mut unit = r.unit(&name);
        for d in unit.diagnostics() {
            if d.severity == Severity::Error {
                let src = &r.sources[&name];
                let at = d.span.source_range();
                out.push(format!("{}: {:?} `{}`: {}", name, d.span, &src[at], d.message));
            }
        }
    }
    out
}

/// A valid program, or the run is discarded.
pub fn valid_program(cfg: Config) -> Program {
    let p = simcore::gen::program(cfg);
    let text = p.render();
    if text.len() > 60_000 {
        discard("the program is too big");
    }
    trace(|| text);
    let r = Resolver::for_program(&p, options(false));
    let errs = errors(&p, &r);
    if !errs.is_empty() {
        trace(|| format!("compile errors: {:#?}", errs));
        discard("the generated program has compile errors");
    }
    p
}

pub fn engine_name(r: Runner) -> String {
    r.to_string()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum GcMode {
    /// What the engine does by itself, with the default initial size.
    Plain,
    /// What the engine does by itself, with some initial size.
    Sized,
    /// Collect at every allocation.
    Always,
    /// Collect now and then.
    Some,
    /// Never collect unless there's no space.
    Lazy,
    /// Collect exactly once, at a chosen allocation.
    Once,
}

#[derive(Default, Clone)]
pub struct GcLog {
    pub allocs: u64,
    pub collections: u64,
    pub forced: u64,
    pub moved: u64,
    pub max_capacity: usize,
    pub max_live: usize,
    pub max_alloc: usize,
}

pub struct GcPlan {
    pub mode: GcMode,
    pub initial: Option<usize>,
    pub poison: bool,
    pub once_at: u64,
    pub limit: u64,
    pub log: Rc<RefCell<GcLog>>,
}

impl GcPlan {
    pub fn draw(expected_allocs: u64) -> GcPlan {
        let mode = [GcMode::Always, GcMode::Some, GcMode::Once, GcMode::Sized, GcMode::Lazy, GcMode::Plain]
            [weighted(Stream::Sched, &[6, 6, 4, 4, 1, 2])];
        let initial = match mode {
            GcMode::Plain => None,
            _ => Some([256usize, 0, 8, 64, 128, 512, 1024, 4096, 1 << 16][sched(9) as usize]),
        };
        GcPlan {
            mode,
            initial,
            poison: sched(4) != 0,
            once_at: if mode == GcMode::Once { sched(expected_allocs.clamp(1, 1 << 20) as u32) as u64 } else { 0 },
            limit: 3000,
            log: Rc::new(RefCell::new(GcLog::default())),
        }
    }

    /// Leans towards what the engine does by itself, from many sizes.
    pub fn draw_for_sizes(expected_allocs: u64) -> GcPlan {
        let mut p = GcPlan::draw(expected_allocs);
        if sched(3) != 0 {
            p.mode = if sched(4) == 0 { GcMode::Plain } else { GcMode::Sized };
        }
        if p.mode == GcMode::Sized {
            p.initial = Some(match sched(3) {
                0 => 8 * sched(80) as usize,
                1 => sched(3000) as usize,
                _ => 1 << sched(18),
            });
        } else if p.mode == GcMode::Plain {
            p.initial = None;
        }
        p
    }

    pub fn describe(&self) -> String {
        format!(
            "collections: {:?}{}, initial heap {:?}, poison vacated memory: {}",
            self.mode,
            if self.mode == GcMode::Once { format!(" (allocation {})", self.once_at) } else { String::new() },
            self.initial,
            self.poison
        )
    }

    fn choose(&mut self, after: bool) -> GcChoice {
        let mut log = self.log.borrow_mut();
        if log.forced >= self.limit {
            return GcChoice::Default;
        }
        let free = || [0usize, 0, 8, 64, 1024][sched(5) as usize];
        let choice = match self.mode {
            GcMode::Plain | GcMode::Sized => GcChoice::Default,
            GcMode::Always => GcChoice::Collect { free: 0 },
            GcMode::Some => match sched(8) {
                0..=3 => GcChoice::Default,
                4 | 5 => GcChoice::Skip,
                _ => GcChoice::Collect { free: free() },
            },
            GcMode::Lazy => GcChoice::Skip,
            GcMode::Once => {
                if log.allocs == self.once_at && !after {
                    GcChoice::Collect { free: 0 }
                } else {
                    GcChoice::Default
                }
            }
        };
        if matches!(choice, GcChoice::Collect { .. }) {
            log.forced += 1;
        }
        choice
    }
}

impl HeapPlan for GcPlan {
    fn initial_heap_size(&mut self, default: usize) -> usize {
        self.initial.unwrap_or(default)
    }
    fn before_alloc(&mut self, size: usize, _free: usize) -> GcChoice {
        {
            let mut log = self.log.borrow_mut();
            log.max_alloc = log.max_alloc.max(size);
        }
        let c = self.choose(false);
        self.log.borrow_mut().allocs += 1;
        c
    }
    fn after_alloc(&mut self, _allocated: usize, capacity: usize) -> GcChoice {
        {
            let mut log = self.log.borrow_mut();
            log.max_capacity = log.max_capacity.max(capacity);
        }
        self.choose(true)
    }
    fn poison(&mut self) -> bool {
        self.poison
    }
    fn collected(&mut self, s: CollectStats) {
        let mut log = self.log.borrow_mut();
        log.collections += 1;
        if s.allocated_after > 0 {
            log.moved += 1;
        }
        log.max_capacity = log.max_capacity.max(s.capacity_after);
        log.max_live = log.max_live.max(s.allocated_after);
    }
}

pub fn with_plan<T>(plan: GcPlan, f: impl FnOnce() -> T) -> (T, GcLog) {
    let log = plan.log.clone();
    let mode = plan.mode;
    ticc_eval::sim::install(Some(Box::new(plan)));
    let r = f();
    ticc_eval::sim::install(None);
    let log = log.borrow().clone();
    count(&format!("heap plan {:?}", mode), 1);
    count("allocations under a plan", log.allocs);
    count("collections", log.collections);
    count("collections forced by the simulation", log.forced);
    if log.moved > 0 {
        nontrivial();
    }
    steps(log.allocs);
    (r, log)
}

/// A result as text.
pub fn interpret(unit: &mut CompilationUnit, runner: Runner) -> Result<String, String> {
    unit.interpret(runner).map_err(|t| t.message)
}

pub fn interpret_main(unit: &mut CompilationUnit, runner: Runner, input: &[u8]) -> Result<Vec<u8>, String> {
    unit.interpret_main(runner, input).map_err(|t| t.to_string())
}

pub fn main_input() -> Vec<u8> {
    match gweighted(&[2, 4, 2, 2]) {
        0 => vec![],
        1 => simcore::gen::interesting_str().into_bytes(),
        2 => (0..gen(20)).map(|_| *pick(&[b'\n', b'\r', b'a', b' ', b'1', 0, 255, b'"', b'\\'])).collect(),
        _ => {
            let line = simcore::gen::interesting_str();
            format!("{}\n{}\r\n{}", line, line, line).into_bytes()
        }
    }
}

/// Compiles the library once, so that runs need not.
pub fn warm_up() {
    let src: String = simcore::lang::STD.iter().map(|(p, a)| format!("import {} from \"{}\";\n", a, p)).collect();
    let mut unit = CompilationUnit::new(&src, options(true), ticc::NoopModuleResolver::new());
    let _ = unit.diagnostics().count();
}

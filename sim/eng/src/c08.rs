//! C08: import failures stay confined to the import that failed.

use simcore::world::{Def, World};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::io;
use std::sync::{Arc, Mutex};
use ticc::{CompilationUnit, CompleteUnit, ImportError, ModuleResolver, Options, Runner, Severity};
use ticc_syntax::Pos;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded graph of modules whose definitions' dependencies are known by construction, compiled in several epochs with seeded lookup faults (missing, read errors of several kinds, cycles) and finally without; errors, types, definitions and values are compared with what the construction says; non-trivial if a lookup failed while another import of the same module worked; distinct by the hash of the graph and its faults",
        assumptions: &[],
        real: &["ticc compiler, name resolution, type checker, api", "ticc-eval bytecode engine", "the built-in library and its lazy modules"],
        stubs: &["module lookup (in memory, with the drawn faults)"],
        init: crate::common::warm_up,
        quick_runs: 200_000,
        thorough_runs: 20_000_000,
        quick_secs: 60,
        thorough_secs: 700,
        ..Check::new("C08", body)
    }
}

const IO_KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::Interrupted,
    io::ErrorKind::Other,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Fault {
    Missing,
    Io(usize),
    Cycle,
}

impl Fault {
    fn error(self) -> ImportError {
        match self {
            Fault::Missing => ImportError::DoesNotExist,
            Fault::Cycle => ImportError::ImportCycle,
            Fault::Io(k) => ImportError::Io(io::Error::new(IO_KINDS[k], format!("simulated error {}", k))),
        }
    }

    fn message(self) -> String {
        match self {
            Fault::Missing => "cannot find module".to_owned(),
            Fault::Cycle => "import cycle".to_owned(),
            Fault::Io(k) => format!("failed to read module: simulated error {}", k),
        }
    }
}

/// Faults of an epoch: by module and import.
type Faults = BTreeMap<(usize, usize), Fault>;

struct SimResolver {
    world: Arc<World>,
    faults: Faults,
    done: Mutex<HashMap<usize, CompleteUnit>>,
    active: Mutex<Vec<usize>>,
    options: Options,
    failed: Mutex<u64>,
}

impl SimResolver {
    fn unit(self: &Arc<Self>, m: usize) -> CompilationUnit {
        CompilationUnit::new(&self.world.modules[m].source, self.options, self.clone())
    }
}

impl ModuleResolver for SimResolver {
    fn lookup(self: Arc<Self>, path: &str) -> Result<CompleteUnit, ImportError> {
        let nums: Vec<usize> = path[1..].split('-').map(|x| x.parse().unwrap()).collect();
        let (target, importer, import) = (nums[0], nums[1], nums[2]);
        if let Some(f) = self.faults.get(&(importer, import)) {
            *self.failed.lock().unwrap() += 1;
            return Err(f.error());
        }
        if let Some(u) = self.done.lock().unwrap().get(&target) {
            return Ok(u.clone());
        }
        if self.active.lock().unwrap().contains(&target) {
            harness_error("the graph has no cycles of its own");
        }
        self.active.lock().unwrap().push(target);
        let unit = self.unit(target).complete();
        self.active.lock().unwrap().pop();
        self.done.lock().unwrap().insert(target, unit.clone());
        Ok(unit)
    }
}

/// Definitions of a module that cannot be what they would be without the faults.
/// `direct` are those that mention a name that a failing import would supply.
struct Affected {
    direct: BTreeSet<usize>,
    all: BTreeSet<usize>,
}

fn affected(w: &World, faults: &Faults) -> Vec<Affected> {
    let mut out: Vec<Affected> = Vec::new();
    for (mi, m) in w.modules.iter().enumerate() {
        let mut direct = BTreeSet::new();
        let mut all = BTreeSet::new();
        for (di, d) in m.defs.iter().enumerate() {
            if d.imports.iter().any(|i| faults.contains_key(&(mi, *i))) {
                direct.insert(di);
            }
            let through_modules = d.imports.iter().any(|i| {
                let t = m.imports[*i].target;
                t != usize::MAX && w.modules[t].defs.iter().enumerate().any(|(k, x)| out[t].all.contains(&k) && mentions(&d.text, &x.name))
            });
            if direct.contains(&di) || through_modules || d.defs.iter().any(|x| all.contains(x)) {
                all.insert(di);
            }
        }
        out.push(Affected { direct, all });
    }
    out
}

fn mentions(text: &str, word: &str) -> bool {
    text.match_indices(word).any(|(at, _)| {
        let ident = |c: char| c.is_ascii_alphanumeric() || c == '_';
        !text[..at].chars().next_back().map_or(false, ident) && !text[at + word.len()..].chars().next().map_or(false, ident)
    })
}

fn draw_faults(w: &World, earlier: &Faults) -> Faults {
    let mut f = if fault(3) == 0 { earlier.clone() } else { Faults::new() };
    let n = [1, 0, 2, 3][weighted(Stream::Fault, &[5, 1, 3, 2])];
    let sites: Vec<(usize, usize)> = (0..w.modules.len())
        .rev()
        .flat_map(|m| (0..w.modules[m].imports.len()).map(move |i| (m, i)))
        .filter(|(m, i)| w.modules[*m].imports[*i].target != usize::MAX)
        .collect();
    for _ in 0..n {
        if sites.is_empty() {
            break;
        }
        let s = sites[fault(sites.len() as u32) as usize];
        let kind = match fault(4) {
            0 => Fault::Missing,
            1 => Fault::Cycle,
            _ => Fault::Io(fault(IO_KINDS.len() as u32) as usize),
        };
        if fault(4) == 0 {
            // the whole file fails, for everyone
            let target = w.modules[s.0].imports[s.1].target;
            for (m, i) in &sites {
                if w.modules[*m].imports[*i].target == target {
                    f.insert((*m, *i), kind);
                }
            }
        } else {
            f.insert(s, kind);
        }
    }
    f
}

/// What the unit says about a definition when nothing fails.
#[derive(PartialEq, Debug, Clone)]
struct Facts {
    info: String,
    definitions: Vec<Option<(usize, usize)>>,
}

fn facts(u: &mut CompilationUnit, d: &Def) -> Facts {
    let info = match u.info(Pos::new(d.name_at as u32)) {
        Some(i) => format!("{:?} {}", i.span, i.doc),
        None => "none".to_owned(),
    };
    let mut definitions = Vec::new();
    let mut at = d.span.0;
    while at < d.span.1 {
        definitions.push(u.find_definition(Pos::new(at as u32)).map(|s| {
            let r = s.source_range();
            (r.start, r.end)
        }));
        at += 3;
    }
    Facts { info, definitions }
}

fn body() {
    set_hash_seed(sched(1 << 20) as u64);
    let n = gen_range(2, 5) as usize;
    let w = Arc::new(simcore::world::build(n, &mut |target, importer, k| format!("m{}-{}-{}", target, importer, k)));
    for (i, m) in w.modules.iter().enumerate() {
        trace(|| format!("-- module {}\n{}", i, m.source));
        fingerprint_bytes(m.source.as_bytes());
    }
    let options = Options { verify: sched(8) == 7, optimize: sched(2) == 0 };
    let mut base: HashMap<(usize, usize), Facts> = HashMap::new();
    let mut earlier = Faults::new();
    let mut cache: Vec<(Faults, HashMap<usize, CompleteUnit>)> = Vec::new();
    let epochs = 2 + sched(3) as usize;
    for epoch in 0..epochs {
        let faults = if epoch + 1 == epochs { Faults::new() } else { draw_faults(&w, &earlier) };
        trace(|| format!("epoch {}: {:?}", epoch, faults));
        fingerprint_bytes(format!("{:?}", faults).as_bytes());
        for f in faults.values() {
            let n = format!("{:?}", f);
            count(&format!("fault {}", n.split('(').next().unwrap()), 1);
        }
        // modules that are as they were in some earlier epoch may have been kept
        let mut done = HashMap::new();
        if sched(2) == 0 {
            if let Some((old_faults, old)) = cache.last() {
                let mut same = vec![true; w.modules.len()];
                for (m, module) in w.modules.iter().enumerate() {
                    same[m] = module.imports.iter().enumerate().all(|(i, imp)| {
                        imp.target == usize::MAX
                            || (faults.get(&(m, i)) == old_faults.get(&(m, i)) && (faults.contains_key(&(m, i)) || (same[imp.target] && old.contains_key(&imp.target))))
                    });
                    if same[m] {
                        if let Some(u) = old.get(&m) {
                            done.insert(m, u.clone());
                            count("modules kept from an earlier compilation", 1);
                        }
                    }
                }
            }
        }
        let r = Arc::new(SimResolver {
            world: w.clone(),
            faults: faults.clone(),
            done: Mutex::new(done),
            active: Mutex::new(vec![]),
            options,
            failed: Mutex::new(0),
        });
        let aff = affected(&w, &faults);
        // in whatever order the editor asks
        let mut order: Vec<usize> = (0..w.modules.len()).collect();
        for i in 0..order.len() {
            let j = i + sched((order.len() - i) as u32) as usize;
            order.swap(i, j);
        }
        for m in order {
            check_module(&w, &r, m, &faults, &aff[m], &mut base);
            steps(1);
        }
        if faults.keys().any(|(m, _)| w.modules[*m].imports.iter().enumerate().any(|(i, x)| x.target != usize::MAX && !faults.contains_key(&(*m, i)))) {
            nontrivial();
        }
        if faults.is_empty() {
            let root = w.modules.len() - 1;
            let mut expected = String::new();
            for d in &w.modules[root].defs {
                if d.text.starts_with("export let") {
                    match d.value {
                        Some(v) => writeln!(expected, "{} = {}", d.name, v).unwrap(),
                        None => writeln!(expected, "{} = <fn>", d.name).unwrap(),
                    }
                }
            }
            let got = crate::common::interpret(&mut r.unit(root), Runner::Bytecode);
            let got = match got {
                Ok(g) => g.lines().filter(|l| !["make", "open", "mk", "get"].iter().any(|p| l.starts_with(p)) && !l.ends_with("-> _")).collect::<Vec<_>>().join("\n"),
                Err(e) => format!("trap {}", e),
            };
            let expected = expected.lines().filter(|l| !l.ends_with("<fn>")).collect::<Vec<_>>().join("\n");
            ensure!(got == expected, "wrong values", "the repaired program gives\n{}\nexpected\n{}", got, expected);
        }
        let kept = r.done.lock().unwrap().clone();
        cache.push((faults.clone(), kept));
        earlier = faults;
    }
}

fn check_module(w: &Arc<World>, r: &Arc<SimResolver>, mi: usize, faults: &Faults, aff: &Affected, base: &mut HashMap<(usize, usize), Facts>) {
    let m = &w.modules[mi];
    let mut unit = r.unit(mi);
    let mut asked_first = false;
    let ask = |unit: &mut CompilationUnit, d: &Def| facts(unit, d);
    let mut early: HashMap<usize, Facts> = HashMap::new();
    if sched(3) == 0 {
        // questions before the diagnostics
        asked_first = true;
        for (k, d) in m.defs.iter().enumerate() {
            if !aff.all.contains(&k) {
                early.insert(k, ask(&mut unit, d));
            }
        }
    }
    let errors: Vec<(usize, usize, String)> = unit
        .diagnostics()
        .filter(|d| d.severity == Severity::Error)
        .map(|d| {
            let s = d.span.source_range();
            (s.start, s.end, d.message.to_string())
        })
        .collect();
    trace(|| format!("module {}: {} errors", mi, errors.len()));
    observe(format!("{:?}", errors).as_bytes());
    let show = |e: &(usize, usize, String)| format!("{:?} `{}` {}", e.0..e.1, m.source.get(e.0..e.1).unwrap_or("?"), e.2);
    let all = || errors.iter().map(show).collect::<Vec<_>>().join("\n");
    for (i, imp) in m.imports.iter().enumerate() {
        let at: Vec<_> = errors.iter().filter(|e| e.0 < imp.span.1 && imp.span.0 < e.1).collect();
        match faults.get(&(mi, i)) {
            Some(f) => {
                ensure!(
                    at.len() == 1 && (at[0].0, at[0].1) == imp.span && at[0].2 == f.message(),
                    "failed import not reported exactly once",
                    "import {} of module {} fails with {:?}, reported: {:?}\nall errors:\n{}\nsource:\n{}",
                    i, mi, f, at, all(), m.source
                );
            }
            None => {
                ensure!(at.is_empty(), "error at a working import", "import {} of module {} works, but: {:?}\nfaults {:?}\nsource:\n{}", i, mi, at, faults, m.source);
            }
        }
    }
    // every other error is about a name that a failing import would have supplied
    let mut supplied: BTreeSet<&str> = BTreeSet::new();
    for (i, imp) in m.imports.iter().enumerate() {
        if faults.contains_key(&(mi, i)) {
            supplied.extend(imp.alias.as_deref());
            supplied.extend(imp.exposed.iter().map(|s| &s[..]));
        }
    }
    for e in &errors {
        if m.imports.iter().any(|i| (e.0, e.1) == i.span) {
            continue;
        }
        let inside = m.defs.iter().position(|d| d.span.0 <= e.0 && e.1 <= d.span.1);
        let fine = match inside {
            Some(d) => aff.direct.contains(&d) || (aff.all.contains(&d) && !m.defs[d].defs.iter().all(|x| m.defs[*x].annotated)),
            None => false,
        };
        ensure!(fine, "unrelated error", "unexpected error in module {}: {}\nfaults {:?}\nall errors:\n{}\nsource:\n{}", mi, show(e), faults, all(), m.source);
        if supplied.contains(&m.source[e.0..e.1]) && e.2.starts_with("undefined") {
            count("errors about names of failed imports", 1);
        } else {
            // what is known to follow: a match over something whose type is not known
            ensure!(
                e.2.starts_with("cannot match on"),
                "error not about a name of the failed import",
                "unexpected error in module {}: {}\nfaults {:?}\nall errors:\n{}\nsource:\n{}",
                mi, show(e), faults, all(), m.source
            );
            count("errors that follow from others", 1);
        }
    }
    for d in &aff.direct {
        let d = &m.defs[*d];
        ensure!(
            errors.iter().any(|e| d.span.0 <= e.0 && e.1 <= d.span.1),
            "missing name not reported",
            "`{}` of module {} uses names of a failed import, but has no error\nfaults {:?}\nall errors:\n{}\nsource:\n{}",
            d.name, mi, faults, all(), m.source
        );
    }
    // other definitions are what they are without faults
    for (k, d) in m.defs.iter().enumerate() {
        if aff.all.contains(&k) {
            continue;
        }
        let got = facts(&mut unit, d);
        if asked_first {
            ensure!(early[&k] == got, "answer depends on history", "{:?}\nthen\n{:?}\nfor `{}`", early[&k], got, d.name);
        }
        let expected = base.entry((mi, k)).or_insert_with(|| {
            let clean = Arc::new(SimResolver {
                world: w.clone(),
                faults: Faults::new(),
                done: Mutex::new(HashMap::new()),
                active: Mutex::new(vec![]),
                options: r.options,
                failed: Mutex::new(0),
            });
            facts(&mut clean.unit(mi), d)
        });
        // a name exposed by one import is how the module refers to the same thing from another
        let lost = |s: &(usize, usize)| {
            m.imports.iter().enumerate().any(|(i, x)| faults.contains_key(&(mi, i)) && x.line.0 <= s.0 && s.1 <= x.line.1)
        };
        let mut expected = expected.clone();
        for d in &mut expected.definitions {
            if d.as_ref().map_or(false, |s| lost(s)) {
                *d = None;
            }
        }
        for (i, x) in m.imports.iter().enumerate() {
            if faults.contains_key(&(mi, i)) {
                for e in x.exposed.iter().filter(|e| e.starts_with('T')) {
                    expected.info = expected.info.replace(&format!(" {}", e), " ???");
                }
            }
        }
        ensure!(
            expected == got,
            "unaffected definition changed",
            "`{}` of module {} is\n{:?}\nwithout faults, but\n{:?}\nwith {:?}\nsource:\n{}",
            d.name, mi, expected, got, faults, m.source
        );
    }
}

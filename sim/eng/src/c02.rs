//! C02: collection keeps live data intact and bounds the heap by live data.
//!
//! Two workloads: histories of operations on the heap itself, with a shadow object
//! graph as the oracle, and programs with bounded live data on the bytecode engine.

use simcore::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use ticc_eval::sim::{CollectStats, GcChoice, HeapPlan, SimAddr, SimHeap, SimValue};

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded history of allocations, root changes and collections on the real heap (checked against a shadow object graph after every collection), or a program with bounded live data run for growing numbers of steps; non-trivial if at least one collection moved a live object; distinct by the hash of the history",
        assumptions: &["objects only reference older objects, as the engine guarantees (values are immutable)"],
        real: &["ticc-eval heap.rs", "ticc-eval bytecode.rs", "ticc compiler and code generator"],
        stubs: &["roots of heap histories are kept by the harness"],
        quick_runs: 60_000,
        thorough_runs: 3_000_000,
        init: crate::common::warm_up,
        ..Check::new("C02", body)
    }
}

struct Plan {
    initial: usize,
    poison: bool,
    stats: Rc<RefCell<Vec<CollectStats>>>,
}

impl HeapPlan for Plan {
    fn initial_heap_size(&mut self, _default: usize) -> usize {
        self.initial
    }
    fn before_alloc(&mut self, _size: usize, _free: usize) -> GcChoice {
        GcChoice::Default
    }
    fn after_alloc(&mut self, _allocated: usize, _capacity: usize) -> GcChoice {
        GcChoice::Default
    }
    fn poison(&mut self) -> bool {
        self.poison
    }
    fn collected(&mut self, stats: CollectStats) {
        self.stats.borrow_mut().push(stats);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Field {
    Int(u64),
    Node(usize),
}

enum Contents {
    Fields(Vec<Field>),
    Bytes(Vec<u8>),
}

struct Node {
    tag: u64,
    contents: Contents,
    size: usize,
}

fn body() {
    if gchance(1, 16) {
        crate::bounded::body();
    } else {
        history();
    }
}

fn history() {
    let initial = *pick(&[256usize, 0, 8, 24, 40, 64, 100, 1000, 4096, 20_000]);
    let poison = gchance(1, 2);
    let big_objects = gchance(1, 4);
    let ops = gen_range(1, 120);
    let stats = Rc::new(RefCell::new(Vec::new()));
    ticc_eval::sim::install(Some(Box::new(Plan { initial, poison, stats: stats.clone() })));
    trace(|| format!("initial heap size {}, poison vacated memory: {}", initial, poison));
    let mut heap = SimHeap::new();
    let mut nodes: Vec<Node> = Vec::new();
    let mut roots: Vec<(SimAddr, usize)> = Vec::new();
    let mut max_live = 0usize;
    let mut max_request = 0usize;
    let mut moved = false;
    fingerprint(initial as u64);

    for op in 0..ops {
        let kind = gweighted(&[10, 6, 5, 3, 3, 2, 2]);
        fingerprint(kind as u64);
        match kind {
            0 => {
                let n = match gweighted(&[12, 2, if big_objects { 4 } else { 0 }]) {
                    0 => gen(6),
                    1 => gen(20),
                    _ => 50 + gen(200),
                };
                let mut fields = Vec::new();
                for i in 0..n {
                    if roots.is_empty() || gchance(1, 3) {
                        fields.push(Field::Int(if gchance(1, 4) { u64::MAX - i as u64 } else { gen(1 << 20) as u64 * 8 }));
                    } else {
                        fields.push(Field::Node(roots[gen(roots.len() as u32) as usize].1));
                    }
                }
                let tag = gen(1 << 16) as u64;
                let size = SimHeap::object_size(n);
                make_room(&mut heap, &mut roots, &nodes, size, &stats, &mut max_live, &mut moved);
                max_request = max_request.max(size);
                let values: Vec<SimValue> = fields
                    .iter()
                    .map(|f| match f {
                        Field::Int(x) => SimValue::Int(*x),
                        Field::Node(id) => SimValue::Ptr(roots.iter().find(|r| r.1 == *id).unwrap().0),
                    })
                    .collect();
                let before = heap.allocated();
                let addr = heap.alloc_object(tag, &values);
                let size = heap.allocated() - before;
                trace(|| format!("{}: object {} with fields {:?}", op, nodes.len(), fields));
                fingerprint(n as u64);
                nodes.push(Node { tag, contents: Contents::Fields(fields), size });
                roots.push((addr, nodes.len() - 1));
            }
            1 => {
                let len = match gweighted(&[8, 3, 1]) {
                    0 => gen(40),
                    1 => gen(600),
                    _ => gen(20_000),
                } as usize;
                let seed = gen(251);
                let bytes: Vec<u8> = (0..len).map(|i| (i as u32 * 7 + seed) as u8).collect();
                let size = SimHeap::bytes_size(len);
                make_room(&mut heap, &mut roots, &nodes, size, &stats, &mut max_live, &mut moved);
                max_request = max_request.max(size);
                let before = heap.allocated();
                let addr = heap.alloc_bytes(len as u64, &bytes);
                let size = heap.allocated() - before;
                trace(|| format!("{}: object {} with {} bytes", op, nodes.len(), len));
                fingerprint(len as u64);
                nodes.push(Node { tag: len as u64, contents: Contents::Bytes(bytes), size });
                roots.push((addr, nodes.len() - 1));
            }
            2 => {
                if !roots.is_empty() {
                    let i = gen(roots.len() as u32) as usize;
                    trace(|| format!("{}: drop root of object {}", op, roots[i].1));
                    roots.swap_remove(i);
                }
            }
            3 => {
                if !roots.is_empty() {
                    let r = roots[gen(roots.len() as u32) as usize];
                    trace(|| format!("{}: second root for object {}", op, r.1));
                    roots.push(r);
                }
            }
            4 => {
                // follow a pointer
                if !roots.is_empty() {
                    let (addr, id) = roots[gen(roots.len() as u32) as usize];
                    if let Contents::Fields(fs) = &nodes[id].contents {
                        if !fs.is_empty() {
                            let i = gen(fs.len() as u32) as usize;
                            let (_, real) = heap.fields(addr);
                            ensure!(real.len() == fs.len(), "object has wrong number of fields", "object {}: expected {} fields, got {}", id, fs.len(), real.len());
                            match (real[i], fs[i]) {
                                (SimValue::Ptr(p), Field::Node(n)) => {
                                    trace(|| format!("{}: root from field {} of object {}", op, i, id));
                                    roots.push((p, n));
                                }
                                (SimValue::Int(a), Field::Int(b)) if a == b => {}
                                (a, b) => violation("field changed", &format!("object {} field {}: expected {:?}, got {:?}", id, i, b, a)),
                            }
                        }
                    }
                }
            }
            5 => {
                trace(|| format!("{}: collect", op));
                collect(&mut heap, &mut roots, &nodes, None, &stats, &mut max_live, &mut moved);
            }
            _ => {
                let free = *pick(&[1usize, 24, 100, 1000, 30_000]);
                max_request = max_request.max(free);
                trace(|| format!("{}: collect and make sure {} bytes are free", op, free));
                collect(&mut heap, &mut roots, &nodes, Some(free), &stats, &mut max_live, &mut moved);
            }
        }
        steps(1);
        // "a constant multiple": the engine grows to four times the live size
        let bound = initial.max(256) + 16 * (max_live + max_request) + 4096;
        ensure!(
            heap.capacity() <= bound,
            "heap grew without need",
            "capacity {} with at most {} live bytes, largest request {}, initial size {}",
            heap.capacity(), max_live, max_request, initial
        );
    }
    collect(&mut heap, &mut roots, &nodes, None, &stats, &mut max_live, &mut moved);
    observe(&(heap.allocated() as u64).to_le_bytes());
    if moved {
        nontrivial();
    }
}

fn make_room(
    heap: &mut SimHeap,
    roots: &mut Vec<(SimAddr, usize)>,
    nodes: &[Node],
    size: usize,
    stats: &Rc<RefCell<Vec<CollectStats>>>,
    max_live: &mut usize,
    moved: &mut bool,
) {
    if heap.free_space() < size || gchance(1, 12) {
        collect(heap, roots, nodes, Some(size), stats, max_live, moved);
    }
    ensure!(
        heap.free_space() >= size,
        "no room after collection",
        "asked for {} free bytes, got {}",
        size,
        heap.free_space()
    );
}

fn collect(
    heap: &mut SimHeap,
    roots: &mut Vec<(SimAddr, usize)>,
    nodes: &[Node],
    free: Option<usize>,
    stats: &Rc<RefCell<Vec<CollectStats>>>,
    max_live: &mut usize,
    moved: &mut bool,
) {
    verify(heap, roots, nodes, "before");
    let capacity = heap.capacity();
    let mut addrs: Vec<SimAddr> = roots.iter().map(|r| r.0).collect();
    match free {
        None => {
            probe("plain collection");
            heap.collect(&mut addrs)
        }
        Some(free) => {
            probe("growing collection");
            heap.collect_and_grow(&mut addrs, free)
        }
    }
    for (r, a) in roots.iter_mut().zip(addrs) {
        if r.0 != a {
            *moved = true;
            count("live root moved", 1);
        }
        r.0 = a;
    }
    let reachable = verify(heap, roots, nodes, "after");
    *max_live = (*max_live).max(reachable);
    ensure!(
        heap.allocated() == reachable,
        "occupied space differs from reachable objects",
        "after a collection {} bytes are occupied, but reachable objects take {}",
        heap.allocated(),
        reachable
    );
    if let Some(free) = free {
        ensure!(heap.free_space() >= free, "no room after collection", "asked for {} free bytes, got {}", free, heap.free_space());
    }
    if heap.capacity() > capacity {
        probe("heap grew");
    }
    let s = stats.borrow_mut().drain(..).collect::<Vec<_>>();
    ensure!(!s.is_empty(), "collection not reported", "the hook saw no collection");
}

/// Walks the real heap and the shadow graph together. Returns the size of
/// everything reachable.
fn verify(heap: &SimHeap, roots: &[(SimAddr, usize)], nodes: &[Node], when: &str) -> usize {
    let mut addr_of: HashMap<usize, SimAddr> = HashMap::new();
    let mut node_of: HashMap<SimAddr, usize> = HashMap::new();
    let mut todo: Vec<(SimAddr, usize)> = roots.to_vec();
    let mut total = 0;
    while let Some((addr, id)) = todo.pop() {
        if let Some(a) = addr_of.get(&id) {
            ensure!(*a == addr, "object duplicated", "{}: object {} is at two places", when, id);
            continue;
        }
        if let Some(n) = node_of.get(&addr) {
            violation("objects merged", &format!("{}: objects {} and {} are at the same place", when, n, id));
        }
        addr_of.insert(id, addr);
        node_of.insert(addr, id);
        let node = &nodes[id];
        total += node.size;
        match &node.contents {
            Contents::Bytes(b) => {
                let (tag, real) = heap.bytes(addr);
                ensure!(tag == node.tag, "tag changed", "{}: object {}: tag {} instead of {}", when, id, tag, node.tag);
                ensure!(
                    real.len() >= b.len() && &real[..b.len()] == &b[..],
                    "bytes changed",
                    "{}: object {} of {} bytes has different contents",
                    when, id, b.len()
                );
            }
            Contents::Fields(fs) => {
                let (tag, real) = heap.fields(addr);
                ensure!(tag == node.tag, "tag changed", "{}: object {}: tag {} instead of {}", when, id, tag, node.tag);
                ensure!(real.len() == fs.len(), "object has wrong number of fields", "{}: object {}: {} fields instead of {}", when, id, real.len(), fs.len());
                for (i, (r, f)) in real.iter().zip(fs).enumerate() {
                    match (r, f) {
                        (SimValue::Int(a), Field::Int(b)) => {
                            ensure!(a == b, "field changed", "{}: object {} field {}: {} instead of {}", when, id, i, a, b)
                        }
                        (SimValue::Ptr(p), Field::Node(n)) => todo.push((*p, *n)),
                        _ => violation("field changed kind", &format!("{}: object {} field {}: {:?} instead of {:?}", when, id, i, r, f)),
                    }
                }
            }
        }
    }
    total
}

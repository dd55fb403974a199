//! What clients do, and the checks C09 to C13.

use crate::model::*;
use crate::session::*;
use crate::workspace::*;
use lsp_server::{Message, RequestId, Response};
use serde_json::{json, Value};
use simcore::*;
use std::io::ErrorKind;
use url::Url;

#[derive(Clone, Copy)]
struct Knobs {
    steps: (u32, u32),
    /// Weights: open, change, close, disk, query, noise.
    weights: [u32; 6],
    /// Of 40, how often texts are soup (and 12, damaged).
    wild: u32,
    /// Of 12, how often files on disk cannot be read.
    faults: u32,
    endings: bool,
}

const BASE: Check = Check {
    init: warm_up,
    quick_runs: 200_000,
    thorough_runs: 20_000_000,
    quick_secs: 60,
    thorough_secs: 700,
    real: &["ticc-lsp server loop, handlers, compilations, position mapping", "ticc compiler and editor queries", "lsp-server protocol handshake"],
    stubs: &["transport (rendezvous or unbounded channels instead of stdio)", "file system (in memory, with scripted read errors)", "hash seeds"],
    ..Check::new("", nothing)
};

fn nothing() {}

fn warm_up() {
    // the built-in library is compiled once, before anything is forked
    let mut unit = ticc::CompilationUnit::new("import l from \"std/list\";", Default::default(), ticc::NoopModuleResolver::new());
    let _ = unit.diagnostics().count();
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C09",
            body: || run(Knobs { steps: (4, 18), weights: [5, 8, 3, 4, 1, 0], wild: 3, faults: 1, endings: false }),
            rule: "one run is a seeded workspace, a seeded sequence of opens, changes, closes and file changes, and a seeded batching; non-trivial if the server published at least three times; distinct by the hash of all messages sent",
            ..BASE
        },
        Check {
            id: "C10",
            body: || run(Knobs { steps: (6, 24), weights: [3, 4, 1, 1, 12, 0], wild: 3, faults: 0, endings: false }),
            rule: "one run is a seeded workspace and a seeded sequence of edits and position queries; non-trivial if at least two queries had an answer other than null; distinct by the hash of all messages sent",
            ..BASE
        },
        Check {
            id: "C11",
            body: || run(Knobs { steps: (6, 24), weights: [4, 4, 3, 1, 4, 10], wild: 6, faults: 1, endings: false }),
            rule: "one run is a seeded session with arbitrary well-formed and ill-formed messages mixed into ordinary ones; non-trivial if at least two ill-formed messages were sent; distinct by the hash of all messages sent",
            ..BASE
        },
        Check {
            id: "C12",
            body: || run(Knobs { steps: (2, 14), weights: [3, 3, 1, 0, 8, 6], wild: 3, faults: 1, endings: true }),
            rule: "one run is a seeded session of pipelined requests and notifications that ends by shutdown and exit or by disconnecting at a seeded point; non-trivial if at least two requests were sent; distinct by the hash of all messages sent",
            ..BASE
        },
        Check {
            id: "C13",
            body: || run(Knobs { steps: (4, 16), weights: [5, 5, 4, 6, 2, 0], wild: 1, faults: 6, endings: false }),
            rule: "one run is a seeded workspace with files that cannot be read, becoming readable and unreadable again, under a seeded sequence of edits; non-trivial if at least one import was reported as unreadable; distinct by the hash of all messages sent",
            ..BASE
        },
        Check {
            id: "C23",
            body: crate::memory::body,
            rule: "one run is a seeded workspace with some files missing or unreadable and a seeded session that opens, edits, queries and closes documents, repeated many times; non-trivial if documents were opened; distinct by the hash of the session",
            ..BASE
        },
    ]
}

struct Client {
    s: Session,
    ws: Workspace,
    knobs: Knobs,
    /// Documents that are not files.
    others: Vec<Url>,
    /// The current texts that are made of whole lines.
    whole: Vec<(Url, bool)>,
    noise: u64,
    unreadable: u64,
    requests: u64,
}

fn read_fault() -> Entry {
    Entry::Fails(KINDS[fault(KINDS.len() as u32) as usize])
}

fn run(knobs: Knobs) {
    set_hash_seed(sched(1 << 20) as u64);
    let ws = Workspace::draw();
    let mut disk = Disk::default();
    for f in &ws.files {
        if let Some(t) = &f.original {
            if chance(Stream::Fault, knobs.faults, 12) {
                if fault(4) == 0 {
                    continue;
                }
                disk.files.insert(f.path.clone(), read_fault());
            } else {
                disk.files.insert(f.path.clone(), Entry::Text(t.as_str().into()));
            }
        }
    }
    for (p, e) in &disk.files {
        trace(|| format!("-- file {}: {}", p.display(), match e { Entry::Text(t) => t.to_string(), Entry::Fails(k) => format!("{:?}", k) }));
    }
    let capacity = [Some(0), None, Some(3)][sched(3) as usize];
    trace(|| format!("channel capacity {:?}", capacity));
    let outgoing = [None, Some(0), Some(1)][sched(3) as usize];
    trace(|| format!("space for {:?} messages of the server", outgoing));
    let s = Session::start(disk, capacity, outgoing);
    let others = ["untitled:Untitled-1", "http://host/w/m0.tic", "file:///w/m0.txt", "file:///"].iter().map(|u| Url::parse(u).unwrap()).collect();
    let mut c = Client { s, ws, knobs, others, whole: Vec::new(), noise: 0, unreadable: 0, requests: 0 };
    if knobs.endings && c.early_end() {
        return;
    }
    c.s.initialize();
    let steps_wanted = gen_range(knobs.steps.0, knobs.steps.1);
    let batching = sched(3);
    let mut pending = 0;
    for k in 0..steps_wanted {
        c.step(k);
        pending += 1;
        if batching == 0 || sched(4) >= batching {
            fingerprint(pending);
            c.s.settle();
            c.s.check();
            c.check_unreadable();
            pending = 0;
        }
    }
    if !knobs.endings || sched(2) == 0 {
        c.s.settle();
        c.s.check();
        c.check_unreadable();
    }
    steps(steps_wanted as u64);
    count("publications", c.s.publications);
    let (publications, positive, noise, unreadable, requests) = (c.s.publications, c.s.positive, c.noise, c.unreadable, c.requests);
    c.end();
    let enough = match knobs {
        Knobs { endings: true, .. } => requests >= 2,
        _ if knobs.weights[5] > 0 => noise >= 2,
        _ if knobs.faults >= 6 => unreadable >= 1,
        _ if knobs.weights[4] >= 12 => positive >= 2,
        _ => publications >= 3,
    };
    if enough {
        nontrivial();
    }
}

impl Client {
    fn step(&mut self, k: u32) {
        let first = k == 0 && gchance(9, 10);
        let open: Vec<usize> = (0..self.ws.files.len()).filter(|i| self.s.open.contains_key(&self.ws.files[*i].url)).collect();
        let what = if first { 0 } else { gweighted(&self.knobs.weights) };
        match what {
            0 => {
                let i = self.any_file();
                let url = self.ws.files[i].url.clone();
                if self.s.open.contains_key(&url) && self.knobs.weights[5] == 0 {
                    return self.change(i);
                }
                let on_disk = self.s.disk.lock().unwrap().peek(&self.ws.files[i].path);
                let (text, whole) = match on_disk {
                    // editors show what is in the file
                    Ok(t) if gchance(2, 3) => (t.to_string(), false),
                    _ => self.ws.text(i, self.knobs.wild),
                };
                trace(|| format!("open {}:\n{}\n-- end of text", url, text));
                fingerprint_bytes(format!("open {} {}", url, text).as_bytes());
                self.set_whole(&url, whole);
                self.s.open(&url, &text);
            }
            1 if !open.is_empty() => {
                let i = *pick(&open);
                self.change(i);
            }
            2 if !open.is_empty() => {
                let url = self.ws.files[*pick(&open)].url.clone();
                trace(|| format!("close {}", url));
                fingerprint_bytes(format!("close {}", url).as_bytes());
                self.s.close(&url);
                probe("document closed");
            }
            3 => self.change_file(),
            4 if !open.is_empty() => {
                let i = if gchance(1, 20) { self.any_file() } else { *pick(&open) };
                self.query(&self.ws.files[i].url.clone());
            }
            5 => self.noise(),
            _ => {}
        }
    }

    fn any_file(&self) -> usize {
        // mostly those that import others
        let n = self.ws.files.len() as u32;
        if gchance(1, 6) { n as usize - 1 } else { gen(n - 1).max(gen(n - 1)) as usize }
    }

    fn set_whole(&mut self, url: &Url, whole: bool) {
        self.whole.retain(|w| w.0 != *url);
        self.whole.push((url.clone(), whole));
    }

    fn change(&mut self, i: usize) {
        let url = self.ws.files[i].url.clone();
        let n = if self.knobs.weights[5] > 0 { gweighted(&[8, 2, 1]) } else { 0 };
        let n = [1, 2, 0][n];
        let mut texts = Vec::new();
        for _ in 0..n {
            let (text, whole) = self.ws.text(i, self.knobs.wild);
            self.set_whole(&url, whole);
            texts.push(text);
        }
        trace(|| format!("change {}:\n{}\n-- end of text", url, texts.join("\n-- replaced by\n")));
        fingerprint_bytes(format!("change {} {:?}", url, texts).as_bytes());
        self.s.change(&url, &texts);
    }

    /// Files may change when nobody can tell whether the server has already seen them.
    fn change_file(&mut self) {
        // what the server has read is known only when it is idle
        self.s.settle();
        let candidates: Vec<usize> = (0..self.ws.files.len())
            .filter(|i| {
                let f = &self.ws.files[*i];
                self.s.open.contains_key(&f.url) || !self.s.was_read(f)
            })
            .collect();
        if candidates.is_empty() {
            return;
        }
        let i = *pick(&candidates);
        let entry = if chance(Stream::Fault, self.knobs.faults, 12) {
            match fault(5) {
                0 => None,
                _ => Some(read_fault()),
            }
        } else {
            let (text, _) = self.ws.text(i, self.knobs.wild);
            Some(Entry::Text(text.as_str().into()))
        };
        trace(|| format!("file {} is now {:?}", self.ws.files[i].path.display(), entry));
        fingerprint_bytes(format!("file {} {:?}", i, entry).as_bytes());
        probe("file changed on disk");
        let f = &self.ws.files[i];
        self.s.set_disk(f, entry);
    }

    fn position(&self, text: &str) -> Point {
        match gweighted(&[12, 3, 2, 1, 1]) {
            0 => {
                // in or at a word
                let starts: Vec<usize> = text
                    .char_indices()
                    .filter(|(i, c)| {
                        c.is_ascii_alphanumeric() && !text[..*i].chars().next_back().map_or(false, |c| c.is_ascii_alphanumeric() || c == '_')
                    })
                    .map(|x| x.0)
                    .collect();
                if starts.is_empty() {
                    return (0, 0);
                }
                let dotted: Vec<usize> = starts.iter().copied().filter(|i| text[..*i].ends_with('.')).collect();
                let starts = if !dotted.is_empty() && gchance(1, 6) { dotted } else { starts };
                let w = words(text, *pick(&starts))[0];
                let at = w.0 + gen((w.1 - w.0) as u32 + 1) as usize;
                point(text, at)
            }
            1 => {
                let mut at = gen(text.len() as u32 + 1) as usize;
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                let p = point(text, at);
                // between the two ends of a line: nowhere
                if text[..at].ends_with('\r') { (p.0, p.1 - 1) } else { p }
            }
            2 => {
                // past the end of a line
                probe("position past the end of a line");
                let line = gen(text.split('\n').count() as u32);
                (line, *pick(&[1000, 200, u32::MAX >> 1, i32::MAX as u32]))
            }
            3 => {
                probe("position past the last line");
                (text.split('\n').count() as u32 + gen(3), gen(20))
            }
            _ => (u32::MAX >> gen(2), gen(3)),
        }
    }

    fn query(&mut self, url: &Url) {
        let text = self.s.open.get(url).cloned().unwrap_or_else(|| "".into());
        let at = self.position(&text);
        let q = *pick(&QUERIES);
        trace(|| format!("query {:?} at {:?} of {}", q, at, url));
        fingerprint_bytes(format!("{:?} {:?} {}", q, at, url).as_bytes());
        self.requests += 1;
        self.s.query(url, q, at);
    }

    /// Messages that a client should not send, or that mean nothing to this server.
    fn noise(&mut self) {
        self.noise += 1;
        let url = match gen(4) {
            0 => pick(&self.others).clone(),
            _ => self.ws.files[self.any_file()].url.clone(),
        };
        let doc = json!({"uri": url});
        let kind = gen(12);
        fingerprint_bytes(format!("noise {} {}", kind, url).as_bytes());
        match kind {
            0 => {
                let method = *pick(&["workspace/nothing", "textDocument/formatting", "$/progress", "textDocument/rename", "initialize", "", "textDocument/Hover"]);
                let params = pick(&[Value::Null, json!({}), json!([]), json!({"textDocument": doc})]).clone();
                trace(|| format!("unknown request {:?} {}", method, params));
                self.requests += 1;
                probe("noise: unknown request");
                self.s.request(method, params, Expect::Error(&[-32601, -32600]));
            }
            1 => {
                let method = *pick(&["$/cancelRequest", "$/setTrace", "textDocument/didSave", "workspace/didChangeWatchedFiles", "initialized", "x", "textDocument/hover"]);
                let params = pick(&[Value::Null, json!({}), json!({"id": 1}), json!({"textDocument": doc}), json!("x")]).clone();
                trace(|| format!("unknown notification {:?} {}", method, params));
                probe("noise: unknown notification");
                self.s.notify(method, params);
            }
            2 | 3 => {
                let q = *pick(&QUERIES);
                let mut bad = vec![
                    Value::Null,
                    json!([]),
                    json!("text"),
                    json!({}),
                    json!({"textDocument": 5, "position": {"line": 0, "character": 0}, "context": {"includeDeclaration": true}}),
                    json!({"textDocument": {"uri": "no url at all"}, "position": {"line": 0, "character": 0}, "context": {"includeDeclaration": true}}),
                    json!({"position": {"line": 0, "character": 0}, "context": {"includeDeclaration": true}}),
                ];
                if q != Query::Tokens {
                    bad.extend([
                        json!({"textDocument": doc, "context": {"includeDeclaration": true}}),
                        json!({"textDocument": doc, "position": {"line": -1, "character": 0}, "context": {"includeDeclaration": true}}),
                        json!({"textDocument": doc, "position": {"line": 0, "character": 4294967296u64}, "context": {"includeDeclaration": true}}),
                        json!({"textDocument": doc, "position": {"line": "0", "character": 0}, "context": {"includeDeclaration": true}}),
                        json!({"textDocument": doc, "position": {"line": 0}, "context": {"includeDeclaration": true}}),
                    ]);
                }
                let params = pick(&bad).clone();
                trace(|| format!("bad request {} {}", q.method(), params));
                self.requests += 1;
                probe("noise: request with bad parameters");
                self.s.request(q.method(), params, Expect::Error(&[-32602, -32600]));
            }
            4 | 5 => {
                let method = *pick(&["textDocument/didOpen", "textDocument/didChange", "textDocument/didClose"]);
                let params = pick(&[
                    Value::Null,
                    json!([]),
                    json!({}),
                    json!(17),
                    json!({"textDocument": {"uri": "no url at all", "languageId": "tic", "version": 1, "text": "let"}, "contentChanges": [{"text": "let"}]}),
                    json!({"textDocument": {"languageId": "tic", "version": 1, "text": "let"}, "contentChanges": [{"text": "let"}]}),
                    json!({"textDocument": null, "contentChanges": []}),
                ])
                .clone();
                trace(|| format!("bad notification {} {}", method, params));
                probe("noise: notification with bad parameters");
                self.s.notify(method, params);
            }
            6 => {
                // missing fields, of a document that may be open
                let (method, params) = pick(&[
                    ("textDocument/didChange", json!({"textDocument": {"uri": url, "version": 2}})),
                    ("textDocument/didChange", json!({"textDocument": {"uri": url, "version": 2}, "contentChanges": "let"})),
                    ("textDocument/didChange", json!({"textDocument": {"uri": url, "version": 2}, "contentChanges": [{}]})),
                    ("textDocument/didChange", json!({"textDocument": {"uri": url, "version": 2}, "contentChanges": [{"text": 1}]})),
                    ("textDocument/didOpen", json!({"textDocument": {"uri": url}})),
                    ("textDocument/didOpen", json!({"textDocument": {"uri": url, "languageId": "tic", "version": "one", "text": "let"}})),
                ])
                .clone();
                trace(|| format!("incomplete notification {} {}", method, params));
                probe("noise: incomplete notification");
                self.s.notify(method, params);
            }
            7 => {
                if !self.s.open.contains_key(&url) {
                    trace(|| format!("change of {}, which is not open", url));
                    probe("noise: change of a document that is not open");
                    let texts: Vec<String> = (0..gen(3)).map(|_| "let x : int = ;".to_owned()).collect();
                    self.s.change(&url, &texts);
                } else {
                    trace(|| format!("{} opened again", url));
                    probe("noise: opened again");
                    self.s.open(&url, "export let val0 = 1;");
                }
            }
            8 => {
                trace(|| format!("close {}, whether open or not", url));
                probe(if self.s.open.contains_key(&url) { "document closed" } else { "noise: close of a document that is not open" });
                self.s.close(&url);
            }
            9 => {
                trace(|| "a response to nothing".into());
                probe("noise: response to nothing");
                let id = if gchance(1, 2) { RequestId::from(gen(5) as i32) } else { RequestId::from("x".to_owned()) };
                self.s.send(Message::Response(Response { id, result: Some(json!({})), error: None }));
            }
            10 => {
                // documents that are not files, or not in the workspace
                let url = pick(&self.others).clone();
                let text = pick(&["", "let x : int = y;", "import m from \"./m0.tic\"; let q = m.val0;", "import m from \"m0.tic\"; import n from \"../w/m0.tic\";"]).to_string();
                trace(|| format!("open {}: {}", url, text));
                probe("noise: document that is no workspace file");
                self.s.open(&url, &text);
            }
            _ => {
                // a query about anything
                probe("noise: query about any document");
                self.query(&url);
            }
        }
    }

    /// Imports of files that cannot be read are reported one by one.
    fn check_unreadable(&mut self) {
        let view = self.s.view();
        for (url, whole) in self.whole.clone() {
            let Some(text) = self.s.open.get(&url).cloned() else { continue };
            let (mut failing, mut missing) = (0, 0);
            for line in text.split(';') {
                // the code after comments and strings that were added in front
                let Some(at) = line.find("import ") else { continue };
                let Some((_, rest)) = line[at..].split_once(" from \"") else { continue };
                let path = rest.trim_end().trim_end_matches('"');
                if path.starts_with("std/") {
                    continue;
                }
                let Some(target) = resolve(&url, path) else { continue };
                if target == plain(&url) {
                    continue;
                }
                match view.get(&target) {
                    Err(ErrorKind::NotFound) => missing += 1,
                    Err(_) => failing += 1,
                    Ok(_) => {}
                }
            }
            let (f, m) = (self.s.saying(&url, "failed to read module"), self.s.saying(&url, "cannot find module"));
            self.unreadable += f as u64;
            if whole {
                ensure!(
                    f == failing && m == missing,
                    "failed imports are not reported one by one",
                    "{} has {} imports of unreadable files and {} of missing ones, of which {} and {} are reported:\n{}",
                    url, failing, missing, f, m, text
                );
            }
        }
    }

    /// Endings before the session has begun.
    fn early_end(&mut self) -> bool {
        match sched(16) {
            15 => {
                probe("end: disconnected before initialize");
                trace(|| "the client disconnects before initialize".into());
            }
            14 => {
                probe("end: requests before initialize");
                trace(|| "requests before initialize, then the client disconnects".into());
                for _ in 0..sched(3) + 1 {
                    self.s.request("textDocument/hover", json!({}), Expect::Error(&[-32002]));
                }
            }
            13 => {
                probe("end: disconnected while initializing");
                trace(|| "the client disconnects after initialize".into());
                let params = json!({"capabilities": {}});
                self.s.request("initialize", params, Expect::Ok);
            }
            _ => return false,
        }
        let s = std::mem::replace(&mut self.s, Session::start(Disk::default(), None, None));
        fingerprint(self.noise);
        s.finish(true);
        true
    }

    fn end(mut self) {
        let kind = if self.knobs.endings { sched(5) } else { sched(2) };
        fingerprint(kind as u64);
        match kind {
            0 => {
                trace(|| "shutdown, exit".into());
                probe("end: shutdown and exit");
                self.s.shutdown();
                self.s.notify("exit", Value::Null);
                self.s.wait_exit();
            }
            1 => {
                trace(|| "the client disconnects".into());
                probe("end: disconnected");
            }
            2 => {
                // more requests just before
                for _ in 0..gen_range(1, 4) {
                    let url = self.ws.files[self.any_file()].url.clone();
                    self.query(&url);
                }
                trace(|| "shutdown, exit, right after requests".into());
                probe("end: shutdown and exit after requests");
                self.s.shutdown();
                self.s.notify("exit", Value::Null);
                self.s.wait_exit();
            }
            3 => {
                for _ in 0..gen_range(1, 4) {
                    let url = self.ws.files[self.any_file()].url.clone();
                    self.query(&url);
                }
                trace(|| "the client disconnects right after requests".into());
                probe("end: disconnected after requests");
            }
            _ => {
                trace(|| "shutdown, then the client disconnects".into());
                probe("end: shutdown and disconnected");
                self.s.shutdown();
            }
        }
        self.s.finish(true);
    }
}

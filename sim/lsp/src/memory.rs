//! C23: the language server does not grow with the length of the session.

use crate::model::*;
use crate::workspace::*;
use crossbeam_channel::{Receiver, Sender};
use lsp_server::{Connection, Message, Notification, Request, RequestId};
use serde_json::{json, Value};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

const PATIENCE: Duration = Duration::from_secs(60);

struct Wire {
    to: Sender<Message>,
    from: Receiver<Message>,
    syncs: i32,
}

impl Wire {
    fn send(&self, m: Message) {
        if self.to.send_timeout(m, PATIENCE).is_err() {
            violation("the server is stuck or gone", "it does not take a message");
        }
    }

    fn note(&self, method: &str, params: Value) {
        self.send(Message::Notification(Notification { method: method.to_owned(), params }));
    }

    /// Waits until everything that was sent has been handled; how many messages came.
    fn sync(&mut self) -> u64 {
        self.syncs += 1;
        let id = RequestId::from(-1 - self.syncs % 1000);
        self.send(Message::Request(Request { id: id.clone(), method: "sync".to_owned(), params: Value::Null }));
        let mut n = 0;
        loop {
            match self.from.recv_timeout(PATIENCE) {
                Ok(Message::Response(r)) if r.id == id => return n,
                Ok(_) => n += 1,
                Err(_) => violation("the server is stuck or gone", "it does not answer"),
            }
        }
    }
}

enum Step {
    /// (What is done if it is still open from the round before: 0 nothing, 1 a change, 2 the same again.)
    Open(usize, String, u32),
    Change(usize, String),
    Close(usize),
    Ask(usize, Query, Point),
}

/// A part of a session that can be repeated.
fn script(ws: &Workspace) -> Vec<Step> {
    let n = ws.files.len() as u32;
    let mut open: BTreeMap<usize, String> = BTreeMap::new();
    let mut steps = Vec::new();
    for _ in 0..gen_range(2, 16) {
        let i = if open.is_empty() || gchance(1, 4) { gen(n) as usize } else { *pick(&open.keys().copied().collect::<Vec<_>>()) };
        if !open.contains_key(&i) {
            let (text, _) = ws.text(i, 4);
            open.insert(i, text.clone());
            steps.push(Step::Open(i, text, gen(3)));
            continue;
        }
        match gweighted(&[5, 1, 8]) {
            0 => {
                let (text, _) = ws.text(i, 4);
                open.insert(i, text.clone());
                steps.push(Step::Change(i, text));
            }
            1 => {
                open.remove(&i);
                steps.push(Step::Close(i));
            }
            _ => {
                let text = &open[&i];
                let mut at = gen(text.len() as u32 + 1) as usize;
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                steps.push(Step::Ask(i, *pick(&QUERIES), point(text, at)));
            }
        }
    }
    for i in open.keys() {
        if gchance(2, 3) {
            steps.push(Step::Close(*i));
        } else {
            probe("document stays open");
        }
    }
    steps
}

fn describe(ws: &Workspace, s: &Step) -> String {
    match s {
        Step::Open(i, t, _) => format!("open {}:\n{}\n-- end of text", ws.files[*i].url, t),
        Step::Change(i, t) => format!("change {}:\n{}\n-- end of text", ws.files[*i].url, t),
        Step::Close(i) => format!("close {}", ws.files[*i].url),
        Step::Ask(i, q, at) => format!("{:?} at {:?} of {}", q, at, ws.files[*i].url),
    }
}

pub fn body() {
    set_hash_seed(sched(1 << 20) as u64);
    let ws = Workspace::draw();
    let mut disk: BTreeMap<std::path::PathBuf, Result<Arc<str>, std::io::ErrorKind>> = BTreeMap::new();
    for f in &ws.files {
        let Some(t) = &f.original else { continue };
        match fault(8) {
            0 => {}
            1 => {
                disk.insert(f.path.clone(), Err(crate::session::KINDS[fault(12) as usize]));
            }
            _ => {
                disk.insert(f.path.clone(), Ok(t.as_str().into()));
            }
        }
    }
    trace(|| format!("files {:?}", disk));
    let steps_ = script(&ws);
    for s in &steps_ {
        trace(|| describe(&ws, s));
        fingerprint_bytes(describe(&ws, s).as_bytes());
    }
    let (to, server_from) = match sched(3) {
        0 => crossbeam_channel::bounded(0),
        1 => crossbeam_channel::bounded(3),
        _ => crossbeam_channel::unbounded(),
    };
    let (server_to, from) = crossbeam_channel::unbounded();
    let disk = Arc::new(disk);
    let d = disk.clone();
    let read = Arc::new(move |path: &std::path::Path| match d.get(path) {
        Some(Ok(t)) => Ok(t.to_string()),
        Some(Err(k)) => Err(std::io::Error::from(*k)),
        None => Err(std::io::Error::from(std::io::ErrorKind::NotFound)),
    });
    let server = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || lsputt::sim_run(Connection { sender: server_to, receiver: server_from }, read))
        .unwrap();
    let mut w = Wire { to, from, syncs: 0 };
    let params = json!({"capabilities": {}, "processId": null, "rootUri": null});
    w.send(Message::Request(Request { id: RequestId::from(0), method: "initialize".into(), params }));
    let _ = w.from.recv_timeout(PATIENCE);
    w.note("initialized", json!({}));
    // always after every step, or only at the end
    let paced = sched(2) == 0;
    let rounds = [8, 12, 16, 24][sched(4) as usize];
    let mut live: Vec<(i64, i64)> = Vec::with_capacity(64);
    let mut messages = 0;
    let mut open: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..rounds {
        let mut id = 1;
        for s in &steps_ {
            match s {
                Step::Open(i, _, 0) if open.contains(i) => continue,
                Step::Open(i, t, 1) if open.contains(i) => w.note("textDocument/didChange", json!({"textDocument": {"uri": ws.files[*i].url, "version": 2}, "contentChanges": [{"text": t}]})),
                Step::Open(i, t, _) => w.note("textDocument/didOpen", json!({"textDocument": {"uri": ws.files[*i].url, "languageId": "tic", "version": 1, "text": t}})),
                Step::Change(i, t) => w.note("textDocument/didChange", json!({"textDocument": {"uri": ws.files[*i].url, "version": 2}, "contentChanges": [{"text": t}]})),
                Step::Close(i) => w.note("textDocument/didClose", json!({"textDocument": {"uri": ws.files[*i].url}})),
                Step::Ask(i, q, at) => {
                    let doc = json!({"uri": ws.files[*i].url});
                    let pos = json!({"line": at.0, "character": at.1});
                    let params = match q {
                        Query::Tokens => json!({"textDocument": doc}),
                        Query::References(d) => json!({"textDocument": doc, "position": pos, "context": {"includeDeclaration": d}}),
                        _ => json!({"textDocument": doc, "position": pos}),
                    };
                    id += 1;
                    w.send(Message::Request(Request { id: RequestId::from(id), method: q.method().to_owned(), params }));
                }
            }
            match s {
                Step::Open(i, ..) => drop(open.insert(*i)),
                Step::Close(i) => drop(open.remove(i)),
                _ => {}
            }
            messages += 1;
            if paced {
                w.sync();
            }
        }
        w.sync();
        live.push(memory::held());
    }
    steps(messages);
    trace(|| format!("live {:?}", live));
    // the first rounds fill caches
    let settled = &live[rounds as usize / 4..];
    let grows = |of: fn(&(i64, i64)) -> i64| settled.windows(2).all(|w| of(&w[1]) > of(&w[0]));
    let half = settled.len() / 2;
    let grown = settled[half..].iter().map(|l| l.0).min().unwrap() - settled[..half].iter().map(|l| l.0).min().unwrap();
    if grown != 0 {
        count("rounds that did not end with exactly as much", 1);
    }
    if grows(|l| l.0) || grows(|l| l.1) || grown > 32 << 10 {
        violation("memory grows", &format!("after each of {} repetitions of the same {} messages, (bytes, blocks): {:?}", rounds, steps_.len(), live));
    }
    nontrivial();
    drop(w);
    let _ = server.join();
}

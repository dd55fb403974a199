//! The real server in a thread of its own, driven message by message.

use crate::model::*;
use crate::workspace::*;
use crossbeam_channel::{Receiver, Sender};
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use simcore::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::ErrorKind;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use url::Url;

const PATIENCE: Duration = Duration::from_secs(25);

pub struct Session {
    to: Option<Sender<Message>>,
    from: Receiver<Message>,
    inbox: VecDeque<Message>,
    server: Option<std::thread::JoinHandle<()>>,
    pub disk: Arc<Mutex<Disk>>,
    /// What the client has open.
    pub open: BTreeMap<Url, Arc<str>>,
    /// Documents that were open at some time since the last check.
    lately: BTreeSet<Url>,
    /// Changes with everything that compilations can see.
    view: Option<Arc<View>>,
    cache: BTreeMap<Url, Diagnostics>,
    published: BTreeMap<Url, Diagnostics>,
    pub publications: u64,
    legend: Vec<String>,
    next_id: i32,
    /// Requests without a response yet.
    waiting: VecDeque<(RequestId, String, Expect)>,
    pub answered: u64,
    pub positive: u64,
}

pub enum Expect {
    Answer { url: Url, query: Query, at: Point, answer: Answer, text: Arc<str>, clean: bool },
    /// Nothing to tell about a document that is not open.
    Nothing,
    Error(&'static [i64]),
    /// Exactly one response, whatever it is.
    Any,
    Ok,
}

impl Session {
    /// Starts a server. It has not been initialized. A client that takes what the server
    /// says only when it has nothing else to do stalls the server if there is no space
    /// for it: then everything that is sent meanwhile is there at once when it goes on.
    pub fn start(disk: Disk, capacity: Option<usize>, outgoing: Option<usize>) -> Session {
        let disk = Arc::new(Mutex::new(disk));
        let (to, server_from) = match capacity {
            Some(n) => crossbeam_channel::bounded(n),
            None => crossbeam_channel::unbounded(),
        };
        let (server_to, from) = match outgoing {
            Some(n) => crossbeam_channel::bounded(n),
            None => crossbeam_channel::unbounded(),
        };
        let d = disk.clone();
        let read = Arc::new(move |path: &std::path::Path| {
            let mut d = d.lock().unwrap();
            *d.reads.entry(path.to_owned()).or_insert(0) += 1;
            d.log.push(path.to_owned());
            match d.peek(path) {
                Ok(t) => Ok(t.to_string()),
                Err(k) => {
                    count(&format!("read fault: {:?}", k), 1);
                    Err(std::io::Error::from(k))
                }
            }
        });
        let server = std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || lsputt::sim_run(Connection { sender: server_to, receiver: server_from }, read))
            .unwrap();
        Session {
            to: Some(to),
            from,
            inbox: VecDeque::new(),
            server: Some(server),
            disk,
            open: BTreeMap::new(),
            lately: BTreeSet::new(),
            view: None,
            cache: BTreeMap::new(),
            published: BTreeMap::new(),
            publications: 0,
            legend: Vec::new(),
            next_id: 1,
            waiting: VecDeque::new(),
            answered: 0,
            positive: 0,
        }
    }

    pub fn initialize(&mut self) {
        let params = json!({"capabilities": {}, "processId": null, "rootUri": null});
        self.send(Message::Request(Request { id: RequestId::from(0), method: "initialize".into(), params }));
        let reply = match self.from.recv_timeout(PATIENCE) {
            Ok(Message::Response(r)) => r,
            other => violation("no answer to initialize", &format!("got {:?}", other)),
        };
        let capabilities = &reply.result.as_ref().unwrap_or(&Value::Null)["capabilities"];
        ensure!(capabilities.is_object(), "no capabilities", "got {:?}", reply);
        let legend = &capabilities["semanticTokensProvider"]["legend"]["tokenTypes"];
        self.legend = legend.as_array().map(|l| l.iter().map(|x| x.as_str().unwrap_or("?").to_owned()).collect()).unwrap_or_default();
        ensure!(!self.legend.is_empty(), "no legend", "got {:?}", reply);
        // a client asks for nothing that was not announced, and sends texts in the form that was
        for what in ["definitionProvider", "declarationProvider", "referencesProvider", "hoverProvider", "completionProvider"] {
            let c = &capabilities[what];
            ensure!(*c == json!(true) || c.is_object(), "a service is not announced", "{} is {} in {}", what, c, capabilities);
        }
        let full = &capabilities["semanticTokensProvider"]["full"];
        ensure!(*full == json!(true) || full.is_object(), "a service is not announced", "full semantic tokens in {}", capabilities);
        let sync = &capabilities["textDocumentSync"];
        let whole = *sync == json!(1) || (sync["openClose"] == json!(true) && sync["change"] == json!(1));
        ensure!(whole, "a service is not announced", "whole texts of documents in {}", capabilities);
        let utf16 = capabilities.get("positionEncoding").map_or(true, |e| *e == json!("utf-16"));
        ensure!(utf16, "positions are not in UTF-16 units", "{}", capabilities);
        self.send(Message::Notification(Notification { method: "initialized".into(), params: json!({}) }));
    }

    pub fn send(&mut self, m: Message) {
        let Some(to) = self.to.clone() else { harness_error("sending after the end") };
        let since = Instant::now();
        let mut m = m;
        loop {
            match to.send_timeout(m, Duration::from_micros(200)) {
                Ok(()) => return,
                Err(crossbeam_channel::SendTimeoutError::Timeout(x)) => m = x,
                Err(crossbeam_channel::SendTimeoutError::Disconnected(m)) => violation("the server is gone", &format!("it does not take {:?}", m)),
            }
            if since.elapsed() > PATIENCE {
                violation("the server is stuck", &format!("it does not take {:?}", m));
            }
            // it may be waiting for its own messages to be taken
            if let Ok(m) = self.from.try_recv() {
                self.inbox.push_back(m);
            }
        }
    }

    pub fn id(&mut self) -> RequestId {
        self.next_id += 1;
        match gweighted(&[12, 4, 1, 1, 1, 1]) {
            0 => RequestId::from(self.next_id),
            1 => RequestId::from(format!("req-{}", self.next_id)),
            // ids that look like others
            2 => RequestId::from((self.next_id - gen(2) as i32).to_string()),
            3 => RequestId::from(-self.next_id),
            4 => RequestId::from(*pick(&[0, i32::MAX, i32::MIN, 1])),
            _ => RequestId::from(pick(&["", "0", " 1", "null", "\u{10348}\"\\"]).to_string()),
        }
    }

    pub fn notify(&mut self, method: &str, params: Value) {
        self.send(Message::Notification(Notification { method: method.to_owned(), params }));
    }

    pub fn request(&mut self, method: &str, params: Value, expect: Expect) {
        let id = self.id();
        self.waiting.push_back((id.clone(), format!("{} {}", method, params), expect));
        self.send(Message::Request(Request { id, method: method.to_owned(), params }));
    }

    // what the client does

    pub fn open(&mut self, url: &Url, text: &str) {
        self.set_open(url, text);
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": url, "languageId": "tic", "version": 1, "text": text}}));
    }

    pub fn set_open(&mut self, url: &Url, text: &str) {
        self.open.insert(url.clone(), text.into());
        self.lately.insert(url.clone());
        self.changed();
    }

    pub fn change(&mut self, url: &Url, texts: &[String]) {
        if let (Some(_), Some(last)) = (self.open.get(url), texts.last()) {
            self.set_open(url, last);
        }
        let changes: Vec<Value> = texts.iter().map(|t| json!({"text": t})).collect();
        self.notify("textDocument/didChange", json!({"textDocument": {"uri": url, "version": 2}, "contentChanges": changes}));
    }

    pub fn close(&mut self, url: &Url) {
        self.open.remove(url);
        self.changed();
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": url}}));
    }

    pub fn changed(&mut self) {
        self.view = None;
        self.cache.clear();
    }

    pub fn view(&mut self) -> Arc<View> {
        if self.view.is_none() {
            let disk = self.disk.lock().unwrap().files.clone();
            self.view = Some(Arc::new(View { open: self.open.clone(), disk }));
        }
        self.view.clone().unwrap()
    }

    pub fn query(&mut self, url: &Url, query: Query, at: Point) {
        let expect = match self.open.get(url).cloned() {
            Some(text) => {
                let mut unit = fresh(&self.view(), url);
                let answer = answer(&mut unit, &text, query, at);
                let clean = !diagnostics(&mut unit, &text).iter().any(|d| d.1);
                Expect::Answer { url: url.clone(), query, at, answer, text, clean }
            }
            None => Expect::Nothing,
        };
        let doc = json!({"uri": url});
        let pos = json!({"line": at.0, "character": at.1});
        let params = match query {
            Query::Tokens => json!({"textDocument": doc}),
            Query::References(d) => json!({"textDocument": doc, "position": pos, "context": {"includeDeclaration": d}}),
            _ => json!({"textDocument": doc, "position": pos}),
        };
        probe(&format!("query {}", query.method()));
        self.request(query.method(), params, expect);
    }

    /// Whether the server ever read this file.
    pub fn was_read(&self, f: &File) -> bool {
        self.disk.lock().unwrap().reads.contains_key(&f.path)
    }

    pub fn set_disk(&mut self, f: &File, e: Option<Entry>) {
        let mut d = self.disk.lock().unwrap();
        match e {
            Some(e) => d.files.insert(f.path.clone(), e),
            None => d.files.remove(&f.path),
        };
        drop(d);
        self.changed();
    }

    // what the server does

    /// Waits until the server has dealt with everything that was sent.
    pub fn settle(&mut self) {
        // handled (that is, ignored) only after everything before it
        for _ in 0..2 {
            self.send(Message::Response(Response { id: RequestId::from(-7), result: Some(Value::Null), error: None }));
        }
        let since = Instant::now();
        // at most the second of them may be left
        while self.to.as_ref().unwrap().len() > 1 {
            if since.elapsed() > PATIENCE {
                violation("the server is stuck", "it does not take what it was sent");
            }
            if self.server.as_ref().unwrap().is_finished() {
                violation("the server is gone", "it ended without being told to");
            }
            self.collect();
            std::thread::sleep(Duration::from_micros(20));
        }
        self.drain();
        let reads = std::mem::take(&mut self.disk.lock().unwrap().log);
        for r in reads {
            trace(|| format!("    server read {}", r.display()));
        }
    }

    /// What the server has said so far is looked at only in `drain`, when it is known
    /// how much that is.
    fn collect(&mut self) {
        while let Ok(m) = self.from.try_recv() {
            self.inbox.push_back(m);
        }
    }

    fn drain(&mut self) {
        self.collect();
        while let Some(m) = self.inbox.pop_front() {
            self.take(m);
        }
    }

    fn take(&mut self, m: Message) {
        match m {
            Message::Response(r) => self.take_response(r),
            Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
                let url = Url::parse(n.params["uri"].as_str().unwrap_or("")).unwrap_or_else(|_| violation("bad publication", &n.params.to_string()));
                let d = parse_diagnostics(&n.params["diagnostics"]).unwrap_or_else(|| violation("bad publication", &n.params.to_string()));
                trace(|| format!("    published {} for {}: {:?}", d.len(), url, d));
                observe(n.params.to_string().as_bytes());
                ensure!(
                    d.is_empty() || self.lately.contains(&url),
                    "diagnostics for a document that is not open",
                    "published {:?} for {}",
                    d,
                    url
                );
                self.publications += 1;
                self.published.insert(url, d);
            }
            Message::Notification(n) => violation("unexpected notification", &format!("{:?}", n)),
            Message::Request(r) => violation("unexpected request", &format!("{:?}", r)),
        }
    }

    fn take_response(&mut self, r: Response) {
        let Some((id, what, expect)) = self.waiting.pop_front() else {
            violation("response to nothing", &format!("{:?}", r));
        };
        observe(serde_json::to_string(&r).unwrap().as_bytes());
        trace(|| format!("    response {} to {}", short(&serde_json::to_string(&r).unwrap()), what));
        ensure!(r.id == id, "responses out of order", "response {:?} while the first unanswered request is {} {}", r, id, what);
        ensure!(r.result.is_some() != r.error.is_some(), "response without result or error", "{:?}", r);
        self.answered += 1;
        let code = r.error.as_ref().map(|e| e.code as i64);
        match expect {
            Expect::Any => {}
            Expect::Ok => ensure!(code.is_none(), "error response", "{:?} to {}", r, what),
            Expect::Nothing => {
                let empty = match &r.result {
                    Some(Value::Null) | None => true,
                    Some(Value::Array(a)) => a.is_empty(),
                    Some(_) => false,
                };
                ensure!(empty, "answer about a document that is not open", "{:?} to {}", r, what);
            }
            Expect::Error(codes) => {
                let ok = code.map_or(false, |c| codes.contains(&c));
                ensure!(ok, "wrong error response", "{:?} to {}, expected an error with code {:?}", r, what, codes);
            }
            Expect::Answer { url, query, at, answer, text, clean } => {
                ensure!(code.is_none(), "error response", "{:?} to {}", r, what);
                let result = r.result.unwrap();
                let Some(got) = self.parse_answer(query, &result, &url) else {
                    violation("malformed answer", &format!("{} to {}", result, what));
                };
                if got != Answer::Null {
                    self.positive += 1;
                }
                ensure!(
                    got == answer,
                    &format!("wrong answer: {}", query.method()),
                    "{} gave\n{:?}\nbut compiling the current texts from scratch gives\n{:?}\nfor the text of {}\n{}\n-- end of text",
                    what, got, answer, url, text
                );
                check_names(query, at, &got, &text, &what);
                if clean {
                    check_uses(query, at, &got, &text, &what);
                }
            }
        }
    }

    fn parse_answer(&self, q: Query, v: &Value, url: &Url) -> Option<Answer> {
        if v.is_null() {
            return Some(Answer::Null);
        }
        let place = |v: &Value| -> Option<Range> {
            if v["uri"].as_str()? != url.as_str() {
                return None;
            }
            parse_range(&v["range"])
        };
        match q {
            Query::Definition | Query::Declaration => match v {
                Value::Array(a) if a.is_empty() => Some(Answer::Null),
                Value::Array(a) if a.len() == 1 => Some(Answer::Place(place(&a[0])?)),
                v => Some(Answer::Place(place(v)?)),
            },
            Query::References(_) => {
                let mut out = v.as_array()?.iter().map(place).collect::<Option<Vec<Range>>>()?;
                out.sort();
                Some(Answer::Places(out))
            }
            Query::Hover => {
                let text = match &v["contents"] {
                    Value::String(s) => s.clone(),
                    v => v["value"].as_str()?.to_owned(),
                };
                Some(Answer::Hover(text, parse_range(&v["range"])))
            }
            Query::Completion => {
                let items = v.as_array().or_else(|| v["items"].as_array())?;
                let mut names = items.iter().map(|i| Some(i["label"].as_str()?.to_owned())).collect::<Option<Vec<_>>>()?;
                names.sort();
                Some(Answer::Names(names))
            }
            Query::Tokens => {
                let data: Vec<u64> = v["data"].as_array()?.iter().map(|x| x.as_u64()).collect::<Option<_>>()?;
                if data.len() % 5 != 0 {
                    return None;
                }
                let (mut line, mut column) = (0u64, 0u64);
                let mut out = Vec::new();
                for t in data.chunks(5) {
                    if t[0] > 0 {
                        line += t[0];
                        column = t[1];
                    } else {
                        column += t[1];
                    }
                    out.push((line as u32, column as u32, t[2] as u32, self.legend.get(t[3] as usize)?.clone()));
                }
                Some(Answer::Tokens(out))
            }
        }
    }

    /// The server is idle: everything it has said so far must add up.
    pub fn check(&mut self) {
        if let Some((id, what, _)) = self.waiting.front() {
            violation("no response", &format!("to {} {}", id, what));
        }
        let view = self.view();
        let urls: Vec<Url> = self.open.keys().cloned().collect();
        for url in urls {
            let text = self.open[&url].clone();
            let expected = match self.cache.get(&url) {
                Some(d) => d.clone(),
                None => {
                    let d = diagnostics(&mut fresh(&view, &url), &text);
                    self.cache.insert(url.clone(), d.clone());
                    d
                }
            };
            probe(if expected.is_empty() { "clean document" } else { "document with diagnostics" });
            match self.published.get(&url) {
                None => violation("no diagnostics for an open document", url.as_str()),
                Some(got) => ensure!(
                    *got == expected,
                    "wrong diagnostics",
                    "the last diagnostics published for {} are\n{:#?}\nbut compiling the current texts from scratch gives\n{:#?}\nfor the text\n{}\n-- end of text",
                    url, got, expected, text
                ),
            }
        }
        for (url, d) in &self.published {
            ensure!(
                d.is_empty() || self.open.contains_key(url),
                "diagnostics of a closed document remain",
                "{} is closed, the last diagnostics published for it are {:?}",
                url,
                d
            );
        }
        self.lately = self.open.keys().cloned().collect();
    }

    /// How many diagnostics of an open document say this.
    pub fn saying(&self, url: &Url, what: &str) -> usize {
        self.published.get(url).map_or(0, |d| d.iter().filter(|x| x.2.contains(what)).count())
    }

    // endings

    /// The server was told to end: it must, and everything must have been answered.
    pub fn finish(mut self, exact: bool) {
        self.to = None;
        let since = Instant::now();
        let server = self.server.take().unwrap();
        while !server.is_finished() {
            if since.elapsed() > PATIENCE {
                violation("the server does not end", "the client has disconnected");
            }
            self.collect();
            std::thread::sleep(Duration::from_micros(50));
        }
        if server.join().is_err() {
            violation("the server panicked", "at its end");
        }
        self.drain();
        if exact {
            if let Some((id, what, _)) = self.waiting.front() {
                violation("no response", &format!("to {} {} before the end", id, what));
            }
        }
    }

    pub fn shutdown(&mut self) {
        let id = self.id();
        self.waiting.push_back((id.clone(), "shutdown".into(), Expect::Ok));
        self.send(Message::Request(Request { id, method: "shutdown".into(), params: Value::Null }));
    }

    /// Waits for a server that was told to exit while the client stays connected.
    pub fn wait_exit(&mut self) {
        let since = Instant::now();
        while !self.server.as_ref().unwrap().is_finished() {
            if since.elapsed() > PATIENCE {
                violation("the server does not end", "it was told to shut down and exit");
            }
            self.collect();
            std::thread::sleep(Duration::from_micros(50));
        }
    }
}

pub fn short(s: &str) -> String {
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "..."
    } else {
        s.to_owned()
    }
}

fn parse_point(v: &Value) -> Option<Point> {
    Some((v["line"].as_u64()? as u32, v["character"].as_u64()? as u32))
}

fn parse_range(v: &Value) -> Option<Range> {
    Some((parse_point(&v["start"])?, parse_point(&v["end"])?))
}

fn parse_diagnostics(v: &Value) -> Option<Diagnostics> {
    let mut out = Vec::new();
    for d in v.as_array()? {
        let error = match d["severity"].as_u64()? {
            1 => true,
            2 => false,
            _ => return None,
        };
        out.push((parse_range(&d["range"])?, error, d["message"].as_str()?.to_owned()));
    }
    out.sort();
    Some(out)
}

fn is_word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// The words that touch a position.
pub fn words(text: &str, at: usize) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let start = text[..at].char_indices().rev().take_while(|x| is_word(x.1)).last().map_or(at, |x| x.0);
    let end = at + text[at..].find(|c| !is_word(c)).unwrap_or(text.len() - at);
    if start < end {
        out.push((start, end));
    }
    out
}

fn slice<'a>(text: &'a str, r: &Range) -> &'a str {
    let (a, b) = (offset(text, r.0), offset(text, r.1));
    text.get(a..b.max(a)).unwrap_or("")
}

const KEYWORDS: [&str; 14] =
    ["import", "from", "export", "let", "type", "match", "with", "end", "if", "then", "else", "fold", "rec", "int"];

/// Places that are given for a name are places of that very name.
fn check_names(q: Query, at: Point, got: &Answer, text: &str, what: &str) {
    let places = match got {
        Answer::Place(r) => vec![*r],
        Answer::Places(rs) => rs.clone(),
        _ => return,
    };
    let here = words(text, offset(text, at));
    if here.iter().any(|w| KEYWORDS.contains(&&text[w.0..w.1])) {
        return;
    }
    for p in &places {
        let found = slice(text, p);
        ensure!(
            here.iter().any(|w| &text[w.0..w.1] == found),
            &format!("range is not of the name: {}", q.method()),
            "{} gave {:?}, which is {:?}, but the cursor is on {:?} in\n{}\n-- end of text",
            what, p, found, here.iter().map(|w| &text[w.0..w.1]).collect::<Vec<_>>(), text
        );
    }
}

/// In a document without errors, a name that is defined once means that definition
/// wherever it stands (names here are unique, except for short local ones).
fn check_uses(q: Query, at: Point, got: &Answer, text: &str, what: &str) {
    match (q, got) {
        (Query::Completion, got) => return check_offers(at, got, text, what),
        (Query::Tokens, Answer::Tokens(tokens)) => return check_tiling(tokens, text, what),
        _ => {}
    }
    let here = words(text, offset(text, at));
    let [(from, to)] = here[..] else { return };
    let name = &text[from..to];
    let known = ["d", "val", "mk", "get", "make", "open", "T", "A", "B", "G", "P", "Q", "W", "V"]
        .iter()
        .any(|p| name.strip_prefix(p).map_or(false, |r| r.starts_with(|c: char| c.is_ascii_digit())));
    if !known {
        return;
    }
    let code = blank(text);
    let mut uses: Vec<Range> = Vec::new();
    let mut defs: Vec<Range> = Vec::new();
    let mut is_code = false;
    for (i, _) in code.match_indices(name) {
        let end = i + name.len();
        if code[..i].ends_with(is_word) || code[end..].starts_with(is_word) {
            continue;
        }
        is_code |= i == from;
        let item = code[..i].rfind(';').map_or(0, |x| x + 1);
        let before = code[item..i].trim();
        // (names of one module reached through several imports are the same names)
        let ctor = before.contains("type ") && name.starts_with(CTORS) && (before.ends_with(['=', '|']) || before.ends_with("export"));
        let def = before.ends_with("let") || before.ends_with("type") || before.starts_with("import") || ctor;
        let r = (point(text, i), point(text, end));
        if def { &mut defs } else { &mut uses }.push(r);
    }
    if defs.len() != 1 || !is_code {
        return;
    }
    probe("answer known from the text alone");
    let expected = match q {
        Query::References(declaration) => {
            if declaration {
                uses.push(defs[0]);
            }
            uses.sort();
            Answer::Places(uses)
        }
        Query::Hover => {
            // the type that the definition is annotated with
            let at = offset(text, defs[0].1);
            let range = (point(text, from), point(text, to));
            let item = code[..at].rfind(';').map_or(0, |x| x + 1);
            let end = at + code[at..].find(';').unwrap_or(0);
            if let Some(ty) = code[item..at].find("type ") {
                let Some(doc) = kind_or_type(name, &code[item + ty + 5..end]) else { return };
                probe("kinds and constructors' types known from the text alone");
                let expected = Answer::Hover(format!("{}: {}", name, doc), Some(range));
                ensure!(*got == expected, "wrong type", "{} gave\n{:?}\nbut {} has\n{:?}\nin\n{}\n-- end of text", what, got, name, expected, text);
                return;
            }
            let rest = code[at..].trim_start();
            let (Some(rest), true) = (rest.strip_prefix(':'), code[..at - name.len()].trim_end().ends_with("let")) else { return };
            let words: Vec<&str> = rest[..rest.find('=').unwrap_or(0)].split_whitespace().collect();
            if words.iter().any(|w| w.contains('.')) {
                // not exposed here by its name
                return;
            }
            Answer::Hover(format!("{}: {}", name, words.join(" ")), Some(range))
        }
        _ => Answer::Place(defs[0]),
    };
    ensure!(*got == expected, &format!("wrong places: {}", q.method()), "{} gave\n{:?}\nbut {} has\n{:?}\nin\n{}\n-- end of text", what, got, name, expected, text);
}

const CTORS: [char; 5] = ['A', 'B', 'P', 'Q', 'V'];

/// What the hover of a name says that is defined by this, `T a = A x | ..`.
fn kind_or_type(name: &str, definition: &str) -> Option<String> {
    let (head, cases) = definition.split_once('=')?;
    let head: Vec<&str> = head.split_whitespace().collect();
    if head.first() == Some(&name) {
        return Some("*".to_owned() + &" -> *".repeat(head.len() - 1));
    }
    for case in cases.split('|') {
        let case = case.split_whitespace().collect::<Vec<_>>().join(" ");
        let case = case.strip_prefix("export ").unwrap_or(&case);
        let Some(fields) = case.strip_prefix(name) else { continue };
        if !fields.starts_with(' ') || fields.contains('.') {
            return None;
        }
        let mut out = String::new();
        let mut rest = fields.trim();
        while !rest.is_empty() {
            let mut depth = 0;
            let end = rest
                .find(|c| {
                    depth += (c == '(') as i32 - (c == ')') as i32;
                    depth == 0 && c == ' '
                })
                .unwrap_or(rest.len());
            let field = &rest[..end];
            rest = rest[end..].trim();
            if field == "rec" {
                out.push_str(&head.join(" "));
            } else if field.starts_with('(') {
                let inner = field[1..field.len() - 1].trim();
                let mut depth = 0;
                let function = inner.char_indices().any(|(i, c)| {
                    depth += (c == '(') as i32 - (c == ')') as i32;
                    depth == 0 && inner[i..].starts_with("->")
                });
                out.push_str(if function { field } else { inner });
            } else {
                out.push_str(field);
            }
            out.push_str(" -> ");
        }
        return Some(out + &head.join(" "));
    }
    None
}

/// A completion offers what is there already, where that is a use of something, and
/// nothing that occurs nowhere.
fn check_offers(at: Point, got: &Answer, text: &str, what: &str) {
    let here = words(text, offset(text, at));
    let [(from, to)] = here[..] else { return };
    let name = &text[from..to];
    let code = blank(text);
    let named = |prefixes: &[&str]| {
        prefixes.iter().any(|p| name.strip_prefix(p).map_or(false, |r| r.starts_with(|c: char| c.is_ascii_digit())))
    };
    let item = code[..from].rfind(';').map_or(0, |x| x + 1);
    let before = code[item..from].trim();
    let first = before.split_whitespace().next().unwrap_or("");
    let within = before.ends_with('.');
    let is_ctor = name.starts_with(CTORS);
    let def = first == "import"
        || before.ends_with("let")
        || before.ends_with("type")
        || before.split_whitespace().any(|w| w == "type") && is_ctor && (before.ends_with(['=', '|']) || before.ends_with("export"));
    if !code.is_char_boundary(from) || &code[from..to] != name {
        return;
    }
    // (a module and what the one that is used most exports)
    let after = code[to..].trim_start().starts_with('.');
    let of_list = within && before[..before.len() - 1].trim_end().ends_with("list") && ["sum", "Cons", "Nil"].contains(&name);
    let module = after && (name == "list" || named(&["n"]));
    if !def && (of_list || module || named(&["d", "val", "mk", "get", "make", "open", "T", "A", "B", "G", "P", "Q", "W", "V"])) {
        probe(if within { "completion in a module known from the text alone" } else { "completion known from the text alone" });
        let ok = matches!(got, Answer::Names(names) if names.iter().any(|n| n == name));
        ensure!(ok, "completion without the name that is there", "{} gave\n{:?}\nwithout {:?} in\n{}\n-- end of text", what, got, name, text);
    }
    if let (Answer::Names(names), false) = (got, within) {
        let known: BTreeSet<&str> = code.split(|c| !is_word(c)).collect();
        for n in names {
            ensure!(known.contains(&n[..]), "completion with a name from nowhere", "{} gave {:?} for\n{}\n-- end of text", what, n, text);
        }
    }
}

/// Tokens are in order, and everything but white space is in exactly one of them.
fn check_tiling(tokens: &[(u32, u32, u32, String)], text: &str, what: &str) {
    let mut done = 0;
    for t in tokens {
        let (from, to) = (offset(text, (t.0, t.1)), offset(text, (t.0, t.1 + t.2)));
        ensure!(from >= done && to > from, "tokens overlap", "{}: {:?} starts at {} ends at {}, the one before ends at {} in\n{}", what, t, from, to, done, text);
        ensure!(text[done..from].trim().is_empty(), "text without token", "{}: {:?} before {:?} in\n{}", what, &text[done..from], t, text);
        let (first, word) = (text[from..].chars().next().unwrap(), &text[from..to]);
        let ok = match &t.3[..] {
            "comment" => word.starts_with("--"),
            "string" => first == '"',
            "number" => first.is_ascii_digit(),
            "keyword" => first.is_ascii_lowercase(),
            "operator" | "punctuation" => !is_word(first),
            _ => word.strip_prefix('?').unwrap_or(word).chars().all(is_word),
        };
        ensure!(ok, "token is not what it says", "{}: {:?} is {:?} in\n{}", what, word, t.3, text);
        done = to;
    }
    ensure!(text[done..].trim().is_empty(), "text without token", "{}: {:?} after all tokens in\n{}", what, &text[done..], text);
}

/// The text with comments and strings blanked out.
fn blank(text: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    while let Some(c) = rest.chars().next() {
        let n = if rest.starts_with("--") {
            rest.find('\n').unwrap_or(rest.len())
        } else if c == '"' {
            rest[1..].find(['"', '\n']).map_or(rest.len(), |x| x + 2)
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
            continue;
        };
        out.extend(std::iter::repeat(' ').take(n));
        rest = &rest[n..];
    }
    out
}

pub const KINDS: [ErrorKind; 12] = [
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::Interrupted,
    ErrorKind::Other,
    ErrorKind::TimedOut,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionReset,
    ErrorKind::AlreadyExists,
];

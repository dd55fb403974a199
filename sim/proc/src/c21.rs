//! C21: no request read from standard input loses its response.

use serde_json::{json, Value};
use simcore::proc::{Command1, Ended, Scratch};
use simcore::world;
use simcore::*;

pub fn check() -> Check {
    Check {
        rule: "one run is a seeded session of framed messages on standard input, undisturbed and then under seeded plans that split and delay reads and writes, end the input at any byte or with bytes that are no message, or fail the streams; non-trivial if an input was cut or ended in garbage, or a call was disturbed; distinct by the hash of the session and the plans",
        assumptions: &["threads of the process are scheduled by the kernel; the plan steers them by delaying their reads and writes", "a client sends initialize and initialized first, and only exit after shutdown", "a message is at most a few megabytes"],
        real: &["the ticc-lsp binary as shipped, with its reader, writer and main threads and the file system it reads"],
        stubs: &["libc open, read, write, statx and getrandom go through the plan (sim/proc/shim.c)"],
        scratch: true,
        quick_runs: 20_000,
        thorough_runs: 1_000_000,
        quick_secs: 60,
        thorough_secs: 600,
        cpu_limit: 40,
        ..Check::new("C21", body)
    }
}

const ROOT: &str = "file:///sim/w/";

struct Talk {
    messages: Vec<Value>,
    next: i64,
}

impl Talk {
    fn request(&mut self, method: &str, params: Value) {
        // ids are numbers or strings
        let id = if gchance(1, 6) { json!(format!("q{}", self.next)) } else { json!(self.next) };
        self.next += 1;
        self.messages.push(json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}));
    }

    fn notify(&mut self, method: &str, params: Value) {
        self.messages.push(json!({"jsonrpc": "2.0", "method": method, "params": params}));
    }
}

struct Session {
    files: Vec<(String, String)>,
    messages: Vec<Value>,
}

fn text_of(files: &[(String, String)], i: usize) -> String {
    let mut t = files[i].1.clone();
    match gen(6) {
        0 => {
            let n = gen_range(1, 3);
            t = simcore::text::damage(&t, n);
        }
        1 => t.push_str(&format!("-- {}\n", "\u{e9}\u{1F600} padding ".repeat(*pick(&[10, 300, 1_000, 6_000])))),
        2 => t = t.lines().filter(|_| !gchance(1, 8)).map(|l| format!("{}\n", l)).collect(),
        _ => {}
    }
    t
}

fn draw() -> Session {
    let n = gen_range(1, 3) as usize;
    let w = world::build(n.max(2), &mut |t, _, _| format!("m{}.tic", t));
    let mut files: Vec<(String, String)> = w.modules.iter().enumerate().map(|(i, m)| (format!("m{}.tic", i), m.source.clone())).collect();
    files.push(("extra.tic".into(), "export let extra : int = 1;\nimport l from \"std/list\";\n".into()));
    let mut t = Talk { messages: vec![], next: 1 };
    t.request("initialize", json!({"capabilities": {}}));
    t.notify("initialized", json!({}));
    let mut open = vec![false; files.len()];
    for _ in 0..gen_range(0, 12) {
        let i = gen(files.len() as u32) as usize;
        let uri = format!("{}{}", ROOT, files[i].0);
        match gweighted(&[4, 3, 1, 8, 1, 1]) {
            0 if !open[i] => {
                open[i] = true;
                let text = text_of(&files, i);
                t.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "tic", "version": 1, "text": text}}));
            }
            0 | 1 => {
                let text = text_of(&files, i);
                t.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": [{"text": text}]}));
            }
            2 => {
                open[i] = false;
                t.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
            }
            3 => {
                let doc = json!({"uri": uri});
                let pos = json!({"line": gen(20), "character": gen(50)});
                let method = *pick(&["definition", "declaration", "hover", "completion", "references", "semanticTokens/full"]);
                let params = match method {
                    "semanticTokens/full" => json!({"textDocument": doc}),
                    "references" => json!({"textDocument": doc, "position": pos, "context": {"includeDeclaration": gchance(1, 2)}}),
                    _ => json!({"textDocument": doc, "position": pos}),
                };
                t.request(&format!("textDocument/{}", method), params);
            }
            4 => t.request(*pick(&["textDocument/formatting", "no/such"]), json!({"text": "x".repeat(*pick(&[0, 100, 9_000]))})),
            _ => t.notify("$/setTrace", json!({"value": "off"})),
        }
    }
    match gen(6) {
        0 | 1 => {
            t.request("shutdown", Value::Null);
            t.notify("exit", Value::Null);
        }
        // gone without a word, or with the last one
        2 => t.request("shutdown", Value::Null),
        3 => t.notify("exit", Value::Null),
        _ => {}
    }
    Session { files, messages: t.messages }
}

/// The bytes of messages, and where each of them ends.
fn frame(messages: &[Value]) -> (Vec<u8>, Vec<usize>) {
    let mut out = Vec::new();
    let mut ends = Vec::new();
    for m in messages {
        let body = m.to_string();
        match gen(10) {
            0 => out.extend(format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", body.len()).bytes()),
            1 => out.extend(format!("Content-Length: {}\r\nContent-Type: utf8\r\n\r\n", body.len()).bytes()),
            _ => out.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes()),
        }
        out.extend(body.bytes());
        ends.push(out.len());
    }
    (out, ends)
}

/// The messages that the server wrote; none if the bytes are not whole messages.
fn parse(mut b: &[u8]) -> Option<Vec<Value>> {
    let mut out = Vec::new();
    while !b.is_empty() {
        let rest = b.strip_prefix(b"Content-Length: ")?;
        let end = rest.windows(4).position(|w| w == b"\r\n\r\n")?;
        let n: usize = std::str::from_utf8(&rest[..end]).ok()?.parse().ok()?;
        let body = rest.get(end + 4..end + 4 + n)?;
        out.push(serde_json::from_slice(body).ok()?);
        b = &rest[end + 4 + n..];
    }
    Some(out)
}

fn garbage() -> Vec<u8> {
    pick(&[
        &b"Content-Length: many\r\n\r\n{}"[..],
        b"\r\n\r\n",
        b"Content-Length 20\r\n\r\n{}",
        b"Content-Length: 2\n\n{}",
        b"Content-Length: 3\r\n\r\n\xff\xfe\xfd",
        b"Content-Length: 2\r\n\r\n[]",
        b"Content-Length: 9\r\n\r\nnot json!",
        b"Content-Length: 5000\r\n\r\n{\"jsonrpc\":\"2.0\"}",
        b"Content-Length: 0\r\n\r\n",
        b"\xff\xff\r\n",
        b"GET / HTTP/1.1\r\n\r\n",
    ])
    .to_vec()
}

/// Splits, interruptions and delays on the streams and files.
fn disturb(plan: &mut Vec<String>, volume: u64) {
    let size = || [1, 2, 3, 7, 20, 64, 1000, 8192][sched(8) as usize].max(volume / 3000);
    if sched(3) == 1 {
        plan.push(format!("c:r:{}", size()));
    }
    if sched(3) == 1 {
        plan.push(format!("c:w:{}", size()));
    }
    for _ in 0..sched(5) {
        let (class, path) = [('r', "<stdin>"), ('w', "<stdout>"), ('r', ".tic"), ('w', "<stdout>")][sched(4) as usize];
        let at = sched(if sched(2) == 0 { 6 } else { 60 });
        match sched(4) {
            0 => plan.push(format!("q:{}:{}:{}:e{}", class, path, at, libc::EINTR)),
            1 => plan.push(format!("q:{}:{}:{}:s{}", class, path, at, size())),
            _ => plan.push(format!("q:{}:{}:{}:d{}", class, path, at, [1, 4, 15, 40][sched(4) as usize])),
        }
    }
}

fn body() {
    let s = draw();
    let mut place = Scratch::new();
    place.clear();
    let mut story = String::new();
    for (name, text) in &s.files {
        // some files are only in the editor
        if !gchance(1, 6) {
            place.put(name, text.as_bytes());
            story.push_str(&format!("-- file {}\n{}\n", name, text));
        }
    }
    let (bytes, ends) = frame(&s.messages);
    for m in &s.messages {
        let text = m.to_string();
        story.push_str(&format!("-> {}\n", text.chars().take(400).collect::<String>()));
    }
    trace(|| story.clone());
    fingerprint_bytes(story.as_bytes());
    let seed = format!("h:{}", sched(1 << 20));
    let base = || vec!["m:/sim/w:/WORLD".to_owned(), seed.clone()];
    let mut run = |stdin: &[u8], plan: Vec<String>| -> Ended {
        let e = place.run(&Command1 { bin: "ticc-lsp", args: vec![], stdin: stdin.to_vec(), plan: plan.clone(), memory: None, cwd: String::new() });
        trace(|| format!("{} bytes of input, plan {:?}: {} after {} bytes of output", stdin.len(), plan, e.status, e.stdout.len()));
        observe(e.status.as_bytes());
        observe(&e.stdout);
        e
    };
    let clean = run(&bytes, base());
    let ended_well = |e: &Ended| e.status.starts_with("exit");
    let tell = |e: &Ended, plan: &[String], what: &str| format!("{}\nplan {:?}\n{}\n{}", what, plan, e.describe(), story);
    ensure!(clean.status == "exit 0", "an undisturbed session fails", "{}", tell(&clean, &[], "undisturbed"));
    let expect = |n: usize| -> Vec<Value> { s.messages[..n].iter().filter_map(|m| m.get("id").cloned()).collect() };
    // requests without the notification that ends the handshake
    let due = |n: usize| if n < 2 { n.min(1) } else { n };
    let answered = |e: &Ended, n: usize, plan: &[String], what: &str| {
        let Some(got) = parse(&e.stdout) else { violation("output is not a sequence of messages", &tell(e, plan, what)) };
        let ids: Vec<Value> = got.iter().filter(|m| m.get("method").is_none()).filter_map(|m| m.get("id").cloned()).collect();
        let want = expect(due(n));
        ensure!(ids == want, "requests without a response", "{} whole messages, ids {:?} are due, ids {:?} were answered\n{}", n, want, ids, tell(e, plan, what));
        count("responses", ids.len() as u64);
        got
    };
    let all = answered(&clean, s.messages.len(), &[], "undisturbed");

    for _ in 0..1 + sched(4) {
        let mut plan = base();
        disturb(&mut plan, bytes.len().max(clean.stdout.len()) as u64);
        let kind = fault(5);
        fingerprint_bytes(format!("{:?} {}", plan, kind).as_bytes());
        if kind == 0 {
            // the whole input, only disturbed
            let e = run(&bytes, plan.clone());
            if plan.len() > 2 {
                nontrivial();
            }
            ensure!(e.status == clean.status, "exit status differs", "{}", tell(&e, &plan, "disturbed"));
            let got = answered(&e, s.messages.len(), &plan, "disturbed");
            ensure!(got == all, "messages differ", "{:?}\nundisturbed: {:?}\n{}", got, all, tell(&e, &plan, "disturbed"));
            probe("whole input");
            continue;
        }
        // after how many whole messages the input ends
        let n = fault(s.messages.len() as u32 + 1) as usize;
        let from = if n == 0 { 0 } else { ends[n - 1] };
        nontrivial();
        if kind == 4 {
            // the client stops listening
            let at = fault(clean.stdout.len() as u32 + 1);
            let errno = [libc::EPIPE, libc::EIO, libc::ENOSPC, libc::EAGAIN][fault(4) as usize];
            plan.push(format!("p:w:<stdout>:{}:{}", at, errno));
            fingerprint(at as u64);
            let e = run(&bytes, plan.clone());
            probe("output fails");
            ensure!(ended_well(&e), "the server does not end", "{}", tell(&e, &plan, "output fails"));
            ensure!(clean.stdout.starts_with(&e.stdout), "output is not the beginning of the messages", "{}", tell(&e, &plan, "output fails"));
            continue;
        }
        let mut input = bytes[..from].to_vec();
        let what = match kind {
            1 => {
                let next = ends.get(n).copied().unwrap_or(from);
                if next > from {
                    // near the ends of the message and its header, or anywhere
                    let len = (next - from) as u32;
                    let k = match fault(3) {
                        0 => fault(len.min(30)),
                        1 => len - 1 - fault(len.min(5)),
                        _ => fault(len),
                    };
                    input.extend(&bytes[from..from + k as usize]);
                }
                probe("input ends early");
                "input ends early"
            }
            2 => {
                input.extend(garbage());
                probe("input ends in garbage");
                "input ends in garbage"
            }
            _ => {
                input = bytes.clone();
                let len = (ends.get(n).copied().unwrap_or(from) - from) as u32;
                let k = from as u32 + if len == 0 { 0 } else { fault(len) };
                plan.push(format!("p:r:<stdin>:{}:{}", k, [libc::EIO, libc::ECONNRESET, libc::ENOTCONN][fault(3) as usize]));
                fingerprint(k as u64);
                if k as usize >= bytes.len() {
                    // there is nothing left to fail
                    continue;
                }
                probe("input fails");
                "input fails"
            }
        };
        fingerprint_bytes(&input[from.min(input.len())..]);
        let whole = run(&bytes[..from], base());
        let want = answered(&whole, n, &[], "input of whole messages only");
        let e = run(&input, plan.clone());
        ensure!(ended_well(&e), "the server does not end", "{}", tell(&e, &plan, what));
        let got = answered(&e, n, &plan, what);
        ensure!(got == want, "messages differ", "{:?}\nwith whole messages only: {:?}\n{}", got, want, tell(&e, &plan, what));
    }
}

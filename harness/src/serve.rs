//! Replays the transitions of `Serve.tla` on `Server::serve` with a real service.

use std::collections::HashMap;
use std::task::Poll;

use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Id, Request};
use tower_lsp::lsp_types::MessageType;
use tower_lsp::{Client, Server};

use crate::backend::*;
use crate::clientside::{raw_call, typed_call, Back};
use crate::exec::{Rng, Serving, Task};
use crate::graph::{Fail, World};
use crate::io::*;

struct Flight {
    tag: i64,
    id: Option<Id>,
    ok: Value,
    /// Id of the request that the handler has sent to the client.
    asked: Option<Value>,
    /// Length of the first message to the client.
    pad: usize,
}

pub struct Serve {
    pipe: Pipe,
    sh: Shared,
    client: Client,
    task: Option<Serving>,
    aux: Vec<Task<()>>,
    tokens: HashMap<i64, Flight>,
    next_tag: i64,
    /// Bytes of messages that arrive together with the next one.
    chunk: Vec<u8>,
    out_at: usize,
    /// What is still to be written: a description and the token it is about.
    due: Vec<Due>,
    starts: Vec<i64>,
    started: Vec<i64>,
    limit: i64,
    seen: Vec<String>,
    extra_error: bool,
    trickle: bool,
    told: HashMap<String, u32>,
    /// Messages of no consequence that may still be waiting for a slot.
    filled: usize,
}

/// How many messages may be waiting at least.
const FILL: usize = 80;

#[derive(Debug, Clone)]
enum Due {
    Exactly(Value),
    Code(Value, i64),
    Ask(i64, i64),
    /// May be lost.
    Perhaps(Value),
}

/// Messages sent by a talkative handler.
const TELLS: u32 = 6;

/// The handler and position of a message sent by a talkative handler.
fn tell_of(m: &Value) -> Option<(String, u32)> {
    let text = m["params"]["message"].as_str()?.strip_prefix("tell-")?;
    let (tag, rest) = text.split_once('-')?;
    Some((tag.to_string(), rest.trim_end_matches('.').parse().ok()?))
}

impl Due {
    fn matches(&self, m: &Value) -> bool {
        match self {
            Due::Exactly(v) | Due::Perhaps(v) => v == m,
            Due::Code(id, code) => m.get("id") == Some(id) && m["error"]["code"] == *code && m.get("result").is_none(),
            Due::Ask(tag, _) => {
                m["method"] == "workspace/configuration"
                    && m["params"]["items"][0]["section"] == format!("ask-{tag}")
                    && m.get("id").is_some()
            }
        }
    }
    fn is_response(&self) -> bool {
        match self {
            Due::Exactly(v) => v.get("method").is_none(),
            Due::Code(id, _) => !id.is_null(),
            Due::Ask(..) | Due::Perhaps(_) => false,
        }
    }
}

fn short(v: &impl ToString) -> String {
    v.to_string().chars().take(300).collect()
}

impl Serve {
    pub fn with_limit(rng: &mut Rng, limit: Option<usize>) -> Self {
        let pipe = Pipe::new(rng);
        let sh = Shared::default();
        let (service, socket, client) = service(&sh);
        let server = Server::new(Reader(pipe.clone()), Writer(pipe.clone()), socket);
        let server = match limit {
            Some(n) => server.concurrency_level(n),
            None => server,
        };
        let mut s = Serve {
            pipe,
            sh,
            client,
            task: Some(Serving::serving(server.serve(service))),
            aux: Vec::new(),
            tokens: HashMap::new(),
            next_tag: 0,
            chunk: Vec::new(),
            out_at: 0,
            due: Vec::new(),
            starts: Vec::new(),
            started: Vec::new(),
            limit: limit.unwrap_or(4) as i64,
            seen: Vec::new(),
            extra_error: false,
            trickle: rng.below(2) == 0,
            told: HashMap::new(),
            filled: 0,
        };
        if rng.below(3) == 0 {
            s.pipe.lock().max_read = 1 + rng.below(20);
        }
        s.open(rng);
        s.sh.release(0, Out::Ok);
        s.send(json!({"jsonrpc": "2.0", "method": "initialize", "params": init_params(0), "id": "init"}));
        s.flush(rng);
        s.sh.take_log();
        s.out_at = s.pipe.lock().output.len();
        s.sh.lock().max_running = 0;
        s
    }

    fn open(&mut self, _rng: &mut Rng) {
        self.pipe.set_mode(if self.trickle { WriteMode::Trickle } else { WriteMode::Open });
    }

    fn send(&mut self, v: Value) {
        self.chunk.extend(frame(v.to_string().as_bytes()));
    }

    fn settle(&mut self) {
        loop {
            let mut again = false;
            if let Some(t) = &mut self.task {
                if (!t.polled || t.flag.get()) && { again = true; t.settle().is_ready() } {
                    self.task = None;
                }
            }
            self.aux.retain_mut(|t| {
                if !t.polled || t.flag.get() {
                    again = true;
                    t.settle().is_pending()
                } else {
                    true
                }
            });
            if !again {
                break;
            }
        }
    }

    fn flush(&mut self, rng: &mut Rng) {
        let chunk = std::mem::take(&mut self.chunk);
        let step = match rng.below(4) {
            0 if chunk.len() < 600 => 1,
            1 if !chunk.is_empty() => 1 + rng.below(chunk.len()),
            _ => chunk.len().max(1),
        };
        for part in chunk.chunks(step) {
            self.pipe.feed(part);
            self.settle();
        }
        self.settle();
    }

    fn new_tag(&mut self) -> i64 {
        self.next_tag += 1;
        self.next_tag
    }

    fn new_id(&self, tag: i64, rng: &mut Rng) -> Id {
        match rng.below(3) {
            0 => Id::Number(tag),
            1 => Id::String(tag.to_string()),
            _ => Id::String(format!("é{tag}")),
        }
    }

    /// Sends a message of the given kind for a new tag.
    fn arrive(&mut self, kind: &str, queued: bool, rng: &mut Rng) -> (Flight, Value) {
        let tag = self.new_tag();
        match kind {
            "tell" => {
                // Longer than any buffer of the transport, when nothing may be written by the time it runs.
                let pad = match self.pipe.lock().mode {
                    WriteMode::Blocked => match rng.below(2000) {
                        0 => 11_000_000,
                        1..=6 => 1_100_000,
                        _ => 140_000,
                    },
                    WriteMode::Trickle if queued => 20_000,
                    _ if queued => 140_000,
                    _ => rng.below(30),
                };
                self.sh.lock().scripts.insert(tag, vec![Script::Tell(TELLS, pad)]);
                self.sh.release(tag, Out::Ok);
                let (m, p) = rng.pick(&note_forms(tag)).clone();
                (Flight { tag, id: None, ok: Value::Null, asked: None, pad }, json!({"jsonrpc": "2.0", "method": m, "params": p}))
            }
            "note" => {
                let (m, p) = rng.pick(&note_forms(tag)).clone();
                (Flight { tag, id: None, ok: Value::Null, asked: None, pad: 0 }, json!({"jsonrpc": "2.0", "method": m, "params": p}))
            }
            _ => {
                let (m, p, ok) = rng.pick(&request_forms(tag)).clone();
                let id = self.new_id(tag, rng);
                if kind == "ask" {
                    self.sh.lock().scripts.insert(tag, vec![Script::Ask]);
                    self.sh.release(tag, Out::Ok);
                }
                (Flight { tag, id: Some(id.clone()), ok, asked: None, pad: 0 },
                 json!({"jsonrpc": "2.0", "method": m, "params": p, "id": id}))
            }
        }
    }

    fn expect_outs(&mut self, ev: &Value) {
        for o in ev["outs"].as_array().unwrap() {
            let t = o["t"].as_i64().unwrap();
            let due = match (t, o["r"].as_str().unwrap()) {
                (0, "push") => continue, // added where it is sent
                (0, "e-32700") => Due::Code(Value::Null, -32700),
                (_, r @ ("tell" | "tell?")) => {
                    let f = &self.tokens[&t];
                    for i in 0..TELLS {
                        let m = json!({"jsonrpc": "2.0", "method": "window/logMessage",
                                       "params": {"type": 4, "message": told(f.tag, i, f.pad)}});
                        self.due.push(if r == "tell" { Due::Exactly(m) } else { Due::Perhaps(m) });
                    }
                    continue;
                }
                (_, "ask") => Due::Ask(self.tokens[&t].tag, t),
                (_, r) => {
                    let f = &self.tokens[&t];
                    let id = serde_json::to_value(f.id.as_ref().expect("request")).unwrap();
                    match r {
                        "ok" => Due::Exactly(json!({"jsonrpc": "2.0", "result": f.ok, "id": id})),
                        "err" => Due::Exactly(json!({"jsonrpc": "2.0", "error": handler_error(f.tag), "id": id})),
                        "e-32800" => Due::Code(id, -32800),
                        other => panic!("unknown outcome {other}"),
                    }
                }
            };
            self.due.push(due);
        }
    }

    fn drain_outputs(&mut self, fails: &mut Vec<Fail>, ev: &Value) {
        let out = self.pipe.lock().output[self.out_at..].to_vec();
        let (msgs, used) = match parse_output(&out) {
            Ok(x) => x,
            Err(e) => return fails.push(Fail::on(&json!(["P15"]), e)),
        };
        self.out_at += used;
        let blocked = ev["w"] != "open";
        if !blocked && used != out.len() {
            fails.push(Fail::on(&json!(["P15"]), format!("incomplete message written: {}", short(&String::from_utf8_lossy(&out[used..])))));
        }
        for m in msgs {
            self.seen.push(short(&m));
            match self.due.iter().position(|d| d.matches(&m)) {
                Some(i) => {
                    if self.limit == 1 && self.due[i].is_response() && self.due[..i].iter().any(Due::is_response) {
                        fails.push(Fail::on(&json!(["P16"]), format!("response out of request order: {}", short(&m))));
                    }
                    if let Some((tag, n)) = tell_of(&m) {
                        let next = self.told.entry(tag).or_insert(0);
                        if n < *next {
                            fails.push(Fail::on(&json!(["P12"]), format!("message out of order: {}", short(&m))));
                        }
                        *next = n + 1;
                    }
                    if let Due::Ask(_, t) = self.due.remove(i) {
                        if let Some(f) = self.tokens.get_mut(&t) {
                            f.asked = Some(m["id"].clone());
                        }
                    }
                }
                None if self.extra_error && m["id"].is_null() && m["error"]["code"] == -32700 => self.extra_error = false,
                None => {
                    let mut sc = ev["so"].as_array().cloned().unwrap_or_default();
                    sc.push(json!("P15"));
                    if m.get("method").is_none() {
                        sc.push(json!("P05"));
                    }
                    fails.push(Fail::on(&json!(sc), format!("unexpected message written: {}; due: {:?}", short(&m), self.due)));
                }
            }
        }
        if !blocked {
            self.due.retain(|d| !matches!(d, Due::Perhaps(_)));
        }
        if !blocked && !self.due.is_empty() {
            let mut sc = ev["so"].as_array().cloned().unwrap_or_default();
            sc.push(json!("P15"));
            fails.push(Fail::on(&json!(sc), format!("not written although nothing holds it up: {}", short(&format!("{:?}", self.due)))));
        }
    }

    fn observe(&mut self, ev: &Value) -> Vec<Fail> {
        let mut fails = Vec::new();
        let open = ev["w"] == "open";

        for (tag, what) in self.sh.take_log() {
            match what.as_str() {
                "start" => self.started.push(tag),
                w if w.starts_with("reply:") => {
                    if w != format!("reply:[{tag}]") {
                        fails.push(Fail::on(&json!(["P18", "P09"]), format!("handler {tag} got {w}")));
                    }
                }
                w if w.starts_with("refused:") => {
                    if ev["a"] != "reply" || ev["r"] != "err" || w != "refused:Server error" {
                        // `Display` of the code is not part of the contract; only the step matters.
                        if ev["a"] != "reply" || ev["r"] != "err" {
                            fails.push(Fail::on(&json!(["P18", "P09"]), format!("handler {tag} was {w}")));
                        }
                    }
                }
                _ => {}
            }
        }
        let n = self.started.len();
        let ok = if open { self.started == self.starts } else { n <= self.starts.len() && self.started[..] == self.starts[..n] };
        if !ok {
            fails.push(Fail::on(&ev["ss"], format!("handlers started (by tag): {:?}, expected: {:?}", self.started, self.starts)));
        }
        {
            let b = self.sh.lock();
            if b.max_running > self.limit {
                fails.push(Fail::on(&json!(["P16"]), format!("{} handlers at once with a limit of {}", b.max_running, self.limit)));
            }
            if open && ok && b.running != ev["n"].as_i64().unwrap() {
                let mut sc = ev["so"].as_array().cloned().unwrap_or_default();
                sc.extend(ev["ss"].as_array().cloned().unwrap_or_default());
                fails.push(Fail::on(&json!(sc), format!("{} handlers are running, expected {}", b.running, ev["n"])));
            }
        }
        self.drain_outputs(&mut fails, ev);
        let returned = self.task.is_none();
        if returned != (ev["ret"] == true) {
            fails.push(Fail::on(&ev["sr"], if returned { "serve returned early".into() } else { "serve did not return".into() }));
        }
        fails
    }

    pub fn event(&mut self, ev: &Value, rng: &mut Rng) -> Vec<Fail> {
        let a = ev["a"].as_str().unwrap();
        let t = ev["t"].as_i64().unwrap();
        let broken = ev["w"] == "broken";
        match a {
            "quit" => return self.quit(),
            "late" => return self.late(ev["k"].as_str().unwrap(), rng),
            _ => {}
        }
        if rng.below(4) == 0 && ev["w"] == "open" && a != "unblock" {
            self.trickle = !self.trickle;
            self.open(rng);
        }
        match a {
            "arrive" => {
                let queued = !broken && !ev["starts"].as_array().unwrap().contains(&json!(t));
                let (f, m) = self.arrive(ev["k"].as_str().unwrap(), queued, rng);
                if broken {
                    if rng.below(2) == 0 {
                        self.sh.release(f.tag, Out::Ok);
                    }
                } else {
                    self.tokens.insert(t, f);
                }
                self.send(m);
            }
            "cancel" => {
                let id = self.tokens[&t].id.clone();
                self.send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}));
            }
            "rel" => {
                let tag = self.tokens[&t].tag;
                self.sh.release(tag, if ev["r"] == "ok" { Out::Ok } else { Out::Err });
            }
            "reply" => {
                let f = &self.tokens[&t];
                let Some(id) = f.asked.clone() else {
                    return vec![Fail::on(&json!(["P18"]), "the handler's request to the client was never written".into())];
                };
                let m = if ev["r"] == "ok" {
                    json!({"jsonrpc": "2.0", "result": [f.tag], "id": id})
                } else {
                    json!({"jsonrpc": "2.0", "error": {"code": -31234, "message": "no"}, "id": id})
                };
                self.send(m);
            }
            "stray" => {
                let id = rng.pick(&[json!(987654), json!(null), json!("x"), json!(-1)]).clone();
                self.send(json!({"jsonrpc": "2.0", "result": [1], "id": id}));
            }
            "fill" => {
                while self.filled < FILL {
                    self.filled += 1;
                    self.send(json!({"jsonrpc": "2.0", "method": "custom/unheardOf", "params": {"n": self.filled}}));
                }
            }
            "push" => {
                let tag = self.new_tag();
                let c = self.client.clone();
                let text = format!("push-{tag}-ü𝄞");
                if ev["outs"].as_array().map_or(false, |o| !o.is_empty()) {
                    self.due.push(Due::Exactly(json!({"jsonrpc": "2.0", "method": "window/logMessage",
                                                      "params": {"type": 4, "message": text}})));
                }
                self.aux.push(Task::new(async move { c.log_message(MessageType::LOG, text).await }));
            }
            "bad" => {
                let b = *rng.pick(&["Content-Length: 3\r\n\r\n{]}", "Content-Length: 2\r\n\r\n\"x", "Content-Length: x\r\n\r\n{}",
                                   "Content-Length: 34\r\n\r\n{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}}",
                                   "Content-Length: 42\r\n\r\n{\"jsonrpc\":\"2.0\",\"method\":\"custom/note\",}\n"]);
                self.chunk.extend(b.as_bytes());
            }
            "exit" => self.send(json!({"jsonrpc": "2.0", "method": "exit"})),
            "after" => {
                let tag = self.new_tag();
                let m = match rng.below(4) {
                    0 => json!({"jsonrpc": "2.0", "method": "exit"}),
                    1 => json!({"jsonrpc": "2.0", "method": "custom/note", "params": {"tag": tag}}),
                    2 => json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": 1}}),
                    _ => json!({"jsonrpc": "2.0", "method": "custom/request", "params": {"tag": tag}, "id": tag}),
                };
                self.send(m);
            }
            "eof" => self.pipe.end(false),
            "readerr" => {
                self.extra_error = true;
                self.pipe.end(true);
            }
            "block" => self.pipe.set_mode(WriteMode::Blocked),
            "unblock" => {
                if self.tokens.values().any(|f| f.pad > 1000) {
                    self.trickle = false;
                }
                self.open(rng);
            }
            "break" => {
                let mode = *rng.pick(&[WriteMode::Broken, WriteMode::Zero]);
                self.pipe.set_mode(mode);
            }
            "drain" => {
                for tag in 0..=self.next_tag {
                    self.sh.release(tag, Out::Ok);
                }
                self.pipe.end(false);
            }
            other => panic!("unknown event {other}"),
        }
        if broken {
            self.flush(rng);
            let b = self.sh.lock();
            if b.max_running > self.limit {
                return vec![Fail::on(&json!(["P16"]), "too many handlers at once".into())];
            }
            if a == "drain" && self.task.is_some() {
                return vec![Fail::on(&json!(["P17"]), "serve does not return although writing failed and the input has ended".into())];
            }
            return vec![];
        }
        self.expect_outs(ev);
        for s in ev["starts"].as_array().unwrap() {
            self.starts.push(self.tokens[&s.as_i64().unwrap()].tag);
        }
        if ev["more"] == true {
            return vec![];
        }
        self.flush(rng);
        if ev["w"] == "open" && ev["n"].as_i64().unwrap() < self.limit {
            self.filled = 0;
        }
        self.observe(ev)
    }

    /// Drops the server in the middle of its work.
    fn quit(&mut self) -> Vec<Fail> {
        let mut fails = Vec::new();
        self.task = None;
        self.settle();
        if !self.aux.is_empty() {
            fails.push(Fail::on(&json!(["P12"]), "a task stays blocked although the connection has been dropped".into()));
        }
        let n = self.sh.lock().running;
        if n != 0 {
            fails.push(Fail::on(&json!(["P17"]), format!("{n} handlers live on without the server")));
        }
        fails
    }

    /// A call on the client after the end of the connection.
    fn late(&mut self, kind: &str, rng: &mut Rng) -> Vec<Fail> {
        let c = self.client.clone();
        let mut task = if kind == "ask" {
            Task::new(typed_call(&c, 1))
        } else if rng.below(2) == 0 {
            Task::new(async move { c.log_message(MessageType::LOG, "late").await; Back::Sent })
        } else {
            Task::new(raw_call(&c, Request::build("custom/rawNote").finish()))
        };
        match task.settle() {
            Poll::Ready(Back::Error(_)) if kind == "ask" => vec![],
            Poll::Ready(Back::Sent | Back::Other(_)) if kind != "ask" => vec![],
            other => vec![Fail::on(&json!(["P12"]), format!("after the end of the connection, a call on the client gives {other:?}"))],
        }
    }

    pub fn info(&self) -> Value {
        let n = self.seen.len();
        json!({"written": self.seen[n.saturating_sub(8)..], "trickle": self.trickle})
    }
}

macro_rules! world {
    ($name:ident, $limit:expr) => {
        pub struct $name(Serve);
        impl World for $name {
            fn new(rng: &mut Rng) -> Self {
                $name(Serve::with_limit(rng, $limit))
            }
            fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
                let fails = self.0.event(ev, rng);
                if fails.is_empty() { Ok(()) } else { Err(fails) }
            }
            fn describe(&self) -> Value {
                self.0.info()
            }
        }
    };
}

world!(Serve1, Some(1));
world!(Serve2, Some(2));
world!(Serve3, Some(3));
world!(Serve4, None);

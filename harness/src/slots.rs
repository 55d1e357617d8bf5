//! Replays the transitions of `Slots.tla` on `Server::serve`: limits and bursts of real sizes.

use std::collections::VecDeque;

use serde_json::{json, Value};
use tower_lsp::Server;

use crate::backend::*;
use crate::exec::{Rng, Serving};
use crate::graph::{Fail, World};
use crate::io::*;

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Request,
    Note,
    Ask,
}

struct Flight {
    tag: i64,
    kind: Kind,
    ok: Value,
    /// Id of the request that the handler has sent to the client.
    asked: Option<Value>,
}

pub struct Slots {
    pipe: Pipe,
    sh: Shared,
    task: Option<Serving>,
    asks: bool,
    notes: bool,
    limit: i64,
    tag: i64,
    chunk: Vec<u8>,
    waiting: VecDeque<Flight>,
    running: Vec<Flight>,
    starts: Vec<i64>,
    started: Vec<i64>,
    /// Responses that are due.
    due: Vec<Value>,
}

fn on(props: &[&str], what: String) -> Fail {
    Fail::on(&json!(props), what)
}

impl Slots {
    fn send(&mut self, v: Value) {
        self.chunk.extend(frame(v.to_string().as_bytes()));
    }

    fn settle(&mut self) {
        if let Some(t) = &mut self.task {
            if t.settle().is_ready() {
                self.task = None;
            }
        }
    }

    fn flush(&mut self, rng: &mut Rng) {
        let chunk = std::mem::take(&mut self.chunk);
        let step = match rng.below(3) {
            0 if !chunk.is_empty() => 1 + rng.below(chunk.len()),
            1 => 4096,
            _ => chunk.len().max(1),
        };
        for part in chunk.chunks(step) {
            self.pipe.feed(part);
            self.settle();
        }
        self.settle();
    }

    fn open(&mut self, ev: &Value, rng: &mut Rng) {
        self.limit = ev["c"].as_i64().unwrap();
        self.asks = ev["asks"] != "no";
        self.notes = ev["asks"] != "pure";
        let (service, socket, _) = service(&self.sh);
        let server = Server::new(Reader(self.pipe.clone()), Writer(self.pipe.clone()), socket);
        let server = match self.limit {
            4 if rng.below(2) == 0 => server,
            1_000_000 => server.concurrency_level(*rng.pick(&[1_000_000, u32::MAX as usize + 1, usize::MAX])),
            n => server.concurrency_level(n as usize),
        };
        self.task = Some(Serving::serving(server.serve(service)));
        self.sh.release(0, Out::Ok);
        self.send(json!({"jsonrpc": "2.0", "method": "initialize", "params": init_params(0), "id": "init"}));
        self.flush(rng);
        self.pipe.drain();
        self.sh.take_log();
        self.sh.lock().max_running = 0;
    }

    fn new_tag(&mut self) -> i64 {
        self.tag += if self.tag % 11 == 10 { 2 } else { 1 };
        self.tag
    }

    fn message(&mut self, quick: bool, rng: &mut Rng) -> Flight {
        let tag = self.new_tag();
        let kind = match rng.below(6) {
            0 if self.notes => Kind::Note,
            1 | 2 if self.asks && !quick => Kind::Ask,
            _ => Kind::Request,
        };
        if quick {
            self.sh.release(tag, Out::Ok);
        }
        if kind == Kind::Note {
            let (m, p) = rng.pick(&note_forms(tag)).clone();
            self.send(json!({"jsonrpc": "2.0", "method": m, "params": p}));
            return Flight { tag, kind, ok: Value::Null, asked: None };
        }
        let (m, p, ok) = rng.pick(&request_forms(tag)).clone();
        if kind == Kind::Ask {
            self.sh.lock().scripts.insert(tag, vec![Script::Ask]);
            self.sh.release(tag, Out::Ok);
        }
        self.send(json!({"jsonrpc": "2.0", "method": m, "params": p, "id": tag}));
        Flight { tag, kind, ok, asked: None }
    }

    fn answer(&mut self, f: &Flight, out: Out) {
        if f.kind != Kind::Note {
            self.due.push(match out {
                Out::Ok => json!({"jsonrpc": "2.0", "result": f.ok, "id": f.tag}),
                Out::Err => json!({"jsonrpc": "2.0", "error": handler_error(f.tag), "id": f.tag}),
            });
        }
    }

    fn finish(&mut self, n: usize, ev: &Value, rng: &mut Rng) -> Result<(), Fail> {
        let mut at_once = rng.below(3) > 0;
        let order = rng.below(3);
        for _ in 0..n {
            let i = match order {
                0 => 0,
                1 => self.running.len() - 1,
                _ => rng.below(self.running.len()),
            };
            let f = self.running.remove(i);
            let ends_by_cancel = f.kind != Kind::Note && ev["free"] == true && ev["open"] == true && rng.below(4) == 0;
            if ends_by_cancel {
                self.send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": f.tag}}));
                self.due.push(json!([f.tag]));
            } else if f.kind == Kind::Ask {
                let Some(id) = f.asked.clone() else {
                    return Err(on(&["P18", "P12", "P15"], format!("the request of handler {} to the client was not written", f.tag)));
                };
                self.send(json!({"jsonrpc": "2.0", "result": [f.tag], "id": id}));
                self.answer(&f, Out::Ok);
            } else {
                let out = *rng.pick(&[Out::Ok, Out::Ok, Out::Err]);
                let out = if f.kind == Kind::Note { Out::Ok } else { out };
                self.sh.release(f.tag, out);
                self.answer(&f, out);
            }
            if !at_once && rng.below(10) == 0 {
                self.flush(rng);
                at_once = rng.below(3) == 0;
            }
        }
        Ok(())
    }

    fn observe(&mut self, ev: &Value) -> Vec<Fail> {
        let mut fails = Vec::new();
        for (tag, what) in self.sh.take_log() {
            if what == "start" {
                self.started.push(tag);
            } else if what.starts_with("reply:") && what != format!("reply:[{tag}]") || what.starts_with("refused:") {
                fails.push(on(&["P09", "P18", "P10"], format!("handler {tag} got {what}")));
            }
        }
        if self.started != self.starts {
            let (n, m) = (self.started.len(), self.starts.len());
            let i = (0..n.min(m)).find(|i| self.started[*i] != self.starts[*i]);
            fails.push(on(&["P16", "P18"], format!("{n} handlers have been started, expected {m}; first difference: {i:?}")));
        }
        {
            let b = self.sh.lock();
            if b.max_running > self.limit {
                fails.push(on(&["P16"], format!("{} handlers at once with a limit of {}", b.max_running, self.limit)));
            } else if fails.is_empty() && b.running != ev["run"].as_i64().unwrap() {
                fails.push(on(&["P16", "P18", "P06"], format!("{} handlers are running, expected {}", b.running, ev["run"])));
            }
        }
        let out = self.pipe.drain();
        match parse_output(&out) {
            Err(e) => fails.push(on(&["P15"], e)),
            Ok((_, used)) if used != out.len() => fails.push(on(&["P15"], "incomplete message written".into())),
            Ok((msgs, _)) => {
                for m in msgs {
                    if m["method"] == "workspace/configuration" {
                        let section = m["params"]["items"][0]["section"].as_str().unwrap_or("");
                        let f = self.running.iter_mut().find(|f| f.kind == Kind::Ask && f.asked.is_none() && section == format!("ask-{}", f.tag));
                        match f {
                            Some(f) => f.asked = Some(m["id"].clone()),
                            None => fails.push(on(&["P15", "P12"], format!("unexpected: {m}"))),
                        }
                        continue;
                    }
                    let hit = self.due.iter().position(|d| match d {
                        Value::Array(a) => m["id"] == a[0] && m["error"]["code"] == -32800,
                        d => *d == m,
                    });
                    match hit {
                        Some(0) => drop(self.due.remove(0)),
                        Some(_) if self.limit == 1 => {
                            fails.push(on(&["P16"], "response out of request order".into()));
                            break;
                        }
                        Some(i) => drop(self.due.remove(i)),
                        None => fails.push(on(&["P15", "P05"], format!("unexpected: {:.300}", m.to_string()))),
                    }
                }
            }
        }
        if fails.is_empty() && !self.due.is_empty() {
            fails.push(on(&["P15", "P05", "P18"], format!("{} responses were not written", self.due.len())));
        }
        if fails.is_empty() && self.running.iter().any(|f| f.kind == Kind::Ask && f.asked.is_none()) {
            fails.push(on(&["P12", "P15", "P18"], "a handler's request to the client was not written".into()));
        }
        let returned = self.task.is_none();
        if returned != (ev["ret"] == true) {
            fails.push(on(&["P17"], if returned { "serve returned early".into() } else { "serve did not return".into() }));
        }
        fails
    }
}

impl World for Slots {
    fn new(rng: &mut Rng) -> Self {
        Slots {
            pipe: Pipe::new(rng),
            sh: Shared::default(),
            task: None,
            asks: false,
            notes: true,
            limit: 0,
            tag: 0,
            chunk: Vec::new(),
            waiting: VecDeque::new(),
            running: Vec::new(),
            starts: Vec::new(),
            started: Vec::new(),
            due: Vec::new(),
        }
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let n = ev["n"].as_u64().unwrap() as usize;
        match ev["a"].as_str().unwrap() {
            "open" => self.open(ev, rng),
            "arrive" => {
                for _ in 0..n {
                    let f = self.message(false, rng);
                    self.waiting.push_back(f);
                }
            }
            "rush" => {
                for _ in 0..n {
                    let f = self.message(true, rng);
                    self.starts.push(f.tag);
                    self.answer(&f, Out::Ok);
                }
            }
            "finish" => {
                if let Err(f) = self.finish(n, ev, rng) {
                    return Err(vec![f]);
                }
            }
            "exit" => {
                for f in std::mem::take(&mut self.running).into_iter().chain(std::mem::take(&mut self.waiting)) {
                    self.due.push(json!([f.tag]));
                }
                self.send(json!({"jsonrpc": "2.0", "method": "exit"}));
            }
            "eof" => self.pipe.end(false),
            other => panic!("unknown event {other}"),
        }
        if ev["a"] != "rush" {
            for _ in 0..ev["starts"].as_u64().unwrap() {
                let f = self.waiting.pop_front().unwrap();
                self.starts.push(f.tag);
                self.running.push(f);
            }
        }
        self.flush(rng);
        let fails = self.observe(ev);
        if fails.is_empty() { Ok(()) } else { Err(fails) }
    }

    fn describe(&self) -> Value {
        json!({"messages": self.tag})
    }
}

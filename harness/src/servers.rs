//! Replays the transitions of `Servers.tla` on several instances of `Server::serve`.

use std::collections::{BTreeMap, HashSet};

use serde_json::{json, Value};
use tower_lsp::lsp_types::MessageType;
use tower_lsp::{Client, Server};

use crate::backend::*;
use crate::exec::{now, Rng, Serving};
use crate::graph::{Fail, World};
use crate::io::*;

struct Flight {
    tag: i64,
    ok: Value,
    ask: bool,
    /// Id of the request that the handler has sent to the client.
    asked: Option<Value>,
}

struct One {
    pipe: Pipe,
    sh: Shared,
    task: Option<Serving>,
    client: Option<Client>,
    flights: BTreeMap<i64, Flight>,
    asked: HashSet<String>,
    chunk: Vec<u8>,
    /// What is missing of a message that has been received in part.
    rest: Vec<u8>,
}

impl One {
    fn new(rng: &mut Rng) -> Self {
        One {
            pipe: Pipe::new(rng),
            sh: Shared::default(),
            task: None,
            client: None,
            flights: BTreeMap::new(),
            asked: HashSet::new(),
            chunk: Vec::new(),
            rest: Vec::new(),
        }
    }

    fn send(&mut self, v: Value) {
        self.complete();
        self.chunk.extend(frame(v.to_string().as_bytes()));
    }

    fn complete(&mut self) {
        self.chunk.append(&mut self.rest);
    }

    /// A message without any effect arrives in part.
    fn begin(&mut self, rng: &mut Rng) {
        self.complete();
        let v = json!({"jsonrpc": "2.0", "method": "$/nothing", "params": {"é": "x".repeat(rng.below(60))}});
        let bytes = frame(v.to_string().as_bytes());
        let (part, rest) = bytes.split_at(1 + rng.below(bytes.len() - 1));
        self.chunk.extend(part);
        self.rest = rest.to_vec();
    }

    fn settle(&mut self) {
        if let Some(t) = &mut self.task {
            if t.settle().is_ready() {
                self.task = None;
            }
        }
    }
}

pub struct Servers {
    all: Vec<One>,
    ids: Vec<Value>,
    tag: i64,
}

impl Servers {
    fn one(&mut self, s: i64) -> &mut One {
        &mut self.all[s as usize - 1]
    }

    fn settle(&mut self, rng: &mut Rng) {
        let mut order: Vec<usize> = (0..self.all.len()).collect();
        rng.shuffle(&mut order);
        for i in order {
            self.all[i].settle();
        }
    }

    fn flush(&mut self, s: i64, rng: &mut Rng) {
        let chunk = std::mem::take(&mut self.one(s).chunk);
        let step = if rng.below(3) == 0 && !chunk.is_empty() { 1 + rng.below(chunk.len()) } else { chunk.len().max(1) };
        for part in chunk.chunks(step) {
            self.one(s).pipe.feed(part);
            self.settle(rng);
        }
        self.settle(rng);
    }

    fn open(&mut self, s: i64, rng: &mut Rng) {
        // What is left of the one before may go at any time.
        let old = std::mem::replace(self.one(s), One::new(rng));
        let o = self.one(s);
        let (service, socket, client) = service(&o.sh);
        o.client = Some(client);
        o.sh.release(0, Out::Ok);
        o.task = Some(Serving::serving(Server::new(Reader(o.pipe.clone()), Writer(o.pipe.clone()), socket).serve(service)));
        drop(old);
    }

    fn request(&mut self, s: i64, i: i64, ask: bool, track: bool, rng: &mut Rng) {
        self.tag += 1;
        let (tag, id) = (self.tag, self.ids[i as usize - 1].clone());
        let (m, p, ok) = rng.pick(&request_forms(tag)).clone();
        let o = self.one(s);
        if ask {
            o.sh.lock().scripts.insert(tag, vec![Script::Ask]);
            o.sh.release(tag, Out::Ok);
        }
        o.send(json!({"jsonrpc": "2.0", "method": m, "params": p, "id": id}));
        if track {
            o.flights.insert(i, Flight { tag, ok, ask, asked: None });
        }
    }
}

impl World for Servers {
    fn new(rng: &mut Rng) -> Self {
        let ids = concrete_ids(rng).iter().map(|id| serde_json::to_value(id).unwrap()).collect();
        Servers { all: (0..4).map(|_| One::new(rng)).collect(), ids, tag: 0 }
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let (s, i) = (ev["s"].as_i64().unwrap(), ev["i"].as_i64().unwrap());
        let outs: Vec<(String, i64)> =
            ev["outs"].as_array().unwrap().iter().map(|o| (o[0].as_str().unwrap().to_string(), o[1].as_i64().unwrap())).collect();
        let mut fails: Vec<Fail> = Vec::new();
        let mut due: Vec<Value> = Vec::new();
        let mut ended: Option<Flight> = None;
        match ev["a"].as_str().unwrap() {
            "open" => self.open(s, rng),
            "init" => self.one(s).send(json!({"jsonrpc": "2.0", "method": "initialize", "params": init_params(0), "id": "i"})),
            "down" => {
                let o = self.one(s);
                o.sh.lock().shutdown_tag = -1;
                o.sh.release(-1, Out::Ok);
                o.send(json!({"jsonrpc": "2.0", "method": "shutdown", "id": "d"}));
            }
            "exit" => self.one(s).send(json!({"jsonrpc": "2.0", "method": "exit"})),
            k @ ("req" | "ask") => {
                let run = outs.iter().all(|o| o.0 == "ask");
                self.request(s, i, k == "ask", run, rng);
            }
            "again" => self.request(s, i, false, false, rng),
            "finish" => {
                let f = self.one(s).flights.remove(&i).unwrap();
                let id = self.ids[i as usize - 1].clone();
                let o = self.one(s);
                let out = if f.ask { Out::Ok } else { *rng.pick(&[Out::Ok, Out::Err]) };
                if f.ask {
                    let asked = f.asked.clone();
                    o.send(json!({"jsonrpc": "2.0", "result": [f.tag], "id": asked}));
                } else {
                    o.sh.release(f.tag, out);
                }
                due.push(match out {
                    Out::Ok => json!({"jsonrpc": "2.0", "result": f.ok, "id": id}),
                    Out::Err => json!({"jsonrpc": "2.0", "error": handler_error(f.tag), "id": id}),
                });
                ended = Some(f);
            }
            "cancel" => {
                let id = self.ids[i as usize - 1].clone();
                self.one(s).send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}));
            }
            "stray" => {
                let id = self.ids[i as usize - 1].clone();
                let elsewhere: Vec<Value> = self.all.iter().flat_map(|o| o.flights.values().filter_map(|f| f.asked.clone())).collect();
                let o = self.one(s);
                let here: Vec<&Value> = o.flights.values().filter_map(|f| f.asked.as_ref()).collect();
                let strays: Vec<Value> = elsewhere.into_iter().filter(|id| !here.contains(&id)).collect();
                o.send(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}));
                for id in strays {
                    o.send(json!({"jsonrpc": "2.0", "result": ["stray"], "id": id}));
                }
            }
            "tell" => {
                self.tag += 1;
                let text = told(self.tag, 0, self.tag as usize % 7);
                if let Some(c) = self.one(s).client.clone() {
                    if now(c.log_message(MessageType::LOG, &text)).is_none() {
                        fails.push("a notification was not sent at once".to_string().into());
                    }
                }
                if !outs.is_empty() {
                    due.push(json!({"jsonrpc": "2.0", "method": "window/logMessage", "params": {"type": 4, "message": text}}));
                }
            }
            "bad" => {
                self.one(s).complete();
                self.one(s).chunk.extend(frame(rng.pick(&[&b"{"[..], b"\xff", b"nonsense", b"{\"jsonrpc\": \"2.0\", "])))
            }
            "eof" => {
                self.one(s).complete();
                self.flush(s, rng);
                self.one(s).pipe.end(false);
            }
            "drop" => {
                self.one(s).task = None;
                self.one(s).flights.clear();
            }
            other => panic!("unknown event {other}"),
        }
        for (k, i) in &outs {
            let id = if *i == 0 { Value::Null } else { self.ids[*i as usize - 1].clone() };
            match k.as_str() {
                "init" => due.push(json!({"jsonrpc": "2.0", "result": init_result(0), "id": "i"})),
                "down" => due.push(json!({"jsonrpc": "2.0", "result": null, "id": "d"})),
                "done" | "tell" | "ask" => {}
                code => due.push(json!({"code": code[1..].parse::<i64>().unwrap(), "id": id})),
            }
            if k == "e-32800" {
                self.one(s).flights.remove(i);
            }
        }
        if ev["listens"] == true && rng.below(2) == 0 {
            self.one(s).begin(rng);
        }
        self.flush(s, rng);

        let asks: Vec<i64> = outs.iter().filter(|o| o.0 == "ask").map(|o| o.1).collect();
        for (x, o) in self.all.iter_mut().enumerate() {
            let x = x as i64 + 1;
            let who = if x == s { "the server itself" } else { "another server" };
            let bytes = o.pipe.drain();
            let msgs = match parse_output(&bytes) {
                Ok((msgs, used)) if used == bytes.len() => msgs,
                _ => return Err(vec![format!("{who} wrote something else than messages").into()]),
            };
            let mut due = if x == s { std::mem::take(&mut due) } else { Vec::new() };
            let mut asks = if x == s { asks.clone() } else { Vec::new() };
            for m in msgs {
                let section = m["params"]["items"][0]["section"].as_str().unwrap_or("").to_string();
                let ask = asks.iter().position(|i| o.flights.get(i).is_some_and(|f| section == format!("ask-{}", f.tag)));
                let hit = due.iter().position(|d| match d.get("code") {
                    Some(code) => m["error"]["code"] == *code && m["id"] == d["id"],
                    None => *d == m,
                });
                match (ask, hit) {
                    (Some(k), _) if m["method"] == "workspace/configuration" => {
                        let i = asks.remove(k);
                        if !o.asked.insert(m["id"].to_string()) {
                            fails.push(format!("{who} has used the id {} twice", m["id"]).into());
                        }
                        o.flights.get_mut(&i).unwrap().asked = Some(m["id"].clone());
                    }
                    (_, Some(k)) => drop(due.remove(k)),
                    _ => fails.push(format!("{who} wrote {:.200}", m.to_string()).into()),
                }
            }
            if !due.is_empty() || !asks.is_empty() {
                fails.push(format!("{who} did not write {due:?} {asks:?}").into());
            }
            for (tag, what) in o.sh.take_log() {
                let by_ask = ended.as_ref().is_some_and(|f| f.tag == tag && what == format!("reply:[{tag}]"));
                if what.starts_with("reply:") && !by_ask || what.starts_with("refused:") {
                    fails.push(format!("a handler of {who} got {what}").into());
                }
            }
            if let Some(run) = ev["run"].get(x as usize - 1) {
                let running = o.sh.lock().running;
                if running != run.as_i64().unwrap() {
                    fails.push(format!("{who} runs {running} handlers, expected {run}").into());
                }
                let on = ev["on"][x as usize - 1] == true;
                if o.task.is_some() != on {
                    fails.push(format!("{who} {}", if on { "has ended" } else { "has not ended" }).into());
                }
            }
        }
        for f in &mut fails {
            f.fatal = true;
        }
        if fails.is_empty() { Ok(()) } else { Err(fails) }
    }

    fn describe(&self) -> Value {
        json!({"ids": self.ids})
    }
}

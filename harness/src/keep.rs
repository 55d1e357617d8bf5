//! Goes round the cycles of `Keep.tla` on a real `Server::serve`, comparing how much memory is in use
//! whenever the same state is reached again.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex};

use futures::channel::oneshot;
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, LanguageServer, LspService, Server};

use crate::backend::{CustomAsk, CustomNotify};
use crate::exec::{guarded, Rng, Serving, Task};
use crate::graph::{Graph, Report};
use crate::io::*;

/// Counts the bytes that each thread has allocated and not released.
pub struct Counting;

thread_local!(static BYTES: Cell<isize> = const { Cell::new(0) });

fn add(n: isize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}

type Gates = Arc<Mutex<HashMap<i64, oneshot::Sender<()>>>>;

struct Keeper {
    client: Client,
    gates: Gates,
}

impl Keeper {
    async fn quick(&self, params: Value) -> Result<Value> {
        if params["fail"] == true {
            return Err(Error { data: Some(params), ..Error::invalid_params("failed") });
        }
        Ok(params)
    }
    async fn hold(&self, params: Value) -> Result<Value> {
        let tag = params["tag"].as_i64().unwrap();
        let (tx, rx) = oneshot::channel();
        self.gates.lock().unwrap().insert(tag, tx);
        rx.await.map_err(|_| Error::internal_error())?;
        Ok(params)
    }
    async fn ask(&self, params: Value) -> Result<Value> {
        self.client.send_request::<CustomAsk>(params).await
    }
    async fn note(&self, _: Value) {
        self.client.send_notification::<CustomNotify>(json!({"text": "noted"})).await;
    }
    async fn typed(&self, _: u8) -> Result<()> {
        Ok(())
    }
}

#[tower_lsp::async_trait]
impl LanguageServer for Keeper {
    async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
        match p.initialization_options {
            Some(_) => Err(Error::internal_error()),
            None => Ok(InitializeResult::default()),
        }
    }
    async fn did_change_configuration(&self, _: DidChangeConfigurationParams) {}
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}

struct Life {
    pipe: Pipe,
    gates: Gates,
    client: Option<Client>,
    task: Serving,
}

struct Keep {
    life: Option<Life>,
    n: i64,
    rng: Rng,
    /// Ids and tags of held requests, in the order of arrival.
    held: VecDeque<(Value, i64)>,
    /// Ids of requests whose handlers wait for the client, and of what they have sent.
    asks: VecDeque<(Value, Value)>,
    orphans: VecDeque<Value>,
    rest: Vec<u8>,
}

type Step = std::result::Result<(), String>;

impl Keep {
    fn new(seed: u64) -> Self {
        Keep {
            life: None,
            n: 0,
            rng: Rng::new(seed),
            held: VecDeque::new(),
            asks: VecDeque::new(),
            orphans: VecDeque::new(),
            rest: Vec::new(),
        }
    }

    fn id(&mut self) -> Value {
        self.n += 1;
        match self.n % 3 {
            0 => json!(format!("request {}", self.n)),
            _ => json!(self.n),
        }
    }

    fn raw(&mut self, bytes: &[u8]) -> std::result::Result<Vec<Value>, String> {
        let life = self.life.as_mut().unwrap();
        life.pipe.feed(bytes);
        self.run()
    }

    fn run(&mut self) -> std::result::Result<Vec<Value>, String> {
        let life = self.life.as_mut().unwrap();
        if life.task.settle().is_ready() {
            return Err("serve has returned".into());
        }
        let (msgs, at) = parse_output(&life.pipe.drain())?;
        let _ = at;
        Ok(msgs)
    }

    fn send(&mut self, v: Value) -> std::result::Result<Vec<Value>, String> {
        self.raw(&frame(v.to_string().as_bytes()))
    }

    fn expect(&mut self, v: Value, n: usize) -> Step {
        let text = v.to_string();
        let got = self.send(v)?;
        if got.len() != n {
            return Err(format!("{text} leads to {} messages instead of {n}: {got:?}", got.len()));
        }
        Ok(())
    }

    fn stop(&mut self, how: &str) -> Step {
        if how.ends_with("full") {
            // Handlers that wait, one of them for the client, and more of them that wait for a slot.
            for i in 0..7 {
                let (id, tag) = (self.id(), self.n);
                let m = if i == 2 { "k/ask" } else { "k/hold" };
                self.send(json!({"jsonrpc": "2.0", "method": m, "params": {"tag": tag}, "id": id}))?;
            }
        }
        let mut life = self.life.take().unwrap();
        match how {
            "exit" | "exitfull" => {
                life.pipe.feed(&frame(br#"{"jsonrpc":"2.0","method":"exit"}"#));
                let _ = life.task.settle().is_pending() && {
                    life.pipe.end(false);
                    life.task.settle().is_pending()
                } && return Err("serve does not return after the exit".into());
            }
            "eof" => {
                life.pipe.end(false);
                if life.task.settle().is_pending() {
                    return Err("serve does not return at the end of the input".into());
                }
            }
            _ => {}
        }
        // Either end may go first.
        if self.rng.below(2) == 0 {
            life.client = None;
        }
        drop(life);
        self.held.clear();
        self.asks.clear();
        self.orphans.clear();
        self.rest.clear();
        Ok(())
    }

    fn step(&mut self, ev: &Value) -> Step {
        let k = ev["k"].as_str().unwrap();
        let up = ev["life"] == "up";
        match ev["a"].as_str().unwrap() {
            "open" => {
                let gates = Gates::default();
                let g = gates.clone();
                let (service, socket) = LspService::build(move |client| Keeper { client, gates: g })
                    .custom_method("k/quick", Keeper::quick)
                    .custom_method("k/hold", Keeper::hold)
                    .custom_method("k/ask", Keeper::ask)
                    .custom_method("k/note", Keeper::note)
                    .custom_method("k/typed", Keeper::typed)
                    .finish();
                let client = Some(service.inner().client.clone());
                let pipe = Pipe::new(&mut self.rng);
                let task = Serving::serving(Server::new(Reader(pipe.clone()), Writer(pipe.clone()), socket).serve(service));
                self.life = Some(Life { pipe, gates, client, task });
                let got = self.run()?;
                if !got.is_empty() {
                    return Err(format!("a new server writes {got:?}"));
                }
            }
            "init" => {
                let id = self.id();
                self.expect(json!({"jsonrpc": "2.0", "method": "initialize", "params": {"capabilities": {}}, "id": id}), 1)?;
                self.expect(json!({"jsonrpc": "2.0", "method": "initialized", "params": {}}), 0)?;
            }
            "fail" => {
                let id = self.id();
                self.expect(json!({"jsonrpc": "2.0", "method": "initialize", "params": {"capabilities": {}, "initializationOptions": 1}, "id": id}), 1)?;
            }
            "down" => {
                let id = self.id();
                self.expect(json!({"jsonrpc": "2.0", "method": "shutdown", "id": id}), 1)?;
            }
            end @ ("exit" | "eof" | "drop" | "exitfull" | "dropfull") => self.stop(end)?,
            "req" => {
                let (id, tag) = (self.id(), self.n);
                self.expect(json!({"jsonrpc": "2.0", "method": "k/hold", "params": {"tag": tag}, "id": id}), 0)?;
                self.held.push_back((id, tag));
            }
            "ask" => {
                let (id, tag) = (self.id(), self.n);
                let got = self.send(json!({"jsonrpc": "2.0", "method": "k/ask", "params": {"tag": tag}, "id": id}))?;
                match &got[..] {
                    [m] if m["method"] == "custom/ask" => self.asks.push_back((id, m["id"].clone())),
                    _ => return Err(format!("a handler should ask the client: {got:?}")),
                }
            }
            "finish" => {
                let (_, tag) = self.held.pop_front().unwrap();
                let tx = self.life.as_ref().unwrap().gates.lock().unwrap().remove(&tag);
                let _ = tx.ok_or("the handler does not run")?.send(());
                let got = self.run()?;
                if got.len() != 1 {
                    return Err(format!("one response expected: {got:?}"));
                }
            }
            "reply" => {
                let (_, id) = self.asks.pop_front().unwrap();
                self.expect(
                    match k {
                        "ok" => json!({"jsonrpc": "2.0", "result": {"text": "fine"}, "id": id}),
                        _ => json!({"jsonrpc": "2.0", "error": {"code": 7, "message": "no"}, "id": id}),
                    },
                    1,
                )?;
            }
            "cancelreq" => {
                let (id, tag) = self.held.pop_back().unwrap();
                self.expect(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}), 1)?;
                self.life.as_ref().unwrap().gates.lock().unwrap().remove(&tag);
            }
            "cancelask" => {
                let (id, asked) = self.asks.pop_back().unwrap();
                self.expect(json!({"jsonrpc": "2.0", "method": "$/cancelRequest", "params": {"id": id}}), 1)?;
                self.orphans.push_back(asked);
            }
            "late" => {
                let id = self.orphans.pop_front().unwrap();
                self.expect(json!({"jsonrpc": "2.0", "result": 5, "id": id}), 0)?;
            }
            "begin" => {
                let bytes = frame(json!({"jsonrpc": "2.0", "method": "$/nothing", "params": {"text": "é"}}).to_string().as_bytes());
                let at = 1 + self.rng.below(bytes.len() - 1);
                self.rest = bytes[at..].to_vec();
                self.raw(&bytes[..at])?;
            }
            "complete" => {
                let rest = std::mem::take(&mut self.rest);
                self.raw(&rest)?;
            }
            "dup" => {
                let id = self.held[self.rng.below(self.held.len())].0.clone();
                self.expect(json!({"jsonrpc": "2.0", "method": "k/quick", "params": {}, "id": id}), 1)?;
            }
            "own" => {
                let client = self.life.as_ref().unwrap().client.clone().unwrap();
                let token = ProgressToken::String(format!("p{}", self.n));
                let tell = k == "tell";
                let mut task = Task::new(async move {
                    if tell {
                        client.log_message(MessageType::LOG, "told").await;
                        client.send_notification::<CustomNotify>(json!({"up": up})).await;
                    } else {
                        let p = client.progress(token, "title").with_percentage(1).begin().await;
                        p.report(2).await;
                        p.finish().await;
                    }
                });
                let mut n = 0;
                while task.settle().is_pending() {
                    n += 1;
                    if n > 20 {
                        return Err("messages of the server are not sent".into());
                    }
                    self.run()?;
                }
                drop(task);
                self.run()?;
            }
            "once" => {
                let id = self.id();
                let call = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p, "id": id});
                let note = |m: &str, p: Value| json!({"jsonrpc": "2.0", "method": m, "params": p});
                let framed = |b: &[u8]| frame(b);
                match k {
                    "ok" => self.expect(call("k/quick", json!({"a": "x".repeat(20)})), 1)?,
                    "err" => self.expect(call("k/quick", json!({"fail": true})), 1)?,
                    "note" => self.expect(note("k/note", json!({"a": 1})), up as usize)?,
                    "builtin" => self.expect(call("textDocument/hover", json!({"textDocument": {"uri": "file:///a"}, "position": {"line": 1, "character": 2}})), 1)?,
                    "unknown" => self.expect(call(&format!("nothing/{id}"), json!({"a": 1})), 1)?,
                    "unknown-note" => self.expect(note(&format!("nothing/{id}"), json!({"a": 1})), 0)?,
                    "params" => self.expect(call("k/typed", json!({"a": 1})), 1)?,
                    "params-note" => self.expect(note("workspace/didChangeConfiguration", json!([1])), 0)?,
                    "dollar" => drop(self.send(call(&format!("$/nothing/{id}"), json!({"a": 1})))?),
                    "dollar-note" => self.expect(note(&format!("$/nothing/{id}"), json!({"a": 1})), 0)?,
                    "cancel" => self.expect(note("$/cancelRequest", json!({"id": id})), 0)?,
                    "cancel-params" => self.expect(note("$/cancelRequest", json!({"id": [1]})), 0)?,
                    "stray" => self.expect(json!({"jsonrpc": "2.0", "result": 1, "id": format!("stray{id}")}), 0)?,
                    "stray-null" => self.expect(json!({"jsonrpc": "2.0", "error": {"code": 1, "message": "?"}, "id": null}), 0)?,
                    "init" => self.expect(call("initialize", json!({"capabilities": {}})), 1)?,
                    "json" => drop(self.raw(&framed(b"{\"jsonrpc\":"))?),
                    "utf8" => drop(self.raw(&framed(b"{\"\xff\":1}"))?),
                    "rpc" => drop(self.raw(&framed(b"{\"jsonrpc\":\"1.0\",\"id\":1}"))?),
                    "length" => drop(self.raw(b"Content-Length: x\r\n\r\n")?),
                    "charset" => drop(self.raw(b"Content-Length: 2\r\nContent-Type: a/b; charset=latin1\r\n\r\n{}")?),
                    "junk" => drop(self.raw(b"hello world\r\n\r\n")?),
                    "empty" => drop(self.raw(b"Content-Length: 0\r\n\r\n")?),
                    "ctype" => {
                        let body = note("$/nothing", json!({})).to_string();
                        let head = format!("Content-Type: application/vscode-jsonrpc; charset=utf-8\r\nContent-Length: {}\r\n\r\n", body.len());
                        drop(self.raw(format!("{head}{body}").as_bytes())?)
                    }
                    "long" => self.expect(call("k/quick", json!({"a": "é".repeat(3000)})), 1)?,
                    other => panic!("unknown kind {other}"),
                }
            }
            other => panic!("unknown event {other}"),
        }
        Ok(())
    }

    /// How much is in use, apart from what the driver itself needs.
    fn bytes(&self) -> isize {
        BYTES.with(Cell::get)
    }
}

/// For every state, the edges of a shortest path from `from`, as the last edge of each path.
fn paths(g: &Graph, from: usize) -> Vec<usize> {
    let mut pred = vec![usize::MAX; g.out.len()];
    let mut queue = VecDeque::from([from]);
    while let Some(s) = queue.pop_front() {
        for &e in &g.out[s] {
            let t = g.edges[e].to;
            if t != from && pred[t] == usize::MAX {
                pred[t] = e;
                queue.push_back(t);
            }
        }
    }
    pred
}

fn path(g: &Graph, pred: &[usize], from: usize, to: usize) -> Option<Vec<usize>> {
    let mut res = Vec::new();
    let mut at = to;
    while at != from {
        let e = pred[at];
        if e == usize::MAX {
            return None;
        }
        res.push(e);
        at = g.edges[e].from;
    }
    res.reverse();
    Some(res)
}

/// What one round must leave behind on average for it to count as something left behind.
const LEFT: isize = 4;

fn measure(g: &Graph, preds: &BTreeMap<usize, Vec<usize>>, e: usize, scale: usize, seed: u64, report: &mut Report) -> std::result::Result<(), (String, Value)> {
    let edge = &g.edges[e];
    let Some(way) = path(g, &preds[&0], 0, edge.from) else { return Ok(()) };
    let Some(mut back) = path(g, &preds[&edge.to], edge.to, edge.from) else { return Ok(()) };
    back.insert(0, e);
    let history: Value = way.iter().map(|&e| g.edges[e].ev.clone()).collect();
    let cycle: Value = back.iter().map(|&e| g.edges[e].ev.clone()).collect();
    let mut keep = Keep::new(seed);
    let about = |n: usize| json!({"way": history, "cycle": cycle, "round": n});
    for &e in &way {
        report.steps += 1;
        keep.step(&g.edges[e].ev).map_err(|w| (w, about(0)))?;
    }
    // A cycle that leads through many states is made of others that are looked at as well.
    let scale = match back.iter().any(|&e| g.edges[e].ev["a"] == "open") {
        true => scale / 4, // Every round begins from scratch.
        false => scale,
    };
    let marks = [scale, 4 * scale, 16 * scale];
    let mut seen = [0isize; 3];
    for n in 1..=marks[2] {
        for &e in &back {
            report.steps += 1;
            keep.step(&g.edges[e].ev).map_err(|w| (w, about(n)))?;
        }
        if let Some(i) = marks.iter().position(|&m| m == n) {
            seen[i] = keep.bytes();
            if i > 0 && seen[i] - seen[i - 1] < LEFT * (marks[i] - marks[i - 1]) as isize {
                return Ok(());
            }
        }
    }
    Err((
        format!("memory in use grows with every round: {} bytes after {} rounds, {} after {}, {} after {}",
                seen[0], marks[0], seen[1], marks[1], seen[2], marks[2]),
        about(marks[2]),
    ))
}

pub fn run(input: &str, seed: u64, reps: u64, report: &mut Report) {
    let g = &Graph::load(input);
    let preds: BTreeMap<usize, Vec<usize>> = (0..g.out.len()).map(|s| (s, paths(g, s))).collect();
    let preds = &preds;
    // Tables that are divided into parts by chance grow until every part has been used.
    let cores = std::thread::available_parallelism().map_or(1, |n| n.get());
    let scale = 128.max(4 * (4 * cores).next_power_of_two()) * reps as usize;
    report.edges += g.edges.len() as u64;
    report.states += g.out.len() as u64;
    let threads = 8;
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut report = Report::default();
                    for e in (0..g.edges.len()).filter(|e| e % threads == t) {
                        crate::graph::watch::enter(&g.edges[e].ev);
                        let res = guarded(|| measure(g, preds, e, scale, seed * 100_003 + e as u64, &mut report));
                        crate::graph::watch::leave();
                        report.walks += 1;
                        report.covered += 1;
                        let fail = match res {
                            Ok(Ok(())) => continue,
                            Ok(Err(f)) => f,
                            Err(p) => (format!("panic: {p}"), json!({})),
                        };
                        report.mismatch(&["P24".to_string()], json!({"what": fail.0, "expected": g.edges[e].ev, "history": fail.1}));
                    }
                    report
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
    });
    for p in parts {
        report.merge(p);
    }
    report.passes = reps;
    report.extra.insert("rounds".into(), json!(16 * scale));
}

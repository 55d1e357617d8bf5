//! Replays the transitions of `Generic.tla`: `Server::serve` with a service and a loopback that are
//! not the library's own.

use std::collections::{HashMap, VecDeque};
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::{Loopback, Server};

use crate::exec::{Rng, Serving};
use crate::graph::{Fail, World};
use crate::io::*;

/// Fails like a middleware would, with a cause.
#[derive(Debug, Clone)]
pub struct Boom(Option<Box<Boom>>);

impl fmt::Display for Boom {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("boom")
    }
}

impl std::error::Error for Boom {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.0.as_deref().map(|e| e as _)
    }
}

fn boom() -> Boom {
    Boom(Some(Box::new(Boom(None))))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Yes,
    One,
    No,
    /// Takes one item, and then does not flush.
    NoFlush,
    Err,
}

type Outcome = Result<Option<Response>, Boom>;

struct Inner {
    ready: Mode,
    ready_waker: Option<Waker>,
    /// `poll_ready` has succeeded since the last call.
    permit: bool,
    calls: Vec<Value>,
    /// What each call is going to end with.
    results: HashMap<usize, Outcome>,
    wakers: HashMap<usize, Waker>,
    finished: Vec<usize>,
    sink: Mode,
    sink_waker: Option<Waker>,
    sink_ready: bool,
    unflushed: Vec<Value>,
    delivered: Vec<Value>,
    stream: VecDeque<Request>,
    stream_end: bool,
    stream_over: bool,
    stream_waker: Option<Waker>,
    /// Breaches of somebody's contract.
    wrong: Vec<String>,
}

#[derive(Clone)]
struct Shared(Arc<Mutex<Inner>>);

impl Shared {
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
}

struct Service(Shared);
struct Call(Shared, usize);

impl tower::Service<Request> for Service {
    type Response = Option<Response>;
    type Error = Boom;
    type Future = Call;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Boom>> {
        let mut s = self.0.lock();
        match s.ready {
            Mode::Yes | Mode::One => {
                s.permit = true;
                Poll::Ready(Ok(()))
            }
            Mode::Err => Poll::Ready(Err(boom())),
            _ => {
                s.ready_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }

    fn call(&mut self, req: Request) -> Call {
        let mut s = self.0.lock();
        if !std::mem::take(&mut s.permit) {
            s.wrong.push(format!("{req} passed to a service that is not ready"));
        }
        if s.ready == Mode::One {
            s.ready = Mode::No;
        }
        s.calls.push(serde_json::to_value(&req).unwrap());
        let n = s.calls.len() - 1;
        drop(s);
        Call(self.0.clone(), n)
    }
}

impl Future for Call {
    type Output = Outcome;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Outcome> {
        let mut s = self.0.lock();
        if s.finished.contains(&self.1) {
            s.wrong.push(format!("call {} is polled after it has finished", self.1));
            return Poll::Pending;
        }
        match s.results.remove(&self.1) {
            Some(r) => {
                s.finished.push(self.1);
                Poll::Ready(r)
            }
            None => {
                s.wakers.insert(self.1, cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

struct Loop(Shared);
struct Messages(Shared);
struct Responses(Shared);

impl Loopback for Loop {
    type RequestStream = Messages;
    type ResponseSink = Responses;
    fn split(self) -> (Messages, Responses) {
        (Messages(self.0.clone()), Responses(self.0))
    }
}

impl futures::Stream for Messages {
    type Item = Request;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Request>> {
        let mut s = self.0.lock();
        if s.stream_over {
            s.wrong.push("the stream of messages is polled after its end".into());
            return Poll::Ready(None);
        }
        if let Some(r) = s.stream.pop_front() {
            return Poll::Ready(Some(r));
        }
        if s.stream_end {
            s.stream_over = true;
            return Poll::Ready(None);
        }
        s.stream_waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

impl futures::Sink<Response> for Responses {
    type Error = Boom;

    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Boom>> {
        let mut s = self.0.lock();
        match s.sink {
            Mode::Err => return Poll::Ready(Err(boom())),
            Mode::NoFlush if s.unflushed.is_empty() => {}
            Mode::No | Mode::NoFlush => {
                s.sink_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            _ => {}
        }
        s.sink_ready = true;
        Poll::Ready(Ok(()))
    }

    fn start_send(self: Pin<&mut Self>, res: Response) -> Result<(), Boom> {
        let mut s = self.0.lock();
        if !std::mem::take(&mut s.sink_ready) {
            s.wrong.push("response passed to a sink that is not ready".into());
        }
        s.unflushed.push(serde_json::to_value(&res).unwrap());
        Ok(())
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Boom>> {
        let mut s = self.0.lock();
        match s.sink {
            Mode::Err => Poll::Ready(Err(boom())),
            Mode::No | Mode::NoFlush if !s.unflushed.is_empty() => {
                s.sink_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            _ => {
                let mut all = std::mem::take(&mut s.unflushed);
                s.delivered.append(&mut all);
                Poll::Ready(Ok(()))
            }
        }
    }

    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Boom>> {
        self.poll_flush(cx)
    }
}

pub struct Generic {
    sh: Shared,
    pipe: Pipe,
    task: Option<Serving>,
    /// Tokens of the specification: number of the request sent.
    tokens: HashMap<u64, usize>,
    sent: usize,
    /// In order: what must have arrived by now.
    calls: Vec<Value>,
    delivered: Vec<Value>,
    /// Requests and responses that the server may not have taken in yet.
    waiting_calls: VecDeque<Value>,
    waiting_responses: VecDeque<Value>,
    out_at: usize,
    /// What is due on the output, in any order, except that the messages of the stream are in order.
    stream: VecDeque<Value>,
    /// Error responses written before they had to be.
    early: u64,
    counter: i64,
    seen: Vec<String>,
}

impl Generic {
    fn message(&mut self, rng: &mut Rng) -> Request {
        self.counter += 1;
        let n = self.counter;
        let text = *rng.pick(&["", "é𝄞", "\r\n\r\n", "Content-Length: 5\r\n\r\n"]);
        let method = rng.pick(&["textDocument/hover", "exit", "initialize", "$/cancelRequest", "x/y", "a", "shutdown"]).to_string();
        let b = Request::build(method).params(json!({"n": n, "text": text}));
        match rng.below(4) {
            0 => b.finish(),
            1 => b.id(format!("é{n}")).finish(),
            // Ids are passed on whatever they are.
            2 => b.id(rng.below(3) as i64).finish(),
            _ => b.id(n).finish(),
        }
    }

    fn response(&mut self, rng: &mut Rng) -> Response {
        self.counter += 1;
        let n = self.counter;
        let id = match rng.below(4) {
            0 => Id::Null,
            1 => Id::String(format!("é{n}")),
            _ => Id::Number(n),
        };
        let body = match rng.below(3) {
            0 => Err(Error { code: ErrorCode::from(*rng.pick(&[-32800, -32700, -32601, 0, 7, i64::MAX])), message: format!("é{n}").into(), data: None }),
            1 => Ok(json!([n, "x\r\n\r\n"])),
            _ => Ok(Value::Null),
        };
        Response::from_parts(id, body)
    }

    fn send(&self, v: &Value) {
        self.pipe.feed(&frame(v.to_string().as_bytes()));
    }

    fn settle(&mut self) {
        if let Some(t) = &mut self.task {
            if (!t.polled || t.flag.get()) && t.settle().is_ready() {
                self.task = None;
            }
        }
    }
}

impl World for Generic {
    fn new(rng: &mut Rng) -> Self {
        let sh = Shared(Arc::new(Mutex::new(Inner {
            ready: Mode::Yes,
            ready_waker: None,
            permit: false,
            calls: Vec::new(),
            results: HashMap::new(),
            wakers: HashMap::new(),
            finished: Vec::new(),
            sink: Mode::Yes,
            sink_waker: None,
            sink_ready: false,
            unflushed: Vec::new(),
            delivered: Vec::new(),
            stream: VecDeque::new(),
            stream_end: false,
            stream_over: false,
            stream_waker: None,
            wrong: Vec::new(),
        })));
        let pipe = Pipe::new(rng);
        if rng.below(3) == 0 {
            pipe.lock().max_read = 1 + rng.below(20);
        }
        if rng.below(3) == 0 {
            pipe.set_mode(WriteMode::Trickle);
        }
        let server = Server::new(Reader(pipe.clone()), Writer(pipe.clone()), Loop(sh.clone()));
        let server = match rng.below(2) {
            0 => server,
            _ => server.concurrency_level(4 + rng.below(100)),
        };
        let mut g = Generic {
            task: Some(Serving::serving(server.serve(Service(sh.clone())))),
            sh,
            pipe,
            tokens: HashMap::new(),
            sent: 0,
            calls: Vec::new(),
            delivered: Vec::new(),
            waiting_calls: VecDeque::new(),
            waiting_responses: VecDeque::new(),
            out_at: 0,
            stream: VecDeque::new(),
            early: 0,
            counter: 0,
            seen: Vec::new(),
        };
        g.settle();
        g
    }

    fn describe(&self) -> Value {
        let n = self.seen.len();
        let s = self.sh.lock();
        json!({"written": self.seen[n.saturating_sub(8)..], "service": format!("{:?}", s.ready), "sink": format!("{:?}", s.sink)})
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let a = ev["a"].as_str().unwrap();
        let mut wake = None;
        // Messages that are due on the output after this step, in any order.
        let mut due: Vec<Value> = Vec::new();
        match a {
            "arrive" => match ev["k"].as_str().unwrap() {
                "call" => {
                    let v = serde_json::to_value(self.message(rng)).unwrap();
                    self.send(&v);
                    self.waiting_calls.push_back(v);
                    self.tokens.insert(ev["t"].as_u64().unwrap(), self.sent);
                    self.sent += 1;
                }
                "resp" => {
                    let v = serde_json::to_value(self.response(rng)).unwrap();
                    self.send(&v);
                    self.waiting_responses.push_back(v);
                }
                _ => self.pipe.feed(&frame(rng.pick(&["{", "nonsense", "[1", "\"\\x\""]).as_bytes())),
            },
            "service" => {
                let mut s = self.sh.lock();
                s.ready = match ev["r"].as_str().unwrap() {
                    "yes" => Mode::Yes,
                    "one" => Mode::One,
                    "no" => Mode::No,
                    _ => Mode::Err,
                };
                if s.ready != Mode::No {
                    wake = s.ready_waker.take();
                }
            }
            "sink" => {
                let mut s = self.sh.lock();
                s.sink = match ev["r"].as_str().unwrap() {
                    "yes" => Mode::Yes,
                    "no" => *rng.pick(&[Mode::No, Mode::NoFlush]),
                    _ => Mode::Err,
                };
                if !matches!(s.sink, Mode::No | Mode::NoFlush) {
                    wake = s.sink_waker.take();
                }
            }
            "finish" => {
                let n = self.tokens[&ev["t"].as_u64().unwrap()];
                let outcome = match ev["r"].as_str().unwrap() {
                    "some" => {
                        let r = self.response(rng);
                        due.push(serde_json::to_value(&r).unwrap());
                        Ok(Some(r))
                    }
                    "none" => Ok(None),
                    _ => Err(boom()),
                };
                let mut s = self.sh.lock();
                s.results.insert(n, outcome);
                wake = s.wakers.remove(&n);
            }
            "yield" | "stash" => {
                let m = self.message(rng);
                self.stream.push_back(serde_json::to_value(&m).unwrap());
                let mut s = self.sh.lock();
                s.stream.push_back(m);
                wake = s.stream_waker.take();
            }
            "end" => {
                let mut s = self.sh.lock();
                s.stream_end = true;
                wake = s.stream_waker.take();
            }
            "eof" => self.pipe.end(false),
            other => panic!("unknown step {other}"),
        }
        if let Some(w) = wake {
            w.wake();
        }
        if a == "stash" {
            return Ok(());
        }
        self.settle();

        let mut fails: Vec<String> = Vec::new();
        for _ in ev["calls"].as_array().unwrap() {
            self.calls.push(self.waiting_calls.pop_front().unwrap());
        }
        for _ in 0..ev["dels"].as_u64().unwrap() {
            self.delivered.push(self.waiting_responses.pop_front().unwrap());
        }
        {
            let mut s = self.sh.lock();
            fails.append(&mut s.wrong);
            let cut = |v: &Value| v.to_string().chars().take(160).collect::<String>();
            for (what, got, want, more) in [("request", &s.calls, &self.calls, &self.waiting_calls),
                                            ("response", &s.delivered, &self.delivered, &self.waiting_responses)] {
                // More may have been taken in than must have been.
                let all: Vec<&Value> = want.iter().chain(more.iter()).collect();
                if got.len() < want.len() {
                    fails.push(format!("{what} not passed on: {}", cut(&want[got.len()])));
                } else if let Some(i) = (0..got.len()).find(|i| all.get(*i).copied() != Some(&got[*i])) {
                    fails.push(format!("{what} passed on: {}, expected {:?}", cut(&got[i]), all.get(i).map(|v| cut(v))));
                }
            }
        }
        for _ in 0..ev["bads"].as_u64().unwrap() {
            match self.early {
                0 => due.push(json!("bad")),
                _ => self.early -= 1,
            }
        }
        let out = self.pipe.lock().output[self.out_at..].to_vec();
        match parse_output(&out) {
            Err(e) => fails.push(e),
            Ok((msgs, used)) => {
                self.out_at += used;
                if used != out.len() {
                    fails.push("incomplete message written".into());
                }
                for m in msgs {
                    self.seen.push(m.to_string().chars().take(200).collect());
                    let bad = m["error"]["code"] == -32700 && m.get("id") == Some(&Value::Null);
                    if let Some(i) = due.iter().position(|d| *d == m) {
                        due.remove(i);
                    } else if self.stream.front() == Some(&m) {
                        self.stream.pop_front();
                    } else if let (Some(i), true) = (due.iter().position(|d| d == "bad"), bad) {
                        due.remove(i);
                    } else if bad && ev["waits"].as_u64().unwrap() > self.early {
                        self.early += 1;
                    } else {
                        fails.push(format!("unexpected message written: {m}"));
                    }
                }
            }
        }
        if let Some(m) = self.stream.front().or(due.first()) {
            fails.push(format!("not written: {m}"));
        }
        if self.task.is_none() != (ev["ret"] == true) {
            fails.push(if self.task.is_none() { "serve returned early".into() } else { "serve did not return".into() });
        }
        if fails.is_empty() { Ok(()) } else { Err(fails.into_iter().map(Fail::from).collect()) }
    }
}

//! Replays the transitions of `ClientSide.tla`: calls on `Client`, the stream of outgoing messages
//! and the sink for the client's responses.

use std::collections::{HashMap, HashSet};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::stream::FusedStream;
use futures::{Sink, Stream};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, ExitedError, LspService};

use crate::backend::{init_params, service, Backend, CustomNotify, Out, Shared};
use crate::exec::{now, Flag, Rng, Task};
use crate::graph::{Fail, World};

pub struct Ask;
impl request::Request for Ask {
    type Params = Value;
    type Result = i64;
    const METHOD: &'static str = "custom/askNumber";
}

/// What a call came back with.
#[derive(Debug, Clone, PartialEq)]
pub enum Back {
    Sent,
    Value(Value),
    Error(Error),
    Raw(Id, Result<Value, Error>),
    Other(String),
}

/// Brings a service to the initialized state.
pub fn connected(sh: &Shared) -> (LspService<Backend>, ClientSocket, Client) {
    let (mut service, socket, client) = service(sh);
    sh.release(1, Out::Ok);
    let req = Request::build("initialize").id(1).params(init_params(1)).finish();
    let res = now(service.call(req));
    assert!(matches!(&res, Some(Ok(Some(r))) if r.is_ok()), "initialize: {res:?}");
    (service, socket, client)
}

pub fn raw_call(client: &Client, req: Request) -> impl std::future::Future<Output = Back> + Send + 'static {
    let mut client = client.clone();
    let fut = client.call(req);
    async move {
        match fut.await {
            Ok(Some(r)) => {
                let (id, body) = r.into_parts();
                Back::Raw(id, body)
            }
            Ok(None) => Back::Sent,
            Err(e) => Back::Other(e.to_string()),
        }
    }
}

pub fn typed_call(client: &Client, tag: i64) -> impl std::future::Future<Output = Back> + Send + 'static {
    let client = client.clone();
    async move {
        match client.send_request::<Ask>(json!({"tag": tag})).await {
            Ok(v) => Back::Value(v.into()),
            Err(e) => Back::Error(e),
        }
    }
}

pub fn error_for(tag: i64) -> Error {
    Error { code: ErrorCode::ServerError(tag), message: format!("declined {tag}").into(), data: Some(json!([tag])) }
}

struct Job {
    task: Task<Back>,
    kind: String,
    tag: i64,
    method: &'static str,
    /// What has been sent in reply.
    answer: Option<Result<Value, Error>>,
    done: Option<Back>,
}

enum Ends {
    Gone,
    Whole(Pin<Box<ClientSocket>>),
    Split(Pin<Box<dyn FusedStream<Item = Request> + Send>>, Pin<Box<dyn Sink<Response, Error = ExitedError> + Send>>),
}

pub struct ClientSide {
    shut: bool,
    service: Option<LspService<Backend>>,
    client: Option<Client>,
    ends: Ends,
    reader: Arc<Flag>,
    /// The reader found nothing and waits to be woken.
    parked: bool,
    jobs: HashMap<usize, Job>,
    ids: HashMap<usize, Id>,
    seen: HashSet<Id>,
    ghosts: HashMap<usize, (String, i64)>,
    tag: i64,
}

impl ClientSide {
    fn poll_stream(&mut self) -> Poll<Option<Request>> {
        // Not always the same task has to do the reading.
        self.reader = Arc::default();
        let waker = Waker::from(self.reader.clone());
        let mut cx = Context::from_waker(&waker);
        let r = match &mut self.ends {
            Ends::Whole(s) => s.as_mut().poll_next(&mut cx),
            Ends::Split(s, _) => s.as_mut().poll_next(&mut cx),
            Ends::Gone => unreachable!(),
        };
        self.parked = r.is_pending();
        r
    }

    fn respond(&mut self, r: Response) -> Result<(), String> {
        fn go<S: Sink<Response, Error = ExitedError> + ?Sized>(mut s: Pin<&mut S>, r: Response) -> Result<(), String> {
            let waker = Waker::from(Arc::new(Flag::default()));
            let mut cx = Context::from_waker(&waker);
            match s.as_mut().poll_ready(&mut cx) {
                Poll::Ready(Ok(())) => {}
                other => return Err(format!("the sink for responses is not ready: {other:?}")),
            }
            s.as_mut().start_send(r).map_err(|e| format!("response refused: {e}"))?;
            match s.as_mut().poll_flush(&mut cx) {
                Poll::Ready(Ok(())) => Ok(()),
                other => Err(format!("response not flushed: {other:?}")),
            }
        }
        match &mut self.ends {
            Ends::Whole(s) => go(s.as_mut(), r),
            Ends::Split(_, s) => go(s.as_mut(), r),
            Ends::Gone => unreachable!(),
        }
    }

    /// What each end says about itself: the client handle, the stream and the sink.
    fn probe(&mut self) -> (bool, bool, bool) {
        let waker = Waker::from(Arc::new(Flag::default()));
        let mut cx = Context::from_waker(&waker);
        let refused = match self.client.clone() {
            Some(mut c) => matches!(c.poll_ready(&mut cx), Poll::Ready(Err(_))),
            None => false,
        };
        let (ended, closed) = match &mut self.ends {
            Ends::Whole(s) => (s.is_terminated(), matches!(Sink::poll_ready(s.as_mut(), &mut cx), Poll::Ready(Err(_)))),
            Ends::Split(a, b) => (a.is_terminated(), matches!(b.as_mut().poll_ready(&mut cx), Poll::Ready(Err(_)))),
            Ends::Gone => unreachable!(),
        };
        (refused, ended, closed)
    }

    /// A number that is no request's id yet, not even that of a request still to be read.
    fn unused(&self) -> i64 {
        let numbers = self.seen.iter().filter_map(|id| match id {
            Id::Number(n) => Some(*n),
            _ => None,
        });
        let waiting = self.jobs.keys().filter(|s| !self.ids.contains_key(s)).count() + self.ghosts.len();
        numbers.max().map_or(1, |n| n + 1) + waiting as i64
    }

    fn fresh_id(&mut self, id: &Id) -> Result<(), Fail> {
        match self.seen.insert(id.clone()) {
            true => Ok(()),
            false => Err(Fail::on(&json!(["P10"]), format!("request id {id} is used again"))),
        }
    }

    /// Polls a job unless it has ended; returns whether it has.
    fn poll_job(&mut self, s: usize) -> bool {
        let Some(j) = self.jobs.get_mut(&s) else { return false };
        if j.done.is_none() {
            if let Poll::Ready(b) = j.task.settle() {
                j.done = Some(b);
            }
        }
        j.done.is_some()
    }

    /// Has the client answer the request of task `s`.
    fn answer(&mut self, s: usize, how: &str, rng: &mut Rng, fails: &mut Vec<Fail>) {
        let on = |w: String| Fail::on(&json!(["P09"]), w);
        let j = self.jobs.get_mut(&s).unwrap();
        let answer = match how {
            "ok" => Ok(json!(j.tag * 1000 + rng.below(1000) as i64)),
            "err" => Err(error_for(j.tag)),
            _ => Ok(rng.pick(&[json!("text"), json!(null), json!({"x": 1}), json!([1]), json!(1.5)]).clone()),
        };
        j.answer = Some(answer.clone());
        let Some(id) = self.ids.get(&s).cloned() else { return };
        if let Err(e) = self.respond(Response::from_parts(id, answer)) {
            fails.push(on(e));
        }
        let j = &self.jobs[&s];
        if !j.task.flag.get() {
            fails.push(on("the caller was not woken by the response".into()));
        }
    }

    /// Reads until there is nothing left; the request of `prompt` is answered on the spot.
    fn drain(&mut self, must: &[usize], may: &[usize], prompt: Option<(usize, &str)>, rng: &mut Rng, fails: &mut Vec<Fail>) {
        let on = |x: &str, w: String| Fail::on(&json!([x]), w);
        let mut left: HashSet<usize> = must.iter().copied().collect();
        let mut ghosts: HashSet<usize> = may.iter().copied().collect();
        loop {
            match self.poll_stream() {
                Poll::Ready(None) => {
                    fails.push(on("P12", "the stream of messages has ended".into()));
                    break;
                }
                Poll::Ready(Some(req)) => {
                    let tag = req.params().and_then(|p| p.get("tag").or_else(|| p.get("message"))).cloned().unwrap_or(Value::Null);
                    let find = |kind: &str, t: i64| match kind {
                        "log" => tag == json!(t.to_string()),
                        _ => tag == json!(t),
                    };
                    let hit = left.iter().copied().find(|s| {
                        let j = &self.jobs[s];
                        find(if j.method == "window/logMessage" { "log" } else { "" }, j.tag)
                    });
                    let Some(s) = hit else {
                        let ghost = ghosts.iter().copied().find(|s| {
                            let (m, t) = &self.ghosts[s];
                            find(if m == "window/logMessage" { "log" } else { "" }, *t)
                        });
                        match ghost {
                            Some(s) => {
                                ghosts.remove(&s);
                                if let (Some(id), true) = (req.id().cloned(), self.ghosts[&s].0 != "custom/raw") {
                                    fails.extend(self.fresh_id(&id).err());
                                }
                            }
                            None => fails.push(on("P12", format!("{req} was not sent, or has been read before"))),
                        }
                        continue;
                    };
                    left.remove(&s);
                    let j = &self.jobs[&s];
                    if req.method() != j.method {
                        fails.push(on("P12", format!("{req} should have method {}", j.method)));
                    }
                    match (j.kind.as_str(), req.id().cloned()) {
                        ("note", None) => {}
                        ("note", Some(_)) => fails.push(on("P12", format!("notification {req} has an id"))),
                        (_, None) => fails.push(on("P12", format!("request {req} has no id"))),
                        (kind, Some(id)) => {
                            if kind == "raw" && self.ids.get(&s) != Some(&id) {
                                fails.push(on("P12", format!("{req} was sent with id {:?}", self.ids.get(&s))));
                            } else if kind != "raw" {
                                fails.extend(self.fresh_id(&id).err());
                            }
                            self.ids.insert(s, id);
                        }
                    }
                    match prompt {
                        Some((p, how)) if p == s => self.answer(s, how, rng, fails),
                        _ => {}
                    }
                }
                Poll::Pending => {
                    // Out of messages: let the senders that have been woken go on.
                    let woken: Vec<usize> = self.jobs.iter().filter(|(_, j)| j.done.is_none() && j.task.flag.get()).map(|(s, _)| *s).collect();
                    for s in &woken {
                        self.poll_job(*s);
                    }
                    if woken.is_empty() && !self.reader.get() {
                        break;
                    }
                }
            }
        }
        for s in left {
            fails.push(Fail::on(&json!(["P11", "P12"]), format!("the message of task {s} never arrives")));
        }
        for s in must {
            let note = self.jobs[s].kind == "note";
            match (&self.jobs[s].done, note) {
                (Some(Back::Sent), true) => {
                    self.jobs.remove(s);
                }
                (None, false) => {}
                // Compared when it is polled the next time.
                (Some(_), false) if prompt.map_or(false, |(p, _)| p == *s) => {}
                (b, _) => {
                    fails.push(on(if note { "P12" } else { "P09" }, format!("task {s}: after its message has been read: {b:?}")));
                    if note {
                        self.jobs.remove(s);
                    }
                }
            }
        }
        self.ghosts.clear();
    }
}

fn list(v: &Value) -> Vec<usize> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect()
}

impl World for ClientSide {
    fn new(rng: &mut Rng) -> Self {
        let sh = Shared::default();
        let (mut service, socket, client) = connected(&sh);
        let shut = rng.below(4) == 0;
        if shut {
            sh.lock().shutdown_tag = 2;
            sh.release(2, Out::Ok);
            let res = now(service.call(Request::build("shutdown").id(2).finish()));
            assert!(matches!(&res, Some(Ok(Some(r))) if r.is_ok()), "shutdown: {res:?}");
        }
        let ends = if rng.below(2) == 0 {
            Ends::Whole(Box::pin(socket))
        } else {
            let (a, b) = socket.split();
            Ends::Split(Box::pin(a), Box::pin(b))
        };
        ClientSide {
            shut,
            service: Some(service),
            client: Some(client),
            ends,
            reader: Arc::default(),
            parked: false,
            jobs: HashMap::new(),
            ids: HashMap::new(),
            seen: HashSet::new(),
            ghosts: HashMap::new(),
            tag: 0,
        }
    }

    fn describe(&self) -> Value {
        json!({"split": matches!(self.ends, Ends::Split(..)), "shut": self.shut})
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let s = ev["s"].as_u64().unwrap() as usize;
        let k = ev["k"].as_str().unwrap();
        let r = ev["r"].as_str().unwrap();
        let mut fails: Vec<Fail> = Vec::new();
        let bystanders: Vec<usize> = self.jobs.keys().copied().filter(|x| *x != s).collect();
        match ev["a"].as_str().unwrap() {
            "create" => {
                self.tag += 1;
                let tag = self.tag;
                self.ids.remove(&s);
                let c = self.client.clone().unwrap();
                let (task, method) = match k {
                    "req" => (Task::new(typed_call(&c, tag)), "custom/askNumber"),
                    "raw" => {
                        let id = self.client.as_ref().unwrap().next_request_id();
                        fails.extend(self.fresh_id(&id).err());
                        self.ids.insert(s, id.clone());
                        let req = Request::build("custom/raw").id(id).params(json!({"tag": tag})).finish();
                        (Task::new(raw_call(&c, req)), "custom/raw")
                    }
                    _ => match rng.below(3) {
                        0 => (Task::new(async move { c.send_notification::<CustomNotify>(json!({"tag": tag})).await; Back::Sent }), "custom/notify"),
                        1 => (Task::new(async move { c.log_message(MessageType::LOG, tag).await; Back::Sent }), "window/logMessage"),
                        _ => (Task::new(raw_call(&c, Request::build("custom/rawNote").params(json!({"tag": tag})).finish())), "custom/rawNote"),
                    },
                };
                self.jobs.insert(s, Job { task, kind: k.into(), tag, method, answer: None, done: None });
            }
            "go" => {
                let parked = self.parked;
                let done = self.poll_job(s);
                if parked && !self.reader.get() {
                    fails.push(Fail::on(&json!(["P12"]), "the reader was not woken by a new message".into()));
                }
                let b = &self.jobs[&s].done;
                match (r, done) {
                    ("pending", false) | ("any", false) => {}
                    ("any", true) if *b == Some(Back::Sent) => {}
                    _ => fails.push(format!("call ended early: {b:?}").into()),
                }
            }
            "drain" => {
                let prompt = if s == 0 { None } else { Some((s, r)) };
                self.drain(&list(&ev["must"]), &list(&ev["may"]), prompt, rng, &mut fails);
            }
            "reply" => self.answer(s, r, rng, &mut fails),
            "dup" => {
                if let Some(id) = self.ids.get(&s).cloned() {
                    let body = if r == "ok" { Ok(json!(-1)) } else { Err(error_for(-1)) };
                    if let Err(e) = self.respond(Response::from_parts(id, body)) {
                        fails.push(e.into());
                    }
                }
            }
            "stray" => {
                let id = match r {
                    "null" => Id::Null,
                    // Sometimes an id that a later request is likely to get.
                    "unknown" if rng.below(2) == 0 => Id::Number(self.unused() + rng.below(3) as i64),
                    "unknown" => Id::Number(*rng.pick(&[1 << 20, -1, i64::MAX])),
                    _ => Id::String(rng.below(3).to_string()),
                };
                if let Err(e) = self.respond(Response::from_parts(id, Ok(json!(-2)))) {
                    fails.push(e.into());
                }
            }
            "pollover" if r == "any" => {
                // Nothing is claimed about the outcome of a call that the exit has overtaken.
                let done = self.poll_job(s);
                let j = self.jobs.remove(&s).unwrap();
                if done && matches!(j.done, Some(Back::Value(_) | Back::Sent) | Some(Back::Raw(_, Ok(_)))) {
                    fails.push(format!("a call that was never answered came back with {:?}", j.done).into());
                }
            }
            "poll" | "pollover" => {
                let done = self.poll_job(s);
                let j = &self.jobs[&s];
                let want = match (r, k) {
                    ("pending", _) => None,
                    ("bad", _) => Some(Back::Other("any error".into())),
                    (_, "raw") => Some(Back::Raw(self.ids.get(&s).cloned().unwrap_or_default(), j.answer.clone().unwrap())),
                    _ => Some(match j.answer.clone().unwrap() { Ok(v) => Back::Value(v), Err(e) => Back::Error(e) }),
                };
                let fine = match (&want, &j.done, r) {
                    (_, Some(Back::Error(_)), "bad") => true,
                    (w, b, _) => w == b,
                };
                if !fine {
                    fails.push(format!("expected {want:?}, observed {:?}", j.done).into());
                }
                if done || want.is_some() {
                    self.jobs.remove(&s);
                }
            }
            "abandon" => {
                let j = self.jobs.remove(&s).unwrap();
                self.ghosts.insert(s, (j.method.to_string(), j.tag));
                drop(j);
            }
            "nextid" => {
                // Sometimes more of them than a narrow counter could tell apart
                let n = if rng.below(1000) == 0 { 70_000 } else { 1 };
                let client = self.client.clone().unwrap();
                for _ in 0..n {
                    let id = client.next_request_id();
                    if let Err(f) = self.fresh_id(&id) {
                        fails.push(f);
                        break;
                    }
                }
            }
            "exit" => {
                let parked = self.parked;
                now(self.service.as_mut().unwrap().call(Request::build("exit").finish()));
                if parked && !self.reader.get() {
                    fails.push(Fail::on(&json!(["P04"]), "the reader was not woken when the server exited".into()));
                }
                if !matches!(self.poll_stream(), Poll::Ready(None)) {
                    fails.push(Fail::on(&json!(["P04"]), "the stream of messages goes on after the server has exited".into()));
                }
                for s in list(&ev["must"]) {
                    let j = self.jobs.get_mut(&s).unwrap();
                    if j.done.is_none() && !j.task.flag.get() {
                        fails.push(format!("task {s} stays blocked when the server exits").into());
                    } else if !self.poll_job(s) {
                        fails.push(format!("task {s} does not end when the server exits").into());
                    }
                }
                let kept = list(&ev["may"]);
                self.jobs.retain(|s, _| kept.contains(s));
            }
            "probe" => {
                let (refused, ended, closed) = self.probe();
                match r {
                    "no" if refused => fails.push("the client refuses calls".to_string().into()),
                    "no" if ended => fails.push("the stream of messages says that it has ended".to_string().into()),
                    "no" if closed => fails.push("the sink refuses responses".to_string().into()),
                    "exit" if !closed => fails.push("the sink still takes responses".to_string().into()),
                    _ => {}
                }
            }
            "lost" => {
                match (std::mem::replace(&mut self.ends, Ends::Gone), rng.below(2)) {
                    (Ends::Split(a, b), 0) => {
                        drop(b);
                        drop(a);
                    }
                    (ends, _) => drop(ends),
                }
                for s in list(&ev["must"]) {
                    let j = self.jobs.get_mut(&s).unwrap();
                    if j.done.is_none() && !j.task.flag.get() {
                        fails.push(format!("task {s} stays blocked when the connection is dropped").into());
                    } else if !self.poll_job(s) {
                        fails.push(format!("task {s} does not end when the connection is dropped").into());
                    }
                }
                let kept = list(&ev["may"]);
                self.jobs.retain(|s, _| kept.contains(s));
                if r == "gone" {
                    self.client = None;
                    self.service = None;
                }
            }
            "late" => {
                let c = self.client.clone().unwrap();
                let mut task = match k {
                    "req" => Task::new(typed_call(&c, 1)),
                    "raw" => Task::new(raw_call(&c, Request::build("custom/raw").id(c.next_request_id()).finish())),
                    _ if rng.below(2) == 0 => Task::new(async move { c.log_message(MessageType::LOG, 1).await; Back::Sent }),
                    _ => Task::new(async move { c.send_notification::<CustomNotify>(json!({"tag": 1})).await; Back::Sent }),
                };
                match (task.settle(), r) {
                    (Poll::Ready(Back::Sent), "sent") | (Poll::Ready(Back::Error(_) | Back::Other(_)), "err") => {}
                    (other, _) => fails.push(format!("after the end of the connection, a call gives {other:?}").into()),
                }
            }
            other => panic!("unknown step {other}"),
        }
        // A response concerns one call only.
        if matches!(ev["a"].as_str().unwrap(), "reply" | "dup" | "stray") {
            for b in bystanders {
                let j = &self.jobs[&b];
                if j.answer.is_none() && j.done.is_none() && j.kind != "note" && j.task.polled {
                    let before = j.task.flag.get();
                    if before && self.poll_job(b) {
                        fails.push(format!("task {b} ended on a response to another call: {:?}", self.jobs[&b].done).into());
                    }
                }
            }
        }
        if fails.is_empty() { Ok(()) } else { Err(fails) }
    }
}

//! Replays the transitions of `Asks.tla` on the real `Client` and `ClientSocket`, a group being many calls.

use std::collections::HashSet;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::{Sink, Stream};
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Id, Request, Response};
use tower_lsp::lsp_types::MessageType;
use tower_lsp::{Client, ClientSocket, LspService};

use crate::backend::*;
use crate::clientside::{connected, error_for, raw_call, typed_call, Back};
use crate::exec::{now, Flag, Rng, Task};
use crate::graph::{Fail, World};

struct Call {
    task: Task<Back>,
    tag: i64,
    raw: bool,
    id: Option<Id>,
    read: bool,
}

pub struct Asks {
    service: LspService<Backend>,
    client: Client,
    socket: Option<Pin<Box<ClientSocket>>>,
    groups: [Vec<Call>; 2],
    sizes: [usize; 2],
    /// Ids of calls that have been answered or abandoned.
    past: Vec<Id>,
    seen: HashSet<String>,
    /// Tags of calls abandoned before they were read.
    maybe: HashSet<i64>,
    teller: Option<(Option<Task<()>>, i64, usize)>,
    heard: Vec<Value>,
    tag: i64,
}

const SIZES: [usize; 13] = [1, 2, 3, 9, 33, 64, 65, 100, 128, 129, 256, 257, 600];

fn on(p: &[&str], what: String) -> Vec<Fail> {
    vec![Fail::on(&json!(p), what)]
}

impl Asks {
    fn respond(&mut self, r: Response) -> Result<(), Vec<Fail>> {
        let waker = Waker::from(Arc::new(Flag::default()));
        let mut cx = Context::from_waker(&waker);
        let mut s = self.socket.as_mut().unwrap().as_mut();
        match Sink::poll_ready(s.as_mut(), &mut cx) {
            Poll::Ready(Ok(())) => {}
            other => return Err(on(&["P09"], format!("the sink for responses is not ready: {other:?}"))),
        }
        s.as_mut().start_send(r).map_err(|e| on(&["P09"], format!("response refused: {e}")))?;
        match s.as_mut().poll_flush(&mut cx) {
            Poll::Ready(Ok(())) => Ok(()),
            other => Err(on(&["P09"], format!("response not flushed: {other:?}"))),
        }
    }

    /// Polls everybody who has been woken; returns whether there was anyone.
    fn resume(&mut self) -> Result<bool, Vec<Fail>> {
        let mut any = false;
        for c in self.groups.iter_mut().flatten() {
            if c.task.flag.get() {
                any = true;
                if let Poll::Ready(b) = c.task.settle() {
                    return Err(on(&["P09", "P12"], format!("call {} has ended with {b:?}", c.tag)));
                }
            }
        }
        if let Some((task @ Some(_), _, _)) = &mut self.teller {
            let t = task.as_mut().unwrap();
            if t.flag.get() {
                any = true;
                if t.settle().is_ready() {
                    *task = None;
                }
            }
        }
        Ok(any)
    }

    fn read(&mut self) -> Result<(), Vec<Fail>> {
        let mut due: HashSet<i64> = self.groups.iter().flatten().filter(|c| !c.read).map(|c| c.tag).collect();
        loop {
            let waker = Waker::from(Arc::new(Flag::default()));
            match self.socket.as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&waker)) {
                Poll::Ready(None) => return Err(on(&["P12"], "the stream of messages has ended".into())),
                Poll::Pending => {
                    if !self.resume()? {
                        break;
                    }
                }
                Poll::Ready(Some(req)) if req.method() == "window/logMessage" => {
                    self.heard.push(req.params().map_or(Value::Null, |p| p["message"].clone()));
                }
                Poll::Ready(Some(req)) => {
                    let tag = req.params().and_then(|p| p["tag"].as_i64()).unwrap_or(-1);
                    let Some(id) = req.id().cloned() else { return Err(on(&["P12"], format!("{req} has no id"))) };
                    if req.method() != "custom/raw" && !self.seen.insert(id.to_string()) {
                        return Err(on(&["P10"], format!("id {id} is used again after {} others", self.seen.len())));
                    }
                    if due.remove(&tag) {
                        let c = self.groups.iter_mut().flatten().find(|c| c.tag == tag).unwrap();
                        if c.raw && c.id.as_ref().is_some_and(|want| *want != id) {
                            return Err(on(&["P12"], format!("{req} was sent with id {:?}", c.id)));
                        }
                        c.id = Some(id);
                        c.read = true;
                    } else if !self.maybe.remove(&tag) {
                        return Err(on(&["P12"], format!("{req} was not sent, or has been read before")));
                    }
                }
            }
        }
        if !due.is_empty() {
            return Err(on(&["P12"], format!("{} messages never arrive", due.len())));
        }
        self.maybe.clear();
        Ok(())
    }
}

impl World for Asks {
    fn new(rng: &mut Rng) -> Self {
        let sh = Shared::default();
        let (service, socket, client) = connected(&sh);
        let mut sizes = [*rng.pick(&SIZES), *rng.pick(&SIZES)];
        if rng.below(60) == 0 {
            sizes[0] = *rng.pick(&[1025, 2049, 5000]);
        }
        Asks {
            service,
            client,
            socket: Some(Box::pin(socket)),
            groups: [Vec::new(), Vec::new()],
            sizes,
            past: Vec::new(),
            seen: HashSet::new(),
            maybe: HashSet::new(),
            teller: None,
            heard: Vec::new(),
            tag: 0,
        }
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let g = if ev["g"] == "b" { 1 } else { 0 };
        let open = ev["phase"] == "open";
        match ev["a"].as_str().unwrap() {
            "send" => {
                for _ in 0..self.sizes[g] {
                    self.tag += 1;
                    let tag = self.tag;
                    let raw = rng.below(4) == 0;
                    let (task, id) = if raw {
                        let id = self.client.next_request_id();
                        if !self.seen.insert(id.to_string()) {
                            return Err(on(&["P10"], format!("id {id} is used again after {} others", self.seen.len())));
                        }
                        let req = Request::build("custom/raw").params(json!({"tag": tag})).id(id.clone()).finish();
                        (Task::new(raw_call(&self.client, req)), Some(id))
                    } else {
                        (Task::new(typed_call(&self.client, tag)), None)
                    };
                    let mut call = Call { task, tag, raw, id, read: false };
                    match call.task.settle() {
                        Poll::Pending if open => self.groups[g].push(call),
                        Poll::Ready(Back::Error(_) | Back::Other(_)) if !open => {}
                        Poll::Pending => return Err(on(&["P11", "P12"], format!("call {tag} does not end though the server is gone"))),
                        Poll::Ready(b) => return Err(on(&["P09", "P12"], format!("call {tag} has ended with {b:?}"))),
                    }
                }
            }
            "read" => {
                self.read()?;
                if let Some((t, tag, n)) = self.teller.take() {
                    let want: Vec<Value> = (0..n).map(|i| json!(told(tag, i as u32, 3))).collect();
                    if self.heard != want {
                        let at = (0..n).find(|i| self.heard.get(*i) != Some(&want[*i]));
                        return Err(on(&["P12"], format!("{} of {n} notifications have been read, first difference: {at:?}", self.heard.len())));
                    }
                    drop(t);
                } else if !self.heard.is_empty() {
                    return Err(on(&["P12"], "notifications are read again".into()));
                }
                self.heard.clear();
            }
            "answer" => {
                let calls = std::mem::take(&mut self.groups[g]);
                let mut order: Vec<usize> = (0..calls.len()).collect();
                match rng.below(3) {
                    0 => rng.shuffle(&mut order),
                    1 => order.reverse(),
                    _ => {}
                }
                let at_once = rng.below(2) == 0;
                let mut calls: Vec<Option<Call>> = calls.into_iter().map(Some).collect();
                let total = calls.len();
                let mut todo = Vec::new();
                for i in order {
                    let tag = calls[i].as_ref().unwrap().tag;
                    let id = calls[i].as_ref().unwrap().id.clone().unwrap();
                    let body: Result<Value, Error> = if tag % 5 == 0 { Err(error_for(tag)) } else { Ok(json!(tag * 10)) };
                    self.respond(Response::from_parts(id.clone(), body.clone()))?;
                    self.past.push(id.clone());
                    let call = calls[i].take().unwrap();
                    if !call.task.flag.get() {
                        return Err(on(&["P09"], format!("call {tag} of {total} was not woken by its response")));
                    }
                    todo.push((call, id, body));
                    if !at_once || calls.iter().all(Option::is_none) {
                        for (mut call, id, body) in todo.drain(..) {
                            let want = match (call.raw, body) {
                                (true, b) => Back::Raw(id, b),
                                (false, Ok(v)) => Back::Value(v),
                                (false, Err(e)) => Back::Error(e),
                            };
                            match call.task.settle() {
                                Poll::Ready(b) if b == want => {}
                                other => return Err(on(&["P09"], format!("call {} of {total}: {other:?}, expected {want:?}", call.tag))),
                            }
                        }
                    }
                }
            }
            "again" => {
                let mut ids = self.past.clone();
                rng.shuffle(&mut ids);
                ids.truncate(700);
                for id in ids {
                    self.respond(Response::from_ok(id, json!(rng.below(100))))?;
                }
            }
            "abandon" => {
                let mut calls = std::mem::take(&mut self.groups[g]);
                if rng.below(2) == 0 {
                    rng.shuffle(&mut calls);
                }
                for c in calls {
                    match c.id {
                        Some(id) if c.read => self.past.push(id),
                        _ => drop(self.maybe.insert(c.tag)),
                    }
                }
            }
            "tell" => {
                self.tag += 1;
                let (tag, n) = (self.tag, *rng.pick(&[1usize, 2, 10, 70, 300]));
                let client = self.client.clone();
                let mut t = Task::new(async move {
                    for i in 0..n {
                        client.log_message(MessageType::LOG, told(tag, i as u32, 3)).await;
                    }
                });
                let res = t.settle();
                if open {
                    self.teller = Some((res.is_pending().then_some(t), tag, n));
                } else if res.is_pending() {
                    return Err(on(&["P11", "P12"], "a notification does not end though the server is gone".into()));
                }
            }
            end @ ("exit" | "close") => {
                if end == "exit" {
                    match now(self.service.call(Request::build("exit").finish())) {
                        Some(Ok(None)) => {}
                        other => return Err(on(&["P04"], format!("exit answered with {other:?}"))),
                    }
                    // Senders must not depend on anybody looking at the stream, but they may.
                    let waker = Waker::from(Arc::new(Flag::default()));
                    match self.socket.as_mut().unwrap().as_mut().poll_next(&mut Context::from_waker(&waker)) {
                        Poll::Ready(None) => {}
                        other => return Err(on(&["P04", "P12"], format!("after the exit, the stream yields {other:?}"))),
                    }
                } else {
                    self.socket = None;
                }
                if let Some((Some(mut t), _, _)) = self.teller.take() {
                    if t.settle().is_pending() {
                        return Err(on(&["P12"], "a task that sends notifications waits for ever".into()));
                    }
                }
                // The calls wait for ever, or fail.
                for c in self.groups.iter_mut().flatten() {
                    if let Poll::Ready(b @ (Back::Value(_) | Back::Raw(..) | Back::Sent)) = c.task.settle() {
                        return Err(on(&["P09"], format!("call {} has ended with {b:?}", c.tag)));
                    }
                }
            }
            other => panic!("unknown event {other}"),
        }
        Ok(())
    }

    fn describe(&self) -> Value {
        json!({"sizes": self.sizes})
    }
}

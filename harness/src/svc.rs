//! Replays the transitions of `LspService.tla` on the real `LspService`.

use std::collections::HashSet;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, Id, Request, Response};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ExitedError, LspService};

use crate::backend::*;
use crate::exec::{Flag, Rng, Task};
use crate::graph::{Fail, World};

type Answer = Result<Option<Response>, ExitedError>;

struct Flight {
    task: Task<Answer>,
    id: Option<Id>,
    tag: i64,
    ok: Option<Value>,
}

/// A message that has been refused, whose answer has not been asked for yet.
struct Parked {
    task: Task<Answer>,
    id: Option<Id>,
    tag: i64,
    ok: Option<Value>,
    expect: String,
    sc: Vec<String>,
}

pub struct Svc {
    parked: Vec<Parked>,
    pub sh: Shared,
    service: LspService<Backend>,
    stream: tower_lsp_stream::Stream_,
    sink: tower_lsp_stream::Sink_,
    client: Client,
    slots: Vec<Option<Flight>>,
    ids: Vec<Id>,
    next_tag: i64,
    client_ids: HashSet<String>,
}

/// The two halves of the client socket, whose types are not exported by name at the crate root.
mod tower_lsp_stream {
    use tower_lsp::jsonrpc::{Request, Response};
    use tower_lsp::ExitedError;
    pub type Stream_ = std::pin::Pin<Box<dyn futures::Stream<Item = Request> + Send>>;
    pub type Sink_ = std::pin::Pin<Box<dyn futures::Sink<Response, Error = ExitedError> + Send>>;
}

impl Svc {
    fn id(&self, name: &str) -> Option<Id> {
        match name {
            "-" => None,
            "A" => Some(self.ids[0].clone()),
            "B" => Some(self.ids[1].clone()),
            "C" => Some(self.ids[2].clone()),
            "D" => Some(self.ids[3].clone()),
            "E" => Some(self.ids[4].clone()),
            other => panic!("unknown abstract id {other}"),
        }
    }

    fn tag(&mut self) -> i64 {
        self.next_tag += 1;
        self.next_tag
    }

    /// Builds a message of the given kind: request, tag, expected result.
    fn message(&mut self, kind: &str, id: Option<&Id>, rng: &mut Rng) -> (Request, i64, Option<Value>) {
        let tag = self.tag();
        let forms = request_forms(tag);
        match kind {
            "init" | "initnote" => (request("initialize", id, Some(init_params(tag))), tag, Some(init_result(tag))),
            "initbad" => {
                let bad = [json!({"capabilities": 5}), json!([1]), json!("x"), json!({})];
                let p = rng.below(bad.len() + 1);
                (request("initialize", id, bad.get(p).cloned()), tag, None)
            }
            "shut" => {
                (request("shutdown", id, None), tag, Some(Value::Null))
            }
            "req" | "reqnote" => {
                let (m, p, ok) = rng.pick(&forms).clone();
                (request(m, id, Some(p)), tag, Some(ok))
            }
            "reqbad" => {
                let (m, _, _) = rng.pick(&forms).clone();
                let bad = [json!({}), json!({"x": tag}), json!("x"), json!(null), json!(5)];
                let p = rng.below(bad.len() + 1);
                (request(m, id, bad.get(p).cloned()), tag, None)
            }
            "note" | "notereq" => {
                let (m, p) = rng.pick(&note_forms(tag)).clone();
                (request(m, id, Some(p)), tag, None)
            }
            "notebad" => {
                let (m, _) = rng.pick(&note_forms(tag)).clone();
                let bad = [json!({}), json!(null), json!([])];
                let p = rng.below(bad.len() + 1);
                (request(m, id, bad.get(p).cloned()), tag, None)
            }
            "unk" | "unknote" => {
                let m = *rng.pick(&["no/such", "custom/Request", "textDocument/Hover", "", "initialise"]);
                let p = [None, Some(json!({"tag": tag})), Some(json!([]))];
                (request(m, id, rng.pick(&p).clone()), tag, None)
            }
            "cancel" => (request("$/cancelRequest", None, Some(json!({"id": id.unwrap()}))), tag, None),
            "cancelbad" => {
                let bad = [json!({}), json!({"id": null}), json!([]), json!({"ID": 1})];
                let p = rng.below(bad.len() + 1);
                (request("$/cancelRequest", None, bad.get(p).cloned()), tag, None)
            }
            "exit" => {
                let p = [None, Some(json!(null))];
                (request("exit", None, rng.pick(&p).clone()), tag, None)
            }
            other => panic!("unknown kind {other}"),
        }
    }

    fn poll_stream(&mut self) -> Poll<Option<Request>> {
        let waker = Waker::from(Arc::new(Flag::default()));
        self.stream.as_mut().poll_next(&mut Context::from_waker(&waker))
    }

    fn drain_stream(&mut self) -> Vec<Request> {
        let mut v = Vec::new();
        while let Poll::Ready(Some(r)) = self.poll_stream() {
            v.push(r);
        }
        v
    }

    /// Runs one client operation to completion, answering the request it may send.
    fn client_op(&mut self, task: &mut Task<Result<(), Error>>, method: &str, is_request: bool, reply: Value) -> String {
        let early = task.settle();
        let sent = self.drain_stream();
        match sent.len() {
            0 => match early {
                Poll::Pending => "hangs without sending anything".into(),
                Poll::Ready(Ok(())) if !is_request => "dropped".into(),
                Poll::Ready(Ok(())) => "succeeded without sending anything".into(),
                Poll::Ready(Err(e)) => format!("e{}", e.code.code()),
            },
            1 => {
                let req = &sent[0];
                if req.method() != method {
                    return format!("sent {req}, expected method {method}");
                }
                if is_request {
                    let Some(id) = req.id().cloned() else { return format!("request without id: {req}") };
                    if !self.client_ids.insert(id.to_string()) {
                        return format!("request id reused: {req}");
                    }
                    if early.is_ready() {
                        return "request completed before it was answered".into();
                    }
                    if let Err(e) = self.respond(Response::from_ok(id, reply)) {
                        return e;
                    }
                    if !task.flag.get() {
                        return "caller not woken by the client's response".into();
                    }
                } else if req.id().is_some() {
                    return format!("notification with an id: {req}");
                }
                match if early.is_ready() { early } else { task.settle() } {
                    Poll::Ready(Ok(())) => "sent".into(),
                    Poll::Ready(Err(e)) => format!("sent but failed: {e}"),
                    Poll::Pending => "sent but never completes".into(),
                }
            }
            _ => format!("sent {} messages", sent.len()),
        }
    }

    fn respond(&mut self, res: Response) -> Result<(), String> {
        let waker = Waker::from(Arc::new(Flag::default()));
        let mut cx = Context::from_waker(&waker);
        match self.sink.as_mut().poll_ready(&mut cx) {
            Poll::Ready(Ok(())) => {}
            other => return Err(format!("sink not ready: {other:?}")),
        }
        self.sink.as_mut().start_send(res).map_err(|e| e.to_string())?;
        match self.sink.as_mut().poll_flush(&mut cx) {
            Poll::Ready(Ok(())) => Ok(()),
            other => Err(format!("sink not flushed: {other:?}")),
        }
    }

    /// Asks for the answers of some of the messages that were refused earlier.
    fn unpark(&mut self, odds: usize, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let mut i = 0;
        while i < self.parked.len() {
            if rng.below(odds) > 0 {
                i += 1;
                continue;
            }
            let mut p = self.parked.swap_remove(i);
            self.sh.take_log();
            let observed = match p.task.settle() {
                Poll::Pending => "pending".into(),
                Poll::Ready(Err(_)) => "exited".into(),
                Poll::Ready(Ok(res)) => classify(&res, p.id.as_ref(), p.tag, p.ok.as_ref()),
            };
            let log = self.sh.take_log();
            if !same(&p.expect, &observed) || !log.is_empty() {
                let what = format!("refused when it came, expected {}, but when polled later: {observed}, handler activity {log:?}", p.expect);
                return Err(vec![Fail { sc: Some(p.sc), what, fatal: true }]);
            }
        }
        Ok(())
    }

    fn probe(&mut self, kind: &str, rng: &mut Rng) -> String {
        let c = self.client.clone();
        let tag = self.tag();
        match kind {
            "ready" => {
                let waker = Waker::from(Arc::new(Flag::default()));
                match self.service.poll_ready(&mut Context::from_waker(&waker)) {
                    Poll::Ready(Ok(())) => "ok".into(),
                    Poll::Ready(Err(_)) => "exited".into(),
                    Poll::Pending => "not ready".into(),
                }
            }
            "stream" => match self.poll_stream() {
                Poll::Pending => "pending".into(),
                Poll::Ready(None) => "end".into(),
                Poll::Ready(Some(r)) => format!("unexpected message {r}"),
            },
            "sink" => {
                let waker = Waker::from(Arc::new(Flag::default()));
                match self.sink.as_mut().poll_ready(&mut Context::from_waker(&waker)) {
                    Poll::Ready(Ok(())) => "ok".into(),
                    Poll::Ready(Err(_)) => "exited".into(),
                    Poll::Pending => "not ready".into(),
                }
            }
            "cnote" => {
                let (mut t, m) = match rng.below(4) {
                    0 => (Task::new(async move { c.send_notification::<CustomNotify>(json!({"n": tag})).await; Ok(()) }), "custom/notify"),
                    1 => (Task::new(async move { c.publish_diagnostics("file:///x".parse().unwrap(), vec![], None).await; Ok(()) }), "textDocument/publishDiagnostics"),
                    2 => (Task::new(async move { let _p = c.progress(NumberOrString::Number(1), "t").begin().await; Ok(()) }), "$/progress"),
                    _ => (Task::new(async move { c.send_notification::<notification::LogTrace>(LogTraceParams { message: "m".into(), verbose: None }).await; Ok(()) }), "$/logTrace"),
                };
                self.client_op(&mut t, m, false, Value::Null)
            }
            "cmsg" => {
                let (mut t, m) = match rng.below(3) {
                    0 => (Task::new(async move { c.show_message(MessageType::INFO, "x").await; Ok(()) }), "window/showMessage"),
                    1 => (Task::new(async move { c.log_message(MessageType::LOG, "x").await; Ok(()) }), "window/logMessage"),
                    _ => (Task::new(async move { c.telemetry_event(json!({"a": 1})).await; Ok(()) }), "telemetry/event"),
                };
                self.client_op(&mut t, m, false, Value::Null)
            }
            "creq" => {
                let ws = WorkspaceEdit::default();
                let mut reply = Value::Null;
                let (mut t, m): (Task<Result<(), Error>>, _) = match rng.below(12) {
                    0 => (Task::new(async move { c.register_capability(vec![]).await }), "client/registerCapability"),
                    1 => (Task::new(async move { c.unregister_capability(vec![]).await }), "client/unregisterCapability"),
                    2 => { reply = json!({"success": true}); (Task::new(async move { c.show_document(ShowDocumentParams { uri: "file:///x".parse().unwrap(), external: None, take_focus: None, selection: None }).await.map(drop) }), "window/showDocument") }
                    3 => (Task::new(async move { c.code_lens_refresh().await }), "workspace/codeLens/refresh"),
                    4 => (Task::new(async move { c.semantic_tokens_refresh().await }), "workspace/semanticTokens/refresh"),
                    5 => (Task::new(async move { c.inline_value_refresh().await }), "workspace/inlineValue/refresh"),
                    6 => (Task::new(async move { c.inlay_hint_refresh().await }), "workspace/inlayHint/refresh"),
                    7 => (Task::new(async move { c.workspace_diagnostic_refresh().await }), "workspace/diagnostic/refresh"),
                    8 => { reply = json!([]); (Task::new(async move { c.configuration(vec![]).await.map(drop) }), "workspace/configuration") }
                    9 => (Task::new(async move { c.workspace_folders().await.map(drop) }), "workspace/workspaceFolders"),
                    10 => { reply = json!({"applied": true}); (Task::new(async move { c.apply_edit(ws).await.map(drop) }), "workspace/applyEdit") }
                    _ => { reply = json!(7); (Task::new(async move { c.send_request::<CustomAsk>(json!([tag])).await.map(drop) }), "custom/ask") }
                };
                self.client_op(&mut t, m, true, reply)
            }
            "cmsgreq" => {
                let mut t = Task::new(async move { c.show_message_request(MessageType::INFO, "x", None).await.map(drop) });
                self.client_op(&mut t, "window/showMessageRequest", true, Value::Null)
            }
            other => panic!("unknown probe {other}"),
        }
    }
}

/// Whether the message is turned away without ever counting as one in flight.
fn refused(ev: &Value) -> bool {
    let kind = ev["k"].as_str().unwrap();
    match ev["r"].as_str().unwrap() {
        "e-32002" => true,
        "e-32600" => kind != "notereq",
        "none" => matches!(kind, "note" | "notebad" | "reqnote" | "unknote") && ev["log"].as_array().unwrap().is_empty(),
        _ => false,
    }
}

fn same(expected: &str, observed: &str) -> bool {
    match expected {
        "e" => observed.starts_with("e-") ,
        _ => expected == observed,
    }
}

impl World for Svc {
    fn new(rng: &mut Rng) -> Self {
        let sh = Shared::default();
        let (service, socket, client) = service(&sh);
        let (stream, sink) = socket.split();
        Svc {
            parked: Vec::new(),
            sh,
            service,
            stream: Box::pin(stream),
            sink: Box::pin(sink),
            client,
            slots: (0..16).map(|_| None).collect(),
            ids: concrete_ids(rng),
            next_tag: 0,
            client_ids: HashSet::new(),
        }
    }

    fn describe(&self) -> Value {
        json!({"ids": self.ids})
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let (a, k) = (ev["a"].as_str().unwrap(), ev["k"].as_str().unwrap());
        let s = ev["s"].as_u64().unwrap() as usize;
        let expect = ev["r"].as_str().unwrap();
        let mut problems: Vec<String> = Vec::new();
        self.unpark(if k == "exit" { 1 } else { 4 }, rng)?;

        // Only wake-ups caused by this very step count.
        for f in self.slots.iter().flatten() {
            f.task.flag.take();
        }
        self.sh.take_log();

        let mut subject = 0; // tag whose handler may act in this step
        let observed: String = match a {
            "call" => {
                let id = self.id(ev["id"].as_str().unwrap());
                let (req, tag, ok) = self.message(k, id.as_ref(), rng);
                let rid = req.id().cloned();
                let waker = Waker::from(Arc::new(Flag::default()));
                let ready = self.service.poll_ready(&mut Context::from_waker(&waker));
                if expect != "exited" && !matches!(ready, Poll::Ready(Ok(()))) {
                    problems.push(format!("service not ready: {ready:?}"));
                }
                let mut task = Task::new(self.service.call(req));
                if expect == "accepted" {
                    if k == "shut" {
                        self.sh.lock().shutdown_tag = tag;
                    }
                    self.slots[s] = Some(Flight { task, id: rid, tag, ok });
                    "accepted".into()
                } else if refused(ev) && rng.below(4) == 0 {
                    let sc = serde_json::from_value(ev["sc"].clone()).unwrap();
                    self.parked.push(Parked { task, id: rid, tag, ok, expect: expect.into(), sc });
                    expect.into()
                } else {
                    match task.settle() {
                        Poll::Pending => "no immediate answer".into(),
                        Poll::Ready(Err(ExitedError { .. })) => "exited".into(),
                        Poll::Ready(Ok(res)) => {
                            let mut r = classify(&res, rid.as_ref(), tag, ok.as_ref());
                            if k == "unk" && r == "e-32601" {
                                // The error names the unknown method.
                                if !matches!(res.as_ref().and_then(|r| r.error()).and_then(|e| e.data.as_ref()), Some(Value::String(_))) {
                                    r = format!("method-not-found error does not name the method: {res:?}");
                                }
                            }
                            r
                        }
                    }
                }
            }
            "poll" => match &mut self.slots[s] {
                None => "already answered".into(),
                Some(f) => {
                    subject = f.tag;
                    match f.task.settle() {
                        Poll::Pending => "pending".into(),
                        Poll::Ready(res) => {
                            let f = self.slots[s].take().unwrap();
                            match res {
                                Ok(res) => classify(&res, f.id.as_ref(), f.tag, f.ok.as_ref()),
                                Err(_) => "exited".into(),
                            }
                        }
                    }
                }
            },
            "rel" => {
                if let Some(f) = &self.slots[s] {
                    self.sh.release(f.tag, if expect == "ok" { Out::Ok } else { Out::Err });
                }
                expect.into()
            }
            "drop" => {
                self.slots[s] = None;
                "-".into()
            }
            "probe" => self.probe(k, rng),
            other => panic!("unknown step {other}"),
        };

        if !same(expect, &observed) {
            problems.push(format!("expected {expect}, observed {observed}"));
        }

        let want: Vec<&str> = ev["log"].as_array().unwrap().iter().map(|x| x.as_str().unwrap()).collect();
        let log = self.sh.take_log();
        let got: Vec<&str> = log.iter().map(|(_, w)| w.as_str()).collect();
        if log.iter().any(|(t, _)| *t != subject) || want != got {
            problems.push(format!("expected handler activity {want:?}, observed {log:?} (own tag {subject})"));
        }

        for w in ev["wake"].as_array().unwrap() {
            let w = w.as_u64().unwrap() as usize;
            if let Some(f) = &self.slots[w] {
                if !f.task.flag.get() {
                    problems.push(format!("the future in slot {w} was not woken"));
                }
            }
        }

        // Nothing may reach the client on its own account.
        if a != "probe" {
            let stray = self.drain_stream();
            if !stray.is_empty() {
                problems.push(format!("unexpected message to the client: {}", stray[0]));
            }
        }
        if problems.is_empty() { Ok(()) } else { Err(vec![problems.join("; ").into()]) }
    }

    fn finish(&mut self) -> Result<(), (Vec<String>, String)> {
        self.unpark(1, &mut Rng::new(0)).map_err(|mut f| {
            let f = f.remove(0);
            (f.sc.unwrap(), f.what)
        })
    }
}

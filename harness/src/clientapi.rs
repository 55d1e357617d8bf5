//! Replays the transitions of `ClientApi.tla` and `Progress.tla`: every method of the client
//! handle in every state of the server's life, and every sequence of progress calls.

use std::collections::HashMap;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

use futures::future::{BoxFuture, FutureExt};
use futures::{Sink, Stream};
use serde::Serialize;
use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response};
use tower_lsp::lsp_types::*;
use tower_lsp::{Bounded, Cancellable, Client, ClientSocket, LspService, NotCancellable, OngoingProgress, Progress as Builder, Unbounded};

use crate::backend::{init_params, service, Backend, CustomNotify, Out, Shared};
use crate::clientside::Ask;
use crate::exec::{now, Flag, Rng, Task};
use crate::graph::{Fail, World};
use crate::jsonrpc::{any_code, any_string, any_value};

/// What a call returns, as JSON.
type Got = Result<Value, Error>;

struct Call {
    task: BoxFuture<'static, Got>,
    params: Value,
    /// Replies and what the method returns for them.
    ok: (Value, Value),
    alt: (Value, Value),
    bad: Vec<Value>,
}

fn out<T: Serialize>(r: Result<T, Error>) -> Got {
    r.map(|v| serde_json::to_value(v).unwrap())
}

fn typ(rng: &mut Rng) -> (MessageType, i32) {
    *rng.pick(&[(MessageType::ERROR, 1), (MessageType::WARNING, 2), (MessageType::INFO, 3), (MessageType::LOG, 4)])
}

fn uri(rng: &mut Rng) -> (Url, Value) {
    let text = *rng.pick(&["file:///a/b.rs", "untitled:Untitled-1", "file:///c%C3%A4.txt", "http://localhost/x?y=z#w"]);
    (text.parse().unwrap(), json!(text))
}

fn diagnostics(rng: &mut Rng) -> Value {
    let n = rng.below(3);
    (0..n)
        .map(|i| {
            json!({"range": {"start": {"line": i, "character": 0}, "end": {"line": i + 1, "character": rng.below(90)}},
                   "message": any_string(rng), "severity": 1 + rng.below(4)})
        })
        .collect()
}

fn call(f: &str, client: &Client, rng: &mut Rng) -> Call {
    let c = client.clone();
    let note = |task: BoxFuture<'static, Got>, params: Value| Call { task, params, ok: (Value::Null, Value::Null), alt: (Value::Null, Value::Null), bad: vec![] };
    let unit = |task: BoxFuture<'static, Got>, params: Value| Call {
        task,
        params,
        ok: (Value::Null, Value::Null),
        alt: (Value::Null, Value::Null),
        bad: vec![json!(7), json!("x"), json!({"a": 1}), json!([1])],
    };
    match f {
        "register_capability" => {
            let n = rng.below(3);
            let v: Value = (0..n).map(|i| json!({"id": format!("{i}{}", any_string(rng)), "method": "textDocument/willSave", "registerOptions": any_value(rng, 2)})).collect();
            let rs: Vec<Registration> = serde_json::from_value(v.clone()).unwrap();
            unit(async move { out(c.register_capability(rs).await) }.boxed(), json!({"registrations": v}))
        }
        "unregister_capability" => {
            let n = rng.below(3);
            let v: Value = (0..n).map(|i| json!({"id": format!("{i}{}", any_string(rng)), "method": "textDocument/willSave"})).collect();
            let rs: Vec<Unregistration> = serde_json::from_value(v.clone()).unwrap();
            // the misspelling is the protocol's
            unit(async move { out(c.unregister_capability(rs).await) }.boxed(), json!({"unregisterations": v}))
        }
        "show_message_request" => {
            let (t, n) = typ(rng);
            let text = any_string(rng);
            let actions = match rng.below(3) {
                0 => Value::Null,
                1 => json!([]),
                _ => json!([{"title": any_string(rng)}, {"title": "b", "extra": 3}]),
            };
            let a: Option<Vec<MessageActionItem>> = serde_json::from_value(actions.clone()).unwrap();
            let item = json!({"title": any_string(rng)});
            let params = json!({"type": n, "message": text, "actions": actions});
            Call {
                task: async move { out(c.show_message_request(t, text, a).await) }.boxed(),
                params,
                ok: (item.clone(), item),
                alt: (Value::Null, Value::Null),
                bad: vec![json!(1), json!("x"), json!({}), json!({"title": 1})],
            }
        }
        "show_document" => {
            let (u, uj) = uri(rng);
            let flags: Vec<Option<bool>> = (0..2).map(|_| *rng.pick(&[None, Some(true), Some(false)])).collect();
            let (external, take_focus) = (flags[0], flags[1]);
            let p = ShowDocumentParams { uri: u, external, take_focus, selection: None };
            Call {
                task: async move { out(c.show_document(p).await) }.boxed(),
                params: json!({"uri": uj, "external": external, "takeFocus": take_focus}),
                ok: (json!({"success": true}), json!(true)),
                alt: (json!({"success": false}), json!(false)),
                bad: vec![json!(true), json!(null), json!({}), json!({"success": 1})],
            }
        }
        "code_lens_refresh" => unit(async move { out(c.code_lens_refresh().await) }.boxed(), Value::Null),
        "semantic_tokens_refresh" => unit(async move { out(c.semantic_tokens_refresh().await) }.boxed(), Value::Null),
        "inline_value_refresh" => unit(async move { out(c.inline_value_refresh().await) }.boxed(), Value::Null),
        "inlay_hint_refresh" => unit(async move { out(c.inlay_hint_refresh().await) }.boxed(), Value::Null),
        "workspace_diagnostic_refresh" => unit(async move { out(c.workspace_diagnostic_refresh().await) }.boxed(), Value::Null),
        "configuration" => {
            let n = rng.below(4);
            let items: Value = (0..n)
                .map(|_| match rng.below(3) {
                    0 => json!({"section": any_string(rng)}),
                    1 => json!({"scopeUri": uri(rng).1}),
                    _ => json!({"scopeUri": uri(rng).1, "section": any_string(rng)}),
                })
                .collect();
            let p: Vec<ConfigurationItem> = serde_json::from_value(items.clone()).unwrap();
            // Clients do not always send exactly what they have been asked for.
            let m = if rng.below(3) == 0 { rng.below(5) } else { n };
            let vals: Value = (0..m).map(|_| if rng.below(3) == 0 { Value::Null } else { any_value(rng, 3) }).collect();
            Call {
                task: async move { out(c.configuration(p).await) }.boxed(),
                params: json!({"items": items}),
                ok: (vals.clone(), vals),
                alt: (json!([]), json!([])),
                bad: vec![json!(1), json!("x"), json!({}), json!(null)],
            }
        }
        "workspace_folders" => {
            let v = json!([{"uri": uri(rng).1, "name": any_string(rng)}]);
            Call {
                task: async move { out(c.workspace_folders().await) }.boxed(),
                params: Value::Null,
                ok: (v.clone(), v),
                alt: (Value::Null, Value::Null),
                bad: vec![json!(1), json!({}), json!([1]), json!([{"name": "n"}])],
            }
        }
        "apply_edit" => {
            let edit = match rng.below(3) {
                0 => json!({}),
                1 => json!({"changes": {}}),
                _ => json!({"changes": {uri(rng).1.as_str().unwrap(): [{"range": {"start": {"line": 1, "character": 2}, "end": {"line": 1, "character": 3}}, "newText": any_string(rng)}]}}),
            };
            let p: WorkspaceEdit = serde_json::from_value(edit.clone()).unwrap();
            let no = json!({"applied": false, "failureReason": any_string(rng), "failedChange": 3});
            Call {
                task: async move { out(c.apply_edit(p).await) }.boxed(),
                params: json!({"edit": edit}),
                ok: (json!({"applied": true}), json!({"applied": true})),
                alt: (no.clone(), no),
                bad: vec![json!(true), json!(null), json!({}), json!({"applied": "yes"})],
            }
        }
        "send_request" => {
            let p = any_value(rng, 3);
            let (a, b) = (json!(rng.next() as i64), json!(-1));
            let sent = p.clone();
            Call {
                task: async move { out(c.send_request::<Ask>(sent).await) }.boxed(),
                params: p,
                ok: (a.clone(), a),
                alt: (b.clone(), b),
                bad: vec![json!("1"), json!(null), json!([1]), json!(1.5)],
            }
        }
        "show_message" => {
            let (t, n) = typ(rng);
            let text = any_string(rng);
            let params = json!({"type": n, "message": text});
            note(async move { out(Ok(c.show_message(t, text).await)) }.boxed(), params)
        }
        "log_message" => {
            let (t, n) = typ(rng);
            let x = rng.below(1000);
            note(async move { out(Ok(c.log_message(t, x).await)) }.boxed(), json!({"type": n, "message": x.to_string()}))
        }
        "telemetry_event" => {
            let v = match rng.below(4) {
                0 => json!([any_value(rng, 2)]),
                1 => json!({"k": any_value(rng, 2)}),
                _ => any_value(rng, 3),
            };
            let params = if v.is_array() || v.is_object() { v.clone() } else { json!([v]) };
            note(async move { out(Ok(c.telemetry_event(v).await)) }.boxed(), params)
        }
        "publish_diagnostics" => {
            let (u, uj) = uri(rng);
            let d = diagnostics(rng);
            let ds: Vec<Diagnostic> = serde_json::from_value(d.clone()).unwrap();
            let version = *rng.pick(&[None, Some(0), Some(-1), Some(i32::MAX)]);
            note(
                async move { out(Ok(c.publish_diagnostics(u, ds, version).await)) }.boxed(),
                json!({"uri": uj, "diagnostics": d, "version": version}),
            )
        }
        "send_notification" => {
            let p = any_value(rng, 3);
            let sent = p.clone();
            note(async move { out(Ok(c.send_notification::<CustomNotify>(sent).await)) }.boxed(), p)
        }
        other => panic!("unknown function {other}"),
    }
}

/// Optional members may be absent or null.
fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => o.iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k.clone(), v.clone())).collect::<serde_json::Map<_, _>>().into(),
        v => v.clone(),
    }
}

/// A service with its client, and the far end of the connection.
struct Line {
    sh: Shared,
    service: LspService<Backend>,
    client: Client,
    socket: Pin<Box<ClientSocket>>,
    init: Option<Task<Option<Response>>>,
    tag: i64,
}

impl Line {
    fn new() -> Line {
        let sh = Shared::default();
        let (service, socket, client) = service(&sh);
        Line { sh, service, client, socket: Box::pin(socket), init: None, tag: 0 }
    }

    fn poll(&mut self) -> Poll<Option<Request>> {
        let waker = Waker::from(Arc::new(Flag::default()));
        self.socket.as_mut().poll_next(&mut Context::from_waker(&waker))
    }

    fn respond(&mut self, r: Response) -> Result<(), String> {
        let waker = Waker::from(Arc::new(Flag::default()));
        let mut cx = Context::from_waker(&waker);
        match self.socket.as_mut().poll_ready(&mut cx) {
            Poll::Ready(Ok(())) => self.socket.as_mut().start_send(r).map_err(|e| e.to_string()),
            other => Err(format!("the sink for responses is not ready: {other:?}")),
        }
    }

    fn start(&mut self, req: Request) -> Task<Option<Response>> {
        let f = self.service.call(req);
        let mut t = Task::new(async move { f.await.ok().flatten() });
        let _ = t.settle();
        t
    }

    fn live(&mut self, a: &str) -> Result<(), String> {
        match a {
            "initialize" => {
                self.tag += 1;
                let req = Request::build("initialize").id(self.tag).params(init_params(self.tag)).finish();
                self.init = Some(self.start(req));
            }
            "initialized" | "failed" => {
                self.sh.release(self.tag, if a == "failed" { Out::Err } else { Out::Ok });
                let mut t = self.init.take().unwrap();
                match t.settle() {
                    Poll::Ready(Some(r)) if r.is_ok() == (a == "initialized") => {}
                    other => return Err(format!("initialize came to {other:?}")),
                }
            }
            "shutdown" => {
                let req = Request::build("shutdown").id(1000).finish();
                let f = self.service.call(req);
                self.sh.release(0, Out::Ok);
                match now(f) {
                    Some(Ok(Some(r))) if r.is_ok() => {}
                    other => return Err(format!("shutdown came to {other:?}")),
                }
            }
            "exit" => {
                let f = self.service.call(Request::build("exit").finish());
                match now(f) {
                    Some(Ok(None)) => {}
                    other => return Err(format!("exit came to {other:?}")),
                }
                self.init = None;
            }
            other => panic!("unknown event {other}"),
        }
        Ok(())
    }
}

struct Waiting {
    task: Task<Got>,
    id: Id,
    ok: (Value, Value),
    alt: (Value, Value),
    bad: Vec<Value>,
}

pub struct ClientApi {
    line: Line,
    open: Option<Waiting>,
    last: String,
}

impl ClientApi {
    fn event(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), String> {
        match ev["a"].as_str().unwrap() {
            "call" => {
                let c = call(ev["f"].as_str().unwrap(), &self.line.client, rng);
                self.last = c.params.to_string().chars().take(200).collect();
                let want = c.params;
                let mut task = Task::new(c.task);
                let done = task.settle();
                let fate = ev["fate"].as_str().unwrap();
                let item = self.line.poll();
                if fate != "sent" {
                    match (item, ev["fate"] == "e") {
                        (Poll::Ready(Some(m)), _) => return Err(format!("sent: {m}")),
                        (Poll::Ready(None), _) | (Poll::Pending, _) => {}
                    }
                    return match (fate, done) {
                        (_, Poll::Pending) => Err("the call does not return".into()),
                        ("dropped", Poll::Ready(Ok(_))) => Ok(()),
                        ("e-32002", Poll::Ready(Err(e))) if e.code.code() == -32002 => Ok(()),
                        ("e", Poll::Ready(Err(_))) => Ok(()),
                        (_, Poll::Ready(r)) => Err(format!("returned {r:?}")),
                    };
                }
                let Poll::Ready(Some(m)) = item else { return Err(format!("nothing sent: {item:?}")) };
                if m.method() != ev["m"].as_str().unwrap() {
                    return Err(format!("sent {} instead", m.method()));
                }
                let (got, want) = (m.params().cloned().unwrap_or(Value::Null), want);
                let raw = matches!(ev["f"].as_str(), Some("send_request" | "send_notification" | "telemetry_event"));
                if if raw { got != want } else { strip(&got) != strip(&want) } {
                    return Err(format!("params {got} instead of {want}"));
                }
                if !matches!(self.line.poll(), Poll::Pending) {
                    return Err("more than one message sent".into());
                }
                if ev["kind"] == "note" {
                    if let Some(id) = m.id() {
                        return Err(format!("a notification with id {id}"));
                    }
                    return match done.is_ready() || task.settle().is_ready() {
                        true => Ok(()),
                        false => Err("the call does not return".into()),
                    };
                }
                if done.is_ready() {
                    return Err(format!("returned without a reply: {done:?}"));
                }
                match m.id() {
                    Some(Id::Null) | None => return Err(format!("a request without an id: {m}")),
                    Some(id) => self.open = Some(Waiting { task, id: id.clone(), ok: c.ok, alt: c.alt, bad: c.bad }),
                }
                Ok(())
            }
            "reply" => {
                let Some(mut w) = self.open.take() else { return Err("nothing was sent".into()) };
                let error = Error {
                    code: ErrorCode::from(any_code(rng)),
                    message: any_string(rng).into(),
                    data: (rng.below(2) == 0).then(|| any_value(rng, 2)),
                };
                let body = match ev["r"].as_str().unwrap() {
                    "ok" => Ok(w.ok.0.clone()),
                    "alt" => Ok(w.alt.0.clone()),
                    "err" => Err(error.clone()),
                    _ => Ok(rng.pick(&w.bad).clone()),
                };
                let shown = format!("{body:?}");
                self.line.respond(Response::from_parts(w.id.clone(), body))?;
                let Poll::Ready(got) = w.task.settle() else { return Err("the call does not return".into()) };
                let fits = match ev["r"].as_str().unwrap() {
                    "ok" => got == Ok(w.ok.1),
                    "alt" => got == Ok(w.alt.1),
                    "err" => got == Err(error),
                    _ => got.is_err(),
                };
                if fits { Ok(()) } else { Err(format!("returned {got:?} for {shown}")) }
            }
            "abandon" => {
                let Some(w) = self.open.take() else { return Err("nothing was sent".into()) };
                drop(w.task);
                self.line.respond(Response::from_ok(w.id, w.ok.0))
            }
            a => {
                self.line.live(a)?;
                if a == "exit" {
                    self.open = None;
                }
                Ok(())
            }
        }
    }
}

impl World for ClientApi {
    fn new(_: &mut Rng) -> Self {
        ClientApi { line: Line::new(), open: None, last: String::new() }
    }
    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        self.event(ev, rng).map_err(|e| vec![Fail::on(&ev["sc"], format!("{} {}: {e}", ev["a"], ev["f"]))])
    }
    fn describe(&self) -> Value {
        json!({"params": self.last})
    }
}

// Progress

type Plain = Builder<Unbounded, NotCancellable>;

/// A builder of any of the four types.
enum Build {
    UN(Plain),
    UC(Builder<Unbounded, Cancellable>),
    BN(Builder<Bounded, NotCancellable>),
    BC(Builder<Bounded, Cancellable>),
}

/// An ongoing stream of any of the four types.
enum On {
    UN(OngoingProgress<Unbounded, NotCancellable>),
    UC(OngoingProgress<Unbounded, Cancellable>),
    BN(OngoingProgress<Bounded, NotCancellable>),
    BC(OngoingProgress<Bounded, Cancellable>),
}

macro_rules! any {
    ($e:ident, $x:expr, $p:ident => $body:expr) => {
        match $x {
            $e::UN($p) => $body,
            $e::UC($p) => $body,
            $e::BN($p) => $body,
            $e::BC($p) => $body,
        }
    };
}

impl Build {
    fn pct(self, n: u32) -> Build {
        match self {
            Build::UN(p) => Build::BN(p.with_percentage(n)),
            Build::UC(p) => Build::BC(p.with_percentage(n)),
            _ => panic!("not allowed by the types"),
        }
    }
    fn can(self) -> Build {
        match self {
            Build::UN(p) => Build::UC(p.with_cancel_button()),
            Build::BN(p) => Build::BC(p.with_cancel_button()),
            _ => panic!("not allowed by the types"),
        }
    }
    fn msg(self, m: String) -> Build {
        match self {
            Build::UN(p) => Build::UN(p.with_message(m)),
            Build::UC(p) => Build::UC(p.with_message(m)),
            Build::BN(p) => Build::BN(p.with_message(m)),
            Build::BC(p) => Build::BC(p.with_message(m)),
        }
    }
    fn begin(self) -> BoxFuture<'static, On> {
        match self {
            Build::UN(p) => async move { On::UN(p.begin().await) }.boxed(),
            Build::UC(p) => async move { On::UC(p.begin().await) }.boxed(),
            Build::BN(p) => async move { On::BN(p.begin().await) }.boxed(),
            Build::BC(p) => async move { On::BC(p.begin().await) }.boxed(),
        }
    }
}

impl On {
    fn unbound(self) -> On {
        match self {
            On::BN(p) => On::UN(p.into_unbounded()),
            On::BC(p) => On::UC(p.into_unbounded()),
            _ => panic!("not allowed by the types"),
        }
    }
    fn finish(self, m: Option<String>) -> BoxFuture<'static, ()> {
        any!(On, self, p => async move {
            match m {
                Some(m) => p.finish_with_message(m).await,
                None => p.finish().await,
            }
        }.boxed())
    }
    fn token(&self) -> Value {
        any!(On, self, p => serde_json::to_value(p.token()).unwrap())
    }
    async fn report(&self, m: Option<String>, n: u32, c: Option<bool>) {
        match (self, m) {
            (On::UN(p), Some(m)) => p.report(m).await,
            (On::UN(_), None) => panic!("not allowed by the types"),
            (On::UC(p), Some(m)) => p.report_with_message(m, c).await,
            (On::UC(p), None) => p.report(c.expect("not allowed by the types")).await,
            (On::BN(p), Some(m)) => p.report_with_message(m, n).await,
            (On::BN(p), None) => p.report(n).await,
            (On::BC(p), Some(m)) => p.report_with_message(m, n, c).await,
            (On::BC(p), None) => p.report(n, c).await,
        }
    }
}

enum Phase {
    Build(Build),
    On(On),
}

struct Stream1 {
    phase: Option<Phase>,
    token: Value,
    title: String,
    msg: Option<String>,
    pct: Option<u32>,
}

pub struct Progress {
    line: Line,
    streams: HashMap<i64, Stream1>,
    made: i64,
    last: String,
}

fn any_pct(rng: &mut Rng) -> u32 {
    *rng.pick(&[0, 1, 50, 99, 100, 101, u32::MAX])
}

/// Runs a call that sends at most one message, and returns that message.
fn run<T: Send + 'static>(line: &mut Line, fut: BoxFuture<'static, T>) -> Result<(T, Vec<Request>), String> {
    let mut t = Task::new(fut);
    let mut done = t.settle();
    let mut sent = Vec::new();
    while let Poll::Ready(Some(m)) = line.poll() {
        sent.push(m);
        if done.is_pending() {
            done = t.settle();
        }
    }
    match done {
        Poll::Ready(v) => Ok((v, sent)),
        Poll::Pending => Err("the call does not return".into()),
    }
}

impl Progress {
    fn event(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), String> {
        let a = ev["a"].as_str().unwrap();
        match a {
            "init" => {
                self.line.live("initialize")?;
                return self.line.live("initialized");
            }
            "exit" => return self.line.live("exit"),
            _ => {}
        }
        let h = ev["h"].as_i64().unwrap();
        if a == "new" {
            self.made += 1;
            let (token, t) = match rng.below(2) {
                0 => (json!(self.made), ProgressToken::Number(self.made as i32)),
                _ => (json!(self.made.to_string()), ProgressToken::String(self.made.to_string())),
            };
            let title = any_string(rng);
            let b = self.line.client.progress(t, title.clone());
            self.streams.insert(h, Stream1 { phase: Some(Phase::Build(Build::UN(b))), token, title, msg: None, pct: None });
            return self.check(ev, h, vec![], None, None);
        }
        let Some(s) = self.streams.get_mut(&h) else { panic!("no such stream") };
        let phase = s.phase.take().unwrap();
        let text = any_string(rng);
        let n = any_pct(rng);
        match (a, phase) {
            ("pct", Phase::Build(b)) => {
                s.pct = Some(n);
                s.phase = Some(Phase::Build(b.pct(n)));
                self.check(ev, h, vec![], None, None)
            }
            ("can", Phase::Build(b)) => {
                s.phase = Some(Phase::Build(b.can()));
                self.check(ev, h, vec![], None, None)
            }
            ("msg", Phase::Build(b)) => {
                s.msg = Some(text.clone());
                s.phase = Some(Phase::Build(b.msg(text)));
                self.check(ev, h, vec![], None, None)
            }
            ("begin", Phase::Build(b)) => {
                let (on, sent) = run(&mut self.line, b.begin())?;
                if on.token() != s.token {
                    return Err(format!("token() is {}", on.token()));
                }
                s.phase = Some(Phase::On(on));
                let (m, p) = (s.msg.clone(), s.pct);
                self.check(ev, h, sent, m, p)
            }
            ("report", Phase::On(on)) => {
                let m = (ev["m"] == true).then_some(text);
                let c = match ev["c"].as_str().unwrap() {
                    "no" => None,
                    x => Some(x == "true"),
                };
                let m2 = m.clone();
                let (on, sent) = run(&mut self.line, async move {
                    on.report(m2, n, c).await;
                    on
                }.boxed())?;
                s.phase = Some(Phase::On(on));
                self.check(ev, h, sent, m, Some(n))
            }
            ("unbound", Phase::On(on)) => {
                let on = on.unbound();
                if on.token() != s.token {
                    return Err(format!("token() is {}", on.token()));
                }
                s.phase = Some(Phase::On(on));
                self.check(ev, h, vec![], None, None)
            }
            ("finish", Phase::On(on)) => {
                let m = (ev["m"] == true).then_some(text);
                let ((), sent) = run(&mut self.line, on.finish(m.clone()))?;
                self.check(ev, h, sent, m, None)
            }
            ("drop", phase) => {
                drop(phase);
                self.check(ev, h, vec![], None, None)
            }
            _ => panic!("event in the wrong phase"),
        }
    }

    fn check(&mut self, ev: &Value, h: i64, mut sent: Vec<Request>, m: Option<String>, p: Option<u32>) -> Result<(), String> {
        while let Poll::Ready(Some(m)) = self.line.poll() {
            sent.push(m);
        }
        let s = &self.streams[&h];
        let want = ev["out"].as_array().unwrap();
        if sent.len() != want.len() {
            let shown: Vec<String> = sent.iter().map(ToString::to_string).collect();
            return Err(format!("{} messages sent instead of {}: {shown:?}", sent.len(), want.len()));
        }
        for (got, w) in sent.iter().zip(want) {
            self.last = got.to_string();
            if got.method() != "$/progress" || got.id().is_some() {
                return Err(format!("sent {got}"));
            }
            let mut v = json!({"kind": w["kind"]});
            if w["kind"] == "begin" {
                v["title"] = json!(s.title);
            }
            if w["pct"] == true {
                v["percentage"] = json!(p.unwrap());
            }
            if w["msg"] == true {
                v["message"] = json!(m.clone().unwrap());
            }
            match w["can"].as_str().unwrap() {
                "no" => {}
                c => v["cancellable"] = json!(c == "true"),
            }
            let params = got.params().cloned().unwrap_or_default();
            let mut value = strip(&params["value"]);
            // To begin without a button is the default.
            if w["kind"] == "begin" && w["can"] == "no" && value["cancellable"] == false {
                value.as_object_mut().unwrap().remove("cancellable");
            }
            if params["token"] != s.token || value != v || params.as_object().map_or(0, |o| o.len()) != 2 {
                return Err(format!("sent {got}, expected {v} with token {}", s.token));
            }
        }
        Ok(())
    }
}

impl World for Progress {
    fn new(_: &mut Rng) -> Self {
        Progress { line: Line::new(), streams: HashMap::new(), made: 0, last: String::new() }
    }
    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        self.event(ev, rng).map_err(|e| vec![Fail::on(&ev["sc"], format!("{}: {e}", ev["a"]))])
    }
    fn describe(&self) -> Value {
        json!({"last": self.last})
    }
}

//! A language server whose handlers report what they do and wait for permission to finish.

use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::task::{Poll, Waker};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::notification::Notification;
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, ClientSocket, LanguageServer, LspService};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Out {
    Ok,
    Err,
}

#[derive(Default)]
pub struct Gate {
    pub out: Option<Out>,
    pub waker: Option<Waker>,
}

/// Things a handler may do before waiting at its gate.
#[derive(Clone, Debug, PartialEq)]
pub enum Script {
    /// Send a request to the client and wait for the reply.
    Ask,
    /// Send this many notifications to the client, the first one being this long.
    Tell(u32, usize),
}

#[derive(Default)]
pub struct Board {
    /// What handlers did: (tag, "start" | "end" | ...).
    pub log: Vec<(i64, String)>,
    pub gates: HashMap<i64, Gate>,
    pub scripts: HashMap<i64, Vec<Script>>,
    /// Tag of the next `shutdown` invocation, which has no params to carry it.
    pub shutdown_tag: i64,
    /// Params that handlers received, by tag.
    pub running: i64,
    pub max_running: i64,
}

#[derive(Clone, Default)]
pub struct Shared(pub Arc<Mutex<Board>>);

impl Shared {
    pub fn lock(&self) -> std::sync::MutexGuard<'_, Board> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn release(&self, tag: i64, out: Out) {
        let waker = {
            let mut b = self.lock();
            let g = b.gates.entry(tag).or_default();
            g.out = Some(out);
            g.waker.take()
        };
        if let Some(w) = waker {
            w.wake();
        }
    }
    pub fn take_log(&self) -> Vec<(i64, String)> {
        std::mem::take(&mut self.lock().log)
    }
    pub fn note(&self, tag: i64, what: impl Into<String>) {
        self.lock().log.push((tag, what.into()));
    }
}

struct Running(Shared);
impl Drop for Running {
    fn drop(&mut self) {
        self.0.lock().running -= 1;
    }
}

pub struct Backend {
    pub sh: Shared,
    pub client: Client,
}

#[derive(Debug, Deserialize, Serialize)]
pub struct Tagged {
    pub tag: i64,
}

impl Backend {
    async fn enter(&self, tag: i64) -> Out {
        let _running = {
            let mut b = self.sh.lock();
            b.log.push((tag, "start".into()));
            b.running += 1;
            b.max_running = b.max_running.max(b.running);
            Running(self.sh.clone())
        };
        let script = self.sh.lock().scripts.get(&tag).cloned().unwrap_or_default();
        for s in script {
            match s {
                Script::Ask => {
                    let items = vec![ConfigurationItem { scope_uri: None, section: Some(format!("ask-{tag}")) }];
                    let r = self.client.configuration(items).await;
                    self.sh.note(tag, match r {
                        Ok(v) => format!("reply:{}", Value::from(v)),
                        Err(e) => format!("refused:{}", e.code),
                    });
                }
                Script::Tell(n, pad) => {
                    for i in 0..n {
                        self.client.log_message(MessageType::LOG, told(tag, i, pad)).await;
                        self.sh.note(tag, format!("told:{i}"));
                    }
                }
            }
        }
        let sh = self.sh.clone();
        let out = futures::future::poll_fn(move |cx| {
            let mut b = sh.lock();
            let g = b.gates.entry(tag).or_default();
            match g.out {
                Some(o) => Poll::Ready(o),
                None => {
                    g.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        self.sh.note(tag, "end");
        out
    }

    async fn run<T>(&self, tag: i64, ok: T) -> Result<T> {
        match self.enter(tag).await {
            Out::Ok => Ok(ok),
            Out::Err => Err(handler_error(tag)),
        }
    }

    pub async fn custom_request(&self, p: Tagged) -> Result<Value> {
        self.run(p.tag, custom_result(p.tag)).await
    }

    pub async fn custom_note(&self, p: Tagged) {
        self.enter(p.tag).await;
    }
}

pub fn handler_error(tag: i64) -> Error {
    // Handlers may use any error they like, even those that otherwise come from the library.
    let (code, data) = match tag % 7 {
        1 => (ErrorCode::MethodNotFound, json!("$/other")),
        2 => (ErrorCode::RequestCancelled, json!(null)),
        3 => (ErrorCode::InvalidRequest, json!({"tag": tag})),
        4 => (ErrorCode::ServerError(-32002), json!([tag])),
        _ => (ErrorCode::ServerError(-31000 - tag), json!({"tag": tag})),
    };
    let data = if data.is_null() { None } else { Some(data) };
    let message = match tag % 5 {
        0 => "".into(),
        1 if data.is_some() => code.description().into(),
        _ => format!("handler error {tag} \u{1f4a5}\n\"\\").into(),
    };
    Error { code, message, data }
}

pub fn told(tag: i64, i: u32, pad: usize) -> String {
    format!("tell-{tag}-{i}{}", if i == 0 { ".".repeat(pad) } else { String::new() })
}

fn tag_of(s: &str) -> i64 {
    s.rsplit('/').next().unwrap().parse().unwrap()
}

#[tower_lsp::async_trait]
impl LanguageServer for Backend {
    async fn initialize(&self, p: InitializeParams) -> Result<InitializeResult> {
        let tag = p.process_id.unwrap_or(0) as i64;
        self.run(tag, InitializeResult {
            server_info: Some(ServerInfo { name: format!("init-{tag}"), version: None }),
            ..Default::default()
        })
        .await
    }

    async fn initialized(&self, _: InitializedParams) {}

    async fn shutdown(&self) -> Result<()> {
        let tag = self.sh.lock().shutdown_tag;
        self.run(tag, ()).await
    }

    async fn hover(&self, p: HoverParams) -> Result<Option<Hover>> {
        let tag = tag_of(p.text_document_position_params.text_document.uri.path());
        self.run(tag, Some(Hover { contents: HoverContents::Scalar(MarkedString::String(format!("hover-{tag}"))), range: None })).await
    }

    async fn document_symbol(&self, p: DocumentSymbolParams) -> Result<Option<DocumentSymbolResponse>> {
        let tag = tag_of(p.text_document.uri.path());
        let _ = tag;
        self.run(tag, None).await
    }

    async fn execute_command(&self, p: ExecuteCommandParams) -> Result<Option<Value>> {
        let tag = tag_of(&p.command);
        self.run(tag, Some(json!([tag, {"command": p.command}]))).await
    }

    async fn did_open(&self, p: DidOpenTextDocumentParams) {
        self.enter(tag_of(p.text_document.uri.path())).await;
    }

    async fn did_save(&self, p: DidSaveTextDocumentParams) {
        self.enter(tag_of(p.text_document.uri.path())).await;
    }
}

/// Ways to phrase a request with the given tag: method, params, expected result.
pub fn request_forms(tag: i64) -> Vec<(&'static str, Value, Value)> {
    vec![
        ("textDocument/hover",
         json!({"textDocument": {"uri": format!("file:///t/{tag}")}, "position": {"line": 1, "character": 2}}),
         json!({"contents": format!("hover-{tag}")})),
        ("textDocument/documentSymbol", json!({"textDocument": {"uri": format!("file:///t/{tag}")}}), json!(null)),
        ("workspace/executeCommand", json!({"command": format!("do/{tag}"), "arguments": []}),
         json!([tag, {"command": format!("do/{tag}")}])),
        ("custom/request", json!({"tag": tag}), custom_result(tag)),
    ]
}

/// Non-ASCII, and sometimes larger than any buffer on its way.
pub fn custom_result(tag: i64) -> Value {
    let pad = if tag % 11 == 0 { 20_000 } else { tag as usize % 5 };
    json!({"custom": tag, "é": "ü𝄞".repeat(1 + pad)})
}

pub fn note_forms(tag: i64) -> Vec<(&'static str, Value)> {
    vec![
        ("textDocument/didOpen",
         json!({"textDocument": {"uri": format!("file:///t/{tag}"), "languageId": "x", "version": 1, "text": ""}})),
        ("textDocument/didSave", json!({"textDocument": {"uri": format!("file:///t/{tag}")}})),
        ("custom/note", json!({"tag": tag})),
    ]
}

pub fn init_params(tag: i64) -> Value {
    json!({"processId": tag, "capabilities": {}, "rootUri": null})
}

pub fn init_result(tag: i64) -> Value {
    json!({"capabilities": {}, "serverInfo": {"name": format!("init-{tag}")}})
}

pub fn service(sh: &Shared) -> (LspService<Backend>, ClientSocket, Client) {
    let sh2 = sh.clone();
    let (service, socket) = LspService::build(move |client| Backend { sh: sh2, client })
        .custom_method("custom/request", Backend::custom_request)
        .custom_method("custom/note", Backend::custom_note)
        .finish();
    let client = service.inner().client.clone();
    (service, socket, client)
}

pub fn request(method: &'static str, id: Option<&Id>, params: Option<Value>) -> Request {
    let mut b = Request::build(method);
    if let Some(id) = id {
        b = b.id(id.clone());
    }
    let req = b.finish();
    match params {
        // The builder only takes `Into<Value>`, so go through it for every shape of params.
        Some(p) => {
            let mut b = Request::build(method).params(p);
            if let Some(id) = req.id() {
                b = b.id(id.clone());
            }
            b.finish()
        }
        None => req,
    }
}

/// Summarizes a response: "none", "ok", "err" (a handler's own error) or "e<code>".
pub fn classify(res: &Option<Response>, id: Option<&Id>, tag: i64, ok: Option<&Value>) -> String {
    let Some(res) = res else { return "none".into() };
    match id {
        None => return format!("unexpected response {res:?}"),
        Some(id) if id != res.id() => return format!("response with wrong id {res:?}, expected {id:?}"),
        _ => {}
    }
    match (res.result(), res.error()) {
        (Some(v), None) => match ok {
            Some(want) if want == v => "ok".into(),
            _ => format!("wrong result {v}"),
        },
        (None, Some(e)) if *e == handler_error(tag) => "err".into(),
        (None, Some(e)) => format!("e{}", e.code.code()),
        _ => format!("neither result nor error: {res:?}"),
    }
}

/// Concrete ids for the abstract ids of a specification, all different from each other.
/// LSP limits integers to 32 bits, and `$/cancelRequest` cannot name any others.
pub fn concrete_ids(rng: &mut crate::exec::Rng) -> Vec<Id> {
    let pools: [&[Value]; 5] = [
        &[json!(1), json!("1"), json!(2), json!("2"), json!(0)],
        &[json!(0), json!(-1), json!(""), json!("0"), json!("-1")],
        &[json!(i32::MAX), json!(i32::MIN), json!("2147483647"), json!(-3), json!("-2147483648")],
        &[json!("é𝄞\u{0}\"\\"), json!("null"), json!("é𝄞"), json!("true"), json!("[1]")],
        &[json!("a"), json!("A"), json!("a "), json!(10), json!("10")],
    ];
    let mut ids: Vec<Id> = rng.pick(&pools).iter().map(|v| serde_json::from_value(v.clone()).unwrap()).collect();
    rng.shuffle(&mut ids);
    ids
}

pub struct CustomNotify;
impl Notification for CustomNotify {
    type Params = Value;
    const METHOD: &'static str = "custom/notify";
}

pub struct CustomAsk;
impl tower_lsp::lsp_types::request::Request for CustomAsk {
    type Params = Value;
    type Result = Value;
    const METHOD: &'static str = "custom/ask";
}

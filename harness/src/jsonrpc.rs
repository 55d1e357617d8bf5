//! Replays the transitions of `JsonRpc.tla`: every shape of message, read with `FromStr` and
//! served over a connection; error codes; messages that are built.

use std::str::FromStr;
use std::sync::{Arc, Mutex};

use serde_json::{json, Map, Value};
use tower_lsp::jsonrpc::{Error, ErrorCode, Id, Request, Response, Result};
use tower_lsp::lsp_types::*;
use tower_lsp::{Client, LanguageServer, LspService, Server};

use crate::backend::CustomAsk;
use crate::exec::{Rng, Serving, Task};
use crate::graph::{Fail, World};
use crate::io::*;

#[derive(Default)]
struct Board {
    log: Vec<(&'static str, Value)>,
    fail: Option<Error>,
}

struct Echo {
    board: Arc<Mutex<Board>>,
    client: Client,
}

impl Echo {
    async fn req(&self, p: Value) -> Result<Value> {
        let mut b = self.board.lock().unwrap();
        b.log.push(("req", p.clone()));
        b.fail.take().map_or(Ok(p), Err)
    }
    async fn note(&self, p: Value) {
        self.board.lock().unwrap().log.push(("note", p));
    }
}

#[tower_lsp::async_trait]
impl LanguageServer for Echo {
    async fn initialize(&self, _: InitializeParams) -> Result<InitializeResult> {
        Ok(InitializeResult::default())
    }
    async fn shutdown(&self) -> Result<()> {
        Ok(())
    }
}

pub struct JsonRpc {
    pipe: Pipe,
    out_at: usize,
    board: Arc<Mutex<Board>>,
    client: Client,
    serve: Serving,
    returned: bool,
    ask: Option<Task<Result<Value>>>,
    mine: Value,
}

pub fn any_string(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "é𝄞\u{0}\"\\/\u{7f}\u{2028}\n".into(),
        2 => rng.pick(&["jsonrpc", "result", "error", "id", "null", "2.0", "Content-Length: 3\r\n\r\n{}"]).to_string(),
        _ => (0..rng.below(12)).map(|_| char::from_u32(32 + rng.below(90) as u32).unwrap()).collect(),
    }
}

/// Any JSON value except null.
pub fn any_value(rng: &mut Rng, depth: usize) -> Value {
    match rng.below(if depth == 0 { 5 } else { 8 }) {
        0 => json!(rng.below(2) == 0),
        1 => rng.pick(&[json!(0), json!(-1), json!(i64::MAX), json!(i64::MIN), json!(u64::MAX), json!(1.5), json!(1e300), json!(-0.25), json!(2.0)]).clone(),
        2 => json!(rng.next() as i64),
        3 | 4 => json!(any_string(rng)),
        5 => {
            let n = rng.below(4);
            Value::Array((0..n).map(|_| maybe_null(rng, depth - 1)).collect())
        }
        6 => {
            let n = rng.below(4);
            Value::Object((0..n).map(|_| (any_string(rng), maybe_null(rng, depth - 1))).collect())
        }
        _ => {
            let mut v = json!(1);
            for _ in 0..rng.below(40) {
                v = if rng.below(2) == 0 { json!([v]) } else { json!({"k": v}) };
            }
            v
        }
    }
}

fn maybe_null(rng: &mut Rng, depth: usize) -> Value {
    if rng.below(8) == 0 { Value::Null } else { any_value(rng, depth) }
}

pub fn any_code(rng: &mut Rng) -> i64 {
    let pool = [-32700, -32600, -32601, -32602, -32603, -32800, -32801, -32002, -32001, 0, 1, -1, i64::MAX, i64::MIN];
    match rng.below(2) {
        0 => *rng.pick(&pool),
        _ => rng.next() as i32 as i64,
    }
}

fn any_error(with_data: bool, rng: &mut Rng) -> Value {
    let mut e = json!({"code": any_code(rng), "message": any_string(rng)});
    if with_data {
        e["data"] = any_value(rng, 3);
    }
    e
}

fn to_error(v: &Value) -> Error {
    Error {
        code: ErrorCode::from(v["code"].as_i64().unwrap()),
        message: v["message"].as_str().unwrap().to_string().into(),
        data: v.get("data").cloned(),
    }
}

fn to_id(v: &Value) -> Id {
    match v {
        Value::Null => Id::Null,
        Value::Number(n) => Id::Number(n.as_i64().unwrap()),
        Value::String(s) => Id::String(s.clone()),
        _ => panic!("not an id"),
    }
}

fn any_id(kind: &str, mine: &Value, rng: &mut Rng) -> Option<Value> {
    match kind {
        "absent" => None,
        "null" => Some(Value::Null),
        "num" => {
            let pool = [0, 1, -1, 7, i32::MAX as i64, i32::MIN as i64, 1 << 40, i64::MAX, i64::MIN];
            let n = if rng.below(2) == 0 { *rng.pick(&pool) } else { rng.next() as i64 };
            Some(if json!(n) == *mine { json!(n ^ 0x5555) } else { json!(n) })
        }
        "str" => Some(json!(if rng.below(4) == 0 { mine.to_string() } else { any_string(rng) })),
        "mine" => Some(mine.clone()),
        "bad" => Some(rng.pick(&[json!(true), json!(1.5), json!([1]), json!({"a": 1}), json!({}), json!([]), json!(false)]).clone()),
        other => panic!("unknown id {other}"),
    }
}

/// Encodes a string with arbitrary escapes.
fn quote(s: &str, rng: &mut Rng) -> String {
    if rng.below(3) > 0 {
        return json!(s).to_string();
    }
    let mut out = String::from("\"");
    for u in s.encode_utf16() {
        out.push_str(&format!("\\u{u:04x}"));
    }
    out + "\""
}

/// Encodes the members in any order, with any white space.
fn encode(members: &[(&str, Value)], rng: &mut Rng) -> String {
    let mut ms: Vec<_> = members.iter().collect();
    rng.shuffle(&mut ms);
    let ws = |rng: &mut Rng| *rng.pick(&["", "", "", " ", "\n", "\t\r\n "]);
    let mut out = String::from("{");
    for (i, (k, v)) in ms.into_iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        let value = match v {
            Value::String(s) => quote(s, rng),
            v => v.to_string(),
        };
        out += &format!("{}{}{}:{}{}{}", ws(rng), quote(k, rng), ws(rng), ws(rng), value, ws(rng));
    }
    out += ws(rng);
    out.push('}');
    out
}

struct Concrete {
    text: String,
    id: Option<Value>,
    method: Option<Value>,
    params: Option<Value>,
    result: Option<Value>,
    error: Option<Value>,
}

fn concrete(s: &Value, mine: &Value, rng: &mut Rng) -> Concrete {
    let of = |k: &str| s[k].as_str().unwrap();
    let mut ms: Vec<(&str, Value)> = Vec::new();
    let ver = match of("j") {
        "ok" => Some(json!("2.0")),
        "absent" => None,
        _ => Some(rng.pick(&[json!("1.0"), json!(""), json!(2), json!(2.0), json!(null), json!(["2.0"]), json!("2.0 "), json!("2"), json!({})]).clone()),
    };
    let id = any_id(of("i"), mine, rng);
    let method = match of("m") {
        "absent" => None,
        "req" => Some(json!("j/req")),
        "note" => Some(json!("j/note")),
        "unknown" => Some(json!(format!("j/nope{}", any_string(rng)))),
        _ => Some(rng.pick(&[json!(1), json!(null), json!(["j/req"]), json!({}), json!(true)]).clone()),
    };
    let value = |kind: &str, rng: &mut Rng| match kind {
        "absent" => None,
        "null" => Some(Value::Null),
        _ => Some(any_value(rng, 3)),
    };
    let params = value(of("p"), rng);
    let result = value(of("r"), rng);
    let error = match of("e") {
        "absent" => None,
        "plain" => Some(any_error(false, rng)),
        "data" => Some(any_error(true, rng)),
        _ => Some(rng.pick(&[json!(null), json!(1), json!("x"), json!({}), json!({"code": 1}), json!({"message": "m"}),
                             json!({"code": "1", "message": "m"}), json!({"code": 1.5, "message": "m"}), json!({"code": 1, "message": 2}),
                             json!([])]).clone()),
    };
    for (k, v) in [("jsonrpc", &ver), ("id", &id), ("method", &method), ("params", &params), ("result", &result), ("error", &error)] {
        if let Some(v) = v {
            ms.push((k, v.clone()));
        }
    }
    if rng.below(4) == 0 {
        ms.push(("extra", any_value(rng, 1)));
    }
    Concrete { text: encode(&ms, rng), id, method, params, result, error }
}

type Checked = std::result::Result<(), String>;

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Checked {
    if got == want { Ok(()) } else { Err(format!("{what}: {got:?} instead of {want:?}")) }
}

fn object(ms: &[(&str, Option<Value>)]) -> Value {
    let mut o = Map::new();
    for (k, v) in ms {
        if let Some(v) = v {
            o.insert(k.to_string(), v.clone());
        }
    }
    Value::Object(o)
}

/// The request says what it should, and survives being encoded.
fn check_request(r: &Request, method: Option<&Value>, id: &Option<Value>, params: &Option<Value>) -> Checked {
    if let Some(m) = method {
        same("method", r.method(), m.as_str().unwrap())?;
    }
    same("id", r.id().cloned(), id.as_ref().map(to_id))?;
    same("params", r.params().cloned(), params.clone())?;
    let (m, i, p) = r.clone().into_parts();
    same("parts", (m.as_ref(), i.as_ref(), p.as_ref()), (r.method(), r.id(), r.params()))?;
    let wire = serde_json::to_value(r).map_err(|e| format!("cannot be encoded: {e}"))?;
    let want = object(&[("jsonrpc", Some(json!("2.0"))), ("method", Some(json!(r.method()))), ("params", params.clone()), ("id", id.clone())]);
    same("encoded", &wire, &want)?;
    let text = r.to_string();
    same("encoded text", serde_json::from_str::<Value>(&text).map_err(|e| e.to_string())?, want.clone())?;
    let again = Request::from_str(&text).map_err(|e| format!("cannot be decoded again: {e}"))?;
    same("decoded again", &again, r)?;
    let again: Request = serde_json::from_value(wire).map_err(|e| format!("cannot be decoded again: {e}"))?;
    same("decoded again", &again, r)
}

fn check_response(r: &Response, id: &Value, body: &Result<Value>) -> Checked {
    same("id", r.id(), &to_id(id))?;
    same("result", r.result(), body.as_ref().ok())?;
    same("error", r.error(), body.as_ref().err())?;
    same("is_ok", r.is_ok(), body.is_ok())?;
    same("is_error", r.is_error(), body.is_err())?;
    same("parts", r.clone().into_parts(), (to_id(id), body.clone()))?;
    same("rebuilt", &Response::from_parts(to_id(id), body.clone()), r)?;
    let wire = serde_json::to_value(r).map_err(|e| format!("cannot be encoded: {e}"))?;
    let want = match body {
        Ok(v) => json!({"jsonrpc": "2.0", "result": v, "id": id}),
        Err(e) => {
            let mut o = json!({"code": e.code.code(), "message": e.message});
            if let Some(d) = &e.data {
                o["data"] = d.clone();
            }
            json!({"jsonrpc": "2.0", "error": o, "id": id})
        }
    };
    same("encoded", &wire, &want)?;
    let again: Response = serde_json::from_value(wire.clone()).map_err(|e| format!("cannot be decoded again: {e}"))?;
    same("decoded again", &again, r)?;
    let again = Response::from_str(&wire.to_string()).map_err(|e| format!("cannot be decoded again: {e}"))?;
    same("decoded again", &again, r)
}

impl JsonRpc {
    fn settle(&mut self) {
        loop {
            let mut again = false;
            if !self.returned && (!self.serve.polled || self.serve.flag.get()) {
                again = true;
                self.returned = self.serve.settle().is_ready();
            }
            if !again {
                break;
            }
        }
    }

    fn outputs(&mut self) -> std::result::Result<Vec<Value>, String> {
        let out = self.pipe.lock().output[self.out_at..].to_vec();
        let (msgs, used) = parse_output(&out)?;
        if used != out.len() {
            return Err("incomplete message written".into());
        }
        self.out_at += used;
        Ok(msgs)
    }

    /// Sends a body and returns what is written in reply and the handlers that ran.
    fn exchange(&mut self, body: &str) -> std::result::Result<(Vec<Value>, Vec<(&'static str, Value)>), String> {
        self.pipe.feed(&frame(body.as_bytes()));
        self.settle();
        if self.returned {
            return Err("serve has returned".into());
        }
        let out = self.outputs()?;
        let log = std::mem::take(&mut self.board.lock().unwrap().log);
        Ok((out, log))
    }

    fn check_out(&self, out: &[Value], writes: &str, c: Option<&Concrete>, fail: &Option<Value>) -> Checked {
        if writes == "-" {
            return same("written", out, &[]);
        }
        if out.len() != 1 {
            return Err(format!("{} messages written instead of one: {out:?}", out.len()));
        }
        let m = &out[0];
        let id = match writes.strip_suffix(":null") {
            Some(_) => Value::Null,
            None => c.unwrap().id.clone().unwrap(),
        };
        same("jsonrpc", &m["jsonrpc"], &json!("2.0"))?;
        same("id of the answer", m.get("id"), Some(&id))?;
        match writes.trim_end_matches(":null") {
            "ok" => same("answer", m.get("result").cloned(), c.unwrap().params.clone()),
            "err" => same("answer", m.get("error").cloned(), fail.clone()),
            w => {
                let code: i64 = w[1..].parse().unwrap();
                same("result", m.get("result"), None)?;
                same("error code", &m["error"]["code"], &json!(code))
            }
        }
    }

    fn msg(&mut self, ev: &Value, rng: &mut Rng) -> Checked {
        let c = concrete(&ev["s"], &self.mine, rng);
        let of = |k: &str| ev[k].as_str().unwrap();
        let err = |e: String| format!("{e}; message: {}", &c.text.chars().take(600).collect::<String>());

        let read = Request::from_str(&c.text);
        match (of("isreq"), &read) {
            ("yes", Ok(r)) => check_request(r, c.method.as_ref(), &c.id, &c.params).map_err(err)?,
            ("yes", Err(e)) => return Err(err(format!("not read as a request: {e}"))),
            (_, Ok(r)) => return Err(err(format!("read as a request: {r:?}"))),
            _ => {}
        }
        let read = Response::from_str(&c.text);
        match (of("isresp"), &read) {
            ("yes", Ok(r)) => {
                let both = c.result.is_some() && c.error.is_some();
                let body = match (&c.result, &c.error) {
                    _ if both && r.is_ok() => Ok(c.result.clone().unwrap()),
                    _ if both => Err(r.error().unwrap().clone()),
                    (Some(v), _) => Ok(v.clone()),
                    (_, Some(e)) => Err(to_error(e)),
                    _ => unreachable!(),
                };
                check_response(r, c.id.as_ref().unwrap(), &body).map_err(err)?;
            }
            ("yes", Err(e)) => return Err(err(format!("not read as a response: {e}"))),
            ("no", Ok(r)) => return Err(err(format!("read as a response: {r:?}"))),
            _ => {}
        }

        if of("cls") == "open" {
            return Ok(());
        }
        let fail = (of("out") == "err").then(|| any_error(rng.below(2) == 0, rng));
        self.board.lock().unwrap().fail = fail.as_ref().map(to_error);
        let (out, log) = self.exchange(&c.text).map_err(err)?;
        self.board.lock().unwrap().fail = None;
        let want = match of("run") {
            "-" => vec![],
            "req" => vec![("req", c.params.clone().unwrap())],
            _ => vec![("note", c.params.clone().unwrap())],
        };
        same("handlers run", log, want).map_err(err)?;
        self.check_out(&out, of("writes"), Some(&c), &fail).map_err(err)?;

        if let Some(t) = &mut self.ask {
            let woken = t.flag.get();
            let done = t.settle();
            if of("replied") == "-" {
                if done.is_ready() {
                    return Err(err(format!("the server's own request has ended: {done:?}")));
                }
            } else {
                let std::task::Poll::Ready(got) = done else {
                    return Err(err("the server's own request has not ended".into()));
                };
                if !woken {
                    return Err(err("the task waiting for the reply was not woken".into()));
                }
                let ok = c.result.clone().map(Ok);
                let no = c.error.as_ref().filter(|_| ev["s"]["e"] != "bad").map(|e| Err(to_error(e)));
                let fits = match of("replied") {
                    "ok" => Some(got.clone()) == ok,
                    "err" => Some(got.clone()) == no,
                    _ => Some(got.clone()) == ok || Some(got.clone()) == no,
                };
                if !fits {
                    return Err(err(format!("the server's own request returned {got:?}")));
                }
                self.ask = None;
                self.mine = Value::Null;
            }
        }
        Ok(())
    }

    fn code(&mut self, n: i64, name: &str) -> Checked {
        let c = ErrorCode::from(n);
        let got = match c {
            ErrorCode::ParseError => "ParseError",
            ErrorCode::InvalidRequest => "InvalidRequest",
            ErrorCode::MethodNotFound => "MethodNotFound",
            ErrorCode::InvalidParams => "InvalidParams",
            ErrorCode::InternalError => "InternalError",
            ErrorCode::RequestCancelled => "RequestCancelled",
            ErrorCode::ContentModified => "ContentModified",
            ErrorCode::ServerError(m) => {
                same("code of the server error", m, n)?;
                "ServerError"
            }
        };
        same("name of the code", got, name)?;
        same("code()", c.code(), n)?;
        same("i64::from", i64::from(c), n)?;
        same("shown", c.to_string(), n.to_string())?;
        same("encoded", serde_json::to_value(c).map_err(|e| e.to_string())?, json!(n))?;
        same("decoded", serde_json::from_value::<ErrorCode>(json!(n)).map_err(|e| e.to_string())?, c)?;
        same("decoded", serde_json::from_str::<ErrorCode>(&n.to_string()).map_err(|e| e.to_string())?, c)?;
        let made = match name {
            "ParseError" => Error::parse_error(),
            "InvalidRequest" => Error::invalid_request(),
            "MethodNotFound" => Error::method_not_found(),
            "InvalidParams" => Error::invalid_params("why"),
            "InternalError" => Error::internal_error(),
            "RequestCancelled" => Error::request_cancelled(),
            "ContentModified" => Error::content_modified(),
            _ => Error::new(ErrorCode::ServerError(n)),
        };
        same("code of the error", made.code.code(), n)?;
        same("code of the error", Error::new(c).code.code(), n)?;
        same("data of the error", made.data, None)?;
        if name == "InvalidParams" {
            same("message", made.message.as_ref(), "why")?;
        }
        Ok(())
    }
}

impl World for JsonRpc {
    fn new(rng: &mut Rng) -> Self {
        let pipe = Pipe::new(rng);
        let board = Arc::new(Mutex::new(Board::default()));
        let b = board.clone();
        let (service, socket) = LspService::build(move |client| Echo { board: b, client })
            .custom_method("j/req", Echo::req)
            .custom_method("j/note", Echo::note)
            .finish();
        let client = service.inner().client.clone();
        let serve = Serving::serving(Server::new(Reader(pipe.clone()), Writer(pipe.clone()), socket).serve(service));
        let mut w = JsonRpc { pipe, out_at: 0, board, client, serve, returned: false, ask: None, mine: Value::Null };
        let init = json!({"jsonrpc": "2.0", "id": 0, "method": "initialize", "params": {"capabilities": {}}});
        let (out, _) = w.exchange(&init.to_string()).expect("initialize");
        assert!(out[0].get("result").is_some(), "initialize: {out:?}");
        w
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> std::result::Result<(), Vec<Fail>> {
        let res = match ev["a"].as_str().unwrap() {
            "ask" => {
                let c = self.client.clone();
                let p = any_value(rng, 3);
                let want = p.clone();
                let mut t = Task::new(async move { c.send_request::<CustomAsk>(p).await });
                let early = t.settle().is_ready();
                self.ask = Some(t);
                self.settle();
                (|| {
                    if early {
                        return Err("the request ended without a reply".into());
                    }
                    let out = self.outputs()?;
                    if out.len() != 1 {
                        return Err(format!("{} messages written: {out:?}", out.len()));
                    }
                    let id = out[0].get("id").filter(|i| i.is_number() || i.is_string()).cloned();
                    let id = id.ok_or(format!("no id: {}", out[0]))?;
                    same("request", &out[0], &json!({"jsonrpc": "2.0", "method": "custom/ask", "params": want, "id": id}))?;
                    self.mine = id;
                    Ok(())
                })()
            }
            "msg" => self.msg(ev, rng),
            "other" => {
                let v = match ev["k"].as_str().unwrap() {
                    "batch" => json!([{"jsonrpc": "2.0", "id": 1, "method": "j/req", "params": [1]}, {"jsonrpc": "2.0", "method": "j/note", "params": [1]}]),
                    "empty" => json!([]),
                    "string" => json!(any_string(rng)),
                    "number" => json!(rng.next() as i32),
                    "bool" => json!(rng.below(2) == 0),
                    _ => Value::Null,
                };
                let text = v.to_string();
                (|| {
                    if Request::from_str(&text).is_ok() || Response::from_str(&text).is_ok() {
                        return Err(format!("read as a message: {text}"));
                    }
                    let (out, log) = self.exchange(&text)?;
                    same("handlers run", log, vec![])?;
                    self.check_out(&out, ev["writes"].as_str().unwrap(), None, &None)
                })()
            }
            "code" => self.code(ev["code"].as_i64().unwrap(), ev["name"].as_str().unwrap()),
            "build" => {
                let id = any_id(ev["i"].as_str().unwrap(), &self.mine, rng);
                let params = match ev["p"].as_str().unwrap() {
                    "absent" => None,
                    "null" => Some(Value::Null),
                    _ => Some(any_value(rng, 3)),
                };
                let method = any_string(rng);
                let mut b = Request::build(method.clone());
                // Setters work in either order, and the last one counts.
                let first = rng.below(2) == 0;
                if let (Some(i), true) = (&id, first) {
                    b = b.id(to_id(&json!("other"))).id(to_id(i));
                }
                if let Some(p) = &params {
                    b = b.params(p.clone());
                }
                if let (Some(i), false) = (&id, first) {
                    b = b.id(to_id(i));
                }
                check_request(&b.finish(), Some(&json!(method)), &id, &params)
            }
            "respond" => {
                let id = any_id(ev["i"].as_str().unwrap(), &self.mine, rng).unwrap();
                let body = match ev["b"].as_str().unwrap() {
                    "null" => Ok(Value::Null),
                    "value" => Ok(any_value(rng, 3)),
                    k => Err(to_error(&any_error(k == "data", rng))),
                };
                let made = match &body {
                    Ok(v) => Response::from_ok(to_id(&id), v.clone()),
                    Err(e) => Response::from_error(to_id(&id), e.clone()),
                };
                check_response(&made, &id, &body)
            }
            other => panic!("unknown event {other}"),
        };
        res.map_err(|e| vec![Fail::on(&ev["sc"], e)])
    }

    fn describe(&self) -> Value {
        json!({"mine": self.mine})
    }
}

//! Feeds the byte ranges of `Framing.tla` to `Server::serve`.

use std::convert::Infallible;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use futures::future::Ready;
use futures::stream::Pending;
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{Loopback, Server};

use crate::exec::{Rng, Serving};
use crate::graph::{Fail, World};
use crate::io::*;

type Log = Arc<Mutex<Vec<Value>>>;

/// Records every request it is called with and echoes its params.
struct Echo(Log);

impl tower::Service<Request> for Echo {
    type Response = Option<Response>;
    type Error = Infallible;
    type Future = Ready<Result<Option<Response>, Infallible>>;

    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }

    fn call(&mut self, req: Request) -> Self::Future {
        self.0.lock().unwrap().push(serde_json::to_value(&req).unwrap());
        let (_, id, params) = req.into_parts();
        futures::future::ok(id.map(|id| Response::from_ok(id, params.unwrap_or(Value::Null))))
    }
}

struct Loop(Log);

impl Loopback for Loop {
    type RequestStream = Pending<Request>;
    type ResponseSink = Sink;
    fn split(self) -> (Self::RequestStream, Self::ResponseSink) {
        (futures::stream::pending(), Sink(self.0))
    }
}

struct Sink(Log);

impl futures::Sink<Response> for Sink {
    type Error = Infallible;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, res: Response) -> Result<(), Infallible> {
        self.0.lock().unwrap().push(serde_json::to_value(&res).unwrap());
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Infallible>> {
        Poll::Ready(Ok(()))
    }
}

pub struct Framing {
    pipe: Pipe,
    task: Option<Serving>,
    log: Log,
    /// Remaining ranges of the segment being sent.
    ranges: Vec<Vec<u8>>,
    current: Option<Value>,
    chunk: Vec<u8>,
    counter: i64,
    /// Messages that must have been delivered at the next rest, and have been.
    want: Vec<Value>,
    errors: [usize; 2],
    begun: usize,
    all: Vec<u8>,
    cuts: Vec<usize>,
}

/// A `Content-Type` that declares UTF-8, in one of its many forms.
fn content_type(rng: &mut Rng) -> String {
    media_type(*rng.pick(&["utf-8", "utf-8", "utf8"]), rng)
}

/// A `Content-Type` with the given charset.
fn media_type(charset: &str, rng: &mut Rng) -> String {
    if rng.below(3) > 0 {
        return format!("application/vscode-jsonrpc; charset={charset}");
    }
    let long = "x".repeat(*rng.pick(&[0usize, 1, 30, 100, 250, 1_000, 5_000]));
    let kind = *rng.pick(&["application/vscode-jsonrpc", "application/json"]);
    let mut params = vec![format!("charset={charset}")];
    for extra in [format!("version={}", rng.below(9)), format!("x{long}=1"), "nocharset=latin1".to_string(), "flag".to_string()] {
        if rng.below(3) == 0 {
            let at = rng.below(params.len() + 1);
            params.insert(at, extra);
        }
    }
    let mut s = kind.to_string();
    for p in params {
        s += *rng.pick(&[";", "; ", " ;", " ; ", ";  ", ";\t"]);
        s += &p;
    }
    s + *rng.pick(&["", "", ";", "; ", ";q=1"])
}

/// What follows the colon of `Content-Length`.
fn length(n: usize, rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => format!("{n}"),
        1 => format!("  {n}"),
        2 => format!(" 00{n}"),
        3 => format!(" {n} "),
        4 => format!("\t{n}"),
        _ => format!(" {n}"),
    }
}

/// Cuts `bytes` into `n` non-empty ranges.
fn cut(bytes: &[u8], n: usize, rng: &mut Rng) -> Vec<Vec<u8>> {
    assert!(bytes.len() >= n, "{} bytes in {n} ranges", bytes.len());
    let mut at: Vec<usize> = Vec::new();
    while at.len() < n - 1 {
        // Prefer the ends, where delimiters are.
        let i = match rng.below(3) {
            0 => 1 + rng.below(bytes.len() - 1),
            1 => bytes.len() - 1 - rng.below((bytes.len() - 1).min(4)),
            _ => 1 + rng.below((bytes.len() - 1).min(16)),
        };
        if i > 0 && i < bytes.len() && !at.contains(&i) {
            at.push(i);
        }
    }
    at.sort();
    at.push(bytes.len());
    let mut from = 0;
    at.into_iter()
        .map(|to| {
            let r = bytes[from..to].to_vec();
            from = to;
            r
        })
        .collect()
}

impl Framing {
    /// The message a well-formed segment carries.
    fn body(&mut self, kind: &str, rng: &mut Rng) -> (Value, String) {
        self.counter += 1;
        let n = self.counter;
        let filler = match kind {
            "long" => {
                let whole = self.pipe.lock().max_read == usize::MAX;
                let len = match rng.below(2000) {
                    0 if whole => 17_000_000,
                    1..=20 if whole => *rng.pick(&[260_000usize, 1_049_000, 4_200_000]),
                    _ => *rng.pick(&[300usize, 4_096, 8_190, 8_192, 9_000, 20_000, 70_000]),
                };
                (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>()
            }
            "uni" => "é𝄞→\u{7ff}\u{800}\u{ffff}\u{10000}".to_string(),
            _ => rng.pick(&["", "x", "Content-Length: 12\\r\\n", "{\"", "\r\n\r\n", "Content-Type"]).to_string(),
        };
        let v = match rng.below(4) {
            0 => json!({"jsonrpc": "2.0", "method": format!("note/{n}"), "params": {"text": filler}}),
            1 => json!({"jsonrpc": "2.0", "result": {"text": filler}, "id": n}),
            _ => json!({"jsonrpc": "2.0", "method": format!("req/{n}"), "params": {"text": filler}, "id": n}),
        };
        let mut text = v.to_string();
        if rng.below(4) == 0 {
            text = format!(" \r\n\t{text}\n ");
        }
        (v, text)
    }

    fn segment(&mut self, kind: &str, n: usize, lost: bool, rng: &mut Rng) -> (Vec<Vec<u8>>, Option<Value>) {
        let ty = content_type(rng);
        // Bodies of segments with a malformed header are skipped as garbage: they must not look like a header.
        let garbage = *rng.pick(&["{\"jsonrpc\":\"2.0\",\"method\":\"x\",\"id\":1}", "Con", "hello\r\n\r\nworld", "CContent", "{}{}{}\n", "éé𝄞", "Content-Content-"]);
        let g = garbage.len();
        let (head, body, value): (String, Vec<u8>, Option<Value>) = match kind {
            "msg" | "long" | "uni" | "ctlast" | "ctfirst" => {
                let (v, t) = self.body(kind, rng);
                let l = length(t.len(), rng);
                let h = match kind {
                    "ctlast" => format!("Content-Length:{l}\r\nContent-Type: {ty}\r\n\r\n"),
                    "ctfirst" => format!("Content-Type: {ty}\r\nContent-Length:{l}\r\n\r\n"),
                    _ => format!("Content-Length:{l}\r\n\r\n"),
                };
                (h, t.into_bytes(), Some(v))
            }
            "empty" => {
                let l = length(0, rng);
                let h = rng.pick(&[format!("Content-Length:{l}\r\n\r\n"),
                                   format!("Content-Length:{l}\r\nContent-Type: {ty}\r\n\r\n"),
                                   format!("Content-Type: {ty}\r\nContent-Length:{l}\r\n\r\n")]).clone();
                return (cut(h.as_bytes(), n, rng), None);
            }
            "json" => {
                let m = "{\"jsonrpc\":\"2.0\",\"method\":\"custom/note\",\"params\":{\"tag\":5}}";
                let b = match rng.below(18) {
                    0 => m[..m.len() - 1].to_string(),
                    1 => format!("{m}}}"),
                    2 => format!("{m},"),
                    3 => format!("{m}\0"),
                    4 => format!("{m} // done"),
                    5 => format!("{m}\n{m}"),
                    6 => m.replace("5}", "5,}"),
                    7 => m.replace("5}", "05}"),
                    8 => m.replace("5}", "NaN}"),
                    9 => m.replace("5}", "0x5}"),
                    10 => m.replace("5}", "\"a\nb\"}"),
                    11 => m.replace("5}", "\"\\ud800\"}"),
                    12 => m.replace('"', "'"),
                    13 => m.replace(':', "="),
                    _ => rng.pick(&["{\"jsonrpc\":\"2.0\",\"method\":", "nonsense", "{]", "  ", "\"\\ud800"]).to_string(),
                };
                (format!("Content-Length: {}\r\n\r\n", b.len()), b.into_bytes(), None)
            }
            "utf8" => {
                let b: &[u8] = rng.pick(&[&b"\xff\xfe"[..], &b"{\"jsonrpc\":\"2.0\",\"method\":\"\xc3\"}"[..], &b"{}\xf0\x9d"[..], &b"\x80abc"[..]]);
                (format!("Content-Length: {}\r\n\r\n", b.len()), b.to_vec(), None)
            }
            "rpc" => {
                let b = *rng.pick(&["[]", "{\"jsonrpc\":\"1.0\",\"method\":\"x\",\"id\":1}", "{\"jsonrpc\":\"2.0\",\"method\":5}", "123", "\"text\"", "{\"jsonrpc\":\"2.0\",\"method\":\"x\",\"id\":true}", "null", "{\"jsonrpc\":\"2.0\",\"method\":\"x\",\"id\":[1]}", "{\"method\":\"x\",\"id\":7}"]);
                (format!("Content-Length: {}\r\n\r\n", b.len()), b.into(), None)
            }
            "len" => {
                let l = *rng.pick(&["abc", "-1", "1.5", "", "12a", "99999999999999999999999999", "1 2", "0x10"]);
                (format!("Content-Length: {l}\r\n\r\n"), garbage.into(), None)
            }
            "nolen" => (format!("Content-Type: {ty}\r\n\r\n"), garbage.into(), None),
            "charset" => {
                let c = media_type(*rng.pick(&["latin1", "utf-16", "", "utf-8x", "us-ascii"]), rng);
                let h = match rng.below(2) {
                    i if i == 0 || lost => format!("Content-Length: {g}\r\nContent-Type: {c}\r\n\r\n"),
                    _ => format!("Content-Type: {c}\r\nContent-Length: {g}\r\n\r\n"),
                };
                (h, garbage.into(), None)
            }
            "three" => (format!("Content-Length: {g}\r\nContent-Type: {ty}\r\nX-Extra: 1\r\n\r\n"), garbage.into(), None),
            "junk" => {
                let b = *rng.pick(&["hello world\r\n\r\n", "{\"a\":1}\r\n", "::::\r\nxx", "\x01\x02\x03\x04", "GET / HTTP/1.1\r\nHost: x\r\n\r\n", "Content Length: 5\r\n\r\nabcde", "(Content-Len)"]);
                return (cut(b.as_bytes(), n, rng), None);
            }
            other => panic!("unknown segment {other}"),
        };
        let mut r = cut(head.as_bytes(), 2, rng);
        r.extend(cut(&body, 2, rng));
        (r, value)
    }

    fn rest(&mut self) -> Result<(), String> {
        if let Some(t) = &mut self.task {
            if t.settle().is_ready() {
                self.task = None;
            }
        }
        Ok(())
    }

    fn check(&mut self, sync: bool) -> Result<(), String> {
        let log = self.log.lock().unwrap().clone();
        if log.len() != self.want.len() || log[..] != self.want[..] {
            let i = log.iter().zip(&self.want).take_while(|(a, b)| a == b).count();
            let cut = |v: Option<&Value>| v.map_or("nothing".to_string(), |v| v.to_string().chars().take(160).collect());
            return Err(format!("message {i}: expected {}, delivered {} ({} of {} delivered)",
                               cut(self.want.get(i)), cut(log.get(i)), log.len(), self.want.len()));
        }
        let out = self.pipe.lock().output.clone();
        let (msgs, used) = parse_output(&out)?;
        if used != out.len() {
            return Err("incomplete message written".into());
        }
        let mut errors = [0usize; 2];
        let mut replies = 0;
        for m in &msgs {
            match m["error"]["code"].as_i64() {
                Some(c @ (-32700 | -32600)) if m["id"].is_null() && m.get("id").is_some() => {
                    errors[(c == -32600) as usize] += 1
                }
                None => replies += 1,
                Some(_) => return Err(format!("unexpected error response {m}")),
            }
        }
        let due = self.want.iter().filter(|m| m.get("method").is_some() && m.get("id").is_some()).count();
        if replies != due {
            return Err(format!("{replies} replies written, expected {due}"));
        }
        if errors[0] + errors[1] > self.begun || (sync && errors != self.errors) {
            return Err(format!("error responses [-32700, -32600]: {errors:?}, expected {:?}{}", self.errors,
                               if sync { "" } else { " at most" }));
        }
        Ok(())
    }

    fn start(&mut self) {
        let server = Server::new(Reader(self.pipe.clone()), Writer(self.pipe.clone()), Loop(self.log.clone()));
        let echo = Echo(self.log.clone());
        self.task = Some(Serving::serving(server.serve(echo)));
    }
}

impl World for Framing {
    fn new(rng: &mut Rng) -> Self {
        let mut f = Framing {
            pipe: Pipe::new(rng),
            task: None,
            log: Log::default(),
            ranges: Vec::new(),
            current: None,
            chunk: Vec::new(),
            counter: 0,
            want: Vec::new(),
            errors: [0; 2],
            begun: 0,
            all: Vec::new(),
            cuts: Vec::new(),
        };
        if rng.below(3) == 0 {
            f.pipe.lock().max_read = 1 + rng.below(9);
        }
        f.start();
        f
    }

    fn describe(&self) -> Value {
        json!({"stream": String::from_utf8_lossy(&self.all[self.all.len().saturating_sub(1500)..]),
               "reads end at": self.cuts, "bytes": self.all.len()})
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        self.feed(ev, rng).map_err(|what| vec![Fail { sc: None, what, fatal: true }])
    }
}

impl Framing {
    fn feed(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), String> {
        if ev["a"] == "eof" {
            self.pipe.end(false);
            self.rest()?;
            if self.task.is_some() {
                return Err("serve does not return at the end of the input".into());
            }
            return if ev["sync"] == true { self.check(true) } else { Ok(()) };
        }
        let kind = ev["k"].as_str().unwrap();
        if ev["p"] == 1 {
            let n = if ev["end"] == true { 1 } else if kind == "empty" || kind == "junk" { 2 } else { 4 };
            let (r, v) = self.segment(kind, n, ev["lost"] == true, rng);
            self.ranges = r;
            self.ranges.reverse();
            self.current = v;
            self.begun += (ev["begun"] == true) as usize;
        }
        let bytes = self.ranges.pop().unwrap();
        self.chunk.extend_from_slice(&bytes);
        self.all.extend_from_slice(&bytes);
        if ev["msg"] == true {
            self.want.push(self.current.take().unwrap());
        }
        match ev["err"].as_i64().unwrap() {
            32700 => self.errors[0] += 1,
            32600 => self.errors[1] += 1,
            _ => {}
        }
        if ev["flush"] != true {
            return Ok(());
        }
        let chunk = std::mem::take(&mut self.chunk);
        // The read may itself be split further: nothing observable at its end depends on that.
        let step = match rng.below(4) {
            0 if chunk.len() < 400 => 1,
            1 => 1 + rng.below(chunk.len()),
            _ => chunk.len(),
        };
        for (i, part) in chunk.chunks(step).enumerate() {
            self.pipe.feed(part);
            self.rest()?;
            self.cuts.push(self.all.len() - chunk.len() + (i * step + part.len()));
            if self.task.is_none() {
                return Err("serve returned before the end of the input".into());
            }
        }
        self.check(ev["sync"] == true)
    }
}

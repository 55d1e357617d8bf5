//! Records what several real threads observe that use one connection at the same time, for
//! `ClientTrace.tla` to judge.

use std::collections::VecDeque;
use std::io::Write;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::{Duration, Instant};

use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use tower_lsp::jsonrpc::{Id, Request, Response};
use tower_lsp::{Client, ExitedError, Server};

use crate::backend::{init_params, service, CustomAsk, CustomNotify, Out, Shared};
use crate::clientside::{connected, error_for, raw_call, Back};
use crate::exec::{guarded, BoxFut, Flag, Rng};
use crate::graph::Report;
use crate::io::{frame, parse_output, Pipe, Reader, Writer};
use crate::threads::{block_on, dither, Log};

/// Far longer than anything takes that makes progress at all.
const LIMIT: Duration = Duration::from_secs(25);

type Sink = Pin<Box<dyn futures::Sink<Response, Error = ExitedError> + Send>>;
type Stream = Pin<Box<dyn futures::Stream<Item = Request> + Send>>;

/// What the threads of one run share.
#[derive(Clone)]
struct Run {
    log: Log,
    client: Client,
    next: Arc<AtomicI64>,
    next_th: Arc<AtomicI64>,
    /// Something went wrong: do not wait for anything any more.
    dead: Arc<AtomicBool>,
}

impl Run {
    fn broken(&self, p: &[&str], who: impl ToString) {
        self.dead.store(true, Ordering::SeqCst);
        self.log.add(json!({"e": "broken", "p": p, "who": who.to_string()}));
    }
    fn limit(&self) -> Duration {
        if self.dead.load(Ordering::SeqCst) { Duration::from_millis(300) } else { LIMIT }
    }

    /// A call that logs what it does.
    fn call(&self, th: i64, k: &'static str) -> (i64, BoxFut<Back>) {
        let t = self.next.fetch_add(1, Ordering::SeqCst);
        let Run { log, client, .. } = self.clone();
        let fut: BoxFut<Back> = match k {
            "note" => Box::pin(async move {
                client.send_notification::<CustomNotify>(json!({"t": t})).await;
                Back::Sent
            }),
            "req" => Box::pin(async move {
                match client.send_request::<CustomAsk>(json!({"t": t})).await {
                    Ok(v) => Back::Value(v),
                    Err(e) => Back::Error(e),
                }
            }),
            _ => {
                let id: Id = if t % 2 == 0 { Id::from(format!("own-{t}")) } else { Id::from(-t) };
                Box::pin(async move {
                    let req = Request::build("custom/raw").params(json!({"t": t})).id(id).finish();
                    match raw_call(&client, req).await {
                        Back::Raw(_, Ok(v)) => Back::Value(v),
                        Back::Raw(_, Err(e)) => Back::Error(e),
                        other => other,
                    }
                })
            }
        };
        log.add(json!({"e": "submit", "t": t, "th": th, "k": k}));
        (t, fut)
    }

    fn returned(&self, t: i64, back: Option<Back>) {
        let v = match back {
            Some(Back::Sent) => return self.log.add(json!({"e": "sent", "t": t})),
            Some(Back::Value(v)) => json!({"result": v}),
            Some(Back::Error(e)) => json!({"error": e}),
            Some(other) => json!(format!("{other:?}")),
            None => {
                self.dead.store(true, Ordering::SeqCst);
                return self.log.add(json!({"e": "stuck", "t": t, "who": "a call does not return"}));
            }
        };
        self.log.add(json!({"e": "got", "t": t, "v": v.to_string()}));
    }
}

/// One thread that talks to the client.
fn sender(run: Run, mut rng: Rng, ops: usize) {
    let th = run.next_th.fetch_add(1, Ordering::SeqCst);
    for _ in 0..ops {
        if run.dead.load(Ordering::SeqCst) {
            return;
        }
        dither(&mut rng);
        let kind = *rng.pick(&["note", "note", "req", "req", "raw"]);
        match rng.below(10) {
            0..=4 => {
                let (t, mut fut) = run.call(th, kind);
                let r = block_on(&mut fut, run.limit());
                run.returned(t, r);
            }
            5 | 6 => {
                // Started, perhaps polled, and abandoned.
                let (t, mut fut) = run.call(th, kind);
                let waker = Waker::from(Arc::new(Flag::default()));
                let mut cx = Context::from_waker(&waker);
                let mut back = None;
                for _ in 0..rng.below(4) {
                    if let Poll::Ready(b) = fut.as_mut().poll(&mut cx) {
                        back = Some(b);
                        break;
                    }
                    dither(&mut rng);
                }
                match back {
                    Some(b) => run.returned(t, Some(b)),
                    None => {
                        run.log.add(json!({"e": "abandon", "t": t}));
                        drop(fut);
                    }
                }
            }
            7 | 8 => {
                // Several calls at once, as from several tasks of one thread.
                let n = 2 + rng.below(4);
                let mut all: Vec<_> = (0..n)
                    .map(|_| {
                        let own = run.next_th.fetch_add(1, Ordering::SeqCst);
                        let kind = *rng.pick(&["note", "req", "raw"]);
                        let (t, fut) = run.call(own, kind);
                        let r = run.clone();
                        let fut: BoxFut<()> = Box::pin(async move {
                            let b = fut.await;
                            r.returned(t, Some(b));
                        });
                        (t, Some(fut))
                    })
                    .collect();
                let mut join = futures::future::poll_fn(|cx| {
                    for (_, f) in &mut all {
                        if f.as_mut().is_some_and(|f| f.as_mut().poll(cx).is_ready()) {
                            *f = None;
                        }
                    }
                    if all.iter().all(|(_, f)| f.is_none()) { Poll::Ready(()) } else { Poll::Pending }
                });
                if block_on(&mut join, run.limit()).is_none() {
                    for (t, f) in &all {
                        if f.is_some() {
                            run.returned(*t, None);
                        }
                    }
                }
            }
            _ => {
                let ids: Vec<String> = (0..1 + rng.below(60)).map(|_| json!(run.client.next_request_id()).to_string()).collect();
                run.log.add(json!({"e": "ids", "ids": ids}));
            }
        }
    }
}

/// Messages that have been read and not been replied to.
#[derive(Default)]
struct Inbox {
    ids: VecDeque<Value>,
    closed: bool,
}

fn note_read(run: &Run, inbox: &Mutex<Inbox>, m: &Value, own: &str) -> bool {
    let Some(t) = m["params"]["t"].as_i64() else {
        run.broken(&["P12"], format!("{own}: a message nobody sent: {m}"));
        return true;
    };
    let k = match m["method"].as_str() {
        Some("custom/notify") if m.get("id").is_none() => "note",
        Some("custom/ask") if m.get("id").is_some() => "req",
        Some("custom/raw") if m.get("id").is_some() => "raw",
        _ => "?",
    };
    let id = m.get("id").map(|i| i.to_string()).unwrap_or_default();
    run.log.add(json!({"e": "read", "t": t, "k": k, "id": id}));
    if k == "req" || k == "raw" {
        inbox.lock().unwrap().ids.push_back(m["id"].clone());
    }
    t == 0
}

/// Answers requests in any order, some twice, and some that nobody asked.
fn replier(run: Run, mut rng: Rng, inbox: Arc<Mutex<Inbox>>, mut respond: impl FnMut(Value) -> Result<(), String>) {
    let mut pool: Vec<Value> = Vec::new();
    let mut answered: Vec<Value> = Vec::new();
    let mut n = 0;
    loop {
        let closed = {
            let mut b = inbox.lock().unwrap();
            pool.extend(b.ids.drain(..));
            b.closed
        };
        if closed && pool.is_empty() {
            return;
        }
        let mut send: Vec<Value> = Vec::new();
        if !pool.is_empty() && (closed || rng.below(3) > 0) {
            let id = pool.swap_remove(rng.below(pool.len()));
            send.push(id.clone());
            if rng.below(4) == 0 {
                send.push(id.clone());
            }
            answered.push(id);
        } else if rng.below(8) == 0 {
            let stray = [json!(1i64 << 40), json!("nobody"), json!(null), json!(-7_000_000)];
            send.push(if rng.below(2) == 0 && !answered.is_empty() { rng.pick(&answered).clone() } else { rng.pick(&stray).clone() });
        } else {
            std::thread::sleep(Duration::from_micros(20 + rng.below(200) as u64));
            continue;
        }
        for id in send {
            n += 1;
            let body = match rng.below(4) {
                0 => json!({"error": error_for(n)}),
                1 => json!({"result": format!("r{n}")}),
                2 => json!({"result": null}),
                _ => json!({"result": n}),
            };
            run.log.add(json!({"e": "reply", "id": id.to_string(), "v": body.to_string()}));
            let mut msg = json!({"jsonrpc": "2.0", "id": id});
            msg.as_object_mut().unwrap().extend(body.as_object().unwrap().clone());
            if let Err(e) = respond(msg) {
                return run.broken(&["P09"], e);
            }
        }
    }
}

fn read_stream(run: &Run, mut rng: Rng, inbox: &Mutex<Inbox>, stream: &mut (impl futures::Stream<Item = Request> + Unpin)) {
    let mut fast = 0;
    loop {
        if fast > 0 { fast -= 1 } else if rng.below(6) == 0 { fast = rng.below(30) } else { dither(&mut rng) }
        match block_on(&mut stream.next(), run.limit()) {
            Some(Some(m)) => {
                if note_read(run, inbox, &serde_json::to_value(&m).unwrap(), "stream") {
                    return;
                }
            }
            Some(None) => return run.broken(&["P12"], "the stream of messages ended"),
            None => return run.broken(&["P12"], "the reader of the stream is not woken"),
        }
    }
}

fn respond_to(sink: &mut (impl futures::Sink<Response, Error = ExitedError> + Unpin), v: Value) -> Result<(), String> {
    let r: Response = serde_json::from_value(v).map_err(|e| e.to_string())?;
    match block_on(&mut sink.send(r), LIMIT) {
        Some(Ok(())) => Ok(()),
        Some(Err(e)) => Err(format!("response refused: {e}")),
        None => Err("a response cannot be handed over".into()),
    }
}

fn run_once(seed: u64, wire: bool, log: &Log) {
    let mut rng = Rng::new(seed);
    let sh = Shared::default();
    log.add(json!({"e": "begin", "w": if wire { "wire" } else { "socket" }, "seed": seed}));
    let mut pipe = None;
    let (_service, stream, sink, client, server);
    let mut stream_: Option<Stream> = None;
    let mut sink_: Option<Sink> = None;
    if wire {
        let p = Pipe::new(&mut rng);
        let (s, socket, c) = service(&sh);
        sh.release(1, Out::Ok);
        if rng.below(3) > 0 {
            p.lock().cap = 1 + rng.below(2000);
        }
        if rng.below(2) == 0 {
            p.lock().max_read = 1 + rng.below(100);
        }
        let server_ = Server::new(Reader(p.clone()), Writer(p.clone()), socket).concurrency_level(1 + rng.below(4));
        server = Some((server_, s));
        p.feed(&frame(json!({"jsonrpc": "2.0", "id": 1, "method": "initialize", "params": init_params(1)}).to_string().as_bytes()));
        (_service, client) = (None, c);
        pipe = Some(p);
    } else {
        let (s, socket, c) = connected(&sh);
        if rng.below(4) > 0 {
            let (a, b) = socket.split();
            stream_ = Some(Box::pin(a));
            sink_ = Some(Box::pin(b));
        } else {
            let (b, a) = StreamExt::split(socket);
            stream_ = Some(Box::pin(a));
            sink_ = Some(Box::pin(b));
        }
        (_service, client, server) = (Some(s), c, None);
    }
    (stream, sink) = (stream_, sink_);

    let run = Run {
        log: log.clone(),
        client,
        next: Arc::new(AtomicI64::new(1)),
        next_th: Arc::new(AtomicI64::new(1)),
        dead: Arc::default(),
    };
    let inbox = Arc::new(Mutex::new(Inbox::default()));
    let (r1, r2) = (Rng::new(rng.next()), Rng::new(rng.next()));

    std::thread::scope(|scope| {
        if let Some((server, service)) = server {
            let run2 = run.clone();
            scope.spawn(move || match guarded(|| block_on(&mut Box::pin(server.serve(service)), LIMIT * 3)) {
                Ok(Some(())) => {}
                Ok(None) => run2.broken(&["P17"], "serve does not return at the end of the input"),
                Err(p) => run2.broken(&["P17", "P12", "P09"], format!("serve panicked: {p}")),
            });
            let pipe = pipe.clone().unwrap();
            let mut buf = pipe_reply(&run, &pipe);
            let run = &run;
            let inbox2 = inbox.clone();
            scope.spawn(move || {
                let _done = Close(&inbox2);
                read_wire(run, r1, &inbox2, &pipe, &mut buf);
            });
        } else {
            let (run, inbox2) = (&run, inbox.clone());
            let mut stream = stream.unwrap();
            scope.spawn(move || {
                let _done = Close(&inbox2);
                if let Err(p) = guarded(|| read_stream(run, r1, &inbox2, &mut stream)) {
                    run.broken(&["P12"], format!("panic: {p}"));
                }
            });
        }
        let reply = {
            let (run, inbox2, pipe) = (run.clone(), inbox.clone(), pipe.clone());
            scope.spawn(move || {
                let mut sink = sink;
                let run2 = run.clone();
                let r = guarded(|| {
                    replier(run2, r2, inbox2, |v| match (&pipe, &mut sink) {
                        (Some(p), _) => {
                            p.feed(&frame(v.to_string().as_bytes()));
                            Ok(())
                        }
                        (None, Some(s)) => respond_to(s, v),
                        _ => unreachable!(),
                    })
                });
                if let Err(p) = r {
                    run.broken(&["P09"], format!("panic: {p}"));
                }
            })
        };
        let senders: Vec<_> = (0..2 + rng.below(6))
            .map(|_| {
                let (run, rng) = (run.clone(), Rng::new(rng.next()));
                scope.spawn(move || {
                    let r2 = run.clone();
                    if let Err(p) = guarded(|| sender(run, rng, 12)) {
                        r2.broken(&["P09", "P10", "P12"], format!("panic: {p}"));
                    }
                })
            })
            .collect();
        for s in senders {
            let _ = s.join();
        }
        // Nothing else follows this one.
        log.add(json!({"e": "submit", "t": 0, "th": 0, "k": "note"}));
        let client = run.client.clone();
        let mut last: BoxFut<()> = Box::pin(async move { client.send_notification::<CustomNotify>(json!({"t": 0})).await });
        let r = block_on(&mut last, run.limit());
        run.returned(0, r.map(|_| Back::Sent));
        let _ = reply.join();
        if let Some(p) = &pipe {
            p.end(false);
        }
    });
    if !run.dead.load(Ordering::SeqCst) {
        log.add(json!({"e": "end"}));
    }
}

/// Tells the replier that there is nothing more to come.
struct Close<'a>(&'a Mutex<Inbox>);
impl Drop for Close<'_> {
    fn drop(&mut self) {
        self.0.lock().unwrap().closed = true;
    }
}

/// Waits for the response to initialize; returns what has been read beyond it.
fn pipe_reply(run: &Run, pipe: &Pipe) -> Vec<u8> {
    let mut buf = Vec::new();
    let start = Instant::now();
    loop {
        buf.extend(pipe.drain());
        match parse_output(&buf) {
            Ok((ms, at)) if !ms.is_empty() => return buf.split_off(at),
            Ok(_) if start.elapsed() < LIMIT => std::thread::sleep(Duration::from_micros(50)),
            Ok(_) => {
                run.broken(&["P05", "P18"], "initialize is not answered");
                return buf;
            }
            Err(e) => {
                run.broken(&["P15"], e);
                return buf;
            }
        }
    }
}

fn read_wire(run: &Run, mut rng: Rng, inbox: &Mutex<Inbox>, pipe: &Pipe, buf: &mut Vec<u8>) {
    let mut start = Instant::now();
    loop {
        dither(&mut rng);
        let bytes = pipe.drain();
        if bytes.is_empty() {
            if start.elapsed() > run.limit() {
                return run.broken(&["P12", "P18"], "messages are not written");
            }
            std::thread::sleep(Duration::from_micros(30));
            continue;
        }
        start = Instant::now();
        buf.extend(bytes);
        match parse_output(buf) {
            Ok((ms, at)) => {
                buf.drain(..at);
                let mut last = false;
                for m in ms {
                    last |= note_read(run, inbox, &m, "wire");
                }
                if last {
                    // Let serve finish whatever it still writes.
                    pipe.lock().cap = usize::MAX;
                    pipe.drain();
                    return;
                }
            }
            Err(e) => return run.broken(&["P15"], e),
        }
    }
}

pub fn record(trace: &str, seed: u64, runs: u64, report: &mut Report) {
    let parts = 4u64;
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..parts)
            .map(|p| {
                s.spawn(move || {
                    let mut lines = 0;
                    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{trace}{p}")).unwrap());
                    for i in 0..runs {
                        let log = Log::default();
                        run_once(seed * 1_000_000 + p * 10_000 + i, i % 2 == 1, &log);
                        let all = log.take();
                        let bad = all.iter().any(|l| l["e"] == "broken" || l["e"] == "stuck");
                        for l in all {
                            lines += 1;
                            writeln!(f, "{l}").unwrap();
                        }
                        if bad {
                            break;
                        }
                    }
                    lines
                })
            })
            .collect();
        for h in hs {
            report.steps += h.join().expect("recording");
        }
    });
    report.walks += parts * runs;
    let text = std::fs::read_to_string(format!("{trace}0")).unwrap();
    report.samples.push(text.lines().take(30).map(|l| serde_json::from_str::<Value>(l).unwrap()).collect::<Vec<_>>().into());
}

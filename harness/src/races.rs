//! Records short histories of a service that several threads work on at once, for `Races.tla`.

use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Instant;

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request, Response};
use tower_lsp::{ExitedError, LspService};

use crate::backend::{classify, custom_result, init_params, init_result, service, Backend, Out, Shared};
use crate::exec::{guarded, Rng, Task};
use crate::graph::Report;

type Reply = Result<Option<Response>, ExitedError>;

#[derive(Clone, Debug)]
enum Op {
    Call { r: usize, kind: &'static str, id: i64 },
    Poll(usize),
    Drop(usize),
    Rel(usize),
    Cancel(usize, i64),
    Exit,
    Ready,
}

struct Slot {
    task: Task<Reply>,
    kind: &'static str,
    id: i64,
    want: Out,
    pending: bool,
}

struct Arena {
    service: Mutex<LspService<Backend>>,
    slots: Vec<Mutex<Option<Slot>>>,
    cancels: Mutex<HashMap<usize, Task<Reply>>>,
    wants: Vec<Out>,
    sh: Shared,
    clock: AtomicU64,
    programs: Vec<Vec<(usize, Op)>>,
    recorded: Mutex<Vec<(u64, u64, Value)>>,
    arrived: AtomicUsize,
    finished: AtomicUsize,
}

const REQS: usize = 9;

fn concrete(id: i64) -> Id {
    if id % 2 == 0 { Id::String(id.to_string()) } else { Id::Number(id) }
}

fn want_str(o: Out) -> &'static str {
    if o == Out::Ok { "ok" } else { "err" }
}

impl Arena {
    fn new(programs: Vec<Vec<(usize, Op)>>, wants: Vec<Out>) -> Self {
        let sh = Shared::default();
        let (service, socket, _) = service(&sh);
        drop(socket);
        Arena {
            service: Mutex::new(service),
            slots: (0..=REQS).map(|_| Mutex::new(None)).collect(),
            cancels: Mutex::default(),
            wants,
            sh,
            clock: AtomicU64::new(0),
            programs,
            recorded: Mutex::default(),
            arrived: AtomicUsize::new(0),
            finished: AtomicUsize::new(0),
        }
    }

    fn now(&self) -> u64 {
        self.clock.fetch_add(1, Ordering::SeqCst)
    }

    fn request(&self, r: usize, kind: &str, id: i64) -> Request {
        let tag = r as i64;
        match kind {
            "init" => Request::build("initialize").id(concrete(id)).params(init_params(tag)).finish(),
            "shut" => Request::build("shutdown").id(concrete(id)).finish(),
            _ => Request::build("custom/request").id(concrete(id)).params(json!({"tag": tag})).finish(),
        }
    }

    /// Prepares a `$/cancelRequest` for later.
    fn prepare_cancel(&self, c: usize, id: i64) {
        let params = json!({"id": serde_json::to_value(concrete(id)).unwrap()});
        let fut = self.service.lock().unwrap().call(Request::build("$/cancelRequest").params(params).finish());
        self.cancels.lock().unwrap().insert(c, Task::new(fut));
    }

    /// Performs an operation and notes when, and with which outcome.
    fn perform(&self, op: &Op, log: &mut Vec<(u64, u64, Value)>) {
        match op {
            Op::Call { r, kind, id } => {
                let req = self.request(*r, kind, *id);
                if *kind == "shut" {
                    self.sh.lock().shutdown_tag = *r as i64;
                }
                let mut s = self.service.lock().unwrap();
                let lo = self.now();
                let fut = s.call(req);
                let hi = self.now();
                drop(s);
                *self.slots[*r].lock().unwrap() = Some(Slot { task: Task::new(fut), kind, id: *id, want: self.wants[*r], pending: false });
                log.push((lo, hi, json!({"op": "call", "r": r, "k": kind, "id": id, "out": "-", "want": "-"})));
            }
            Op::Poll(r) => {
                let mut slot = self.slots[*r].lock().unwrap();
                let Some(s) = slot.as_mut() else { return };
                let waker = Waker::from(s.task.flag.clone());
                let mut cx = Context::from_waker(&waker);
                s.task.flag.take();
                s.task.polled = true;
                let lo = self.now();
                let res = s.task.fut.as_mut().poll(&mut cx);
                let hi = self.now();
                let tag = *r as i64;
                let out = match res {
                    Poll::Pending => "pending".to_string(),
                    Poll::Ready(Err(_)) => "exited".into(),
                    Poll::Ready(Ok(res)) => {
                        let ok = match s.kind {
                            "init" => init_result(tag),
                            "shut" => Value::Null,
                            _ => custom_result(tag),
                        };
                        classify(&res, Some(&concrete(s.id)), tag, Some(&ok))
                    }
                };
                s.pending = out == "pending";
                log.push((lo, hi, json!({"op": "poll", "r": r, "k": s.kind, "id": s.id, "out": out, "want": want_str(s.want)})));
                if !s.pending {
                    *slot = None;
                }
            }
            Op::Drop(r) => {
                let Some(s) = self.slots[*r].lock().unwrap().take() else { return };
                let (kind, id) = (s.kind, s.id);
                let lo = self.now();
                drop(s);
                let hi = self.now();
                log.push((lo, hi, json!({"op": "drop", "r": r, "k": kind, "id": id, "out": "-", "want": "-"})));
            }
            Op::Rel(r) => {
                let want = self.wants[*r];
                let lo = self.now();
                self.sh.release(*r as i64, want);
                let hi = self.now();
                log.push((lo, hi, json!({"op": "rel", "r": r, "k": "-", "id": 0, "out": "-", "want": "-"})));
            }
            Op::Cancel(c, id) => {
                let Some(mut t) = self.cancels.lock().unwrap().remove(c) else { return };
                let waker = Waker::from(t.flag.clone());
                let mut cx = Context::from_waker(&waker);
                let lo = self.now();
                let res = t.fut.as_mut().poll(&mut cx);
                let hi = self.now();
                let out = match res {
                    Poll::Ready(Ok(None)) => "none".to_string(),
                    other => format!("{other:?}"),
                };
                log.push((lo, hi, json!({"op": "cancel", "r": 0, "k": "-", "id": id, "out": out, "want": "-"})));
            }
            Op::Exit => {
                let mut s = self.service.lock().unwrap();
                let lo = self.now();
                let fut = s.call(Request::build("exit").finish());
                let hi = self.now();
                drop(s);
                drop(fut);
                log.push((lo, hi, json!({"op": "exit", "r": 0, "k": "-", "id": 0, "out": "-", "want": "-"})));
            }
            Op::Ready => {
                let mut s = self.service.lock().unwrap();
                let waker = futures::task::noop_waker();
                let mut cx = Context::from_waker(&waker);
                let lo = self.now();
                let res = s.poll_ready(&mut cx);
                let hi = self.now();
                let out = match res {
                    Poll::Ready(Ok(())) => "ready",
                    Poll::Ready(Err(_)) => "exited",
                    Poll::Pending => "pending",
                };
                log.push((lo, hi, json!({"op": "ready", "r": 0, "k": "-", "id": 0, "out": out, "want": "-"})));
            }
        }
    }

    /// Polls everybody who has been woken, and notes who has not.
    fn settle(&self, log: &mut Vec<(u64, u64, Value)>) {
        for r in 1..=REQS {
            for _ in 0..4 {
                let due = match &*self.slots[r].lock().unwrap() {
                    None => break,
                    Some(s) => !s.pending || s.task.flag.get(),
                };
                if !due {
                    let lo = self.now();
                    log.push((lo, self.now(), json!({"op": "idle", "r": r, "k": "-", "id": 0, "out": "-", "want": "-"})));
                    break;
                }
                self.perform(&Op::Poll(r), log);
            }
        }
    }
}

/// Operations that a property is about.
fn central(prop: &str, op: &Op) -> bool {
    match prop {
        "P01" => matches!(op, Op::Call { kind: "req", .. } | Op::Poll(1)),
        "P02" => matches!(op, Op::Call { kind: "init", .. } | Op::Poll(1) | Op::Drop(1)),
        "P04" => matches!(op, Op::Exit),
        "P06" => matches!(op, Op::Cancel(..)),
        "P07" => matches!(op, Op::Call { kind: "req", .. } | Op::Drop(_)),
        _ => matches!(op, Op::Poll(_)),
    }
}

/// What is set up first, what the threads do at once, and what is looked at afterwards.
///
/// Every other scenario is about `prop` in particular.
fn scenario(prop: &str, rng: &mut Rng) -> (Vec<Op>, Vec<Vec<(usize, Op)>>, Vec<(usize, i64)>, Vec<Out>) {
    let mut before = Vec::new();
    let mut cancels = Vec::new();
    let mut pool: Vec<Vec<Op>> = Vec::new();
    let mut wants: Vec<Out> = (0..=REQS).map(|r| if r < 7 && rng.below(3) == 0 { Out::Err } else { Out::Ok }).collect();
    let mut live = Vec::new();
    if rng.below(2) == 0 {
        before.push(Op::Call { r: 1, kind: "init", id: 1 });
        live.push(1);
        pool.push(vec![Op::Call { r: 4, kind: "init", id: 1 + rng.below(2) as i64 }, Op::Poll(4)]);
    } else {
        wants[1] = Out::Ok;
        before.push(Op::Rel(1));
        before.push(Op::Call { r: 1, kind: "init", id: 1 });
        before.push(Op::Poll(1));
        for r in 2..=3 {
            if r == 2 || rng.below(2) == 0 {
                before.push(Op::Call { r, kind: "req", id: r as i64 - 1 });
                live.push(r);
            }
        }
        if rng.below(4) == 0 {
            pool.push(vec![Op::Call { r: 4, kind: "shut", id: 3 }, Op::Poll(4)]);
        }
    }
    for &r in &live {
        if rng.below(2) == 0 {
            before.push(Op::Poll(r));
        }
        match rng.below(3) {
            0 => pool.push(vec![Op::Rel(r)]),
            _ => before.push(Op::Rel(r)),
        }
        pool.push(vec![if rng.below(3) == 0 { Op::Drop(r) } else { Op::Poll(r) }]);
        pool.push(vec![if rng.below(3) == 0 { Op::Drop(r) } else { Op::Poll(r) }]);
    }
    pool.push(vec![Op::Call { r: 5, kind: "req", id: 1 }, Op::Poll(5)]);
    pool.push(vec![Op::Call { r: 6, kind: "req", id: 1 + rng.below(2) as i64 }]);
    let focus = rng.below(2) == 0;
    if rng.below(2) == 0 || focus && prop == "P04" {
        pool.push(vec![Op::Exit]);
    }
    pool.push(vec![Op::Ready]);
    for c in 0..2 {
        let id = 1 + rng.below(2) as i64;
        cancels.push((c, id));
        pool.push(vec![Op::Cancel(c, id)]);
    }
    for r in [4, 5, 6] {
        if rng.below(2) == 0 {
            before.push(Op::Rel(r));
        }
    }
    let threads = 2 + (rng.below(4) == 0) as usize;
    let mut programs = Vec::new();
    for t in 0..threads {
        let mut p: Vec<(usize, Op)> = Vec::new();
        if focus && t < 2 {
            // An operation of interest, at the same time as one on a request in flight.
            let fits: Vec<usize> = (0..pool.len())
                .filter(|&i| match t {
                    0 => central(prop, &pool[i][0]),
                    _ => matches!(pool[i][0], Op::Poll(_) | Op::Drop(_)),
                })
                .collect();
            if !fits.is_empty() {
                p.extend(pool.swap_remove(*rng.pick(&fits)).into_iter().map(|op| (0, op)));
            }
        }
        while p.is_empty() || (p.len() < 2 && rng.below(3) == 0) {
            if pool.is_empty() {
                break;
            }
            let i = rng.below(pool.len());
            for op in pool.swap_remove(i) {
                p.push((0, op));
            }
        }
        programs.push(p);
    }
    (before, programs, cancels, wants)
}

/// Ranks instead of times: only what the order of the operations depends on.
fn canonical(mut ops: Vec<(u64, u64, Value)>) -> Vec<Value> {
    let mut marks: Vec<(u64, bool)> = ops.iter().flat_map(|o| [(o.0, true), (o.1, false)]).collect();
    marks.sort();
    let mut rank: BTreeMap<u64, u64> = BTreeMap::new();
    let (mut n, mut last) = (0, true);
    for (t, start) in marks {
        if start && !last {
            n += 1;
        }
        last = start;
        rank.insert(t, n);
    }
    ops.sort_by_key(|o| (rank[&o.0], rank[&o.1], o.2.to_string()));
    ops.into_iter()
        .map(|(lo, hi, mut v)| {
            v["lo"] = json!(rank[&lo]);
            v["hi"] = json!(rank[&hi]);
            v
        })
        .collect()
}

/// Runs the scenario of the given number on the given crew and returns its history.
fn run_once(prop: &str, number: u64, timing: &mut Rng, crew: &Crew) -> Value {
    let rng = &mut Rng::new(number);
    let (before, mut programs, cancels, wants) = scenario(prop, rng);
    for (spin, _) in programs.iter_mut().flatten() {
        *spin = if timing.below(2) == 0 { 0 } else { timing.below(60) };
    }
    let arena = Arc::new(Arena::new(programs, wants));
    let mut log = Vec::new();
    let first = cancels.iter().all(|_| rng.below(2) == 0);
    if first {
        cancels.iter().for_each(|(c, id)| arena.prepare_cancel(*c, *id));
    }
    for op in &before {
        arena.perform(op, &mut log);
    }
    if !first {
        cancels.iter().for_each(|(c, id)| arena.prepare_cancel(*c, *id));
    }
    crew.work(&arena);
    log.append(&mut arena.recorded.lock().unwrap());
    arena.settle(&mut log);
    arena.perform(&Op::Ready, &mut log);
    let exited = log.last().is_some_and(|l| l.2["out"] != "ready");
    if !exited && rng.below(2) == 0 {
        let id = 1 + rng.below(2) as i64;
        arena.prepare_cancel(9, id);
        arena.perform(&Op::Cancel(9, id), &mut log);
        arena.settle(&mut log);
    }
    for (r, id) in [(7, 1), (8, 2)] {
        arena.perform(&Op::Rel(r), &mut log);
        arena.perform(&Op::Call { r, kind: "req", id }, &mut log);
        arena.perform(&Op::Poll(r), &mut log);
    }
    if !exited {
        for r in 1..=REQS {
            arena.perform(&Op::Drop(r), &mut log);
        }
        arena.perform(&Op::Rel(9), &mut log);
        arena.perform(&Op::Call { r: 9, kind: "init", id: 1 }, &mut log);
        arena.perform(&Op::Poll(9), &mut log);
    }

    // What the handlers have done must agree with what has come of the requests.
    let mut did: HashMap<i64, (u64, u64)> = HashMap::new();
    for (tag, what) in arena.sh.take_log() {
        let d = did.entry(tag).or_default();
        match what.as_str() {
            "start" => d.0 += 1,
            _ => d.1 += 1,
        }
    }
    for (_, _, v) in log.iter_mut().filter(|l| l.2["op"] == "poll" && l.2["out"] != "pending") {
        let out = v["out"].as_str().unwrap().to_string();
        let (started, ended) = did.get(&v["r"].as_i64().unwrap()).copied().unwrap_or_default();
        let done = out == "ok" || out == "err";
        let refused = !done && out != "e-32800";
        if started > 1 || ended != done as u64 || (refused && started > 0) {
            v["out"] = json!(format!("{out}, but its handler has started {started} times and finished {ended} times"));
        }
    }
    let has = |what: &str| log.iter().any(|l| l.2["op"] == what);
    let inits = log.iter().filter(|l| l.2["k"] == "init" && l.2["op"] == "call").count();
    let mut sc = vec!["P01", "P05", "P07"];
    if has("exit") {
        sc.push("P04");
    }
    if has("cancel") {
        sc.push("P06");
    }
    if inits > 1 || log.iter().any(|l| l.2["r"] == 1 && l.2["op"] != "call") {
        sc.push("P02");
    }
    json!({"nr": REQS, "sc": sc, "ops": canonical(log)})
}

/// Threads that are kept spinning, so that they start at the same moment.
struct Crew {
    job: Mutex<Option<Arc<Arena>>>,
    generation: AtomicUsize,
    stop: AtomicBool,
}

fn spin_until(f: impl Fn() -> bool) {
    let mut n = 0u32;
    while !f() {
        n += 1;
        if n % 512 == 0 {
            std::thread::yield_now();
        }
        std::hint::spin_loop();
    }
}

/// Threads beside the one that runs the races.
const WORKERS: usize = 2;

impl Crew {
    fn work(&self, arena: &Arc<Arena>) {
        assert!(arena.programs.len() <= WORKERS + 1);
        *self.job.lock().unwrap() = Some(arena.clone());
        self.generation.fetch_add(1, Ordering::SeqCst);
        part(arena, 0);
        spin_until(|| arena.finished.load(Ordering::SeqCst) == arena.programs.len());
        *self.job.lock().unwrap() = None;
    }

    fn worker(&self, me: usize) {
        let mut seen = 0;
        loop {
            spin_until(|| self.generation.load(Ordering::SeqCst) != seen || self.stop.load(Ordering::SeqCst));
            if self.stop.load(Ordering::SeqCst) {
                return;
            }
            seen = self.generation.load(Ordering::SeqCst);
            let arena = self.job.lock().unwrap().clone();
            if let Some(arena) = arena {
                if me < arena.programs.len() {
                    part(&arena, me);
                }
            }
        }
    }
}

/// Runs one of the programs, at the same time as the others.
fn part(arena: &Arc<Arena>, me: usize) {
    let threads = arena.programs.len();
    arena.arrived.fetch_add(1, Ordering::SeqCst);
    spin_until(|| arena.arrived.load(Ordering::SeqCst) >= threads);
    let mut log = Vec::new();
    for (spin, op) in &arena.programs[me] {
        for _ in 0..*spin {
            std::hint::spin_loop();
        }
        if let Err(e) = guarded(|| arena.perform(op, &mut log)) {
            let t = arena.now();
            log.push((t, arena.now(), json!({"op": "panic", "r": 0, "k": format!("{op:?}"), "id": 0, "out": e, "want": "-"})));
        }
    }
    arena.recorded.lock().unwrap_or_else(|e| e.into_inner()).append(&mut log);
    arena.finished.fetch_add(1, Ordering::SeqCst);
}

/// How often each scenario is run.
const EACH: u64 = 50;

pub fn record(trace: &str, prop: &str, seed: u64, runs: u64, report: &mut Report) {
    let lanes = 2u64;
    let found: Mutex<BTreeMap<String, u64>> = Mutex::default();
    let overlaps = AtomicU64::new(0);
    let start = Instant::now();
    std::thread::scope(|s| {
        for lane in 0..lanes {
            let (found, overlaps) = (&found, &overlaps);
            s.spawn(move || {
                let crew = Crew { job: Mutex::new(None), generation: AtomicUsize::new(0), stop: AtomicBool::new(false) };
                let mut rng = Rng::new(seed * 1000 + lane);
                std::thread::scope(|s| {
                    for w in 1..=WORKERS {
                        let crew = &crew;
                        s.spawn(move || crew.worker(w));
                    }
                    for i in 0..runs {
                        let number = seed * 1_000_000 + i / EACH * lanes + lane;
                        let h = match guarded(|| run_once(prop, number, &mut rng, &crew)) {
                            Ok(h) => h,
                            Err(e) => json!({"nr": REQS, "sc": ["P01", "P02", "P04", "P05", "P06", "P07"], "ops": [
                                {"op": "panic", "r": 0, "k": "-", "id": 0, "out": e, "want": "-", "lo": 0, "hi": 0}]}),
                        };
                        let ops = h["ops"].as_array().unwrap();
                        if ops.iter().any(|a| ops.iter().any(|b| a != b && a["lo"].as_u64() < b["lo"].as_u64() && b["lo"].as_u64() <= a["hi"].as_u64()))
                            || ops.windows(2).any(|w| w[0]["lo"] == w[1]["lo"]) {
                            overlaps.fetch_add(1, Ordering::Relaxed);
                        }
                        *found.lock().unwrap().entry(h.to_string()).or_default() += 1;
                    }
                    crew.stop.store(true, Ordering::SeqCst);
                });
            });
        }
    });
    let found = found.into_inner().unwrap();
    let parts = 6;
    let mut files: Vec<_> = (0..parts).map(|p| std::io::BufWriter::new(std::fs::File::create(format!("{trace}{p}")).unwrap())).collect();
    for (i, h) in found.keys().enumerate() {
        writeln!(files[i % parts], "{h}").unwrap();
    }
    report.walks += lanes * runs;
    report.steps += found.len() as u64;
    report.samples.extend(found.keys().take(1).map(|h| serde_json::from_str::<Value>(h).unwrap()));
    report.extra.insert("races run".into(), json!(lanes * runs));
    report.extra.insert("races with overlapping operations".into(), json!(overlaps.into_inner()));
    report.extra.insert("different histories".into(), json!(found.len()));
    report.extra.insert("seconds".into(), json!(start.elapsed().as_secs()));
}

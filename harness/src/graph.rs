//! Labelled transition graphs printed by TLC, and walks that cover every edge.

use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::BufRead;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::exec::{guarded, Rng};

pub struct Edge {
    pub from: usize,
    pub to: usize,
    pub ev: Value,
}

pub struct Graph {
    pub edges: Vec<Edge>,
    pub out: Vec<Vec<usize>>,
}

/// Extracts the JSON payload of the lines `<<"TAG", "...">>` in TLC's output.
pub fn tagged_lines(path: &str, tag: &str) -> Vec<Value> {
    let file = std::fs::File::open(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let prefix = format!("<<\"{tag}\", ");
    let mut res = Vec::new();
    for line in std::io::BufReader::new(file).lines() {
        let line = line.unwrap();
        if let Some(rest) = line.strip_prefix(&prefix) {
            let body = rest.strip_suffix(">>").expect("malformed TLC line");
            let text: String = serde_json::from_str(body).expect("malformed TLC string");
            res.push(serde_json::from_str(&text).expect("malformed TLC JSON"));
        }
    }
    res
}

impl Graph {
    pub fn load(path: &str) -> Graph {
        let mut ids: HashMap<String, usize> = HashMap::new();
        let mut edges: Vec<Edge> = Vec::new();
        let mut seen = std::collections::HashSet::new();
        for line in tagged_lines(path, "EDGE") {
            let key = |v: &Value, ids: &mut HashMap<String, usize>| {
                let s = v.as_str().unwrap().to_string();
                let n = ids.len();
                *ids.entry(s).or_insert(n)
            };
            let from = key(&line["f"], &mut ids);
            let to = key(&line["t"], &mut ids);
            let ev = line["e"].clone();
            if seen.insert((from, to, ev.to_string())) {
                edges.push(Edge { from, to, ev });
            }
        }
        assert!(!edges.is_empty(), "empty graph in {path}");
        let mut out = vec![Vec::new(); ids.len()];
        for (i, e) in edges.iter().enumerate() {
            out[e.from].push(i);
        }
        Graph { edges, out }
    }
}

/// A disagreement between code and specification.
pub struct Fail {
    /// The properties it belongs to, when these are not those of the step.
    pub sc: Option<Vec<String>>,
    pub what: String,
    /// The walk cannot go on in a meaningful way.
    pub fatal: bool,
}

impl From<String> for Fail {
    fn from(what: String) -> Self {
        Fail { sc: None, what, fatal: false }
    }
}

impl Fail {
    pub fn on(sc: &Value, what: String) -> Fail {
        let sc = sc.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
        Fail { sc, what, fatal: true }
    }
}

/// The implementation side of a walk.
pub trait World {
    fn new(rng: &mut Rng) -> Self;
    /// Performs the step and compares what is observed with what the event says.
    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>>;
    /// Describes how abstract names were made concrete, for reports.
    fn describe(&self) -> Value;
    /// Called at the end of every walk.
    fn finish(&mut self) -> Result<(), (Vec<String>, String)> {
        Ok(())
    }
}

#[derive(Default)]
pub struct Report {
    pub steps: u64,
    pub edges: u64,
    pub covered: u64,
    pub states: u64,
    pub walks: u64,
    pub passes: u64,
    pub mismatches: Vec<Value>,
    pub per_prop: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub extra: BTreeMap<String, Value>,
}

/// How long each thread goes on with walks that fail.
const ENOUGH: Duration = Duration::from_secs(30);

impl Report {
    fn failures(&self) -> u64 {
        self.per_prop.values().sum()
    }

    pub fn mismatch(&mut self, sc: &[String], m: Value) {
        let mut keep = false;
        for p in sc {
            let n = self.per_prop.entry(p.clone()).or_default();
            *n += 1;
            keep |= *n <= 3;
        }
        if keep {
            let mut m = m;
            m["sc"] = json!(sc);
            self.mismatches.push(m);
        }
    }

    pub fn merge(&mut self, o: Report) {
        self.steps += o.steps;
        self.edges += o.edges;
        self.covered += o.covered;
        self.states += o.states;
        self.walks += o.walks;
        for (p, n) in o.per_prop {
            *self.per_prop.entry(p).or_default() += n;
        }
        self.mismatches.extend(o.mismatches);
        self.samples.extend(o.samples.into_iter().take(1));
        self.samples.truncate(3);
        self.extra.extend(o.extra);
    }

    pub fn to_json(&self) -> Value {
        json!({"steps": self.steps, "edges": self.edges, "covered": self.covered,
               "states": self.states, "walks": self.walks, "passes": self.passes, "per_prop": self.per_prop,
               "mismatches": self.mismatches, "samples": self.samples, "extra": self.extra})
    }
}

pub fn scope(ev: &Value) -> Vec<String> {
    ev["sc"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

/// Walks the graph until every edge has been taken, the edges being divided among threads.
pub fn cover<W: World>(g: &Graph, seed: u64, max_len: usize, report: &mut Report) {
    let threads = 8;
    report.edges += g.edges.len() as u64;
    report.states += g.out.len() as u64;
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| s.spawn(move || cover_part::<W>(g, seed.wrapping_mul(31).wrapping_add(t as u64), t, threads, max_len)))
            .collect();
        hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
    });
    for p in parts {
        report.merge(p);
    }
}

/// Behaviours printed by TLC in simulation mode.
pub fn load_sim(path: &str) -> Vec<Vec<Value>> {
    let mut walks: Vec<Vec<Value>> = Vec::new();
    let mut level = u64::MAX;
    for line in tagged_lines(path, "SIM") {
        let l = line["l"].as_u64().unwrap();
        if l <= level {
            walks.push(Vec::new());
        }
        level = l;
        if l > 1 {
            walks.last_mut().unwrap().push(line["e"].clone());
        }
    }
    walks.retain(|w| !w.is_empty());
    walks
}

/// Performs given behaviours.
pub fn replay<W: World>(walks: &[Vec<Value>], seed: u64, report: &mut Report) {
    let threads = 8;
    let parts: Vec<Report> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let mut report = Report::default();
                    let mut wasted = Duration::ZERO;
                    for (i, walk) in walks.iter().enumerate().filter(|(i, _)| i % threads == t) {
                        let mut rng = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(i as u64));
                        let mut flagged = std::collections::HashSet::new();
                        let Some(mut world) = begin::<W>(&mut rng, &mut report) else { break };
                        report.walks += 1;
                        let (since, failures) = (Instant::now(), report.failures());
                        let mut dead = false;
                        for (n, ev) in walk.iter().enumerate() {
                            report.steps += 1;
                            dead = perform(&mut world, ev, &walk[..=n], &mut rng, &mut flagged, &mut report);
                            if dead {
                                break;
                            }
                        }
                        if !dead {
                            end(&mut world, walk, &mut report);
                        }
                        if !dead && report.samples.is_empty() {
                            report.samples.push(json!({"behaviour": &walk[..walk.len().min(12)], "world": world.describe()}));
                        }
                        std::mem::drop(guarded(move || drop(world)));
                        if report.failures() > failures {
                            wasted += since.elapsed();
                        }
                        if wasted > ENOUGH {
                            break;
                        }
                    }
                    report
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("driver thread")).collect()
    });
    for p in parts {
        report.merge(p);
    }
}

/// Performs one step and records what disagrees; returns whether the walk is over.
fn perform<W: World, H: serde::Serialize>(
    world: &mut W,
    ev: &Value,
    history: H,
    rng: &mut Rng,
    flagged: &mut std::collections::HashSet<String>,
    report: &mut Report,
) -> bool {
    watch::enter(ev);
    let res = guarded(|| world.step(ev, rng));
    watch::leave();
    let fails = match res {
        Ok(Ok(())) => return false,
        Ok(Err(fails)) => fails,
        Err(p) => vec![Fail { sc: None, what: format!("panic: {p}"), fatal: true }],
    };
    let mut dead = false;
    for f in fails {
        dead |= f.fatal;
        let sc = f.sc.unwrap_or_else(|| scope(ev));
        let sc: Vec<String> = sc.into_iter().filter(|p| flagged.insert(p.clone())).collect();
        if !sc.is_empty() {
            report.mismatch(&sc, json!({"what": f.what, "expected": ev, "history": history, "world": world.describe()}));
        }
    }
    dead
}

fn cover_part<W: World>(g: &Graph, seed: u64, part: usize, parts: usize, max_len: usize) -> Report {
    let mut report = Report::default();
    let mut rng = Rng::new(seed);
    let mut taken = vec![true; g.edges.len()];
    let mut left = 0usize;
    // Contiguous blocks of states keep walks short: their edges lie close together.
    let states = g.out.len();
    let mut todo: Vec<Vec<usize>> = vec![Vec::new(); states];
    for s in 0..states {
        if s / 8 % parts == part {
            todo[s] = g.out[s].clone();
            rng.shuffle(&mut todo[s]);
            for &e in &todo[s] {
                taken[e] = false;
                left += 1;
            }
        }
    }
    let mut stuck = 0;
    let mut wasted = Duration::ZERO;
    while left > 0 && stuck < 50 && wasted < ENOUGH {
        report.walks += 1;
        let (since, failures) = (Instant::now(), report.failures());
        let Some(mut world) = begin::<W>(&mut rng, &mut report) else { break };
        let mut at = 0usize;
        let mut history: Vec<&Value> = Vec::new();
        let mut flagged = std::collections::HashSet::new();
        let mut dead = false;
        let before = left;

        'walk: while history.len() < max_len || before == left {
            // Next step(s): an untaken edge here, or a path to the nearest one.
            while matches!(todo[at].last(), Some(&e) if taken[e]) {
                todo[at].pop();
            }
            let path: Vec<usize> = if let Some(&e) = todo[at].last() {
                vec![e]
            } else {
                match nearest(g, at, &mut todo, &taken, &mut rng) {
                    Some(p) => p,
                    None => break 'walk,
                }
            };
            for e in path {
                let edge = &g.edges[e];
                if !taken[e] {
                    taken[e] = true;
                    left -= 1;
                    report.covered += 1;
                }
                history.push(&edge.ev);
                report.steps += 1;
                dead = perform(&mut world, &edge.ev, &history, &mut rng, &mut flagged, &mut report);
                at = edge.to;
                if dead {
                    break 'walk;
                }
            }
        }
        if !dead {
            end(&mut world, &history, &mut report);
        }
        if report.samples.is_empty() {
            let n = history.len().min(12);
            report.samples.push(json!({"walk": &history[..n], "world": world.describe()}));
        }
        std::mem::drop(guarded(move || drop(world)));
        if report.failures() > failures {
            wasted += since.elapsed();
        }
        stuck = if before == left { stuck + 1 } else { 0 };
    }
    report
}

/// A fresh world; a panic on the way there is a mismatch to every property.
fn begin<W: World>(rng: &mut Rng, report: &mut Report) -> Option<W> {
    watch::enter(&json!({"a": "begin", "sc": ["*"]}));
    let res = guarded(|| W::new(rng));
    watch::leave();
    match res {
        Ok(world) => Some(world),
        Err(p) => {
            let what = format!("a server cannot be brought to its initial state: {p}");
            report.mismatch(&["*".to_string()], json!({"what": what, "expected": "-"}));
            None
        }
    }
}

/// What is still to be looked at when a walk is over.
fn end<W: World, H: serde::Serialize>(world: &mut W, history: H, report: &mut Report) {
    let res = guarded(|| world.finish()).unwrap_or_else(|p| Err((vec!["*".into()], format!("panic: {p}"))));
    if let Err((sc, what)) = res {
        report.mismatch(&sc, json!({"what": what, "history": history, "world": world.describe()}));
    }
}

/// Notices steps of the code under test that never return.
pub mod watch {
    use std::sync::{Arc, Mutex};
    use std::time::{Duration, Instant};

    use serde_json::{json, Value};

    struct Entry {
        since: Instant,
        what: Value,
    }
    type Slot = Arc<Mutex<Option<Entry>>>;
    static ALL: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
    thread_local!(static MINE: Slot = {
        let s: Slot = Slot::default();
        ALL.lock().unwrap().push(s.clone());
        s
    });

    pub fn enter(what: &Value) {
        let e = Entry { since: Instant::now(), what: what.clone() };
        MINE.with(|m| *m.lock().unwrap() = Some(e));
    }

    pub fn leave() {
        MINE.with(|m| *m.lock().unwrap() = None);
    }

    /// Writes a report and ends the process when a step takes longer than `limit`.
    pub fn start(limit: Duration, output: String) {
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut hung = Vec::new();
            for s in ALL.lock().unwrap().iter() {
                if let Some(e) = &*s.lock().unwrap() {
                    if e.since.elapsed() > limit {
                        hung.push(json!({"sc": e.what["sc"], "expected": e.what,
                                         "what": format!("hangs: the step did not return within {limit:?}")}));
                    }
                }
            }
            if !hung.is_empty() {
                let mut per = std::collections::BTreeMap::<String, u64>::new();
                for h in &hung {
                    for p in h["sc"].as_array().into_iter().flatten() {
                        *per.entry(p.as_str().unwrap_or("").to_string()).or_default() += 1;
                    }
                }
                let r = json!({"steps": 0, "edges": 0, "covered": 0, "states": 0, "walks": 0, "per_prop": per,
                               "mismatches": hung, "samples": [], "extra": {"hung": true}});
                let _ = std::fs::write(&output, r.to_string());
                std::process::exit(0);
            }
        });
    }
}

fn nearest(g: &Graph, from: usize, todo: &mut [Vec<usize>], taken: &[bool], rng: &mut Rng) -> Option<Vec<usize>> {
    let mut pred: Vec<usize> = vec![usize::MAX; todo.len()];
    let mut queue = VecDeque::from([from]);
    let skip = rng.below(7);
    while let Some(s) = queue.pop_front() {
        while matches!(todo[s].last(), Some(&e) if taken[e]) {
            todo[s].pop();
        }
        if s != from && !todo[s].is_empty() {
            let mut path = Vec::new();
            let mut at = s;
            while at != from {
                let e = pred[at];
                path.push(e);
                at = g.edges[e].from;
            }
            path.reverse();
            return Some(path);
        }
        let n = g.out[s].len();
        for i in 0..n {
            let e = g.out[s][(i + skip) % n];
            let t = g.edges[e].to;
            if t != from && pred[t] == usize::MAX {
                pred[t] = e;
                queue.push_back(t);
            }
        }
    }
    None
}

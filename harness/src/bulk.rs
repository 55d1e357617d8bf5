//! Replays the transitions of `Bulk.tla` on the real `LspService`, a group being many requests.

use serde_json::{json, Value};
use tower::Service;
use tower_lsp::jsonrpc::{Id, Request, Response};
use tower_lsp::{ClientSocket, ExitedError, LspService};

use crate::backend::*;
use crate::exec::{now, Rng, Task};
use crate::graph::{Fail, World};

type Answer = Result<Option<Response>, ExitedError>;

struct Flight {
    task: Task<Answer>,
    id: Id,
    tag: i64,
    ok: Value,
}

#[derive(Default)]
struct Group {
    ids: Vec<Id>,
    cur: Vec<Flight>,
    polled: bool,
    /// Cancelled generations, and whether they had been polled before.
    old: Vec<(bool, Vec<Flight>)>,
}

pub struct Bulk {
    sh: Shared,
    service: LspService<Backend>,
    _socket: ClientSocket,
    groups: [Group; 2],
    tag: i64,
}

const SIZES: [usize; 12] = [1, 2, 3, 9, 33, 64, 65, 100, 128, 255, 256, 600];

fn call(service: &mut LspService<Backend>, req: Request) -> Task<Answer> {
    let _ = now(std::future::poll_fn(|cx| service.poll_ready(cx)));
    Task::new(service.call(req))
}

fn outcome(f: &mut Flight) -> String {
    match f.task.settle() {
        std::task::Poll::Pending => "pending".into(),
        std::task::Poll::Ready(Err(_)) => "exited".into(),
        std::task::Poll::Ready(Ok(res)) => classify(&res, Some(&f.id), f.tag, Some(&f.ok)),
    }
}

impl Bulk {
    fn send(&mut self, g: usize, rng: &mut Rng) -> Vec<Flight> {
        let ids = self.groups[g].ids.clone();
        ids.into_iter()
            .map(|id| {
                self.tag += if self.tag % 11 == 10 { 2 } else { 1 };
                let (m, p, ok) = rng.pick(&request_forms(self.tag)).clone();
                let task = call(&mut self.service, request(m, Some(&id), Some(p)));
                Flight { task, id, tag: self.tag, ok }
            })
            .collect()
    }

    /// Takes the answers of all given requests, which have to be of the given kinds.
    fn expect(&self, flights: &mut [Flight], want: &[&str], rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let mut order: Vec<usize> = (0..flights.len()).collect();
        if rng.below(2) == 0 {
            rng.shuffle(&mut order);
        }
        for (n, i) in order.into_iter().enumerate() {
            let got = outcome(&mut flights[i]);
            if !want.contains(&got.as_str()) {
                let f = Fail::from(format!("request {} of {} with id {}: {got}, expected {want:?}", n + 1, flights.len(), flights[i].id));
                return Err(vec![Fail { fatal: true, ..f }]);
            }
        }
        Ok(())
    }

    fn woken(flights: &[Flight]) -> Result<(), Vec<Fail>> {
        match flights.iter().position(|f| !f.task.flag.get()) {
            Some(i) => Err(vec![Fail::from(format!("request {} of {} has not been woken", i + 1, flights.len()))]),
            None => Ok(()),
        }
    }
}

impl World for Bulk {
    fn new(rng: &mut Rng) -> Self {
        let sh = Shared::default();
        let (mut service, socket, _) = service(&sh);
        sh.release(0, Out::Ok);
        let init = request("initialize", Some(&Id::Number(0)), Some(init_params(0)));
        now(call(&mut service, init).fut).expect("initialize");
        let a = *rng.pick(&SIZES);
        // Totals that are powers of two make counters of handlers come round.
        let b = match rng.below(1000) {
            0 => 65_536 - a,
            1..=99 => 256 - a % 256,
            _ => *rng.pick(&SIZES),
        };
        let base = *rng.pick(&[0, 1, -50, i32::MAX as i64 - 600, i32::MIN as i64]);
        let number = |i: usize| Id::Number((base + i as i64).min(i32::MAX as i64));
        let string = |i: usize| Id::String((base + i as i64).to_string());
        let mixed = rng.below(2) == 0;
        let mut groups = [Group::default(), Group::default()];
        for (g, n) in [a, b].into_iter().enumerate() {
            for i in 0..n {
                let text = if mixed { (i + g) % 2 == 0 } else { g == 0 };
                // Numbers end at i32::MAX, strings do not.
                let text = text || base + i as i64 > i32::MAX as i64;
                groups[g].ids.push(if text { string(i) } else { number(i) });
            }
            if base > 1 && n > 600 {
                groups[g].ids = (0..n).map(|i| Id::String(format!("{g}/{i}"))).collect();
            }
        }
        Bulk { sh, service, _socket: socket, groups, tag: 0 }
    }

    fn step(&mut self, ev: &Value, rng: &mut Rng) -> Result<(), Vec<Fail>> {
        let g = if ev["g"] == "b" { 1 } else { 0 };
        let resp = ev["resp"].as_str().unwrap();
        match ev["a"].as_str().unwrap() {
            "start" | "dup" => {
                let mut flights = self.send(g, rng);
                if resp != "none" {
                    self.expect(&mut flights, &[resp], rng)?;
                } else {
                    let polled = rng.below(4) > 0;
                    if polled {
                        self.expect(&mut flights, &["pending"], rng)?;
                    }
                    self.groups[g].cur = flights;
                    self.groups[g].polled = polled;
                }
            }
            "finish" => {
                let mut flights = std::mem::take(&mut self.groups[g].cur);
                let out = *rng.pick(&[Out::Ok, Out::Ok, Out::Err]);
                for f in &flights {
                    self.sh.release(f.tag, out);
                }
                if self.groups[g].polled {
                    Bulk::woken(&flights)?;
                }
                self.expect(&mut flights, &[if out == Out::Ok { "ok" } else { "err" }], rng)?;
            }
            "abandon" => {
                let mut flights = std::mem::take(&mut self.groups[g].cur);
                if rng.below(2) == 0 {
                    flights.reverse();
                }
            }
            "cancel" => {
                let mut ids = self.groups[g].ids.clone();
                if rng.below(2) == 0 {
                    rng.shuffle(&mut ids);
                }
                for id in ids {
                    let req = request("$/cancelRequest", None, Some(json!({"id": id})));
                    match now(call(&mut self.service, req).fut) {
                        Some(Ok(None)) => {}
                        other => return Err(vec![Fail::from(format!("cancellation answered with {other:?}"))]),
                    }
                }
                if ev["woken"] == true {
                    self.cut(g)?;
                }
            }
            "collect" => {
                for (_, mut flights) in std::mem::take(&mut self.groups[g].old) {
                    self.expect(&mut flights, &[resp], rng)?;
                }
            }
            "forget" => self.groups[g].old.clear(),
            "shutdown" => {
                self.tag += 1;
                self.sh.lock().shutdown_tag = self.tag;
                self.sh.release(self.tag, Out::Ok);
                let req = request("shutdown", Some(&Id::String("shutdown".into())), None);
                match now(call(&mut self.service, req).fut) {
                    Some(Ok(Some(r))) if r.result() == Some(&Value::Null) => {}
                    other => return Err(vec![Fail::from(format!("shutdown answered with {other:?}"))]),
                }
            }
            "exit" => {
                match now(call(&mut self.service, request("exit", None, None)).fut) {
                    Some(Ok(None)) => {}
                    other => return Err(vec![Fail::from(format!("exit answered with {other:?}"))]),
                }
                for g in 0..2 {
                    if !self.groups[g].cur.is_empty() {
                        self.cut(g)?;
                    }
                }
            }
            other => panic!("unknown event {other}"),
        }
        // Handlers that have been cancelled may still be around until their responses are taken.
        let running = self.sh.lock().running as usize;
        let (mut low, mut high) = (0, 0);
        for g in &self.groups {
            low += if g.polled { g.cur.len() } else { 0 };
            high += g.cur.len() + g.old.iter().map(|(_, o)| o.len()).sum::<usize>();
        }
        if running < low || running > high {
            return Err(vec![Fail::from(format!("{running} handlers are running, expected {low} to {high}"))]);
        }
        Ok(())
    }

    fn describe(&self) -> Value {
        json!({"sizes": [self.groups[0].ids.len(), self.groups[1].ids.len()],
               "first": [format!("{:?}", self.groups[0].ids.first()), format!("{:?}", self.groups[1].ids.first())]})
    }
}

impl Bulk {
    /// The requests of a group have been cancelled.
    fn cut(&mut self, g: usize) -> Result<(), Vec<Fail>> {
        let flights = std::mem::take(&mut self.groups[g].cur);
        let polled = self.groups[g].polled;
        let res = if polled { Bulk::woken(&flights) } else { Ok(()) };
        self.groups[g].old.push((polled, flights));
        res
    }
}

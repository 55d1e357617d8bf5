//! Real threads: a blocking executor with deadlines, and a log shared by all of them.

use std::future::Future;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use serde_json::Value;

#[derive(Default)]
struct Parker {
    woken: Mutex<bool>,
    cond: Condvar,
}

impl Wake for Parker {
    fn wake(self: Arc<Self>) {
        *self.woken.lock().unwrap() = true;
        self.cond.notify_one();
    }
}

/// Runs a future on this thread until it is ready or the time is over.
pub fn block_on<F: Future + Unpin>(fut: &mut F, limit: Duration) -> Option<F::Output> {
    let parker = Arc::new(Parker::default());
    let waker = Waker::from(parker.clone());
    let mut cx = Context::from_waker(&waker);
    let start = Instant::now();
    loop {
        if let Poll::Ready(v) = std::pin::Pin::new(&mut *fut).poll(&mut cx) {
            return Some(v);
        }
        // Always awake, and yet never ready.
        if start.elapsed() > limit {
            return None;
        }
        let mut woken = parker.woken.lock().unwrap();
        while !*woken {
            let left = limit.checked_sub(start.elapsed())?;
            woken = parker.cond.wait_timeout(woken, left).unwrap().0;
        }
        *woken = false;
    }
}

/// What happened, in an order that all threads agree on.
#[derive(Clone, Default)]
pub struct Log(Arc<Mutex<Vec<Value>>>);

impl Log {
    pub fn add(&self, v: Value) {
        self.0.lock().unwrap().push(v);
    }
    pub fn take(&self) -> Vec<Value> {
        std::mem::take(&mut self.0.lock().unwrap())
    }
}

/// Sleeps or spins for a random short while, or not at all.
pub fn dither(rng: &mut crate::exec::Rng) {
    match rng.below(8) {
        0 => std::thread::sleep(Duration::from_micros(rng.below(300) as u64)),
        1 | 2 => std::thread::yield_now(),
        3 => {
            for _ in 0..rng.below(2000) {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

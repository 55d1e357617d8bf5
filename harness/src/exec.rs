//! A minimal executor that makes wake-ups observable.

use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// Remembers whether it has been woken.
#[derive(Default)]
pub struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

impl Flag {
    pub fn take(&self) -> bool {
        self.0.swap(false, Ordering::SeqCst)
    }
    pub fn get(&self) -> bool {
        self.0.load(Ordering::SeqCst)
    }
}

pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;

/// A future together with the flag its waker sets.
pub struct Task<T, F: ?Sized + Future<Output = T> = dyn Future<Output = T> + Send> {
    pub fut: Pin<Box<F>>,
    pub flag: Arc<Flag>,
    pub polled: bool,
    turns: u32,
}

/// A server that is run on the thread that has created it.
pub type Serving = Task<(), dyn Future<Output = ()>>;

impl<T> Task<T> {
    pub fn new(fut: impl Future<Output = T> + Send + 'static) -> Self {
        Task { fut: Box::pin(fut), flag: Arc::default(), polled: false, turns: 0 }
    }
}

impl Serving {
    pub fn serving(fut: impl Future<Output = ()> + 'static) -> Self {
        Task { fut: Box::pin(fut), flag: Arc::default(), polled: false, turns: 0 }
    }
}

impl<T, F: ?Sized + Future<Output = T>> Task<T, F> {
    /// Polls until the future is ready or has not been woken since its last poll.
    ///
    /// As executors do, this comes with another waker now and then, and once more than needed.
    pub fn settle(&mut self) -> Poll<T> {
        self.turns = self.turns.wrapping_add(1);
        if self.turns % 2 == 0 {
            self.flag = Arc::default();
        }
        let mut once_more = self.turns % 3 == 0;
        let waker = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&waker);
        self.polled = true;
        for _ in 0..100_000 {
            self.flag.take();
            if let Poll::Ready(x) = self.fut.as_mut().poll(&mut cx) {
                return Poll::Ready(x);
            }
            if !self.flag.get() && !std::mem::take(&mut once_more) {
                return Poll::Pending;
            }
        }
        panic!("never comes to rest: woken after every poll though nothing happens")
    }
}

/// Runs a future that must not have to wait for anything.
pub fn now<T>(fut: impl Future<Output = T>) -> Option<T> {
    let flag = Arc::new(Flag::default());
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut fut = std::pin::pin!(fut);
    for _ in 0..1_000_000 {
        flag.take();
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Some(x);
        }
        if !flag.get() {
            return None;
        }
    }
    panic!("never comes to rest: woken after every poll though nothing happens")
}

/// Runs `f`, turning a panic into an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}

/// xorshift*, seeded explicitly so that every run is reproducible.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 >> 12;
        self.0 ^= self.0 << 25;
        self.0 ^= self.0 >> 27;
        self.0.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            xs.swap(i, self.below(i + 1));
        }
    }
}

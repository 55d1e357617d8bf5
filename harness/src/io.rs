//! Both ends of the transport, under the control of a test.

use std::collections::VecDeque;
use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::sync::{Arc, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};

use serde_json::Value;

use crate::exec::Rng;

/// What the write side accepts.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WriteMode {
    /// Everything at once.
    Open,
    /// A few bytes per call, sometimes nothing until polled again.
    Trickle,
    /// Nothing for now.
    Blocked,
    /// Fails.
    Broken,
    /// Accepts zero bytes, like a full or closed pipe.
    Zero,
}

pub struct PipeState {
    pub input: VecDeque<u8>,
    pub eof: bool,
    pub read_error: bool,
    pub max_read: usize,
    pub read_waker: Option<Waker>,
    pub output: Vec<u8>,
    pub mode: WriteMode,
    pub write_waker: Option<Waker>,
    pub write_failed: bool,
    /// How many bytes the output holds before it is drained.
    pub cap: usize,
    /// Whether bytes reach `output` only when they are flushed, or when there are many.
    pub buffered: bool,
    hidden: Vec<u8>,
    rng: Rng,
}

/// How much a buffered write side keeps to itself.
const HIDE: usize = 4096;

impl PipeState {
    fn put(&mut self, bytes: &[u8]) {
        if self.buffered {
            self.hidden.extend_from_slice(bytes);
            if self.hidden.len() > HIDE {
                self.show(usize::MAX);
            }
        } else {
            self.output.extend_from_slice(bytes);
        }
    }

    fn show(&mut self, n: usize) {
        let n = n.min(self.hidden.len());
        self.output.extend(self.hidden.drain(..n));
    }
}

#[derive(Clone)]
pub struct Pipe(pub Arc<Mutex<PipeState>>);

impl Pipe {
    pub fn new(rng: &mut Rng) -> Self {
        Pipe(Arc::new(Mutex::new(PipeState {
            input: VecDeque::new(),
            eof: false,
            read_error: false,
            max_read: usize::MAX,
            read_waker: None,
            output: Vec::new(),
            mode: WriteMode::Open,
            write_waker: None,
            write_failed: false,
            cap: usize::MAX,
            buffered: rng.below(2) == 0,
            hidden: Vec::new(),
            rng: Rng::new(rng.next()),
        })))
    }

    pub fn lock(&self) -> MutexGuard<'_, PipeState> {
        self.0.lock().unwrap_or_else(|e| e.into_inner())
    }

    pub fn feed(&self, bytes: &[u8]) {
        let w = {
            let mut s = self.lock();
            s.input.extend(bytes);
            s.read_waker.take()
        };
        w.into_iter().for_each(Waker::wake);
    }

    pub fn end(&self, with_error: bool) {
        let w = {
            let mut s = self.lock();
            s.eof = true;
            s.read_error = with_error;
            s.read_waker.take()
        };
        w.into_iter().for_each(Waker::wake);
    }

    pub fn set_mode(&self, mode: WriteMode) {
        let w = {
            let mut s = self.lock();
            s.mode = mode;
            s.write_waker.take()
        };
        w.into_iter().for_each(Waker::wake);
    }

    /// Takes what has been written so far out of the pipe.
    pub fn drain(&self) -> Vec<u8> {
        let (bytes, w) = {
            let mut s = self.lock();
            (std::mem::take(&mut s.output), s.write_waker.take())
        };
        w.into_iter().for_each(Waker::wake);
        bytes
    }

    fn do_read(&self, cx: &mut Context<'_>, room: usize) -> Poll<Result<Vec<u8>>> {
        let mut s = self.lock();
        if s.input.is_empty() {
            if s.read_error {
                s.read_error = false;
                return Poll::Ready(Err(Error::new(ErrorKind::Other, "read failed")));
            }
            if s.eof {
                return Poll::Ready(Ok(Vec::new()));
            }
            s.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = room.min(s.input.len()).min(s.max_read);
        Poll::Ready(Ok(s.input.drain(..n).collect()))
    }

    fn do_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        let mut s = self.lock();
        if s.output.len() + s.hidden.len() >= s.cap {
            s.show(usize::MAX);
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        match s.mode {
            WriteMode::Open => {
                let buf = &buf[..buf.len().min(s.cap - s.output.len() - s.hidden.len())];
                s.put(buf);
                Poll::Ready(Ok(buf.len()))
            }
            WriteMode::Trickle => {
                if s.rng.below(4) == 0 {
                    cx.waker().wake_by_ref();
                    return Poll::Pending;
                }
                let n = (1 + s.rng.below(7)).min(buf.len());
                s.put(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            WriteMode::Blocked => {
                s.write_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            WriteMode::Broken => {
                s.write_failed = true;
                Poll::Ready(Err(Error::new(ErrorKind::BrokenPipe, "write failed")))
            }
            WriteMode::Zero => {
                s.write_failed = true;
                Poll::Ready(Ok(0))
            }
        }
    }

    fn do_flush(&self, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let mut s = self.lock();
        let mode = s.mode;
        match mode {
            WriteMode::Blocked => {
                s.write_waker = Some(cx.waker().clone());
                Poll::Pending
            }
            WriteMode::Broken => Poll::Ready(Err(Error::new(ErrorKind::BrokenPipe, "flush failed"))),
            WriteMode::Trickle if !s.hidden.is_empty() && s.rng.below(3) == 0 => {
                let n = s.rng.below(60);
                s.show(n);
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            _ => {
                s.show(usize::MAX);
                Poll::Ready(Ok(()))
            }
        }
    }
}

pub struct Reader(pub Pipe);
pub struct Writer(pub Pipe);

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<Result<()>> {
        self.0.do_read(cx, buf.remaining()).map_ok(|b| buf.put_slice(&b))
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncWrite for Writer {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.0.do_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.do_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.do_flush(cx)
    }
}

#[cfg(all(feature = "rt-agnostic", not(feature = "rt-tokio")))]
impl futures::io::AsyncRead for Reader {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        self.0.do_read(cx, buf.len()).map_ok(|b| {
            buf[..b.len()].copy_from_slice(&b);
            b.len()
        })
    }
}

#[cfg(all(feature = "rt-agnostic", not(feature = "rt-tokio")))]
impl futures::io::AsyncWrite for Writer {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        self.0.do_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.do_flush(cx)
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        self.0.do_flush(cx)
    }
}

/// Splits written bytes into messages with an independent parser; the rest is a message that has
/// not been written completely.
pub fn parse_output(bytes: &[u8]) -> std::result::Result<(Vec<Value>, usize), String> {
    let mut res = Vec::new();
    let mut at = 0;
    while at < bytes.len() {
        let rest = &bytes[at..];
        let Some(head) = rest.windows(4).position(|w| w == b"\r\n\r\n") else {
            let want = b"Content-Length: ";
            let n = rest.len().min(want.len());
            let ok = rest[..n] == want[..n]
                && rest[n..].iter().all(|b| b.is_ascii_digit() || *b == b'\r' || *b == b'\n');
            return if ok || rest.starts_with(b"Content-Type") {
                Ok((res, at))
            } else {
                Err(format!("garbage in the output: {:?}", String::from_utf8_lossy(&rest[..rest.len().min(200)])))
            };
        };
        let header = std::str::from_utf8(&rest[..head]).map_err(|e| e.to_string())?;
        let mut len = None;
        for line in header.split("\r\n") {
            match line.split_once(": ") {
                Some(("Content-Length", n)) => {
                    len = Some(n.parse::<usize>().map_err(|_| format!("bad length {n:?} in the output"))?)
                }
                Some(("Content-Type", _)) => {}
                _ => return Err(format!("bad header in the output: {line:?}")),
            }
        }
        let len = len.ok_or("no Content-Length in the output")?;
        if rest.len() < head + 4 + len {
            return Ok((res, at));
        }
        let body = &rest[head + 4..head + 4 + len];
        let text = std::str::from_utf8(body).map_err(|e| format!("output is not UTF-8: {e}"))?;
        let v: Value = serde_json::from_str(text).map_err(|e| format!("output body is not JSON: {e}: {text:?}"))?;
        if v["jsonrpc"] != "2.0" {
            return Err(format!("output message without version: {text}"));
        }
        res.push(v);
        at += head + 4 + len;
    }
    Ok((res, at))
}

pub fn frame(body: &[u8]) -> Vec<u8> {
    let mut v = format!("Content-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}

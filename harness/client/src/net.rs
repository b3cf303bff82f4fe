//! An in-memory transport whose every behaviour is scripted, and the log of what crosses it.
use serde_json::{json, Value};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tmi::client::conn::verif;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub fn kind(name: &str) -> io::ErrorKind {
  use io::ErrorKind::*;
  for k in [
    NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse,
    AddrNotAvailable, BrokenPipe, AlreadyExists, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Unsupported,
    UnexpectedEof, OutOfMemory, Other, HostUnreachable, NetworkUnreachable, NetworkDown, StorageFull,
  ] {
    if format!("{k:?}") == name {
      return k;
    }
  }
  panic!("unknown error kind {name}")
}

#[derive(Default)]
struct Conn {
  chunks: VecDeque<Vec<u8>>,
  end: Option<Option<io::ErrorKind>>,
  reader: Option<Waker>,
  win: i64,
  werr: Option<String>,
  writer: Option<Waker>,
  gated: bool,
  ferr: Option<io::ErrorKind>,
  out: Vec<u8>,
}

#[derive(Default)]
pub struct Net {
  log: Vec<Value>,
  conns: Vec<Conn>,
  /// The pending attempt to open: its number, and its result once there is one.
  opening: Option<(usize, Option<io::Result<usize>>)>,
  opens: usize,
  opener: Option<Waker>,
}

#[derive(Clone)]
pub struct World(Arc<Mutex<Net>>);

impl Net {
  pub fn world() -> World {
    World(Arc::new(Mutex::new(Net::default())))
  }

  fn conn(&mut self, c: usize) -> Option<(usize, &mut Conn)> {
    let n = if c == 0 { self.conns.len() } else { c };
    self.conns.get_mut(n.wrapping_sub(1)).map(|conn| (n, conn))
  }
}

fn wake(w: &mut Option<Waker>) {
  if let Some(w) = w.take() {
    w.wake()
  }
}

impl World {
  pub fn log(&self, v: Value) {
    self.0.lock().unwrap().log.push(v)
  }
  pub fn take_log(&self) -> Vec<Value> {
    std::mem::take(&mut self.0.lock().unwrap().log)
  }
  pub fn written(&self) -> usize {
    self.0.lock().unwrap().conns.last().map_or(0, |c| c.out.len())
  }
  pub fn tail(&self, at: usize) -> Vec<u8> {
    self.0.lock().unwrap().conns.last().map_or(vec![], |c| c.out.get(at..).unwrap_or(&[]).to_vec())
  }
  /// The login of a handshake, and whether all of it was written.
  pub fn nick(&self) -> (Vec<u8>, bool) {
    let net = self.0.lock().unwrap();
    let mut best = (vec![], false);
    for c in &net.conns {
      let find = |s: &[u8], what: &[u8]| s.windows(what.len()).position(|w| w == what);
      let Some(at) = find(&c.out, b"\r\nNICK ") else { continue };
      let rest = &c.out[at + 7..];
      match find(rest, b"\r\n") {
        Some(end) => return (rest[..end].to_vec(), true),
        None if rest.len() > best.0.len() => best.0 = rest.to_vec(),
        None => {}
      }
    }
    // a CR of which the LF is missing
    if best.0.last() == Some(&b'\r') {
      best.0.pop();
    }
    best
  }

  pub fn install(&self) {
    let w = self.clone();
    verif::set_opener(Box::new(move || {
      let mut net = w.0.lock().unwrap();
      net.log.push(json!({"e": "open"}));
      net.opens += 1;
      let id = net.opens;
      net.opening = Some((id, None));
      Box::pin(Opening { world: w.clone(), id })
    }));
  }

  pub fn open_result(&self, k: &str) {
    let mut net = self.0.lock().unwrap();
    let net = &mut *net;
    let Some((_, result @ None)) = &mut net.opening else { return };
    *result = Some(if k == "ok" {
      net.conns.push(Conn { win: -1, ..Conn::default() });
      Ok(net.conns.len())
    } else {
      Err(kind(k).into())
    });
    net.log.push(json!({"e": "openres", "k": k}));
    wake(&mut net.opener);
  }

  fn env(&self, c: usize, f: impl FnOnce(&mut Conn) -> Option<Value>) {
    let mut net = self.0.lock().unwrap();
    let Some((n, conn)) = net.conn(c) else { return };
    if let Some(mut v) = f(conn) {
      v["c"] = json!(n);
      net.log.push(v);
    }
  }
  pub fn rx(&self, c: usize, d: Vec<u8>) {
    self.env(c, |conn| {
      if conn.end.is_some() || d.is_empty() {
        return None;
      }
      let v = json!({"e": "rx", "d": d});
      conn.chunks.push_back(d);
      wake(&mut conn.reader);
      Some(v)
    })
  }
  pub fn end(&self, c: usize, k: &str) {
    self.env(c, |conn| {
      if conn.end.is_some() {
        return None;
      }
      conn.end = Some(if k.is_empty() { None } else { Some(kind(k)) });
      wake(&mut conn.reader);
      Some(if k.is_empty() { json!({"e": "eof"}) } else { json!({"e": "rerr", "k": k}) })
    })
  }
  pub fn win(&self, c: usize, n: i64) {
    self.env(c, |conn| {
      if conn.werr.is_some() {
        return None;
      }
      conn.win = n;
      wake(&mut conn.writer);
      Some(json!({"e": "win", "n": n}))
    })
  }
  pub fn werr(&self, c: usize, k: &str) {
    self.env(c, |conn| {
      conn.werr = Some(k.to_string());
      if conn.win == -1 {
        conn.win = 0;
      }
      wake(&mut conn.writer);
      Some(json!({"e": "werr", "k": k}))
    })
  }
  pub fn gate(&self, c: usize, open: bool) {
    self.env(c, |conn| {
      conn.gated = !open;
      wake(&mut conn.writer);
      Some(json!({"e": "gate", "open": open}))
    })
  }
  pub fn ferr(&self, c: usize, k: &str) {
    self.env(c, |conn| {
      conn.ferr = Some(kind(k));
      wake(&mut conn.writer);
      Some(json!({"e": "ferr", "k": k}))
    })
  }
}

struct Opening {
  world: World,
  id: usize,
}

impl Future for Opening {
  type Output = io::Result<verif::Stream>;
  fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    let mut net = self.world.0.lock().unwrap();
    let net = &mut *net;
    match &mut net.opening {
      Some((id, result)) if *id == self.id => match result.take() {
        None => {
          net.opener = Some(cx.waker().clone());
          Poll::Pending
        }
        Some(r) => {
          net.opening = None;
          Poll::Ready(r.map(|n| Box::new(Pipe { world: self.world.clone(), n }) as verif::Stream))
        }
      },
      _ => Poll::Pending,
    }
  }
}

impl Drop for Opening {
  fn drop(&mut self) {
    let mut net = self.world.0.lock().unwrap();
    if matches!(&net.opening, Some((id, _)) if *id == self.id) {
      net.opening = None;
    }
  }
}

struct Pipe {
  world: World,
  n: usize,
}

impl AsyncRead for Pipe {
  fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
    let mut net = self.world.0.lock().unwrap();
    let conn = &mut net.conns[self.n - 1];
    if let Some(chunk) = conn.chunks.front_mut() {
      let n = chunk.len().min(buf.remaining());
      buf.put_slice(&chunk[..n]);
      chunk.drain(..n);
      if chunk.is_empty() {
        conn.chunks.pop_front();
      }
      return Poll::Ready(Ok(()));
    }
    match &mut conn.end {
      Some(Some(kind)) => {
        let e = io::Error::from(*kind);
        conn.end = Some(None);
        Poll::Ready(Err(e))
      }
      Some(None) => Poll::Ready(Ok(())),
      None => {
        conn.reader = Some(cx.waker().clone());
        Poll::Pending
      }
    }
  }
}

impl AsyncWrite for Pipe {
  fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
    let mut net = self.world.0.lock().unwrap();
    let conn = &mut net.conns[self.n - 1];
    if data.is_empty() {
      return Poll::Ready(Ok(0));
    }
    if conn.win != 0 {
      let n = if conn.win < 0 { data.len() } else { data.len().min(conn.win as usize) };
      if conn.win > 0 {
        conn.win -= n as i64;
      }
      conn.out.extend_from_slice(&data[..n]);
      net.log.push(json!({"e": "w", "c": self.n, "d": &data[..n]}));
      return Poll::Ready(Ok(n));
    }
    match conn.werr.clone() {
      Some(k) => {
        net.log.push(json!({"e": "we", "c": self.n, "k": k}));
        assert!(net.log.len() < 100_000, "no end of writing");
        Poll::Ready(if k == "WriteZero" { Ok(0) } else { Err(kind(&k).into()) })
      }
      None => {
        conn.writer = Some(cx.waker().clone());
        Poll::Pending
      }
    }
  }

  fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
    let mut net = self.world.0.lock().unwrap();
    let conn = &mut net.conns[self.n - 1];
    if let Some(k) = conn.ferr {
      net.log.push(json!({"e": "fe", "c": self.n, "k": format!("{k:?}")}));
      return Poll::Ready(Err(k.into()));
    }
    if conn.gated {
      conn.writer = Some(cx.waker().clone());
      return Poll::Pending;
    }
    net.log.push(json!({"e": "f", "c": self.n}));
    Poll::Ready(Ok(()))
  }

  fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
    Poll::Ready(Ok(()))
  }
}

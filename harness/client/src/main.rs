//! Runs scripts of environment events against the real client and records what happens at its boundary
//! (the vocabulary of spec/Client.tla).  One JSON script per line in, one JSON trace per line out.
mod logs;
mod net;

use net::{Net, World};
use serde_json::{json, Map, Value};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use tmi::client::read::RecvError;
use tmi::client::write::SendError;
use tmi::client::{Backoff, Client, ConnectError, Credentials, ReconnectError};

/// What an operation returned: k, io, d, disc.
pub struct Ret {
  k: String,
  io: String,
  d: Vec<u8>,
  disc: bool,
  client: Option<Box<Client>>,
}

fn ret(k: &str) -> Ret {
  Ret { k: k.into(), io: String::new(), d: vec![], disc: false, client: None }
}
fn ret_io(k: &str, e: &std::io::Error) -> Ret {
  Ret { io: format!("{:?}", e.kind()), ..ret(k) }
}
fn ret_text(k: &str, d: &str) -> Ret {
  Ret { d: d.as_bytes().to_vec(), ..ret(k) }
}

fn show_error(e: &dyn std::error::Error) {
  logs::note("error display", &format!("{e} {e:#}"));
  logs::note("error debug", &format!("{e:?} {e:#?}"));
  let mut source = e.source();
  while let Some(s) = source {
    logs::note("error source", &format!("{s} {s:?}"));
    source = s.source();
  }
}

fn recv_error(e: &RecvError) -> Ret {
  match e {
    RecvError::Io(e) => ret_io("Io", e),
    RecvError::Parse(s) => ret_text("Parse", s),
    RecvError::StreamClosed => ret("Closed"),
  }
}
fn connect_error(e: &ConnectError) -> Ret {
  match e {
    ConnectError::Read(e) => {
      let r = recv_error(e);
      Ret { k: format!("Read.{}", r.k), ..r }
    }
    ConnectError::Io(e) => ret_io("Io", e),
    ConnectError::Dns(_) => ret("Dns"),
    ConnectError::Tls(_) => ret("Tls"),
    ConnectError::Open(tmi::client::conn::OpenStreamError::Io(e)) => ret_io("Open", e),
    ConnectError::Timeout => ret("Timeout"),
    ConnectError::Welcome(m) => ret_text("Welcome", m.raw()),
    ConnectError::Auth => ret("Auth"),
    ConnectError::Notice(m) => ret_text("Notice", m.raw()),
  }
}
fn send_result(r: Result<(), SendError>) -> Ret {
  match r {
    Ok(()) => ret("ok"),
    Err(e) => {
      show_error(&e);
      match &e {
        SendError::Io(e) => ret_io("Io", e),
        SendError::StreamClosed => ret("Closed"),
        SendError::InvalidMessage(_) => ret("Invalid"),
      }
    }
  }
}
fn connect_result(r: Result<Client, ConnectError>) -> Ret {
  match r {
    Ok(c) => Ret { client: Some(Box::new(c)), ..ret("ok") },
    Err(e) => {
      show_error(&e);
      connect_error(&e)
    }
  }
}

/// What a type says of itself, if it says anything (the less specific of two methods is found through one more reference).
struct Maybe<'a, T>(&'a T);
trait Says {
  fn says(&self) -> String;
}
trait Mute {
  fn says(&self) -> String {
    String::new()
  }
}
impl<T: std::fmt::Debug> Says for Maybe<'_, T> {
  fn says(&self) -> String {
    format!("{:?} {:#?}", self.0, self.0)
  }
}
impl<T> Mute for &Maybe<'_, T> {}
macro_rules! says {
  ($place:expr, $v:expr) => {{
    #[allow(unused_imports)]
    use {Mute as _, Says as _};
    logs::note($place, &(&Maybe($v)).says())
  }};
}

/// Numbers which are too large for TLC and as good as infinite are all the same in a trace.
const HUGE: u64 = 1_000_000_000;

type Op = Pin<Box<dyn Future<Output = Ret>>>;

struct Flag(AtomicBool);
impl Wake for Flag {
  fn wake(self: Arc<Self>) {
    self.0.store(true, Ordering::SeqCst)
  }
}

fn bytes(s: &str) -> Value {
  json!(s.as_bytes())
}
fn text<'a>(v: &'a Value, field: &str) -> &'a str {
  v[field].as_str().unwrap_or("")
}
fn opt_text(v: &Value, field: &str) -> Option<String> {
  v[field].get(0).map(|x| x.as_str().unwrap().to_string())
}
fn opt_bytes(v: Option<&str>) -> Value {
  match v {
    Some(s) => json!([s.as_bytes()]),
    None => json!([]),
  }
}

struct Run {
  net: World,
  client: Option<Box<Client>>,
  op: Option<(String, Op)>,
  flag: Arc<Flag>,
  /// (operation, nonce, line) of the pending ping or pong
  echo: Option<(String, Vec<Option<String>>, String, usize)>,
  broken: bool,
}

impl Run {
  fn log(&self, v: Value) {
    self.net.log(v)
  }

  /// The client, for an operation.  It outlives the operation: `op` is dropped before `client`.
  fn borrow(&mut self) -> Option<&'static mut Client> {
    let c: *mut Client = &mut **self.client.as_mut()?;
    Some(unsafe { &mut *c })
  }

  fn cfg(&self) {
    let Some(c) = &self.client else { return };
    let whole: &Client = c;
    says!("client debug", whole);
    let c = c.config();
    logs::note("config debug", &format!("{c:?} {c:#?}"));
    let b = c.backoff;
    let ms = |d: Duration| {
      let v = d.as_millis() as u64;
      if Duration::from_millis(v) == d { v.min(HUGE) as i64 } else { -1 }
    };
    let cr = self.client.as_ref().unwrap().credentials();
    logs::note("credentials debug", &format!("{cr:?} {cr:#?} {:?}", cr.clone()));
    let same = cr.login() == c.credentials.login
      && cr.token() == c.credentials.token.as_deref()
      && cr.is_anon() == c.credentials.token.is_none();
    self.log(json!({"e": "cfg", "login": bytes(if same { cr.login() } else { "inconsistent" }), "token": opt_bytes(cr.token()),
      "timeout": ms(c.timeout),
      "tries": b.max_tries.map(|t| json!([t.min(HUGE)])).unwrap_or(json!([])), "init": ms(b.initial_delay),
      "mult": (b.delay_multiplier as u64).min(HUGE), "max": ms(b.max_delay)}));
  }

  fn connect(&mut self, how: &Value) -> Op {
    if how["via"] == "anonymous" {
      return Box::pin(async { connect_result(Client::anonymous().await) });
    }
    let mut b = Client::builder();
    for call in how["calls"].as_array().unwrap() {
      b = match text(call, "set") {
        "credentials" => {
          let login = text(call, "login");
          let c = match opt_text(call, "token") {
            Some(t) => Credentials::new(login, t),
            None => Credentials { login: login.into(), token: None },
          };
          logs::note("credentials debug", &format!("{c:?} {c:#?} {:?}", Some(&c)));
          b.credentials(c)
        }
        "timeout" => b.timeout(Duration::from_millis(call["timeout"].as_u64().unwrap())),
        _ => b.backoff(Backoff {
          max_tries: call["tries"].get(0).map(|v| v.as_u64().unwrap()),
          initial_delay: Duration::from_millis(call["init"].as_u64().unwrap()),
          delay_multiplier: call["mult"].as_u64().unwrap() as u32,
          max_delay: Duration::from_millis(call["max"].as_u64().unwrap()),
        }),
      };
    }
    says!("builder debug", &b);
    Box::pin(async { connect_result(b.connect().await) })
  }

  /// The event and the future of a call, unless it is not possible now.
  fn call(&mut self, a: &Value, how: &Value) -> Option<(Map<String, Value>, Op)> {
    let mut ev = Map::new();
    let op = text(a, "op").to_string();
    ev.insert("e".into(), json!("call"));
    ev.insert("op".into(), json!(op));
    if op == "connect" {
      return if self.client.is_some() { None } else { Some((ev, self.connect(how))) };
    }
    let client = self.borrow()?;
    let own = |f: &str| text(a, f).to_string();
    let fut: Op = match op.as_str() {
      "reconnect" => Box::pin(async move {
        match client.reconnect().await {
          Ok(()) => ret("ok"),
          Err(e) => {
            show_error(&e);
            let ReconnectError { cause } = &e;
            connect_error(cause)
          }
        }
      }),
      "recv" => Box::pin(async move {
        match client.recv().await {
          Ok(m) => ret_text("msg", m.raw()),
          Err(e) => {
            show_error(&e);
            Ret { disc: e.is_disconnect(), ..recv_error(&e) }
          }
        }
      }),
      "privmsg" => {
        let (channel, body, reply, nonce) = (own("channel"), own("text"), opt_text(a, "reply"), opt_text(a, "nonce"));
        let nonce_first = a["nonce_first"] == true;
        let twice = a["shape"] == 1;
        ev.insert("channel".into(), bytes(&channel));
        ev.insert("text".into(), bytes(&body));
        ev.insert("reply".into(), opt_bytes(reply.as_deref()));
        ev.insert("nonce".into(), opt_bytes(nonce.as_deref()));
        Box::pin(async move {
          let mut p = client.privmsg(&channel, &body);
          if twice {
            // the last value counts
            if reply.is_some() {
              p = p.reply_to("earlier id");
            }
            if nonce.is_some() {
              p = p.client_nonce("earlier;nonce");
            }
          }
          if nonce_first {
            if let Some(n) = &nonce {
              p = p.client_nonce(n);
            }
          }
          if let Some(r) = &reply {
            p = p.reply_to(r);
          }
          if !nonce_first {
            if let Some(n) = &nonce {
              p = p.client_nonce(n);
            }
          }
          send_result(p.send().await)
        })
      }
      "ping" => {
        let nonce = own("nonce");
        ev.insert("nonce".into(), bytes(&nonce));
        self.echo = Some((op.clone(), vec![Some(nonce.clone())], String::new(), self.net.written()));
        Box::pin(async move { send_result(client.ping(&nonce).await) })
      }
      "pong" => {
        let line = own("line");
        let msg = tmi::IrcMessage::parse(&line)?;
        use tmi::FromIrc;
        if !matches!(msg.as_typed(), Ok(tmi::Message::Ping(_))) {
          return None;
        }
        let ping = tmi::Ping::from_irc(msg.as_ref()).ok()?;
        ev.insert("line".into(), bytes(&line));
        self.echo = Some((op.clone(), vec![ping.nonce().map(String::from)], line.clone(), self.net.written()));
        let how = own("how");
        let owned: tmi::Ping<'static> = match how.as_str() {
          "serde" => {
            let s = serde_json::to_string(&ping).ok()?;
            serde_json::from_str::<tmi::Ping<'_>>(&s).ok()?.into_owned()
          }
          _ => ping.clone().into_owned(),
        };
        drop(ping);
        if how == "borrowed" {
          Box::pin(async move {
            let msg = tmi::IrcMessageRef::parse(&line).unwrap();
            let ping = tmi::Ping::from_irc(msg).unwrap();
            send_result(client.pong(&ping).await)
          })
        } else {
          Box::pin(async move { send_result(client.pong(&owned).await) })
        }
      }
      "join" => {
        let channel = own("channel");
        ev.insert("channel".into(), bytes(&channel));
        let shape = a["shape"].as_u64();
        Box::pin(async move {
          send_result(match shape {
            Some(1) => client.join(channel).await,
            Some(2) => client.join(std::rc::Rc::<str>::from(channel)).await,
            _ => client.join(&channel).await,
          })
        })
      }
      "join_all" => {
        let channels: Vec<String> = a["channels"].as_array().unwrap().iter().map(|v| v.as_str().unwrap().into()).collect();
        ev.insert("channels".into(), Value::Array(channels.iter().map(|c| bytes(c)).collect()));
        let shape = a["shape"].as_u64();
        Box::pin(async move {
          send_result(match shape {
            // iterators which do not know their length, or give something else
            Some(1) => client.join_all(channels.iter().filter(|_| true)).await,
            Some(2) => client.join_all(channels.iter().map(String::as_str).rev().collect::<Vec<_>>().into_iter().rev()).await,
            Some(3) => client.join_all(channels.chunks(3).flatten()).await,
            _ => client.join_all(channels).await,
          })
        })
      }
      "send_raw" => {
        let data = own("data");
        ev.insert("data".into(), bytes(&data));
        let checked_before = a["shape"] == 1;
        Box::pin(async move {
          if checked_before {
            return match tmi::client::write::RawMessage::try_from(data.as_str()) {
              Ok(m) => send_result(client.send_raw(m).await),
              Err(e) => send_result(Err(e.into())),
            };
          }
          send_result(client.send_raw(data.as_str()).await)
        })
      }
      _ => return None,
    };
    Some((ev, fut))
  }

  fn poll(&mut self) {
    let Some((name, mut op)) = self.op.take() else { return };
    let waker = Waker::from(self.flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0;
    while self.flag.0.swap(false, Ordering::SeqCst) {
      polls += 1;
      if polls > 100_000 {
        self.log(json!({"e": "spin"}));
        self.log(json!({"e": "panic"}));
        self.broken = true;
        std::mem::forget(op);
        return;
      }
      match catch_unwind(AssertUnwindSafe(|| op.as_mut().poll(&mut cx))) {
        Err(_) => {
          self.log(json!({"e": "panic"}));
          self.broken = true;
          std::mem::forget(op);
          return;
        }
        Ok(Poll::Pending) => {}
        Ok(Poll::Ready(r)) => {
          drop(op);
          self.log(json!({"e": "ret", "k": r.k, "io": r.io, "d": r.d, "disc": r.disc}));
          if let Some(c) = r.client {
            self.client = Some(c);
          }
          if r.k == "ok" && matches!(name.as_str(), "ping" | "pong") {
            if let Some((op, nonce, line, at)) = self.echo.take() {
              let sent = self.net.tail(at);
              let got = read_back(&op, &sent);
              let opt = |o: &Option<String>| opt_bytes(o.as_deref());
              self.log(json!({"e": "echo", "of": op, "line": bytes(&line), "nonce": opt(&nonce[0]),
                "ok": got.is_some(), "got": opt(&got.flatten())}));
            }
          }
          if matches!(name.as_str(), "connect" | "reconnect") {
            self.cfg();
          }
          return;
        }
      }
    }
    self.log(json!({"e": "block"}));
    self.op = Some((name, op));
  }

  async fn step(&mut self, s: &Value, how: &Value) {
    let c = s["c"].as_u64().unwrap_or(0) as usize;
    match text(s, "do") {
      "call" => {
        if self.op.is_none() {
          let before = self.client.is_some();
          if let Some((ev, op)) = self.call(s, how) {
            let name = text(s, "op").to_string();
            let _ = before;
            self.log(Value::Object(ev));
            self.op = Some((name, op));
            self.flag.0.store(true, Ordering::SeqCst);
            self.poll();
          }
        }
      }
      "poll" => self.poll(),
      "cancel" => {
        if let Some((_, op)) = self.op.take() {
          drop(op);
          self.log(json!({"e": "cancel"}));
        }
      }
      "openres" => self.net.open_result(text(s, "k")),
      "rx" => {
        let d: Vec<u8> = match &s["d"] {
          Value::String(t) => t.as_bytes().to_vec(),
          v => v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
        };
        self.net.rx(c, d)
      }
      "eof" => self.net.end(c, ""),
      "rerr" => self.net.end(c, text(s, "k")),
      "win" => self.net.win(c, s["n"].as_i64().unwrap()),
      "werr" => self.net.werr(c, text(s, "k")),
      "gate" => self.net.gate(c, s["open"] == true),
      "ferr" => self.net.ferr(c, text(s, "k")),
      "tick" => {
        let ms = s["ms"].as_u64().unwrap();
        self.log(json!({"e": "tick", "ms": ms}));
        tokio::time::advance(Duration::from_millis(ms)).await;
      }
      other => panic!("unknown step {other}"),
    }
  }
}

/// The nonce which the library reads from the line that was sent; None if it is not such a message.
fn read_back(op: &str, sent: &[u8]) -> Option<Option<String>> {
  use tmi::FromIrc;
  let s = std::str::from_utf8(sent).ok()?;
  let s = s.strip_suffix("\r\n").unwrap_or(s);
  let msg = tmi::IrcMessageRef::parse(s)?;
  match op {
    "ping" => tmi::Ping::from_irc(msg).ok().map(|p| p.nonce().map(String::from)),
    _ => tmi::Pong::from_irc(msg).ok().map(|p| p.nonce().map(String::from)),
  }
}

async fn run(script: &Value) -> Value {
  let how = &script["how"];
  logs::start(script["secret"].as_str());
  let net = Net::world();
  let mut r = Run {
    net: net.clone(),
    client: None,
    op: None,
    flag: Arc::new(Flag(AtomicBool::new(false))),
    echo: None,
    broken: false,
  };
  net.install();
  for s in script["steps"].as_array().unwrap() {
    r.step(s, how).await;
    if r.broken {
      break;
    }
  }
  r.op = None;
  if !r.broken {
    r.cfg();
  } else {
    std::mem::forget(r.client.take());
  }
  let (anon, full) = match &r.client {
    Some(c) => (c.credentials().login.clone().into_bytes(), true),
    None => net.nick(),
  };
  let leaks = logs::leaks();
  net.log(json!({"e": "leaks", "where": leaks, "records": logs::count()}));
  // the configuration in the trace's first event
  let calls: Vec<Value> = if how["via"] == "anonymous" { vec![] } else { how["calls"].as_array().unwrap().clone() };
  let calls: Vec<Value> = calls
    .iter()
    .map(|c| {
      let mut c = clamped(c.clone());
      if c["set"] == "credentials" {
        c["login"] = bytes(text(&c, "login"));
        c["token"] = opt_bytes(opt_text(&c, "token").as_deref());
      }
      c
    })
    .collect();
  let mut ev = vec![json!({"e": "build", "calls": calls, "anon": anon, "full": full})];
  ev.extend(net.take_log());
  json!({"ev": ev})
}

/// A setting as it is in a trace.
fn clamped(mut c: Value) -> Value {
  for f in ["timeout", "init", "mult", "max"] {
    if let Some(v) = c[f].as_u64() {
      c[f] = json!(v.min(HUGE));
    }
  }
  if let Some(v) = c["tries"].get(0).and_then(|v| v.as_u64()) {
    c["tries"] = json!([v.min(HUGE)]);
  }
  c
}

/// The bypass: `get` and `copy` on numbered slots.
fn bypass(script: &Value) -> Value {
  use tmi::client::write::SameMessageBypass;
  let mut slots: Vec<SameMessageBypass> = vec![SameMessageBypass::default()];
  let mut ev = vec![];
  for s in script["bypass"].as_array().unwrap() {
    let n = s[1].as_u64().unwrap() as usize;
    match s[0].as_str().unwrap() {
      "get" => ev.push(json!({"e": "get", "n": n + 1, "v": slots[n].get().as_bytes()})),
      "copy" => {
        let c = slots[n];
        slots.push(c);
        ev.push(json!({"e": "copy", "n": n + 1}));
      }
      "clone" => {
        #[allow(clippy::clone_on_copy)]
        let c = slots[n].clone();
        slots.push(c);
        ev.push(json!({"e": "copy", "n": n + 1}));
      }
      _ => {
        slots.push(SameMessageBypass::default());
        ev.push(json!({"e": "new", "n": 0}));
      }
    }
  }
  json!({ "ev": ev })
}

/// Many anonymous logins, summed up.
fn anon(script: &Value) -> Value {
  let n = script["anon"].as_u64().unwrap();
  let mut ev = vec![];
  let sources: [(&str, fn() -> Credentials); 4] = [
    ("anon", Credentials::anon),
    ("default", Credentials::default),
    ("config", || tmi::client::Config::default().credentials),
    ("clone", || Credentials::anon().clone()),
  ];
  for (from, make) in sources {
    let (mut least, mut most, mut odd, mut tokens) = (i32::MAX, 0, 0, 0);
    for _ in 0..n {
      let c = make();
      let digits = c.login.strip_prefix("justinfan").filter(|d| !d.starts_with(['0', '+', '-'])).and_then(|d| d.parse::<i32>().ok());
      match digits {
        Some(d) => (least, most) = (least.min(d), most.max(d)),
        None => odd += 1,
      }
      if c.token.is_some() || c.token().is_some() || !c.is_anon() || c.login() != c.login {
        tokens += 1;
      }
    }
    ev.push(json!({"e": "anon", "from": from, "least": least, "most": most, "odd": odd, "tokens": tokens}));
  }
  json!({ "ev": ev })
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  logs::install();
  let path = std::env::args().nth(1).expect("output file");
  let mut out = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
  use std::io::Write;
  for line in std::io::stdin().lines() {
    let script: Value = serde_json::from_str(&line.unwrap()).unwrap();
    let trace = if script["bypass"].is_array() {
      bypass(&script)
    } else if script["anon"].is_u64() {
      anon(&script)
    } else {
      let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
      rt.block_on(tokio::task::unconstrained(run(&script)))
    };
    serde_json::to_writer(&mut out, &trace).unwrap();
    out.write_all(b"\n").unwrap();
    out.flush().unwrap();
  }
}

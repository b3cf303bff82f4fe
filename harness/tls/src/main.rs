//! Runs scripts of operations of the real client over real sockets and TLS, against peers of every kind, and
//! records what each peer got (the vocabulary of spec/Tls.tla).
//!
//! Name resolution is answered by this process: every name leads to loopback addresses of this process.
#[path = "../../client/src/logs.rs"]
#[allow(dead_code)]
mod logs;
mod names;
mod peer;

use peer::{Certs, Log};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::net::TcpListener;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tmi::client::read::RecvError;
use tmi::client::write::SendError;
use tmi::client::{Backoff, Client, ConnectError, Credentials};

const PORTS: [u16; 6] = [6697, 6667, 443, 80, 6698, 8443];

struct Forward;
impl log::Log for Forward {
  fn enabled(&self, _: &log::Metadata) -> bool {
    true
  }
  fn log(&self, record: &log::Record) {
    logs::note("log", &record.args().to_string());
  }
  fn flush(&self) {}
}

fn show_error(e: &dyn std::error::Error) {
  logs::note("error display", &format!("{e} {e:#}"));
  logs::note("error debug", &format!("{e:?} {e:#?}"));
}
fn connect_kind(e: &ConnectError) -> &'static str {
  match e {
    ConnectError::Read(_) => "Read",
    ConnectError::Io(_) => "Io",
    ConnectError::Dns(_) => "Dns",
    ConnectError::Tls(_) => "Tls",
    ConnectError::Open(_) => "Open",
    ConnectError::Timeout => "Timeout",
    ConnectError::Welcome(_) => "Welcome",
    ConnectError::Auth => "Auth",
    ConnectError::Notice(_) => "Notice",
  }
}

fn run(script: &Value, certs: &Arc<Certs>, listeners: &[TcpListener]) -> Value {
  let log: Log = Arc::default();
  names::watch(Some(log.clone()));
  let cfg = &script["cfg"];
  let secret = cfg["token"].as_str();
  logs::start(secret);

  // Accept connections in order; each gets the next peer.
  let stop = Arc::new(AtomicBool::new(false));
  let count = Arc::new(AtomicUsize::new(0));
  let served = Arc::new(Mutex::new(vec![]));
  let secrets: Vec<String> = [secret, cfg["login"].as_str()].into_iter().flatten().filter(|s| !s.is_empty()).map(str::to_string).collect();
  let accepting: Vec<_> = listeners
    .iter()
    .map(|l| {
      let l = l.try_clone().unwrap();
      let (stop, count, served, log, certs) = (stop.clone(), count.clone(), served.clone(), log.clone(), certs.clone());
      let (peers, secrets) = (script["peers"].clone(), secrets.clone());
      std::thread::spawn(move || loop {
        let Ok((s, _)) = l.accept() else { continue };
        if stop.load(Ordering::SeqCst) {
          break;
        }
        let n = count.fetch_add(1, Ordering::SeqCst);
        let port = l.local_addr().unwrap().port();
        log.lock().unwrap().push(json!({"e": "tcp", "c": n + 1, "port": port}));
        let peer = peers.get(n).cloned().unwrap_or(json!({"mode": "close"}));
        let (log, certs, secrets) = (log.clone(), certs.clone(), secrets.clone());
        let t = std::thread::spawn(move || peer::serve(s, n + 1, peer, &certs, &log, &secrets));
        served.lock().unwrap().push(t);
      })
    })
    .collect();

  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let say = |v: Value| log.lock().unwrap().push(v);
  let mut client: Option<Client> = None;
  for op in script["ops"].as_array().unwrap() {
    let name = op["op"].as_str().unwrap();
    let data = op["d"].as_str().unwrap_or("");
    say(json!({"e": "call", "op": name, "d": data.as_bytes()}));
    let (mut k, mut d) = ("ok", vec![]);
    let mut broken = false;
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
      rt.block_on(async {
        match (name, client.as_mut()) {
          ("connect", _) => {
            let mut b = Client::builder().timeout(Duration::from_millis(cfg["timeout"].as_u64().unwrap())).backoff(Backoff {
              max_tries: cfg["tries"].get(0).and_then(Value::as_u64),
              initial_delay: Duration::from_millis(1),
              delay_multiplier: 1,
              max_delay: Duration::from_millis(1),
            });
            if let Some(t) = secret {
              b = b.credentials(Credentials::new(cfg["login"].as_str().unwrap(), t));
            }
            match b.connect().await {
              Ok(c) => client = Some(c),
              Err(e) => {
                show_error(&e);
                k = connect_kind(&e)
              }
            }
          }
          ("reconnect", Some(c)) => {
            if let Err(e) = c.reconnect().await {
              show_error(&e);
              k = connect_kind(&e.cause)
            }
          }
          ("send", Some(c)) => match c.send_raw(format!("{data}\r\n").as_str()).await {
            Ok(()) => {}
            Err(e) => {
              show_error(&e);
              k = match e {
                SendError::Io(_) => "Io",
                SendError::StreamClosed => "Closed",
                SendError::InvalidMessage(_) => "Invalid",
              }
            }
          },
          ("recv", Some(c)) => match tokio::time::timeout(Duration::from_secs(20), c.recv()).await {
            Ok(Ok(m)) => d = m.raw().as_bytes().to_vec(),
            Ok(Err(e)) => {
              show_error(&e);
              k = match e {
                RecvError::Io(_) => "Io",
                RecvError::Parse(_) => "Parse",
                RecvError::StreamClosed => "Closed",
              }
            }
            Err(_) => k = "hangs",
          },
          _ => broken = true,
        }
      })
    }));
    if result.is_err() {
      k = "panic";
      client = None;
    }
    if broken {
      // an earlier operation already went wrong
      log.lock().unwrap().pop();
      continue;
    }
    say(json!({"e": "ret", "op": name, "k": k, "d": d}));
  }
  if let Some(c) = &client {
    say(json!({"e": "cfg", "login": c.config().credentials.login.as_bytes()}));
  }
  drop(client);
  drop(rt);

  // No more connections; wait until every peer has read everything.
  stop.store(true, Ordering::SeqCst);
  for l in listeners {
    let _ = std::net::TcpStream::connect(l.local_addr().unwrap());
  }
  for t in accepting {
    t.join().unwrap();
  }
  loop {
    let Some(t) = served.lock().unwrap().pop() else { break };
    t.join().unwrap();
  }
  names::watch(None);
  let mut ev = std::mem::take(&mut *log.lock().unwrap());
  ev.push(json!({"e": "leaks", "where": logs::leaks()}));
  ev.push(json!({"e": "done"}));
  let peers: Vec<Value> = script["peers"].as_array().unwrap().iter().map(|p| certs.describe(p)).collect();
  let head = json!({"e": "build", "tries": cfg["tries"], "login": cfg["login"].as_str().unwrap_or("").as_bytes(), "anon": secret.is_none(),
                    "token": secret.unwrap_or("").as_bytes(), "store": script["store"], "peers": peers});
  ev.insert(0, head);
  json!({ "ev": ev })
}

fn main() {
  let out = std::env::args().nth(1).expect("where to write");
  let mut out = std::fs::File::create(out).unwrap();
  logs::install();
  log::set_logger(&Forward).unwrap();
  log::set_max_level(log::LevelFilter::Trace);
  let certs = Arc::new(Certs::load());
  // an address of our own; only the first port has to be there
  let listeners = (0..100)
    .find_map(|n: u32| {
      let id = std::process::id().wrapping_mul(2654435761).wrapping_add(n.wrapping_mul(40503));
      let ip = std::net::Ipv4Addr::new(127, (id >> 8) as u8 | 1, id as u8, (id >> 16) as u8 | 2);
      let first = TcpListener::bind((ip, PORTS[0])).ok()?;
      let mut ls = vec![first];
      ls.extend(PORTS[1..].iter().filter_map(|p| TcpListener::bind((ip, *p)).ok()));
      names::lead_to(ip);
      Some(ls)
    })
    .unwrap_or_else(|| {
      eprintln!("no address to listen on");
      std::process::exit(70)
    });
  for line in std::io::stdin().lock().lines() {
    let script: Value = serde_json::from_str(&line.unwrap()).unwrap();
    let trace = run(&script, &certs, &listeners);
    writeln!(out, "{trace}").unwrap();
  }
}

//! The other end of a connection.
use rustls::server::{ClientHello, ResolvesServerCert};
use rustls::sign::{any_supported_type, CertifiedKey};
use rustls::{Certificate, PrivateKey, ServerConfig, ServerConnection};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::net::TcpStream;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub type Log = Arc<Mutex<Vec<Value>>>;

pub struct Certs {
  all: Value,
}

fn unbase64(s: &str) -> Vec<u8> {
  let digit = |c: u8| b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".iter().position(|x| *x == c);
  let mut out = vec![];
  let (mut acc, mut bits) = (0u32, 0);
  for d in s.bytes().filter_map(digit) {
    acc = acc << 6 | d as u32;
    bits += 6;
    if bits >= 8 {
      bits -= 8;
      out.push((acc >> bits) as u8);
    }
  }
  out
}

impl Certs {
  pub fn load() -> Certs {
    let path = std::env::var("TLS_PEERS").unwrap();
    Certs { all: serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap() }
  }
  fn of(&self, peer: &Value) -> &Value {
    &self.all["peers"][peer["cert"].as_u64().unwrap_or(0) as usize]
  }
  /// What there is to know about a peer, for the specification.
  pub fn describe(&self, peer: &Value) -> Value {
    let c = self.of(peer);
    let names: Vec<Value> = c["names"].as_array().unwrap().iter().map(|n| json!(n.as_str().unwrap().as_bytes())).collect();
    json!({"mode": peer["mode"], "root": c["is"]["root"], "via": c["is"]["via"], "dates": c["is"]["dates"], "use": c["is"]["use"],
           "key": c["is"]["key"], "names": names,
           "lines": peer["lines"].as_array().map(|l| l.iter().map(|x| json!(x.as_str().unwrap().as_bytes())).collect::<Vec<_>>()).unwrap_or_default()})
  }
}

struct Fixed(Arc<CertifiedKey>);
impl ResolvesServerCert for Fixed {
  fn resolve(&self, _: ClientHello) -> Option<Arc<CertifiedKey>> {
    Some(self.0.clone())
  }
}

/// A socket which remembers what it received.
struct Tap {
  s: TcpStream,
  raw: Vec<u8>,
}
impl Read for Tap {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    let n = self.s.read(buf)?;
    self.raw.extend_from_slice(&buf[..n]);
    Ok(n)
  }
}

fn records(raw: &[u8]) -> (Vec<(u8, usize)>, bool) {
  let (mut at, mut recs) = (0, vec![]);
  while at < raw.len() {
    if raw.len() < at + 5 || !(20..=23).contains(&raw[at]) || raw[at + 1] != 3 {
      return (recs, true);
    }
    let len = u16::from_be_bytes([raw[at + 3], raw[at + 4]]) as usize;
    recs.push((raw[at], len));
    at += 5 + len;
  }
  (recs, at != raw.len())
}

pub fn serve(s: TcpStream, c: usize, peer: Value, certs: &Certs, log: &Log, secrets: &[String]) {
  let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
  let _ = s.set_nodelay(true);
  let mut tap = Tap { s, raw: vec![] };
  let mode = peer["mode"].as_str().unwrap();
  let irc = b":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n:tmi.twitch.tv 001 x :Welcome, GLHF!\r\n";
  let first: &[u8] = match mode {
    "plain" => irc,
    "garbage" => &[0x16, 3, 3, 0, 4, 0xff, 0xff, 0xff, 0xff],
    "alert" => &[0x15, 3, 3, 0, 2, 2, 40],
    "http" => b"HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n",
    _ => b"",
  };
  let _ = tap.s.write_all(first);
  match mode {
    "tls" | "cut" | "late" => tls(&mut tap, c, &peer, certs, log, mode),
    "close" => {}
    "reply" => {
      // answers whatever comes first in plain text
      let _ = tap.read(&mut [0; 4096]);
      let _ = tap.s.write_all(irc);
      drain(&mut tap);
    }
    "half" => {
      let _ = tap.s.shutdown(std::net::Shutdown::Write);
      drain(&mut tap);
    }
    _ => drain(&mut tap), // "hang" too
  }
  let (recs, junk) = records(&tap.raw);
  let low = tap.raw.to_ascii_lowercase();
  let secret = secrets.iter().any(|s| {
    let s = s.to_ascii_lowercase();
    low.windows(s.len()).any(|w| w == s.as_bytes())
  });
  log.lock().unwrap().push(json!({"e": "raw", "c": c, "recs": recs, "junk": junk, "secret": secret}));
}

fn drain(tap: &mut Tap) {
  while let Ok(1..) = tap.read(&mut [0; 4096]) {}
}

fn tls(tap: &mut Tap, c: usize, peer: &Value, certs: &Certs, log: &Log, mode: &str) {
  let cert = certs.of(peer);
  let chain = cert["chain"].as_array().unwrap().iter().map(|x| Certificate(unbase64(x.as_str().unwrap()))).collect();
  let key = PrivateKey(unbase64(certs.all[cert["is"]["key"].as_str().unwrap()].as_str().unwrap()));
  let key = CertifiedKey::new(chain, any_supported_type(&key).unwrap());
  let versions: &[&rustls::SupportedProtocolVersion] = if peer["tls12"] == json!(true) { &[&rustls::version::TLS12] } else { &[&rustls::version::TLS13] };
  let config = ServerConfig::builder()
    .with_safe_default_cipher_suites()
    .with_safe_default_kx_groups()
    .with_protocol_versions(versions)
    .unwrap()
    .with_no_client_auth()
    .with_cert_resolver(Arc::new(Fixed(Arc::new(key))));
  let mut conn = ServerConnection::new(Arc::new(config)).unwrap();
  let (mut app, mut shook, mut said, mut mute) = (vec![], false, 0, false);
  loop {
    let mut broken = false;
    while conn.wants_write() && !mute {
      if mode == "cut" {
        // half of the first flight, then the end
        let mut flight = vec![];
        let _ = conn.write_tls(&mut flight);
        let _ = tap.s.write_all(&flight[..flight.len() / 2]);
        let _ = tap.s.shutdown(std::net::Shutdown::Write);
        drain(tap);
        broken = true;
        break;
      }
      // the client may be gone already, with something left to read
      mute = conn.write_tls(&mut tap.s).is_err();
    }
    if broken {
      break;
    }
    if !conn.is_handshaking() && !shook {
      shook = true;
      log.lock().unwrap().push(json!({"e": "shook", "c": c}));
    }
    match conn.read_tls(tap) {
      Ok(0) | Err(_) => break,
      Ok(_) => {}
    }
    let state = conn.process_new_packets();
    let mut buf = vec![];
    let _ = conn.reader().read_to_end(&mut buf);
    app.extend_from_slice(&buf);
    if state.is_err() {
      // send the alert, see what else comes
      let _ = conn.write_tls(&mut tap.s);
      drain(tap);
      break;
    }
    let text = String::from_utf8_lossy(&app).to_string();
    if said == 0 && text.contains("CAP REQ") && text.ends_with("\r\n") {
      said = 1;
      let _ = conn.writer().write_all(b":tmi.twitch.tv CAP * ACK :twitch.tv/commands twitch.tv/tags twitch.tv/membership\r\n");
    }
    if said == 1 && text.contains("NICK ") && text.ends_with("\r\n") {
      said = 2;
      let mut rest = b":tmi.twitch.tv 001 x :Welcome, GLHF!\r\n".to_vec();
      for l in peer["lines"].as_array().into_iter().flatten() {
        rest.extend_from_slice(l.as_str().unwrap().as_bytes());
        rest.extend_from_slice(b"\r\n");
      }
      let size = peer["fragment"].as_u64().unwrap_or(16384).max(1) as usize;
      for part in rest.chunks(size) {
        // one record each
        let _ = conn.writer().write_all(part);
        let _ = conn.write_tls(&mut tap.s);
      }
    }
  }
  if !app.is_empty() {
    log.lock().unwrap().push(json!({"e": "app", "c": c, "d": app}));
  }
}

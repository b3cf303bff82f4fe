//! Everything the library says outside the connection, searched for parts of the token.
use std::cell::RefCell;
use std::fmt::Write;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Metadata, Subscriber};

#[derive(Default)]
struct Watch {
  windows: Vec<String>,
  leaks: Vec<String>,
  count: usize,
}

thread_local! {
  static WATCH: RefCell<Watch> = RefCell::default();
}

const WINDOW: usize = 6;

/// Watch for any WINDOW characters of the secret, as text, as a list of bytes or as hex.
pub fn start(secret: Option<&str>) {
  let mut w = Watch::default();
  if let Some(s) = secret {
    for part in s.as_bytes().windows(WINDOW) {
      w.windows.push(String::from_utf8(part.to_vec()).unwrap().to_ascii_lowercase());
      let list = |sep: &str, f: fn(&u8) -> String| part[..4].iter().map(f).collect::<Vec<_>>().join(sep);
      w.windows.push(list(", ", |b| b.to_string()));
      w.windows.push(list("", |b| format!("{b:02x}")));
      w.windows.push(list(", ", |b| format!("{b:x}")));
      w.windows.push(list(", ", |b| format!("0x{b:02x}")));
    }
  }
  WATCH.with(|c| *c.borrow_mut() = w);
}

pub fn note(place: &str, text: &str) {
  WATCH.with(|c| {
    let mut w = c.borrow_mut();
    w.count += 1;
    let t = text.to_ascii_lowercase();
    // pretty-printed lists have one element per line
    let flat = t.split_whitespace().collect::<Vec<_>>().join(" ");
    if w.windows.iter().any(|x| t.contains(x.as_str()) || flat.contains(x.as_str())) {
      let what = format!("{place}: {text}");
      w.leaks.push(what.chars().filter(|c| !"\"\\".contains(*c)).map(|c| if c.is_control() { ' ' } else { c }).take(300).collect());
    }
  })
}

pub fn leaks() -> Vec<String> {
  WATCH.with(|c| c.borrow().leaks.clone())
}
pub fn count() -> usize {
  WATCH.with(|c| c.borrow().count)
}

struct Text(String);
impl Visit for Text {
  fn record_debug(&mut self, field: &Field, value: &dyn std::fmt::Debug) {
    let _ = write!(self.0, "{}={value:?} ", field.name());
  }
  fn record_str(&mut self, field: &Field, value: &str) {
    let _ = write!(self.0, "{}={value} ", field.name());
  }
}

struct Capture;
impl Subscriber for Capture {
  fn enabled(&self, _: &Metadata<'_>) -> bool {
    true
  }
  fn new_span(&self, span: &Attributes<'_>) -> Id {
    let mut t = Text(span.metadata().name().to_string());
    span.record(&mut t);
    note("span", &t.0);
    Id::from_u64(1)
  }
  fn record(&self, _: &Id, values: &Record<'_>) {
    let mut t = Text(String::new());
    values.record(&mut t);
    note("span", &t.0);
  }
  fn record_follows_from(&self, _: &Id, _: &Id) {}
  fn event(&self, event: &Event<'_>) {
    let mut t = Text(String::new());
    event.record(&mut t);
    note("log", &t.0);
  }
  fn enter(&self, _: &Id) {}
  fn exit(&self, _: &Id) {}
}

pub fn install() {
  tracing::subscriber::set_global_default(Capture).unwrap();
}

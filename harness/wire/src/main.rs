//! Records what the library answers.
//!
//! One request per line on stdin (JSON: `{"k": kind, "s": text, ..}`), one line per request on
//! stdout: a JSON list of `[views, result]`, equal results together.  Texts are lists of code points, optional values are
//! lists of zero or one element, numbers are decimal digit texts.  A panic is a result.

/// Two accessors which have to agree; if they do not, the result is `inconsistent`.
macro_rules! same {
  ($a:expr, $b:expr) => {
    if $a != $b {
      std::panic::panic_any(crate::Inconsistent)
    }
  };
}

mod guard;
mod line;
mod names;
mod out;
mod small;
mod typed;

use out::*;
use serde_json::Value;
use std::io::{BufRead, Write};

pub struct Inconsistent;

pub type Views = Vec<(String, String)>;

/// Run `f`; a panic becomes a result.
pub fn view(views: &mut Views, name: impl Into<String>, f: impl FnOnce() -> J) {
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  let text = match r {
    Ok(j) => j.0,
    Err(e) if e.is::<Inconsistent>() => r#"{"inconsistent":true}"#.to_string(),
    Err(_) => r#"{"panic":true}"#.to_string(),
  };
  views.push((name.into(), text));
}

fn main() {
  std::panic::set_hook(Box::new(|_| {}));
  let stdin = std::io::stdin();
  let mut stdout = std::io::BufWriter::new(std::io::stdout());
  for req in stdin.lock().lines() {
    let req = req.unwrap();
    let v: Value = serde_json::from_str(&req).unwrap();
    let s = v["s"].as_str().unwrap_or_default();
    let mut views = Views::new();
    match v["k"].as_str().unwrap() {
      "line" => line::run(s, &mut views),
      "lookup" => line::lookup(s, &v["q"], &mut views),
      "typed" => typed::run(s, &mut views),
      "unescape" => small::unescape(s, &mut views),
      "names" => names::run(&mut views),
      "levels" => small::levels(&mut views),
      k => panic!("unknown request {k}"),
    }
    let mut groups: Vec<(Vec<&str>, &str)> = Vec::new();
    for (name, r) in &views {
      match groups.iter_mut().find(|g| g.1 == r) {
        Some(g) => g.0.push(name),
        None => groups.push((vec![name], r)),
      }
    }
    stdout.write_all(b"[").unwrap();
    for (i, (names, r)) in groups.iter().enumerate() {
      if i > 0 {
        stdout.write_all(b",").unwrap();
      }
      write!(stdout, "[[\"{}\"],{r}]", names.join("\",\"")).unwrap();
    }
    stdout.write_all(b"]\n").unwrap();
    stdout.flush().unwrap();
  }
}

use crate::{guard, names, out::*, view, Views};
use serde_json::Value;
use std::fmt::Write;
use tmi::{Command, IrcMessage, IrcMessageRef, Prefix};

/// Formatting must not panic either; its text is not part of the record.
struct Sink;
impl Write for Sink {
  fn write_str(&mut self, _: &str) -> std::fmt::Result {
    Ok(())
  }
}

fn prefix(p: Prefix<'_>) -> J {
  obj([
    ("nick", opt(p.nick, text)),
    ("user", opt(p.user, text)),
    ("host", text(p.host)),
    ("shown", text(p.to_string())),
  ])
}

fn command(c: Command<'_>) -> &'static str {
  names::COMMANDS.iter().find(|(v, _)| *v == c).map(|(_, n)| *n).unwrap_or("Other")
}

// A macro because the two message types share no trait.
macro_rules! record {
  ($m:expr) => {{
    let m = $m;
    let _ = write!(Sink, "{:?} {:#?}", m, m);
    let c = m.command();
    same!(c.to_string(), c.as_str());
    obj([
      ("ok", flag(true)),
      ("raw", text(m.raw())),
      ("tags", list(m.tags().map(|(k, v)| list([text(k), text(v)])))),
      ("prefix", opt(m.prefix(), prefix)),
      ("kind", word(command(c))),
      ("word", text(c.as_str())),
      ("params", opt(m.params(), text)),
      ("text", opt(m.text(), text)),
      ("channel", opt(m.channel(), text)),
    ])
  }};
}

fn none() -> J {
  obj([("ok", flag(false))])
}

fn by_ref(s: &str) -> J {
  match IrcMessageRef::parse(s) {
    Some(m) => record!(&m),
    None => none(),
  }
}

pub fn run(s: &str, views: &mut Views) {
  view(views, "ref", || by_ref(s));
  view(views, "owned", || match IrcMessage::parse(s) {
    Some(m) => record!(&m),
    None => none(),
  });
  view(views, "into_owned", || {
    let copy = s.to_string();
    let m = IrcMessageRef::parse(&copy).map(|m| m.into_owned());
    drop(copy);
    match m {
      Some(m) => record!(&m),
      None => none(),
    }
  });
  view(views, "as_ref", || match IrcMessage::parse(s) {
    Some(m) => record!(&m.as_ref()),
    None => none(),
  });
  view(views, "round", || match IrcMessageRef::parse(s) {
    Some(m) => {
      let m = m.into_owned();
      let m = m.as_ref().clone();
      record!(&m)
    }
    None => none(),
  });
  // The same text elsewhere in memory: every alignment for short texts, and with
  // delimiters right behind (and before) it.
  for shift in [1usize, 7, 15, 16, 31] {
    view(views, format!("at{shift}"), || {
      let mut buf = vec![0u8; s.len() + 160];
      let base = buf.as_ptr() as usize;
      let at = (64 - base % 64) % 64 + shift;
      buf.fill(b' ');
      for (i, b) in buf.iter_mut().enumerate() {
        *b = [b';', b'=', b' '][i % 3];
      }
      buf[at..at + s.len()].copy_from_slice(s.as_bytes());
      by_ref(std::str::from_utf8(&buf[at..at + s.len()]).unwrap())
    });
  }
  if s.len() <= 100_000 {
    view(views, "end", || guard::at_end(s, by_ref).unwrap());
    view(views, "start", || guard::at_start(s, by_ref).unwrap());
  }
}

/// Look up each name as a string, as the named variant and as an unknown tag, in both forms of
/// the message.
pub fn lookup(s: &str, names_json: &Value, views: &mut Views) {
  let queries: Vec<&str> = names_json.as_array().unwrap().iter().map(|v| v.as_str().unwrap()).collect();
  fn variant(q: &str) -> Option<tmi::Tag<'static>> {
    names::tags().into_iter().find(|(_, _, wire)| *wire == q).map(|(t, _, _)| t)
  }
  macro_rules! answers {
    ($m:expr) => {{
      let m = $m;
      obj([
        ("ok", flag(true)),
        ("q", list(queries.iter().map(|q| {
          let (form, ans) = match variant(q) {
            Some(t) => ("named", m.tag(t)),
            None => ("unknown", m.tag(tmi::Tag::Unknown(q))),
          };
          obj([
            ("name", text(q)),
            ("str", opt(m.tag(*q), text)),
            ("parsed", opt(m.tag(tmi::Tag::parse(q)), text)),
            ("form", word(form)),
            ("tag", opt(ans, text)),
          ])
        }))),
      ])
    }};
  }
  view(views, "ref", || match IrcMessageRef::parse(s) {
    Some(m) => answers!(&m),
    None => none(),
  });
  view(views, "owned", || match IrcMessage::parse(s) {
    Some(m) => answers!(&m),
    None => none(),
  });
}

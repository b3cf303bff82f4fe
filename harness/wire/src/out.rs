//! Minimal JSON writer for the shapes the specification uses.

pub struct J(pub String);

pub fn text(s: impl AsRef<str>) -> J {
  let s = s.as_ref();
  let mut o = String::with_capacity(s.len() * 4 + 2);
  o.push('[');
  for (i, c) in s.chars().enumerate() {
    if i > 0 {
      o.push(',');
    }
    o.push_str(&(c as u32).to_string());
  }
  o.push(']');
  J(o)
}

pub fn num(n: impl std::fmt::Display) -> J {
  text(n.to_string())
}

pub fn flag(b: bool) -> J {
  J(b.to_string())
}

pub fn word(s: impl AsRef<str>) -> J {
  J(serde_json::to_string(s.as_ref()).unwrap())
}

pub fn opt<T>(o: Option<T>, f: impl FnOnce(T) -> J) -> J {
  match o {
    None => J("[]".into()),
    Some(v) => J(format!("[{}]", f(v).0)),
  }
}

pub fn list(items: impl IntoIterator<Item = J>) -> J {
  let v: Vec<String> = items.into_iter().map(|j| j.0).collect();
  J(format!("[{}]", v.join(",")))
}

pub fn obj<const N: usize>(fields: [(&str, J); N]) -> J {
  let v: Vec<String> = fields.into_iter().map(|(k, j)| format!("\"{k}\":{}", j.0)).collect();
  J(format!("{{{}}}", v.join(",")))
}

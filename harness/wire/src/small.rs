use crate::{out::*, view, Views};
use std::borrow::Cow;
use tmi::PinnedChatLevel;

pub fn unescape(s: &str, views: &mut Views) {
  view(views, "eager", || obj([("text", text(tmi::unescape(s))), ("alloc", flag(true))]));
  view(views, "lazy", || {
    let r = tmi::maybe_unescape(s);
    let same = match &r {
      Cow::Borrowed(b) => std::ptr::eq(*b, s),
      Cow::Owned(_) => false,
    };
    obj([("text", text(&r)), ("alloc", flag(!same))])
  });
  view(views, "lazy_owned", || {
    let owned = s.to_string();
    let p = owned.as_ptr();
    let r = tmi::maybe_unescape(owned);
    let same = r.as_ptr() == p && !s.is_empty();
    // an empty string has no allocation to compare
    obj([("text", text(&r)), ("alloc", flag(!same && !s.is_empty()))])
  });
}

pub fn levels(views: &mut Views) {
  view(views, "levels", || {
    obj([("all", list((0..=255u8).map(|n| {
      opt(PinnedChatLevel::try_from(n).ok(), |l| {
        let name = l.as_str();
        obj([
          ("name", word(name)),
          ("debug", word(format!("{l:?}"))),
          ("back", flag(u8::from(l) == n && name.parse::<PinnedChatLevel>() == Ok(l))),
        ])
      })
    })))])
  });
}

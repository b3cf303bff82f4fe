use crate::{out::*, view, Views};
use serde::Deserialize;
use tmi::msg::*;
use tmi::{FromIrc, IrcMessage, IrcMessageRef};

fn ts(t: chrono::DateTime<chrono::Utc>) -> J {
  num(t.timestamp_millis())
}

fn user(u: &User<'_>) -> J {
  obj([("id", text(u.id())), ("login", text(u.login())), ("name", text(u.name()))])
}

fn badge(b: &Badge<'_>) -> J {
  let (v, months) = match b {
    Badge::Staff => ("Staff", None),
    Badge::Turbo => ("Turbo", None),
    Badge::Broadcaster => ("Broadcaster", None),
    Badge::Moderator => ("Moderator", None),
    Badge::Subscriber(s) => {
      same!(s.version(), b.as_badge_data().version());
      ("Subscriber", Some(s.months()))
    }
    Badge::Other(_) => ("Other", None),
  };
  let d = b.as_badge_data();
  obj([
    ("v", word(v)),
    ("name", text(d.name())),
    ("version", text(d.version())),
    ("extra", opt(d.extra(), text)),
    ("months", opt(months, num)),
  ])
}

fn badges<'a, 'b: 'a>(n: usize, i: impl DoubleEndedIterator<Item = &'a Badge<'b>> + ExactSizeIterator) -> J {
  same!(n, i.len());
  let all: Vec<_> = i.collect();
  same!(n, all.len());
  list(all.into_iter().map(badge))
}

fn sets<'a>(n: usize, i: impl DoubleEndedIterator<Item = &'a str> + ExactSizeIterator) -> J {
  same!(n, i.len());
  list(i.map(text))
}

fn secs(d: std::time::Duration) -> J {
  same!(d.subsec_nanos(), 0);
  num(d.as_secs())
}

/// What the accessors say, in the shape of `Typed!Msg`.
pub trait Show {
  fn show(&self) -> J;
}

fn msg<const N: usize>(kind: &str, f: [(&str, J); N]) -> J {
  obj([("kind", word(kind)), ("f", if N == 0 { J("[]".into()) } else { obj(f) })])
}

impl Show for ClearChat<'_> {
  fn show(&self) -> J {
    let a = self.action();
    let action = match a {
      Action::Clear => obj([("k", word("Clear"))]),
      Action::Ban(b) => obj([("k", word("Ban")), ("user", text(b.user())), ("id", text(b.id()))]),
      Action::TimeOut(t) => obj([
        ("k", word("TimeOut")),
        ("user", text(t.user())),
        ("id", text(t.id())),
        ("secs", secs(t.duration())),
      ]),
    };
    same!(a.is_clear(), matches!(a, Action::Clear));
    same!(a.is_ban(), matches!(a, Action::Ban(_)));
    same!(a.is_time_out(), matches!(a, Action::TimeOut(_)));
    msg("ClearChat", [
      ("channel", text(self.channel())),
      ("channel_id", text(self.channel_id())),
      ("ts", ts(self.timestamp())),
      ("target", opt(self.target(), text)),
      ("action", action),
    ])
  }
}

impl Show for ClearMsg<'_> {
  fn show(&self) -> J {
    msg("ClearMsg", [
      ("channel", text(self.channel())),
      ("channel_id", text(self.channel_id())),
      ("sender", text(self.sender())),
      ("target_message_id", text(self.target_message_id())),
      ("text", text(self.text())),
      ("is_action", flag(self.is_action())),
      ("ts", ts(self.timestamp())),
    ])
  }
}

impl Show for GlobalUserState<'_> {
  fn show(&self) -> J {
    msg("GlobalUserState", [
      ("id", text(self.id())),
      ("name", text(self.name())),
      ("badges", badges(self.num_badges(), self.badges())),
      ("emote_sets", sets(self.num_emote_sets(), self.emote_sets())),
      ("color", opt(self.color(), text)),
    ])
  }
}

impl Show for UserState<'_> {
  fn show(&self) -> J {
    msg("UserState", [
      ("channel", text(self.channel())),
      ("name", text(self.user_name())),
      ("badges", badges(self.num_badges(), self.badges())),
      ("emote_sets", sets(self.num_emote_sets(), self.emote_sets())),
      ("color", opt(self.color(), text)),
    ])
  }
}

impl Show for Join<'_> {
  fn show(&self) -> J {
    msg("Join", [("channel", text(self.channel())), ("user", text(self.user()))])
  }
}

impl Show for Part<'_> {
  fn show(&self) -> J {
    msg("Part", [("channel", text(self.channel())), ("user", text(self.user()))])
  }
}

impl Show for Notice<'_> {
  fn show(&self) -> J {
    msg("Notice", [
      ("channel", opt(self.channel(), text)),
      ("text", text(self.text())),
      ("id", opt(self.id(), text)),
    ])
  }
}

impl Show for Ping<'_> {
  fn show(&self) -> J {
    msg("Ping", [("nonce", opt(self.nonce(), text))])
  }
}

impl Show for Pong<'_> {
  fn show(&self) -> J {
    msg("Pong", [("nonce", opt(self.nonce(), text))])
  }
}

impl Show for Privmsg<'_> {
  fn show(&self) -> J {
    msg("Privmsg", [
      ("channel", text(self.channel())),
      ("channel_id", text(self.channel_id())),
      ("msg_id", opt(self.msg_id(), text)),
      ("id", text(self.id())),
      ("sender", user(self.sender())),
      ("reply", opt(self.reply_to(), |r| obj([
        ("thread_parent_message_id", text(r.thread_parent_message_id())),
        ("thread_parent_user_login", text(r.thread_parent_user_login())),
        ("message_id", text(r.message_id())),
        ("sender", user(r.sender())),
        ("text", text(r.text())),
      ]))),
      ("pinned", opt(self.pinned_chat(), |p| obj([
        ("amount", num(p.paid_amount())),
        ("currency", text(p.paid_currency())),
        ("exponent", num(p.paid_exponent())),
        ("level", text(p.paid_level().as_str())),
        ("is_system", flag(p.is_system_message())),
      ]))),
      ("text", text(self.text())),
      ("is_action", flag(self.is_action())),
      ("badges", badges(self.num_badges(), self.badges())),
      ("color", opt(self.color(), text)),
      ("reward", opt(self.custom_reward_id(), text)),
      ("bits", opt(self.bits(), num)),
      ("emotes", text(self.raw_emotes())),
      ("ts", ts(self.timestamp())),
    ])
  }
}

impl Show for RoomState<'_> {
  fn show(&self) -> J {
    msg("RoomState", [
      ("channel", text(self.channel())),
      ("channel_id", text(self.channel_id())),
      ("emote_only", opt(self.emote_only(), flag)),
      ("followers_only", opt(self.followers_only(), |f| match f {
        FollowersOnly::Disabled => obj([("k", word("Disabled")), ("secs", opt(None::<u8>, num))]),
        FollowersOnly::Enabled(d) => obj([("k", word("Enabled")), ("secs", opt(d, secs))]),
      })),
      ("r9k", opt(self.r9k(), flag)),
      ("slow", opt(self.slow(), secs)),
      ("subs_only", opt(self.subs_only(), flag)),
    ])
  }
}

impl Show for Whisper<'_> {
  fn show(&self) -> J {
    msg("Whisper", [
      ("recipient", text(self.recipient())),
      ("text", text(self.text())),
      ("sender", user(&self.sender())),
      ("badges", badges(self.num_badges(), self.badges())),
      ("color", opt(self.color(), text)),
      ("emotes", text(self.raw_emotes())),
    ])
  }
}

fn promo(p: &SubGiftPromo<'_>) -> J {
  obj([("total", num(p.total_gifts())), ("name", text(p.promo_name()))])
}

fn event(e: &Event<'_>) -> J {
  match e {
    Event::SubOrResub(e) => obj([
      ("k", word("SubOrResub")),
      ("is_resub", flag(e.is_resub())),
      ("cumulative_months", num(e.cumulative_months())),
      ("streak_months", opt(e.streak_months(), num)),
      ("sub_plan", text(e.sub_plan())),
      ("sub_plan_name", text(e.sub_plan_name())),
    ]),
    Event::Raid(e) => obj([
      ("k", word("Raid")),
      ("viewer_count", num(e.viewer_count())),
      ("profile", text(e.profile_image_url())),
    ]),
    Event::SubGift(e) => obj([
      ("k", word("SubGift")),
      ("cumulative_months", num(e.cumulative_months())),
      ("recipient", user(e.recipient())),
      ("sub_plan", text(e.sub_plan())),
      ("sub_plan_name", text(e.sub_plan_name())),
      ("num_gifted_months", num(e.num_gifted_months())),
    ]),
    Event::SubMysteryGift(e) => obj([
      ("k", word("SubMysteryGift")),
      ("count", num(e.count())),
      ("sender_total_gifts", num(e.sender_total_gifts())),
      ("sub_plan", text(e.sub_plan())),
    ]),
    Event::AnonSubMysteryGift(e) => obj([
      ("k", word("AnonSubMysteryGift")),
      ("count", num(e.count())),
      ("sub_plan", text(e.sub_plan())),
    ]),
    Event::GiftPaidUpgrade(e) => obj([
      ("k", word("GiftPaidUpgrade")),
      ("gifter_login", text(e.gifter_login())),
      ("gifter_name", text(e.gifter_name())),
      ("promotion", opt(e.promotion(), promo)),
    ]),
    Event::AnonGiftPaidUpgrade(e) => obj([
      ("k", word("AnonGiftPaidUpgrade")),
      ("promotion", opt(e.promotion(), promo)),
    ]),
    Event::Ritual(e) => obj([("k", word("Ritual")), ("name", text(e.name()))]),
    Event::BitsBadgeTier(e) => obj([("k", word("BitsBadgeTier")), ("tier", num(e.tier()))]),
    Event::Announcement(e) => obj([("k", word("Announcement")), ("color", text(e.highlight_color()))]),
    Event::Unknown => obj([("k", word("Unknown"))]),
    _ => obj([("k", word("?"))]),
  }
}

impl Show for UserNotice<'_> {
  fn show(&self) -> J {
    msg("UserNotice", [
      ("channel", text(self.channel())),
      ("channel_id", text(self.channel_id())),
      ("sender", opt(self.sender(), user)),
      ("text", opt(self.text(), text)),
      ("system_message", opt(self.system_message(), text)),
      ("event", event(self.event())),
      ("event_id", text(self.event_id())),
      ("badges", badges(self.num_badges(), self.badges())),
      ("emotes", text(self.raw_emotes())),
      ("color", opt(self.color(), text)),
      ("message_id", text(self.message_id())),
      ("ts", ts(self.timestamp())),
    ])
  }
}

impl Show for Message<'_> {
  fn show(&self) -> J {
    match self {
      Message::ClearChat(m) => m.show(),
      Message::ClearMsg(m) => m.show(),
      Message::GlobalUserState(m) => m.show(),
      Message::Join(m) => m.show(),
      Message::Notice(m) => m.show(),
      Message::Part(m) => m.show(),
      Message::Ping(m) => m.show(),
      Message::Pong(m) => m.show(),
      Message::Privmsg(m) => m.show(),
      Message::Reconnect => msg("Reconnect", []),
      Message::RoomState(m) => m.show(),
      Message::UserNotice(m) => m.show(),
      Message::UserState(m) => m.show(),
      Message::Whisper(m) => m.show(),
      Message::Other(m) => msg("Other", [("raw", text(m.raw()))]),
    }
  }
}

fn err() -> J {
  obj([("kind", word("Err"))])
}

fn result<T: Show, E>(r: Result<T, E>) -> J {
  match r {
    Ok(m) => {
      m.show()
    }
    Err(_) => err(),
  }
}

fn eq_show<T: Show>(eq: bool, m: &T) -> J {
  if eq {
    m.show()
  } else {
    obj([("kind", word("NotEqual"))])
  }
}

fn codec_err() -> J {
  obj([("kind", word("CodecError"))])
}

/// Everything that goes through one message type: its own parser, the detached copy, and the
/// serialised forms.
macro_rules! per_type {
  ($s:expr, $views:expr, $($T:ident),*) => {{
    let s: &str = $s;
    let mut accepts = Vec::new();
    $(
      {
        let own = std::panic::catch_unwind(|| {
          IrcMessageRef::parse(s).map(|m| $T::from_irc(m).is_ok()).unwrap_or(false)
        });
        match own {
          Ok(true) => accepts.push(word(stringify!($T))),
          Ok(false) => {}
          Err(_) => accepts.push(word("panic")),
        }
      }
    )*
    view($views, "accepts", || obj([("kinds", list(accepts))]));
    $(
      let parsed = std::panic::catch_unwind(|| {
        matches!(IrcMessageRef::parse(s).map($T::from_irc), Some(Ok(_)))
      });
      if let Ok(true) = parsed {
        let get = || $T::from_irc(IrcMessageRef::parse(s).unwrap()).unwrap();
        view($views, "own", || get().show());
        view($views, "clone", || { let m = get(); eq_show(m == m.clone(), &m.clone()) });
        view($views, "debug", || { let m = get(); let _ = format!("{m:?} {m:#?}"); m.show() });
        view($views, "detached", || {
          // the copy has to outlive its source
          let copy = s.to_string();
          let owned = $T::from_irc(IrcMessageRef::parse(&copy).unwrap()).unwrap().into_owned();
          let mut bytes = copy.into_bytes();
          bytes.fill(b'!');
          drop(bytes);
          let eq = owned == get();
          eq_show(eq, &owned)
        });
        view($views, "detached_twice", || {
          let owned = get().into_owned().into_owned();
          let eq = get() == owned;
          eq_show(eq, &owned)
        });
        view($views, "serde_text", || match serde_json::to_string(&get()) {
          Err(_) => codec_err(),
          Ok(json) => match serde_json::from_str::<$T>(&json) {
            Err(_) => codec_err(),
            Ok(m) => eq_show(m == get(), &m),
          },
        });
        view($views, "serde_pretty", || match serde_json::to_vec_pretty(&get().into_owned()) {
          Err(_) => codec_err(),
          Ok(json) => match serde_json::from_slice::<$T>(&json) {
            Err(_) => codec_err(),
            Ok(m) => eq_show(m == get(), &m),
          },
        });
        view($views, "serde_detached", || match serde_json::to_string(&get()) {
          Err(_) => codec_err(),
          Ok(mut json) => {
            let m = match serde_json::from_str::<$T>(&json) {
              Err(_) => return codec_err(),
              Ok(m) => m.into_owned(),
            };
            json.clear();
            json.push_str(&"!".repeat(json.capacity()));
            drop(json);
            eq_show(m == get(), &m)
          }
        });
        view($views, "serde_value", || match serde_json::to_value(get()) {
          Err(_) => codec_err(),
          Ok(v) => match $T::deserialize(&v) {
            Err(_) => codec_err(),
            Ok(m) => eq_show(m == get(), &m),
          },
        });
        // a format which neither names fields nor describes what it holds
        view($views, "serde_binary", || match bincode::serialize(&get()) {
          Err(_) => codec_err(),
          Ok(bytes) => match bincode::deserialize::<$T>(&bytes) {
            Err(_) => codec_err(),
            Ok(m) => eq_show(m == get(), &m),
          },
        });
        view($views, "serde_twice", || {
          let once = match serde_json::to_string(&get()) {
            Err(_) => return codec_err(),
            Ok(j) => j,
          };
          let back = match serde_json::from_str::<$T>(&once) {
            Err(_) => return codec_err(),
            Ok(m) => m,
          };
          match serde_json::to_string(&back) {
            Err(_) => codec_err(),
            Ok(twice) => eq_show(twice == once, &back),
          }
        });
      }
    )*
  }};
}

/// Serialises and reads back a part of a message, from JSON text and from a JSON value.
macro_rules! codec {
  ($v:expr) => {{
    let v = $v;
    let json = serde_json::to_string(v).unwrap_or_default();
    let mut text_ok = false;
    if let Ok(mut w) = serde_json::from_str(&json) {
      text_ok = w == *v;
      // fixes the type of `w`
      w = v.clone();
      let _ = w;
    }
    let json = serde_json::to_value(v).unwrap_or_default();
    let mut value_ok = false;
    if let Ok(mut w) = Deserialize::deserialize(&json) {
      value_ok = w == *v;
      w = v.clone();
      let _ = w;
    }
    let bytes = bincode::serialize(v).unwrap_or_default();
    let mut binary_ok = false;
    if let Ok(mut w) = bincode::deserialize(&bytes) {
      binary_ok = w == *v;
      w = v.clone();
      let _ = w;
    }
    text_ok && value_ok && binary_ok
  }};
}

pub fn run(s: &str, views: &mut Views) {
  view(views, "ref", || match IrcMessageRef::parse(s) {
    Some(m) => result(m.as_typed()),
    None => err(),
  });
  view(views, "owned", || match IrcMessage::parse(s) {
    Some(m) => result(m.as_typed()),
    None => err(),
  });
  view(views, "parse", || result(Message::parse(s)));
  view(views, "try_from", || match IrcMessageRef::parse(s) {
    Some(m) => result(Message::try_from(m)),
    None => err(),
  });
  view(views, "clone_all", || result(Message::parse(s).map(|m| m.clone())));
  view(views, "from_part", || match IrcMessageRef::parse(s) {
    // through From<T> for Message
    Some(m) => result(Message::from_irc(m).map(|m| match m {
      Message::Privmsg(p) => Message::from(p),
      Message::ClearChat(p) => Message::from(p),
      Message::UserNotice(p) => Message::from(p),
      m => m,
    })),
    None => err(),
  });
  per_type!(
    s, views, ClearChat, ClearMsg, GlobalUserState, Join, Notice, Part, Ping, Pong, Privmsg,
    RoomState, UserNotice, UserState, Whisper
  );
  pieces(s, views);
}

/// The parts which are types of their own: badges, users, events, actions.
fn pieces(s: &str, views: &mut Views) {
  fn badges_ok<'a, 'b: 'a>(i: impl Iterator<Item = &'a Badge<'b>>) -> (bool, bool) {
    let (mut same, mut coded) = (true, true);
    for b in i {
      let o: Badge<'static> = b.clone().into_owned();
      let d: BadgeData<'static> = b.as_badge_data().into_owned();
      same &= o == *b && d == b.as_badge_data() && Badge::from(d.clone()) == *b;
      if let Badge::Subscriber(sub) = b {
        let o: Subscriber<'static> = sub.clone().into_owned();
        same &= o == *sub && o.months() == sub.months();
        coded &= codec!(&o);
      }
      coded &= codec!(&o) && codec!(&d);
    }
    (same, coded)
  }
  view(views, "pieces", || {
    let r = match Message::parse(s) {
      Ok(Message::Privmsg(m)) => {
        let (mut a, mut b) = badges_ok(m.badges());
        let u = m.sender().clone().into_owned();
        a &= u == *m.sender();
        b &= codec!(&u);
        if let Some(r) = m.reply_to() {
          let o = r.clone().into_owned();
          a &= o == *r && o.text() == r.text();
          b &= codec!(&o);
        }
        if let Some(p) = m.pinned_chat() {
          let o = p.clone().into_owned();
          a &= o == *p;
          b &= codec!(&o) && codec!(&p.paid_level());
        }
        (a, b)
      }
      Ok(Message::Whisper(m)) => badges_ok(m.badges()),
      Ok(Message::UserState(m)) => badges_ok(m.badges()),
      Ok(Message::GlobalUserState(m)) => badges_ok(m.badges()),
      Ok(Message::UserNotice(m)) => {
        let (mut a, mut b) = badges_ok(m.badges());
        let e = m.event().clone().into_owned();
        a &= e == *m.event();
        b &= codec!(&e);
        if let Some(u) = m.sender() {
          let o = u.clone().into_owned();
          a &= o == *u;
          b &= codec!(&o);
        }
        (a, b)
      }
      Ok(Message::ClearChat(m)) => {
        let o = m.action().clone().into_owned();
        (o == *m.action(), codec!(&o))
      }
      Ok(Message::RoomState(m)) => match m.followers_only() {
        Some(f) => (true, codec!(&f)),
        None => (true, true),
      },
      _ => (true, true),
    };
    obj([("same", flag(r.0)), ("coded", flag(r.1))])
  });
}

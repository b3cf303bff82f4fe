From 278b6aed16e25c8cd8014a9847bab32f645ab7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 01/18] verification hook: replaceable transport behind
 cfg(tmi_verif)

---
 src/client/conn.rs | 45 +++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/client/conn.rs b/src/client/conn.rs
index 1546323..de082df 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(tmi_verif)
+
 use std::fmt::Display;
 use std::io;
 use std::sync::Arc;
@@ -9,8 +11,12 @@ use tokio_rustls::{rustls, TlsConnector};
 pub const HOST: &str = "irc.chat.twitch.tv";
 pub const PORT: u16 = 6697;
 
+#[cfg(not(tmi_verif))]
 pub type Stream = TlsStream<TcpStream>;
+#[cfg(tmi_verif)]
+pub use verif::{open, Stream};
 
+#[cfg(not(tmi_verif))]
 pub async fn open(config: TlsConfig) -> Result<Stream, OpenStreamError> {
   trace!(?config, "opening tls stream to twitch");
   Ok(
@@ -110,3 +116,42 @@ impl Display for TlsConfigError {
 }
 
 impl std::error::Error for TlsConfigError {}
+
+/// Verification hook: the transport is provided by the current thread instead of the network.
+///
+/// Only compiled with `--cfg tmi_verif`.
+#[cfg(tmi_verif)]
+pub mod verif {
+  use super::{OpenStreamError, TlsConfig};
+  use std::cell::RefCell;
+  use std::future::Future;
+  use std::io;
+  use std::pin::Pin;
+  use tokio::io::{AsyncRead, AsyncWrite};
+
+  pub trait Transport: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
+  impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Transport for T {}
+
+  pub type Stream = Box<dyn Transport>;
+  pub type Opening = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send + Sync>>;
+  pub type Opener = Box<dyn FnMut() -> Opening>;
+
+  thread_local! {
+    static OPENER: RefCell<Option<Opener>> = const { RefCell::new(None) };
+  }
+
+  /// Set the function which opens every further connection made by this thread.
+  pub fn set_opener(opener: Opener) {
+    OPENER.with(|cell| *cell.borrow_mut() = Some(opener));
+  }
+
+  pub async fn open(config: TlsConfig) -> Result<Stream, OpenStreamError> {
+    trace!(?config, "opening verification stream");
+    let opening = OPENER.with(|cell| {
+      let mut opener = cell.borrow_mut();
+      let opener = opener.as_mut().expect("no opener set for this thread");
+      opener()
+    });
+    Ok(opening.await?)
+  }
+}
-- 
2.43.0


From 748bf4689ee85ee0fb9e1c5f832591eec1c12eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 02/18] fix: IrcMessage::text returns all params when there is
 no `:`

IrcMessageRef::text already did, and the changelog documents it.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..ab3b9a9 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From 7401fc4eba5eab654eaecbee9d2fd6b32122e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 03/18] fix: wire name of Tag::PinnedChatPaidCanonicalAmount

---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..955b216 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From 860dc297eb06acb2f75c3a3a82871192ed07148e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 04/18] fix: messages with more than 128 tags no longer panic

---
 src/irc/tags.rs        | 27 ++++++++++++++++++++++++---
 src/irc/tags/scalar.rs |  2 +-
 src/irc/tags/simd.rs   |  2 +-
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 955b216..0b89f94 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  /// Items which were moved out of `data` because it was full.
+  spilled: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,19 +278,38 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        spilled: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.spill();
+    }
     self.data[self.len].write(value);
     self.len += 1;
   }
 
-  fn to_vec(&self) -> Vec<T> {
+  #[cold]
+  fn spill(&mut self) {
+    let mut spilled = std::mem::take(&mut self.spilled);
+    spilled.extend_from_slice(self.init());
+    self.spilled = spilled;
+    self.len = 0;
+  }
+
+  fn init(&self) -> &[T] {
     let init = &self.data[..self.len];
-    let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) }
+  }
+
+  fn into_vec(mut self) -> Vec<T> {
+    if self.spilled.is_empty() {
+      return self.init().to_vec();
+    }
+    self.spill();
+    self.spilled
   }
 }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..4254ac6 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -48,7 +48,7 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
 
   *pos += offset + 2; // skip '@' + space
 
-  Some(RawTags(tags.to_vec()))
+  Some(RawTags(tags.into_vec()))
 }
 
 #[derive(Clone, Copy)]
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..5e3a406 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -38,7 +38,7 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     }
   }
 
-  Some(RawTags(tags.to_vec()))
+  Some(RawTags(tags.into_vec()))
 }
 
 #[derive(Clone, Copy)]
-- 
2.43.0


From ddf01bcb3fb0407a4be0f39dedc3c3bf64a32804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 05/18] fix: tag keys and values longer than 64 KiB are no
 longer truncated

---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 0b89f94..2aeb4b1 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 4254ac6..c008f30 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -22,8 +22,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -34,8 +34,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         break;
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index 5e3a406..4c7d2ad 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From b5f93242e0b975f63497a19ad57eb0c696c1761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 06/18] fix: scalar tag parser no longer panics when the tags
 are not followed by a space

It now treats such a message in the same way as the SIMD parser.
---
 src/irc/tags/scalar.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index c008f30..76ac4e3 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -46,6 +46,11 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
+  if offset == src.len() {
+    // no ASCII space, so there is no end to the tags
+    return None;
+  }
+
   *pos += offset + 2; // skip '@' + space
 
   Some(RawTags(tags.into_vec()))
-- 
2.43.0


From 15d846b136530615dd1be230ef0f4b0625fe1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 07/18] fix: an unknown escape no longer affects the characters
 after it

---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index ab3b9a9..3dd4d4d 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -363,9 +363,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..462587f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,8 +85,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From d3391339ac4b6be33a27831b32c5ad59872528c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 08/18] =?UTF-8?q?fix:=20maybe=5Funescape=20replaces=20`?=
 =?UTF-8?q?=E2=B8=9D`=20even=20if=20nothing=20before=20it=20is=20escaped?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The result is now always the same as that of unescape.
---
 src/lib.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 462587f..9ea0fd9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -47,11 +47,8 @@ use std::borrow::Cow;
 /// Otherwise, it returns a borrow of the original `value`.
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
-  for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
-      value = Cow::Owned(actually_unescape(&value, i));
-      break;
-    }
+  if let Some(i) = value.find(['\\', '⸝']) {
+    value = Cow::Owned(actually_unescape(&value, i));
   }
   value
 }
-- 
2.43.0


From bca6f950e13bd64ade0aa8d6c5191e2325e1df7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 09/18] fix: followers-only duration no longer overflows

---
 src/msg/room_state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..059a315 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,9 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => {
+            FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60))))
+          }
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From d288f3f6dd3a2b59ff0229bd538a7652f4f2af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 10/18] fix: subscriber badges with a non-numeric month count
 can be deserialized again

---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0


From afe77307c5fb6e7b5eb6cde4bb5dd3610d2d878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 11/18] fix: an interrupted handshake is not sent again by the
 next one

---
 src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..88dc467 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,6 +324,8 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
+    // a previous handshake may have been interrupted before its scratch was cleared
+    self.scratch.clear();
     write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
-- 
2.43.0


From c10233b106fcc9b108b93e43d0da361008205018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 12/18] fix: flush the connection after sending a message

---
 src/client/write.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..f6b4602 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,7 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From 2373cae9cbaeb068cb777132e5661b2336f159b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 13/18] fix: badges are kept when the message has no badge-info
 tag

---
 src/msg/global_user_state.rs | 3 +--
 src/msg/privmsg.rs           | 6 ++----
 src/msg/user_notice.rs       | 3 +--
 src/msg/user_state.rs        | 3 +--
 src/msg/whisper.rs           | 3 +--
 5 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/msg/global_user_state.rs b/src/msg/global_user_state.rs
index dbe320a..1fb95c8 100644
--- a/src/msg/global_user_state.rs
+++ b/src/msg/global_user_state.rs
@@ -73,8 +73,7 @@ impl<'src> GlobalUserState<'src> {
       name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/privmsg.rs b/src/msg/privmsg.rs
index 98b2ca6..ca92cc1 100644
--- a/src/msg/privmsg.rs
+++ b/src/msg/privmsg.rs
@@ -321,8 +321,7 @@ generate_getters! {
   is_action,
   badges: message
     .tag(Tag::Badges)
-    .zip(message.tag(Tag::BadgeInfo))
-    .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+    .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
     .unwrap_or_default(),
   color: message
     .tag(Tag::Color)
@@ -386,8 +385,7 @@ impl<'src> Privmsg<'src> {
     let text = text.into();
     let badges = message
       .tag(Tag::Badges)
-      .zip(message.tag(Tag::BadgeInfo))
-      .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+      .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
       .unwrap_or_default();
     let color = message
       .tag(Tag::Color)
diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 316a0ee..81d2db0 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -601,8 +601,7 @@ impl<'src> UserNotice<'src> {
       event_id: event_id.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
       color: message
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 69f8c99..3cbb544 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -76,8 +76,7 @@ impl<'src> UserState<'src> {
       user_name: message.tag(Tag::DisplayName)?.into(),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emote_sets: message
         .tag(Tag::EmoteSets)
diff --git a/src/msg/whisper.rs b/src/msg/whisper.rs
index 1df8148..441e66a 100644
--- a/src/msg/whisper.rs
+++ b/src/msg/whisper.rs
@@ -83,8 +83,7 @@ impl<'src> Whisper<'src> {
         .map(|v| v.into()),
       badges: message
         .tag(Tag::Badges)
-        .zip(message.tag(Tag::BadgeInfo))
-        .map(|(badges, badge_info)| parse_badges(badges, badge_info))
+        .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
         .unwrap_or_default(),
       emotes: message.tag(Tag::Emotes).unwrap_or_default().into(),
     })
-- 
2.43.0


From 8dae11a34fc3977727d0b23906c61cd7936ff0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 14/18] fix: unescape the user name of UserState and the names
 in gift upgrades

---
 src/msg/user_notice.rs | 4 ++--
 src/msg/user_state.rs  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/msg/user_notice.rs b/src/msg/user_notice.rs
index 81d2db0..4788ce1 100644
--- a/src/msg/user_notice.rs
+++ b/src/msg/user_notice.rs
@@ -450,7 +450,7 @@ fn parse_promotion<'src>(message: &IrcMessageRef<'src>) -> Option<SubGiftPromo<'
   ) {
     (Some(total_gifts), Some(promo_name)) => Some(SubGiftPromo {
       total_gifts,
-      promo_name: promo_name.into(),
+      promo_name: maybe_unescape(promo_name),
     }),
     _ => None,
   }
@@ -544,7 +544,7 @@ impl<'src> UserNotice<'src> {
       "giftpaidupgrade" => (
         Event::GiftPaidUpgrade(GiftPaidUpgrade {
           gifter_login: message.tag(Tag::MsgParamSenderLogin)?.into(),
-          gifter_name: message.tag(Tag::MsgParamSenderName)?.into(),
+          gifter_name: maybe_unescape(message.tag(Tag::MsgParamSenderName)?),
           promotion: parse_promotion(&message),
         }),
         false,
diff --git a/src/msg/user_state.rs b/src/msg/user_state.rs
index 3cbb544..67861b8 100644
--- a/src/msg/user_state.rs
+++ b/src/msg/user_state.rs
@@ -5,7 +5,9 @@
 //!
 //! For example, [`UserState::badges`] may be different from [`GlobalUserState::badges`][crate::msg::global_user_state::GlobalUserState::badges].
 
-use super::{is_not_empty, maybe_clone, parse_badges, split_comma, Badge, MessageParseError};
+use super::{
+  is_not_empty, maybe_clone, maybe_unescape, parse_badges, split_comma, Badge, MessageParseError,
+};
 use crate::irc::{Command, IrcMessageRef, Tag};
 use std::borrow::Cow;
 
@@ -73,7 +75,7 @@ impl<'src> UserState<'src> {
 
     Some(UserState {
       channel: message.channel()?.into(),
-      user_name: message.tag(Tag::DisplayName)?.into(),
+      user_name: maybe_unescape(message.tag(Tag::DisplayName)?),
       badges: message
         .tag(Tag::Badges)
         .map(|badges| parse_badges(badges, message.tag(Tag::BadgeInfo).unwrap_or_default()))
-- 
2.43.0


From 4074b7fb989037164475801caaa4b565362352dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 15/18] fix: a connection reset is a disconnect

---
 src/client/read.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/read.rs b/src/client/read.rs
index 9b2e59a..dd4128c 100644
--- a/src/client/read.rs
+++ b/src/client/read.rs
@@ -42,7 +42,10 @@ impl RecvError {
       RecvError::Io(e)
         if matches!(
           e.kind(),
-          io::ErrorKind::UnexpectedEof | io::ErrorKind::ConnectionAborted | io::ErrorKind::TimedOut
+          io::ErrorKind::UnexpectedEof
+            | io::ErrorKind::ConnectionAborted
+            | io::ErrorKind::ConnectionReset
+            | io::ErrorKind::TimedOut
         ) =>
       {
         true
-- 
2.43.0


From 13b0e1308c5b56cb5cd96b53bc13aebe70513a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 16/18] fix: escape the values of tags in outgoing messages

---
 src/client/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index f6b4602..90482a1 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -1,7 +1,7 @@
 use super::{conn, Client};
 use crate::common::JoinIter;
 use std::convert::Infallible;
-use std::fmt::Display;
+use std::fmt::{Display, Write};
 use tokio::io;
 use tokio::io::{AsyncWriteExt, WriteHalf};
 
@@ -23,8 +23,18 @@ struct Tag<'a> {
 impl<'a> std::fmt::Display for Tag<'a> {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
     let Self { key, value } = self;
-    // TODO: handle escaping
-    write!(f, "{key}={value}")
+    write!(f, "{key}=")?;
+    for c in value.chars() {
+      match c {
+        ';' => f.write_str("\\:")?,
+        ' ' => f.write_str("\\s")?,
+        '\\' => f.write_str("\\\\")?,
+        '\r' => f.write_str("\\r")?,
+        '\n' => f.write_str("\\n")?,
+        c => f.write_char(c)?,
+      }
+    }
+    Ok(())
   }
 }
 
-- 
2.43.0


From 2c63785ad0d7b2367389e51ca371c8e2a4766afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:51 +0000
Subject: [PATCH 17/18] fix: refuse to send messages with a line break in one
 of their parts

It would have been sent as another command.
---
 src/client/write.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/client/write.rs b/src/client/write.rs
index 90482a1..19cf55c 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -76,7 +76,7 @@ impl<'a> Privmsg<'a> {
         let _ = write!(f, "@{tags} ");
       }
       let _ = write!(f, "PRIVMSG {channel} :{text}\r\n");
-      client.send_raw(f.as_str()).await
+      client.send_line(f.as_str()).await
     })
   }
 }
@@ -99,6 +99,17 @@ impl Client {
     Ok(())
   }
 
+  /// Send a single line which was built from user-provided parts.
+  ///
+  /// A line break in any of the parts would start another command, so it is rejected.
+  async fn send_line(&mut self, line: &str) -> Result<(), SendError> {
+    let content = line.strip_suffix("\r\n").unwrap_or(line);
+    if content.contains(['\r', '\n']) {
+      return Err(InvalidMessage.into());
+    }
+    self.send_raw(line).await
+  }
+
   /// Create a `privmsg` from a `channel` and `text`.
   ///
   /// ```rust,no_run
@@ -131,7 +142,7 @@ impl Client {
   pub async fn ping(&mut self, nonce: &str) -> Result<(), SendError> {
     with_scratch!(self, |f| {
       let _ = write!(f, "PING :{nonce}\r\n");
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 
@@ -143,7 +154,7 @@ impl Client {
       } else {
         let _ = write!(f, "PONG\r\n");
       }
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 
@@ -156,7 +167,7 @@ impl Client {
     with_scratch!(self, |f| {
       let channel = Channel(channel);
       let _ = write!(f, "JOIN {channel}\r\n");
-      Ok(self.send_raw(f.as_str()).await?)
+      Ok(self.send_line(f.as_str()).await?)
     })
   }
 
@@ -181,7 +192,7 @@ impl Client {
         let _ = write!(f, ",{channel}");
       }
       let _ = f.write_str("\r\n");
-      self.send_raw(f.as_str()).await
+      self.send_line(f.as_str()).await
     })
   }
 }
@@ -282,7 +293,7 @@ pub struct RawMessage<'a> {
 pub struct InvalidMessage;
 impl std::fmt::Display for InvalidMessage {
   fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-    f.write_str("not terminated by \"\\r\\n\"")
+    f.write_str("not terminated by \"\\r\\n\", or contains another line break")
   }
 }
 impl std::error::Error for InvalidMessage {}
-- 
2.43.0


From 43fb2db1dbea64748d25343e2119781e301211bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 18/18] fix: an interrupted handshake is not sent with the next
 message

---
 src/client.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 88dc467..6a0eefc 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -324,8 +324,6 @@ impl Client {
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-    // a previous handshake may have been interrupted before its scratch was cleared
-    self.scratch.clear();
     write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
@@ -341,9 +339,10 @@ impl Client {
     write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
     write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    // if the handshake is interrupted, then its bytes must not become part of the next message
+    let hello = std::mem::take(&mut self.scratch);
+    self.writer.write_all(hello.as_bytes()).await?;
     self.writer.flush().await?;
-    self.scratch.clear();
 
     trace!("waiting for CAP * ACK");
     let message = self.recv().timeout(Duration::from_secs(5)).await??;
-- 
2.43.0


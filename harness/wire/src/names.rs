//! Every named command and tag.

use crate::{out::*, view, Views};
use tmi::{Command, Tag};

pub const COMMANDS: &[(Command<'static>, &str)] = &[
  (Command::Ping, "Ping"),
  (Command::Pong, "Pong"),
  (Command::Join, "Join"),
  (Command::Part, "Part"),
  (Command::Privmsg, "Privmsg"),
  (Command::Whisper, "Whisper"),
  (Command::ClearChat, "ClearChat"),
  (Command::ClearMsg, "ClearMsg"),
  (Command::GlobalUserState, "GlobalUserState"),
  (Command::Notice, "Notice"),
  (Command::Reconnect, "Reconnect"),
  (Command::RoomState, "RoomState"),
  (Command::UserNotice, "UserNotice"),
  (Command::UserState, "UserState"),
  (Command::Capability, "Capability"),
  (Command::RplWelcome, "RplWelcome"),
  (Command::RplYourHost, "RplYourHost"),
  (Command::RplCreated, "RplCreated"),
  (Command::RplMyInfo, "RplMyInfo"),
  (Command::RplNames, "RplNames"),
  (Command::RplEndOfNames, "RplEndOfNames"),
  (Command::RplMotd, "RplMotd"),
  (Command::RplMotdStart, "RplMotdStart"),
  (Command::RplEndOfMotd, "RplEndOfMotd"),
];

/// (variant, its Rust name, the wire name it is documented to have)
pub fn tags() -> Vec<(Tag<'static>, &'static str, &'static str)> {
  vec![
    (Tag::MsgId, "MsgId", "msg-id"),
    (Tag::Badges, "Badges", "badges"),
    (Tag::BadgeInfo, "BadgeInfo", "badge-info"),
    (Tag::DisplayName, "DisplayName", "display-name"),
    (Tag::EmoteOnly, "EmoteOnly", "emote-only"),
    (Tag::Emotes, "Emotes", "emotes"),
    (Tag::Flags, "Flags", "flags"),
    (Tag::Id, "Id", "id"),
    (Tag::Mod, "Mod", "mod"),
    (Tag::RoomId, "RoomId", "room-id"),
    (Tag::Subscriber, "Subscriber", "subscriber"),
    (Tag::TmiSentTs, "TmiSentTs", "tmi-sent-ts"),
    (Tag::Turbo, "Turbo", "turbo"),
    (Tag::UserId, "UserId", "user-id"),
    (Tag::UserType, "UserType", "user-type"),
    (Tag::ClientNonce, "ClientNonce", "client-nonce"),
    (Tag::FirstMsg, "FirstMsg", "first-msg"),
    (Tag::ReplyParentDisplayName, "ReplyParentDisplayName", "reply-parent-display-name"),
    (Tag::ReplyParentMsgBody, "ReplyParentMsgBody", "reply-parent-msg-body"),
    (Tag::ReplyParentMsgId, "ReplyParentMsgId", "reply-parent-msg-id"),
    (Tag::ReplyParentUserId, "ReplyParentUserId", "reply-parent-user-id"),
    (Tag::ReplyParentUserLogin, "ReplyParentUserLogin", "reply-parent-user-login"),
    (Tag::ReplyThreadParentMsgId, "ReplyThreadParentMsgId", "reply-thread-parent-msg-id"),
    (Tag::ReplyThreadParentUserLogin, "ReplyThreadParentUserLogin", "reply-thread-parent-user-login"),
    (Tag::FollowersOnly, "FollowersOnly", "followers-only"),
    (Tag::R9K, "R9K", "r9k"),
    (Tag::Rituals, "Rituals", "rituals"),
    (Tag::Slow, "Slow", "slow"),
    (Tag::SubsOnly, "SubsOnly", "subs-only"),
    (Tag::MsgParamCumulativeMonths, "MsgParamCumulativeMonths", "msg-param-cumulative-months"),
    (Tag::MsgParamDisplayName, "MsgParamDisplayName", "msg-param-displayName"),
    (Tag::MsgParamLogin, "MsgParamLogin", "msg-param-login"),
    (Tag::MsgParamMonths, "MsgParamMonths", "msg-param-months"),
    (Tag::MsgParamPromoGiftTotal, "MsgParamPromoGiftTotal", "msg-param-promo-gift-total"),
    (Tag::MsgParamPromoName, "MsgParamPromoName", "msg-param-promo-name"),
    (Tag::MsgParamRecipientDisplayName, "MsgParamRecipientDisplayName", "msg-param-recipient-display-name"),
    (Tag::MsgParamRecipientId, "MsgParamRecipientId", "msg-param-recipient-id"),
    (Tag::MsgParamRecipientUserName, "MsgParamRecipientUserName", "msg-param-recipient-user-name"),
    (Tag::MsgParamSenderLogin, "MsgParamSenderLogin", "msg-param-sender-login"),
    (Tag::MsgParamSenderName, "MsgParamSenderName", "msg-param-sender-name"),
    (Tag::MsgParamShouldShareStreak, "MsgParamShouldShareStreak", "msg-param-should-share-streak"),
    (Tag::MsgParamStreakMonths, "MsgParamStreakMonths", "msg-param-streak-months"),
    (Tag::MsgParamSubPlan, "MsgParamSubPlan", "msg-param-sub-plan"),
    (Tag::MsgParamSubPlanName, "MsgParamSubPlanName", "msg-param-sub-plan-name"),
    (Tag::MsgParamViewerCount, "MsgParamViewerCount", "msg-param-viewerCount"),
    (Tag::MsgParamRitualName, "MsgParamRitualName", "msg-param-ritual-name"),
    (Tag::MsgParamThreshold, "MsgParamThreshold", "msg-param-threshold"),
    (Tag::MsgParamGiftMonths, "MsgParamGiftMonths", "msg-param-gift-months"),
    (Tag::MsgParamColor, "MsgParamColor", "msg-param-color"),
    (Tag::Login, "Login", "login"),
    (Tag::Bits, "Bits", "bits"),
    (Tag::SystemMsg, "SystemMsg", "system-msg"),
    (Tag::EmoteSets, "EmoteSets", "emote-sets"),
    (Tag::ThreadId, "ThreadId", "thread-id"),
    (Tag::MessageId, "MessageId", "message-id"),
    (Tag::ReturningChatter, "ReturningChatter", "returning-chatter"),
    (Tag::Color, "Color", "color"),
    (Tag::Vip, "Vip", "vip"),
    (Tag::TargetUserId, "TargetUserId", "target-user-id"),
    (Tag::TargetMsgId, "TargetMsgId", "target-msg-id"),
    (Tag::BanDuration, "BanDuration", "ban-duration"),
    (Tag::MsgParamMultimonthDuration, "MsgParamMultimonthDuration", "msg-param-multimonth-duration"),
    (Tag::MsgParamWasGifted, "MsgParamWasGifted", "msg-param-was-gifted"),
    (Tag::MsgParamMultimonthTenure, "MsgParamMultimonthTenure", "msg-param-multimonth-tenure"),
    (Tag::SentTs, "SentTs", "sent-ts"),
    (Tag::MsgParamOriginId, "MsgParamOriginId", "msg-param-origin-id"),
    (Tag::MsgParamFunString, "MsgParamFunString", "msg-param-fun-string"),
    (Tag::MsgParamSenderCount, "MsgParamSenderCount", "msg-param-sender-count"),
    (Tag::MsgParamProfileImageUrl, "MsgParamProfileImageUrl", "msg-param-profileImageURL"),
    (Tag::MsgParamMassGiftCount, "MsgParamMassGiftCount", "msg-param-mass-gift-count"),
    (Tag::MsgParamGiftMonthBeingRedeemed, "MsgParamGiftMonthBeingRedeemed", "msg-param-gift-month-being-redeemed"),
    (Tag::MsgParamAnonGift, "MsgParamAnonGift", "msg-param-anon-gift"),
    (Tag::CustomRewardId, "CustomRewardId", "custom-reward-id"),
    (Tag::PinnedChatPaidAmount, "PinnedChatPaidAmount", "pinned-chat-paid-amount"),
    (Tag::PinnedChatPaidCanonicalAmount, "PinnedChatPaidCanonicalAmount", "pinned-chat-paid-canonical-amount"),
    (Tag::PinnedChatPaidCurrency, "PinnedChatPaidCurrency", "pinned-chat-paid-currency"),
    (Tag::PinnedChatPaidExponent, "PinnedChatPaidExponent", "pinned-chat-paid-exponent"),
    (Tag::PinnedChatPaidLevel, "PinnedChatPaidLevel", "pinned-chat-paid-level"),
    (Tag::PinnedChatPaidIsSystemMessage, "PinnedChatPaidIsSystemMessage", "pinned-chat-paid-is-system-message"),
  ]
}

fn tag_name(t: &Tag<'_>) -> String {
  let s = format!("{t:?}");
  if s.starts_with("Unknown(") {
    "Unknown".into()
  } else {
    s
  }
}

pub fn run(views: &mut Views) {
  view(views, "tags", || {
    obj([("all", list(tags().into_iter().map(|(t, name, wire)| {
      let s = t.as_str();
      obj([
        ("name", word(name)),
        ("wire", text(s)),
        ("shown", text(t.to_string())),
        ("back", flag(Tag::parse(s) == t && Tag::from(s) == t)),
        ("parsed", word(tag_name(&Tag::parse(wire)))),
      ])
    })))])
  });
  view(views, "commands", || {
    obj([("all", list(COMMANDS.iter().map(|(c, name)| {
      obj([("name", word(name)), ("wire", text(c.as_str())), ("shown", text(c.to_string()))])
    })))])
  });
}
